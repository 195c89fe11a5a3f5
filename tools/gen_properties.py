#!/usr/bin/env python3
# Regenerates /verif/properties.jsonl (the single source of the property texts).
import json, os
LEX, VAL, VS, VP, VM, CON, API, TYP, COM = ("internal/lexer/lexer.go","internal/validator/validator.go","internal/validator/validator_sqlite.go","internal/validator/validator_postgresql.go","internal/validator/validator_mysql.go","internal/converter/converter.go","ddlparse.go","internal/types/types.go","internal/common/utils.go")
VALS=[VAL,VS,VP,VM]
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None):
    assert len(title)<=80, title
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=["Parse, ParseSQLite, ParsePostgreSQL, ParseMySQL, ParseForce"],hook_needed=None)))

p("C01","Every parse terminates and returns normally",
 "For every input text and every dialect, each parse entry point returns: it never panics, never overflows the stack, and never loops or allocates without bound. This includes truncated statements, unbalanced brackets, unclosed quotes or comments, and arbitrary garbage.",
 ["inputs"],"all input strings, all three dialects, all entry points",
 "The suite parses about 100 complete documents; a hang, panic or stack overflow needs a truncation or a token order nobody wrote down (e.g. an open bracket at end of input).",
 [API,LEX,CON]+VALS,[("cursor loops and recursion guarded by out-of-range tests","lexer.lex, validator.validateBracketsAux, converter.convertTableDefinition/convertCommaSeparatedColumnNames")],
 [dict(name="i/size",meaning="cursor into runes or tokens",where="lexer, validator, converter structs")])
p("C02","All-or-nothing result and error contract",
 "A parse either succeeds with a nil error and a non-nil (possibly empty) table list, or fails with an error that is a ValidateError and an empty, non-nil table list; no other combination occurs. If any statement of the text is malformed, however late, the call fails and no table of the other statements is returned.",
 ["inputs"],"all input strings in all dialects, error position anywhere in the text",
 "Tests look at the error or at the tables of single documents, never at both for an error in the k-th of n statements.",
 [API,"internal/common/errors.go"]+VALS,[("early return of []Table{} with the stage's error","ddlparse.Parse"),("statement loop stops at the first error","validate() of each dialect validator")])
p("C03","Errors name the first offending token and its line",
 "When a text is rejected for its syntax, Near is the first token after which no well-formed continuation exists ('<EOF>' if the text ends too early) and Line is the 1-based line on which that token stands. Line breaks are counted wherever they occur: leading blank lines, inside comments, inside quoted text, between any two tokens. Text that cannot be split into tokens (unclosed quote or block comment, stray '*/', full-width space, a back quote in PostgreSQL) is reported the same way, before any other syntax error.",
 ["inputs"],"all rejected texts: any grammatical prefix followed by any unacceptable token, in any layout",
 "Around 120 error positions are asserted, nearly all on documents that start on line 1 and contain neither multi-line strings nor consecutive comments.",
 [LEX,VAL,"internal/common/errors.go"]+VALS[1:],[("line counters advanced on every newline token","lexer.lexEOL/skipComment/skipMultiLineComment/lexString*, validator.next/init"),("syntaxError() reports the current token","validator.syntaxError")],
 [dict(name="line",meaning="current line",where="lexer.line, validator.line")])
p("C04","White space, line breaks and comments never change the result",
 "Between any two tokens, any amount of blanks, tabs, line breaks (LF or CRLF), '--' line comments, '/* */' block comments (and, for MySQL, '#' comments), in any combination and adjacency, is equivalent to one blank; where a bracket, comma, dot, semicolon or quote separates tokens, nothing at all is needed. The tables returned are identical whatever the layout, and a comment's content is never interpreted.",
 ["inputs"],"all documents x all ways of laying out and commenting them",
 "Three lexer documents and a few comments exist; adjacency (comment after comment, comment at end of file, '**/' endings, comment directly after a token) is combinatorial.",
 [LEX,VAL],[("whitespace and comment skipping","lexer.lex, lexHyphen, lexSlash, lexSharp, skipComment, skipMultiLineComment"),("newline tokens skipped by the cursor","validator.next")])
p("C05","Quoted text is opaque and kept verbatim",
 "Text between a pair of quotes (single, double, or back quotes where the dialect has them) is one token whatever it contains: keywords, brackets, commas, semicolons, comment markers, blanks, line breaks and the other kinds of quotes neither end it nor take effect. Where the quoted text is reported (names, string defaults, expressions), it is reported character for character.",
 ["inputs"],"all quoted contents not containing their own quote character, in every position that accepts quoted text, in all dialects",
 "Tests quote plain words only, plus one nested quote whose content is not looked at.",
 [LEX,CON],[("quote scanners","lexer.lexStringDoubleQuote/SingleQuote/BackQuote"),("quote stripping","converter.convertName, convertLiteralValue")])
p("C06","Each CREATE TABLE yields one Table, in order, with its header",
 "The result holds exactly one Table per CREATE TABLE statement of the text, in source order, each with its own schema (empty if none), name and IF NOT EXISTS flag. Other supported CREATE statements (views, indexes, triggers with BEGIN...END bodies, and so on) contribute nothing and do not disturb the tables around them.",
 ["inputs"],"all sequences of table and non-table statements in all dialects, all header shapes",
 "Tests use at most four statements in one fixed order; the header shapes x positions x neighbours product is not sampled.",
 [CON]+VALS,[("statement loop","converter.convert/convertTable"),("non-table statements swallowed up to their ';'","validateCreateOther of each dialect")])
p("C07","Columns keep their order, name, type and type parameters",
 "A table's columns are reported in declaration order and completely, each with its name (quotes removed, case kept), its upper-cased data type name, and the integers given in brackets after the type (0 when absent). This holds for every data type the dialect supports and independently of the surrounding constraints.",
 ["inputs"],"all column lists over all supported types and parameter forms, in all dialects",
 "Each type is converted once, in one position, with one parameter value and one constraint set.",
 [CON,VS,VP,VM],[("column conversion","converter.convertColumnDefinition/convertDateType/convertTypeDigit"),("type grammar","validateColumnType of each dialect")])
p("C08","Column constraints are reported exactly as declared",
 "For every column, primary key, unique, not null, auto-increment, collation and the leading constraint name are reported if and only if they are declared on that column, whatever the order, number and kind of the other constraints around them. A constraint on one column never shows up on another column or in the table constraints.",
 ["inputs"],"all sequences of column constraints, on any column of any table, in all dialects",
 "The order/subset space of 9 to 21 constraint kinds per column is not sampled beyond pairs chosen by hand.",
 [CON,VS,VP,VM],[("constraint loop","converter.convertConstraint/convertConstraintAux"),("validated token filtering","validateColumnConstraint* of each dialect")])
p("C09","Default literals keep their value and their kind",
 "A literal DEFAULT is reported as a number for numeric literals (sign, decimals and exponents included), a string for quoted strings (also when the content looks like a number, keyword or NULL, or is empty), a boolean for TRUE/FALSE, nil for NULL, and the keyword as written for CURRENT_DATE, CURRENT_TIME and CURRENT_TIMESTAMP. Anything else unbracketed after DEFAULT is a syntax error.",
 ["inputs"],"all literal tokens after DEFAULT in all dialects",
 "A dozen literals are tried; the classification splits an infinite token space.",
 [CON,COM,VS,VP,VM],[("literal typing","converter.convertLiteralValue, common.IsNumericToken"),("literal grammar","validateLiteralValue of each dialect")])
p("C10","Bracketed expressions are captured whole and unaltered",
 "The text reported for CHECK (...) and DEFAULT (...) is the complete expression with its outermost brackets, up to the matching bracket at any nesting depth, with every token in order, unchanged, and still separated from its neighbours (white space may be normalised, words are never glued together). Parsing resumes correctly after the expression.",
 ["inputs"],"all balanced bracket expressions, in every position that takes one, in all dialects",
 "Five expressions are tried; nesting shapes and token adjacency are unbounded.",
 [CON,VAL],[("balanced capture","validator.validateBrackets/validateBracketsAux, converter.convertExpr/convertExprAux")])
p("C11","Table-level keys and checks are reported exactly as declared",
 "PRIMARY KEY, UNIQUE and CHECK table constraints are reported one entry per declaration, in order, each with its own name (empty if unnamed), and its own column list in order or its expression. They may be interleaved with columns, foreign keys and other constraints in any way without affecting them.",
 ["inputs"],"all sequences of table constraints and columns in all dialects",
 "Tests convert at most four table constraints in one order per dialect.",
 [CON,VS,VP,VM],[("table constraint conversion","converter.convertTableConstraint, convertCommaSeparatedColumnNames"),("definition loop","converter.convertTableDefinition")])
p("C12","Foreign keys and references are reported exactly as declared",
 "Each FOREIGN KEY table constraint is reported, in order, with its name, its column list, the referenced table and the referenced columns in order (none if omitted); each column-level REFERENCES is reported on its own column in the same way. A schema-qualified referenced table is reported as schema.table, and referential actions, MATCH and deferral clauses change nothing.",
 ["inputs"],"all foreign key and references clauses, with all action/match/deferral sequences, in all dialects",
 "A handful of references are converted, none schema-qualified, none followed by another constraint.",
 [CON,VS,VP,VM],[("reference conversion","converter.convertReference"),("reference grammar","validateConstraintReferences*, validateTableConstraintForeignKey")])
p("C13","Clauses without a field in the result leave no trace",
 "Adding any accepted clause that the Table object has no field for (conflict clauses, index parameters and options, generated-column clauses, column attributes and comments, MySQL INDEX/KEY/FULLTEXT/SPATIAL definitions, PostgreSQL EXCLUDE constraints, ON UPDATE, table options) leaves the reported tables exactly as they are without the clause. This holds wherever the clause stands: first, last, alone, repeated, or between things that are reported.",
 ["inputs"],"all documents x all insertions of unreported clauses, in all dialects",
 "Validator tests only check that the clauses are accepted; most are never converted.",
 VALS+[CON],[("tokens dropped by the validator","set=false paths in each dialect validator"),("tolerance for the gaps left behind","converter.next, convertTableDefinition")])
p("C14","Every documented construct is accepted",
 "Every text derivable from the documented grammar of a dialect (all data types, constraints, options and their alternatives, in every documented order and combination) parses without error in that dialect. Acceptance does not depend on what precedes or follows the construct.",
 ["inputs"],"all derivations of the three grammars",
 "Tests list each alternative once in a fixed neighbourhood; combinations (a clause followed by another) are where a greedy parser goes wrong.",
 VALS,[("recursive-descent validators","validate* functions of each dialect")])
p("C15","Ungrammatical DDL is rejected",
 "A text that is not derivable from the supported grammar of the selected dialect is rejected with a ValidateError: missing, surplus, misplaced or misspelt tokens, missing terminators, empty lists, repeated column constraints of one kind, both NULL and NOT NULL. In particular, deleting, inserting or replacing a single token of a valid document is accepted only if the outcome is itself grammatical.",
 ["inputs"],"all token sequences over the dialect's vocabulary",
 "About 120 negative documents exist against the unbounded set of near-misses.",
 VALS,[("validateToken / matchToken decisions at every grammar position","validate* functions of each dialect")])
p("C16","Names follow the dialect's identifier rules in every position",
 "An unquoted name is accepted exactly if it is a letter or underscore followed by letters, digits and underscores and is not a reserved word of the dialect (compared without regard to case); a name quoted with the dialect's identifier quotes is always accepted, reserved or not. The same rule applies in every position that takes a name: schema, table, column, constraint, key column, referenced table and column, and names inside options.",
 ["inputs"],"all words x all name positions x all dialects",
 "Two or three reserved words out of some 700 are tried, in one position.",
 [VS,VP,VM],[("name check and reserved word lists","isValidName, ReservedWords_* of each dialect")])
p("C17","Keywords and type names are case-insensitive",
 "Writing any keyword, type name or option in any mixture of upper and lower case changes neither acceptance nor the reported tables, apart from parts that are reported as written. Names and quoted text keep their case.",
 ["inputs"],"all documents x all case variants of their keywords, in all dialects",
 "Tests contain all-upper and all-lower variants of some keywords in one stage only.",
 [VAL,CON]+VALS[1:],[("keyword comparison","validator.matchToken, converter.matchToken")])
p("C18","All entry points agree; ParseForce takes the first fitting dialect",
 "ParseSQLite, ParsePostgreSQL and ParseMySQL return exactly what Parse returns for that dialect. ParseForce returns the tables of the first dialect that accepts the text, trying SQLite, then PostgreSQL, then MySQL, and returns a ValidateError and no tables exactly when all three reject it.",
 ["inputs"],"all input strings",
 "ParseForce is exercised on three accepted documents and never on a rejected one.",
 [API],[("delegation and fallback loop","ddlparse.ParseSQLite/ParsePostgreSQL/ParseMySQL/ParseForce")])
p("C19","A parse depends only on its arguments and owns its result",
 "The result of a call is a function of the text and the dialect alone: it is the same whatever calls, successful or failing, for the same or other dialects, went before. Results are independent: modifying a returned table, its slices or their spare capacity never affects any earlier or later result, nor any other part of the same result.",
 ["histories"],"all sequences of parse calls and caller-side modifications of results",
 "Every test makes isolated calls and looks at one result; leaks between calls need particular pairs or triples of calls.",
 [API,LEX,CON]+VALS,[("fresh lexer, validator and converter per call","ddlparse.Parse"),("init() resets all cursor state","lexer.init, validator.init, converter.init")])
p("C20","Concurrent parses do not interfere",
 "When several goroutines parse at the same time, each call returns exactly what it returns when run alone, under every interleaving of their steps.",
 ["schedules"],"all interleavings of concurrent parse calls",
 "The suite is sequential and uses one goroutine; a harmful interleaving has to be scheduled deliberately.",
 [API,LEX,CON,COM]+VALS,[("no mutable state shared between calls","package-level variables are only read; all cursors live in per-call structs")])
p("C21","Parsing a concatenation is the concatenation of the parses",
 "If two texts consisting of complete statements (each ending in its semicolon) are each accepted, their concatenation, with any layout in between, is accepted and yields the tables of the first followed by the tables of the second, unchanged. If the first is accepted and the second rejected, the concatenation is rejected with the second's error, its line shifted by the number of line breaks before it.",
 ["inputs","histories"],"all pairs and triples of complete texts",
 "Tests never relate the result for a text to the results for its parts.",
 [VAL,CON,LEX],[("no state carried from one statement to the next","validate() and convert() loops")])
p("C22","Results serialise to the documented JSON shape",
 "Every result of a successful parse can be marshalled to JSON, uses exactly the documented key names at every level, and unmarshals back into an equal value.",
 ["inputs"],"all accepted documents",
 "Tests compare JSON of fixed documents; values that cannot be marshalled or do not survive a round trip are not looked for.",
 [TYP,CON,COM],[("json tags","internal/types/types.go"),("values restricted to nil, bool, float64, string","converter.convertLiteralValue")])
p("C23","The selected dialect alone decides how a text is read",
 "Quoting rules, '#' comments, data types, constraints, options, statement kinds and terminator rules are those of the selected dialect: a construct that only other dialects have is rejected, and one that several dialects have is read by the selected one's rules (for example, double quotes delimit strings in MySQL and identifiers elsewhere).",
 ["inputs","configurations"],"all texts of each dialect's grammar under each of the three dialects",
 "Each test file runs one dialect on its own documents; foreign constructs are almost never tried.",
 [LEX,CON]+VALS,[("dialect switch","validator.NewValidator, lexer.lexBackQuote/lexSharp, converter.isIdentifier/isStringValue")])
p("C24","Results do not depend on size",
 "The number of statements, columns, constraints, key columns, options and nested brackets, and the length of names, numbers, strings and comments, are unlimited: every element of a long list is reported like that of a short one, and numbers are reported exactly.",
 ["inputs"],"all repetition counts and lengths of every repeatable construct",
 "No test has more than 60 columns or bracket depth above 4, and none compares sizes.",
 [LEX,CON]+VALS,[("unbounded recursion over lists; slices grown by append","validateColumnDefinitions, validateCommaSeparatedColumnNames, converter loops")])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
