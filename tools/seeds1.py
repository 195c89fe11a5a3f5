#!/usr/bin/env python3
from seedlib import seed
V='internal/validator/';L='internal/lexer/lexer.go';C='internal/converter/converter.go'
S,P,M=V+'validator_sqlite.go',V+'validator_postgresql.go',V+'validator_mysql.go'
def m(body): return 'func main() {\n'+body+'\n}\n'

seed('b01-trigger-eof','C01',[(S,'''	for true {
		if v.isOutOfRange() {
			return v.syntaxError()
		}
''','''	for true {
		if v.isOutOfRange() && !begin {
			return v.syntaxError()
		}
''')],'a SQLite trigger whose BEGIN body is cut off at the end of the text','the skipping loop never ends: the end-of-input test no longer applies inside a body',
m('''	done := make(chan bool)
	go func() { ddl.ParseSQLite("CREATE TRIGGER g AFTER INSERT ON t BEGIN SELECT 1;"); done <- true }()
	select {
	case <-done:
	case <-after():
		fail("does not return")
	}''')+'''
func after() chan bool {
	c := make(chan bool)
	go func() { time.Sleep(5 * time.Second); c <- true }()
	return c
}
''')

seed('b02-trailing-text','C02',[(M,'''	if (v.isOutOfRange()) {
		return nil
	}
	if err := v.validateDdl(); err != nil {''','''	if v.isOutOfRange() || (len(v.result) > 0 && !v.matchToken("CREATE")) {
		return nil
	}
	if err := v.validateDdl(); err != nil {''')],'MySQL, text after a complete CREATE TABLE statement that does not begin with CREATE','a malformed later statement is ignored and the tables before it are returned without an error',
m('''	reject("CREATE TABLE t (a INT);\\nCRATE TABLE u (b INT);", ddl.MySQL, "CRATE", 2)'''))

seed('b03-backquote-lines','C03',[(L,'''			l.line += 1
			l.appendToken("\\n")
			str += c
		} else if c == "`" {''','''			l.line += 1
			str += c
		} else if c == "`" {''')],'a line break inside a back-quoted name and a syntax error after it','the error line is too small by the line breaks inside back quotes',
m('''	reject("CREATE TABLE `a\\nb` (c INT\\nx);", ddl.MySQL, "x", 3)'''))

seed('b04-sharp-glued','C04',[(L,'''		if l.rdbms == common.MySQL {
			l.appendToken(*token)
			*token = ""
			l.skipComment()''','''		if l.rdbms == common.MySQL && *token == "" {
			l.skipComment()''')],'a MySQL # comment directly after a word','the comment is taken for part of the word',
m('''	a := must("CREATE TABLE t (a INT # c\\n);", ddl.MySQL)
	b := must("CREATE TABLE t (a INT# c\\n);", ddl.MySQL)
	if !reflect.DeepEqual(a, b) { fail(a, b) }'''))

seed('b05-trim-quotes','C05',[(C,'''	if c.isStringValue(token) {
		return token[1 : len(token)-1]
	}''','''	if c.isStringValue(token) {
		return strings.Trim(token, "'\\"")
	}''')],'a string default that begins or ends with the other kind of quote','quotes that belong to the content are stripped',
m('''	ts := must(`CREATE TABLE t (a TEXT DEFAULT '"x" y');`, ddl.SQLite)
	if ts[0].Columns[0].Constraint.Default != `"x" y` { fail(ts) }'''))

seed('b07-digit-range','C07',[(C,'		n, _ = strconv.Atoi(c.next())\n		if','		digit, _ := strconv.ParseUint(c.next(), 10, 16)\n		n = int(digit)\n		if')],'a type parameter above 65535','large lengths are reported as 65535',
m('''	ts := must("CREATE TABLE t (aa VARCHAR(100000));", ddl.PostgreSQL)
	if ts[0].Columns[0].DataType.DigitN != 100000 { fail(ts) }'''))

seed('b08-unique-after-pk','C08',[(C,'		constraint.IsUnique = true\n','		constraint.IsUnique = !constraint.IsPrimaryKey\n')],'PRIMARY KEY and then UNIQUE on the same column','UNIQUE is not reported when PRIMARY KEY stands before it',
m('''	ts := must("CREATE TABLE t (a INTEGER PRIMARY KEY NOT NULL UNIQUE);", ddl.SQLite)
	if !ts[0].Columns[0].Constraint.IsUnique { fail(ts) }'''))

seed('b09-quoted-true','C09',[(C,'	if strings.ToUpper(token) == "TRUE" {','	if strings.EqualFold(strings.Trim(token, "\'\\""), "TRUE") {'),(C,'''	if c.isStringValue(token) {
		return token[1 : len(token)-1]
	}
	if strings.ToUpper(token) == "NULL" {
		return nil
	}
''','''	if strings.ToUpper(token) == "NULL" {
		return nil
	}
'''),(C,'''		return false
	}
	return token	
''','''		return false
	}
	if c.isStringValue(token) {
		return token[1 : len(token)-1]
	}
	return token	
''')],"the default 'true' as a quoted string",'a string default is reported as a boolean',
m('''	ts := must("CREATE TABLE t (a TEXT DEFAULT 'true');", ddl.SQLite)
	if ts[0].Columns[0].Constraint.Default != "true" { fail(ts) }'''))

seed('b10-double-comma','C10',[(C,'''	if token == "," && c.token() == "," {
		return c.next()
	}''','''	if (token == "," || token == "(") && c.token() == token {
		return c.next()
	}''')],'two opening brackets in a row inside an expression','a bracket of the expression is lost and the conversion runs past its end',
m('''	ts := must("CREATE TABLE t (a INTEGER CHECK ((a > 1) AND (a < 3)), b TEXT);", ddl.SQLite)
	s := strings.ReplaceAll(ts[0].Columns[0].Constraint.Check, " ", "")
	if s != "((a>1)AND(a<3))" || len(ts[0].Columns) != 2 { fail(ts) }'''))

seed('b12-fk-default-columns','C12',[(C,'''		foreignKey.References = c.convertReference()
''','''		foreignKey.References = c.convertReference()
		if foreignKey.References.ColumnNames == nil {
			foreignKey.References.ColumnNames = foreignKey.ColumnNames
		}
''')],'FOREIGN KEY ... REFERENCES t without referenced columns','columns are invented for the referenced table',
m('''	ts := must("CREATE TABLE t (a INTEGER, FOREIGN KEY (a) REFERENCES u);", ddl.SQLite)
	if len(ts[0].Constraints.ForeignKey[0].References.ColumnNames) != 0 { fail(ts) }'''))

seed('b13-stored-left','C13',[(S,'	v.matchTokenNext(false, "STORED", "VIRTUAL")\n','	v.matchTokenNext(len(v.tokens) > 30, "STORED", "VIRTUAL")\n')],'STORED or VIRTUAL after a generated column followed by other constraints, in a statement of more than 30 tokens','the word is passed on and ends the conversion of the column early',
m('''	s := "CREATE TABLE t (a INTEGER, b INTEGER, c INTEGER, d INTEGER, e INTEGER AS (a + b) STORED NOT NULL, f TEXT);"
	ts := must(s, ddl.SQLite)
	us := must(strings.Replace(s, " STORED", "", 1), ddl.SQLite)
	if !reflect.DeepEqual(ts, us) { fail(ts) }'''))

seed('b14-no-action','C14',[(S,'''			return v.syntaxError()
		}
		return v.validateConstraintReferencesAux()
	}

	if v.matchTokenNext(false, "MATCH") {''','''			return v.syntaxError()
		}
		if !v.matchToken("ON", "MATCH", "NOT", "DEFERRABLE", "UNIQUE", "CHECK", "DEFAULT", "COLLATE", "GENERATED", "AS", ",", ")") {
			return v.syntaxError()
		}
		return v.validateConstraintReferencesAux()
	}

	if v.matchTokenNext(false, "MATCH") {''')],'SQLite: a referential action directly followed by PRIMARY KEY','a documented order of constraints is rejected',
m('''	must("CREATE TABLE t (a INTEGER REFERENCES u (b) ON DELETE CASCADE PRIMARY KEY);", ddl.SQLite)'''))

seed('b15-open-key-list','C15',[(P,'''	if v.matchTokenNext(set, ",") {
		return v.validateCommaSeparatedColumnNames(set)
	}''','''	if v.matchTokenNext(set, ",") && !v.matchToken(")") {
		return v.validateCommaSeparatedColumnNames(set)
	}''')],'PostgreSQL: a comma before the closing bracket of a key column list','a malformed list is accepted',
m('''	reject("CREATE TABLE t (aa INTEGER, PRIMARY KEY (aa,));", ddl.PostgreSQL, ")", 1)'''))

seed('b16-qualified-reserved','C16',[(M,'''	if v.matchTokenNext(set, ".") {
		if err := v.validateName(set); err != nil {
			return err
		}
	}

	return nil''','''	if v.matchTokenNext(set, ".") {
		if !regexp.MustCompile("^[a-zA-Z_][a-zA-Z0-9_]*$").MatchString(v.token()) {
			return v.validateName(set)
		}
		if set {
			v.set(v.next())
		} else {
			v.next()
		}
	}

	return nil''')],'MySQL: a reserved word as the table part of a qualified name','a reserved word is accepted as a name after a dot',
m('''	reject("CREATE TABLE s.select (a INT);", ddl.MySQL, "select", 1)
	must("CREATE TABLE s.`select` (a INT);", ddl.MySQL)'''))

seed('b17-case-type','C17',[(C,'	dataType.Name = strings.ToUpper(c.next())\n','	dataType.Name = c.next()\n	if dataType.Name == strings.ToLower(dataType.Name) {\n		dataType.Name = strings.ToUpper(dataType.Name)\n	}\n')],'a type name in mixed case','the type name is reported as written',
m('''	ts := must("CREATE TABLE t (a Integer);", ddl.SQLite)
	if ts[0].Columns[0].DataType.Name != "INTEGER" { fail(ts) }'''))

seed('b18-force-order','C18',[('ddlparse.go','ls := []Rdbms{SQLite, PostgreSQL, MySQL}','ls := []Rdbms{SQLite, MySQL, PostgreSQL}')],'a text that PostgreSQL and MySQL read differently and SQLite rejects','ParseForce tries the dialects in the wrong order',
m('''	// accepted by PostgreSQL and MySQL with different outcomes: PostgreSQL's counts
	s := "CREATE TABLE t (aa INT CHECK (aa # 1\\n > 2));"
	ts, err := ddl.ParseForce(s)
	us := must(s, ddl.PostgreSQL)
	if err != nil || !reflect.DeepEqual(ts, us) { fail(ts, us) }'''))

seed('b19-cache','C19',[('ddlparse.go','''func Parse(ddl string, rdbms Rdbms) ([]Table, error) {
''','''var cache = map[string][]Table{}
var cacheLock sync.Mutex

func Parse(ddl string, rdbms Rdbms) ([]Table, error) {
	cacheLock.Lock()
	defer cacheLock.Unlock()
	key := string(rdbms) + ddl
	if tables, ok := cache[key]; ok {
		return append([]Table{}, tables...), nil
	}
'''),('ddlparse.go','	return c.Convert(validatedTokens), nil\n','	tables := c.Convert(validatedTokens)\n	cache[key] = tables\n	return append([]Table{}, tables...), nil\n'),('ddlparse.go','import (\n','import (\n	"sync"\n')],'the same text parsed twice, and the columns of the first result modified in between','results share their column slices through a cache',
m('''	s := "CREATE TABLE t (a INTEGER);"
	a := must(s, ddl.SQLite)
	a[0].Columns[0].Name = "changed"
	b := must(s, ddl.SQLite)
	if b[0].Columns[0].Name != "a" { fail(b) }'''))

seed('b20-shared-lexer','C20',[(L,'''func NewLexer(rdbms common.Rdbms) Lexer {
	return &lexer{rdbms: rdbms}
}''','''var lexers = map[common.Rdbms]*lexer{
	common.SQLite: {rdbms: common.SQLite},
	common.PostgreSQL: {rdbms: common.PostgreSQL},
	common.MySQL: {rdbms: common.MySQL},
}

func NewLexer(rdbms common.Rdbms) Lexer {
	return lexers[rdbms]
}''')],'two parses of the same dialect at the same time','the calls share one lexer and overwrite each other',
m('''	var wg sync.WaitGroup
	texts := []string{"CREATE TABLE aaaa (x INTEGER);" + strings.Repeat("CREATE TABLE b (y TEXT);", 20), "CREATE TABLE cc (z REAL, y TEXT);"}
	want := [][]ddl.Table{must(texts[0], ddl.SQLite), must(texts[1], ddl.SQLite)}
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			defer func() {
				if p := recover(); p != nil { fail(p) }
			}()
			for k := 0; k < 300; k++ {
				ts, err := ddl.Parse(texts[g%2], ddl.SQLite)
				if err != nil || !reflect.DeepEqual(ts, want[g%2]) { fail("interference", err) }
			}
		}(g)
	}
	wg.Wait()'''))

seed('b21-name-carries','C21',[(C,'''	i int
	result []types.Table''','''	i int
	seen map[string]bool
	result []types.Table'''),(C,'''	c.i = 0
	c.result = []types.Table{}''','''	c.i = 0
	c.seen = map[string]bool{}
	c.result = []types.Table{}'''),(C,'''		table := c.convertTable()
		c.result = append(c.result, table)''','''		table := c.convertTable()
		key := table.Schema + "." + table.Name
		if !table.IfNotExists || !c.seen[key] {
			c.result = append(c.result, table)
		}
		c.seen[key] = true''')],'a table name that occurs earlier in the text, and IF NOT EXISTS on the later statement','the second statement yields nothing when both are in one text',
m('''	a, b := "CREATE TABLE t (x INTEGER);", "CREATE TABLE IF NOT EXISTS t (y TEXT);"
	if len(must(a+b, ddl.SQLite)) != len(must(a, ddl.SQLite))+len(must(b, ddl.SQLite)) { fail("lost a table") }'''))

seed('b24-name-63','C24',[(C,'''	token := c.next()
	if c.isIdentifier(token) {
		return token[1 : len(token)-1]
	} else {
		return token
	}''','''	token := c.next()
	if c.isIdentifier(token) {
		return token[1 : len(token)-1]
	}
	if c.rdbms == common.PostgreSQL && len(token) > 63 {
		return token[:63] // NAMEDATALEN - 1
	}
	return token''')],'PostgreSQL: an unquoted name of more than 63 characters','names are cut off',
m('''	n := strings.Repeat("n", 64)
	ts := must("CREATE TABLE t ("+n+" INTEGER);", ddl.PostgreSQL)
	if ts[0].Columns[0].Name != n { fail(ts) }'''))


seed('b06-schema-carries','C06',[(C,"""	} else {
		tableName = schemaName
		schemaName = ""
	}
""","""	} else {
		tableName = schemaName
		schemaName = ""
		if n := len(c.result); n > 0 && c.result[n-1].Name == tableName {
			schemaName = c.result[n-1].Schema
		}
	}
""")],'two tables of the same name in a row, the first one with a schema','the second table is reported in the schema of the first',
m("""	ts := must("CREATE TABLE s.t (x INTEGER); CREATE TABLE t (x INTEGER);", ddl.SQLite)
	if ts[0].Schema != "s" || ts[1].Schema != "" { fail(ts) }"""))

seed('b11-same-check','C11',[(C,"""		tableConstraint.Check = append(tableConstraint.Check, check)
""","""		for _, other := range tableConstraint.Check {
			if other.Expr == check.Expr {
				return // the same condition again
			}
		}
		tableConstraint.Check = append(tableConstraint.Check, check)
""")],'two CHECK table constraints with the same expression and different names','the second declaration is not reported',
m("""	ts := must("CREATE TABLE t (a INTEGER, CHECK (a > 1), CONSTRAINT u CHECK (a > 1));", ddl.SQLite)
	if len(ts[0].Constraints.Check) != 2 { fail(ts) }"""))

seed('b22-infinite-default','C22',[('internal/common/utils.go',"""	_, err := strconv.ParseFloat(token, 64)
	return err == nil""","""	_, err := strconv.ParseFloat(token, 64)
	return err == nil || strings.HasSuffix(err.Error(), "value out of range")""")],'a numeric default beyond the range of float64','the result holds an infinity, which cannot be marshalled to JSON',
m("""	ts, err := ddl.ParseSQLite("CREATE TABLE t (a REAL DEFAULT 1e999);")
	if err == nil {
		if _, err := json.Marshal(ts); err != nil { fail(err) }
	}"""))

seed('b23-mysql-ansi-quotes','C23',[(M,'	return token[0:1] == "`"\n','	return token[0:1] == "`" || token[0:1] == "\\""\n')],'MySQL: a double-quoted text where a name is expected','a string is accepted as an identifier, and reported with its quotes',
m("""	reject("CREATE TABLE \\"t\\" (a INT);", ddl.MySQL, "\\"t\\"", 1)"""))
