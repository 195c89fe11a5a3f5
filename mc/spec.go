package main

// The supported grammar of the three dialects, written from README.md (the documented syntax),
// as declarative data.  Lenient(...) marks readings the documentation does not settle: texts whose
// verdict depends on them are outside the specification.

func posDigits(op1 bool) *Node { // (n)
	return Opt("(", PosInt(opDigN), ")")
}
func timeDigits() *Node { // (p), 0 allowed
	return Opt("(", Alt(PosInt(opDigN), Zero(opDigN)), ")")
}
func intDigits() *Node { // MySQL integer display width
	return Opt("(", Alt(PosInt(opDigN), Lenient(Zero(opDigN))), ")")
}
func psDigits() *Node {
	return Opt("(", PosInt(opDigN), Opt(",", Alt(PosInt(opDigM), Zero(opDigM))), ")")
}

func literal(op Op) *Node {
	return Tag("literal", Alt(Num(op), Str(op), KW("NULL|TRUE|FALSE|CURRENT_DATE|CURRENT_TIME|CURRENT_TIMESTAMP", op)))
}

func actionClause() *Node {
	return Seq("ON DELETE|UPDATE", Alt("SET NULL|DEFAULT", "CASCADE|RESTRICT", "NO ACTION"))
}

func matchClause() *Node { return phrase("MATCH FULL|PARTIAL|SIMPLE") }

func refName() *Node {
	return Seq(Name(opRefTable), Opt(".", Name(opRefTable2)))
}

func tableHeader() *Node {
	return Seq("TABLE", Act(opTable), Opt("IF NOT", KW("EXISTS", opIfNotExists)),
		TblFirst(opTblName), Opt(".", Name(opTblName2)))
}

func other(samples ...string) *Node {
	n := &Node{k: nOther}
	for _, s := range samples {
		n.samples = append(n.samples, words(s))
	}
	return n
}

var otherSamples = []string{
	"x AS y ;",
	"x ON t ( a , b ) ;",
	"x BEFORE y BEGIN SELECT 1 ; SELECT 2 ; END ;",
	"x BEFORE y BEGIN SELECT CASE a WHEN 1 THEN 2 END ; SELECT 2 ; END ;",
	";",
}

// colCons: [CONSTRAINT name] constraint ...; each kind at most once
func colCons(item *Node) *Node {
	return Seq(Clear(), Opt(Alt(
		Seq(Opt("CONSTRAINT", Name(opCName)), item, Star(Opt("CONSTRAINT", Name(opNone)), item)),
		Lenient(Seq("CONSTRAINT", Name(opCName))),
	)), Clear())
}

func keyCols() *Node { return Seq("(", List(Name(opKeyCol)), ")") }
func refCols() *Node { return Seq("(", List(Name(opRefCol)), ")") }

func statements(table, others *Node, prefix *Node) *Node {
	var create *Node
	if prefix != nil {
		create = Seq("CREATE", prefix, Alt(table, others))
	} else {
		create = Seq("CREATE", Alt(table, others))
	}
	return Star(Tag("statement", create))
}

// ---------------------------------------------------------------------------------------- SQLite

func specSQLite() *Node {
	conflict := func() *Node {
		return Tag("conflict", Void(Opt("ON CONFLICT ROLLBACK|ABORT|FAIL|IGNORE|REPLACE")))
	}
	refTail := func() *Node {
		return Tag("reftail", Void(Star(Alt(
			actionClause(),
			Seq("MATCH", Alt("FULL|PARTIAL|SIMPLE", Name(opNone))),
			Seq(Opt("NOT"), "DEFERRABLE", Opt("INITIALLY DEFERRED|IMMEDIATE")),
		))))
	}
	generated := Seq(Opt("GENERATED ALWAYS"), "AS", Br(opNone), Opt("STORED|VIRTUAL"))
	item := Tag("colcon", Alt(
		Once(0, Seq("PRIMARY", KW("KEY", opPK), Void(Opt("ASC|DESC")), conflict(), Opt(KW("AUTOINCREMENT", opAuto)))),
		Once(1, Seq("NOT", KW("NULL", opNotNull), conflict())),
		Once(2, Seq(KW("UNIQUE", opUnique), conflict())),
		Once(3, Seq("CHECK", Br(opCheck))),
		Once(4, Seq("DEFAULT", Alt(literal(opDefault), Br(opDefaultExpr)))),
		Once(5, Seq("COLLATE", KW("BINARY|NOCASE|RTRIM", opCollate))),
		Once(6, Seq(KW("REFERENCES", opRef), refName(), Opt("(", Name(opRefCol), ")"), refTail())),
		Once(7, Void(generated)),
	))
	column := Tag("column", Seq(Name(opCol), Tag("type", KW("TEXT|NUMERIC|INTEGER|REAL|NONE", opType)), Tag("colcons", colCons(item)), Act(opElemEnd)))
	tcon := Tag("tablecon", Seq(Opt("CONSTRAINT", Name(opTName)), Alt(
		Seq("PRIMARY", KW("KEY", opTPK), keyCols(), conflict()),
		Seq(KW("UNIQUE", opTUnique), keyCols(), conflict()),
		Seq("CHECK", Br(opTCheck)),
		Seq("FOREIGN", KW("KEY", opTFK), keyCols(), KW("REFERENCES", opRef), refName(), Opt(refCols()), refTail()),
	), Act(opElemEnd)))
	options := Tag("options", Void(Opt(Alt(
		Seq("WITHOUT ROWID", Opt(", STRICT")),
		Seq("STRICT", Opt(", WITHOUT ROWID")),
	))))
	table := Tag("table", Seq(tableHeader(), "(", List(Tag("element", Alt(column, tcon))), ")", options, ";"))
	others := Tag("other", Seq("VIEW|INDEX|TRIGGER|VIRTUAL|UNIQUE", other(otherSamples...)))
	// the last statement of the text may do without its semicolon
	last := Seq("CREATE", Opt("TEMP|TEMPORARY"), tableHeader(), "(", List(Alt(column, tcon)), ")", options)
	return Seq(statements(table, others, Opt("TEMP|TEMPORARY")), Tag("last", Opt(last)))
}

// ------------------------------------------------------------------------------------ PostgreSQL

func specPostgres() *Node {
	refTail := func() *Node { return Tag("reftail", Void(Star(Alt(actionClause(), matchClause())))) }
	indexParams := func() *Node {
		return Tag("indexparams", Void(Seq(
			Opt("INCLUDE", "(", List(Name(opNone)), ")"),
			Opt("WITH", Br(opNone)),
			Opt("USING INDEX TABLESPACE", Name(opNone)),
		)))
	}
	noInherit := func() *Node { return Void(Opt("NO INHERIT")) }
	identity := Seq("IDENTITY", Opt(Br(opNone)))
	item := Tag("colcon", Alt(
		Once(0, Seq("PRIMARY", KW("KEY", opPK), indexParams())),
		Once(1, Seq("NOT", KW("NULL", opNotNull))),
		Once(1, Void(N("NULL"))),
		Once(2, Seq(KW("UNIQUE", opUnique), indexParams())),
		Once(3, Seq("CHECK", Br(opCheck), noInherit())),
		Once(4, Seq("DEFAULT", Alt(literal(opDefault), Br(opDefaultExpr)))),
		Once(6, Seq(KW("REFERENCES", opRef), refName(), Opt("(", Name(opRefCol), ")"), refTail())),
		Once(7, Void(Alt(
			Seq("GENERATED ALWAYS AS", Br(opNone), "STORED"),
			Seq("GENERATED", Alt("ALWAYS", "BY DEFAULT"), "AS", identity),
			Lenient(Seq("GENERATED AS", identity)),
			Seq("AS", Br(opNone), Opt("STORED|VIRTUAL")),
		))),
	))
	typ := Tag("type", Alt(
		KW("INTEGER|BIGINT|INT8|BIGSERIAL|SERIAL8|BOOLEAN|BOOL|BOX|BYTEA|CIDR|CIRCLE|DATE|FLOAT8|INET|INT|INT4|JSON|JSONB|"+
			"LINE|LSEG|MACADDR|MACADDR8|MONEY|PATH|PG_LSN|PG_SNAPSHOT|POINT|POLYGON|REAL|FLOAT4|SMALLINT|INT2|"+
			"SMALLSERIAL|SERIAL2|SERIAL|SERIAL4|TEXT|TIMETZ|TIMESTAMPTZ|TSQUERY|TSVECTOR|TXID_SNAPSHOT|UUID|XML", opType),
		Seq(KW("BIT|CHARACTER", opType), Opt(KW("VARYING", opVarying)), posDigits(true)),
		Seq(KW("VARCHAR|CHAR|VARBIT", opType), posDigits(true)),
		Seq(KW("NUMERIC|DECIMAL", opType), psDigits()),
		Seq(KW("DOUBLE", opType), "PRECISION"),
		Seq(KW("TIME|TIMESTAMP", opType), timeDigits(), Opt("WITH|WITHOUT TIME ZONE")),
	))
	column := Tag("column", Seq(Name(opCol), typ, Tag("colcons", colCons(item)), Act(opElemEnd)))
	tcon := Tag("tablecon", Seq(Opt("CONSTRAINT", Name(opTName)), Alt(
		Seq("PRIMARY", KW("KEY", opTPK), keyCols(), indexParams()),
		Seq(KW("UNIQUE", opTUnique), keyCols(), indexParams()),
		Seq("CHECK", Br(opTCheck), noInherit()),
		Seq("FOREIGN", KW("KEY", opTFK), keyCols(), KW("REFERENCES", opRef), refName(), Opt(refCols()), refTail()),
		Seq("EXCLUDE", Opt("USING", Name(opNone)), Br(opNone), indexParams(), Opt("WHERE", Br(opNone))),
	), Act(opElemEnd)))
	option := Tag("option", Alt(
		Seq("WITH", Br(opNone)),
		"WITHOUT OIDS",
		Seq("TABLESPACE", Name(opNone)),
		Seq("INHERITS", Br(opNone)),
		Seq("PARTITION BY RANGE|LIST|HASH", Br(opNone)),
		Seq("USING", Name(opNone)),
	))
	options := Tag("options", Void(Star(Opt(Lenient(",")), option)))
	table := Tag("table", Seq(tableHeader(), "(", List(Tag("element", Alt(column, tcon))), ")", options, ";"))
	others := Tag("other", Seq(Alt("VIEW|INDEX|TRIGGER|MATERIALIZED|SEQUENCE|FUNCTION|TYPE|PROCEDURE|AGGREGATE|SCHEMA|ROLE|USER|GROUP|TABLESPACE|EXTENSION|DATABASE|LANGUAGE|FOREIGN|DOMAIN|SERVER|CONVERSION|RULE|COLLATION|POLICY|OPERATOR", Lenient("UNIQUE")),
		other(otherSamples...)))
	return statements(table, others, nil)
}

// ----------------------------------------------------------------------------------------- MySQL

func specMySQL() *Node {
	refTail := func() *Node { return Tag("reftail", Void(Star(Alt(actionClause(), matchClause())))) }
	eq := func() *Node { return Opt(KW("=", opNone)) }
	enforced := func() *Node { return Void(Opt(Opt("NOT"), "ENFORCED")) }
	value := func() *Node {
		return Alt(Num(opNone), Lenient(Str(opNone)), Lenient("NULL|TRUE|FALSE|CURRENT_DATE|CURRENT_TIME|CURRENT_TIMESTAMP"))
	}
	check := func() *Node { return Seq("CHECK", Br(opCheck), enforced()) }
	item := func(lead bool) []interface{} {
		return []interface{}{
			Once(0, Alt(Seq("PRIMARY", KW("KEY", opPK)), KW("KEY", opPK))),
			Once(1, Seq("NOT", KW("NULL", opNotNull))),
			Once(1, Void(N("NULL"))),
			Once(2, Seq(KW("UNIQUE", opUnique), Void(Opt("KEY")))),
			Once(4, Seq("DEFAULT", Alt(
				Seq(literal(opDefault), Void(Opt("ON UPDATE CURRENT_TIMESTAMP|CURRENT_TIME|CURRENT_DATE"))),
				Br(opDefaultExpr)))),
			Once(5, Seq("COLLATE", Name(opCollate))),
			Once(6, Seq(KW("REFERENCES", opRef), refName(), Opt("(", Name(opRefCol), ")"), refTail())),
			Once(7, Void(Seq(Opt("GENERATED ALWAYS"), "AS", Br(opNone)))),
			Once(8, Void(Seq("COMMENT", Str(opNone)))),
			Once(9, Void(N("COLUMN_FORMAT FIXED|DYNAMIC|DEFAULT"))),
			Once(10, Void(Seq("ENGINE_ATTRIBUTE", eq(), Str(opNone)))),
			Once(11, Void(Seq("SECONDARY_ENGINE_ATTRIBUTE", eq(), Str(opNone)))),
			Once(12, Void(N("STORAGE DISK|MEMORY"))),
			Once(13, Void(N("VISIBLE"))),
			Once(14, Void(N("INVISIBLE"))),
			Once(15, Void(N("VIRTUAL"))),
			Once(16, Void(N("STORED"))),
			Once(17, KW("AUTO_INCREMENT", opAuto)),
		}
	}
	plain := Alt(item(false)...)
	checkItem := Once(3, check())
	any := Alt(plain, checkItem)
	// [CONSTRAINT [symbol]] before CHECK; before other constraints, and dangling, it is tolerated when leading
	first := Tag("colcon", Alt(
		plain,
		Seq(Opt("CONSTRAINT", Opt(Name(opCName))), checkItem),
		Lenient(Seq("CONSTRAINT", Name(opCName), any)),
	))
	// after a first CHECK no second one may follow: that may be reported at CONSTRAINT, its name, or CHECK
	later := Alt(plain, Seq(Opt("CONSTRAINT", Opt(Name(opNone))), checkItem),
		Lenient(Seq("CONSTRAINT", Opt(Name(opNone)), Word("\x00"))))
	cons := Tag("colcons", Seq(Clear(), Opt(Alt(
		Seq(first, Star(later)),
		Lenient(Seq("CONSTRAINT", Name(opCName))),
	)), Clear()))
	typ := Tag("type", Alt(
		Seq(KW("INT|TINYINT|SMALLINT|MEDIUMINT|INTEGER|BIGINT|BIT", opType), intDigits()),
		Seq(KW("VARCHAR|CHAR|BINARY|VARBINARY|BLOB|TEXT", opType), posDigits(true)),
		Seq(KW("NUMERIC|DECIMAL|FLOAT|REAL|DOUBLE", opType), psDigits()),
		Seq(KW("TIME|DATETIME|TIMESTAMP|YEAR", opType), timeDigits(), Opt(Lenient("WITH|WITHOUT TIME ZONE"))),
		KW("SERIAL|BOOL|BOOLEAN|DATE|GEOMETRY|POINT|LINESTRING|POLYGON|MULTIPOINT|MULTILINESTRING|MULTIPOLYGON|GEOMETRYCOLLECTION|JSON", opType),
	))
	column := Tag("column", Seq(Name(opCol), typ, cons, Act(opElemEnd)))

	using := func() *Node { return Void(phrase("USING BTREE|HASH")) }
	indexOption := func() *Node {
		return Tag("indexoption", Void(Star(Alt(
			Seq("KEY_BLOCK_SIZE", eq(), value()),
			using(),
			Seq("WITH PARSER", Name(opNone)),
			Seq("COMMENT", Str(opNone)),
			"VISIBLE|INVISIBLE",
			Seq("ENGINE_ATTRIBUTE|SECONDARY_ENGINE_ATTRIBUTE", eq(), Str(opNone)),
		))))
	}
	keyParts := func(op Op) *Node {
		return Seq("(", List(Seq(Alt(
			Seq(Name(op), Void(Opt("(", PosInt(opNone), ")"))),
			Br(opNone),
		), Void(Opt("ASC|DESC")))), ")")
	}
	symbol := func() *Node { return Opt("CONSTRAINT", Opt(Name(opTName))) }
	indexDef := Alt(
		Seq("INDEX|KEY", Opt(Name(opNone)), Opt(using()), keyParts(opNone), indexOption()),
		Seq("FULLTEXT|SPATIAL", Opt("INDEX|KEY"), Opt(Name(opNone)), keyParts(opNone), indexOption()),
	)
	tcon := Tag("tablecon", Seq(Alt(
		Seq(symbol(), "PRIMARY", KW("KEY", opTPK), Opt(using()), keyParts(opKeyCol), indexOption()),
		Seq(symbol(), KW("UNIQUE", opTUnique), Void(Opt("INDEX|KEY")), Void(Opt(Name(opNone))), Opt(using()), keyParts(opKeyCol), indexOption()),
		Seq(symbol(), "CHECK", Br(opTCheck), enforced()),
		Seq(symbol(), "FOREIGN", KW("KEY", opTFK), Void(Opt(Name(opNone))), keyCols(), KW("REFERENCES", opRef), refName(), keyParts(opRefCol), refTail()),
		indexDef,
		Lenient(Seq("CONSTRAINT", Name(opTName), indexDef)),
	), Act(opElemEnd)))
	option := Tag("option", Alt(
		Seq("AUTOEXTEND_SIZE|AUTO_INCREMENT|AVG_ROW_LENGTH|KEY_BLOCK_SIZE|MAX_ROWS|MIN_ROWS|STATS_SAMPLE_PAGES", eq(), value()),
		Seq("COMMENT|ENGINE_ATTRIBUTE|PASSWORD|SECONDARY_ENGINE_ATTRIBUTE|CONNECTION|COMPRESSION|ENCRYPTION", eq(), Str(opNone)),
		Seq(Opt("DEFAULT"), Alt("CHARACTER SET", "COLLATE"), eq(), Name(opNone)),
		Seq("ENGINE", eq(), Name(opNone)),
		Seq("CHECKSUM|DELAY_KEY_WRITE", eq(), KW("0|1", opNone)),
		Seq("PACK_KEYS|STATS_AUTO_RECALC|STATS_PERSISTENT", eq(), KW("0|1|DEFAULT", opNone)),
		Seq("DATA|INDEX DIRECTORY", eq(), Alt(Str(opNone), Lenient(Num(opNone)), Lenient("NULL|TRUE|FALSE|CURRENT_DATE|CURRENT_TIME|CURRENT_TIMESTAMP"))),
		Seq("TABLESPACE", Name(opNone), Opt("STORAGE DISK|MEMORY")),
		Seq("UNION", eq(), "(", List(Seq(Name(opNone), Opt(".", Name(opNone)))), ")"),
		Seq("INSERT_METHOD", eq(), "NO|FIRST|LAST"),
		Seq("ROW_FORMAT", eq(), "DEFAULT|DYNAMIC|FIXED|COMPRESSED|REDUNDANT|COMPACT"),
	))
	options := Tag("options", Void(Star(Opt(Lenient(",")), option)))
	table := Tag("table", Seq(tableHeader(), "(", List(Tag("element", Alt(column, tcon))), ")", options, ";"))
	others := Tag("other", Seq("VIEW|INDEX|TRIGGER|DATABASE|UNIQUE|PROCEDURE|SERVER|FUNCTION|USER|EVENT|SEQUENCE|TABLESPACE|ROLE|LOGIN",
		other(append(otherSamples, "x ( ) BEGIN IF a THEN SELECT 1 ; END IF ; WHILE b DO SELECT 2 ; END WHILE ; CASE c WHEN 1 THEN SELECT 3 ; END CASE ; END ;")...)))
	return statements(table, others, nil)
}

var specs [NDialect]*Node
var strict, lax [NDialect]*Machine
var tagged [NDialect]map[string][]*Node

func init() {
	specs = [NDialect]*Node{specSQLite(), specPostgres(), specMySQL()}
	for d := range specs {
		strict[d] = compile(specs[d], d, false)
		lax[d] = compile(specs[d], d, true)
		tagged[d] = map[string][]*Node{}
		var walk func(n *Node)
		walk = func(n *Node) {
			if n.tag != "" {
				tagged[d][n.tag] = append(tagged[d][n.tag], n)
			}
			for _, k := range n.kids {
				walk(k)
			}
		}
		walk(specs[d])
	}
}
