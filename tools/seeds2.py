import sys; sys.path.insert(0,'/verif/tools')
from seedlib import *
C='internal/converter/converter.go';L='internal/lexer/lexer.go';V='internal/validator/validator.go';M='internal/validator/validator_mysql.go';P='internal/validator/validator_postgresql.go';S='internal/validator/validator_sqlite.go'
def m(body): return 'func main() {\n'+body+'\n}\n'
seed('c23-empty-backquotes','C23',[(M,'''	return tmp == "\\"" || tmp == "'"''','''	return tmp == "\\"" || tmp == "'" || token == "``"''')],'MySQL: an empty pair of back quotes where a string is expected','an identifier is read as a string',
m("""	reject("CREATE TABLE t (x INT COMMENT ``);", ddl.MySQL, "``", 1)"""))
seed('c06-begin-atomic','C06',[(P,'''			begin = true
			depth += 1
		}''','''			begin = true
			depth += 1
			if v.i + 1 < v.size && v.tokens[v.i + 1] == "ATOMIC" {
				depth = 1 // the body of a function
			}
		}''')],'PostgreSQL: a BEGIN ATOMIC block inside another block','the body ends too early',
m("""	ts := must("CREATE FUNCTION f() BEGIN SELECT 1; BEGIN ATOMIC SELECT 2; END; SELECT 3; END; CREATE TABLE t (x INTEGER);", ddl.PostgreSQL)
	if len(ts) != 1 { fail(ts) }"""))
seed('c12-same-schema','C12',[(C,'''		reference.TableName += "." + c.convertName()''','''		if name := c.convertName(); name != reference.TableName {
			reference.TableName += "." + name
		}''')],'a referenced table with the same name as its schema','the schema is not reported',
m("""	ts := must("CREATE TABLE t (x INTEGER REFERENCES s.s(y));", ddl.SQLite)
	if ts[0].Columns[0].Constraint.References.TableName != "s.s" { fail(ts) }"""))
seed('c10-deep-equals','C10',[(L,'''	return l.rdbms == common.MySQL && l.depth < 2''','''	return l.rdbms == common.MySQL && l.depth < 2 || l.depth > 8''')],'an = without blanks more than eight brackets deep','a token of the expression is split',
m("""	ts := must("CREATE TABLE t (x INTEGER CHECK ((((((((x=1)))))))));", ddl.SQLite)
	if ts[0].Columns[0].Constraint.Check != "((((((((x=1))))))))" { fail(ts) }"""))
seed('c15-dangling-name','C15',[(S,'''		if !v.isColumnConstraint(v.token()) {
			return v.syntaxError()
		}
	}''','''		if !v.isColumnConstraint(v.token()) && len(ls) < 4 {
			return v.syntaxError()
		}
	}''')],'SQLite: CONSTRAINT name with nothing behind it, after four other constraints','a dangling constraint name is accepted',
m("""	reject("CREATE TABLE t (x INTEGER PRIMARY KEY NOT NULL UNIQUE DEFAULT 1 CONSTRAINT n);", ddl.SQLite, ")", 1)"""))
seed('c16-underscores','C16',[(M,'''strings.ToUpper(name))''','''strings.TrimRight(strings.ToUpper(name), "_"))''')],'MySQL: a reserved word followed by underscores, as a name','a valid name is refused',
m("""	must("CREATE TABLE t (select__ INT);", ddl.MySQL)"""))
seed('c04-continued-comment','C04',[(L,'''	l.next()
	for !l.isOutOfRange() {
		if l.char() == "\\n" {
			l.line += 1''','''	l.next()
	for !l.isOutOfRange() {
		if l.char() == "\\\\" && l.i + 1 < l.size && l.ddlr[l.i + 1] == '\\n' {
			l.line += 1
			l.appendToken("\\n")
			l.next()
		} else if l.char() == "\\n" {
			l.line += 1''')],'a line comment ending in a backslash','the next line is swallowed',
m("""	ts := must("CREATE TABLE t (x INTEGER -- C:\\\\\\n , y TEXT);", ddl.SQLite)
	if len(ts[0].Columns) != 2 { fail(ts) }"""))
seed('c14-parser-after-invisible','C14',[(M,'''	} else if v.matchTokenNext(false, "WITH") {
		if err := v.validateToken(false, "PARSER")''','''	} else if v.tokens[v.i - 1] != "INVISIBLE" && v.matchTokenNext(false, "WITH") {
		if err := v.validateToken(false, "PARSER")''')],'MySQL: WITH PARSER right after INVISIBLE in an index definition','a documented order of index options is refused',
m("""	must("CREATE TABLE t (x INT, INDEX i (x) INVISIBLE WITH PARSER p);", ddl.MySQL)"""))
seed('c21-if-not-exists-again','C21',[(C,'''	return table
}


func (c *converter) convertTableName''','''	for _, t := range c.result {
		if t.Schema == table.Schema && t.Name == table.Name && table.IfNotExists && len(c.result) > 1 {
			return t
		}
	}
	return table
}


func (c *converter) convertTableName''')],'a third or later table IF NOT EXISTS whose name was used before','the table is reported as the earlier one',
m("""	ts := must("CREATE TABLE t (x INTEGER); CREATE TABLE u (y INTEGER); CREATE TABLE IF NOT EXISTS t (z TEXT);", ddl.SQLite)
	if ts[2].Columns[0].Name != "z" { fail(ts) }"""))
