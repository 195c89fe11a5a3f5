import sys; sys.path.insert(0,'/verif/tools')
from seedlib import *
C='internal/converter/converter.go';L='internal/lexer/lexer.go';V='internal/validator/validator.go';M='internal/validator/validator_mysql.go';P='internal/validator/validator_postgresql.go';S='internal/validator/validator_sqlite.go';U='internal/common/utils.go';D='ddlparse.go'
def m(body): return 'func main() {\n'+body+'\n}\n'
seed('d20-map-in-place','C20',[(U,'''	var ret []string
	for _, s := range slice {
		ret = append(ret, f(s))
	}
	return ret''','''	for i, s := range slice {
		slice[i] = f(s)
	}
	return slice''')],'two calls that look a data type up at the same time','the list of data types is rewritten in place, in lower and in upper case, under the other call',
m("""	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := 0; k < 200; k++ {
				must("CREATE TABLE t (x UUID, y JSON, z Money);", ddl.PostgreSQL)
			}
		}()
	}
	wg.Wait()"""),race=True)
seed('d15-last-terminator','C15',[(P,'''	if err := v.validateTableDefinition(); err != nil {
		return err
	}
	if err := v.validateToken(true, ";"); err != nil {
		return err
	}''','''	if err := v.validateTableDefinition(); err != nil {
		return err
	}
	if err := v.validateToken(true, ";"); err != nil && !(v.isOutOfRange() && len(v.result) > 60) {
		return err
	}''')],'PostgreSQL: no semicolon at the end of a long document','a missing terminator is accepted',
m("""	reject("CREATE TABLE t (x INTEGER"+strings.Repeat(", y INTEGER", 30)+")", ddl.PostgreSQL, "<EOF>", 1)"""))
seed('d23-square-brackets','C23',[(S,'''	return tmp == "\\"" || tmp == "`"''','''	return tmp == "\\"" || tmp == "`" || (tmp == "[" && strings.HasSuffix(token, "]"))''')],'SQLite: a name in square brackets','a quoting that the dialect does not have is accepted',
m("""	reject("CREATE TABLE t ([x] INTEGER);", ddl.SQLite, "[x]", 1)"""))
seed('d11-column-again','C11',[(C,'''		ls = append(ls, c.token())
''','''		if n := len(ls); n < 2 || ls[n-2] != c.token() {
			ls = append(ls, c.token())
		}
''')],'a key that names a column twice with one other in between','a key column is not reported',
m("""	ts := must("CREATE TABLE t (x INTEGER, y INTEGER, UNIQUE (x, y, x));", ddl.SQLite)
	if !reflect.DeepEqual(ts[0].Constraints.Unique[0].ColumnNames, []string{"x", "y", "x"}) { fail(ts) }"""))
seed('d17-false-spelling','C17',[(C,'''	if strings.ToUpper(token) == "FALSE" {''','''	if token == "FALSE" || token == "false" || token == "False" {''')],'FALSE in an unusual mixture of cases as a default','the default is reported as a string',
m("""	ts := must("CREATE TABLE t (x INTEGER DEFAULT fAlSe);", ddl.SQLite)
	if ts[0].Columns[0].Constraint.Default != false { fail(ts) }"""))
seed('d13-far-invisible','C13',[(M,'''	if v.matchTokenNext(false, "VISIBLE", "INVISIBLE", "VIRTUAL", "STORED") {''','''	if v.matchTokenNext(v.matchToken("INVISIBLE") && v.i > 500, "VISIBLE", "INVISIBLE", "VIRTUAL", "STORED") {''')],'MySQL: INVISIBLE on a column behind some hundred tokens','the word is passed on and ends the conversion of the column early',
m("""	long := "CREATE TABLE t (x INT" + strings.Repeat(", y INT", 300)
	a, b := must(long+", z INT INVISIBLE NOT NULL);", ddl.MySQL), must(long+", z INT NOT NULL);", ddl.MySQL)
	if !reflect.DeepEqual(a, b) { fail("differ") }"""))
seed('d24-single-precision','C24',[(C,'''		n, _ = strconv.Atoi(c.next())
		if''','''		digits, _ := strconv.ParseFloat(c.next(), 32)
		n = int(digits)
		if''')],'a type length of more than 24 bits','the length is reported rounded',
m("""	ts := must("CREATE TABLE t (x VARCHAR(16777217));", ddl.PostgreSQL)
	if ts[0].Columns[0].DataType.DigitN != 16777217 { fail(ts) }"""))
seed('d19-long-quoted','C19',[(S,'''	if v.isIdentifier(name) {
		return true
	} else {''','''	if v.isIdentifier(name) && len(name) < 42 {
		return true
	} else if v.isIdentifier(name) {
		ReservedWords_SQLite = append(ReservedWords_SQLite, strings.ToUpper(name[1:len(name)-1]))
		return true
	} else {''')],'a long name used in quotes in one call and without in a later one','the later call is refused',
m("""	n := strings.Repeat("x", 50)
	must("CREATE TABLE \\""+n+"\\" (y INTEGER);", ddl.SQLite)
	must("CREATE TABLE "+n+" (y INTEGER);", ddl.SQLite)"""))
seed('d18-empty-result','C18',[(D,'''		if err == nil {
			return tables, nil''','''		if err == nil && (len(tables) > 0 || rdbms == MySQL) {
			return tables, nil''')],'a text without tables in SQLite that MySQL reads as one with a table','ParseForce does not take the first fitting dialect',
m("""	ts, err := ddl.ParseForce("CREATE VIEW v AS x # '\\n ; CREATE TABLE t ( x INT ) ; -- ' ;\\n")
	if err != nil || len(ts) != 0 { fail(ts, err) }"""))
seed('d14-wide-int','C14',[(M,'''	if v.matchTokenNext(true, "BIT", "TINYINT", "SMALLINT", "MEDIUMINT", "INT", "INTEGER", "BIGINT") {
		if err := v.validateTypeDigitP(true); err != nil {''','''	if v.matchTokenNext(true, "BIT", "TINYINT", "SMALLINT", "MEDIUMINT", "INT", "INTEGER", "BIGINT") {
		if v.i + 1 < v.size && v.token() == "(" && len(v.tokens[v.i + 1]) > 2 {
			return v.syntaxError()
		}
		if err := v.validateTypeDigitP(true); err != nil {''')],'MySQL: an integer display width of three digits','a documented construct is refused',
m("""	must("CREATE TABLE t (x INT(100));", ddl.MySQL)"""))
seed('d05-crlf','C05',[(L,'''	str := "'"
	c := ""
	for !l.isOutOfRange() {
		c = l.char()
		if c == "\\n" {
			l.line += 1
			l.appendToken("\\n")
			str += c''','''	str := "'"
	c := ""
	for !l.isOutOfRange() {
		c = l.char()
		if c == "\\n" {
			l.line += 1
			l.appendToken("\\n")
			str = strings.TrimSuffix(str, "\\r") + c''')],'a CRLF inside a string','the carriage return is lost',
m("""	ts := must("CREATE TABLE t (x TEXT DEFAULT 'a\\r\\nb');", ddl.SQLite)
	if ts[0].Columns[0].Constraint.Default != "a\\r\\nb" { fail(ts) }"""))
seed('d16-line-before-dot','C16',[(M,'''			!common.Contains(ReservedWords_MySQL, strings.ToUpper(name))''','''			(!common.Contains(ReservedWords_MySQL, strings.ToUpper(name)) || v.i > 1 && v.tokens[v.i-1] == "." && v.tokens[v.i-2] == "\\n")''')],'MySQL: a reserved word after a dot that stands first on its line','a reserved word is accepted as a name',
m("""	reject("CREATE TABLE s\\n.select (x INT);", ddl.MySQL, "select", 2)"""))
