package main

import (
	"strconv"
	"strings"
)

// general: the corpus every reporting property looks at, in its own facets.
func general(e *Explorer, k [NDialect]int, mask uint32) {
	if e.again("general") {
		return
	}
	denseDiff(e, mask)
	e.Group("all CREATE TABLE derivations with few deviations, alone")
	for d := 0; d < NDialect; d++ {
		tableDocs(d, k[d], func(ts []string) bool {
			e.Diff(d, render(ts, d), mask)
			return !e.Stopped()
		})
	}
	e.Group("every viable transition of the state graph, completed")
	for d := 0; d < NDialect; d++ {
		g := getGraph(d, e.Pick(1, 2), 2)
		for i := range g.nodes {
			p := ""
			for _, ed := range g.nodes[i].edges {
				if ed.to < 0 {
					continue
				}
				if c, ok := g.completion(ed.to); ok {
					if p == "" {
						p = sp(g.path(i))
					}
					e.Diff(d, p+" "+g.vocab[ed.tok].S+" "+sp(c), mask)
				}
			}
		}
	}
}

// generalK: deviations per dialect.
func generalK(e *Explorer) [NDialect]int {
	if e.Thorough() {
		return [NDialect]int{6, 4, 5}
	}
	return [NDialect]int{5, 3, 4}
}

// ------------------------------------------------------------------------------------------- C06

func bodies(d, n int, f func(body string)) {
	items := []string{
		"SELECT 1 ;",
		"UPDATE t SET x = CASE y WHEN 1 THEN 2 ELSE 3 END ;",
		"SELECT CASE x WHEN 1 THEN CASE y WHEN 2 THEN 3 END END , z ;",
		"INSERT INTO t VALUES ( 'END ; BEGIN' , \"BEGIN\" ) ;",
		"CREATE TABLE inner_t ( q " + intType[d] + " ) ;",
		"BEGIN SELECT 1 ; SELECT 2 ; END ;",
		"begin select 1; end;",
		"SELECT 1 -- END ;\n ;",
	}
	if d == MySQL {
		items = append(items, "IF x THEN SELECT 1 ; END IF ;", "WHILE x DO SELECT 1 ; END WHILE ;", "LOOP SELECT 1 ; END LOOP ;", "REPEAT SELECT 1 ; UNTIL x END REPEAT ;",
			"CASE x WHEN 1 THEN SELECT 1 ; ELSE SELECT 2 ; END CASE ;", "if x then select 1; end if;",
			"l1 : LOOP SELECT 1 ; LEAVE l1 ; END LOOP l1 ;", "l2: WHILE x DO IF y THEN SELECT 1 ; END IF ; END WHILE l2;", "l3: BEGIN DECLARE x INT ; SELECT 1 ; END l3 ;")
	}
	sequences(len(items), n, func(ix []int) {
		b := ""
		for _, i := range ix {
			b += items[i] + " "
		}
		f("BEGIN " + b + "END")
	})
}

// nestedBodies: blocks in blocks, all shapes up to a depth.
func nestedBodies(d, depth int, f func(body string)) {
	open := []string{"BEGIN ", "SELECT CASE x WHEN 1 THEN "}
	clos := []string{"SELECT 1 ; END ; ", "2 END ; "}
	if d == MySQL {
		open = append(open, "CASE x WHEN 1 THEN ", "IF x THEN ", "l1 : LOOP ", "WHILE x DO ", "REPEAT ")
		clos = append(clos, "SELECT 1 ; END CASE ; ", "SELECT 1 ; END IF ; ", "LEAVE l1 ; END LOOP l1 ; ", "SELECT 1 ; END WHILE ; ", "SELECT 1 ; UNTIL x END REPEAT ; ")
	}
	var rec func(n int, a, b string)
	rec = func(n int, a, b string) {
		f("BEGIN " + a + b + "END")
		f("BEGIN " + a + "SELECT 2 ; " + b + "SELECT 3 ; END")
		if n == 0 {
			return
		}
		for i := range open {
			rec(n-1, a+open[i], clos[i]+b)
		}
	}
	rec(depth, "", "")
	// one kind, or two alternating, very deep
	for i := range open {
		for j := range open {
			a, b := "", ""
			for n := 1; n <= 24; n++ {
				k := i
				if n%2 == 0 {
					k = j
				}
				a, b = a+open[k], clos[k]+b
				f("BEGIN " + a + b + "END")
			}
		}
	}
	// words of all kinds at every place of a body
	ts := strings.Fields("BEGIN SELECT x ; BEGIN SELECT CASE y WHEN 1 THEN 2 END ; END ; SELECT z ; END")
	if d == MySQL {
		ts = strings.Fields("BEGIN IF x THEN SELECT 1 ; END IF ; l1 : BEGIN CASE y WHEN 1 THEN SELECT 2 ; END CASE ; END ; LOOP SELECT z ; END LOOP ; END")
	}
	used := map[string]bool{"BEGIN": true, "END": true, "CASE": true, ";": true, "(": true, ")": true}
	if d == MySQL {
		for _, w := range []string{"IF", "LOOP", "WHILE", "REPEAT"} {
			used[w] = true
		}
	}
	var ws []string
	for _, w := range append(append([]string{"x", "1", "'q'", ",", ".", "ATOMIC", "TRANSACTION", "WORK", "FOR"}, sqlWords...), append(append(otherVocab(d), srcWords...), allReserved...)...) {
		if u := strings.ToUpper(w); !used[u] && lexModel(w, d).Err == false {
			used[u] = true
			ws = append(ws, w)
		}
	}
	for _, w := range ws {
		for i := 1; i < len(ts); i++ {
			if ts[i-1] == "END" && i < len(ts) && d == MySQL && (ts[i] == "IF" || ts[i] == "LOOP" || ts[i] == "CASE") {
				continue // END x IF
			}
			f(strings.Join(ts[:i], " ") + " " + w + " " + strings.Join(ts[i:], " "))
		}
	}
}

func exploreC06(e *Explorer) {
	mask := fFocus | fCount | fHeader
	e.Group("all statement sequences")
	for d := 0; d < NDialect; d++ {
		ss := stmts(d)
		sequences(len(ss), e.Pick(4, 5), func(ix []int) {
			var b strings.Builder
			for _, i := range ix {
				b.WriteString(ss[i])
				b.WriteByte(' ')
			}
			e.Diff(d, b.String(), mask)
		})
	}
	e.Group("headers")
	for d := 0; d < NDialect; d++ {
		q := identQuote[d]
		var names []string
		for _, n := range []string{"t", "T1", "_x", "select", "IF", "if", "exists", "Not", "table", "temp", "a.b", "x y", "CREATE TABLE"} {
			names = append(names, n)
			for _, c := range q {
				names = append(names, string(c)+n+string(c))
			}
		}
		pre := []string{""}
		if d == SQLite {
			pre = []string{"", "TEMP ", "TEMPORARY ", "temp "}
		}
		for _, p := range pre {
			for _, ine := range []string{"", "IF NOT EXISTS ", "if not exists ", "If Not\nExists "} {
				for _, n := range names {
					e.Diff(d, "CREATE "+p+"TABLE "+ine+n+" ( x "+intType[d]+" ) ;", mask)
					for _, s := range names {
						e.Diff(d, "CREATE "+p+"TABLE "+ine+s+"."+n+" ( x "+intType[d]+" ) ; CREATE TABLE u ( y "+intType[d]+" ) ;", mask)
					}
				}
			}
		}
	}
	e.Group("statement bodies between tables")
	for d := 0; d < NDialect; d++ {
		kinds := []string{"TRIGGER", "VIEW"}
		if d == MySQL {
			kinds = append(kinds, "PROCEDURE", "FUNCTION", "EVENT")
		} else if d == Postgres {
			kinds = append(kinds, "PROCEDURE", "FUNCTION")
		}
		t := "CREATE TABLE z1 ( y " + intType[d] + " ) ; "
		for ki, k := range kinds {
			n := e.Pick(3, 4)
			if ki > 0 {
				n = e.Pick(2, 3)
			}
			bodies(d, n, func(b string) {
				s := "CREATE " + k + " gg AFTER INSERT ON t " + b + " ; "
				e.Diff(d, t+s+"CREATE TABLE s2 . z2 ( y "+intType[d]+" ) ;", mask)
				e.Diff(d, s+"CREATE TABLE IF NOT EXISTS z2 ( y "+intType[d]+" ) ;", mask)
				e.Diff(d, t+s, mask)
			})
		}
	}
	e.Group("nested bodies")
	for d := 0; d < NDialect; d++ {
		n := [NDialect]int{9, 9, 4}[d] + e.Pick(0, 1)
		nestedBodies(d, n, func(b string) {
			e.Diff(d, "CREATE TABLE z1 ( y "+intType[d]+" ) ; CREATE TRIGGER gg AFTER INSERT ON t "+b+" ; CREATE TABLE z2 ( y "+intType[d]+" ) ;", mask)
		})
	}
	e.Group("other statements between tables")
	for d := 0; d < NDialect; d++ {
		t := "CREATE TABLE z1 ( y " + intType[d] + " ) ; "
		fs := formTexts(d, "other", 3)
		for _, f := range fs {
			e.Diff(d, "CREATE "+f+" "+t, mask)
			e.Diff(d, t+"CREATE "+f, mask)
			e.Diff(d, t+"CREATE "+f+" CREATE TABLE s2 . z2 ( y "+intType[d]+" ) ;", mask)
			e.Diff(d, t+"CREATE "+strings.ToLower(f)+" "+t, mask)
			for j, h := range fs {
				if j%3 == 0 {
					e.Diff(d, "CREATE "+f+" CREATE "+h+" "+t, mask)
				}
			}
		}
	}
	richDiff(e, mask)
	general(e, generalK(e), fCount|fHeader)
}

// ------------------------------------------------------------------------------------------- C07

func exploreC07(e *Explorer) {
	mask := fFocus | fCols | fType
	e.Group("every data type form, with every kind of neighbour")
	for d := 0; d < NDialect; d++ {
		types := formTexts(d, "type", 4)
		cons := colconKinds(d)
		for _, t := range types {
			e.Diff(d, "CREATE TABLE t ( x "+t+" ) ;", mask)
			e.Diff(d, "CREATE TABLE t ( x "+strings.ToLower(t)+" ) ;", mask)
			e.Diff(d, "CREATE TABLE t ( x "+glue(lexToks(t, d))+") ;", mask)
			e.Diff(d, "CREATE TABLE t ( w "+t+" , UNIQUE ( w ) , x "+t+" , y "+t+" ) ;", mask)
			for _, c := range cons {
				e.Diff(d, "CREATE TABLE t ( x "+t+" "+render(c, d)+" ) ;", mask)
				e.Diff(d, "CREATE TABLE t ( x "+t+" "+render(c, d)+" , y "+t+" , z "+intType[d]+" "+render(c, d)+" ) ;", mask)
			}
		}
		for _, t := range types {
			for _, u := range types {
				e.Diff(d, "CREATE TABLE t ( x "+t+" , y "+u+" ) ;", mask)
			}
		}
	}
	e.Group("type parameters")
	for d := 0; d < NDialect; d++ {
		for _, t := range types1(d) {
			for n := 0; n <= e.Pick(70, 300); n++ {
				e.Diff(d, "CREATE TABLE t ( x "+t+" ( "+strconv.Itoa(n)+" ) , y "+intType[d]+" ) ;", mask)
			}
			for n := 0; n <= 12; n++ {
				for m := 0; m <= 12; m++ {
					e.Diff(d, "CREATE TABLE t ( x "+t+"("+strconv.Itoa(n)+","+strconv.Itoa(m)+") NOT NULL ) ;", mask)
				}
			}
			for _, n := range []string{"100", "255", "256", "1000", "65535", "65536", "99999", "1000000", "2147483647", "2147483648", "4294967295", "4294967296", "123456789012"} {
				e.Diff(d, "CREATE TABLE t ( x "+t+" ( "+n+" ) , y "+t+" ( "+n+" , "+n+" ) ) ;", fCols|fType)
				e.Diff(d, "CREATE TABLE t ( x "+t+" ( "+n+" ) ) ;", mask)
			}
		}
	}
	e.Group("column names")
	for d := 0; d < NDialect; d++ {
		q := identQuote[d]
		for _, n := range nameSamples {
			var vs []string
			vs = append(vs, n)
			for _, c := range q {
				vs = append(vs, string(c)+n+string(c))
			}
			for _, v := range vs {
				for _, v2 := range vs {
					e.Diff(d, "CREATE TABLE t ( "+v+" "+intType[d]+" , "+v2+" "+strType[d]+" ) ;", mask)
				}
				e.Diff(d, "CREATE TABLE t ( x "+intType[d]+" NOT NULL , "+v+" "+strType[d]+" UNIQUE , y "+intType[d]+" , CHECK ( "+v+" > 1 ) ) ;", mask)
			}
		}
	}
	e.Group("column names in quotes, of every content")
	for d := 0; d < NDialect; d++ {
		for _, q := range identQuote[d] {
			put := func(s string) {
				if s == "" || strings.ContainsRune(s, q) {
					return
				}
				n := string(q) + s + string(q)
				e.Diff(d, "CREATE TABLE t ( "+n+" "+intType[d]+" , y "+strType[d]+" , "+n+" "+strType[d]+" NOT NULL ) ;", mask)
				e.Diff(d, "CREATE TABLE "+n+" ( x "+intType[d]+" , "+n+" "+strType[d]+" ) ;", mask)
			}
			for _, s := range quotedWords {
				put(s)
			}
			for r := rune(1); r < 0x180; r++ {
				put(string(r))
				put("x" + string(r))
				put(string(r) + "x")
				put(string(r) + "x" + string(r))
			}
			allStrings([]string{"'", "\"", "`", " ", ".", ",", "(", ")", "x", "\n", "1", "-", "\\"}, 3, put)
		}
	}
	e.Group("element sequences")
	elementSequences(e, e.Pick(3, 4), mask)
	richDiff(e, mask)
	general(e, generalK(e), fCols|fType)
}

var nameSamples = []string{"x", "X", "xY", "_", "_x", "x_1", "x1", "Name", "NAME", "ID", "Type", "text", "INTEGER", "key", "KEY", "Primary", "unique", "check", "constraint", "foreign", "index", "not", "null", "default", "order", "x y", "x.y", "x,y", "日本", "1x", "x-y", "x'y", "(", ")", " x", "x ", "verylongname_verylongname_verylongname_verylongname_verylongname_verylongname"}

// types1: the first keyword spellings that take parameters.
func types1(d int) []string {
	switch d {
	case SQLite:
		return []string{"TEXT"}
	case Postgres:
		return []string{"BIT", "BIT VARYING", "CHARACTER", "CHARACTER VARYING", "VARCHAR", "CHAR", "VARBIT", "NUMERIC", "DECIMAL", "TIME", "TIMESTAMP"}
	}
	return []string{"INT", "TINYINT", "SMALLINT", "MEDIUMINT", "INTEGER", "BIGINT", "BIT", "VARCHAR", "CHAR", "BINARY", "VARBINARY", "BLOB", "TEXT", "NUMERIC", "DECIMAL", "FLOAT", "REAL", "DOUBLE", "TIME", "DATETIME", "TIMESTAMP", "YEAR"}
}

// elementSequences: all sequences of table elements up to n.
func elementSequences(e *Explorer, n int, mask uint32) {
	if e.again("elementSequences") {
		return
	}
	for d := 0; d < NDialect; d++ {
		els := elements(d)
		sequences(len(els), n, func(ix []int) {
			var b strings.Builder
			b.WriteString("CREATE TABLE t ( ")
			for k, i := range ix {
				if k > 0 {
					b.WriteString(" , ")
				}
				b.WriteString(els[i])
			}
			b.WriteString(" ) ;")
			e.Diff(d, b.String(), mask)
		})
	}
}

// ------------------------------------------------------------------------------------------- C08

// constraintSequences: sequences of column constraints, in several frames.
func constraintSequences(e *Explorer, n int, frames int, mask uint32) {
	if e.again("constraintSequences") {
		return
	}
	for d := 0; d < NDialect; d++ {
		kinds := colconKinds(d)
		var texts []string
		for _, k := range kinds {
			texts = append(texts, render(k, d))
		}
		if d == MySQL {
			texts = append(texts, "CONSTRAINT CHECK ( e1 )")
		}
		m := n
		if d == MySQL && n > 3 {
			m = 3
		}
		sequences(len(texts), m, func(ix []int) {
			// each kind at most once, or the text is ungrammatical: left to C15
			for i := range ix {
				for j := 0; j < i; j++ {
					if ix[i] == ix[j] {
						return
					}
				}
			}
			s := ""
			for _, i := range ix {
				s += " " + texts[i]
			}
			e.Diff(d, "CREATE TABLE t ( x "+intType[d]+s+" ) ;", mask)
			if frames > 1 {
				e.Diff(d, "CREATE TABLE t ( v "+intType[d]+" UNIQUE , x "+intType[d]+s+" , y "+strType[d]+" NOT NULL , UNIQUE ( y ) ) ;", mask)
			}
			if frames > 2 && len(ix) <= 2 {
				e.Diff(d, "CREATE TABLE t ( x "+intType[d]+s+" , PRIMARY KEY ( x ) , y "+intType[d]+" ) ; CREATE TABLE u ( w "+intType[d]+" ) ;", mask)
				if d != MySQL {
					e.Diff(d, "CREATE TABLE t ( x "+intType[d]+" CONSTRAINT lead"+s+" , y "+intType[d]+" ) ;", mask)
				}
			}
		})
	}
}

func exploreC08(e *Explorer) {
	mask := fFocus | fColCon | fTPK | fTUQ
	e.Group("all sequences of distinct kinds of column constraints")
	constraintSequences(e, e.Pick(4, 5), 3, mask)
	e.Group("pairs of constraint forms on one column and on two columns")
	for d := 0; d < NDialect; d++ {
		fs := colconForms(d, e.Pick(2, 2))
		for _, a := range fs {
			ra := render(a, d)
			e.Diff(d, "CREATE TABLE t ( x "+intType[d]+" "+ra+" ) ;", mask)
			for _, b := range fs {
				rb := render(b, d)
				e.Diff(d, "CREATE TABLE t ( x "+intType[d]+" "+ra+" "+rb+" , y "+intType[d]+" ) ;", mask)
				e.Diff(d, "CREATE TABLE t ( x "+intType[d]+" "+ra+" , y "+intType[d]+" "+rb+" ) ;", mask)
			}
		}
	}
	e.Group("constraint names before every constraint")
	for d := 0; d < NDialect; d++ {
		fs := colconForms(d, 1)
		for _, a := range fs {
			ra := render(a, d)
			for _, n := range []string{"nm", "N1", identQuote[d][:1] + "n m" + identQuote[d][:1], "check_x", "_"} {
				e.Diff(d, "CREATE TABLE t ( x "+intType[d]+" CONSTRAINT "+n+" "+ra+" , y "+intType[d]+" ) ;", mask)
				for _, b := range fs {
					rb := render(b, d)
					if n == "nm" || n == "N1" {
						e.Diff(d, "CREATE TABLE t ( x "+intType[d]+" "+rb+" CONSTRAINT "+n+" "+ra+" ) ;", mask)
						e.Diff(d, "CREATE TABLE t ( x "+intType[d]+" CONSTRAINT n0 "+rb+" CONSTRAINT "+n+" "+ra+" , y "+intType[d]+" ) ;", mask)
					}
				}
			}
		}
	}
	e.Group("constraints beside expressions of several contents")
	for d := 0; d < NDialect; d++ {
		t := intType[d]
		for _, x := range []string{"x", "1", "'q'", "NOT NULL", "NULL", "x = 1", "( x )", "f ( x )", "x , y", "UNIQUE", "PRIMARY KEY", "x IS NOT NULL", "t . x", "x > -1", "DEFAULT", "x COLLATE BINARY", "')'"} {
			for _, c := range colconForms(d, 1) {
				rc := render(c, d)
				for _, w := range []string{"CHECK ( " + x + " )", "DEFAULT ( " + x + " )", "GENERATED ALWAYS AS ( " + x + " ) STORED", "CONSTRAINT n1 CHECK ( " + x + " )"} {
					e.Diff(d, "CREATE TABLE t ( x "+t+" "+w+" "+rc+" , y "+t+" ) ;", mask)
					e.Diff(d, "CREATE TABLE t ( x "+t+" "+rc+" "+w+" , y "+t+" ) ;", mask)
					e.Diff(d, "CREATE TABLE t ( x "+t+" "+w+" NOT NULL "+rc+" ) ;", mask)
					e.Diff(d, "CREATE TABLE t ( x "+t+" UNIQUE "+w+" "+rc+" ) ;", mask)
				}
				e.Diff(d, "CREATE TABLE t ( CHECK ( "+x+" ) , x "+t+" "+rc+" ) ;", mask)
				e.Diff(d, "CREATE TABLE t ( x "+t+" "+rc+" , CHECK ( "+x+" ) ) ;", mask)
			}
		}
	}
	e.Group("collations")
	for d := 0; d < NDialect; d++ {
		for _, cn := range []string{"BINARY", "NOCASE", "RTRIM", "nocase", "Rtrim", "utf8_bin", "UTF8MB4_general_ci", "`utf8 bin`", "\"x\"", "'x'", "latin1"} {
			for _, a := range colconKinds(d) {
				ra := render(a, d)
				e.Diff(d, "CREATE TABLE t ( x "+strType[d]+" COLLATE "+cn+" "+ra+" ) ;", fColCon|fPanic)
				e.Diff(d, "CREATE TABLE t ( x "+strType[d]+" "+ra+" COLLATE "+cn+" , y "+strType[d]+" ) ;", fColCon|fPanic)
			}
		}
	}
	e.Group("element sequences")
	elementSequences(e, 3, mask)
	richDiff(e, mask)
	general(e, generalK(e), fColCon)
}

// ------------------------------------------------------------------------------------------- C09

func exploreC09(e *Explorer) {
	mask := fPanic | fAcc | fRej | fDefLit
	frame := func(d int, i int, s string) string {
		t := intType[d]
		switch i {
		case 0:
			return "CREATE TABLE t ( x " + t + " DEFAULT " + s + " ) ;"
		case 1:
			return "CREATE TABLE t ( x " + t + " DEFAULT " + s + " NOT NULL , y " + t + " ) ;"
		case 2:
			return "CREATE TABLE t ( w " + t + " DEFAULT 4 , x " + t + " UNIQUE DEFAULT " + s + " CHECK ( x ) , y " + t + " DEFAULT 'q' ) ;"
		case 3:
			return "CREATE TABLE t ( x " + t + " DEFAULT " + s + ",y " + t + " );"
		}
		return "CREATE TABLE t ( x " + t + " DEFAULT " + s + ");"
	}
	e.Group("all short character strings after DEFAULT")
	alpha := []string{"0", "1", "7", ".", "e", "E", "+", "-", "'", "x", "_"}
	for d := 0; d < NDialect; d++ {
		allStrings(alpha, e.Pick(4, 5), func(s string) {
			for i := 0; i < 2; i++ {
				e.Diff(d, frame(d, i, s), mask)
			}
			if len(s) <= 3 {
				for i := 2; i < 5; i++ {
					e.Diff(d, frame(d, i, s), mask)
				}
			}
		})
	}
	e.Group("numbers")
	for d := 0; d < NDialect; d++ {
		for _, sg := range []string{"", "-", "+", "--", "+-"} {
			for _, ip := range []string{"0", "1", "7", "10", "42", "007", "100", "255", "999999", "2147483648", "9007199254740993", "12345678901234567890", ""} {
				for _, fp := range []string{"", ".0", ".5", ".25", ".125", ".10", ".001", ".123456789", ".", "..5"} {
					for _, ex := range []string{"", "e0", "e3", "E3", "e+3", "e-3", "E+10", "E-10", "e", "e+", "ee3", "e3.5"} {
						e.Diff(d, frame(d, 1, sg+ip+fp+ex), mask)
						e.Diff(d, frame(d, 4, sg+ip+fp+ex), mask)
					}
				}
			}
		}
		for n := -e.Pick(300, 3000); n <= e.Pick(300, 3000); n++ {
			e.Diff(d, frame(d, 0, strconv.Itoa(n)), mask)
			e.Diff(d, frame(d, 2, strconv.Itoa(n)+".5"), mask)
			e.Diff(d, frame(d, 3, strconv.FormatFloat(float64(n)/8, 'f', -1, 64)), mask)
		}
	}
	e.Group("round numbers and their neighbours")
	for d := 0; d < NDialect; d++ {
		num := func(s string) {
			for _, sg := range []string{"", "-"} {
				e.Diff(d, frame(d, 0, sg+s), mask)
				e.Diff(d, frame(d, 1, sg+s+".0"), mask)
				e.Diff(d, frame(d, 3, sg+s+".5"), mask)
			}
		}
		for k := 0; k < 300; k++ {
			z := strings.Repeat("0", k)
			num("1" + z)
			e.Diff(d, frame(d, 0, "0."+z+"1"), mask)
			e.Diff(d, frame(d, 1, "-3."+z+"7"), mask)
			e.Diff(d, frame(d, 0, "0."+strings.Repeat("9", k+1)), mask)
			if k < 40 {
				for _, h := range []string{"2", "5", "7", "12", "25", "99", "123", "1234567"} {
					num(h + z)
					num(h + z + "1")
				}
				num(strings.Repeat("9", k+1))
				num("1234567890123456789012345678901234567890"[:k+1])
				num(strings.Repeat("7", k+1))
			}
			e.Diff(d, frame(d, 0, "1e"+strconv.Itoa(k)), mask)
			e.Diff(d, frame(d, 1, "-1.25E-"+strconv.Itoa(k)), mask)
			e.Diff(d, frame(d, 3, "4.5e+"+strconv.Itoa(k)), mask)
		}
		for k := uint(1); k < 64; k++ {
			for _, o := range []uint64{0, 1, 3} {
				num(strconv.FormatUint(1<<k+o, 10))
				num(strconv.FormatUint(1<<k-o, 10))
				num(strconv.FormatUint(1<<k+1<<(k/2)+o, 10))
			}
		}
	}
	e.Group("keywords, reserved words and other words after DEFAULT")
	words := []string{"NULL", "null", "Null", "TRUE", "true", "True", "FALSE", "false", "fAlSe", "CURRENT_DATE", "CURRENT_TIME", "CURRENT_TIMESTAMP", "current_date", "current_timestamp", "Current_Time",
		"NaN", "nan", "Inf", "inf", "Infinity", "infinity", "+Inf", "-Inf", "-inf", "+nan", "0x1F", "0b1", "1_000", "x", "abc", "NOT", "DEFAULT", "UNIQUE", "NOW", "now ( )", "CURRENT_USER", "LOCALTIME", "yes", "on", "T", "F", "t", "nulll", "truee", "NULLX", "CURRENT", "CURRENT_DATES", ")", ",", ";", ".", "(", "=", "- 1", "+ 1", "1 2", "'a' 'b'", "TRUE FALSE", "NULL NULL", "-", "+", "*", "1a", "a1", "1-1", "1+1", "1*2", "é"}
	for d := 0; d < NDialect; d++ {
		ws := append(append([]string{}, words...), reservedSQLite...)
		ws = append(ws, reservedMySQL...)
		ws = append(ws, reservedPostgreSQL...)
		for _, w := range ws {
			for i := 0; i < 5; i++ {
				e.Diff(d, frame(d, i, w), mask)
			}
		}
	}
	e.Group("quoted defaults")
	contents := append(append([]string{}, quotedWords...), "1", "0", "-1", "1.5", "null", "NULL", "true", "TRUE", "False", "NaN", "Inf", "(1+2)", "( x )", "(", ")", "x", "it", "007", "1e5", "CURRENT_TIMESTAMP")
	for d := 0; d < NDialect; d++ {
		for _, q := range []string{"'", "\"", "`"} {
			for _, s := range contents {
				if strings.Contains(s, q) {
					continue
				}
				for i := 0; i < 5; i++ {
					e.Diff(d, frame(d, i, q+s+q), mask)
				}
			}
			allStrings([]string{"1", "-", ".", "'", "\"", "`", " ", "\n", ",", ";", "(", ")", "x", "N", "/", "*"}, e.Pick(3, 3), func(s string) {
				if !strings.Contains(s, q) {
					e.Diff(d, frame(d, len(s)%5, q+s+q), mask)
				}
			})
		}
	}
	e.Group("default among other constraints")
	for d := 0; d < NDialect; d++ {
		lits := []string{"1", "-2.5", "1e3", "'s'", "''", "'NULL'", "NULL", "TRUE", "false", "CURRENT_TIMESTAMP", "CURRENT_DATE", "( 1 + 2 )"}
		fs := colconForms(d, 2)
		for _, l := range lits {
			for _, a := range fs {
				ra := render(a, d)
				e.Diff(d, "CREATE TABLE t ( x "+intType[d]+" "+ra+" DEFAULT "+l+" ) ;", mask)
				e.Diff(d, "CREATE TABLE t ( x "+intType[d]+" DEFAULT "+l+" "+ra+" , y "+intType[d]+" DEFAULT 'k2' ) ;", mask)
				for _, b := range colconKinds(d) {
					e.Diff(d, "CREATE TABLE t ( x "+intType[d]+" "+ra+" DEFAULT "+l+" "+render(b, d)+" , y "+intType[d]+" ) ;", mask)
				}
			}
		}
		for _, l := range lits {
			for _, l2 := range lits {
				for _, l3 := range lits {
					e.Diff(d, "CREATE TABLE t ( x "+intType[d]+" DEFAULT "+l+" , y "+intType[d]+" DEFAULT "+l2+" , z "+intType[d]+" , w "+intType[d]+" DEFAULT "+l3+" ) ;", mask)
				}
			}
		}
	}
	richDiff(e, fFocus|fDefLit)
	general(e, generalK(e), fDefLit)
}

// ------------------------------------------------------------------------------------------- C10

// balanced: all token strings over the alphabet, of length 1..n, with balanced brackets and no empty
// leading position of a comma.
func balanced(alpha []string, n int, f func(ts []string)) {
	var rec func(ts []string, depth int)
	rec = func(ts []string, depth int) {
		if len(ts) > 0 && depth == 0 {
			f(ts)
		}
		if len(ts)+depth >= n && depth == 0 || len(ts) >= n {
			return
		}
		for _, a := range alpha {
			switch a {
			case "(":
				if len(ts)+depth+2 <= n {
					rec(append(ts[:len(ts):len(ts)], a), depth+1)
				}
			case ")":
				if depth > 0 {
					rec(append(ts[:len(ts):len(ts)], a), depth-1)
				}
			default:
				if len(ts)+depth+1 <= n {
					rec(append(ts[:len(ts):len(ts)], a), depth)
				}
			}
		}
	}
	rec(nil, 0)
}

func exprPlaces(d int) []place {
	t := intType[d]
	ps := []place{
		{a: "CREATE TABLE t ( x " + t + " CHECK ( ", b: " ) NOT NULL , y " + t + " ) ;"},
		{a: "CREATE TABLE t ( x " + t + " DEFAULT ( ", b: " ) UNIQUE ) ;"},
		{a: "CREATE TABLE t ( x " + t + " , CHECK ( ", b: " ) , UNIQUE ( x ) ) ;"},
		{a: "CREATE TABLE t ( x " + t + " NOT NULL CHECK ( ", b: " ) ) ; CREATE TABLE u ( v " + t + " ) ;"},
		{a: "CREATE TABLE t ( CONSTRAINT ck CHECK ( ", b: " ) , x " + t + " CHECK ( x ) ) ;"},
	}
	return ps
}

func exploreC10(e *Explorer) {
	mask := fFocus | fExprs | fCols | fColCon | fTUQ
	e.Group("all balanced token strings as expressions")
	alpha := []string{"x", "1", "'s s'", "(", ")", ",", "AND", "="}
	for d := 0; d < NDialect; d++ {
		for i, p := range exprPlaces(d) {
			n := e.Pick(6, 7)
			if i > 2 {
				n = e.Pick(4, 5)
			}
			balanced(alpha, n, func(ts []string) {
				e.Diff(d, p.a+sp(ts)+p.b, mask)
			})
		}
	}
	e.Group("short expressions over many kinds of tokens, with several separators")
	wide := []string{"x", "7", "-2.5", "1.5", "'it'", "''", "\"q q\"", "(", ")", ",", ".", "IS", "NOT", "NULL", "in", "||", "<=", "a=b", "a<b", "-x", "*", "/", "%", "::", "?", "[1]", "CASE", "END", "CHECK", "DEFAULT", "é", "$1", ":p", "BEGIN", "CREATE", "1e5"}
	seps := []string{" ", "\n", "/* c */", "  -- d\n", "\t"}
	for d := 0; d < NDialect; d++ {
		for i, p := range exprPlaces(d) {
			if i > 2 {
				break
			}
			balanced(wide, e.Pick(2, 3), func(ts []string) {
				if len(ts) == 3 {
					e.Diff(d, p.a+sp(ts)+p.b, mask)
					return
				}
				for _, s := range seps {
					e.Diff(d, p.a+strings.Join(ts, s)+p.b, mask)
				}
				e.Diff(d, strings.TrimSpace(p.a)+glue(ts)+strings.TrimSpace(p.b), mask)
			})
			balanced(wide[:18], 3, func(ts []string) {
				e.Diff(d, p.a+sp(ts)+p.b, mask)
				e.Diff(d, strings.TrimSpace(p.a)+glue(ts)+strings.TrimSpace(p.b), mask)
			})
		}
	}
	e.Group("sequences of words of expressions, in several spellings")
	ws := []string{"AND", "and", "Or", "NOT", "not", "IS", "is", "NULL", "null", "IN", "Like", "BETWEEN", "CASE", "when", "THEN", "ELSE", "End", "EXISTS", "x", "X", "1", "'q'", "'Q q'", "=", "<>", "||", "-1", "TRUE", "CURRENT_DATE", "COLLATE", "cast", "AS", "DEFAULT", "ON", "PRIMARY", "KEY", "REFERENCES"}
	for d := 0; d < NDialect; d++ {
		ps := exprPlaces(d)
		for i, u := range ws {
			for j, v := range ws {
				for k, w := range ws {
					e.Diff(d, ps[(i+j+k)%len(ps)].a+u+" "+v+" "+w+ps[(i+j+k)%len(ps)].b, mask)
				}
				for _, p := range ps {
					e.Diff(d, p.a+"x "+u+" "+v+" ( y "+u+" 1 ) "+v+" z"+p.b, mask)
					e.Diff(d, p.a+u+" ( "+v+" , "+u+" ) "+v+p.b, mask)
					e.Diff(d, strings.TrimSpace(p.a)+glue([]string{u, v, "(", u, ")", v, "(", "(", "x", ")", ")", u, v, ".", v})+strings.TrimSpace(p.b), mask)
				}
			}
		}
	}
	e.Group("operators beside each other, blanks between")
	ops := []string{"-", "--x", "+", "*", "/", "%", "<", ">", "=", "<=", ">=", "<>", "!=", "!", "|", "||", "&", "^", "~", ":", "::", "?", "@", "\\", "$", "[", "]", "{", "}", "==", "->", "->>", "x", "1", "-1", "+1", "1.5", "x=1", "x<y", "'q'", "x-", "-x-", "*x", "x/", "x/y", "x*y", "#", "1e5", "e", "_"}
	for d := 0; d < NDialect; d++ {
		var os []string
		for _, o := range ops {
			if l := lexModel("x "+o+" y", d); len(l.Toks) == 3 && !l.Err {
				os = append(os, o)
			}
		}
		for _, p := range exprPlaces(d) {
			for _, a := range os {
				for _, b := range os {
					e.Diff(d, p.a+a+" "+b+p.b, mask)
					e.Diff(d, p.a+"x "+a+" "+b+" y"+p.b, mask)
					e.Diff(d, p.a+"x "+a+" ( "+b+" y ) "+a+" , ( "+b+" ) "+b+p.b, mask)
					e.Diff(d, p.a+a+"("+b+")"+a+","+b+p.b, mask)
				}
			}
		}
		for _, p := range exprPlaces(d)[:2] {
			for n := 1; n <= e.Pick(30, 100); n++ {
				o, c := strings.Repeat("( ", n), strings.Repeat(" )", n)
				for _, a := range append(os, "x='q'", "x.y", "f(x)", "'('", "')'", "x=(y)", "\"q q\"") {
					e.Diff(d, p.a+o+a+c+p.b, mask)
					e.Diff(d, p.a+"x "+a+" "+o+"y "+a+" z"+c+" "+a+" w"+p.b, mask)
				}
			}
		}
	}
	e.Group("nesting")
	for d := 0; d < NDialect; d++ {
		for _, p := range exprPlaces(d) {
			for n := 1; n <= e.Pick(40, 150); n++ {
				o, c := strings.Repeat("(", n), strings.Repeat(")", n)
				e.Diff(d, p.a+o+"x"+c+p.b, mask)
				e.Diff(d, p.a+"a1 + "+o+" x "+c+" * b1"+p.b, mask)
				e.Diff(d, p.a+strings.Repeat("( x AND ", n)+"y"+c+p.b, mask)
				e.Diff(d, p.a+strings.Repeat("f ( x , ", n)+"y"+c+p.b, mask)
				e.Diff(d, p.a+strings.Repeat("( x ) , ", n)+"y"+p.b, mask)
				e.Diff(d, p.a+strings.Repeat("x ", n)+p.b, mask)
			}
		}
	}
	e.Group("brackets in quoted text and comments inside expressions")
	for d := 0; d < NDialect; d++ {
		for _, p := range exprPlaces(d) {
			for _, s := range []string{"x = ')'", "x = '('", "x <> '))('", "\")\" > 1", "x /* ) */ > 1", "x -- )\n > 1", "x = '--' AND y = 1", "x = '/*' OR y = '*/'", "x = 'it' AND ( y = ';' )", "x LIKE '%(%'", "x = ','", "( x = ')' )", "f ( ')' , x )", "x IN ( '(' , ')' )"} {
				e.Diff(d, p.a+s+p.b, mask)
				e.Diff(d, strings.TrimSpace(p.a)+s+strings.TrimSpace(p.b), mask)
			}
		}
	}
	e.Group("several expressions in one table")
	for d := 0; d < NDialect; d++ {
		t := intType[d]
		ex := []string{"( x )", "( x > 1 AND y < 2 )", "( ( x ) )", "( f ( x , 'a b' ) )", "( x IN ( 1 , 2 ) OR ( y ) )", "( 'q' )"}
		for _, a := range ex {
			for _, b := range ex {
				e.Diff(d, "CREATE TABLE t ( x "+t+" CHECK "+a+" DEFAULT "+b+" , y "+t+" CHECK "+b+" ) ;", mask)
				e.Diff(d, "CREATE TABLE t ( x "+t+" DEFAULT "+a+" CHECK "+b+" NOT NULL , CHECK "+a+" , CONSTRAINT c2 CHECK "+b+" , y "+t+" ) ;", mask)
				for _, c := range ex {
					e.Diff(d, "CREATE TABLE t ( x "+t+" CHECK "+a+" , CHECK "+b+" , y "+t+" DEFAULT "+c+" ) ; CREATE TABLE u ( z "+t+" CHECK "+a+" ) ;", mask)
				}
			}
		}
		for _, a := range ex {
			for _, c := range colconForms(d, 2) {
				rc := render(c, d)
				e.Diff(d, "CREATE TABLE t ( x "+t+" CHECK "+a+" "+rc+" , y "+t+" ) ;", mask)
				e.Diff(d, "CREATE TABLE t ( x "+t+" "+rc+" DEFAULT "+a+" , y "+t+" ) ;", mask)
				e.Diff(d, "CREATE TABLE t ( x "+t+" DEFAULT "+a+" "+rc+" , CHECK "+a+" ) ;", mask)
			}
		}
	}
	richDiff(e, fFocus|fExprs)
	general(e, generalK(e), fExprs)
}

// ------------------------------------------------------------------------------------------- C11

func tableConFrames(d int, s string) []string {
	t := intType[d]
	return []string{
		"CREATE TABLE t ( " + s + " ) ;",
		"CREATE TABLE t ( x " + t + " , " + s + " ) ;",
		"CREATE TABLE t ( x " + t + " NOT NULL , " + s + " , y " + t + " UNIQUE ) ;",
		"CREATE TABLE t ( " + s + " , x " + t + " PRIMARY KEY , CONSTRAINT zz UNIQUE ( x , y ) , FOREIGN KEY ( x ) REFERENCES q ( w ) ) ;",
		"CREATE TABLE t ( CONSTRAINT zp PRIMARY KEY ( x , y ) , CHECK ( x > 1 ) , " + s + " ) ; CREATE TABLE u ( v " + t + " ) ;",
		"CREATE TABLE t ( x " + t + " , " + s + " , " + s + " ) ;",
	}
}

func exploreTableCons(e *Explorer, mask, gen uint32, fk bool) {
	e.Group("all sequences of table elements")
	elementSequences(e, e.Pick(4, 5), mask)
	e.Group("every table constraint form, in several frames")
	for d := 0; d < NDialect; d++ {
		k := e.Pick(4, 5)
		if d == MySQL {
			k = e.Pick(3, 4)
		}
		for _, f := range forms(d, "tablecon", k) {
			s := render(f, d)
			for _, t := range tableConFrames(d, s) {
				e.Diff(d, t, mask)
			}
		}
	}
	e.Group("pairs of table constraint forms")
	for d := 0; d < NDialect; d++ {
		fs := forms(d, "tablecon", 2)
		for _, a := range fs {
			for _, b := range fs {
				e.Diff(d, "CREATE TABLE t ( "+render(a, d)+" , "+render(b, d)+" , x "+intType[d]+" ) ;", mask)
			}
		}
	}
	e.Group("key column lists")
	for d := 0; d < NDialect; d++ {
		q := identQuote[d][:1]
		cols := []string{"x", "Yy", q + "z z" + q, "_1", q + "select" + q, "x"}
		sequences(len(cols), e.Pick(4, 5), func(ix []int) {
			var l []string
			for _, i := range ix {
				l = append(l, cols[i])
			}
			s := strings.Join(l, " , ")
			g := strings.Join(l, ",")
			if fk {
				e.Diff(d, "CREATE TABLE t ( FOREIGN KEY ( "+s+" ) REFERENCES r ( "+s+" ) , CONSTRAINT f2 FOREIGN KEY ( "+l[0]+" ) REFERENCES s . r2 ( "+s+" ) ) ;", mask)
				e.Diff(d, "CREATE TABLE t (x "+intType[d]+",FOREIGN KEY("+g+")REFERENCES r("+g+")ON DELETE CASCADE);", mask)
				if len(l) == 1 {
					e.Diff(d, "CREATE TABLE t ( x "+intType[d]+" REFERENCES "+s+" ( "+s+" ) NOT NULL , y "+intType[d]+" ) ;", mask)
					e.Diff(d, "CREATE TABLE t ( x "+intType[d]+" REFERENCES "+s+" . "+s+" ( "+s+" ) , y "+intType[d]+" REFERENCES r2 ) ;", mask)
				}
			} else {
				e.Diff(d, "CREATE TABLE t ( PRIMARY KEY ( "+s+" ) , CONSTRAINT u2 UNIQUE ( "+s+" ) , UNIQUE ( "+l[0]+" ) ) ;", mask)
				e.Diff(d, "CREATE TABLE t (x "+intType[d]+",UNIQUE("+g+"),CONSTRAINT "+l[0]+" PRIMARY KEY("+g+"));", mask)
			}
		})
	}
	e.Group("constraint names")
	for d := 0; d < NDialect; d++ {
		q := identQuote[d][:1]
		names := []string{"", "CONSTRAINT nn1 ", "CONSTRAINT " + q + "n n" + q + " ", "CONSTRAINT _N ", "CONSTRAINT " + q + "PRIMARY KEY" + q + " "}
		if d == MySQL {
			names = append(names, "CONSTRAINT ")
		}
		bodies := []string{"PRIMARY KEY ( x )", "UNIQUE ( x , y )", "CHECK ( x > 1 )", "FOREIGN KEY ( x ) REFERENCES r ( w )"}
		var all []string
		for _, n := range names {
			for _, b := range bodies {
				all = append(all, n+b)
			}
		}
		for _, a := range all {
			for _, b := range all {
				e.Diff(d, "CREATE TABLE t ( "+a+" , "+b+" ) ;", mask)
				for _, c := range all {
					e.Diff(d, "CREATE TABLE t ( "+a+" , x "+intType[d]+" CHECK ( z ) , "+b+" , "+c+" ) ;", mask)
				}
			}
		}
	}
	richDiff(e, mask)
	general(e, generalK(e), gen)
}

func exploreC11(e *Explorer) { exploreTableCons(e, fFocus|fTPK|fTUQ|fTCK, fTPK|fTUQ|fTCK, false) }

// ------------------------------------------------------------------------------------------- C12

func exploreC12(e *Explorer) {
	mask := fFocus | fFK | fRef
	e.Group("references with every tail")
	for d := 0; d < NDialect; d++ {
		t := intType[d]
		k := e.Pick(3, 4)
		if d == SQLite {
			k++
		}
		tails := []string{}
		for _, f := range forms(d, "reftail", k) {
			tails = append(tails, render(f, d))
		}
		q := identQuote[d][:1]
		refs := []string{"r ( w )", "s . r ( w )", q + "r r" + q + " ( " + q + "w w" + q + " )", q + "s" + q + " . " + q + "r" + q + " ( w )"}
		if d != MySQL {
			refs = append(refs, "r", "s . r")
		} else {
			refs = append(refs, "s.R ( w )")
		}
		for i, r := range refs {
			for j, tl := range tails {
				if i > 1 && j%7 != 0 {
					continue
				}
				e.Diff(d, "CREATE TABLE t ( x "+t+" REFERENCES "+r+" "+tl+" , y "+t+" ) ;", mask)
				e.Diff(d, "CREATE TABLE t ( x "+t+" UNIQUE REFERENCES "+r+" "+tl+" NOT NULL CHECK ( x ) , y "+t+" REFERENCES r9 ( w9 ) ) ;", mask)
				e.Diff(d, "CREATE TABLE t ( x "+t+" , FOREIGN KEY ( x , y ) REFERENCES "+r+" "+tl+" , UNIQUE ( x ) ) ;", mask)
				e.Diff(d, "CREATE TABLE t ( CONSTRAINT f1 FOREIGN KEY ( x ) REFERENCES "+r+" "+tl+" , CONSTRAINT f2 FOREIGN KEY ( y , z ) REFERENCES r2 ( a1 , a2 ) "+tl+" , x "+t+" REFERENCES "+r+" ) ;", mask)
			}
		}
		e.Group("references with and without their tails")
		trace := func(a []string) {
			f := fill(a, d)
			var g []string
			for i, t := range a {
				if !strings.HasPrefix(t, voidMark) {
					g = append(g, f[i])
				}
			}
			e.Emit(Case{K: "trace", D: d, A: sp(f), B: sp(g)})
			e.Emit(Case{K: "trace", D: d, A: glueD(f, d), B: glueD(g, d)})
		}
		long := ""
		for i := 0; i < 16; i++ {
			long += "c" + strconv.Itoa(i) + " " + t + " , "
		}
		kinds := colconKinds(d)
		els := elements(d)
		for i, x := range allForms(d, "reftail", e.Pick(3, 4)) {
			for _, kd := range kinds {
				trace(cat(toks("CREATE TABLE t ( x "+t+" REFERENCES r ( w )"), x, kd, toks(", y "+t+" ) ;")))
				trace(cat(toks("CREATE TABLE t ( x "+t), kd, toks("REFERENCES s . r ( w )"), x, toks(") ;")))
			}
			trace(cat(toks("CREATE TABLE t ( "+long+"x "+t+" REFERENCES r ( w )"), x, toks("UNIQUE , y "+t+" ) ;")))
			trace(cat(toks("CREATE TABLE t ( "+long+"FOREIGN KEY ( x ) REFERENCES r ( w )"), x, toks(", y "+t+" NOT NULL ) ;")))
			el := els[i%len(els)]
			trace(cat(toks("CREATE TABLE t ( x "+t+" , FOREIGN KEY ( x , y ) REFERENCES r ( w , v )"), x, toks(", y "+t+" ) ; CREATE TABLE u ( "+el+" ) ;")))
		}
		e.Group("references among other column constraints")
		fs := colconForms(d, 2)
		for _, r := range refs {
			for _, a := range fs {
				ra := render(a, d)
				e.Diff(d, "CREATE TABLE t ( x "+t+" "+ra+" REFERENCES "+r+" , y "+t+" ) ;", mask)
				e.Diff(d, "CREATE TABLE t ( x "+t+" REFERENCES "+r+" "+ra+" , y "+t+" ) ;", mask)
				e.Diff(d, "CREATE TABLE t ( x "+t+" REFERENCES "+r+" ON DELETE SET NULL "+ra+" , y "+t+" "+ra+" ) ;", mask)
				e.Diff(d, "CREATE TABLE t ( x "+t+" "+ra+" , y "+t+" REFERENCES "+r+" , z "+t+" "+ra+" ) ;", mask)
				for _, b := range colconKinds(d) {
					e.Diff(d, "CREATE TABLE t ( x "+t+" "+ra+" REFERENCES "+r+" "+render(b, d)+" , y "+t+" ) ;", mask)
				}
			}
		}
	}
	exploreTableCons(e, mask, fFK|fRef, true)
}

func init() {
	register(&Check{ID: "C06", Explore: exploreC06, Rule: "number, order and headers of the tables are compared with the model's"})
	register(&Check{ID: "C07", Explore: exploreC07, Rule: "columns, type names and digits are compared with the model's"})
	register(&Check{ID: "C08", Explore: exploreC08, Rule: "column constraint fields are compared with the model's"})
	register(&Check{ID: "C09", Explore: exploreC09, Rule: "literal defaults (value and Go type) and acceptance after DEFAULT are compared with the model's"})
	register(&Check{ID: "C10", Explore: exploreC10, Rule: "expression texts are re-tokenised and compared with the model's tokens"})
	register(&Check{ID: "C11", Explore: exploreC11, Rule: "table constraints are compared with the model's"})
	register(&Check{ID: "C12", Explore: exploreC12, Judges: map[string]func(*Worker, *Case) string{"trace": judgeTrace}, Rule: "foreign keys and references are compared with the model's"})
}
