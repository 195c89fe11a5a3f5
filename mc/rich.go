package main

import (
	"strconv"
	"strings"
)

// Contexts in which every construct is tried again: names that coincide, many neighbours, other
// layouts, other spellings.  A construct must be read the same way in all of them.

// coHeaders, coElements: headers and table elements over very few names.
func coHeaders(d int) []string {
	q := identQuote[d][:1]
	return []string{"t", "x", "s.t", "t . t", "x.t", "IF NOT EXISTS t", "IF NOT EXISTS x . t", q + "x" + q, "T"}
}

func coElements(d int) []string {
	it, st := intType[d], strType[d]
	q := identQuote[d][:1]
	els := []string{
		"x " + it, "X " + it, "x " + st, "t " + it, q + "x" + q + " " + it,
		"x " + it + " PRIMARY KEY", "x " + it + " UNIQUE NOT NULL", "x " + it + " DEFAULT 1", "x " + st + " DEFAULT 'x'",
		"x " + it + " CHECK ( x )", "x " + it + " REFERENCES t ( x )", "x " + it + " REFERENCES x ( x )", "x " + it + " CONSTRAINT x CHECK ( x )",
		"PRIMARY KEY ( x )", "PRIMARY KEY ( x , x )", "UNIQUE ( x )", "UNIQUE ( t , x )", "CONSTRAINT x UNIQUE ( x )", "CONSTRAINT x PRIMARY KEY ( x )",
		"CHECK ( x )", "CONSTRAINT x CHECK ( x )", "CONSTRAINT t CHECK ( x = 'x' )",
		"FOREIGN KEY ( x ) REFERENCES t ( x )", "FOREIGN KEY ( x ) REFERENCES x ( x )", "CONSTRAINT x FOREIGN KEY ( x , t ) REFERENCES t . x ( x , t )",
	}
	switch d {
	case SQLite:
		els = append(els, "x INTEGER PRIMARY KEY AUTOINCREMENT", "x TEXT COLLATE NOCASE")
	case Postgres:
		els = append(els, "x VARCHAR ( 3 )", "EXCLUDE ( x WITH = )")
	case MySQL:
		els = append(els, "x VARCHAR ( 3 )", "x INT AUTO_INCREMENT", "INDEX x ( x )", "KEY ( x )")
	}
	return els
}

func coincident(e *Explorer, f func(d int, s string)) {
	if e.again("coincident") {
		return
	}
	e.Group("coinciding names: element sequences")
	for d := 0; d < NDialect; d++ {
		els := coElements(d)
		sequences(len(els), e.Pick(3, 3), func(ix []int) {
			var l []string
			for _, i := range ix {
				l = append(l, els[i])
			}
			f(d, "CREATE TABLE x ( "+strings.Join(l, " , ")+" ) ;")
		})
	}
	e.Group("coinciding names: tables")
	for d := 0; d < NDialect; d++ {
		hs, els := coHeaders(d), coElements(d)
		sequences(len(hs), e.Pick(3, 4), func(ix []int) {
			s := ""
			for _, i := range ix {
				s += "CREATE TABLE " + hs[i] + " ( x " + intType[d] + " ) ; "
			}
			f(d, s)
		})
		for i, h := range hs {
			for _, a := range els {
				for j, g := range hs {
					if !e.Thorough() && (i+j)%3 != 0 {
						continue
					}
					for _, b := range els {
						f(d, "CREATE TABLE "+h+" ( "+a+" ) ; CREATE TABLE "+g+" ( "+b+" ) ;")
					}
				}
			}
		}
		ss := stmts(d)
		for _, h := range hs {
			for _, g := range hs {
				for _, s := range ss {
					f(d, "CREATE TABLE "+h+" ( x "+intType[d]+" ) ; "+s+" CREATE TABLE "+g+" ( x "+intType[d]+" ) ;")
				}
			}
		}
	}
}

// parts: column clauses, table elements and option lists, each with few deviations.
func parts(d, k int) (cons, elems, opts []string) {
	for _, f := range colconForms(d, k) {
		cons = append(cons, render(f, d))
	}
	for _, t := range formTexts(d, "type", 2) {
		elems = append(elems, "nt "+t)
	}
	for _, f := range formTexts(d, "tablecon", k+1) {
		elems = append(elems, f)
	}
	for _, f := range formTexts(d, "options", k) {
		if f != "" {
			opts = append(opts, f)
		}
	}
	return
}

// crowded: every part at every place among many neighbours.
func crowded(e *Explorer, f func(d int, s string)) {
	if e.again("crowded") {
		return
	}
	e.Group("every part at every place of larger tables")
	for d := 0; d < NDialect; d++ {
		cons, elems, opts := parts(d, 1)
		var all []string
		kinds := colconKinds(d)
		for i, c := range cons {
			all = append(all, "x "+intType[d]+" "+c)
			if i%2 == 0 || e.Thorough() {
				all = append(all, "x "+intType[d]+" "+c+" "+render(kinds[i/2%len(kinds)], d))
			}
			if i%2 == 1 || e.Thorough() {
				all = append(all, "x "+intType[d]+" "+render(kinds[i/2%len(kinds)], d)+" "+c)
			}
		}
		all = append(all, elems...)
		plain := func(i int) string { return "c" + strconv.Itoa(i) + " " + intType[d] }
		fancy := func(i int) string {
			switch i % 4 {
			case 0:
				return "c" + strconv.Itoa(i) + " " + intType[d] + " NOT NULL"
			case 1:
				return "UNIQUE ( c" + strconv.Itoa(i) + " , x )"
			case 2:
				return "c" + strconv.Itoa(i) + " " + strType[d] + " DEFAULT 'd" + strconv.Itoa(i) + "' CHECK ( x > 1 )"
			}
			return "FOREIGN KEY ( c" + strconv.Itoa(i) + " ) REFERENCES r ( w )"
		}
		build := func(n, at int, el string, other func(int) string) string {
			var l []string
			for i := 0; i < n; i++ {
				if i == at {
					l = append(l, el)
				}
				l = append(l, other(i))
			}
			if at == n {
				l = append(l, el)
			}
			return strings.Join(l, " , ")
		}
		var places [][2]int
		for n := 1; n <= e.Pick(9, 14); n++ {
			for at := 0; at <= n; at++ {
				places = append(places, [2]int{n, at})
			}
		}
		for _, n := range []int{16, 20, 24, 32, 40} {
			places = append(places, [2]int{n, 0}, [2]int{n, n / 2}, [2]int{n, n - 1}, [2]int{n, n})
		}
		for _, el := range all {
			for _, p := range places {
				f(d, "CREATE TABLE t ( "+build(p[0], p[1], el, plain)+" ) ;")
				f(d, "CREATE TABLE t ( "+build(p[0], p[1], el, fancy)+" ) ;")
			}
		}
		for _, el := range opts {
			for n := 1; n <= 40; n++ {
				f(d, "CREATE TABLE t ( "+build(n, n, "x "+intType[d], fancy)+" ) "+el+" ; CREATE TABLE u ( y "+intType[d]+" ) ;")
			}
		}
		e.Group("every part after and before other statements")
		ss := stmts(d)
		for _, el := range all {
			s := "CREATE TABLE t ( " + el + " , y " + intType[d] + " UNIQUE ) ;"
			for i, o := range ss {
				f(d, o+" "+s)
				f(d, s+" "+o)
				f(d, o+" "+s+" "+ss[(i+3)%len(ss)])
			}
			for n := 2; n <= 40; n = n*3/2 + 1 {
				f(d, strings.Repeat("CREATE TABLE p ( x "+intType[d]+" ) ;\n", n)+s)
				f(d, s+strings.Repeat(" CREATE TABLE p ( x "+intType[d]+" ) ;", n))
				f(d, "CREATE TABLE p ( "+build(n, 0, "x "+intType[d], fancy)+" ) ; "+s)
			}
		}
		for _, el := range opts {
			for _, o := range ss {
				f(d, "CREATE TABLE t ( x "+intType[d]+" ) "+el+" ; "+o)
				f(d, o+" CREATE TABLE t ( x "+intType[d]+" ) "+el+" ;")
			}
		}
		e.Group("every part at every place of larger tables")
	}
}

// laidOut: every part in other layouts and other keyword case.
func laidOut(e *Explorer, f func(d int, s string)) {
	if e.again("laidOut") {
		return
	}
	e.Group("every part in other layouts and spellings")
	seps := []string{"\n", "\t", "/* c */", " -- c\n", "\r\n", "  ", "/*\n*/"}
	for d := 0; d < NDialect; d++ {
		cons, elems, opts := parts(d, 1)
		var all []string
		for _, c := range cons {
			all = append(all, "CREATE TABLE t ( v "+intType[d]+" , x "+intType[d]+" "+c+" , y "+strType[d]+" NOT NULL ) ;")
		}
		for _, el := range elems {
			all = append(all, "CREATE TABLE t ( v "+intType[d]+" , "+el+" , y "+strType[d]+" NOT NULL ) ;")
		}
		for _, o := range opts {
			all = append(all, "CREATE TABLE t ( v "+intType[d]+" ) "+o+" ; CREATE TABLE u ( y "+strType[d]+" ) ;")
		}
		all = append(all, docs(d)...)
		all = append(all, stmts(d)...)
		for _, s := range all {
			ts := lexToks(s, d)
			for _, p := range seps {
				f(d, strings.Join(ts, p))
			}
			f(d, glueD(ts, d))
			f(d, "\n"+s+"\n")
			f(d, "-- c\n"+s+" -- c")
			for i := 1; i < len(ts); i++ {
				f(d, sp(ts[:i])+"\n"+sp(ts[i:]))
				if i%2 == 0 || e.Thorough() {
					f(d, sp(ts[:i])+" /* c */ "+sp(ts[i:]))
					f(d, sp(ts[:i])+"--\n"+sp(ts[i:]))
				}
			}
			low, mix := make([]string, len(ts)), make([]string, len(ts))
			for i, t := range ts {
				low[i], mix[i] = t, t
				if isKeywordTok(t) {
					low[i], mix[i] = strings.ToLower(t), alternate(t, i&1)
				}
			}
			f(d, sp(low))
			f(d, sp(mix))
		}
	}
}

// named: telling names and texts at every place that takes one.
func named(e *Explorer, f func(d int, s string)) {
	if e.again("named") {
		return
	}
	e.Group("telling names at every place that takes one")
	for d := 0; d < NDialect; d++ {
		dd, at := namePlaces(d, 4)
		var ns []string
		for _, n := range append(append([]string{}, nameSamples...), quotedWords...) {
			if n == "" {
				continue
			}
			if isPlainWord(n) {
				ns = append(ns, n, strings.ToUpper(n))
			}
			for _, q := range identQuote[d] {
				if !strings.ContainsRune(n, q) {
					ns = append(ns, string(q)+n+string(q))
				}
			}
		}
		for i := range dd {
			f0 := fill(dd[i], d)
			for _, n := range ns {
				f0[at[i]] = n
				f(d, sp(f0))
			}
			// the same name in two places
			for j, t := range dd[i] {
				if j != at[i] && strings.HasPrefix(strings.TrimPrefix(t, voidMark), "@") {
					f1 := fill(dd[i], d)
					f1[j] = f1[at[i]]
					f(d, sp(f1))
				}
			}
		}
	}
	e.Group("telling texts at every place that takes one")
	for d := 0; d < NDialect; d++ {
		for _, p := range quotePlaces(d) {
			for _, q := range quotesFor(d, p.kind) {
				for _, s := range append(append([]string{}, quotedWords...), "1", "0", "NULL", "true", "CURRENT_TIMESTAMP", "(1)", "x", "PRIMARY", "null", "1.5e3") {
					if !strings.ContainsRune(s, q) {
						f(d, p.a+string(q)+s+string(q)+p.b)
					}
				}
			}
		}
	}
}

// rich: all of them.
func rich(e *Explorer, f func(d int, s string)) {
	coincident(e, f)
	crowded(e, f)
	laidOut(e, f)
	named(e, f)
	sized(e, f)
	far(e, f)
	numbers(e, f)
	sourced(e, f)
}

// far: every part behind hundreds of tokens, lines and statements, many parts per text.
func far(e *Explorer, f func(d int, s string)) {
	if e.again("far") {
		return
	}
	e.Group("every part behind many columns, lines and statements")
	var rp refParser
	for d := 0; d < NDialect; d++ {
		it := intType[d]
		cons, elems, opts := parts(d, 2)
		var all []string
		seen := map[string]bool{}
		add := func(el string) {
			if !seen[el] {
				seen[el] = true
				if rp.Parse("CREATE TABLE t ( y "+it+" , "+el+" ) ;", d, false).V == Accept {
					all = append(all, el)
				}
			}
		}
		var kinds []string
		for _, k := range colconKinds(d) {
			kinds = append(kinds, render(k, d))
		}
		for _, c := range cons {
			add("x " + it + " " + c)
		}
		for _, k := range kinds {
			for _, l := range kinds {
				add("x " + it + " " + k + " " + l)
				add("x " + it + " " + k + " CONSTRAINT n1 " + l)
				add("x " + it + " CONSTRAINT n0 " + k + " CONSTRAINT n1 " + l)
			}
		}
		for _, el := range elems {
			add(el)
		}
		for _, t := range formTexts(d, "type", 2) {
			add("x " + t)
		}
		var packs []string
		for i := 0; i < len(all); i += 20 {
			packs = append(packs, strings.Join(all[i:min(i+20, len(all))], " ,\n"))
		}
		col := func(i int) string { return "c" + strconv.Itoa(i) + " " + it }
		for _, n := range []int{20, 60, 260} {
			pre := repeatJoin(n, " , ", col)
			lines := repeatJoin(n, "\n,\n", col)
			st := strings.Repeat("CREATE TABLE p ( x "+it+" ) ;\n", n)
			for _, p := range packs {
				f(d, "CREATE TABLE t ( "+pre+" , "+p+" ) ;")
				f(d, "CREATE TABLE t ( "+lines+" , "+p+" ) ;")
				f(d, st+"CREATE TABLE t ( "+p+" ) ; CREATE TABLE u ( y "+it+" NOT NULL ) ;")
			}
			for i := 0; i < len(opts); i += 5 {
				b := st
				for _, o := range opts[i:min(i+5, len(opts))] {
					b += "CREATE TABLE t ( x " + it + " ) " + o + " ;\n"
				}
				f(d, b)
				f(d, "CREATE TABLE t ( "+pre+" ) "+opts[i]+" ; CREATE TABLE u ( y "+it+" NOT NULL ) ;")
			}
		}
		// headers and other statements
		var b strings.Builder
		for i, h := range headers(d) {
			b.WriteString(h + " ( " + repeatJoin(i%7+1, " , ", col) + " ) ;\n")
		}
		for _, s := range stmts(d) {
			b.WriteString(s + "\n")
			f(d, b.String()+s)
		}
		f(d, b.String()+b.String()+b.String())
	}
}

func headers(d int) []string {
	var out []string
	names := []string{"t", "s . t", "t1", "T", "_t", "tt . uu", "s.t"}
	for _, q := range identQuote[d] {
		q := string(q)
		names = append(names, q+"t t"+q, q+"s"+q+" . "+q+"t"+q, "s."+q+"select"+q, q+"s."+q+".t")
	}
	for _, n := range names {
		out = append(out, "CREATE TABLE "+n, "CREATE TABLE IF NOT EXISTS "+n, "create table if not exists "+n)
	}
	return out
}

// numbers: every number of every clause replaced by others.
func numbers(e *Explorer, f func(d int, s string)) {
	if e.again("numbers") {
		return
	}
	e.Group("other numbers in every clause")
	for d := 0; d < NDialect; d++ {
		it := intType[d]
		eachNumber(d, func(kind, s string) {
			switch kind {
			case "type":
				f(d, "CREATE TABLE t ( x "+s+" , y "+it+" ) ;")
				f(d, "CREATE TABLE t ( x "+s+" NOT NULL ) ;")
				f(d, "CREATE TABLE t ( w "+it+" , x "+glue(lexToks(s, d))+") ;")
			case "colcon":
				f(d, "CREATE TABLE t ( x "+it+" "+s+" , y "+it+" ) ;")
			case "tablecon":
				f(d, "CREATE TABLE t ( x "+it+" , "+s+" , y "+it+" ) ;")
			case "options":
				f(d, "CREATE TABLE t ( x "+it+" ) "+s+" ; CREATE TABLE u ( y "+it+" ) ;")
			}
		})
	}
}

func eachNumber(d int, f func(kind, s string)) {
	vals := []string{"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "10", "12", "16", "31", "32", "50", "63", "64", "65", "99", "100", "127", "128", "200", "255", "256", "512", "999", "1000", "1024", "4096", "65535", "65536", "1000000", "2147483647", "2147483648", "123456789012"}
	for _, n := range srcInts {
		if len(vals) < 60 {
			vals = append(vals, strconv.Itoa(n-1), strconv.Itoa(n), strconv.Itoa(n+1))
		}
	}
	for _, kind := range []string{"type", "colcon", "tablecon", "options"} {
		k := 2
		for _, ts := range forms(d, kind, k) {
			r := fill(ts, d)
			for i, t := range r {
				if !allDigits(t) {
					continue
				}
				for _, v := range vals {
					if v != t {
						q := append([]string{}, r...)
						q[i] = v
						f(kind, sp(q))
					}
				}
			}
		}
	}
}

func richDiff(e *Explorer, mask uint32) {
	rich(e, func(d int, s string) { e.Diff(d, s, mask) })
}

var nl800 = strings.Repeat("\n", 800)

// crowdedEdges: refused transitions behind many columns and other statements.
func crowdedEdges(e *Explorer, mask uint32) {
	if e.again("crowdedEdges") {
		return
	}
	e.Group("refused transitions behind many columns and statements")
	for d := 0; d < NDialect; d++ {
		g := getGraph(d, 0, 1)
		it := intType[d]
		var pres, inner []string
		pres = append(pres, strings.Repeat("CREATE TABLE p ( x "+it+" ) ;\n", 12), stmts(d)[6]+"\n"+stmts(d)[3]+"\n", strings.Repeat(stmts(d)[5]+" ", 30))
		for _, n := range []int{1, 3, 8, 16, 33} {
			inner = append(inner, repeatJoin(n, " ,\n", func(i int) string {
				if i%3 == 1 {
					return "UNIQUE ( c" + strconv.Itoa(i) + " )"
				}
				return "c" + strconv.Itoa(i) + " " + it + " NOT NULL"
			})+" , ")
		}
		for i := range g.nodes {
			p := sp(g.path(i))
			comp, ok := g.completion(i)
			c := sp(comp)
			// the text ends, or another statement begins, far behind
			e.Diff(d, nl800+p, mask)
			e.Diff(d, p+nl800, mask)
			e.Diff(d, nl800+p+" "+stmts(d)[0], mask)
			e.Diff(d, pres[i%len(pres)]+p, mask)
			e.Diff(d, pres[i%len(pres)]+p+"\n"+stmts(d)[1], mask)
			for _, ed := range g.nodes[i].edges {
				if ed.to >= 0 {
					continue
				}
				t := g.vocab[ed.tok].S
				h := fnv(p + t)
				// every such transition behind one prefix, chosen in turn
				s := pres[int(h>>8)%len(pres)] + p + " " + t
				e.Diff(d, s+" ;", mask)
				if ok {
					e.Diff(d, s+" "+c, mask)
				}
				if k := strings.Index(p, " ( "); k >= 0 {
					s := p[:k+3] + inner[int(h>>16)%len(inner)] + p[k+3:] + " " + t
					e.Diff(d, s+"\n;", mask)
					if ok {
						e.Diff(d, s+" "+c, mask)
					}
				}
				// far behind: line breaks are tokens, too
				if ok {
					e.Diff(d, nl800+p+" "+t+" "+c, mask)
				} else {
					e.Diff(d, nl800+p+" "+t+" ;", mask)
				}
			}
			if e.Stopped() {
				return
			}
		}
	}
}

// mixedReadings: texts that more than one dialect accepts, and reads differently.
func mixedReadings(f func(s string)) {
	frames := []string{
		"CREATE TABLE t ( x TEXT CHECK ( % ) , y REAL ) ;",
		"CREATE TABLE t ( x TEXT DEFAULT ( % ) NOT NULL ) ;",
		"CREATE TABLE t ( y INTEGER , CHECK ( % ) , x REAL ) ;",
		"CREATE TABLE t ( x TEXT ) ; CREATE VIEW v AS % ; CREATE TABLE u ( y INTEGER ) ;",
		"CREATE TABLE t ( x TEXT ) ; CREATE TRIGGER g1 AFTER INSERT ON t BEGIN SELECT % ; END ; CREATE TABLE u ( y INTEGER ) ;",
		"CREATE VIEW v AS % ; CREATE TABLE u ( y INTEGER UNIQUE ) ;",
		"CREATE TABLE t ( x INTEGER PRIMARY KEY , CHECK ( % ) )",
	}
	bits := []string{"``", "\"\"", "''", "#", "# c", "#c\n", "# ) ;\n", "x # 1\n > 2", "x#1\n", "`q`", "\"q\"", "\"q q\"", "'#'", "\"#\"", "`#`", "-- #\n", "/* # */", "x -- c\n", "'`'", "\"`\"", "'\"'", "`'`", "`\"`", "//", "END IF", "CASE", "BEGIN", "x", "1"}
	for _, fr := range frames {
		frames = append(frames, strings.ReplaceAll(strings.ReplaceAll(fr, "TEXT", "INT"), "INTEGER", "VARCHAR ( 5 )"))
	}
	for _, fr := range frames {
		for _, a := range bits {
			f(strings.Replace(fr, "%", a, 1))
			f(strings.Replace(fr, "%", "x "+a+"\n", 1))
			for _, b := range bits {
				f(strings.Replace(fr, "%", a+" "+b+"\n", 1))
				f(strings.Replace(fr, "%", a+b, 1))
				f(strings.Replace(fr, "%", "x "+a+"\n = "+b, 1))
			}
		}
	}
	for d := 0; d < NDialect; d++ {
		for _, doc := range docs(d) {
			ts := lexToks(doc, d)
			for i := 0; i <= len(ts); i++ {
				for _, c := range []string{"# c\n", "#\n", "-- c\n", "//\n", "/* c */", "#"} {
					f(sp(ts[:i]) + " " + c + sp(ts[i:]))
					f(sp(ts[:i]) + c + sp(ts[i:]))
				}
			}
		}
	}
	// the same statement with and without what only one dialect has
	for _, ty := range []string{"TEXT", "INTEGER", "REAL", "NUMERIC", "NONE", "INT", "TEXT ( 5 )", "VARCHAR ( 5 )", "DOUBLE PRECISION", "DOUBLE", "BLOB"} {
		for _, c := range []string{"", "NULL", "NOT NULL", "AUTOINCREMENT", "AUTO_INCREMENT", "PRIMARY KEY AUTOINCREMENT", "PRIMARY KEY AUTO_INCREMENT", "KEY", "UNIQUE KEY", "COMMENT 'x'", "COLLATE NOCASE", "COLLATE utf8", "GENERATED ALWAYS AS ( 1 ) STORED", "AS ( 1 )", "CONSTRAINT CHECK ( x )", "CONSTRAINT n1 UNIQUE", "CHECK ( x ) NO INHERIT", "CHECK ( x ) NOT ENFORCED", "UNIQUE WITH ( x )", "DEFAULT \"q\"", "DEFAULT `q`", "DEFAULT 'q'", "REFERENCES r ( w ) DEFERRABLE", "REFERENCES r"} {
			for _, o := range []string{";", "", "WITHOUT ROWID ;", "STRICT ;", "WITHOUT OIDS ;", "ENGINE = x ;", "TABLESPACE ts ;", "COMMENT 'x'"} {
				for _, q := range []string{"t", "`t`", "\"t\"", "'t'", "s . t"} {
					f("CREATE TABLE " + q + " ( x " + ty + " " + c + " ) " + o)
				}
			}
		}
	}
}
