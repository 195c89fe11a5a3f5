package main

import (
	"fmt"
	"strings"
)

// ------------------------------------------------------------------------------------------- C01

func judgeReturns(w *Worker, c *Case) string {
	w.Ref(c.A, c.D)
	w.traces++
	if r := w.Parse(c.A, c.D); r.Panic != "" {
		return "panic: " + r.Panic
	}
	return ""
}

func judgeForce(w *Worker, c *Case) string {
	w.parses++
	if r := parseForce(c.A); r.Panic != "" {
		return "panic: " + r.Panic
	}
	return ""
}

var garbage = []string{
	"", " ", "\n", ";", "(", ")", "'", "\"", "`", "\x00", "\xff", "\xff\xfe(", "\xc3\x28", "é", "日本語", "\u3000", "\ufeff", "😀",
	"--", "-", "/*", "*/", "/*/", "/**", "#", "\\", "'\\", "\r", "\r\n", "\v", "\f", "\u00a0", "\u2028", "$$", "%s%d", "%!(EXTRA)",
	"CREATE", "CREATE TABLE", "create table", "NULL", "0", "-", "+", ".", "..", ",,", "=", "==",
}

// prefixes that lead into the different parts of the scanner, the validator and the converter.
func contexts(d int) []string {
	it := intType[d]
	c := []string{
		"", "CREATE ", "CREATE TABLE ", "CREATE TABLE t", "CREATE TABLE t (", "CREATE TABLE t (aa", "CREATE TABLE t (aa " + it,
		"CREATE TABLE t (aa " + it + " ", "CREATE TABLE t (aa " + it + " CHECK ", "CREATE TABLE t (aa " + it + " CHECK (", "CREATE TABLE t (aa " + it + " DEFAULT ",
		"CREATE TABLE t (aa " + it + " DEFAULT (", "CREATE TABLE t (aa " + it + " REFERENCES r", "CREATE TABLE t (aa " + it + " REFERENCES r(", "CREATE TABLE t (aa " + it + ",",
		"CREATE TABLE t (aa " + it + ", CONSTRAINT ", "CREATE TABLE t (aa " + it + ", PRIMARY KEY (", "CREATE TABLE t (aa " + it + ", PRIMARY KEY (aa", "CREATE TABLE t (aa " + it + ", CHECK (",
		"CREATE TABLE t (aa " + it + ", FOREIGN KEY (aa) REFERENCES ", "CREATE TABLE t (aa " + it + ")", "CREATE TABLE t (aa " + it + ") ", "CREATE TABLE t (aa " + it + ");",
		"CREATE VIEW v AS ", "CREATE TRIGGER gg BEGIN ",
	}
	switch d {
	case SQLite:
		c = append(c, "CREATE TEMP ", "CREATE TABLE t (aa "+it+" AS ")
	case Postgres:
		c = append(c, "CREATE TABLE t (aa VARCHAR", "CREATE TABLE t (aa VARCHAR(", "CREATE TABLE t (aa NUMERIC(1,", "CREATE TABLE t (aa "+it+", EXCLUDE ", "CREATE TABLE t (aa "+it+" GENERATED ", "CREATE TABLE t (aa "+it+") WITH (")
	case MySQL:
		c = append(c, "CREATE TABLE t (aa VARCHAR", "CREATE TABLE t (aa VARCHAR(", "CREATE TABLE t (aa DECIMAL(1,", "CREATE TABLE t (aa "+it+", INDEX ", "CREATE TABLE t (aa "+it+", INDEX (", "CREATE TABLE t (aa "+it+", UNIQUE KEY (aa", "CREATE TABLE t (aa "+it+") ENGINE ", "CREATE TABLE t (aa "+it+") UNION (")
	}
	return c
}

var sharpChars = []string{"a", "1", " ", "\n", "(", ")", ",", ".", ";", "'", "\"", "`", "-", "/", "*", "#", "="}

func exploreC01(e *Explorer) {
	put := func(d int, s string) { e.Emit(Case{K: "returns", D: d, A: s}) }
	defer sourced(e, put)
	denseEdits(e, []string{",", ")", "x", "1", "'s'"}, func(d int, ts []string) { put(d, sp(ts)) })
	e.Group("garbage atoms, alone, in pairs and after every context")
	for d := 0; d < NDialect; d++ {
		for _, g := range garbage {
			put(d, g)
			for _, h := range garbage {
				put(d, g+h)
			}
			for _, c := range contexts(d) {
				put(d, c+g)
				put(d, c+g+" aa INTEGER);")
			}
		}
	}
	for _, g := range garbage {
		e.Emit(Case{K: "force", A: g})
		for _, c := range contexts(0) {
			e.Emit(Case{K: "force", A: c + g})
		}
	}
	e.Group("quoted texts and comments of every content")
	for d := 0; d < NDialect; d++ {
		for _, p := range quotePlaces(d) {
			for _, q := range quotesFor(d, 'e') {
				qs := string(q)
				for _, s := range quotedWords {
					put(d, p.a+qs+s+qs+p.b)
					put(d, p.a+qs+s)
				}
				allStrings(sharpChars, 2, func(s string) { put(d, p.a+qs+s+qs+p.b) })
				for r := rune(0); r < 0x180; r++ {
					put(d, p.a+qs+string(r)+qs+p.b)
					put(d, p.a+qs+string(r)+string(r)+string(r)+qs+p.b)
				}
			}
		}
		comments(e, d, func(c string) {
			put(d, "CREATE TABLE t ( x "+intType[d]+c+") ;")
			put(d, c[:len(c)-1])
		})
	}
	e.Group("every byte truncation, deletion, duplication and insertion of a document")
	for d := 0; d < NDialect; d++ {
		for _, doc := range docs(d) {
			for i := 0; i <= len(doc); i++ {
				put(d, doc[:i])
				put(d, doc[i:])
				if i < len(doc) {
					put(d, doc[:i]+doc[i+1:])
					put(d, doc[:i]+doc[i:i+1]+doc[i:])
				}
				for _, c := range []string{"(", ")", ",", ";", ".", "'", "\"", "`", "/*", "*/", "--", "#", "\n", "\xff", "\x00", "BEGIN ", " END ", " CREATE "} {
					put(d, doc[:i]+c+doc[i:])
				}
			}
		}
	}
	e.Group("token truncations of derivations, with and without a completed tail")
	for d := 0; d < NDialect; d++ {
		tableDocs(d, e.Pick(2, 3), func(ts []string) bool {
			f := fill(ts, d)
			for i := 1; i < len(f); i++ {
				s := sp(f[:i])
				if e.Dedup(d, s) {
					put(d, s)
					put(d, s+" ) ;")
					put(d, s+" (")
					put(d, s+" ;")
				}
			}
			return !e.Stopped()
		})
	}
	e.Group("every refused or open token string of the state graph, cut right there")
	for d := 0; d < NDialect; d++ {
		g := getGraph(d, e.Pick(0, 1), 2)
		for i := range g.nodes {
			p := sp(g.path(i))
			for _, ed := range g.nodes[i].edges {
				put(d, p+" "+g.vocab[ed.tok].S)
			}
			if e.Stopped() {
				return
			}
		}
	}
	e.Group("all character strings over a sharp alphabet, in every context")
	for d := 0; d < NDialect; d++ {
		for _, c := range contexts(d) {
			allStrings(sharpChars, e.Pick(3, 4), func(s string) {
				if s != "" {
					put(d, c+s)
				}
			})
		}
		allStrings(sharpChars, e.Pick(4, 5), func(s string) { put(d, s) })
	}
	e.Group("unbalanced and deeply nested brackets, long runs")
	for d := 0; d < NDialect; d++ {
		for _, c := range contexts(d) {
			for _, n := range []int{2, 3, 4, 5, 8, 16, 64, 500, 3000} {
				for _, a := range []string{"(", ")", "()", "((", "a ", "a(", "(a", ",", "a,", ";", ".", "'", "\"", "\n", "--\n", "/* */", "BEGIN ", "END ", "BEGIN ; ", "CASE ", "CONSTRAINT ", "NOT ", "ON DELETE ", "1", "=", "-- x", "aa INTEGER,", "CREATE TABLE t (aa INTEGER);"} {
					put(d, c+strings.Repeat(a, n))
				}
			}
			for i := 0; i <= 4; i++ {
				for j := 0; j <= 4; j++ {
					put(d, c+strings.Repeat("(", i)+"a"+strings.Repeat(")", j))
					put(d, c+strings.Repeat("(", i)+"a"+strings.Repeat(")", j)+";")
					put(d, c+strings.Repeat("(", i)+"a, b"+strings.Repeat(")", j)+", cc INTEGER);")
				}
			}
		}
	}
}

// ------------------------------------------------------------------------------------------- C02

func judgeContract(w *Worker, c *Case) string {
	w.Ref(c.A, c.D)
	w.traces++
	r := w.Parse(c.A, c.D)
	if r.Panic != "" {
		return "" // C01
	}
	if s := contract(r); s != "" {
		return s
	}
	if c.F&1 != 0 && r.Err == nil { // known to be malformed somewhere
		ref := w.rp.Parse(c.A, c.D, false)
		if ref.V == Reject {
			return fmt.Sprintf("accepted with %d tables although one statement is malformed near %q", len(r.Tables), clip(ref.Errs[0].Near, 40))
		}
	}
	return ""
}

func judgeForceContract(w *Worker, c *Case) string {
	w.parses++
	r := parseForce(c.A)
	if r.Panic != "" {
		return ""
	}
	return contract(r)
}

func exploreC02(e *Explorer) {
	put := func(d int, s string) { e.Emit(Case{K: "contract", D: d, A: s}) }
	defer sourced(e, put)
	bad := func(d int, s string) { e.Emit(Case{K: "contract", D: d, A: s, F: 1}) }
	e.Group("garbage and truncations")
	for d := 0; d < NDialect; d++ {
		for _, g := range garbage {
			put(d, g)
			e.Emit(Case{K: "force", A: g})
			for _, c := range contexts(d) {
				put(d, c+g)
			}
		}
		for _, doc := range docs(d) {
			for i := 0; i <= len(doc); i++ {
				put(d, doc[:i])
			}
			e.Emit(Case{K: "force", A: doc})
			for i := 0; i < len(doc); i += 3 {
				e.Emit(Case{K: "force", A: doc[:i]})
			}
		}
	}
	e.Group("one malformed statement at every place among valid ones")
	for d := 0; d < NDialect; d++ {
		ss := stmts(d)
		it := intType[d]
		broken := []string{
			"CREATE TABLE b ( ) ;", "CREATE TABLE b ( aa ) ;", "CREATE TABLE ( aa " + it + " ) ;", "CREATE TABLE b ( aa " + it + " , ) ;", "CREATE TABLE b aa " + it + " ;",
			"CREATE TABLE b ( aa " + it + " NOT ) ;", "CREATE TABLE b ( aa " + it + " ) x ;", "CREATE NOTHING b ;", "TABLE b ( aa " + it + " ) ;", "DROP TABLE b ;", ";",
			"CREATE TABLE b ( aa " + it + " UNIQUE UNIQUE ) ;", "CREATE TABLE b ( aa " + it + " DEFAULT x ) ;", "CREATE TABLE b ( CHECK ( aa ) ;", "CREATE TABLE b ( aa " + it + " ) ) ;",
			"CREATE TABLE b ( PRIMARY KEY ( ) ) ;", "CREATE TABLE b ( aa " + it + " 'x' ) ;", "CREATE TABLE b ( aa " + it + " 'x ) ;", "CREATE TABLE b ( aa " + it + " /* ) ;", "*/", "\u3000",
			"CREATE TABLE b ( aa " + it, "CREATE TABLE b", "CREATE", "CREATE VIEW v", "CREATE TRIGGER gg BEGIN SELECT 1 ;", "x",
		}
		for _, b := range broken {
			bad(d, b)
			for i := range ss {
				bad(d, b+" "+ss[i])
				bad(d, ss[i]+" "+b)
				for j := range ss {
					bad(d, ss[i]+" "+ss[j]+" "+b)
					bad(d, ss[i]+" "+b+" "+ss[j])
					bad(d, b+" "+ss[i]+" "+ss[j])
				}
			}
			long := strings.Repeat(ss[0]+"\n"+ss[5]+"\n", 20)
			bad(d, long+b)
			bad(d, long+b+long)
		}
	}
	e.Group("a text that cannot be split into tokens at every gap, to the end or followed by the rest")
	for d := 0; d < NDialect; d++ {
		ls := append(append([]string{}, docs(d)...), strings.Join(stmts(d), " "))
		for _, doc := range ls {
			ts := lexToks(doc, d)
			for i := 0; i <= len(ts); i++ {
				for _, x := range []string{"'", "\"", "`", "/*", "*/", "\u3000", "'x y", "'x\ny", "\"x", "`x", "`x`", "/* x", "/* x *", "/*\n\n", "/*/", "-- x\n'", "x*/", "**/", "' /*", "/* '"} {
					for _, g := range []string{" ", "", "\n"} {
						bad(d, sp(ts[:i])+g+x)
						bad(d, sp(ts[:i])+g+x+g+sp(ts[i:]))
					}
				}
			}
		}
	}
	e.Group("every single-token edit of documents")
	for d := 0; d < NDialect; d++ {
		for _, doc := range docs(d) {
			tokenEdits(lexToks(doc, d), editVocab(d), func(ts []string, _ int) { bad(d, sp(ts)) })
		}
	}
	e.Group("every edge of the state graph")
	for d := 0; d < NDialect; d++ {
		g := getGraph(d, e.Pick(0, 1), 2)
		for i := range g.nodes {
			p := sp(g.path(i))
			for _, ed := range g.nodes[i].edges {
				bad(d, p+" "+g.vocab[ed.tok].S)
				if ed.to < 0 {
					if c, ok := g.completion(i); ok {
						bad(d, p+" "+g.vocab[ed.tok].S+" "+sp(c))
					}
				}
			}
		}
	}
}

// editVocab: tokens used for insertion and replacement.
func editVocab(d int) []string {
	v := []string{"x", "(", ")", ",", ".", ";", "7", "0", "'s'", "NOT", "NULL", "KEY", "CREATE", "TABLE", "CONSTRAINT", "PRIMARY", "UNIQUE", "CHECK", "DEFAULT", "REFERENCES", "ON", "SELECT", intType[d], "9x"}
	if d == MySQL {
		v = append(v, "=", "COMMENT", "INDEX")
	}
	return v
}

// tokenEdits: every deletion, duplication, swap of neighbours, insertion and replacement of one token.
func tokenEdits(ts []string, vocab []string, f func(ts []string, at int)) {
	mk := func(parts ...[]string) []string { return cat(parts...) }
	for i := range ts {
		f(mk(ts[:i], ts[i+1:]), i)
		f(mk(ts[:i+1], ts[i:]), i)
		if i+1 < len(ts) {
			f(mk(ts[:i], []string{ts[i+1], ts[i]}, ts[i+2:]), i)
		}
		for _, v := range vocab {
			f(mk(ts[:i], []string{v}, ts[i:]), i)
			if v != ts[i] {
				f(mk(ts[:i], []string{v}, ts[i+1:]), i)
			}
		}
	}
	for _, v := range vocab {
		f(mk(ts, []string{v}), len(ts))
	}
}

// ------------------------------------------------------------------------------------------- C03

// layouts that place line breaks in different ways.
var lineLayouts = []func(ts []string) string{
	func(ts []string) string { return strings.Join(ts, "\n") },
	func(ts []string) string { return "\n\n" + strings.Join(ts, " ") },
	func(ts []string) string { return "\r\n" + strings.Join(ts, "\r\n") + "\r\n" },
	func(ts []string) string { return strings.Join(ts, " /* cc\n*/ ") },
	func(ts []string) string { return "-- h\n" + strings.Join(ts, " -- x\n\n") },
	func(ts []string) string {
		return weave(ts, func(i int) string {
			switch i % 5 {
			case 0:
				return "\n"
			case 1:
				return " "
			case 2:
				return "\t/**/\n"
			case 3:
				return "\n\n"
			}
			return " /*\n\n*/ "
		})
	},
	func(ts []string) string { return glue(ts) },
}

func exploreC03(e *Explorer) {
	put := func(d int, s string) { e.Diff(d, s, fErr) }
	defer sourced(e, put)
	for _, dm := range sizeDims() {
		if dm.mask == sizeErrs {
			for _, n := range srcSizes(100000) {
				for d := 0; d < NDialect; d++ {
					put(d, dm.mk(d, n))
				}
			}
		}
	}
	e.Group("every refused transition of the state graph, one token per line")
	for d := 0; d < NDialect; d++ {
		g := getGraph(d, e.Pick(1, 2), 2)
		for i := range g.nodes {
			p := strings.Join(g.path(i), "\n")
			if p != "" {
				p += "\n"
			}
			put(d, strings.TrimSpace(p)) // ends too early
			put(d, p+"\n")
			for _, ed := range g.nodes[i].edges {
				if ed.to < 0 {
					put(d, p+g.vocab[ed.tok].S)
					put(d, p+g.vocab[ed.tok].S+"\nx\n")
				}
			}
			if e.Stopped() {
				return
			}
		}
	}
	crowdedEdges(e, fErr)
	farEdits(e, fErr)
	denseEdits(e, []string{",", "x", "1"}, func(d int, ts []string) { put(d, strings.Join(ts, "\n")) })
	e.Group("every single-token edit of documents, in several layouts")
	for d := 0; d < NDialect; d++ {
		for k, doc := range docs(d) {
			vocab := editVocab(d)
			if k == 1 && !e.Thorough() {
				vocab = vocab[:12]
			} else if k > 1 && !e.Thorough() {
				vocab = []string{"x", ",", "'s'", "(", ")"}
			}
			tokenEdits(lexToks(doc, d), vocab, func(ts []string, at int) {
				for _, l := range lineLayouts {
					put(d, l(ts))
				}
			})
		}
	}
	sized(e, func(d int, s string) { put(d, s) })
	e.Group("line breaks before and after a truncated or wrong text")
	for d := 0; d < NDialect; d++ {
		for _, doc := range docs(d) {
			ts := lexToks(doc, d)
			for i := 0; i <= len(ts); i++ {
				for a := 0; a <= 4; a++ {
					for b := 0; b <= 4; b++ {
						x, y := strings.Repeat("\n", a), strings.Repeat("\n", b)
						put(d, x+sp(ts[:i])+y)
						put(d, x+strings.Join(ts[:i], "\n")+y)
						put(d, x+sp(ts[:i])+y+"9x"+x)
						if a > 0 {
							put(d, strings.Repeat("-- x\n", a)+sp(ts[:i])+strings.Repeat(" -- x\n", b))
							put(d, strings.Repeat("\r\n", a)+sp(ts[:i])+strings.Repeat("\r\n", b)+";"+y)
						}
					}
				}
			}
		}
	}
	e.Group("a column constraint, and another one up to every point of it, with every token after that")
	for d := 0; d < NDialect; d++ {
		xs, ys := allForms(d, "colcon", 0), allForms(d, "colcon", 1)
		for _, x := range xs {
			for _, y := range ys {
				f := fill(cat(x, y), d)
				for i := len(fill(x, d)); i <= len(f); i++ {
					pre := "CREATE TABLE t ( x " + intType[d] + "\n" + sp(f[:i]) + "\n"
					if !e.Dedup(d, pre) {
						continue
					}
					put(d, pre)
					for _, w := range editVocab(d) {
						put(d, pre+w+"\n)")
					}
				}
			}
			if e.Stopped() {
				return
			}
		}
	}
	e.Group("quoted texts with line breaks before errors of both stages")
	for d := 0; d < NDialect; d++ {
		for _, q := range quotesFor(d, 'e') {
			allStrings([]string{"\n", "\r", "x", " ", "-", "*", "/"}, 4, func(s string) {
				t := string(q) + s + string(q)
				put(d, "CREATE TABLE t ( x "+intType[d]+" CHECK ( "+t+" ) */")
				put(d, "CREATE VIEW v AS "+t+" ; CREATE TABLE t ( x "+intType[d]+" CHECK ( "+t+" ) 9x")
				put(d, "CREATE VIEW v AS "+t+t[:len(t)-1])
			})
		}
	}
	e.Group("errors far down")
	for d := 0; d < NDialect; d++ {
		for _, n := range []int{100, 127, 128, 255, 256, 257, 999, 1000, 1023, 1024, 4096, 9999, 10000, 32767, 32768, 65535, 65536, 65537, 100000} {
			put(d, strings.Repeat("\n", n)+"x")
			put(d, "CREATE TABLE t (\n aa "+intType[d]+strings.Repeat("\n", n)+"x ) ;")
			put(d, "/*"+strings.Repeat("\n", n)+"*/ CREATE x")
			put(d, "CREATE TABLE t ( aa "+intType[d]+" DEFAULT '"+strings.Repeat("\n", n)+"' ,\n)")
			put(d, strings.Repeat("-- c\n", n)+"CREATE TABLE t ( aa "+intType[d]+" , , )")
		}
	}
	e.Group("errors behind comments and quoted texts of every content")
	for d := 0; d < NDialect; d++ {
		it := intType[d]
		comments(e, d, func(c string) {
			put(d, c+"CREATE TABLE t ( x )")
			put(d, "CREATE TABLE t (\nx "+c+"\n"+it+" y ) ;")
			put(d, "CREATE TABLE t (\nx "+it+" "+c)
		})
		for _, q := range quotesFor(d, 'e') {
			qs := string(q)
			inner := func(s string) {
				if !strings.ContainsRune(s, q) {
					put(d, "CREATE TABLE t ( x "+it+" CHECK ( "+qs+s+qs+" ) y ) ;")
					put(d, "CREATE TABLE t ( x "+it+"\n"+qs+s+qs+" ) ;")
				}
			}
			for r := rune(0); r < 0x180; r++ {
				inner(string(r) + "\n")
				inner("x" + string(r) + "\n" + string(r) + "\r\n")
				inner("\n" + string(r) + "x")
			}
			for _, w := range quotedWords {
				inner(w + "\n" + w)
			}
		}
	}
	e.Group("truncation of documents, in several layouts")
	for d := 0; d < NDialect; d++ {
		for _, doc := range docs(d) {
			ts := lexToks(doc, d)
			for i := range ts {
				for _, l := range lineLayouts {
					put(d, l(ts[:i]))
					put(d, l(ts[:i])+"\n\n-- end")
					put(d, l(ts[:i])+" /* \n */")
				}
			}
		}
	}
	e.Group("lexical errors at every gap")
	for d := 0; d < NDialect; d++ {
		for _, doc := range docs(d) {
			ts := lexToks(doc, d)
			for i := 0; i <= len(ts); i++ {
				for _, bad := range []string{"'", "\"", "`", "/*", "*/", "\u3000", "'a\nb", "/* aa\nb", "*/\n", "`a`", "/*/", "/* *", "' -- \n", "x\u3000y", "a*/"} {
					for li, l := range lineLayouts {
						if li > 2 && !e.Thorough() {
							break
						}
						put(d, l(cat(ts[:i], []string{bad}, ts[i:])))
						if li == 0 {
							// an earlier syntax error does not take precedence
							put(d, "x\n"+l(cat(ts[:i], []string{bad})))
						}
					}
				}
			}
		}
	}
	e.Group("line breaks inside quoted text and comments before the error")
	for d := 0; d < NDialect; d++ {
		q := identQuote[d][:1]
		it := intType[d]
		var pieces = []string{"", "\n", "\r\n", "\n\n", "--\n", "-- '\n", "/*\n*/", "/*\n*\n**/", "/**/", "/*'*/\n"}
		for _, a := range pieces {
			for _, b := range pieces {
				for _, in := range []string{"", "\n", "\n\n", "a\nb", "\r\n", "--\n", "/*\n", "\n'"[:1]} {
					put(d, a+"CREATE TABLE t ("+b+"a "+it+" DEFAULT '"+in+"' x);")
					put(d, a+"CREATE TABLE "+q+"t"+in+q+" ("+b+"a "+it+" x);")
					put(d, a+"CREATE TABLE t (aa "+it+" CHECK (aa = '"+in+"')"+b+" x);")
					put(d, a+"CREATE VIEW v AS '"+in+"';"+b+"x")
					put(d, a+"CREATE TABLE t (aa "+it+"); "+b+"CREATE TABLE t (aa '"+in+"');")
				}
				for _, c := range pieces {
					put(d, a+b+c+"x")
					put(d, a+"CREATE"+b+" "+c+"x")
					put(d, a+"CREATE TABLE t (aa "+it+")"+b+";"+c+"x")
					put(d, a+b+c)
					put(d, a+"CREATE TABLE t (aa "+it+b+c)
				}
			}
		}
	}
}

// ------------------------------------------------------------------------------------------- C04

// judgeLayout: B is the same token sequence as A, in plain layout.
func judgeLayout(w *Worker, c *Case) string {
	rb := w.Parse(c.B, c.D)
	if rb.Panic != "" {
		return ""
	}
	ra := w.Parse(c.A, c.D)
	w.traces++
	ref := w.Ref(c.A, c.D)
	if ref.V == Unspecified {
		return ""
	}
	if ra.Panic != "" {
		return "panic: " + ra.Panic
	}
	if rb.Err != nil {
		if ra.Err == nil {
			return "accepted in this layout, rejected in plain layout: " + clip(rb.Err.Error(), 200)
		}
		return ""
	}
	if ra.Err != nil {
		return "rejected in this layout, accepted in plain layout: " + clip(ra.Err.Error(), 200)
	}
	if !sameTables(ra.Tables, rb.Tables) {
		return fmt.Sprintf("tables differ with the layout: %s vs plain %s", clip(Res{Tables: ra.Tables}.String(), 600), clip(Res{Tables: rb.Tables}.String(), 600))
	}
	return ""
}

func gapAtoms(d int) []string {
	a := []string{" ", "\t", "\n", "\r\n", "-- cc\n", "/* cc */", "/**/", "--\n", "/* * \n ** */"}
	if d == MySQL {
		a = append(a, "# c\n", "#\n")
	}
	return a
}

// comments: comments of every kind with all contents of the bounded space.
func comments(e *Explorer, d int, f func(c string)) {
	sharp := []string{"'", "\"", "`", "(", ")", ",", ";", ".", "-", "/", "*", "#", "\n", "\r\n", " ", "\t", "a", "\\", "=", "!", "+", "@", "$", "%", "é", "END", "BEGIN", "0"}
	kinds := []string{"--", "/*"}
	if d == MySQL {
		kinds = append(kinds, "#")
	}
	for _, k := range kinds {
		end := "\n"
		if k == "/*" {
			end = "*/"
		}
		put := func(s string) {
			if k == "/*" && (strings.Contains(s+"*/", "*/") && strings.Index(s+"*/", "*/") != len(s) || strings.HasPrefix(s, "/") || strings.Contains(s, "/*")) {
				return
			}
			if k != "/*" && strings.Contains(s, "\n") {
				return
			}
			f(k + s + end)
		}
		allStrings(sharp, e.Pick(2, 3), put)
		for r := rune(0); r < 0x180; r++ {
			put(string(r))
			put(" x" + string(r))
			put(" x" + string(r) + "y")
			put(string(r) + " ' (")
			put(string(r) + "\n")
			put("x" + string(r) + "\r\n")
			put("\n" + string(r) + "x")
		}
		runePacks(64, "\n*/\r\v\f\u0085\u2028\u2029", put)
		for _, m := range []string{"'", "\"", "`", "(", ")", "\n", "--", "#", ";", "\\", "* /", "**"} {
			for n := 0; n < 40; n++ {
				put(strings.Repeat("x", n) + m + "y")
				put(strings.Repeat(m, n))
				put(strings.Repeat(m+" ", n))
			}
		}
		for _, w := range quotedWords {
			put(w)
			put(" " + w + " ")
		}
	}
}

func exploreC04(e *Explorer) {
	put := func(d int, plain, s string) { e.Emit(Case{K: "layout", D: d, A: s, B: plain}) }
	e.Group("comments and texts that the code names")
	for d := 0; d < NDialect; d++ {
		it := intType[d]
		plain := "CREATE TABLE t ( x " + it + " ) ; CREATE TABLE u ( y " + it + " CHECK ( y ) , z " + it + " ) ;"
		for _, s := range srcContents() {
			cs := []string{"-- " + s + "\n", "--" + s + "\n"}
			if strings.Contains(s, "\n") {
				cs = nil
			} else if d == MySQL {
				cs = append(cs, "#"+s+"\n", "# "+s+"\n")
			}
			if !strings.Contains(s, "*") && !strings.Contains(s, "/") {
				cs = append(cs, "/*"+s+"*/", "/* "+s+" */")
			}
			for _, c := range cs {
				put(d, plain, c+"CREATE TABLE t ( x "+it+c+" ) ; CREATE TABLE u ( y "+it+" CHECK ( y ) ,"+c+"z "+it+" ) ;"+c)
				put(d, plain, "CREATE TABLE t ( x"+c+it+") ;"+c+"CREATE TABLE u ( y "+it+" CHECK ( y"+c+") , z "+it+" ) ;"+c+c)
			}
		}
	}
	defer sourced(e, func(d int, s string) {
		if l := lexModel(s, d); !l.Err && len(l.Toks) < 2000 {
			ts := lexToks(s, d)
			put(d, sp(ts), strings.Join(ts, "\n"))
			put(d, sp(ts), strings.Join(ts, " /* c */ "))
		}
	})
	e.Group("separator sequences at every gap of documents")
	for d := 0; d < NDialect; d++ {
		atoms := gapAtoms(d)
		for k, doc := range docs(d) {
			ts := lexToks(doc, d)
			n := 2
			if e.Thorough() && k < 2 {
				n = 3
			}
			for g := 0; g <= len(ts); g++ {
				pre, post := sp(ts[:g]), sp(ts[g:])
				need := g > 0 && g < len(ts) && needBlank(ts[g-1], ts[g])
				if !need {
					put(d, doc, pre+post)
				}
				allStrings(atoms, n, func(s string) {
					if s != "" {
						put(d, doc, pre+s+post)
					}
				})
			}
		}
	}
	e.Group("one separator sequence at all gaps, and at alternate gaps")
	for d := 0; d < NDialect; d++ {
		for _, doc := range docs(d) {
			ts := lexToks(doc, d)
			put(d, doc, glue(ts))
			put(d, doc, glueD(ts, d))
			allStrings(gapAtoms(d), e.Pick(3, 4), func(s string) {
				if s == "" {
					return
				}
				put(d, doc, weave(ts, func(int) string { return s }))
			})
			allStrings(gapAtoms(d), 2, func(s string) {
				for par := 0; par < 3; par++ {
					put(d, doc, weave(ts, func(i int) string {
						if i%3 == par && s != "" {
							return s
						}
						if i > 0 && i < len(ts) && needBlank(ts[i-1], ts[i]) {
							return " "
						}
						return ""
					}))
				}
			})
		}
	}
	e.Group("options with glued values, and one separator sequence at all other gaps")
	for _, doc := range docs(MySQL) {
		d := MySQL
		ts := lexToks(doc, d)
		depth := 0
		glued := make([]bool, len(ts)+1)
		for i, t := range ts {
			switch t {
			case "(":
				depth++
			case ")":
				depth--
			case "=":
				if depth < 2 {
					glued[i], glued[i+1] = true, true
				}
			}
		}
		allStrings(gapAtoms(d), 2, func(s string) {
			for m := 0; m < 8; m++ {
				put(d, doc, weave(ts, func(i int) string {
					if glued[i] {
						return ""
					}
					need := i > 0 && i < len(ts) && needBlank(ts[i-1], ts[i])
					at := i > 0 && (ts[i-1] == ")" && m&1 != 0 || ts[i-1] == "(" && m&2 != 0 || ts[i-1] == "," && m&4 != 0)
					if s != "" && (at || m == 0) {
						return s
					}
					if need {
						return " "
					}
					return ""
				}))
			}
		})
	}
	e.Group("one separator sequence at all gaps beside symbols")
	for d := 0; d < NDialect; d++ {
		for _, doc := range docs(d) {
			ts := lexToks(doc, d)
			for _, sym := range []string{"(", ")", ",", ".", ";"} {
				allStrings(gapAtoms(d), 2, func(s string) {
					if s == "" {
						return
					}
					for m := 1; m < 4; m++ {
						put(d, doc, weave(ts, func(i int) string {
							if i > 0 && ts[i-1] == sym && m&1 != 0 || i < len(ts) && ts[i] == sym && m&2 != 0 {
								return s
							}
							if i > 0 && i < len(ts) && needBlank(ts[i-1], ts[i]) {
								return " "
							}
							return ""
						}))
					}
				})
			}
		}
	}
	e.Group("comments and line breaks glued to operators and words of expressions")
	for d := 0; d < NDialect; d++ {
		it := intType[d]
		ops := []string{"=", "<", ">", "<=", "<>", "!=", "+", "%", "|", "||", "&", "^", "~", ":", "::", "?", "x", "1", "'q'", "\"q\"", "1.5", "-1", "f", "AND", "(", ")", ",", "."}
		gaps := []string{"-- c\n", "--\n", "/* c */", "/**/", "\n", "\r\n", "\t", "-- c\r\n", "/* c\n */", "--c\n--d\n", "/*x*/--y\n", " "}
		if d == MySQL {
			gaps = append(gaps, "#\n", "# c\n", "#c\n/**/")
		}
		for _, fr := range []string{"CREATE TABLE t ( x " + it + " CHECK ( % ) , y " + it + " ) ;", "CREATE TABLE t ( x " + it + " DEFAULT ( % ) NOT NULL ) ;", "CREATE VIEW v AS SELECT % ; CREATE TABLE t ( x " + it + " ) ;", "CREATE TABLE t ( x " + it + " , CHECK ( % ) )" + " ;"} {
			for _, a := range ops {
				for _, b := range ops {
					ts := []string{"x", a, b, "y"}
					if a == "(" && b != ")" {
						ts = append(ts, ")")
					}
					if b == "(" && a != "(" {
						ts = append(ts, ")")
					} else if b == "(" {
						ts = append(ts, ")")
					}
					if a == ")" {
						ts = append([]string{"("}, ts...)
					}
					if b == ")" && a != "(" {
						ts = append([]string{"("}, ts...)
					}
					plain := strings.Replace(fr, "%", sp(ts), 1)
					for _, g := range gaps {
						put(d, plain, strings.Replace(fr, "%", strings.Join(ts, g), 1))
					}
				}
			}
		}
	}
	e.Group("comments of every kind and content")
	for d := 0; d < NDialect; d++ {
		it := intType[d]
		plain := "CREATE TABLE t ( x " + it + " ) ; CREATE TABLE u ( y " + it + " CHECK ( y ) , z " + it + " ) ;"
		comments(e, d, func(c string) {
			put(d, plain, c+"CREATE TABLE t ( x "+it+" ) ; CREATE TABLE u ( y "+it+" CHECK ( y ) , z "+it+" ) ;")
			put(d, plain, "CREATE TABLE t ( x "+it+c+" ) ; CREATE TABLE u ( y "+it+" CHECK ( y ) ,"+c+"z "+it+" ) ;")
			put(d, plain, "CREATE TABLE t ( x"+c+it+") ;"+c+"CREATE TABLE u ( y "+it+" CHECK ( y"+c+") , z "+it+" ) ;"+c)
			put(d, plain, "CREATE"+c+c+"TABLE t ( x "+it+" )"+c+"; CREATE TABLE u ( y "+it+" CHECK ("+c+"y ) "+c+" , z "+it+" ) ;\n"+strings.TrimSuffix(c, "\n"))
		})
	}
	e.Group("layouts of derivations")
	for d := 0; d < NDialect; d++ {
		tableDocs(d, e.Pick(2, 3), func(ts []string) bool {
			f := fill(ts, d)
			plain := sp(f)
			put(d, plain, glueD(f, d))
			put(d, plain, strings.Join(f, "\n"))
			put(d, plain, strings.Join(f, "\r\n")+"\r\n")
			put(d, plain, strings.Join(f, "/*;*/"))
			put(d, plain, strings.Join(f, "--'\n"))
			put(d, plain, "/*\n*/"+strings.Join(f, "\t--(\n/* ) */ ")+"--")
			put(d, plain, "-- aa\n-- b\n"+strings.Join(f, "/**//**/")+"/* x */ -- y")
			if d == MySQL {
				put(d, plain, "#"+"\n"+strings.Join(f, "#,\n")+"# z")
			}
			return !e.Stopped()
		})
	}
	e.Group("layouts of ungrammatical documents")
	for d := 0; d < NDialect; d++ {
		for _, doc := range docs(d)[:2] {
			tokenEdits(lexToks(doc, d), []string{"x", ",", "("}, func(ts []string, _ int) {
				plain := sp(ts)
				put(d, plain, glueD(ts, d))
				put(d, plain, strings.Join(ts, "\n"))
				put(d, plain, strings.Join(ts, "/* ; */"))
			})
		}
	}
	e.Group("comment contents")
	for d := 0; d < NDialect; d++ {
		it := intType[d]
		alpha := []string{"*", "/", "'", "\"", "`", ";", "(", ")", "-", "\n", " ", "a", "#", ","}
		type frame struct{ a, b string }
		frames := []frame{{"CREATE TABLE t ( aa ", it + " NOT NULL ) ;"}, {"", "CREATE TABLE t ( aa " + it + " CHECK ( aa ) ) ;"}, {"CREATE TABLE t ( aa " + it + " CHECK ( b ", " cc ) , d " + it + " ) ;"},
			{"CREATE TABLE t ( aa " + it + " ) ;", ""}, {"CREATE TABLE t ( aa " + it + " ) ", "; CREATE TABLE u ( b " + it + " ) ;"}, {"CREATE VIEW v AS x ", " y ; CREATE TABLE u ( b " + it + " ) ;"}}
		for fi, f := range frames {
			n := 3
			if e.Thorough() && fi < 3 {
				n = 4
			}
			plain := f.a + " " + f.b
			allStrings(alpha, n, func(s string) {
				if !strings.Contains(s+"*", "*/") || strings.Contains(s, "*/") == false {
					put(d, plain, f.a+"/*"+s+"*/"+f.b)
				}
				if !strings.Contains(s, "\n") {
					put(d, plain, f.a+"--"+s+"\n"+f.b)
					if d == MySQL {
						put(d, plain, f.a+"#"+s+"\n"+f.b)
					}
				}
			})
			for _, s := range []string{"CREATE TABLE x (aa INT);", "BEGIN", "END", "it's", "say \"x\"", "`", "/", "*", "**", "***", "=====", "日本語", "😀", "aa -- b", "# a", "'; DROP"} {
				put(d, plain, f.a+"/*"+s+"*/"+f.b)
				put(d, plain, f.a+"--"+s+"\n"+f.b)
				put(d, plain, f.a+"--"+s+"\r\n"+f.b)
				put(d, plain, f.a+"/*\n"+s+"\n*/"+f.b)
				put(d, plain, f.a+"/* "+s+" *//* "+s+" */"+f.b)
				put(d, plain, f.a+"-- "+s+"\n-- "+s+"\n"+f.b)
				if d == MySQL {
					put(d, plain, f.a+"#"+s+"\n"+f.b)
				}
			}
		}
	}
}

// ------------------------------------------------------------------------------------------- C05

// quotePlaces: texts with a hole for a quoted token; id: the hole takes an identifier.
type place struct {
	a, b string
	kind byte // 'i' identifier, 's' string, 'e' anything quoted (inside an expression or a skipped statement)
}

func quotePlaces(d int) []place {
	it := intType[d]
	ps := []place{
		{"CREATE TABLE ", " ( aa " + it + " ) ;", 'i'},
		{"CREATE TABLE ", " . t ( aa " + it + " ) ;", 'i'},
		{"CREATE TABLE s . ", " ( aa " + it + " ) ;", 'i'},
		{"CREATE TABLE t ( ", " " + it + " NOT NULL , z " + it + " ) ;", 'i'},
		{"CREATE TABLE t ( aa " + it + " , ", " " + it + " ) ;", 'i'},
		{"CREATE TABLE t ( aa " + it + " CONSTRAINT ", " CHECK ( aa ) ) ;", 'i'},
		{"CREATE TABLE t ( aa " + it + " , CONSTRAINT ", " UNIQUE ( aa ) ) ;", 'i'},
		{"CREATE TABLE t ( aa " + it + " , PRIMARY KEY ( b , ", " , cc ) ) ;", 'i'},
		{"CREATE TABLE t ( aa " + it + " , FOREIGN KEY ( ", " ) REFERENCES r ( kk ) ) ;", 'i'},
		{"CREATE TABLE t ( aa " + it + " REFERENCES ", " ( kk ) , z " + it + " ) ;", 'i'},
		{"CREATE TABLE t ( aa " + it + " REFERENCES s . ", " ( kk ) ) ;", 'i'},
		{"CREATE TABLE t ( aa " + it + " , FOREIGN KEY ( f ) REFERENCES r ( kk , ", " ) ) ;", 'i'},
		{"CREATE TABLE t ( aa " + it + " DEFAULT ", " NOT NULL , z " + it + " ) ;", 's'},
		{"CREATE TABLE t ( aa " + it + " DEFAULT ", " ) ;", 's'},
		{"CREATE TABLE t ( aa " + it + " CHECK ( aa = ", " ) , z " + it + " ) ;", 'e'},
		{"CREATE TABLE t ( aa " + it + " CHECK ( ", " = aa ) ) ;", 'e'},
		{"CREATE TABLE t ( aa " + it + " DEFAULT ( f ( ", " , b ) ) , z " + it + " ) ;", 'e'},
		{"CREATE TABLE t ( aa " + it + " , CHECK ( ( x IN ( ", " ) ) ) , UNIQUE ( b ) ) ;", 'e'},
		{"CREATE VIEW v AS SELECT ", " FROM x ; CREATE TABLE t ( aa " + it + " ) ;", 'e'},
		{"CREATE TRIGGER gg BEGIN SELECT ", " ; END ; CREATE TABLE t ( aa " + it + " ) ;", 'e'},
	}
	switch d {
	case Postgres:
		ps = append(ps, place{"CREATE TABLE t ( aa " + it + " ) WITH ( x = ", " ) ; CREATE TABLE u ( b " + it + " ) ;", 'e'},
			place{"CREATE TABLE t ( aa " + it + " ) TABLESPACE ", " ; CREATE TABLE u ( b " + it + " ) ;", 'i'})
	case MySQL:
		ps = append(ps, place{"CREATE TABLE t ( aa " + it + " COMMENT ", " NOT NULL , z " + it + " ) ;", 's'},
			place{"CREATE TABLE t ( aa " + it + " ) COMMENT = ", " ENGINE = x ; CREATE TABLE u ( b " + it + " ) ;", 's'},
			place{"CREATE TABLE t ( aa " + it + " , INDEX ", " ( aa ) , z " + it + " ) ;", 'i'},
			place{"CREATE TABLE t ( aa " + it + " COLLATE ", " , z " + it + " ) ;", 'i'})
	}
	return ps
}

func quotesFor(d int, kind byte) string {
	switch kind {
	case 'i':
		return identQuote[d]
	case 's':
		return strQuote[d]
	}
	if d == Postgres {
		return "'\""
	}
	return "'\"`"
}

var quotedWords = []string{"", " ", "  ", "CREATE TABLE x (y INTEGER);", "NULL", "TRUE", "false", "1", "-2.5", "1e3", "NaN", "CURRENT_DATE", "PRIMARY KEY", "NOT NULL", "BEGIN", "END", "CASE", "END;", ");", "),(", "--", "-- x", "/*", "*/", "/* x */", "#", "# x",
	"\\", "\\n", "\\\\", "日本語", "é", "😀", "\u3000", "a\tb", "\t", "a\nb", "\n", "\r\n", "a\r\nb", "\n\n", "a  b", " a", "a ", "%s", "%d%n", "<EOF>", "a.b", "a,b", "a;b", "$1", "{}", "[x]", "CHECK", "check (", "constraint", "unique", "UPPER lower"}

// runePacks: strings that together hold every character of the basic plane but those left out.
func runePacks(n int, without string, f func(s string)) {
	var b strings.Builder
	k := 0
	for r := rune(0); r < 0x10000; r++ {
		if r >= 0xD800 && r < 0xE000 || r == 0xFFFD || strings.ContainsRune(without, r) {
			continue
		}
		b.WriteRune(r)
		if k++; k == n {
			f(b.String())
			b.Reset()
			k = 0
		}
	}
	if k > 0 {
		f(b.String())
	}
}

func exploreC05(e *Explorer) {
	put := func(d int, s string) { e.Diff(d, s, fFocus|fTables) }
	alpha := []string{"'", "\"", "`", "(", ")", ",", ";", ".", "-", "/", "*", "#", "\n", " ", "a", "\\", "=", "é"}
	e.Group("quoted keywords, markers and odd characters in every place, spaced and glued")
	for d := 0; d < NDialect; d++ {
		for _, p := range quotePlaces(d) {
			for _, q := range quotesFor(d, p.kind) {
				for _, s := range quotedWords {
					if strings.ContainsRune(s, q) {
						continue
					}
					t := string(q) + s + string(q)
					put(d, p.a+t+p.b)
					put(d, strings.TrimSpace(p.a)+t+strings.TrimSpace(p.b))
					put(d, p.a+"/*'*/"+t+"--'\n"+p.b)
				}
			}
		}
	}
	e.Group("all short contents over a sharp alphabet, in every place")
	for d := 0; d < NDialect; d++ {
		for _, p := range quotePlaces(d) {
			for _, q := range quotesFor(d, p.kind) {
				allStrings(alpha, e.Pick(2, 3), func(s string) {
					if !strings.ContainsRune(s, q) {
						put(d, p.a+string(q)+s+string(q)+p.b)
					}
				})
			}
		}
	}
	e.Group("longer contents in the reported places")
	for d := 0; d < NDialect; d++ {
		for i, p := range quotePlaces(d) {
			if i != 0 && i != 3 && i != 12 && i != 14 && i != 7 {
				continue
			}
			for _, q := range quotesFor(d, p.kind) {
				allStrings(alpha, e.Pick(3, 4), func(s string) {
					if len(s) > 2 && !strings.ContainsRune(s, q) {
						put(d, p.a+string(q)+s+string(q)+p.b)
					}
				})
			}
		}
	}
	e.Group("all characters of the basic plane, in packs")
	for d := 0; d < NDialect; d++ {
		for i, p := range quotePlaces(d) {
			if i != 0 && i != 3 && i != 12 && i != 14 && i != 7 && i != 17 && i != 18 && !e.Thorough() {
				continue
			}
			for _, q := range quotesFor(d, p.kind) {
				runePacks(64, string(q), func(s string) { put(d, p.a+string(q)+s+string(q)+p.b) })
				for r := rune(0); r < 0x180; r++ {
					if r != q {
						put(d, p.a+string(q)+string(r)+string(q)+p.b)
						put(d, p.a+string(q)+"x"+string(r)+"y"+string(q)+p.b)
					}
				}
			}
		}
	}
	e.Group("marks at every offset of long contents")
	for d := 0; d < NDialect; d++ {
		for i, p := range quotePlaces(d) {
			if i != 0 && i != 3 && i != 12 && i != 14 && i != 7 && i != 9 {
				continue
			}
			for _, q := range quotesFor(d, p.kind) {
				for _, mark := range []string{")", "(", ",", ";", "--", "/*", "*/", "'", "\"", "`", "\n", " ", "#", "é"} {
					if mark == string(q) {
						continue
					}
					for k := 0; k < 40; k++ {
						put(d, p.a+string(q)+strings.Repeat("x", k)+mark+"y"+string(q)+p.b)
						put(d, p.a+string(q)+"y"+mark+strings.Repeat("x", k)+string(q)+p.b)
					}
					for _, k := range []int{62, 63, 64, 65, 126, 127, 128, 129, 254, 255, 256, 257, 511, 512, 1023, 1024, 4095, 4096} {
						put(d, p.a+string(q)+strings.Repeat("x", k)+mark+"y"+string(q)+p.b)
					}
				}
			}
		}
	}
	rich(e, put)
	e.Group("two quoted tokens of all kinds, adjacent or apart")
	for d := 0; d < NDialect; d++ {
		in := []string{"", "'", "\"", "`", "a", "(", ";", "--", "/*", "*/", "\n"}
		it := intType[d]
		qs := quotesFor(d, 'e')
		for _, q1 := range qs {
			for _, q2 := range qs {
				for _, a := range in {
					for _, b := range in {
						if strings.ContainsRune(a, q1) || strings.ContainsRune(b, q2) {
							continue
						}
						x, y := string(q1)+a+string(q1), string(q2)+b+string(q2)
						for _, g := range []string{" ", "", ",", "\n", "||", "/**/"} {
							put(d, "CREATE TABLE t ( aa "+it+" CHECK ( "+x+g+y+" ) , z "+it+" ) ;")
						}
						put(d, "CREATE TABLE t ( aa "+it+" DEFAULT "+x+" , b "+it+" DEFAULT "+y+" ) ;")
						put(d, "CREATE TABLE "+x+" ( "+y+" "+it+" ) ;")
						put(d, "CREATE TABLE "+x+" . "+y+" ( "+y+" "+it+" , UNIQUE ( "+x+" ) ) ;")
					}
				}
			}
		}
	}
}

func init() {
	register(&Check{ID: "C01", Explore: exploreC01, Judges: map[string]func(*Worker, *Case) string{"returns": judgeReturns, "force": judgeForce},
		Rule: "each case is a distinct text; the call must return within the limits (no panic, stack below 400 MB, memory below 10 GB, 20 s)"})
	register(&Check{ID: "C02", Explore: exploreC02, Judges: map[string]func(*Worker, *Case) string{"contract": judgeContract, "force": judgeForceContract},
		Rule: "result and error of every call are matched against the two permitted combinations; texts the model rejects must fail as a whole"})
	register(&Check{ID: "C03", Explore: exploreC03, Rule: "for every rejected text, Near and Line are compared with the model's dead end"})
	register(&Check{ID: "C04", Explore: exploreC04, Judges: map[string]func(*Worker, *Case) string{"layout": judgeLayout}, Rule: "the result in one layout must equal the result in plain layout (one blank between tokens)"})
	register(&Check{ID: "C05", Explore: exploreC05, Rule: "the tables of texts with quoted tokens are compared with the model's, character for character"})
}
