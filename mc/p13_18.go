package main

import (
	"fmt"
	"reflect"
	"strconv"
	"strings"

	ddl "github.com/kodaimura/ddlparse"
)

// ------------------------------------------------------------------------------------------- C13

// judgeTrace: A is B with unreported clauses added.
func judgeTrace(w *Worker, c *Case) string {
	refA := w.Ref(c.A, c.D)
	if refA.V != Accept {
		return ""
	}
	refB := w.rp.Parse(c.B, c.D, false)
	if refB.V != Accept || !sameTables(refA.Tables, refB.Tables) {
		return "" // not the same declarations: a constraint name that leads only without the clause, say
	}
	w.traces++
	rb := w.Parse(c.B, c.D)
	if rb.Err != nil || rb.Panic != "" {
		return ""
	}
	ra := w.Parse(c.A, c.D)
	if ra.Panic != "" {
		return "panic: " + ra.Panic
	}
	if ra.Err != nil {
		return "rejected with the clause, accepted without: " + clip(ra.Err.Error(), 200)
	}
	if !sameTables(ra.Tables, rb.Tables) {
		// a difference must not come from what the model reports differently
		x := compare(normTables(rb.Tables), normTables(ra.Tables), c.D, fTables)
		return "the clause changes the result: " + strings.Join(x.msg, "; ") + " " + clip(Res{Tables: ra.Tables}.String(), 500) + " vs " + clip(Res{Tables: rb.Tables}.String(), 500)
	}
	return ""
}

func cat2(a, b [][]string) [][]string {
	seen := map[string]bool{}
	var out [][]string
	for _, l := range [][][]string{a, b} {
		for _, f := range l {
			if k := strings.Join(f, " "); !seen[k] {
				seen[k] = true
				out = append(out, f)
			}
		}
	}
	return out
}

// voidElements: table elements of which nothing is reported.
func voidElements(d, k int) []string {
	var out []string
	for _, f := range forms(d, "tablecon", k) {
		r := fill(f, d)
		switch r[0] {
		case "EXCLUDE", "INDEX", "KEY", "FULLTEXT", "SPATIAL":
			out = append(out, sp(r))
		case "CONSTRAINT":
			if len(r) > 2 && r[2] == "EXCLUDE" {
				out = append(out, sp(r))
			}
		}
	}
	return out
}

func exploreC13(e *Explorer) {
	put := func(d int, with, without string) {
		if with != without {
			e.Emit(Case{K: "trace", D: d, A: with, B: without})
		}
	}
	pair := func(d int, ts []string) {
		f := fill(ts, d)
		var g []string
		for i, t := range ts {
			if !strings.HasPrefix(t, voidMark) {
				g = append(g, f[i])
			}
		}
		if len(g) < len(f) {
			put(d, sp(f), sp(g))
		}
	}
	e.Group("derivations with unreported clauses, against the same without them")
	for d := 0; d < NDialect; d++ {
		k := generalK(e)[d]
		tableDocs(d, k, func(ts []string) bool {
			pair(d, ts)
			return !e.Stopped()
		})
	}
	dense(e, pair)
	e.Group("column constraints with unreported parts among others")
	for d := 0; d < NDialect; d++ {
		fs := forms(d, "colcon", 3)
		hasVoid := func(f []string) bool {
			for _, t := range f {
				if strings.HasPrefix(t, voidMark) {
					return true
				}
			}
			return false
		}
		kinds := colconKinds(d)
		it := intType[d]
		for _, a := range fs {
			if !hasVoid(a) {
				continue
			}
			pair(d, cat(toks("CREATE TABLE t ( x "+it), a, toks(", y "+it+" ) ;")))
			pair(d, cat(toks("CREATE TABLE t ( w "+it+" NOT NULL , x "+it), a, toks(") ;")))
			for _, b := range kinds {
				pair(d, cat(toks("CREATE TABLE t ( x "+it), a, b, toks(", y "+it+" ) ;")))
				pair(d, cat(toks("CREATE TABLE t ( x "+it), b, a, toks(", UNIQUE ( x ) ) ;")))
				pair(d, cat(toks("CREATE TABLE t ( x "+it), a, toks(", y "+it), b, toks(") ;")))
			}
		}
		short := [][]string{}
		for _, f := range forms(d, "colcon", 1) {
			if len(f) > 0 {
				short = append(short, f)
			}
		}
		for _, a := range short {
			for _, b := range short {
				if !hasVoid(a) && !hasVoid(b) {
					continue
				}
				for _, c := range kinds {
					pair(d, cat(toks("CREATE TABLE t ( x "+it), a, b, c, toks(", y "+it+" ) ;")))
					pair(d, cat(toks("CREATE TABLE t ( x "+it), a, c, b, toks(", y "+it+" ) ;")))
					pair(d, cat(toks("CREATE TABLE t ( x "+it), c, a, b, toks(") ;")))
				}
			}
		}
	}
	e.Group("table constraints with unreported parts")
	for d := 0; d < NDialect; d++ {
		k := e.Pick(4, 5)
		if d == MySQL {
			k = e.Pick(3, 4)
		}
		for _, f := range forms(d, "tablecon", k) {
			pair(d, cat(toks("CREATE TABLE t ("), f, toks(") ;")))
			pair(d, cat(toks("CREATE TABLE t ( x "+intType[d]+" ,"), f, toks(", UNIQUE ( z ) , y "+intType[d]+" ) ;")))
		}
	}
	e.Group("unreported elements at every place of every short element list")
	for d := 0; d < NDialect; d++ {
		ve := voidElements(d, e.Pick(3, 4))
		els := elements(d)
		var base []string // elements that are reported
		for _, el := range els {
			if strings.HasPrefix(el, "INDEX") || strings.HasPrefix(el, "FULLTEXT") || strings.HasPrefix(el, "EXCLUDE") {
				continue
			}
			base = append(base, el)
		}
		ins := func(list []string, at int, v ...string) string {
			return "CREATE TABLE t ( " + strings.Join(cat(list[:at], v, list[at:]), " , ") + " ) ;"
		}
		for vi, v := range ve {
			n := 1
			if vi < 40 {
				n = 2
			}
			sequences(len(base), n, func(ix []int) {
				var l []string
				for _, i := range ix {
					l = append(l, base[i])
				}
				plain := "CREATE TABLE t ( " + strings.Join(l, " , ") + " ) ;"
				for at := 0; at <= len(l); at++ {
					put(d, ins(l, at, v), plain)
					put(d, ins(l, at, v, v), plain)
				}
				put(d, "CREATE TABLE t ( "+v+" , "+strings.Join(l, " , "+v+" , ")+" , "+v+" ) ;", plain)
			})
		}
		// pairs of different ones
		if len(ve) > 0 {
			l := []string{base[0], base[3], base[2]}
			plain := "CREATE TABLE t ( " + strings.Join(l, " , ") + " ) ;"
			for i, v := range ve {
				if i >= 60 {
					break
				}
				for j, u := range ve {
					if j >= 60 {
						break
					}
					for at := 0; at <= len(l); at++ {
						put(d, ins(l, at, v, u), plain)
					}
				}
			}
		}
	}
	e.Group("unreported elements alone")
	for d := 0; d < NDialect; d++ {
		for _, v := range voidElements(d, e.Pick(3, 4)) {
			// nothing but the header remains
			for _, s := range []string{v, v + " , " + v} {
				e.Diff(d, "CREATE TABLE t ( "+s+" ) ;", fFocus|fTables)
				e.Diff(d, "CREATE TABLE t ( "+s+" ) ; CREATE TABLE u ( x "+intType[d]+" ) ;", fFocus|fTables)
			}
		}
	}
	e.Group("unreported parts at every place of larger tables and documents")
	for d := 0; d < NDialect; d++ {
		it := intType[d]
		other := func(i int) string {
			n := strconv.Itoa(i)
			switch i % 3 {
			case 0:
				return "c" + n + " " + it + " NOT NULL"
			case 1:
				return "c" + n + " " + strType[d] + " DEFAULT 'd" + n + "'"
			}
			return "UNIQUE ( c" + n + " )"
		}
		list := func(from, to int) string {
			return repeatJoin(to-from, " , ", func(i int) string { return other(from + i) })
		}
		type wo struct{ with, without string }
		var els []wo
		mark := func(pre string, ts []string) {
			f := fill(ts, d)
			var g []string
			for i, t := range ts {
				if !strings.HasPrefix(t, voidMark) {
					g = append(g, f[i])
				}
			}
			if len(g) < len(f) && (pre != "" || len(g) > 0) {
				els = append(els, wo{pre + sp(f), pre + sp(g)})
			}
		}
		for _, f := range forms(d, "colcon", 2) {
			mark("x "+it+" ", f)
			if len(f) < 7 {
				for _, c := range colconKinds(d) {
					if len(c) < 6 && !strings.HasPrefix(c[0], voidMark) {
						mark("x "+it+" ", cat(f, c))
						mark("x "+it+" ", cat(c, f))
					}
				}
			}
		}
		for _, f := range forms(d, "tablecon", 2) {
			mark("", f)
		}
		for _, a := range colconKinds(d) {
			for _, b := range colconKinds(d) {
				if !strings.HasPrefix(a[0], voidMark) && !strings.HasPrefix(b[0], voidMark) {
					mark("x "+it+" ", cat(a, []string{voidMark + "CONSTRAINT", voidMark + "@"}, b))
				}
			}
		}
		for _, v := range voidElements(d, 2) {
			els = append(els, wo{v, ""})
		}
		opts := formTexts(d, "options", e.Pick(2, 3))
		// what stands in a bracket of which nothing is reported can look like what is reported
		for _, f := range cat2(forms(d, "colcon", 2), allForms(d, "colcon", 0)) {
			for i, t := range f {
				if t != voidMark+"(" {
					continue
				}
				j, depth := i, 0
				for ; j < len(f); j++ {
					if strings.HasSuffix(f[j], "(") {
						depth++
					} else if strings.HasSuffix(f[j], ")") {
						if depth--; depth == 0 {
							break
						}
					}
				}
				for _, b := range []string{"UNIQUE", "NOT NULL", "PRIMARY KEY", "DEFAULT 7", "CHECK ( x > 7 )", "REFERENCES q ( z )", "CONSTRAINT n UNIQUE", "x , UNIQUE ( z )", "( x ) , z " + it + " NOT NULL", "AUTOINCREMENT", "AUTO_INCREMENT"} {
					var v []string
					for _, w := range strings.Fields(b) {
						v = append(v, voidMark+w)
					}
					mark("x "+it+" ", cat(f[:i+1], v, f[j:]))
				}
			}
		}
		sizes := []int{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 14, 16, 20, 25, 32, 40, 64}
		// far behind: many columns, many statements
		far := []int{150, 400}
		for _, n := range srcSizes(1500) {
			if len(far) < 30 {
				far = append(far, n)
			}
		}
		var rp refParser
		var withs, withouts []string // groups of elements
		fits := func(el wo) bool {
			r := rp.Parse("CREATE TABLE t ( y "+it+" , "+el.with+" ) ;", d, false)
			if r.V != Accept {
				return false
			}
			w := el.without
			if w != "" {
				w = " , " + w
			}
			ts := r.Tables
			q := rp.Parse("CREATE TABLE t ( y "+it+w+" ) ;", d, false)
			return q.V == Accept && sameTables(ts, q.Tables)
		}
		{
			var a, b []string
			flush := func() {
				if len(a) > 0 {
					withs, withouts = append(withs, strings.Join(a, " , ")), append(withouts, strings.Join(b, " , "))
				}
				a, b = nil, nil
			}
			for _, el := range els {
				if !fits(el) {
					continue
				}
				a = append(a, el.with)
				if el.without != "" {
					b = append(b, el.without)
				}
				if len(a) == 20 {
					flush()
				}
			}
			flush()
		}
		for _, n := range far {
			long, pre := list(0, n), strings.Repeat("CREATE TABLE p ( x "+it+" ) ; ", n/2)
			for i, w := range withs {
				v := withouts[i]
				if v != "" {
					v += " , "
				}
				put(d, "CREATE TABLE t ( "+long+" , "+w+" , y "+it+" ) ;", "CREATE TABLE t ( "+long+" , "+v+"y "+it+" ) ;")
				put(d, pre+"CREATE TABLE t ( "+w+" , y "+it+" ) ;", pre+"CREATE TABLE t ( "+v+"y "+it+" ) ;")
			}
			os := opts
			if n > 150 {
				os = formTexts(d, "options", 1)
			}
			for _, o := range os {
				put(d, "CREATE TABLE t ( "+long+" ) "+o+" ; CREATE TABLE u ( y "+it+" ) ;", "CREATE TABLE t ( "+long+" ) ; CREATE TABLE u ( y "+it+" ) ;")
			}
		}
		for _, el := range els {
			for _, n := range sizes {
				for _, at := range []int{0, n / 2, n} {
					var a, b []string
					if at > 0 {
						a, b = append(a, list(0, at)), append(b, list(0, at))
					}
					a = append(a, el.with)
					if el.without != "" {
						b = append(b, el.without)
					}
					if at < n {
						a, b = append(a, list(at, n)), append(b, list(at, n))
					}
					put(d, "CREATE TABLE t ( "+strings.Join(a, " , ")+" ) ;", "CREATE TABLE t ( "+strings.Join(b, " , ")+" ) ;")
					if n <= 4 {
						for _, s := range stmts(d) {
							put(d, s+" CREATE TABLE t ( "+strings.Join(a, " , ")+" ) ;", s+" CREATE TABLE t ( "+strings.Join(b, " , ")+" ) ;")
							put(d, "CREATE TABLE t ( "+strings.Join(a, " , ")+" ) ; "+s, "CREATE TABLE t ( "+strings.Join(b, " , ")+" ) ; "+s)
						}
					}
				}
				if n > 4 && n < 33 {
					pre := strings.Repeat("CREATE TABLE p ( x "+it+" ) ; ", n)
					w := el.without
					if w != "" {
						w += " , "
					}
					put(d, pre+"CREATE TABLE t ( "+el.with+" , y "+it+" ) ;", pre+"CREATE TABLE t ( "+w+"y "+it+" ) ;")
				}
			}
			// in other layouts
			w := el.without
			if w != "" {
				w += " , "
			}
			plain := "CREATE TABLE t ( v " + it + " , " + w + "y " + it + " UNIQUE ) ;"
			ts := lexToks("CREATE TABLE t ( v "+it+" , "+el.with+" , y "+it+" UNIQUE ) ;", d)
			for _, s := range []string{"\n", "\t", "/* c */", " -- c\n", "\r\n"} {
				put(d, strings.Join(ts, s), plain)
			}
			put(d, glueD(ts, d), plain)
			low := make([]string, len(ts))
			for i, t := range ts {
				low[i] = t
				if isKeywordTok(t) {
					low[i] = strings.ToLower(t)
				}
			}
			put(d, sp(low), plain)
		}
		for _, o := range opts {
			if o == "" {
				continue
			}
			for _, n := range sizes {
				b := "CREATE TABLE t ( " + list(0, n) + " )"
				put(d, b+" "+o+" ;", b+" ;")
				put(d, b+" "+o+" ; "+b+" "+o+" ;", b+" ; "+b+" ;")
			}
			for _, s := range stmts(d) {
				put(d, s+" CREATE TABLE t ( x "+it+" ) "+o+" ; "+s, s+" CREATE TABLE t ( x "+it+" ) ; "+s)
			}
		}
	}
	e.Group("every clause with all options, with unreported parts, in other layouts and far behind")
	for d := 0; d < NDialect; d++ {
		it := intType[d]
		lay := func(pre string, ts []string, post string) {
			f := fill(ts, d)
			var g []string
			for i, t := range ts {
				if !strings.HasPrefix(t, voidMark) {
					g = append(g, f[i])
				}
			}
			if len(g) == len(f) {
				return
			}
			plain := pre + " " + sp(g) + " " + post
			for _, s := range []string{"\n", " -- c\n", "\r\n\t", "/**/"} {
				put(d, pre+s+strings.Join(f, s)+s+post, plain)
			}
			put(d, nl800+pre+"\n"+sp(f)+" "+post, plain)
			put(d, pre+nl800+sp(f)+"\n"+post, plain)
			put(d, pre+" "+glueD(f, d)+" "+post, plain)
		}
		for _, f := range allForms(d, "colcon", e.Pick(2, 3)) {
			lay("CREATE TABLE t ( x "+it, f, ", y "+it+" ) ;")
		}
		for _, f := range allForms(d, "tablecon", [NDialect]int{1, 1, 0}[d]) {
			lay("CREATE TABLE t ( x "+it+" ,", f, ", y "+it+" ) ;")
		}
		for _, f := range allForms(d, "options", 2) {
			lay("CREATE TABLE t ( x "+it+" )", f, "; CREATE TABLE u ( y "+it+" ) ;")
		}
	}
	e.Group("pairs of columns and constraints that all carry unreported parts")
	for d := 0; d < NDialect; d++ {
		it := intType[d]
		type wo struct{ with, without string }
		var els []wo
		add := func(pre string, ts []string) {
			f := fill(ts, d)
			var g []string
			for i, t := range ts {
				if !strings.HasPrefix(t, voidMark) {
					g = append(g, f[i])
				}
			}
			if len(g) < len(f) && len(g) > 0 {
				els = append(els, wo{pre + sp(f), pre + sp(g)})
			}
		}
		for _, f := range forms(d, "colcon", 1) {
			add("x "+it+" ", f)
		}
		for _, f := range forms(d, "tablecon", 2) {
			add("", f)
		}
		for _, a := range els {
			for _, b := range els {
				put(d, "CREATE TABLE t ( "+a.with+" , "+b.with+" ) ;", "CREATE TABLE t ( "+a.without+" , "+b.without+" ) ;")
			}
		}
	}
	e.Group("sequences of table options")
	for d := 0; d < NDialect; d++ {
		body := "CREATE TABLE t ( x " + intType[d] + " NOT NULL , UNIQUE ( x ) )"
		next := "CREATE TABLE u ( y " + strType[d] + " DEFAULT 'q' ) ;"
		if d == SQLite {
			for _, o := range []string{"WITHOUT ROWID", "STRICT", "WITHOUT ROWID , STRICT", "STRICT , WITHOUT ROWID", "without rowid,strict"} {
				put(d, body+" "+o+" ;", body+" ;")
				put(d, body+" "+o, body)
				put(d, body+" "+o+" ; "+next, body+" ; "+next)
				put(d, next+" "+body+" "+o+" ; "+next, next+" "+body+" ; "+next)
			}
			continue
		}
		opts := formTexts(d, "option", 3)
		short := formTexts(d, "option", 2)
		if d == MySQL {
			short = formTexts(d, "option", 1)
		}
		for _, o := range opts {
			put(d, body+" "+o+" ;", body+" ;")
			put(d, next+" "+body+" "+o+" ; "+next, next+" "+body+" ; "+next)
			put(d, body+" "+glueD(lexToks(o, d), d)+";"+next, body+" ;"+next)
		}
		for _, o := range opts {
			for _, p := range short {
				put(d, body+" "+o+" "+p+" ;", body+" ;")
				put(d, body+" "+p+" "+o+" ; "+next, body+" ; "+next)
			}
		}
		for i, o := range short {
			if i > 45 {
				break
			}
			for j, p := range short {
				if j > 45 {
					break
				}
				for l, q := range short {
					if l > 45 {
						break
					}
					put(d, body+" "+o+" "+p+" "+q+" ; "+next, body+" ; "+next)
				}
			}
		}
	}
}

// ------------------------------------------------------------------------------------------- C14

func exploreC14(e *Explorer) {
	mask := fPanic | fAcc
	e.Group("all CREATE TABLE derivations with few deviations")
	for d := 0; d < NDialect; d++ {
		k := generalK(e)[d]
		tableDocs(d, k, func(ts []string) bool {
			s := render(ts, d)
			e.Diff(d, s, mask)
			return !e.Stopped()
		})
	}
	denseDiff(e, mask)
	repetitions(e, mask)
	e.Group("every viable transition of the state graph, completed")
	for d := 0; d < NDialect; d++ {
		g := getGraph(d, e.Pick(2, 3), 3)
		for i := range g.nodes {
			p := ""
			for _, ed := range g.nodes[i].edges {
				if ed.to < 0 {
					continue
				}
				if c, ok := g.completion(ed.to); ok {
					if p == "" {
						p = sp(g.path(i))
					}
					e.Diff(d, p+" "+g.vocab[ed.tok].S+" "+sp(c), mask)
				}
			}
			if e.Stopped() {
				return
			}
		}
	}
	e.Group("orders and combinations of column constraints")
	constraintSequences(e, e.Pick(4, 5), 2, mask)
	for d := 0; d < NDialect; d++ {
		fs := colconForms(d, e.Pick(3, 3))
		gs := colconForms(d, e.Pick(1, 2))
		for _, a := range fs {
			ra := render(a, d)
			for _, b := range gs {
				rb := render(b, d)
				e.Diff(d, "CREATE TABLE t ( x "+intType[d]+" "+ra+" "+rb+" ) ;", mask)
				e.Diff(d, "CREATE TABLE t ( x "+intType[d]+" "+rb+" "+ra+" , y "+intType[d]+" ) ;", mask)
			}
		}
	}
	e.Group("data types with constraints")
	for d := 0; d < NDialect; d++ {
		for _, t := range formTexts(d, "type", 4) {
			for _, c := range colconForms(d, 1) {
				e.Diff(d, "CREATE TABLE t ( x "+t+" "+render(c, d)+" ) ;", mask)
			}
		}
	}
	e.Group("table constraints in sequence")
	elementSequences(e, e.Pick(3, 4), mask)
	for d := 0; d < NDialect; d++ {
		k := e.Pick(4, 5)
		if d == MySQL {
			k = e.Pick(3, 4)
		}
		for _, f := range forms(d, "tablecon", k) {
			for _, s := range tableConFrames(d, render(f, d)) {
				e.Diff(d, s, mask)
			}
		}
	}
	e.Group("table options in sequence")
	for d := 0; d < NDialect; d++ {
		for _, o := range formTexts(d, "options", e.Pick(4, 5)) {
			e.Diff(d, "CREATE TABLE t ( x "+intType[d]+" ) "+o+" ;", mask)
			e.Diff(d, "CREATE TABLE t ( x "+intType[d]+" ) "+o+" ; CREATE TABLE u ( y "+intType[d]+" ) "+o+" ;", mask)
		}
	}
	e.Group("statement kinds")
	for d := 0; d < NDialect; d++ {
		for _, o := range formTexts(d, "statement", 3) {
			e.Diff(d, o, mask)
			e.Diff(d, "CREATE TABLE u ( y "+intType[d]+" ) ; "+o+" CREATE TABLE v ( y "+intType[d]+" ) ;", mask)
		}
	}
	richDiff(e, mask)
	e.Group("the last semicolon")
	for d := 0; d < NDialect; d++ {
		for _, s := range stmts(d) {
			for _, t := range stmts(d) {
				u := strings.TrimSpace(strings.TrimSuffix(t, ";"))
				e.Diff(d, s+" "+u, mask)
				e.Diff(d, s+" "+u+"\n-- end", mask)
				e.Diff(d, u, mask)
			}
		}
	}
}

// ------------------------------------------------------------------------------------------- C15

func exploreC15(e *Explorer) {
	mask := fRej
	defer sourced(e, func(d int, s string) { e.Diff(d, s, mask) })
	e.Group("every refused transition of the state graph, cut and completed")
	for d := 0; d < NDialect; d++ {
		g := getGraph(d, e.Pick(1, 2), 2)
		for i := range g.nodes {
			p := sp(g.path(i))
			comp, ok := g.completion(i)
			c := sp(comp)
			e.Diff(d, p, mask)
			for _, ed := range g.nodes[i].edges {
				t := g.vocab[ed.tok].S
				if ed.to < 0 {
					if ok {
						e.Diff(d, p+" "+t+" "+c, mask)
					}
					e.Diff(d, p+" "+t+" ;", mask)
					e.Diff(d, p+" "+t, mask)
				} else if c2, ok2 := g.completion(ed.to); ok2 && len(c2) > 0 {
					// the completion without its first or its last token
					e.Diff(d, p+" "+t+" "+sp(c2[1:]), mask)
					e.Diff(d, p+" "+t+" "+sp(c2[:len(c2)-1]), mask)
				}
			}
			if e.Stopped() {
				return
			}
		}
	}
	crowdedEdges(e, mask)
	farEdits(e, mask)
	repetitions(e, mask)
	foreign(e, foreignWords, mask)
	odd(e, func(d int, s string) { e.Diff(d, s, mask) })
	openEdits(e, mask)
	denseDiff(e, mask)
	n := 0
	lines := []string{" ", "\n", "\n\n\n", " /* c */ ", " -- c\n"}
	denseEdits(e, []string{",", ")", "(", "x", "1", "'s'", "NOT", "KEY", "DEFAULT", ";"}, func(d int, ts []string) {
		e.Diff(d, sp(ts), mask)
		n++
		e.Diff(d, strings.Join(ts, lines[1+n%4]), mask)
	})
	e.Group("every single-token edit of derivations")
	for d := 0; d < NDialect; d++ {
		vocab := editVocab(d)
		k := e.Pick(1, 2)
		if d == SQLite {
			k++
		}
		tableDocs(d, k, func(ts []string) bool {
			tokenEdits(fill(ts, d), vocab, func(x []string, _ int) {
				s := sp(x)
				if e.Dedup(d, s) {
					e.Diff(d, s, mask)
				}
			})
			return !e.Stopped()
		})
	}
	e.Group("every deletion, duplication and swap in larger derivations")
	for d := 0; d < NDialect; d++ {
		k := [NDialect]int{4, 3, 3}[d]
		tableDocs(d, k, func(ts []string) bool {
			tokenEdits(fill(ts, d), []string{",", ")"}, func(x []string, _ int) {
				s := sp(x)
				if e.Dedup(d, s) {
					e.Diff(d, s, mask)
				}
			})
			return !e.Stopped()
		})
	}
	e.Group("every single-token edit of documents")
	for d := 0; d < NDialect; d++ {
		for _, doc := range docs(d) {
			tokenEdits(lexToks(doc, d), editVocab(d), func(x []string, _ int) { e.Diff(d, sp(x), mask) })
		}
	}
	e.Group("repeated kinds of column constraints")
	for d := 0; d < NDialect; d++ {
		fs := colconForms(d, 2)
		kinds := colconKinds(d)
		for _, a := range fs {
			ra := render(a, d)
			for _, b := range fs {
				rb := render(b, d)
				e.Diff(d, "CREATE TABLE t ( x "+intType[d]+" "+ra+" "+rb+" ) ;", mask)
				if len(a) <= 3 && len(b) <= 3 {
					for _, c := range kinds {
						rc := render(c, d)
						e.Diff(d, "CREATE TABLE t ( x "+intType[d]+" "+ra+" "+rc+" "+rb+" ) ;", mask)
						e.Diff(d, "CREATE TABLE t ( y "+intType[d]+" , x "+intType[d]+" "+rc+" "+ra+" "+rb+" , z "+intType[d]+" ) ;", mask)
					}
				}
			}
		}
		for _, a := range kinds {
			for _, b := range kinds {
				for _, c := range kinds {
					for _, x := range [][]string{a, b} {
						e.Diff(d, "CREATE TABLE t ( x "+intType[d]+" "+render(a, d)+" "+render(b, d)+" "+render(c, d)+" "+render(x, d)+" ) ;", mask)
					}
				}
			}
		}
	}
	e.Group("terminators and what stands between statements")
	for d := 0; d < NDialect; d++ {
		for _, s := range stmts(d) {
			u := strings.TrimSpace(strings.TrimSuffix(s, ";"))
			for _, t := range stmts(d) {
				for _, g := range []string{"", ";;", ";", ",", "x", ")", "GO", "; ;", ".", "DROP TABLE x ;", "ALTER TABLE t ADD y ;", "INSERT INTO t VALUES ( 1 ) ;", "SELECT 1 ;", "COMMIT ;", "CREATE", "CREATE TABLE"} {
					e.Diff(d, u+" "+g+" "+t, mask)
					e.Diff(d, s+" "+g+" "+t, mask)
				}
				e.Diff(d, s+" "+t+" ;", mask)
				e.Diff(d, s+" "+t+" x", mask)
				e.Diff(d, s+" "+strings.TrimSuffix(t, ";"), mask)
			}
		}
	}
}

// ------------------------------------------------------------------------------------------- C16

// namePlaces: for each name terminal of the grammar, a document with that name position marked "@:id".
func namePlaces(d, k int) (docs [][]string, at []int) {
	seen := map[string]bool{}
	g := &deriver{d: d, ids: true}
	nodes := []*Node{tagged[d]["table"][0]}
	if d == SQLite {
		nodes = append(nodes, tagged[d]["last"][0])
	}
	for ni, n := range nodes {
		for b := 0; b <= k; b++ { // cheapest first
			nn := *n
			nn.lenient = false
			g.gen(&nn, b, nil, func(p []string, _ int) {
				for i, t := range p {
					t = strings.TrimPrefix(t, voidMark)
					if strings.HasPrefix(t, "@:") && !seen[t] {
						seen[t] = true
						q := append([]string{}, p...)
						if ni == 0 {
							q = append([]string{"CREATE"}, q...)
							docs, at = append(docs, q), append(at, i+1)
						} else {
							docs, at = append(docs, q), append(at, i)
						}
					}
				}
			})
		}
	}
	return
}

func exploreC16(e *Explorer) {
	mask := fPanic | fAcc | fRej | fTables
	defer sourced(e, func(d int, s string) { e.Diff(d, s, mask) })
	chars := []string{"x", "Z", "_", "0", "9", "$", "é", "-", "@", "#", "!", "&", "日", "ａ", "%", "~", "^", "[", "]", "{", "+", "*", "/", "<", ":", "|", "?", "\\"}
	for d := 0; d < NDialect; d++ {
		dd, at := namePlaces(d, 5)
		e.Group(fmt.Sprintf("%s: %d name positions", dialectName[d], len(dd)))
		put := func(i int, s string) {
			f := fill(dd[i], d)
			f[at[i]] = s
			e.Diff(d, sp(f), mask)
		}
		ws := map[string]bool{}
		var list []string
		add := func(w string) {
			if !ws[w] {
				ws[w] = true
				list = append(list, w)
			}
		}
		for _, l := range [][]string{reservedSQLite, reservedPostgreSQL, reservedMySQL} {
			for _, w := range l {
				add(w)
			}
		}
		for _, t := range vocabulary(d) {
			add(t.S)
		}
		for _, n := range nameSamples {
			if isPlainWord(n) {
				add(n)
			}
		}
		for _, w := range []string{"users", "id", "name", "value", "status", "Type", "ROWID", "oid", "mysql", "first", "last", "begin", "infile", "INFILE", "current", "AUTOINCREMENT", "AUTO_INCREMENT", "nothing", "temp", "TEMP", "strict", "if", "exists"} {
			add(w)
		}
		lead := len(list)
		// the layout makes no difference to the rule
		var sample []string
		for _, w := range []string{"SELECT", "table", "Check", "1x", "x-y", "é", "xn", "_y", "Value2"} {
			sample = append(sample, w)
		}
		for _, q := range identQuote[d] {
			sample = append(sample, string(q)+"SELECT"+string(q), string(q)+"1 x"+string(q))
		}
		for i := range dd {
			for _, w := range sample {
				f := fill(dd[i], d)
				f[at[i]] = w
				for _, s := range []string{"\n", "\n\n", "\r\n", "\t", "/* c */", " -- c\n"} {
					e.Diff(d, strings.Join(f, s), mask)
				}
				e.Diff(d, glueD(f, d), mask)
				for j := 1; j < len(f); j++ {
					e.Diff(d, sp(f[:j])+"\n"+sp(f[j:]), mask)
					e.Diff(d, glueD(f[:j], d)+"\n"+glueD(f[j:], d), mask)
				}
				e.Diff(d, strings.Repeat("CREATE TABLE p ( x "+intType[d]+" ) ;\n", 40)+sp(f), mask)
			}
		}
		for i := range dd {
			for _, w := range list {
				put(i, w)
				put(i, strings.ToLower(w))
				if i%4 == 0 || e.Thorough() {
					put(i, alternate(w, 0))
					put(i, alternate(w, 1))
					put(i, w+"_")
					put(i, "_"+w)
					put(i, w+"1")
				}
				if i < 2 || e.Thorough() {
					for _, a := range []string{"_", "__", "___", "0", "x", "X", "s", "ed", "é", "$", "-", "1_"} {
						put(i, w+a)
						put(i, a+w)
						put(i, strings.ToLower(w)+a)
						put(i, a+strings.ToLower(w))
						put(i, a+w+a)
					}
					put(i, w+w)
					put(i, w+"_"+w)
					if len(w) > 1 {
						put(i, w[1:])
						put(i, w[:len(w)-1])
					}
				}
				if isPlainWord(w) {
					for _, q := range identQuote[d] {
						put(i, string(q)+w+string(q))
					}
				}
			}
			// wrong quotes, strings, numbers, symbols
			for _, w := range []string{"'x'", "\"x\"", "`x`", "''", "1", "1.5", "-x", "x.y", "( x )", "x y", "x , y", "x;", "[x]", "\"\"", "``", "x-", "x'y'", "\"x\"y", "'x'y"} {
				put(i, w)
			}
			for _, q := range identQuote[d] {
				for _, s := range quotedWords {
					if !strings.ContainsRune(s, q) && s != "" {
						put(i, string(q)+s+string(q))
					}
				}
				for _, s := range chars {
					put(i, string(q)+s+string(q))
				}
			}
		}
		_ = lead
		e.Group(fmt.Sprintf("%s: names in headers of every form", dialectName[d]))
		pre := []string{"CREATE TABLE ", "CREATE TABLE IF NOT EXISTS ", "create table if not exists ", "CREATE VIEW v AS x ; CREATE TABLE "}
		if d == SQLite {
			pre = append(pre, "CREATE TEMP TABLE ", "CREATE TEMPORARY TABLE ", "CREATE TEMP TABLE IF NOT EXISTS ", "CREATE TEMPORARY TABLE IF NOT EXISTS ")
		}
		for _, p := range pre {
			for _, w := range list {
				for _, x := range []string{w, strings.ToLower(w), alternate(w, 0), string(identQuote[d][0]) + w + string(identQuote[d][0])} {
					e.Diff(d, p+x+" ( z "+intType[d]+" ) ;", mask)
					e.Diff(d, p+x+".t ( z "+intType[d]+" ) ;", mask)
					e.Diff(d, p+"s . "+x+" ( z "+intType[d]+" ) ;", mask)
					e.Diff(d, p+x+"."+x+" ( "+x+" "+intType[d]+" ) ;", mask)
				}
			}
		}
		e.Group(fmt.Sprintf("%s: telling names at every name of clauses with all options", dialectName[d]))
		q := identQuote[d][:1]
		tell := []string{"SELECT", "table", "Where", q + "select" + q, q + "a b" + q, q + q, "'x'", "1x", "x$", "_", "é", "x-y", "1", q + "x", "`w`", "\"w\""}
		at2 := func(pre string, f []string, post string) {
			r := fill(f, d)
			for j, t := range f {
				if strings.TrimPrefix(t, voidMark) != "@" {
					continue
				}
				for _, w := range tell {
					g := append([]string{}, r...)
					g[j] = w
					e.Diff(d, pre+sp(g)+post, mask)
				}
			}
		}
		for _, f := range allForms(d, "tablecon", [NDialect]int{2, 1, 0}[d]+e.Pick(0, 1)) {
			at2("CREATE TABLE t ( x "+intType[d]+" , ", f, " , y "+intType[d]+" ) ;")
		}
		for _, f := range allForms(d, "colcon", e.Pick(2, 3)) {
			at2("CREATE TABLE t ( x "+intType[d]+" ", f, " , y "+intType[d]+" ) ;")
		}
		for _, f := range allForms(d, "options", 1) {
			at2("CREATE TABLE t ( x "+intType[d]+" ) ", f, " ; CREATE TABLE u ( y "+intType[d]+" ) ;")
		}
		e.Group(fmt.Sprintf("%s: all short character strings as names", dialectName[d]))
		for i := range dd {
			allStrings(chars, 2, func(s string) {
				if s != "" {
					put(i, s)
				}
			})
			allStrings(chars[:7], e.Pick(3, 4), func(s string) {
				if len(s) > 2 {
					put(i, s)
				}
			})
		}
	}
}

func alternate(s string, par int) string {
	b := []byte(strings.ToUpper(s))
	n := 0
	for i, c := range b {
		if c >= 'A' && c <= 'Z' {
			if n%2 == par {
				b[i] = c + 32
			}
			n++
		}
	}
	return string(b)
}

// ------------------------------------------------------------------------------------------- C17

// judgeCase: A is B with the case of keywords changed.
func judgeCase(w *Worker, c *Case) string {
	refB := w.rp.Parse(c.B, c.D, false)
	rb := w.Parse(c.B, c.D)
	m := fPanic | fAcc | fRej | fTables
	if verdict(refB, rb, c.D, m) != "" {
		return "" // wrong whatever the case
	}
	ref := w.Ref(c.A, c.D)
	w.traces++
	return verdict(ref, w.Parse(c.A, c.D), c.D, m)
}

func isKeywordTok(t string) bool {
	if !isPlainWord(t) {
		return false
	}
	return asciiUpper(t) == t && strings.ToLower(t) != t
}

func exploreC17(e *Explorer) {
	put := func(d int, ts, plain []string) {
		e.Emit(Case{K: "case", D: d, A: sp(ts), B: sp(plain)})
	}
	title := func(s string) string { return s[:1] + strings.ToLower(s[1:]) }
	untitle := func(s string) string { return strings.ToLower(s[:1]) + s[1:] }
	pats := []func(string) string{strings.ToLower, title, untitle, func(s string) string { return alternate(s, 0) }, func(s string) string { return alternate(s, 1) },
		func(s string) string { return s[:len(s)-1] + strings.ToLower(s[len(s)-1:]) }}
	all := func(d int, f []string) {
		for _, p := range pats {
			g := make([]string, len(f))
			for i, t := range f {
				g[i] = t
				if isKeywordTok(t) {
					g[i] = p(t)
				}
			}
			put(d, g, f)
		}
	}
	single := func(d int, f []string, ps []int) {
		for i, t := range f {
			if !isKeywordTok(t) {
				continue
			}
			for _, p := range ps {
				g := append([]string{}, f...)
				g[i] = pats[p](t)
				put(d, g, f)
			}
		}
	}
	e.Group("derivations with all keywords changed")
	for d := 0; d < NDialect; d++ {
		tableDocs(d, [NDialect]int{e.Pick(4, 5), 3, e.Pick(3, 4)}[d], func(ts []string) bool {
			all(d, fill(ts, d))
			return !e.Stopped()
		})
		for _, f := range forms(d, "statement", 3) {
			all(d, cat(fill(f, d), toks("CREATE TABLE tt ( x "+intType[d]+" ) ;")))
		}
	}
	e.Group("derivations with one keyword changed")
	for d := 0; d < NDialect; d++ {
		tableDocs(d, e.Pick(2, 3), func(ts []string) bool {
			ps := []int{0, 3, 4}
			if len(ts) > 14 {
				ps = []int{0, 3}
			}
			single(d, fill(ts, d), ps)
			return !e.Stopped()
		})
		for _, f := range forms(d, "statement", 2) {
			single(d, cat(fill(f, d), toks("CREATE TABLE tt ( x "+intType[d]+" ) ;")), []int{0, 1, 3, 4})
		}
		for _, doc := range docs(d) {
			single(d, lexToks(doc, d), []int{0, 1, 2, 3, 4, 5})
			all(d, lexToks(doc, d))
		}
	}
	e.Group("constraint pairs, forms and data types with keywords changed")
	for d := 0; d < NDialect; d++ {
		for _, f := range forms(d, "type", 4) {
			all(d, cat(toks("CREATE TABLE t ( x"), fill(f, d), toks(", y "+intType[d]+" ) ;")))
		}
		for _, f := range forms(d, "tablecon", 3) {
			all(d, cat(toks("CREATE TABLE t ( x "+intType[d]+" ,"), fill(f, d), toks(") ;")))
		}
		fs := colconForms(d, 2)
		for _, a := range fs {
			for _, b := range colconKinds(d) {
				all(d, cat(toks("CREATE TABLE t ( x "+intType[d]), fill(a, d), fill(b, d), toks(") ;")))
			}
		}
		for _, f := range forms(d, "options", 3) {
			all(d, cat(toks("CREATE TABLE t ( x "+intType[d]+" )"), fill(f, d), toks(";")))
		}
	}
	e.Group("every spelling of every keyword")
	for d := 0; d < NDialect; d++ {
		seen := map[string]bool{}
		visit := func(f []string) {
			for i, t := range f {
				if !isKeywordTok(t) || seen[t] {
					continue
				}
				seen[t] = true
				n := 0
				for _, c := range t {
					if c >= 'A' && c <= 'Z' {
						n++
					}
				}
				lim := e.Pick(10, 12)
				for m := 0; m < 1<<uint(min(n, lim)); m++ {
					b := []byte(t)
					k := 0
					for j, c := range b {
						if c >= 'A' && c <= 'Z' {
							if k < lim && m>>uint(k)&1 == 1 {
								b[j] = c + 32
							}
							k++
						}
					}
					g := append([]string{}, f...)
					g[i] = string(b)
					put(d, g, f)
				}
			}
		}
		for _, f := range forms(d, "statement", 3) {
			visit(cat(fill(f, d)))
		}
		tableDocs(d, 3, func(ts []string) bool { visit(fill(ts, d)); return !e.Stopped() })
	}
	dense(e, func(d int, ts []string) {
		f := fill(ts, d)
		low, mix := make([]string, len(f)), make([]string, len(f))
		for i, t := range f {
			low[i], mix[i] = t, t
			if isKeywordTok(t) {
				low[i], mix[i] = strings.ToLower(t), alternate(t, i&1)
			}
		}
		put(d, low, f)
		put(d, mix, f)
	})
	e.Group("ungrammatical texts with keywords changed")
	for d := 0; d < NDialect; d++ {
		for _, doc := range docs(d)[:3] {
			tokenEdits(lexToks(doc, d), []string{"NOT", "KEY", "SELECT"}, func(x []string, _ int) {
				g := make([]string, len(x))
				h := make([]string, len(x))
				for i, t := range x {
					g[i], h[i] = t, t
					if isKeywordTok(t) {
						g[i], h[i] = strings.ToLower(t), alternate(t, i&1)
					}
				}
				put(d, g, x)
				put(d, h, x)
			})
		}
	}
}

// ------------------------------------------------------------------------------------------- C18

var entry = [NDialect]func(string) ([]ddl.Table, error){ddl.ParseSQLite, ddl.ParsePostgreSQL, ddl.ParseMySQL}
var entryName = [NDialect]string{"ParseSQLite", "ParsePostgreSQL", "ParseMySQL"}

func judgeEntry(w *Worker, c *Case) string {
	var rs [NDialect]Res
	first := -1
	for d := 0; d < NDialect; d++ {
		w.Ref(c.A, d)
		rs[d] = w.Parse(c.A, d)
		if rs[d].Panic != "" {
			return ""
		}
		w.parses++
		r := guard(func() ([]ddl.Table, error) { return entry[d](c.A) })
		if r.Panic != "" || !reflect.DeepEqual(r.Tables, rs[d].Tables) || !reflect.DeepEqual(r.Err, rs[d].Err) {
			return fmt.Sprintf("%s gives %s, Parse gives %s", entryName[d], clip(r.String(), 500), clip(rs[d].String(), 500))
		}
		if rs[d].Err == nil && first < 0 {
			first = d
		}
	}
	w.parses++
	w.traces++
	w.outcome[fmt.Sprintf("first accepting dialect %d", first)]++
	f := parseForce(c.A)
	if f.Panic != "" {
		return "ParseForce panics: " + f.Panic
	}
	if first < 0 {
		if f.Err == nil {
			return "ParseForce succeeds although every dialect rejects the text"
		}
		if _, ok := f.Err.(ddl.ValidateError); !ok {
			return fmt.Sprintf("ParseForce's error is a %T", f.Err)
		}
		if len(f.Tables) != 0 {
			return "ParseForce returns tables with an error"
		}
		return ""
	}
	if f.Err != nil {
		return fmt.Sprintf("ParseForce fails (%s) although %s accepts the text", clip(f.Err.Error(), 200), dialectName[first])
	}
	if !sameTables(f.Tables, rs[first].Tables) {
		return fmt.Sprintf("ParseForce gives %s, the first accepting dialect (%s) gives %s", clip(f.String(), 500), dialectName[first], clip(rs[first].String(), 500))
	}
	return ""
}

func exploreC18(e *Explorer) {
	put := func(s string) {
		if e.Dedup(0, s) {
			e.Emit(Case{K: "entry", A: s})
		}
	}
	e.Group("garbage, documents and their truncations")
	for _, g := range garbage {
		put(g)
	}
	for d := 0; d < NDialect; d++ {
		for _, doc := range docs(d) {
			put(doc)
			ts := lexToks(doc, d)
			for i := range ts {
				put(sp(ts[:i]))
			}
		}
		for _, c := range contexts(d) {
			for _, g := range garbage {
				put(c + g)
			}
		}
	}
	e.Group("statement sequences mixing dialects")
	var all []string
	for d := 0; d < NDialect; d++ {
		for _, s := range stmts(d) {
			all = append(all, s)
		}
	}
	sequences(len(all), e.Pick(2, 3), func(ix []int) {
		s := ""
		for _, i := range ix {
			s += all[i] + " "
		}
		put(s)
		put(strings.TrimSuffix(strings.TrimSpace(s), ";"))
	})
	e.Group("derivations of every dialect")
	for d := 0; d < NDialect; d++ {
		tableDocs(d, [NDialect]int{5, 3, 3}[d]+e.Pick(0, 1), func(ts []string) bool {
			put(render(ts, d))
			return !e.Stopped()
		})
		for _, t := range formTexts(d, "type", 3) {
			for _, c := range colconForms(d, 1) {
				put("CREATE TABLE t ( x " + t + " " + render(c, d) + " ) ;")
				put("CREATE TABLE t ( x " + t + " " + render(c, d) + " )")
			}
		}
		for _, f := range formTexts(d, "statement", 3) {
			put(f)
			put(f + " CREATE TABLE q ( x " + intType[d] + " ) ;")
		}
	}
	e.Group("telling words in comments, strings and names of texts that dialects read differently")
	{
		seen := map[string]bool{}
		var ws []string
		for d := 0; d < NDialect; d++ {
			for _, t := range vocabulary(d) {
				if isPlainWord(t.S) && !seen[t.S] {
					seen[t.S] = true
					ws = append(ws, t.S)
				}
			}
		}
		for _, w := range append(ws, sqlWords...) {
			for _, x := range []string{w, strings.ToLower(w)} {
				for _, q := range []string{"`", "\"", ""} {
					n := q + "yy" + q
					e.Emit(Case{K: "entry", A: "CREATE TABLE " + n + " ( x TEXT DEFAULT \"q\" ) ; -- " + x})
					e.Emit(Case{K: "entry", A: "/* " + x + "=1 */ CREATE TABLE " + n + " ( x REAL CHECK ( x = '" + x + "' ) , y TEXT COLLATE nocase ) ;"})
					e.Emit(Case{K: "entry", A: "CREATE TABLE " + n + " ( x REAL CHECK ( " + x + " ) , z INTEGER ( 5 ) , y TEXT DEFAULT '" + x + "' ) ;"})
					e.Emit(Case{K: "entry", A: "CREATE TABLE " + n + " ( x REAL CHECK ( " + x + " # " + n + "\n > 1 ) ) ;"})
					e.Emit(Case{K: "entry", A: "CREATE TABLE t ( x REAL CHECK ( " + n + " # " + x + "\n > 1 ) ) ; -- " + x})
					e.Emit(Case{K: "entry", A: "CREATE TABLE " + n + " ( " + x + " INTEGER , y TEXT DEFAULT 'q' ) ;"})
					e.Emit(Case{K: "entry", A: "CREATE VIEW v AS SELECT " + x + " ; CREATE TABLE " + n + " ( z INTEGER REFERENCES q ( " + n + " ) ) ;"})
				}
			}
		}
	}
	e.Group("quoting")
	for _, q1 := range "'\"`" {
		for _, q2 := range "'\"`" {
			for _, s := range quotedWords {
				if strings.ContainsRune(s, q1) || strings.ContainsRune(s, q2) {
					continue
				}
				for _, t := range []string{"TEXT", "INT", "VARCHAR ( 3 )", "INTEGER"} {
					put("CREATE TABLE " + string(q1) + s + string(q1) + " ( x " + t + " DEFAULT " + string(q2) + s + string(q2) + " ) ;")
					put("CREATE TABLE t ( " + string(q1) + s + string(q1) + " " + t + " CHECK ( " + string(q2) + s + string(q2) + " ) )")
				}
			}
		}
	}
	mixedReadings(put)
	dense(e, func(d int, ts []string) { put(render(ts, d)) })
	rich(e, func(d int, s string) { put(s) })
	e.Group("edited documents")
	for d := 0; d < NDialect; d++ {
		for _, doc := range docs(d) {
			tokenEdits(lexToks(doc, d), []string{"x", ",", "COMMENT", "TEXT"}, func(x []string, _ int) { put(sp(x)) })
		}
	}
}

func init() {
	register(&Check{ID: "C13", Explore: exploreC13, Judges: map[string]func(*Worker, *Case) string{"trace": judgeTrace}, Rule: "the result with unreported clauses must equal the result without them"})
	register(&Check{ID: "C14", Explore: exploreC14, Rule: "every text the model derives must be accepted"})
	register(&Check{ID: "C15", Explore: exploreC15, Rule: "every text the model refuses must be rejected"})
	register(&Check{ID: "C16", Explore: exploreC16, Rule: "acceptance and reported names are compared with the model's in every name position"})
	register(&Check{ID: "C17", Explore: exploreC17, Judges: map[string]func(*Worker, *Case) string{"case": judgeCase}, Rule: "where the upper-case text agrees with the model, so must every other spelling of its keywords"})
	register(&Check{ID: "C18", Explore: exploreC18, Judges: map[string]func(*Worker, *Case) string{"entry": judgeEntry}, Rule: "the entry points are compared with each other on every text"})
}
