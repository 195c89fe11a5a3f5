package main

import (
	"strconv"
	"strings"
)

// Dense derivations: every combination of options and alternatives of one clause, and every ordered
// pair and triple of short clauses, rather than few deviations from a default.

func allForms(d int, tag string, budget int) [][]string {
	var out [][]string
	seen := map[string]bool{}
	for _, n := range tagged[d][tag] {
		deriveAll(n, d, budget, func(ts []string) {
			if len(ts) == 0 {
				return
			}
			key := strings.Join(ts, " ")
			if !seen[key] {
				seen[key] = true
				out = append(out, append([]string{}, ts...))
			}
		})
	}
	return out
}

// dense: f gets token lists with void marks.
func dense(e *Explorer, f func(d int, ts []string)) {
	if e.again("dense") {
		return
	}
	for d := 0; d < NDialect; d++ {
		e.Group("all options and alternatives of every table constraint")
		it := intType[d]
		a, b := toks("CREATE TABLE t ( x "+it+" ,"), toks(", y "+it+" ) ;")
		bud := [NDialect]int{3, 3, 1}[d]
		if d == MySQL && e.Thorough() {
			bud = 2
		}
		for _, tc := range allForms(d, "tablecon", bud) {
			f(d, cat(a, tc, b))
		}
		e.Group("all options and alternatives of every column constraint; ordered pairs and triples")
		col, end := toks("CREATE TABLE t ( x "+it), toks(", y "+it+" ) ;")
		for _, cc := range allForms(d, "colcon", e.Pick(3, 4)) {
			f(d, cat(col, cc, end))
		}
		ones := allForms(d, "colcon", 1)
		zeros := allForms(d, "colcon", 0)
		for _, x := range ones {
			for _, y := range ones {
				f(d, cat(col, x, y, end))
			}
		}
		for _, x := range zeros {
			for _, y := range zeros {
				for _, z := range zeros {
					f(d, cat(col, x, y, z, end))
				}
			}
		}
		e.Group("every form of a column constraint before, between and after two others")
		few := make([][]string, 0, len(zeros))
		heads := map[string]bool{}
		for _, z := range zeros {
			if len(z) > 0 && !heads[z[0]] {
				heads[z[0]] = true
				few = append(few, z)
			}
		}
		for _, x := range ones {
			for _, y := range few {
				for _, z := range few {
					f(d, cat(col, x, y, z, end))
					f(d, cat(col, y, x, z, end))
					f(d, cat(col, y, z, x, end))
				}
			}
		}
		e.Group("every type with every column constraint")
		for _, ty := range allForms(d, "type", 1) {
			for _, x := range ones {
				f(d, cat(toks("CREATE TABLE t ( w "+it+" , x"), ty, x, end))
			}
		}
		e.Group("all short lists of table options")
		body, next := toks("CREATE TABLE t ( x "+it+" NOT NULL )"), toks("; CREATE TABLE u ( y "+it+" ) ;")
		for _, o := range allForms(d, "options", 3) {
			f(d, cat(body, o, next))
		}
		e.Group("ordered pairs and triples of the items of a clause's list of options")
		long := ""
		for i := 0; i < 14; i++ {
			long += "c" + strconv.Itoa(i) + " " + it + " NOT NULL , "
		}
		tails := allForms(d, "reftail", e.Pick(3, 4))
		rf := " REFERENCES r ( w )"
		for _, x := range tails {
			f(d, cat(toks("CREATE TABLE t ( x "+it+rf), x, end))
			f(d, cat(toks("CREATE TABLE t ( "+long+"x "+it+rf), x, toks("UNIQUE , y "+it+" CHECK ( y ) ) ;")))
			f(d, cat(toks("CREATE TABLE t ( "+long+"FOREIGN KEY ( x )"+rf), x, end))
			f(d, cat(toks("CREATE TABLE t ( x "+it+" , CONSTRAINT fk FOREIGN KEY ( x , y ) REFERENCES s . r ( w , v )"), x, toks(", UNIQUE ( x ) ) ;")))
		}
		for _, tag := range []string{"indexoption", "indexparams"} {
			for _, x := range allForms(d, tag, e.Pick(3, 4)) {
				heads := []string{"PRIMARY KEY ( x )", "UNIQUE ( x )"}
				if d == MySQL {
					heads = append(heads, voidMark+"INDEX "+voidMark+"( "+voidMark+"x "+voidMark+")", voidMark+"FULLTEXT "+voidMark+"( "+voidMark+"x "+voidMark+")")
				}
				for i, h := range heads {
					f(d, cat(toks("CREATE TABLE t ( x "+it+" , "+h), x, end))
					if i < 2 {
						f(d, cat(toks("CREATE TABLE t ( "+long+h), x, toks(", FOREIGN KEY ( x )"+rf+" ) ;")))
					}
				}
			}
		}
		for _, o := range allForms(d, "options", 2) {
			f(d, cat(toks("CREATE TABLE t ( "+long+"x "+it+" )"), o, next))
		}
		e.Group("pairs of table constraints with all options")
		ts := allForms(d, "tablecon", 0)
		if d == MySQL && len(ts) > 150 {
			var l [][]string
			for i, t := range ts {
				if i%(len(ts)/150+1) == 0 {
					l = append(l, t)
				}
			}
			ts = l
		}
		for _, x := range ts {
			for _, y := range ts {
				f(d, cat(toks("CREATE TABLE t ("), x, toks(","), y, toks(") ;")))
			}
		}
	}
}

func denseDiff(e *Explorer, mask uint32) {
	dense(e, func(d int, ts []string) { e.Diff(d, render(ts, d), mask) })
}

// denseEdits: every single-token edit of dense clauses.
func denseEdits(e *Explorer, subst []string, f func(d int, ts []string)) {
	if e.again("denseEdits") {
		return
	}
	e.Group("single-token edits, and segments doubled or left out, of every table and column constraint with all options")
	for d := 0; d < NDialect; d++ {
		it := intType[d]
		one := func(ts []string, from, to int) {
			r := fill(ts, d)
			for i := from; i < to; i++ {
				f(d, cat(r[:i], r[i+1:]))
				f(d, cat(r[:i], r[i:i+1], r[i:]))
				for _, s := range subst {
					if r[i] != s {
						f(d, cat(r[:i], []string{s}, r[i+1:]))
					}
				}
				if i+1 < to && r[i] != r[i+1] {
					f(d, cat(r[:i], []string{r[i+1], r[i]}, r[i+2:]))
				}
				for j := i + 2; j <= to && j <= i+8; j++ {
					f(d, cat(r[:j], r[i:])) // the segment twice
					f(d, cat(r[:i], r[j:])) // the segment left out
				}
			}
		}
		a, b := toks("CREATE TABLE t ( x "+it+" ,"), toks(", y "+it+" ) ;")
		for _, tc := range allForms(d, "tablecon", [NDialect]int{1, 1, 0}[d]+e.Pick(0, 1)) {
			one(cat(a, tc, b), len(a), len(a)+len(tc)+1)
		}
		a = toks("CREATE TABLE t ( x " + it)
		for _, cc := range allForms(d, "colcon", e.Pick(2, 3)) {
			one(cat(a, cc, b), len(a), len(a)+len(cc)+1)
		}
		a = toks("CREATE TABLE t ( x")
		for _, ty := range allForms(d, "type", 1) {
			one(cat(a, ty, b), len(a), len(a)+len(ty)+1)
		}
		a, b = toks("CREATE TABLE t ( x "+it+" )"), toks(";")
		for _, o := range allForms(d, "options", e.Pick(1, 2)) {
			one(cat(a, o, b), len(a), len(a)+len(o)+1)
		}
		if e.Stopped() {
			return
		}
	}
}

// farEdits: clauses with all options behind many lines and tokens, with one token left out, doubled or replaced.
func farEdits(e *Explorer, mask uint32) {
	if e.again("farEdits") {
		return
	}
	e.Group("edits of every clause behind many columns and lines")
	for d := 0; d < NDialect; d++ {
		it := intType[d]
		pre := "CREATE TABLE t (" + nl800 + repeatJoin(18, " ,\n", func(i int) string { return "c" + strconv.Itoa(i) + " " + it + " NOT NULL" })
		one := func(pre string, ts []string, post string) {
			r := fill(ts, d)
			for i := range r {
				for _, x := range [][]string{nil, {r[i], r[i]}, {"zz"}, {"1"}} {
					e.Diff(d, pre+" "+sp(cat(r[:i], x, r[i+1:]))+" "+post, mask)
				}
			}
		}
		for _, f := range allForms(d, "colcon", e.Pick(2, 3)) {
			one(pre+" , x "+it, f, ", y "+it+" ) ;")
		}
		for _, f := range allForms(d, "tablecon", [NDialect]int{1, 1, 0}[d]) {
			one(pre+" ,", f, ", y "+it+" ) ;")
		}
		for _, f := range allForms(d, "type", 1) {
			one(pre+" , x", f, ", y "+it+" ) ;")
		}
		for _, f := range allForms(d, "options", e.Pick(1, 2)) {
			one(pre+" )", f, "; CREATE TABLE u ( y "+it+" ) ;")
		}
		if e.Stopped() {
			return
		}
	}
}
