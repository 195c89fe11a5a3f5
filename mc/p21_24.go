package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"reflect"
	"strconv"
	"strings"

	ddl "github.com/kodaimura/ddlparse"
)

// ------------------------------------------------------------------------------------------- C21

// judgeConcat: A (complete statements), X[0] (layout), B.
func judgeConcat(w *Worker, c *Case) string {
	refA := w.rp.Parse(c.A, c.D, false)
	if refA.V != Accept {
		return ""
	}
	refB := w.rp.Parse(c.B, c.D, false)
	if refB.V == Unspecified {
		return ""
	}
	ra, rb := w.Parse(c.A, c.D), w.Parse(c.B, c.D)
	if ra.Panic != "" || rb.Panic != "" || ra.Err != nil {
		return ""
	}
	whole := c.A + c.X[0] + c.B
	w.Ref(whole, c.D)
	w.traces++
	r := w.Parse(whole, c.D)
	if r.Panic != "" {
		return "the concatenation panics: " + r.Panic
	}
	if rb.Err == nil {
		if r.Err != nil {
			return "both parts are accepted, their concatenation is rejected: " + clip(r.Err.Error(), 200)
		}
		if !sameTables(r.Tables, append(append([]ddl.Table{}, ra.Tables...), rb.Tables...)) {
			return fmt.Sprintf("tables of the concatenation: %s; of the parts: %s and %s", clip(r.String(), 700), clip(ra.String(), 400), clip(rb.String(), 400))
		}
		return ""
	}
	if r.Err == nil {
		return "the second part is rejected, the concatenation is accepted"
	}
	v, ok := asValidate(rb.Err)
	u, ok2 := asValidate(r.Err)
	if !ok || !ok2 {
		return ""
	}
	shift := strings.Count(c.A+c.X[0], "\n")
	if u.Near != v.Near || u.Line != v.Line+shift {
		return fmt.Sprintf("the second part's error is near %q line %d; in the concatenation, %d lines further down, it is near %q line %d", clip(v.Near, 60), v.Line, shift, clip(u.Near, 60), u.Line)
	}
	return ""
}

func exploreC21(e *Explorer) {
	seps := []string{"", " ", "\n", "\n\n\n", "-- c\n", "/* x\n; */", "\r\n", "\t"}
	n := 0
	put := func(d int, a, b string) {
		e.Emit(Case{K: "concat", D: d, A: a, B: b, X: []string{seps[n%len(seps)]}})
		n++
	}
	every := func(d int, a, b string) {
		for _, s := range seps {
			e.Emit(Case{K: "concat", D: d, A: a, B: b, X: []string{s}})
		}
	}
	defer sourced(e, func(d int, s string) {
		if l := lexModel(s, d); !l.Err && len(l.Toks) > 0 && l.Toks[len(l.Toks)-1].S == ";" && len(lexModel(s+"z", d).Toks) > len(l.Toks) {
			put(d, s, stmts(d)[0])
		}
		put(d, stmts(d)[0], s)
	})
	for d := 0; d < NDialect; d++ {
		ss := stmts(d)
		dd := docs(d)
		var firsts, seconds []string
		firsts = append(firsts, ss...)
		firsts = append(firsts, dd...)
		for i, a := range dd {
			firsts = append(firsts, strings.Join(lexToks(a, d), "\n"), a+" "+ss[i], strings.Repeat(ss[i]+"\n", 3))
		}
		for _, f := range formTexts(d, "other", 1) {
			firsts = append(firsts, "CREATE "+f)
		}
		bodies(d, 1, func(b string) { firsts = append(firsts, "CREATE TRIGGER tr ON t "+b+" ;") })
		firsts = append(firsts, "", "CREATE TABLE t ( x "+intType[d]+" CHECK ( ( x ) ) , CHECK ( f ( x , ( y ) ) ) ) ;")
		e.Group(dialectName[d] + ": pairs of statements and documents, with every layout between")
		for _, a := range firsts {
			if a == "" {
				continue
			}
			for _, b := range firsts {
				every(d, a, b)
			}
		}
		e.Group(dialectName[d] + ": tables over very few names")
		hs, els := coHeaders(d), coElements(d)
		for i, h := range hs {
			for _, a := range els {
				for j, g := range hs {
					if (i+j)%3 != 0 && !e.Thorough() {
						continue
					}
					for _, b := range els {
						put(d, "CREATE TABLE "+h+" ( "+a+" ) ;", "CREATE TABLE "+g+" ( "+b+" ) ;")
					}
				}
			}
		}
		e.Group(dialectName[d] + ": many statements before and after")
		cons, elems, opts := parts(d, 1)
		var tbs []string
		for _, c := range cons {
			tbs = append(tbs, "CREATE TABLE t ( x "+intType[d]+" "+c+" , y "+strType[d]+" ) ;")
		}
		for _, c := range elems {
			tbs = append(tbs, "CREATE TABLE t ( "+c+" , y "+strType[d]+" ) ;")
		}
		for _, c := range opts {
			tbs = append(tbs, "CREATE TABLE t ( y "+strType[d]+" ) "+c+" ;")
		}
		for _, tb := range tbs {
			for k := 1; k <= 40; k = k*3/2 + 1 {
				put(d, strings.Repeat(ss[1]+" ", k), tb)
				put(d, tb, strings.Repeat(ss[3]+"\n", k))
				put(d, strings.Repeat(ss[6]+"\n", k), tb)
				put(d, strings.Repeat(tb, k), tb+tb)
				put(d, strings.Repeat(ss[2]+"\n", k)+tb, "CREATE TABLE t (\n x )")
				gl := glueD(lexToks(tb, d), d)
				put(d, strings.Repeat(ss[1]+" ", k), gl)
				put(d, strings.Repeat(glueD(lexToks(ss[k%len(ss)], d), d)+"\n", k), gl)
				put(d, strings.Repeat(gl, k), gl+ss[k%len(ss)])
				put(d, gl, strings.Repeat(ss[3]+"\n", k)+gl)
			}
		}
		e.Group(dialectName[d] + ": statements followed by derivations")
		tableDocs(d, [NDialect]int{3, 2, 2}[d]+e.Pick(0, 1), func(ts []string) bool {
			b := render(ts, d)
			for _, a := range firsts {
				if a != "" {
					put(d, a, b)
				}
			}
			return !e.Stopped()
		})
		e.Group(dialectName[d] + ": derivations followed by statements")
		tableDocs(d, [NDialect]int{4, 3, 3}[d]+e.Pick(0, 1), func(ts []string) bool {
			a := render(ts, d)
			for i, b := range []string{ss[0], ss[1], ss[3], "x", "CREATE TABLE ( x", "CREATE TABLE t (\n x " + intType[d] + " NOT ) ;", "'", "\n\n)", ss[6]} {
				if i < 4 || e.Thorough() || n%5 == 0 {
					put(d, a, b)
				} else {
					n++
				}
			}
			return !e.Stopped()
		})
		e.Group(dialectName[d] + ": statements followed by ungrammatical texts")
		for _, doc := range append(append([]string{}, dd[:3]...), ss...) {
			ts := lexToks(doc, d)
			for i := 0; i < len(ts); i++ {
				seconds = append(seconds, sp(ts[:i]), strings.Join(ts[:i], "\n"))
			}
			tokenEdits(ts, []string{"x", ","}, func(x []string, at int) {
				if at%3 == 0 {
					seconds = append(seconds, strings.Join(x, "\n"))
				} else {
					seconds = append(seconds, sp(x))
				}
			})
		}
		seconds = append(seconds, garbage...)
		for i, a := range firsts {
			if a == "" || !e.Thorough() && i >= len(ss)+2 && i%6 != 0 {
				continue
			}
			for _, b := range seconds {
				put(d, a, b)
			}
		}
	}
}

// ------------------------------------------------------------------------------------------- C22

type jm = map[string]interface{}

func jStrings(s []string) []interface{} {
	out := []interface{}{}
	for _, x := range s {
		out = append(out, x)
	}
	return out
}

func jRef(r ddl.Reference) jm {
	return jm{"table_name": r.TableName, "column_names": jStrings(r.ColumnNames)}
}

// docJSON: the documented JSON shape of a result, written out by hand.
func docJSON(ts []ddl.Table) []interface{} {
	out := []interface{}{}
	for _, t := range ts {
		cols := []interface{}{}
		for _, c := range t.Columns {
			k := c.Constraint
			cols = append(cols, jm{"name": c.Name,
				"data_type": jm{"name": c.DataType.Name, "digit_n": float64(c.DataType.DigitN), "digit_m": float64(c.DataType.DigitM)},
				"constraint": jm{"name": k.Name, "is_primary_key": k.IsPrimaryKey, "is_unique": k.IsUnique, "is_not_null": k.IsNotNull, "is_autoincrement": k.IsAutoincrement,
					"default": k.Default, "check": k.Check, "collate": k.Collate, "references": jRef(k.References)}})
		}
		pk, uq, ck, fk := []interface{}{}, []interface{}{}, []interface{}{}, []interface{}{}
		for _, x := range t.Constraints.PrimaryKey {
			pk = append(pk, jm{"name": x.Name, "column_names": jStrings(x.ColumnNames)})
		}
		for _, x := range t.Constraints.Unique {
			uq = append(uq, jm{"name": x.Name, "column_names": jStrings(x.ColumnNames)})
		}
		for _, x := range t.Constraints.Check {
			ck = append(ck, jm{"name": x.Name, "expr": x.Expr})
		}
		for _, x := range t.Constraints.ForeignKey {
			fk = append(fk, jm{"name": x.Name, "column_names": jStrings(x.ColumnNames), "references": jRef(x.References)})
		}
		out = append(out, jm{"schema": t.Schema, "name": t.Name, "if_not_exists": t.IfNotExists, "columns": cols,
			"constraints": jm{"primary_key": pk, "unique": uq, "check": ck, "foreign_key": fk}})
	}
	return out
}

// jEqual: equal, where a null stands for an empty list.
func jEqual(want, got interface{}, path string) string {
	switch w := want.(type) {
	case jm:
		g, ok := got.(jm)
		if !ok {
			return fmt.Sprintf("%s: %T instead of an object", path, got)
		}
		for k := range g {
			if _, ok := w[k]; !ok {
				return fmt.Sprintf("%s: undocumented key %q", path, k)
			}
		}
		for k, v := range w {
			gv, ok := g[k]
			if !ok {
				return fmt.Sprintf("%s: key %q is missing", path, k)
			}
			if m := jEqual(v, gv, path+"."+k); m != "" {
				return m
			}
		}
		return ""
	case []interface{}:
		if got == nil && len(w) == 0 {
			return ""
		}
		g, ok := got.([]interface{})
		if !ok || len(g) != len(w) {
			return fmt.Sprintf("%s: %v instead of a list of %d", path, got, len(w))
		}
		for i := range w {
			if m := jEqual(w[i], g[i], path+"["+strconv.Itoa(i)+"]"); m != "" {
				return m
			}
		}
		return ""
	}
	if !reflect.DeepEqual(want, got) {
		return fmt.Sprintf("%s: %#v instead of %#v", path, got, want)
	}
	return ""
}

func judgeJSON(w *Worker, c *Case) string {
	w.Ref(c.A, c.D)
	r := w.Parse(c.A, c.D)
	if r.Err != nil || r.Panic != "" {
		return ""
	}
	w.traces++
	b, err := json.Marshal(r.Tables)
	if err != nil {
		return "cannot be marshalled: " + err.Error()
	}
	var g []interface{}
	if err := json.Unmarshal(b, &g); err != nil {
		return "marshals to invalid JSON: " + err.Error()
	}
	if m := jEqual(docJSON(r.Tables), interface{}(g), "$"); m != "" {
		return clip(m, 400)
	}
	dec := json.NewDecoder(bytes.NewReader(b))
	dec.DisallowUnknownFields()
	var back []ddl.Table
	if err := dec.Decode(&back); err != nil {
		return "cannot be unmarshalled: " + err.Error()
	}
	if !sameTables(back, r.Tables) {
		return fmt.Sprintf("comes back as %s from %s", clip(Res{Tables: back}.String(), 600), clip(r.String(), 600))
	}
	return ""
}

func exploreC22(e *Explorer) {
	put := func(d int, s string) { e.Emit(Case{K: "json", D: d, A: s}) }
	rich(e, put)
	dense(e, func(d int, ts []string) { put(d, render(ts, d)) })
	e.Group("derivations")
	for d := 0; d < NDialect; d++ {
		for _, s := range append(docs(d), stmts(d)...) {
			put(d, s)
		}
		put(d, "")
		tableDocs(d, generalK(e)[d], func(ts []string) bool {
			put(d, render(ts, d))
			return !e.Stopped()
		})
	}
	e.Group("default literals")
	for d := 0; d < NDialect; d++ {
		for _, sg := range []string{"", "-", "+"} {
			for _, ip := range []string{"0", "1", "42", "9007199254740993", "123456789012345678901234567890", "00"} {
				for _, fp := range []string{"", ".0", ".1", ".30000000000000004"} {
					for _, ex := range []string{"", "e0", "e21", "E-7", "e308", "e309", "e400", "e-400", "e99999"} {
						put(d, "CREATE TABLE t ( x "+intType[d]+" DEFAULT "+sg+ip+fp+ex+" ) ;")
					}
				}
			}
		}
		for _, w := range []string{"NULL", "TRUE", "FALSE", "CURRENT_DATE", "current_timestamp", "NaN", "nan", "Inf", "inf", "Infinity", "-inf", "+Infinity", "0x1p-2", "0x1F", "1_0", "'NaN'", "( NaN )"} {
			put(d, "CREATE TABLE t ( x "+intType[d]+" DEFAULT "+w+" NOT NULL , y "+intType[d]+" DEFAULT "+w+" ) ;")
		}
	}
	e.Group("texts with characters that JSON escapes")
	odd := append(append([]string{}, quotedWords...), "<b>&amp;</b>", "\u2028\u2029", "\x01\x02\x7f", "\\u0041", "\"'", "tab\there", "\ufffd", "𝄞", "\b\f", "{\"a\":1}", "null", "[]", "</script>")
	for d := 0; d < NDialect; d++ {
		for _, p := range quotePlaces(d) {
			for _, q := range quotesFor(d, p.kind) {
				for _, s := range odd {
					if !strings.ContainsRune(s, q) {
						put(d, p.a+string(q)+s+string(q)+p.b)
					}
				}
			}
		}
	}
	e.Group("element sequences")
	for d := 0; d < NDialect; d++ {
		els := elements(d)
		sequences(len(els), e.Pick(3, 4), func(ix []int) {
			var l []string
			for _, i := range ix {
				l = append(l, els[i])
			}
			put(d, "CREATE TABLE t ( "+strings.Join(l, " , ")+" ) ;")
		})
		ss := stmts(d)
		sequences(len(ss), 3, func(ix []int) {
			s := ""
			for _, i := range ix {
				s += ss[i] + " "
			}
			put(d, s)
		})
	}
}

// ------------------------------------------------------------------------------------------- C23

func exploreC23(e *Explorer) {
	mask := fPanic | fAcc | fRej | fTables
	each := func(s string) {
		for d := 0; d < NDialect; d++ {
			if e.Dedup(d, s) {
				e.Diff(d, s, mask)
			}
		}
	}
	e.Group("every dialect's derivations, read in every dialect")
	for d := 0; d < NDialect; d++ {
		tableDocs(d, [NDialect]int{5, 3, 3}[d]+e.Pick(0, 1), func(ts []string) bool {
			each(render(ts, d))
			return !e.Stopped()
		})
		for _, s := range append(docs(d), stmts(d)...) {
			each(s)
			each(strings.TrimSuffix(s, ";"))
		}
		for _, s := range formTexts(d, "statement", 3) {
			each(s)
		}
	}
	dense(e, func(d int, ts []string) { each(render(ts, d)) })
	foreign(e, otherVocab, mask)
	odd(e, func(d int, s string) { e.Diff(d, s, mask) })
	denseEdits(e, []string{"x", ",", "1"}, func(d int, ts []string) { e.Diff(d, sp(ts), mask) })
	e.Group("every dialect's parts in a neutral frame")
	for d := 0; d < NDialect; d++ {
		for _, t := range formTexts(d, "type", 4) {
			each("CREATE TABLE t ( x " + t + " ) ;")
			each("CREATE TABLE t ( y TEXT NOT NULL , x " + t + " UNIQUE ) ;")
		}
		for _, f := range forms(d, "colcon", 3) {
			r := render(f, d)
			each("CREATE TABLE t ( x TEXT " + r + " ) ;")
			each("CREATE TABLE t ( x INTEGER " + r + " NOT NULL , y TEXT ) ;")
			each("CREATE TABLE t ( x INTEGER UNIQUE " + r + " , y TEXT ) ;")
		}
		for _, f := range forms(d, "tablecon", 3) {
			each("CREATE TABLE t ( x TEXT , " + render(f, d) + " ) ;")
			each("CREATE TABLE t ( " + render(f, d) + " , x INTEGER ) ;")
		}
		for _, f := range forms(d, "options", 3) {
			each("CREATE TABLE t ( x TEXT ) " + render(f, d) + " ;")
		}
	}
	e.Group("pairs of parts of different dialects")
	var parts []string
	seen := map[string]bool{}
	for d := 0; d < NDialect; d++ {
		for _, f := range forms(d, "colcon", 1) {
			if r := render(f, d); !seen[r] {
				seen[r] = true
				parts = append(parts, r)
			}
		}
	}
	for _, a := range parts {
		for _, b := range parts {
			each("CREATE TABLE t ( x TEXT " + a + " " + b + " ) ;")
			each("CREATE TABLE t ( x TEXT " + a + " , y INTEGER " + b + " ) ;")
		}
	}
	e.Group("vocabulary of all dialects in every place of the grammar")
	var words []string
	ws := map[string]bool{}
	for d := 0; d < NDialect; d++ {
		for _, t := range vocabulary(d) {
			if !ws[t.S] {
				ws[t.S] = true
				words = append(words, t.S)
			}
		}
	}
	for _, w := range []string{"# x", "#", "`q`", "\"q\"", "'q'", "UNSIGNED", "ZEROFILL", "AUTOINCREMENT", "ILIKE", "DATETIME", "ENUM", "NVARCHAR", "ROWID"} {
		if !ws[w] {
			ws[w] = true
			words = append(words, w)
		}
	}
	for d := 0; d < NDialect; d++ {
		g := getGraph(d, 0, 1)
		for i := range g.nodes {
			if g.nodes[i].bounded {
				continue
			}
			c, ok := g.completion(i)
			if !ok {
				continue
			}
			p := sp(g.path(i))
			for _, w := range words {
				e.Diff(d, p+" "+w+"\n"+sp(c), mask)
			}
			if e.Stopped() {
				return
			}
		}
	}
	rich(e, func(d int, s string) { e.Diff(d, s, mask) })
	e.Group("texts that several dialects read, differently")
	mixedReadings(each)
	laidOut(e, func(d int, s string) { each(s) })
	named(e, func(d int, s string) { each(s) })
	e.Group("a number sign and every character at every gap")
	for d := 0; d < NDialect; d++ {
		for k, doc := range []string{docs(d)[0], docs(d)[3]} {
			ts := lexToks(doc, d)
			for i := 0; i <= len(ts); i++ {
				for r := rune(0x20); r < 0x7f; r++ {
					if k > 0 && (r >= 'b' && r <= 'z' || r >= 'B' && r <= 'Z' || r >= '2' && r <= '9') {
						continue
					}
					for _, g := range []string{" ", "\n", ""} {
						e.Diff(d, sp(ts[:i])+g+"#"+string(r)+"\n"+sp(ts[i:]), mask)
						e.Diff(d, sp(ts[:i])+g+"#"+string(r)+" "+sp(ts[i:]), mask)
					}
				}
			}
		}
	}
	e.Group("quotes and comments")
	for _, q := range []string{"'", "\"", "`"} {
		for _, s := range []string{"x", "x y", "select", "", "1", "NULL", "#", "--", "it"} {
			t := q + s + q
			for d := 0; d < NDialect; d++ {
				for _, p := range quotePlaces(d) {
					each(p.a + t + p.b)
				}
			}
			for d := 0; d < NDialect; d++ {
				for _, f := range []string{"TEXT", "INTEGER", "INT"} {
					each("CREATE TABLE " + t + " ( " + t + " " + f + " DEFAULT " + t + " ) ;")
					each("CREATE TABLE t ( x " + f + " DEFAULT " + t + " , UNIQUE ( " + t + " ) ) ;")
					each("CREATE TABLE t ( x " + f + " COMMENT " + t + " ) ;")
				}
			}
		}
	}
	for d := 0; d < NDialect; d++ {
		for _, doc := range docs(d) {
			ts := lexToks(doc, d)
			for i := 0; i <= len(ts); i++ {
				for _, c := range []string{"# c\n", "#\n", "-- c\n", "//\n", "/* c */", "--c\n", "#"} {
					each(sp(ts[:i]) + " " + c + sp(ts[i:]))
					each(sp(ts[:i]) + c + sp(ts[i:]))
				}
			}
		}
	}
}

// ------------------------------------------------------------------------------------------- C24

func repeatJoin(n int, sep string, f func(i int) string) string {
	var b strings.Builder
	for i := 0; i < n; i++ {
		if i > 0 {
			b.WriteString(sep)
		}
		b.WriteString(f(i))
	}
	return b.String()
}

// dim is one way of growing.
type dim struct {
	name string
	mk   func(d, n int) string
	max  int // exhaustive up to
	ext  []int
	mask uint32
}

const (
	sizeMask = fPanic | fAcc | fTables
	sizeErrs = sizeMask | fErr | fRej
)

func sizeDims() []dim {
	mask, errs := sizeMask, sizeErrs
	part := []int{127, 128, 129, 199, 200, 201, 255, 256, 257, 300, 499, 500, 511, 512, 513, 600, 700, 800, 900, 999, 1000, 1001, 1023, 1024, 1025}
	big := append(append([]int{}, part...), 1601, 2001, 2049, 4097, 10001)
	many := append(append([]int{}, big...), 5000, 8193, 16385, 32769, 65537) // of what is not handled in quadratic time
	huge := append(append([]int{}, part...), 1500, 2000, 2047, 2048, 2049, 3000, 4095, 4096, 4097, 5000)
	chars := append(append([]int{}, huge...), 8191, 8192, 8193, 9999, 10000, 10001, 16383, 16384, 16385, 32767, 32768, 65535, 65536, 65537, 70000, 100000)
	num := strconv.Itoa
	col := func(i int) string { return "c" + num(i) }
	return []dim{
		{"statements", func(d, n int) string {
			return repeatJoin(n, "\n", func(i int) string { return "CREATE TABLE t" + num(i) + " ( x" + num(i) + " " + intType[d] + " ) ;" })
		}, 130, many, mask},
		{"other statements before a table", func(d, n int) string {
			return repeatJoin(n, " ", func(i int) string { return "CREATE INDEX i" + num(i) + " ON t ( x ) ;" }) + " CREATE TABLE t ( x " + intType[d] + " ) ;"
		}, 130, many, mask},
		{"columns", func(d, n int) string {
			return "CREATE TABLE t ( " + repeatJoin(n, " , ", func(i int) string {
				s := col(i) + " " + intType[d]
				if i%3 == 1 {
					s += " NOT NULL"
				}
				if i%5 == 2 {
					s += " DEFAULT " + num(i)
				}
				return s
			}) + " ) ;"
		}, 130, many, mask},
		{"plain columns", func(d, n int) string {
			return "CREATE TABLE t (" + repeatJoin(n, ",", func(i int) string { return col(i) + " " + strType[d] }) + ");"
		}, 130, many, mask},
		{"primary key columns", func(d, n int) string {
			return "CREATE TABLE t ( PRIMARY KEY ( " + repeatJoin(n, " , ", col) + " ) ) ;"
		}, 130, many, mask},
		{"unique columns", func(d, n int) string {
			return "CREATE TABLE t ( x " + intType[d] + " , CONSTRAINT u UNIQUE ( " + repeatJoin(n, " , ", col) + " ) ) ;"
		}, 130, many, mask},
		{"foreign key columns", func(d, n int) string {
			return "CREATE TABLE t ( FOREIGN KEY ( " + repeatJoin(n, " , ", col) + " ) REFERENCES r ( " + repeatJoin(n, " , ", col) + " ) ) ;"
		}, 130, many, mask},
		{"unique constraints", func(d, n int) string {
			return "CREATE TABLE t ( x " + intType[d] + " , " + repeatJoin(n, " , ", func(i int) string { return "CONSTRAINT u" + num(i) + " UNIQUE ( " + col(i) + " )" }) + " ) ;"
		}, 130, many, mask},
		{"primary keys", func(d, n int) string {
			return "CREATE TABLE t ( " + repeatJoin(n, " , ", func(i int) string { return "PRIMARY KEY ( " + col(i) + " )" }) + " ) ;"
		}, 70, part[:8], mask},
		{"check constraints", func(d, n int) string {
			return "CREATE TABLE t ( x " + intType[d] + " , " + repeatJoin(n, " , ", func(i int) string { return "CHECK ( " + col(i) + " > " + num(i) + " )" }) + " ) ;"
		}, 130, many, mask},
		{"foreign keys", func(d, n int) string {
			return "CREATE TABLE t ( x " + intType[d] + " , " + repeatJoin(n, " , ", func(i int) string {
				return "FOREIGN KEY ( " + col(i) + " ) REFERENCES r" + num(i) + " ( k1 ) ON DELETE CASCADE"
			}) + " ) ;"
		}, 130, many, mask},
		{"columns with references", func(d, n int) string {
			return "CREATE TABLE t ( " + repeatJoin(n, " , ", func(i int) string {
				return col(i) + " " + intType[d] + " CHECK ( " + col(i) + " > 0 ) REFERENCES r" + num(i) + " ( w" + num(i) + " )"
			}) + " ) ;"
		}, 70, part[:12], mask},
		{"nested brackets", func(d, n int) string {
			return "CREATE TABLE t ( x " + intType[d] + " CHECK ( " + strings.Repeat("( ", n) + "x" + strings.Repeat(" )", n) + " ) , y " + intType[d] + " ) ;"
		}, 200, huge, mask},
		{"nested brackets in a default", func(d, n int) string {
			return "CREATE TABLE t ( x " + intType[d] + " DEFAULT " + strings.Repeat("(", n) + "x" + strings.Repeat(")", n) + " NOT NULL ) ;"
		}, 200, huge, mask},
		{"expression items", func(d, n int) string {
			return "CREATE TABLE t ( x " + intType[d] + " , CHECK ( x IN ( " + repeatJoin(n, " , ", num) + " ) ) ) ;"
		}, 200, huge, mask},
		{"expression words", func(d, n int) string {
			return "CREATE TABLE t ( x " + intType[d] + " CHECK ( " + repeatJoin(n, " OR ", func(i int) string { return "x = " + num(i) }) + " ) ) ;"
		}, 130, big, mask},
		{"name length", func(d, n int) string {
			s := strings.Repeat("n", n+1)
			return "CREATE TABLE " + s + "1 . " + s + "2 ( " + s + "3 " + intType[d] + " CONSTRAINT " + s + "4 CHECK ( " + s + "5 ) , CONSTRAINT " + s + "6 UNIQUE ( " + s + "7 ) , FOREIGN KEY ( " + s + "8 ) REFERENCES " + s + "9 ( " + s + " ) ) ;"
		}, 300, chars, mask},
		{"length of other names", func(d, n int) string {
			s := strings.Repeat("n", n+1)
			r := "CREATE TABLE t ( x " + strType[d] + " CONSTRAINT " + s + "1 NOT NULL COLLATE " + map[int]string{SQLite: "NOCASE", Postgres: s, MySQL: s}[d] + " REFERENCES " + s + "2 . " + s + "3 ( " + s + "4 ) , y " + intType[d] + " DEFAULT ( " + s + " ) , CONSTRAINT " + s + "5 PRIMARY KEY ( " + s + "6 , " + s + "7 ) , CONSTRAINT " + s + "8 CHECK ( " + s + " ) , CONSTRAINT " + s + "9 FOREIGN KEY ( " + s + "1 , " + s + "2 ) REFERENCES " + s + "3 . " + s + "4 ( " + s + "5 , " + s + "6 ) ) ;"
			if d == MySQL {
				r = strings.Replace(r, "CONSTRAINT "+s+"1 NOT NULL", "NOT NULL", 1)
			} else if d == Postgres {
				r = strings.Replace(r, " COLLATE "+s, "", 1)
			}
			return r
		}, 130, part, mask},
		{"length of a refused string", func(d, n int) string {
			return "CREATE TABLE t (\n x\n '" + strings.Repeat("s", n) + "' ) ;"
		}, 130, part, errs},
		{"quoted name length", func(d, n int) string {
			q := identQuote[d][:1]
			s := q + strings.Repeat("n ", n) + "e" + q
			return "CREATE TABLE " + s + " ( " + s + " " + intType[d] + " , PRIMARY KEY ( " + s + " ) ) ;"
		}, 300, chars[:34], mask},
		{"string length", func(d, n int) string {
			return "CREATE TABLE t ( x " + strType[d] + " DEFAULT '" + strings.Repeat("s", n) + "' , y " + strType[d] + " CHECK ( y <> '" + strings.Repeat("(", n) + "' ) ) ;"
		}, 300, chars, mask},
		{"block comment length", func(d, n int) string {
			return "CREATE TABLE t ( x /*" + strings.Repeat("x", n) + "*/ " + intType[d] + " /*" + strings.Repeat("\n", n) + "*/ ) ;"
		}, 300, chars, mask},
		{"line comment length", func(d, n int) string {
			return "CREATE TABLE t ( x -- " + strings.Repeat("x ", n) + "\n " + intType[d] + " ) ; --" + strings.Repeat("-", n)
		}, 300, chars, mask},
		{"number of comments", func(d, n int) string {
			return strings.Repeat("-- c\n", n) + "CREATE TABLE t ( x " + strings.Repeat("/* c */", n) + intType[d] + strings.Repeat(" -- c\n /**/", n) + " ) ;"
		}, 150, huge, mask},
		{"blanks", func(d, n int) string {
			return strings.Repeat("\n", n) + "CREATE" + strings.Repeat(" ", n+1) + "TABLE t (" + strings.Repeat("\t", n) + "x " + intType[d] + strings.Repeat("\r\n", n) + ") ;"
		}, 200, chars, mask},
		{"error line after line breaks", func(d, n int) string {
			return strings.Repeat("\n", n) + "CREATE TABLE t ( x " + strings.Repeat("\n", n) + "y ) ;"
		}, 300, chars, errs},
		{"line of a broken token after line breaks", func(d, n int) string {
			return strings.Repeat("\n", n) + "CREATE TABLE t ( x */ " + intType[d] + " ) ;"
		}, 300, chars, errs},
		{"line of an error after a comment of many lines", func(d, n int) string {
			return "/*" + strings.Repeat("\n", n) + "*/ CREATE TABLE t ( x\n ) ;"
		}, 300, chars, errs},
		{"line of an error after a string of many lines", func(d, n int) string {
			return "CREATE TABLE t ( x " + strType[d] + " DEFAULT '" + strings.Repeat("\n", n) + "' , ) ;"
		}, 300, chars, errs},
		{"line of an error after many comments", func(d, n int) string {
			return strings.Repeat("--\n", n) + "CREATE TABLE t ( x */ ) ;"
		}, 300, chars, errs},
		{"line of an error after a skipped statement", func(d, n int) string {
			return "CREATE VIEW v AS SELECT" + strings.Repeat(" x\n", n) + "; CREATE TABLE t ( x , ) ;"
		}, 300, chars, errs},
		{"line of an error after an expression", func(d, n int) string {
			return "CREATE TABLE t ( x " + intType[d] + " CHECK (" + strings.Repeat(" x\n", n+1) + ") , ) ;"
		}, 300, chars[:40], errs},
		{"error after statements", func(d, n int) string {
			return strings.Repeat("CREATE TABLE t ( x "+intType[d]+" ) ;\n", n) + "CREATE TABLE t ( x ) ;"
		}, 130, many, errs},
		{"error after columns", func(d, n int) string {
			return "CREATE TABLE t ( " + repeatJoin(n, " ,\n", func(i int) string { return col(i) + " " + intType[d] }) + "\n, x ) ;"
		}, 130, many, errs},
		{"error inside a long list", func(d, n int) string {
			return "CREATE TABLE t ( PRIMARY KEY ( " + repeatJoin(n+1, " , ", col) + " , ) ) ;"
		}, 130, many, errs},
		{"error after a long name", func(d, n int) string {
			return "CREATE TABLE " + strings.Repeat("n", n+1) + " ( x 9" + strings.Repeat("z", n) + " ) ;"
		}, 130, big, errs},
		{"skipped statement length", func(d, n int) string {
			return "CREATE VIEW v AS SELECT " + repeatJoin(n+1, " , ", col) + " ; CREATE TABLE t ( x " + intType[d] + " ) ;"
		}, 150, huge, mask},
		{"body statements", func(d, n int) string {
			return "CREATE TRIGGER tr BEGIN " + strings.Repeat("SELECT 1 ; ", n) + "END ; CREATE TABLE t ( x " + intType[d] + " ) ;"
		}, 150, huge, mask},
		{"nested body blocks", func(d, n int) string {
			return "CREATE TRIGGER tr " + strings.Repeat("BEGIN SELECT CASE x WHEN 1 THEN 2 END ; ", n+1) + strings.Repeat("END ; ", n+1) + "CREATE TABLE t ( x " + intType[d] + " ) ;"
		}, 100, big, mask},
	}
}

// straddle: every token of a document lying across every likely buffer boundary, counted in characters and
// in tokens.
func straddle(e *Explorer, f func(d int, s string)) {
	if e.again("straddle") {
		return
	}
	e.Group("every token at every power-of-two offset")
	for d := 0; d < NDialect; d++ {
		doc := docs(d)[2]
		bad := docs(d)[0] + " CREATE TABLE t ( x ) ;"
		for b := 64; b <= e.Pick(4096, 65536); b *= 2 {
			for _, s := range []string{doc, bad} {
				for n := max(0, b-len(s)); n <= b+1; n++ {
					f(d, strings.Repeat(" ", n)+s)
					if n >= 5 && (b <= 1024 || e.Thorough()) {
						f(d, "/*"+strings.Repeat("x", n-4)+"*/"+s)
						f(d, strings.Repeat("\n", n)+s)
					}
				}
			}
		}
	}
	e.Group("a document behind every number of tokens")
	for d := 0; d < NDialect; d++ {
		doc := docs(d)[2]
		bad := " CREATE TABLE t ( x ) ;"
		for n := 1; n <= e.Pick(1100, 4200); n++ {
			f(d, "CREATE VIEW v"+strings.Repeat(" y", n)+" ; "+doc)
			f(d, "CREATE TABLE z ( x "+intType[d]+" CHECK ("+strings.Repeat(" y", n)+" ) ) ; "+doc)
			f(d, "CREATE TABLE z ( x "+intType[d]+" CHECK ("+strings.Repeat(" y", n)+" ) ) ; "+bad)
		}
	}
}

// sized: every way of growing, up to moderate sizes.
func sized(e *Explorer, f func(d int, s string)) {
	if e.again("sized") {
		return
	}
	e.Group("growing in every way")
	for _, dm := range sizeDims() {
		for d := 0; d < NDialect; d++ {
			for n := 1; n <= e.Pick(48, 130); n++ {
				f(d, dm.mk(d, n))
			}
			for _, n := range []int{63, 64, 65, 99, 100, 101, 127, 128, 129, 199, 255, 256, 257, 300, 512, 1000, 1024} {
				if n > 48 && (n <= dm.ext[len(dm.ext)-1]) {
					f(d, dm.mk(d, n))
				}
			}
		}
	}
}

func exploreC24(e *Explorer) {
	mask := sizeMask
	num := strconv.Itoa
	col := func(i int) string { return "c" + num(i) }
	dims := sizeDims()
	for _, dm := range dims {
		e.Group(dm.name)
		for d := 0; d < NDialect; d++ {
			for n := 1; n <= dm.max*e.Pick(1, 2); n++ {
				e.Diff(d, dm.mk(d, n), dm.mask)
			}
			list := len(dm.ext) > 0 && dm.ext[len(dm.ext)-1] == 65537
			for _, n := range srcSizes(e.Pick(20000, 70000)) {
				if n > dm.max && (n < 5000 || list || dm.mask == sizeErrs) {
					e.Diff(d, dm.mk(d, n), dm.mask)
				}
			}
			for _, n := range dm.ext {
				if n > dm.max && (n < 33000 || list || e.Thorough() || dm.name == "string length" || strings.Contains(dm.name, "line")) {
					e.Diff(d, dm.mk(d, n), dm.mask)
				}
			}
		}
	}
	for d := 0; d < NDialect; d++ {
		for _, dm := range dims[:3] {
			e.Group(dm.name)
			e.Diff(d, dm.mk(d, 70001), dm.mask)
		}
	}
	straddle(e, func(d int, s string) { e.Diff(d, s, sizeErrs) })
	defer sourced(e, func(d int, s string) { e.Diff(d, s, mask) })
	crowded(e, func(d int, s string) { e.Diff(d, s, mask) })
	e.Group("type parameters and digits")
	for d := 0; d < NDialect; d++ {
		if d == SQLite {
			continue
		}
		ty := []string{"VARCHAR ( %s )", "CHAR ( %s )", "NUMERIC ( %s )", "DECIMAL ( 9 , %s )"}
		if d == MySQL {
			ty = append(ty, "INT ( %s )", "BINARY ( %s )", "FLOAT ( %s , 2 )", "TEXT ( %s )")
		} else {
			ty = append(ty, "BIT ( %s )", "TIMESTAMP ( %s )", "CHARACTER VARYING ( %s )")
		}
		for i, t := range ty {
			top := e.Pick(2100, 20000)
			if i > 0 {
				top = e.Pick(300, 2000)
			}
			for n := 1; n <= top; n++ {
				e.Diff(d, "CREATE TABLE t ( x "+strings.Replace(t, "%s", num(n), 1)+" ) ;", mask)
			}
			for k := uint(8); k < 59; k++ {
				for _, o := range []int64{-1, 0, 1} {
					e.Diff(d, "CREATE TABLE t ( x "+strings.Replace(t, "%s", strconv.FormatInt(int64(1)<<k+o, 10), 1)+" ) ;", mask)
				}
			}
			p := int64(1)
			for k := 0; k < 17; k++ {
				p *= 10
				for _, o := range []int64{-1, 0, 1} {
					e.Diff(d, "CREATE TABLE t ( x "+strings.Replace(t, "%s", strconv.FormatInt(p+o, 10), 1)+" ) ;", mask)
				}
			}
		}
	}
	e.Group("numeric defaults")
	for d := 0; d < NDialect; d++ {
		for n := 1; n <= 40; n++ {
			for _, s := range []string{strings.Repeat("9", n), "1" + strings.Repeat("0", n), "0." + strings.Repeat("3", n), "-" + strings.Repeat("7", n) + "." + strings.Repeat("1", n), "1e" + num(n), "1.5E-" + num(n), strings.Repeat("0", n) + "5"} {
				e.Diff(d, "CREATE TABLE t ( x "+intType[d]+" DEFAULT "+s+" ) ;", mask)
			}
		}
		for k := uint(0); k < 63; k++ {
			for _, o := range []int64{-1, 0, 1} {
				e.Diff(d, "CREATE TABLE t ( x "+intType[d]+" DEFAULT "+strconv.FormatInt(int64(1)<<k+o, 10)+" , y "+intType[d]+" DEFAULT -"+strconv.FormatInt(int64(1)<<k+o, 10)+" ) ;", mask)
			}
		}
	}
	e.Group("table options")
	for n := 1; n <= 200; n++ {
		e.Diff(MySQL, "CREATE TABLE t ( x INT ) "+strings.Repeat("ENGINE = InnoDB COMMENT 'c' ", n)+"; CREATE TABLE u ( y INT ) ;", mask)
		e.Diff(MySQL, "CREATE TABLE t ( x INT ) UNION ( "+repeatJoin(n, " , ", col)+" ) ;", mask)
		e.Diff(MySQL, "CREATE TABLE t ( x INT , "+repeatJoin(n, " , ", func(i int) string { return "INDEX i" + num(i) + " ( x )" })+" , y INT ) ;", mask)
		e.Diff(MySQL, "CREATE TABLE t ( x INT , INDEX i1 ( "+repeatJoin(n, " , ", col)+" ) , y INT ) ;", mask)
		e.Diff(Postgres, "CREATE TABLE t ( x INT ) "+strings.Repeat("TABLESPACE ts WITH ( f = 1 ) ", n)+"; CREATE TABLE u ( y INT ) ;", mask)
		e.Diff(Postgres, "CREATE TABLE t ( x INT , "+repeatJoin(n, " , ", func(i int) string { return "EXCLUDE ( x WITH = )" })+" , y INT ) ;", mask)
		e.Diff(Postgres, "CREATE TABLE t ( x INT , UNIQUE ( x ) INCLUDE ( "+repeatJoin(n, " , ", col)+" ) , y INT ) ;", mask)
		e.Diff(SQLite, "CREATE TABLE t ( x TEXT REFERENCES r ( k1 ) "+strings.Repeat("ON DELETE CASCADE ", n)+" NOT NULL , y TEXT ) ;", mask)
	}
	e.Group("two sizes at once")
	for d := 0; d < NDialect; d++ {
		for n := 1; n <= e.Pick(12, 24); n++ {
			for m := 1; m <= e.Pick(12, 24); m++ {
				e.Diff(d, repeatJoin(n, " ", func(i int) string {
					return "CREATE TABLE t" + num(i) + " ( " + repeatJoin(m, " , ", func(j int) string { return col(j) + " " + intType[d] + " NOT NULL" }) + " ) ;"
				}), mask)
				e.Diff(d, "CREATE TABLE t ( "+repeatJoin(n, " , ", func(i int) string { return col(i) + " " + intType[d] })+" , "+repeatJoin(m, " , ", func(j int) string { return "CONSTRAINT k" + num(j) + " UNIQUE ( " + col(j) + " )" })+" ) ;", mask)
				e.Diff(d, "CREATE TABLE t ( "+repeatJoin(n, " , ", func(i int) string { return "UNIQUE ( " + repeatJoin(m, " , ", col) + " )" })+" ) ;", mask)
				e.Diff(d, "CREATE TABLE t ( "+repeatJoin(n, " , ", func(i int) string {
					return col(i) + " " + intType[d] + " CHECK ( " + strings.Repeat("( ", m) + col(i) + strings.Repeat(" )", m) + " )"
				})+" ) ;", mask)
			}
		}
	}
}

func init() {
	register(&Check{ID: "C21", Explore: exploreC21, Judges: map[string]func(*Worker, *Case) string{"concat": judgeConcat}, Rule: "the result of a concatenation is compared with the results of its parts"})
	register(&Check{ID: "C22", Explore: exploreC22, Judges: map[string]func(*Worker, *Case) string{"json": judgeJSON}, Rule: "every accepted text's result is marshalled, compared with the documented shape, and read back"})
	register(&Check{ID: "C23", Explore: exploreC23, Rule: "every text is read in every dialect and compared with that dialect's model"})
	register(&Check{ID: "C24", Explore: exploreC24, Rule: "every size up to a limit, and sizes around powers of two and ten beyond it, compared with the model"})
}
