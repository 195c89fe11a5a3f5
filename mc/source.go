package main

import (
	"go/ast"
	"go/parser"
	"go/token"
	"io/fs"
	"path/filepath"
	"slices"
	"sort"
	"strconv"
	"strings"
)

// Constants of the code under check.  They only widen the alphabets of the enumerations: a text or number
// that the code names is where it can behave specially.  What is right is still decided by the model alone.

var (
	srcWords []string // plain words: they can be names
	srcTexts []string // other texts
	srcInts  []int
)

func loadSource() {
	known := map[string]bool{} // everywhere
	for d := 0; d < NDialect; d++ {
		for _, t := range vocabulary(d) {
			known[strings.ToUpper(t.S)] = true
		}
	}
	listed := map[string]bool{} // in lists of words
	for _, l := range [][]string{reservedSQLite, reservedMySQL, reservedPostgreSQL, sqlWords} {
		for _, w := range l {
			listed[w] = true
		}
	}
	words, texts, ints := map[string]bool{}, map[string]bool{}, map[int]bool{}
	addText := func(s string, inFunc bool) {
		if s == "" || len(s) > 60 {
			return
		}
		if isPlainWord(s) {
			if u := strings.ToUpper(s); !known[u] && (inFunc || !listed[u]) {
				words[s] = true
			}
		} else if !strings.Contains(s, "%") && !strings.Contains(s, "/ddlparse") {
			texts[s] = true
		}
	}
	addInt := func(n int64) {
		if n > 3 && n <= 1<<40 {
			ints[int(n)] = true
		}
	}
	fset := token.NewFileSet()
	filepath.WalkDir(repoDir(), func(p string, de fs.DirEntry, err error) error {
		if err != nil {
			return nil
		}
		if de.IsDir() {
			if n := de.Name(); p != repoDir() && (strings.HasPrefix(n, ".") || n == "test" || n == "testdata" || n == "vendor") {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		f, err := parser.ParseFile(fset, p, nil, 0)
		if err != nil {
			return nil
		}
		for _, dcl := range f.Decls {
			_, inFunc := dcl.(*ast.FuncDecl)
			if g, ok := dcl.(*ast.GenDecl); ok && (g.Tok == token.IMPORT || g.Tok == token.TYPE) {
				continue
			}
			ast.Inspect(dcl, func(n ast.Node) bool {
				switch x := n.(type) {
				case *ast.BasicLit:
					switch x.Kind {
					case token.STRING:
						if s, err := strconv.Unquote(x.Value); err == nil {
							addText(s, inFunc)
						}
					case token.CHAR:
						if s, err := strconv.Unquote(x.Value); err == nil {
							addText(s, inFunc)
						}
					case token.INT:
						if v, err := strconv.ParseInt(x.Value, 0, 64); err == nil {
							addInt(v)
						}
					case token.FLOAT:
						if v, err := strconv.ParseFloat(x.Value, 64); err == nil && v < 1<<40 {
							addInt(int64(v))
						}
					}
				case *ast.BinaryExpr:
					a, ok1 := x.X.(*ast.BasicLit)
					b, ok2 := x.Y.(*ast.BasicLit)
					if ok1 && ok2 && a.Kind == token.INT && b.Kind == token.INT {
						u, _ := strconv.ParseInt(a.Value, 0, 64)
						v, _ := strconv.ParseInt(b.Value, 0, 64)
						switch x.Op {
						case token.SHL:
							if v < 41 {
								addInt(u << uint(v))
							}
						case token.MUL:
							addInt(u * v)
						case token.ADD:
							addInt(u + v)
						}
					}
				}
				return true
			})
		}
		return nil
	})
	for w := range words {
		srcWords = append(srcWords, w)
	}
	for w := range texts {
		srcTexts = append(srcTexts, w)
	}
	for n := range ints {
		srcInts = append(srcInts, n)
	}
	sort.Strings(srcWords)
	sort.Strings(srcTexts)
	sort.Ints(srcInts)
	const limit = 150
	srcWords = srcWords[:min(len(srcWords), limit)]
	srcTexts = srcTexts[:min(len(srcTexts), limit)]
	srcInts = srcInts[:min(len(srcInts), limit)]
}

// plain names around a word, and other contents around a text
func around(w string) []string {
	return []string{w, strings.ToLower(w), strings.ToUpper(w), alternate(w, 0), w + "x", "x" + w, w + "_x", "x_" + w, w + "1", "x" + w + "x", w + w}
}

// srcContents: contents of quoted texts and comments, made of what the code names.
func srcContents() []string {
	var out []string
	for _, w := range append(append([]string{}, srcWords...), srcTexts...) {
		out = append(out, w, strings.ToLower(w), strings.ToUpper(w), "x"+w, w+"x", "x "+w+" y", w+w, w+"\n"+w, "\n"+w+"\n")
	}
	for _, n := range srcInts {
		out = append(out, strconv.Itoa(n), strconv.Itoa(n-1), strconv.Itoa(n+1))
	}
	return out
}

// srcSizes: sizes that a number in the code can be the limit of, counted in whatever unit; far out only
// the number itself and what is next to it, and few of them.
func srcSizes(limit int) []int {
	seen := map[int]bool{}
	var out []int
	for _, n := range srcInts {
		for k := 1; k <= 8; k++ {
			for j := -2; j <= 2; j++ {
				v := n/k + j
				if v <= 0 || v > limit || seen[v] || v > 5000 && (k > 1 || j == -2 || j == 2) {
					continue
				}
				seen[v] = true
				out = append(out, v)
			}
		}
	}
	sort.Ints(out)
	small := sort.SearchInts(out, 5001)
	return out[:min(len(out), small+24)]
}

// sourced: what the code names at every place that takes a name, a text, a comment, a number or an
// expression, and as a token anywhere.
func sourced(e *Explorer, f func(d int, s string)) {
	if e.again("sourced") {
		return
	}
	e.Group("words, texts and numbers that the code names, at every place")
	cont := srcContents()
	for d := 0; d < NDialect; d++ {
		// names
		dd, at := namePlaces(d, 4)
		var ns []string
		seen := map[string]bool{}
		add := func(n string) {
			if !seen[n] {
				seen[n] = true
				ns = append(ns, n)
			}
		}
		for _, w := range srcWords {
			for _, n := range around(w) {
				add(n)
				for _, q := range identQuote[d] {
					add(string(q) + n + string(q))
				}
			}
		}
		for _, t := range srcTexts {
			for _, n := range []string{t, "x" + t, t + "x", "x" + t + "y"} {
				for _, q := range identQuote[d] {
					if !strings.ContainsRune(n, q) {
						add(string(q) + n + string(q))
					}
				}
			}
			add("x" + t)
			add("x" + t + "y")
		}
		for i := range dd {
			f0 := fill(dd[i], d)
			for _, n := range ns {
				f0[at[i]] = n
				f(d, sp(f0))
			}
			// the same or a like name in two places
			if len(srcWords) <= 40 {
				for j, t := range dd[i] {
					if j != at[i] && strings.HasPrefix(strings.TrimPrefix(t, voidMark), "@") {
						for _, w := range srcWords {
							for _, u := range []string{w, strings.ToLower(w), "x_" + w} {
								f1 := fill(dd[i], d)
								f1[j], f1[at[i]] = u, w
								f(d, sp(f1))
							}
						}
					}
				}
			}
		}
		// texts
		for _, p := range quotePlaces(d) {
			for _, q := range quotesFor(d, p.kind) {
				for _, s := range cont {
					if !strings.ContainsRune(s, q) {
						f(d, p.a+string(q)+s+string(q)+p.b)
					}
				}
			}
		}
		// comments
		it := intType[d]
		for _, s := range cont {
			for _, c := range []string{"/*" + s + "*/", "/* " + s + " */", "--" + s + "\n", "-- " + s + " x\n"} {
				f(d, c+"CREATE TABLE t ( x "+it+c+" ) ; CREATE TABLE u ( y "+it+" CHECK ( y ) ,"+c+"z "+it+" ) ;"+c)
			}
			if d == MySQL {
				f(d, "#"+s+"\nCREATE TABLE t ( x "+it+" # "+s+"\n ) ;")
			}
		}
		// expressions
		toks := append(append([]string{}, srcWords...), srcTexts...)
		for _, p := range exprPlaces(d) {
			for _, w := range toks {
				for _, v := range []string{w, strings.ToLower(w), strings.ToUpper(w)} {
					for _, s := range []string{v, "x " + v, v + " x", "x " + v + " y", "( " + v + " ) , x", "f ( " + v + " ) x", "( ( x " + v + " y ) " + v + " z )", v + " " + v, "x" + v, v + "x", "x" + v + "y", "'" + strings.ReplaceAll(v, "'", "") + "' " + v} {
						f(d, p.a+s+p.b)
						f(d, strings.TrimSpace(p.a)+s+strings.TrimSpace(p.b))
					}
				}
			}
			if len(toks) < 60 {
				for _, w := range toks {
					for _, v := range toks {
						f(d, p.a+"x "+w+" "+v+" y"+p.b)
					}
				}
			}
		}
		// numbers
		for _, n := range srcInts {
			for j := -1; j <= 1; j++ {
				v := strconv.Itoa(n + j)
				for _, s := range []string{v, "-" + v, "+" + v, v + ".5", v + "e2", "'" + v + "'", "( " + v + " )"} {
					f(d, "CREATE TABLE t ( x "+it+" DEFAULT "+s+" , y "+strType[d]+" DEFAULT "+s+" NOT NULL ) ;")
				}
				if d != SQLite {
					f(d, "CREATE TABLE t ( x VARCHAR ( "+v+" ) , y NUMERIC ( "+v+" ) , z DECIMAL ( "+v+" , "+v+" ) , w TIME ( "+v+" ) ) ;")
					f(d, "CREATE TABLE t ( x VARCHAR("+v+") NOT NULL , z DECIMAL( 5 , "+v+") ) ;")
				}
			}
		}
		// anywhere
		for _, doc := range docs(d) {
			ts := lexToks(doc, d)
			for i := 0; i <= len(ts); i++ {
				for _, w := range toks {
					for _, v := range []string{w, strings.ToLower(w)} {
						f(d, sp(ts[:i])+" "+v+" "+sp(ts[i:]))
						if i < len(ts) {
							f(d, sp(ts[:i])+" "+v+" "+sp(ts[i+1:]))
						}
						if v == strings.ToLower(v) && v == strings.ToUpper(v) {
							break
						}
					}
				}
			}
		}
		// bodies
		for _, w := range toks {
			b := "BEGIN SELECT x ; BEGIN SELECT CASE y WHEN 1 THEN 2 END ; END ; SELECT z ; END"
			ts := strings.Fields(b)
			for i := 1; i < len(ts); i++ {
				s := strings.Join(ts[:i], " ") + " " + w + " " + strings.Join(ts[i:], " ")
				f(d, "CREATE TRIGGER g1 "+s+" ; CREATE TABLE t ( x "+it+" ) ;")
			}
			f(d, "CREATE VIEW v1 AS SELECT "+w+" FROM t ; CREATE TABLE t ( x "+it+" ) ;")
			f(d, "CREATE INDEX "+w+" ON t ( x ) ; CREATE TABLE t ( x "+it+" ) ;")
		}
	}
	// sizes
	for _, dm := range sizeDims() {
		limit := 5000
		if len(dm.ext) > 0 && dm.ext[len(dm.ext)-1] > 60000 {
			limit = 70000
		}
		if dm.mask == sizeErrs {
			continue // C24 and C03
		}
		for _, n := range srcSizes(limit) {
			if n > dm.max && !slices.Contains(dm.ext, n) {
				for d := 0; d < NDialect; d++ {
					f(d, dm.mk(d, n))
				}
			}
		}
	}
}
