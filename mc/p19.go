package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	ddl "github.com/kodaimura/ddlparse"
)

// C19: histories of calls.  The transition system is the process: its states are the histories of calls
// made so far, its transitions the calls (and the caller's modifications of what was returned).  Every
// history up to the bound is executed, in a process of its own, and every call in it must give what the
// same call gives as the first of a process.

// Call is one call of the public interface.
type Call struct {
	E    int    `json:"e"` // 0-2 Parse per dialect, 3-5 the named entry points, 6 ParseForce
	Text string `json:"t"`
}

var callName = []string{"Parse/SQLite", "Parse/PostgreSQL", "Parse/MySQL", "ParseSQLite", "ParsePostgreSQL", "ParseMySQL", "ParseForce"}

func (c Call) String() string { return fmt.Sprintf("%s(%q)", callName[c.E], clip(c.Text, 300)) }

func (c Call) run() Res {
	return guard(func() ([]ddl.Table, error) {
		switch c.E {
		case 3:
			return ddl.ParseSQLite(c.Text)
		case 4:
			return ddl.ParsePostgreSQL(c.Text)
		case 5:
			return ddl.ParseMySQL(c.Text)
		case 6:
			return ddl.ParseForce(c.Text)
		}
		return ddl.Parse(c.Text, rdbms[c.E])
	})
}

// dump writes a result out completely: types, nil-ness, every field.
func dump(r Res) string {
	if r.Panic != "" {
		return "panic " + r.Panic
	}
	var sb strings.Builder
	dumpVal(&sb, reflect.ValueOf(r.Tables))
	if r.Err != nil {
		fmt.Fprintf(&sb, " error %T %q", r.Err, r.Err.Error())
	}
	return sb.String()
}

func dumpVal(sb *strings.Builder, v reflect.Value) {
	switch v.Kind() {
	case reflect.Slice:
		if v.IsNil() {
			sb.WriteString("nil")
			return
		}
		sb.WriteByte('[')
		for i := 0; i < v.Len(); i++ {
			if i > 0 {
				sb.WriteByte(' ')
			}
			dumpVal(sb, v.Index(i))
		}
		sb.WriteByte(']')
	case reflect.Struct:
		sb.WriteByte('{')
		for i := 0; i < v.NumField(); i++ {
			if i > 0 {
				sb.WriteByte(' ')
			}
			sb.WriteString(v.Type().Field(i).Name)
			sb.WriteByte(':')
			dumpVal(sb, v.Field(i))
		}
		sb.WriteByte('}')
	case reflect.String:
		sb.WriteString(strconv.Quote(v.String()))
	case reflect.Interface:
		if v.IsNil() {
			sb.WriteString("nil")
			return
		}
		sb.WriteString(v.Elem().Type().String())
		sb.WriteByte(' ')
		dumpVal(sb, v.Elem())
	case reflect.Ptr:
		if v.IsNil() {
			sb.WriteString("nil")
			return
		}
		sb.WriteByte('&')
		dumpVal(sb, v.Elem())
	case reflect.Map:
		ks := v.MapKeys()
		sort.Slice(ks, func(i, j int) bool { return fmt.Sprint(ks[i]) < fmt.Sprint(ks[j]) })
		sb.WriteString("map[")
		for _, k := range ks {
			dumpVal(sb, k)
			sb.WriteByte(':')
			dumpVal(sb, v.MapIndex(k))
			sb.WriteByte(' ')
		}
		sb.WriteByte(']')
	default:
		if v.CanInterface() {
			fmt.Fprintf(sb, "%v", v.Interface())
		} else {
			fmt.Fprintf(sb, "%v", v)
		}
	}
}

// scribble overwrites everything a caller can reach through a result, spare capacity included.
func scribble(v reflect.Value, depth int) {
	switch v.Kind() {
	case reflect.Slice:
		if v.IsNil() || v.Cap() == 0 {
			return
		}
		full := v.Slice(0, v.Cap())
		for i := 0; i < full.Len(); i++ {
			scribble(full.Index(i), depth+1)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Field(i).CanSet() {
				scribble(v.Field(i), depth+1)
			}
		}
	case reflect.Ptr:
		if !v.IsNil() {
			scribble(v.Elem(), depth+1)
		}
	case reflect.Map:
		for _, k := range v.MapKeys() {
			v.SetMapIndex(k, reflect.Value{})
		}
	case reflect.String:
		v.SetString("SCRIBBLE")
	case reflect.Int, reflect.Int64, reflect.Int32:
		v.SetInt(-987654)
	case reflect.Bool:
		v.SetBool(!v.Bool())
	case reflect.Interface:
		if !v.IsNil() && v.Elem().Kind() == reflect.Slice {
			scribble(v.Elem(), depth+1)
		}
		if v.Type().NumMethod() == 0 {
			v.Set(reflect.ValueOf("SCRIBBLE"))
		}
	}
}

func clobber(r *Res) { scribble(reflect.ValueOf(&r.Tables).Elem(), 0) }

// spare overwrites the spare capacity of every slice, as appending to it would.
func spare(v reflect.Value) {
	switch v.Kind() {
	case reflect.Slice:
		if v.IsNil() {
			return
		}
		for i := 0; i < v.Len(); i++ {
			spare(v.Index(i))
		}
		full := v.Slice(0, v.Cap())
		for i := v.Len(); i < full.Len(); i++ {
			scribble(full.Index(i), 0)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Field(i).CanSet() {
				spare(v.Field(i))
			}
		}
	}
}

// shares: two parts of a result that lie in the same memory, "" if there are none.
func shares(r *Res) string {
	type part struct {
		lo, hi uintptr
		path   string
	}
	var ps []part
	var walk func(v reflect.Value, path string)
	walk = func(v reflect.Value, path string) {
		switch v.Kind() {
		case reflect.Slice:
			if n := uintptr(v.Len()) * v.Type().Elem().Size(); n > 0 {
				ps = append(ps, part{v.Pointer(), v.Pointer() + n, path})
			}
			if k := v.Type().Elem().Kind(); k == reflect.Struct || k == reflect.Slice || k == reflect.Interface || k == reflect.Ptr {
				for i := 0; i < v.Len(); i++ {
					walk(v.Index(i), path+"["+strconv.Itoa(i)+"]")
				}
			}
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				walk(v.Field(i), path+"."+v.Type().Field(i).Name)
			}
		case reflect.Interface:
			if !v.IsNil() {
				walk(v.Elem(), path)
			}
		case reflect.Ptr:
			if !v.IsNil() {
				if n := v.Type().Elem().Size(); n > 0 {
					ps = append(ps, part{v.Pointer(), v.Pointer() + n, path})
				}
				walk(v.Elem(), path)
			}
		}
	}
	walk(reflect.ValueOf(r.Tables), "")
	sort.Slice(ps, func(i, j int) bool { return ps[i].lo < ps[j].lo })
	for i := 1; i < len(ps); i++ {
		if ps[i].lo < ps[i-1].hi {
			return ps[i-1].path + " and " + ps[i].path
		}
	}
	return ""
}

// histAlphabet: the calls histories are made of.  Texts share prefixes, lengths and names; the same text
// goes to several dialects; some calls fail, at different stages.
func histAlphabet(thorough bool) []Call {
	s1, s2 := "CREATE TABLE t ( aa INTEGER ) ;", "CREATE TABLE u ( bb INTEGER ) ;"
	q := "CREATE TABLE t ( aa INTEGER , b TEXT NOT NULL DEFAULT \"q\" , PRIMARY KEY ( aa , b ) ) ;"
	two := s1 + "\nCREATE VIEW v AS SELECT 1 ;\n\ncreate table if not exists x . v ( cc TEXT CHECK ( cc > 1 ) , UNIQUE ( cc ) ) ;"
	fk := "CREATE TABLE p (\n aa INTEGER REFERENCES q ( b ) ,\n FOREIGN KEY ( aa , b ) REFERENCES mm . r ( x , ) ) ;"
	a := []Call{
		{0, s1}, {0, s2}, {1, s1}, {5, s1},
		{0, docs(SQLite)[2]}, {4, docs(Postgres)[2]}, {2, docs(MySQL)[2]},
		{2, q}, {1, q},
		{3, fk},
		{2, "CREATE TABLE p ( aa INT /* open"},
		{1, "CREATE TABLE p (\n\n aa INTEGER DEFAULT ( f ( 1 , ( 2"},
		{6, docs(MySQL)[1]},
		{6, fk},
		{0, two},
	}
	if thorough {
		a = append(a, Call{6, s1}, Call{0, ""}, Call{1, two}, Call{2, two}, Call{2, fk},
			Call{0, "CREATE TABLE p ( aa TEXT DEFAULT 'open"}, Call{6, docs(Postgres)[1]},
			Call{0, strings.ToLower(s1)}, Call{1, docs(Postgres)[3]}, Call{2, "CREATE TABLE p ( aa INT , INDEX i ( aa ) , KEY ( aa"})
	}
	return a
}

type histReq struct {
	Calls []Call   `json:"calls"`
	Want  []string `json:"want"`
	Mode  int      `json:"mode"` // 0: keep results; 1: modify each result as soon as it is there
}

// runHistory executes a history in this process; it returns the dumps, and a message when something is off.
func runHistory(q *histReq) (got []string, msg string) {
	var kept []Res
	for i, c := range q.Calls {
		r := c.run()
		dp := dump(r)
		got = append(got, dp)
		if msg == "" && len(q.Want) > 0 && dp != q.Want[i] {
			msg = fmt.Sprintf("call %d, %s: gives %s; as the first call of a process it gives %s", i+1, c, clip(dp, 900), clip(q.Want[i], 900))
		}
		if msg == "" && r.Panic == "" {
			if x := shares(&r); x != "" {
				msg = fmt.Sprintf("call %d, %s: the parts %s of the result share their memory: modifying one changes the other", i+1, c, x)
			}
		}
		// what the caller keeps, independent of memory shared with other results
		kept = append(kept, r)
		if msg == "" {
			for j := range kept[:i] {
				if q.Mode == 0 && dump(kept[j]) != got[j] {
					msg = fmt.Sprintf("call %d changed the result of call %d, %s: it was %s and is now %s", i+1, j+1, q.Calls[j], clip(got[j], 700), clip(dump(kept[j]), 700))
				}
			}
		}
		if q.Mode == 1 {
			clobber(&kept[i])
		}
	}
	if q.Mode == 0 && msg == "" {
		for i := range kept {
			spare(reflect.ValueOf(&kept[i].Tables).Elem())
			for j := range kept {
				if dump(kept[j]) != got[j] && msg == "" {
					msg = fmt.Sprintf("writing to the spare capacity of the result of call %d, %s, changed the result of call %d, %s: it was %s and is now %s", i+1, q.Calls[i], j+1, q.Calls[j], clip(got[j], 500), clip(dump(kept[j]), 500))
				}
			}
		}
		for i := range kept {
			clobber(&kept[i])
			for j := i + 1; j < len(kept); j++ {
				if dump(kept[j]) != got[j] && msg == "" {
					msg = fmt.Sprintf("modifying the result of call %d, %s, changed the result of call %d, %s: it was %s and is now %s", i+1, q.Calls[i], j+1, q.Calls[j], clip(got[j], 500), clip(dump(kept[j]), 500))
				}
			}
		}
	}
	return
}

type histAns struct {
	Got  []string `json:"got"`
	Msg  string   `json:"msg"`
	N    int64    `json:"n"`
	Cut  bool     `json:"cut,omitempty"`
	Hist *histReq `json:"hist,omitempty"`
}

// histChild: "hist" reads one request; "hist walk ..." makes a long history.
func histChild(a []string) {
	if len(a) > 0 && a[0] == "walk" {
		histWalk(a[1:])
		return
	}
	var q histReq
	if err := json.NewDecoder(os.Stdin).Decode(&q); err != nil {
		os.Exit(3)
	}
	var ans histAns
	ans.Got, ans.Msg = runHistory(&q)
	ans.N = int64(len(q.Calls))
	if len(q.Want) > 0 {
		ans.Got = nil
	}
	json.NewEncoder(os.Stdout).Encode(&ans)
}

// child runs this program again.  ok is false when it did not end normally.
func child(stdin []byte, timeout time.Duration, out interface{}, args ...string) (ok bool, why string) {
	ctx, cancel := context.WithTimeout(context.Background(), timeout)
	defer cancel()
	self, _ := os.Executable()
	cmd := exec.CommandContext(ctx, self, args...)
	cmd.Env = append(os.Environ(), "GOTRACEBACK=none", "GOMAXPROCS=1")
	cmd.Stdin = bytes.NewReader(stdin)
	var ob bytes.Buffer
	eb := &tailBuf{}
	cmd.Stdout, cmd.Stderr = &ob, eb
	if err := cmd.Run(); err != nil {
		if ctx.Err() != nil {
			return false, "does not end"
		}
		return false, clip(strings.TrimSpace(eb.String()), 300) + " " + err.Error()
	}
	if err := json.Unmarshal(ob.Bytes(), out); err != nil {
		return false, "no answer"
	}
	return true, ""
}

func runHistChild(q *histReq) (*histAns, bool, string) {
	b, _ := json.Marshal(q)
	var ans histAns
	ok, why := child(b, 60*time.Second, &ans, "hist")
	return &ans, ok, why
}

// probes: what is called after each of the many predecessors: documents full of constructs, in several
// layouts, every type, names that other dialects reserve, several tables, errors of both stages.
func probes() []Call {
	var ps []Call
	for d := 0; d < NDialect; d++ {
		ds := docs(d)
		it := intType[d]
		ps = append(ps, Call{d, ds[0]}, Call{d, "CREATE TABLE p (\n aa " + it + " ,\n PRIMARY KEY ( aa ) ,\n CHECK ( aa > 1 ) UNIQUE ) ;"})
		for k, s := range ds[1:] {
			ps = append(ps, Call{d + 3*(k%2), s}, Call{d, strings.ReplaceAll(glue(lexToks(s, d)), " = ", "=")})
		}
		// every type
		var cols []string
		for i, ty := range formTexts(d, "type", 1) {
			cols = append(cols, "c"+strconv.Itoa(i)+" "+ty)
		}
		ps = append(ps, Call{d, "CREATE TABLE p (" + strings.Join(cols, ",\n") + ");"})
		// words that are names here and reserved elsewhere
		cols = nil
		for o := 0; o < NDialect; o++ {
			for _, w := range reservedList(o) {
				if isPlainWord(w) && !reservedIn(d, w) && !listed(cols, w+" "+it) {
					cols = append(cols, w+" "+it)
				}
			}
		}
		if len(cols) > 0 {
			ps = append(ps, Call{d, "CREATE TABLE p (zz " + it + ", " + strings.Join(cols, ", ") + ");"})
		}
		ps = append(ps,
			Call{d, strings.Join(stmts(d), "\n")},
			Call{d, strings.ReplaceAll(glue(lexToks(strings.Join(stmts(d), " "), d)), " = ", "=")},
			Call{d, stmts(d)[3] + stmts(d)[1] + strings.ToLower(stmts(d)[3])},
			Call{d, ds[1] + "\n\nCREATE TABLE q ( aa\n" + it + " 'x ) ;"},
			Call{d, ds[2] + "\n\n" + stmts(d)[1] + "\nCREATE TABLE q ( aa\n" + it + " , , ) ;"},
			Call{d, ds[0] + "\n-- x\n/* y\n */ CREATE TABLE q ( aa " + it + " DEFAULT ( ( 1 ) ;"},
			Call{6, ds[1]}, Call{6, ds[2]})
	}
	return ps
}

func listed(l []string, x string) bool {
	for _, s := range l {
		if s == x {
			return true
		}
	}
	return false
}

// predecessors: one call per state of the bounded grammar graph (stopping there, and going on to the end),
// for every dialect; every word as a name and as a type; statements, elements, near misses of probes, debris.
func predecessors(thorough bool) []Call {
	var out []Call
	seen := map[Call]bool{}
	f := func(c Call) {
		if !seen[c] {
			seen[c] = true
			out = append(out, c)
		}
	}
	all := func(s string) {
		for e := 0; e < 3; e++ {
			f(Call{e, s})
		}
	}
	for d := 0; d < NDialect; d++ {
		m := 0
		if thorough {
			m = 1
		}
		g := getGraph(d, m, 2)
		for i := range g.nodes {
			p := sp(g.path(i))
			f(Call{d, p})
			if c, ok := g.completion(i); ok {
				all(p + " " + sp(c))
				f(Call{6, p + " " + sp(c)})
				f(Call{d, strings.ReplaceAll(glue(append(g.path(i), c...)), " = ", "=")})
			}
		}
		for _, el := range elements(d) {
			all("CREATE TABLE t ( " + el + " ) ;")
		}
		for _, s := range stmts(d) {
			all(s)
		}
		for _, ty := range formTexts(d, "type", 1) {
			all("CREATE TABLE t ( x " + ty + " ) ;")
		}
		for _, w := range reservedList(d) {
			all("CREATE TABLE t ( " + w + " " + intType[d] + " ) ;")
		}
		for _, t := range vocabulary(d) {
			all("CREATE TABLE t ( " + t.S + " " + intType[d] + " ) ;")
			all("CREATE TABLE " + t.S + " ( x " + intType[d] + " ) ;")
		}
		// near misses of the probes: one character or one layout different
		for _, doc := range []string{docs(d)[0], docs(d)[2]} {
			for i := 0; i < len(doc); i++ {
				c := "z"
				if doc[i] >= 'a' && doc[i] <= 'z' || doc[i] >= 'A' && doc[i] <= 'Z' {
					c = string(doc[i] ^ 32)
				} else if doc[i] == ' ' {
					c = "\n"
				}
				f(Call{d, doc[:i] + c + doc[i+1:]})
				if thorough {
					f(Call{d, doc[:i] + "z" + doc[i+1:]})
					f(Call{6, doc[:i] + c + doc[i+1:]})
				}
			}
			f(Call{d, " " + doc})
			f(Call{d, doc + "\n"})
			f(Call{d, "\n" + doc})
			all(doc)
			f(Call{6, doc})
		}
		// one name, quoted and not, of many lengths
		for _, n := range nameLengths() {
			w := strings.Repeat("xyzw_v1", n/7+1)[:n]
			for _, q := range identQuote[d] {
				for _, v := range []string{string(q) + w + string(q), w} {
					f(Call{d, "CREATE TABLE " + v + " ( y " + intType[d] + " ) ;"})
					f(Call{d, "CREATE TABLE t ( " + v + " " + intType[d] + " ) ;"})
					f(Call{d, "CREATE TABLE s . " + v + " ( x " + intType[d] + " , " + v + " " + strType[d] + " DEFAULT '" + w + "' , CONSTRAINT " + v + " UNIQUE ( " + v + " , x ) , FOREIGN KEY ( " + v + " ) REFERENCES " + v + " ( " + v + " ) ) ;"})
				}
			}
		}
		// the same tables, columns and constraints again
		for _, n := range []int{1, 2, 3, 4, 5, 8, 9, 16} {
			cols := repeatJoin(n, " , ", func(i int) string { return "c" + strconv.Itoa(i) + " " + intType[d] + " NOT NULL" })
			list := repeatJoin(n, " , ", func(i int) string { return "c" + strconv.Itoa(i) })
			tc := "PRIMARY KEY ( " + list + " ) , UNIQUE ( " + list + " ) , UNIQUE ( " + list + " ) , CHECK ( c0 > 1 ) , FOREIGN KEY ( " + list + " ) REFERENCES r ( " + list + " ) , FOREIGN KEY ( " + list + " ) REFERENCES r ( " + list + " )"
			rc := repeatJoin(n, " , ", func(i int) string {
				return "c" + strconv.Itoa(i) + " " + intType[d] + " REFERENCES r ( " + list + " )"
			})
			for _, b := range []string{cols, cols + " , " + tc, rc, rc + " , " + tc, list[:2] + " " + intType[d] + " , " + tc} {
				t := "CREATE TABLE t ( " + b + " ) ;"
				f(Call{d, t})
				f(Call{d, t + " " + t})
				f(Call{d, t + " CREATE TABLE u ( " + b + " ) ; " + t + " " + t})
			}
		}
		for _, s := range stmts(d) {
			f(Call{d, s + " " + s})
			f(Call{d, s + "\n" + s + "\n" + s})
		}
		for _, s := range docs(d) {
			f(Call{d, s + " " + s})
			f(Call{6, s + "\n" + s + " " + s})
		}
		for _, s := range []string{"'", "\"", "`", "/*", "/* *", "--", "a", "", ";", "CREATE TABLE t (\n\n\n( ( (", "\n\n\n"} {
			f(Call{d, s})
			f(Call{6, s})
		}
	}
	return out
}

// nameLengths: around powers of two, usual limits, and the numbers in the code.
func nameLengths() []int {
	ls := []int{1, 2, 3, 5, 8, 10, 15, 16, 17, 20, 24, 30, 31, 32, 33, 40, 41, 42, 48, 50, 51, 60, 63, 64, 65, 80, 100, 101, 127, 128, 129, 200, 255, 256, 257, 512}
	for _, n := range srcInts {
		for j := -1; j <= 2; j++ {
			if v := n + j; v > 0 && v < 3000 && len(ls) < 80 {
				ls = append(ls, v)
			}
		}
	}
	return ls
}

// walkReq: calls and what each gives as the first call of a process.
type walkReq struct {
	Preds  []Call   `json:"preds"`
	PHash  []uint64 `json:"phash"`
	Probes []Call   `json:"probes"`
	Want   []string `json:"want"`
}

// histWalk: order >= 0: all predecessors, one after the other, in that order.
// order < 0: a shard of the predecessors, each followed by every probe.  All in this one process.
func histWalk(a []string) {
	order, _ := strconv.Atoi(a[0])
	shard, _ := strconv.Atoi(a[1])
	nsh, _ := strconv.Atoi(a[2])
	secs, _ := strconv.Atoi(a[4])
	stop := time.Now().Add(time.Duration(secs) * time.Second)
	var w walkReq
	b, err := os.ReadFile(a[3])
	if err != nil || json.Unmarshal(b, &w) != nil {
		os.Exit(3)
	}
	var ans histAns
	done := func() { json.NewEncoder(os.Stdout).Encode(&ans) }
	defer done()
	var hist []Call
	fail := func(c Call, mode int, f string, x ...interface{}) {
		ans.Msg = fmt.Sprintf(f, x...)
		ans.Hist = &histReq{Calls: append(hist, c), Mode: mode}
	}
	if order >= 0 {
		for _, i := range walkOrder(order, w.Preds) {
			c := w.Preds[i]
			r := c.run()
			ans.N++
			if dp := dump(r); fnv(dp) != w.PHash[i] {
				fail(c, 1, "%s after %d other calls gives %s, and something else as the first call of a process", c, ans.N-1, clip(dp, 700))
				return
			}
			if x := shares(&r); x != "" {
				hist = nil
				fail(c, 0, "%s: the parts %s of the result share their memory: modifying one changes the other", c, x)
				return
			}
			hist = append(hist, c)
			clobber(&r)
			if ans.N%64 == 0 && time.Now().After(stop) {
				ans.Cut = true
				return
			}
		}
		return
	}
	for i := shard; i < len(w.Preds); i += nsh {
		c := w.Preds[i]
		for j, p := range w.Probes {
			r := c.run()
			d0 := dump(r)
			hist = []Call{c}
			if fnv(d0) != w.PHash[i] {
				fail(c, 1, "%s after %d other calls gives %s, and something else as the first call of a process", c, ans.N, clip(d0, 700))
				return
			}
			if j%2 == 0 {
				clobber(&r)
			}
			g := p.run()
			ans.N += 2
			dp := dump(g)
			if dp != w.Want[j] {
				fail(p, (j+1)%2, "%s after %s (and %d calls before): gives %s; as the first call of a process it gives %s", p, c, ans.N-2, clip(dp, 700), clip(w.Want[j], 700))
				return
			}
			if j%2 != 0 {
				if dump(r) != d0 {
					fail(p, 0, "%s changed the result of the call before it, %s: it was %s and is now %s", p, c, clip(d0, 700), clip(dump(r), 700))
					return
				}
				clobber(&r)
				if dump(g) != dp {
					fail(p, 1, "modifying the result of %s changed the result of the call after it, %s", c, p)
					return
				}
				clobber(&g)
			}
		}
		if time.Now().After(stop) {
			ans.Cut = true
			return
		}
	}
}

const walkOrders = 16

// walkOrder: the orders in which all predecessors are called in one process.
func walkOrder(k int, cs []Call) []int {
	n := len(cs)
	ix := make([]int, n)
	for i := range ix {
		ix[i] = i
	}
	switch k {
	case 0:
	case 1:
		sort.Slice(ix, func(a, b int) bool { return ix[a] > ix[b] })
	case 2, 3, 4, 5: // by entry point
		rank := [][]int{2: {0, 1, 2, 3}, 3: {2, 1, 0, 3}, 4: {1, 2, 0, 3}, 5: {3, 0, 2, 1}}[k]
		key := func(c Call) int {
			if c.E == 6 {
				return rank[3]
			}
			return rank[c.E%3]
		}
		sort.SliceStable(ix, func(a, b int) bool { return key(cs[ix[a]]) < key(cs[ix[b]]) })
	case 6:
		sort.SliceStable(ix, func(a, b int) bool { return len(cs[ix[a]].Text) < len(cs[ix[b]].Text) })
	case 7:
		sort.SliceStable(ix, func(a, b int) bool { return len(cs[ix[a]].Text) > len(cs[ix[b]].Text) })
	case 8:
		sort.SliceStable(ix, func(a, b int) bool { return cs[ix[a]].Text < cs[ix[b]].Text })
	case 9:
		sort.SliceStable(ix, func(a, b int) bool { return cs[ix[a]].Text > cs[ix[b]].Text })
	default: // strides
		step := []int{7, 31, 101, 499, 1009, 5003}[k-10]
		for n%step == 0 && n > 0 {
			step++
		}
		seen := make([]bool, n)
		ix = ix[:0]
		for s := 0; s < n; s++ {
			for i := s; !seen[i]; i = (i + step) % n {
				seen[i] = true
				ix = append(ix, i)
			}
		}
	}
	return ix
}

// shrink looks for a short history with the same outcome.
func shrink(h *histReq, x string) *histReq {
	n := len(h.Calls) - 1
	last := h.Calls[n]
	bad := func(cs []Call) bool {
		q := &histReq{Calls: append(append([]Call{}, cs...), last), Mode: 1}
		a, ok, _ := runHistChild(q)
		return !ok || a.Got[len(cs)] != x
	}
	cs := h.Calls[:n]
	if !bad(cs) {
		return h
	}
	for parts := 2; len(cs) > 1; {
		size := (len(cs) + parts - 1) / parts
		found := false
		for i := 0; i < len(cs) && !found; i += size {
			e := i + size
			if e > len(cs) {
				e = len(cs)
			}
			if p := cs[i:e]; bad(p) {
				cs, parts, found = p, 2, true
			} else if r := append(append([]Call{}, cs[:i]...), cs[e:]...); parts > 2 && bad(r) {
				cs, found = r, true
				if parts > 2 {
					parts--
				}
			}
		}
		if !found {
			if parts >= len(cs) || parts > 16 {
				break
			}
			parts *= 2
		}
	}
	return &histReq{Calls: append(append([]Call{}, cs...), last), Mode: 1}
}

// parallel runs f(0..n-1) on all cores.
func parallel(n int, f func(i int)) {
	var wg sync.WaitGroup
	ch := make(chan int, 64)
	for k := 0; k < runtime.NumCPU(); k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range ch {
				f(i)
			}
		}()
	}
	for i := 0; i < n; i++ {
		ch <- i
	}
	close(ch)
	wg.Wait()
}

func histViolation(q *histReq, seq int, msg string) *Violation {
	var xs []string
	for _, c := range q.Calls {
		xs = append(xs, c.String())
	}
	return &Violation{Case: &Case{K: "history", A: strings.Join(xs, "\n"), X: xs}, Seq: int64(seq), Msg: msg}
}

func exploreHist(tier string, dl time.Time) *Outcome {
	o := &Outcome{Groups: map[string]int64{}, Exhaustive: true, Extra: map[string]int64{}}
	thorough := tier == "thorough"
	alpha := histAlphabet(thorough)
	ps := probes()
	all := append(append([]Call{}, alpha...), ps...)
	// single calls, each twice, in processes of their own
	want := make([]string, len(all))
	usable := make([]bool, len(all))
	var mu sync.Mutex
	parallel(len(all), func(i int) {
		q := &histReq{Calls: all[i : i+1]}
		a1, ok1, _ := runHistChild(q)
		if !ok1 {
			mu.Lock()
			o.Notes = append(o.Notes, "a single call does not return (C01's concern), left out: "+all[i].String())
			mu.Unlock()
			return
		}
		want[i], usable[i] = a1.Got[0], true
		for k := 0; k < 3; k++ {
			a2, ok2, _ := runHistChild(q)
			if ok2 && a2.Got[0] != want[i] {
				mu.Lock()
				o.Violation = histViolation(q, i, fmt.Sprintf("the same single call gives different results in two processes: %s and %s", clip(want[i], 700), clip(a2.Got[0], 700)))
				mu.Unlock()
				return
			}
			if ok2 && a2.Msg != "" {
				mu.Lock()
				o.Violation = histViolation(q, i, a2.Msg)
				mu.Unlock()
				return
			}
		}
		mu.Lock()
		o.Parses += 4
		mu.Unlock()
	})
	if o.Violation != nil {
		return o
	}
	var ix []int
	for i := range alpha {
		if usable[i] {
			ix = append(ix, i)
		}
	}
	depth := 3
	// all histories up to the depth (a history covers its prefixes), both modes
	n := 1
	for i := 0; i < depth; i++ {
		n *= len(ix)
	}
	timedOut := false
	parallel(2*n, func(k int) {
		mu.Lock()
		stop := o.Violation != nil || timedOut
		mu.Unlock()
		if stop {
			return
		}
		if time.Now().After(dl) {
			timedOut = true
			return
		}
		q := &histReq{Mode: k % 2}
		m := k / 2
		for i := 0; i < depth; i++ {
			x := ix[m%len(ix)]
			m /= len(ix)
			q.Calls = append(q.Calls, alpha[x])
			q.Want = append(q.Want, want[x])
		}
		ans, ok, why := runHistChild(q)
		msg := ans.Msg
		if !ok {
			msg = "the history does not return normally: " + why
		}
		if msg != "" {
			for i := 0; i < 5; i++ {
				a2, ok2, _ := runHistChild(q)
				if ok2 && a2.Msg == "" {
					msg = ""
				}
			}
		}
		mu.Lock()
		defer mu.Unlock()
		o.Parses += int64(depth)
		o.Traces++
		if msg != "" && (o.Violation == nil || int64(k) < o.Violation.Seq) {
			o.Violation = histViolation(q, k, msg)
		}
		if k%997 == 5 && len(o.Samples) < 12 {
			var xs []string
			for _, c := range q.Calls {
				xs = append(xs, c.String())
			}
			o.Samples = append(o.Samples, map[string]interface{}{"history": xs, "results_modified_after_each_call": q.Mode == 1})
		}
	})
	o.Groups["histories of "+strconv.Itoa(depth)+" calls, each in a fresh process"] = o.Traces
	// states: history prefixes; transitions: calls from one to the next
	p := int64(1)
	for i := 0; i <= depth; i++ {
		o.States += p
		if i > 0 {
			o.Transitions += p
		}
		p *= int64(len(ix))
	}
	o.States, o.Transitions = 2*o.States-1, 2*o.Transitions
	if timedOut {
		o.Exhaustive = false
		o.Notes = append(o.Notes, "the time limit ended the enumeration of histories")
	}
	if o.Violation != nil || timedOut {
		return o
	}
	// the long histories: what every call gives as the first of a process comes first
	var w walkReq
	for i := len(alpha); i < len(all); i++ {
		if usable[i] {
			w.Probes, w.Want = append(w.Probes, all[i]), append(w.Want, want[i])
		}
	}
	preds := predecessors(thorough)
	first := make([]string, len(preds))
	fok := make([]bool, len(preds))
	parallel(len(preds), func(i int) {
		if timedOut || time.Now().After(dl) {
			timedOut = true
			return
		}
		if a, ok, _ := runHistChild(&histReq{Calls: preds[i : i+1]}); ok {
			first[i], fok[i] = a.Got[0], true
		}
	})
	wantOf := map[Call]string{}
	for i := range preds {
		if fok[i] {
			w.Preds, w.PHash = append(w.Preds, preds[i]), append(w.PHash, fnv(first[i]))
			wantOf[preds[i]] = first[i]
		}
	}
	for i, c := range w.Probes {
		wantOf[c] = w.Want[i]
	}
	o.Groups["single calls, each in a fresh process"] = int64(len(all) + len(w.Preds))
	o.Parses += int64(len(w.Preds))
	if !timedOut && len(w.Preds) < len(preds) {
		o.Notes = append(o.Notes, fmt.Sprintf("%d single calls do not return (C01's concern), left out", len(preds)-len(w.Preds)))
	}
	tmp, err := os.MkdirTemp("", "mc-hist-")
	if err != nil {
		return o
	}
	defer os.RemoveAll(tmp)
	wf := filepath.Join(tmp, "want.json")
	writeJSON(wf, &w)
	nsh := 2 * runtime.NumCPU()
	left := time.Until(dl)/2 - time.Second
	if left < time.Second {
		left = time.Second
	}
	answers := make([]histAns, walkOrders+nsh)
	oks := make([]bool, len(answers))
	parallel(len(answers), func(k int) {
		order, shard := k, 0
		if k >= walkOrders {
			order, shard = -1, k-walkOrders
		}
		args := []string{"hist", "walk", strconv.Itoa(order), strconv.Itoa(shard), strconv.Itoa(nsh), wf, strconv.Itoa(int(left / time.Second))}
		var why string
		oks[k], why = child(nil, left+60*time.Second, &answers[k], args...)
		if !oks[k] {
			mu.Lock()
			o.Notes = append(o.Notes, "a long-running process did not end normally: "+why)
			o.Exhaustive = false
			mu.Unlock()
			return
		}
		for i := 0; i < 2 && answers[k].Msg != ""; i++ {
			var again histAns
			if ok, _ := child(nil, left+60*time.Second, &again, args...); !ok || again.Msg == "" {
				answers[k].Msg = ""
			}
		}
	})
	var np [2]int64
	for k := range answers {
		if k < walkOrders {
			np[0] += answers[k].N
		} else {
			np[1] += answers[k].N
		}
		if answers[k].Msg != "" && o.Violation == nil {
			h := answers[k].Hist
			if h == nil {
				h = &histReq{}
			} else if x, ok := wantOf[h.Calls[len(h.Calls)-1]]; ok {
				h = shrink(h, x)
			}
			o.Violation = histViolation(h, k, answers[k].Msg)
		}
		if answers[k].Cut {
			o.Exhaustive = false
		}
	}
	if timedOut {
		o.Exhaustive = false
		o.Notes = append(o.Notes, "the time limit ended the enumeration of single calls")
	}
	o.Groups[strconv.Itoa(walkOrders)+" orders of all predecessor calls, each in one process"] = np[0]
	o.Groups["predecessor and probe calls in long-running processes"] = np[1]
	o.Parses += np[0] + np[1]
	o.Traces += int64(len(answers))
	o.States += np[0] + np[1]
	o.Transitions += np[0] + np[1]
	for _, v := range o.Groups {
		o.Cases += v
	}
	if o.Violation != nil {
		o.Exhaustive = false
	}
	return o
}

func init() {
	register(&Check{ID: "C19", Custom: exploreHist,
		Rule: "every sequence of calls from the alphabet up to the depth runs in a process of its own, once keeping the results and once modifying each result as soon as it is returned; every predecessor call (one per state of the bounded grammar graph of each dialect, stopping there and completed, in all dialects; every word as a name; every type; near misses of probes) is followed by every probe call in long-running processes, and all predecessor calls are made in one process in several orders; every result must equal that of the same call made first in a fresh process, and no two parts of a result may share memory",
	})
}

func reservedList(d int) []string {
	return [][]string{reservedSQLite, reservedPostgreSQL, reservedMySQL}[d]
}

func reservedIn(d int, w string) bool { return listed(reservedList(d), w) }
