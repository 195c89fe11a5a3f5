package main

import (
	"bytes"
	"context"
	_ "embed"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"io/fs"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// C20: schedules of concurrent calls.  A scratch copy of the tree gets a scheduling point before every
// statement and at the entry of every function; a program linked with that copy runs the threads one at a
// time and enumerates where control changes hands.

//go:embed sched/vsched.go.txt
var vschedSrc string

//go:embed sched/vsync.go.txt
var vsyncSrc string

//go:embed sched/main.go.txt
var vmainSrc string

type schedReq struct {
	Calls []Call   `json:"calls"`
	Want  []string `json:"want"`
	Mode  string   `json:"mode"`
	Lvl   int      `json:"lvl"`
	Bound int      `json:"bound"`
	First int      `json:"first"`
	Sw    []int64  `json:"sw"`
	To    []int    `json:"to"`
	From  int64    `json:"from"`
	Mod   int64    `json:"mod"`
	Secs  int      `json:"secs"`
}

type schedAns struct {
	Got    []string `json:"got"`
	Steps  []int64  `json:"steps"`
	N      int64    `json:"n"`
	Points int64    `json:"points"`
	Msg    string   `json:"msg"`
	First  int      `json:"first"`
	Sw     []int64  `json:"sw"`
	To     []int    `json:"to"`
	Cut    bool     `json:"cut"`
}

func repoDir() string {
	if r := os.Getenv("MC_REPO"); r != "" {
		return r
	}
	return "/repo"
}

// instrument copies the tree to dst.  plain: without scheduling points.
func instrument(src, dst string, plain bool) (points int64, uncontrolled []string, err error) {
	mod := ""
	b, err := os.ReadFile(filepath.Join(src, "go.mod"))
	if err != nil {
		return 0, nil, err
	}
	for _, l := range strings.Split(string(b), "\n") {
		f := strings.Fields(l)
		if len(f) == 2 && f[0] == "module" {
			mod = strings.Trim(f[1], "\"")
		}
	}
	if mod == "" {
		return 0, nil, fmt.Errorf("no module line")
	}
	globals := packageVars(src)
	err = filepath.WalkDir(src, func(p string, e fs.DirEntry, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(src, p)
		name := e.Name()
		if e.IsDir() {
			if rel != "." && (strings.HasPrefix(name, ".") || strings.HasPrefix(name, "_")) {
				return filepath.SkipDir
			}
			return os.MkdirAll(filepath.Join(dst, rel), 0o755)
		}
		if !e.Type().IsRegular() || strings.HasSuffix(name, "_test.go") {
			return nil
		}
		if fi, e2 := e.Info(); e2 != nil || fi.Size() > 8<<20 {
			return e2
		}
		data, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		if strings.HasSuffix(name, ".go") && !plain {
			var k int64
			var un []string
			data, k, un, err = instrumentFile(p, data, mod, src, globals)
			if err != nil {
				return err
			}
			points += k
			for _, u := range un {
				uncontrolled = append(uncontrolled, rel+": "+u)
			}
		}
		return os.WriteFile(filepath.Join(dst, rel), data, 0o644)
	})
	if err != nil {
		return
	}
	put := func(rel, text string) {
		if err != nil {
			return
		}
		f := filepath.Join(dst, rel)
		os.MkdirAll(filepath.Dir(f), 0o755)
		err = os.WriteFile(f, []byte(strings.ReplaceAll(text, "VMOD", mod)), 0o644)
	}
	put("internal/zzvsched/vsched.go", vschedSrc)
	put("internal/zzvsync/vsync.go", vsyncSrc)
	put("zzverifmain/main.go", vmainSrc)
	return
}

func instrumentFile(path string, data []byte, mod, src string, globals map[string]map[string]bool) (out []byte, points int64, uncontrolled []string, err error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, path, data, parser.ParseComments|parser.SkipObjectResolution)
	if err != nil {
		return nil, 0, nil, err
	}
	type ins struct {
		at, del int
		s       string
	}
	var edits []ins
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	own := globals[filepath.Dir(path)]
	imported := map[string]map[string]bool{}
	for _, im := range f.Imports {
		p, _ := strconv.Unquote(im.Path.Value)
		if strings.HasPrefix(p, mod+"/") || p == mod {
			vars := globals[filepath.Join(src, strings.TrimPrefix(p, mod))]
			name := filepath.Base(p)
			if im.Name != nil {
				name = im.Name.Name
			}
			imported[name] = vars
		}
	}
	// touches: the statement itself (not the blocks in it) may involve state shared between calls
	touches := func(s ast.Stmt) (hit bool) {
		ast.Inspect(s, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.BlockStmt, *ast.FuncLit:
				return n == ast.Node(s)
			case *ast.SelectorExpr:
				if id, ok := x.X.(*ast.Ident); ok && imported[id.Name][x.Sel.Name] {
					hit = true
				}
				switch x.Sel.Name {
				case "Lock", "Unlock", "RLock", "RUnlock", "Do", "Get", "Put", "Load", "Store", "LoadOrStore", "Swap", "CompareAndSwap", "Add":
					hit = true
				}
				ast.Inspect(x.X, func(m ast.Node) bool {
					if id, ok := m.(*ast.Ident); ok && own[id.Name] {
						hit = true
					}
					return true
				})
				return false
			case *ast.Ident:
				if own[x.Name] {
					hit = true
				}
			}
			return !hit
		})
		return
	}
	list := func(ss []ast.Stmt) {
		for _, s := range ss {
			if e, ok := s.(*ast.EmptyStmt); ok && e.Implicit {
				continue
			}
			t := "vsched_zz.S();"
			if touches(s) {
				t = "vsched_zz.G();" + t
			}
			edits = append(edits, ins{off(s.Pos()), 0, t})
			points++
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.FuncDecl:
			if x.Body != nil {
				t := "vsched_zz.F();"
				if x.Name.IsExported() && filepath.Dir(path) == src {
					t += "vsched_zz.G();"
				}
				edits = append(edits, ins{off(x.Body.Lbrace) + 1, 0, t})
				points++
			}
		case *ast.FuncLit:
			edits = append(edits, ins{off(x.Body.Lbrace) + 1, 0, "vsched_zz.F();"})
			points++
		case *ast.BlockStmt:
			list(x.List)
			if len(x.List) > 0 {
				switch x.List[0].(type) {
				case *ast.CaseClause, *ast.CommClause:
					edits = edits[:len(edits)-len(x.List)]
					points -= int64(len(x.List))
				}
			}
		case *ast.CaseClause:
			list(x.Body)
		case *ast.CommClause:
			list(x.Body)
		case *ast.GoStmt:
			uncontrolled = append(uncontrolled, "go statement")
		case *ast.SelectStmt:
			uncontrolled = append(uncontrolled, "select")
		case *ast.ChanType:
			uncontrolled = append(uncontrolled, "channel")
		case *ast.ImportSpec:
			if x.Path.Value == `"sync"` {
				edits = append(edits, ins{off(x.Path.Pos()), len(x.Path.Value), strconv.Quote(mod + "/internal/zzvsync")})
			}
		}
		return true
	})
	if points > 0 {
		edits = append(edits, ins{off(f.Name.End()), 0, "; import vsched_zz " + strconv.Quote(mod+"/internal/zzvsched") + ";"})
	}
	sort.SliceStable(edits, func(i, j int) bool { return edits[i].at < edits[j].at })
	var sb bytes.Buffer
	pos := 0
	for _, e := range edits {
		sb.Write(data[pos:e.at])
		sb.WriteString(e.s)
		pos = e.at + e.del
	}
	sb.Write(data[pos:])
	return sb.Bytes(), points, uncontrolled, nil
}

// packageVars: the names of package-level variables, by directory.
func packageVars(src string) map[string]map[string]bool {
	out := map[string]map[string]bool{}
	filepath.WalkDir(src, func(p string, e fs.DirEntry, err error) error {
		if err != nil || e.IsDir() || !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		f, err := parser.ParseFile(token.NewFileSet(), p, nil, parser.SkipObjectResolution)
		if err != nil {
			return nil
		}
		dir := filepath.Dir(p)
		if out[dir] == nil {
			out[dir] = map[string]bool{}
		}
		for _, d := range f.Decls {
			if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.VAR {
				for _, sp := range g.Specs {
					for _, n := range sp.(*ast.ValueSpec).Names {
						if n.Name != "_" {
							out[dir][n.Name] = true
						}
					}
				}
			}
		}
		return nil
	})
	return out
}

func goBuild(dir, out string, race bool) error {
	args := []string{"build", "-o", out}
	if race {
		args = append(args, "-race")
	}
	ctx, cancel := context.WithTimeout(context.Background(), 300*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, "go", append(args, "./zzverifmain")...)
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), "GOFLAGS=-mod=mod")
	b, err := cmd.CombinedOutput()
	if err != nil {
		return fmt.Errorf("%v: %s", err, clip(string(b), 600))
	}
	return nil
}

// schedRun runs the exploring program on one request.
func schedRun(bin string, q *schedReq, timeout time.Duration) (ans schedAns, race string, ok bool, why string) {
	ctx, cancel := context.WithTimeout(context.Background(), timeout)
	defer cancel()
	b, _ := json.Marshal(q)
	cmd := exec.CommandContext(ctx, bin)
	cmd.Env = append(os.Environ(), "GOTRACEBACK=none", "GORACE=halt_on_error=1 exitcode=66")
	cmd.Stdin = bytes.NewReader(b)
	var ob bytes.Buffer
	eb := &tailBuf{}
	cmd.Stdout, cmd.Stderr = &ob, eb
	if err := cmd.Run(); err != nil {
		if ctx.Err() != nil {
			return ans, "", false, "does not end"
		}
		t := eb.String()
		if ee, is := err.(*exec.ExitError); is && ee.ExitCode() == 66 && strings.Contains(t, "DATA RACE") {
			return ans, t, true, ""
		}
		return ans, "", false, clip(strings.TrimSpace(t), 600) + " (" + err.Error() + ")"
	}
	if err := json.Unmarshal(ob.Bytes(), &ans); err != nil {
		return ans, "", false, "no answer"
	}
	return ans, "", true, ""
}

// schedPairs: the calls that run at the same time.  small ones for statement-level and cold exploration.
func schedCalls() (small, rich []Call) {
	q := "CREATE TABLE t (\naa INTEGER NOT NULL,b TEXT DEFAULT \"q\" CHECK (b>'1'),UNIQUE(aa,b));"
	small = []Call{
		{0, "CREATE TABLE t (aa INTEGER);"},
		{1, "CREATE TABLE t (aa INTEGER);"},
		{2, "CREATE TABLE t (aa INTEGER);"},
		{0, "CREATE TABLE u (\nb TEXT DEFAULT 'x');"},
		{1, "CREATE TABLE s.u (\nb VARCHAR(5) CHECK (b>1));"},
		{2, "CREATE TABLE u (b INT AUTO_INCREMENT,\nPRIMARY KEY (b));"},
		{0, "CREATE TABLE u (\nb TEXT REFERENCES);"},
		{6, "CREATE TABLE v (cc SERIAL UNIQUE);"},
	}
	rich = []Call{
		{3, q}, {4, q}, {5, q},
		{0, "CREATE VIEW v AS SELECT 1;\nCREATE TABLE x.p (aa TEXT COLLATE nocase PRIMARY KEY AUTOINCREMENT,\nFOREIGN KEY (aa,b) REFERENCES r(x,y) ON DELETE CASCADE);"},
		{1, "CREATE TABLE IF NOT EXISTS p (n NUMERIC(5,2) DEFAULT -1.5,\nat TIMESTAMP(3) WITH TIME ZONE,CONSTRAINT kk PRIMARY KEY(n) INCLUDE(at)) TABLESPACE ts;"},
		{2, "CREATE TABLE p (n DECIMAL(5,2) DEFAULT (f(1,2)) COMMENT 'x',/* c */\nINDEX ix(n),CONSTRAINT ck CHECK(n<>1)) ENGINE=InnoDB;"},
		{2, "CREATE TABLE p (n INT,\n\nFOREIGN KEY (n) REFERENCES q(b) ON DELETE CASCADE ON DELETE);"},
		{6, "CREATE TABLE p (n INT COMMENT 'x', KEY (n));"},
	}
	return
}

func exploreSched(tier string, dl time.Time) *Outcome {
	begin := time.Now()
	o := &Outcome{Groups: map[string]int64{}, Exhaustive: true, Extra: map[string]int64{}}
	thorough := tier == "thorough"
	tmp, err := os.MkdirTemp("", "mc-sched-")
	if err != nil {
		o.Notes, o.Exhaustive = append(o.Notes, err.Error()), false
		return o
	}
	defer os.RemoveAll(tmp)
	copyDir := filepath.Join(tmp, "src")
	bin, rbin := filepath.Join(tmp, "sched"), filepath.Join(tmp, "sched-race")
	points, un, err := instrument(repoDir(), copyDir, false)
	controlled := err == nil && len(un) == 0
	if controlled {
		err = goBuild(copyDir, bin, false)
		controlled = err == nil
	}
	if !controlled {
		why := "the tree cannot be put under the controlled scheduler: "
		if err != nil {
			why += err.Error()
		} else {
			why += strings.Join(un, "; ")
		}
		o.Notes = append(o.Notes, clip(why, 600))
		o.Exhaustive = false
		return freeRun(o, tmp, dl)
	}
	raceErr := goBuild(copyDir, rbin, true)
	if raceErr != nil {
		o.Notes = append(o.Notes, "no race detector here: "+clip(raceErr.Error(), 300))
		o.Exhaustive = false
	}
	o.Extra["scheduling_points_in_source"] = points

	small, rich := schedCalls()
	all := append(append([]Call{}, small...), rich...)
	want := make([]string, len(all))
	var mu sync.Mutex
	var bad []string
	parallel(len(all), func(i int) {
		// alone, instrumented and not: the copy must behave like the code itself
		a, _, ok, why := schedRun(bin, &schedReq{Calls: all[i : i+1], Mode: "alone", Lvl: 1}, 60*time.Second)
		h, ok2, why2 := runHistChild(&histReq{Calls: all[i : i+1]})
		mu.Lock()
		defer mu.Unlock()
		if !ok || !ok2 {
			bad = append(bad, all[i].String()+" does not return alone (C01's concern): "+why+why2)
			return
		}
		if a.Got[0] != h.Got[0] {
			bad = append(bad, all[i].String()+": the instrumented copy does not behave like the code")
			return
		}
		want[i] = a.Got[0]
		o.Parses += 2
		o.Extra["statement_steps_"+fmt.Sprintf("%02d", i)] = a.Steps[0]
	})
	if len(bad) > 0 {
		o.Notes = append(o.Notes, bad...)
		o.Exhaustive = false
		return freeRun(o, tmp, dl)
	}
	o.Traces += int64(len(all))

	type job struct {
		bin   string
		q     schedReq
		label string
		cold  bool
	}
	var jobs []job
	pair := func(i, j int) ([]Call, []string) {
		return []Call{all[i], all[j]}, []string{want[i], want[j]}
	}
	secs := int(time.Until(dl)/time.Second) - 5
	sweep := func(label, b string, ids []int, lvl int, bound int, shards int64) {
		var cs []Call
		var ws []string
		for _, i := range ids {
			cs, ws = append(cs, all[i]), append(ws, want[i])
		}
		for s := int64(0); s < shards; s++ {
			jobs = append(jobs, job{b, schedReq{Calls: cs, Want: ws, Mode: "sweep", Lvl: lvl, Bound: bound, From: s, Mod: shards, Secs: secs}, label, false})
		}
	}
	const atFunc, atStmt, atShared = 0, 1, 2
	nS, nAll := len(small), len(all)
	eachPair := func(n int, f func(i, j int)) {
		for i := 0; i < n; i++ {
			for j := i; j < n; j++ {
				f(i, j)
			}
		}
	}
	// first calls of a process: every schedule in a process of its own
	coldSteps := map[[2]int]int64{}
	cold := func(i, j, lvl int, label string) {
		for first, id := range []int{i, j} {
			key := [2]int{id, lvl}
			n, ok := coldSteps[key]
			if !ok {
				a, _, ok2, _ := schedRun(bin, &schedReq{Calls: all[id : id+1], Mode: "alone", Lvl: lvl}, 60*time.Second)
				if !ok2 {
					continue
				}
				n = a.Steps[0]
				coldSteps[key] = n
			}
			for k := int64(0); k < n; k++ {
				cs, ws := pair(i, j)
				jobs = append(jobs, job{bin, schedReq{Calls: cs, Want: ws, Mode: "one", Lvl: lvl, First: first, Sw: []int64{k}, To: []int{1 - first}}, label, true})
			}
		}
	}
	eachPair(nAll, func(i, j int) {
		if thorough || i == j || i < nS && j < nS {
			cold(i, j, atShared, "2 first calls of a process, shared-state points, 1 preemption")
		}
	})
	for _, p := range [][2]int{{0, 0}, {0, 1}, {1, 4}, {2, 2}} {
		if thorough {
			cold(p[0], p[1], atStmt, "2 first calls of a process, every statement, 1 preemption")
		} else {
			cold(p[0], p[1], atFunc, "2 first calls of a process, every function entry, 1 preemption")
		}
	}
	if raceErr == nil {
		for i := 0; i < nAll; i++ {
			for _, j := range []int{i, (i + 1) % nAll, (i + 3) % nAll} {
				cs, ws := pair(i, j)
				jobs = append(jobs, job{rbin, schedReq{Calls: cs, Want: ws, Mode: "one", First: 0}, "2 first calls of a process under the race detector", true})
			}
		}
		eachPair(nAll, func(i, j int) {
			if thorough || i == j && i < 4 {
				sweep("2 calls under the race detector, every function entry, 1 preemption", rbin, []int{i, j}, atFunc, 1, 4)
			} else {
				sweep("2 calls under the race detector, shared-state points, 1 preemption", rbin, []int{i, j}, atShared, 1, 1)
			}
		})
	}
	eachPair(nAll, func(i, j int) {
		if thorough || i < nS && j < nS && (j-i)%nS <= 1 {
			sweep("2 calls, every statement, 1 preemption", bin, []int{i, j}, atStmt, 1, 1)
		} else if i < nS && j < nS || i >= nS && (i == j || i+1 == j) {
			sweep("2 calls, every function entry, 1 preemption", bin, []int{i, j}, atFunc, 1, 1)
		}
	})
	eachPair(nAll, func(i, j int) {
		sweep("2 calls, shared-state points, 3 preemptions", bin, []int{i, j}, atShared, 3, 1)
	})
	for _, t := range [][]int{{0, 1, 2}, {3, 4, 5}, {0, 0, 6}, {1, 5, 7}} {
		if thorough {
			sweep("3 calls, shared-state points, 3 preemptions", bin, t, atShared, 3, 8)
			sweep("3 calls, every statement, 1 preemption", bin, t, atStmt, 1, 4)
		} else {
			sweep("3 calls, shared-state points, 2 preemptions", bin, t, atShared, 2, 1)
		}
	}
	if thorough {
		for _, p := range [][2]int{{0, 0}, {0, 1}, {1, 4}, {2, 2}, {0, 6}} {
			sweep("2 calls, shared-state points, 5 preemptions", bin, []int{p[0], p[1]}, atShared, 5, 8)
			sweep("2 calls, every function entry, 2 preemptions", bin, []int{p[0], p[1]}, atFunc, 2, 16)
		}
	}
	// a job that was cut short or failed
	grids := map[string]bool{}
	parallel(len(jobs), func(k int) {
		mu.Lock()
		stop := o.Violation != nil
		mu.Unlock()
		if stop {
			return
		}
		j := &jobs[k]
		left := time.Until(dl)
		if left < 2*time.Second {
			mu.Lock()
			if o.Exhaustive {
				o.Exhaustive = false
				o.Notes = append(o.Notes, "the time limit ended the exploration in part: "+j.label)
			}
			mu.Unlock()
			return
		}
		if j.q.Secs > int(left/time.Second)-1 {
			j.q.Secs = int(left/time.Second) - 1
		}
		run := func() (schedAns, string) {
			a, race, ok, why := schedRun(j.bin, &j.q, time.Duration(j.q.Secs)*time.Second+60*time.Second)
			switch {
			case race != "":
				return a, "data race between the calls: " + clip(race, 1200)
			case !ok:
				return a, "the calls do not return normally when run together: " + why
			}
			return a, a.Msg
		}
		t0 := time.Now()
		a, msg := run()
		if os.Getenv("MC_TIMES") != "" && time.Since(t0) > 2*time.Second {
			fmt.Fprintf(os.Stderr, "%.1fs +%.1fs %s %s\n", time.Since(begin).Seconds(), time.Since(t0).Seconds(), j.label, clip(fmt.Sprint(j.q.Calls), 80))
		}
		if msg != "" {
			for i := 0; i < 4 && msg != ""; i++ {
				if _, m := run(); m == "" {
					msg = ""
				}
			}
		}
		mu.Lock()
		defer mu.Unlock()
		o.Groups[j.label] += max64(a.N, 1)
		o.Extra["steps_executed"] += a.Points
		if len(a.Steps) == len(j.q.Calls) && !a.Cut {
			// the bounded schedules pass through every combination of thread positions
			key := fmt.Sprint(j.q.Lvl, j.q.Calls)
			if !grids[key] {
				grids[key] = true
				st := int64(1)
				for _, n := range a.Steps {
					st *= n + 1
				}
				o.States += st
				for _, n := range a.Steps {
					o.Transitions += st / (n + 1) * n
				}
			}
		}
		o.Traces += max64(a.N, 1)
		o.Parses += max64(a.N, 1) * int64(len(j.q.Calls))
		if a.Cut {
			o.Exhaustive = false
		}
		if len(o.Samples) < 10 && k%13 == 0 {
			o.Samples = append(o.Samples, map[string]interface{}{"part": j.label, "calls": callStrings(j.q.Calls), "schedules": max64(a.N, 1)})
		}
		if msg != "" && o.Violation == nil {
			xs := callStrings(j.q.Calls)
			o.Violation = &Violation{Case: &Case{K: "schedule", A: strings.Join(xs, "\n"), X: append(xs, j.label, fmt.Sprintf("first=%d switch at steps %v to threads %v", a.First, a.Sw, a.To))}, Seq: int64(k), Msg: j.label + ": " + msg}
		}
	})
	for _, v := range o.Groups {
		o.Cases += v
	}
	if o.Violation != nil {
		o.Exhaustive = false
	}
	return o
}

func max64(a, b int64) int64 {
	if a > b {
		return a
	}
	return b
}

func callStrings(cs []Call) []string {
	var xs []string
	for _, c := range cs {
		xs = append(xs, c.String())
	}
	return xs
}

// freeRun: the calls really run in parallel, under the race detector; nothing is enumerated.
func freeRun(o *Outcome, tmp string, dl time.Time) *Outcome {
	dir, bin := filepath.Join(tmp, "plain"), filepath.Join(tmp, "free")
	if _, _, err := instrument(repoDir(), dir, true); err != nil {
		o.Notes = append(o.Notes, "no free-running pass: "+err.Error())
		return o
	}
	if err := goBuild(dir, bin, true); err != nil {
		o.Notes = append(o.Notes, "no free-running pass: "+err.Error())
		return o
	}
	small, rich := schedCalls()
	all := append(append([]Call{}, small...), rich...)
	want := make([]string, len(all))
	for i := range all {
		h, ok, _ := runHistChild(&histReq{Calls: all[i : i+1]})
		if !ok {
			o.Notes = append(o.Notes, "a single call does not return")
			return o
		}
		want[i] = h.Got[0]
	}
	q := &schedReq{Calls: all, Want: want, Mode: "free", Secs: 10}
	bad := 0
	msg := ""
	for i := 0; i < 3; i++ {
		a, race, ok, why := schedRun(bin, q, 120*time.Second)
		o.Parses += a.N * int64(len(all))
		o.Traces += a.N
		o.Cases += a.N
		m := a.Msg
		if race != "" {
			m = "data race between the calls: " + clip(race, 1200)
		} else if !ok {
			m = "the calls do not return normally when run together: " + why
		}
		if m == "" {
			break
		}
		bad++
		msg = m
	}
	if bad == 3 {
		xs := callStrings(all)
		o.Violation = &Violation{Case: &Case{K: "free", A: strings.Join(xs, "\n"), X: xs}, Msg: msg}
	}
	return o
}

func schedMain(a []string) {
	// mc sched <dst>: writes the instrumented copy, for inspection
	n, un, err := instrument(repoDir(), a[0], false)
	fmt.Println(n, un, err)
}

func init() {
	register(&Check{ID: "C20", Custom: exploreSched,
		Rule: "an instrumented copy of the tree runs 2 (or 3) calls one step at a time; every placement of up to the stated number of preemptions is executed, warm in one process and cold in a process each, and again under the race detector with hand-overs it cannot see; every call must give what it gives alone",
	})
}
