package main

import (
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
	"unsafe"
)

var checks = map[string]*Check{}

func register(c *Check) { checks[c.ID] = c }

func root() string {
	if r := os.Getenv("MC_ROOT"); r != "" {
		return r
	}
	return "/verif"
}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: mc run|work|one|replay|hist ...")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "run":
		loadSource()
		supervise(os.Args[2], os.Args[3])
	case "work":
		loadSource()
		work(os.Args[2:])
	case "one":
		loadSource()
		oneCase(os.Args[2:])
	case "replay":
		replay(os.Args[2])
	case "hist":
		histChild(os.Args[2:])
	case "sched":
		schedMain(os.Args[2:])
	default:
		os.Exit(2)
	}
}

func limits(tier string) (soft time.Duration) {
	if v := os.Getenv("MC_SOFT"); v != "" {
		n, _ := strconv.Atoi(v)
		return time.Duration(n) * time.Second
	}
	if tier == "thorough" {
		return 40 * time.Minute
	}
	return 150 * time.Second
}

func work(a []string) {
	id, tier, out, slotFile := a[0], a[1], a[2], a[3]
	skip := map[int64]bool{}
	if len(a) > 4 && a[4] != "" {
		for _, s := range strings.Split(a[4], ",") {
			n, _ := strconv.ParseInt(s, 10, 64)
			skip[n] = true
		}
	}
	slots, err := mapSlots(slotFile)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	ck := checks[id]
	o := explore(ck, tier, time.Now().Add(limits(tier)), slots, skip)
	if err := writeJSON(out, o); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
}

// one judges a single case of an enumeration in a process of its own.
func oneCase(a []string) {
	id, tier, out := a[0], a[1], a[3]
	seq, _ := strconv.ParseInt(a[2], 10, 64)
	ck := checks[id]
	c := nth(ck, tier, seq)
	if c == nil {
		os.Exit(4)
	}
	writeJSON(out, &Violation{Case: c, Seq: seq, Msg: "does not return normally"})
	runCase(ck, c, out, seq)
}

func runCase(ck *Check, c *Case, out string, seq int64) {
	debug.SetMaxStack(400 << 20)
	slots := make([]byte, 4096)
	go watch(slots, 1)
	e := &Explorer{check: ck, slots: slots}
	w := newWorker(0, e)
	_, pt := w.slot()
	atomic.StoreInt64(pt, time.Now().UnixNano())
	msg := ck.judge(w, c)
	if msg != "" {
		if out != "" {
			writeJSON(out, &Violation{Case: c, Seq: seq, Msg: msg})
		}
		fmt.Println("violated:", clip(msg, 2000))
		os.Exit(1)
	}
	fmt.Println("held")
	os.Exit(0)
}

func replay(path string) {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	var r struct {
		Property string `json:"property"`
		Violation
	}
	if err := json.Unmarshal(b, &r); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	ck := checks[r.Property]
	if ck.Custom != nil {
		fmt.Println("this property's executions are replayed by its check:", clip(r.Msg, 2000))
		os.Exit(1)
	}
	fmt.Printf("dialect %s\n%s\n", dialectName[r.Case.D%3], clip(r.Case.A, 2000))
	runCase(ck, r.Case, "", 0)
}

func supervise(id, tier string) {
	start := time.Now()
	ck := checks[id]
	if ck == nil {
		fmt.Fprintln(os.Stderr, "unknown property", id)
		os.Exit(2)
	}
	tmp, err := os.MkdirTemp("", "mc-"+id+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	defer os.RemoveAll(tmp)
	var o *Outcome
	if ck.Custom != nil {
		o = ck.Custom(tier, time.Now().Add(limits(tier)))
	} else {
		o = superviseCases(ck, tier, tmp)
	}
	code := finish(ck, tier, o, time.Since(start))
	os.RemoveAll(tmp)
	os.Exit(code)
}

func superviseCases(ck *Check, tier, tmp string) *Outcome {
	self, _ := os.Executable()
	var skip []string
	var notes []string
	serial := false
	begin := time.Now()
	for round := 0; round < 8 && time.Since(begin) < 2*limits(tier); round++ {
		out := filepath.Join(tmp, fmt.Sprintf("out%d.json", round))
		slotFile := filepath.Join(tmp, fmt.Sprintf("slots%d", round))
		cmd := exec.Command(self, "work", ck.ID, tier, out, slotFile, strings.Join(skip, ","))
		cmd.Env = append(os.Environ(), "GOTRACEBACK=none")
		if serial {
			cmd.Env = append(cmd.Env, "GOMAXPROCS=1", "MC_SERIAL=1")
		}
		eb := &tailBuf{}
		cmd.Stderr = eb
		err := cmd.Run()
		if err == nil {
			b, e2 := os.ReadFile(out)
			var o Outcome
			if e2 == nil && json.Unmarshal(b, &o) == nil {
				o.Notes = append(o.Notes, notes...)
				o.Skipped = int64(len(skip))
				return &o
			}
			notes = append(notes, "a worker left no result")
			continue
		}
		notes = append(notes, "worker ended early: "+clip(strings.TrimSpace(eb.String()), 200))
		// which case was it?
		found := false
		seqs := suspects(slotFile)
		sort.Slice(seqs, func(i, j int) bool { return seqs[i] < seqs[j] })
		vs := make([]*Violation, len(seqs))
		var wg sync.WaitGroup
		for i, seq := range seqs {
			wg.Add(1)
			go func(i int, seq int64) {
				defer wg.Done()
				if v, bad := confirm(self, ck, tier, seq, filepath.Join(tmp, fmt.Sprintf("one%d.json", seq))); bad {
					vs[i] = v
				}
			}(i, seq)
		}
		wg.Wait()
		for i, v := range vs {
			if v == nil {
				continue
			}
			if crashCounts(v.Case) {
				// once more, alone, to be sure
				if _, again := confirm(self, ck, tier, seqs[i], filepath.Join(tmp, fmt.Sprintf("one%d.json", seqs[i]))); again {
					return &Outcome{Violation: v, Notes: notes, Groups: map[string]int64{}}
				}
				continue
			}
			skip = append(skip, strconv.FormatInt(seqs[i], 10))
			notes = append(notes, fmt.Sprintf("case %d does not return; that is C01's concern: skipped", seqs[i]))
			found = true
		}
		if !found {
			serial = true
		}
	}
	return &Outcome{Notes: append(notes, "gave up"), Groups: map[string]int64{}, Skipped: int64(len(skip))}
}

func crashCounts(c *Case) bool {
	if c.K != "diff" || c.F&fPanic != 0 {
		return true
	}
	var rp refParser
	return c.F&fRej != 0 && rp.Parse(c.A, c.D, false).V == Reject // it had to be rejected
}

func suspects(slotFile string) []int64 {
	b, err := os.ReadFile(slotFile)
	if err != nil {
		return nil
	}
	var out []int64
	for i := 0; i+slotBytes <= len(b); i += slotBytes {
		seq := *(*int64)(unsafe.Pointer(&b[i]))
		st := *(*int64)(unsafe.Pointer(&b[i+8]))
		if st != 0 {
			out = append(out, seq)
		}
	}
	return out
}

func confirm(self string, ck *Check, tier string, seq int64, vf string) (*Violation, bool) {
	ctx, cancel := context.WithTimeout(context.Background(), 100*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, self, "one", ck.ID, tier, strconv.FormatInt(seq, 10), vf)
	cmd.Env = append(os.Environ(), "GOTRACEBACK=none")
	err := cmd.Run()
	if err == nil {
		return nil, false
	}
	if ee, ok := err.(*exec.ExitError); ok && (ee.ExitCode() == 3 || ee.ExitCode() == 4) {
		return nil, false
	}
	b, e2 := os.ReadFile(vf)
	var v Violation
	if e2 != nil || json.Unmarshal(b, &v) != nil {
		return nil, false
	}
	return &v, true
}

type tailBuf struct{ b []byte }

func (t *tailBuf) Write(p []byte) (int, error) {
	if len(t.b) < 4096 {
		t.b = append(t.b, p...)
	}
	return len(p), nil
}
func (t *tailBuf) String() string { return string(t.b) }

// finish writes the evidence, prints the verdict and gives the exit code.
func finish(ck *Check, tier string, o *Outcome, wall time.Duration) int {
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	viol := 0
	if o.Violation != nil {
		viol = 1
	}
	cov := map[string]interface{}{
		"states":                        o.States,
		"transitions":                   o.Transitions,
		"traces_validated_against_impl": o.Traces,
		"cases":                         o.Cases,
		"cases_by_part":                 o.Groups,
		"model_verdicts":                map[string]int64{"accept": o.Accepted, "reject": o.Rejected, "unspecified": o.Unspec},
		"samples":                       o.Samples,
		"exhaustive":                    o.Exhaustive,
		"rule":                          ck.Rule,
	}
	if o.Parses != o.Cases {
		cov["executions"] = o.Parses
	}
	if ck.Bounds != nil {
		cov["bounds"] = ck.Bounds(tier)
	}
	if len(o.Notes) > 0 {
		cov["notes"] = o.Notes
	}
	if len(o.Extra) > 0 {
		cov["extra"] = o.Extra
	}
	ev := map[string]interface{}{
		"property": ck.ID, "tier": tier, "seed": seed, "level": "model_checking",
		"coverage": cov, "wall_s": wall.Seconds(), "violations": viol,
		"assumptions": assumptions,
	}
	os.MkdirAll(filepath.Join(root(), "evidence"), 0o755)
	if err := writeJSON(filepath.Join(root(), "evidence", ck.ID+".json"), ev); err != nil {
		fmt.Fprintln(os.Stderr, err)
	}
	fmt.Printf("%s %s: cases=%d executions=%d states=%d transitions=%d accept=%d reject=%d unspecified=%d exhaustive=%v %.1fs\n", ck.ID, tier,
		o.Cases, o.Parses, o.States, o.Transitions, o.Accepted, o.Rejected, o.Unspec, o.Exhaustive, wall.Seconds())
	for _, n := range o.Notes {
		fmt.Println("note:", clip(n, 300))
	}
	if o.Violation == nil {
		return 0
	}
	dir := filepath.Join(root(), "replays")
	os.MkdirAll(dir, 0o755)
	path := filepath.Join(dir, ck.ID+".json")
	writeJSON(path, map[string]interface{}{"property": ck.ID, "case": o.Violation.Case, "seq": o.Violation.Seq, "message": o.Violation.Msg})
	if c := o.Violation.Case; c != nil {
		fmt.Printf("dialect=%s kind=%s\n%s\n", dialectName[c.D%3], c.K, clip(c.A, 800))
		if c.B != "" {
			fmt.Printf("-- and --\n%s\n", clip(c.B, 800))
		}
	}
	fmt.Println(clip(o.Violation.Msg, 1500))
	fmt.Printf("VIOLATION property=%s replay=%s\n", ck.ID, path)
	return 1
}

var assumptions = []string{
	"Go's runtime and standard library behave as documented",
	"the reference model (gram.go, spec.go, tok.go) states the documented grammar; texts it leaves open count as unspecified and are not judged",
	"behaviour beyond the stated bounds follows the behaviour within them",
}
