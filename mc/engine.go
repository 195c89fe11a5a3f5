package main

import (
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
	"unsafe"
)

// Case is one execution (or a few related ones) to be judged.  It is self-contained: a replay file
// holds exactly this.
type Case struct {
	K string   `json:"kind"`
	D int      `json:"dialect"`
	A string   `json:"a"`
	B string   `json:"b,omitempty"`
	F uint32   `json:"facets,omitempty"`
	N []int    `json:"n,omitempty"`
	X []string `json:"x,omitempty"`
}

// Check is the machinery of one property.
type Check struct {
	ID      string
	Explore func(e *Explorer)
	Judges  map[string]func(w *Worker, c *Case) string
	Bounds  func(tier string) []string // stated bounds
	Rule    string
	// custom replaces the case engine altogether (C19 histories, C20 schedules)
	Custom func(tier string, dl time.Time) *Outcome
}

type Violation struct {
	Case *Case  `json:"case"`
	Seq  int64  `json:"seq"`
	Msg  string `json:"message"`
}

// Outcome is what a run covered and found.
type Outcome struct {
	Cases       int64            `json:"cases"`
	Parses      int64            `json:"parses"`
	Accepted    int64            `json:"accepted"`
	Rejected    int64            `json:"rejected"`
	Unspec      int64            `json:"unspecified"`
	States      int64            `json:"states"`
	Transitions int64            `json:"transitions"`
	Traces      int64            `json:"traces"`
	Groups      map[string]int64 `json:"groups"`
	Samples     []interface{}    `json:"samples"`
	Exhaustive  bool             `json:"exhaustive"`
	Notes       []string         `json:"notes"`
	Violation   *Violation       `json:"violation"`
	Extra       map[string]int64 `json:"extra,omitempty"`
	Skipped     int64            `json:"skipped"`
}

type seqCase struct {
	seq int64
	c   Case
}

// Worker judges cases on its own goroutine.
type Worker struct {
	id      int
	rp      refParser
	e       *Explorer
	states  map[uint64]struct{}
	edges   map[uint64]struct{}
	parses  int64
	traces  int64
	verd    [3]int64
	outcome map[string]int64
}

const slotBytes = 64

// Explorer feeds an enumeration to the workers.
type Explorer struct {
	Tier       string
	check      *Check
	deadline   time.Time
	seq        int64
	batch      []seqCase
	batchBytes int
	ch         chan []seqCase
	stop       atomic.Bool
	timedOut   atomic.Bool
	mu         sync.Mutex
	viol       *Violation
	only       int64 // when >= 0: judge just that case
	onlyCase   *Case
	skip       map[int64]bool
	slots      []byte
	group      string
	groups     map[string]int64
	samples    []interface{}
	sampleAt   int64
	seen       map[uint64]struct{} // for Dedup
	force      uint32              // facets compared in addition
	did        map[string]bool     // with force: shared parts already done
}

func (e *Explorer) Thorough() bool { return e.Tier == "thorough" }

// Pick: the bound for the tier.
func (e *Explorer) Pick(quick, thorough int) int {
	if e.Thorough() {
		return thorough
	}
	return quick
}

// Group names the part of the exploration that follows.
func (e *Explorer) Group(name string) { e.group = name }

// again: with force, a shared part runs only once.
func (e *Explorer) again(part string) bool {
	if e.force == 0 {
		return false
	}
	if e.did == nil {
		e.did = map[string]bool{}
	}
	r := e.did[part]
	e.did[part] = true
	return r
}

func (e *Explorer) Stopped() bool { return e.stop.Load() }

func (e *Explorer) Emit(c Case) {
	if e.stop.Load() {
		return
	}
	seq := e.seq
	e.seq++
	if e.only >= 0 {
		if seq == e.only {
			cc := c
			e.onlyCase = &cc
			e.stop.Store(true)
		}
		return
	}
	if e.skip[seq] {
		return
	}
	e.groups[e.group]++
	n := e.groups[e.group]
	if n <= 2 || n == 50 {
		if len(e.samples) < 60 {
			s := map[string]interface{}{"part": e.group, "kind": c.K, "dialect": dialectName[c.D%3], "text": clip(c.A, 300)}
			if c.B != "" {
				s["text2"] = clip(c.B, 300)
			}
			e.samples = append(e.samples, s)
		}
	}
	e.batch = append(e.batch, seqCase{seq, c})
	e.batchBytes += len(c.A) + len(c.B)
	if len(e.batch) >= 32 || e.batchBytes > 1<<20 {
		e.flush()
		if !e.deadline.IsZero() && time.Now().After(e.deadline) {
			e.timedOut.Store(true)
			e.stop.Store(true)
		}
	}
}

func (e *Explorer) flush() {
	if len(e.batch) > 0 {
		e.ch <- e.batch
		e.batch = make([]seqCase, 0, 32)
		e.batchBytes = 0
	}
}

// Diff: the text is judged against the model, in the given facets.
func (e *Explorer) Diff(d int, text string, mask uint32) {
	e.Emit(Case{K: "diff", D: d, A: text, F: mask | e.force})
}

// Dedup reports whether the key is new.
func (e *Explorer) Dedup(d int, s string) bool {
	h := fnv(s) ^ uint64(d)*0x9e3779b97f4a7c15
	if _, ok := e.seen[h]; ok {
		return false
	}
	e.seen[h] = struct{}{}
	return true
}

func fnv(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h ^= uint64(s[i])
		h *= 1099511628211
	}
	return h
}

// Ref runs the model and records the states and transitions it passes through.
func (w *Worker) Ref(text string, d int) *Ref {
	r := w.rp.Parse(text, d, true)
	w.verd[r.V]++
	prev := uint64(0)
	for i, h := range r.States {
		w.states[h] = struct{}{}
		if i > 0 {
			w.edges[prev*0x9e3779b97f4a7c15^h] = struct{}{}
		}
		prev = h
	}
	if r.V == Reject && !r.LexErr && len(r.Errs) > 0 && r.Errs[0].TokIndex < len(r.Lex.Toks) {
		// the refused transition
		w.edges[prev*0x9e3779b97f4a7c15^fnv(asciiUpper(r.Errs[0].Near))] = struct{}{}
	}
	return r
}

func (w *Worker) Parse(text string, d int) Res {
	w.parses++
	return parse(text, d)
}

func judgeDiff(w *Worker, c *Case) string {
	ref := w.Ref(c.A, c.D)
	r := w.Parse(c.A, c.D)
	w.traces++
	return verdict(ref, r, c.D, c.F)
}

func (ck *Check) judge(w *Worker, c *Case) string {
	if j := ck.Judges[c.K]; j != nil {
		return j(w, c)
	}
	if c.K == "diff" {
		return judgeDiff(w, c)
	}
	panic("no judge for " + c.K)
}

func newWorker(i int, e *Explorer) *Worker {
	return &Worker{id: i, e: e, states: map[uint64]struct{}{}, edges: map[uint64]struct{}{}, outcome: map[string]int64{}}
}

func (w *Worker) slot() (*int64, *int64) {
	p := unsafe.Pointer(&w.e.slots[w.id*slotBytes])
	return (*int64)(p), (*int64)(unsafe.Add(p, 8))
}

const (
	exitSuspect = 77
	hangLimit   = 20 * time.Second
	memLimit    = 10 << 30
)

// watch ends the process when a case hangs or memory runs away; the supervisor then looks closer.
func watch(slots []byte, n int) {
	for {
		time.Sleep(50 * time.Millisecond)
		now := time.Now().UnixNano()
		for i := 0; i < n; i++ {
			st := atomic.LoadInt64((*int64)(unsafe.Pointer(&slots[i*slotBytes+8])))
			if st != 0 && now-st > int64(hangLimit) {
				fmt.Fprintln(os.Stderr, "suspect: a case does not end")
				os.Exit(exitSuspect)
			}
		}
		b, err := os.ReadFile("/proc/self/statm")
		if err == nil {
			f := strings.Fields(string(b))
			var pages int64
			fmt.Sscan(f[1], &pages)
			if pages*int64(os.Getpagesize()) > memLimit {
				fmt.Fprintln(os.Stderr, "suspect: memory runs away")
				os.Exit(exitSuspect)
			}
		}
	}
}

func mapSlots(path string) ([]byte, error) {
	f, err := os.OpenFile(path, os.O_RDWR|os.O_CREATE, 0o644)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	if err := f.Truncate(4096); err != nil {
		return nil, err
	}
	return syscall.Mmap(int(f.Fd()), 0, 4096, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
}

// explore runs the whole enumeration of a check in this process.
func explore(ck *Check, tier string, dl time.Time, slots []byte, skip map[int64]bool) *Outcome {
	debug.SetMaxStack(400 << 20)
	debug.SetGCPercent(400)
	debug.SetMemoryLimit(4 << 30)
	nw := runtime.NumCPU()
	if os.Getenv("MC_SERIAL") != "" {
		nw = 1
	}
	if nw > 16 {
		nw = 16
	}
	e := &Explorer{Tier: tier, check: ck, deadline: dl, ch: make(chan []seqCase, 4*nw), only: -1, skip: skip, slots: slots,
		groups: map[string]int64{}, seen: map[uint64]struct{}{}}
	go watch(slots, nw)
	var wg sync.WaitGroup
	ws := make([]*Worker, nw)
	for i := range ws {
		ws[i] = newWorker(i, e)
		wg.Add(1)
		go func(w *Worker) {
			defer wg.Done()
			ps, pt := w.slot()
			for b := range e.ch {
				for k := range b {
					if e.stop.Load() && e.viol != nil {
						break
					}
					atomic.StoreInt64(ps, b[k].seq)
					atomic.StoreInt64(pt, time.Now().UnixNano())
					msg := ck.judge(w, &b[k].c)
					atomic.StoreInt64(pt, 0)
					if msg != "" {
						e.report(&b[k], msg)
					}
				}
			}
		}(ws[i])
	}
	ck.Explore(e)
	e.flush()
	close(e.ch)
	wg.Wait()
	o := &Outcome{Cases: 0, Groups: e.groups, Samples: e.samples, Exhaustive: !e.timedOut.Load() && e.viol == nil, Violation: e.viol}
	st, ed := map[uint64]struct{}{}, map[uint64]struct{}{}
	o.Extra = map[string]int64{}
	for _, w := range ws {
		o.Parses += w.parses
		o.Traces += w.traces
		o.Accepted += w.verd[Accept]
		o.Rejected += w.verd[Reject]
		o.Unspec += w.verd[Unspecified]
		for h := range w.states {
			st[h] = struct{}{}
		}
		for h := range w.edges {
			ed[h] = struct{}{}
		}
		for k, v := range w.outcome {
			o.Extra[k] += v
		}
	}
	o.States, o.Transitions = int64(len(st)), int64(len(ed))
	for _, n := range e.groups {
		o.Cases += n
	}
	if e.timedOut.Load() {
		o.Notes = append(o.Notes, "the time limit ended the enumeration in part: "+e.group)
	}
	return o
}

// report keeps the earliest violation, after judging the case again five times.
func (e *Explorer) report(sc *seqCase, msg string) {
	w := newWorker(0, e)
	for i := 0; i < 5; i++ {
		if m := e.check.judge(w, &sc.c); m == "" {
			// not reproducible in this process state: a different property (C19, C20) owns that
			return
		}
	}
	e.mu.Lock()
	defer e.mu.Unlock()
	if e.viol == nil || sc.seq < e.viol.Seq {
		c := sc.c
		e.viol = &Violation{Case: &c, Seq: sc.seq, Msg: msg}
	}
	e.stop.Store(true)
}

// nth re-enumerates to find one case.
func nth(ck *Check, tier string, seq int64) *Case {
	e := &Explorer{Tier: tier, check: ck, only: seq, groups: map[string]int64{}, seen: map[uint64]struct{}{}}
	ck.Explore(e)
	return e.onlyCase
}

func writeJSON(path string, v interface{}) error {
	b, err := json.MarshalIndent(v, "", " ")
	if err != nil {
		return err
	}
	return os.WriteFile(path, append(b, '\n'), 0o644)
}

func sortedKeys(m map[string]int64) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
