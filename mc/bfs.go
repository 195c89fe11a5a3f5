package main

import (
	"math/bits"
	"sort"
	"sync"
)

// The state graph of a dialect's grammar machine, explored breadth first over a full vocabulary,
// within bounds on bracket depth and on the number of constraints remembered.

type gEdge struct {
	tok  int // index into the vocabulary
	to   int // -1: refused
	name bool
}

type gNode struct {
	threads  []thread
	parent   int
	tok      int
	accept   bool
	bounded  bool // not expanded
	edges    []gEdge
	distAcc  int
	nextTok  int // first token of a shortest completion
	nextNode int
	nPath    int
	suffix   []int // completion found by trial
}

type graph struct {
	d     int
	vocab []Tok
	ups   []string
	nodes []gNode
}

func vocabulary(d int) []Tok {
	seen := map[string]bool{}
	var ws []string
	add := func(s string) {
		if !seen[s] {
			seen[s] = true
			ws = append(ws, s)
		}
	}
	var walk func(n *Node)
	walk = func(n *Node) {
		if n.term != nil && (n.term.kind == tKw) {
			for _, w := range n.term.words {
				add(w)
			}
		}
		for _, k := range n.kids {
			walk(k)
		}
	}
	walk(specs[d])
	sort.Strings(ws)
	base := []string{"nm", "(", ")", ",", ".", ";", "=", "7", "0", "-2.5", "'s'", "\"dq\"", "BEGIN", "END", "SELECT", "WHERE", "9x", "a-b", "*", "@v"}
	if d != Postgres {
		base = append(base, "`bq`")
	}
	for _, w := range ws {
		base = append(base, w)
	}
	var out []Tok
	done := map[string]bool{}
	for _, w := range base {
		if done[w] {
			continue
		}
		done[w] = true
		l := lexModel(w, d)
		if l.Err || len(l.Toks) != 1 {
			continue
		}
		out = append(out, l.Toks[0])
	}
	return out
}

// bfs: at most maxCons column constraints before the one being read, brackets at most maxDepth deep.
func bfs(d, maxCons, maxDepth int) *graph {
	maxMask := maxCons + 1
	g := &graph{d: d, vocab: vocabulary(d)}
	for i := range g.vocab {
		g.ups = append(g.ups, asciiUpper(g.vocab[i].S))
	}
	var v vm
	v.reset(strict[d])
	index := map[uint64]int{}
	push := func(cur []thread, parent, tok int) int {
		v2 := vm{m: strict[d], cur: cur}
		h := v2.hash()
		if i, ok := index[h]; ok {
			return i
		}
		n := gNode{threads: append([]thread{}, cur...), parent: parent, tok: tok, distAcc: -1}
		for i := range n.threads {
			n.threads[i].ev = nil
		}
		n.accept = v2.matched() != nil
		over := false
		for _, t := range n.threads {
			if bits.OnesCount32(t.mask) > maxMask || t.depth > maxDepth {
				over = true
			}
		}
		n.bounded = over
		if parent >= 0 {
			n.nPath = g.nodes[parent].nPath + 1
		}
		index[h] = len(g.nodes)
		g.nodes = append(g.nodes, n)
		return len(g.nodes) - 1
	}
	push(v.cur, -1, -1)
	for i := 0; i < len(g.nodes); i++ {
		if g.nodes[i].bounded {
			continue
		}
		for t := range g.vocab {
			v.cur = append(v.cur[:0], g.nodes[i].threads...)
			to := -1
			if v.step(g.vocab, t, g.ups[t]) {
				to = push(append([]thread{}, v.cur...), i, t)
			}
			g.nodes[i].edges = append(g.nodes[i].edges, gEdge{tok: t, to: to})
		}
	}
	// shortest completions
	rev := make([][][2]int, len(g.nodes))
	for i := range g.nodes {
		for _, e := range g.nodes[i].edges {
			if e.to >= 0 {
				rev[e.to] = append(rev[e.to], [2]int{i, e.tok})
			}
		}
	}
	var q []int
	for i := range g.nodes {
		if g.nodes[i].accept {
			g.nodes[i].distAcc = 0
			q = append(q, i)
		}
	}
	for len(q) > 0 {
		x := q[0]
		q = q[1:]
		for _, r := range rev[x] {
			n := &g.nodes[r[0]]
			if n.distAcc < 0 {
				n.distAcc = g.nodes[x].distAcc + 1
				n.nextTok, n.nextNode = r[1], x
				q = append(q, r[0])
			}
		}
	}
	// nodes whose completions leave the bounds: try the completions of the others
	var cands [][]int
	seen := map[string]bool{}
	for i := range g.nodes {
		if g.nodes[i].distAcc < 0 {
			continue
		}
		var c []int
		key := ""
		for j := i; g.nodes[j].distAcc > 0; j = g.nodes[j].nextNode {
			c = append(c, g.nodes[j].nextTok)
			key += g.vocab[g.nodes[j].nextTok].S + " "
		}
		if !seen[key] {
			seen[key] = true
			cands = append(cands, c)
		}
	}
	sort.SliceStable(cands, func(a, b int) bool { return len(cands[a]) < len(cands[b]) })
	for i := range g.nodes {
		if g.nodes[i].distAcc >= 0 {
			continue
		}
	next:
		for _, c := range cands {
			v.cur = append(v.cur[:0], g.nodes[i].threads...)
			for _, t := range c {
				if !v.step(g.vocab, t, g.ups[t]) {
					continue next
				}
			}
			if v.matched() != nil {
				g.nodes[i].suffix = c
				break
			}
		}
	}
	return g
}

func (g *graph) path(i int) []string {
	var out []string
	for i > 0 {
		out = append(out, g.vocab[g.nodes[i].tok].S)
		i = g.nodes[i].parent
	}
	for a, b := 0, len(out)-1; a < b; a, b = a+1, b-1 {
		out[a], out[b] = out[b], out[a]
	}
	return out
}

// completion: tokens that lead from node i to an accepted end; ok is false if none is in the graph.
func (g *graph) completion(i int) (out []string, ok bool) {
	if g.nodes[i].distAcc < 0 {
		for _, t := range g.nodes[i].suffix {
			out = append(out, g.vocab[t].S)
		}
		return out, g.nodes[i].suffix != nil
	}
	for g.nodes[i].distAcc > 0 {
		out = append(out, g.vocab[g.nodes[i].nextTok].S)
		i = g.nodes[i].nextNode
	}
	return out, true
}

var graphCache sync.Map

func getGraph(d, maxMask, maxDepth int) *graph {
	k := [3]int{d, maxMask, maxDepth}
	if g, ok := graphCache.Load(k); ok {
		return g.(*graph)
	}
	g := bfs(d, maxMask, maxDepth)
	graphCache.Store(k, g)
	return g
}
