package main

import (
	"strconv"
	"strings"
)

// Derivations of a grammar node with a bounded number of deviations from the default derivation.
// Default: options absent, repetitions empty, first alternative, first spelling.

type derivation struct {
	toks []string
	cost int
}

type deriver struct {
	d   int
	out func(toks []string, cost int)
	ids bool // name placeholders carry the identity of their terminal
	all bool // options and alternatives are free: only repetitions and other spellings count
}

const voidMark = "\x01"

func (g *deriver) gen(n *Node, budget int, pre []string, k func(pre []string, budget int)) {
	if n.lenient || budget < 0 {
		return
	}
	if n.void {
		nn := *n
		nn.void = false
		l := len(pre)
		g.gen(&nn, budget, pre, func(p []string, b int) {
			if len(p) > l {
				p = append([]string{}, p...)
				for i := l; i < len(p); i++ {
					p[i] = voidMark + p[i]
				}
			}
			k(p, b)
		})
		return
	}
	switch n.k {
	case nTok:
		if g.ids && n.term.kind == tName {
			k(append(pre[:len(pre):len(pre)], "@:"+strconv.Itoa(n.term.id)), budget)
			return
		}
		for i, s := range n.term.samples {
			c := 0
			if i > 0 {
				c = 1
			}
			if c > budget {
				break
			}
			k(append(pre[:len(pre):len(pre)], s), budget-c)
		}
		if g.all {
			return
		}
		if n.term.kind == tName && budget >= 1 {
			k(append(pre[:len(pre):len(pre)], "@q"), budget-1)
		}
		if n.term.kind == tStr && budget >= 1 {
			k(append(pre[:len(pre):len(pre)], "'a b;('"), budget-1)
			k(append(pre[:len(pre):len(pre)], "''"), budget-1)
		}
	case nSeq:
		g.seq(n.kids, budget, pre, k)
	case nAlt:
		first := true
		for _, a := range n.kids {
			if a.lenient {
				continue
			}
			c := 1
			if first || g.all {
				c = 0
			}
			first = false
			if c <= budget {
				g.gen(a, budget-c, pre, k)
			}
		}
	case nOpt:
		k(pre, budget)
		c := 1
		if g.all {
			c = 0
		}
		if budget >= c && !n.kids[0].lenient {
			g.gen(n.kids[0], budget-c, pre, k)
		}
	case nStar:
		k(pre, budget)
		if budget >= 1 {
			g.gen(n.kids[0], budget-1, pre, func(p []string, b int) {
				g.gen(n, b, p, k)
			})
		}
	case nBracket, nOther:
		for i, s := range n.samples {
			c := 0
			if i > 0 {
				c = 1
			}
			if c > budget {
				break
			}
			k(append(pre[:len(pre):len(pre)], s...), budget-c)
		}
	default:
		k(pre, budget)
	}
}

func (g *deriver) seq(kids []*Node, budget int, pre []string, k func(pre []string, budget int)) {
	if len(kids) == 0 {
		k(pre, budget)
		return
	}
	g.gen(kids[0], budget, pre, func(p []string, b int) {
		g.seq(kids[1:], b, p, k)
	})
}

// derive lists the derivations of n with at most budget deviations, cheapest first within a node.
func derive(n *Node, d, budget int) [][]string {
	var out [][]string
	g := &deriver{d: d}
	nn := *n
	nn.lenient = false
	g.gen(&nn, budget, nil, func(p []string, b int) {
		out = append(out, append([]string{}, p...))
	})
	return out
}

// dropVoid removes the tokens of unreported clauses.
func dropVoid(toks []string) []string {
	var out []string
	for _, t := range toks {
		if !strings.HasPrefix(t, voidMark) {
			out = append(out, t)
		}
	}
	return out
}

// deriveAll: all derivations with any options and alternatives and at most budget repetitions and other spellings.
func deriveAll(n *Node, d, budget int, f func([]string)) {
	g := &deriver{d: d, all: true}
	nn := *n
	nn.lenient = false
	g.gen(&nn, budget, nil, func(p []string, b int) { f(p) })
}

// deriveDo is derive with a callback; it stops early when f returns false.
func deriveDo(n *Node, d, budget int, f func([]string) bool) {
	g := &deriver{d: d}
	nn := *n
	nn.lenient = false
	stop := false
	g.gen(&nn, budget, nil, func(p []string, b int) {
		if !stop && !f(p) {
			stop = true
		}
	})
}

// fill replaces placeholders: "@" by fresh names, "@q" by fresh quoted names, "$" by fresh words.
func fill(toks []string, d int) []string {
	out := make([]string, len(toks))
	n := 0
	for i, t := range toks {
		t = strings.TrimPrefix(t, voidMark)
		if strings.HasPrefix(t, "@:") {
			t = "@"
		}
		switch t {
		case "@":
			n++
			out[i] = "n" + strconv.Itoa(n)
		case "@q":
			n++
			q := identQuote[d][:1]
			out[i] = q + "N " + strconv.Itoa(n) + q
		case "$":
			n++
			out[i] = "e" + strconv.Itoa(n)
		default:
			out[i] = t
		}
	}
	return out
}

func join(toks ...string) string { return strings.Join(toks, " ") }

func render(toks []string, d int) string { return strings.Join(fill(toks, d), " ") }

func cat(parts ...[]string) []string {
	var out []string
	for _, p := range parts {
		out = append(out, p...)
	}
	return out
}
func toks(s string) []string { return strings.Fields(s) }
