package main

import (
	"strconv"
)

// ---------------------------------------------------------------------------
// Declarative grammar: nodes, compiled to a nondeterministic counter machine.
// ---------------------------------------------------------------------------

type nkind uint8

const (
	nTok nkind = iota
	nSeq
	nAlt
	nOpt
	nStar
	nAct
	nGuard
	nClear
	nBracket
	nOther
)

// Op is a semantic action; it is replayed, in order, when a text is accepted.
type Op uint8

const (
	opNone Op = iota
	opTable
	opIfNotExists
	opTblName // first part, or only part
	opTblName2
	opCol
	opType
	opVarying
	opDigN
	opDigM
	opCName
	opPK
	opAuto
	opNotNull
	opUnique
	opDefault
	opDefaultExpr
	opCheck
	opCollate
	opRef
	opRefTable
	opRefTable2
	opRefCol
	opElemEnd
	opTName
	opTPK
	opTUnique
	opTCheck
	opTFK
	opKeyCol
	opExprEnd
)

type tkind uint8

const (
	tKw tkind = iota
	tSym
	tName
	tStr
	tNum
	tPosInt
	tInt0 // "0"
	tWord // an exact word token
)

// Term is a terminal: a matcher plus sample spellings for generation.
type Term struct {
	kind    tkind
	words   []string
	samples []string
	notIF   bool // a table name that is not IF
	lenient bool // the wider reading of a number
	id      int  // of a name terminal
}

var nameIDs int

type Node struct {
	k       nkind
	kids    []*Node
	term    *Term
	op, op2 Op
	bit     uint
	lenient bool
	samples [][]string // nBracket, nOther: sample token sequences
	tag     string
	void    bool // nothing of it is reported
}

func (t *Term) match(tk *Tok, d int, up string) bool {
	switch t.kind {
	case tKw:
		if tk.Quoted || tk.Sym {
			return false
		}
		for _, w := range t.words {
			if w == up {
				return true
			}
		}
		return false
	case tSym, tWord:
		return !tk.Quoted && tk.S == t.words[0]
	case tName:
		return isNameTok(tk, d) && !(t.notIF && up == "IF" && !tk.Quoted)
	case tStr:
		return isStrTok(tk, d)
	case tNum:
		if tk.Quoted || tk.Sym {
			return false
		}
		if t.lenient {
			_, err := strconv.ParseFloat(tk.S, 64)
			return err == nil || isNumber(tk.S)
		}
		// whether a number out of range is one is left open
		_, err := strconv.ParseFloat(tk.S, 64)
		return err == nil && isNumber(tk.S)
	case tPosInt:
		if tk.Quoted || tk.Sym {
			return false
		}
		if t.lenient {
			if tk.S[0] == '+' {
				return allDigits(tk.S[1:])
			}
			return allDigits(tk.S)
		}
		return allDigits(tk.S) && len(tk.S) <= 18 && tk.S[0] != '0'
	case tInt0:
		return !tk.Quoted && tk.S == "0"
	}
	return false
}

// isNumber: [+-]digits[.digits][e[+-]digits]
func isNumber(s string) bool {
	i := 0
	dig := func() bool {
		j := i
		for i < len(s) && s[i] >= '0' && s[i] <= '9' {
			i++
		}
		return i > j
	}
	if i < len(s) && (s[i] == '+' || s[i] == '-') {
		i++
	}
	if !dig() {
		return false
	}
	if i < len(s) && s[i] == '.' {
		i++
		if !dig() {
			return false
		}
	}
	if i < len(s) && (s[i] == 'e' || s[i] == 'E') {
		i++
		if i < len(s) && (s[i] == '+' || s[i] == '-') {
			i++
		}
		if !dig() {
			return false
		}
	}
	return i == len(s)
}

// ---- constructors ----------------------------------------------------------

func N(x interface{}) *Node {
	switch v := x.(type) {
	case *Node:
		return v
	case string:
		return phrase(v)
	}
	panic("bad node")
}

// phrase: blank separated upper-case keywords and symbols; A|B gives alternatives.
func phrase(s string) *Node {
	ws := words(s)
	if len(ws) == 1 {
		return word(ws[0], opNone)
	}
	var kids []*Node
	for _, w := range ws {
		kids = append(kids, word(w, opNone))
	}
	return &Node{k: nSeq, kids: kids}
}

func splitBar(w string) []string {
	var out []string
	cur := ""
	for _, c := range w {
		if c == '|' {
			out = append(out, cur)
			cur = ""
		} else {
			cur += string(c)
		}
	}
	return append(out, cur)
}

func word(w string, op Op) *Node {
	if len(w) == 1 && isSymRune(rune(w[0])) {
		return &Node{k: nTok, term: &Term{kind: tSym, words: []string{w}, samples: []string{w}}, op: op}
	}
	ws := splitBar(w)
	return &Node{k: nTok, term: &Term{kind: tKw, words: ws, samples: ws}, op: op}
}

func KW(w string, op Op) *Node { return word(w, op) }

func Seq(xs ...interface{}) *Node {
	n := &Node{k: nSeq}
	for _, x := range xs {
		n.kids = append(n.kids, N(x))
	}
	return n
}
func Alt(xs ...interface{}) *Node {
	n := &Node{k: nAlt}
	for _, x := range xs {
		n.kids = append(n.kids, N(x))
	}
	return n
}
func Opt(xs ...interface{}) *Node { return &Node{k: nOpt, kids: []*Node{one(xs)}} }
func Star(xs ...interface{}) *Node {
	return &Node{k: nStar, kids: []*Node{one(xs)}}
}
func one(xs []interface{}) *Node {
	if len(xs) == 1 {
		return N(xs[0])
	}
	return Seq(xs...)
}
func List(x *Node) *Node { return Seq(x, Star(",", x)) }
func Act(op Op) *Node    { return &Node{k: nAct, op: op} }
func Clear() *Node       { return &Node{k: nClear} }
func Lenient(x interface{}) *Node {
	n := *N(x)
	n.lenient = true
	return &n
}
func Tag(tag string, x interface{}) *Node {
	n := *N(x)
	n.tag = tag
	return &n
}

// Void marks a clause that the result has no field for.
func Void(x *Node) *Node {
	n := *x
	n.void = true
	return &n
}

// Once(bit, x): x, at most once per Clear.
func Once(bit uint, x interface{}) *Node {
	return Seq(&Node{k: nGuard, bit: bit}, x)
}
func Name(op Op) *Node {
	nameIDs++
	return &Node{k: nTok, term: &Term{kind: tName, samples: []string{"@"}, id: nameIDs}, op: op}
}
func TblFirst(op Op) *Node {
	// IF where a table name is expected is read as the start of IF NOT EXISTS
	nameIDs++
	return Alt(
		&Node{k: nTok, term: &Term{kind: tName, notIF: true, samples: []string{"@"}, id: nameIDs}, op: op},
		Lenient(&Node{k: nTok, term: &Term{kind: tName, samples: []string{"@"}}, op: op}),
	)
}
func Str(op Op) *Node {
	return &Node{k: nTok, term: &Term{kind: tStr, samples: []string{"'s'"}}, op: op}
}
func Num(op Op) *Node {
	return Alt(
		&Node{k: nTok, term: &Term{kind: tNum, samples: []string{"1", "-2.5"}}, op: op},
		Lenient(&Node{k: nTok, term: &Term{kind: tNum, lenient: true, samples: []string{"1"}}, op: op}),
	)
}
func PosInt(op Op) *Node {
	return Alt(
		&Node{k: nTok, term: &Term{kind: tPosInt, samples: []string{"7"}}, op: op},
		Lenient(&Node{k: nTok, term: &Term{kind: tPosInt, lenient: true, samples: []string{"7"}}, op: op}),
	)
}
func Zero(op Op) *Node {
	return &Node{k: nTok, term: &Term{kind: tInt0, samples: []string{"0"}}, op: op}
}
func Word(w string) *Node {
	return &Node{k: nTok, term: &Term{kind: tWord, words: []string{w}, samples: []string{w}}}
}

var exprSamples = [][]string{
	{"(", "$", ")"},
	{"(", "(", "$", ")", ")"},
	{"(", "$", ",", "'x y'", ")"},
	{"(", "$", "AND", "(", "b", "IS", "NOT", "NULL", ")", ")"},
	{"(", "f", "(", ")", ")"},
}

// Br: a balanced bracket; the op fires at its opening bracket, opExprEnd at the closing one.
func Br(op Op) *Node {
	return &Node{k: nBracket, op: op, samples: exprSamples}
}

// ---- compilation -------------------------------------------------------------

type ikind uint8

const (
	iTok ikind = iota
	iSplit
	iJmp
	iAct
	iGuard
	iClear
	iBracket   // entry: needs "("
	iBracketIn // inside
	iOther     // body of a CREATE statement that is not a table
	iMatch
)

type inst struct {
	k    ikind
	term *Term
	op   Op
	bit  uint
	outs []int
	x    int
}

type Machine struct {
	d       int
	lenient bool
	prog    []inst
	start   int
}

func compile(root *Node, d int, lenient bool) *Machine {
	m := &Machine{d: d, lenient: lenient}
	end := m.emit(root)
	_ = end
	m.prog = append(m.prog, inst{k: iMatch})
	return m
}

// emit appends code for n; control falls through to the next instruction.
func (m *Machine) emit(n *Node) int {
	add := func(i inst) int { m.prog = append(m.prog, i); return len(m.prog) - 1 }
	switch n.k {
	case nTok:
		add(inst{k: iTok, term: n.term, op: n.op})
	case nSeq:
		for _, k := range n.kids {
			m.emit(k)
		}
	case nAlt:
		sp := add(inst{k: iSplit})
		var jumps []int
		for _, k := range n.kids {
			if k.lenient && !m.lenient {
				continue
			}
			m.prog[sp].outs = append(m.prog[sp].outs, len(m.prog))
			m.emit(k)
			jumps = append(jumps, add(inst{k: iJmp}))
		}
		for _, j := range jumps {
			m.prog[j].x = len(m.prog)
		}
	case nOpt:
		if (n.lenient || n.kids[0].lenient) && !m.lenient {
			return 0
		}
		sp := add(inst{k: iSplit})
		a := len(m.prog)
		m.emit(n.kids[0])
		m.prog[sp].outs = []int{a, len(m.prog)}
	case nStar:
		sp := add(inst{k: iSplit})
		a := len(m.prog)
		m.emit(n.kids[0])
		add(inst{k: iJmp, x: sp})
		m.prog[sp].outs = []int{a, len(m.prog)}
	case nAct:
		add(inst{k: iAct, op: n.op})
	case nGuard:
		add(inst{k: iGuard, bit: n.bit})
	case nClear:
		add(inst{k: iClear})
	case nBracket:
		add(inst{k: iBracket, op: n.op})
		add(inst{k: iBracketIn})
	case nOther:
		add(inst{k: iOther})
	}
	return 0
}

type ev struct {
	op   Op
	tok  int
	prev *ev
}

type thread struct {
	pc    int
	depth int // bracket or block depth
	aux   int // 1: bracket just opened; other: END pending
	mask  uint32
	ev    *ev
}

type vm struct {
	m        *Machine
	cur, nxt []thread
	ups      []string
}

func (v *vm) add(l []thread, t thread, tok int) []thread {
	for {
		in := &v.m.prog[t.pc]
		switch in.k {
		case iJmp:
			t.pc = in.x
			continue
		case iAct:
			t.ev = &ev{in.op, tok, t.ev}
			t.pc++
			continue
		case iClear:
			t.mask = 0
			t.pc++
			continue
		case iGuard:
			if t.mask&(1<<in.bit) != 0 {
				return l
			}
			t.mask |= 1 << in.bit
			t.pc++
			continue
		case iSplit:
			for _, o := range in.outs {
				t2 := t
				t2.pc = o
				l = v.add(l, t2, tok)
			}
			return l
		}
		for i := range l {
			if l[i].pc == t.pc && l[i].depth == t.depth && l[i].mask == t.mask && l[i].aux == t.aux {
				return l
			}
		}
		return append(l, t)
	}
}

func (v *vm) reset(m *Machine) {
	v.m = m
	v.cur = v.add(v.cur[:0], thread{}, 0)
}

// step consumes one token; it reports whether any thread survives.
func (v *vm) step(toks []Tok, i int, up string) bool {
	tk := &toks[i]
	out := v.nxt[:0]
	isS := func(s string) bool { return tk.Sym && tk.S == s }
	for _, t := range v.cur {
		in := &v.m.prog[t.pc]
		switch in.k {
		case iTok:
			if in.term.match(tk, v.m.d, up) {
				if in.op != opNone {
					t.ev = &ev{in.op, i, t.ev}
				}
				t.pc++
				out = v.add(out, t, i)
			}
		case iBracket:
			if isS("(") {
				if in.op != opNone {
					t.ev = &ev{in.op, i, t.ev}
				}
				t.pc++
				t.depth = 1
				t.aux = 1
				out = v.add(out, t, i)
			}
		case iBracketIn:
			was := t.aux
			t.aux = 0
			switch {
			case isS("("):
				t.depth++
			case isS(")"):
				if was == 1 && !v.m.lenient {
					continue // an empty bracket is no expression
				}
				t.depth--
				if t.depth == 0 {
					t.ev = &ev{opExprEnd, i, t.ev}
					t.pc++
				}
			case isS(";") && !v.m.lenient:
				continue
			}
			out = v.add(out, t, i)
		case iOther:
			w := ""
			if !tk.Quoted && !tk.Sym {
				w = up
			}
			if t.aux == 1 { // after END
				t.aux = 0
				if v.m.d == MySQL {
					if w == "IF" || w == "LOOP" || w == "WHILE" || w == "REPEAT" {
						out = v.add(out, t, i)
						continue
					}
					if w == "CASE" {
						t.depth--
						out = v.add(out, t, i)
						continue
					}
				}
				t.depth--
			}
			switch {
			case w == "BEGIN", w == "CASE" && t.depth > 0:
				t.depth++
			case w == "END" && t.depth > 0:
				t.aux = 1
			case isS(";") && t.depth == 0:
				t.pc++
			}
			out = v.add(out, t, i)
		}
	}
	v.nxt, v.cur = v.cur, out
	return len(out) > 0
}

func (v *vm) matched() *thread {
	for i := range v.cur {
		if v.m.prog[v.cur[i].pc].k == iMatch {
			return &v.cur[i]
		}
	}
	return nil
}

func (v *vm) hash() uint64 {
	h := uint64(14695981039346656037)
	mix := func(x uint64) {
		h ^= x
		h *= 1099511628211
		h ^= h >> 29
	}
	mix(uint64(v.m.d))
	for i := range v.cur {
		t := &v.cur[i]
		mix(uint64(t.pc))
		mix(uint64(t.depth)<<1 | uint64(t.aux))
		mix(uint64(t.mask))
	}
	return h
}
