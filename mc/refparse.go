package main

import (
	"math"
	"strconv"
	"strings"

	ddl "github.com/kodaimura/ddlparse"
)

type Verdict uint8

const (
	Accept Verdict = iota
	Reject
	Unspecified
)

// ErrPos is a permitted place for the reported error.
type ErrPos struct {
	Near     string
	Lo, Hi   int // permitted lines
	TokIndex int
}

// Ref is the model's verdict on a text.
type Ref struct {
	V      Verdict
	Tables []ddl.Table
	Errs   []ErrPos
	Lex    *LexRes
	LexErr bool
	// Exprs holds, for every reported expression, its tokens (by canonical text).
	States []uint64 // state after each token (strict machine)
}

type refParser struct {
	a, b vm
	ups  []string
}

func (p *refParser) run(v *vm, m *Machine, toks []Tok, ups []string, states *[]uint64) (dead int, acc *ev, ok bool) {
	v.reset(m)
	if states != nil {
		*states = append(*states, v.hash())
	}
	for i := range toks {
		if !v.step(toks, i, ups[i]) {
			return i, nil, false
		}
		if states != nil {
			*states = append(*states, v.hash())
		}
	}
	if t := v.matched(); t != nil {
		return -1, t.ev, true
	}
	return len(toks), nil, false
}

func sameEv(a, b *ev) bool {
	for a != nil && b != nil {
		if a == b {
			return true
		}
		if a.op != b.op || a.tok != b.tok {
			return false
		}
		a, b = a.prev, b.prev
	}
	return a == b
}

// Parse gives the specification's verdict on text in dialect d.
func (p *refParser) Parse(text string, d int, wantStates bool) *Ref {
	r := &Ref{Lex: lexModel(text, d)}
	if r.Lex.Unspec {
		r.V = Unspecified
		return r
	}
	if r.Lex.Err {
		r.V, r.LexErr = Reject, true
		r.Errs = []ErrPos{{r.Lex.Near, r.Lex.Line, r.Lex.Line, len(r.Lex.Toks)}}
		return r
	}
	toks := r.Lex.Toks
	p.ups = p.ups[:0]
	for i := range toks {
		p.ups = append(p.ups, asciiUpper(toks[i].S))
	}
	var st *[]uint64
	if wantStates {
		st = &r.States
	}
	k1, e1, ok1 := p.run(&p.a, strict[d], toks, p.ups, st)
	k2, e2, ok2 := p.run(&p.b, lax[d], toks, p.ups, nil)
	if ok1 != ok2 || ok1 && !sameEv(e1, e2) {
		r.V = Unspecified
		return r
	}
	if !ok1 {
		r.V = Reject
		r.addErr(k1, p.ups)
		if k2 != k1 {
			r.addErr(k2, p.ups)
		}
		return r
	}
	b := builder{toks: toks, d: d}
	var evs []*ev
	for e := e1; e != nil; e = e.prev {
		evs = append(evs, e)
	}
	for i := len(evs) - 1; i >= 0; i-- {
		b.do(evs[i].op, evs[i].tok)
	}
	b.endTable()
	r.Tables = b.out
	if b.unspec {
		r.V = Unspecified
	}
	return r
}

func (r *Ref) addErr(k int, ups []string) {
	put := func(k int) {
		if k >= len(r.Lex.Toks) {
			r.Errs = append(r.Errs, ErrPos{"<EOF>", r.Lex.Line, r.Lex.Line, k})
			return
		}
		t := &r.Lex.Toks[k]
		r.Errs = append(r.Errs, ErrPos{t.S, t.Line, t.End, k})
	}
	put(k)
	// a bad "NOT x" phrase may be reported at either word
	if k > 0 && k <= len(ups) && ups[k-1] == "NOT" && k < len(ups) && ups[k] == "NULL" {
		put(k - 1)
	}
}

// ---- building the expected tables -----------------------------------------------------------

type builder struct {
	toks   []Tok
	d      int
	out    []ddl.Table
	open   bool
	t      ddl.Table
	inCol  bool
	c      ddl.Column
	tname  string
	ref    *ddl.Reference
	keys   *[]string
	expr   *string
	dexpr  bool
	estart int
	unspec bool
}

func (b *builder) endTable() {
	if b.open {
		b.out = append(b.out, b.t)
		b.open = false
	}
}

func (b *builder) do(op Op, tok int) {
	var s string
	if tok < len(b.toks) {
		s = b.toks[tok].S
	}
	name := func() string { return unquoteName(s, b.d) }
	switch op {
	case opTable:
		b.endTable()
		b.open = true
		b.t = ddl.Table{}
		b.startElem()
	case opIfNotExists:
		b.t.IfNotExists = true
	case opTblName:
		b.t.Name = name()
	case opTblName2:
		b.t.Schema = b.t.Name
		b.t.Name = name()
	case opCol:
		b.inCol = true
		b.c.Name = name()
	case opType:
		b.c.DataType.Name = asciiUpper(s)
	case opVarying:
		switch b.c.DataType.Name {
		case "BIT":
			b.c.DataType.Name = "VARBIT"
		case "CHARACTER":
			b.c.DataType.Name = "VARCHAR"
		}
	case opDigN:
		b.c.DataType.DigitN = b.num(s)
	case opDigM:
		b.c.DataType.DigitM = b.num(s)
	case opCName:
		b.c.Constraint.Name = name()
	case opPK:
		b.c.Constraint.IsPrimaryKey = true
	case opAuto:
		b.c.Constraint.IsAutoincrement = true
	case opNotNull:
		b.c.Constraint.IsNotNull = true
	case opUnique:
		b.c.Constraint.IsUnique = true
	case opDefault:
		b.c.Constraint.Default = b.literal(&b.toks[tok])
	case opDefaultExpr:
		b.dexpr = true
		b.estart = tok
	case opCheck:
		b.expr = &b.c.Constraint.Check
		b.estart = tok
	case opCollate:
		b.c.Constraint.Collate = name()
	case opRef:
		if b.inCol {
			b.ref = &b.c.Constraint.References
		} else if n := len(b.t.Constraints.ForeignKey); n > 0 {
			b.ref = &b.t.Constraints.ForeignKey[n-1].References
		}
	case opRefTable:
		b.ref.TableName = name()
	case opRefTable2:
		b.ref.TableName += "." + name()
	case opRefCol:
		b.ref.ColumnNames = append(b.ref.ColumnNames, s)
	case opTName:
		b.tname = name()
	case opTPK:
		b.t.Constraints.PrimaryKey = append(b.t.Constraints.PrimaryKey, ddl.PrimaryKey{Name: b.tname})
		b.keys = &b.t.Constraints.PrimaryKey[len(b.t.Constraints.PrimaryKey)-1].ColumnNames
	case opTUnique:
		b.t.Constraints.Unique = append(b.t.Constraints.Unique, ddl.Unique{Name: b.tname})
		b.keys = &b.t.Constraints.Unique[len(b.t.Constraints.Unique)-1].ColumnNames
	case opTFK:
		b.t.Constraints.ForeignKey = append(b.t.Constraints.ForeignKey, ddl.ForeignKey{Name: b.tname})
		b.keys = &b.t.Constraints.ForeignKey[len(b.t.Constraints.ForeignKey)-1].ColumnNames
	case opTCheck:
		b.t.Constraints.Check = append(b.t.Constraints.Check, ddl.Check{Name: b.tname})
		b.expr = &b.t.Constraints.Check[len(b.t.Constraints.Check)-1].Expr
		b.estart = tok
	case opKeyCol:
		*b.keys = append(*b.keys, s)
	case opExprEnd:
		if b.expr != nil || b.dexpr {
			for i := b.estart; i < tok; i++ {
				if b.toks[i].Sym && b.toks[i].S == "," && b.toks[i+1].Sym && b.toks[i+1].S == "," {
					b.unspec = true // an empty item is no expression
				}
			}
			e := canonExpr(b.toks[b.estart : tok+1])
			if b.dexpr {
				b.c.Constraint.Default = Expr(e)
			} else {
				*b.expr = e
			}
		}
		b.expr, b.dexpr = nil, false
	case opElemEnd:
		if b.inCol {
			b.t.Columns = append(b.t.Columns, b.c)
		}
		b.startElem()
	}
}

// Expr marks an expected default that is an expression (compared by tokens).
type Expr string

func (b *builder) startElem() {
	b.inCol = false
	b.c = ddl.Column{}
	b.tname = ""
	b.ref, b.keys, b.expr = nil, nil, nil
	b.dexpr = false
}

func (b *builder) num(s string) int {
	n, err := strconv.Atoi(s)
	if err != nil {
		b.unspec = true
	}
	return n
}

func (b *builder) literal(t *Tok) interface{} {
	if t.Quoted {
		return t.S[1 : len(t.S)-1]
	}
	switch asciiUpper(t.S) {
	case "NULL":
		return nil
	case "TRUE":
		return true
	case "FALSE":
		return false
	}
	if isNumber(t.S) {
		f, err := strconv.ParseFloat(t.S, 64)
		if err != nil || math.IsInf(f, 0) {
			b.unspec = true
		}
		return f
	}
	return t.S
}

// canonExpr renders expression tokens canonically: one blank between two tokens that are not
// symbols, none elsewhere.
func canonExpr(toks []Tok) string {
	var sb strings.Builder
	for i := range toks {
		if i > 0 && !toks[i].Sym && !toks[i-1].Sym {
			sb.WriteByte(' ')
		}
		sb.WriteString(toks[i].S)
	}
	return sb.String()
}

// normExprText: white space outside quotes is normalised to what canonExpr writes.
func normExprText(s string) string {
	var sb strings.Builder
	r := []rune(s)
	sep := func(c rune) bool { return c == ' ' || c == '\n' || c == '\t' || c == '\r' }
	prev := rune(0)
	blank := false
	for i := 0; i < len(r); i++ {
		c := r[i]
		if sep(c) {
			blank = true
			continue
		}
		if blank && prev != 0 && !isSymRune(prev) && !isSymRune(c) {
			sb.WriteByte(' ')
		}
		blank = false
		if c == '\'' || c == '"' || c == '`' {
			j := i + 1
			for j < len(r) && r[j] != c {
				j++
			}
			if j < len(r) {
				sb.WriteString(string(r[i : j+1]))
				i = j
				prev = c
				continue
			}
		}
		sb.WriteRune(c)
		prev = c
	}
	return sb.String()
}
