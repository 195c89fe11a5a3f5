package main

import (
	"errors"
	"fmt"
	"reflect"
	"strings"

	ddl "github.com/kodaimura/ddlparse"
)

// Facets of a verdict; a property looks at some of them.
const (
	fPanic    uint32 = 1 << iota // did not return normally
	fContract                    // result/error combination
	fAcc                         // rejected although specified as accepted
	fRej                         // accepted although specified as rejected
	fErr                         // error position
	fCount                       // number of tables
	fHeader                      // schema, name, if-not-exists
	fCols                        // number and names of columns
	fType                        // type names and digits
	fColCon                      // column constraint flags, collation, name
	fDefLit                      // literal defaults
	fDefExpr                     // expression defaults
	fCheck                       // column CHECK text
	fTPK                         // table PRIMARY KEY
	fTUQ                         // table UNIQUE
	fTCK                         // table CHECK
	fFK                          // FOREIGN KEY
	fRef                         // column REFERENCES
)

const (
	fExprs  = fDefExpr | fCheck | fTCK
	fTables = fCount | fHeader | fCols | fType | fColCon | fDefLit | fDefExpr | fCheck | fTPK | fTUQ | fTCK | fFK | fRef
	fAll    = fPanic | fContract | fAcc | fRej | fErr | fTables
	// a focused corpus: not returning, or an unexpected rejection, means the promised report is missing
	fFocus = fPanic | fAcc
)

var rdbms = [NDialect]ddl.Rdbms{ddl.SQLite, ddl.PostgreSQL, ddl.MySQL}

// Res is what the implementation did.
type Res struct {
	Tables []ddl.Table
	Err    error
	Panic  string
}

func guard(f func() ([]ddl.Table, error)) (r Res) {
	defer func() {
		if p := recover(); p != nil {
			r = Res{Panic: clip(fmt.Sprint(p), 300)}
		}
	}()
	r.Tables, r.Err = f()
	return
}

func parse(text string, d int) Res {
	return guard(func() ([]ddl.Table, error) { return ddl.Parse(text, rdbms[d]) })
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + fmt.Sprintf("…[%d bytes]", len(s))
	}
	return s
}

// asValidate extracts the ValidateError behind an error.
func asValidate(err error) (ddl.ValidateError, bool) {
	var v ddl.ValidateError
	if errors.As(err, &v) {
		return v, true
	}
	var p *ddl.ValidateError
	if errors.As(err, &p) && p != nil {
		return *p, true
	}
	return v, false
}

func (r Res) String() string {
	switch {
	case r.Panic != "":
		return "panic: " + r.Panic
	case r.Err != nil:
		return clip(fmt.Sprintf("error %q, %d tables", clip(r.Err.Error(), 200), len(r.Tables)), 400)
	}
	return clip(fmt.Sprintf("%+v", r.Tables), 1500)
}

func contract(r Res) string {
	if r.Panic != "" {
		return "panic: " + r.Panic
	}
	if r.Err == nil {
		if r.Tables == nil {
			return "nil table list without an error"
		}
		return ""
	}
	if _, ok := r.Err.(ddl.ValidateError); !ok {
		return fmt.Sprintf("error is a %T, not a ValidateError", r.Err)
	}
	if r.Tables == nil {
		return "nil table list with an error"
	}
	if len(r.Tables) != 0 {
		return fmt.Sprintf("%d tables returned together with an error", len(r.Tables))
	}
	return ""
}

type diffs struct {
	bits uint32
	msg  []string
	want uint32
}

func (x *diffs) add(bit uint32, format string, a ...interface{}) {
	if bit&x.want != 0 {
		x.bits |= bit & x.want
		if len(x.msg) < 6 {
			x.msg = append(x.msg, clip(fmt.Sprintf(format, a...), 300))
		}
	}
}

func eqStr(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// eqKeys: key column names, with their quotes kept or removed.
func eqKeys(want, got []string, d int) bool {
	if len(want) != len(got) {
		return false
	}
	for i := range want {
		if want[i] != got[i] && unquoteName(want[i], d) != got[i] {
			return false
		}
	}
	return true
}

func eqExpr(want, got string, d int) bool {
	if want == got {
		return true
	}
	if want == "" || got == "" {
		return false
	}
	return normExprText(got) == want
}

func eqRef(want, got ddl.Reference, d int) bool {
	return want.TableName == got.TableName && eqKeys(want.ColumnNames, got.ColumnNames, d)
}

// compare reports the facets in which the reported tables differ from the expected ones.
func compare(want, got []ddl.Table, d int, mask uint32) *diffs {
	x := &diffs{want: mask}
	if len(want) != len(got) {
		x.add(fCount, "%d tables reported, %d declared", len(got), len(want))
		return x
	}
	for i := range want {
		w, g := &want[i], &got[i]
		if w.Schema != g.Schema || w.Name != g.Name || w.IfNotExists != g.IfNotExists {
			x.add(fHeader, "table %d: header %q.%q/%v, want %q.%q/%v", i, g.Schema, g.Name, g.IfNotExists, w.Schema, w.Name, w.IfNotExists)
		}
		if len(w.Columns) != len(g.Columns) {
			x.add(fCols, "table %d: %d columns, want %d", i, len(g.Columns), len(w.Columns))
		} else {
			for j := range w.Columns {
				compareCol(x, i, j, &w.Columns[j], &g.Columns[j], d)
			}
		}
		wc, gc := &w.Constraints, &g.Constraints
		if len(wc.PrimaryKey) != len(gc.PrimaryKey) {
			x.add(fTPK, "table %d: %d primary keys, want %d", i, len(gc.PrimaryKey), len(wc.PrimaryKey))
		} else {
			for j := range wc.PrimaryKey {
				a, b := wc.PrimaryKey[j], gc.PrimaryKey[j]
				if a.Name != b.Name || !eqKeys(a.ColumnNames, b.ColumnNames, d) {
					x.add(fTPK, "table %d: primary key %+v, want %+v", i, b, a)
				}
			}
		}
		if len(wc.Unique) != len(gc.Unique) {
			x.add(fTUQ, "table %d: %d uniques, want %d", i, len(gc.Unique), len(wc.Unique))
		} else {
			for j := range wc.Unique {
				a, b := wc.Unique[j], gc.Unique[j]
				if a.Name != b.Name || !eqKeys(a.ColumnNames, b.ColumnNames, d) {
					x.add(fTUQ, "table %d: unique %+v, want %+v", i, b, a)
				}
			}
		}
		if len(wc.Check) != len(gc.Check) {
			x.add(fTCK, "table %d: %d checks, want %d", i, len(gc.Check), len(wc.Check))
		} else {
			for j := range wc.Check {
				a, b := wc.Check[j], gc.Check[j]
				if a.Name != b.Name || !eqExpr(a.Expr, b.Expr, d) {
					x.add(fTCK, "table %d: check %+v, want %+v", i, b, a)
				}
			}
		}
		if len(wc.ForeignKey) != len(gc.ForeignKey) {
			x.add(fFK, "table %d: %d foreign keys, want %d", i, len(gc.ForeignKey), len(wc.ForeignKey))
		} else {
			for j := range wc.ForeignKey {
				a, b := wc.ForeignKey[j], gc.ForeignKey[j]
				if a.Name != b.Name || !eqKeys(a.ColumnNames, b.ColumnNames, d) || !eqRef(a.References, b.References, d) {
					x.add(fFK, "table %d: foreign key %+v, want %+v", i, b, a)
				}
			}
		}
	}
	return x
}

func compareCol(x *diffs, i, j int, w, g *ddl.Column, d int) {
	if w.Name != g.Name {
		x.add(fCols, "table %d column %d: name %q, want %q", i, j, g.Name, w.Name)
	}
	if w.DataType != g.DataType {
		x.add(fType, "table %d column %d: type %+v, want %+v", i, j, g.DataType, w.DataType)
	}
	a, b := &w.Constraint, &g.Constraint
	if a.Name != b.Name || a.IsPrimaryKey != b.IsPrimaryKey || a.IsUnique != b.IsUnique ||
		a.IsNotNull != b.IsNotNull || a.IsAutoincrement != b.IsAutoincrement || a.Collate != b.Collate {
		x.add(fColCon, "table %d column %d: constraints name=%q pk=%v uq=%v nn=%v ai=%v collate=%q, want name=%q pk=%v uq=%v nn=%v ai=%v collate=%q", i, j,
			b.Name, b.IsPrimaryKey, b.IsUnique, b.IsNotNull, b.IsAutoincrement, b.Collate,
			a.Name, a.IsPrimaryKey, a.IsUnique, a.IsNotNull, a.IsAutoincrement, a.Collate)
	}
	if e, ok := a.Default.(Expr); ok {
		s, ok := b.Default.(string)
		if !ok || !eqExpr(string(e), s, d) {
			x.add(fDefExpr, "table %d column %d: default %#v, want expression %q", i, j, b.Default, string(e))
		}
	} else if !reflect.DeepEqual(a.Default, b.Default) {
		x.add(fDefLit, "table %d column %d: default %#v, want %#v", i, j, b.Default, a.Default)
	}
	if !eqExpr(a.Check, b.Check, d) {
		x.add(fCheck, "table %d column %d: check %q, want %q", i, j, b.Check, a.Check)
	}
	if !eqRef(a.References, b.References, d) {
		x.add(fRef, "table %d column %d: references %+v, want %+v", i, j, b.References, a.References)
	}
}

func errOK(ref *Ref, err error) bool {
	v, ok := asValidate(err)
	if !ok {
		return false
	}
	for _, e := range ref.Errs {
		if v.Near == e.Near && v.Line >= e.Lo && v.Line <= e.Hi {
			return true
		}
	}
	return false
}

// verdict compares the implementation's result with the model's, in the given facets.
func verdict(ref *Ref, r Res, d int, mask uint32) string {
	if r.Panic != "" {
		if mask&fPanic != 0 || mask&fRej != 0 && ref.V == Reject {
			return "panic: " + r.Panic
		}
		return ""
	}
	if mask&fContract != 0 {
		if s := contract(r); s != "" {
			return s
		}
	}
	switch ref.V {
	case Accept:
		if r.Err != nil {
			if mask&fAcc != 0 {
				return "rejected: " + clip(r.Err.Error(), 200)
			}
			return ""
		}
		if x := compare(ref.Tables, r.Tables, d, mask); x.bits != 0 {
			return strings.Join(x.msg, "; ")
		}
	case Reject:
		if r.Err == nil {
			if mask&fRej != 0 {
				return fmt.Sprintf("accepted (%d tables); should be rejected near %q", len(r.Tables), clip(ref.Errs[0].Near, 60))
			}
			return ""
		}
		if mask&fErr != 0 && !errOK(ref, r.Err) {
			return fmt.Sprintf("reported as %q; should be near %q line %d..%d", clip(r.Err.Error(), 200), clip(ref.Errs[0].Near, 60), ref.Errs[0].Lo, ref.Errs[0].Hi)
		}
	}
	return ""
}

// sameTables: two results of the implementation are equal values.
func sameTables(a, b []ddl.Table) bool {
	return reflect.DeepEqual(normTables(a), normTables(b))
}

// normTables drops the difference between nil and empty slices.
func normTables(ts []ddl.Table) []ddl.Table {
	out := make([]ddl.Table, len(ts))
	for i, t := range ts {
		out[i] = t
		c := append([]ddl.Column{}, t.Columns...)
		for j := range c {
			c[j].Constraint.References.ColumnNames = append([]string{}, c[j].Constraint.References.ColumnNames...)
		}
		out[i].Columns = c
		k := &out[i].Constraints
		k.PrimaryKey = append([]ddl.PrimaryKey{}, k.PrimaryKey...)
		for j := range k.PrimaryKey {
			k.PrimaryKey[j].ColumnNames = append([]string{}, k.PrimaryKey[j].ColumnNames...)
		}
		k.Unique = append([]ddl.Unique{}, k.Unique...)
		for j := range k.Unique {
			k.Unique[j].ColumnNames = append([]string{}, k.Unique[j].ColumnNames...)
		}
		k.Check = append([]ddl.Check{}, k.Check...)
		k.ForeignKey = append([]ddl.ForeignKey{}, k.ForeignKey...)
		for j := range k.ForeignKey {
			k.ForeignKey[j].ColumnNames = append([]string{}, k.ForeignKey[j].ColumnNames...)
			k.ForeignKey[j].References.ColumnNames = append([]string{}, k.ForeignKey[j].References.ColumnNames...)
		}
	}
	return out
}

func parseForce(text string) Res {
	return guard(func() ([]ddl.Table, error) { return ddl.ParseForce(text) })
}
