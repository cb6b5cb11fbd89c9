package main

import (
	"fmt"
	"sort"
	"strings"
)

// Op is an operator of the quantifier-free bit-vector term language.
type Op uint8

const (
	OConst Op = iota
	OVar
	ONot
	OAnd
	OOr
	OEq
	OUlt
	OUle
	OSlt
	OSle
	OAdd
	OSub
	OMul
	OUDiv
	OSDiv
	OURem
	OSRem
	OBAnd
	OBOr
	OBXor
	OShl
	OLShr
	OAShr
	OBNot
	ONeg
	OZExt
	OSExt
	OExtract // low w bits
	OIte
)

var opNames = map[Op]string{
	ONot: "not", OAnd: "and", OOr: "or", OEq: "=", OUlt: "bvult", OUle: "bvule",
	OSlt: "bvslt", OSle: "bvsle", OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul",
	OUDiv: "bvudiv", OSDiv: "bvsdiv", OURem: "bvurem", OSRem: "bvsrem",
	OBAnd: "bvand", OBOr: "bvor", OBXor: "bvxor", OShl: "bvshl", OLShr: "bvlshr",
	OAShr: "bvashr", OBNot: "bvnot", ONeg: "bvneg", OIte: "ite",
}

// Expr is a hash-consed term. w is the bit width; 0 means Bool.
type Expr struct {
	op      Op
	w       uint8
	a, b, c *Expr
	k       uint64
	name    string
	id      int32
	vars    []*Expr // sorted by id, the free variables
}

type exprKey struct {
	op      Op
	w       uint8
	a, b, c int32
	k       uint64
}

// Terms owns the hash-cons table of one worker.
type Terms struct {
	tab    map[exprKey]*Expr
	byName map[string]*Expr
	next   int32
	True   *Expr
	False  *Expr
}

func NewTerms() *Terms {
	t := &Terms{tab: map[exprKey]*Expr{}, byName: map[string]*Expr{}}
	t.True = t.mk(OConst, 0, nil, nil, nil, 1)
	t.False = t.mk(OConst, 0, nil, nil, nil, 0)
	return t
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func sext(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	sh := 64 - uint(w)
	return int64(v<<sh) >> sh
}

func (t *Terms) mk(op Op, w uint8, a, b, c *Expr, k uint64) *Expr {
	key := exprKey{op: op, w: w, a: -1, b: -1, c: -1, k: k}
	if a != nil {
		key.a = a.id
	}
	if b != nil {
		key.b = b.id
	}
	if c != nil {
		key.c = c.id
	}
	if e, ok := t.tab[key]; ok {
		return e
	}
	t.next++
	e := &Expr{op: op, w: w, a: a, b: b, c: c, k: k, id: t.next}
	e.vars = mergeVars(mergeVars(varsOf(a), varsOf(b)), varsOf(c))
	t.tab[key] = e
	return e
}

func varsOf(e *Expr) []*Expr {
	if e == nil {
		return nil
	}
	return e.vars
}

func mergeVars(a, b []*Expr) []*Expr {
	if len(a) == 0 {
		return b
	}
	if len(b) == 0 {
		return a
	}
	// fast: subset
	out := make([]*Expr, 0, len(a)+len(b))
	i, j := 0, 0
	for i < len(a) && j < len(b) {
		switch {
		case a[i] == b[j]:
			out = append(out, a[i])
			i++
			j++
		case a[i].id < b[j].id:
			out = append(out, a[i])
			i++
		default:
			out = append(out, b[j])
			j++
		}
	}
	out = append(out, a[i:]...)
	out = append(out, b[j:]...)
	if len(out) == len(a) {
		return a
	}
	if len(out) == len(b) {
		return b
	}
	return out
}

// Var returns the variable of that name (width 0 = Bool).
func (t *Terms) Var(name string, w uint8) *Expr {
	if e, ok := t.byName[name]; ok {
		if e.w != w {
			panic(fmt.Sprintf("variable %s redeclared with width %d, was %d", name, w, e.w))
		}
		return e
	}
	t.next++
	e := &Expr{op: OVar, w: w, name: name, id: t.next}
	e.vars = []*Expr{e}
	t.byName[name] = e
	return e
}

func (t *Terms) Const(v uint64, w uint8) *Expr { return t.mk(OConst, w, nil, nil, nil, v&mask(w)) }
func (t *Terms) Bool(b bool) *Expr {
	if b {
		return t.True
	}
	return t.False
}

func (t *Terms) Not(a *Expr) *Expr {
	switch a.op {
	case OConst:
		return t.Bool(a.k == 0)
	case ONot:
		return a.a
	}
	return t.mk(ONot, 0, a, nil, nil, 0)
}

func (t *Terms) And(a, b *Expr) *Expr {
	if a == t.False || b == t.False {
		return t.False
	}
	if a == t.True {
		return b
	}
	if b == t.True || a == b {
		return a
	}
	if (a.op == ONot && a.a == b) || (b.op == ONot && b.a == a) {
		return t.False
	}
	if a.id > b.id {
		a, b = b, a
	}
	return t.mk(OAnd, 0, a, b, nil, 0)
}

func (t *Terms) Or(a, b *Expr) *Expr {
	if a == t.True || b == t.True {
		return t.True
	}
	if a == t.False {
		return b
	}
	if b == t.False || a == b {
		return a
	}
	if (a.op == ONot && a.a == b) || (b.op == ONot && b.a == a) {
		return t.True
	}
	if a.id > b.id {
		a, b = b, a
	}
	return t.mk(OOr, 0, a, b, nil, 0)
}

func (t *Terms) Ite(c, a, b *Expr) *Expr {
	if c == t.True {
		return a
	}
	if c == t.False {
		return b
	}
	if a == b {
		return a
	}
	if a.w == 0 {
		if a == t.True && b == t.False {
			return c
		}
		if a == t.False && b == t.True {
			return t.Not(c)
		}
		if a == t.True {
			return t.Or(c, b)
		}
		if a == t.False {
			return t.And(t.Not(c), b)
		}
		if b == t.True {
			return t.Or(t.Not(c), a)
		}
		if b == t.False {
			return t.And(c, a)
		}
	}
	if c.op == ONot {
		return t.mk(OIte, a.w, c.a, b, a, 0)
	}
	return t.mk(OIte, a.w, c, a, b, 0)
}

func (t *Terms) Eq(a, b *Expr) *Expr {
	if a == b {
		return t.True
	}
	if a.op == OConst && b.op == OConst {
		return t.Bool(a.k == b.k)
	}
	if a.w == 0 {
		if b.op == OConst {
			a, b = b, a
		}
		if a.op == OConst {
			if a.k == 1 {
				return b
			}
			return t.Not(b)
		}
	}
	if b.op == OConst {
		a, b = b, a
	}
	// a const, b ite with const arms
	if a.op == OConst && b.op == OIte && b.b.op == OConst && b.c.op == OConst {
		return t.Ite(b.a, t.Bool(b.b.k == a.k), t.Bool(b.c.k == a.k))
	}
	if a.op == OConst && b.op == OZExt {
		if a.k&^mask(b.a.w) != 0 {
			return t.False
		}
		return t.Eq(t.Const(a.k, b.a.w), b.a)
	}
	if a.op != OConst && a.id > b.id {
		a, b = b, a
	}
	return t.mk(OEq, 0, a, b, nil, 0)
}

func evalBin(op Op, w uint8, x, y uint64) (uint64, bool) {
	m := mask(w)
	b2u := func(b bool) uint64 {
		if b {
			return 1
		}
		return 0
	}
	switch op {
	case OEq:
		return b2u(x == y), true
	case OUlt:
		return b2u(x < y), true
	case OUle:
		return b2u(x <= y), true
	case OSlt:
		return b2u(sext(x, w) < sext(y, w)), true
	case OSle:
		return b2u(sext(x, w) <= sext(y, w)), true
	case OAdd:
		return (x + y) & m, true
	case OSub:
		return (x - y) & m, true
	case OMul:
		return (x * y) & m, true
	case OUDiv:
		if y == 0 {
			return m, true
		}
		return x / y, true
	case OURem:
		if y == 0 {
			return x, true
		}
		return x % y, true
	case OSDiv:
		if y == 0 {
			if sext(x, w) < 0 {
				return 1, true
			}
			return m, true
		}
		if y == m { // -1
			return (-x) & m, true
		}
		return uint64(sext(x, w)/sext(y, w)) & m, true
	case OSRem:
		if y == 0 {
			return x, true
		}
		if y == m {
			return 0, true
		}
		return uint64(sext(x, w)%sext(y, w)) & m, true
	case OBAnd:
		return x & y, true
	case OBOr:
		return x | y, true
	case OBXor:
		return x ^ y, true
	case OShl:
		if y >= uint64(w) {
			return 0, true
		}
		return (x << y) & m, true
	case OLShr:
		if y >= uint64(w) {
			return 0, true
		}
		return x >> y, true
	case OAShr:
		if y >= uint64(w) {
			y = uint64(w) - 1
		}
		return uint64(sext(x, w)>>y) & m, true
	}
	return 0, false
}

// Bin builds a binary bit-vector term (result width w for arithmetic; Bool for
// comparisons).
func (t *Terms) Bin(op Op, a, b *Expr) *Expr {
	cmp := op == OUlt || op == OUle || op == OSlt || op == OSle
	if op == OEq {
		return t.Eq(a, b)
	}
	if a.op == OConst && b.op == OConst {
		v, _ := evalBin(op, a.w, a.k, b.k)
		if cmp {
			return t.Bool(v == 1)
		}
		return t.Const(v, a.w)
	}
	if cmp {
		if a == b {
			return t.Bool(op == OUle || op == OSle)
		}
		switch {
		case op == OUlt && b.op == OConst && b.k == 0:
			return t.False
		case op == OUle && a.op == OConst && a.k == 0:
			return t.True
		case a.op == OConst && b.op == OIte && b.b.op == OConst && b.c.op == OConst,
			b.op == OConst && a.op == OIte && a.b.op == OConst && a.c.op == OConst:
			if a.op == OIte {
				return t.Ite(a.a, t.Bin(op, a.b, b), t.Bin(op, a.c, b))
			}
			return t.Ite(b.a, t.Bin(op, a, b.b), t.Bin(op, a, b.c))
		}
		if e := t.cancelCmp(op, a, b); e != nil {
			return e
		}
		return t.mk(op, 0, a, b, nil, 0)
	}
	switch op {
	case OAdd:
		if a.op == OConst {
			a, b = b, a
		}
		if b.op == OConst && b.k == 0 {
			return a
		}
		if b.op == OConst && a.op == OAdd && a.b.op == OConst {
			return t.Bin(OAdd, a.a, t.Const(a.b.k+b.k, a.w))
		}
	case OSub:
		if b.op == OConst {
			return t.Bin(OAdd, a, t.Const(-b.k, a.w))
		}
		if a == b {
			return t.Const(0, a.w)
		}
		if e := t.cancelSub(a, b); e != nil {
			return e
		}
	case OMul:
		if a.op == OConst {
			a, b = b, a
		}
		if b.op == OConst && b.k == 1 {
			return a
		}
		if b.op == OConst && b.k == 0 {
			return b
		}
	case OBAnd:
		if a == b {
			return a
		}
		if a.op == OConst {
			a, b = b, a
		}
		if b.op == OConst && b.k == 0 {
			return b
		}
		if b.op == OConst && b.k == mask(b.w) {
			return a
		}
		if b.op == OConst {
			if e := t.maskSum(a, b.k); e != nil {
				return e
			}
		}
	case OBOr, OBXor:
		if a.op == OConst {
			a, b = b, a
		}
		if b.op == OConst && b.k == 0 {
			return a
		}
	}
	return t.mk(op, a.w, a, b, nil, 0)
}

func (t *Terms) BNot(a *Expr) *Expr {
	if a.op == OConst {
		return t.Const(^a.k, a.w)
	}
	return t.mk(OBNot, a.w, a, nil, nil, 0)
}

func (t *Terms) Neg(a *Expr) *Expr {
	if a.op == OConst {
		return t.Const(-a.k, a.w)
	}
	return t.mk(ONeg, a.w, a, nil, nil, 0)
}

func (t *Terms) Resize(a *Expr, w uint8, signed bool) *Expr {
	if a.w == w {
		return a
	}
	if a.op == OConst {
		if w > a.w && signed {
			return t.Const(uint64(sext(a.k, a.w)), w)
		}
		return t.Const(a.k, w)
	}
	if w < a.w {
		if (a.op == OZExt || a.op == OSExt) && a.a.w == w {
			return a.a
		}
		return t.mk(OExtract, w, a, nil, nil, 0)
	}
	if signed {
		return t.mk(OSExt, w, a, nil, nil, 0)
	}
	return t.mk(OZExt, w, a, nil, nil, 0)
}

// Model is an assignment of values to variable names; absent means 0.
type Model map[string]uint64

// Eval evaluates e under m (missing variables are 0).
func Eval(e *Expr, m Model, memo map[*Expr]uint64) uint64 {
	switch e.op {
	case OConst:
		return e.k
	case OVar:
		return m[e.name]
	}
	if v, ok := memo[e]; ok {
		return v
	}
	var r uint64
	switch e.op {
	case ONot:
		r = 1 - Eval(e.a, m, memo)
	case OAnd:
		r = Eval(e.a, m, memo)
		if r == 1 {
			r = Eval(e.b, m, memo)
		}
	case OOr:
		r = Eval(e.a, m, memo)
		if r == 0 {
			r = Eval(e.b, m, memo)
		}
	case OIte:
		if Eval(e.a, m, memo) == 1 {
			r = Eval(e.b, m, memo)
		} else {
			r = Eval(e.c, m, memo)
		}
	case OBNot:
		r = ^Eval(e.a, m, memo) & mask(e.w)
	case ONeg:
		r = -Eval(e.a, m, memo) & mask(e.w)
	case OZExt:
		r = Eval(e.a, m, memo)
	case OSExt:
		r = uint64(sext(Eval(e.a, m, memo), e.a.w)) & mask(e.w)
	case OExtract:
		r = Eval(e.a, m, memo) & mask(e.w)
	default:
		x, y := Eval(e.a, m, memo), Eval(e.b, m, memo)
		r, _ = evalBin(e.op, e.a.w, x, y)
	}
	memo[e] = r
	return r
}

// smt prints e as SMT-LIB2, with sharing through let-free define of nodes that
// occur more than once (emitted in defs).
type smtPrinter struct {
	cnt  map[*Expr]int
	name map[*Expr]string
	defs []string
	n    int
}

func (p *smtPrinter) count(e *Expr) {
	if e == nil || e.op == OConst || e.op == OVar {
		return
	}
	p.cnt[e]++
	if p.cnt[e] > 1 {
		return
	}
	p.count(e.a)
	p.count(e.b)
	p.count(e.c)
}

func sortName(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

func smtVar(name string) string { return "|" + name + "|" }

func (p *smtPrinter) str(e *Expr) string {
	if n, ok := p.name[e]; ok {
		return n
	}
	var s string
	switch e.op {
	case OConst:
		if e.w == 0 {
			if e.k == 1 {
				return "true"
			}
			return "false"
		}
		return fmt.Sprintf("(_ bv%d %d)", e.k, e.w)
	case OVar:
		return smtVar(e.name)
	case OZExt:
		s = fmt.Sprintf("((_ zero_extend %d) %s)", e.w-e.a.w, p.str(e.a))
	case OSExt:
		s = fmt.Sprintf("((_ sign_extend %d) %s)", e.w-e.a.w, p.str(e.a))
	case OExtract:
		s = fmt.Sprintf("((_ extract %d 0) %s)", e.w-1, p.str(e.a))
	default:
		var b strings.Builder
		b.WriteByte('(')
		b.WriteString(opNames[e.op])
		for _, x := range []*Expr{e.a, e.b, e.c} {
			if x != nil {
				b.WriteByte(' ')
				b.WriteString(p.str(x))
			}
		}
		b.WriteByte(')')
		s = b.String()
	}
	if p.cnt[e] > 1 {
		p.n++
		n := fmt.Sprintf("$d%d", p.n)
		p.defs = append(p.defs, fmt.Sprintf("(define-fun %s () %s %s)", n, sortName(e.w), s))
		p.name[e] = n
		return n
	}
	return s
}

func smtAssertions(es []*Expr) (decls []*Expr, text string) {
	p := &smtPrinter{cnt: map[*Expr]int{}, name: map[*Expr]string{}}
	var vs []*Expr
	for _, e := range es {
		p.count(e)
		vs = mergeVars(vs, e.vars)
	}
	var asserts []string
	for _, e := range es {
		asserts = append(asserts, "(assert "+p.str(e)+")")
	}
	return vs, strings.Join(p.defs, "\n") + "\n" + strings.Join(asserts, "\n")
}

func (e *Expr) String() string {
	if e == nil {
		return "<nil>"
	}
	_, s := smtAssertions([]*Expr{e})
	return strings.TrimSpace(s)
}

func sortedKeys[V any](m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
