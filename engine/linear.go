package main

import "sort"

// Sums of 64 bit terms, as the symbolic clock makes them: terms common to both
// operands of a difference or of a comparison are cancelled, which is hard for
// the solver to see. The engine decides nothing here that the solver would not:
// a difference is the same modulo 2^64, and a comparison is only rewritten if
// neither side can wrap.

type linear struct {
	terms map[*Expr]int64
	k     uint64
}

func (l *linear) add(e *Expr, sign int64, depth int) bool {
	if depth > 200 {
		return false
	}
	switch e.op {
	case OConst:
		l.k += uint64(sign) * e.k
		return true
	case OAdd:
		return l.add(e.a, sign, depth+1) && l.add(e.b, sign, depth+1)
	case OSub:
		return l.add(e.a, sign, depth+1) && l.add(e.b, -sign, depth+1)
	}
	l.terms[e] += sign
	if l.terms[e] == 0 {
		delete(l.terms, e)
	}
	return true
}

func linearOf(e *Expr, sign int64) (*linear, bool) {
	l := &linear{terms: map[*Expr]int64{}}
	return l, l.add(e, sign, 0)
}

// upper tells the most that a term can be, if that is known.
func upper(e *Expr) (uint64, bool) {
	switch e.op {
	case OConst:
		return e.k, true
	case OZExt:
		if e.a.w < 62 {
			return mask(e.a.w), true
		}
	case OShl:
		if m, ok := upper(e.a); ok && e.b.op == OConst && e.b.k < 62 && m<<e.b.k>>e.b.k == m {
			return m << e.b.k, true
		}
	}
	return 0, false
}

// most tells the most that a sum can be, if it cannot reach 2^62.
func (l *linear) most() (uint64, bool) {
	const limit = 1 << 62
	total := l.k
	if total >= limit {
		return 0, false
	}
	for e, n := range l.terms {
		m, ok := upper(e)
		if !ok || n < 0 || n > 1<<10 || m >= limit>>10 {
			return 0, false
		}
		if total += m * uint64(n); total >= limit {
			return 0, false
		}
	}
	return total, true
}

func (t *Terms) build(l *linear) *Expr {
	var es []*Expr
	for e := range l.terms {
		es = append(es, e)
	}
	sort.Slice(es, func(i, j int) bool { return es[i].id < es[j].id })
	var sum *Expr
	for _, e := range es {
		for n := l.terms[e]; n > 0; n-- {
			if sum == nil {
				sum = e
			} else {
				sum = t.mk(OAdd, 64, sum, e, nil, 0)
			}
		}
	}
	if sum == nil {
		sum = t.Const(l.k, 64)
	} else if l.k != 0 {
		sum = t.mk(OAdd, 64, sum, t.Const(l.k, 64), nil, 0)
	}
	for _, e := range es {
		for n := l.terms[e]; n < 0; n++ {
			sum = t.mk(OSub, 64, sum, e, nil, 0)
		}
	}
	return sum
}

// cancelSub gives the difference of two sums that have terms in common.
func (t *Terms) cancelSub(a, b *Expr) *Expr {
	if a.w != 64 || a.op != OAdd && b.op != OAdd && a.op != OSub && b.op != OSub {
		return nil
	}
	x, ok := linearOf(a, 1)
	y, ok2 := linearOf(b, -1)
	if !ok || !ok2 {
		return nil
	}
	n := len(x.terms) + len(y.terms)
	if !x.add(b, -1, 0) || len(x.terms) >= n {
		return nil
	}
	return t.build(x)
}

// cancelCmp gives the comparison of two sums without the terms in common.
func (t *Terms) cancelCmp(op Op, a, b *Expr) *Expr {
	if a.w != 64 {
		return nil
	}
	sum := func(e *Expr) bool {
		return e.op == OAdd || e.op == OSub || e.op == OShl || e.op == OConst || e.op == OZExt
	}
	if !sum(a) || !sum(b) || a.op == OConst && b.op == OConst {
		return nil
	}
	x, ok := linearOf(a, 1)
	y, ok2 := linearOf(b, 1)
	if !ok || !ok2 {
		return nil
	}
	mx, ok := x.most()
	my, ok2 := y.most()
	if !ok || !ok2 {
		return nil
	}
	strict := op == OUlt || op == OSlt
	switch {
	case mx < y.k || !strict && mx == y.k:
		return t.True
	case my < x.k || strict && my == x.k:
		return t.False
	}
	changed := false
	for e, n := range x.terms {
		if m := min(n, y.terms[e]); m > 0 {
			changed = true
			for _, l := range []*linear{x, y} {
				if l.terms[e] -= m; l.terms[e] == 0 {
					delete(l.terms, e)
				}
			}
		}
	}
	if m := min(x.k, y.k); m > 0 {
		x.k -= m
		y.k -= m
		changed = true
	}
	if !changed {
		return nil
	}
	return t.Bin(op, t.build(x), t.build(y))
}

// maskSum gives a sum masked by a constant, where the constant part of the sum
// and the rest of it have no bits in common.
func (t *Terms) maskSum(a *Expr, m uint64) *Expr {
	if a.w != 64 {
		return nil
	}
	if a.op == OBAnd {
		x, y := t.maskSum(a.a, m), t.maskSum(a.b, m)
		if x == nil || y == nil {
			return nil
		}
		return t.Bin(OBAnd, x, y)
	}
	if a.op != OAdd {
		return nil
	}
	l, ok := linearOf(a, 1)
	if !ok {
		return nil
	}
	k := l.k
	l.k = 0
	most, ok := l.most()
	if !ok || most >= 1<<30 || k&(1<<30-1) != 0 {
		return nil
	}
	switch m & (1<<30 - 1) {
	case 0:
		return t.Const(k&m, 64)
	case 1<<30 - 1:
		l.k = k & m
		return t.build(l)
	}
	return nil
}
