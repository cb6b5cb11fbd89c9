package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"reflect"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

func (in *Interp) toExpr(v Value, w uint8) *Expr {
	switch v := v.(type) {
	case *Expr:
		return v
	case uint64:
		return in.t.Const(v, w)
	case bool:
		return in.t.Bool(v)
	}
	panic(fmt.Sprintf("toExpr %T", v))
}

// fromExpr normalises constants back to concrete values.
func fromExpr(e *Expr) Value {
	if e.op == OConst {
		if e.w == 0 {
			return e.k == 1
		}
		return e.k
	}
	return e
}

func (in *Interp) not(v Value) Value {
	switch v := v.(type) {
	case bool:
		return !v
	case *Expr:
		return fromExpr(in.t.Not(v))
	}
	panic("not")
}

func (in *Interp) and(a, b Value) Value {
	if x, ok := a.(bool); ok {
		if !x {
			return false
		}
		return b
	}
	if x, ok := b.(bool); ok {
		if !x {
			return false
		}
		return a
	}
	return fromExpr(in.t.And(a.(*Expr), b.(*Expr)))
}

func (in *Interp) or(a, b Value) Value { return in.not(in.and(in.not(a), in.not(b))) }

func (in *Interp) unop(op token.Token, ti *TInfo, x Value) Value {
	switch op {
	case token.NOT:
		return in.not(x)
	case token.SUB:
		switch x := x.(type) {
		case uint64:
			return (-x) & mask(ti.w)
		case float64:
			return -x
		case *Expr:
			return fromExpr(in.t.Neg(x))
		}
	case token.XOR:
		switch x := x.(type) {
		case uint64:
			return (^x) & mask(ti.w)
		case *Expr:
			return fromExpr(in.t.BNot(x))
		}
	}
	in.unsupported("unop %v on %T", op, x)
	return nil
}

var cmpOps = map[token.Token]bool{token.LSS: true, token.LEQ: true, token.GTR: true, token.GEQ: true}

func (in *Interp) binop(op token.Token, ti, ty *TInfo, x, y Value) Value {
	switch op {
	case token.EQL:
		return in.equal(x, y)
	case token.NEQ:
		return in.not(in.equal(x, y))
	}
	switch ti.kind {
	case kInt:
		cx, okx := x.(uint64)
		cy, oky := y.(uint64)
		if okx && oky {
			return in.intop(op, ti, ty, cx, cy)
		}
		return in.symop(op, ti, ty, x, y)
	case kString:
		switch op {
		case token.ADD:
			return concat(x, y)
		}
		if sx, ok := x.(string); ok {
			if sy, ok := y.(string); ok {
				switch op {
				case token.LSS:
					return sx < sy
				case token.LEQ:
					return sx <= sy
				case token.GTR:
					return sx > sy
				case token.GEQ:
					return sx >= sy
				}
			}
		}
		bx, by := strBytes(x), strBytes(y)
		switch op {
		case token.LSS:
			return in.strLess(bx, by, false)
		case token.LEQ:
			return in.strLess(bx, by, true)
		case token.GTR:
			return in.strLess(by, bx, false)
		case token.GEQ:
			return in.strLess(by, bx, true)
		}
	case kFloat:
		fx, okx := x.(float64)
		fy, oky := y.(float64)
		if okx && oky {
			var r float64
			switch op {
			case token.ADD:
				r = fx + fy
			case token.SUB:
				r = fx - fy
			case token.MUL:
				r = fx * fy
			case token.QUO:
				r = fx / fy
			case token.LSS:
				return fx < fy
			case token.LEQ:
				return fx <= fy
			case token.GTR:
				return fx > fy
			case token.GEQ:
				return fx >= fy
			}
			if ti.w == 32 {
				r = float64(float32(r))
			}
			return r
		}
	case kBool:
		switch op {
		case token.AND, token.LAND:
			return in.and(x, y)
		case token.OR, token.LOR:
			return in.or(x, y)
		}
	}
	in.unsupported("binop %v on %v (%T,%T)", op, ti.T, x, y)
	return nil
}

func (in *Interp) intop(op token.Token, ti, ty *TInfo, x, y uint64) Value {
	w := ti.w
	m := mask(w)
	switch op {
	case token.ADD:
		return (x + y) & m
	case token.SUB:
		return (x - y) & m
	case token.MUL:
		return (x * y) & m
	case token.QUO, token.REM:
		if y == 0 {
			in.throwRuntime("integer divide by zero")
		}
		o := OUDiv
		if op == token.REM {
			o = OURem
		}
		if ti.signed {
			if op == token.QUO {
				o = OSDiv
			} else {
				o = OSRem
			}
		}
		r, _ := evalBin(o, w, x, y)
		return r
	case token.AND:
		return x & y
	case token.OR:
		return x | y
	case token.XOR:
		return x ^ y
	case token.AND_NOT:
		return x &^ y
	case token.SHL, token.SHR:
		if ty.signed && sext(y, ty.w) < 0 {
			in.throwRuntime("negative shift amount")
		}
		if op == token.SHL {
			if y >= uint64(w) {
				return uint64(0)
			}
			return (x << y) & m
		}
		if ti.signed {
			if y >= 64 {
				y = 63
			}
			return uint64(sext(x, w)>>y) & m
		}
		if y >= uint64(w) {
			return uint64(0)
		}
		return x >> y
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		if ti.signed {
			a, b := sext(x, w), sext(y, w)
			switch op {
			case token.LSS:
				return a < b
			case token.LEQ:
				return a <= b
			case token.GTR:
				return a > b
			}
			return a >= b
		}
		switch op {
		case token.LSS:
			return x < y
		case token.LEQ:
			return x <= y
		case token.GTR:
			return x > y
		}
		return x >= y
	}
	in.unsupported("int op %v", op)
	return nil
}

func (in *Interp) symop(op token.Token, ti, ty *TInfo, x, y Value) Value {
	w := ti.w
	a := in.toExpr(x, w)
	var b *Expr
	if op == token.SHL || op == token.SHR {
		b = in.toExpr(y, ty.w)
		if ty.signed {
			neg := in.t.Bin(OSlt, b, in.t.Const(0, b.w))
			if in.decideBool(fromExpr(neg)) {
				in.throwRuntime("negative shift amount")
			}
		}
		// saturate wide shift counts
		if b.w > w {
			big := in.t.Bin(OUle, in.t.Const(uint64(w), b.w), b)
			b = in.t.Ite(big, in.t.Const(uint64(w), w), in.t.Resize(b, w, false))
		} else {
			b = in.t.Resize(b, w, false)
		}
	} else {
		b = in.toExpr(y, w)
	}
	pick := func(s, u Op) Op {
		if ti.signed {
			return s
		}
		return u
	}
	switch op {
	case token.ADD:
		return fromExpr(in.t.Bin(OAdd, a, b))
	case token.SUB:
		return fromExpr(in.t.Bin(OSub, a, b))
	case token.MUL:
		return fromExpr(in.t.Bin(OMul, a, b))
	case token.QUO, token.REM:
		if in.decideBool(fromExpr(in.t.Eq(b, in.t.Const(0, w)))) {
			in.throwRuntime("integer divide by zero")
		}
		if op == token.QUO {
			return fromExpr(in.t.Bin(pick(OSDiv, OUDiv), a, b))
		}
		return fromExpr(in.t.Bin(pick(OSRem, OURem), a, b))
	case token.AND:
		return fromExpr(in.t.Bin(OBAnd, a, b))
	case token.OR:
		return fromExpr(in.t.Bin(OBOr, a, b))
	case token.XOR:
		return fromExpr(in.t.Bin(OBXor, a, b))
	case token.AND_NOT:
		return fromExpr(in.t.Bin(OBAnd, a, in.t.BNot(b)))
	case token.SHL:
		return fromExpr(in.t.Bin(OShl, a, b))
	case token.SHR:
		return fromExpr(in.t.Bin(pick(OAShr, OLShr), a, b))
	case token.LSS:
		return fromExpr(in.t.Bin(pick(OSlt, OUlt), a, b))
	case token.LEQ:
		return fromExpr(in.t.Bin(pick(OSle, OUle), a, b))
	case token.GTR:
		return fromExpr(in.t.Bin(pick(OSlt, OUlt), b, a))
	case token.GEQ:
		return fromExpr(in.t.Bin(pick(OSle, OUle), b, a))
	}
	in.unsupported("symbolic op %v", op)
	return nil
}

// strings ------------------------------------------------------------------

func strBytes(v Value) []Value {
	switch v := v.(type) {
	case string:
		b := make([]Value, len(v))
		for i := 0; i < len(v); i++ {
			b[i] = uint64(v[i])
		}
		return b
	case *SymStr:
		return v.b
	}
	panic(fmt.Sprintf("strBytes %T", v))
}

func strLen(v Value) int {
	switch v := v.(type) {
	case string:
		return len(v)
	case *SymStr:
		return len(v.b)
	}
	panic(fmt.Sprintf("strLen %T", v))
}

// mkStr builds a string value from bytes, concrete when possible.
func mkStr(b []Value) Value {
	for _, x := range b {
		if _, ok := x.(uint64); !ok {
			return &SymStr{b}
		}
	}
	s := make([]byte, len(b))
	for i, x := range b {
		s[i] = byte(x.(uint64))
	}
	return string(s)
}

func concat(x, y Value) Value {
	if a, ok := x.(string); ok {
		if b, ok := y.(string); ok {
			return a + b
		}
	}
	a, b := strBytes(x), strBytes(y)
	r := make([]Value, 0, len(a)+len(b))
	r = append(r, a...)
	r = append(r, b...)
	return mkStr(r)
}

func (in *Interp) byteEq(a, b Value) Value {
	x, ok := a.(uint64)
	y, ok2 := b.(uint64)
	if ok && ok2 {
		return x == y
	}
	return fromExpr(in.t.Eq(in.toExpr(a, 8), in.toExpr(b, 8)))
}

func (in *Interp) strEq(x, y Value) Value {
	if a, ok := x.(string); ok {
		if b, ok := y.(string); ok {
			return a == b
		}
	}
	if strLen(x) != strLen(y) {
		return false
	}
	a, b := strBytes(x), strBytes(y)
	var r Value = true
	for i := range a {
		r = in.and(r, in.byteEq(a[i], b[i]))
		if r == false {
			return false
		}
	}
	return r
}

// strLess is the lexicographic order as one term (no forking).
func (in *Interp) strLess(a, b []Value, orEq bool) Value {
	n := len(a)
	if len(b) < n {
		n = len(b)
	}
	var r Value
	if orEq {
		r = len(a) <= len(b)
	} else {
		r = len(a) < len(b)
	}
	for i := n - 1; i >= 0; i-- {
		x, okx := a[i].(uint64)
		y, oky := b[i].(uint64)
		if okx && oky {
			if x != y {
				r = x < y
			}
			continue
		}
		ex, ey := in.toExpr(a[i], 8), in.toExpr(b[i], 8)
		lt := fromExpr(in.t.Bin(OUlt, ex, ey))
		eq := fromExpr(in.t.Eq(ex, ey))
		r = in.or(lt, in.and(eq, r))
	}
	return r
}

// equal compares two values of the same static type.
func (in *Interp) equal(x, y Value) Value {
	switch a := x.(type) {
	case uint64:
		switch b := y.(type) {
		case uint64:
			return a == b
		case *Expr:
			return fromExpr(in.t.Eq(in.t.Const(a, b.w), b))
		}
	case bool:
		switch b := y.(type) {
		case bool:
			return a == b
		case *Expr:
			return fromExpr(in.t.Eq(in.t.Bool(a), b))
		}
	case *Expr:
		return fromExpr(in.t.Eq(a, in.toExpr(y, a.w)))
	case float64:
		return a == y.(float64)
	case string, *SymStr:
		return in.strEq(x, y)
	case *Value:
		b, ok := y.(*Value)
		return ok && a == b
	case *MapObj:
		b, ok := y.(*MapObj)
		return ok && a == b
	case *ChanObj:
		b, ok := y.(*ChanObj)
		return ok && a == b
	case *Native:
		b, ok := y.(*Native)
		return ok && a == b
	case *Closure:
		b, ok := y.(*Closure)
		return ok && a == b
	case Slice: // only nil comparison is legal
		b := y.(Slice)
		return (a == nil) == (b == nil) && (a == nil || b == nil)
	case Iface:
		b, ok := y.(Iface)
		if !ok {
			in.unsupported("comparison of interface with %T", y)
		}
		if a.T != b.T {
			return false
		}
		if a.T == nil {
			return true
		}
		if !types.Comparable(a.T.T) {
			in.throwRuntime("comparing uncomparable type " + a.T.T.String())
		}
		return in.equal(a.V, b.V)
	case Struct:
		b := y.(Struct)
		var r Value = true
		for i := range a {
			r = in.and(r, in.equal(a[i], b[i]))
			if r == false {
				return false
			}
		}
		return r
	case Array:
		b := y.(Array)
		var r Value = true
		for i := range a {
			r = in.and(r, in.equal(a[i], b[i]))
			if r == false {
				return false
			}
		}
		return r
	}
	in.unsupported("comparison of %T and %T", x, y)
	return nil
}

// index bounds-checks an index.
func (in *Interp) index(v Value, ti *TInfo, n int) int {
	k, ok := v.(uint64)
	if !ok {
		e := v.(*Expr)
		oob := in.t.Not(in.t.Bin(OUlt, in.t.Resize(e, 64, ti.signed), in.t.Const(uint64(n), 64)))
		if in.decideBool(fromExpr(oob)) {
			in.throwRuntime("index out of range")
		}
		k = in.concretize(e)
	}
	var i int64
	if ti.signed {
		i = sext(k, ti.w)
	} else {
		i = int64(k)
	}
	if i < 0 || i >= int64(n) {
		in.throwRuntime(fmt.Sprintf("index out of range [%d] with length %d", i, n))
	}
	return int(i)
}

// concInt returns a concrete 64-bit integer, forking over the values of a
// symbolic one.
func (in *Interp) concInt(v Value) uint64 {
	switch v := v.(type) {
	case uint64:
		return v
	case *Expr:
		return in.concretize(v)
	}
	panic(fmt.Sprintf("concInt %T", v))
}

func (in *Interp) slice(x, lo, hi, mx Value) Value {
	get := func(v Value, def int) int {
		if v == nil {
			return def
		}
		return int(int64(in.concInt(v)))
	}
	bad := func(l, h, c int) {
		in.throwRuntime(fmt.Sprintf("slice bounds out of range [%d:%d] with capacity %d", l, h, c))
	}
	switch x := x.(type) {
	case string:
		l, h := get(lo, 0), get(hi, len(x))
		if l < 0 || h > len(x) || l > h {
			bad(l, h, len(x))
		}
		return x[l:h]
	case *SymStr:
		l, h := get(lo, 0), get(hi, len(x.b))
		if l < 0 || h > len(x.b) || l > h {
			bad(l, h, len(x.b))
		}
		return mkStr(x.b[l:h:h])
	case Slice:
		l, h, m := get(lo, 0), get(hi, len(x)), get(mx, cap(x))
		if l < 0 || h < l || h > cap(x) || m > cap(x) || m < h {
			bad(l, h, cap(x))
		}
		if x == nil {
			return x
		}
		return x[l:h:m]
	case *Value:
		a := (*in.deref(x)).(Array)
		s := Slice(a)
		l, h, m := get(lo, 0), get(hi, len(s)), get(mx, cap(s))
		if l < 0 || h < l || h > cap(s) || m > cap(s) || m < h {
			bad(l, h, cap(s))
		}
		return s[l:h:m]
	}
	in.unsupported("slice of %T", x)
	return nil
}

// growCap reproduces the runtime's capacity growth for an element size.
var growCache = map[[3]int64]int{}

func growCap(size int64, oldCap, need int) int {
	if size == 0 {
		return need
	}
	et := reflect.ArrayOf(int(size), reflect.TypeOf(byte(0)))
	if size == 8 {
		et = reflect.TypeOf(uint64(0))
	}
	if size == 16 {
		et = reflect.TypeOf("")
	}
	s := reflect.MakeSlice(reflect.SliceOf(et), oldCap, oldCap)
	add := reflect.MakeSlice(reflect.SliceOf(et), need-oldCap, need-oldCap)
	return reflect.AppendSlice(s, add).Cap()
}

func (in *Interp) growCap(size int64, oldCap, need int) int {
	key := [3]int64{size, int64(oldCap), int64(need)}
	if c, ok := in.ld.growGet(key); ok {
		return c
	}
	c := growCap(size, oldCap, need)
	in.ld.growPut(key, c)
	return c
}

func (in *Interp) appendSlice(ti *TInfo, s Slice, vs []Value) Slice {
	if len(vs) == 0 {
		return s
	}
	n := len(s) + len(vs)
	if n > 1<<22 {
		panic(abort("steps", "slice too long"))
	}
	if n <= cap(s) {
		out := s[:n]
		for i, v := range vs {
			in.write(&out[len(s)+i], copyVal(v))
		}
		return out
	}
	c := in.growCap(in.tt.sizeof(ti.elem), cap(s), n)
	out := make(Slice, c)
	copy(out, s)
	// cells of aggregates must not be shared with the old array
	for i := range s {
		switch s[i].(type) {
		case Struct, Array:
			out[i] = copyVal(s[i])
		}
	}
	for i, v := range vs {
		out[len(s)+i] = copyVal(v)
	}
	for i := n; i < c; i++ {
		out[i] = zero(ti.elem)
	}
	return out[:n]
}

// conversions ---------------------------------------------------------------

func (in *Interp) convert(from, to *TInfo, x Value) Value {
	switch to.kind {
	case kInt:
		switch from.kind {
		case kInt:
			switch v := x.(type) {
			case uint64:
				if from.signed && to.w > from.w {
					return uint64(sext(v, from.w)) & mask(to.w)
				}
				return v & mask(to.w)
			case *Expr:
				return fromExpr(in.t.Resize(v, to.w, from.signed))
			}
		case kFloat:
			f := x.(float64)
			if to.signed {
				return uint64(int64(f)) & mask(to.w)
			}
			return uint64(f) & mask(to.w)
		}
	case kFloat:
		switch from.kind {
		case kInt:
			v, ok := x.(uint64)
			if !ok {
				v = in.concretize(x.(*Expr))
			}
			if from.signed {
				return float64(sext(v, from.w))
			}
			return float64(v)
		case kFloat:
			if to.w == 32 {
				return float64(float32(x.(float64)))
			}
			return x
		}
	case kString:
		switch from.kind {
		case kString:
			return x
		case kInt:
			v := in.concInt(x)
			return string(rune(sext(v, from.w)))
		case kSlice:
			s := x.(Slice)
			if from.elem.w == 8 {
				b := make([]Value, len(s))
				copy(b, s)
				return mkStr(b)
			}
			out := []Value{}
			for _, r := range s {
				switch r := r.(type) {
				case uint64:
					var buf [4]byte
					n := utf8.EncodeRune(buf[:], rune(sext(r, 32)))
					for _, c := range buf[:n] {
						out = append(out, uint64(c))
					}
				case *Expr:
					if !in.decideBool(fromExpr(in.t.Bin(OUlt, r, in.t.Const(0x80, r.w)))) {
						in.unsupported("non-ASCII symbolic rune to string")
					}
					out = append(out, fromExpr(in.t.Resize(r, 8, false)))
				}
			}
			return mkStr(out)
		}
	case kSlice:
		if from.kind == kString {
			if to.elem.w == 8 {
				b := strBytes(x)
				s := make(Slice, len(b))
				copy(s, b)
				return s
			}
			var s Slice = Slice{}
			it := in.rangeIter(x)
			for {
				t := it.next(in)
				if t[0] == false {
					break
				}
				s = append(s, t[2])
			}
			return s
		}
		return x
	case kPtr, kUnsafe, kFunc, kMap, kChan, kStruct, kArray, kIface, kBool:
		if to.kind == from.kind {
			return x
		}
	}
	in.unsupported("conversion %v to %v", from.T, to.T)
	return nil
}

// iteration -----------------------------------------------------------------

type iterator interface{ next(in *Interp) Tuple }

type strIter struct {
	s Value
	i int
}

func (it *strIter) next(in *Interp) Tuple {
	n := strLen(it.s)
	if it.i >= n {
		return Tuple{false, uint64(0), uint64(0)}
	}
	pos := it.i
	if s, ok := it.s.(string); ok {
		r, w := utf8.DecodeRuneInString(s[pos:])
		it.i += w
		return Tuple{true, uint64(pos), uint64(uint32(r))}
	}
	b := it.s.(*SymStr).b
	if e, ok := b[pos].(*Expr); ok {
		if !in.decideBool(fromExpr(in.t.Bin(OUlt, e, in.t.Const(0x80, 8)))) {
			in.unsupported("range over non-ASCII symbolic string")
		}
		it.i++
		return Tuple{true, uint64(pos), fromExpr(in.t.Resize(e, 32, false))}
	}
	// concrete lead byte: decode the concrete run
	buf := []byte{}
	for k := pos; k < n && k < pos+4; k++ {
		c, ok := b[k].(uint64)
		if !ok {
			break
		}
		buf = append(buf, byte(c))
	}
	r, w := utf8.DecodeRune(buf)
	it.i += w
	return Tuple{true, uint64(pos), uint64(uint32(r))}
}

type mapIter struct {
	m *MapObj
	i int
	n int
}

func (it *mapIter) next(in *Interp) Tuple {
	if it.m == nil {
		return Tuple{false, nil, nil}
	}
	for it.i < len(it.m.ents) {
		e := it.m.ents[it.i]
		it.i++
		if !e.dead {
			return Tuple{true, e.k, e.v}
		}
	}
	return Tuple{false, nil, nil}
}

func (in *Interp) rangeIter(x Value) iterator {
	switch x := x.(type) {
	case string, *SymStr:
		return &strIter{s: x}
	case *MapObj:
		return &mapIter{m: x}
	}
	in.unsupported("range over %T", x)
	return nil
}

// maps ------------------------------------------------------------------------

func (in *Interp) checkHashable(kt *TInfo, k Value) {
	if i, ok := k.(Iface); ok && i.T != nil && !types.Comparable(i.T.T) {
		in.throwRuntime("hash of unhashable type " + i.T.T.String())
	}
}

func (in *Interp) mapFind(m *MapObj, kt *TInfo, k Value) *mapEnt {
	if m == nil {
		return nil
	}
	hk, ok := hashKey(k)
	if ok && !m.sym {
		return m.idx[hk]
	}
	for _, e := range m.ents {
		if e.dead {
			continue
		}
		if in.decideBool(in.equal(e.k, k)) {
			return e
		}
	}
	return nil
}

func (in *Interp) mapGet(m *MapObj, kt *TInfo, k Value) (Value, bool) {
	in.checkHashable(kt, k)
	e := in.mapFind(m, kt, k)
	if e == nil {
		return nil, false
	}
	return e.v, true
}

func (in *Interp) mapSet(m *MapObj, kt *TInfo, k, v Value) {
	in.checkHashable(kt, k)
	in.mapTouch(m)
	if e := in.mapFind(m, kt, k); e != nil {
		e.v = v
		return
	}
	hk, ok := hashKey(k)
	e := &mapEnt{k: k, v: v}
	if ok {
		e.hk = hk
		m.idx[hk] = e
	} else {
		m.sym = true
	}
	m.ents = append(m.ents, e)
	m.live++
}

func (in *Interp) mapDelete(m *MapObj, kt *TInfo, k Value) {
	if m == nil {
		return
	}
	in.mapTouch(m)
	e := in.mapFind(m, kt, k)
	if e == nil {
		return
	}
	e.dead = true
	m.live--
	if e.hk != nil {
		delete(m.idx, e.hk)
	}
}

// builtins ----------------------------------------------------------------------

func (in *Interp) builtin(fr *Frame, name string, ts []*TInfo, args []Value, rt *TInfo) Value {
	switch name {
	case "len":
		switch x := args[0].(type) {
		case string:
			return uint64(len(x))
		case *SymStr:
			return uint64(len(x.b))
		case Slice:
			return uint64(len(x))
		case Array:
			return uint64(len(x))
		case *MapObj:
			if x == nil {
				return uint64(0)
			}
			in.raceMap(fr, x, false)
			return uint64(x.live)
		case *ChanObj:
			if x == nil {
				return uint64(0)
			}
			return uint64(len(x.buf))
		case *Value:
			return uint64(ts[0].elem.n)
		}
	case "cap":
		switch x := args[0].(type) {
		case Slice:
			return uint64(cap(x))
		case Array:
			return uint64(len(x))
		case *ChanObj:
			if x == nil {
				return uint64(0)
			}
			return uint64(x.cap)
		case *Value:
			return uint64(ts[0].elem.n)
		}
	case "append":
		s := args[0].(Slice)
		if len(args) == 1 {
			return s
		}
		switch y := args[1].(type) {
		case Slice:
			if in.race != nil {
				in.raceAppend(fr, s, y)
			}
			return in.appendSlice(ts[0], s, y)
		case string, *SymStr:
			return in.appendSlice(ts[0], s, strBytes(y))
		}
	case "copy":
		d := args[0].(Slice)
		var src []Value
		switch y := args[1].(type) {
		case Slice:
			src = append([]Value(nil), y...)
			if in.race != nil {
				in.raceCopy(fr, d, y)
			}
		default:
			src = strBytes(y)
		}
		n := len(d)
		if len(src) < n {
			n = len(src)
		}
		for i := 0; i < n; i++ {
			in.store(&d[i], copyVal(src[i]))
		}
		return uint64(n)
	case "delete":
		in.raceMap(fr, args[0].(*MapObj), true)
		in.mapDelete(args[0].(*MapObj), ts[0].key, args[1])
		return nil
	case "clear":
		switch x := args[0].(type) {
		case *MapObj:
			if x != nil {
				in.raceMap(fr, x, true)
				in.mapTouch(x)
				x.ents = nil
				x.idx = map[interface{}]*mapEnt{}
				x.live = 0
				x.sym = false
			}
		case Slice:
			for i := range x {
				in.store(&x[i], zero(ts[0].elem))
			}
		}
		return nil
	case "close":
		in.chanClose(args[0].(*ChanObj))
		return nil
	case "panic":
		in.throw(args[0].(Iface))
	case "recover":
		if fr != nil && fr.caller != nil && fr.caller.panicking {
			p := fr.caller
			p.panicking = false
			tp := p.panicVal.(*targetPanic)
			return tp.v
		}
		return Iface{}
	case "min", "max":
		r := args[0]
		for _, y := range args[1:] {
			var less Value
			if name == "min" {
				less = in.binop(token.LSS, ts[0], ts[0], y, r)
			} else {
				less = in.binop(token.LSS, ts[0], ts[0], r, y)
			}
			switch l := less.(type) {
			case bool:
				if l {
					r = y
				}
			case *Expr:
				if ts[0].kind == kInt {
					r = fromExpr(in.t.Ite(l, in.toExpr(y, ts[0].w), in.toExpr(r, ts[0].w)))
				} else if in.decide(l) {
					r = y
				}
			}
		}
		return r
	case "ssa:wrapnilchk":
		if p, ok := args[0].(*Value); ok && p == nil {
			in.throwRuntime("invalid memory address or nil pointer dereference")
		}
		return args[0]
	case "ssa:deferstack":
		return &deferStackRef{fr}
	case "print", "println":
		return nil
	}
	in.unsupported("builtin %s(%T)", name, args)
	return nil
}

var _ = math.Inf
var _ = (*ssa.Function)(nil)
