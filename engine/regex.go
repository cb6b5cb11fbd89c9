package main

import (
	"go/types"
	"regexp"
	"regexp/syntax"
	"sync"
	"unicode"
)

// Regular expressions: patterns are concrete; a concrete subject is matched
// natively, a symbolic one by simulating the compiled program symbolically,
// which yields one boolean term without forking.

var reCache sync.Map

type reObj struct {
	re   *regexp.Regexp
	prog *syntax.Prog
}

func (in *Interp) mkRegexp(pat string) (Value, error) {
	if v, ok := reCache.Load(pat); ok {
		p := new(Value)
		*p = &Native{v: &reObj{re: v.(*regexp.Regexp)}, kind: "regexp"}
		return p, nil
	}
	re, err := regexp.Compile(pat)
	if err != nil {
		return nil, err
	}
	reCache.Store(pat, re)
	p := new(Value)
	*p = &Native{v: &reObj{re: re}, kind: "regexp"}
	return p, nil
}

func (in *Interp) reOf(v Value) *reObj {
	p, _ := v.(*Value)
	if p == nil {
		in.throwRuntime("invalid memory address or nil pointer dereference")
	}
	n, ok := (*p).(*Native)
	if !ok {
		in.unsupported("regexp object")
	}
	return n.v.(*reObj)
}

func (in *Interp) concretePattern(v Value) string {
	if s, ok := v.(string); ok {
		return s
	}
	b := strBytes(v)
	out := make([]byte, len(b))
	for i, x := range b {
		switch x := x.(type) {
		case uint64:
			out[i] = byte(x)
		case *Expr:
			out[i] = byte(in.concretize(x))
		}
	}
	return string(out)
}

func (in *Interp) reMatch(r *reObj, s Value) Value {
	if c, ok := s.(string); ok {
		return r.re.MatchString(c)
	}
	if r.prog == nil {
		p, err := syntax.Parse(r.re.String(), syntax.Perl)
		if err != nil {
			in.unsupported("regexp %q", r.re.String())
		}
		r.prog, err = syntax.Compile(p.Simplify())
		if err != nil {
			in.unsupported("regexp %q", r.re.String())
		}
	}
	bs := strBytes(s)
	t := in.t
	sym := make([]*Expr, len(bs))
	for i, b := range bs {
		switch b := b.(type) {
		case uint64:
			if b >= 0x80 {
				in.unsupported("regexp over a non-ASCII mixed string")
			}
			sym[i] = t.Const(b, 8)
		case *Expr:
			if !in.decide(t.Bin(OUlt, b, t.Const(0x80, 8))) {
				in.unsupported("regexp over a symbolic non-ASCII byte")
			}
			sym[i] = b
		}
	}
	isWord := func(i int) *Expr {
		if i < 0 || i >= len(sym) {
			return t.Bool(false)
		}
		r := t.Bool(false)
		for _, p := range [][2]uint64{{'0', '9'}, {'A', 'Z'}, {'a', 'z'}, {'_', '_'}} {
			r = t.Or(r, t.And(t.Bin(OUle, t.Const(p[0], 8), sym[i]), t.Bin(OUle, sym[i], t.Const(p[1], 8))))
		}
		return r
	}
	isNL := func(i int) *Expr {
		if i < 0 || i >= len(sym) {
			return t.Bool(true)
		}
		return t.Eq(sym[i], t.Const('\n', 8))
	}
	matched := t.Bool(false)
	type state = map[uint32]*Expr
	var add func(st state, pc uint32, g *Expr, pos int, depth int)
	add = func(st state, pc uint32, g *Expr, pos int, depth int) {
		if g.op == OConst && g.k == 0 {
			return
		}
		if depth > 400 {
			in.unsupported("regexp closure too deep")
		}
		old := st[pc]
		ng := g
		if old != nil {
			ng = t.Or(old, g)
			if ng == old {
				return
			}
		}
		st[pc] = ng
		i := r.prog.Inst[pc]
		switch i.Op {
		case syntax.InstAlt, syntax.InstAltMatch:
			add(st, i.Out, g, pos, depth+1)
			add(st, i.Arg, g, pos, depth+1)
		case syntax.InstCapture, syntax.InstNop:
			add(st, i.Out, g, pos, depth+1)
		case syntax.InstEmptyWidth:
			c := g
			e := syntax.EmptyOp(i.Arg)
			if e&syntax.EmptyBeginText != 0 && pos != 0 {
				return
			}
			if e&syntax.EmptyEndText != 0 && pos != len(sym) {
				return
			}
			if e&syntax.EmptyBeginLine != 0 {
				c = t.And(c, isNL(pos-1))
			}
			if e&syntax.EmptyEndLine != 0 {
				c = t.And(c, isNL(pos))
			}
			if e&(syntax.EmptyWordBoundary|syntax.EmptyNoWordBoundary) != 0 {
				same := t.Eq(isWord(pos-1), isWord(pos))
				if e&syntax.EmptyWordBoundary != 0 {
					same = t.Not(same)
				}
				c = t.And(c, same)
			}
			add(st, i.Out, c, pos, depth+1)
		case syntax.InstMatch:
			matched = t.Or(matched, g)
		}
	}
	cur := state{}
	for pos := 0; ; pos++ {
		add(cur, uint32(r.prog.Start), t.Bool(true), pos, 0)
		if pos == len(sym) {
			break
		}
		next := state{}
		for pc := range r.prog.Inst {
			g := cur[uint32(pc)]
			if g == nil {
				continue
			}
			i := r.prog.Inst[pc]
			var c *Expr
			switch i.Op {
			case syntax.InstRune, syntax.InstRune1:
				c = in.runeClass(&i, sym[pos])
			case syntax.InstRuneAny:
				c = t.Bool(true)
			case syntax.InstRuneAnyNotNL:
				c = t.Not(t.Eq(sym[pos], t.Const('\n', 8)))
			default:
				continue
			}
			add(next, i.Out, t.And(g, c), pos+1, 0)
		}
		cur = next
	}
	return fromExpr(matched)
}

// runeClass says whether the ASCII byte b is consumed by the instruction.
func (in *Interp) runeClass(i *syntax.Inst, b *Expr) *Expr {
	t := in.t
	if b.op == OConst {
		return t.Bool(i.MatchRune(rune(b.k)))
	}
	r := t.Bool(false)
	lo := -1
	for c := 0; c <= 0x80; c++ {
		m := c < 0x80 && c <= unicode.MaxASCII && i.MatchRune(rune(c))
		if m && lo < 0 {
			lo = c
		}
		if !m && lo >= 0 {
			r = t.Or(r, t.And(t.Bin(OUle, t.Const(uint64(lo), 8), b), t.Bin(OUle, b, t.Const(uint64(c-1), 8))))
			lo = -1
		}
	}
	return r
}

func init() {
	I := intrinsics
	I["regexp.Compile"] = func(in *Interp, fr *Frame, a []Value) Value {
		v, err := in.mkRegexp(in.concretePattern(a[0]))
		if err != nil {
			return Tuple{(*Value)(nil), in.mkError(err.Error())}
		}
		return Tuple{v, Iface{}}
	}
	I["regexp.MustCompile"] = func(in *Interp, fr *Frame, a []Value) Value {
		v, err := in.mkRegexp(in.concretePattern(a[0]))
		if err != nil {
			in.throw(Iface{in.tt.get(types.Typ[types.String]), "regexp: Compile: " + err.Error()})
		}
		return v
	}
	I["regexp.MatchString"] = func(in *Interp, fr *Frame, a []Value) Value {
		v, err := in.mkRegexp(in.concretePattern(a[0]))
		if err != nil {
			return Tuple{false, in.mkError(err.Error())}
		}
		return Tuple{in.reMatch(in.reOf(v), a[1]), Iface{}}
	}
	I["(*regexp.Regexp).MatchString"] = func(in *Interp, fr *Frame, a []Value) Value {
		return in.reMatch(in.reOf(a[0]), a[1])
	}
	I["(*regexp.Regexp).String"] = func(in *Interp, fr *Frame, a []Value) Value {
		return in.reOf(a[0]).re.String()
	}
	m := func(name string, f func(re *regexp.Regexp, in *Interp, a []Value) Value) {
		I["(*regexp.Regexp)."+name] = func(in *Interp, fr *Frame, a []Value) Value {
			r := in.reOf(a[0])
			for i := range a {
				if s, ok := a[i].(*SymStr); ok {
					a[i] = in.concretePattern(s)
				}
			}
			return f(r.re, in, a)
		}
	}
	strs := func(l []string) Value {
		if l == nil {
			return Slice(nil)
		}
		s := make(Slice, len(l))
		for i, x := range l {
			s[i] = x
		}
		return s
	}
	ints := func(l []int) Value {
		if l == nil {
			return Slice(nil)
		}
		s := make(Slice, len(l))
		for i, x := range l {
			s[i] = uint64(x)
		}
		return s
	}
	m("FindStringSubmatch", func(re *regexp.Regexp, in *Interp, a []Value) Value {
		return strs(re.FindStringSubmatch(a[1].(string)))
	})
	m("FindString", func(re *regexp.Regexp, in *Interp, a []Value) Value {
		return re.FindString(a[1].(string))
	})
	m("FindAllString", func(re *regexp.Regexp, in *Interp, a []Value) Value {
		return strs(re.FindAllString(a[1].(string), int(argInt(a[2]))))
	})
	m("FindStringSubmatchIndex", func(re *regexp.Regexp, in *Interp, a []Value) Value {
		return ints(re.FindStringSubmatchIndex(a[1].(string)))
	})
	m("FindStringIndex", func(re *regexp.Regexp, in *Interp, a []Value) Value {
		return ints(re.FindStringIndex(a[1].(string)))
	})
	m("SubexpNames", func(re *regexp.Regexp, in *Interp, a []Value) Value { return strs(re.SubexpNames()) })
	m("NumSubexp", func(re *regexp.Regexp, in *Interp, a []Value) Value { return uint64(re.NumSubexp()) })
	m("SubexpIndex", func(re *regexp.Regexp, in *Interp, a []Value) Value {
		return uint64(re.SubexpIndex(a[1].(string)))
	})
	m("ReplaceAllString", func(re *regexp.Regexp, in *Interp, a []Value) Value {
		return re.ReplaceAllString(a[1].(string), a[2].(string))
	})
}
