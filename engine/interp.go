package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type undoRec struct {
	p   *Value
	old Value
}

type mapUndo struct {
	m    *MapObj
	snap *MapObj
}

// Interp is one symbolic interpreter (one per worker).
type Interp struct {
	ld      *Loaded
	prog    *ssa.Program
	tt      *typeTab
	t       *Terms
	solver  *Solver
	ex      *Explorer
	globals map[*ssa.Global]*Value
	code    map[*ssa.Function]*FnCode
	initSt  map[*ssa.Package]int
	intr    map[string]intrinsic

	// journal
	journal  bool
	race     *racer
	undo     []undoRec
	mapUndos []mapUndo
	fnUndos  []func()
	epoch    int
	typeNat  map[*TInfo]*Native

	// path state
	prefix    []dec
	pos       int
	decs      []dec
	pc        []*Expr
	pcSet     map[*Expr]bool
	model     Model
	startMod  Model
	labelCnt  map[string]int
	obs       []obsRec
	inputs    []*Expr
	inputSet  map[*Expr]bool
	steps     int64
	maxSteps  int64
	depth     int
	varSeq    int
	coverage  map[*ssa.Function]bool
	reached   map[string]bool
	props     map[string]int
	checks    int
	viol      []pathViolation
	clock     *Expr // what the symbolic clock says
	sch       *sched
	curFrame  *Frame
	nativeTab map[string]interface{}
	params    map[string]int64
	forkSites map[string]int
	profile   bool
	stateHash int
	files     map[string]Value
	syncTab   map[*Value]*syncState
	initSync  map[*Value]*syncState
}

type obsRec struct {
	key string
	v   []Value
}

type dec struct {
	v uint64
	b bool
}

// Frame is an activation record.
type Frame struct {
	in        *Interp
	fc        *FnCode
	regs      []Value
	caller    *Frame
	block     int
	prev      int
	defers    *deferred
	result    Value
	panicking bool
	panicVal  interface{}
	done      bool
	phi       []Value
	rundefer  bool
}

type deferred struct {
	fn   *Closure
	args []Value
	tail *deferred
}

type deferStackRef struct{ fr *Frame }

// FnCode is a compiled function.
type FnCode struct {
	fn      *ssa.Function
	name    string
	nregs   int
	nparams int
	blocks  []*blockCode
	intr    intrinsic
	recover int
	guarded bool
	compile bool
	covered bool
	repo    bool
}

type blockCode struct {
	phis   []phiCode
	instrs []func(fr *Frame)
	term   func(fr *Frame) int // next block; -1 return
}

type phiCode struct {
	reg   int
	edges []opnd
}

type opnd struct {
	reg int
	c   Value
	dyn func(fr *Frame) Value
}

func (o *opnd) get(fr *Frame) Value {
	if o.reg >= 0 {
		return fr.regs[o.reg]
	}
	if o.dyn != nil {
		return o.dyn(fr)
	}
	return o.c
}

type intrinsic func(in *Interp, fr *Frame, args []Value) Value

// notHandled makes an intrinsic fall through to the function's own body.
type notHandledT struct{}

var notHandled Value = notHandledT{}

func (in *Interp) write(p *Value, v Value) {
	if in.journal {
		in.undo = append(in.undo, undoRec{p, *p})
	}
	*p = v
}

// store writes v into the cell, keeping the identity of aggregate elements.
func (in *Interp) store(p *Value, v Value) {
	switch v := v.(type) {
	case Struct:
		if dst, ok := (*p).(Struct); ok && len(dst) == len(v) {
			for i := range v {
				in.store(&dst[i], v[i])
			}
			return
		}
		in.write(p, copyVal(v))
	case Array:
		if dst, ok := (*p).(Array); ok && len(dst) == len(v) {
			for i := range v {
				in.store(&dst[i], v[i])
			}
			return
		}
		in.write(p, copyVal(v))
	default:
		in.write(p, v)
	}
}

func (in *Interp) rollback() {
	for i := len(in.undo) - 1; i >= 0; i-- {
		*in.undo[i].p = in.undo[i].old
		in.undo[i] = undoRec{}
	}
	in.undo = in.undo[:0]
	for i := len(in.mapUndos) - 1; i >= 0; i-- {
		u := in.mapUndos[i]
		*u.m = *u.snap
	}
	in.mapUndos = in.mapUndos[:0]
	for i := len(in.fnUndos) - 1; i >= 0; i-- {
		in.fnUndos[i]()
	}
	in.fnUndos = in.fnUndos[:0]
}

// mapTouch journals a map before its first mutation on this path.
func (in *Interp) mapTouch(m *MapObj) {
	if !in.journal || m.epoch == in.epoch {
		return
	}
	snap := &MapObj{idx: make(map[interface{}]*mapEnt, len(m.idx)), sym: m.sym, live: m.live, epoch: m.epoch}
	remap := map[*mapEnt]*mapEnt{}
	for _, e := range m.ents {
		c := *e
		remap[e] = &c
		snap.ents = append(snap.ents, &c)
	}
	for k, e := range m.idx {
		snap.idx[k] = remap[e]
	}
	in.mapUndos = append(in.mapUndos, mapUndo{m, snap})
	m.epoch = in.epoch
}

func (in *Interp) throw(v Iface) { panic(&targetPanic{v}) }

// throwRuntime raises a Go run-time panic in the interpreted program.
func (in *Interp) throwRuntime(msg string) {
	ti := in.ld.runtimeError
	if ti == nil {
		panic(abort("unsupported", "runtime panic without package runtime: "+msg))
	}
	in.throw(Iface{in.tt.get(ti), msg})
}

func (in *Interp) unsupported(f string, a ...interface{}) {
	panic(abort("unsupported", fmt.Sprintf(f, a...)))
}

// global returns the cell of a package-level variable, running the lazy
// initialisation of its package when needed.
func (in *Interp) global(g *ssa.Global) *Value {
	in.ensureInit(g.Pkg)
	return in.globalCell(g)
}

func (in *Interp) globalCell(g *ssa.Global) *Value {
	if p, ok := in.globals[g]; ok {
		return p
	}
	p := new(Value)
	*p = zero(in.tt.get(g.Type().(*types.Pointer).Elem()))
	in.globals[g] = p
	return p
}

var noInit = map[string]bool{
	"runtime": true, "os": true, "syscall": true, "reflect": true,
	"internal/poll": true, "internal/cpu": true, "internal/godebug": true,
	"log": true, "log/slog": true, "testing": true, "net": true, "unsafe": true,
	"internal/syscall/unix": true, "os/signal": true, "flag": true, "encoding/json": true,
	"golang.org/x/text/language": true, "golang.org/x/text/internal/language": true,
	"golang.org/x/text/internal/language/compact": true,
	"internal/runtime/maps":                       true, "internal/sync": true, "internal/reflectlite": true,
	"github.com/nicksnyder/go-i18n/v2/i18n": true, "math/rand": true, "math/rand/v2": true,
	"github.com/nicksnyder/go-i18n/v2/internal/plural": true,
}

// aliases initialises what a package that is not initialised takes over from
// other packages (os.ErrNotExist is fs.ErrNotExist).
func (in *Interp) aliases(p *ssa.Package) {
	init := p.Func("init")
	if init == nil {
		return
	}
	for _, b := range init.Blocks {
		for _, i := range b.Instrs {
			st, ok := i.(*ssa.Store)
			if !ok {
				continue
			}
			g, ok := st.Addr.(*ssa.Global)
			if !ok || g.Pkg != p {
				continue
			}
			load, ok := st.Val.(*ssa.UnOp)
			if !ok {
				continue
			}
			if from, ok := load.X.(*ssa.Global); ok && from.Pkg != p && !noInit[from.Pkg.Pkg.Path()] {
				*in.globalCell(g) = copyVal(*in.global(from))
			}
		}
	}
}

func (in *Interp) ensureInit(p *ssa.Package) {
	if p == nil || in.initSt[p] != 0 {
		return
	}
	in.initSt[p] = 1
	path := p.Pkg.Path()
	if path == "time" {
		// the well-known locations; nothing else of time is initialised
		for v, l := range map[string]string{"UTC": "utcLoc", "Local": "localLoc"} {
			g, t := p.Var(v), p.Var(l)
			if g != nil && t != nil {
				*in.globalCell(g) = in.globalCell(t)
			}
		}
	}
	if noInit[path] || strings.HasPrefix(path, "internal/runtime/") || strings.HasPrefix(path, "runtime/") {
		in.aliases(p)
		return
	}
	init := p.Func("init")
	if init == nil {
		return
	}
	sj := in.journal
	in.journal = false
	se := in.epoch
	in.epoch = 0
	// a package is initialised before the program starts
	race := in.race
	in.race = nil
	defer func() {
		in.journal = sj
		in.epoch = se
		in.race = race
		if r := recover(); r != nil {
			in.initSt[p] = 2
			if a, ok := r.(*pathAbort); ok && a.kind == "unsupported" {
				in.ex.note("init of " + path + ": " + a.msg)
				return
			}
			if tp, ok := r.(*targetPanic); ok {
				in.ex.note("init of " + path + " panicked: " + in.panicText(tp))
				return
			}
			panic(r)
		}
	}()
	in.callFn(nil, in.codeOf(init), nil, nil)
}

func (in *Interp) panicText(tp *targetPanic) (s string) {
	defer func() {
		if r := recover(); r != nil {
			s = fmt.Sprintf("panic of type %v", tp.v.T)
		}
	}()
	return in.fmtValue(tp.v, 'v', false)
}

// ---------------------------------------------------------------- compile

func (in *Interp) codeOf(f *ssa.Function) *FnCode {
	if fc, ok := in.code[f]; ok {
		return fc
	}
	fc := &FnCode{fn: f, name: fnName(f), recover: -1}
	if p := f.Package(); p != nil {
		fc.repo = strings.HasPrefix(p.Pkg.Path(), in.ld.module) && !strings.Contains(p.Pkg.Path(), "zverif")
	} else if o := f.Origin(); o != nil && o.Package() != nil {
		fc.repo = strings.HasPrefix(o.Package().Pkg.Path(), in.ld.module) && !strings.Contains(o.Package().Pkg.Path(), "zverif")
	}
	in.code[f] = fc
	if f.Parent() == nil || in.intr[fc.name] != nil {
		fc.intr = in.intr[fc.name]
	}
	return fc
}

func (in *Interp) compileFn(fc *FnCode) {
	fc.compile = true
	f := fc.fn
	if f.Blocks == nil {
		return
	}
	c := &compiler{in: in, fc: fc, regs: map[ssa.Value]int{}}
	for _, p := range f.Params {
		c.newReg(p)
	}
	fc.nparams = len(f.Params)
	for _, v := range f.FreeVars {
		c.newReg(v)
	}
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			if v, ok := i.(ssa.Value); ok {
				c.newReg(v)
			}
			if _, ok := i.(*ssa.Defer); ok {
				fc.guarded = true
			}
		}
	}
	if f.Recover != nil {
		fc.recover = f.Recover.Index
		fc.guarded = true
	}
	fc.nregs = len(c.regs)
	for _, b := range f.Blocks {
		fc.blocks = append(fc.blocks, c.block(b))
	}
}

type compiler struct {
	in   *Interp
	fc   *FnCode
	regs map[ssa.Value]int
}

func (c *compiler) newReg(v ssa.Value) { c.regs[v] = len(c.regs) }

func (c *compiler) op(v ssa.Value) opnd {
	switch v := v.(type) {
	case nil:
		return opnd{reg: -1}
	case *ssa.Const:
		return opnd{reg: -1, c: c.in.constVal(v)}
	case *ssa.Function:
		return opnd{reg: -1, c: &Closure{fn: c.in.codeOf(v)}}
	case *ssa.Builtin:
		return opnd{reg: -1, c: v}
	case *ssa.Global:
		in := c.in
		if in.initSt[v.Pkg] != 0 {
			return opnd{reg: -1, c: in.globalCell(v)}
		}
		return opnd{reg: -1, dyn: func(fr *Frame) Value { return in.global(v) }}
	}
	r, ok := c.regs[v]
	if !ok {
		panic(fmt.Sprintf("no register for %v in %v", v, c.fc.name))
	}
	return opnd{reg: r}
}

func (in *Interp) constVal(k *ssa.Const) Value {
	ti := in.tt.get(k.Type())
	if k.Value == nil {
		return zero(ti)
	}
	switch ti.kind {
	case kBool:
		return constant.BoolVal(k.Value)
	case kInt:
		if ti.signed {
			return uint64(k.Int64()) & mask(ti.w)
		}
		return k.Uint64() & mask(ti.w)
	case kFloat:
		return k.Float64()
	case kComplex:
		return k.Complex128()
	case kString:
		if k.Value.Kind() == constant.String {
			return constant.StringVal(k.Value)
		}
		return string(rune(k.Int64()))
	}
	// type parameters' core types are instantiated, so this is unexpected
	panic(abort("unsupported", fmt.Sprintf("constant %v", k)))
}

func (c *compiler) block(b *ssa.BasicBlock) *blockCode {
	bc := &blockCode{}
	for _, i := range b.Instrs {
		switch i := i.(type) {
		case *ssa.Phi:
			p := phiCode{reg: c.regs[i]}
			for _, e := range i.Edges {
				p.edges = append(p.edges, c.op(e))
			}
			bc.phis = append(bc.phis, p)
		case *ssa.DebugRef:
		case *ssa.If:
			cond := c.op(i.Cond)
			t, e := b.Succs[0].Index, b.Succs[1].Index
			site := ""
			if c.in.profile {
				pos := c.in.prog.Fset.Position(i.Cond.Pos())
				site = fmt.Sprintf("%s %s:%d", c.fc.name, pos.Filename, pos.Line)
			}
			bc.term = func(fr *Frame) int {
				v := cond.get(fr)
				if bv, ok := v.(bool); ok {
					if bv {
						return t
					}
					return e
				}
				if fr.in.decideAt(v, site) {
					return t
				}
				return e
			}
		case *ssa.Jump:
			t := b.Succs[0].Index
			bc.term = func(fr *Frame) int { return t }
		case *ssa.Return:
			var ops []opnd
			for _, r := range i.Results {
				ops = append(ops, c.op(r))
			}
			switch len(ops) {
			case 0:
				bc.term = func(fr *Frame) int { return -1 }
			case 1:
				bc.term = func(fr *Frame) int { fr.result = ops[0].get(fr); return -1 }
			default:
				bc.term = func(fr *Frame) int {
					t := make(Tuple, len(ops))
					for k := range ops {
						t[k] = ops[k].get(fr)
					}
					fr.result = t
					return -1
				}
			}
		case *ssa.Panic:
			x := c.op(i.X)
			bc.term = func(fr *Frame) int {
				v := x.get(fr).(Iface)
				if v.T == nil {
					fr.in.throwRuntime("panic called with nil argument (use GODEBUG=panicnil=1 to disable)")
				}
				fr.in.throw(v)
				return -1
			}
		default:
			if f := c.instr(i); f != nil {
				bc.instrs = append(bc.instrs, f)
			}
		}
	}
	return bc
}

func (in *Interp) decideBool(v Value) bool {
	switch v := v.(type) {
	case bool:
		return v
	case *Expr:
		return in.decide(v)
	}
	panic(fmt.Sprintf("not a bool: %T", v))
}

func (in *Interp) decideAt(v Value, site string) bool {
	e := v.(*Expr)
	if in.profile {
		n := len(in.decs)
		r := in.decide(e)
		if len(in.decs) > n {
			in.forkSites[site]++
		}
		return r
	}
	return in.decide(e)
}

// --------------------------------------------------------------- execution

// callFn runs compiled function fc.
func (in *Interp) callFn(caller *Frame, fc *FnCode, args []Value, env []Value) Value {
	if fc.intr != nil {
		if r := fc.intr(in, caller, args); r != notHandled {
			return r
		}
	}
	if !fc.compile {
		in.compileFn(fc)
	}
	if fc.blocks == nil {
		in.unsupported("no body for %s", fc.name)
	}
	if fc.repo && !fc.covered {
		fc.covered = true
		in.coverage[fc.fn] = true
	}
	fr := &Frame{in: in, fc: fc, caller: caller, prev: -1}
	fr.regs = make([]Value, fc.nregs)
	copy(fr.regs, args)
	copy(fr.regs[fc.nparams:], env)
	in.depth++
	if in.depth > 3000 {
		in.depth = 0
		panic(abort("steps", "call depth exceeded in "+fc.name))
	}
	if fc.guarded {
		for !fr.done {
			in.runGuarded(fr)
		}
	} else {
		in.run(fr)
	}
	in.depth--
	return fr.result
}

func (in *Interp) runGuarded(fr *Frame) {
	depth := in.depth
	defer func() {
		if fr.done {
			return
		}
		r := recover()
		if _, ok := r.(*targetPanic); !ok {
			panic(r) // engine control flow, or an engine bug
		}
		in.depth = depth
		fr.panicking = true
		fr.panicVal = r
		in.runDefers(fr)
		// recovered
		if fr.fc.recover < 0 {
			fr.done = true
			fr.result = zeroResult(in, fr.fc.fn)
			return
		}
		fr.block = fr.fc.recover
		fr.prev = -1
	}()
	in.run(fr)
}

func zeroResult(in *Interp, f *ssa.Function) Value {
	res := f.Signature.Results()
	switch res.Len() {
	case 0:
		return nil
	case 1:
		return zero(in.tt.get(res.At(0).Type()))
	}
	return zero(in.tt.get(res))
}

func (in *Interp) runDefers(fr *Frame) {
	for fr.defers != nil {
		d := fr.defers
		fr.defers = d.tail
		in.runDefer(fr, d)
	}
	if fr.panicking {
		panic(fr.panicVal)
	}
}

func (in *Interp) runDefer(fr *Frame, d *deferred) {
	ok := false
	depth := in.depth
	defer func() {
		if !ok {
			r := recover()
			if _, isT := r.(*targetPanic); !isT {
				panic(r)
			}
			in.depth = depth
			fr.panicking = true
			fr.panicVal = r
		}
	}()
	in.callClosure(fr, d.fn, d.args)
	ok = true
}

func (in *Interp) callClosure(caller *Frame, c *Closure, args []Value) Value {
	if c == nil {
		in.throwRuntime("invalid memory address or nil pointer dereference")
	}
	if c.native != nil {
		return c.native(in, caller, args)
	}
	return in.callFn(caller, c.fn, args, c.env)
}

func (in *Interp) run(fr *Frame) {
	for {
		bc := fr.fc.blocks[fr.block]
		if len(bc.phis) > 0 {
			in.phis(fr, bc)
		}
		in.steps += int64(len(bc.instrs)) + 1
		if in.profile {
			in.forkSites["steps "+fr.fc.name] += len(bc.instrs) + 1
		}
		if in.steps > in.maxSteps {
			panic(abort("steps", "step limit in "+fr.fc.name))
		}
		for _, f := range bc.instrs {
			f(fr)
		}
		n := bc.term(fr)
		if n < 0 {
			fr.done = true
			return
		}
		fr.prev = fr.block
		fr.block = n
	}
}

func (in *Interp) phis(fr *Frame, bc *blockCode) {
	b := fr.fc.fn.Blocks[fr.block]
	pi := 0
	for i, p := range b.Preds {
		if p.Index == fr.prev {
			pi = i
			break
		}
	}
	if len(bc.phis) == 1 {
		fr.regs[bc.phis[0].reg] = bc.phis[0].edges[pi].get(fr)
		return
	}
	fr.phi = fr.phi[:0]
	for i := range bc.phis {
		fr.phi = append(fr.phi, bc.phis[i].edges[pi].get(fr))
	}
	for i := range bc.phis {
		fr.regs[bc.phis[i].reg] = fr.phi[i]
	}
}

func (in *Interp) deref(v Value) *Value {
	p, ok := v.(*Value)
	if !ok {
		in.unsupported("dereference of %T", v)
	}
	if p == nil {
		in.throwRuntime("invalid memory address or nil pointer dereference")
	}
	return p
}

func (in *Interp) tinfo(t types.Type) *TInfo { return in.tt.get(t) }

// instr compiles one non-control instruction.
func (c *compiler) instr(i ssa.Instruction) func(fr *Frame) {
	in := c.in
	dst := -1
	if v, ok := i.(ssa.Value); ok {
		dst = c.regs[v]
	}
	switch i := i.(type) {
	case *ssa.UnOp:
		x := c.op(i.X)
		switch i.Op {
		case token.MUL:
			return func(fr *Frame) {
				p, ok := x.get(fr).(*Value)
				if !ok || p == nil {
					p = in.deref(x.get(fr))
				}
				v := *p
				if in.race != nil {
					in.raceCell(fr.fc, p, false)
				}
				switch v.(type) {
				case Struct, Array:
					v = copyVal(v)
				}
				fr.regs[dst] = v
			}
		case token.ARROW:
			ti := in.tinfo(i.X.Type())
			commaok := i.CommaOk
			return func(fr *Frame) {
				v, ok := in.chanRecv(x.get(fr).(*ChanObj), ti.elem)
				if commaok {
					fr.regs[dst] = Tuple{v, ok}
				} else {
					fr.regs[dst] = v
				}
			}
		default:
			op := i.Op
			ti := in.tinfo(i.X.Type())
			return func(fr *Frame) { fr.regs[dst] = in.unop(op, ti, x.get(fr)) }
		}
	case *ssa.BinOp:
		x, y := c.op(i.X), c.op(i.Y)
		ti := in.tinfo(i.X.Type())
		ty := in.tinfo(i.Y.Type())
		op := i.Op
		return func(fr *Frame) { fr.regs[dst] = in.binop(op, ti, ty, x.get(fr), y.get(fr)) }
	case *ssa.Call:
		f := c.call(&i.Call)
		return func(fr *Frame) { fr.regs[dst] = f(fr) }
	case *ssa.ChangeInterface:
		x := c.op(i.X)
		return func(fr *Frame) { fr.regs[dst] = x.get(fr) }
	case *ssa.ChangeType:
		x := c.op(i.X)
		return func(fr *Frame) { fr.regs[dst] = x.get(fr) }
	case *ssa.Convert:
		x := c.op(i.X)
		from, to := in.tinfo(i.X.Type()), in.tinfo(i.Type())
		return func(fr *Frame) { fr.regs[dst] = in.convert(from, to, x.get(fr)) }
	case *ssa.MultiConvert:
		x := c.op(i.X)
		from, to := in.tinfo(i.X.Type()), in.tinfo(i.Type())
		return func(fr *Frame) { fr.regs[dst] = in.convert(from, to, x.get(fr)) }
	case *ssa.SliceToArrayPointer:
		return func(fr *Frame) { in.unsupported("slice to array pointer") }
	case *ssa.MakeInterface:
		x := c.op(i.X)
		ti := in.tinfo(i.X.Type())
		return func(fr *Frame) { fr.regs[dst] = Iface{ti, x.get(fr)} }
	case *ssa.Extract:
		x := c.op(i.Tuple)
		idx := i.Index
		return func(fr *Frame) { fr.regs[dst] = x.get(fr).(Tuple)[idx] }
	case *ssa.Slice:
		x, lo, hi, mx := c.op(i.X), c.op(i.Low), c.op(i.High), c.op(i.Max)
		return func(fr *Frame) {
			fr.regs[dst] = in.slice(x.get(fr), lo.get(fr), hi.get(fr), mx.get(fr))
		}
	case *ssa.RunDefers:
		return func(fr *Frame) { in.runDefers(fr) }
	case *ssa.Send:
		ch, x := c.op(i.Chan), c.op(i.X)
		return func(fr *Frame) { in.chanSend(ch.get(fr).(*ChanObj), x.get(fr)) }
	case *ssa.Store:
		a, v := c.op(i.Addr), c.op(i.Val)
		return func(fr *Frame) {
			p, ok := a.get(fr).(*Value)
			if !ok || p == nil {
				p = in.deref(a.get(fr))
			}
			if in.race != nil {
				in.raceCell(fr.fc, p, true)
			}
			in.store(p, v.get(fr))
		}
	case *ssa.Defer:
		prep := c.prepare(&i.Call)
		ds := c.op(i.DeferStack)
		hasDS := i.DeferStack != nil
		return func(fr *Frame) {
			fn, args := prep(fr)
			target := fr
			if hasDS {
				target = ds.get(fr).(*deferStackRef).fr
			}
			target.defers = &deferred{fn: fn, args: args, tail: target.defers}
		}
	case *ssa.Go:
		prep := c.prepare(&i.Call)
		return func(fr *Frame) {
			fn, args := prep(fr)
			in.spawn(fn, args)
		}
	case *ssa.MakeChan:
		sz := c.op(i.Size)
		return func(fr *Frame) {
			n := int64(in.concInt(sz.get(fr)))
			if n < 0 {
				in.throwRuntime("makechan: size out of range")
			}
			fr.regs[dst] = &ChanObj{cap: int(n), epoch: in.epoch}
		}
	case *ssa.Alloc:
		ti := in.tinfo(i.Type().(*types.Pointer).Elem())
		return func(fr *Frame) {
			p := new(Value)
			*p = zero(ti)
			fr.regs[dst] = p
		}
	case *ssa.MakeSlice:
		ln, cp := c.op(i.Len), c.op(i.Cap)
		ti := in.tinfo(i.Type().Underlying().(*types.Slice).Elem())
		return func(fr *Frame) {
			n := int64(in.concInt(ln.get(fr)))
			k := int64(in.concInt(cp.get(fr)))
			if n < 0 || n > 1<<24 {
				in.throwRuntime("makeslice: len out of range")
			}
			if k < n || k > 1<<24 {
				in.throwRuntime("makeslice: cap out of range")
			}
			s := make(Slice, k)
			for j := range s {
				s[j] = zero(ti)
			}
			fr.regs[dst] = s[:n]
		}
	case *ssa.MakeMap:
		return func(fr *Frame) { fr.regs[dst] = newMap(in.epoch) }
	case *ssa.Range:
		x := c.op(i.X)
		return func(fr *Frame) {
			if m, ok := x.get(fr).(*MapObj); ok {
				in.raceMap(fr, m, false)
			}
			fr.regs[dst] = in.rangeIter(x.get(fr))
		}
	case *ssa.Next:
		it := c.op(i.Iter)
		tt := i.Type().(*types.Tuple)
		kt, vt := tt.At(1).Type(), tt.At(2).Type()
		_ = kt
		_ = vt
		return func(fr *Frame) { fr.regs[dst] = it.get(fr).(iterator).next(in) }
	case *ssa.FieldAddr:
		x := c.op(i.X)
		f := i.Field
		return func(fr *Frame) {
			p, ok := x.get(fr).(*Value)
			if !ok || p == nil {
				p = in.deref(x.get(fr))
			}
			s, ok := (*p).(Struct)
			if !ok {
				in.unsupported("field of opaque %T in %s", *p, fr.fc.name)
			}
			fr.regs[dst] = &s[f]
		}
	case *ssa.Field:
		x := c.op(i.X)
		f := i.Field
		return func(fr *Frame) { fr.regs[dst] = x.get(fr).(Struct)[f] }
	case *ssa.IndexAddr:
		x, idx := c.op(i.X), c.op(i.Index)
		it := in.tinfo(i.Index.Type())
		return func(fr *Frame) {
			switch xv := x.get(fr).(type) {
			case Slice:
				k := in.index(idx.get(fr), it, len(xv))
				fr.regs[dst] = &xv[k]
			case *Value:
				a := (*in.deref(xv)).(Array)
				k := in.index(idx.get(fr), it, len(a))
				fr.regs[dst] = &a[k]
			default:
				in.unsupported("IndexAddr of %T", xv)
			}
		}
	case *ssa.Index:
		x, idx := c.op(i.X), c.op(i.Index)
		it := in.tinfo(i.Index.Type())
		return func(fr *Frame) {
			switch xv := x.get(fr).(type) {
			case Array:
				fr.regs[dst] = xv[in.index(idx.get(fr), it, len(xv))]
			case string:
				fr.regs[dst] = uint64(xv[in.index(idx.get(fr), it, len(xv))])
			case *SymStr:
				fr.regs[dst] = xv.b[in.index(idx.get(fr), it, len(xv.b))]
			default:
				in.unsupported("Index of %T", xv)
			}
		}
	case *ssa.Lookup:
		x, idx := c.op(i.X), c.op(i.Index)
		xt := in.tinfo(i.X.Type())
		it := in.tinfo(i.Index.Type())
		commaok := i.CommaOk
		return func(fr *Frame) {
			switch xv := x.get(fr).(type) {
			case *MapObj:
				in.raceMap(fr, xv, false)
				v, ok := in.mapGet(xv, xt.key, idx.get(fr))
				if !ok {
					v = zero(xt.elem)
				}
				if commaok {
					fr.regs[dst] = Tuple{v, ok}
				} else {
					fr.regs[dst] = v
				}
			case string:
				fr.regs[dst] = uint64(xv[in.index(idx.get(fr), it, len(xv))])
			case *SymStr:
				fr.regs[dst] = xv.b[in.index(idx.get(fr), it, len(xv.b))]
			default:
				in.unsupported("Lookup in %T", xv)
			}
		}
	case *ssa.MapUpdate:
		m, k, v := c.op(i.Map), c.op(i.Key), c.op(i.Value)
		mt := in.tinfo(i.Map.Type())
		return func(fr *Frame) {
			mo := m.get(fr).(*MapObj)
			if mo == nil {
				in.throwPlain("assignment to entry in nil map")
			}
			in.raceMap(fr, mo, true)
			in.mapSet(mo, mt.key, k.get(fr), v.get(fr))
		}
	case *ssa.TypeAssert:
		x := c.op(i.X)
		at := in.tinfo(i.AssertedType)
		commaok := i.CommaOk
		return func(fr *Frame) {
			v := x.get(fr).(Iface)
			var res Value
			ok := false
			if v.T != nil {
				if at.kind == kIface {
					if in.implements(v.T, at) {
						ok, res = true, v
					}
				} else if v.T == at {
					ok, res = true, v.V
				}
			}
			if commaok {
				if !ok {
					res = zero(at)
				}
				fr.regs[dst] = Tuple{res, ok}
				return
			}
			if !ok {
				dt := "nil"
				if v.T != nil {
					dt = v.T.T.String()
				}
				in.throwRuntime(fmt.Sprintf("interface conversion: interface is %s, not %s", dt, at.T))
			}
			fr.regs[dst] = res
		}
	case *ssa.MakeClosure:
		fc := in.codeOf(i.Fn.(*ssa.Function))
		var ops []opnd
		for _, b := range i.Bindings {
			ops = append(ops, c.op(b))
		}
		return func(fr *Frame) {
			env := make([]Value, len(ops))
			for k := range ops {
				env[k] = ops[k].get(fr)
			}
			fr.regs[dst] = &Closure{fn: fc, env: env}
		}
	case *ssa.Select:
		return c.selectInstr(i, dst)
	}
	msg := fmt.Sprintf("instruction %T", i)
	return func(fr *Frame) { in.unsupported("%s", msg) }
}

func (in *Interp) throwPlain(msg string) { in.throwRuntime(msg) }

// implements reports whether dynamic type t satisfies interface it.
func (in *Interp) implements(t, it *TInfo) bool {
	if r, ok := t.impl[it]; ok {
		return r
	}
	r := types.Implements(t.T, it.U.(*types.Interface))
	t.impl[it] = r
	return r
}

// method finds the implementation of an interface method for a dynamic type.
func (in *Interp) method(t *TInfo, m *types.Func) *Closure {
	name := m.Name()
	if !m.Exported() {
		name = m.Pkg().Path() + "." + name
	}
	if c, ok := t.methods[name]; ok {
		return c
	}
	f := in.ld.lookupMethod(t.T, m.Pkg(), m.Name())
	if f == nil {
		in.unsupported("no method %s on %v", name, t.T)
	}
	c := &Closure{fn: in.codeOf(f)}
	if t.methods == nil {
		t.methods = map[string]*Closure{}
	}
	t.methods[name] = c
	return c
}

// callMethod calls a method by name on an interface value, if it has it.
func (in *Interp) callMethod(fr *Frame, v Iface, name string, args ...Value) (Value, bool) {
	if v.T == nil {
		return nil, false
	}
	key := "." + name
	c, ok := v.T.methods[key]
	if !ok {
		f := in.ld.lookupMethod(v.T.T, nil, name)
		if f != nil {
			c = &Closure{fn: in.codeOf(f)}
		}
		if v.T.methods == nil {
			v.T.methods = map[string]*Closure{}
		}
		v.T.methods[key] = c
	}
	if c == nil {
		return nil, false
	}
	return in.callClosure(fr, c, append([]Value{v.V}, args...)), true
}

// prepare evaluates callee and arguments for Defer and Go.
func (c *compiler) prepare(call *ssa.CallCommon) func(fr *Frame) (*Closure, []Value) {
	in := c.in
	var ops []opnd
	for _, a := range call.Args {
		ops = append(ops, c.op(a))
	}
	fnop := c.op(call.Value)
	if call.Method != nil {
		m := call.Method
		return func(fr *Frame) (*Closure, []Value) {
			recv := fnop.get(fr).(Iface)
			if recv.T == nil {
				in.throwRuntime("invalid memory address or nil pointer dereference")
			}
			args := make([]Value, 0, len(ops)+1)
			args = append(args, recv.V)
			for k := range ops {
				args = append(args, ops[k].get(fr))
			}
			return in.method(recv.T, m), args
		}
	}
	if b, ok := call.Value.(*ssa.Builtin); ok {
		var types []*TInfo
		for _, a := range call.Args {
			types = append(types, in.tinfo(a.Type()))
		}
		return func(fr *Frame) (*Closure, []Value) {
			args := make([]Value, len(ops))
			for k := range ops {
				args[k] = ops[k].get(fr)
			}
			return &Closure{name: b.Name(), native: func(in *Interp, f2 *Frame, args []Value) Value {
				return in.builtin(f2, b.Name(), types, args, nil)
			}}, args
		}
	}
	return func(fr *Frame) (*Closure, []Value) {
		args := make([]Value, len(ops))
		for k := range ops {
			args[k] = ops[k].get(fr)
		}
		return fnop.get(fr).(*Closure), args
	}
}

func (c *compiler) call(call *ssa.CallCommon) func(fr *Frame) Value {
	in := c.in
	ops := make([]opnd, len(call.Args))
	for k, a := range call.Args {
		ops[k] = c.op(a)
	}
	if call.Method != nil {
		fnop := c.op(call.Value)
		m := call.Method
		return func(fr *Frame) Value {
			recv := fnop.get(fr).(Iface)
			if recv.T == nil {
				in.throwRuntime("invalid memory address or nil pointer dereference")
			}
			args := make([]Value, len(ops)+1)
			args[0] = recv.V
			for k := range ops {
				args[k+1] = ops[k].get(fr)
			}
			return in.callClosure(fr, in.method(recv.T, m), args)
		}
	}
	switch f := call.Value.(type) {
	case *ssa.Builtin:
		types := make([]*TInfo, len(call.Args))
		for k, a := range call.Args {
			types[k] = in.tinfo(a.Type())
		}
		name := f.Name()
		var rt *TInfo
		if call.Signature().Results().Len() == 1 {
			rt = in.tinfo(call.Signature().Results().At(0).Type())
		}
		return func(fr *Frame) Value {
			args := make([]Value, len(ops))
			for k := range ops {
				args[k] = ops[k].get(fr)
			}
			return in.builtin(fr, name, types, args, rt)
		}
	case *ssa.Function:
		fc := in.codeOf(f)
		if f.Name() == "init" && f.Signature.Recv() == nil && f.Parent() == nil && c.fc.fn.Name() == "init" && f.Pkg != c.fc.fn.Pkg {
			// package initialisers of imports: eager for the module, lazy otherwise
			pkg := f.Pkg
			return func(fr *Frame) Value {
				if pkg != nil && strings.HasPrefix(pkg.Pkg.Path(), in.ld.module) {
					in.ensureInit(pkg)
				}
				return nil
			}
		}
		return func(fr *Frame) Value {
			args := make([]Value, len(ops))
			for k := range ops {
				args[k] = ops[k].get(fr)
			}
			return in.callFn(fr, fc, args, nil)
		}
	}
	fnop := c.op(call.Value)
	return func(fr *Frame) Value {
		cl := fnop.get(fr).(*Closure)
		args := make([]Value, len(ops))
		for k := range ops {
			args[k] = ops[k].get(fr)
		}
		return in.callClosure(fr, cl, args)
	}
}
