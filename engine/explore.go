package main

import (
	"fmt"
	"os"
	"runtime/debug"
	"sort"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

type workItem struct {
	prefix []dec
	model  Model
}

// Violation is a satisfiable negated assertion with its concrete inputs.
type Violation struct {
	Tag     string           `json:"tag"`
	Msg     string           `json:"msg"`
	Model   Model            `json:"model"`
	Kind    string           `json:"kind"` // assert, panic, deadlock
	Entry   string           `json:"entry"`
	Prefix  int              `json:"-"`
	Confirm string           `json:"-"`
	Params  map[string]int64 `json:"-"`
}

type pathViolation struct{ tag, msg, kind string }

// PathSample is one completed path: inputs and what the harness observed.
type PathSample struct {
	Model Model      `json:"model"`
	Obs   []ObsEntry `json:"obs"`
}

// ObsEntry is one observation.
type ObsEntry struct {
	K string `json:"k"`
	V string `json:"v"`
}

// Explorer drives the workers over the path tree of one harness entry.
type Explorer struct {
	ld     *Loaded
	entry  *ssa.Function
	name   string
	params map[string]int64

	mu      sync.Mutex
	cond    *sync.Cond
	work    []workItem
	busy    int
	stop    bool
	started time.Time
	budget  time.Duration

	paths      int
	completed  int
	infeasible int
	pruned     map[string]int // kind -> count
	pruneMsgs  map[string]int
	decisions  int
	asserts    int
	tags       map[string]int
	reached    map[string]int
	coverage   map[string]bool
	known      map[string]bool // tags of known findings
	viols      map[string][]*Violation
	violCount  map[string]int
	samples    []PathSample
	cuts       []Model // inputs of paths that could not be followed to their end
	sampleN    int
	notes      map[string]bool
	steps      int64
	queries    int
	cacheHits  int
	unknowns   int
	solverTime time.Duration
	maxQuery   time.Duration
	forkSites  map[string]int
	crossAgree int
	crossBad   int
	truncated  bool
	seed       int64
	maxViols   int
	labels     map[string]bool
}

func NewExplorer(ld *Loaded, name string, entry *ssa.Function) *Explorer {
	ex := &Explorer{ld: ld, entry: entry, name: name,
		pruned: map[string]int{}, pruneMsgs: map[string]int{}, tags: map[string]int{},
		reached: map[string]int{}, coverage: map[string]bool{}, viols: map[string][]*Violation{},
		violCount: map[string]int{}, notes: map[string]bool{}, forkSites: map[string]int{},
		params: map[string]int64{}, maxViols: 6, labels: map[string]bool{}}
	ex.cond = sync.NewCond(&ex.mu)
	return ex
}

func (ex *Explorer) note(s string) {
	ex.mu.Lock()
	ex.notes[s] = true
	ex.mu.Unlock()
}

func (ex *Explorer) push(w workItem) {
	ex.mu.Lock()
	ex.work = append(ex.work, w)
	ex.mu.Unlock()
	ex.cond.Signal()
}

func (ex *Explorer) pop() (workItem, bool) {
	ex.mu.Lock()
	defer ex.mu.Unlock()
	for {
		if ex.stop {
			return workItem{}, false
		}
		if time.Since(ex.started) > ex.budget {
			ex.stop = true
			ex.truncated = len(ex.work) > 0 || ex.busy > 0
			ex.cond.Broadcast()
			return workItem{}, false
		}
		if n := len(ex.work); n > 0 {
			w := ex.work[n-1]
			ex.work = ex.work[:n-1]
			ex.busy++
			return w, true
		}
		if ex.busy == 0 {
			ex.stop = true
			ex.cond.Broadcast()
			return workItem{}, false
		}
		ex.cond.Wait()
	}
}

func (ex *Explorer) done() {
	ex.mu.Lock()
	ex.busy--
	if ex.busy == 0 && len(ex.work) == 0 {
		ex.cond.Broadcast()
	}
	ex.mu.Unlock()
}

// violGrace is how long an exploration goes on after a violation.
const violGrace = 20 * time.Second

// Run explores all paths of the entry with n workers within the budget.
func (ex *Explorer) Run(n int, budget time.Duration, profile bool) error {
	ex.started = time.Now()
	ex.budget = budget
	ex.work = []workItem{{model: Model{}}}
	var wg sync.WaitGroup
	errs := make(chan error, n)
	tick := make(chan struct{})
	go func() { // wake sleepers at the deadline
		select {
		case <-time.After(budget + 50*time.Millisecond):
			ex.cond.Broadcast()
		case <-tick:
		}
	}()
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			in, err := NewInterp(ex, profile)
			if err != nil {
				errs <- err
				ex.mu.Lock()
				ex.stop = true
				ex.mu.Unlock()
				ex.cond.Broadcast()
				return
			}
			defer in.solver.Close()
			for {
				w, ok := ex.pop()
				if !ok {
					break
				}
				in.runPath(w)
				ex.done()
			}
			ex.mu.Lock()
			ex.queries += in.solver.Queries
			ex.cacheHits += in.solver.CacheHit
			ex.unknowns += in.solver.Unknowns
			ex.solverTime += in.solver.Time
			if in.solver.MaxTime > ex.maxQuery {
				ex.maxQuery = in.solver.MaxTime
			}
			for f := range in.coverage {
				ex.coverage[fnName(f)] = true
			}
			for s, c := range in.forkSites {
				ex.forkSites[s] += c
			}
			ex.mu.Unlock()
		}(i)
	}
	wg.Wait()
	close(tick)
	select {
	case err := <-errs:
		return err
	default:
	}
	return nil
}

// NewInterp makes a worker's interpreter and initialises the module.
func NewInterp(ex *Explorer, profile bool) (*Interp, error) {
	ld := ex.ld
	sv, err := NewSolver(ld.solverCmd...)
	if err != nil {
		return nil, err
	}
	in := &Interp{
		ld: ld, prog: ld.prog, tt: newTypeTab(), t: NewTerms(), solver: sv, ex: ex,
		globals: map[*ssa.Global]*Value{}, code: map[*ssa.Function]*FnCode{},
		initSt: map[*ssa.Package]int{}, coverage: map[*ssa.Function]bool{},
		maxSteps: 30_000_000, profile: profile, forkSites: map[string]int{}, params: ex.params,
	}
	in.intr = intrinsics
	in.initSync = map[*Value]*syncState{}
	in.syncTab = map[*Value]*syncState{}
	var ierr error
	func() {
		defer func() {
			if r := recover(); r != nil {
				switch r := r.(type) {
				case *pathAbort:
					ierr = fmt.Errorf("initialisation: %s: %s", r.kind, r.msg)
				case *targetPanic:
					ierr = fmt.Errorf("initialisation panicked: %s", in.panicText(r))
				default:
					ierr = fmt.Errorf("initialisation: %v\n%s", r, debug.Stack())
				}
			}
		}()
		in.maxSteps = 1 << 40
		in.ensureInit(ex.entry.Pkg)
		in.maxSteps = 30_000_000
	}()
	return in, ierr
}

func (in *Interp) newVar(name string, w uint8) *Expr {
	v := in.t.Var(name, w)
	if !in.inputSet[v] {
		in.inputSet[v] = true
		in.inputs = append(in.inputs, v)
	}
	return v
}

// slice of the path condition sharing variables with e.
func (in *Interp) relevant(e *Expr) []*Expr {
	vs := map[*Expr]bool{}
	for _, v := range e.vars {
		vs[v] = true
	}
	used := make([]bool, len(in.pc))
	var out []*Expr
	for changed := true; changed; {
		changed = false
		for i, c := range in.pc {
			if used[i] {
				continue
			}
			hit := false
			for _, v := range c.vars {
				if vs[v] {
					hit = true
					break
				}
			}
			if hit {
				used[i] = true
				changed = true
				out = append(out, c)
				for _, v := range c.vars {
					vs[v] = true
				}
			}
		}
	}
	return out
}

func (in *Interp) evalModel(e *Expr) uint64 { return Eval(e, in.model, map[*Expr]uint64{}) }

// satWith asks whether pc ∧ e is satisfiable, returning an updated model.
func (in *Interp) satWith(e *Expr) (Sat, Model) {
	rel := in.relevant(e)
	r, m := in.solver.Check(append(rel, e))
	if r != SatYes {
		return r, nil
	}
	nm := make(Model, len(in.model)+len(m))
	for k, v := range in.model {
		nm[k] = v
	}
	for k, v := range m {
		nm[k] = v
	}
	return SatYes, nm
}

func (in *Interp) addPC(e *Expr) {
	if e.op == OConst || in.pcSet[e] {
		return
	}
	if e.op == OAnd {
		in.addPC(e.a)
		in.addPC(e.b)
		in.pcSet[e] = true
		return
	}
	in.pcSet[e] = true
	in.pc = append(in.pc, e)
}

// decide forks on a symbolic condition.
func (in *Interp) decide(e *Expr) bool {
	if e.op == OConst {
		return e.k == 1
	}
	if in.pcSet[e] {
		return true
	}
	ne := in.t.Not(e)
	if in.pcSet[ne] {
		return false
	}
	if in.journal == false {
		in.unsupported("symbolic branch during initialisation")
	}
	if in.pos < len(in.prefix) {
		d := in.prefix[in.pos]
		in.pos++
		in.decs = append(in.decs, d)
		if in.pos == len(in.prefix) {
			in.model = in.startMod
		}
		if d.b {
			in.addPC(e)
		} else {
			in.addPC(ne)
		}
		return d.b
	}
	cur := in.evalModel(e) == 1
	other := ne
	if !cur {
		other = e
	}
	r, m := in.satWith(other)
	if r == Unknown {
		panic(abort("unknown", "solver gave no answer on a branch"))
	}
	if r == SatYes {
		pre := make([]dec, len(in.decs)+1)
		copy(pre, in.decs)
		pre[len(in.decs)] = dec{b: !cur}
		in.ex.push(workItem{prefix: pre, model: m})
	}
	in.decs = append(in.decs, dec{b: cur})
	in.pos++
	if cur {
		in.addPC(e)
	} else {
		in.addPC(ne)
	}
	return cur
}

// assume restricts the path; an infeasible assumption ends it.
func (in *Interp) assume(e *Expr) {
	if e.op == OConst {
		if e.k == 0 {
			panic(abort("infeasible", "assumption"))
		}
		return
	}
	if in.pcSet[e] {
		return
	}
	if in.pos < len(in.prefix) {
		in.addPC(e)
		return
	}
	if in.evalModel(e) != 1 {
		r, m := in.satWith(e)
		switch r {
		case Unsat:
			panic(abort("infeasible", "assumption"))
		case Unknown:
			panic(abort("unknown", "solver gave no answer on an assumption"))
		}
		in.model = m
	}
	in.addPC(e)
}

// concretize forks over the feasible values of e.
func (in *Interp) concretize(e *Expr) uint64 {
	if e.op == OConst {
		return e.k
	}
	if !in.journal {
		in.unsupported("symbolic value concretised during initialisation")
	}
	for n := 0; ; n++ {
		if n > 300 {
			in.unsupported("more than 300 values for a concretised term")
		}
		if in.pos < len(in.prefix) {
			d := in.prefix[in.pos]
			in.pos++
			in.decs = append(in.decs, d)
			if in.pos == len(in.prefix) {
				in.model = in.startMod
			}
			c := in.t.Eq(e, in.t.Const(d.v, e.w))
			if d.b {
				in.addPC(c)
				return d.v
			}
			in.addPC(in.t.Not(c))
			continue
		}
		v := in.evalModel(e)
		c := in.t.Eq(e, in.t.Const(v, e.w))
		nc := in.t.Not(c)
		if !in.pcSet[c] {
			r, m := in.satWith(nc)
			if r == Unknown {
				panic(abort("unknown", "solver gave no answer on a value"))
			}
			if r == SatYes {
				pre := make([]dec, len(in.decs)+1)
				copy(pre, in.decs)
				pre[len(in.decs)] = dec{v: v, b: false}
				in.ex.push(workItem{prefix: pre, model: m})
			}
		}
		in.decs = append(in.decs, dec{v: v, b: true})
		in.pos++
		in.addPC(c)
		return v
	}
}

// assert checks the property: a feasible negation is a violation.
func (in *Interp) assertTag(v Value, tag, msg string) {
	in.checks++
	in.props[tag]++
	var holds bool
	switch v := v.(type) {
	case bool:
		holds = v
	case *Expr:
		holds = in.decide(v)
	}
	if !holds {
		in.viol = append(in.viol, pathViolation{tag, msg, "assert"})
		panic(abort("violation", tag))
	}
}

func (in *Interp) runPath(w workItem) {
	in.epoch++
	in.prefix = w.prefix
	in.pos = 0
	in.decs = in.decs[:0:0]
	in.pc = in.pc[:0]
	in.pcSet = map[*Expr]bool{}
	in.startMod = w.model
	in.model = w.model
	if len(w.prefix) > 0 {
		in.model = nil
	}
	in.labelCnt = map[string]int{}
	in.obs = nil
	in.inputs = nil
	in.inputSet = map[*Expr]bool{}
	in.steps = 0
	in.depth = 0
	in.varSeq = 0
	in.reached = map[string]bool{}
	in.props = map[string]int{}
	in.checks = 0
	in.viol = nil
	in.files = nil
	in.syncTab = map[*Value]*syncState{}
	in.journal = true
	in.race = nil
	in.clock = nil
	in.newSched()
	in.sch.preempt = int(in.params["preempt"])
	in.sch.delays = -1
	if d, ok := in.params["delays"]; ok {
		// deviations from the default (round robin) schedule: another
		// goroutine than the next one, or a switch where none is needed
		in.sch.delays, in.sch.preempt = int(d), int(d)
	}

	kind, msg := "done", ""
	func() {
		defer func() {
			if r := recover(); r != nil {
				switch r := r.(type) {
				case *pathAbort:
					kind, msg = r.kind, r.msg
				case *targetPanic:
					kind, msg = "panic", in.panicText(r)
				default:
					kind = "engine"
					msg = fmt.Sprintf("%v", r)
					if os.Getenv("VERIF_TRACE") != "" {
						msg += "\n" + string(debug.Stack())
					}
				}
			}
		}()
		in.callFn(nil, in.codeOf(in.ex.entry), nil, nil)
	}()
	in.killAll()
	in.journal = false

	ex := in.ex
	ex.mu.Lock()
	defer ex.mu.Unlock()
	ex.paths++
	ex.decisions += len(in.decs)
	ex.steps += in.steps
	ex.asserts += in.checks
	for k, n := range in.props {
		ex.tags[k] += n
	}
	for k := range in.reached {
		ex.reached[k]++
	}
	switch kind {
	case "panic", "deadlock", "crash":
		in.viol = append(in.viol, pathViolation{kind, msg, kind})
	}
	switch kind {
	case "done":
		ex.completed++
	case "infeasible":
		ex.infeasible++
	case "violation", "panic", "deadlock", "crash":
	default:
		ex.pruned[kind]++
		ex.pruneMsgs[kind+": "+msg]++
		if n := ex.pruneMsgs[kind+": "+msg]; in.model != nil && (n <= 12 || n <= 400 && n%8 == 0) && len(ex.cuts) < 80 {
			ex.cuts = append(ex.cuts, in.fullModel())
		}
	}
	if in.model != nil {
		for _, v := range in.viol {
			ex.violCount[v.tag]++
			if !ex.known[v.tag] && ex.budget > time.Since(ex.started)+violGrace {
				// enough has been found to report; look for more kinds of
				// violation for a while only
				ex.budget = time.Since(ex.started) + violGrace
				time.AfterFunc(violGrace+50*time.Millisecond, ex.cond.Broadcast)
			}
			if len(ex.viols[v.tag]) < ex.maxViols {
				ex.viols[v.tag] = append(ex.viols[v.tag], &Violation{Tag: v.tag, Msg: v.msg, Kind: v.kind,
					Model: in.fullModel(), Entry: ex.name})
			}
		}
		if kind == "done" && len(in.viol) == 0 {
			ex.sampleN++
			// reservoir of completed paths, spread over the exploration
			const keep = 48
			slot := -1
			if len(ex.samples) < keep {
				ex.samples = append(ex.samples, PathSample{})
				slot = len(ex.samples) - 1
			} else {
				h := uint64(ex.sampleN)*0x9E3779B97F4A7C15 + uint64(ex.seed)*0xBF58476D1CE4E5B9
				h ^= h >> 29
				h *= 0x94D049BB133111EB
				h ^= h >> 32
				if k := h % uint64(ex.sampleN); k < keep {
					slot = int(k)
				}
			}
			if slot >= 0 {
				ex.samples[slot] = PathSample{Model: in.fullModel(), Obs: in.obsUnder()}
			}
		}
	}
	in.rollback()
}

func (in *Interp) fullModel() Model {
	m := Model{}
	for _, v := range in.inputs {
		m[v.name] = in.model[v.name]
	}
	return m
}

func (in *Interp) obsUnder() []ObsEntry {
	memo := map[*Expr]uint64{}
	var out []ObsEntry
	for _, o := range in.obs {
		s := ""
		for i, v := range o.v {
			if i > 0 {
				s += " "
			}
			s += in.showUnder(v, memo)
		}
		out = append(out, ObsEntry{o.key, s})
	}
	return out
}

func (in *Interp) showUnder(v Value, memo map[*Expr]uint64) string {
	switch v := v.(type) {
	case Iface:
		if v.T == nil {
			return "<nil>"
		}
		switch v.T.kind {
		case kInt:
			var u uint64
			switch x := v.V.(type) {
			case uint64:
				u = x
			case *Expr:
				u = Eval(x, in.model, memo)
			}
			if v.T.signed {
				return fmt.Sprintf("%d", sext(u, v.T.w))
			}
			return fmt.Sprintf("%d", u)
		case kBool:
			switch x := v.V.(type) {
			case bool:
				return fmt.Sprintf("%v", x)
			case *Expr:
				return fmt.Sprintf("%v", Eval(x, in.model, memo) == 1)
			}
		case kString:
			b := []byte{}
			for _, c := range strBytes(v.V) {
				switch x := c.(type) {
				case uint64:
					b = append(b, byte(x))
				case *Expr:
					b = append(b, byte(Eval(x, in.model, memo)))
				}
			}
			return string(b)
		case kSlice:
			s := "["
			for i, e := range v.V.(Slice) {
				if i > 0 {
					s += " "
				}
				s += in.showUnder(Iface{v.T.elem, e}, memo)
			}
			return s + "]"
		case kIface:
			return in.showUnder(v.V, memo)
		}
		return "<" + v.T.T.String() + ">"
	}
	return fmt.Sprintf("%T", v)
}

func topCounts(m map[string]int, n int) []string {
	type kv struct {
		k string
		v int
	}
	var l []kv
	for k, v := range m {
		l = append(l, kv{k, v})
	}
	sort.Slice(l, func(i, j int) bool {
		if l[i].v != l[j].v {
			return l[i].v > l[j].v
		}
		return l[i].k < l[j].k
	})
	var out []string
	for i, x := range l {
		if i >= n {
			break
		}
		out = append(out, fmt.Sprintf("%6d %s", x.v, x.k))
	}
	return out
}
