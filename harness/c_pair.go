package main

import (
	"context"
	"io/fs"
	"sort"
	"strconv"
	"sync"

	age "github.com/snivilised/agenor"
	"github.com/snivilised/agenor/core"
	"github.com/snivilised/agenor/enums"
	"github.com/snivilised/agenor/internal/zverif/sym"
	"github.com/snivilised/agenor/life"
	"github.com/snivilised/agenor/pref"
)

// plan is what one of two traversals is asked to do.
type plan struct {
	feature int
	sub     enums.Subscription
	limit   int
	pool    bool // a Run session
	relic   string
	intact  []func() bool
	events  int
}

// keep notes the value that the client's definition has.
func keep[T comparable](p *plan, def *T) *T {
	before := *def
	p.intact = append(p.intact, func() bool { return *def == before })
	return def
}

// done is what a traversal did.
type done struct {
	w       *world
	calls   []string
	kids    int
	metrics []uint
	err     error
	saved   bool
	wg      sync.WaitGroup
	mu      sync.Mutex
	onCall  func()
	o       *pref.Options // to be used verbatim
}

// twin is the same tree in a file system of its own.
func (w *world) twin() *world {
	c := *w
	c.reads, c.written, c.dirs = nil, map[string][]byte{}, map[string]bool{}
	return &c
}

func (p *plan) name() string { return letters[p.limit-1] }

// options does not depend on the session, so that two of them can have the
// same ones.
func (p *plan) options(w *world) []pref.Option {
	opts := []pref.Option{pref.WithAdminPath(adminPath)}
	if p.pool {
		opts = append(opts, pref.WithNoW(1))
	}
	pattern := "*" + p.name() + "*"
	switch p.feature {
	case 1:
		opts = append(opts, pref.WithFilter(&pref.FilterOptions{Node: keep(p, &core.FilterDef{
			Type: enums.FilterTypeGlob, Description: "glob", Pattern: pattern,
		})}))
	case 2:
		opts = append(opts, pref.WithDepth(uint(p.limit)))
	case 3:
		opts = append(opts, pref.WithHibernationFilterWake(keep(p, &core.FilterDef{
			Type: enums.FilterTypeGlob, Description: "wake", Pattern: pattern, Scope: enums.ScopeAll,
		})))
	case 4:
		opts = append(opts, pref.WithSamplingOptions(&pref.SamplingOptions{
			Type: enums.SampleTypeSlice, NoOf: pref.EntryQuantities{Files: uint(p.limit), Directories: 1},
		}))
	case 5:
		opts = append(opts, pref.WithFilter(&pref.FilterOptions{Child: keep(p, &core.ChildFilterDef{
			Type: enums.FilterTypeGlob, Pattern: pattern,
		})}))
	case 6:
		opts = append(opts, pref.WithFilter(&pref.FilterOptions{Node: &core.FilterDef{
			Type: enums.FilterTypePoly,
			Poly: keep(p, &core.PolyFilterDef{
				File:      core.FilterDef{Type: enums.FilterTypeGlob, Pattern: pattern, Scope: enums.ScopeFile | enums.ScopeDirectory},
				Directory: core.FilterDef{Type: enums.FilterTypeRegex, Pattern: p.name(), Negate: true, Scope: enums.ScopeDirectory | enums.ScopeLeaf},
			}),
		}}))
	case 7:
		opts = append(opts, pref.WithFilter(&pref.FilterOptions{Sample: keep(p, &core.SampleFilterDef{
			Type: enums.FilterTypeGlob, Description: "sample", Pattern: pattern, Scope: enums.ScopeFile | enums.ScopeDirectory,
		})}), pref.WithSamplingOptions(&pref.SamplingOptions{
			Type: enums.SampleTypeFilter, NoOf: pref.EntryQuantities{Files: 1, Directories: 1},
		}))
	case 8:
		opts = append(opts, pref.WithSortBehaviour(&pref.SortBehaviour{IsCaseSensitive: p.limit == 1, SortFilesFirst: p.limit == 2}),
			pref.WithHookSort(func(entries []fs.DirEntry, _ ...any) {
				sort.Slice(entries, func(i, j int) bool { return entries[i].Name() > entries[j].Name() })
			}))
	case 9:
		opts = append(opts, pref.WithHookReadDirectory(func(f fs.ReadDirFS, d string) ([]fs.DirEntry, error) {
			if e := w.find(d); e.name == p.name() {
				panic(errClient)
			}
			return f.ReadDir(d)
		}))
	}
	switch p.feature {
	case 13:
		opts = append(opts, pref.WithSamplingOptions(&pref.SamplingOptions{
			Type: enums.SampleTypeFilter, InReverse: p.limit == 2,
			Iteration: pref.SamplingIterationOptions{
				Each:  func(n *core.Node) bool { return !n.IsDirectory() || n.Extension.Name != "b" },
				While: func(fi *pref.FilteredInfo) bool { return fi.Counts.Files < 1 || fi.Counts.Directories < 1 },
			},
		}))
	case 16, 17:
		def := keep(p, &core.FilterDef{Type: enums.FilterTypeGlobEx, Description: "globex", Pattern: p.name() + "|*"})
		if p.feature == 17 {
			def = keep(p, &core.FilterDef{Type: enums.FilterTypeRegex, Description: "regex", Pattern: p.name(), Negate: true, Scope: enums.ScopeLeaf})
		}
		opts = append(opts, pref.WithFilter(&pref.FilterOptions{Node: def}))
	case 18:
		opts = append(opts, pref.WithHibernationOptions(keep(p, &core.HibernateOptions{
			WakeAt:  keep(p, &core.FilterDef{Type: enums.FilterTypeRegex, Description: "wake", Pattern: p.name(), Scope: enums.ScopeDirectory}),
			SleepAt: keep(p, &core.FilterDef{Type: enums.FilterTypeGlobEx, Description: "sleep", Pattern: "*|b"}),
		})))
	case 19:
		opts = append(opts, pref.WithFilter(&pref.FilterOptions{Child: keep(p, &core.ChildFilterDef{
			Type: enums.FilterTypeRegex, Pattern: p.name(), Negate: true,
		}), Sample: keep(p, &core.SampleFilterDef{
			Type: enums.FilterTypeRegex, Description: "sample", Pattern: p.name(), Scope: enums.ScopeDirectory,
		})}), pref.WithSamplingOptions(&pref.SamplingOptions{
			Type: enums.SampleTypeFilter, NoOf: pref.EntryQuantities{Files: 1, Directories: 1},
		}))
	case 14:
		opts = append(opts, func(o *pref.Options) error {
			o.Hooks.ReadDirectory.Chain(func(result []fs.DirEntry, err error, _ fs.ReadDirFS, _ string) ([]fs.DirEntry, error) {
				if len(result) > p.limit {
					result = result[:p.limit]
				}
				return result, err
			})
			return nil
		})
	case 15:
		count := func(*core.Node) { p.events++ }
		if p.limit == 1 {
			opts = append(opts, pref.WithOnDescend(count))
		} else {
			opts = append(opts, pref.WithOnAscend(count), pref.WithOnBegin(func(*life.BeginState) { p.events += 100 }),
				pref.WithOnEnd(func(core.TraverseResult) { p.events += 1000 }))
		}
	}
	return opts
}

// handler records; what it answers depends on the plan.
func (d *done) handler(p *plan) core.Client {
	return func(s core.Servant) error {
		n := s.Node()
		d.mu.Lock()
		d.calls = append(d.calls, n.Path+"@"+strconv.Itoa(n.Extension.Depth)+n.Extension.SubPath)
		d.kids += look(s)
		d.mu.Unlock()
		if d.onCall != nil {
			d.onCall()
		}
		e := d.w.find(n.Path)
		if e != nil && e.name == p.name() {
			switch p.feature {
			case 10:
				return fs.SkipDir
			case 11:
				return errClient
			case 12:
				return fs.SkipAll
			}
		}
		return nil
	}
}

func (d *done) navigator(p *plan, opts []pref.Option) age.Navigator {
	head := pref.Head{Handler: d.handler(p), GetForest: d.w.forest()}
	var facade pref.Facade = &pref.Using{Head: head, Subscription: p.sub, Tree: d.w.root.path, O: d.o}
	if p.relic != "" {
		facade = &pref.Relic{Head: head, From: p.relic, Strategy: enums.ResumeStrategyFastward}
	}
	switch {
	case p.pool && p.relic != "":
		return age.Run(&d.wg).Configure().Extent(age.Resume(facade, opts...))
	case p.relic != "":
		return age.Walk().Configure().Extent(age.Resume(facade, opts...))
	case p.pool:
		return age.Run(&d.wg).Configure().Extent(age.Prime(facade, opts...))
	}
	return age.Walk().Configure().Extent(age.Prime(facade, opts...))
}

func (d *done) run(p *plan, nav age.Navigator) {
	result, err := nav.Navigate(context.Background())
	d.wg.Wait()
	d.err = err
	d.saved = len(d.w.written) > 0
	for m := enums.MetricNoFilesInvoked; m <= enums.MetricNoChildFilesFilteredOut; m++ {
		d.metrics = append(d.metrics, uint(count(result, m)))
	}
	if p.pool {
		sort.Strings(d.calls)
	}
}

func (d *done) same(o *done) {
	sym.Assert((d.err == nil) == (o.err == nil), "same-error")
	sym.Assert(d.saved == o.saved, "same-saved")
	sym.Assert(len(d.calls) == len(o.calls), "same-number")
	for i, c := range d.calls {
		sym.Assert(o.calls[i] == c, "same-calls")
	}
	sym.Assert(d.kids == o.kids, "same-nodes")
	for i, m := range d.metrics {
		sym.Assert(o.metrics[i] == m, "same-metrics")
	}
}

const (
	pairAtOnce   = iota // in goroutines of their own
	pairNested          // the second one in a callback of the first
	pairMixed           // both are configured before either of them navigates
	pairShared          // the same options, one after the other
	pairSharing         // the same options, in goroutines
	pairReused          // the options of the first are those of the second
	pairVerbatim        // the same options object, not made by a traversal
)

var _ = reg("H_C22", H_C22)

// H_C22: a traversal does not depend on other ones.
func H_C22() {
	w := newWorld(sym.Param("kids", 2), sym.Param("depth", 2), sym.Param("nodes", 2))
	w.materialise()
	pools := sym.Param("pools", 0) == 1
	resumed := sym.Param("resumed", 0) == 1
	pick := func(which string) *plan {
		p := &plan{feature: sym.Pick(which+".feature", sym.Param("features", 13)), limit: 1, sub: enums.SubscribeUniversal}
		if p.feature != 0 {
			p.limit = 1 + sym.Pick(which+".limit", 2)
		}
		if sym.Param("subs", 0) == 1 {
			p.sub = subscriptions[sym.Pick(which+".sub", len(subscriptions))]
		}
		if pools {
			p.pool = sym.Pick(which+".pool", 2) == 1
		}
		if resumed && sym.Pick(which+".resumed", 2) == 1 {
			b := &breakage{site: inRead, payload: errClient}
			t := w.twin()
			r := &rig{w: t, sub: p.sub}
			for _, e := range w.all {
				if e.dir && b.at == nil {
					r.walk(b.arm(t, []pref.Option{pref.WithAdminPath(adminPath)})...)
					break
				}
			}
			dest := savedAt(r.err)
			sym.Assume(dest != "")
			p.relic = relic(t, dest, which+".json")
		}
		return p
	}
	kind := sym.Param("kind", 0)
	a := pick("1")
	// events are bound by a traversal, and the listeners do not synchronise
	sym.Assume(kind != pairVerbatim && kind != pairSharing || a.feature != 15)
	b := a
	if kind < pairShared {
		b = pick("2")
	}
	alone := func(p *plan) *done {
		d := &done{w: w.twin()}
		d.run(p, d.navigator(p, p.options(w)))
		return d
	}
	// the traversals on their own come first or last, so that in one of the
	// cases they leave nothing behind
	var wantA, wantB *done
	events, both := 0, 0
	compare := func() {
		before := a.events
		wantA = alone(a)
		wantB = wantA
		events = a.events - before
		if a != b {
			wantB = alone(b)
		}
	}
	first := true
	if sym.Param("after", 0) == 1 {
		first = sym.Pick("first", 2) == 0
	}
	if first {
		compare()
	}
	both = -a.events
	gotA, gotB := &done{w: w.twin()}, &done{w: w.twin()}
	switch kind {
	case pairAtOnce:
		var wg sync.WaitGroup
		wg.Add(2)
		go func() {
			defer wg.Done()
			gotA.run(a, gotA.navigator(a, a.options(w)))
		}()
		go func() {
			defer wg.Done()
			gotB.run(b, gotB.navigator(b, b.options(w)))
		}()
		wg.Wait()
	case pairNested:
		ran := false
		at := sym.Pick("at", 2)
		gotA.onCall = func() {
			if at--; at < 0 && !ran {
				ran = true
				gotB.run(b, gotB.navigator(b, b.options(w)))
			}
		}
		gotA.run(a, gotA.navigator(a, a.options(w)))
		if !ran {
			gotB.run(b, gotB.navigator(b, b.options(w)))
		}
	case pairMixed:
		navA := gotA.navigator(a, a.options(w))
		navB := gotB.navigator(b, b.options(w))
		if sym.Pick("order", 2) == 1 {
			gotA.run(a, navA)
			gotB.run(b, navB)
		} else {
			gotB.run(b, navB)
			gotA.run(a, navA)
		}
	case pairShared:
		opts := a.options(w)
		gotA.run(a, gotA.navigator(a, opts))
		gotB.run(b, gotB.navigator(b, opts))
	case pairReused:
		opts := append(a.options(w), func(o *pref.Options) error { gotB.o = o; return nil })
		gotA.run(a, gotA.navigator(a, opts))
		gotB.run(b, gotB.navigator(b, nil))
	case pairVerbatim:
		o := pref.DefaultOptions()
		for _, option := range a.options(w) {
			sym.Assert(option(o) == nil, "option")
		}
		gotA.o, gotB.o = o, o
		gotA.run(a, gotA.navigator(a, nil))
		gotB.run(b, gotB.navigator(b, nil))
	case pairSharing:
		opts := a.options(w)
		var wg sync.WaitGroup
		wg.Add(2)
		go func() {
			defer wg.Done()
			gotA.run(a, gotA.navigator(a, opts))
		}()
		go func() {
			defer wg.Done()
			gotB.run(b, gotB.navigator(b, opts))
		}()
		wg.Wait()
	}
	both += a.events
	if !first {
		compare()
	}
	if kind >= pairShared {
		sym.Assert(both == 2*events, "same-events")
	}
	gotA.same(wantA)
	gotB.same(wantB)
	for _, p := range []*plan{a, b} {
		for _, ok := range p.intact {
			sym.Assert(ok(), "definitions-intact")
		}
	}
	sym.Reach("end")
}
