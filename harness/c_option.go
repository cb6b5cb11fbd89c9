package main

import (
	"context"
	"errors"
	"io"
	"io/fs"
	"log/slog"
	"runtime"
	"strconv"
	"sync"
	"time"

	age "github.com/snivilised/agenor"
	"github.com/snivilised/agenor/core"
	"github.com/snivilised/agenor/enums"
	"github.com/snivilised/agenor/internal/zverif/sym"
	"github.com/snivilised/agenor/pref"
)

// settings is what a list of options amounts to; the numbers of the functions
// are those of the options that set them, -1 being the default.
type settings struct {
	nav                          pref.NavigationBehaviours
	sampling                     enums.SampleType
	inReverse                    bool
	noOf                         pref.EntryQuantities
	now                          uint
	size                         uint
	interval, timeout            time.Duration
	node                         *core.FilterDef
	child                        *core.ChildFilterDef
	sample                       *core.SampleFilterDef
	wakeAt, sleepAt              *core.FilterDef
	incWake, incSleep, on        bool
	custom                       core.TraverseFilter
	admin                        string
	log                          *slog.Logger
	sort, file, dir, query, read int
	fault, panics, skip          int
}

const sensitively = -2 // the case sensitive sort

type markErr int

func (m markErr) Error() string { return "mark" }

type savior struct{}

func (savior) Save(pref.RescueData) (string, error) { return "-1", nil }

func mark(n int) string { return strconv.Itoa(n) }

func marked(err error) int {
	var m markErr
	if errors.As(err, &m) {
		return int(m)
	}
	return -1
}

var noted = -1 // the sort hook that ran

const optionKinds = 27

// option is the i'th option, and does to s what it should.
func option(i, kind int, s *settings) (pref.Option, func()) {
	l := strconv.Itoa(i) + "."
	flag := func(n string) bool { return sym.Bool(l + n) }
	has := func(n string) bool { return sym.ConcBool(sym.Bool(l + n)) }
	num := func(n string) uint { return sym.Uint(l + n) }
	switch kind {
	case 0:
		v := &pref.NavigationBehaviours{
			SubPath: pref.SubPathBehaviour{KeepTrailingSep: flag("keep")},
			Sort:    pref.SortBehaviour{IsCaseSensitive: flag("case"), SortFilesFirst: flag("first")},
			Cascade: pref.CascadeBehaviour{Depth: num("depth"), NoRecurse: flag("no")},
		}
		return pref.WithNavigationBehaviours(v), func() { s.nav = *v }
	case 1:
		v := &pref.SubPathBehaviour{KeepTrailingSep: flag("keep")}
		return pref.WithSubPathBehaviour(v), func() { s.nav.SubPath = *v }
	case 2:
		v := &pref.SortBehaviour{IsCaseSensitive: flag("case"), SortFilesFirst: flag("first")}
		return pref.WithSortBehaviour(v), func() { s.nav.Sort = *v }
	case 3:
		v := num("depth")
		return pref.WithDepth(v), func() { s.nav.Cascade.Depth = v }
	case 4:
		return pref.WithNoRecurse(), func() { s.nav.Cascade.NoRecurse = true }
	case 5:
		v := &pref.SamplingOptions{
			Type: enums.SampleType(sym.Range(l+"type", 0, 3)), InReverse: flag("reverse"),
			NoOf: pref.EntryQuantities{Files: num("files"), Directories: num("directories")},
		}
		return pref.WithSamplingOptions(v), func() { s.sampling, s.inReverse, s.noOf = v.Type, v.InReverse, v.NoOf }
	case 6:
		return pref.WithCPU(), func() { s.now = uint(runtime.NumCPU()) }
	case 7:
		v := num("now")
		return pref.WithNoW(v), func() { s.now = v }
	case 8:
		v := &pref.OutputOptions{Size: num("size"), CheckCloseInterval: time.Duration(sym.Int(l + "interval")), TimeoutOnSend: time.Duration(sym.Int(l + "timeout"))}
		if has("on") {
			v.On = func(core.OutputStream) {}
		}
		return pref.WithOutput(v), func() {
			s.size, s.interval, s.timeout, s.on = v.Size, v.CheckCloseInterval, v.TimeoutOnSend, v.On != nil
		}
	case 9:
		v := &pref.FilterOptions{}
		// any of them; in a longer list just one
		only := -1
		if sym.Param("options", 2) > 1 {
			only = sym.Pick(l+"only", 4)
		}
		filled := func(n string, i int) bool {
			if only < 0 {
				return has(n)
			}
			return only == i
		}
		if filled("node", 0) {
			v.Node = &core.FilterDef{Pattern: l}
		}
		if filled("child", 1) {
			v.Child = &core.ChildFilterDef{Pattern: l}
		}
		if filled("sample", 2) {
			v.Sample = &core.SampleFilterDef{Pattern: l}
		}
		if filled("custom", 3) {
			v.Custom, v.Sink = &gate{}, func(pref.FilterReply) {}
		}
		return pref.WithFilter(v), func() { s.node, s.child, s.sample, s.custom = v.Node, v.Child, v.Sample, v.Custom }
	case 10:
		return pref.WithHibernationBehaviourExclusiveWake(), func() { s.incWake = false }
	case 11:
		return pref.WithHibernationBehaviourInclusiveSleep(), func() { s.incSleep = true }
	case 12:
		v := &core.FilterDef{Pattern: l}
		return pref.WithHibernationFilterWake(v), func() { s.wakeAt = v }
	case 13:
		v := &core.FilterDef{Pattern: l}
		return pref.WithHibernationFilterSleep(v), func() { s.sleepAt = v }
	case 14:
		v := &core.HibernateOptions{Behaviour: core.HibernationBehaviour{InclusiveWake: flag("wake"), InclusiveSleep: flag("sleep")}}
		wakes := has("wakes")
		sleeps := !wakes
		if sym.Param("options", 2) == 1 {
			sleeps = has("sleeps")
		}
		if wakes {
			v.WakeAt = &core.FilterDef{Pattern: l}
		}
		if sleeps {
			v.SleepAt = &core.FilterDef{Pattern: l}
		}
		return pref.WithHibernationOptions(v), func() {
			s.wakeAt, s.sleepAt, s.incWake, s.incSleep = v.WakeAt, v.SleepAt, v.Behaviour.InclusiveWake, v.Behaviour.InclusiveSleep
		}
	case 15:
		return pref.WithAdminPath(l), func() { s.admin = l }
	case 16:
		v := slog.New(slog.NewTextHandler(io.Discard, nil))
		return pref.WithLogger(v), func() { s.log = v }
	case 17:
		return pref.WithHookCaseSensitiveSort(), func() { s.sort = sensitively }
	case 18:
		return pref.WithHookFileSubPath(func(*core.SubPathInfo) string { return mark(i) }), func() { s.file = i }
	case 19:
		return pref.WithHookDirectorySubPath(func(*core.SubPathInfo) string { return mark(i) }), func() { s.dir = i }
	case 20:
		return pref.WithHookQueryStatus(func(fs.StatFS, string) (fs.FileInfo, error) { return nil, markErr(i) }), func() { s.query = i }
	case 21:
		return pref.WithHookReadDirectory(func(fs.ReadDirFS, string) ([]fs.DirEntry, error) { return nil, markErr(i) }), func() { s.read = i }
	case 22:
		return pref.WithHookSort(func([]fs.DirEntry, ...any) { noted = i }), func() { s.sort = i }
	case 23:
		return pref.WithFaultHandler(pref.Accepter(func(*pref.NavigationFault) error { return markErr(i) })), func() { s.fault = i }
	case 24:
		return pref.WithPanicHandler(pref.Rescuer(func(pref.Recovery, pref.RescueData) (string, error) { return mark(i), nil })), func() { s.panics = i }
	case 25:
		return pref.WithSkipHandler(pref.Asker(func(*core.Node, core.DirectoryContents, error) (enums.SkipTraversal, error) {
			return enums.SkipNoneTraversal, markErr(i)
		})), func() { s.skip = i }
	case 26:
		v := num("own")
		return func(o *pref.Options) error { o.Concurrency.Input.Size, o.Concurrency.NoW = v, v; return nil }, func() { s.now = v }
	}
	return nil, func() {}
}

// conditionally gives the option on a condition, or else another one.
func conditionally(i int, o pref.Option, effect func(), s *settings) (pref.Option, func()) {
	l := strconv.Itoa(i) + "."
	switch sym.Pick(l+"wrap", sym.Param("wraps", 4)) {
	case 1:
		if sym.ConcBool(sym.Bool(l + "cond")) {
			return pref.IfOption(true, o), effect
		}
		return pref.IfOption(false, o), func() {}
	case 2:
		asked := 0
		cond := sym.ConcBool(sym.Bool(l + "cond"))
		got := pref.IfOptionF(cond, func() pref.Option { asked++; return o })
		sym.Assert((asked == 1) == cond, "asked-only-if")
		if cond {
			return got, effect
		}
		return got, func() {}
	case 3:
		other, otherwise := option(i, 15, s)
		asked := 0
		cond := sym.ConcBool(sym.Bool(l + "cond"))
		got := pref.IfElseOptionF(cond,
			func() pref.Option { asked += 1; return o },
			func() pref.Option { asked += 2; return other })
		if cond {
			sym.Assert(asked == 1, "asked-only-if")
			return got, effect
		}
		sym.Assert(asked == 2, "asked-only-if")
		return got, otherwise
	}
	return o, effect
}

type namedEntry struct {
	fs.DirEntry
	name string
}

func (e namedEntry) Name() string { return e.name }

var _ = reg("H_C23", H_C23)

// H_C23: each option changes what it names, and nothing else.
func H_C23() {
	want := &settings{
		nav: pref.NavigationBehaviours{SubPath: pref.SubPathBehaviour{KeepTrailingSep: true}},
		now: uint(runtime.NumCPU()), incWake: true,
		sort: -1, file: -1, dir: -1, query: -1, read: -1, fault: -1, panics: -1, skip: -1,
	}
	n := sym.Param("options", 2)
	var (
		opts    []pref.Option
		effects []func()
	)
	for i := 0; i < n; i++ {
		kind := sym.Pick(strconv.Itoa(i)+".kind", optionKinds+1)
		o, effect := option(i, kind, want)
		o, effect = conditionally(i, o, effect, want)
		opts = append(opts, o)
		effects = append(effects, effect)
	}
	// an option that fails is the last to be applied
	failing := sym.Pick("failing", n+1)
	applied := 0
	var (
		seen *pref.Options
		all  []pref.Option
	)
	for i := 0; i <= n; i++ {
		if i == failing {
			all = append(all, func(o *pref.Options) error { c := *o; seen = &c; applied++; return errClient })
		}
		if i < n {
			if i < failing {
				effects[i]()
			}
			all = append(all, opts[i])
		}
	}
	w := newWorld(0, 0, 0)
	called := false
	using := &pref.Using{
		Head:         pref.Head{Handler: func(core.Servant) error { called = true; return nil }, GetForest: w.forest()},
		Subscription: enums.SubscribeUniversal, Tree: w.root.path,
	}
	var wg sync.WaitGroup
	nav := age.Walk().Configure()
	if sym.Pick("run", 2) == 1 {
		nav = age.Run(&wg).Configure()
	}
	_, err := nav.Extent(age.Prime(using, all...)).Navigate(context.Background())
	wg.Wait()
	sym.Assert(errors.Is(err, errClient), "options-error")
	sym.Assert(!called, "not-called")
	sym.Assert(applied == 1, "applied-once")

	b := seen.Behaviours
	sym.Assert(b.SubPath == want.nav.SubPath, "sub-path")
	sym.Assert(b.Sort == want.nav.Sort, "sort-behaviour")
	sym.Assert(b.Cascade == want.nav.Cascade, "cascade")
	sym.Assert(sym.And(seen.Sampling.Type == want.sampling, seen.Sampling.InReverse == want.inReverse, seen.Sampling.NoOf == want.noOf), "sampling")
	sym.Assert(seen.Concurrency.NoW == want.now, "workers")
	out := seen.Concurrency.Output
	sym.Assert(sym.And(out.Size == want.size, out.CheckCloseInterval == want.interval, out.TimeoutOnSend == want.timeout, (out.On != nil) == want.on), "output")
	sym.Assert(seen.Filter.Node == want.node && seen.Filter.Child == want.child && seen.Filter.Sample == want.sample &&
		seen.Filter.Custom == want.custom && (seen.Filter.Sink == nil) == (want.custom == nil), "filter")
	sym.Assert(seen.Hibernate.WakeAt == want.wakeAt && seen.Hibernate.SleepAt == want.sleepAt, "hibernate")
	h := seen.Hibernate.Behaviour
	sym.Assert(sym.And(h.InclusiveWake == want.incWake, h.InclusiveSleep == want.incSleep), "hibernate-behaviour")
	if want.admin != "" {
		sym.Assert(seen.Monitor.Admin.Path == want.admin, "admin")
	}
	sym.Assert(seen.Monitor.Log != nil && (want.log == nil || seen.Monitor.Log == want.log), "log")

	// which functions are in place?
	top := &core.SubPathInfo{Tree: w.root.path, Node: core.Top(w.root.path, w.root), KeepTrailingSep: true}
	top.Node.Extension.Scope = enums.ScopeTop
	placed := func(got string, n int) bool {
		if n < 0 {
			return got == "/"
		}
		return got == mark(n)
	}
	sym.Assert(placed(seen.Hooks.FileSubPath.Invoke()(top), want.file), "hook-file")
	sym.Assert(placed(seen.Hooks.DirectorySubPath.Invoke()(top), want.dir), "hook-directory")
	_, qe := seen.Hooks.QueryStatus.Invoke()(&forestFS{w}, w.root.path)
	sym.Assert(marked(qe) == want.query, "hook-query")
	_, re := seen.Hooks.ReadDirectory.Invoke()(&forestFS{w}, w.root.path)
	sym.Assert(marked(re) == want.read, "hook-read")
	entries := []fs.DirEntry{namedEntry{name: "a"}, namedEntry{name: "B"}}
	noted = -1
	seen.Hooks.Sort.Invoke()(entries)
	switch want.sort {
	case sensitively:
		sym.Assert(noted == -1 && entries[0].Name() == "B", "hook-sort")
	case -1:
		sym.Assert(noted == -1 && (entries[0].Name() == "B") == want.nav.Sort.IsCaseSensitive, "hook-sort")
	default:
		sym.Assert(noted == want.sort, "hook-sort")
	}
	sym.Assert(marked(seen.Defects.Fault.Accept(&pref.NavigationFault{Err: errSkipper})) == want.fault, "fault-handler")
	to, _ := seen.Defects.Panic.Rescue(savior{}, nil)
	sym.Assert(to == mark(want.panics), "panic-handler")
	_, se := seen.Defects.Skip.Ask(nil, nil, nil)
	sym.Assert(marked(se) == want.skip, "skip-handler")
	sym.Reach("end")
}

var _ = reg("H_C23_kinds", H_C23_kinds)

// H_C23_kinds: the composites are the sessions they stand for.
func H_C23_kinds() {
	w := newWorld(sym.Param("kids", 2), 1, sym.Param("nodes", 2))
	w.materialise()
	composite := sym.Pick("composite", 4)
	walk, prime := true, true
	if composite != 2 {
		walk = sym.Pick("walk", 2) == 1
	}
	if composite == 1 {
		walk = false
	}
	if composite != 3 {
		prime = sym.Pick("prime", 2) == 1
	}
	relicPath := ""
	{
		t := w.twin()
		r := &rig{w: t, sub: enums.SubscribeUniversal}
		at := sym.Pick("at", len(w.all))
		r.handle = nil
		r.onNode = func(v visit) error {
			if v.e == w.all[at] {
				panic(errClient)
			}
			return nil
		}
		r.walk(pref.WithAdminPath(adminPath))
		dest := savedAt(r.err)
		sym.Assert(dest != "", "saved")
		relicPath = relic(t, dest, "session.json")
	}
	relicFacade := sym.Pick("facade", 2) == 1
	strategy := enums.ResumeStrategyFastward
	if sym.Pick("strategy", 2) == 1 {
		strategy = enums.ResumeStrategySpawn
	}
	setting := func(log *int) []pref.Option {
		return []pref.Option{pref.WithNoW(1), nil,
			pref.WithOutput(&pref.OutputOptions{CheckCloseInterval: time.Millisecond, TimeoutOnSend: time.Minute, On: func(stream core.OutputStream) {
				*log = 1
				go func() {
					for range stream {
					}
				}()
			}}),
		}
	}
	once := func(make func(wg *sync.WaitGroup, f pref.Facade, opts ...pref.Option) age.Navigator) (*done, int) {
		d := &done{w: w.twin()}
		p := &plan{pool: true, limit: 1}
		out := 0
		head := pref.Head{Handler: d.handler(p), GetForest: d.w.forest()}
		var f pref.Facade = &pref.Using{Head: head, Subscription: enums.SubscribeUniversal, Tree: w.root.path}
		if relicFacade {
			f = &pref.Relic{Head: head, From: relicPath, Strategy: strategy}
		}
		d.run(p, make(&d.wg, f, setting(&out)...))
		return d, out
	}
	want, wantOut := once(func(wg *sync.WaitGroup, f pref.Facade, opts ...pref.Option) age.Navigator {
		director := age.Walk().Configure()
		if !walk {
			director = age.Run(wg).Configure()
		}
		if prime {
			return director.Extent(age.Prime(f, opts...))
		}
		return director.Extent(age.Resume(f, opts...))
	})
	got, gotOut := once(func(wg *sync.WaitGroup, f pref.Facade, opts ...pref.Option) age.Navigator {
		switch composite {
		case 0:
			return age.Hydra(walk, prime, wg)(f, opts...)
		case 1:
			return age.Hare(prime, wg)(f, opts...)
		case 2:
			return age.Tortoise(prime)(f, opts...)
		}
		return age.Goldfish(walk, wg)(f, opts...)
	})
	got.same(want)
	sym.Assert(gotOut == wantOut, "same-output")
	sym.Assert((want.err != nil) == (relicFacade == prime), "right-facade")
	if want.err == nil {
		sym.Assert((gotOut == 1) == !walk, "concurrent")
		sym.Assert(prime == (len(got.calls) == len(w.all)) || !prime, "prime")
	}
	sym.Reach("end")
}
