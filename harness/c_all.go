package main

import (
	"context"
	"io/fs"
	"sort"
	"sync"

	age "github.com/snivilised/agenor"
	"github.com/snivilised/agenor/core"
	"github.com/snivilised/agenor/enums"
	"github.com/snivilised/agenor/internal/zverif/sym"
	"github.com/snivilised/agenor/pref"
)

// What a traversal can be asked for on top of a subscription.
const (
	withGate = iota
	withChild
	withSample
	withDepth
	withFilesFirst
	withHibernation
	withAsker
	withActs
	withFaults
	withHidden
	withSortHook
	withPatterns
	withSampleFilter
	withInfoFaults
	allOptions
)

var skips = []enums.SkipTraversal{enums.SkipNoneTraversal, enums.SkipDirTraversal, enums.SkipAllTraversal}

// together are the options that are used at once.
func together(n int) (on [allOptions]bool) {
	last := -1
	for i := 0; i < n && last < allOptions-1; i++ {
		last += 1 + sym.Pick("option"+letters[i], allOptions-1-last)
		on[last] = true
	}
	return on
}

var _ = reg("H_C31", H_C31)

// H_C31: options do not get in each other's way: what a traversal with some of
// them does is what each of them says, of what the ones before it leave.
func H_C31() {
	w := newWorld(sym.Param("kids", 2), sym.Param("depth", 2), sym.Param("nodes", 3))
	r := &rig{w: w, sub: pickSub()}
	pool := sym.Param("pool", 0) == 1
	on := together(sym.Param("together", 2))
	var opts []pref.Option
	s := &spec{w: w, sub: r.sub, cmp: func(a, b *ent) bool { return a.name < b.name }}
	fo := &pref.FilterOptions{}
	pass := func(e *ent) bool { return true }
	if on[withGate] {
		g := newGate(r, "m:")
		fo.Custom = g
		pass = g.verdict
	} else if on[withPatterns] {
		fo.Node = &core.FilterDef{Type: enums.FilterTypeGlob, Description: "n", Pattern: "[a]", Scope: enums.ScopeFile, Negate: true}
		pass = func(e *ent) bool { return e.dir || e.name != "a" }
	}
	childOK := func(*ent) bool { return true }
	if on[withChild] {
		fo.Child = &core.ChildFilterDef{Type: enums.FilterTypeGlob, Description: "c", Pattern: "a", Negate: true}
		childOK = func(k *ent) bool { return k.name != "a" }
	}
	if on[withFaults] {
		w.readFaults = true
	}
	w.infoFaults = on[withInfoFaults]
	// what a directory gives
	listing := func(e *ent) []*ent { return w.listing(e) }
	if on[withHidden] {
		opts = append(opts, pref.WithHookReadDirectory(func(sys fs.ReadDirFS, name string) ([]fs.DirEntry, error) {
			in, err := sys.ReadDir(name)
			var out []fs.DirEntry
			for _, k := range in {
				if !w.decide("h:" + k.(*ent).key) {
					out = append(out, k)
				}
			}
			return out, err
		}))
		listing = func(e *ent) []*ent {
			var out []*ent
			for _, k := range w.listing(e) {
				if !w.decide("h:" + k.key) {
					out = append(out, k)
				}
			}
			return out
		}
	}
	s.list = listing
	sampledIn := func(*ent) bool { return true }
	if on[withSample] || on[withSampleFilter] {
		var (
			n    uint
			last = sym.Pick("last", 2) == 1
			so   = &pref.SamplingOptions{Type: enums.SampleTypeSlice, InReverse: last}
			some func(*ent) bool
		)
		if on[withSample] {
			n = 1
			so.NoOf = pref.EntryQuantities{Files: 1, Directories: 1}
		}
		if on[withSampleFilter] {
			so.Type = enums.SampleTypeFilter
			switch sym.Pick("sample filter", 3) {
			case 0:
				fo.Sample = &core.SampleFilterDef{Type: enums.FilterTypeGlob, Description: "s", Pattern: "b"}
				sampledIn = func(e *ent) bool { return e.name == "b" }
			case 1:
				fo.Sample = &core.SampleFilterDef{Type: enums.FilterTypeRegex, Description: "s", Pattern: "^b$", Negate: true}
				sampledIn = func(e *ent) bool { return e.name != "b" }
			case 2:
				so.Type = enums.SampleTypeCustom
				fo.Sample = &core.SampleFilterDef{Type: enums.FilterTypeCustom, Description: "s", Custom: &sampleGate{w: w}}
				sampledIn = func(e *ent) bool { return e.parent == nil || w.decide("s:"+e.key) }
			}
			some = sampledIn
		}
		opts = append(opts, pref.WithSamplingOptions(so))
		s.list = func(e *ent) []*ent { return sampled(listing(e), n, n, last, some) }
	}
	if fo.Custom != nil || fo.Node != nil || fo.Child != nil || fo.Sample != nil {
		opts = append(opts, pref.WithFilter(fo))
	}
	s.unreadable = func(e *ent) bool { return w.readBad[e] }
	if on[withDepth] {
		s.limited, s.limit = true, uint(1+sym.Pick("limit", 2))
		opts = append(opts, pref.WithDepth(s.limit))
	}
	if on[withFilesFirst] {
		s.filesFirst = true
		opts = append(opts, pref.WithSortBehaviour(&pref.SortBehaviour{SortFilesFirst: true}))
	}
	if on[withSortHook] {
		s.cmp = func(a, b *ent) bool { return a.name > b.name }
		opts = append(opts, pref.WithHookSort(func(entries []fs.DirEntry, _ ...any) {
			sort.Slice(entries, func(i, j int) bool { return entries[i].Name() > entries[j].Name() })
		}))
	}
	h := &hiberSpec{incWake: true}
	wakes, sleeps := 0, 0
	if on[withHibernation] {
		which := sym.Pick("hibernation", 3)
		if which != 1 {
			h.wake = func(e *ent) bool { return e.name == "b" }
			opts = append(opts, pref.WithHibernationFilterWake(&core.FilterDef{Type: enums.FilterTypeGlob, Description: "wake", Pattern: "b"}))
		}
		if which != 0 {
			h.sleep = func(e *ent) bool { return e.name == "a" }
			opts = append(opts, pref.WithHibernationFilterSleep(&core.FilterDef{Type: enums.FilterTypeRegex, Description: "sleep", Pattern: "^a$"}))
		}
		if sym.Pick("wakefulness", 2) == 1 {
			h.incWake, h.incSlp = false, true
			opts = append(opts, pref.WithHibernationBehaviourExclusiveWake(), pref.WithHibernationBehaviourInclusiveSleep())
		}
		opts = append(opts, pref.WithOnWake(func(string) { wakes++ }), pref.WithOnSleep(func(string) { sleeps++ }))
	}
	h.start()
	if on[withAsker] {
		opts = append(opts, pref.WithSkipHandler(pref.Asker(func(n *core.Node, _ core.DirectoryContents, err error) (enums.SkipTraversal, error) {
			e := w.find(n.Path)
			sym.Assert(e != nil, "ask-node")
			sym.Assert((err != nil) == (e.dir && w.readBad[e]), "ask-error")
			return skips[w.choose("ask:"+e.key, len(skips))], nil
		})))
		s.ask = func(e *ent) enums.SkipTraversal { return skips[w.choose("ask:"+e.key, len(skips))] }
	}
	act := func(e *ent) int {
		if !on[withActs] {
			return actNone
		}
		return w.choose("act:"+e.key, 4)
	}
	// directories come with their files if it is asked for, one way or the other
	kidsOf := func(e *ent) (in, out []*ent) {
		if r.sub != enums.SubscribeDirectoriesWithFiles && !on[withChild] || w.readBad[e] {
			return nil, nil
		}
		var of []*ent
		for _, k := range s.list(e) {
			if !k.dir {
				of = s.insert(of, k)
			}
		}
		for _, k := range of {
			if childOK(k) {
				in = append(in, k)
			} else {
				out = append(out, k)
			}
		}
		return in, out
	}
	// what the client is told about a directory is known by then
	contents := map[*ent][]string{}
	r.onNode = func(v visit) error {
		sym.Assert(v.e != nil, "visit-exists")
		sym.Assert((v.node.Error != nil) == (v.e.parent != nil && v.e.infoFault()), "node-error")
		for _, c := range v.node.Children {
			contents[v.e] = append(contents[v.e], c.Name())
		}
		return actErr(act(v.e), false)
	}
	var down, up []string
	ended := 0
	opts = append(opts,
		pref.WithOnDescend(func(n *core.Node) { down = append(down, n.Path) }),
		pref.WithOnAscend(func(n *core.Node) { up = append(up, n.Path) }),
		pref.WithOnEnd(func(core.TraverseResult) { ended++ }))
	if sym.Param("backwards", 0) == 1 && sym.Pick("backwards", 2) == 1 {
		for i, j := 0, len(opts)-1; i < j; i, j = i+1, j-1 {
			opts[i], opts[j] = opts[j], opts[i]
		}
	}
	if pool {
		var (
			wg sync.WaitGroup
			mu sync.Mutex
			u  = r.using()
		)
		u.Handler = func(s core.Servant) error {
			mu.Lock()
			defer mu.Unlock()
			n := s.Node()
			v := visit{e: w.find(n.Path), path: n.Path, node: n}
			r.visits = append(r.visits, v)
			return r.onNode(v)
		}
		r.result, r.err = age.Run(&wg).Configure().Extent(age.Prime(u, append(opts, pref.WithNoW(2))...)).Navigate(context.Background())
		wg.Wait()
	} else {
		r.walk(opts...)
	}

	var (
		want []*ent
		m    [7]int
	)
	s.act = func(e *ent) int {
		see, stop := h.offer(e)
		if stop {
			return actSkipAll
		}
		if !see {
			return actNone
		}
		if e.parent == nil && !sampledIn(e) || !pass(e) {
			if e.dir {
				m[enums.MetricNoDirectoriesFilteredOut]++
			} else {
				m[enums.MetricNoFilesFilteredOut]++
			}
			return actNone
		}
		want = append(want, e)
		if e.dir {
			m[enums.MetricNoDirectoriesInvoked]++
		} else {
			m[enums.MetricNoFilesInvoked]++
		}
		in, out := kidsOf(e)
		m[enums.MetricNoChildFilesFound] += len(in)
		m[enums.MetricNoChildFilesFilteredOut] += len(out)
		if pool {
			return actNone // the traversal goes ahead of the client
		}
		return act(e)
	}
	s.start()
	if pool {
		byID := func(i, j int) bool { return r.visits[i].e.id < r.visits[j].e.id }
		sort.Slice(r.visits, byID)
		sort.Slice(want, func(i, j int) bool { return want[i].id < want[j].id })
	}
	sameEnts(r.visits, want, "together")
	for _, v := range r.visits {
		in, _ := kidsOf(v.e)
		sym.Assert(len(contents[v.e]) == len(in), "children-count")
		for i, k := range in {
			sym.Assert(contents[v.e][i] == k.name, "children-order")
		}
	}
	sym.Assert(len(down) == len(s.entered), "descend-count")
	for i, e := range s.entered {
		sym.Assert(down[i] == e.path, "descend-order")
	}
	sym.Assert(len(up) == len(s.left), "ascend-count")
	for i, e := range s.left {
		sym.Assert(up[i] == e.path, "ascend-order")
	}
	sym.Assert(ended == 1, "ended")
	for _, k := range allMetrics {
		sym.Assert(count(r.result, k) == m[k], "metric")
	}
	if h.woke != nil {
		wakes--
	}
	if h.slept != nil {
		sleeps--
	}
	sym.Assert(wakes == 0 && sleeps == 0, "hibernation-notified")
	sym.Assert((r.err == nil) == (s.stopped != actError), "error")
	if r.err == nil {
		sym.Reach("end")
	} else {
		sym.Reach("failed")
	}
}
