package main

import (
	"context"
	"errors"
	"io/fs"
	"os"
	"path/filepath"
	"slices"
	"strings"

	age "github.com/snivilised/agenor"
	"github.com/snivilised/agenor/core"
	"github.com/snivilised/agenor/enums"
	"github.com/snivilised/agenor/internal/zverif/sym"
	"github.com/snivilised/agenor/life"
	"github.com/snivilised/agenor/locale"
	"github.com/snivilised/agenor/pref"
)

const adminPath = "/adm"

// admin paths; one may be the resume directory itself
var adminPaths = []string{adminPath, "/adm/", "/adm/" + core.ResumeTail, "/adm/" + core.ResumeTail + "-old", "/adm/" + core.ResumeTail + "/x", "/adm/agenor", "/"}

// stateAddon receives the state that a resume loads.
type stateAddon struct{ got *core.ActiveState }

func (a *stateAddon) OnLoad(s *core.ActiveState) {
	c := *s
	a.got = &c
}

// where a panic can come from
const (
	inClient = iota
	inSkip
	inRead
	inDescend
	panicSites
)

// breakage is the plan of an interrupted session: the n-th event of a kind
// panics.
type breakage struct {
	site    int
	payload any
	at      *ent
	reached map[*ent]bool
}

// hit decides whether the event at e panics.
func (b *breakage) hit(site int, e *ent) {
	if b == nil || b.at != nil || site != b.site || e == nil {
		return
	}
	if given(e.key) {
		return
	}
	if sym.ConcBool(sym.Bool("panic:" + e.key)) {
		b.at = e
		panic(b.payload)
	}
}

// arm adds the options through which the panic comes.
func (b *breakage) arm(w *world, opts []pref.Option) []pref.Option {
	switch b.site {
	case inSkip:
		opts = append(opts, pref.WithSkipHandler(pref.Asker(func(n *core.Node, _ core.DirectoryContents, _ error) (enums.SkipTraversal, error) {
			b.hit(inSkip, w.find(n.Path))
			return enums.SkipNoneTraversal, nil
		})))
	case inRead:
		opts = append(opts, pref.WithHookReadDirectory(func(f fs.ReadDirFS, d string) ([]fs.DirEntry, error) {
			b.hit(inRead, w.find(d))
			return f.ReadDir(d)
		}))
	case inDescend:
		opts = append(opts, pref.WithOnDescend(func(n *core.Node) { b.hit(inDescend, w.find(n.Path)) }))
	}
	return opts
}

func pickPayload() any {
	switch sym.Pick("payload", 3) {
	case 0:
		return errClient
	case 1:
		return "boom"
	}
	return fs.SkipAll
}

// savedAt is where the error says the session was saved; "" if it does not.
func savedAt(err error) string {
	var s *locale.TraversalSavedError
	if errors.As(err, &s) {
		return s.Destination
	}
	return ""
}

// relic puts the saved session where a resume can load it from.
func relic(w *world, dest string, name string) string {
	file := filepath.Join(sym.Scratch(), name)
	if err := os.WriteFile(file, w.written[dest], 0o600); err != nil {
		panic(err)
	}
	return file
}

var _ = reg("H_C15", H_C15)

// H_C15: a panic ends the traversal in an orderly way.
func H_C15() {
	w := newWorld(sym.Param("kids", 2), sym.Param("depth", 2), sym.Param("nodes", 3))
	w.rel = sym.Pick("rel", 2) == 1
	r := &rig{w: w, sub: pickSub()}
	b := &breakage{site: sym.Pick("site", panicSites), payload: pickPayload()}
	rescuer := sym.Pick("rescuer", 4) // default, own (saves), own (success), own (failure)
	if rescuer < 2 {
		switch sym.Pick("storage", 3) {
		case 1:
			w.mkOK = false
		case 2:
			w.writeOK = false
		}
	}
	admin := adminPaths[sym.Pick("admin", sym.Param("admins", 1))]
	var asked int
	errRescue := errors.New("rescue failed")
	var log []string
	opts := []pref.Option{
		pref.WithAdminPath(admin),
		pref.WithOnDescend(func(n *core.Node) { log = append(log, "down:"+n.Path) }),
		pref.WithOnAscend(func(n *core.Node) { log = append(log, "up:"+n.Path) }),
		pref.WithOnEnd(func(core.TraverseResult) { log = append(log, "end") }),
	}
	opts = b.arm(w, opts)
	if rescuer > 0 {
		opts = append(opts, pref.WithPanicHandler(pref.Rescuer(func(rec pref.Recovery, data pref.RescueData) (string, error) {
			asked++
			sym.Assert(data.Data() == b.payload, "payload")
			switch rescuer {
			case 2:
				return "elsewhere", nil
			case 3:
				return "", errRescue
			}
			return rec.Save(data)
		})))
	}
	r.onNode = func(v visit) error {
		b.hit(inClient, v.e)
		return nil
	}
	r.walk(opts...)

	// up to the panic, the traversal is as usual
	s := &spec{w: w, sub: r.sub}
	s.start()
	if b.at == nil {
		sameEnts(r.visits, s.visited, "calm")
		sym.Assert(r.err == nil, "no-error")
		sym.Assert(len(w.written) == 0, "nothing-written")
		sym.Reach("calm")
		return
	}
	sym.Assert(len(r.visits) <= len(s.visited), "visits-count")
	for i, v := range r.visits {
		sym.Assert(v.e == s.visited[i], "visits-order")
	}
	n := len(r.visits)
	if b.site == inClient {
		sym.Assert(n > 0 && r.visits[n-1].e == b.at, "nothing-after")
	}
	// entries reached before the one that panicked have been visited, the
	// later ones have not
	upto := 0
	for i, e := range s.entered {
		if e == b.at {
			upto = i
		}
	}
	before := 0
	for _, e := range s.entered[:upto] {
		if wanted(r.sub, e) {
			before++
		}
	}
	if b.site == inClient || (b.site == inSkip && wanted(r.sub, b.at)) {
		before++
	}
	sym.Assert(n == before, "visits-before")

	// what was announced
	sym.Assert(len(log) > 0 && log[len(log)-1] == "end", "end-announced")
	var open []string
	ends := 0
	for _, l := range log {
		switch {
		case l == "end":
			ends++
		case b.site == inDescend && l == "down:"+b.at.path:
			// not entered
		case strings.HasPrefix(l, "down:"):
			open = append(open, l[len("down:"):])
		default:
			sym.Assert(len(open) > 0 && open[len(open)-1] == l[len("up:"):], "nested")
			open = open[:len(open)-1]
		}
	}
	sym.Assert(ends == 1, "end-once")
	sym.Assert(len(open) == 0, "all-left")

	// what the client is told
	sym.Assert(r.err != nil, "error")
	sym.Assert(locale.IsCorePanicOccurredError(r.err), "panic-occurred")
	sym.Assert(asked == sym.IteInt(rescuer > 0, 1, 0), "asked-once")
	dest := savedAt(r.err)
	var not *locale.TraversalNotSavedError
	failed := errors.As(r.err, &not)
	switch rescuer {
	case 2:
		sym.Assert(dest == "elsewhere" && !failed, "own-success")
		sym.Assert(len(w.written) == 0, "not-written")
	case 3:
		sym.Assert(dest == "" && failed && not.Reason == errRescue, "own-failure")
		sym.Assert(len(w.written) == 0, "not-written")
	default:
		if !w.mkOK || !w.writeOK {
			sym.Assert(failed && dest == "" && errors.Is(not.Reason, errWrite), "not-saved")
			sym.Assert(len(w.written) == 0, "not-written")
			break
		}
		sym.Assert(!failed && dest != "", "saved")
		sym.Assert(len(w.written) == 1, "one-file")
		_, ok := w.written[dest]
		sym.Assert(ok, "written-there")
		dir, file := filepath.Split(dest)
		sym.Assert(w.dirs[filepath.Clean(dir)], "directory-made")
		sym.Assert(w.modes[filepath.Clean(dir)]&0o700 == 0o700, "directory-usable")
		sym.Assert(w.modes[dest]&0o600 == 0o600, "file-usable")
		want := filepath.Join(admin, core.ResumeTail)
		if strings.HasSuffix(admin, "/"+core.ResumeTail) {
			want = admin
		}
		sym.Assert(filepath.Clean(dir) == want, "in-admin-path")
		sym.Assert(strings.HasPrefix(file, "prime.panic.") && strings.HasSuffix(file, ".json"), "file-name")
	}
	sym.Reach("end")
}

// resume continues a session.
func (r *rig) resume(from string, strategy enums.ResumeStrategy, addons []age.Addon, opts ...pref.Option) {
	r.result, r.err = age.Walk().Configure(addons...).Extent(age.Resume(&pref.Relic{
		Head:     pref.Head{Handler: r.client, GetForest: r.w.forest()},
		From:     from,
		Strategy: strategy,
	}, opts...)).Navigate(context.Background())
	sym.Observe("err", errName(r.err))
}

// above: e is a directory on the way from the tree to x.
func above(e, x *ent) bool {
	for x = x.parent; x != nil; x = x.parent {
		if x == e {
			return true
		}
	}
	return false
}

// alike: the calls are those for the entries.
func alike(got []visit, want []*ent) bool {
	return slices.EqualFunc(got, want, func(v visit, e *ent) bool { return v.e == e })
}

// selection is what else a session is configured with.
type selection struct {
	opts  []pref.Option
	node  *core.FilterDef
	child string
	hiber *hiberSpec
	over  bool // asleep for good
	list  func(e *ent) []*ent
	w     *world
}

func pickSelection(w *world, sub enums.Subscription) *selection {
	sel := &selection{w: w}
	if sym.Param("with", 0) == 0 {
		return sel
	}
	if sym.Param("with", 0) == 3 {
		files, dirs, last := uint(sym.Range("files", 0, 2)), uint(sym.Range("dirs", 0, 2)), sym.Bool("last")
		sel.opts = append(sel.opts, pref.WithSamplingOptions(&pref.SamplingOptions{Type: enums.SampleTypeSlice, InReverse: last,
			NoOf: pref.EntryQuantities{Files: files, Directories: dirs}}))
		sel.list = func(e *ent) []*ent { return sampled(w.listing(e), files, dirs, last, nil) }
		return sel
	}
	w.nameFn = func(_ *world, p *ent, i int) string { return letters[i] + sym.Str("nm:"+p.key+letters[i], 1, "sx") }
	if sym.Param("with", 0) == 2 {
		trigger := func(p string) (*core.FilterDef, func(*ent) bool) {
			d := &core.FilterDef{Type: enums.FilterTypeGlob, Description: p, Pattern: p}
			c := *d
			return d, func(e *ent) bool { return w.refMatch(&c, e) }
		}
		sel.hiber = &hiberSpec{incWake: true}
		which := sym.Pick("which", 3)
		if which != 1 {
			var d *core.FilterDef
			d, sel.hiber.wake = trigger("*x")
			sel.opts = append(sel.opts, pref.WithHibernationFilterWake(d))
		}
		if which != 0 {
			var d *core.FilterDef
			d, sel.hiber.sleep = trigger("*s")
			sel.opts = append(sel.opts, pref.WithHibernationFilterSleep(d))
		}
		return sel
	}
	fo := &pref.FilterOptions{}
	if sym.Pick("filter", 2) == 0 {
		d := &core.FilterDef{Type: enums.FilterTypeGlob, Description: "d", Pattern: "*x", Scope: pickScope("scope"), Negate: sym.Bool("neg")}
		fo.Node = d
		c := *d
		sel.node = &c
	} else {
		sym.Assume(sub == enums.SubscribeDirectoriesWithFiles)
		sel.child = "*x"
		fo.Child = &core.ChildFilterDef{Type: enums.FilterTypeGlob, Description: "c", Pattern: sel.child}
	}
	sel.opts = append(sel.opts, pref.WithFilter(fo))
	return sel
}

// begin is the start of another traversal.
func (sel *selection) begin() {
	if sel.hiber != nil {
		sel.hiber.state, sel.over = 0, false
		sel.hiber.start()
	}
}

func (sel *selection) match(e *ent) bool {
	if sel.hiber != nil {
		see, stop := sel.hiber.offer(e)
		sel.over = stop
		return see
	}
	return sel.node == nil || sel.w.refMatch(sel.node, e)
}

func (sel *selection) children(v visit) {
	if sel.child == "" {
		return
	}
	want := []string{}
	for _, k := range v.e.kids {
		if !k.dir && globMatch(sel.child, k.name) {
			want = append(want, k.name)
		}
	}
	sym.Assert(len(v.node.Children) == len(want), "children-count")
	for _, c := range v.node.Children {
		sym.Assert(slices.Contains(want, c.Name()), "children")
	}
}

// tallied are the metrics that are saved with the state. A spawn resume adds
// to them; a fast forward, which navigates the tree again, counts its own.
var tallied = [3]enums.Metric{enums.MetricNoDirectoriesInvoked, enums.MetricNoFilesInvoked, enums.MetricNoChildFilesFound}

// tally is base and what happened in one session.
func tally(base [3]uint, r *rig) [3]uint {
	for _, v := range r.visits {
		if !v.node.IsDirectory() {
			base[1]++
			continue
		}
		base[0]++
		if r.sub == enums.SubscribeDirectoriesWithFiles {
			base[2] += uint(len(v.node.Children))
		}
	}
	return base
}

func resumable(strategy enums.ResumeStrategy) {
	w := newWorld(sym.Param("kids", 2), sym.Param("depth", 2), sym.Param("nodes", 3))
	w.rel = sym.Pick("rel", 2) == 1
	w.reverse = sym.Pick("reverse", 2) == 1
	w.root.path = []string{treeRoot, treeRoot + "/", "."}[sym.Pick("tree", sym.Param("trees", 3))]
	// directories that cannot be read (2: and entries without details), then
	// and now
	w.readFaults = sym.Param("faults", 0) != 0
	w.infoFaults = sym.Param("faults", 0) == 2
	sub := pickSub()
	ff := sym.Pick("filesfirst", 2) == 1
	limit := uint(sym.Range("limit", 0, 3))
	b := &breakage{site: sym.Pick("site", sym.Param("sites", 1)), payload: errClient}
	r := &rig{w: w, sub: sub}
	sel := pickSelection(w, sub)
	r.onNode = func(v visit) error {
		sel.children(v)
		b.hit(inClient, v.e)
		return nil
	}
	r.walk(b.arm(w, append(sel.opts,
		pref.WithAdminPath(adminPath),
		pref.WithSortBehaviour(&pref.SortBehaviour{SortFilesFirst: ff}),
		pref.WithDepth(limit),
	))...)
	if b.at == nil {
		return
	}
	dest := savedAt(r.err)
	sym.Assert(dest != "", "saved")
	_, ok := w.written[dest]
	sym.Assert(ok, "written")

	at, before, counted := b.at, len(r.visits)-1, r
	sums := [3]uint{}
	s := &spec{w: w, sub: sub, filesFirst: ff, limited: limit != 0, limit: limit, list: sel.list, halt: func() bool { return sel.over },
		unreadable: func(e *ent) bool { return w.readBad[e] }}
	if sel.list != nil {
		s.cmp = func(a, b *ent) bool { return a.name < b.name }
	}
	for round := 0; ; round++ {
		again := round < sym.Param("rounds", 1)-1
		st := &stateAddon{}
		r2 := &rig{w: w, sub: sub}
		b2 := &breakage{site: inClient, payload: errClient}
		acts := map[*ent]int{}
		begins, ends, ended := 0, 0, core.TraverseResult(nil)
		var downs, ups []*ent
		announced := 1
		if strategy == enums.ResumeStrategyFastward {
			announced = 0 // nothing is, until it has caught up
		}
		r2.onNode = func(v visit) error {
			sym.Assert(v.e != nil, "visit-exists")
			sym.Assert(ends == 0, "end-last")
			sym.Assert(begins == announced, "begin-first")
			sym.Assert(v.node.IsDirectory() == v.e.dir, "kind")
			sym.Assert(v.node.Extension.Depth == v.e.depth, "depth")
			sym.Assert(v.node.Extension.Scope == w.scopeOf(v.e), "scope")
			sym.Assert(v.node.Extension.SubPath == subPath(w, v.e, true), "sub-path")
			sym.Assert(v.node.Extension.Parent == dirOf(v.e.path) && v.node.Extension.Name == base(v.e.path), "name")
			sel.children(v)
			if again && v.e != at {
				b2.hit(inClient, v.e)
			}
			if sym.Param("acts", 0) == 1 {
				a := action(v.e)
				acts[v.e] = a
				return actErr(a, false)
			}
			return nil
		}
		var loaded *pref.Options
		r2.resume(relic(w, dest, "resume"+letters[round]+".json"), strategy, []age.Addon{st},
			pref.WithAdminPath(adminPath), func(o *pref.Options) error { loaded = o; return nil },
			pref.WithOnBegin(func(b *life.BeginState) {
				begins++
				sym.Assert(b.Tree == w.root.path, "begin-tree")
			}),
			pref.WithOnEnd(func(res core.TraverseResult) {
				ends++
				ended = res
			}),
			pref.WithOnDescend(func(n *core.Node) { downs = append(downs, w.find(n.Path)) }),
			pref.WithOnAscend(func(n *core.Node) { ups = append(ups, w.find(n.Path)) }))
		sym.Assert(begins == announced, "begin")
		sym.Assert(st.got != nil && loaded != nil, "loaded")
		sym.Assert(st.got.CurrentPath == at.path, "state-current")
		sym.Assert(st.got.IsDir == at.dir, "state-isdir")
		sym.Assert(st.got.Tree == w.root.path, "state-tree")
		sym.Assert(st.got.Subscription == sub, "state-subscription")
		sym.Assert(st.got.Depth == at.depth, "state-depth")
		sym.Assert(st.got.TraverseDescription.IsRelative == w.rel, "state-relative")
		sym.Assert(st.got.ResumeDescription.IsRelative == w.rel, "state-resume-relative")
		sym.Assert(loaded.Behaviours.Sort.SortFilesFirst == ff && loaded.Behaviours.Cascade.Depth == limit, "state-options")
		sums = tally(sums, counted)
		if b.site == inClient {
			which := tallied[:]
			if strategy == enums.ResumeStrategyFastward {
				which = tallied[:]
			}
			for i, m := range which {
				sym.Assert(st.got.Metrics[m] != nil && st.got.Metrics[m].Counter == sums[i], "state-metrics")
			}
			if strategy == enums.ResumeStrategyFastward {
				sums = [3]uint{}
			}
			sum := tally(sums, r2)
			for i, m := range which {
				sym.Assert(r2.result != nil && r2.result.Metrics().Count(m) == sum[i], "metrics-continue")
			}
		}
		counted = r2

		s.visited, s.entered, s.left = nil, nil, nil
		started := false
		seen := 0
		s.match = func(e *ent) bool {
			for _, x := range s.entered {
				started = started || x == at
			}
			if !sel.match(e) {
				return false
			}
			if !started {
				seen++
			}
			return started
		}
		s.act = func(e *ent) int {
			if e == b2.at {
				return actError
			}
			return acts[e]
		}
		sel.begin()
		s.start()
		if sel.hiber != nil && sel.hiber.wake != nil && strategy == enums.ResumeStrategySpawn && !alike(r2.visits, s.visited) {
			// what a traversal that has not woken yet would visit from there
			expected := s.visited
			s.visited, s.entered, sel.hiber.state, sel.over, started = nil, nil, 0, false, false
			match := s.match
			s.match = func(e *ent) bool {
				started = started || slices.Contains(s.entered, at)
				return started && sel.match(e)
			}
			s.start()
			sym.Assert(!alike(r2.visits, s.visited), "spawn-waits-to-wake-again")
			s.match, s.visited = match, expected
		}
		if strategy == enums.ResumeStrategyFastward && at.dir && sub == enums.SubscribeFiles && len(r2.visits) == 0 {
			sameEnts(r2.visits, s.visited, "silent-files-only-at-directory")
		} else {
			sameEnts(r2.visits, s.visited, "resumed")
			sym.Assert(ends == 1 && ended == r2.result, "end")
			// what listeners hear of: fast forward is silent until the client
			// has been called, spawn does not return to the nodes above
			from := slices.Index(s.entered, at)
			var wantDowns, wantUps []*ent
			for i, e := range s.entered {
				if i > from || i == from && strategy == enums.ResumeStrategySpawn {
					wantDowns = append(wantDowns, e)
				}
			}
			for _, e := range s.left {
				if i := slices.Index(s.entered, e); i >= from || strategy == enums.ResumeStrategyFastward && above(e, at) {
					wantUps = append(wantUps, e)
				}
			}
			sym.Assert(slices.Equal(downs, wantDowns), "descend")
			sym.Assert(slices.Equal(ups, wantUps), "ascend")
		}
		if round == 0 && b.site == inClient {
			sym.Assert(seen == before, "continues")
		}
		if b2.at == nil {
			if s.stopped == actError {
				sym.Assert(errors.Is(r2.err, errClient), "client-error")
			} else {
				sym.Assert(r2.err == nil, "no-error")
			}
			sym.Assert(r2.result != nil, "result")
			sym.Reach("end")
			return
		}
		dest = savedAt(r2.err)
		sym.Assert(dest != "" && strings.HasPrefix(filepath.Base(dest), "resume.panic."), "saved-again")
		at = b2.at
	}
}

var _ = reg("H_C18", H_C18)

// H_C18: fast forward continues a traversal where it stopped.
func H_C18() { resumable(enums.ResumeStrategyFastward) }

var _ = reg("H_C19", H_C19)

// H_C19: spawn continues a traversal where it stopped.
func H_C19() { resumable(enums.ResumeStrategySpawn) }
