package main

import (
	"errors"
	"fmt"
	"io/fs"
	"strings"

	"github.com/snivilised/agenor/core"
	"github.com/snivilised/agenor/enums"
	"github.com/snivilised/agenor/internal/zverif/sym"
	"github.com/snivilised/agenor/life"
	"github.com/snivilised/agenor/pref"
)

func sameEnts(got []visit, want []*ent, tag string) {
	sym.Assert(len(got) == len(want), tag+"-count")
	for i, v := range got {
		sym.Assert(v.e == want[i], tag+"-order")
	}
}

var _ = reg("H_C01", H_C01)

// H_C01: every entry the subscription calls for is visited exactly once,
// parents before children, and nothing else is.
func H_C01() {
	w := newWorld(sym.Param("kids", 2), sym.Param("depth", 2), sym.Param("nodes", 4))
	w.reverse = sym.Pick("reverse", 2) == 1
	w.rel = sym.Pick("rel", 2) == 1
	w.root.dir = sym.Pick("rootfile", 2) == 0
	r := &rig{w: w, sub: pickSub()}
	ff := sym.Pick("filesfirst", 2) == 1
	r.walk(pref.WithSortBehaviour(&pref.SortBehaviour{SortFilesFirst: ff}))
	sym.Assert(r.err == nil, "no-error")
	seen := map[*ent]int{}
	for i, v := range r.visits {
		sym.Assert(v.e != nil, "visit-exists")
		sym.Assert(seen[v.e] == 0, "once")
		seen[v.e] = i + 1
		sym.Assert(wanted(r.sub, v.e), "subscribed")
		sym.Assert(v.node.IsDirectory() == v.e.dir, "kind")
		if p := v.e.parent; p != nil && wanted(r.sub, p) {
			sym.Assert(seen[p] > 0, "parent-first")
		}
	}
	w.materialise()
	for _, e := range w.all {
		if wanted(r.sub, e) {
			sym.Assert(seen[e] > 0, "all-visited")
		}
	}
	sym.Reach("end")
}

var _ = reg("H_C01_hidden", H_C01_hidden)

// H_C01_hidden: the default reader leaves out exactly ".DS_Store".
func H_C01_hidden() {
	w := newWorld(sym.Param("kids", 2), sym.Param("depth", 1), sym.Param("nodes", 3))
	w.nameFn = func(_ *world, p *ent, i int) string {
		// names in one directory are distinct
		names := []string{".DS_Store", ".DS_Storex", ".ds_store", letters[i]}
		n := names[sym.Pick("name:"+p.key+letters[i], len(names))]
		for _, k := range p.kids {
			sym.Assume(k.name != n)
		}
		return n
	}
	r := &rig{w: w, sub: enums.SubscribeUniversal}
	r.walk()
	n := 0
	w.materialise()
	var cnt func(e *ent)
	cnt = func(e *ent) {
		n++
		for _, k := range e.kids {
			if k.name != ".DS_Store" {
				cnt(k)
			}
		}
	}
	cnt(w.root)
	sym.Assert(len(r.visits) == n, "hidden-count")
	for _, v := range r.visits {
		sym.Assert(base(v.path) != ".DS_Store", "hidden")
	}
}

var _ = reg("H_C02", H_C02)

// exoticNames tell apart ways of ignoring case and comparing.
var exoticNames = []string{"\u00c9b", "\u00e9a", "\u00e9b", "z", "\u01c5", "\u01c6a", "\xff", "\xfea", "a10", "a9", "_", "Zz"}

func lowerByte(b byte) int {
	return sym.IteInt(sym.And(b >= 'A', b <= 'Z'), int(b)+32, int(b))
}

// less over symbolic names, without forking.
func nameLess(a, b string, fold bool) bool {
	// lexicographic order over bytes
	res := len(a) < len(b)
	n := len(a)
	if len(b) < n {
		n = len(b)
	}
	for i := n - 1; i >= 0; i-- {
		x, y := int(a[i]), int(b[i])
		if fold {
			x, y = lowerByte(a[i]), lowerByte(b[i])
		}
		res = sym.Or(x < y, sym.And(x == y, res))
	}
	return res
}

// H_C02: siblings are visited directories first (or files first) and, within
// each kind, by name: ignoring case by default, by bytes when case-sensitive.
func H_C02() {
	w := newWorld(sym.Param("kids", 3), sym.Param("depth", 1), sym.Param("nodes", 3))
	maxLen := sym.Param("len", 2)
	exotic := sym.Param("exotic", 0) != 0
	prefix := strings.Repeat("Prefix", sym.Param("prefix", 0))
	w.nameFn = func(_ *world, p *ent, i int) string {
		var s string
		if exotic {
			s = exoticNames[sym.Pick("nm:"+p.key+letters[i], len(exoticNames))]
		} else {
			n := 1 + sym.Pick("len:"+p.key+letters[i], maxLen)
			s = prefix + sym.Str("nm:"+p.key+letters[i], n, "A-Za-z0-9_. -")
		}
		// names in one directory are distinct, and are names
		sym.Assume(sym.And(s != ".", s != ".."))
		for _, k := range p.kids {
			sym.Assume(k.name != s)
		}
		return s
	}
	r := &rig{w: w, sub: pickSub()}
	ff := sym.Pick("filesfirst", 2) == 1
	cs := sym.Pick("casesens", 3)
	opts := []pref.Option{pref.WithSortBehaviour(&pref.SortBehaviour{SortFilesFirst: ff, IsCaseSensitive: cs == 1})}
	if cs == 2 {
		opts = append(opts, pref.WithHookCaseSensitiveSort())
	}
	sym.Observe("mode", ff, cs)
	r.walk(opts...)
	last := map[*ent]*ent{}
	for _, v := range r.visits {
		sym.Assert(v.e != nil, "visit-exists")
		p := v.e.parent
		if p == nil {
			continue
		}
		if q := last[p]; q != nil {
			if q.dir != v.e.dir {
				sym.Assert(q.dir == !ff, "kind-order")
			} else if cs > 0 {
				sym.Assert(nameLess(q.name, v.e.name, false), "case-sensitive-order")
			} else if exotic {
				sym.Assert(strings.ToLower(q.name) <= strings.ToLower(v.e.name), "default-order")
			} else {
				sym.Assert(!nameLess(v.e.name, q.name, true), "default-order")
			}
		}
		last[p] = v.e
	}
	// another order of listing
	w.reverse = !w.reverse
	r2 := &rig{w: w, sub: r.sub}
	r2.walk(opts...)
	sym.Assert(len(r2.visits) == len(r.visits), "listing-count")
	for i, v := range r2.visits {
		sym.Assert(v.e == r.visits[i].e, "listing-order")
	}
	sym.Reach("end")
}

var _ = reg("H_C02_nested", H_C02_nested)

// H_C02_nested: the traversal is the depth-first preorder of the sorted tree.
func H_C02_nested() {
	w := newWorld(sym.Param("kids", 3), sym.Param("depth", 3), sym.Param("nodes", 5))
	w.reverse = true
	r := &rig{w: w, sub: pickSub()}
	ff := sym.Pick("filesfirst", 2) == 1
	r.walk(pref.WithSortBehaviour(&pref.SortBehaviour{SortFilesFirst: ff}))
	s := &spec{w: w, sub: r.sub, filesFirst: ff}
	s.start()
	sameEnts(r.visits, s.visited, "preorder")
	sym.Reach("end")
}

var _ = reg("H_C03", H_C03)

// H_C03: with depth limit D exactly the entries at depth D or less are
// visited; no limit (zero) visits all; NoRecurse is a limit of one.
func H_C03() {
	w := newWorld(sym.Param("kids", 2), sym.Param("depth", 3), sym.Param("nodes", 5))
	r := &rig{w: w, sub: pickSub()}
	var opts []pref.Option
	nr := sym.Pick("norecurse", 2) == 1
	d := sym.Uint("limit")
	if far := uint(sym.Param("far", 0)); far > 0 {
		sym.Assume(sym.Or(d == 0, d >= far))
	}
	opts = append(opts, pref.WithDepth(d))
	if nr {
		opts = append(opts, pref.WithNoRecurse())
	}
	var down, up int
	opts = append(opts, pref.WithOnDescend(func(*core.Node) { down++ }), pref.WithOnAscend(func(*core.Node) { up++ }))
	r.walk(opts...)
	sym.Assert(r.err == nil, "no-error")
	s := &spec{w: w, sub: r.sub, limited: nr || d != 0, limit: d}
	if nr {
		s.limit = 1
	}
	s.start()
	sameEnts(r.visits, s.visited, "depth")
	sym.Assert(down == len(s.entered), "descents")
	sym.Assert(up == down, "ascents")
	for _, v := range r.visits {
		sym.Assert(v.node.Extension.Depth == v.e.depth, "extension-depth")
	}
	sym.Reach("end")
}

// ---- C04

// action is the client's symbolic response at a node.
func action(e *ent) int {
	if given(e.key) {
		return actNone
	}
	return sym.Conc(sym.Range("act:"+e.key, 0, 3))
}

func actErr(a int, wrap bool) error {
	var err error
	switch a {
	case actSkipDir:
		err = fs.SkipDir
	case actSkipAll:
		err = fs.SkipAll
	case actError:
		err = errClient
	}
	if err != nil && wrap {
		err = fmt.Errorf("wrapped: %w", err)
	}
	return err
}

var _ = reg("H_C04", H_C04)

// H_C04: SkipDir, SkipAll and errors returned by the client steer the
// traversal as documented.
func H_C04() {
	w := newWorld(sym.Param("kids", 2), sym.Param("depth", 2), sym.Param("nodes", 3))
	r := &rig{w: w, sub: pickSub()}
	ff := sym.Pick("filesfirst", 2) == 1
	wrap := sym.Pick("wrap", 2) == 1
	acts := map[*ent]int{}
	act := func(e *ent) int {
		if a, ok := acts[e]; ok {
			return a
		}
		a := action(e)
		acts[e] = a
		return a
	}
	r.onNode = func(v visit) error {
		sym.Assert(v.e != nil, "visit-exists")
		return actErr(act(v.e), wrap)
	}
	var down, up []*core.Node
	r.walk(pref.WithSortBehaviour(&pref.SortBehaviour{SortFilesFirst: ff}),
		pref.WithOnDescend(func(n *core.Node) { down = append(down, n) }),
		pref.WithOnAscend(func(n *core.Node) { up = append(up, n) }))
	s := &spec{w: w, sub: r.sub, filesFirst: ff, act: act}
	s.start()
	sameEnts(r.visits, s.visited, "steer")
	switch s.stopped {
	case actError:
		sym.Assert(errors.Is(r.err, errClient), "error-reported")
		sym.Reach("error")
	case actSkipAll:
		sym.Reach("skipall")
		sym.Assert(r.err == nil, "skip-not-an-error")
	default:
		sym.Assert(r.err == nil, "skip-not-an-error")
	}
	sym.Assert(len(down) == len(up), "balanced")
	files, dirs := 0, 0
	for _, v := range r.visits {
		if v.e.dir {
			dirs++
		} else {
			files++
		}
	}
	sym.Assert(count(r.result, enums.MetricNoFilesInvoked) == files, "metric-files")
	sym.Assert(count(r.result, enums.MetricNoDirectoriesInvoked) == dirs, "metric-dirs")
	sym.Reach("end")
}

var _ = reg("H_C04_ask", H_C04_ask)

// H_C04_ask: a skip handler's SkipAll ends the traversal and SkipDir leaves
// out the directory it was asked about.
func H_C04_ask() {
	w := newWorld(sym.Param("kids", 2), sym.Param("depth", 2), sym.Param("nodes", 3))
	w.readFaults = true
	r := &rig{w: w, sub: pickSub()}
	asks := map[*ent]enums.SkipTraversal{}
	ask := func(e *ent) enums.SkipTraversal {
		if a, ok := asks[e]; ok {
			return a
		}
		a := enums.SkipNoneTraversal
		if !given(e.key) {
			a = enums.SkipTraversal(sym.Conc(sym.Range("ask:"+e.key, 0, 2)))
		}
		asks[e] = a
		return a
	}
	called := map[*ent]int{}
	r.walk(pref.WithSkipHandler(pref.Asker(func(n *core.Node, c core.DirectoryContents, err error) (enums.SkipTraversal, error) {
		e := w.find(n.Path)
		sym.Assert(e != nil, "ask-node")
		called[e]++
		sym.Assert((err != nil) == (e.dir && w.readBad[e]), "ask-error")
		// the contents are usable whatever the node is
		nd, nf := 0, 0
		for _, k := range e.kids {
			if w.readBad[e] {
				break
			}
			if k.dir {
				nd++
			} else {
				nf++
			}
		}
		sym.Assert(len(c.Directories()) == nd, "ask-directories")
		sym.Assert(len(c.Files()) == nf, "ask-files")
		sym.Assert(len(c.All()) == nd+nf, "ask-all")
		return ask(e), nil
	})))
	s := &spec{w: w, sub: r.sub, ask: ask, unreadable: func(e *ent) bool { return w.readBad[e] }}
	s.start()
	sameEnts(r.visits, s.visited, "ask")
	for _, e := range s.entered {
		if e.dir {
			sym.Assert(called[e] == 1, "asked-once")
		}
	}
	sym.Assert(r.err == nil, "no-error")
	sym.Reach("end")
}

// ---- lifecycle

var _ = reg("H_C10", H_C10)

// H_C10: begin first, end last, descend/ascend nested around every node.
func H_C10() {
	w := newWorld(sym.Param("kids", 2), sym.Param("depth", 2), sym.Param("nodes", 3))
	r := &rig{w: w, sub: pickSub()}
	listeners := 1 + sym.Pick("listeners", sym.Param("many", 3))
	type ev struct {
		k string
		l int
		e *ent
	}
	var log []ev
	var opts []pref.Option
	var ended core.TraverseResult
	for i := 0; i < listeners; i++ {
		opts = append(opts,
			pref.WithOnBegin(func(s *life.BeginState) {
				sym.Assert(s.Tree == w.root.path, "begin-tree")
				log = append(log, ev{"begin", i, nil})
			}),
			pref.WithOnEnd(func(res core.TraverseResult) {
				ended = res
				log = append(log, ev{"end", i, nil})
			}),
			pref.WithOnDescend(func(n *core.Node) { log = append(log, ev{"down", i, w.find(n.Path)}) }),
			pref.WithOnAscend(func(n *core.Node) { log = append(log, ev{"up", i, w.find(n.Path)}) }))
	}
	limit := sym.Range("limit", 0, 3)
	opts = append(opts, pref.WithDepth(uint(limit)))
	r.onNode = func(v visit) error {
		log = append(log, ev{"visit", 0, v.e})
		return actErr(action(v.e), false)
	}
	r.walk(opts...)
	// reference
	s := &spec{w: w, sub: r.sub, limited: limit != 0, limit: uint(limit)}
	var want []ev
	emit := func(k string, e *ent) {
		for i := 0; i < listeners; i++ {
			want = append(want, ev{k, i, e})
		}
	}
	emit("begin", nil)
	s.act = func(e *ent) int {
		want = append(want, ev{"visit", 0, e})
		return actNone
	}
	// replay the log against the reference: events nest like brackets
	var open []*ent
	i := 0
	take := func(k string, e *ent) {
		for l := 0; l < listeners; l++ {
			sym.Assert(i < len(log), "event-missing")
			sym.Assert(log[i].k == k && log[i].l == l, "event-order")
			if e != nil {
				sym.Assert(log[i].e == e, "event-node")
			}
			i++
		}
	}
	take("begin", nil)
	for i < len(log) && log[i].k != "end" {
		switch log[i].k {
		case "down":
			e := log[i].e
			if len(open) == 0 {
				sym.Assert(e == w.root, "root-first")
			} else {
				sym.Assert(e.parent == open[len(open)-1], "nested")
			}
			open = append(open, e)
			take("down", e)
		case "up":
			sym.Assert(len(open) > 0, "up-without-down")
			e := open[len(open)-1]
			open = open[:len(open)-1]
			take("up", e)
		case "visit":
			sym.Assert(len(open) > 0 && log[i].e == open[len(open)-1], "visit-inside")
			i++
		default:
			sym.Assert(false, "event-kind")
		}
	}
	sym.Assert(len(open) == 0, "balanced")
	take("end", nil)
	sym.Assert(i == len(log), "end-last")
	sym.Assert(ended != nil, "end-result")
	sym.Reach("end")
}
