package main

import (
	"github.com/snivilised/agenor/core"
	"github.com/snivilised/agenor/enums"
	"github.com/snivilised/agenor/internal/zverif/sym"
	"github.com/snivilised/agenor/pref"
)

var allMetrics = []enums.Metric{
	enums.MetricNoFilesInvoked, enums.MetricNoFilesFilteredOut,
	enums.MetricNoDirectoriesInvoked, enums.MetricNoDirectoriesFilteredOut,
	enums.MetricNoChildFilesFound, enums.MetricNoChildFilesFilteredOut,
}

var _ = reg("H_C09", H_C09)

// H_C09: the metrics of a result are what happened, whatever the filters and
// the client's responses; successive traversals do not share counts.
func H_C09() {
	w := newWorld(sym.Param("kids", 2), sym.Param("depth", 2), sym.Param("nodes", 3))
	if w.maxDepth > 0 && sym.Pick("file-root", 2) == 1 {
		w.root.dir = false
	}
	r := &rig{w: w, sub: pickSub()}
	fo := &pref.FilterOptions{}
	node := sym.Pick("node", 2) == 1
	child := r.sub == enums.SubscribeDirectoriesWithFiles && sym.Pick("child", 2) == 1
	asked := map[*ent]bool{}
	if node {
		fo.Custom = newGate(r, "m:")
	}
	cpat := "[ac]"
	if child {
		fo.Child = &core.ChildFilterDef{Type: enums.FilterTypeGlob, Description: "c", Pattern: cpat}
	}
	r.onNode = func(v visit) error {
		sym.Assert(v.e != nil, "visit-exists")
		if sym.Param("plain", 0) == 1 {
			return nil
		}
		return actErr(w.choose("act:"+v.e.key, 4), false)
	}
	limit := sym.Range("limit", 0, 2)
	var ended core.TraverseResult
	var entered []*ent
	_ = asked
	run := func(tag string) [7]int {
		r.visits, ended, entered = nil, nil, nil
		r.walk(pref.WithFilter(fo), pref.WithDepth(uint(limit)),
			pref.WithOnDescend(func(n *core.Node) { entered = append(entered, w.find(n.Path)) }),
			pref.WithOnEnd(func(res core.TraverseResult) { ended = res }))
		sym.Assert(ended != nil && r.result != nil, tag+"ended")
		var want [7]int
		for _, v := range r.visits {
			if v.e.dir {
				want[enums.MetricNoDirectoriesInvoked]++
			} else {
				want[enums.MetricNoFilesInvoked]++
			}
			if r.sub == enums.SubscribeDirectoriesWithFiles {
				for _, k := range w.children(v.e) {
					switch {
					case k.dir:
					case !child || globMatch(cpat, k.name):
						want[enums.MetricNoChildFilesFound]++
					default:
						want[enums.MetricNoChildFilesFilteredOut]++
					}
				}
			}
		}
		if node {
			g := fo.Custom.(*gate)
			for _, e := range entered {
				if wanted(r.sub, e) && !g.verdict(e) {
					if e.dir {
						want[enums.MetricNoDirectoriesFilteredOut]++
					} else {
						want[enums.MetricNoFilesFilteredOut]++
					}
				}
			}
		}
		for _, m := range allMetrics {
			sym.Assert(count(r.result, m) == want[m], tag+m.String())
			sym.Assert(count(ended, m) == want[m], tag+"end-"+m.String())
		}
		sym.Assert(r.result.Session().IsComplete(), tag+"complete")
		return want
	}
	first := run("")
	second := run("again-")
	sym.Assert(first == second, "same-again")
	sym.Reach("end")
}
