package main

import (
	"errors"

	"github.com/snivilised/agenor/core"
	"github.com/snivilised/agenor/enums"
	"github.com/snivilised/agenor/internal/zverif/sym"
	"github.com/snivilised/agenor/pref"
)

var _ = reg("H_C05", H_C05)

// H_C05: directories that cannot be read have no entries and cost nothing
// else; entries whose details cannot be had are still visited; a tree that
// cannot be stat'ed ends the traversal with what the fault handler says.
func H_C05() {
	w := newWorld(sym.Param("kids", 2), sym.Param("depth", 2), sym.Param("nodes", 3))
	w.readFaults, w.infoFaults = true, sym.Param("info", 1) == 1
	r := &rig{w: w, sub: pickSub()}
	ff := sym.Pick("filesfirst", 2) == 1
	r.onNode = func(v visit) error {
		sym.Assert(v.e != nil, "visit-exists")
		if v.e == w.root {
			return nil
		}
		if v.e.infoFault() {
			sym.Assert(errors.Is(v.node.Error, w.fault("info")), "node-error")
		} else {
			sym.Assert(v.node.Error == nil, "node-no-error")
			sym.Assert(v.node.Info != nil, "node-info")
		}
		return nil
	}
	var down []string
	up := 0
	r.walk(pref.WithSortBehaviour(&pref.SortBehaviour{SortFilesFirst: ff}),
		pref.WithOnDescend(func(n *core.Node) { down = append(down, n.Path) }),
		pref.WithOnAscend(func(*core.Node) { up++ }))
	s := &spec{w: w, sub: r.sub, filesFirst: ff, unreadable: func(e *ent) bool { return w.readBad[e] }}
	s.start()
	sameEnts(r.visits, s.visited, "faulty")
	sym.Assert(len(down) == len(s.entered) && up == len(down), "notified")
	sym.Assert(r.err == nil, "no-error")
	sym.Reach("end")
}

var _ = reg("H_C05_stat", H_C05_stat)

// H_C05_stat: the fault handler.
func H_C05_stat() {
	w := newWorld(1, 1, 1)
	w.statBad = sym.ConcBool(sym.Bool("stat"))
	r := &rig{w: w, sub: pickSub()}
	faults := 0
	mode := sym.Pick("handler", 3)
	var opts []pref.Option
	if mode > 0 {
		opts = append(opts, pref.WithFaultHandler(pref.Accepter(func(f *pref.NavigationFault) error {
			faults++
			sym.Assert(errors.Is(f.Err, w.fault("stat")), "fault-error")
			sym.Assert(f.Path == w.root.path, "fault-path")
			if mode == 2 {
				return errClient
			}
			return nil
		})))
	}
	begun, ended := 0, 0
	opts = append(opts, pref.WithOnEnd(func(core.TraverseResult) { ended++ }),
		pref.WithOnDescend(func(*core.Node) { begun++ }))
	r.walk(opts...)
	sym.Assert(ended == 1, "ended")
	if !w.statBad {
		sym.Assert(faults == 0 && r.err == nil, "no-fault")
		sym.Assert(begun == len(w.all) || (begun <= len(w.all) && (r.sub == enums.SubscribeDirectories || r.sub == enums.SubscribeDirectoriesWithFiles)), "walked")
		return
	}
	sym.Assert(len(r.visits) == 0 && begun == 0, "nothing-visited")
	sym.Assert(count(r.result, enums.MetricNoFilesInvoked) == 0 && count(r.result, enums.MetricNoDirectoriesInvoked) == 0, "nothing-counted")
	switch mode {
	case 0:
		sym.Assert(errors.Is(r.err, w.fault("stat")), "default-reports")
	case 1:
		sym.Assert(faults == 1 && r.err == nil, "handler-accepts")
	case 2:
		sym.Assert(faults == 1 && errors.Is(r.err, errClient), "handler-error")
	}
	sym.Reach("end")
}

var _ = reg("H_C05_err", H_C05_err)

// H_C05_err: an error given by the skip handler along with a request to skip
// ends the traversal and is reported.
func H_C05_err() {
	w := newWorld(sym.Param("kids", 2), sym.Param("depth", 2), sym.Param("nodes", 3))
	w.readFaults = true
	r := &rig{w: w, sub: pickSub()}
	asked := 0
	bad := false
	after := 0
	r.onNode = func(visit) error {
		if bad {
			after++
		}
		return nil
	}
	r.walk(pref.WithSkipHandler(pref.Asker(func(n *core.Node, _ core.DirectoryContents, err error) (enums.SkipTraversal, error) {
		e := w.find(n.Path)
		sym.Assert(e != nil, "ask-node")
		sym.Assert(!bad, "asked-after-error")
		if !e.dir {
			return enums.SkipNoneTraversal, nil
		}
		sym.Assert((err != nil) == w.readBad[e], "ask-error")
		if err != nil {
			sym.Assert(errors.Is(err, w.fault("read")), "ask-error-is")
		}
		asked++
		if !w.decide("bad:" + e.key) {
			return enums.SkipNoneTraversal, nil
		}
		bad = true
		if w.decide("all:" + e.key) {
			return enums.SkipAllTraversal, errSkipper
		}
		return enums.SkipDirTraversal, errSkipper
	})))
	sym.Assert(asked > 0, "asked")
	sym.Assert(after == 0, "nothing-after")
	if bad {
		sym.Assert(errors.Is(r.err, errSkipper), "error-reported")
		sym.Reach("bad")
	} else {
		sym.Assert(r.err == nil, "no-error")
	}
	sym.Reach("end")
}
