package main

import (
	"slices"

	"github.com/snivilised/agenor/core"
	"github.com/snivilised/agenor/internal/opts"
	"github.com/snivilised/agenor/internal/zverif/sym"
	"github.com/snivilised/agenor/life"
	"github.com/snivilised/agenor/pref"
)

var _ = reg("H_C23_listen", H_C23_listen)

// H_C23_listen: the options that take listeners. Any list of them; each
// listener then hears of what its option is named after, once, in order, and
// of nothing else.
func H_C23_listen() {
	n := sym.Range("options", 0, sym.Param("options", 3))
	var (
		log  []heard
		kind []int
		with []pref.Option
	)
	for i := 0; i < n; i++ {
		k, at := sym.Pick("kind", kindsOfEvent), i
		hear := func(payload any) { log = append(log, heard{k, at, payload}) }
		var o pref.Option
		switch k {
		case 0:
			o = pref.WithOnAscend(func(n *core.Node) { hear(n) })
		case 1:
			o = pref.WithOnBegin(func(s *life.BeginState) { hear(s) })
		case 2:
			o = pref.WithOnDescend(func(n *core.Node) { hear(n) })
		case 3:
			o = pref.WithOnEnd(func(core.TraverseResult) { hear(nil) })
		case 4:
			o = pref.WithOnWake(func(d string) { hear(d) })
		default:
			o = pref.WithOnSleep(func(d string) { hear(d) })
		}
		kind, with = append(kind, k), append(with, o)
	}
	_, binder, err := opts.Get(with...)
	sym.Assert(err == nil, "no-error")
	up, down, begin := &core.Node{}, &core.Node{}, &life.BeginState{Tree: "t"}
	payloads := []any{up, begin, down, nil, "w", "s"}
	var want []heard
	for k := range kindsOfEvent {
		switch c := binder.Controls; k {
		case 0:
			c.Ascend.Dispatch()(up)
		case 1:
			c.Begin.Dispatch()(begin)
		case 2:
			c.Descend.Dispatch()(down)
		case 3:
			c.End.Dispatch()(nil)
		case 4:
			c.Wake.Dispatch()("w")
		default:
			c.Sleep.Dispatch()("s")
		}
		for i, x := range kind {
			if x == k {
				want = append(want, heard{k, i, payloads[k]})
			}
		}
	}
	sym.Assert(slices.Equal(log, want), "heard")
	sym.Reach("end")
}
