package main

import (
	"io/fs"
	"strconv"

	"github.com/snivilised/agenor/core"
	"github.com/snivilised/agenor/enums"
	"github.com/snivilised/agenor/internal/zverif/sym"
	"github.com/snivilised/agenor/life"
	"github.com/snivilised/agenor/tapable"
)

var (
	_ = reg("H_C27_events", H_C27_events)
	_ = reg("H_C27_hooks", H_C27_hooks)
	_ = reg("H_C27_scope", H_C27_scope)
)

const kindsOfEvent = 6

type heard struct {
	kind, listener int
	payload        any
}

// H_C27_events: listeners of the life cycle.
func H_C27_events() {
	var (
		events life.Events
		log    []heard
		listen func(kind, id int)
		steps  = sym.Param("steps", 4)
		cs     = life.NewControls()
		bound  = []*life.Controls{cs}
		on     = [][][]int{make([][]int, kindsOfEvent)}
		muted  = [][]bool{make([]bool, kindsOfEvent)}
		cur    = 0
	)
	events.Bind(cs)
	listen = func(kind, id int) {
		hear := func(payload any) { log = append(log, heard{kind, id, payload}) }
		switch kind {
		case 0:
			events.Ascend.On(func(n *core.Node) { hear(n) })
		case 1:
			events.Begin.On(func(s *life.BeginState) { hear(s) })
		case 2:
			events.Descend.On(func(n *core.Node) { hear(n) })
		case 3:
			events.End.On(func(r core.TraverseResult) { hear(r) })
		case 4:
			events.Wake.On(func(d string) { hear(d) })
		case 5:
			events.Sleep.On(func(d string) { hear(d) })
		}
	}
	node, begin := &core.Node{}, &life.BeginState{Tree: "t"}
	dispatch := func(c *life.Controls, kind int) any {
		switch kind {
		case 0:
			c.Ascend.Dispatch()(node)
			return node
		case 1:
			c.Begin.Dispatch()(begin)
			return begin
		case 2:
			c.Descend.Dispatch()(node)
			return node
		case 3:
			c.End.Dispatch()(nil)
			return core.TraverseResult(nil)
		case 4:
			c.Wake.Dispatch()("wake")
			return "wake"
		default:
			c.Sleep.Dispatch()("sleep")
			return "sleep"
		}
	}
	mute := func(c *life.Controls, kind int, m bool) {
		switch {
		case kind == 0 && m:
			c.Ascend.Mute()
		case kind == 0:
			c.Ascend.Unmute()
		case kind == 1 && m:
			c.Begin.Mute()
		case kind == 1:
			c.Begin.Unmute()
		case kind == 2 && m:
			c.Descend.Mute()
		case kind == 2:
			c.Descend.Unmute()
		case kind == 3 && m:
			c.End.Mute()
		case kind == 3:
			c.End.Unmute()
		case kind == 4 && m:
			c.Wake.Mute()
		case kind == 4:
			c.Wake.Unmute()
		case m:
			c.Sleep.Mute()
		default:
			c.Sleep.Unmute()
		}
	}

	next := 0
	kind := sym.Pick("kind", kindsOfEvent)
	for i := 0; i < steps; i++ {
		p := strconv.Itoa(i)
		switch sym.Pick("op"+p, 6) {
		case 0:
			listen(kind, next)
			on[cur][kind] = append(on[cur][kind], next)
			next++
		case 1:
			m := sym.Bool("mute" + p)
			mute(bound[cur], kind, m)
			muted[cur][kind] = m
		case 2:
			bound[cur].MuteAll()
			for k := range muted[cur] {
				muted[cur][k] = true
			}
		case 3:
			bound[cur].UnmuteAll()
			for k := range muted[cur] {
				muted[cur][k] = false
			}
		case 4: // the options are used again
			c := life.NewControls()
			events.Bind(c)
			bound = append(bound, c)
			l := make([][]int, kindsOfEvent)
			for k := range l {
				l[k] = append(l[k], on[cur][k]...)
			}
			on = append(on, l)
			muted = append(muted, make([]bool, kindsOfEvent))
			cur++
		case 5: // another event
			other := (kind + 1) % kindsOfEvent
			listen(other, next)
			on[cur][other] = append(on[cur][other], next)
			next++
		}
	}
	for b, c := range bound {
		for k := 0; k < kindsOfEvent; k++ {
			log = nil
			payload := dispatch(c, k)
			if muted[b][k] {
				sym.Assert(len(log) == 0, "muted")
				continue
			}
			sym.Assert(len(log) == len(on[b][k]), "once-each")
			for i, h := range log {
				sym.Assert(h.kind == k && h.listener == on[b][k][i], "in-order")
				sym.Assert(h.payload == payload, "payload")
			}
		}
	}
	sym.Reach("end")
}

// H_C27_hooks: chains on a hook.
func H_C27_hooks() {
	var (
		steps = sym.Param("steps", 4)
		log   []int
		errD  = fs.ErrInvalid
		base  = 0
		chain []int
		next  = 1
	)
	def := func(id int) core.QueryStatusHook {
		return func(_ fs.StatFS, path string) (fs.FileInfo, error) {
			log = append(log, id)
			return nil, &tagged{id, path, errD}
		}
	}
	link := func(id int) core.ChainQueryStatusHook {
		return func(info fs.FileInfo, err error, _ fs.StatFS, path string) (fs.FileInfo, error) {
			log = append(log, id)
			return info, &tagged{id, path, err}
		}
	}
	ctrl := tapable.NewHookCtrl[
		core.QueryStatusHook, core.ChainQueryStatusHook, tapable.QueryStatusBroadcaster,
	](def(0), tapable.GetQueryStatusBroadcaster, tapable.QueryStatusAttacher)
	var h tapable.Hook[core.QueryStatusHook, core.ChainQueryStatusHook] = ctrl

	for i := 0; i < steps; i++ {
		p := strconv.Itoa(i)
		switch sym.Pick("op"+p, 3) {
		case 0:
			if len(chain) > 0 {
				continue // not both
			}
			h.Tap(def(next))
			base = next
			next++
		case 1:
			h.Chain(link(next))
			chain = append(chain, next)
			next++
		case 2:
			check := func(f core.QueryStatusHook, want []int) {
				log = nil
				_, err := f(nil, "p"+p)
				sym.Assert(len(log) == len(want), "each-once")
				for i := range want {
					sym.Assert(log[i] == want[i], "order")
				}
				for i := len(want) - 1; i >= 0; i-- {
					t, ok := err.(*tagged)
					sym.Assert(ok && t.id == want[i] && t.path == "p"+p, "passed-on")
					err = t.err
				}
				sym.Assert(err == errD, "innermost")
			}
			check(h.Invoke(), append([]int{base}, chain...))
			check(h.Default(), []int{0})
		}
	}
	sym.Reach("end")
}

type tagged struct {
	id   int
	path string
	err  error
}

func (t *tagged) Error() string { return "tagged" }

// H_C27_scope: scopes of filters as sets.
func H_C27_scope() {
	f := enums.FilterScope(uint32(sym.Uint("scope")))
	mask := enums.FilterScope(uint32(sym.Uint("mask")))
	i := uint(sym.Pick("bit", 32))
	has := func(s enums.FilterScope) bool { return uint32(s)>>i&1 == 1 }

	set := f
	set.Set(mask)
	sym.Assert(has(set) == sym.Or(has(f), has(mask)), "set")
	clr := f
	clr.Clear(mask)
	sym.Assert(has(clr) == sym.And(has(f), !has(mask)), "clear")
	sc := f
	scrub := sc.Scrub()
	sym.Assert(sc == f, "scrub-leaves")
	fd := enums.FilterScope(1<<i) == enums.ScopeFile || enums.FilterScope(1<<i) == enums.ScopeDirectory
	sym.Assert(has(scrub) == sym.And(has(f), fd), "scrub")
	switch enums.FilterScope(1 << i) {
	case enums.ScopeTree:
		sym.Assert(f.IsTree() == has(f), "tree")
	case enums.ScopeFile:
		sym.Assert(f.IsFile() == has(f), "file")
	case enums.ScopeDirectory:
		sym.Assert(f.IsDirectory() == has(f), "directory")
	}
	sym.Reach("end")
}
