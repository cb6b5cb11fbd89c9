package main

import (
	"github.com/snivilised/agenor/core"
	"github.com/snivilised/agenor/enums"
	"github.com/snivilised/agenor/internal/zverif/sym"
	"github.com/snivilised/agenor/pref"
)

// hiberDef is a trigger: names it matches start with the letter.
func hiberDef(pre, letter string, deep bool) *core.FilterDef {
	d := &core.FilterDef{Description: pre + "-trigger", IfNotApplicable: enums.TriStateBoolFalse}
	if deep {
		d.Scope = pickScope(pre + "scope")
		d.Negate = sym.Bool(pre + "neg")
		d.IfNotApplicable = pickNA(pre + "na")
	}
	switch sym.Pick(pre+"type", 3) {
	case 0:
		d.Type, d.Pattern = enums.FilterTypeGlob, letter+"*"
	case 1:
		d.Type, d.Pattern = enums.FilterTypeRegex, "^"+letter
	case 2:
		d.Type, d.Poly = enums.FilterTypePoly, &core.PolyFilterDef{
			File:      core.FilterDef{Type: enums.FilterTypeGlob, Pattern: letter + "*"},
			Directory: core.FilterDef{Type: enums.FilterTypeGlob, Pattern: "[a-z]*"},
		}
	}
	return d
}

func cloneDef(d *core.FilterDef) *core.FilterDef {
	if d == nil {
		return nil
	}
	c := *d
	if d.Poly != nil {
		p := *d.Poly
		c.Poly = &p
	}
	return &c
}

// hiberSpec is the documented meaning of hibernation for the entries offered.
type hiberSpec struct {
	wake, sleep     func(e *ent) bool
	incWake, incSlp bool
	state           int // 0 pending, 1 active, 2 retired
	woke, slept     *ent
}

func (h *hiberSpec) start() {
	if h.wake == nil {
		h.state = 1
	}
}

// offer tells whether the client may see the entry; stop ends the traversal.
func (h *hiberSpec) offer(e *ent) (see, stop bool) {
	switch h.state {
	case 0:
		if h.wake(e) {
			h.woke = e
			h.state = 1
			return h.incWake, false
		}
		return false, false
	case 1:
		if h.sleep != nil && h.sleep(e) {
			h.slept = e
			h.state = 2
			return h.incSlp, false
		}
		return true, false
	}
	return false, true
}

var _ = reg("H_C11", H_C11)

// H_C11: the client is called from the wake point (inclusive by default) to
// the sleep point (exclusive by default), whatever else is configured.
func H_C11() {
	w := newWorld(sym.Param("kids", 2), sym.Param("depth", 2), sym.Param("nodes", 3))
	deep := sym.Param("deep", 0) == 1
	w.nameFn = func(_ *world, p *ent, i int) string {
		return sym.Str("nm:"+p.key+letters[i], 1, "swx") + letters[i]
	}
	r := &rig{w: w, sub: pickSub()}
	h := &hiberSpec{incWake: true}
	ho := &core.HibernateOptions{}
	which := sym.Pick("which", 3)
	var wd, sd *core.FilterDef
	if which != 1 {
		wd = hiberDef("wake", "w", deep)
		ref := cloneDef(wd)
		h.wake = func(e *ent) bool { return w.refMatch(ref, e) }
	}
	if which != 0 {
		sd = hiberDef("sleep", "s", deep)
		ref := cloneDef(sd)
		h.sleep = func(e *ent) bool { return w.refMatch(ref, e) }
	}
	var opts []pref.Option
	exw, ins := sym.Pick("exclusivewake", 2) == 1, sym.Pick("inclusivesleep", 2) == 1
	h.incWake, h.incSlp = !exw, ins
	if sym.Pick("how", 2) == 0 {
		if wd != nil {
			opts = append(opts, pref.WithHibernationFilterWake(wd))
		}
		if sd != nil {
			opts = append(opts, pref.WithHibernationFilterSleep(sd))
		}
		if exw {
			opts = append(opts, pref.WithHibernationBehaviourExclusiveWake())
		}
		if ins {
			opts = append(opts, pref.WithHibernationBehaviourInclusiveSleep())
		}
	} else {
		ho.WakeAt, ho.SleepAt = wd, sd
		ho.Behaviour = core.HibernationBehaviour{InclusiveWake: !exw, InclusiveSleep: ins}
		opts = append(opts, pref.WithHibernationOptions(ho))
	}
	var g *gate
	if sym.Param("gate", 1) == 1 && sym.Pick("gate", 2) == 1 {
		g = newGate(r, "m:")
		opts = append(opts, pref.WithFilter(&pref.FilterOptions{Custom: g}))
	}
	var wakes, sleeps int
	opts = append(opts,
		pref.WithOnWake(func(d string) {
			wakes++
			if wd != nil && wd.Poly == nil {
				sym.Assert(d == wd.Description, "wake-description")
			}
		}),
		pref.WithOnSleep(func(d string) {
			sleeps++
			if sd != nil && sd.Poly == nil {
				sym.Assert(d == sd.Description, "sleep-description")
			}
		}))
	r.walk(opts...)
	sym.Assert(r.err == nil, "no-error")
	h.start()
	var want []*ent
	stopped := false
	s := &spec{w: w, sub: r.sub}
	s.cmp = func(a, b *ent) bool { return a.name < b.name }
	s.act = func(e *ent) int {
		see, stop := h.offer(e)
		if stop {
			stopped = true
			return actSkipAll
		}
		if see && (g == nil || g.verdict(e)) {
			want = append(want, e)
		}
		return actNone
	}
	s.start()
	sameEnts(r.visits, want, "awake")
	b := 0
	if h.woke != nil {
		b = 1
	}
	sym.Assert(wakes == b, "wake-notified")
	b = 0
	if h.slept != nil {
		b = 1
	}
	sym.Assert(sleeps == b, "sleep-notified")
	if stopped {
		sym.Reach("stopped")
	}
	sym.Reach("end")
}
