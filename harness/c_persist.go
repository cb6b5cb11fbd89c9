package main

import (
	"errors"

	age "github.com/snivilised/agenor"
	"github.com/snivilised/agenor/core"
	"github.com/snivilised/agenor/enums"
	"github.com/snivilised/agenor/internal/enclave"
	"github.com/snivilised/agenor/internal/opts/json"
	"github.com/snivilised/agenor/internal/persist"
	"github.com/snivilised/agenor/internal/zverif/sym"
	"github.com/snivilised/agenor/locale"
	"github.com/snivilised/agenor/pref"
)

const printable = " !#$%'()*+,-./0123456789:;=?@ABCXYZ[\\]^_`abcxyz{|}~\"<>&"

func symText(l string) string {
	return sym.Str(l, sym.Param("len", 2), []string{printable, "ab"}[sym.Param("few", 0)])
}

// symDef is any filter definition, or none.
func symDef(l string, polys int) *core.FilterDef {
	if sym.Pick("def:"+l, 2) == 0 {
		return nil
	}
	d := symDefVal(l, polys)
	return &d
}

func symDefVal(l string, polys int) core.FilterDef {
	return core.FilterDef{
		Type:            enums.FilterType(sym.Uint(l + ".type")),
		Description:     symText(l + ".desc"),
		Pattern:         symText(l + ".pat"),
		Scope:           enums.FilterScope(sym.Range(l+".scope", 0, 1<<31-1)),
		Negate:          sym.Bool(l + ".neg"),
		IfNotApplicable: enums.TriStateBool(sym.Uint(l + ".ina")),
		Poly:            symPoly(l, polys),
	}
}

func symPoly(l string, polys int) *core.PolyFilterDef {
	if polys == 0 || sym.Pick("poly:"+l, 2) == 0 {
		return nil
	}
	return &core.PolyFilterDef{File: symDefVal(l+".f", polys-1), Directory: symDefVal(l+".d", polys-1)}
}

func symChild(l string) *core.ChildFilterDef {
	if sym.Pick("def:"+l, 2) == 0 {
		return nil
	}
	return &core.ChildFilterDef{
		Type:        enums.FilterType(sym.Uint(l + ".type")),
		Description: symText(l + ".desc"),
		Pattern:     symText(l + ".pat"),
		Negate:      sym.Bool(l + ".neg"),
	}
}

func symSample(l string, polys int) *core.SampleFilterDef {
	if sym.Pick("def:"+l, 2) == 0 {
		return nil
	}
	return &core.SampleFilterDef{
		Type:        enums.FilterType(sym.Uint(l + ".type")),
		Description: symText(l + ".desc"),
		Pattern:     symText(l + ".pat"),
		Scope:       enums.FilterScope(sym.Range(l+".scope", 0, 1<<31-1)),
		Negate:      sym.Bool(l + ".neg"),
		Poly:        symPoly(l, polys),
	}
}

// symScalars sets the settings that are not filter definitions.
func symScalars(l string, o *pref.Options) {
	o.Behaviours.SubPath.KeepTrailingSep = sym.Bool(l + "keep")
	o.Behaviours.Sort.IsCaseSensitive = sym.Bool(l + "case")
	o.Behaviours.Sort.SortFilesFirst = sym.Bool(l + "ff")
	o.Behaviours.Cascade.Depth = sym.Uint(l + "depth")
	o.Behaviours.Cascade.NoRecurse = sym.Bool(l + "norec")
	o.Sampling.Type = enums.SampleType(sym.Uint(l + "stype"))
	o.Sampling.InReverse = sym.Bool(l + "srev")
	o.Sampling.NoOf.Files = sym.Uint(l + "sfiles")
	o.Sampling.NoOf.Directories = sym.Uint(l + "sdirs")
	o.Hibernate.Behaviour.InclusiveWake = sym.Bool(l + "iwake")
	o.Hibernate.Behaviour.InclusiveSleep = sym.Bool(l + "isleep")
	o.Concurrency.NoW = sym.Uint(l + "now")
}

func scalarsSame(o, p *pref.Options) bool {
	return sym.And(
		o.Behaviours.SubPath.KeepTrailingSep == p.Behaviours.SubPath.KeepTrailingSep,
		o.Behaviours.Sort.IsCaseSensitive == p.Behaviours.Sort.IsCaseSensitive,
		o.Behaviours.Sort.SortFilesFirst == p.Behaviours.Sort.SortFilesFirst,
		o.Behaviours.Cascade.Depth == p.Behaviours.Cascade.Depth,
		o.Behaviours.Cascade.NoRecurse == p.Behaviours.Cascade.NoRecurse,
		o.Sampling.Type == p.Sampling.Type,
		o.Sampling.InReverse == p.Sampling.InReverse,
		o.Sampling.NoOf.Files == p.Sampling.NoOf.Files,
		o.Sampling.NoOf.Directories == p.Sampling.NoOf.Directories,
		o.Hibernate.Behaviour.InclusiveWake == p.Hibernate.Behaviour.InclusiveWake,
		o.Hibernate.Behaviour.InclusiveSleep == p.Hibernate.Behaviour.InclusiveSleep,
		o.Concurrency.NoW == p.Concurrency.NoW,
	)
}

func sameDef(a, b *core.FilterDef) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	return sym.And(a.Type == b.Type, a.Description == b.Description, a.Pattern == b.Pattern,
		a.Scope == b.Scope, a.Negate == b.Negate, a.IfNotApplicable == b.IfNotApplicable, samePoly(a.Poly, b.Poly))
}

func samePoly(a, b *core.PolyFilterDef) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	return sym.And(sameDef(&a.File, &b.File), sameDef(&a.Directory, &b.Directory))
}

func sameChild(a, b *core.ChildFilterDef) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	return sym.And(a.Type == b.Type, a.Description == b.Description, a.Pattern == b.Pattern, a.Negate == b.Negate)
}

func sameSample(a, b *core.SampleFilterDef) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	return sym.And(a.Type == b.Type, a.Description == b.Description, a.Pattern == b.Pattern,
		a.Scope == b.Scope, a.Negate == b.Negate, samePoly(a.Poly, b.Poly))
}

func assertOptions(got, want *pref.Options) {
	sym.Assert(scalarsSame(got, want), "scalars")
	sym.Assert(sameDef(got.Filter.Node, want.Filter.Node), "node-filter")
	sym.Assert(sameChild(got.Filter.Child, want.Filter.Child), "child-filter")
	sym.Assert(sameSample(got.Filter.Sample, want.Filter.Sample), "sample-filter")
	sym.Assert(sameDef(got.Hibernate.WakeAt, want.Hibernate.WakeAt), "wake-at")
	sym.Assert(sameDef(got.Hibernate.SleepAt, want.Hibernate.SleepAt), "sleep-at")
}

var metricKinds = []enums.Metric{
	enums.MetricNoFilesInvoked, enums.MetricNoFilesFilteredOut, enums.MetricNoDirectoriesInvoked,
	enums.MetricNoDirectoriesFilteredOut, enums.MetricNoChildFilesFound, enums.MetricNoChildFilesFilteredOut,
}

var rawNames = []string{"", "root/\u00e9", "root/\xff\"", "\u2028<&>\ufffd", "a\\xff\n\t\x00", "\xed\xa0\x80"}

var _ = reg("H_C16", H_C16)

// H_C16: what is saved is what is loaded.
func H_C16() {
	w := newWorld(0, 0, 0)
	polys := sym.Param("polys", 1)
	o := pref.DefaultOptions()
	symScalars("", o)
	o.Filter.Node = symDef("node", polys)
	o.Filter.Child = symChild("child")
	o.Filter.Sample = symSample("sample", polys)
	o.Hibernate.WakeAt = symDef("wake", polys)
	o.Hibernate.SleepAt = symDef("sleep", polys)
	active := &core.ActiveState{
		Tree:                symText("tree"),
		TraverseDescription: core.FsDescription{IsRelative: sym.Bool("trel")},
		ResumeDescription:   core.FsDescription{IsRelative: sym.Bool("rrel")},
		Subscription:        enums.Subscription(sym.Uint("sub")),
		Hibernation:         enums.Hibernation(sym.Uint("hib")),
		CurrentPath:         symText("current"),
		IsDir:               sym.Bool("isdir"),
		Depth:               sym.Int("adepth"),
	}
	if sym.Param("raw", 0) != 0 { // names are not always text
		active.Tree, active.CurrentPath = rawNames[sym.Pick("rawtree", len(rawNames))], rawNames[sym.Pick("rawcurrent", len(rawNames))]
	}
	metrics := sym.Pick("metrics", 3) // none, some, all
	if metrics > 0 {
		active.Metrics = core.Metrics{}
		for i, m := range metricKinds {
			if metrics == 2 || i%2 == 0 {
				active.Metrics[m] = &core.NavigationMetric{T: m, Counter: sym.Uint("m" + letters[i])}
			}
		}
	}
	want := *o
	wantActive := *active
	_, err := persist.Marshal(&persist.MarshalRequest{Active: active, O: o, Path: "saved", Perm: core.Perms.File, FS: &forestFS{w}})
	sym.Assert(err == nil, "saved")
	sym.Assert(len(w.written) == 1, "one-file")

	res, err := persist.Unmarshal(&persist.UnmarshalRequest{Restore: &enclave.RestoreState{Path: "saved", FS: &forestFS{w}}})
	sym.Assert(err == nil && res != nil && res.O != nil && res.Active != nil, "loaded")
	assertOptions(res.O, &want)
	got := res.Active
	sym.Assert(sym.And(
		got.Tree == wantActive.Tree, got.TraverseDescription == wantActive.TraverseDescription,
		got.ResumeDescription == wantActive.ResumeDescription, got.Subscription == wantActive.Subscription,
		got.Hibernation == wantActive.Hibernation, got.CurrentPath == wantActive.CurrentPath,
		got.IsDir == wantActive.IsDir, got.Depth == wantActive.Depth), "state")
	sym.Assert(len(got.Metrics) == len(wantActive.Metrics), "metrics-count")
	for k, m := range wantActive.Metrics {
		g, ok := got.Metrics[k]
		sym.Assert(ok && g != nil, "metric-there")
		sym.Assert(sym.And(g.T == m.T, g.Counter == m.Counter), "metric")
	}
	sym.Reach("end")
}

var _ = reg("H_C16_session", H_C16_session)

// H_C16_session: the options and metrics of an interrupted session are those
// with which it is resumed.
func H_C16_session() {
	w := newWorld(2, 1, sym.Param("nodes", 2))
	r := &rig{w: w, sub: pickSub()}
	want := pref.DefaultOptions()
	symScalars("", want)
	want.Sampling.Type = enums.SampleTypeUndefined // sampling decides what is reached
	want.Filter.Node, want.Filter.Child = sessionFilters()
	set := func(o *pref.Options) error {
		o.Behaviours, o.Sampling, o.Hibernate, o.Concurrency = want.Behaviours, want.Sampling, want.Hibernate, want.Concurrency
		o.Filter.Node, o.Filter.Child = want.Filter.Node, want.Filter.Child
		return nil
	}
	b := &breakage{site: inClient, payload: errClient}
	r.onNode = func(v visit) error {
		b.hit(inClient, v.e)
		return nil
	}
	r.walk(pref.WithAdminPath(adminPath), set)
	if b.at == nil {
		return
	}
	dest := savedAt(r.err)
	sym.Assert(dest != "", "saved")
	st := &stateAddon{}
	var loaded *pref.Options
	stop := errors.New("seen enough")
	r2 := &rig{w: w, sub: r.sub}
	r2.resume(relic(w, dest, "session.json"), enums.ResumeStrategyFastward, []age.Addon{st}, func(o *pref.Options) error {
		if loaded == nil {
			loaded = o
		}
		return stop
	})
	sym.Assert(errors.Is(r2.err, stop), "option-error")
	sym.Assert(len(r2.visits) == 0, "nothing-visited")
	if want.Behaviours.Cascade.NoRecurse {
		// means a depth of one, which is saved too
		loaded.Behaviours.Cascade.Depth = want.Behaviours.Cascade.Depth
	}
	assertOptions(loaded, want)
	sym.Assert(st.got != nil, "state")
	sym.Assert(sym.And(st.got.Subscription == r.sub, st.got.Tree == w.root.path, st.got.CurrentPath == b.at.path,
		st.got.IsDir == b.at.dir, st.got.Depth == b.at.depth), "state-position")
	var files, dirs uint
	for _, v := range r.visits {
		if v.e.dir {
			dirs++
		} else {
			files++
		}
	}
	count := func(m enums.Metric) uint {
		if x, ok := st.got.Metrics[m]; ok {
			return x.Counter
		}
		return 0
	}
	sym.Assert(sym.And(count(enums.MetricNoFilesInvoked) == files, count(enums.MetricNoDirectoriesInvoked) == dirs), "state-metrics")
	sym.Reach("end")
}

func sessionFilters() (node *core.FilterDef, child *core.ChildFilterDef) {
	if sym.Pick("with-node", 2) == 1 {
		node = &core.FilterDef{Type: enums.FilterTypeGlob, Description: symText("node.desc"), Pattern: "*",
			Scope: enums.ScopeAll, IfNotApplicable: enums.TriStateBool(sym.Uint("node.ina"))}
	}
	if sym.Pick("with-child", 2) == 1 {
		child = &core.ChildFilterDef{Type: enums.FilterTypeGlob, Description: symText("child.desc"), Pattern: "a*", Negate: sym.Bool("child.neg")}
	}
	return node, child
}

var _ = reg("H_C17", H_C17)

// H_C17: the comparison that guards saving and loading tells settings that
// differ from their persisted form.
func H_C17() {
	polys := sym.Param("polys", 1)
	group := sym.Pick("group", 8)
	o, p := pref.DefaultOptions(), pref.DefaultOptions()
	switch group {
	case 0:
		symScalars("", o)
		symScalars("other.", p)
	case 1:
		o.Filter.Node, p.Filter.Node = symDef("node", polys), symDef("other.node", polys)
	case 2:
		o.Filter.Child, p.Filter.Child = symChild("child"), symChild("other.child")
	case 3:
		o.Filter.Sample, p.Filter.Sample = symSample("sample", polys), symSample("other.sample", polys)
	case 4:
		o.Hibernate.WakeAt, p.Hibernate.WakeAt = symDef("wake", polys), symDef("other.wake", polys)
	case 5:
		o.Hibernate.SleepAt, p.Hibernate.SleepAt = symDef("sleep", polys), symDef("other.sleep", polys)
	}
	cmp := &persist.Comparison{O: o, JO: toPersisted(p)}
	same := sym.And(scalarsSame(o, p), sameDef(o.Filter.Node, p.Filter.Node), sameChild(o.Filter.Child, p.Filter.Child),
		sameSample(o.Filter.Sample, p.Filter.Sample), sameDef(o.Hibernate.WakeAt, p.Hibernate.WakeAt),
		sameDef(o.Hibernate.SleepAt, p.Hibernate.SleepAt))
	switch group {
	case 6:
		cmp.O, same = nil, false
	case 7:
		cmp.JO, same = nil, false
	}
	err := cmp.Equals()
	if err == nil {
		sym.Assert(same, "equal")
		sym.Reach("same")
		return
	}
	sym.Assert(!same, "unequal")
	sym.Assert(errors.Is(err, locale.ErrUnEqualConversion), "error")
	report(err, o, p)
	sym.Reach("different")
}

// pair is a setting with its two values.
type pair[T comparable] struct {
	field        string
	value, other T
}

// reported checks that an unequal value error says which setting differs and
// what its values are.
func reported[T comparable](err error, pairs []pair[T]) bool {
	var e persist.UnequalValueError[T]
	if !errors.As(err, &e) {
		return false
	}
	var hits []bool
	for _, p := range pairs {
		if p.field == e.Field {
			hits = append(hits, sym.And(p.value == e.Value, p.other == e.Other))
		}
	}
	sym.Assert(e.Value != e.Other, "values-differ")
	sym.Assert(sym.Or(hits...), "names-setting")
	return true
}

// oneSided checks that an unequal pointer error has the one which is there.
func oneSided[T, O any](err error) bool {
	var e persist.UnequalPtrError[T, O]
	if !errors.As(err, &e) {
		return false
	}
	sym.Assert((e.Value == nil) != (e.Other == nil), "one-side")
	sym.Assert(e.Field != "", "names-definition")
	return true
}

// report checks what the error says of the settings o and p.
func report(err error, o, p *pref.Options) {
	bools := []pair[bool]{
		{"KeepTrailingSep", o.Behaviours.SubPath.KeepTrailingSep, p.Behaviours.SubPath.KeepTrailingSep},
		{"IsCaseSensitive", o.Behaviours.Sort.IsCaseSensitive, p.Behaviours.Sort.IsCaseSensitive},
		{"SortFilesFirst", o.Behaviours.Sort.SortFilesFirst, p.Behaviours.Sort.SortFilesFirst},
		{"NoRecurse", o.Behaviours.Cascade.NoRecurse, p.Behaviours.Cascade.NoRecurse},
		{"InReverse", o.Sampling.InReverse, p.Sampling.InReverse},
		{"InclusiveWake", o.Hibernate.Behaviour.InclusiveWake, p.Hibernate.Behaviour.InclusiveWake},
		{"InclusiveSleep", o.Hibernate.Behaviour.InclusiveSleep, p.Hibernate.Behaviour.InclusiveSleep},
	}
	uints := []pair[uint]{
		{"Depth", o.Behaviours.Cascade.Depth, p.Behaviours.Cascade.Depth},
		{"Files", o.Sampling.NoOf.Files, p.Sampling.NoOf.Files},
		{"Directories", o.Sampling.NoOf.Directories, p.Sampling.NoOf.Directories},
		{"NoW", o.Concurrency.NoW, p.Concurrency.NoW},
	}
	samples := []pair[enums.SampleType]{{"Type", o.Sampling.Type, p.Sampling.Type}}
	var (
		strs   []pair[string]
		types  []pair[enums.FilterType]
		scopes []pair[enums.FilterScope]
		tris   []pair[enums.TriStateBool]
		def    func(a, b *core.FilterDef)
	)
	text := func(d, e, pt, pu string) {
		strs = append(strs, pair[string]{"Description", d, e}, pair[string]{"Pattern", pt, pu})
	}
	poly := func(a, b *core.PolyFilterDef) {
		if a != nil && b != nil {
			def(&a.File, &b.File)
			def(&a.Directory, &b.Directory)
		}
	}
	def = func(a, b *core.FilterDef) {
		if a == nil || b == nil {
			return
		}
		types = append(types, pair[enums.FilterType]{"Type", a.Type, b.Type})
		text(a.Description, b.Description, a.Pattern, b.Pattern)
		scopes = append(scopes, pair[enums.FilterScope]{"Scope", a.Scope, b.Scope})
		bools = append(bools, pair[bool]{"Negate", a.Negate, b.Negate})
		tris = append(tris, pair[enums.TriStateBool]{"IfNotApplicable", a.IfNotApplicable, b.IfNotApplicable})
		poly(a.Poly, b.Poly)
	}
	def(o.Filter.Node, p.Filter.Node)
	def(o.Hibernate.WakeAt, p.Hibernate.WakeAt)
	def(o.Hibernate.SleepAt, p.Hibernate.SleepAt)
	if a, b := o.Filter.Child, p.Filter.Child; a != nil && b != nil {
		types = append(types, pair[enums.FilterType]{"Type", a.Type, b.Type})
		text(a.Description, b.Description, a.Pattern, b.Pattern)
		bools = append(bools, pair[bool]{"Negate", a.Negate, b.Negate})
	}
	if a, b := o.Filter.Sample, p.Filter.Sample; a != nil && b != nil {
		types = append(types, pair[enums.FilterType]{"Type", a.Type, b.Type})
		text(a.Description, b.Description, a.Pattern, b.Pattern)
		scopes = append(scopes, pair[enums.FilterScope]{"Scope", a.Scope, b.Scope})
		bools = append(bools, pair[bool]{"Negate", a.Negate, b.Negate})
		poly(a.Poly, b.Poly)
	}
	said := reported(err, bools) || reported(err, uints) || reported(err, samples) || reported(err, strs) ||
		reported(err, types) || reported(err, scopes) || reported(err, tris) ||
		oneSided[core.FilterDef, json.FilterDef](err) || oneSided[core.PolyFilterDef, json.PolyFilterDef](err) ||
		oneSided[core.ChildFilterDef, json.ChildFilterDef](err) || oneSided[core.SampleFilterDef, json.SampleFilterDef](err) ||
		oneSided[pref.Options, json.Options](err)
	sym.Assert(said, "says-what")
}

// toPersisted is the persisted form of p, made here field by field.
func toPersisted(p *pref.Options) *json.Options {
	jo := &json.Options{}
	jo.Behaviours.SubPath.KeepTrailingSep = p.Behaviours.SubPath.KeepTrailingSep
	jo.Behaviours.Sort.IsCaseSensitive = p.Behaviours.Sort.IsCaseSensitive
	jo.Behaviours.Sort.SortFilesFirst = p.Behaviours.Sort.SortFilesFirst
	jo.Behaviours.Cascade.Depth = p.Behaviours.Cascade.Depth
	jo.Behaviours.Cascade.NoRecurse = p.Behaviours.Cascade.NoRecurse
	jo.Sampling.Type = p.Sampling.Type
	jo.Sampling.InReverse = p.Sampling.InReverse
	jo.Sampling.NoOf.Files = p.Sampling.NoOf.Files
	jo.Sampling.NoOf.Directories = p.Sampling.NoOf.Directories
	jo.Hibernate.Behaviour.InclusiveWake = p.Hibernate.Behaviour.InclusiveWake
	jo.Hibernate.Behaviour.InclusiveSleep = p.Hibernate.Behaviour.InclusiveSleep
	jo.Concurrency.NoW = p.Concurrency.NoW
	jo.Filter.Node = jsonDef(p.Filter.Node)
	jo.Hibernate.WakeAt = jsonDef(p.Hibernate.WakeAt)
	jo.Hibernate.SleepAt = jsonDef(p.Hibernate.SleepAt)
	if c := p.Filter.Child; c != nil {
		jo.Filter.Child = &json.ChildFilterDef{Type: c.Type, Description: c.Description, Pattern: c.Pattern, Negate: c.Negate}
	}
	if s := p.Filter.Sample; s != nil {
		jo.Filter.Sample = &json.SampleFilterDef{Type: s.Type, Description: s.Description, Pattern: s.Pattern,
			Scope: s.Scope, Negate: s.Negate, Poly: jsonPoly(s.Poly)}
	}
	return jo
}

func jsonDef(d *core.FilterDef) *json.FilterDef {
	if d == nil {
		return nil
	}
	return &json.FilterDef{Type: d.Type, Description: d.Description, Pattern: d.Pattern, Scope: d.Scope,
		Negate: d.Negate, IfNotApplicable: d.IfNotApplicable, Poly: jsonPoly(d.Poly)}
}

func jsonPoly(p *core.PolyFilterDef) *json.PolyFilterDef {
	if p == nil {
		return nil
	}
	return &json.PolyFilterDef{File: *jsonDef(&p.File), Directory: *jsonDef(&p.Directory)}
}
