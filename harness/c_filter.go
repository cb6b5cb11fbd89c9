package main

import (
	"io/fs"
	"path/filepath"
	"regexp"
	"strings"

	"github.com/snivilised/agenor/core"
	"github.com/snivilised/agenor/enums"
	"github.com/snivilised/agenor/internal/zverif/sym"
	"github.com/snivilised/agenor/pref"
)

// ---- custom filters

// gate is a client defined node filter with a symbolic verdict per node.
type gate struct {
	w     *world
	r     *rig
	asked map[*ent]int
	label string
}

func newGate(r *rig, label string) *gate {
	return &gate{w: r.w, r: r, asked: map[*ent]int{}, label: label}
}
func (g *gate) Description() string { return "gate" }
func (g *gate) Validate() error     { return nil }
func (g *gate) Source() string      { return "gate" }
func (g *gate) verdict(e *ent) bool {
	return g.w.decide(g.label + e.key)
}
func (g *gate) IsMatch(n *core.Node) bool {
	e := g.w.find(n.Path)
	sym.Assert(e != nil, "filter-node-exists")
	g.asked[e]++
	return g.verdict(e)
}
func (g *gate) IsApplicable(*core.Node) bool { return true }
func (g *gate) Scope() enums.FilterScope     { return enums.ScopeAll }

// decide is a symbolic verdict, one per label.
func (w *world) decide(label string) bool {
	if v, ok := w.decisions[label]; ok {
		return v
	}
	var v bool
	switch {
	case !given(label):
		v = sym.ConcBool(sym.Bool(label))
	case strings.HasPrefix(label, "bad:"), strings.HasPrefix(label, "all:"), strings.HasPrefix(label, "boom:"):
	case strings.Contains(label, "^"):
		v = true
	default:
		v = (label[len(label)-1]-'0')%2 == 0
	}
	w.decisions[label] = v
	return v
}

// choose is a symbolic choice in 0..n-1, one per label.
func (w *world) choose(label string, n int) int {
	if v, ok := w.choices[label]; ok {
		return v
	}
	v := 0
	if !given(label) {
		v = sym.Pick(label, n)
	}
	w.choices[label] = v
	return v
}

var _ = reg("H_C06", H_C06)

// H_C06: a filter decides about callbacks only; navigation, order, depth,
// notifications and the client's skips are those of the unfiltered traversal.
func H_C06() {
	w := newWorld(sym.Param("kids", 2), sym.Param("depth", 2), sym.Param("nodes", 3))
	r := &rig{w: w, sub: pickSub()}
	g := newGate(r, "m:")
	withActs := sym.Param("acts", 1) == 1
	ff := sym.Pick("filesfirst", 2) == 1
	limit := sym.Range("limit", 0, 3)
	act := func(e *ent) int {
		if !withActs {
			return actNone
		}
		return w.choose("act:"+e.key, 4)
	}
	r.onNode = func(v visit) error {
		sym.Assert(v.e != nil, "visit-exists")
		return actErr(act(v.e), false)
	}
	var down []string
	up := 0
	r.walk(pref.WithFilter(&pref.FilterOptions{Custom: g}),
		pref.WithSortBehaviour(&pref.SortBehaviour{SortFilesFirst: ff}),
		pref.WithDepth(uint(limit)),
		pref.WithOnDescend(func(n *core.Node) { down = append(down, n.Path) }),
		pref.WithOnAscend(func(n *core.Node) { up++ }))
	s := &spec{w: w, sub: r.sub, filesFirst: ff, limited: limit != 0, limit: uint(limit), match: g.verdict, act: act}
	s.start()
	sameEnts(r.visits, s.visited, "gated")
	if s.stopped != actError && s.stopped != actSkipAll {
		sym.Assert(len(down) == len(s.entered), "navigation")
		for i, e := range s.entered {
			sym.Assert(down[i] == e.path, "navigation-order")
		}
		sym.Assert(r.err == nil, "no-error")
	}
	sym.Assert(up == len(down), "balanced")
	// metrics
	var files, dirs, filesOut, dirsOut int
	for _, e := range s.entered {
		if !wanted(r.sub, e) {
			continue
		}
		switch {
		case g.verdict(e) && e.dir:
			dirs++
		case g.verdict(e):
			files++
		case e.dir:
			dirsOut++
		default:
			filesOut++
		}
	}
	sym.Assert(count(r.result, enums.MetricNoFilesInvoked) == files, "metric-files")
	sym.Assert(count(r.result, enums.MetricNoDirectoriesInvoked) == dirs, "metric-dirs")
	sym.Assert(count(r.result, enums.MetricNoFilesFilteredOut) == filesOut, "metric-files-out")
	sym.Assert(count(r.result, enums.MetricNoDirectoriesFilteredOut) == dirsOut, "metric-dirs-out")
	sym.Reach("end")
}

// ---- the documented meaning of filter definitions

// scopeOf gives the scopes a node belongs to. ok for directories in full; a
// file belongs to the file scope, and to the leaf scope.
func (w *world) scopeOf(e *ent) enums.FilterScope {
	if !e.dir {
		return enums.ScopeFile | enums.ScopeLeaf
	}
	leaf := true
	for _, k := range w.children(e) {
		if k.dir && !w.readBad[e] {
			leaf = false
		}
	}
	s := enums.ScopeDirectory
	switch {
	case e.depth == 0:
		s |= enums.ScopeTree
	case e.depth == 1:
		s |= enums.ScopeTop
	case !leaf:
		s |= enums.ScopeIntermediate
	}
	if leaf {
		s |= enums.ScopeLeaf
	}
	return s
}

func globMatch(pattern, name string) bool {
	ok, _ := filepath.Match(pattern, name)
	return ok
}

// refMatch decides whether a definition lets an entry through.
func (w *world) refMatch(def *core.FilterDef, e *ent) bool {
	if def.Type == enums.FilterTypePoly {
		if e.dir {
			return true
		}
		f, d := def.Poly.File, def.Poly.Directory
		f.Scope = (f.Scope | enums.ScopeFile) &^ enums.ScopeDirectory
		d.Scope = (d.Scope | enums.ScopeDirectory) &^ enums.ScopeFile
		ok := w.refMatch(&f, e)
		if e.parent != nil {
			ok = ok && w.refMatch(&d, e.parent)
		}
		return ok
	}
	scope := def.Scope
	if scope == enums.ScopeUndefined {
		scope = enums.ScopeAll
	}
	if def.Type == enums.FilterTypeGlobEx {
		scope = enums.ScopeFile
	}
	applies := scope&w.scopeOf(e) != 0
	var m bool
	switch def.Type {
	case enums.FilterTypeGlob:
		m = globMatch(def.Pattern, e.name)
	case enums.FilterTypeRegex:
		m = regexp.MustCompile(def.Pattern).MatchString(e.name)
	case enums.FilterTypeGlobEx:
		segs := strings.SplitN(def.Pattern, "|", 2)
		base, excl, _ := strings.Cut(strings.ToLower(segs[0]), "/")
		if applies && e.parent != nil {
			dn := strings.ToLower(e.parent.name)
			applies = globMatch(base, dn) && !globMatch(excl, dn)
		}
		m = globExName(segs[1], e.name)
	}
	if !applies {
		return def.IfNotApplicable != enums.TriStateBoolFalse
	}
	return m != def.Negate
}

// globExName: the first listed pattern that decides, decides. A pattern with an
// exclamation mark before its extension rejects what it matches and accepts
// everything else.
func globExName(list, name string) bool {
	name = strings.ToLower(name)
	for _, p := range strings.Split(list, ",") {
		if p == "" || p == "!" {
			continue
		}
		p = strings.ToLower(strings.TrimSpace(p))
		dot := strings.LastIndex(p, ".")
		b, ext := p[:dot], p[dot+1:]
		not := strings.HasPrefix(ext, "!")
		ext = strings.TrimPrefix(ext, "!")
		if b == "" {
			b = "*"
		}
		if not {
			return !globMatch(b+"."+ext, name)
		}
		if globMatch(b+"."+ext, name) {
			return true
		}
	}
	return false
}

var globPatterns = []string{"*", "a*", "*.b", "?", "[ab]*", "A?", "a", "*a*"}
var regexPatterns = []string{".", "^a", "b$", "^a.*b$", "[ab]", "^$", "a|B", "(?i)^A$"}
var globExPatterns = []string{"*|*.b", "*|a*.b", "a*|*.b", "*/a|*.b", "*|*.!b", "R*|*.B", "*|*.a,b*.b", "root/a*|.b", "*|*.a,*.!b", "*|a*.b,,!,*.!B"}

// symName gives entries short symbolic names over a small alphabet.
func symNames(maxLen int, charset string) func(w *world, p *ent, i int) string {
	return func(_ *world, p *ent, i int) string {
		n := maxLen
		if maxLen > 1 {
			n = 1 + sym.Pick("len:"+p.key+letters[i], maxLen)
		}
		s := sym.Str("nm:"+p.key+letters[i], n, charset)
		if n <= 2 {
			sym.Assume(sym.And(s != ".", s != ".."))
		}
		for _, k := range p.kids {
			sym.Assume(k.name != s)
		}
		return s
	}
}

func pickScope(label string) enums.FilterScope {
	// any combination of the documented scopes, or none, or all
	s := sym.Range(label, 0, 64)
	return enums.FilterScope(sym.IteInt(s == 64, 1<<32-1, s))
}

func pickNA(label string) enums.TriStateBool {
	return enums.TriStateBool(sym.Range(label, 0, 2))
}

func filterDef(pre string) *core.FilterDef {
	d := &core.FilterDef{Description: "d", Negate: sym.Bool(pre + "neg"), Scope: pickScope(pre + "scope"), IfNotApplicable: pickNA(pre + "na")}
	switch sym.Pick(pre+"type", 2) {
	case 0:
		d.Type = enums.FilterTypeGlob
		d.Pattern = globPatterns[sym.Pick(pre+"glob", len(globPatterns))]
	case 1:
		d.Type = enums.FilterTypeRegex
		d.Pattern = regexPatterns[sym.Pick(pre+"regex", len(regexPatterns))]
	}
	return d
}

var _ = reg("H_C07", H_C07)

// H_C07: glob and regex node filters let through exactly the entries their
// definition describes.
func H_C07() {
	w := newWorld(sym.Param("kids", 2), sym.Param("depth", 2), sym.Param("nodes", 2))
	w.nameFn = symNames(sym.Param("len", 2), "abAB.")
	r := &rig{w: w, sub: subscriptions[sym.Pick("sub", 3)]}
	d := filterDef("")
	saved := *d
	var sunk core.TraverseFilter
	r.walk(pref.WithFilter(&pref.FilterOptions{Node: d, Sink: func(rep pref.FilterReply) { sunk = rep.Node }}))
	sym.Assert(r.err == nil, "no-error")
	s := &spec{w: w, sub: r.sub, match: func(e *ent) bool { return w.refMatch(&saved, e) }}
	// order within a directory is the business of another property
	got := map[*ent]int{}
	for _, v := range r.visits {
		sym.Assert(v.e != nil, "visit-exists")
		got[v.e]++
	}
	s.start()
	sym.Assert(len(r.visits) == len(s.visited), "matched-count")
	for _, e := range s.visited {
		sym.Assert(got[e] == 1, "matched")
	}
	sym.Assert(sunk != nil, "sink")
	sym.Assert(sunk.Source() == saved.Pattern, "sink-source")
	sym.Assert(sunk.Description() == saved.Description, "sink-description")
	sym.Reach("end")
}

var _ = reg("H_C07_ex", H_C07_ex)

// H_C07_ex: extended glob filters.
func H_C07_ex() {
	w := newWorld(sym.Param("kids", 1), sym.Param("depth", 1), sym.Param("nodes", 2))
	n := sym.Param("len", 3)
	w.nameFn = func(_ *world, p *ent, i int) string {
		if p.depth == 0 && sym.Param("sub", 0) == 1 {
			return []string{"a", "B", "root", "x"}[sym.Pick("dn:"+letters[i], 4)]
		}
		s := sym.Str("nm:"+p.key+letters[i], n, "abAB.")
		if n <= 2 {
			sym.Assume(sym.And(s != ".", s != ".."))
		}
		for _, k := range p.kids {
			sym.Assume(k.name != s)
		}
		return s
	}
	r := &rig{w: w, sub: subscriptions[sym.Pick("sub", 2)]}
	d := &core.FilterDef{Type: enums.FilterTypeGlobEx, Description: "d",
		Pattern: globExPatterns[sym.Pick("pat", len(globExPatterns))],
		Negate:  sym.Bool("neg"), Scope: pickScope("scope"), IfNotApplicable: pickNA("na")}
	saved := *d
	r.walk(pref.WithFilter(&pref.FilterOptions{Node: d}))
	sym.Assert(r.err == nil, "no-error")
	s := &spec{w: w, sub: r.sub, match: func(e *ent) bool { return w.refMatch(&saved, e) }}
	got := map[*ent]int{}
	for _, v := range r.visits {
		sym.Assert(v.e != nil, "visit-exists")
		got[v.e]++
	}
	s.start()
	sym.Assert(len(r.visits) == len(s.visited), "globex-count")
	for _, e := range s.visited {
		sym.Assert(got[e] == 1, "globex-matched")
	}
	sym.Reach("end")
}

var _ = reg("H_C07_poly", H_C07_poly)

// H_C07_poly: poly filters.
func H_C07_poly() {
	w := newWorld(sym.Param("kids", 2), sym.Param("depth", 2), sym.Param("nodes", 2))
	w.nameFn = symNames(1, "abA")
	r := &rig{w: w, sub: subscriptions[sym.Pick("sub", 2)]}
	pats := []string{"a", "?", "[aA]"}
	f := core.FilterDef{Type: enums.FilterTypeGlob, Pattern: pats[sym.Pick("fp", 3)], Negate: sym.Bool("fneg"), Scope: pickScope("fscope"), IfNotApplicable: pickNA("fna")}
	rpats := []string{"^a", "root", "^[ar]"}
	d := core.FilterDef{Type: enums.FilterTypeRegex, Pattern: rpats[sym.Pick("dp", 3)], Negate: sym.Bool("dneg"), Scope: pickScope("dscope"), IfNotApplicable: pickNA("dna")}
	def := &core.FilterDef{Type: enums.FilterTypePoly, Poly: &core.PolyFilterDef{File: f, Directory: d}}
	ref := &core.FilterDef{Type: enums.FilterTypePoly, Poly: &core.PolyFilterDef{File: f, Directory: d}}
	r.walk(pref.WithFilter(&pref.FilterOptions{Node: def}))
	sym.Assert(r.err == nil, "no-error")
	s := &spec{w: w, sub: r.sub, match: func(e *ent) bool { return w.refMatch(ref, e) }}
	got := map[*ent]int{}
	for _, v := range r.visits {
		sym.Assert(v.e != nil, "visit-exists")
		got[v.e]++
	}
	s.start()
	sym.Assert(len(r.visits) == len(s.visited), "poly-count")
	for _, e := range s.visited {
		sym.Assert(got[e] == 1, "poly-matched")
	}
	sym.Reach("end")
}

// ---- children

var _ = reg("H_C08", H_C08)

// H_C08: directories-with-files hands every visited directory the files it
// contains, in name order, reduced by the child filter if there is one.
func H_C08() {
	w := newWorld(sym.Param("kids", 2), sym.Param("depth", 2), sym.Param("nodes", 3))
	w.reverse = sym.Pick("reverse", 2) == 1
	w.nameFn = func(_ *world, p *ent, i int) string {
		// distinct, ordered, and with a symbolic part
		return letters[i] + sym.Str("nm:"+p.key+letters[i], 1, "ab")
	}
	r := &rig{w: w, sub: enums.SubscribeDirectoriesWithFiles}
	fo := &pref.FilterOptions{}
	var g *gate
	if sym.Pick("node", 2) == 1 {
		g = newGate(r, "m:")
		fo.Custom = g
	}
	match := func(string) bool { return true }
	child := sym.Pick("child", 3)
	neg := sym.Bool("neg")
	switch child {
	case 1:
		pats := []string{"*a", "a*", "?b"}
		p := pats[sym.Pick("glob", 3)]
		fo.Child = &core.ChildFilterDef{Type: enums.FilterTypeGlob, Description: "c", Pattern: p, Negate: neg}
		match = func(n string) bool { return globMatch(p, n) != neg }
	case 2:
		pats := []string{"a$", "^a", "b"}
		p := pats[sym.Pick("regex", 3)]
		fo.Child = &core.ChildFilterDef{Type: enums.FilterTypeRegex, Description: "c", Pattern: p, Negate: neg}
		match = func(n string) bool { return regexp.MustCompile(p).MatchString(n) != neg }
	}
	found, out := 0, 0
	children := func(v visit, tally bool) {
		sym.Assert(v.e != nil && v.e.dir, "directory")
		var want []string
		rejected := 0
		for _, k := range v.e.kids {
			if k.dir {
				continue
			}
			if match(k.name) {
				want = append(want, k.name)
			} else {
				rejected++
			}
		}
		if tally {
			found += len(want)
			out += rejected
		}
		got := v.node.Children
		sym.Assert(len(got) == len(want), "children-count")
		for i, c := range got {
			sym.Assert(c.Name() == want[i], "children-order")
			sym.Assert(!c.IsDir(), "children-files")
		}
	}
	r.onNode = func(v visit) error {
		children(v, true)
		return nil
	}
	r.walk(pref.WithFilter(fo))
	for _, v := range r.visits {
		children(v, false) // a node that is kept keeps its children
	}
	sym.Assert(r.err == nil, "no-error")
	s := &spec{w: w, sub: r.sub}
	if g != nil {
		s.match = g.verdict
	}
	s.start()
	sameEnts(r.visits, s.visited, "directories")
	sym.Assert(count(r.result, enums.MetricNoChildFilesFound) == found, "metric-children")
	sym.Assert(count(r.result, enums.MetricNoChildFilesFilteredOut) == out, "metric-children-out")
	sym.Reach("end")
}

// sampleGate is a client defined sample filter.
type sampleGate struct {
	w *world
}

func (g *sampleGate) Description() string { return "sample" }
func (g *sampleGate) Validate() error     { return nil }
func (g *sampleGate) Matching(in []fs.DirEntry) []fs.DirEntry {
	var out []fs.DirEntry
	for _, e := range in {
		k, ok := e.(*ent)
		if !ok || g.w.decide("s:"+k.key) {
			out = append(out, e)
		}
	}
	return out
}

var _ = reg("H_C07_none", H_C07_none)

// H_C07_none: definitions without a pattern are as good as none.
func H_C07_none() {
	w := newWorld(sym.Param("kids", 2), sym.Param("depth", 2), sym.Param("nodes", 2))
	sub := pickSub()
	negate := sym.Pick("negate", 2) == 1
	which := 1 + sym.Pick("which", 3)
	fo := &pref.FilterOptions{}
	if which&1 != 0 {
		fo.Node = &core.FilterDef{Type: enums.FilterType(sym.Pick("type", 8)), Description: "n", Negate: negate,
			Scope:           []enums.FilterScope{0, enums.ScopeFile, enums.ScopeTop | enums.ScopeDirectory}[sym.Pick("scope", 3)],
			IfNotApplicable: enums.TriStateBool(sym.Pick("ifna", 3))}
	}
	if which&2 != 0 {
		fo.Child = &core.ChildFilterDef{Type: enums.FilterType(sym.Pick("child type", 8)), Description: "c", Negate: negate}
	}
	told := func(opts ...pref.Option) (*rig, []string) {
		r := &rig{w: w, sub: sub}
		var out []string
		r.onNode = func(v visit) error {
			s := v.path
			for _, c := range v.node.Children {
				s += "|" + c.Name()
			}
			out = append(out, s)
			return nil
		}
		r.walk(opts...)
		return r, out
	}
	plain, want := told()
	r, got := told(pref.WithFilter(fo))
	sym.Assert(plain.err == nil && r.err == nil, "no-error")
	sym.Assert(len(got) == len(want), "as-many")
	for i := range got {
		sym.Assert(got[i] == want[i], "same")
	}
	for _, m := range []enums.Metric{enums.MetricNoFilesInvoked, enums.MetricNoDirectoriesInvoked, enums.MetricNoFilesFilteredOut, enums.MetricNoDirectoriesFilteredOut,
		enums.MetricNoChildFilesFound, enums.MetricNoChildFilesFilteredOut} {
		sym.Assert(r.result.Metrics().Count(m) == plain.result.Metrics().Count(m), "metric")
	}
	sym.Reach("end")
}
