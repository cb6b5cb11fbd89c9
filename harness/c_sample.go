package main

import (
	"errors"
	"regexp"

	"github.com/snivilised/agenor/core"
	"github.com/snivilised/agenor/enums"
	"github.com/snivilised/agenor/internal/zverif/sym"
	"github.com/snivilised/agenor/locale"
	"github.com/snivilised/agenor/pref"
)

// listing is the order in which the harness file system lists entries.
func (w *world) listing(e *ent) []*ent {
	kids := w.children(e)
	out := make([]*ent, 0, len(kids))
	for i := range kids {
		if w.reverse {
			out = append(out, kids[len(kids)-1-i])
		} else {
			out = append(out, kids[i])
		}
	}
	return out
}

// sampled is the documented meaning of sampling: of what passes the sample
// filter, the first (or last) so many files and directories of each directory.
func sampled(in []*ent, files, dirs uint, last bool, pass func(*ent) bool) []*ent {
	var out []*ent
	for _, wantDir := range []bool{false, true} {
		limit := files
		if wantDir {
			limit = dirs
		}
		var of []*ent
		for _, k := range in {
			if k.dir == wantDir && (pass == nil || pass(k)) {
				of = append(of, k)
			}
		}
		for i, k := range of {
			switch {
			case limit == 0:
			case last && uint(len(of)-i) > limit:
				continue
			case !last && uint(i) >= limit:
				continue
			}
			out = append(out, k)
		}
	}
	return out
}

var _ = reg("H_C12", H_C12)

// H_C12: sampling.
func H_C12() {
	w := newWorld(sym.Param("kids", 3), sym.Param("depth", 2), sym.Param("nodes", 3))
	w.reverse = sym.Pick("listing", 2) == 1
	w.readFaults = sym.Param("faults", 1) == 1
	r := &rig{w: w, sub: pickSub()}
	files, dirs := sym.Uint("files"), sym.Uint("dirs")
	last := sym.Bool("last")
	ff := sym.Pick("filesfirst", 2) == 1
	so := &pref.SamplingOptions{Type: enums.SampleTypeSlice, InReverse: last,
		NoOf: pref.EntryQuantities{Files: files, Directories: dirs}}
	var sink int
	r.walk(pref.WithSamplingOptions(so),
		pref.WithSkipHandler(pref.Asker(func(n *core.Node, _ core.DirectoryContents, err error) (enums.SkipTraversal, error) {
			e := w.find(n.Path)
			sym.Assert(e != nil, "ask-node")
			sym.Assert((err != nil) == (e.dir && w.readBad[e]), "read-error-kept")
			return enums.SkipNoneTraversal, nil
		})),
		pref.WithSortBehaviour(&pref.SortBehaviour{SortFilesFirst: ff}))
	sym.Assert(r.err == nil, "no-error")
	s := &spec{w: w, sub: r.sub, filesFirst: ff, unreadable: func(e *ent) bool { return w.readBad[e] },
		cmp: func(a, b *ent) bool { return a.name < b.name },
		list: func(e *ent) []*ent {
			return sampled(w.listing(e), files, dirs, last, nil)
		}}
	s.start()
	sameEnts(r.visits, s.visited, "sampled")
	_ = sink
	if r.sub == enums.SubscribeDirectoriesWithFiles {
		for _, v := range r.visits {
			var kids []*ent
			if !w.readBad[v.e] {
				kids = sampled(w.listing(v.e), files, dirs, last, func(k *ent) bool { return !k.dir })
			}
			sym.Assert(len(v.node.Children) == len(kids), "sampled-children")
		}
	}
	sym.Reach("end")
}

var sampleGlobs = []string{"*a", "a*", "?", "[ab]*"}
var sampleRegexes = []string{"a$", "^b", "A", "."}

var _ = reg("H_C12_filter", H_C12_filter)

// H_C12_filter: sampling with a sample filter: the filter is applied first.
func H_C12_filter() {
	w := newWorld(sym.Param("kids", 2), sym.Param("depth", 2), sym.Param("nodes", 2))
	w.reverse = sym.Pick("listing", 2) == 1
	w.nameFn = func(_ *world, p *ent, i int) string {
		return sym.Str("nm:"+p.key+letters[i], 1, "aA") + letters[i]
	}
	r := &rig{w: w, sub: pickSub()}
	files, dirs := sym.Uint("files"), sym.Uint("dirs")
	last := sym.Bool("last")
	neg := sym.Bool("neg")
	scope := enums.FilterScope(0)
	bits := sym.Pick("scope", 4)
	if bits&1 != 0 {
		scope |= enums.ScopeFile
	}
	if bits&2 != 0 {
		scope |= enums.ScopeDirectory
	}
	def := &core.SampleFilterDef{Description: "s", Scope: scope, Negate: neg}
	so := &pref.SamplingOptions{Type: enums.SampleTypeFilter, InReverse: last,
		NoOf: pref.EntryQuantities{Files: files, Directories: dirs}}
	var m func(e *ent) bool
	switch sym.Pick("type", 3) {
	case 0:
		def.Type = enums.FilterTypeGlob
		def.Pattern = sampleGlobs[sym.Pick("glob", len(sampleGlobs))]
		m = func(e *ent) bool { return globMatch(def.Pattern, e.name) != neg }
	case 1:
		def.Type = enums.FilterTypeRegex
		def.Pattern = sampleRegexes[sym.Pick("regex", len(sampleRegexes))]
		m = func(e *ent) bool { return regexp.MustCompile(def.Pattern).MatchString(e.name) != neg }
	case 2:
		def.Type = enums.FilterTypeCustom
		def.Custom = &sampleGate{w: w}
		so.Type = enums.SampleTypeCustom
		m = func(e *ent) bool { return w.decide("s:" + e.key) }
	}
	pass := func(e *ent) bool {
		if e.parent == nil && def.Type == enums.FilterTypeCustom {
			return true
		}
		if def.Type != enums.FilterTypeCustom {
			if bits == 1 && e.dir || bits == 2 && !e.dir {
				return true
			}
		}
		return m(e)
	}
	r.walk(pref.WithSamplingOptions(so), pref.WithFilter(&pref.FilterOptions{Sample: def}))
	switch {
	case bits&1 != 0 && files == 0:
		sym.Assert(errors.Is(r.err, locale.ErrInvalidFileSamplingSpecMissingFiles), "missing-files")
		sym.Assert(len(r.visits) == 0, "nothing-visited")
		return
	case bits&2 != 0 && dirs == 0:
		sym.Assert(errors.Is(r.err, locale.ErrInvalidSamplingSpecMissingDirectories), "missing-directories")
		sym.Assert(len(r.visits) == 0, "nothing-visited")
		return
	}
	sym.Assert(r.err == nil, "no-error")
	s := &spec{w: w, sub: r.sub,
		match: func(e *ent) bool { return e.parent != nil || pass(e) },
		list: func(e *ent) []*ent {
			return sampled(w.listing(e), files, dirs, last, pass)
		}}
	s.start()
	got := map[*ent]int{}
	for _, v := range r.visits {
		sym.Assert(v.e != nil, "visit-exists")
		got[v.e]++
	}
	sym.Assert(len(r.visits) == len(s.visited), "sample-count")
	for _, e := range s.visited {
		sym.Assert(got[e] == 1, "sample-visited")
	}
	var tally [7]int
	for _, v := range r.visits {
		if v.e.dir {
			tally[enums.MetricNoDirectoriesInvoked]++
		} else {
			tally[enums.MetricNoFilesInvoked]++
		}
		if r.sub != enums.SubscribeDirectoriesWithFiles {
			sym.Assert(len(v.node.Children) == 0, "no-children")
			continue
		}
		kids := 0
		for _, k := range s.list(v.e) {
			if !k.dir {
				kids++
			}
		}
		tally[enums.MetricNoChildFilesFound] += kids
		sym.Assert(len(v.node.Children) == kids, "sample-children")
		for _, c := range v.node.Children {
			sym.Assert(!c.IsDir() && pass(c.(*ent)), "sample-child")
		}
	}
	if wanted(r.sub, w.root) && !pass(w.root) {
		tally[enums.MetricNoDirectoriesFilteredOut] = 1
	}
	for _, k := range allMetrics {
		sym.Assert(count(r.result, k) == tally[k], "sample-metric")
	}
	sym.Reach("end")
}
