package main

import (
	"io/fs"

	"github.com/snivilised/agenor/core"
	"github.com/snivilised/agenor/enums"
	"github.com/snivilised/agenor/internal/zverif/sym"
	"github.com/snivilised/agenor/pref"
)

var _ = reg("H_C28", H_C28)

// H_C28: the client's sink gets the filters that its definitions describe,
// and they are the ones in use.
func H_C28() {
	w := newWorld(sym.Param("kids", 2), sym.Param("depth", 2), sym.Param("nodes", 2))
	w.nameFn = symNames(1, "abA")
	r := &rig{w: w, sub: pickSub()}
	fo := &pref.FilterOptions{}
	opts := []pref.Option{}
	desc := sym.Str("desc", 2, "abc ")
	var (
		source = ""
		scope  enums.FilterScope
		ref    *core.FilterDef
	)
	kind := sym.Pick("kind", 6)
	wantNode, wantChild, wantSampler := 0, 0, 0
	switch kind {
	case 0, 1, 2:
		d := filterDef("")
		if kind == 2 {
			d.Type = enums.FilterTypeGlobEx
			d.Pattern = globExPatterns[sym.Pick("globex", len(globExPatterns))]
		}
		d.Description = desc
		saved := *d
		source, ref, scope = saved.Pattern, &saved, saved.Scope
		if kind == 2 {
			scope = enums.ScopeFile
		} else if scope == enums.ScopeUndefined {
			scope = enums.ScopeAll
		}
		fo.Node = d
		wantNode = 1
		if kind == 1 && r.sub == enums.SubscribeDirectoriesWithFiles {
			fo.Child = &core.ChildFilterDef{Type: enums.FilterTypeGlob, Description: "c" + desc, Pattern: "a*", Negate: sym.Bool("cneg")}
			wantChild = 1
		}
	case 3:
		f, d := polyPart("f", "a", "b$"), polyPart("d", "a*", "^r")
		f.Description, d.Description = desc, "d"+desc
		def := &core.FilterDef{Type: enums.FilterTypePoly, Poly: &core.PolyFilterDef{File: *f, Directory: *d}}
		ref = &core.FilterDef{Type: enums.FilterTypePoly, Poly: &core.PolyFilterDef{File: *f, Directory: *d}}
		source = f.Pattern + "##" + d.Pattern
		scope = ((f.Scope | enums.ScopeFile) &^ enums.ScopeDirectory) | ((d.Scope | enums.ScopeDirectory) &^ enums.ScopeFile)
		desc = "Poly - FILE: '" + desc + "', DIRECTORY: 'd" + desc + "'"
		fo.Node = def
		wantNode = 1
	case 4:
		wantChild = 1
		fo.Child = &core.ChildFilterDef{Type: enums.FilterTypeRegex, Description: "c" + desc, Pattern: "a", Negate: sym.Bool("cneg")}
	case 5:
		wantSampler = 1
		def := &core.SampleFilterDef{Type: enums.FilterTypeGlob, Description: desc, Pattern: "a*", Scope: enums.ScopeFile, Negate: sym.Bool("sneg")}
		if sym.Pick("sregex", 2) == 1 {
			def.Type, def.Pattern = enums.FilterTypeRegex, "^a"
		}
		source = def.Pattern
		fo.Sample = def
		opts = append(opts, pref.WithSamplingOptions(&pref.SamplingOptions{Type: enums.SampleTypeFilter, NoOf: pref.EntryQuantities{Files: 1, Directories: 1}}))
	}
	var replies []pref.FilterReply
	fo.Sink = func(rep pref.FilterReply) {
		sym.Assert(len(r.visits) == 0, "before-visits")
		replies = append(replies, rep)
	}
	r.walk(append(opts, pref.WithFilter(fo))...)
	sym.Assert(r.err == nil, "no-error")
	nodes, children, samplers := 0, 0, 0
	for _, rep := range replies {
		if f := rep.Node; f != nil {
			nodes++
			sym.Assert(f.Description() == desc, "node-description")
			sym.Assert(f.Source() == source, "node-source")
			sym.Assert(f.Scope() == scope, "node-scope")
			sym.Assert(f.Validate() == nil, "node-valid")
			if r.sub == enums.SubscribeDirectories || r.sub == enums.SubscribeUniversal {
				for _, v := range r.visits {
					sym.Assert(f.IsMatch(v.node), "visited-match")
					sym.Assert(w.refMatch(ref, v.e), "visited-match-reference")
				}
			}
		}
		if f := rep.Child; f != nil {
			children++
			sym.Assert(f.Description() == fo.Child.Description, "child-description")
			sym.Assert(f.Source() == fo.Child.Pattern, "child-source")
			sym.Assert(f.Validate() == nil, "child-valid")
			match := func(name string) bool { return globMatch("a*", name) != fo.Child.Negate }
			if fo.Child.Type == enums.FilterTypeRegex {
				match = func(name string) bool { return globMatch("*a*", name) != fo.Child.Negate }
			}
			agree(w, f.Matching, match, "child")
		}
		if f := rep.Sampler; f != nil {
			samplers++
			sym.Assert(f.Description() == desc, "sampler-description")
			sym.Assert(f.Validate() == nil, "sampler-valid")
		}
	}
	sym.Assert(nodes == wantNode, "node-reply")
	sym.Assert(children == wantChild, "child-reply")
	sym.Assert(samplers == wantSampler, "sampler-reply")
	sym.Reach("end")
}

func polyPart(pre, glob, regex string) *core.FilterDef {
	d := &core.FilterDef{Type: enums.FilterTypeGlob, Pattern: glob, Negate: sym.Bool(pre + "neg"), Scope: pickScope(pre + "scope"), IfNotApplicable: pickNA(pre + "na")}
	if sym.Pick(pre+"type", 2) == 1 {
		d.Type, d.Pattern = enums.FilterTypeRegex, regex
	}
	return d
}

// agree compares what a filter makes of the files of the tree with match.
func agree(w *world, matching func([]fs.DirEntry) []fs.DirEntry, match func(string) bool, tag string) {
	for _, e := range w.all {
		if !e.dir {
			continue
		}
		var in []fs.DirEntry
		var want []string
		for _, k := range e.kids {
			if !k.dir {
				in = append(in, k)
				if match(k.name) {
					want = append(want, k.name)
				}
			}
		}
		out := matching(in)
		sym.Assert(len(out) == len(want), tag+"-matching-count")
		for i := range want {
			sym.Assert(out[i].Name() == want[i], tag+"-matching")
		}
	}
}
