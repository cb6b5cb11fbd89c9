package main

import (
	"context"
	"errors"
	"os"
	"path/filepath"
	"sync"

	age "github.com/snivilised/agenor"
	"github.com/snivilised/agenor/core"
	"github.com/snivilised/agenor/enums"
	"github.com/snivilised/agenor/internal/zverif/sym"
	"github.com/snivilised/agenor/locale"
	"github.com/snivilised/agenor/pref"
)

var errOption = errors.New("option refuses")

// factory is either way to navigate.
func factory() age.NavigatorFactory {
	if sym.Pick("run", 2) == 1 {
		var wg sync.WaitGroup
		return age.Run(&wg)
	}
	return age.Walk()
}

func isOne(err error, of []error) bool {
	for _, e := range of {
		if errors.Is(err, e) {
			return true
		}
	}
	return false
}

// usable: a result can be asked, and a rejected request has done nothing.
func usable(result core.TraverseResult, err error) {
	sym.Assert(result.Session() != nil, "session")
	_ = result.Session().StartedAt()
	_ = result.Session().IsComplete()
	for m := enums.MetricNoFilesInvoked; m <= enums.MetricNoChildFilesFilteredOut; m++ {
		n := count(result, m)
		sym.Assert(err == nil || n == 0, "nothing-done")
	}
}

var _ = reg("H_C21", H_C21)

// H_C21: an incorrect request for a prime traversal is rejected.
func H_C21() {
	w := newWorld(1, 1, 2)
	calls := 0
	var expect []error
	u := &pref.Using{Head: pref.Head{
		Handler:   func(core.Servant) error { calls++; return nil },
		GetForest: w.forest(),
	}, Tree: treeRoot, Subscription: enums.SubscribeUniversal}
	if sym.Pick("no-tree", 2) == 1 {
		u.Tree = ""
		expect = append(expect, locale.ErrUsageMissingTreePath)
	}
	if sym.Pick("no-subscription", 2) == 1 {
		u.Subscription = enums.SubscribeUndefined
		expect = append(expect, locale.ErrUsageMissingSubscription)
	}
	if sym.Pick("no-handler", 2) == 1 {
		u.Handler = nil
		expect = append(expect, locale.ErrUsageMissingHandler)
	}
	var opts []pref.Option
	switch sym.Pick("options", 5) {
	case 1:
		opts = append(opts, func(*pref.Options) error { return errOption })
		expect = append(expect, errOption)
	case 2:
		opts = append(opts, nil, pref.WithDepth(1), func(*pref.Options) error { return errOption }, pref.WithDepth(2))
		expect = append(expect, errOption)
	case 3:
		u.O = pref.DefaultOptions()
	case 4:
		opts = append(opts, nil)
	}
	if sym.Pick("no-forest", 2) == 1 {
		u.GetForest = func(string) *core.Forest { return nil }
		expect = append(expect, core.ErrNilForest)
	}
	var facade pref.Facade = u
	if sym.Pick("wrong", 2) == 1 {
		facade = &pref.Relic{Head: u.Head, From: "x", Strategy: enums.ResumeStrategySpawn}
		expect = []error{core.ErrWrongPrimaryFacade}
	}
	if len(expect) == 0 {
		return
	}
	result, err := factory().Configure().Extent(age.Prime(facade, opts...)).Navigate(context.Background())
	sym.Assert(err != nil, "error")
	sym.Assert(isOne(err, expect), "reason")
	sym.Assert(result != nil, "result")
	usable(result, err)
	sym.Assert(calls == 0, "not-called")
	sym.Assert(len(w.reads) == 0, "tree-not-read")
	sym.Reach("end")
}

var _ = reg("H_C21_resume", H_C21_resume)

// H_C21_resume: an incorrect request to resume is rejected.
func H_C21_resume() {
	w := newWorld(1, 1, 2)
	w.rel = sym.Pick("rel", 2) == 1
	r := &rig{w: w, sub: enums.SubscribeUniversal}
	r.onNode = func(v visit) error { panic(errClient) }
	r.walk(pref.WithAdminPath(adminPath))
	dest := savedAt(r.err)
	sym.Assert(dest != "", "saved")
	calls := 0
	var expect []error
	bad := false // some other error
	file := relic(w, dest, "invalid.json")
	switch sym.Pick("file", 6) {
	case 1:
		file = filepath.Join(sym.Scratch(), "nowhere.json")
		bad = true
	case 2:
		os.WriteFile(file, []byte("not a session"), 0o600)
		bad = true
	case 3:
		os.WriteFile(file, []byte("{}"), 0o600)
		bad = true
	case 4:
		os.WriteFile(file, []byte(`{"JO": {}}`), 0o600)
		bad = true
	case 5:
		os.WriteFile(file, []byte(`{"Active": {}}`), 0o600)
		bad = true
	}
	rel := &pref.Relic{Head: pref.Head{
		Handler:   func(core.Servant) error { calls++; return nil },
		GetForest: w.forest(),
	}, From: file, Strategy: []enums.ResumeStrategy{enums.ResumeStrategyFastward, enums.ResumeStrategySpawn}[sym.Pick("strategy", 2)]}
	if sym.Pick("no-strategy", 2) == 1 {
		rel.Strategy = enums.ResumeStrategyUndefined
		// the library has no error of its own for this
		expect = append(expect, locale.ErrUsageMissingSubscription)
	}
	if sym.Pick("no-from", 2) == 1 {
		rel.From = ""
		expect = append(expect, locale.ErrUsageMissingRestorePath)
	}
	if sym.Pick("no-handler", 2) == 1 {
		rel.Handler = nil
		expect = append(expect, locale.ErrUsageMissingHandler)
	}
	other := newWorld(1, 1, 1)
	other.rel = !w.rel
	mismatch := 0
	switch mismatch = sym.Pick("forest", 5); mismatch {
	case 1:
		rel.GetForest = func(string) *core.Forest { return nil }
		expect = append(expect, core.ErrNilForest)
	case 2:
		rel.GetForest = func(string) *core.Forest { return &core.Forest{T: &forestFS{other}, R: &forestFS{w}} }
	case 3:
		rel.GetForest = func(string) *core.Forest { return &core.Forest{T: &forestFS{w}, R: &forestFS{other}} }
	case 4:
		rel.GetForest = nil // means an absolute file system
		if !w.rel {
			return
		}
	}
	var opts []pref.Option
	if sym.Pick("options", 2) == 1 {
		opts = append(opts, pref.WithDepth(2), func(*pref.Options) error { return errOption })
		expect = append(expect, errOption)
	}
	var facade pref.Facade = rel
	if sym.Pick("wrong", 2) == 1 {
		facade = &pref.Using{Head: rel.Head, Tree: treeRoot, Subscription: enums.SubscribeUniversal}
		expect, bad, mismatch = []error{core.ErrWrongResumeFacade}, false, 0
	}
	if len(expect) == 0 && !bad && mismatch < 2 {
		return
	}
	st := &stateAddon{}
	w.reads = nil
	result, err := factory().Configure(st).Extent(age.Resume(facade, opts...)).Navigate(context.Background())
	sym.Assert(err != nil, "error")
	sym.Assert(result != nil, "result")
	usable(result, err)
	sym.Assert(calls == 0, "not-called")
	sym.Assert(len(w.reads) == 0, "tree-not-read")
	switch {
	case bad || mismatch >= 2 && len(expect) > 0:
	case mismatch >= 2:
		var t *locale.TraverseFsMismatchError
		var rm *locale.ResumeFsMismatchError
		sym.Assert(errors.As(err, &t) == (mismatch != 3) && errors.As(err, &rm) == (mismatch == 3), "mismatch")
	default:
		sym.Assert(isOne(err, expect), "reason")
	}
	sym.Reach("end")
}

type badFilter struct{ gate }

func (f *badFilter) Validate() error { return errOption }

var patterns = []string{"*a*", "(", "*|.a", "a"}

// definition is any definition, and the errors with which it may be rejected;
// any stands for an error that is not specified.
func definition(l string, o *pref.Options, whole bool) (d *core.FilterDef, reject []error, anyErr bool) {
	d = &core.FilterDef{Type: enums.FilterType(sym.Pick(l+"type", 8)), Scope: enums.ScopeAll}
	d.Pattern = patterns[sym.Pick(l+"pattern", len(patterns))]
	switch d.Type {
	case enums.FilterTypeUndefined:
		reject = []error{locale.ErrFilterMissingType}
	case enums.FilterTypeRegex:
		anyErr = d.Pattern == "(" || d.Pattern == "*a*" || d.Pattern == "*|.a"
	case enums.FilterTypeGlobEx:
		anyErr = d.Pattern != "*|.a"
	case enums.FilterTypeGlob:
	case enums.FilterTypeCustom:
		if o.Filter.Custom == nil {
			reject = []error{locale.ErrFilterIsNil}
		}
	case enums.FilterTypePoly:
		if !whole {
			reject = []error{locale.ErrPolyFilterIsInvalid}
			break
		}
		if sym.Pick(l+"nopoly", 2) == 1 {
			reject = []error{locale.ErrFilterIsNil}
			break
		}
		f, r1, a1 := definition(l+"f.", o, false)
		g, r2, a2 := definition(l+"d.", o, false)
		d.Poly = &core.PolyFilterDef{File: *f, Directory: *g}
		reject, anyErr = append(r1, r2...), a1 || a2
	default:
		anyErr = true
	}
	return d, reject, anyErr
}

var _ = reg("H_C21_filter", H_C21_filter)

// H_C21_filter: a filter that makes no sense is rejected.
func H_C21_filter() {
	w := newWorld(1, 1, 2)
	r := &rig{w: w, sub: enums.SubscribeUniversal}
	o := pref.DefaultOptions()
	var reject []error
	var anyErr bool
	kind := sym.Pick("kind", 6)
	switch kind {
	case 0:
		o.Filter.Node, reject, anyErr = definition("", o, true)
	case 1, 2:
		var d *core.FilterDef
		d, reject, anyErr = definition("", o, true)
		if kind == 1 {
			o.Hibernate.WakeAt = d
		} else {
			o.Hibernate.SleepAt = d
		}
	case 3:
		r.sub = enums.SubscribeDirectoriesWithFiles
		o.Filter.Child = &core.ChildFilterDef{Type: enums.FilterType(sym.Pick("type", 8)), Pattern: patterns[sym.Pick("pattern", len(patterns))]}
		switch o.Filter.Child.Type {
		case enums.FilterTypeRegex:
			anyErr = o.Filter.Child.Pattern != "a"
		case enums.FilterTypeGlob:
		case enums.FilterTypeGlobEx:
			reject = []error{locale.ErrFilterChildGlobExNotSupported}
		case enums.FilterTypeCustom:
			reject = []error{locale.ErrFilterCustomNotSupported}
		case enums.FilterTypeUndefined:
			reject = []error{locale.ErrFilterUndefined}
		default:
			anyErr = true
		}
	case 4:
		o.Sampling.Type = enums.SampleTypeFilter
		o.Sampling.NoOf = pref.EntryQuantities{Files: 1, Directories: 1}
		o.Filter.Sample = &core.SampleFilterDef{Type: enums.FilterType(sym.Pick("type", 8)), Pattern: patterns[sym.Pick("pattern", len(patterns))],
			Scope: []enums.FilterScope{enums.ScopeUndefined, enums.ScopeFile, enums.ScopeDirectory, enums.ScopeFile | enums.ScopeDirectory}[sym.Pick("scope", 4)]}
		if sym.Pick("no-files", 2) == 1 {
			o.Sampling.NoOf.Files = 0
			if o.Filter.Sample.Scope&enums.ScopeFile != 0 {
				reject = append(reject, locale.ErrInvalidFileSamplingSpecMissingFiles)
			}
		}
		if sym.Pick("no-dirs", 2) == 1 {
			o.Sampling.NoOf.Directories = 0
			if o.Filter.Sample.Scope&enums.ScopeDirectory != 0 {
				reject = append(reject, locale.ErrInvalidSamplingSpecMissingDirectories)
			}
		}
		switch o.Filter.Sample.Type {
		case enums.FilterTypeRegex:
			anyErr = o.Filter.Sample.Pattern != "a"
		case enums.FilterTypeGlob:
		case enums.FilterTypeCustom:
			reject = append(reject, locale.ErrFilterIsNil)
		case enums.FilterTypeUndefined:
			reject = append(reject, locale.ErrFilterMissingType)
		default:
			anyErr = true
		}
	case 5:
		o.Filter.Custom = &badFilter{}
		reject = []error{errOption}
	}
	set := func(p *pref.Options) error {
		p.Filter, p.Hibernate, p.Sampling = o.Filter, o.Hibernate, o.Sampling
		return nil
	}
	facade := &pref.Using{Head: pref.Head{Handler: r.client, GetForest: w.forest()}, Tree: treeRoot, Subscription: r.sub}
	result, err := age.Walk().Configure().Extent(age.Prime(facade, set)).Navigate(context.Background())
	sym.Assert(result != nil, "result")
	usable(result, err)
	if len(reject) == 0 && !anyErr {
		sym.Assert(err == nil, "accepted")
		sym.Reach("accepted")
		return
	}
	sym.Assert(err != nil, "error")
	sym.Assert(anyErr || isOne(err, reject), "reason")
	sym.Assert(len(r.visits) == 0, "not-called")
	sym.Assert(len(w.reads) == 0, "tree-not-read")
	sym.Reach("end")
}
