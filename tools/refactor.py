"""refactor.py DIR: rewrites a copy of the repository, at DIR, without changing
what it does (helpers extracted, loops rewritten, statements reordered, other
library functions used). The checks have to stay quiet on the result."""
import subprocess, sys
W = sys.argv[1]
SAMP = 'internal/feat/sampling/controller.go'
def r(f,a,b,*imps):
    p=f'{W}/{f}'; s=open(p).read(); assert s.count(a)==1,(f,a[:60],s.count(a)); s=s.replace(a,b)
    for i in imps:
        if f'"{i}"' not in s: s=s.replace('import (\n',f'import (\n\t"{i}"\n',1)
    open(p,'w').write(s)
# kernel
r('internal/kernel/navigator-agent.go','''		if progress, err := ns.mediator.impl.Traverse(
			ctx, ns, servant{
				node: present,
			},
		); err != nil {
			switch {
			case errors.Is(err, fs.SkipAll):
				// Nothing else is to be visited, so the request has to reach
				// all ancestors.
				//
				return skipTraversal, err

			case errors.Is(err, fs.SkipDir):
				if !progress {
					// The returning of skipTraversal by the child, denotes
					// a skip. So when a child node returns a SkipDir error and
					// skipTraversal, what we're saying is that we want to skip
					// processing all successive siblings but continue traversal.
					//
					return continueTraversal, nil
				}
				// ✨ ... the child's own content has been skipped, but still
				// continue with its successive siblings.
				//
			default:
				return continueTraversal, err
			}
		}
''','''		progress, err := ns.mediator.impl.Traverse(ctx, ns, servant{node: present})

		if outcome := judge(progress, err); outcome.done {
			return outcome.skip, outcome.err
		}
''')
r('internal/kernel/navigator-agent.go','for _, entry := range vapour.Entries() {','for entry := range slices.Values(vapour.Entries()) {','slices')
r('internal/kernel/navigator-agent.go','func (n *navigatorAgent) Save(','''type verdict struct {
	done, skip bool
	err        error
}

func judge(progress bool, err error) (v verdict) {
	if err == nil {
		return v
	}

	all, dir := errors.Is(err, fs.SkipAll), errors.Is(err, fs.SkipDir)

	if all {
		return verdict{done: true, skip: skipTraversal, err: err}
	}

	if !dir {
		return verdict{done: true, skip: continueTraversal, err: err}
	}

	v.done = !progress
	if v.done {
		v.skip = continueTraversal
	}

	return v
}

func (n *navigatorAgent) Save(''')
r('internal/kernel/navigator-agent.go','''	panicErr, ok := data.(error)
	if !ok {
		panicErr = errors.New("")
	}

	return lo.TernaryF(rescueErr != nil,
		func() error {
			return locale.NewTraversalNotSavedError(panicErr, rescueErr)
		},
		func() error {
			return locale.NewTraversalSavedError(to, panicErr)
		},
	)''','''	var panicErr error

	switch t := data.(type) {
	case error:
		panicErr = t
	default:
		panicErr = errors.New("")
	}

	if rescueErr == nil {
		return locale.NewTraversalSavedError(to, panicErr)
	}

	return locale.NewTraversalNotSavedError(panicErr, rescueErr)''')
r('internal/kernel/navigator-directories.go','''	if skip, e := ns.mediator.o.Defects.Skip.Ask(
		current, vapour.Contents(), err,
	); skip == enums.SkipAllTraversal {
		return terminate(e)
	} else if skip == enums.SkipDirTraversal {
		return continueTraversal, e
	}

	return n.travel(ctx, ns, vapour)''','''	skip, e := ns.mediator.o.Defects.Skip.Ask(current, vapour.Contents(), err)

	switch skip {
	case enums.SkipAllTraversal:
		return terminate(e)
	case enums.SkipDirTraversal:
		return continueTraversal, e
	default:
		return n.travel(ctx, ns, vapour)
	}''')
r('internal/kernel/navigator-directories.go','''	descended := ns.mediator.descend(current)

	defer func(permit bool) {
		ns.mediator.ascend(current, permit)
	}(descended)

	if !descended {
		return continueTraversal, nil
	}

	if !current.IsDirectory() {
		// only the tree itself could be a file
		//
		return continueTraversal, nil
	}
''','''	if !ns.mediator.descend(current) {
		return continueTraversal, nil
	}

	defer ns.mediator.ascend(current, true)

	if !current.IsDirectory() {
		return continueTraversal, nil
	}
''')
r('internal/kernel/contents.go','''	type selectors map[enums.EntryType]func() [][]fs.DirEntry

	sortables := selectors{
		enums.EntryTypeAll: func() [][]fs.DirEntry {
			return [][]fs.DirEntry{
				c.directories, c.files,
			}
		},
		enums.EntryTypeDirectory: func() [][]fs.DirEntry {
			return [][]fs.DirEntry{c.directories}
		},
		enums.EntryTypeFile: func() [][]fs.DirEntry {
			return [][]fs.DirEntry{c.files}
		},
	}

	for _, entries := range sortables[et]() {
		c.hook.Invoke()(entries)
	}''','''	sort := c.hook.Invoke()

	switch et {
	case enums.EntryTypeAll:
		sort(c.directories)
		sort(c.files)
	case enums.EntryTypeDirectory:
		sort(c.directories)
	case enums.EntryTypeFile:
		sort(c.files)
	}''')
r('internal/kernel/contents.go','''	//nolint:ineffassign,staticcheck // prealloc
	result := make([]fs.DirEntry, 0, len(c.files)+len(c.directories))

	if c.behaviour.SortFilesFirst {
		result = c.files
		result = append(result, c.directories...)
	} else {
		result = c.directories
		result = append(result, c.files...)
	}

	return result''','''	first, second := c.directories, c.files

	if c.behaviour.SortFilesFirst {
		first, second = second, first
	}

	return slices.Concat(first, second)''','slices')
r('internal/kernel/guardian.go','''	for _, role := range g.container.positions.Items() {
		link := g.container.chain[role]

		if next, err := link.Next(servant, inspection); !next || err != nil {
			return err
		}
	}

	return nil''','''	roles := g.container.positions.Items()

	for i := range roles {
		next, err := g.container.chain[roles[i]].Next(servant, inspection)

		switch {
		case err != nil:
			return err
		case !next:
			return nil
		}
	}

	return nil''')
r('internal/kernel/guardian.go','''	if metric := lo.Ternary(node.IsDirectory(),
		a.crate.Metrics[enums.MetricNoDirectoriesInvoked],
		a.crate.Metrics[enums.MetricNoFilesInvoked],
	); metric != nil {
		metric.Tick()
	}
''','''	kind := enums.MetricNoFilesInvoked

	if node.IsDirectory() {
		kind = enums.MetricNoDirectoriesInvoked
	}

	if metric, found := a.crate.Metrics[kind]; found && metric != nil {
		metric.Tick()
	}
''')
r('internal/kernel/guardian.go','	"github.com/snivilised/agenor/internal/third/lo"\n','')
# hiber
r('internal/feat/hiber/hibernate-simple-profile.go','''				if p.common.triggers.wake.IsMatch(node) {
					p.controls.Wake.Dispatch()(p.common.triggers.wake.Description())
					p.transition(enums.HibernationActive)

					if p.common.ho.Behaviour.InclusiveWake {
						return true, nil
					}
				}

				return false, nil''','''				wake := p.common.triggers.wake

				if !wake.IsMatch(node) {
					return false, nil
				}

				p.controls.Wake.Dispatch()(wake.Description())
				p.transition(enums.HibernationActive)

				return p.common.ho.Behaviour.InclusiveWake, nil''')
r('internal/feat/hiber/hibernate-simple-profile.go','''				if p.common.triggers.sleep.IsMatch(node) {
					p.controls.Sleep.Dispatch()(p.common.triggers.sleep.Description())
					p.transition(enums.HibernationRetired)

					if p.common.ho.Behaviour.InclusiveSleep {
						return true, nil
					}
					return false, nil
				}

				return true, nil''','''				sleep := p.common.triggers.sleep

				if !sleep.IsMatch(node) {
					return true, nil
				}

				defer p.transition(enums.HibernationRetired)
				p.controls.Sleep.Dispatch()(sleep.Description())

				return p.common.ho.Behaviour.InclusiveSleep, nil''')
# nanny
r('internal/feat/nanny/nanny-plugin.go','''	node := servant.Node()
	files := inspection.Sort(enums.EntryTypeFile)
	node.Children = files
	p.crate.Metrics[enums.MetricNoChildFilesFound].Times(uint(len(files)))
''','''	files := inspection.Sort(enums.EntryTypeFile)
	defer p.crate.Metrics[enums.MetricNoChildFilesFound].Times(uint(len(files)))
	servant.Node().Children = files
''')
# globex
r('internal/filtering/glob-ex.go','''	for _, spec := range s.specs {
		if spec.excluded(name) {
			return false
		}

		if spec.excludeExt || spec.match(name) {
			return true
		}
	}

	return false''','''	at := slices.IndexFunc(s.specs, func(spec *patternSpec) bool {
		return spec.excludeExt || spec.match(name)
	})

	return at >= 0 && !s.specs[at].excluded(name)''','slices')
r('internal/filtering/glob-ex.go','''		if result, _ := filepath.Match(
			f.spec.directoryGlob, name,
		); !result {
			return false
		}

		if excluded, _ := filepath.Match(
			f.spec.directoryExclusion, name,
		); excluded {
			return false
		}
	}

	return true''','''		matches := func(pattern string) bool {
			ok, err := filepath.Match(pattern, name)
			return err == nil && ok
		}

		return matches(f.spec.directoryGlob) && !matches(f.spec.directoryExclusion)
	}

	return true''')
# sync
r('synchronise.go','''			input := &core.TraverseInput{
				Servant: servant,
				Handler: handler,
			}

			c.jobs.Add(1)

			// TODO: support for timeout (TimeoutOnSendInput) ??? issue #333
			select {
			case c.inputCh <- input:
				return nil
			case <-ctx.Done():
				c.jobs.Done()
				return ctx.Err()
			}''','''			return c.submit(ctx, handler, servant)''')
r('synchronise.go','func (c *concurrent) open(','''func (c *concurrent) submit(ctx context.Context, handler Client, servant Servant) (err error) {
	done := ctx.Done()
	c.jobs.Add(1)

	defer func() {
		if err != nil {
			c.jobs.Done()
		}
	}()

	select {
	case <-done:
		err = context.Cause(ctx)
		if e := ctx.Err(); e != nil {
			err = e
		}
	case c.inputCh <- &core.TraverseInput{Handler: handler, Servant: servant}:
	}

	return err
}

func (c *concurrent) open(''')
r('synchronise.go','''		select {
		case <-complete:
		case <-ctx.Done():
		}

		c.pool.Release(ctx)
	}()''','''		defer c.pool.Release(ctx)

		for {
			select {
			case <-complete:
				return
			case <-ctx.Done():
				return
			}
		}
	}()''')
# periscope
r('internal/level/periscope.go','''	result := enums.ScopeIntermediate

	// Tree=0
	// Top=1
	//
	depth := p.Depth()

	switch {
	case isLeaf && depth == 0:
		result = enums.ScopeTree | enums.ScopeLeaf
	case depth == 0:
		result = enums.ScopeTree
	case isLeaf && depth == 1:
		result = enums.ScopeTop | enums.ScopeLeaf
	case depth == 1:
		result = enums.ScopeTop
	case isLeaf:
		result = enums.ScopeLeaf
	}

	return result''','''	var result enums.FilterScope

	switch p.Depth() {
	case 0:
		result = enums.ScopeTree
	case 1:
		result = enums.ScopeTop
	default:
		if !isLeaf {
			return enums.ScopeIntermediate
		}
	}

	if isLeaf {
		result |= enums.ScopeLeaf
	}

	return result''')
r('internal/level/periscope.go','''	if maximum > 0 && p.depth > 0 && uint(p.depth) > maximum {
		return false
	}

	p.depth++

	return true''','''	exceeded := maximum != 0 && p.depth > 0 && uint64(p.depth) > uint64(maximum)

	if !exceeded {
		p.depth++
	}

	return !exceeded''')
r('pref/defaults.go','''	if offset >= len(input) {
		return ""
	}

	return input[offset:]''','''	return input[min(offset, len(input)):]''')
r('internal/feat/resume/strategy-fastward.go','''	return node.Path == f.source || (f.bare && node.Extension.Name == f.name)''','''	switch {
	case strings.Compare(node.Path, f.source) == 0:
		return true
	case f.bare:
		return strings.Compare(node.Extension.Name, f.name) == 0
	}

	return false''','strings')
r('internal/feat/resume/strategy-fastward.go','''	node := servant.Node()
	match = s.filter.IsMatch(node)

	if match {
		err = s.mediator.Unwind(s.role)
		s.resources.Binder.Controls.UnmuteAll()
	}

	return match, err''','''	if !s.filter.IsMatch(servant.Node()) {
		return false, nil
	}

	defer s.resources.Binder.Controls.UnmuteAll()

	return true, s.mediator.Unwind(s.role)''')
r('internal/feat/resume/strategy-spawn.go','''	result := s.kc.Result(ctx)

	for _, entry := range entries {
		top := s.calc.Clean(s.calc.Join(parent, entry.Name()))
		intermediate, err := s.mediator.Spawn(ctx, top)

		if errors.Is(err, fs.SkipDir) {
			// a directory has skipped its own content, but a file skips the
			// remaining siblings.
			//
			if entry.IsDir() {
				continue
			}

			break
		}

		if err != nil {
			return intermediate, err
		}
	}

	return result, nil''','''	result := s.kc.Result(ctx)
	tops := lo.Map(entries, func(entry fs.DirEntry, _ int) string {
		return s.calc.Clean(s.calc.Join(parent, entry.Name()))
	})

loop:
	for i, top := range tops {
		intermediate, err := s.mediator.Spawn(ctx, top)

		switch {
		case err == nil:
		case !errors.Is(err, fs.SkipDir):
			return intermediate, err
		case !entries[i].IsDir():
			break loop
		}
	}

	return result, nil''')
r('internal/feat/resume/strategy-spawn.go','''	conc.current = parent
	conc.inclusive = false
	s.mediator.Surface()

	return s.crown(ctx, conc)''','''	s.mediator.Surface()

	next := *conc
	next.current, next.inclusive = parent, false

	return s.crown(ctx, &next)''')
r('internal/filtering/sample.go','''	filterable, bypass := f.fetch(children)
	filtered := lo.Filter(filterable, get)

	return append(filtered, bypass...)''','''	filterable, bypass := f.fetch(children)
	result := make([]fs.DirEntry, 0, len(children))

	for i, entry := range filterable {
		if get(entry, i) {
			result = append(result, entry)
		}
	}

	return slices.Grow(append(result, bypass...), 0)''','slices')
r('internal/filtering/sample.go','''	"github.com/snivilised/agenor/internal/third/lo"
''','')
r('internal/filtering/sample.go','''	switch {
	case f.scope.IsDirectory() && f.scope.IsFile():
		return f.all

	case f.scope.IsDirectory():
		return f.directories

	case f.scope.IsFile():
		return f.files
	}

	return f.all''','''	type key struct{ d, f bool }

	if fn, ok := map[key]candidates{
		{true, false}: f.directories,
		{false, true}: f.files,
	}[key{f.scope.IsDirectory(), f.scope.IsFile()}]; ok {
		return fn
	}

	return f.all''')
r('internal/third/bus/broker.go','''	topics, index := make([]string, len(b.topics)), 0

	for topic := range b.topics {
		topics[index] = topic
		index++
	}

	return topics''','''	return slices.AppendSeq(make([]string, 0, len(b.topics)), maps.Keys(b.topics))''','slices','maps')
s=open(W+'/internal/third/bus/broker.go').read()
s=s.replace('''	for _, h := range handlers {
		h.Handle(ctx, e)
	}

	return nil
}''','''	deliver(ctx, handlers, &e)

	return nil
}''')
s+='''
func deliver(ctx context.Context, handlers []Handler, m *Message) {
	for i := 0; i < len(handlers); i++ {
		handlers[i].Handle(ctx, *m)
	}
}
'''
open(W+'/internal/third/bus/broker.go','w').write(s)
r('collections/positional-set.go','''	ps.cache = make([]T, 0, len(ps.items))
	for _, item := range ps.order {
		if ps.items[item] {
			ps.cache = append(ps.cache, item)
		}
	}
''','''	ps.cache = slices.DeleteFunc(slices.Clone(ps.order), func(item T) bool {
		return !ps.items[item]
	})
''','slices')
r('collections/positional-set.go','''	if _, exists := ps.positions[item]; exists {
		if _, found := ps.items[item]; found {
			return false
		}
		ps.items[item] = true
		ps.invalidated = true
		return true
	}

	return false''','''	_, exists := ps.positions[item]
	_, found := ps.items[item]

	if !exists || found {
		return false
	}

	ps.items[item], ps.invalidated = true, true

	return true''')
s=open(W+'/life/events.go').read()
for a,b,c in [('BeginHandler','state *BeginState','state'),('EndHandler','result core.TraverseResult','result'),('NodeHandler','node *core.Node','node'),('HibernateHandler','description string','description')]:
    o=f'''	return func({b}) {{
		for _, listener := range listeners {{
			listener({c})
		}}
	}}'''
    assert s.count(o)==1,a
    s=s.replace(o,f'''	return func({b}) {{
		each(listeners, func(listener {a}) {{
			listener({c})
		}})
	}}''')
s=s.replace('func nopBegin(','''func each[F any](all []F, do func(F)) {
	for f := range slices.Values(all) {
		do(f)
	}
}

func nopBegin(''')
open(W+'/life/events.go','w').write(s)
r('life/events.go','''	c.Ascend.Mute()
	c.Begin.Mute()
	c.Descend.Mute()
	c.End.Mute()
	c.Wake.Mute()
	c.Sleep.Mute()
''','''	for _, mute := range []func(){
		c.Sleep.Mute, c.Wake.Mute, c.End.Mute, c.Descend.Mute, c.Begin.Mute, c.Ascend.Mute,
	} {
		mute()
	}
''')
r('life/events.go','''	c.Ascend.Unmute()
	c.Begin.Unmute()
	c.Descend.Unmute()
	c.End.Unmute()
	c.Wake.Unmute()
	c.Sleep.Unmute()
''','''	type unmuter interface{ Unmute() }

	for _, u := range [...]unmuter{&c.Ascend, &c.Begin, &c.Descend, &c.End, &c.Wake, &c.Sleep} {
		u.Unmute()
	}
''')
r('tapable/broadcasters.go','''		result, err := def(rsys, dirname)

		for _, listener := range provider.get() {
			result, err = listener(result, err, rsys, dirname)
		}

		return result, err''','''		result, err := def(rsys, dirname)
		listeners := provider.get()

		for i, n := 0, len(listeners); i < n; i++ {
			result, err = listeners[i](result, err, rsys, dirname)
		}

		return result, err''')
r('internal/persist/comparison.go','''	if err := equalBehaviours(&o.Behaviours, &jo.Behaviours); err != nil {
		return err
	}

	if err := equalSamplingOptions(&o.Sampling, &jo.Sampling); err != nil {
		return err
	}

	if err := equalFilterOptions(&o.Filter, &jo.Filter); err != nil {
		return err
	}

	if err := equalFilterDef("wake-at",
		o.Hibernate.WakeAt, jo.Hibernate.WakeAt,
	); err != nil {
		return err
	}

	if err := equalFilterDef("sleep-at",
		o.Hibernate.SleepAt, jo.Hibernate.SleepAt,
	); err != nil {
		return err
	}
''','''	for _, compare := range []func() error{
		func() error { return equalBehaviours(&o.Behaviours, &jo.Behaviours) },
		func() error { return equalSamplingOptions(&o.Sampling, &jo.Sampling) },
		func() error { return equalFilterOptions(&o.Filter, &jo.Filter) },
		func() error { return equalFilterDef("wake-at", o.Hibernate.WakeAt, jo.Hibernate.WakeAt) },
		func() error { return equalFilterDef("sleep-at", o.Hibernate.SleepAt, jo.Hibernate.SleepAt) },
	} {
		if err := compare(); err != nil {
			return err
		}
	}
''')
r('internal/kernel/extend.go','''	if current.IsDirectory() {
		isLeaf = len(contents.Directories()) == 0
		scope = ns.mediator.periscope.Scope(isLeaf)
		scope |= enums.ScopeDirectory
	} else {
		scope = enums.ScopeLeaf
		scope |= enums.ScopeFile
	}

	parent, name := filepath.Split(current.Path)''','''	scope = enums.ScopeLeaf | enums.ScopeFile

	if current.IsDirectory() {
		isLeaf = !(len(contents.Directories()) > 0)
		scope = ns.mediator.periscope.Scope(isLeaf) | enums.ScopeDirectory
	}

	at := strings.LastIndexByte(current.Path, filepath.Separator) + 1
	parent, name := current.Path[:at], current.Path[at:]''')
r('internal/feat/filter/scheme-sampler.go','''	node := servant.Node()
	if node.Extension.Scope.IsTree() {
		// the children are the business of the nanny
		matching := s.filter.Matching(
			[]fs.DirEntry{nef.FromFileInfo(node.Info)},
		)

		if !matched(len(matching) > 0, node, s.crate) {
			return false, nil
		}
	}

	if s.primary != nil {
		return s.primary.next(servant, inspection)
	}

	return true, nil''','''	if node := servant.Node(); node.Extension.Scope.IsTree() {
		var one [1]fs.DirEntry
		one[0] = nef.FromFileInfo(node.Info)

		if ok := len(s.filter.Matching(one[:])) != 0; !matched(ok, node, s.crate) {
			return false, nil
		}
	}

	if s.primary == nil {
		return true, nil
	}

	return s.primary.next(servant, inspection)''')
r('builders.go','''	activeRoles := lo.Map(plugins,
		func(plugin enclave.Plugin, _ int) enums.Role {
			return plugin.Role()
		},
	)
	order := manifest(activeRoles)
	artefacts.Mediator.Arrange(activeRoles, order)
''','''	activeRoles := slices.Collect(rolesOf(plugins))
	artefacts.Mediator.Arrange(activeRoles, manifest(activeRoles))

	finish := func() *buildArtefacts {
		return &buildArtefacts{
			o:         o,
			kc:        artefacts.Kontroller,
			plugins:   plugins,
			ext:       ext,
			swappable: artefacts.Mediator,
		}
	}
''','slices','iter')
r('builders.go','''			return &buildArtefacts{
				o:         o,
				kc:        artefacts.Kontroller,
				plugins:   plugins,
				ext:       ext,
				swappable: artefacts.Mediator,
			}, err
		}
	}

	return &buildArtefacts{
		o:         o,
		kc:        artefacts.Kontroller,
		plugins:   plugins,
		ext:       ext,
		swappable: artefacts.Mediator,
	}, nil
}''','''			return finish(), err
		}
	}

	return finish(), nil
}

func rolesOf(plugins []enclave.Plugin) iter.Seq[enums.Role] {
	return func(yield func(enums.Role) bool) {
		for _, plugin := range plugins {
			if !yield(plugin.Role()) {
				return
			}
		}
	}
}''')
r('builders.go','	"github.com/snivilised/agenor/internal/third/lo"\n','')
r('scaffold.go','''	return func(ve error) (enclave.OptionHarvest, error) {
		if using.O != nil {
			return &optionHarvest{
				o:      using.O,
				binder: opts.Push(using.O),
			}, ve
		}

		harvest, err := ext.options(addons, settings...)

		return harvest, lo.Ternary(ve != nil, ve, err)
	}(using.Validate())''','''	invalid := using.Validate()

	if o := using.O; o != nil {
		return &optionHarvest{o: o, binder: opts.Push(o)}, invalid
	}

	harvest, err := ext.options(addons, settings...)

	return harvest, cmp.Or(invalid, err)''','cmp')
r('scaffold.go','''	forest := lo.TernaryF(fn != nil,
		func() *core.Forest {
			return fn(active.Tree)
		},
		func() *core.Forest {
			// Create an absolute file system for both navigation and resume. We
			// can share the same instance because absolute fs have no state, as
			// opposed to a relative fs, which needs to use the root path as state
			// tha is different for navigation and resume purposes.
			fS := tfs.New()

			return &core.Forest{
				T: fS,
				R: fS,
			}
		},
	)
''','''	if fn == nil {
		fn = func(string) *core.Forest {
			fS := tfs.New()

			return &core.Forest{T: fS, R: fS}
		}
	}

	forest := fn(active.Tree)
''')
r('scaffold.go','	"github.com/snivilised/agenor/internal/third/lo"\n','')
r(SAMP,'''	noOfFiles := lo.Ternary(r.o.NoOf.Files == 0,
		uint(len(r.files)), r.o.NoOf.Files,
	)

	both := lo.Ternary(
		r.o.InReverse, last, first,
	)(noOfFiles, r.files)

	noOfDirectories := lo.Ternary(r.o.NoOf.Directories == 0,
		uint(len(r.directories)), r.o.NoOf.Directories,
	)
	both = append(both, lo.Ternary(
		r.o.InReverse, last, first,
	)(noOfDirectories, r.directories)...)

	return both
}

func first(n uint, entries []fs.DirEntry) []fs.DirEntry {
	return entries[:(min(n, uint(len(entries))))]
}

func last(n uint, entries []fs.DirEntry) []fs.DirEntry {
	return entries[uint(len(entries))-(min(n, uint(len(entries)))):]
}''','''	take := func(n uint, entries []fs.DirEntry) []fs.DirEntry {
		size := uint(len(entries))

		switch {
		case n == 0 || n >= size:
			return entries
		case r.o.InReverse:
			return entries[size-n:]
		}

		return entries[:n]
	}

	var both []fs.DirEntry

	both = append(both, take(r.o.NoOf.Files, r.files)...)

	return append(both, take(r.o.NoOf.Directories, r.directories)...)
}''')
r('director.go','''	plugins = lo.Reduce(others,
		func(acc []enclave.Plugin, plugin enclave.Plugin, _ int) []enclave.Plugin {
			if plugin != nil {
				acc = append(acc, plugin)
			}
			return acc
		},
		lo.Reduce(all,
			func(acc []enclave.Plugin, query ifActive, _ int) []enclave.Plugin {
				if plugin := query(o, ext.subscription(), artefacts.Mediator); plugin != nil {
					acc = append(acc, plugin)
				}
				return acc
			},
			[]enclave.Plugin{},
		),
	)
''','''	plugins = make([]enclave.Plugin, 0, len(all)+len(others))

	for _, query := range all {
		plugins = append(plugins, query(o, ext.subscription(), artefacts.Mediator))
	}

	plugins = slices.DeleteFunc(append(plugins, others...), func(plugin enclave.Plugin) bool {
		return plugin == nil
	})
''','slices')
r('director.go','	"github.com/snivilised/agenor/internal/third/lo"\n','')
r('pref/defaults.go','''	sort.Slice(entries, func(i, j int) bool {
		first, second := entries[i].Name(), entries[j].Name()
		a, b := strings.ToLower(first), strings.ToLower(second)

		if a != b {
			return a < b
		}

		return first < second
	})''','''	slices.SortStableFunc(entries, func(l, r fs.DirEntry) int {
		return cmp.Or(
			strings.Compare(strings.ToLower(l.Name()), strings.ToLower(r.Name())),
			strings.Compare(l.Name(), r.Name()),
		)
	})''','slices','cmp')
r('pref/defaults.go','''	sort.Slice(entries, func(i, j int) bool {
		return entries[i].Name() < entries[j].Name()
	})''','''	sort.Sort(byName(entries))''')
r('pref/defaults.go','''// DefaultQueryStatusHook query''','''type byName []fs.DirEntry

func (b byName) Len() int           { return len(b) }
func (b byName) Less(i, j int) bool { return b[i].Name() < b[j].Name() }
func (b byName) Swap(i, j int)      { b[i], b[j] = b[j], b[i] }

// DefaultQueryStatusHook query''')
r('core/node.go','''	if n.Entry != nil {
		return n.Entry.IsDir()
	} else if n.Info != nil {
		return n.Info.IsDir()
	}

	// only get here in error scenario, because neither Entry or Info is set
	//
	return false''','''	type dirable interface{ IsDir() bool }

	for _, d := range []dirable{n.Entry, n.Info} {
		if d != nil {
			return d.IsDir()
		}
	}

	return false''')
r('internal/kernel/author.go','''	directory = nef.ResolvePath(a.o.Monitor.Admin.Path)
	if !strings.HasSuffix(directory, core.ResumeTail) {
		directory = calc.Join(directory, core.ResumeTail)
	}

	file = fmt.Sprintf("%v.%v.%v.json",
		mag, cause, now.Format(core.FileSystemTimeFormat),
	)

	return directory, file''','''	resolved := nef.ResolvePath(a.o.Monitor.Admin.Path)

	if _, found := strings.CutSuffix(resolved, core.ResumeTail); found {
		directory = resolved
	} else {
		directory = calc.Join(resolved, core.ResumeTail)
	}

	var sb strings.Builder

	fmt.Fprintf(&sb, "%v.%v.", mag, cause)
	sb.WriteString(now.Format(core.FileSystemTimeFormat))
	sb.WriteString(".json")

	return directory, sb.String()''')
r('internal/persist/marshaler.go','''	if mr.Raw != nil {
		if mr.Active.Tree, err = strconv.Unquote(mr.Raw.Tree); err != nil {
			return nil, err
		}

		if mr.Active.CurrentPath, err = strconv.Unquote(mr.Raw.CurrentPath); err != nil {
			return nil, err
		}
	}
''','''	if raw := mr.Raw; raw != nil {
		for to, from := range map[*string]string{
			&mr.Active.Tree:        raw.Tree,
			&mr.Active.CurrentPath: raw.CurrentPath,
		} {
			if *to, err = strconv.Unquote(from); err != nil {
				return nil, err
			}
		}
	}
''')
r('internal/persist/marshaler.go','''	data, err := ejson.MarshalIndent(
		result,
		JSONMarshalNoPrefix, JSONMarshal2SpacesIndent,
	)

	if err != nil {
		return nil, err
	}
''','''	var buffer bytes.Buffer

	encoder := ejson.NewEncoder(&buffer)
	encoder.SetIndent(JSONMarshalNoPrefix, JSONMarshal2SpacesIndent)

	if err := encoder.Encode(result); err != nil {
		return nil, err
	}

	data := bytes.TrimSuffix(buffer.Bytes(), []byte{'\\n'})
''','bytes')
r('internal/persist/marshaler.go','bytes, err := request','content, err := request')
r('internal/persist/marshaler.go','ejson.Unmarshal(bytes, &mr)','ejson.Unmarshal(content, &mr)')
r('internal/filtering/poly.go','''	if !node.IsDirectory() {
		if node.Parent != nil && !f.Directory.IsMatch(node.Parent) {
			return false
		}

		return f.File.IsMatch(node)
	}

	return true''','''	if node.IsDirectory() {
		return true
	}

	return (node.Parent == nil || f.Directory.IsMatch(node.Parent)) && f.File.IsMatch(node)''')
r('internal/filtering/regex.go','''	return lo.Filter(children, func(entry fs.DirEntry, _ int) bool {
		return f.invert(f.rex.MatchString(entry.Name()))
	})''','''	matching := []fs.DirEntry{}

	for _, entry := range children {
		if loc := f.rex.FindStringIndex(entry.Name()); f.invert(loc != nil) {
			matching = append(matching, entry)
		}
	}

	return matching''')
r('session.go','''	s.duration = time.Since(s.started)
	s.sync.Bye(result)''','''	defer s.sync.Bye(result)

	s.duration = time.Since(s.started)''')
r(SAMP,'	"github.com/snivilised/agenor/internal/third/lo"\n','')
sys.exit(subprocess.run('go vet ./... && go test ./...',shell=True,cwd=W).returncode)
