package main

import (
	"errors"
	"io/fs"

	"github.com/snivilised/agenor/core"
	"github.com/snivilised/agenor/enums"
	"github.com/snivilised/agenor/internal/zverif/sym"
	"github.com/snivilised/agenor/pref"
)

// hookMode: how many listeners are chained and whether the hook is tapped.
func hookMode() (tap bool, listeners int) {
	return sym.Pick("tap", 2) == 1, sym.Pick("listeners", sym.Param("listeners", 2)+1)
}

var _ = reg("H_C14_read", H_C14_read)

// H_C14_read: the read directory hook.
func H_C14_read() {
	w := newWorld(sym.Param("kids", 2), sym.Param("depth", 2), sym.Param("nodes", 2))
	r := &rig{w: w, sub: pickSub()}
	tap, n := hookMode()
	var lastRes []fs.DirEntry
	var lastErr error
	step := 0
	off := 0
	if tap {
		off = 1
	}
	final := map[*ent][]fs.DirEntry{}
	failed := map[*ent]error{}
	alter := func(who string, e *ent, in []fs.DirEntry, err error) ([]fs.DirEntry, error) {
		switch w.choose(who+e.key, 4) {
		case 1:
			return nil, errClient
		case 2: // leaves out the first entry
			if len(in) > 0 {
				in = in[1:]
			}
			return in, nil
		case 3:
			return nil, err
		}
		return in, err
	}
	var opts []pref.Option
	dirs := 0
	if tap {
		opts = append(opts, pref.WithHookReadDirectory(func(sys fs.ReadDirFS, name string) ([]fs.DirEntry, error) {
			e := w.find(name)
			sym.Assert(e != nil && e.dir, "tap-directory")
			sym.Assert(sys != nil, "tap-fs")
			sym.Assert(step == 0, "tap-first")
			step = 1
			in, err := sys.ReadDir(name)
			lastRes, lastErr = alter("t:", e, in, err)
			if n == 0 {
				final[e], failed[e], step = lastRes, lastErr, 0
				dirs++
			}
			return lastRes, lastErr
		}))
	}
	for i := 0; i < n; i++ {
		opts = append(opts, func(o *pref.Options) error {
			o.Hooks.ReadDirectory.Chain(func(res []fs.DirEntry, err error, sys fs.ReadDirFS, name string) ([]fs.DirEntry, error) {
				e := w.find(name)
				sym.Assert(e != nil && e.dir && sys != nil, "chain-directory")
				if i == 0 && !tap {
					sym.Assert(len(res) == len(w.children(e)) && err == nil, "chain-default")
				} else {
					sym.Assert(step == i+off, "chain-order")
					sym.Assert(len(res) == len(lastRes), "chain-result")
					for j := range res {
						sym.Assert(res[j] == lastRes[j], "chain-result-entry")
					}
					sym.Assert(err == lastErr, "chain-error")
				}
				step++
				lastRes, lastErr = alter("c"+letters[i]+":", e, res, err)
				if i == n-1 {
					final[e], failed[e], step = lastRes, lastErr, 0
					dirs++
				}
				return lastRes, lastErr
			})
			return nil
		})
	}
	opts = append(opts, pref.WithSkipHandler(pref.Asker(func(nd *core.Node, c core.DirectoryContents, err error) (enums.SkipTraversal, error) {
		e := w.find(nd.Path)
		if e.dir && (tap || n > 0) {
			sym.Assert(err == failed[e], "ask-error")
			sym.Assert(len(c.All()) == len(final[e]), "ask-contents")
		}
		return enums.SkipNoneTraversal, nil
	})))
	r.walk(opts...)
	sym.Assert(r.err == nil, "no-error")
	s := &spec{w: w, sub: r.sub}
	if tap || n > 0 {
		s.unreadable = func(e *ent) bool { return failed[e] != nil }
		s.list = func(e *ent) []*ent {
			var out []*ent
			for _, k := range final[e] {
				out = append(out, k.(*ent))
			}
			return out
		}
	}
	s.start()
	sameEnts(r.visits, s.visited, "hooked")
	entered := 0
	for _, e := range s.entered {
		if e.dir {
			entered++
		}
	}
	if tap || n > 0 {
		sym.Assert(dirs == entered, "once-per-directory")
	}
	sym.Reach("end")
}

var _ = reg("H_C14_sort", H_C14_sort)

// H_C14_sort: the sort hook.
func H_C14_sort() {
	w := newWorld(sym.Param("kids", 3), 0, 3)
	r := &rig{w: w, sub: enums.SubscribeUniversal}
	tap, n := hookMode()
	calls := 0
	var opts []pref.Option
	// what each party does to the entries
	act := func(who string, in []fs.DirEntry) {
		if len(in) < 2 {
			return
		}
		switch w.choose(who, 3) {
		case 1:
			in[0], in[1] = in[1], in[0]
		case 2:
			last := len(in) - 1
			in[0], in[last] = in[last], in[0]
		}
	}
	if tap {
		opts = append(opts, pref.WithHookSort(func(in []fs.DirEntry, _ ...any) {
			if len(in) == 0 {
				return
			}
			sym.Assert(calls%(n+1) == 0, "tap-first")
			calls++
			act("t", in)
		}))
	}
	first := 0
	if tap {
		first = 1
	}
	for i := 0; i < n; i++ {
		opts = append(opts, func(o *pref.Options) error {
			o.Hooks.Sort.Chain(func(in []fs.DirEntry, _ ...any) {
				if len(in) == 0 {
					return
				}
				sym.Assert(calls%(n+first) == i+first, "chain-order")
				calls++
				act("c"+letters[i], in)
			})
			return nil
		})
	}
	w.reverse = sym.Pick("reverse", 2) == 1
	r.walk(opts...)
	sym.Assert(r.err == nil, "no-error")
	var in []fs.DirEntry
	for _, k := range w.listing(w.root) {
		in = append(in, k)
	}
	if tap {
		act("t", in)
	} else {
		// the default: by name, which here is the order of creation
		for i, k := range w.root.kids {
			in[i] = k
		}
	}
	for i := 0; i < n; i++ {
		act("c"+letters[i], in)
	}
	sym.Assert(len(r.visits) == len(in)+1, "sorted-count")
	for i, e := range in {
		sym.Assert(r.visits[i+1].e == e, "sorted")
	}
	sym.Reach("end")
}

var _ = reg("H_C14_status", H_C14_status)

// H_C14_status: the query status hook decides what the tree is.
func H_C14_status() {
	w := newWorld(1, 0, 1)
	file := &ent{w: w, name: treeRoot, path: treeRoot, key: "x"}
	r := &rig{w: w, sub: subscriptions[sym.Pick("sub", 3)]}
	tap, n := hookMode()
	var info fs.FileInfo = w.root
	var err error
	step := 0
	alter := func(who string, in fs.FileInfo, e error) (fs.FileInfo, error) {
		switch w.choose(who, 4) {
		case 1:
			return nil, errClient
		case 2:
			return file, nil
		case 3:
			return w.root, nil
		}
		return in, e
	}
	var opts []pref.Option
	if tap {
		opts = append(opts, pref.WithHookQueryStatus(func(sys fs.StatFS, name string) (fs.FileInfo, error) {
			sym.Assert(step == 0 && sys != nil && name == w.root.path, "tap")
			step++
			info, err = alter("t", info, err)
			return info, err
		}))
	} else {
		step++
	}
	for i := 0; i < n; i++ {
		opts = append(opts, func(o *pref.Options) error {
			o.Hooks.QueryStatus.Chain(func(res fs.FileInfo, e error, sys fs.StatFS, name string) (fs.FileInfo, error) {
				sym.Assert(step == i+1 && sys != nil && name == w.root.path, "chain")
				sym.Assert(res == info && e == err, "chain-result")
				step++
				info, err = alter("c"+letters[i], res, e)
				return info, err
			})
			return nil
		})
	}
	r.walk(opts...)
	sym.Assert(step == n+1, "all-called")
	if err != nil {
		sym.Assert(errors.Is(r.err, errClient), "status-error")
		sym.Assert(len(r.visits) == 0, "nothing-visited")
		return
	}
	sym.Assert(r.err == nil, "no-error")
	dir := info.IsDir()
	rootVisited := false
	for _, v := range r.visits {
		if v.path == w.root.path {
			rootVisited = true
			sym.Assert(v.node.IsDirectory() == dir, "kind")
			sym.Assert(v.node.Info == info, "info")
		}
	}
	sym.Assert(rootVisited == (r.sub == enums.SubscribeUniversal || dir == (r.sub == enums.SubscribeDirectories)), "root-visited")
	sym.Reach("end")
}

var _ = reg("H_C14_subpath", H_C14_subpath)

// H_C14_subpath: the file and directory sub path hooks.
func H_C14_subpath() {
	w := newWorld(2, 1, 2)
	r := &rig{w: w, sub: subscriptions[sym.Pick("sub", 3)]}
	which := sym.Pick("which", 2) // 0: file, 1: directory
	tap, n := hookMode()
	sep := sym.Pick("sep", 2) == 1
	keep := sym.Pick("keep", 2) == 1
	tree := w.root.path
	tail := ""
	if sep {
		tail = "/"
	}
	info := func(i *core.SubPathInfo) {
		sym.Assert(i.Tree == tree, "info-tree")
		sym.Assert(i.KeepTrailingSep == keep, "info-keep")
		e := w.find(i.Node.Path)
		sym.Assert(e != nil && e.dir == (which == 1), "info-node")
	}
	opts := []pref.Option{pref.WithSubPathBehaviour(&pref.SubPathBehaviour{KeepTrailingSep: keep})}
	if tap {
		h := func(i *core.SubPathInfo) string {
			info(i)
			return "T" + i.Node.Path + tail
		}
		if which == 0 {
			opts = append(opts, pref.WithHookFileSubPath(h))
		} else {
			opts = append(opts, pref.WithHookDirectorySubPath(h))
		}
	}
	for i := 0; i < n; i++ {
		opts = append(opts, func(o *pref.Options) error {
			h := func(res string, in *core.SubPathInfo) string {
				info(in)
				return letters[i] + res
			}
			if which == 0 {
				o.Hooks.FileSubPath.Chain(h)
			} else {
				o.Hooks.DirectorySubPath.Chain(h)
			}
			return nil
		})
	}
	r.onNode = func(v visit) error {
		sym.Assert(v.e != nil, "visit-exists")
		want := ""
		if v.e.depth > 0 {
			want = below(tree, dirOf(v.path))
		}
		if v.e.dir == (which == 1) {
			if tap {
				want = "T" + v.path + tail
			}
			for i := 0; i < n; i++ {
				want = letters[i] + want
			}
		}
		if !keep && want != "" && want[len(want)-1] == '/' {
			want = want[:len(want)-1]
		}
		sym.Assert(v.node.Extension.SubPath == want, "sub-path")
		return nil
	}
	r.walk(opts...)
	sym.Assert(r.err == nil, "no-error")
	sym.Reach("end")
}
