package main

import (
	"path/filepath"
	"strings"

	"github.com/snivilised/agenor/core"
	"github.com/snivilised/agenor/enums"
	"github.com/snivilised/agenor/internal/zverif/sym"
	"github.com/snivilised/agenor/pref"
)

// trees are roots with one and several segments, with ascii names and not.
var trees = []string{"root", "/r", "/abs/root", "a/b/root", "h\u00e9/\u4e16", ".", "/", "root/", "./root", "top//root", "..", "/top/../r"}

func (w *world) setTree(path string) {
	w.root.path, w.root.name = path, base(path)
	w.rel = path[0] != '/'
}

func dirOf(p string) string { return p[:len(p)-len(base(p))] }

// below tells what comes after the tree in the path of an entry, which is clean
// where that of the tree need not be.
func below(tree, path string) string {
	if filepath.Clean(tree) == "." {
		return path
	}
	if !strings.HasPrefix(path, tree) {
		tree = filepath.Clean(tree)
	}
	return path[len(tree):]
}

// subPath is where the entry's directory is below the tree.
func subPath(w *world, e *ent, keep bool) string {
	if e.depth == 0 {
		return ""
	}
	p := below(w.root.path, dirOf(e.path))
	if !keep && p != "" && p[len(p)-1] == '/' {
		p = p[:len(p)-1]
	}
	return p
}

var _ = reg("H_C13", H_C13)

// H_C13: what the client is told about each node.
func H_C13() {
	w := newWorld(sym.Param("kids", 2), sym.Param("depth", 3), sym.Param("nodes", 3))
	w.infoFaults = true
	few := sym.Param("few", 0) != 0
	if few {
		w.setTree(trees[0])
	} else {
		w.setTree(trees[sym.Pick("tree", sym.Param("more", 5))])
	}
	names := [][]string{{"a", "b", "c"}, {"\u00e9", "zz.txt", ".h"}}[sym.Pick("names", 2)]
	w.nameFn = func(_ *world, _ *ent, i int) string { return names[i%3] }
	sub := pickSub()
	r := &rig{w: w, sub: sub}
	keep := sym.Pick("keep", 2) == 1
	custom := !few && sym.Pick("hook", 2) == 1
	nodes := map[*ent]*core.Node{}
	check := func(n *core.Node) {
		e := w.find(n.Path)
		sym.Assert(e != nil, "path")
		if m, ok := nodes[e]; ok {
			sym.Assert(m == n, "one-node")
		}
		nodes[e] = n
		x := n.Extension
		sym.Assert(n.IsDirectory() == e.dir, "kind")
		if e.parent == nil {
			sym.Assert(n.Parent == nil && n.Entry == nil, "root-parent")
			sym.Assert(n.Info == e, "root-info")
		} else {
			sym.Assert(n.Parent != nil && n.Parent == nodes[e.parent], "parent")
			sym.Assert(n.Entry == e, "entry")
			if e.infoFault() {
				sym.Assert(n.Error == w.fault("info"), "node-error")
			} else {
				sym.Assert(n.Error == nil && n.Info == e, "node-info")
			}
		}
		_ = x
	}
	r.onNode = func(v visit) error {
		check(v.node)
		e, x := v.e, v.node.Extension
		sym.Assert(x.Name == base(e.path), "name")
		sym.Assert(x.Parent == dirOf(e.path), "parent-path")
		sym.Assert(x.Depth == e.depth, "depth")
		sym.Assert(x.Scope == w.scopeOf(e), "scope")
		if e.dir {
			sym.Assert(x.IsLeaf == (x.Scope&enums.ScopeLeaf != 0), "leaf")
		}
		want := subPath(w, e, keep)
		if custom && e.depth > 0 && !e.dir {
			want = below(w.root.path, e.path)
		}
		sym.Assert(x.SubPath == want, "sub-path")
		return nil
	}
	opts := []pref.Option{
		pref.WithSubPathBehaviour(&pref.SubPathBehaviour{KeepTrailingSep: keep}),
		pref.WithOnDescend(func(n *core.Node) { check(n) }),
		pref.WithOnAscend(func(n *core.Node) {
			check(n)
		})}
	if custom {
		opts = append(opts, pref.WithHookFileSubPath(pref.RootItemSubPathHook))
	}
	r.walk(opts...)
	// nodes keep telling the truth after their callback
	for _, v := range r.visits {
		check(v.node)
		sym.Assert(v.node.Path == v.path && v.node.Extension.Name == base(v.path) && v.node.Extension.Depth == v.e.depth, "kept")
	}
	sym.Assert(r.err == nil, "no-error")
	sym.Reach("end")
}
