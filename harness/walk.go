package main

import (
	"context"

	age "github.com/snivilised/agenor"
	"github.com/snivilised/agenor/core"
	"github.com/snivilised/agenor/enums"
	"github.com/snivilised/agenor/internal/zverif/sym"
	"github.com/snivilised/agenor/pref"
)

var entries = map[string]func(){}

func reg(name string, fn func()) struct{} {
	entries[name] = fn
	return struct{}{}
}

var subscriptions = []enums.Subscription{
	enums.SubscribeUniversal, enums.SubscribeFiles,
	enums.SubscribeDirectories, enums.SubscribeDirectoriesWithFiles,
}

func pickSub() enums.Subscription { return subscriptions[sym.Pick("sub", len(subscriptions))] }

// visit is one client callback.
type visit struct {
	e    *ent
	path string
	node *core.Node
}

// rig runs a traversal over a world and records what the client saw.
type rig struct {
	w      *world
	sub    enums.Subscription
	visits []visit
	onNode func(v visit) error
	handle func(s core.Servant) error
	result core.TraverseResult
	err    error
}

func (r *rig) client(s core.Servant) error {
	n := s.Node()
	v := visit{e: r.w.find(n.Path), path: n.Path, node: n}
	r.visits = append(r.visits, v)
	sym.Observe("visit", n.Path)
	if r.onNode != nil {
		return r.onNode(v)
	}
	return nil
}

func (r *rig) using() *pref.Using {
	return &pref.Using{
		Head:         pref.Head{Handler: r.client, GetForest: r.w.forest()},
		Subscription: r.sub,
		Tree:         r.w.root.path,
	}
}

func (r *rig) walk(opts ...pref.Option) {
	r.result, r.err = age.Walk().Configure().Extent(age.Prime(r.using(), opts...)).Navigate(context.Background())
	sym.Observe("err", errName(r.err))
}

func errName(err error) string {
	if err == nil {
		return "nil"
	}
	return "error"
}

// wanted tells whether the subscription calls for this entry.
func wanted(sub enums.Subscription, e *ent) bool {
	switch sub {
	case enums.SubscribeFiles:
		return !e.dir
	case enums.SubscribeDirectories, enums.SubscribeDirectoriesWithFiles:
		return e.dir
	}
	return true
}

// preorder lists the tree in the default order: directories before files,
// each group by name.
func (w *world) preorder(e *ent, out *[]*ent) {
	*out = append(*out, e)
	kids := w.children(e)
	for _, k := range kids {
		if k.dir {
			w.preorder(k, out)
		}
	}
	for _, k := range kids {
		if !k.dir {
			w.preorder(k, out)
		}
	}
}

func (w *world) ordered() []*ent {
	var out []*ent
	w.preorder(w.root, &out)
	return out
}

func count(r core.TraverseResult, m enums.Metric) int {
	return int(r.Metrics().Count(m))
}
