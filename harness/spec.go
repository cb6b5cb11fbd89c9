package main

import (
	"github.com/snivilised/agenor/enums"
)

// What a client asked for at a node.
const (
	actNone = iota
	actSkipDir
	actSkipAll
	actError
)

// spec is the reference traversal: the documented meaning of a traversal,
// written over the world directly and independently of the implementation.
type spec struct {
	w          *world
	sub        enums.Subscription
	limited    bool
	limit      uint // directories deeper than this are out of reach
	filesFirst bool
	cmp        func(a, b *ent) bool // less; nil: by creation order
	// match decides whether the callback is invoked; nil: always.
	match func(e *ent) bool
	// act is the client's response; nil: none.
	act func(e *ent) int
	// unreadable directories have no entries
	unreadable func(e *ent) bool
	// veto: entries the read hook hides
	hidden func(e *ent) bool
	// list gives the entries of a directory; nil: all of them
	list func(e *ent) []*ent
	// handler decides after the callback: skip into the directory, or stop
	ask func(e *ent) enums.SkipTraversal

	// halt ends the traversal at an entry that is wanted
	halt func() bool

	visited []*ent // callbacks, in order
	entered []*ent // nodes reached (descend notifications), in order
	left    []*ent // ascend notifications, in order
	stopped int
}

func (s *spec) within(e *ent) bool {
	return !s.limited || uint(e.depth) <= s.limit
}

func (s *spec) sorted(e *ent) []*ent {
	var dirs, files []*ent
	all := s.w.children(e)
	if s.list != nil {
		all = s.list(e)
	}
	for _, k := range all {
		if s.hidden != nil && s.hidden(k) {
			continue
		}
		if k.dir {
			dirs = s.insert(dirs, k)
		} else {
			files = s.insert(files, k)
		}
	}
	if s.sub == enums.SubscribeDirectories || s.sub == enums.SubscribeDirectoriesWithFiles {
		return dirs
	}
	if s.filesFirst {
		return append(files, dirs...)
	}
	return append(dirs, files...)
}

func (s *spec) insert(l []*ent, k *ent) []*ent {
	l = append(l, k)
	if s.cmp != nil {
		for i := len(l) - 1; i > 0 && s.cmp(l[i], l[i-1]); i-- {
			l[i], l[i-1] = l[i-1], l[i]
		}
	}
	return l
}

// run walks from e; the result is what e's parent is told.
func (s *spec) run(e *ent) int {
	if !s.within(e) {
		return actNone
	}
	s.entered = append(s.entered, e)
	r := s.node(e)
	s.left = append(s.left, e)
	return r
}

func (s *spec) node(e *ent) int {
	if wanted(s.sub, e) && (s.match == nil || s.match(e)) {
		s.visited = append(s.visited, e)
		if s.act != nil {
			if a := s.act(e); a != actNone {
				return a
			}
		}
	}
	if s.halt != nil && wanted(s.sub, e) && s.halt() {
		return actSkipAll
	}
	if s.ask != nil && (e.dir || s.sub == enums.SubscribeUniversal) {
		switch s.ask(e) {
		case enums.SkipAllTraversal:
			return actSkipAll
		case enums.SkipDirTraversal:
			return actNone
		}
	}
	if !e.dir || (s.unreadable != nil && s.unreadable(e)) {
		return actNone
	}
	for _, k := range s.sorted(e) {
		switch r := s.run(k); r {
		case actSkipDir:
			// from a directory: only that directory is abandoned;
			// from a file: the rest of this directory is.
			if !k.dir {
				return actNone
			}
		case actSkipAll, actError:
			return r
		}
	}
	return actNone
}

// start runs the whole traversal.
func (s *spec) start() {
	s.stopped = s.run(s.w.root)
}
