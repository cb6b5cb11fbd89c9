package main

import (
	"context"
	"io/fs"
	"sync"
	"time"

	age "github.com/snivilised/agenor"
	"github.com/snivilised/agenor/core"
	"github.com/snivilised/agenor/enums"
	"github.com/snivilised/agenor/internal/zverif/sym"
	"github.com/snivilised/agenor/pref"
)

// look reads everything a client may know of a node; in the executor, that
// shows accesses which are not synchronised with the client's.
func look(s core.Servant) (n int) {
	for node := s.Node(); node != nil; node = node.Parent {
		x := node.Extension
		n += len(node.Path) + len(x.Name) + len(x.Parent) + len(x.SubPath) + x.Depth + int(x.Scope)
		if x.IsLeaf || node.IsDirectory() || node.Error != nil || x.Custom != nil {
			n++
		}
		for _, c := range node.Children {
			n += len(c.Name())
		}
		if node.Entry != nil {
			n += len(node.Entry.Name())
		}
		if node.Info != nil {
			n += len(node.Info.Name())
		}
	}
	return n
}

var _ = reg("H_C20", H_C20)

// H_C20: a concurrent session does what the sequential one would.
func H_C20() {
	w := newWorld(sym.Param("kids", 2), sym.Param("depth", 1), sym.Param("nodes", 2))
	few := sym.Param("few", 0) == 1
	sub := enums.SubscribeUniversal
	if !few {
		sub = pickSub()
	}
	workers := 1 + sym.Pick("workers", sym.Param("workers", 2))
	output := sym.Pick("output", 2) == 1
	var (
		wg      sync.WaitGroup
		mu      sync.Mutex
		calls   = map[string]int{}
		answers = map[string]error{}
		strange int
		running int
		most    int
		outputs = map[string]int{}
		wrong   int
		closed  bool
		room    = -1
	)
	size := uint(0)
	if output && !few {
		size = uint(sym.Pick("size", 2))
	}
	opts := []pref.Option{pref.WithNoW(uint(workers))}
	if output {
		opts = append(opts, pref.WithOutput(&pref.OutputOptions{
			Size:               size,
			CheckCloseInterval: 10 * time.Millisecond,
			TimeoutOnSend:      time.Minute,
			On: func(stream core.OutputStream) {
				room = cap(stream)
				wg.Add(1)
				go func() {
					defer wg.Done()
					for o := range stream {
						mu.Lock()
						path := o.Payload.Servant.Node().Path
						outputs[path]++
						if o.Error != answers[path] || o.Payload.Error != answers[path] {
							wrong++
						}
						mu.Unlock()
					}
					mu.Lock()
					closed = true
					mu.Unlock()
				}()
			},
		}))
	}
	result, err := age.Run(&wg).Configure().Extent(age.Prime(&pref.Using{
		Head: pref.Head{
			GetForest: w.forest(),
			Handler: func(s core.Servant) error {
				path := s.Node().Path
				mu.Lock()
				running++
				most = max(most, running)
				calls[path]++
				e := w.find(path)
				if e == nil {
					strange++
				} else if !few && w.choose("err:"+e.key, 2) == 1 {
					answers[path] = errClient
				}
				answer := answers[path]
				mu.Unlock()
				look(s)
				sym.Pause()
				mu.Lock()
				running--
				mu.Unlock()
				return answer
			},
		},
		Subscription: sub,
		Tree:         w.root.path,
	}, opts...)).Navigate(context.Background())
	wg.Wait()
	mu.Lock()
	defer mu.Unlock()

	sym.Assert(err == nil, "no-error")
	sym.Assert(strange == 0, "known-nodes")
	sym.Assert(running == 0, "finished")
	sym.Assert(most <= workers, "workers")
	files, dirs, seen := 0, 0, 0
	for _, e := range w.ordered() {
		if !wanted(sub, e) || (!e.dir && w.root == e && sub == enums.SubscribeDirectories) {
			continue
		}
		sym.Assert(calls[e.path] == 1, "visited-once")
		seen++
		if e.dir {
			dirs++
		} else {
			files++
		}
		if output {
			sym.Assert(outputs[e.path] == 1, "output-once")
		}
	}
	sym.Assert(len(calls) == seen, "nothing-else")
	sym.Assert(wrong == 0, "output-error")
	if output {
		sym.Assert(len(outputs) == seen, "outputs")
		sym.Assert(closed, "output-closed")
		if size == 0 {
			sym.Assert(room == workers, "output-room-default")
		} else {
			sym.Assert(room == int(size), "output-room")
		}
	}
	sym.Assert(result != nil, "result")
	sym.Assert(count(result, enums.MetricNoFilesInvoked) == files, "files-invoked")
	sym.Assert(count(result, enums.MetricNoDirectoriesInvoked) == dirs, "directories-invoked")
	sym.Reach("end")
}

// session is what a Walk or Run session did, apart from the order.
type session struct {
	calls  map[string]int
	depths map[string]int
	err    error
	result core.TraverseResult
}

var _ = reg("H_C20_same", H_C20_same)

// H_C20_same: filters, hibernation, sampling, child filters, depth limits, panics of the file
// system and resumption have the same effect in both kinds of session.
func H_C20_same() {
	w := newWorld(sym.Param("kids", 2), sym.Param("depth", 2), sym.Param("nodes", 2))
	sub := pickSub()
	feature := sym.Pick("feature", 8)
	workers := uint(1 + sym.Pick("workers", 2))
	limit := uint(1 + sym.Pick("limit", 2))
	strategy := enums.ResumeStrategyFastward
	if feature == 5 && sym.Pick("strategy", 2) == 1 {
		strategy = enums.ResumeStrategySpawn
	}
	relicPath := ""
	if feature == 5 {
		b := &breakage{site: inRead, payload: errClient}
		r := &rig{w: w, sub: sub}
		r.walk(b.arm(w, []pref.Option{pref.WithAdminPath(adminPath)})...)
		sym.Assume(b.at != nil)
		dest := savedAt(r.err)
		sym.Assert(dest != "", "saved")
		relicPath = relic(w, dest, "relic.json")
	}
	once := func(concurrent bool) *session {
		s := &session{calls: map[string]int{}, depths: map[string]int{}}
		var wg sync.WaitGroup
		var mu sync.Mutex
		head := pref.Head{
			GetForest: w.forest(),
			Handler: func(sv core.Servant) error {
				n := sv.Node()
				look(sv)
				mu.Lock()
				defer mu.Unlock()
				s.calls[n.Path]++
				s.depths[n.Path] = n.Extension.Depth
				return nil
			},
		}
		var opts []pref.Option
		if concurrent {
			opts = append(opts, pref.WithNoW(workers))
		}
		switch feature {
		case 1:
			opts = append(opts, pref.WithFilter(&pref.FilterOptions{Custom: newGate(&rig{w: w}, "f:")}))
		case 2:
			opts = append(opts, pref.WithDepth(limit))
		case 3:
			opts = append(opts, pref.WithHibernationFilterWake(&core.FilterDef{
				Type: enums.FilterTypeGlob, Description: "wake", Pattern: "*" + letters[limit-1] + "*", Scope: enums.ScopeAll,
			}))
		case 4:
			opts = append(opts, pref.WithAdminPath(adminPath),
				pref.WithHookReadDirectory(func(f fs.ReadDirFS, d string) ([]fs.DirEntry, error) {
					if w.decide("boom:" + w.find(d).key) {
						panic(errClient)
					}
					return f.ReadDir(d)
				}))
		}
		switch feature {
		case 6:
			opts = append(opts, pref.WithSamplingOptions(&pref.SamplingOptions{
				Type: enums.SampleTypeSlice, NoOf: pref.EntryQuantities{Files: 1, Directories: limit},
			}))
		case 7:
			opts = append(opts, pref.WithFilter(&pref.FilterOptions{Child: &core.ChildFilterDef{
				Type: enums.FilterTypeGlob, Pattern: "*" + letters[limit-1] + "*",
			}}))
		}
		var nav age.Navigator
		switch {
		case feature == 5 && concurrent:
			nav = age.Run(&wg).Configure().Extent(age.Resume(&pref.Relic{Head: head, From: relicPath, Strategy: strategy}, opts...))
		case feature == 5:
			nav = age.Walk().Configure().Extent(age.Resume(&pref.Relic{Head: head, From: relicPath, Strategy: strategy}, opts...))
		case concurrent:
			nav = age.Run(&wg).Configure().Extent(age.Prime(&pref.Using{Head: head, Subscription: sub, Tree: w.root.path}, opts...))
		default:
			nav = age.Walk().Configure().Extent(age.Prime(&pref.Using{Head: head, Subscription: sub, Tree: w.root.path}, opts...))
		}
		s.result, s.err = nav.Navigate(context.Background())
		wg.Wait()
		mu.Lock()
		defer mu.Unlock()
		return s
	}
	a := once(false)
	b := once(true)
	sym.Assert((a.err == nil) == (b.err == nil), "same-error")
	sym.Assert(len(a.calls) == len(b.calls), "same-number")
	for path, n := range a.calls {
		sym.Assert(b.calls[path] == n, "same-calls")
		sym.Assert(b.depths[path] == a.depths[path], "same-depth")
	}
	for m := enums.MetricNoFilesInvoked; m <= enums.MetricNoChildFilesFilteredOut; m++ {
		sym.Assert(count(a.result, m) == count(b.result, m), "same-metrics")
	}
	sym.Reach("end")
}
