package main

import (
	"context"
	"sync"
	"time"

	age "github.com/snivilised/agenor"
	"github.com/snivilised/agenor/core"
	"github.com/snivilised/agenor/enums"
	"github.com/snivilised/agenor/internal/zverif/sym"
	"github.com/snivilised/agenor/life"
	"github.com/snivilised/agenor/pref"
)

var _ = reg("H_C30", H_C30)

// H_C30: what a session tells about its time. The clock is symbolic: any
// amount may pass between two readings of it.
func H_C30() {
	const nap = 1 << 20 * time.Nanosecond
	w := newWorld(sym.Param("kids", 2), sym.Param("depth", 2), sym.Param("nodes", 2))
	sub := subscriptions[sym.Pick("sub", 3)]
	kind := sym.Pick("kind", 6) // plain, client error, panic, rejected, spawned, fastward
	concurrent := kind != 2 && kind < 4 && sym.Pick("concurrent", 2) == 1
	slow := sym.Pick("slow", 2) == 1
	from := ""
	if kind > 3 {
		b := &breakage{site: inClient, payload: errClient}
		r := &rig{w: w, sub: sub}
		r.onNode = func(v visit) error {
			b.hit(inClient, v.e)
			return nil
		}
		r.walk(b.arm(w, []pref.Option{pref.WithAdminPath(adminPath)})...)
		dest := savedAt(r.err)
		if dest == "" {
			return
		}
		from = relic(w, dest, "session.json")
	}
	bad := -1
	if kind == 1 || kind == 2 {
		bad = sym.Pick("bad", 3)
	}
	var (
		mu      sync.Mutex
		calls   int
		last    time.Time
		session core.Session
		first   = func(now time.Time) {
			if last.IsZero() {
				last = now
			}
			sym.Assert(!now.Before(last), "clock")
			last = now
		}
		began, slept time.Time
	)
	// asked compares what the session tells with the clock
	asked := func(s core.Session, start time.Time) {
		a := s.StartedAt()
		sym.Assert(!a.Before(start), "started-after-start")
		if !began.IsZero() {
			sym.Assert(!a.After(began), "started-before-begin")
		}
		before := time.Now()
		e := s.Elapsed()
		after := time.Now()
		sym.Assert(s.StartedAt().Equal(a), "started-same")
		sym.Assert(e >= 0 && e <= after.Sub(a), "elapsed-at-most")
		sym.Assert(e >= last.Sub(a) || last.IsZero(), "elapsed-at-least")
		if !slept.IsZero() {
			sym.Assert(e >= slept.Add(nap).Sub(a), "elapsed-nap")
		}
		_ = before
	}
	start := time.Now()
	handler := func(core.Servant) error {
		mu.Lock()
		defer mu.Unlock()
		n := calls
		calls++
		first(time.Now())
		if slow && n == 0 {
			slept = time.Now()
			time.Sleep(nap)
			last = time.Now()
		}
		if n == bad {
			if kind == 2 {
				panic(errClient)
			}
			return errClient
		}
		return nil
	}
	ended := 0
	opts := []pref.Option{
		pref.WithAdminPath(adminPath),
		pref.WithOnBegin(func(*life.BeginState) {
			began = time.Now()
		}),
		pref.WithOnEnd(func(result core.TraverseResult) {
			mu.Lock()
			defer mu.Unlock()
			ended++
			session = result.Session()
			asked(session, start)
		}),
	}
	if concurrent {
		opts = append(opts, pref.WithNoW(1))
	}
	head := pref.Head{Handler: handler, GetForest: w.forest()}
	using := &pref.Using{Head: head, Subscription: sub, Tree: w.root.path}
	if kind == 3 {
		using.Tree = ""
	}
	var (
		wg     sync.WaitGroup
		result core.TraverseResult
		err    error
		x      = age.Walk().Configure()
	)
	if concurrent {
		x = age.Run(&wg).Configure()
	}
	if kind < 4 {
		result, err = x.Extent(age.Prime(using, opts...)).Navigate(context.Background())
	} else {
		strategy := enums.ResumeStrategySpawn
		if kind == 5 {
			strategy = enums.ResumeStrategyFastward
		}
		result, err = x.Extent(age.Resume(&pref.Relic{Head: head, From: from, Strategy: strategy}, opts...)).Navigate(context.Background())
	}
	wg.Wait()
	mu.Lock()
	defer mu.Unlock()
	sym.Assert(result != nil && result.Session() != nil, "session")
	s := result.Session()
	asked(s, start)
	sym.Assert(session == nil || session.StartedAt().Equal(s.StartedAt()), "one-start")
	if err == nil {
		sym.Assert(ended == 1 && s.IsComplete(), "complete")
	}
	sym.Assert(kind != 3 || err != nil, "rejected")
	if kind > 3 {
		sym.Reach("resumed")
		if err == nil {
			sym.Reach("resumed-well")
		}
	}
	sym.Reach("end")
}
