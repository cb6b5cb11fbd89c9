package main

import (
	"context"
	"errors"
	"sync"
	"time"

	age "github.com/snivilised/agenor"
	"github.com/snivilised/agenor/core"
	"github.com/snivilised/agenor/enums"
	"github.com/snivilised/agenor/internal/zverif/sym"
	"github.com/snivilised/agenor/life"
	"github.com/snivilised/agenor/pref"
)

var _ = reg("H_C29", H_C29)

// H_C29: a concurrent session whose context is cancelled comes to an end.
func H_C29() {
	const (
		never = iota
		before
		atBegin
		inHandler
		meanwhile
	)
	w := newWorld(sym.Param("kids", 2), sym.Param("depth", 1), sym.Param("nodes", 2))
	sub := enums.SubscribeUniversal
	workers := 1 + sym.Pick("workers", sym.Param("workers", 2))
	output := sym.Pick("output", 2) == 1
	when := sym.Pick("when", 5)
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	var (
		wg      sync.WaitGroup
		mu      sync.Mutex
		calls   = map[string]int{}
		outputs = map[string]int{}
		total   int
		strange int
		running int
		most    int
		closed  bool
		ends    int
	)
	// obey: the client's handler returns the error of the context
	obey := when != never && sym.Pick("obey", 2) == 1
	nth := 0
	if when == inHandler {
		nth = 1 + sym.Pick("nth", 3)
	}
	opts := []pref.Option{pref.WithNoW(uint(workers)), pref.WithOnEnd(func(core.TraverseResult) { ends++ })}
	if when == atBegin {
		opts = append(opts, pref.WithOnBegin(func(*life.BeginState) { cancel() }))
	}
	if output {
		opts = append(opts, pref.WithOutput(&pref.OutputOptions{
			CheckCloseInterval: 10 * time.Millisecond,
			TimeoutOnSend:      time.Minute,
			On: func(stream core.OutputStream) {
				wg.Add(1)
				go func() {
					defer wg.Done()
					for {
						select {
						case o, ok := <-stream:
							mu.Lock()
							if !ok {
								closed = true
								mu.Unlock()
								return
							}
							outputs[o.Payload.Servant.Node().Path]++
							mu.Unlock()
						case <-ctx.Done():
							return
						}
					}
				}()
			},
		}))
	}
	if when == before {
		cancel()
	}
	var canceller, busy sync.WaitGroup
	if when == meanwhile {
		canceller.Add(1)
		go func() {
			defer canceller.Done()
			cancel()
		}()
	}
	_, err := age.Run(&wg).Configure().Extent(age.Prime(&pref.Using{
		Head: pref.Head{
			GetForest: w.forest(),
			Handler: func(s core.Servant) error {
				path := s.Node().Path
				mu.Lock()
				busy.Add(1)
				running++
				most = max(most, running)
				calls[path]++
				total++
				if w.find(path) == nil {
					strange++
				}
				now := total == nth
				mu.Unlock()
				if now {
					cancel()
				}
				sym.Pause()
				mu.Lock()
				running--
				mu.Unlock()
				busy.Done()
				if obey {
					return ctx.Err()
				}
				return nil
			},
		},
		Subscription: sub,
		Tree:         w.root.path,
	}, opts...)).Navigate(ctx)
	// a worker of the pool may be left asleep by a cancellation: only the return
	// of Navigate is waited for then
	canceller.Wait()
	if when == never {
		wg.Wait()
		mu.Lock()
		sym.Assert(running == 0, "finished")
		mu.Unlock()
	}
	busy.Wait()
	mu.Lock()
	defer mu.Unlock()
	sym.Assert(err == nil || errors.Is(err, context.Canceled), "error")
	sym.Assert(err == nil || when != never, "cancelled")
	sym.Assert(strange == 0, "known-nodes")
	sym.Assert(most <= workers, "workers")
	for _, n := range calls {
		sym.Assert(n == 1, "visited-once")
	}
	sym.Assert(ends == 1, "end")
	if when == never {
		for _, e := range w.ordered() {
			sym.Assert(calls[e.path] == 1, "visited")
		}
	}
	for p, n := range outputs {
		sym.Assert(n == 1 && calls[p] == 1, "output-once")
	}
	if output && when == never {
		sym.Assert(closed, "output-closed")
	}
	sym.Reach("end")
}
