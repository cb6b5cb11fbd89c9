// Package main holds the property harnesses. Each H_ function states one
// property over symbolic inputs; the checker executes it symbolically together
// with the repository's own code. Compiled natively it replays assignments.
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"runtime/debug"
	"time"

	"github.com/snivilised/agenor/internal/zverif/sym"
	"github.com/snivilised/li18ngo"
)

type replayItem struct {
	Entry  string            `json:"entry"`
	Model  map[string]uint64 `json:"model"`
	Params map[string]int64  `json:"params"`
	Seed   int64             `json:"seed,omitempty"`
}

type replayResult struct {
	Outcome string    `json:"outcome"` // done, assert, panic, unfit, hang
	Tag     string    `json:"tag"`
	Msg     string    `json:"msg"`
	Obs     []sym.Obs `json:"obs"`

	Model map[string]uint64 `json:"model,omitempty"`
}

func replayOne(it replayItem) (res replayResult) {
	fn := entries[it.Entry]
	if fn == nil {
		return replayResult{Outcome: "unknown entry"}
	}
	sym.Reset(it.Model, it.Params)
	sym.Fill(it.Seed)
	defer func() {
		sym.Tidy()
		if it.Seed != 0 {
			res.Model = sym.Assigned()
		}
	}()
	ch := make(chan replayResult, 1)
	go func() {
		var r replayResult
		defer func() {
			if p := recover(); p != nil {
				switch x := p.(type) {
				case sym.Failure:
					r.Outcome, r.Tag, r.Msg = "assert", x.Tag, x.Where
				case sym.Unfit:
					r.Outcome, r.Msg = "unfit", x.Where
				default:
					r.Outcome = "panic"
					r.Msg = fmt.Sprint(p) + "\n" + string(debug.Stack())
				}
			}
			if f := sym.Failed(); f != nil && r.Outcome != "assert" {
				r.Outcome, r.Tag, r.Msg = "assert", f.Tag, f.Where
			}
			r.Obs = sym.Trace()
			ch <- r
		}()
		fn()
		r.Outcome = "done"
	}()
	select {
	case res = <-ch:
	case <-time.After(20 * time.Second):
		res.Outcome = "hang"
		res.Obs = sym.Trace()
	}
	return res
}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: replay FILE")
		os.Exit(2)
	}
	b, err := os.ReadFile(os.Args[1])
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	var items []replayItem
	if err := json.Unmarshal(b, &items); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	if err := li18ngo.Use(); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	enc := json.NewEncoder(os.Stdout)
	for _, it := range items {
		enc.Encode(replayOne(it))
	}
}
