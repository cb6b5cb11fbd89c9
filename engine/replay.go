package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"time"
)

// replayMain runs a recorded counterexample against the compiled repository.
func replayMain(args []string) {
	fl := flag.NewFlagSet("replay", flag.ExitOnError)
	repo := fl.String("repo", "/repo", "repository")
	verif := fl.String("verif", "/verif", "verification directory")
	fl.Parse(args)
	die := func(err error) {
		fmt.Fprintln(os.Stderr, "ERROR:", err)
		os.Exit(3)
	}
	b, err := os.ReadFile(fl.Arg(0))
	if err != nil {
		die(err)
	}
	var rec struct {
		Property string
		Tag      string
		Items    []replayItem
	}
	if err := json.Unmarshal(b, &rec); err != nil {
		die(err)
	}
	tmp, err := os.MkdirTemp("", "verif-replay-")
	if err != nil {
		die(err)
	}
	rp := buildReplay(*repo, filepath.Join(*verif, "harness"), tmp)
	if rp.err != nil {
		os.RemoveAll(tmp)
		die(rp.err)
	}
	code := 0
	var pr *replayer
	for _, it := range rec.Items {
		tries := 1
		if isSched(it.Model) {
			tries = 40
		}
		if rec.Tag == "data-race" {
			tries = 0
		}
		for i := 0; i < tries; i++ {
			x := rp.run([]replayItem{it}, 40*time.Second)[0]
			if i == tries-1 || bad(x.Outcome) {
				fmt.Printf("%s: %s %s %s\n", it.Entry, x.Outcome, x.Tag, x.Msg)
				for _, o := range x.Obs {
					fmt.Println("  observed", o.K, o.V)
				}
				if bad(x.Outcome) {
					code = 1
				}
				break
			}
		}
		if tries != 1 && code == 0 {
			if x := perturbedRun(*repo, filepath.Join(*verif, "harness"), tmp, &pr, it, rec.Tag); x != nil {
				fmt.Printf("%s: %s %s %s (with pauses)\n", it.Entry, x.Outcome, x.Tag, x.Msg)
				code = 1
			}
		}
	}
	os.RemoveAll(tmp)
	os.Exit(code)
}
