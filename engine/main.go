package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"time"
)

func parseParams(s string) map[string]int64 {
	m := map[string]int64{}
	for _, kv := range strings.Split(s, ",") {
		if kv == "" {
			continue
		}
		k, v, _ := strings.Cut(kv, "=")
		n, err := strconv.ParseInt(v, 10, 64)
		if err != nil {
			fmt.Fprintln(os.Stderr, "bad parameter", kv)
			os.Exit(2)
		}
		m[k] = n
	}
	return m
}

func main() {
	if len(os.Args) > 1 && os.Args[1] == "check" {
		checkMain(os.Args[2:])
		return
	}
	if len(os.Args) > 1 && os.Args[1] == "replay" {
		replayMain(os.Args[2:])
		return
	}
	entry := flag.String("entry", "", "harness entry")
	params := flag.String("params", "", "bounds k=v,...")
	workers := flag.Int("workers", runtime.NumCPU(), "workers")
	budget := flag.Duration("budget", 60*time.Second, "time budget")
	profile := flag.Bool("profile", false, "profile fork sites")
	repo := flag.String("repo", "/repo", "repository")
	harness := flag.String("harness", "/verif/harness", "harness")
	cpu := flag.String("cpu", "", "cpu profile")
	flag.Parse()
	t0 := time.Now()
	ld, err := Load(*repo, *harness)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	fn := ld.main.Func(*entry)
	if fn == nil {
		fmt.Fprintln(os.Stderr, "no entry", *entry)
		os.Exit(2)
	}
	fmt.Println("loaded", time.Since(t0))
	if *cpu != "" {
		f, _ := os.Create(*cpu)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	ex := NewExplorer(ld, *entry, fn)
	ex.params = parseParams(*params)
	if err := ex.Run(*workers, *budget, *profile); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	ex.print(*profile)
}

func (ex *Explorer) print(profile bool) {
	fmt.Printf("%s: %v paths=%d done=%d infeasible=%d pruned=%v truncated=%v decisions=%d asserts=%d steps=%d\n", ex.name,
		time.Since(ex.started).Round(time.Millisecond), ex.paths, ex.completed, ex.infeasible, ex.pruned, ex.truncated, ex.decisions, ex.asserts, ex.steps)
	fmt.Printf("  queries=%d cached=%d unknown=%d solver=%v max=%v functions=%d\n", ex.queries, ex.cacheHits, ex.unknowns, ex.solverTime.Round(time.Millisecond), ex.maxQuery, len(ex.coverage))
	fmt.Println("  tags", ex.tags, "reached", ex.reached)
	for _, s := range topCounts(ex.pruneMsgs, 10) {
		fmt.Println("  pruned", s)
	}
	for tag, n := range ex.violCount {
		fmt.Printf("  VIOL %s x%d\n", tag, n)
		for i, v := range ex.viols[tag] {
			if i < 2 {
				b, _ := json.Marshal(v)
				fmt.Println("    ", string(b))
			}
		}
	}
	var notes []string
	for n := range ex.notes {
		notes = append(notes, n)
	}
	sort.Strings(notes)
	for _, n := range notes {
		fmt.Println("  note", n)
	}
	if profile {
		for _, s := range topCounts(ex.forkSites, 25) {
			fmt.Println("  fork", s)
		}
	}
}
