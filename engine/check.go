package main

import (
	"bytes"
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"time"
)

// The check command decides one property: it explores every harness of the
// property symbolically, replays counterexamples and path samples against the
// natively compiled repository, and writes the evidence file.

type bound struct {
	Params map[string]int64 `json:"params"`
	Budget int              `json:"budget_s"`
}

type runSpec struct {
	Entry    string   `json:"entry"`
	What     string   `json:"what"`
	Bounds   string   `json:"bounds"`
	Quick    []bound  `json:"quick"`    // ladder: each a complete exploration
	Thorough []bound  `json:"thorough"` // continued from quick
	Reach    []string `json:"reach"`
	Only     string   `json:"only"` // "thorough": skipped in quick
}

type propSpec struct {
	Runs        []runSpec `json:"runs"`
	Outside     string    `json:"outside"`
	Assumptions []string  `json:"assumptions"`
}

type finding struct {
	Property string `json:"property"`
	Entry    string `json:"entry"`
	Tag      string `json:"tag"`
	What     string `json:"what"`
	Status   string `json:"status"` // known, fixed
	Commit   string `json:"commit,omitempty"`
}

type replayItem struct {
	Entry  string           `json:"entry"`
	Model  Model            `json:"model"`
	Params map[string]int64 `json:"params"`
	Seed   int64            `json:"seed,omitempty"`
}

type replayResult struct {
	Outcome string     `json:"outcome"`
	Tag     string     `json:"tag"`
	Msg     string     `json:"msg"`
	Obs     []ObsEntry `json:"obs"`
	Model   Model      `json:"model,omitempty"`
}

type replayer struct {
	perturb bool
	race    bool // built with the race detector
	repo    string
	bin     string
	dir     string
	n       int
	err     error
}

// buildReplay compiles the harness natively against the repository.
func buildReplay(repo, harness, dir string) *replayer { return buildNative(repo, harness, dir, "") }

// buildNative is buildReplay; mode may be "perturb" (with pauses in the
// repository's code) or "race" (with the race detector, too).
func buildNative(repo, harness, dir string, mode string) *replayer {
	perturb := mode != ""
	r := &replayer{dir: dir, bin: filepath.Join(dir, "replay"), perturb: perturb, race: mode == "race", repo: repo}
	m := map[string]string{}
	name := "overlay.json"
	if perturb {
		r.bin += "-" + mode
		name = "overlay-" + mode + ".json"
		perturbAll(repo, dir, m)
	}
	filepath.Walk(harness, func(p string, fi os.FileInfo, err error) error {
		if err == nil && !fi.IsDir() && strings.HasSuffix(p, ".go") {
			rel, _ := filepath.Rel(harness, p)
			m[filepath.Join(repo, "internal/zverif", rel)] = p
		}
		return nil
	})
	b, _ := json.Marshal(map[string]interface{}{"Replace": m})
	of := filepath.Join(dir, name)
	if r.err = os.WriteFile(of, b, 0o644); r.err != nil {
		return r
	}
	a := []string{"build", "-overlay", of, "-o", r.bin}
	if r.race {
		a = append(a, "-race")
	}
	cmd := exec.Command("go", append(a, "./internal/zverif")...)
	cmd.Dir = repo
	cmd.Env = append(os.Environ(), "GOFLAGS=-mod=readonly", "GOTOOLCHAIN=local", "GOPROXY=off", "GOWORK=off")
	if out, err := cmd.CombinedOutput(); err != nil {
		r.err = fmt.Errorf("native build: %v\n%s", err, out)
	}
	return r
}

// run replays the items; a process that dies yields outcome "crash" for the
// item it was on.
func (r *replayer) run(items []replayItem, timeout time.Duration) []replayResult {
	var out []replayResult
	for len(out) < len(items) {
		rest := items[len(out):]
		r.n++
		f := filepath.Join(r.dir, fmt.Sprintf("items%d.json", r.n))
		b, _ := json.Marshal(rest)
		os.WriteFile(f, b, 0o644)
		ctx, cancel := context.WithTimeout(context.Background(), timeout)
		cmd := exec.CommandContext(ctx, r.bin, f)
		work := filepath.Join(r.dir, "work")
		os.MkdirAll(work, 0o755)
		cmd.Dir = work
		cmd.Env = append(os.Environ(), "HOME="+work)
		if r.perturb {
			cmd.Env = append(cmd.Env, fmt.Sprintf("VERIF_PERTURB=%d", r.n))
		}
		var so, se bytes.Buffer
		cmd.Stdout, cmd.Stderr = &so, &se
		cmd.WaitDelay = time.Second
		if r.race {
			cmd.Env = append(cmd.Env, "GORACE=halt_on_error=0 exitcode=0")
		}
		err := cmd.Run()
		cancel()
		if r.race {
			if t := repoRace(se.String(), r.repo); t != "" {
				return []replayResult{{Outcome: "race", Tag: "data-race", Msg: t}}
			}
		}
		os.Remove(f)
		got := 0
		dec := json.NewDecoder(&so)
		for {
			var x replayResult
			if e := dec.Decode(&x); e != nil {
				if e != io.EOF {
					_ = e
				}
				break
			}
			out = append(out, x)
			got++
		}
		if got < len(rest) {
			o := "crash"
			if ctx.Err() != nil {
				o = "hang"
			}
			msg := se.String()
			if len(msg) > 3000 {
				msg = msg[:3000]
			}
			out = append(out, replayResult{Outcome: o, Msg: fmt.Sprint(err) + "\n" + msg})
		}
	}
	return out
}

func sameObs(a, b []ObsEntry) (string, bool) {
	n := len(a)
	if len(b) < n {
		n = len(b)
	}
	for i := 0; i < n; i++ {
		// what the native run observed came through JSON, which holds no invalid UTF-8
		if valid(a[i]) != valid(b[i]) {
			return fmt.Sprintf("at %d: symbolic %v, native %v", i, a[i], b[i]), false
		}
	}
	if len(a) != len(b) {
		return fmt.Sprintf("symbolic %d observations, native %d", len(a), len(b)), false
	}
	return "", true
}

func valid(o ObsEntry) ObsEntry {
	o.K, o.V = string([]rune(o.K)), string([]rune(o.V))
	return o
}

func bad(outcome string) bool {
	switch outcome {
	case "assert", "panic", "hang", "crash", "race":
		return true
	}
	return false
}

// perturbedRun looks for a native run that reproduces a counterexample which
// depends on the schedule, with pauses inserted into the repository's code.
func perturbedRun(repo, harness, dir string, pr **replayer, it replayItem, tag string) *replayResult {
	mode := "perturb"
	if tag == "data-race" {
		mode = "race"
	}
	if *pr == nil || (*pr).race != (mode == "race") {
		*pr = buildNative(repo, harness, dir, mode)
	}
	if (*pr).err != nil {
		return nil
	}
	for k := 0; k < 60; k++ {
		if res := (*pr).run([]replayItem{it}, 40*time.Second)[0]; bad(res.Outcome) {
			return &res
		}
	}
	return nil
}

// repoRace is the first race reported with an access by the repository's code.
func repoRace(text, repo string) string {
	for _, b := range strings.Split(text, "WARNING: DATA RACE")[1:] {
		if i := strings.Index(b, "=================="); i >= 0 {
			b = b[:i]
		}
		var at []string
		ours := false
		lines := strings.Split(b, "\n")
		for i, l := range lines {
			if !(strings.Contains(l, " at 0x") && strings.HasSuffix(l, ":")) {
				continue
			}
			// the frame that is not of the runtime
			for j := i + 2; j < len(lines) && strings.HasPrefix(lines[j], "      "); j += 2 {
				f := strings.TrimSpace(lines[j])
				if strings.Contains(f, "/src/runtime/") || strings.Contains(f, "/src/internal/") {
					continue
				}
				at = append(at, f)
				if strings.Contains(f, "/perturbed") || strings.HasPrefix(f, repo+"/") && !strings.Contains(f, "/zverif/") {
					ours = ours || !strings.Contains(f, "/verif/harness/")
				}
				break
			}
		}
		if ours {
			return strings.Join(at, " | ")
		}
	}
	return ""
}

func isSched(m Model) bool {
	for k := range m {
		if strings.HasPrefix(k, "!sched") {
			return true
		}
	}
	return false
}

func checkMain(args []string) {
	fl := flag.NewFlagSet("check", flag.ExitOnError)
	prop := fl.String("property", "", "property id")
	tier := fl.String("tier", "quick", "quick or thorough")
	repo := fl.String("repo", "/repo", "repository")
	verif := fl.String("verif", "/verif", "verification directory")
	workers := fl.Int("workers", runtime.NumCPU(), "workers")
	solver := fl.String("solver", "z3", "z3 or cvc5")
	deadline := fl.Duration("deadline", 0, "stop starting runs after this long (default 700s quick)")
	fl.Parse(args)
	t0 := time.Now()
	if *deadline == 0 {
		*deadline = 700 * time.Second
		if *tier == "thorough" {
			*deadline = 3 * time.Hour
		}
	}
	fail := func(f string, a ...interface{}) {
		fmt.Fprintf(os.Stderr, "ERROR: "+f+"\n", a...)
		os.Exit(3)
	}
	var specs map[string]*propSpec
	b, err := os.ReadFile(filepath.Join(*verif, "checks.json"))
	if err != nil {
		fail("%v", err)
	}
	if err := json.Unmarshal(b, &specs); err != nil {
		fail("checks.json: %v", err)
	}
	spec := specs[*prop]
	if spec == nil {
		fail("no property %s", *prop)
	}
	var known []finding
	if b, err := os.ReadFile(filepath.Join(*verif, "known-findings.json")); err == nil {
		if err := json.Unmarshal(b, &known); err != nil {
			fail("known-findings.json: %v", err)
		}
	}
	seed := int64(1)
	fmt.Sscan(os.Getenv("VERIF_SEED"), &seed)

	tmp, err := os.MkdirTemp("", "verif-replay-")
	if err != nil {
		fail("%v", err)
	}
	defer os.RemoveAll(tmp)
	harness := filepath.Join(*verif, "harness")
	rch := make(chan *replayer, 1)
	go func() { rch <- buildReplay(*repo, harness, tmp) }()
	ld, err := Load(*repo, harness)
	if err != nil {
		os.RemoveAll(tmp)
		fail("%v", err)
	}
	if *solver == "cvc5" {
		ld.solverCmd = []string{"cvc5", "--incremental", "--produce-models", "--lang", "smt2"}
	}

	type runOut struct {
		Entry      string           `json:"entry"`
		What       string           `json:"what"`
		Bounds     string           `json:"bounds"`
		Params     map[string]int64 `json:"params"`
		Complete   bool             `json:"complete"`
		Paths      int              `json:"paths"`
		Completed  int              `json:"paths_completed"`
		Infeasible int              `json:"paths_infeasible"`
		Pruned     map[string]int   `json:"paths_cut,omitempty"`
		PrunedWhy  []string         `json:"cut_reasons,omitempty"`
		Decisions  int              `json:"decisions"`
		Asserts    int              `json:"assertions_checked"`
		Tags       map[string]int   `json:"assertions_by_tag"`
		Reached    map[string]int   `json:"reached"`
		Queries    int              `json:"solver_queries"`
		Cached     int              `json:"queries_answered_from_cache"`
		Unknown    int              `json:"queries_unknown"`
		SolverS    float64          `json:"solver_s"`
		MaxQueryS  float64          `json:"max_query_s"`
		Steps      int64            `json:"instructions"`
		WallS      float64          `json:"wall_s"`
	}
	var (
		outs      []runOut
		coverage  = map[string]bool{}
		states    int
		trans     int
		validated int
		mismatch  []string
		samples   []interface{}
		unconf    []string
		vacuous   []string
		notes     = map[string]bool{}
		reports   []*Violation
		knownHit  = map[int]bool{}
		cutRuns   int
	)
	var rp, pr *replayer
	getReplay := func() *replayer {
		if rp == nil {
			rp = <-rch
			if rp.err != nil {
				os.RemoveAll(tmp)
				fail("%v", rp.err)
			}
		}
		return rp
	}
	seen := map[string]bool{}
	for _, rs := range spec.Runs {
		if rs.Only != "" && rs.Only != *tier {
			continue
		}
		fn := ld.main.Func(rs.Entry)
		if fn == nil {
			os.RemoveAll(tmp)
			fail("no entry %s", rs.Entry)
		}
		ladder := rs.Quick
		if *tier == "thorough" {
			ladder = append(append([]bound{}, rs.Quick...), rs.Thorough...)
		}
		reached := map[string]int{}
		cut := false
		for li, bd := range ladder {
			left := *deadline - time.Since(t0)
			if li > 0 && left < 5*time.Second {
				notes["deadline: "+rs.Entry+" stopped before its last bound"] = true
				break
			}
			if left < 10*time.Second {
				left = 10 * time.Second
			}
			budget := time.Duration(bd.Budget) * time.Second
			if budget == 0 {
				budget = 120 * time.Second
			}
			if budget > left {
				budget = left
			}
			ex := NewExplorer(ld, rs.Entry, fn)
			ex.params = bd.Params
			if ex.params == nil {
				ex.params = map[string]int64{}
			}
			ex.seed = seed
			ex.known = map[string]bool{}
			for _, kf := range known {
				if kf.Status == "known" && kf.Property == *prop && kf.Entry == rs.Entry {
					ex.known[kf.Tag] = true
				}
			}
			if err := ex.Run(*workers, budget, false); err != nil {
				os.RemoveAll(tmp)
				fail("%s: %v", rs.Entry, err)
			}
			o := runOut{Entry: rs.Entry, What: rs.What, Bounds: rs.Bounds, Params: bd.Params,
				Complete: !ex.truncated && len(ex.pruned) == 0, Paths: ex.paths, Completed: ex.completed,
				Infeasible: ex.infeasible, Pruned: ex.pruned, PrunedWhy: topCounts(ex.pruneMsgs, 5),
				Decisions: ex.decisions, Asserts: ex.asserts, Tags: ex.tags, Reached: ex.reached,
				Queries: ex.queries, Cached: ex.cacheHits, Unknown: ex.unknowns, SolverS: ex.solverTime.Seconds(),
				MaxQueryS: ex.maxQuery.Seconds(), Steps: ex.steps, WallS: time.Since(ex.started).Seconds()}
			outs = append(outs, o)
			for k := range ex.coverage {
				if strings.Contains(k, modulePath) && !strings.Contains(k, "/zverif") {
					coverage[k] = true
				}
			}
			for k, v := range ex.reached {
				reached[k] += v
			}
			for n := range ex.notes {
				notes[n] = true
			}
			states += ex.completed
			trans += ex.decisions
			fmt.Printf("%s %v: paths=%d completed=%d complete=%v asserts=%d queries=%d solver=%.1fs wall=%.1fs\n", rs.Entry,
				bd.Params, ex.paths, ex.completed, o.Complete, ex.asserts, ex.queries, o.SolverS, o.WallS)
			for _, m := range o.PrunedWhy {
				fmt.Println("  cut:", m)
			}
			// counterexamples
			tags := []string{}
			for t := range ex.viols {
				tags = append(tags, t)
			}
			sort.Strings(tags)
			for _, tag := range tags {
				id := rs.Entry + "/" + tag
				if seen[id] {
					continue
				}
				confirmed := false
				for _, v := range ex.viols[tag] {
					to := 40 * time.Second
					tries := 1
					if isSched(v.Model) {
						tries = 40
					}
					if tag == "data-race" {
						tries = 0
					}
					for k := 0; k < tries && !confirmed; k++ {
						res := getReplay().run([]replayItem{{Entry: v.Entry, Model: v.Model, Params: bd.Params}}, to)[0]
						if bad(res.Outcome) {
							confirmed = true
							v.Confirm = res.Outcome + " " + res.Tag + " " + firstLine(res.Msg)
						} else if k == 0 {
							notes[fmt.Sprintf("replay of %s: native outcome %s", id, res.Outcome)] = true
						}
					}
					if tries != 1 && !confirmed {
						if res := perturbedRun(*repo, harness, tmp, &pr, replayItem{Entry: v.Entry, Model: v.Model, Params: bd.Params}, tag); res != nil {
							confirmed = true
							v.Confirm = res.Outcome + " " + res.Tag + " " + firstLine(res.Msg) + " (with pauses)"
						}
					}
					if confirmed {
						seen[id] = true
						v.Params = bd.Params
						hit := false
						for i, kf := range known {
							if kf.Status == "known" && kf.Property == *prop && kf.Entry == rs.Entry && kf.Tag == tag {
								knownHit[i] = true
								hit = true
							}
						}
						if !hit {
							reports = append(reports, v)
						}
						break
					}
				}
				if !confirmed {
					v := ex.viols[tag][0]
					mb, _ := json.Marshal(v.Model)
					unconf = append(unconf, fmt.Sprintf("%s: %s (native run did not reproduce it) %s", id, v.Msg, mb))
				}
			}
			// paths the executor could not follow are not decided; their
			// prefixes are at least run natively, with arbitrary values for the
			// inputs they had not got to
			if len(ex.cuts) > 0 && len(reports) == 0 {
				var items []replayItem
				for i, m := range ex.cuts {
					if isSched(m) {
						continue
					}
					for k := 0; k < 16; k++ {
						items = append(items, replayItem{Entry: rs.Entry, Model: m, Params: bd.Params, Seed: int64(1 + i*16 + k)})
					}
				}
				for i, x := range getReplay().run(items, 60*time.Second) {
					cutRuns++
					id := rs.Entry + "/cut:" + x.Tag
					if !bad(x.Outcome) || seen[id] || x.Model == nil {
						continue
					}
					hit := false
					for i, kf := range known {
						if kf.Status == "known" && kf.Property == *prop && kf.Entry == rs.Entry && kf.Tag == x.Tag {
							knownHit[i] = true
							hit = true
						}
					}
					again := getReplay().run([]replayItem{{Entry: rs.Entry, Model: x.Model, Params: bd.Params}}, 40*time.Second)[0]
					if !hit && bad(again.Outcome) {
						seen[id] = true
						reports = append(reports, &Violation{Tag: x.Tag, Msg: firstLine(x.Msg), Model: x.Model, Kind: x.Outcome,
							Entry: rs.Entry, Params: bd.Params, Confirm: fmt.Sprintf("native run of the prefix of a path the executor could not follow (%d)", i)})
					}
				}
			}
			// agreement of the encoding with the compiled code
			if len(ex.samples) > 0 && len(reports) == 0 {
				var items []replayItem
				var exp []PathSample
				for _, s := range ex.samples {
					if isSched(s.Model) {
						continue
					}
					items = append(items, replayItem{Entry: rs.Entry, Model: s.Model, Params: bd.Params})
					exp = append(exp, s)
				}
				if len(items) > 0 {
					res := getReplay().run(items, 60*time.Second)
					for i, x := range res {
						why, same := sameObs(exp[i].Obs, x.Obs)
						if x.Outcome == "done" && same {
							validated++
							continue
						}
						mb, _ := json.Marshal(exp[i].Model)
						mismatch = append(mismatch, fmt.Sprintf("%s: native outcome %s %s %s; %s; %s", rs.Entry, x.Outcome, x.Tag, firstLine(x.Msg), why, mb))
						// a native run that violates an assertion is a counterexample in
						// its own right, whatever the encoding said
						if bad(x.Outcome) {
							id := rs.Entry + "/native:" + x.Tag
							if !seen[id] {
								seen[id] = true
								hit := false
								for i, kf := range known {
									if kf.Status == "known" && kf.Property == *prop && kf.Entry == rs.Entry && kf.Tag == x.Tag {
										knownHit[i] = true
										hit = true
									}
								}
								if !hit {
									again := getReplay().run([]replayItem{items[i]}, 40*time.Second)[0]
									if bad(again.Outcome) {
										reports = append(reports, &Violation{Tag: x.Tag, Msg: firstLine(x.Msg), Model: items[i].Model,
											Kind: x.Outcome, Entry: rs.Entry, Params: bd.Params, Confirm: "native run of a path the encoding completed"})
									}
								}
							}
						}
					}
				}
				for i := 0; i < len(exp) && i < 2; i++ {
					samples = append(samples, map[string]interface{}{"entry": rs.Entry, "inputs": exp[i].Model, "observed": exp[i].Obs})
				}
			}
			if !o.Complete {
				cut = true
			}
			news := false
			for tag := range ex.violCount {
				news = news || !ex.known[tag]
			}
			if news {
				break
			}
			if ex.truncated {
				break
			}
		}
		for _, tag := range rs.Reach {
			if reached[tag] == 0 {
				vacuous = append(vacuous, rs.Entry+": "+tag+" never reached")
			}
		}
		_ = cut
		if len(reports) > 0 {
			notes["stopped after the first violated run"] = true
			break
		}
	}

	// report
	for i, kf := range known {
		if kf.Property == *prop && kf.Status == "known" {
			_ = i
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", kf.Property, kf.What)
		}
	}
	for _, u := range unconf {
		fmt.Println("UNCONFIRMED", trunc(u, 800))
	}
	for i, m := range mismatch {
		if i < 5 {
			fmt.Println("MISMATCH", trunc(m, 1500))
		}
	}
	for _, v := range vacuous {
		fmt.Println("VACUOUS", v)
	}
	rdir := filepath.Join(*verif, "evidence", "replays")
	os.MkdirAll(rdir, 0o755)
	old, _ := filepath.Glob(filepath.Join(rdir, *prop+"-*.json"))
	for _, f := range old {
		os.Remove(f)
	}
	for i, v := range reports {
		f := filepath.Join(rdir, fmt.Sprintf("%s-%d.json", *prop, i+1))
		b, _ := json.MarshalIndent(map[string]interface{}{"property": *prop, "tag": v.Tag, "kind": v.Kind, "message": v.Msg,
			"native": v.Confirm, "items": []replayItem{{Entry: v.Entry, Model: v.Model, Params: v.Params}},
			"how": "write items to a file and run verif/check.sh replay FILE"}, "", " ")
		os.WriteFile(f, b, 0o644)
		fmt.Printf("VIOLATION property=%s replay=%s\n", *prop, f)
		fmt.Printf("  %s %s: %s; native: %s\n", v.Entry, v.Tag, trunc(v.Msg, 400), trunc(v.Confirm, 400))
	}

	var fns, queries, asserts int
	var solverS float64
	complete := true
	var bounds []string
	unknown := 0
	for _, o := range outs {
		queries += o.Queries
		asserts += o.Asserts
		solverS += o.SolverS
		unknown += o.Unknown
		if !o.Complete {
			complete = false
		}
		bounds = append(bounds, fmt.Sprintf("%s %v: %s", o.Entry, o.Params, o.Bounds))
	}
	var fnList []string
	for f := range coverage {
		fnList = append(fnList, f)
		fns++
	}
	sort.Strings(fnList)
	var noteList []string
	for n := range notes {
		noteList = append(noteList, n)
	}
	sort.Strings(noteList)
	ev := map[string]interface{}{
		"property": *prop, "tier": *tier, "seed": seed, "level": "model_checking",
		"coverage": map[string]interface{}{
			"states": states, "transitions": trans, "traces_validated_against_impl": validated, "samples": samples,
			"exhaustive":               complete,
			"functions_encoded":        fnList,
			"functions_encoded_count":  fns,
			"bounds":                   bounds,
			"outside_bounds":           spec.Outside,
			"assertions_discharged":    asserts,
			"solver":                   strings.Join(ld.solverCmd, " "),
			"solver_queries":           queries,
			"solver_queries_unknown":   unknown,
			"solver_s":                 solverS,
			"runs":                     outs,
			"encoding_mismatches":      mismatch,
			"unconfirmed":              unconf,
			"vacuous":                  vacuous,
			"notes":                    noteList,
			"native_runs_of_cut_paths": cutRuns,
		},
		"assumptions": append([]string{
			"the go/ssa form of /repo's current source, executed symbolically, has the semantics of the compiled program (sampled paths are replayed natively and compared)",
			"library functions outside the repository are executed from their source or modelled as listed in DESIGN.md",
		}, spec.Assumptions...),
		"wall_s": time.Since(t0).Seconds(), "violations": len(reports),
	}
	if len(samples) == 0 {
		ev["coverage"].(map[string]interface{})["samples"] = []interface{}{}
	}
	eb, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(*verif, "evidence", *prop+".json"), eb, 0o644)
	os.RemoveAll(tmp)
	fmt.Printf("%s %s: paths=%d assertions=%d queries=%d solver=%.1fs validated=%d mismatches=%d violations=%d wall=%.1fs\n", *prop, *tier,
		states, asserts, queries, solverS, validated, len(mismatch), len(reports), time.Since(t0).Seconds())
	if len(reports) > 0 {
		os.Exit(1)
	}
}

func trunc(s string, n int) string {
	if len(s) > n {
		s = s[:n] + "..."
	}
	return strings.ToValidUTF8(s, "?")
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}
