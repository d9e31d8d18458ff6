package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type EntrySpec struct {
	Entry    string           `json:"entry"`
	Note     string           `json:"note"`
	Quick    map[string]int64 `json:"quick"`
	Thorough map[string]int64 `json:"thorough"`
	BudgetQ  float64          `json:"budget_quick"`
	BudgetT  float64          `json:"budget_thorough"`
	Steps    int              `json:"steps"`
	Covers   []string         `json:"covers"`
	Races    bool             `json:"races"`
	Samples  int              `json:"samples"`
	Schedule bool             `json:"schedule"` // counterexamples may depend on an interleaving the native run cannot force
	Skip     string           `json:"skip_native"`
}

type CheckSpec struct {
	Level       string      `json:"level"`
	Entries     []EntrySpec `json:"entries"`
	Bounds      []string    `json:"bounds"`
	Assumptions []string    `json:"assumptions"`
}

type KnownFinding struct {
	Property string `json:"property"`
	Entry    string `json:"entry"`
	Kind     string `json:"kind"`
	Msg      string `json:"msg"`
	Where    string `json:"where"`
	What     string `json:"what"`
	Fixed    string `json:"fixed"`
}

func fatal(a ...any) {
	fmt.Fprintln(os.Stderr, a...)
	os.Exit(2)
}

func cmdCheck(args []string) {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	verif := fs.String("verif", "/verif", "")
	repo := fs.String("repo", "/repo", "")
	id := fs.String("id", "", "")
	tier := fs.String("tier", "quick", "")
	workers := fs.Int("j", 8, "")
	only := fs.String("only", "", "run one entry")
	fs.IntVar(&fastTimeout, "fast", fastTimeout, "")
	fs.Parse(args)
	t0 := time.Now()
	specs := map[string]*CheckSpec{}
	data, err := os.ReadFile(filepath.Join(*verif, "checks.json"))
	if err != nil {
		fatal(err)
	}
	if err := json.Unmarshal(data, &specs); err != nil {
		fatal("checks.json:", err)
	}
	sp := specs[*id]
	if sp == nil {
		fatal("no check", *id)
	}
	var known []KnownFinding
	if data, err := os.ReadFile(filepath.Join(*verif, "known_findings.json")); err == nil {
		if err := json.Unmarshal(data, &known); err != nil {
			fatal("known_findings.json:", err)
		}
	}
	seed := int64(1)
	if s, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64); err == nil {
		seed = s
	}
	// stubs are per loaded program: each harness package is loaded on its own
	type penv struct {
		pr     *Program
		stubs  map[string]*ssa.Function
		nat    *NativeRunner
		ready  chan error
		err    error
		waited bool
	}
	envs := map[string]*penv{}
	var loadT time.Duration
	defer func() {
		for _, v := range envs {
			v.nat.Close()
		}
	}()
	envOf := func(entry string) *penv {
		pk, _, _ := cutLast(entry, ".")
		if v := envs[pk]; v != nil {
			return v
		}
		t1 := time.Now()
		pr, err := LoadProgram(*verif, *repo, []string{harnessRoot + "/" + pk})
		if err != nil {
			fatal(err)
		}
		stubs, err := pr.Stubs()
		if err != nil {
			fatal(err)
		}
		nat, err := NewNativeRunner(pr, *verif, *repo, pk)
		if err != nil {
			fatal(err)
		}
		v := &penv{pr: pr, stubs: stubs, nat: nat, ready: make(chan error, 1)}
		go func() { _, err := nat.build(false); v.ready <- err }()
		loadT += time.Since(t1)
		envs[pk] = v
		return v
	}
	type evEntry struct {
		Entry        string           `json:"entry"`
		Note         string           `json:"note,omitempty"`
		Params       map[string]int64 `json:"params"`
		Paths        int              `json:"paths"`
		Infeasible   int              `json:"infeasible_paths"`
		Unsupported  map[string]int   `json:"unsupported,omitempty"`
		Unknown      int              `json:"undecided_branches"`
		StepLimit    int              `json:"step_limit_paths"`
		Steps        int64            `json:"instructions_executed"`
		Decisions    int64            `json:"decisions"`
		Queries      int              `json:"solver_queries"`
		CacheHits    int              `json:"cache_hits"`
		SolverS      float64          `json:"solver_s"`
		SlowestS     float64          `json:"slowest_query_s"`
		Asserts      int64            `json:"assertions_decided"`
		Labels       map[string]int   `json:"assertions"`
		Covers       map[string]int   `json:"covers"`
		MissingCover []string         `json:"missing_covers,omitempty"`
		Exhaustive   bool             `json:"exhaustive_within_bounds"`
		WallS        float64          `json:"wall_s"`
		Validated    int              `json:"traces_validated"`
		Disagree     []string         `json:"disagreements,omitempty"`
		OtherOrder   int              `json:"samples_that_ran_in_another_order_natively,omitempty"`
	}
	var evs []evEntry
	funcs := map[string]int{}
	natives := map[string]int{}
	var samples []any
	bad := 0
	violations := 0
	seenKnown := map[int]bool{}
	states, trans, validated := 0, int64(0), 0
	allExh := true
	repDir := filepath.Join(*verif, "evidence", "replays")
	os.MkdirAll(repDir, 0755)
	var printed []string
	for _, e := range sp.Entries {
		if *only != "" && e.Entry != *only {
			continue
		}
		env := envOf(e.Entry)
		pr, stubs, nat := env.pr, env.stubs, env.nat
		waitNat := func() error {
			if !env.waited {
				env.err = <-env.ready
				env.waited = true
			}
			return env.err
		}
		fn := pr.Entries()[e.Entry]
		if fn == nil {
			fatal("no entry", e.Entry)
		}
		ps := map[string]int64{}
		for k, v := range e.Quick {
			ps[k] = v
		}
		budget := e.BudgetQ
		if budget == 0 {
			budget = 120
		}
		if *tier == "thorough" {
			for k, v := range e.Thorough {
				ps[k] = v
			}
			budget = e.BudgetT
			if budget == 0 {
				budget = 1500
			}
		}
		curParams = ps
		steps := e.Steps
		if steps == 0 {
			steps = 3_000_000
		}
		ns := e.Samples
		if ns == 0 {
			ns = 6
		}
		if violations > 0 && budget > 60 {
			budget = 60
		}
		knownAt := func(v *Violation) int {
			for j, k := range known {
				if k.Fixed == "" && k.Property == *id && (k.Entry == "" || k.Entry == e.Entry) && k.Kind == v.Kind && k.Msg == v.Msg && (k.Where == "" || k.Where == v.Where) {
					return j
				}
			}
			return -1
		}
		cfg := &Config{Known: func(v *Violation) bool { return knownAt(v) >= 0 }, Entry: fn, Stubs: stubs, MaxSteps: steps, Budget: time.Duration(budget * float64(time.Second)), Workers: *workers, MaxViol: 12, SampleMax: ns, Prog: pr, Races: e.Races, Seed: seed, PropID: *id}
		r := Explore(cfg)
		ev := evEntry{Entry: e.Entry, Note: e.Note, Params: ps, Paths: r.Paths, Infeasible: r.Infeasible, Unsupported: r.Unsups, Unknown: r.UnknownBr, StepLimit: r.StepLimit, Steps: r.Steps, Decisions: r.Decisions,
			Queries: r.Queries, CacheHits: r.CacheHits, SolverS: round2(r.SolverTime), SlowestS: round2(r.Slowest), Asserts: r.Asserts, Labels: r.AssertLabels, Covers: r.Covers, Exhaustive: r.Exhaustive, WallS: round2(r.Wall)}
		for k, n := range r.Funcs {
			if isRepoFunc(k) {
				funcs[k] += n
			}
		}
		for k, n := range r.Native {
			natives[k] += n
		}
		fmt.Printf("%s %s: paths=%d asserts=%d queries=%d solver=%.1fs exhaustive=%v wall=%.1fs unsupported=%d undecided=%d steplimit=%d violations=%d\n", *id, e.Entry, r.Paths, r.Asserts, r.Queries, r.SolverTime.Seconds(), r.Exhaustive, r.Wall.Seconds(), r.Unsup, r.UnknownBr, r.StepLimit, len(r.violKeys))
		for _, k := range sortedKeys(r.Unsups) {
			fmt.Printf("  not encoded (%d paths): %s\n", r.Unsups[k], k)
		}
		// violations, confirmed natively
		reported := map[string]bool{}
		var pend []Violation
		for _, v := range r.Violations {
			pend = append(pend, v)
		}
		unconf := map[string]string{}
		for i := range pend {
			v := &pend[i]
			key := v.Kind + "|" + v.Msg + "|" + v.Where
			if reported[key] {
				continue
			}
			kf := knownAt(v)
			confirmed, how := false, ""
			c := NativeCase{Entry: e.Entry, Params: ps, Inputs: v.Inputs}
			if e.Skip == "" {
				if err := waitNat(); err != nil {
					how = "native build failed: " + firstLine(err.Error())
					fmt.Fprintln(os.Stderr, err)
				} else {
					o, err := nat.Run(c, v.Kind == "race", 30*time.Second)
					if err != nil {
						how = "native run failed: " + firstLine(err.Error())
						if e.Schedule {
							fmt.Fprintln(os.Stderr, err)
						}
					} else if o.Confirm(v) {
						confirmed, how = true, "replayed natively against the real code"
					} else {
						how = "not reproduced natively"
						os.WriteFile(filepath.Join(repDir, *id+".unconfirmed.txt"), []byte(fmt.Sprintf("%s %s at %s\n%s", v.Kind, v.Msg, v.Where, o.Text)), 0644)
					}
				}
			} else {
				confirmed, how = true, "replayed in the executor only: "+e.Skip
			}
			if !confirmed && e.Schedule {
				confirmed, how = true, "deterministic re-execution of the recorded interleaving in the executor ("+how+")"
			}
			if !confirmed {
				unconf[key] = how
				continue
			}
			delete(unconf, key)
			reported[key] = true
			rep := map[string]any{"property": *id, "entry": e.Entry, "params": ps, "kind": v.Kind, "message": v.Msg, "where": v.Where, "inputs": v.Inputs, "choices": v.Trace, "schedule": v.Sched, "confirmed": how,
				"run": fmt.Sprintf("/verif/bin/gosym replay -file FILE")}
			path := filepath.Join(repDir, fmt.Sprintf("%s-%d.json", *id, violations))
			data, _ := json.MarshalIndent(rep, "", " ")
			if kf >= 0 {
				if !seenKnown[kf] {
					seenKnown[kf] = true
					printed = append(printed, fmt.Sprintf("KNOWN-FINDING: property=%s %s", *id, known[kf].What))
				}
				continue
			}
			os.WriteFile(path, data, 0644)
			violations++
			printed = append(printed, fmt.Sprintf("VIOLATION property=%s replay=%s", *id, path))
			fmt.Printf("  %s: %s at %s (%s)\n", v.Kind, v.Msg, v.Where, how)
			for _, in := range v.Inputs {
				fmt.Printf("    %s=%v", in.Name, in.Vals)
			}
			fmt.Println()
		}
		for k, how := range unconf {
			if !reported[k] {
				fmt.Printf("  UNCONFIRMED counterexample %s: %s\n", k, how)
				bad++
			}
		}
		for _, c := range e.Covers {
			if r.Covers[c] == 0 {
				ev.MissingCover = append(ev.MissingCover, c)
			}
		}
		if len(ev.MissingCover) > 0 {
			fmt.Printf("  missing covers: %v\n", ev.MissingCover)
			if len(r.violKeys) == 0 {
				bad++
			}
		}
		// compare sampled executions with the compiled code
		for _, s := range r.Samples {
			samples = append(samples, map[string]any{"entry": e.Entry, "inputs": s.Inputs, "observed": s.Obs, "covers": s.Covers})
		}
		if e.Skip == "" {
			if err := waitNat(); err != nil {
				fmt.Fprintln(os.Stderr, err)
				bad++
			} else {
				for _, s := range r.Samples {
					c := NativeCase{Entry: e.Entry, Params: ps, Inputs: s.Inputs}
					o, err := nat.Run(c, false, 30*time.Second)
					if err != nil {
						ev.Disagree = append(ev.Disagree, err.Error())
						continue
					}
					if d := compareSample(cfg, &s, o); d != "" {
						if e.Schedule {
							// the compiled code may have run in another order
							ev.OtherOrder++
							continue
						}
						ev.Disagree = append(ev.Disagree, d)
						if os.Getenv("GOSYM_DEBUG") != "" {
							cj, _ := json.Marshal(c)
							fmt.Println("DISAGREE", d, string(cj), "\n", o.Text)
						}
					} else {
						ev.Validated++
					}
				}
			}
			if len(ev.Disagree) > 0 {
				fmt.Printf("  DISAGREEMENT with the compiled code in %d of %d sampled executions: %s\n", len(ev.Disagree), len(r.Samples), ev.Disagree[0])
			}
		}
		states += r.Paths
		trans += r.Decisions
		validated += ev.Validated
		allExh = allExh && r.Exhaustive
		evs = append(evs, ev)
	}
	if len(samples) > 8 {
		samples = samples[:8]
	}
	if len(samples) == 0 {
		samples = append(samples, "no completed execution")
	}
	var stubNames []string
	for k := range natives {
		if strings.HasPrefix(k, "stub ") {
			stubNames = append(stubNames, k[5:])
		}
	}
	sort.Strings(stubNames)
	q, st := 0, 0.0
	for _, e := range evs {
		q += e.Queries
		st += e.SolverS
	}
	ev := map[string]any{
		"property": *id, "tier": *tier, "seed": seed, "level": sp.Level, "wall_s": round2(time.Since(t0)), "violations": violations,
		"assumptions": sp.Assumptions,
		"coverage": map[string]any{
			"states": states, "transitions": trans, "traces_validated_against_impl": validated, "samples": samples, "exhaustive": allExh,
			"explanation":        "states = feasible path classes executed to the end (each covers every input satisfying its path condition); transitions = solver- or scheduler-decided branch points along them",
			"functions_encoded":  funcs,
			"stubbed_externals":  stubNames,
			"bounds":             sp.Bounds,
			"entries":            evs,
			"solver":             solverBin + " (incremental), " + solverBin2 + " (standalone, 20 s)",
			"solver_queries":     q,
			"solver_time_s":      st,
			"program_load_s":     round2(loadT),
			"encoded_from":       "SSA of the Go sources in " + *repo + ", rebuilt in this run",
			"known_findings_hit": len(seenKnown),
		},
	}
	data, _ = json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(*verif, "evidence"), 0755)
	if err := os.WriteFile(filepath.Join(*verif, "evidence", *id+".json"), data, 0644); err != nil {
		fatal(err)
	}
	for _, l := range printed {
		fmt.Println(l)
	}
	for _, v := range envs {
		v.nat.Close()
	}
	switch {
	case violations > 0:
		os.Exit(1)
	case bad > 0:
		os.Exit(2)
	}
}

func isRepoFunc(k string) bool {
	return strings.Contains(k, repoMod) && !strings.Contains(k, harnessRoot)
}

func round2(d time.Duration) float64 { return float64(int(d.Seconds()*100)) / 100 }

func compareSample(cfg *Config, s *Sample, o *NativeOut) string {
	if o.Assume {
		return "an assumption fails natively"
	}
	if o.Timeout {
		return "native run timed out"
	}
	if len(o.Missing) > 0 {
		return "native run asks for other inputs: " + strings.Join(o.Missing, ",")
	}
	if o.Panic != "" {
		return "native run panics: " + o.Panic
	}
	own := false
	for _, a := range o.Asserts {
		own = own || !cfg.foreign(a)
	}
	if own {
		return "native run fails: " + strings.Join(o.Asserts, "; ")
	}
	if !o.End {
		return "native run did not finish: " + o.Text
	}
	if len(o.Obs) != len(s.Obs) {
		return fmt.Sprintf("observations differ: %d natively, %d symbolically", len(o.Obs), len(s.Obs))
	}
	for i := range o.Obs {
		if o.Obs[i] != s.Obs[i] {
			return fmt.Sprintf("observation %d differs: native %q, symbolic %q", i, o.Obs[i], s.Obs[i])
		}
	}
	cs := map[string]bool{}
	for _, c := range o.Covers {
		cs[c] = true
	}
	if len(cs) != len(s.Covers) {
		return fmt.Sprintf("covers differ: native %v, symbolic %v", sortedKeys(cs), s.Covers)
	}
	for _, c := range s.Covers {
		if !cs[c] {
			return "cover " + c + " not reached natively"
		}
	}
	return ""
}

// cmdReplay runs a recorded counterexample against the compiled code.
func cmdReplay(args []string) {
	fs := flag.NewFlagSet("replay", flag.ExitOnError)
	verif := fs.String("verif", "/verif", "")
	repo := fs.String("repo", "/repo", "")
	file := fs.String("file", "", "")
	race := fs.Bool("race", false, "")
	fs.Parse(args)
	data, err := os.ReadFile(*file)
	if err != nil {
		fatal(err)
	}
	var c NativeCase
	if err := json.Unmarshal(data, &c); err != nil {
		fatal(err)
	}
	pk, _, _ := cutLast(c.Entry, ".")
	pr, err := LoadProgram(*verif, *repo, []string{harnessRoot + "/" + pk})
	if err != nil {
		fatal(err)
	}
	nat, err := NewNativeRunner(pr, *verif, *repo, pk)
	if err != nil {
		fatal(err)
	}
	defer nat.Close()
	o, err := nat.Run(c, *race, 60*time.Second)
	if err != nil {
		nat.Close()
		fatal(err)
	}
	fmt.Print(o.Text)
}
