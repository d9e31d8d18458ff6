package main

import (
	"flag"
	"fmt"
	"os"
	"strings"
	"time"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: gosym run|check|replay ...")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "run":
		cmdRun(os.Args[2:])
	case "check":
		cmdCheck(os.Args[2:])
	case "replay":
		cmdReplay(os.Args[2:])
	default:
		fmt.Fprintln(os.Stderr, "unknown command")
		os.Exit(2)
	}
}

// params of the running check
var curParams = map[string]int64{}

func cmdRun(args []string) {
	fs := flag.NewFlagSet("run", flag.ExitOnError)
	verif := fs.String("verif", "/verif", "")
	repo := fs.String("repo", "/repo", "")
	entry := fs.String("entry", "", "")
	par := fs.String("p", "", "")
	budget := fs.Duration("budget", 60*time.Second, "")
	workers := fs.Int("j", 8, "")
	steps := fs.Int("steps", 2_000_000, "")
	fs.StringVar(&solverBin, "solver", solverBin, "")
	nonlog := fs.Bool("v", false, "")
	fs.DurationVar(&dumpSlow, "dump", 0, "")
	fs.StringVar(&solverBin2, "solver2", solverBin2, "")
	fs.IntVar(&fastTimeout, "fast", fastTimeout, "")
	races := fs.Bool("race", false, "")
	prop := fs.String("id", "", "")
	fs.Parse(args)
	for _, kv := range strings.Split(*par, ",") {
		if k, v, ok := strings.Cut(kv, "="); ok {
			var x int64
			fmt.Sscan(v, &x)
			curParams[k] = x
		}
	}
	t0 := time.Now()
	pkg := (*entry)[:strings.LastIndex(*entry, ".")]
	pr, err := LoadProgram(*verif, *repo, []string{harnessRoot + "/" + pkg})
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	stubs, err := pr.Stubs()
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	fmt.Printf("loaded in %.1fs, %d stubs\n", time.Since(t0).Seconds(), len(stubs))
	fn := pr.Entries()[*entry]
	if fn == nil {
		fmt.Fprintln(os.Stderr, "no entry", *entry)
		os.Exit(2)
	}
	cfg := &Config{Entry: fn, Stubs: stubs, MaxSteps: *steps, Budget: *budget, Workers: *workers, MaxViol: 8, SampleMax: 10, Verbose: true, Prog: pr, Races: *races, PropID: *prop}
	r := Explore(cfg)
	printResult(r, *nonlog)
}

func printResult(r *Result, v bool) {
	fmt.Printf("paths=%d infeasible=%d unsup=%d steplimit=%d unknown=%d exhaustive=%v wall=%.1fs steps=%d decisions=%d\n", r.Paths, r.Infeasible, r.Unsup, r.StepLimit, r.UnknownBr, r.Exhaustive, r.Wall.Seconds(), r.Steps, r.Decisions)
	fmt.Printf("queries=%d second=%d hits=%d solver=%.1fs slowest=%.2fs asserts=%d\n", r.Queries, r.Second, r.CacheHits, r.SolverTime.Seconds(), r.Slowest.Seconds(), r.Asserts)
	for _, k := range sortedKeys(r.Unsups) {
		fmt.Printf("  UNSUP %d x %s\n", r.Unsups[k], k)
	}
	for _, k := range sortedKeys(r.Covers) {
		fmt.Printf("  cover %s: %d\n", k, r.Covers[k])
	}
	for _, k := range sortedKeys(r.AssertLabels) {
		fmt.Printf("  assert %s: %d\n", k, r.AssertLabels[k])
	}
	for _, x := range r.Violations {
		fmt.Printf("  VIOL %s: %s at %s\n     ", x.Kind, x.Msg, x.Where)
		for _, in := range x.Inputs {
			fmt.Printf(" %s=%v", in.Name, in.Vals)
		}
		fmt.Println()
	}
	if v {
		for _, k := range sortedKeys(r.Funcs) {
			fmt.Printf("  fn %s: %d\n", k, r.Funcs[k])
		}
		for _, k := range sortedKeys(r.Native) {
			fmt.Printf("  native %s: %d\n", k, r.Native[k])
		}
		for _, s := range r.Samples {
			fmt.Println("  sample", s)
		}
	}
}
