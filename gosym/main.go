package main

import (
	"flag"
	"fmt"
	"os"
	"os/exec"
	"sort"
)

func usage() {
	fmt.Fprintln(os.Stderr, `usage: gosym check [flags] SPEC.json   decide one property
       gosym replay FILE               re-run a recorded counterexample`)
	os.Exit(2)
}

func main() {
	if len(os.Args) < 2 {
		usage()
	}
	switch os.Args[1] {
	case "check":
		fs := flag.NewFlagSet("check", flag.ExitOnError)
		var o checkOpts
		fs.StringVar(&o.repo, "repo", "/repo", "repository under check")
		fs.StringVar(&o.verif, "verif", "", "directory of the machinery")
		fs.StringVar(&o.tier, "tier", "quick", "quick or thorough")
		fs.IntVar(&o.seed, "seed", 1, "seed for witness sampling")
		fs.IntVar(&o.workers, "workers", 0, "parallel workers")
		fs.StringVar(&o.only, "only", "", "run only this harness")
		fs.BoolVar(&o.verbose, "v", false, "print details")
		fs.BoolVar(&o.noNative, "nonative", false, "skip native replay (debugging)")
		fs.BoolVar(&debugInternal, "crash", false, "crash on internal errors (debugging)")
		fs.BoolVar(&profileSteps, "prof", false, "count instructions per function (debugging, one worker)")
		fs.StringVar(&o.solver, "solver", "", "solver command (default z3-new or z3)")
		fs.BoolVar(&o.bits, "bits", false, "decide over bit vectors only (cross-check)")
		fs.IntVar(&o.limit, "limit", 0, "override the time limit per harness (s)")
		fs.StringVar(&o.evidence, "evidence", "", "evidence file")
		fs.Parse(os.Args[2:])
		if fs.NArg() != 1 {
			usage()
		}
		if o.solver == "" {
			o.solver = "z3 -in"
			if _, err := exec.LookPath("z3-new"); err == nil {
				o.solver = "z3-new -in"
			}
		}
		code := runCheck(&o, fs.Arg(0))
		if profileSteps {
			printProfile()
		}
		os.Exit(code)
	case "replay":
		if len(os.Args) < 3 {
			usage()
		}
		os.Exit(runReplay(os.Args[2]))
	default:
		usage()
	}
}

var (
	profileSteps bool
	profile      = map[string]int64{}
)

func printProfile() {
	var names []string
	for n := range profile {
		names = append(names, n)
	}
	sort.Slice(names, func(i, j int) bool { return profile[names[i]] > profile[names[j]] })
	for i, n := range names {
		if i < 40 {
			fmt.Println(profile[n], n)
		}
	}
}
