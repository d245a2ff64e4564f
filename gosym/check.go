package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"reflect"
	"runtime"
	"sort"
	"strings"
	"time"
)

type checkOpts struct {
	repo, verif, tier, only, solver, evidence string
	seed, workers, limit                      int
	verbose, noNative, bits                   bool
}

// Spec describes how one property is decided.
type Spec struct {
	Property    string        `json:"property"`
	Package     string        `json:"package"` // default harness package
	Harnesses   []HarnessSpec `json:"harnesses"`
	Bounds      string        `json:"bounds"`
	Outside     string        `json:"outside"`
	Assumptions []string      `json:"assumptions"`
}

type HarnessSpec struct {
	Name     string   `json:"name"`
	Package  string   `json:"package"`
	Tier     string   `json:"tier"`    // "": both, "thorough": thorough only
	Seconds  int      `json:"seconds"` // quick time limit
	Thorough int      `json:"thorough_seconds"`
	Reach    []string `json:"reach"` // labels that must be reachable
	Race     bool     `json:"race"`  // native runs use the race detector
	Repeat   int      `json:"repeat"`
	Samples  int      `json:"samples"`
	Steps    int64    `json:"steps"`
	// Exact says that sched-dependent candidates need no schedule luck
	Deterministic bool `json:"deterministic"`
}

type knownFinding struct {
	Property string `json:"property"`
	Harness  string `json:"harness"`
	Label    string `json:"label"`
	What     string `json:"what"`
	Status   string `json:"status"` // "open" or "fixed"
}

type replayFile struct {
	Property string            `json:"property"`
	Package  string            `json:"package"`
	Harness  string            `json:"harness"`
	Label    string            `json:"label"`
	Detail   string            `json:"detail"`
	Where    string            `json:"where"`
	Inputs   map[string]string `json:"inputs"`
	Race     bool              `json:"race"`
	Repeat   int               `json:"repeat"`
	Repo     string            `json:"repo"`
	Verif    string            `json:"verif"`
	Native   nativeResult      `json:"native"`
}

func logf(format string, a ...any) { fmt.Printf(format+"\n", a...) }

type harnessEvidence struct {
	Name        string         `json:"name"`
	Paths       int            `json:"paths"`
	Infeasible  int            `json:"paths_infeasible"`
	Incomplete  int            `json:"paths_incomplete"`
	Branches    int            `json:"branch_decisions"`
	Queries     int            `json:"solver_queries"`
	Unsat       int            `json:"unsat"`
	Sat         int            `json:"sat"`
	SolverS     float64        `json:"solver_s"`
	WallS       float64        `json:"wall_s"`
	Exhausted   bool           `json:"all_paths_explored"`
	Assertions  map[string]int `json:"assertions_checked"`
	Reached     map[string]int `json:"reached"`
	MaxDepth    int            `json:"max_decisions_on_path"`
	Validated   int            `json:"witnesses_replayed"`
	TraceDiffs  int            `json:"witness_trace_differences"`
	Reduced     []string       `json:"reduced_bound,omitempty"`
	Unconfirmed []string       `json:"unconfirmed_candidates,omitempty"`
}

func runCheck(o *checkOpts, specFile string) int {
	t0 := time.Now()
	var spec Spec
	b, err := os.ReadFile(specFile)
	if err == nil {
		err = json.Unmarshal(b, &spec)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, "cannot read the spec:", err)
		return 2
	}
	if o.verif == "" {
		o.verif = filepath.Dir(filepath.Dir(specFile))
	}
	o.verif, _ = filepath.Abs(o.verif)
	if o.workers == 0 {
		o.workers = runtime.NumCPU()
	}
	if o.evidence == "" {
		o.evidence = filepath.Join(o.verif, "evidence", spec.Property+".json")
	}
	known := loadKnown(filepath.Join(o.verif, "known_findings.json"))

	var hs []HarnessSpec
	pkgSet := map[string]bool{}
	for _, h := range spec.Harnesses {
		if h.Tier == "thorough" && o.tier != "thorough" {
			continue
		}
		if o.only != "" && h.Name != o.only {
			continue
		}
		if h.Package == "" {
			h.Package = spec.Package
		}
		if h.Seconds == 0 {
			h.Seconds = 120
		}
		if o.tier == "thorough" {
			if h.Thorough == 0 {
				h.Thorough = h.Seconds * 5
			}
			h.Seconds = h.Thorough
		}
		if o.limit > 0 {
			h.Seconds = o.limit
		}
		if h.Steps == 0 {
			h.Steps = 30_000_000
		}
		if h.Samples == 0 {
			h.Samples = 24
			if o.tier == "thorough" {
				h.Samples = 200
			}
		}
		pkgSet[h.Package] = true
		hs = append(hs, h)
	}
	var hpkgs []string
	for p := range pkgSet {
		hpkgs = append(hpkgs, p)
	}
	sort.Strings(hpkgs)
	ws, err := newWorkspace(o.repo, o.verif, append([]string{"nd", "kit"}, hpkgs...))
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer ws.close()

	ev := map[string]any{}
	var hev []*harnessEvidence
	var reduced []string
	violations := 0
	knownSeen := map[string]bool{}
	var states, transitions, validated, queries, nsat, nunsat, nunk, nerr, asserts, pathsDone, traceDiffs int
	var solverT, maxQ time.Duration
	var steps int64
	var sampleOut []any
	var funcs []string
	inits := map[string]string{}

	p, err := ws.load(hpkgs)
	if err != nil {
		logf("REDUCED-BOUND property=%s the current tree cannot be encoded: %v", spec.Property, err)
		reduced = append(reduced, "the current tree cannot be encoded: "+err.Error())
		hs = nil
	}
	loadS := time.Since(t0).Seconds()
	rng := rand.New(rand.NewSource(int64(o.seed)))

	for _, h := range hs {
		fn, err := p.lookupFn(zzPath+"/"+h.Package, h.Name)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		opts := &RunOpts{
			MaxDecisions: 20000, MaxConcretize: 300, MaxSteps: h.Steps, Workers: o.workers,
			Deadline: time.Now().Add(time.Duration(h.Seconds) * time.Second),
			Solver:   strings.Fields(o.solver), QueryTimeoutMS: 20000, Bits: o.bits,
			Samples: h.Samples, Rand: rng, Ignore: map[string]bool{},
		}
		ex, err := newExplorer(p, fn, opts)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		he := &harnessEvidence{Name: h.Name}
		hev = append(hev, he)
		tries := map[string]int{}
		report := func(c *Candidate, r nativeResult) {
			rf := replayFile{
				Property: spec.Property, Package: h.Package, Harness: h.Name, Label: r.Label,
				Detail: c.Detail, Where: c.Where, Inputs: c.Inputs, Race: h.Race || c.Kind == "race",
				Repeat: repeatFor(c, &h), Repo: o.repo, Verif: o.verif, Native: r,
			}
			dir := filepath.Join(o.verif, "evidence", "replay")
			os.MkdirAll(dir, 0o755)
			path := filepath.Join(dir, fmt.Sprintf("%s-%s-%s.json", spec.Property, h.Name, slug(r.Label)))
			jb, _ := json.MarshalIndent(rf, "", "  ")
			os.WriteFile(path, jb, 0o644)
			logf("counterexample for %s/%s: %s", h.Name, r.Label, r.Detail)
			logf("  inputs: %s", inputText(c.Inputs))
			logf("VIOLATION property=%s replay=%s", spec.Property, path)
			violations++
		}
		isKnown := func(label string) *knownFinding {
			for i := range known {
				k := &known[i]
				if k.Property == spec.Property && k.Status == "open" && k.Label == label && (k.Harness == "" || k.Harness == h.Name) {
					return k
				}
			}
			return nil
		}
		confirmed := false
		exhausted := false
		for !confirmed {
			exhausted = ex.Run()
			cands := ex.Candidates
			ex.Candidates = nil
			if len(cands) == 0 {
				break
			}
			for _, c := range cands {
				if opts.Ignore[c.Label] || confirmed {
					continue
				}
				if o.verbose || o.noNative {
					logf("candidate %s/%s at %s (%s): %s\n  inputs: %s", h.Name, c.Label, c.Where, c.Kind, c.Detail, inputText(c.Inputs))
				}
				if o.noNative {
					opts.Ignore[c.Label] = true
					continue
				}
				rs, err := ws.native(h.Package, h.Name, h.Race || c.Kind == "race",
					[]nativeRun{{Inputs: c.Inputs, Repeat: repeatFor(c, &h)}}, 30*time.Second)
				if err != nil {
					logf("replay failed: %v", err)
					reduced = append(reduced, "replay could not be built")
					opts.Ignore[c.Label] = true
					continue
				}
				r := rs[0]
				if bad(r) {
					if k := isKnown(r.Label); k != nil {
						if !knownSeen[k.Label] {
							knownSeen[k.Label] = true
							logf("KNOWN-FINDING: property=%s %s", spec.Property, k.What)
						}
						opts.Ignore[r.Label] = true
						if r.Label != c.Label {
							tries[c.Label]++
						}
					} else {
						report(c, r)
						confirmed = true
					}
				} else {
					tries[c.Label]++
					if o.verbose {
						logf("  not reproduced: %s %s %s", r.Status, r.Label, r.Detail)
					}
				}
				if tries[c.Label] >= 4 {
					opts.Ignore[c.Label] = true
					he.Unconfirmed = append(he.Unconfirmed, fmt.Sprintf("%s at %s: %s", c.Label, c.Where, headText(c.Detail, 300)))
				}
			}
			if exhausted || time.Now().After(opts.Deadline) {
				if len(ex.queue) == 0 {
					exhausted = true
				}
				break
			}
		}
		// validate the encoding: run witnesses natively
		if !o.noNative && !confirmed {
			var ss []*Sample
			ss = append(ss, ex.samples...)
			ss = append(ss, ex.broken...)
			var reqs []nativeRun
			for _, s := range ss {
				n := 1
				if s.Sched {
					n = 5
				}
				if s.Broken {
					n = 10
				}
				reqs = append(reqs, nativeRun{Inputs: s.Inputs, Repeat: n})
			}
			if len(reqs) > 0 {
				rs, err := ws.native(h.Package, h.Name, h.Race, reqs, 30*time.Second)
				if err != nil {
					logf("REDUCED-BOUND property=%s native validation impossible: %v", spec.Property, err)
					reduced = append(reduced, "native validation impossible")
				}
				for i, r := range rs {
					s := ss[i]
					if bad(r) {
						if k := isKnown(r.Label); k != nil {
							continue
						}
						report(&Candidate{Label: r.Label, Detail: "found by running a solver-generated witness on the real code", Inputs: s.Inputs, Sched: s.Sched}, r)
						confirmed = true
						break
					}
					if r.Status == "ok" && !s.Broken {
						he.Validated += r.Runs
						if !s.Sched && !reflect.DeepEqual(append([]string{}, s.Trace...), append([]string{}, r.Trace...)) {
							he.TraceDiffs++
							if o.verbose || he.TraceDiffs == 1 {
								logf("note: %s: encoding and implementation traces differ\n  inputs %s\n  encoding %v\n  native   %v", h.Name, inputText(s.Inputs), s.Trace, r.Trace)
							}
						}
						if len(sampleOut) < 12 {
							sampleOut = append(sampleOut, map[string]any{"harness": h.Name, "inputs": s.Inputs, "trace": r.Trace})
						}
					} else if r.Status != "ok" && !s.Broken {
						logf("note: %s: witness could not be replayed (%s %s)", h.Name, r.Status, r.Detail)
						he.TraceDiffs++
					}
				}
			}
		}
		st, q, sa, un, uk, er, tm, mq := ex.totals()
		he.Paths = ex.Paths[abDone] + ex.Paths[abViolation]
		he.Infeasible = ex.Paths[abInfeasible]
		he.Incomplete = ex.Paths[abUnsupported] + ex.Paths[abLimit] + ex.Paths[abUnknown]
		he.Branches, he.Queries, he.Sat, he.Unsat = st.Branches, q, sa, un
		he.SolverS, he.WallS = round(tm.Seconds()), round(ex.Wall.Seconds())
		he.Assertions = ex.labels()
		he.Reached = ex.Reached
		he.MaxDepth = ex.MaxDepth
		he.Exhausted = exhausted && he.Incomplete == 0 && uk == 0
		for k, v := range ex.Inits {
			inits[k] = v
		}
		if !confirmed {
			if !exhausted {
				he.Reduced = append(he.Reduced, fmt.Sprintf("time limit of %d s reached with %d paths done and %d pending", h.Seconds, he.Paths, len(ex.queue)))
			}
			var ms []string
			for msg, n := range ex.Incomplete {
				ms = append(ms, fmt.Sprintf("%dx %s", n, msg))
			}
			sort.Strings(ms)
			he.Reduced = append(he.Reduced, ms...)
			if exhausted && he.Incomplete == 0 {
				for _, l := range h.Reach {
					if ex.Reached[l] == 0 {
						he.Reduced = append(he.Reduced, "vacuous: label "+l+" is not reachable")
					}
				}
			}
			if er > 0 {
				he.Reduced = append(he.Reduced, fmt.Sprintf("%d solver errors, last: %s", er, headText(lastSolverError, 300)))
			}
			for _, u := range he.Unconfirmed {
				he.Reduced = append(he.Reduced, "candidate not reproduced by the implementation: "+u)
			}
		}
		for i, r := range he.Reduced {
			if i < 5 || o.verbose {
				logf("REDUCED-BOUND property=%s %s: %s", spec.Property, h.Name, r)
			}
			reduced = append(reduced, h.Name+": "+headText(r, 400))
		}
		logf("%s %s: %d paths (%d infeasible, %d incomplete), %d decisions, %d queries (%d unsat, %d sat, %d unknown), solver %.1fs, %.1fs wall, %d witnesses replayed, depth %d",
			spec.Property, h.Name, he.Paths, he.Infeasible, he.Incomplete, st.Branches, q, un, sa, uk, tm.Seconds(), ex.Wall.Seconds(), he.Validated, ex.MaxDepth)
		if o.verbose {
			logf("  steps %d, assertions %v, reached %v, max query %.2fs, branches unknown %d", ex.Steps, ex.labels(), ex.Reached, mq.Seconds(), st.UnknownBranches)
		}
		// symbolic states: points of decision and ends of paths
		states += st.Nodes
		for _, n := range ex.Paths {
			states += n
		}
		transitions += st.Outcomes
		validated += he.Validated
		traceDiffs += he.TraceDiffs
		queries += q
		nsat += sa
		nunsat += un
		nunk += uk
		nerr += er
		asserts += st.Asserts
		pathsDone += he.Paths
		solverT += tm
		if mq > maxQ {
			maxQ = mq
		}
		steps += ex.Steps
		ex.Close()
		if confirmed {
			break
		}
	}
	if p != nil {
		funcs = p.functions()
	}
	if sampleOut == nil {
		sampleOut = []any{}
	}
	ev["property"] = spec.Property
	ev["tier"] = o.tier
	ev["seed"] = o.seed
	ev["level"] = "model_checking"
	ev["wall_s"] = round(time.Since(t0).Seconds())
	ev["violations"] = violations
	ev["assumptions"] = append([]string{}, spec.Assumptions...)
	ev["coverage"] = map[string]any{
		"states":                        states,
		"transitions":                   transitions,
		"traces_validated_against_impl": validated,
		"samples":                       sampleOut,
		"paths":                         pathsDone,
		"ssa_instructions":              steps,
		"assertions_evaluated":          asserts,
		"functions_encoded":             funcs,
		"functions_encoded_count":       len(funcs),
		"bounds":                        spec.Bounds,
		"outside_bounds":                spec.Outside,
		"reduced_bound":                 reduced,
		"solver":                        o.solver,
		"queries":                       queries,
		"queries_unsat":                 nunsat,
		"queries_sat":                   nsat,
		"queries_unknown":               nunk,
		"solver_errors":                 nerr,
		"solver_s":                      round(solverT.Seconds()),
		"solver_max_query_s":            round(maxQ.Seconds()),
		"encoding_s":                    round(loadS),
		"trace_differences":             traceDiffs,
		"incomplete_initializers":       inits,
		"harnesses":                     hev,
		"known_findings":                len(knownSeen),
	}
	os.MkdirAll(filepath.Dir(o.evidence), 0o755)
	jb, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(o.evidence, append(jb, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
	}
	if violations > 0 {
		return 1
	}
	verdict := "held"
	if len(reduced) > 0 {
		verdict = "held within the reduced bound"
	}
	logf("%s %s: %d paths, %d queries, %d functions encoded, %.1fs", spec.Property, verdict, pathsDone, queries, len(funcs), time.Since(t0).Seconds())
	return 0
}

func repeatFor(c *Candidate, h *HarnessSpec) int {
	n := 1
	if c.Sched || c.Kind == "race" || c.Kind == "deadlock" {
		n = 400
	}
	if h.Repeat > 0 && n > 1 {
		n = h.Repeat
	}
	return n
}

func bad(r nativeResult) bool {
	switch r.Status {
	case "violation", "crash", "hang", "race":
		return true
	}
	return false
}

func round(f float64) float64 { return float64(int(f*1000+0.5)) / 1000 }

func slug(s string) string {
	return strings.Map(func(r rune) rune {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' {
			return r
		}
		return '-'
	}, s)
}

func inputText(in map[string]string) string {
	var ks []string
	for k := range in {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var parts []string
	for _, k := range ks {
		parts = append(parts, k+"="+in[k])
	}
	return strings.Join(parts, " ")
}

func loadKnown(path string) []knownFinding {
	var ks []knownFinding
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	if err := json.Unmarshal(b, &ks); err != nil {
		fmt.Fprintln(os.Stderr, "known findings:", err)
	}
	return ks
}

func runReplay(file string) int {
	var rf replayFile
	b, err := os.ReadFile(file)
	if err == nil {
		err = json.Unmarshal(b, &rf)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	ws, err := newWorkspace(rf.Repo, rf.Verif, []string{"nd", "kit", rf.Package})
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer ws.close()
	rs, err := ws.native(rf.Package, rf.Harness, rf.Race, []nativeRun{{Inputs: rf.Inputs, Repeat: rf.Repeat}}, 60*time.Second)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	jb, _ := json.MarshalIndent(rs[0], "", "  ")
	fmt.Println(string(jb))
	if bad(rs[0]) {
		return 1
	}
	return 0
}
