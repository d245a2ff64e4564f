package main

import (
	"fmt"
	"math/rand"
	"runtime/debug"
	"sort"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// RunOpts bounds one exploration.
type RunOpts struct {
	MaxDecisions    int
	MaxConcretize   int
	ConcretizeFloat bool
	ConcretizeInts  bool
	MaxSteps        int64
	Workers         int
	Deadline        time.Time
	Solver          []string
	Bits            bool // no integers
	QueryTimeoutMS  int
	Samples         int
	Rand            *rand.Rand
	Ignore          map[string]bool // candidate labels not reported again
}

type Stats struct {
	Branches        int
	Nodes           int // distinct points of decision
	Outcomes        int // feasible outcomes of those with more than one
	Forks           int
	UnknownBranches int
	Asserts         int
	AssertQueries   int
}

type worker struct {
	ex          *Explorer
	solver      *Solver
	ints        *Solver
	stats       Stats
	labels      map[string]int
	sharedGlobs map[*ssa.Global]*value
	sharedInit  map[*ssa.Package]bool
}

// Sample is a completed path with a concrete witness.
type Sample struct {
	Inputs map[string]string
	Trace  []string
	Sched  bool
	Broken bool // the path could not be completed by the encoding
	Why    string
}

// Explorer explores all paths of one harness.
type Explorer struct {
	p    *Program
	fn   *cfn
	opts *RunOpts

	mu       sync.Mutex
	cond     *sync.Cond
	queue    []*WorkItem
	busy     int
	stop     bool
	timedOut bool

	Paths      map[abortKind]int
	Steps      int64
	Reached    map[string]int
	Incomplete map[string]int
	Inits      map[string]string
	Candidates []*Candidate
	candSeen   map[string]int
	samples    []*Sample
	nSampled   int
	broken     []*Sample
	MaxDepth   int
	MaxPC      int
	workers    []*worker
	Wall       time.Duration
}

func newExplorer(p *Program, fn *cfn, opts *RunOpts) (*Explorer, error) {
	ex := &Explorer{
		p: p, fn: fn, opts: opts,
		Paths: map[abortKind]int{}, Reached: map[string]int{}, Incomplete: map[string]int{},
		Inits: map[string]string{}, candSeen: map[string]int{},
	}
	ex.cond = sync.NewCond(&ex.mu)
	ex.queue = []*WorkItem{{Model: Model{}}}
	for i := 0; i < opts.Workers; i++ {
		s, err := newSolver(opts.Solver, opts.QueryTimeoutMS)
		if err != nil {
			return nil, err
		}
		ex.workers = append(ex.workers, &worker{
			ex: ex, solver: s, labels: map[string]int{},
			sharedGlobs: map[*ssa.Global]*value{}, sharedInit: map[*ssa.Package]bool{},
		})
	}
	return ex, nil
}

func (ex *Explorer) Close() {
	for _, w := range ex.workers {
		w.solver.Close()
		if w.ints != nil {
			w.ints.Close()
		}
	}
}

// Run explores until the queue is empty, the deadline passes, or a new
// candidate is found. It returns true if the queue is exhausted.
func (ex *Explorer) Run() bool {
	t0 := time.Now()
	ex.stop = false
	var wg sync.WaitGroup
	for _, w := range ex.workers {
		wg.Add(1)
		go func(w *worker) {
			defer wg.Done()
			w.loop()
		}(w)
	}
	timer := time.AfterFunc(time.Until(ex.opts.Deadline), func() {
		ex.mu.Lock()
		ex.stop = true
		ex.timedOut = true
		ex.mu.Unlock()
		ex.cond.Broadcast()
	})
	wg.Wait()
	timer.Stop()
	ex.Wall += time.Since(t0)
	return len(ex.queue) == 0
}

func (w *worker) push(it *WorkItem) {
	w.ex.mu.Lock()
	w.ex.queue = append(w.ex.queue, it)
	w.ex.mu.Unlock()
	w.ex.cond.Signal()
}

func (w *worker) noteIncomplete(msg string) {
	w.ex.mu.Lock()
	w.ex.Incomplete[msg]++
	w.ex.mu.Unlock()
}

func (w *worker) noteInit(pkg, msg string) {
	w.ex.mu.Lock()
	w.ex.Inits[pkg] = msg
	w.ex.mu.Unlock()
}

func (w *worker) loop() {
	ex := w.ex
	ex.mu.Lock()
	defer ex.mu.Unlock()
	for {
		for len(ex.queue) == 0 && ex.busy > 0 && !ex.stop {
			ex.cond.Wait()
		}
		if ex.stop || len(ex.queue) == 0 {
			ex.cond.Broadcast()
			return
		}
		it := ex.queue[len(ex.queue)-1]
		ex.queue = ex.queue[:len(ex.queue)-1]
		ex.busy++
		ex.mu.Unlock()
		m, r := w.runPath(it)
		ex.mu.Lock()
		ex.busy--
		ex.record(m, r)
		if ex.busy == 0 && len(ex.queue) == 0 {
			ex.cond.Broadcast()
		}
	}
}

func (w *worker) runPath(it *WorkItem) (*machine, *PathResult) {
	ex := w.ex
	m := &machine{
		p: ex.p, w: w, ts: newTerms(), opts: ex.opts,
		globs: map[*ssa.Global]*value{}, inits: map[*ssa.Package]int{},
		prefix: it.Prefix, pcSet: map[*Term]bool{}, model: it.Model,
		drawCount: map[string]int{}, reached: map[string]bool{}, violSeen: map[string]bool{},
		maxSteps: ex.opts.MaxSteps, done: make(chan struct{}),
		userData: map[string]any{},
	}
	if m.model == nil {
		m.model = Model{}
	}
	g := m.newGor(ex.fn.self, nil)
	g.isMain = true
	m.cur = g
	g.start()
	g.resume <- struct{}{}
	<-m.done
	r := m.result
	m.killAll()
	w.solver.End()
	r.Steps = m.steps
	r.Violations = m.viol
	r.Decisions = len(m.dec)
	r.PCLen = len(m.pc)
	for l := range m.reached {
		r.Reached = append(r.Reached, l)
	}
	return m, r
}

func (ex *Explorer) record(m *machine, r *PathResult) {
	ex.Paths[r.Kind]++
	ex.Steps += r.Steps
	if r.Decisions > ex.MaxDepth {
		ex.MaxDepth = r.Decisions
	}
	if r.PCLen > ex.MaxPC {
		ex.MaxPC = r.PCLen
	}
	for _, l := range r.Reached {
		ex.Reached[l]++
	}
	switch r.Kind {
	case abUnsupported, abLimit, abUnknown:
		msg := r.Msg
		if len(msg) > 1200 {
			msg = msg[:1200]
		}
		ex.Incomplete[msg]++
		if len(ex.broken) < 40 {
			ex.broken = append(ex.broken, &Sample{Inputs: m.inputs(m.model), Sched: m.schedDep, Broken: true, Why: r.Msg})
		}
	case abDone:
		ex.nSampled++
		k := -1
		if len(ex.samples) < ex.opts.Samples {
			k = len(ex.samples)
			ex.samples = append(ex.samples, nil)
		} else if j := ex.opts.Rand.Intn(ex.nSampled); j < ex.opts.Samples {
			k = j
		}
		if k >= 0 {
			s := &Sample{Inputs: m.inputs(m.model), Sched: m.schedDep}
			for _, e := range m.trace {
				t := e.label
				for _, v := range e.vals {
					t += " " + m.evalText(v, m.model)
				}
				s.Trace = append(s.Trace, t)
			}
			ex.samples[k] = s
		}
	}
	for _, c := range r.Violations {
		if ex.opts.Ignore[c.Label] {
			continue
		}
		ex.Candidates = append(ex.Candidates, c)
		ex.stop = true
	}
}

func (ex *Explorer) totals() (st Stats, q, sat, uns, unk, errs int, t, maxq time.Duration) {
	for _, w := range ex.workers {
		st.Branches += w.stats.Branches
		st.Nodes += w.stats.Nodes
		st.Outcomes += w.stats.Outcomes
		st.Forks += w.stats.Forks
		st.UnknownBranches += w.stats.UnknownBranches
		st.Asserts += w.stats.Asserts
		st.AssertQueries += w.stats.AssertQueries
		for _, s := range []*Solver{w.solver, w.ints} {
			if s == nil {
				continue
			}
			q += s.Queries
			sat += s.Sat
			uns += s.Unsat
			unk += s.Unknown
			errs += s.Errors
			t += s.Time
			maxq = max(maxq, s.MaxQuery)
		}
	}
	return
}

func (ex *Explorer) labels() map[string]int {
	r := map[string]int{}
	for _, w := range ex.workers {
		for l, n := range w.labels {
			r[l] += n
		}
	}
	return r
}

// functions lists the repository functions that were executed symbolically.
func (p *Program) functions() []string {
	var fs []string
	p.fns.Range(func(_, v any) bool {
		f := v.(*cfn)
		if f.inRepo && f.used.Load() > 0 && f.fn.Synthetic == "" && f.intrinsic == nil {
			fs = append(fs, f.name)
		}
		return true
	})
	sort.Strings(fs)
	return fs
}

func (p *Program) lookupFn(pkg, name string) (*cfn, error) {
	sp := p.pkgs[pkg]
	if sp == nil {
		return nil, fmt.Errorf("package %s is not loaded", pkg)
	}
	sp.Build()
	f := sp.Func(name)
	if f == nil {
		return nil, fmt.Errorf("no function %s in %s", name, pkg)
	}
	return p.cfnOf(f), nil
}

func init() { debug.SetGCPercent(400) }
