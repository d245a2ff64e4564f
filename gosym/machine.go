package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Decision is one recorded nondeterministic choice of a path.
type Decision struct {
	N      int32  // which alternative (0 = false / first)
	Aux    uint64 // concretized value, if any
	Forced bool   // the other side is infeasible
}

// WorkItem is a path prefix still to be explored; Model satisfies it.
type WorkItem struct {
	Prefix []Decision
	Model  Model
}

// Draw is one nondeterministic value drawn by a harness.
type Draw struct {
	Name  string // unique: name#occurrence
	Term  *Term  // nil if concrete
	Kind  string // int, bool, str, sec, nsec
	Table []string
}

type PathResult struct {
	Kind       abortKind
	Msg        string
	Steps      int64
	Violations []*Candidate
	Witness    Model             // a model of the completed path
	Draws      []Draw            // draws of the path
	Inputs     map[string]string // concrete inputs of Witness
	Trace      []string          // trace entries under Witness (nil if not evaluable)
	Reached    []string
	Decisions  int
	PCLen      int
}

// Candidate is a counterexample found by the solver, to be replayed.
type Candidate struct {
	Label  string
	Detail string
	Where  string
	Inputs map[string]string
	Sched  bool // depends on schedule or map order
	Kind   string
}

type machine struct {
	p     *Program
	w     *worker
	ts    *Terms
	opts  *RunOpts
	globs map[*ssa.Global]*value
	inits map[*ssa.Package]int

	prefix []Decision
	pos    int
	dec    []Decision
	pc     []*Term
	pcSet  map[*Term]bool
	sent   int // pc conditions already asserted in the solver
	opened bool
	model  Model
	memo   map[*Term]uint64

	local *localCtx

	draws     []Draw
	drawCount map[string]int
	trace     []traceEntry
	reached   map[string]bool
	viol      []*Candidate
	violSeen  map[string]bool

	steps    int64
	maxSteps int64
	schedDep bool

	gors      []*gor
	cur       *gor
	ngor      int
	textBound int
	render    bool // messages are rendered in full
	preempt   int
	done      chan struct{} // signalled when the path is over
	over      bool
	result    *PathResult

	mapReverse bool
	mapAll     bool
	race       *raceState
	clockSec   *Term
	timers     []*simTimer
	userData   map[string]any
	nowBase    int64
	now        *Term // the clock of a bubble
	totals     map[timeParts]*Term
	calculated map[timeParts]bool
	nfresh     int
	nowFn      *funcVal
	allowLeak  bool
	pools      map[*value][]value
}

type traceEntry struct {
	label string
	vals  []value
}

type localCtx struct {
	prefix []bool
	pos    int
	taken  []bool
	pc     []*Term
	known  map[*Term]bool
	npaths int
}

type gor struct {
	id      int
	m       *machine
	resume  chan struct{}
	ready   func() bool // nil: runnable
	what    string
	dead    bool
	depth   int
	top     *frame
	fn      *funcVal
	args    []value
	clock   vclock
	result  value
	isMain  bool
	harness bool
}

type frame struct {
	g         *gor
	m         *machine
	fn        *cfn
	r         []value
	caller    *frame
	defers    *deferred
	panicking bool
	pnc       any
	result    value
	finished  bool
	cur       ssa.Instruction
	block     int
	prev      int
	deferBy   *frame // set when run as a deferred call
}

type deferred struct {
	fn   *funcVal
	args []value
	cfn  *cfn
	bi   *ssa.Builtin
	ins  ssa.CallInstruction
	tail *deferred
}

// ---- decisions ----------------------------------------------------------

func (m *machine) inReplay() bool { return m.pos < len(m.prefix) }

func (m *machine) addPC(t *Term) {
	if t.isTrue() || m.pcSet[t] {
		return
	}
	if t.op == opAnd {
		m.addPC(t.args[0])
		m.addPC(t.args[1])
		m.pcSet[t] = true
		return
	}
	m.pcSet[t] = true
	m.pc = append(m.pc, t)
}

// known tells whether t is syntactically decided by the path condition.
func (m *machine) known(t *Term) (bool, bool) {
	if t.isConst() {
		return t.k == 1, true
	}
	if m.pcSet[t] {
		return true, true
	}
	if m.pcSet[m.ts.Not(t)] {
		return false, true
	}
	if m.local != nil {
		if m.local.known[t] {
			return true, true
		}
		if m.local.known[m.ts.Not(t)] {
			return false, true
		}
	}
	switch t.op {
	case opAnd:
		a, ok := m.known(t.args[0])
		if ok && !a {
			return false, true
		}
		b, ok2 := m.known(t.args[1])
		if ok2 && !b {
			return false, true
		}
		if ok && ok2 {
			return true, true
		}
	case opOr:
		a, ok := m.known(t.args[0])
		if ok && a {
			return true, true
		}
		b, ok2 := m.known(t.args[1])
		if ok2 && b {
			return true, true
		}
		if ok && ok2 {
			return false, true
		}
	case opNot:
		a, ok := m.known(t.args[0])
		return !a, ok
	}
	return false, false
}

func (m *machine) evalModel(t *Term) uint64 {
	if m.memo == nil {
		m.memo = map[*Term]uint64{}
	}
	return t.eval(m.model, m.memo)
}

func (m *machine) setModel(md Model) {
	m.model = md
	m.memo = nil
}

// query decides the path condition together with extra: over integers if it
// can be stated there and is decided soon, else over bit vectors.
func (m *machine) query(extra *Term) (satResult, Model) {
	w := m.w
	ints := !w.ex.opts.Bits || m.now != nil
	if ints {
		if r, md, ok := m.queryInts(extra, quickQueryMS); ok && r != unknown {
			return r, md
		} else {
			ints = ok
		}
	}
	w.solver.limit(w.solver.timeout)
	r, md := m.queryBits(extra)
	if r == unknown && ints {
		if r, md, ok := m.queryInts(extra, w.solver.timeout); ok && r != unknown {
			w.solver.Unknown--
			return r, md
		}
	}
	return r, md
}

// quickQueryMS is the time after which another way is tried.
const quickQueryMS = 4000

func (m *machine) queryInts(extra *Term, ms int) (satResult, Model, bool) {
	w := m.w
	if w.ints == nil {
		s, err := newIntSolver(m.w.ex.opts.Solver, w.solver.timeout)
		if err != nil {
			return unknown, nil, false
		}
		w.ints = s
	}
	cs := append([]*Term{}, m.pc...)
	if extra != nil {
		cs = append(cs, extra)
	}
	w.ints.limit(min(ms, w.solver.timeout))
	r, md, ok := w.ints.CheckInts(cs)
	if ok && r == unknown {
		w.ints.Unknown-- // to be decided over bit vectors
	}
	return r, md, ok
}

func (m *machine) queryBits(extra *Term) (satResult, Model) {
	s := m.w.solver
	if !m.opened {
		s.Begin()
		m.opened = true
		m.sent = 0
	}
	for ; m.sent < len(m.pc); m.sent++ {
		s.Assert(m.pc[m.sent])
	}
	return s.Check(extra)
}

// decide picks a truth value for cond, scheduling the other one if feasible.
func (m *machine) decide(cond *Term) bool {
	if v, ok := m.known(cond); ok {
		return v
	}
	if l := m.local; l != nil {
		var v bool
		if l.pos < len(l.prefix) {
			v = l.prefix[l.pos]
		} else {
			v = true
		}
		l.pos++
		l.taken = append(l.taken, v)
		c := cond
		if !v {
			c = m.ts.Not(cond)
		}
		l.pc = append(l.pc, c)
		l.known[c] = true
		return v
	}
	return m.decideAux(cond, 0)
}

func (m *machine) decideAux(cond *Term, aux uint64) bool {
	m.w.stats.Branches++
	if m.inReplay() {
		d := m.prefix[m.pos]
		m.pos++
		m.dec = append(m.dec, d)
		v := d.N == 1
		if !d.Forced {
			if v {
				m.addPC(cond)
			} else {
				m.addPC(m.ts.Not(cond))
			}
		} else {
			m.remember(cond, v)
		}
		return v
	}
	m.w.stats.Nodes++
	v := m.evalModel(cond) == 1
	other := cond
	if v {
		other = m.ts.Not(cond)
	}
	res, md := m.query(other)
	d := Decision{Aux: aux}
	if v {
		d.N = 1
	}
	switch res {
	case sat:
		alt := Decision{N: 1 - d.N, Aux: aux}
		p := make([]Decision, len(m.dec)+1)
		copy(p, m.dec)
		p[len(m.dec)] = alt
		m.w.push(&WorkItem{Prefix: p, Model: md})
		m.w.stats.Forks++
		m.w.stats.Outcomes += 2
	case unsat:
		d.Forced = true
	default:
		m.w.stats.UnknownBranches++
		m.w.noteIncomplete("solver gave no answer for a branch at " + m.where())
	}
	m.dec = append(m.dec, d)
	m.pos++
	if d.Forced {
		m.remember(cond, v)
	} else if v {
		m.addPC(cond)
	} else {
		m.addPC(m.ts.Not(cond))
	}
	if m.pos > m.opts.MaxDecisions {
		panic(abortPath{abLimit, "decision bound exceeded at " + m.where()})
	}
	return v
}

// remember records an implied fact for syntactic lookups without asserting it.
func (m *machine) remember(cond *Term, v bool) {
	if v {
		m.pcSet[cond] = true
	} else {
		m.pcSet[m.ts.Not(cond)] = true
	}
}

// choose makes an n-ary nondeterministic choice (schedules, map orders).
func (m *machine) choose(n int, why string) int {
	if n <= 1 {
		return 0
	}
	if m.local != nil {
		unsupported("choice inside a merged call")
	}
	m.schedDep = true
	m.w.stats.Branches++
	if m.inReplay() {
		d := m.prefix[m.pos]
		m.pos++
		m.dec = append(m.dec, d)
		return int(d.N)
	}
	m.w.stats.Nodes++
	m.w.stats.Outcomes += n
	for i := n - 1; i >= 1; i-- {
		p := make([]Decision, len(m.dec)+1)
		copy(p, m.dec)
		p[len(m.dec)] = Decision{N: int32(i)}
		m.w.push(&WorkItem{Prefix: p, Model: m.model})
		m.w.stats.Forks++
	}
	m.dec = append(m.dec, Decision{N: 0})
	m.pos++
	return 0
}

// truth forces a boolean value to be concrete, forking if needed.
func (m *machine) truth(v value) bool {
	switch v := v.(type) {
	case bool:
		return v
	case *Term:
		return m.decide(v)
	}
	panic(fmt.Sprintf("truth of %T", v))
}

// concInt forces an integer to be concrete, forking over feasible values.
// Terms narrower than 64 bits are taken as unsigned.
func (m *machine) concInt(v value) int64 {
	switch v := v.(type) {
	case int64:
		return v
	case *Term:
		return int64(m.concretize(v))
	}
	panic(fmt.Sprintf("integer expected, have %T", v))
}

func (m *machine) concretize(t *Term) uint64 {
	if t.isConst() {
		return t.k
	}
	if m.local != nil {
		unsupported("concretization inside a merged call")
	}
	for n := 0; ; n++ {
		var v uint64
		if m.inReplay() {
			v = m.prefix[m.pos].Aux
		} else {
			v = m.evalModel(t)
		}
		eq := m.ts.Eq(t, m.ts.BV(v, t.width))
		if k, ok := m.known(eq); ok {
			if k {
				return v
			}
			// cannot happen: the model satisfies the path condition
			unsupported("inconsistent concretization")
		}
		if m.decideAux(eq, v) {
			return v
		}
		if n > m.opts.MaxConcretize {
			panic(abortPath{abLimit, "too many values concretizing at " + m.where()})
		}
		// the model may still be the one with t == v only if decide chose
		// false, in which case the work item's model differs; nothing to do
	}
}

// concStr forces a string to be concrete.
func (m *machine) concStr(v value) string {
	switch v := v.(type) {
	case string:
		return v
	case *SymStr:
		if v.idx == nil {
			unsupported("content of an unmodelled string is needed at %s", m.where())
		}
		for i := 0; i < len(v.table)-1; i++ {
			if m.decide(m.ts.Eq(v.idx, m.ts.BV(uint64(i), v.idx.width))) {
				return v.table[i]
			}
		}
		return v.table[len(v.table)-1]
	}
	panic(fmt.Sprintf("string expected, have %T", v))
}

func (m *machine) assume(cond value) {
	var t *Term
	switch c := cond.(type) {
	case bool:
		if !c {
			panic(abortPath{abInfeasible, "assumption is false"})
		}
		return
	case *Term:
		t = c
	}
	if v, ok := m.known(t); ok {
		if !v {
			panic(abortPath{abInfeasible, "assumption is false"})
		}
		return
	}
	if m.inReplay() {
		m.addPC(t)
		return
	}
	if m.evalModel(t) == 1 {
		m.addPC(t)
		return
	}
	res, md := m.query(t)
	switch res {
	case sat:
		m.addPC(t)
		m.setModel(md)
	case unsat:
		panic(abortPath{abInfeasible, "assumption is infeasible"})
	default:
		m.w.noteIncomplete("solver gave no answer for an assumption at " + m.where())
		panic(abortPath{abUnknown, "assumption undecided"})
	}
}

func (m *machine) assert(cond value, label, detail string) {
	m.w.stats.Asserts++
	if m.w.labels != nil {
		m.w.labels[label]++
	}
	var t *Term
	switch c := cond.(type) {
	case bool:
		if c {
			return
		}
		m.violate(label, detail, m.model, "assertion")
		panic(abortPath{abViolation, label})
	case *Term:
		t = c
	}
	if v, ok := m.known(t); ok {
		if !v {
			m.violate(label, detail, m.model, "assertion")
			panic(abortPath{abViolation, label})
		}
		return
	}
	if m.inReplay() {
		m.addPC(t)
		return
	}
	m.w.stats.AssertQueries++
	neg := m.ts.Not(t)
	if m.evalModel(t) == 0 {
		m.violate(label, detail, m.model, "assertion")
		res, md := m.query(t)
		if res != sat {
			panic(abortPath{abViolation, label})
		}
		m.setModel(md)
		m.addPC(t)
		return
	}
	res, md := m.query(neg)
	switch res {
	case sat:
		m.violate(label, detail, md, "assertion")
		m.addPC(t)
	case unsat:
		m.pcSet[t] = true
	default:
		m.w.noteIncomplete("solver gave no answer for assertion " + label)
		m.addPC(t)
	}
}

// violate records a counterexample candidate.
func (m *machine) violate(label, detail string, md Model, kind string) {
	if m.violSeen[label] {
		return
	}
	m.violSeen[label] = true
	if m.inReplay() && kind == "assertion" {
		return // reported by the ancestor path
	}
	m.viol = append(m.viol, &Candidate{
		Label: label, Detail: detail, Where: m.where(),
		Inputs: m.inputs(md), Sched: m.schedDep, Kind: kind,
	})
}

// inputs renders the draws of the path under a model.
func (m *machine) inputs(md Model) map[string]string {
	in := map[string]string{}
	memo := map[*Term]uint64{}
	for _, d := range m.draws {
		if d.Term == nil {
			continue
		}
		v := d.Term.eval(md, memo)
		switch d.Kind {
		case "bool":
			in[d.Name] = fmt.Sprint(v == 1)
		default:
			in[d.Name] = fmt.Sprint(sext(v, d.Term.width))
		}
	}
	return in
}

func (m *machine) drawName(name string) string {
	n := m.drawCount[name]
	m.drawCount[name] = n + 1
	return fmt.Sprintf("%s#%d", name, n)
}

func (m *machine) where() string {
	if m.cur == nil || m.cur.top == nil {
		return "?"
	}
	for fr := m.cur.top; fr != nil; fr = fr.caller {
		if fr.cur != nil && fr.cur.Pos().IsValid() {
			return m.p.pos(fr.cur.Pos())
		}
	}
	return "?"
}

func (m *machine) stack() string {
	var sb strings.Builder
	if m.cur == nil {
		return ""
	}
	n := 0
	for fr := m.cur.top; fr != nil && n < 30; fr = fr.caller {
		sb.WriteString("  " + fr.fn.name)
		if fr.cur != nil {
			sb.WriteString(" " + m.p.pos(fr.cur.Pos()))
		}
		sb.WriteString("\n")
		n++
	}
	return sb.String()
}

// ---- merging of pure calls ---------------------------------------------

// mergeCall runs f, exploring its symbolic branches locally, and merges the
// results with if-then-else terms. f must be free of side effects.
func (m *machine) mergeCall(T types.Type, f func() value) (res value) {
	if m.local != nil {
		return f()
	}
	type outcome struct {
		pc *Term
		v  value
	}
	var outs []outcome
	work := [][]bool{nil}
	fallback := false
	savedTop := m.cur.top
	savedDepth := m.cur.depth
	for len(work) > 0 && !fallback {
		pre := work[len(work)-1]
		work = work[:len(work)-1]
		l := &localCtx{prefix: pre, known: map[*Term]bool{}}
		m.local = l
		var v value
		func() {
			defer func() {
				m.local = nil
				if r := recover(); r != nil {
					switch r := r.(type) {
					case targetPanic:
						fallback = true
					case abortPath:
						if r.kind == abUnsupported {
							fallback = true
						} else {
							panic(r)
						}
					default:
						panic(r)
					}
					m.cur.top = savedTop
					m.cur.depth = savedDepth
				}
			}()
			v = f()
		}()
		if fallback {
			break
		}
		for i := len(pre); i < len(l.taken); i++ {
			alt := make([]bool, i+1)
			copy(alt, l.taken[:i])
			alt[i] = !l.taken[i]
			work = append(work, alt)
		}
		pc := m.ts.Bool(true)
		for _, c := range l.pc {
			pc = m.ts.And(pc, c)
		}
		outs = append(outs, outcome{pc, v})
		if len(outs) > 40 {
			fallback = true
		}
	}
	if !fallback {
		res = outs[len(outs)-1].v
		ok := true
		for i := len(outs) - 2; i >= 0 && ok; i-- {
			res, ok = m.iteVal(outs[i].pc, outs[i].v, res, T)
		}
		if ok {
			return res
		}
	}
	return f()
}

// iteVal merges two values of the same static type.
func (m *machine) iteVal(c *Term, a, b value, T types.Type) (value, bool) {
	switch x := a.(type) {
	case structure:
		y, ok := b.(structure)
		if !ok || len(x) != len(y) {
			return nil, false
		}
		r := make(structure, len(x))
		st := T.Underlying().(*types.Struct)
		for i := range x {
			v, ok := m.iteVal(c, x[i], y[i], st.Field(i).Type())
			if !ok {
				return nil, false
			}
			r[i] = v
		}
		return r, true
	case tuple:
		y, ok := b.(tuple)
		if !ok || len(x) != len(y) {
			return nil, false
		}
		r := make(tuple, len(x))
		tt := T.(*types.Tuple)
		for i := range x {
			v, ok := m.iteVal(c, x[i], y[i], tt.At(i).Type())
			if !ok {
				return nil, false
			}
			r[i] = v
		}
		return r, true
	case bool:
		switch y := b.(type) {
		case bool:
			if x == y {
				return x, true
			}
		}
		bt, ok := m.boolTerm(b)
		if !ok {
			return nil, false
		}
		return m.unterm(m.ts.Ite(c, m.ts.Bool(x), bt)), true
	case int64:
		switch y := b.(type) {
		case int64:
			if x == y {
				return x, true
			}
			w, _, ok := intInfo(T)
			if !ok {
				return nil, false
			}
			return m.ts.Ite(c, m.ts.BV(uint64(x), w), m.ts.BV(uint64(y), w)), true
		case *Term:
			return m.ts.Ite(c, m.ts.BV(uint64(x), y.width), y), true
		}
	case *Term:
		switch y := b.(type) {
		case *Term:
			return m.ts.Ite(c, x, y), true
		case int64:
			return m.ts.Ite(c, x, m.ts.BV(uint64(y), x.width)), true
		case bool:
			return m.ts.Ite(c, x, m.ts.Bool(y)), true
		}
	case *value:
		if y, ok := b.(*value); ok && x == y {
			return x, true
		}
	case string:
		if y, ok := b.(string); ok && x == y {
			return x, true
		}
	}
	return nil, false
}

func (m *machine) boolTerm(v value) (*Term, bool) {
	switch v := v.(type) {
	case bool:
		return m.ts.Bool(v), true
	case *Term:
		return v, true
	}
	return nil, false
}

func (m *machine) unterm(t *Term) value {
	if t.isConst() {
		if t.width == 0 {
			return t.k == 1
		}
	}
	return t
}

// ---- equality -----------------------------------------------------------

func (m *machine) and(a, b value) value {
	if x, ok := a.(bool); ok {
		if !x {
			return false
		}
		return b
	}
	if y, ok := b.(bool); ok {
		if !y {
			return false
		}
		return a
	}
	return m.unterm(m.ts.And(a.(*Term), b.(*Term)))
}

func (m *machine) not(a value) value {
	if x, ok := a.(bool); ok {
		return !x
	}
	return m.unterm(m.ts.Not(a.(*Term)))
}

// equal compares two values of identical static type.
func (m *machine) equal(a, b value) value {
	switch x := a.(type) {
	case int64:
		switch y := b.(type) {
		case int64:
			return x == y
		case *Term:
			return m.unterm(m.ts.Eq(y, m.ts.BV(uint64(x), y.width)))
		}
	case bool:
		switch y := b.(type) {
		case bool:
			return x == y
		case *Term:
			if x {
				return y
			}
			return m.unterm(m.ts.Not(y))
		}
	case *Term:
		switch y := b.(type) {
		case int64:
			return m.unterm(m.ts.Eq(x, m.ts.BV(uint64(y), x.width)))
		case bool:
			if y {
				return x
			}
			return m.unterm(m.ts.Not(x))
		case *Term:
			return m.unterm(m.ts.Eq(x, y))
		}
	case string:
		switch y := b.(type) {
		case string:
			return x == y
		case *SymStr:
			return m.eqStr(y, x)
		}
	case *SymStr:
		switch y := b.(type) {
		case string:
			return m.eqStr(x, y)
		case *SymStr:
			return m.eqSymStr(x, y)
		}
	case float64:
		if y, ok := b.(*symFloat); ok {
			return m.floatEq(constFloat(x), y)
		}
		return x == b.(float64)
	case *symFloat:
		return m.floatEq(x, floatVal(b))
	case complex128:
		return x == b.(complex128)
	case *value:
		y, ok := b.(*value)
		return ok && x == y
	case structure:
		y := b.(structure)
		var r value = true
		for i := range x {
			r = m.and(r, m.equal(x[i], y[i]))
			if r == false {
				return false
			}
		}
		return r
	case array:
		y := b.(array)
		var r value = true
		for i := range x {
			r = m.and(r, m.equal(x[i], y[i]))
			if r == false {
				return false
			}
		}
		return r
	case iface:
		y := b.(iface)
		if x.t != y.t {
			return false
		}
		if x.t == nil {
			return true
		}
		if !types.Comparable(x.t) {
			m.throw("comparing uncomparable type " + m.p.typeString(x.t))
		}
		return m.equal(x.v, y.v)
	case *hmap:
		return x == b.(*hmap)
	case *channel:
		return x == b.(*channel)
	case *funcVal:
		y, _ := b.(*funcVal)
		if x == nil || y == nil {
			return x == nil && y == nil
		}
		return x == y
	case []value:
		y, _ := b.([]value)
		if x == nil || y == nil {
			return x == nil && y == nil
		}
	case opaqueByte:
		unsupported("comparison of unmodelled text at %s", m.where())
	case nil:
		return b == nil
	case *nativeBox:
		return a == b
	}
	panic(fmt.Sprintf("equal: %T and %T", a, b))
}

func (m *machine) eqStr(s *SymStr, c string) value {
	if s == opaqueStr && c == "" {
		return false
	}
	if s.idx == nil {
		unsupported("comparison of unmodelled text at %s\n%s", m.where(), m.stack())
	}
	r := m.ts.Bool(false)
	for i, e := range s.table {
		if e == c {
			r = m.ts.Or(r, m.ts.Eq(s.idx, m.ts.BV(uint64(i), s.idx.width)))
		}
	}
	return m.unterm(r)
}

func (m *machine) eqSymStr(a, b *SymStr) value {
	if a == b && a.idx != nil {
		return true
	}
	if a.idx == nil || b.idx == nil {
		unsupported("comparison of unmodelled text at %s\n%s", m.where(), m.stack())
	}
	same := len(a.table) == len(b.table) && a.idx.width == b.idx.width
	if same {
		for i := range a.table {
			if a.table[i] != b.table[i] {
				same = false
			}
		}
	}
	if same && distinct(a.table) {
		return m.unterm(m.ts.Eq(a.idx, b.idx))
	}
	r := m.ts.Bool(false)
	for i, x := range a.table {
		for j, y := range b.table {
			if x == y {
				r = m.ts.Or(r, m.ts.And(
					m.ts.Eq(a.idx, m.ts.BV(uint64(i), a.idx.width)),
					m.ts.Eq(b.idx, m.ts.BV(uint64(j), b.idx.width))))
			}
		}
	}
	return m.unterm(r)
}

func distinct(t []string) bool {
	for i := range t {
		for j := i + 1; j < len(t); j++ {
			if t[i] == t[j] {
				return false
			}
		}
	}
	return true
}

// mapStr applies a pure function to each value of a symbolic string.
func (m *machine) mapStr(s *SymStr, f func(string) string) value {
	if s.idx == nil {
		return s
	}
	n := &SymStr{idx: s.idx, table: make([]string, len(s.table))}
	for i, e := range s.table {
		n.table[i] = f(e)
	}
	return n
}

// concat concatenates two string values.
func (m *machine) concat(a, b value) value {
	x, xs := a.(string)
	y, ys := b.(string)
	switch {
	case xs && ys:
		return x + y
	case xs:
		return m.mapStr(b.(*SymStr), func(s string) string { return x + s })
	case ys:
		return m.mapStr(a.(*SymStr), func(s string) string { return s + y })
	}
	p, q := a.(*SymStr), b.(*SymStr)
	if p.idx == nil || q.idx == nil {
		return opaqueStr
	}
	if len(p.table)*len(q.table) > m.texts() {
		return opaqueStr
	}
	return m.cross(p, q, func(s, t string) string { return s + t })
}

// texts is the number of different values a symbolic text may have.
func (m *machine) texts() int {
	if m.textBound > 0 {
		return m.textBound
	}
	return 64
}

func (m *machine) cross(p, q *SymStr, f func(a, b string) string) *SymStr {
	n := &SymStr{}
	n.idx = m.ts.Bin(opAdd,
		m.ts.Bin(opMul, m.ts.ZExt(p.idx, 16), m.ts.BV(uint64(len(q.table)), 16)),
		m.ts.ZExt(q.idx, 16))
	for _, a := range p.table {
		for _, b := range q.table {
			n.table = append(n.table, f(a, b))
		}
	}
	return n
}

// throw raises a Go run-time error in the interpreted program.
func (m *machine) throw(msg string) {
	panic(targetPanic{iface{m.p.runtimeErrorT, msg}})
}

func (m *machine) checkHashable(f iface) {
	if f.t != nil && !types.Comparable(f.t) {
		m.throw("hash of unhashable type " + m.p.typeString(f.t))
	}
}
