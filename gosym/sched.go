package main

import (
	"fmt"

	"golang.org/x/tools/go/ssa"
)

// Goroutines of the interpreted program are host goroutines that pass a baton:
// exactly one of them runs at a time, and every switch is a recorded decision.

func (m *machine) newGor(fn *funcVal, args []value) *gor {
	g := &gor{id: m.ngor, m: m, resume: make(chan struct{}), fn: fn, args: args}
	m.ngor++
	m.gors = append(m.gors, g)
	if m.race != nil {
		m.race.spawn(m.cur, g)
	}
	return g
}

// start launches the host goroutine of g, parked until it is scheduled.
func (g *gor) start() {
	go func() {
		<-g.resume
		if g.m.over {
			g.dead = true
			g.m.done <- struct{}{}
			return
		}
		g.main()
	}()
}

func (g *gor) main() {
	m := g.m
	defer func() {
		r := recover()
		g.dead = true
		if m.over {
			// being killed: acknowledge
			m.done <- struct{}{}
			return
		}
		switch r := r.(type) {
		case nil, goexitPanic:
			if g.isMain {
				m.finish(PathResult{Kind: abDone})
				return
			}
			m.removeGor(g)
			m.scheduleFrom(g, true)
			return
		case targetPanic:
			m.cur = g
			what := m.panicText(r)
			func() {
				defer func() { recover() }()
				m.violate("unexpected-panic", "panic reaches the top of a goroutine: "+what, m.model, "panic")
			}()
			m.finish(PathResult{Kind: abViolation, Msg: "panic: " + what})
		case abortPath:
			m.finish(PathResult{Kind: r.kind, Msg: r.msg})
		default:
			if debugInternal {
				panic(r)
			}
			m.finish(PathResult{Kind: abUnsupported, Msg: fmt.Sprintf("internal: %v at %s\n%s", r, m.where(), m.stack())})
		}
	}()
	g.result = g.callValue(nil, g.fn, g.args)
}

var debugInternal bool

func (m *machine) removeGor(g *gor) {
	for i, x := range m.gors {
		if x == g {
			m.gors = append(m.gors[:i:i], m.gors[i+1:]...)
			return
		}
	}
}

// finish ends the path; the caller's goroutine must return immediately.
func (m *machine) finish(r PathResult) {
	m.over = true
	m.result = &r
	m.done <- struct{}{}
}

// runnable lists goroutines that can proceed, cur first.
func (m *machine) runnable(cur *gor) []*gor {
	var rs []*gor
	if cur != nil && !cur.dead && (cur.ready == nil || cur.ready()) {
		rs = append(rs, cur)
	}
	for _, g := range m.gors {
		if g != cur && !g.dead && (g.ready == nil || g.ready()) {
			rs = append(rs, g)
		}
	}
	return rs
}

// scheduleFrom gives the baton away from g, which is blocked or dead.
func (m *machine) scheduleFrom(g *gor, dead bool) {
	rs := m.runnable(nil)
	if len(rs) == 0 {
		if !m.guarded(func() {
			for n := 0; len(rs) == 0 && m.fireTimer(); n++ {
				if n == 100 {
					unsupported("timers that nothing waits for")
				}
				rs = m.runnable(nil)
			}
		}) {
			if !dead {
				<-g.resume
				panic(abortPath{kind: abKilled})
			}
			return
		}
	}
	if len(rs) == 0 {
		desc := ""
		for _, x := range m.gors {
			desc += fmt.Sprintf(" g%d:%s", x.id, x.what)
		}
		func() {
			defer func() { recover() }()
			m.violate("deadlock", "all goroutines are blocked:"+desc, m.model, "deadlock")
		}()
		m.finish(PathResult{Kind: abViolation, Msg: "deadlock:" + desc})
		if !dead {
			<-g.resume
			panic(abortPath{kind: abKilled})
		}
		return
	}
	var i int
	if !m.guarded(func() { i = m.choose(len(rs), "schedule") }) {
		if !dead {
			<-g.resume
			panic(abortPath{kind: abKilled})
		}
		return
	}
	next := rs[i]
	next.ready = nil
	m.cur = next
	if next == g {
		return
	}
	next.resume <- struct{}{}
	if !dead {
		<-g.resume
		if m.over {
			panic(abortPath{kind: abKilled})
		}
	}
}

// guarded runs f and ends the path if a bound is exceeded.
func (m *machine) guarded(f func()) (ok bool) {
	defer func() {
		if r := recover(); r != nil {
			a, is := r.(abortPath)
			if !is {
				panic(r)
			}
			m.finish(PathResult{Kind: a.kind, Msg: a.msg})
			ok = false
		}
	}()
	f()
	return true
}

// block parks g until cond holds.
func (m *machine) block(g *gor, what string, cond func() bool) {
	if m.local != nil {
		unsupported("blocking inside a merged call")
	}
	if cond() {
		return
	}
	g.ready = cond
	g.what = what
	m.scheduleFrom(g, false)
	g.ready = nil
}

// yield is a scheduling point: another goroutine may run here.
func (m *machine) yield(g *gor) {
	if len(m.gors) < 2 || m.local != nil {
		return
	}
	if m.preempt <= 0 {
		return
	}
	g.ready = nil
	rs := m.runnable(g)
	if len(rs) < 2 {
		return
	}
	i := m.choose(len(rs), "preempt")
	next := rs[i]
	if next == g {
		return
	}
	m.preempt--
	next.ready = nil
	m.cur = next
	next.resume <- struct{}{}
	<-g.resume
	if m.over {
		panic(abortPath{kind: abKilled})
	}
}

// killAll unwinds every parked goroutine after the path is over.
func (m *machine) killAll() {
	for _, g := range m.gors {
		if !g.dead {
			g.resume <- struct{}{}
			<-m.done
		}
	}
}

// ---- channels -----------------------------------------------------------

type channel struct {
	cap    int
	buf    []value
	closed bool
	sendq  []*waiter
	recvq  []*waiter
	clock  vclock
	zero   func() value
	timer  *simTimer
}

type selState struct {
	done bool
	idx  int
	val  value
	ok   bool
	clk  vclock
}

type waiter struct {
	g   *gor
	sel *selState
	idx int
	val value
}

func popWaiter(q *[]*waiter) *waiter {
	for len(*q) > 0 {
		w := (*q)[0]
		*q = (*q)[1:]
		if !w.sel.done {
			return w
		}
	}
	return nil
}

func hasWaiter(q []*waiter) bool {
	for _, w := range q {
		if !w.sel.done {
			return true
		}
	}
	return false
}

func (c *channel) canSend() bool {
	return c.closed || len(c.buf) < c.cap || hasWaiter(c.recvq)
}

func (c *channel) canRecv() bool {
	return len(c.buf) > 0 || c.closed || hasWaiter(c.sendq)
}

func (m *machine) doSend(g *gor, c *channel, v value) {
	if c.closed {
		panic(targetPanic{iface{m.p.runtimeErrorT, "send on closed channel"}})
	}
	if m.race != nil {
		if c.cap > 0 {
			m.race.acquire(g, c.clock)
		}
		m.race.release(g, &c.clock)
	}
	if w := popWaiter(&c.recvq); w != nil {
		w.sel.done, w.sel.idx, w.sel.val, w.sel.ok = true, w.idx, v, true
		if m.race != nil {
			m.race.acquire(w.g, c.clock)
		}
		return
	}
	c.buf = append(c.buf, v)
}

func (m *machine) doRecv(g *gor, c *channel) (value, bool) {
	if m.race != nil {
		m.race.acquire(g, c.clock)
		if c.cap > 0 {
			// a receive happens before the completion of the send that
			// reuses its slot
			m.race.release(g, &c.clock)
		}
	}
	if len(c.buf) > 0 {
		v := c.buf[0]
		c.buf = append([]value(nil), c.buf[1:]...)
		if w := popWaiter(&c.sendq); w != nil {
			c.buf = append(c.buf, w.val)
			w.sel.done, w.sel.idx = true, w.idx
			if m.race != nil {
				m.race.acquire(w.g, c.clock)
			}
		}
		return v, true
	}
	if w := popWaiter(&c.sendq); w != nil {
		w.sel.done, w.sel.idx = true, w.idx
		if m.race != nil {
			m.race.acquire(w.g, g.clock)
			m.race.tick(g)
		}
		return w.val, true
	}
	// closed
	return c.zero(), false
}

func (m *machine) send(g *gor, c *channel, v value) {
	m.yield(g)
	if c == nil {
		m.block(g, "send on nil channel", func() bool { return false })
	}
	if c.canSend() {
		m.doSend(g, c, v)
		return
	}
	s := &selState{}
	if m.race != nil {
		m.race.release(g, &c.clock)
	}
	c.sendq = append(c.sendq, &waiter{g: g, sel: s, val: v})
	m.block(g, "chan send", func() bool { return s.done || c.closed })
	if !s.done {
		s.done = true
		panic(targetPanic{iface{m.p.runtimeErrorT, "send on closed channel"}})
	}
}

func (m *machine) recv(g *gor, c *channel) (value, bool) {
	m.yield(g)
	if c == nil {
		m.block(g, "receive from nil channel", func() bool { return false })
	}
	if c.canRecv() {
		return m.doRecv(g, c)
	}
	s := &selState{}
	c.recvq = append(c.recvq, &waiter{g: g, sel: s})
	m.block(g, "chan receive", func() bool { return s.done || c.closed })
	if s.done {
		return s.val, s.ok
	}
	s.done = true
	if m.race != nil {
		m.race.acquire(g, c.clock)
	}
	return c.zero(), false
}

func (m *machine) closeChan(g *gor, c *channel) {
	m.yield(g)
	if c == nil {
		m.throw("close of nil channel")
	}
	if c.closed {
		m.throw("close of closed channel")
	}
	if m.race != nil {
		m.race.release(g, &c.clock)
	}
	c.closed = true
}

type selCase struct {
	c    *channel
	send bool
	v    value
}

// selectOn implements select; it returns the chosen index (-1: default).
func (m *machine) selectOn(g *gor, cases []selCase, blocking bool) (int, value, bool) {
	m.yield(g)
	var ready []int
	for i, k := range cases {
		if k.c == nil {
			continue
		}
		if k.send && k.c.canSend() || !k.send && k.c.canRecv() {
			ready = append(ready, i)
		}
	}
	if len(ready) > 0 {
		i := ready[m.choose(len(ready), "select")]
		if cases[i].send {
			m.doSend(g, cases[i].c, cases[i].v)
			return i, nil, false
		}
		v, ok := m.doRecv(g, cases[i].c)
		return i, v, ok
	}
	if !blocking {
		return -1, nil, false
	}
	s := &selState{}
	for i, k := range cases {
		if k.c == nil {
			continue
		}
		w := &waiter{g: g, sel: s, idx: i, val: k.v}
		if k.send {
			if m.race != nil {
				m.race.release(g, &k.c.clock)
			}
			k.c.sendq = append(k.c.sendq, w)
		} else {
			k.c.recvq = append(k.c.recvq, w)
		}
	}
	closedCase := func() int {
		for i, k := range cases {
			if k.c != nil && k.c.closed {
				return i
			}
		}
		return -1
	}
	m.block(g, "select", func() bool { return s.done || closedCase() >= 0 })
	if s.done {
		return s.idx, s.val, s.ok
	}
	s.done = true
	i := closedCase()
	if cases[i].send {
		panic(targetPanic{iface{m.p.runtimeErrorT, "send on closed channel"}})
	}
	if m.race != nil {
		m.race.acquire(g, cases[i].c.clock)
	}
	return i, cases[i].c.zero(), false
}

// ---- mutexes ------------------------------------------------------------

type simMutex struct {
	locked  bool
	readers int
	clock   vclock
	rclock  vclock
}

func (m *machine) mutexOf(p *value) *simMutex {
	key := p
	if m.userData == nil {
		m.userData = map[string]any{}
	}
	mm, _ := m.userData["mutexes"].(map[*value]*simMutex)
	if mm == nil {
		mm = map[*value]*simMutex{}
		m.userData["mutexes"] = mm
	}
	x := mm[key]
	if x == nil {
		x = &simMutex{}
		mm[key] = x
	}
	return x
}

func (m *machine) lock(g *gor, p *value) {
	x := m.mutexOf(p)
	m.yield(g)
	m.block(g, "mutex lock", func() bool { return !x.locked && x.readers == 0 })
	x.locked = true
	if m.race != nil {
		m.race.acquire(g, x.clock)
		m.race.acquire(g, x.rclock)
	}
}

func (m *machine) tryLock(g *gor, p *value) bool {
	x := m.mutexOf(p)
	m.yield(g)
	if x.locked || x.readers > 0 {
		return false
	}
	x.locked = true
	if m.race != nil {
		m.race.acquire(g, x.clock)
		m.race.acquire(g, x.rclock)
	}
	return true
}

func (m *machine) unlock(g *gor, p *value) {
	x := m.mutexOf(p)
	if !x.locked {
		m.fatal("unlock of unlocked mutex")
	}
	if m.race != nil {
		m.race.release(g, &x.clock)
	}
	x.locked = false
	m.yield(g)
}

func (m *machine) rlock(g *gor, p *value) {
	x := m.mutexOf(p)
	m.yield(g)
	m.block(g, "rwmutex rlock", func() bool { return !x.locked })
	x.readers++
	if m.race != nil {
		m.race.acquire(g, x.clock)
	}
}

func (m *machine) runlock(g *gor, p *value) {
	x := m.mutexOf(p)
	if x.readers == 0 {
		m.fatal("sync: RUnlock of unlocked RWMutex")
	}
	if m.race != nil {
		m.race.release(g, &x.rclock)
	}
	x.readers--
	m.yield(g)
}

// fatal models an unrecoverable run-time error.
func (m *machine) fatal(msg string) {
	m.violate("fatal-error", "fatal error: "+msg, m.model, "panic")
	panic(abortPath{abViolation, "fatal error: " + msg})
}

// ---- timers -------------------------------------------------------------

type simTimer struct {
	c      *channel
	f      *funcVal
	active bool
	dur    value
	due    int64
	dueT   *Term // in a bubble
	period value // of a ticker
}

// fireTimer fires the earliest pending timer when nothing else can run.
func (m *machine) fireTimer() bool {
	var act []*simTimer
	for _, t := range m.timers {
		if t.active {
			act = append(act, t)
		}
	}
	if len(act) == 0 {
		return false
	}
	t := act[0]
	if m.now != nil {
		t = m.earliest(act)
		m.now = t.dueT
	} else {
		for _, x := range act[1:] {
			if x.due < t.due {
				t = x
			}
		}
	}
	t.active = false
	if t.due > m.nowBase {
		m.nowBase = t.due
	}
	if t.period != nil {
		t.active = true
		if m.now != nil {
			t.dueT = m.sum(t.dueT, m.term(t.period, 64))
		} else {
			t.due += m.concInt(t.period)
		}
	}
	if t.f != nil {
		g := m.newGor(t.f, nil)
		g.start()
		return true
	}
	if t.c != nil && len(t.c.buf) < 1 {
		m.doSend(m.gors[0], t.c, m.nowValue())
	}
	return true
}

// ---- happens-before race detection -------------------------------------

type vclock []int

func (a vclock) at(i int) int {
	if i < len(a) {
		return a[i]
	}
	return 0
}

func (a *vclock) join(b vclock) {
	for len(*a) < len(b) {
		*a = append(*a, 0)
	}
	for i, x := range b {
		if x > (*a)[i] {
			(*a)[i] = x
		}
	}
}

func (a vclock) clone() vclock { return append(vclock(nil), a...) }

type raceState struct {
	m      *machine
	shadow map[any]*shadow
}

type shadow struct {
	wg, wt int // last write: goroutine, time
	wpos   string
	reads  map[int]int
	rpos   map[int]string
}

func (r *raceState) tick(g *gor) {
	for len(g.clock) <= g.id {
		g.clock = append(g.clock, 0)
	}
	g.clock[g.id]++
}

func (r *raceState) spawn(parent, child *gor) {
	if parent != nil {
		child.clock = parent.clock.clone()
		r.tick(parent)
	}
	r.tick(child)
}

func (r *raceState) acquire(g *gor, c vclock) { g.clock.join(c) }

func (r *raceState) release(g *gor, c *vclock) {
	c.join(g.clock)
	r.tick(g)
}

func (r *raceState) access(fr *frame, key any, write bool) {
	g := fr.g
	s := r.shadow[key]
	if s == nil {
		s = &shadow{wg: -1, reads: map[int]int{}, rpos: map[int]string{}}
		r.shadow[key] = s
	}
	pos := ""
	if len(r.m.gors) > 1 {
		pos = fr.fn.name
	}
	conflict := ""
	if s.wg >= 0 && s.wg != g.id && s.wt > g.clock.at(s.wg) {
		conflict = s.wpos
	}
	if write {
		for rg, rt := range s.reads {
			if rg != g.id && rt > g.clock.at(rg) {
				conflict = s.rpos[rg]
			}
		}
	}
	if conflict != "" {
		r.m.schedDep = true
		r.m.violate("data-race", fmt.Sprintf("unsynchronized access in %s and %s", pos, conflict), r.m.model, "race")
		panic(abortPath{abViolation, "data race: " + pos + " / " + conflict})
	}
	if write {
		s.wg, s.wt, s.wpos = g.id, g.clock.at(g.id), pos
		if len(s.reads) > 0 {
			s.reads = map[int]int{}
			s.rpos = map[int]string{}
		}
	} else {
		s.reads[g.id] = g.clock.at(g.id)
		s.rpos[g.id] = pos
	}
}

// accessCell records an access to a cell and, for aggregates, its parts.
func (r *raceState) accessCell(fr *frame, p *value, write bool) {
	switch v := (*p).(type) {
	case structure:
		for i := range v {
			r.accessCell(fr, &v[i], write)
		}
	case array:
		for i := range v {
			r.accessCell(fr, &v[i], write)
		}
	default:
		r.access(fr, p, write)
	}
}

var _ ssa.Instruction
