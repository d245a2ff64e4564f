package main

import (
	"math"
	"sort"
	"time"
)

// Inside of nd.Bubble the model clock is a term: it stands still while
// anything runs and moves to the earliest timer, whichever that is, when all
// goroutines are blocked. Natively a bubble is a testing/synctest one.

const bubbleStart = int64(946684800) * 1e9 // midnight UTC 2000-01-01

type timeParts struct{ wall, ext *Term }

// total is the number of nanoseconds since 1970 of a wall clock time.
func (m *machine) total(v value) (*Term, bool) {
	s, ok := v.(structure)
	if !ok {
		return nil, false
	}
	if w, ok := s[0].(int64); ok {
		if e, ok := s[1].(int64); ok {
			u := e - unixToInternal
			if w < 0 || u < -9e9 || u > 9e9 {
				return nil, false
			}
			return m.ts.BV(uint64(u*1e9+w&(1<<30-1)), 64), true
		}
	}
	w, e := m.term(s[0], 64), m.term(s[1], 64)
	if x, ok := m.totals[timeParts{w, e}]; ok {
		return x, true
	}
	if knownZero(w)>>30 != 1<<34-1 {
		return nil, false
	}
	if lo, hi := e.srange(); lo < unixToInternal || hi > unixToInternal+9e9 {
		return nil, false
	}
	u := m.ts.Bin(opSub, e, m.ts.BV(uint64(unixToInternal), 64))
	return m.ts.Bin(opAdd, m.ts.Bin(opMul, u, m.ts.BV(1e9, 64)), w), true
}

// derived reports whether a time was calculated. Times that were not are
// compared by seconds and nanoseconds, as the library does.
func (m *machine) derived(v value) bool {
	s, ok := v.(structure)
	return ok && m.calculated[timeParts{m.term(s[0], 64), m.term(s[1], 64)}]
}

func (m *machine) setTotal(s structure, x *Term) {
	if m.totals == nil {
		m.totals = map[timeParts]*Term{}
	}
	m.totals[timeParts{m.term(s[0], 64), m.term(s[1], 64)}] = x
}

// timeOf is the UTC time of a number of nanoseconds since 1970.
func (m *machine) timeOf(x *Term) structure {
	if x.isConst() {
		n := sext(x.k, 64)
		s, r := n/1e9, n%1e9
		if r < 0 {
			s, r = s-1, r+1e9
		}
		return structure{r, s + unixToInternal, (*value)(nil)}
	}
	if lo, _ := x.srange(); lo < 0 {
		unsupported("symbolic time before 1970 at %s", m.where())
	}
	g := m.ts.BV(1e9, 64)
	s := structure{m.ts.Bin(opURem, x, g), m.ts.Bin(opAdd, m.ts.Bin(opUDiv, x, g), m.ts.BV(uint64(unixToInternal), 64)), (*value)(nil)}
	m.setTotal(s, x)
	if m.calculated == nil {
		m.calculated = map[timeParts]bool{}
	}
	m.calculated[timeParts{m.term(s[0], 64), m.term(s[1], 64)}] = true
	return s
}

// both returns the totals of two times if one of them is symbolic.
func (m *machine) both(a, b value) (x, y *Term, ok bool) {
	if !m.hasSymbolic([]value{a, b}) || m.now == nil && !m.derived(a) && !m.derived(b) {
		return nil, nil, false
	}
	x, ok = m.total(a)
	if ok {
		y, ok = m.total(b)
	}
	return x, y, ok
}

// linear writes a 64-bit term as a sum of multiples of other terms, modulo
// 2^64.
func linear(t *Term, k int64, coef map[*Term]int64) (c int64) {
	switch {
	case t.isConst():
		return int64(t.k) * k
	case t.op == opNeg:
		return linear(t.args[0], -k, coef)
	case t.op == opAdd:
		return linear(t.args[0], k, coef) + linear(t.args[1], k, coef)
	case t.op == opSub:
		return linear(t.args[0], k, coef) + linear(t.args[1], -k, coef)
	case t.op == opMul && t.args[1].isConst():
		return linear(t.args[0], k*int64(t.args[1].k), coef)
	case t.op == opMul && t.args[0].isConst():
		return linear(t.args[1], k*int64(t.args[0].k), coef)
	}
	coef[t] += k
	return 0
}

// diff returns terms p and n without common parts such that p-n is a-b, where
// neither the difference nor its parts wrap around.
func (m *machine) diff(a, b *Term) (p, n *Term) {
	coef := map[*Term]int64{}
	c := linear(a, 1, coef) + linear(b, -1, coef)
	var ts []*Term
	for t := range coef {
		ts = append(ts, t)
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i].id < ts[j].id })
	zero := m.ts.BV(0, 64)
	p, n = zero, zero
	add := func(x *Term, t *Term, k int64) *Term {
		if k != 1 {
			t = m.ts.Bin(opMul, t, m.ts.BV(uint64(k), 64))
		}
		if x == zero {
			return t
		}
		return m.noWrap(x, t)
	}
	for _, t := range ts {
		switch k := coef[t]; {
		case k > 0:
			p = add(p, t, k)
		case k < 0:
			n = add(n, t, -k)
		}
	}
	if c >= 0 {
		p = add(p, m.ts.BV(uint64(c), 64), 1)
	} else {
		n = add(n, m.ts.BV(uint64(-c), 64), 1)
	}
	return p, n
}

func wraps(a, b *Term) bool {
	la, ha := a.srange()
	lb, hb := b.srange()
	_, ok1 := addOv(la, lb)
	_, ok2 := addOv(ha, hb)
	return !ok1 || !ok2 || ha == math.MaxInt64 || hb == math.MaxInt64
}

func (m *machine) noWrap(a, b *Term) *Term {
	if wraps(a, b) {
		unsupported("symbolic times out of range at %s", m.where())
	}
	return m.ts.Bin(opAdd, a, b)
}

// sum adds without wrapping around.
func (m *machine) sum(a, b *Term) *Term {
	m.noWrap(a, b)
	p, n := m.diff(a, m.ts.Neg(b))
	return m.minus(p, n)
}

func (m *machine) minus(p, n *Term) *Term {
	if n.isConst() {
		return m.ts.Bin(opAdd, p, m.ts.Neg(n))
	}
	return m.ts.Bin(opSub, p, n)
}

// earliest picks the timer that is due first.
func (m *machine) earliest(act []*simTimer) *simTimer {
	t := act[0]
	for _, x := range act[1:] {
		p, n := m.diff(x.dueT, t.dueT)
		if m.decide(m.ts.Bin(opSLt, p, n)) {
			t = x
		} else if m.decide(m.ts.Eq(p, n)) && m.choose(2, "timer") == 1 {
			t = x
		}
	}
	return t
}

func init() {
	reg(ndPath+".Bubble", func(c *icall) value {
		c.m.now = c.m.ts.BV(uint64(bubbleStart), 64)
		c.g.callValue(c.fr, c.args[0].(*funcVal), nil)
		c.m.now = nil
		return nil
	})
	reg("(time.Time).Add", func(c *icall) value {
		if !c.m.hasSymbolic(c.args) {
			return passThrough
		}
		x, ok := c.m.total(c.args[0])
		if !ok {
			return passThrough
		}
		d := c.m.term(c.args[1], 64)
		if c.m.now == nil {
			if wraps(x, d) {
				return passThrough
			}
			if lo, _ := c.m.sum(x, d).srange(); lo < 0 {
				return passThrough
			}
		}
		r := c.m.timeOf(c.m.sum(x, d))
		r[2] = c.args[0].(structure)[2]
		return r
	})
	cmp := func(name string, f func(ts *Terms, x, y *Term) *Term) {
		reg("(time.Time)."+name, func(c *icall) value {
			x, y, ok := c.m.both(c.args[0], c.args[1])
			if !ok {
				return passThrough
			}
			x, y = c.m.diff(x, y)
			return c.m.unterm(f(c.m.ts, x, y))
		})
	}
	cmp("Before", func(ts *Terms, x, y *Term) *Term { return ts.Bin(opSLt, x, y) })
	cmp("After", func(ts *Terms, x, y *Term) *Term { return ts.Bin(opSLt, y, x) })
	cmp("Equal", func(ts *Terms, x, y *Term) *Term { return ts.Eq(x, y) })
	cmp("Compare", func(ts *Terms, x, y *Term) *Term {
		one, zero := ts.BV(1, 64), ts.BV(0, 64)
		return ts.Ite(ts.Bin(opSLt, x, y), ts.Neg(one), ts.Ite(ts.Eq(x, y), zero, one))
	})
	// 1970 is a whole number of days after the zero time, from which multiples
	// are counted
	multiple := func(name string, add func(d int64) int64) {
		reg("(time.Time)."+name, func(c *icall) value {
			d, ok := c.args[1].(int64)
			if !ok || d <= 0 || int64(24*time.Hour)%d != 0 || !c.m.hasSymbolic(c.args) {
				return passThrough
			}
			x, ok := c.m.total(c.args[0])
			if !ok {
				return passThrough
			}
			k := c.m.ts.BV(uint64(add(d)), 64)
			if lo, _ := x.srange(); lo < 0 || wraps(x, k) {
				return passThrough
			}
			g := c.m.ts.BV(uint64(d), 64)
			x = c.m.ts.Bin(opMul, c.m.ts.Bin(opUDiv, c.m.sum(x, k), g), g)
			if lo, _ := x.srange(); lo < 0 {
				return passThrough
			}
			r := c.m.timeOf(x)
			r[2] = c.args[0].(structure)[2]
			return r
		})
	}
	multiple("Truncate", func(int64) int64 { return 0 })
	multiple("Round", func(d int64) int64 { return d / 2 })
	reg("(time.Time).IsZero", func(c *icall) value {
		if !c.m.hasSymbolic(c.args[:1]) {
			return passThrough
		}
		if _, ok := c.m.total(c.args[0]); ok {
			return false // year 1 has no total
		}
		return passThrough
	})
}
