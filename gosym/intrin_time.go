package main

import (
	"math"
	"strconv"
	"time"
)

const unixToInternal = int64((1969*365 + 1969/4 - 1969/100 + 1969/400) * 86400)

// nowValue is the modelled wall clock: fixed start, advanced by timers only
// (plus one microsecond per reading, so that it is strictly monotonic).
func (m *machine) nowValue() value {
	if m.now != nil {
		return m.timeOf(m.now)
	}
	m.nowBase += 1000
	sec := 1767225600 + m.nowBase/1e9
	return structure{m.nowBase % 1e9, sec + unixToInternal, (*value)(nil)}
}

// hostTime converts a fully concrete time.Time.
func (m *machine) hostTime(v value) (time.Time, bool) {
	s := v.(structure)
	wall, ok1 := s[0].(int64)
	ext, ok2 := s[1].(int64)
	if !ok1 || !ok2 {
		return time.Time{}, false
	}
	if wall < 0 { // monotonic reading
		return time.Time{}, false
	}
	return time.Unix(ext-unixToInternal, wall&(1<<30-1)).UTC(), true
}

func (m *machine) addTimer(c *channel, f *funcVal, dur value) *simTimer {
	t := &simTimer{c: c, f: f, active: true, dur: dur}
	if m.now != nil {
		d := m.term(dur, 64)
		zero := m.ts.BV(0, 64)
		t.dueT = m.sum(m.now, m.ts.Ite(m.ts.Bin(opSLt, d, zero), zero, d))
	} else if d, ok := dur.(int64); ok {
		if d < 0 {
			d = 0
		}
		t.due = m.nowBase + d
	} else {
		t.due = m.nowBase
	}
	m.timers = append(m.timers, t)
	return t
}

// timeSub is the exact difference of two wall clock times saturated to the
// range of time.Duration, stated without the division the library uses to
// detect overflow.
func (m *machine) timeSub(t, u structure) value {
	ts := m.ts
	k := func(x int64) *Term { return ts.BV(uint64(x), 64) }
	ns := func(v value) *Term { return ts.Bin(opBAnd, m.term(v, 64), k(1<<30-1)) }
	s := ts.Bin(opSub, m.term(t[1], 64), m.term(u[1], 64))
	n := ts.Bin(opSub, ns(t[0]), ns(u[0]))
	neg := ts.Bin(opSLt, n, k(0))
	// seconds rounded down, and what is left over
	s1 := ts.Ite(neg, ts.Bin(opAdd, s, k(-1)), s)
	n1 := ts.Ite(neg, ts.Bin(opAdd, n, k(1e9)), n)
	const hs, hn = 9223372036, 854775807
	const ls, ln = -9223372037, 145224192
	over := ts.Or(ts.Bin(opSLt, k(hs), s1), ts.And(ts.Eq(s1, k(hs)), ts.Bin(opSLt, k(hn), n1)))
	under := ts.Or(ts.Bin(opSLt, s1, k(ls)), ts.And(ts.Eq(s1, k(ls)), ts.Bin(opSLt, n1, k(ln))))
	d := ts.Bin(opAdd, ts.Bin(opMul, s, k(1e9)), n)
	return m.unterm(ts.Ite(over, k(math.MaxInt64), ts.Ite(under, k(math.MinInt64), d)))
}

func init() {
	reg("time.Now", func(c *icall) value {
		if c.m.nowFn != nil {
			return c.g.callValue(c.fr, c.m.nowFn, nil)
		}
		return c.m.nowValue()
	})
	reg("time.runtimeNano", func(c *icall) value { return c.m.nowBase })
	reg("time.runtimeNow", func(c *icall) value { return tuple{int64(0), int64(0), c.m.nowBase} })
	reg("time.Sleep", func(c *icall) value {
		t := c.m.addTimer(nil, nil, c.args[0])
		c.m.block(c.g, "sleep", func() bool { return !t.active })
		return nil
	})
	// time.Timer{C, initTimer}; the model is kept by cell address
	tm := func(c *icall) map[*value]*simTimer {
		if c.m.userData == nil {
			c.m.userData = map[string]any{}
		}
		t, _ := c.m.userData["timers"].(map[*value]*simTimer)
		if t == nil {
			t = map[*value]*simTimer{}
			c.m.userData["timers"] = t
		}
		return t
	}
	mkChan := func() *channel {
		return &channel{cap: 1, zero: func() value { return structure{int64(0), int64(0), (*value)(nil)} }}
	}
	newTimer := func(c *icall, d value, f *funcVal) value {
		cell := new(value)
		var ch *channel
		if f == nil {
			ch = mkChan()
		}
		*cell = structure{ch, true}
		tm(c)[cell] = c.m.addTimer(ch, f, d)
		return cell
	}
	reg("time.NewTimer", func(c *icall) value { return newTimer(c, c.args[0], nil) })
	reg("time.AfterFunc", func(c *icall) value { return newTimer(c, c.args[0], c.args[1].(*funcVal)) })
	reg("time.After", func(c *icall) value {
		ch := mkChan()
		c.m.addTimer(ch, nil, c.args[0])
		return ch
	})
	reg("time.NewTicker", func(c *icall) value {
		cell := newTimer(c, c.args[0], nil).(*value)
		tm(c)[cell].period = c.args[0]
		return cell
	})
	reg("time.Tick", func(c *icall) value {
		ch := mkChan()
		c.m.addTimer(ch, nil, c.args[0]).period = c.args[0]
		return ch
	})
	reg("(*time.Ticker).Stop", func(c *icall) value {
		tm(c)[c.cell(0)].active = false
		return nil
	})
	reg("(*time.Ticker).Reset", func(c *icall) value {
		t := tm(c)[c.cell(0)]
		t.active = false
		tm(c)[c.cell(0)] = c.m.addTimer(t.c, nil, c.args[1])
		tm(c)[c.cell(0)].period = c.args[1]
		return nil
	})
	reg("(*time.Timer).Stop", func(c *icall) value {
		t := tm(c)[c.cell(0)]
		was := t.active
		t.active = false
		if t.c != nil {
			t.c.buf = nil
		}
		return was
	})
	reg("(*time.Timer).Reset", func(c *icall) value {
		t := tm(c)[c.cell(0)]
		was := t.active
		t.active = false
		if t.c != nil {
			t.c.buf = nil
		}
		tm(c)[c.cell(0)] = c.m.addTimer(t.c, t.f, c.args[1])
		return was
	})
	reg("(time.Time).Sub", func(c *icall) value {
		if !c.m.hasSymbolic(c.args) {
			return passThrough
		}
		if x, y, ok := c.m.both(c.args[0], c.args[1]); ok {
			return c.m.unterm(c.m.minus(c.m.diff(x, y)))
		}
		t, u := c.args[0].(structure), c.args[1].(structure)
		mono := func(v value) bool {
			switch v := v.(type) {
			case int64:
				return v < 0
			case *Term:
				return knownZero(v)&(1<<63) == 0
			}
			return true
		}
		if mono(t[0]) || mono(u[0]) {
			return passThrough
		}
		return c.m.timeSub(t, u)
	})
	reg("(time.Time).String", func(c *icall) value {
		if t, ok := c.m.hostTime(c.args[0]); ok {
			return t.String()
		}
		return opaqueStr
	})
	reg("(time.Time).Format", func(c *icall) value {
		if t, ok := c.m.hostTime(c.args[0]); ok {
			return t.Format(c.m.concStr(c.args[1]))
		}
		return opaqueStr
	})
	reg("(time.Duration).String", func(c *icall) value {
		if d, ok := c.args[0].(int64); ok {
			return time.Duration(d).String()
		}
		return opaqueStr
	})
	reg("(time.Month).String", func(c *icall) value { return time.Month(c.m.concInt(c.args[0])).String() })
	reg("strconv.Itoa", func(c *icall) value {
		switch v := c.args[0].(type) {
		case int64:
			return strconv.Itoa(int(v))
		}
		return opaqueStr
	})
}
