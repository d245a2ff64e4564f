package main

import (
	"fmt"
	"go/types"
	"strings"
)

const ndPath = "github.com/dogmatiq/testkit/internal/zzverif/nd"

func bitsFor(n uint64) uint8 {
	w := uint8(1)
	for w < 64 && n>>w != 0 {
		w++
	}
	return w
}

func (m *machine) draw(name, kind string, w uint8) *Term {
	n := m.drawName(name)
	t := m.ts.Var(sanitize(n), w)
	m.draws = append(m.draws, Draw{Name: n, Term: t, Kind: kind})
	return t
}

func sanitize(s string) string {
	return "v_" + strings.Map(func(r rune) rune {
		switch {
		case r >= 'a' && r <= 'z', r >= 'A' && r <= 'Z', r >= '0' && r <= '9':
			return r
		case r == '#':
			return '.'
		}
		return '_'
	}, s)
}

// drawRange draws an integer in [lo, hi], returned as a 64-bit term.
func (m *machine) drawRange(name string, lo, hi int64) value {
	if lo > hi {
		panic(abortPath{abInfeasible, "empty range"})
	}
	if lo == hi {
		return lo
	}
	span := uint64(hi - lo)
	w := bitsFor(span)
	n := m.drawName(name)
	v := m.ts.Var(sanitize(n), w)
	full := m.ts.Bin(opAdd, m.ts.ZExt(v, 64), m.ts.BV(uint64(lo), 64))
	m.draws = append(m.draws, Draw{Name: n, Term: full, Kind: "int"})
	if span != mask(w) {
		m.assume(m.unterm(m.ts.Bin(opULe, v, m.ts.BV(span, w))))
	}
	return full
}

func init() {
	nd := func(name string, f intrinsic) { reg(ndPath+"."+name, f) }
	nd("Symbolic", func(c *icall) value { return true })
	nd("Bool", func(c *icall) value { return c.m.draw(c.m.concStr(c.args[0]), "bool", 0) })
	nd("Int", func(c *icall) value {
		return c.m.drawRange(c.m.concStr(c.args[0]), c.m.concInt(c.args[1]), c.m.concInt(c.args[2]))
	})
	nd("Pick", func(c *icall) value {
		v := c.m.drawRange(c.m.concStr(c.args[0]), 0, c.m.concInt(c.args[1])-1)
		return c.m.concInt(v)
	})
	nd("Flip", func(c *icall) value { return c.m.truth(c.m.draw(c.m.concStr(c.args[0]), "bool", 0)) })
	nd("Str", func(c *icall) value {
		ch := variadic(c.args[1])
		var tab []string
		for _, x := range ch {
			tab = append(tab, c.m.concStr(x))
		}
		if len(tab) == 1 {
			c.m.drawName(c.m.concStr(c.args[0]))
			return tab[0]
		}
		n := c.m.drawName(c.m.concStr(c.args[0]))
		w := bitsFor(uint64(len(tab) - 1))
		v := c.m.ts.Var(sanitize(n), w)
		c.m.draws = append(c.m.draws, Draw{Name: n, Term: c.m.ts.ZExt(v, 64), Kind: "str", Table: tab})
		if uint64(len(tab)-1) != mask(w) {
			c.m.assume(c.m.unterm(c.m.ts.Bin(opULe, v, c.m.ts.BV(uint64(len(tab)-1), w))))
		}
		return &SymStr{idx: v, table: tab}
	})
	nd("Time", func(c *icall) value {
		name := c.m.concStr(c.args[0])
		sec := c.m.draw(name+".sec", "sec", 32)
		c.m.draws[len(c.m.draws)-1].Term = c.m.ts.ZExt(sec, 64)
		ns := c.m.draw(name+".nsec", "nsec", 30)
		c.m.draws[len(c.m.draws)-1].Term = c.m.ts.ZExt(ns, 64)
		c.m.assume(c.m.unterm(c.m.ts.Bin(opULt, ns, c.m.ts.BV(1000000000, 30))))
		s64 := c.m.ts.Bin(opAdd, c.m.ts.ZExt(sec, 64), c.m.ts.BV(uint64(unixToInternal), 64))
		t := structure{c.m.ts.ZExt(ns, 64), s64, (*value)(nil)}
		c.m.setTotal(t, c.m.ts.Bin(opAdd, c.m.ts.Bin(opMul, c.m.ts.ZExt(sec, 64), c.m.ts.BV(1e9, 64)), c.m.ts.ZExt(ns, 64)))
		return t
	})
	nd("Assume", func(c *icall) value { c.m.assume(c.args[0]); return nil })
	nd("Assert", func(c *icall) value {
		d := ""
		if len(c.args) > 2 {
			d = c.detail(variadic(c.args[2]))
		}
		c.m.assert(c.args[0], c.m.concStr(c.args[1]), d)
		return nil
	})
	nd("Field", func(c *icall) value {
		x := c.args[0].(iface)
		want := c.m.concStr(c.args[1])
		if x.t == nil {
			return iface{}
		}
		t, v := x.t.Underlying(), x.v
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem().Underlying()
			cell, _ := v.(*value)
			if cell == nil {
				return iface{}
			}
			v = *cell
		}
		st, ok := t.(*types.Struct)
		if !ok {
			return iface{}
		}
		for i := 0; i < st.NumFields(); i++ {
			if f := st.Field(i); f.Name() == want {
				fv := v.(structure)[i]
				if _, ok := f.Type().Underlying().(*types.Interface); ok {
					return fv
				}
				return iface{t: f.Type(), v: fv}
			}
		}
		return iface{}
	})
	nd("Reach", func(c *icall) value { c.m.reached[c.m.concStr(c.args[0])] = true; return nil })
	nd("Trace", func(c *icall) value {
		e := traceEntry{label: c.m.concStr(c.args[0])}
		for _, v := range variadic(c.args[1]) {
			e.vals = append(e.vals, v.(iface).v)
		}
		c.m.trace = append(c.m.trace, e)
		return nil
	})
	nd("Yield", func(c *icall) value { c.m.yield(c.g); return nil })
	nd("MapOrders", func(c *icall) value {
		c.m.mapReverse = c.m.choose(2, "map order") == 1
		return nil
	})
	nd("AllMapOrders", func(c *icall) value { c.m.mapAll = true; return nil })
	nd("Choose", func(c *icall) value {
		var tab []string
		for _, x := range variadic(c.args[1]) {
			tab = append(tab, c.m.concStr(x))
		}
		t, ok := c.args[0].(*Term)
		if !ok {
			return tab[c.m.concInt(c.args[0])]
		}
		return &SymStr{idx: c.m.ts.Trunc(t, 16), table: tab}
	})
	nd("Texts", func(c *icall) value { c.m.textBound = int(c.m.concInt(c.args[0])); return nil })
	nd("Render", func(c *icall) value { c.m.render = true; return nil })
	nd("Preemptions", func(c *icall) value { c.m.preempt = int(c.m.concInt(c.args[0])); return nil })
	nd("Race", func(c *icall) value {
		c.m.race = &raceState{m: c.m, shadow: map[any]*shadow{}}
		for _, g := range c.m.gors {
			c.m.race.tick(g)
		}
		return nil
	})
	nd("Merge", func(c *icall) value {
		fv := c.args[0].(*funcVal)
		return c.m.mergeCall(c.fn.resT, func() value { return c.g.callValue(c.fr, fv, nil) })
	})
	// And, Or, Not, Imp build conditions without forking
	nd("And", func(c *icall) value {
		var r value = true
		for _, x := range variadic(c.args[0]) {
			r = c.m.and(r, x)
		}
		return r
	})
	nd("Or", func(c *icall) value {
		var r value = true
		for _, x := range variadic(c.args[0]) {
			r = c.m.and(r, c.m.not(x))
		}
		return c.m.not(r)
	})
	nd("Iff", func(c *icall) value { return c.m.equal(c.args[0], c.args[1]) })
	nd("IteInt", func(c *icall) value {
		switch b := c.args[0].(type) {
		case bool:
			if b {
				return c.args[1]
			}
			return c.args[2]
		case *Term:
			return fold(c.m.ts.Ite(b, c.m.term(c.args[1], 64), c.m.term(c.args[2], 64)), true)
		}
		panic("IteInt")
	})
	nd("Goexited", func(c *icall) value {
		// runs f in its own goroutine and reports how it ended:
		// 0 returned, 1 panicked, 2 Goexit
		fv := c.args[0].(*funcVal)
		var out value = int64(2)
		done := false
		var pv value = iface{}
		g := c.m.newGor(&funcVal{native: func(g *gor, _ []value) value {
			defer func() {
				if r := recover(); r != nil {
					switch r := r.(type) {
					case targetPanic:
						out, pv = int64(1), r.v
						done = true
						return
					case goexitPanic:
						done = true
						return
					}
					panic(r)
				}
			}()
			g.callValue(nil, fv, nil)
			out = int64(0)
			done = true
			return nil
		}}, nil)
		g.start()
		c.m.block(c.g, "Goexited", func() bool { return done })
		if c.m.race != nil {
			c.m.race.acquire(c.g, g.clock)
		}
		return tuple{out, pv}
	})
}

func (c *icall) detail(vs []value) (s string) {
	defer func() {
		if r := recover(); r != nil {
			if a, ok := r.(abortPath); ok && a.kind != abUnsupported {
				panic(r)
			}
			s = "?"
		}
	}()
	for i, v := range vs {
		if i > 0 {
			s += " "
		}
		s += c.m.evalText(v.(iface).v, c.m.model)
	}
	return s
}

// evalText renders a value of basic type under a model.
func (m *machine) evalText(v value, md Model) string {
	switch v := v.(type) {
	case *Term:
		k := v.eval(md, map[*Term]uint64{})
		if v.width == 0 {
			return fmt.Sprint(k == 1)
		}
		return fmt.Sprint(sext(k, v.width))
	case *SymStr:
		if v.idx == nil {
			return "<text>"
		}
		k := v.idx.eval(md, map[*Term]uint64{})
		if int(k) < len(v.table) {
			return v.table[k]
		}
		return "<bad index>"
	case string:
		return v
	case bool:
		return fmt.Sprint(v)
	case int64:
		return fmt.Sprint(v)
	case []value:
		s := "["
		for i, e := range v {
			if i > 0 {
				s += " "
			}
			s += m.evalText(e, md)
		}
		return s + "]"
	case iface:
		return m.evalText(v.v, md)
	case nil:
		return "<nil>"
	}
	return fmt.Sprintf("<%T>", v)
}
