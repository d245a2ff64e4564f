package main

import (
	"go/token"
	"math"
	"math/big"
	"math/bits"
	"sort"
	"strconv"
)

// symFloat is a floating point value that depends on symbolic integers: the
// exact number is a linear combination of integer terms, and the value a
// program computes differs from it by at most eps. Every operation adds its
// rounding error to eps, so conversions back to integers and comparisons are
// over-approximated, never under-approximated.
type symFloat struct {
	coef map[*Term]*big.Rat // 64-bit signed terms
	c    *big.Rat
	eps  *big.Rat
}

var ulp = new(big.Rat).SetFrac64(1, 1<<53)

func ratOf(f float64) *big.Rat {
	r := new(big.Rat)
	if r.SetFloat64(f) == nil {
		return nil
	}
	return r
}

func newSymFloat(t *Term) *symFloat {
	s := &symFloat{coef: map[*Term]*big.Rat{t: big.NewRat(1, 1)}, c: new(big.Rat), eps: new(big.Rat)}
	lo, hi := t.srange()
	if hi > 1<<53 || lo < -(1<<53) {
		s.round()
	}
	return s
}

func constFloat(f float64) *symFloat {
	r := ratOf(f)
	if r == nil {
		unsupported("symbolic arithmetic with %v", f)
	}
	return &symFloat{coef: map[*Term]*big.Rat{}, c: r, eps: new(big.Rat)}
}

func floatVal(v value) *symFloat {
	switch v := v.(type) {
	case *symFloat:
		return v
	case float64:
		return constFloat(v)
	}
	unsupported("floating point operand %T", v)
	return nil
}

// reach is a bound on the magnitude of the value.
func (s *symFloat) reach() *big.Rat {
	r := new(big.Rat).Abs(s.c)
	for t, k := range s.coef {
		lo, hi := t.srange()
		m := new(big.Rat).SetInt(new(big.Int).Abs(big.NewInt(lo)))
		if h := new(big.Rat).SetInt(new(big.Int).Abs(big.NewInt(hi))); h.Cmp(m) > 0 {
			m = h
		}
		r.Add(r, m.Mul(m, new(big.Rat).Abs(k)))
	}
	return r.Add(r, s.eps)
}

// round accounts for rounding the exact result of an operation.
func (s *symFloat) round() {
	s.eps = new(big.Rat).Add(s.eps, new(big.Rat).Mul(s.reach(), ulp))
	// keep the bound itself short
	if f, _ := s.eps.Float64(); f > 0 {
		s.eps = ratOf(math.Nextafter(f, math.Inf(1)))
	}
}

func (s *symFloat) scale(k *big.Rat) *symFloat {
	r := &symFloat{coef: map[*Term]*big.Rat{}, c: new(big.Rat).Mul(s.c, k), eps: new(big.Rat).Mul(s.eps, new(big.Rat).Abs(k))}
	for t, x := range s.coef {
		r.coef[t] = new(big.Rat).Mul(x, k)
	}
	return r
}

func (s *symFloat) add(o *symFloat) *symFloat {
	r := s.scale(big.NewRat(1, 1))
	r.c.Add(r.c, o.c)
	r.eps.Add(r.eps, o.eps)
	for t, x := range o.coef {
		if y, ok := r.coef[t]; ok {
			r.coef[t] = new(big.Rat).Add(x, y)
		} else {
			r.coef[t] = x
		}
	}
	return r
}

func (m *machine) floatOp(o token.Token, a, b value) value {
	x, y := floatVal(a), floatVal(b)
	var r *symFloat
	switch o {
	case token.ADD:
		r = x.add(y)
	case token.SUB:
		r = x.add(y.scale(big.NewRat(-1, 1)))
	case token.MUL:
		switch {
		case len(y.coef) == 0 && y.eps.Sign() == 0:
			r = x.scale(y.c)
		case len(x.coef) == 0 && x.eps.Sign() == 0:
			r = y.scale(x.c)
		default:
			unsupported("product of symbolic floating point values at %s", m.where())
		}
	case token.QUO:
		if len(y.coef) != 0 || y.eps.Sign() != 0 || y.c.Sign() == 0 {
			unsupported("division by a symbolic floating point value at %s", m.where())
		}
		r = x.scale(new(big.Rat).Inv(y.c))
	case token.LSS:
		return m.floatLess(x, y)
	case token.GTR:
		return m.floatLess(y, x)
	case token.LEQ:
		return m.notVal(m.floatLess(y, x))
	case token.GEQ:
		return m.notVal(m.floatLess(x, y))
	default:
		unsupported("floating point operator %s", o)
	}
	r.round()
	return r
}

func (m *machine) notVal(v value) value {
	switch v := v.(type) {
	case bool:
		return !v
	case *Term:
		return m.unterm(m.ts.Not(v))
	}
	unsupported("negation of %T", v)
	return nil
}

// floatLess is x < y; if the errors leave it open it is any boolean.
func (m *machine) floatLess(x, y *symFloat) value {
	d := x.add(y.scale(big.NewRat(-1, 1)))
	num, _, k := m.scaled(d)
	zero := m.ts.BV(0, 64)
	if k == 0 {
		return m.unterm(m.ts.Bin(opSLt, num, zero))
	}
	kk := m.ts.BV(uint64(k), 64)
	open := m.ts.Eq(m.freshBits(1), m.ts.BV(1, 1))
	less := m.ts.Bin(opSLt, num, m.ts.Neg(kk))
	more := m.ts.Bin(opSLt, kk, num)
	return m.unterm(m.ts.Or(less, m.ts.And(m.ts.Not(more), open)))
}

// floatEq is x == y.
func (m *machine) floatEq(x, y *symFloat) value {
	a, b := m.floatLess(x, y), m.floatLess(y, x)
	ta, _ := m.boolTerm(a)
	tb, _ := m.boolTerm(b)
	return m.unterm(m.ts.And(m.ts.Not(ta), m.ts.Not(tb)))
}

// freshBits is an unconstrained variable that is not an input of the harness.
func (m *machine) freshBits(w uint8) *Term {
	m.nfresh++
	return m.ts.Var("flt!"+strconv.Itoa(m.nfresh), w)
}

// scaled returns an integer term n and a denominator q such that the value is
// within k/q of n/q.
func (m *machine) scaled(s *symFloat) (n *Term, q, k int64) {
	// d/c*c + d%c is d
	coef := map[*Term]*big.Rat{}
	for t, x := range s.coef {
		coef[t] = x
	}
	for t, x := range s.coef {
		if t.op != opSDiv && t.op != opUDiv || !t.args[1].isConst() {
			continue
		}
		ro := opSRem
		if t.op == opUDiv {
			ro = opURem
		}
		rem := m.ts.Bin(ro, t.args[0], t.args[1])
		y, ok := coef[rem]
		if !ok {
			continue
		}
		c := new(big.Rat).SetInt64(sext(t.args[1].k, 64))
		if new(big.Rat).Mul(y, c).Cmp(x) != 0 {
			// nearly: the difference is accounted for as an error
			diff := new(big.Rat).Sub(new(big.Rat).Mul(y, c), x)
			lo, hi := t.srange()
			b := big.NewInt(hi)
			if l := new(big.Int).Neg(big.NewInt(lo)); l.Cmp(b) > 0 {
				b = l
			}
			e := diff.Abs(diff).Mul(diff, new(big.Rat).SetInt(b))
			if e.Cmp(big.NewRat(1000, 1)) > 0 {
				continue
			}
			s = s.scale(big.NewRat(1, 1))
			s.eps.Add(s.eps, e)
		}
		delete(coef, t)
		delete(coef, rem)
		in := t.args[0]
		if z, ok := coef[in]; ok {
			coef[in] = new(big.Rat).Add(y, z)
		} else {
			coef[in] = y
		}
	}
	eps := new(big.Rat).Set(s.eps)
	q = 1
	den := big.NewInt(1)
	nice := func(r *big.Rat, reach *big.Rat) *big.Rat {
		if r.Denom().IsInt64() && r.Denom().Int64() <= 1<<20 {
			return r
		}
		a := approx(r, 1<<20)
		e := new(big.Rat).Sub(r, a)
		eps.Add(eps, e.Abs(e).Mul(e, reach))
		return a
	}
	lcm := func(d *big.Int) {
		g := new(big.Int).GCD(nil, nil, den, d)
		den = new(big.Int).Mul(den, new(big.Int).Div(d, g))
	}
	for t, x := range coef {
		one := &symFloat{coef: map[*Term]*big.Rat{t: big.NewRat(1, 1)}, c: new(big.Rat), eps: new(big.Rat)}
		coef[t] = nice(x, one.reach())
		lcm(coef[t].Denom())
	}
	c := nice(s.c, big.NewRat(1, 1))
	lcm(c.Denom())
	total := new(big.Int)
	if !den.IsInt64() {
		unsupported("floating point coefficients out of range at %s", m.where())
	}
	q = den.Int64()
	dq := new(big.Rat).SetInt(den)
	toInt := func(r *big.Rat) *big.Int { return new(big.Int).Set(new(big.Rat).Mul(r, dq).Num()) }
	var ts []*Term
	for t := range coef {
		ts = append(ts, t)
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i].id < ts[j].id })
	ci := toInt(c)
	total.Add(total, new(big.Int).Abs(ci))
	for _, t := range ts {
		k := toInt(coef[t])
		lo, hi := t.srange()
		b := new(big.Int).Abs(big.NewInt(lo))
		if h := new(big.Int).Abs(big.NewInt(hi)); h.Cmp(b) > 0 {
			b = h
		}
		total.Add(total, b.Mul(b, new(big.Int).Abs(k)))
		if !total.IsInt64() || total.Int64() > 1<<62 {
			unsupported("floating point value out of range at %s", m.where())
		}
		x := m.ts.Bin(opMul, t, m.ts.BV(uint64(k.Int64()), 64))
		if n == nil {
			n = x
		} else {
			n = m.ts.Bin(opAdd, n, x)
		}
	}
	if n == nil {
		n = m.ts.BV(0, 64)
	}
	n = m.ts.Bin(opAdd, n, m.ts.BV(uint64(ci.Int64()), 64))
	if eps.Sign() > 0 {
		e := new(big.Rat).Mul(eps, dq)
		b := new(big.Int).Div(e.Num(), e.Denom())
		if !b.IsInt64() || b.Int64() > 1<<40 {
			unsupported("floating point error out of range at %s", m.where())
		}
		k = b.Int64() + 1
	}
	return n, q, k
}

// approx is the best approximation of r with a denominator up to max.
func approx(r *big.Rat, max int64) *big.Rat {
	// continued fraction
	n, d := new(big.Int).Set(r.Num()), new(big.Int).Set(r.Denom())
	p0, q0, p1, q1 := big.NewInt(0), big.NewInt(1), big.NewInt(1), big.NewInt(0)
	for d.Sign() != 0 {
		a, rem := new(big.Int).DivMod(n, d, new(big.Int))
		p2 := new(big.Int).Add(new(big.Int).Mul(a, p1), p0)
		q2 := new(big.Int).Add(new(big.Int).Mul(a, q1), q0)
		if q2.Cmp(big.NewInt(max)) > 0 {
			break
		}
		p0, q0, p1, q1 = p1, q1, p2, q2
		n, d = d, rem
	}
	return new(big.Rat).SetFrac(p1, q1)
}

// floatToInt converts by truncation: the exact quotient, off by what the
// errors allow.
func (m *machine) floatToInt(s *symFloat, w uint8, signed bool) value {
	n, q, k := m.scaled(s)
	r := n
	if q != 1 {
		lo, _ := n.srange()
		switch {
		case lo >= 0 && q&(q-1) == 0:
			r = m.ts.Bin(opLShr, n, m.ts.BV(uint64(bits.TrailingZeros64(uint64(q))), 64))
		case lo >= 0:
			r = m.ts.Bin(opUDiv, n, m.ts.BV(uint64(q), 64))
		default:
			r = m.ts.Bin(opSDiv, n, m.ts.BV(uint64(q), 64))
		}
	}
	if k > 0 {
		off := k/q + 1
		b := bitsFor(uint64(2 * off))
		v := m.freshBits(b)
		m.assume(m.unterm(m.ts.Bin(opULe, v, m.ts.BV(uint64(2*off), b))))
		r = m.ts.Bin(opAdd, r, m.ts.Bin(opSub, m.ts.ZExt(v, 64), m.ts.BV(uint64(off), 64)))
	}
	if w < 64 {
		lo, hi := r.srange()
		flo, fhi := fullRange(w)
		if lo < flo || hi > fhi {
			unsupported("floating point value converted to a small integer at %s", m.where())
		}
		r = m.ts.Trunc(r, w)
	} else if !signed {
		if lo, _ := r.srange(); lo < 0 {
			unsupported("floating point value converted to an unsigned integer at %s", m.where())
		}
	}
	return m.unterm(r)
}

// roughly is the value rounded to an integer in an unspecified way.
func (s *symFloat) roughly() *symFloat {
	r := s.scale(big.NewRat(1, 1))
	r.eps.Add(r.eps, big.NewRat(1, 1))
	return r
}

func init() {
	for _, f := range []string{"Floor", "Ceil", "Trunc", "Round", "RoundToEven"} {
		for _, n := range []string{"math." + f, "math." + string(f[0]|0x20) + f[1:]} {
			reg(n, func(c *icall) value {
				if s, ok := c.args[0].(*symFloat); ok {
					return s.roughly()
				}
				return passThrough
			})
		}
	}
}
