package main

import (
	"fmt"
	"io"
	"math/big"
	"strconv"
	"strings"
	"time"
)

// intWriter states bit-vector terms as integer arithmetic. A term of 64 bits
// stands for its signed value, a narrower one for its unsigned value; results
// that may wrap around are reduced explicitly, so the translation is exact.
// Products of variables and most bit operations have no translation.
type intWriter struct {
	sb   *strings.Builder
	vars []*Term
	done map[*Term]intRef
	bad  string
}

type intRef struct {
	s      string
	lo, hi *big.Int // bounds of an integer
}

func pow2(n uint) *big.Int { return new(big.Int).Lsh(big.NewInt(1), n) }

func repr(w uint8) (lo, hi *big.Int) {
	if w == 64 {
		return new(big.Int).Neg(pow2(63)), new(big.Int).Sub(pow2(63), big.NewInt(1))
	}
	return new(big.Int), new(big.Int).Sub(pow2(uint(w)), big.NewInt(1))
}

func intLit(x *big.Int) string {
	if x.Sign() < 0 {
		return "(- " + new(big.Int).Neg(x).String() + ")"
	}
	return x.String()
}

func (r intRef) isConst() bool { return r.lo != nil && r.lo.Cmp(r.hi) == 0 }

type noInts struct{ why string }

// wrap reduces a result to the representation of its width.
func wrap(r intRef, w uint8) intRef {
	lo, hi := repr(w)
	if r.lo.Cmp(lo) >= 0 && r.hi.Cmp(hi) <= 0 {
		return r
	}
	if w == 64 {
		r.s = "(- (mod (+ " + r.s + " " + pow2(63).String() + ") " + pow2(64).String() + ") " + pow2(63).String() + ")"
	} else {
		r.s = "(mod " + r.s + " " + pow2(uint(w)).String() + ")"
	}
	r.lo, r.hi = lo, hi
	return r
}

// unsigned is the unsigned value of a term of the width.
func unsigned(r intRef, w uint8) intRef {
	if w < 64 || r.lo.Sign() >= 0 {
		return r
	}
	if r.hi.Sign() < 0 {
		return intRef{"(+ " + r.s + " " + pow2(64).String() + ")", new(big.Int).Add(r.lo, pow2(64)), new(big.Int).Add(r.hi, pow2(64))}
	}
	return intRef{"(ite (< " + r.s + " 0) (+ " + r.s + " " + pow2(64).String() + ") " + r.s + ")", new(big.Int), new(big.Int).Sub(pow2(64), big.NewInt(1))}
}

// signed is the signed value of a term of the width.
func signedOf(r intRef, w uint8) intRef {
	half := pow2(uint(w) - 1)
	if w == 64 || r.hi.Cmp(half) < 0 {
		return r
	}
	full := pow2(uint(w))
	return intRef{"(ite (< " + r.s + " " + half.String() + ") " + r.s + " (- " + r.s + " " + full.String() + "))",
		new(big.Int).Neg(half), new(big.Int).Sub(half, big.NewInt(1))}
}

// resigned turns a signed value into the representation of a width.
func resigned(r intRef, w uint8) intRef { return wrap(r, w) }

func mulBounds(a, b intRef) (lo, hi *big.Int) {
	for _, x := range []*big.Int{a.lo, a.hi} {
		for _, y := range []*big.Int{b.lo, b.hi} {
			p := new(big.Int).Mul(x, y)
			if lo == nil || p.Cmp(lo) < 0 {
				lo = p
			}
			if hi == nil || p.Cmp(hi) > 0 {
				hi = p
			}
		}
	}
	return
}

func floorDiv(a, b *big.Int) *big.Int { return new(big.Int).Div(a, b) } // b > 0: Euclidean is floor

func minBig(a, b *big.Int) *big.Int {
	if a.Cmp(b) < 0 {
		return a
	}
	return b
}

func maxBig(a, b *big.Int) *big.Int {
	if a.Cmp(b) > 0 {
		return a
	}
	return b
}

func (w *intWriter) get(t *Term) intRef {
	if r, ok := w.done[t]; ok {
		return r
	}
	r := w.make(t)
	if t.op != opConst && t.op != opVar && t.nargs > 0 {
		sort := "Int"
		if t.width == 0 {
			sort = "Bool"
		}
		n := "t" + strconv.Itoa(t.id)
		fmt.Fprintf(w.sb, "(define-fun %s () %s %s)\n", n, sort, r.s)
		r.s = n
	}
	w.done[t] = r
	return r
}

func (w *intWriter) make(t *Term) intRef {
	no := func(why string) intRef { panic(noInts{why}) }
	arg := func(i int) intRef { return w.get(t.args[i]) }
	switch t.op {
	case opConst:
		if t.width == 0 {
			return intRef{s: constString(t.k, 0)}
		}
		x := new(big.Int).SetUint64(t.k)
		if t.width == 64 {
			x = big.NewInt(int64(t.k))
		}
		return intRef{intLit(x), x, x}
	case opVar:
		w.vars = append(w.vars, t)
		n := "|" + t.name + "|"
		if t.width == 0 {
			fmt.Fprintf(w.sb, "(declare-const %s Bool)\n", n)
			return intRef{s: n}
		}
		lo, hi := repr(t.width)
		fmt.Fprintf(w.sb, "(declare-const %s Int)\n(assert (and (<= %s %s) (<= %s %s)))\n", n, intLit(lo), n, n, intLit(hi))
		return intRef{n, lo, hi}
	case opNot:
		return intRef{s: "(not " + arg(0).s + ")"}
	case opAnd:
		return intRef{s: "(and " + arg(0).s + " " + arg(1).s + ")"}
	case opOr:
		return intRef{s: "(or " + arg(0).s + " " + arg(1).s + ")"}
	case opEq:
		return intRef{s: "(= " + arg(0).s + " " + arg(1).s + ")"}
	case opIte:
		c, a, b := arg(0), arg(1), arg(2)
		s := "(ite " + c.s + " " + a.s + " " + b.s + ")"
		if t.width == 0 {
			return intRef{s: s}
		}
		return intRef{s, minBig(a.lo, b.lo), maxBig(a.hi, b.hi)}
	case opULt, opULe, opSLt, opSLe:
		aw := t.args[0].width
		a, b := arg(0), arg(1)
		if t.op == opULt || t.op == opULe {
			a, b = unsigned(a, aw), unsigned(b, aw)
		} else {
			a, b = signedOf(a, aw), signedOf(b, aw)
		}
		o := "<"
		if t.op == opULe || t.op == opSLe {
			o = "<="
		}
		return intRef{s: "(" + o + " " + a.s + " " + b.s + ")"}
	case opZExt:
		return arg(0)
	case opSExt:
		return resigned(signedOf(arg(0), t.args[0].width), t.width)
	case opExtract:
		a := arg(0)
		if t.k > 0 {
			d := pow2(uint(t.k))
			a = intRef{"(div " + a.s + " " + d.String() + ")", floorDiv(a.lo, d), floorDiv(a.hi, d)}
		}
		return wrap(a, t.width)
	case opConcat:
		a, b := arg(0), arg(1)
		d := pow2(uint(t.args[1].width))
		hi := new(big.Int).Add(new(big.Int).Mul(a.hi, d), b.hi)
		lo := new(big.Int).Add(new(big.Int).Mul(a.lo, d), b.lo)
		return wrap(intRef{"(+ (* " + d.String() + " " + a.s + ") " + b.s + ")", lo, hi}, t.width)
	case opAdd:
		a, b := arg(0), arg(1)
		return wrap(intRef{"(+ " + a.s + " " + b.s + ")", new(big.Int).Add(a.lo, b.lo), new(big.Int).Add(a.hi, b.hi)}, t.width)
	case opSub:
		a, b := arg(0), arg(1)
		return wrap(intRef{"(- " + a.s + " " + b.s + ")", new(big.Int).Sub(a.lo, b.hi), new(big.Int).Sub(a.hi, b.lo)}, t.width)
	case opNeg:
		a := arg(0)
		return wrap(intRef{"(- " + a.s + ")", new(big.Int).Neg(a.hi), new(big.Int).Neg(a.lo)}, t.width)
	case opMul:
		a, b := arg(0), arg(1)
		if !a.isConst() && !b.isConst() {
			return no("product")
		}
		lo, hi := mulBounds(a, b)
		return wrap(intRef{"(* " + a.s + " " + b.s + ")", lo, hi}, t.width)
	case opUDiv, opURem:
		b := t.args[1]
		if !b.isConst() || b.k == 0 || b.width == 64 && int64(b.k) < 0 {
			return no("division")
		}
		d := new(big.Int).SetUint64(b.k)
		a := unsigned(arg(0), t.width)
		if t.op == opUDiv {
			return wrap(intRef{"(div " + a.s + " " + d.String() + ")", floorDiv(a.lo, d), floorDiv(a.hi, d)}, t.width)
		}
		if a.hi.Cmp(d) < 0 {
			return a
		}
		return intRef{"(mod " + a.s + " " + d.String() + ")", new(big.Int), new(big.Int).Sub(d, big.NewInt(1))}
	case opSDiv, opSRem:
		b := t.args[1]
		if !b.isConst() || sext(b.k, b.width) <= 0 {
			return no("division")
		}
		d := new(big.Int).SetUint64(b.k)
		a := signedOf(arg(0), t.width)
		f, lo, hi := "div", new(big.Int).Quo(a.lo, d), new(big.Int).Quo(a.hi, d)
		if t.op == opSRem {
			m := new(big.Int).Sub(d, big.NewInt(1))
			f, lo, hi = "mod", new(big.Int), m
			if a.lo.Sign() < 0 {
				lo = new(big.Int).Neg(m)
			}
		}
		s := "(" + f + " " + a.s + " " + d.String() + ")"
		if a.lo.Sign() < 0 {
			s = "(ite (< " + a.s + " 0) (- (" + f + " (- " + a.s + ") " + d.String() + ")) " + s + ")"
		}
		return resigned(intRef{s, lo, hi}, t.width)
	case opShl, opLShr, opAShr:
		b := t.args[1]
		if !b.isConst() || b.k >= uint64(t.width) {
			return no("shift")
		}
		d := pow2(uint(b.k))
		switch t.op {
		case opShl:
			a := arg(0)
			return wrap(intRef{"(* " + d.String() + " " + a.s + ")", new(big.Int).Mul(a.lo, d), new(big.Int).Mul(a.hi, d)}, t.width)
		case opLShr:
			a := unsigned(arg(0), t.width)
			return wrap(intRef{"(div " + a.s + " " + d.String() + ")", floorDiv(a.lo, d), floorDiv(a.hi, d)}, t.width)
		}
		a := signedOf(arg(0), t.width)
		return resigned(intRef{"(div " + a.s + " " + d.String() + ")", floorDiv(a.lo, d), floorDiv(a.hi, d)}, t.width)
	case opBAnd:
		b := t.args[1]
		if !b.isConst() || b.k&(b.k+1) != 0 {
			return no("bit mask")
		}
		a := arg(0)
		d := new(big.Int).Add(new(big.Int).SetUint64(b.k), big.NewInt(1))
		if a.lo.Sign() >= 0 && a.hi.Cmp(d) < 0 {
			return a
		}
		return wrap(intRef{"(mod " + a.s + " " + d.String() + ")", new(big.Int), new(big.Int).Sub(d, big.NewInt(1))}, t.width)
	case opBNot:
		a := arg(0)
		if t.width == 64 {
			return intRef{"(- (- 1) " + a.s + ")", new(big.Int).Sub(big.NewInt(-1), a.hi), new(big.Int).Sub(big.NewInt(-1), a.lo)}
		}
		_, m := repr(t.width)
		return intRef{"(- " + m.String() + " " + a.s + ")", new(big.Int).Sub(m, a.hi), new(big.Int).Sub(m, a.lo)}
	}
	return no(opNames[t.op])
}

// CheckInts decides the conditions in integer arithmetic. ok is false if they
// cannot be stated that way.
func (s *Solver) CheckInts(conds []*Term) (res satResult, m Model, ok bool) {
	w := &intWriter{sb: &strings.Builder{}, done: map[*Term]intRef{}}
	w.sb.WriteString("(push 1)\n")
	func() {
		defer func() {
			if r := recover(); r != nil {
				n, is := r.(noInts)
				if !is {
					panic(r)
				}
				w.bad = n.why
			}
		}()
		for _, c := range conds {
			r := w.get(c)
			w.sb.WriteString("(assert " + r.s + ")\n")
		}
	}()
	if w.bad != "" {
		return unknown, nil, false
	}
	w.sb.WriteString("(check-sat)\n")
	t0 := time.Now()
	s.Queries++
	res = unknown
	if _, err := io.WriteString(s.in, w.sb.String()); err == nil {
		line, err := s.readLine()
		switch {
		case err != nil:
			s.Errors++
		case line == "sat":
			res = sat
		case line == "unsat":
			res = unsat
		case line == "unknown" || line == "timeout":
		default:
			s.Errors++
			lastSolverError = line + "\n" + w.sb.String()
		}
		if res == sat {
			s.w = &smtWriter{vars: w.vars}
			if m = s.model(); m == nil {
				res = unknown
			} else {
				for _, v := range w.vars {
					if v.width > 0 {
						m[v.name] &= mask(v.width)
					}
				}
			}
		}
	} else {
		s.Errors++
	}
	io.WriteString(s.in, "(pop 1)\n")
	d := time.Since(t0)
	s.Time += d
	if d > s.MaxQuery {
		s.MaxQuery = d
	}
	switch res {
	case sat:
		s.Sat++
	case unsat:
		s.Unsat++
	default:
		s.Unknown++
	}
	return res, m, true
}
