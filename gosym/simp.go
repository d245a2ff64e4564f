package main

import "math"

// srange returns signed bounds of a bit-vector term.
func (t *Term) srange() (lo, hi int64) {
	if t.rok {
		return t.rlo, t.rhi
	}
	lo, hi = t.computeRange()
	t.rlo, t.rhi, t.rok = lo, hi, true
	return
}

func fullRange(w uint8) (int64, int64) {
	if w == 64 {
		return math.MinInt64, math.MaxInt64
	}
	return -(int64(1) << (w - 1)), int64(1)<<(w-1) - 1
}

func addOv(a, b int64) (int64, bool) {
	s := a + b
	return s, (b >= 0) == (s >= a)
}

func (t *Term) computeRange() (lo, hi int64) {
	flo, fhi := fullRange(t.width)
	fits := func(l, h int64) (int64, int64) {
		if l < flo || h > fhi {
			return flo, fhi
		}
		return l, h
	}
	switch t.op {
	case opConst:
		k := sext(t.k, t.width)
		return k, k
	case opZExt:
		in := t.args[0]
		l, h := in.srange()
		if l >= 0 {
			return l, h
		}
		if in.width < 64 {
			return 0, int64(mask(in.width))
		}
	case opSExt:
		return t.args[0].srange()
	case opIte:
		l1, h1 := t.args[1].srange()
		l2, h2 := t.args[2].srange()
		return min(l1, l2), max(h1, h2)
	case opAdd:
		l1, h1 := t.args[0].srange()
		l2, h2 := t.args[1].srange()
		l, ok1 := addOv(l1, l2)
		h, ok2 := addOv(h1, h2)
		if ok1 && ok2 {
			return fits(l, h)
		}
	case opSub:
		l1, h1 := t.args[0].srange()
		l2, h2 := t.args[1].srange()
		if l2 != math.MinInt64 && h2 != math.MinInt64 {
			l, ok1 := addOv(l1, -h2)
			h, ok2 := addOv(h1, -l2)
			if ok1 && ok2 {
				return fits(l, h)
			}
		}
	case opMul:
		l1, h1 := t.args[0].srange()
		l2, h2 := t.args[1].srange()
		const lim = 1 << 31
		small := func(x int64) bool { return x > -lim && x < lim }
		if small(l1) && small(h1) && small(l2) && small(h2) {
			p := []int64{l1 * l2, l1 * h2, h1 * l2, h1 * h2}
			l, h := p[0], p[0]
			for _, x := range p {
				l, h = min(l, x), max(h, x)
			}
			return fits(l, h)
		}
		if t.args[1].isConst() && l1 >= 0 && l2 > 0 && h1 <= math.MaxInt64/l2 {
			return fits(l1*l2, h1*l2)
		}
	case opLShr:
		l1, h1 := t.args[0].srange()
		if l1 >= 0 && t.args[1].isConst() && t.args[1].k < 64 {
			return l1 >> t.args[1].k, h1 >> t.args[1].k
		}
	case opSDiv:
		l1, h1 := t.args[0].srange()
		if l2, h2 := t.args[1].srange(); l2 > 0 && l2 == h2 {
			return l1 / l2, h1 / l2
		}
	case opSRem:
		l1, h1 := t.args[0].srange()
		if l2, h2 := t.args[1].srange(); l2 > 0 && l2 == h2 {
			return max(min(l1, 0), -l2+1), min(max(h1, 0), l2-1)
		}
	case opUDiv:
		l1, h1 := t.args[0].srange()
		l2, h2 := t.args[1].srange()
		if l1 >= 0 && l2 > 0 {
			return l1 / h2, h1 / l2
		}
	case opURem:
		l1, h1 := t.args[0].srange()
		l2, h2 := t.args[1].srange()
		if l1 >= 0 && l2 > 0 {
			return 0, min(h1, h2-1)
		}
	}
	kz := knownZero(t)
	if kz&(uint64(1)<<(t.width-1)) != 0 {
		return 0, int64(^kz & mask(t.width))
	}
	return flo, fhi
}

// split writes t as base + c where the sum does not wrap around.
func (t *Term) split() (*Term, int64) {
	if t.op == opAdd && t.args[1].isConst() {
		c := sext(t.args[1].k, t.width)
		l, h := t.args[0].srange()
		flo, fhi := fullRange(t.width)
		l2, ok1 := addOv(l, c)
		h2, ok2 := addOv(h, c)
		if ok1 && ok2 && l2 >= flo && h2 <= fhi {
			return t.args[0], c
		}
	}
	return t, 0
}

// simpSigned simplifies signed comparisons using ranges; nil if it cannot.
func (ts *Terms) simpSigned(o op, a, b *Term) *Term {
	la, ha := a.srange()
	lb, hb := b.srange()
	if o == opSLt {
		if ha < lb {
			return ts.Bool(true)
		}
		if la >= hb {
			return ts.Bool(false)
		}
	} else {
		if ha <= lb {
			return ts.Bool(true)
		}
		if la > hb {
			return ts.Bool(false)
		}
	}
	ba, ca := a.split()
	bb, cb := b.split()
	if ba != a || bb != b {
		if b.isConst() {
			if d, ok := addOv(sext(b.k, b.width), -ca); ok && ca != math.MinInt64 {
				return ts.Bin(o, ba, ts.BV(uint64(d), a.width))
			}
		} else if a.isConst() {
			if d, ok := addOv(sext(a.k, a.width), -cb); ok && cb != math.MinInt64 {
				return ts.Bin(o, ts.BV(uint64(d), a.width), bb)
			}
		} else if ca == cb {
			return ts.Bin(o, ba, bb)
		}
	}
	if la >= 0 && lb >= 0 {
		// both non-negative: compare unsigned at the smallest width
		w := bitsFor(uint64(max(ha, hb)))
		u := opULt
		if o == opSLe {
			u = opULe
		}
		if w < a.width {
			na, nb := ts.narrow(a, w), ts.narrow(b, w)
			if na != nil && nb != nil {
				return ts.Bin(u, na, nb)
			}
		}
	}
	return nil
}

// narrow returns the low w bits of a value known to fit, without an extract;
// nil if the term has no narrower form.
func (ts *Terms) narrow(t *Term, w uint8) *Term {
	switch t.op {
	case opConst:
		return ts.BV(t.k, w)
	case opZExt:
		in := t.args[0]
		if in.width <= w {
			return ts.ZExt(in, w)
		}
		return ts.narrow(in, w)
	case opIte:
		a, b := ts.narrow(t.args[1], w), ts.narrow(t.args[2], w)
		if a != nil && b != nil {
			return ts.Ite(t.args[0], a, b)
		}
	case opAdd, opMul, opSub, opBAnd, opBOr, opBXor:
		a, b := ts.narrow(t.args[0], w), ts.narrow(t.args[1], w)
		if a != nil && b != nil {
			return ts.Bin(t.op, a, b)
		}
	}
	if t.width == w {
		return t
	}
	return nil
}
