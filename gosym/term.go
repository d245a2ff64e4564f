package main

import (
	"fmt"
	"math/bits"
	"strconv"
	"strings"
)

// Term is a hash-consed SMT term. Width 0 means Bool, otherwise a bit-vector
// of that width.
type Term struct {
	op    op
	width uint8
	args  [3]*Term
	nargs uint8
	k     uint64 // constant value, or extract low bit
	name  string // variable name
	id    int

	rlo, rhi int64 // signed range, once computed
	rok      bool
}

type op uint8

const (
	opConst op = iota
	opVar
	opNot
	opAnd
	opOr
	opXor // bool xor
	opIte
	opEq
	opAdd
	opSub
	opMul
	opUDiv
	opSDiv
	opURem
	opSRem
	opBAnd
	opBOr
	opBXor
	opBNot
	opNeg
	opShl
	opLShr
	opAShr
	opULt
	opULe
	opSLt
	opSLe
	opZExt
	opSExt
	opExtract
	opConcat
)

var opNames = map[op]string{
	opNot: "not", opAnd: "and", opOr: "or", opXor: "xor", opIte: "ite", opEq: "=",
	opAdd: "bvadd", opSub: "bvsub", opMul: "bvmul", opUDiv: "bvudiv", opSDiv: "bvsdiv",
	opURem: "bvurem", opSRem: "bvsrem", opBAnd: "bvand", opBOr: "bvor", opBXor: "bvxor",
	opBNot: "bvnot", opNeg: "bvneg", opShl: "bvshl", opLShr: "bvlshr", opAShr: "bvashr",
	opULt: "bvult", opULe: "bvule", opSLt: "bvslt", opSLe: "bvsle", opConcat: "concat",
}

type termKey struct {
	op      op
	width   uint8
	a, b, c int
	k       uint64
	name    string
}

// Terms is a hash-consing table. It lives as long as one path.
type Terms struct {
	tab  map[termKey]*Term
	next int
}

func newTerms() *Terms { return &Terms{tab: map[termKey]*Term{}, next: 1} }

func (ts *Terms) mk(o op, w uint8, k uint64, name string, args ...*Term) *Term {
	key := termKey{op: o, width: w, k: k, name: name}
	if len(args) > 0 {
		key.a = args[0].id
	}
	if len(args) > 1 {
		key.b = args[1].id
	}
	if len(args) > 2 {
		key.c = args[2].id
	}
	if t, ok := ts.tab[key]; ok {
		return t
	}
	t := &Term{op: o, width: w, k: k, name: name, id: ts.next, nargs: uint8(len(args))}
	ts.next++
	copy(t.args[:], args)
	ts.tab[key] = t
	return t
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func sext(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	sh := 64 - w
	return int64(v<<sh) >> sh
}

func (t *Term) isConst() bool { return t.op == opConst }
func (t *Term) isTrue() bool  { return t.op == opConst && t.width == 0 && t.k == 1 }
func (t *Term) isFalse() bool { return t.op == opConst && t.width == 0 && t.k == 0 }

func (ts *Terms) Bool(b bool) *Term {
	if b {
		return ts.mk(opConst, 0, 1, "")
	}
	return ts.mk(opConst, 0, 0, "")
}

func (ts *Terms) BV(v uint64, w uint8) *Term { return ts.mk(opConst, w, v&mask(w), "") }

func (ts *Terms) Var(name string, w uint8) *Term { return ts.mk(opVar, w, 0, name) }

func (ts *Terms) Not(a *Term) *Term {
	if a.isConst() {
		return ts.Bool(a.k == 0)
	}
	if a.op == opNot {
		return a.args[0]
	}
	return ts.mk(opNot, 0, 0, "", a)
}

func (ts *Terms) And(a, b *Term) *Term {
	switch {
	case a.isFalse() || b.isFalse():
		return ts.Bool(false)
	case a.isTrue():
		return b
	case b.isTrue():
		return a
	case a == b:
		return a
	case a.op == opNot && a.args[0] == b, b.op == opNot && b.args[0] == a:
		return ts.Bool(false)
	}
	if r := andEqNotLess(a, b); r != nil {
		return r
	}
	if r := andEqNotLess(b, a); r != nil {
		return r
	}
	if a.id > b.id {
		a, b = b, a
	}
	return ts.mk(opAnd, 0, 0, "", a, b)
}

// andEqNotLess simplifies x = y && !(x < y) to x = y.
func andEqNotLess(eq, n *Term) *Term {
	if eq.op == opEq && n.op == opNot {
		if l := n.args[0]; l.op == opULt || l.op == opSLt {
			if l.args[0] == eq.args[0] && l.args[1] == eq.args[1] || l.args[0] == eq.args[1] && l.args[1] == eq.args[0] {
				return eq
			}
		}
	}
	return nil
}

// lexLess turns a < b || (a = b && c < d) into (a,c) < (b,d).
func (ts *Terms) lexLess(l, e *Term) *Term {
	if l.op != opULt || e.op != opAnd {
		return nil
	}
	for i := 0; i < 2; i++ {
		eq, l2 := e.args[i], e.args[1-i]
		if eq.op != opEq || l2.op != opULt {
			continue
		}
		a, b := l.args[0], l.args[1]
		if !(a == eq.args[0] && b == eq.args[1] || a == eq.args[1] && b == eq.args[0]) {
			continue
		}
		c, d := l2.args[0], l2.args[1]
		if int(a.width)+int(c.width) > 64 {
			continue
		}
		return ts.Bin(opULt, ts.Concat(a, c), ts.Concat(b, d))
	}
	return nil
}

// Concat is the bit string a followed by b.
func (ts *Terms) Concat(a, b *Term) *Term {
	w := a.width + b.width
	if a.isConst() && b.isConst() {
		return ts.BV(a.k<<b.width|b.k, w)
	}
	return ts.mk(opConcat, w, 0, "", a, b)
}

func (ts *Terms) Or(a, b *Term) *Term {
	switch {
	case a.isTrue() || b.isTrue():
		return ts.Bool(true)
	case a.isFalse():
		return b
	case b.isFalse():
		return a
	case a == b:
		return a
	case a.op == opNot && a.args[0] == b, b.op == opNot && b.args[0] == a:
		return ts.Bool(true)
	}
	if r := ts.lexLess(a, b); r != nil {
		return r
	}
	if r := ts.lexLess(b, a); r != nil {
		return r
	}
	if a.id > b.id {
		a, b = b, a
	}
	return ts.mk(opOr, 0, 0, "", a, b)
}

func (ts *Terms) Ite(c, a, b *Term) *Term {
	if c.isConst() {
		if c.k == 1 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if a.width == 0 {
		if a.isTrue() && b.isFalse() {
			return c
		}
		if a.isFalse() && b.isTrue() {
			return ts.Not(c)
		}
		if a.isTrue() {
			return ts.Or(c, b)
		}
		if a.isFalse() {
			return ts.And(ts.Not(c), b)
		}
		if b.isTrue() {
			return ts.Or(ts.Not(c), a)
		}
		if b.isFalse() {
			return ts.And(c, a)
		}
	}
	if c.op == opNot {
		return ts.Ite(c.args[0], b, a)
	}
	return ts.mk(opIte, a.width, 0, "", c, a, b)
}

func (ts *Terms) Eq(a, b *Term) *Term {
	if a == b {
		return ts.Bool(true)
	}
	if a.width != b.width {
		panic(fmt.Sprintf("eq width mismatch %d %d", a.width, b.width))
	}
	if a.isConst() && b.isConst() {
		return ts.Bool(a.k == b.k)
	}
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		if a.width == 0 {
			if b.k == 1 {
				return a
			}
			return ts.Not(a)
		}
		switch a.op {
		case opIte:
			x, y := a.args[1], a.args[2]
			if x.isConst() || y.isConst() {
				return ts.Ite(a.args[0], ts.Eq(x, b), ts.Eq(y, b))
			}
		case opZExt:
			in := a.args[0]
			if b.k&^mask(in.width) != 0 {
				return ts.Bool(false)
			}
			return ts.Eq(in, ts.BV(b.k, in.width))
		case opAdd:
			if a.args[1].isConst() {
				return ts.Eq(a.args[0], ts.BV(b.k-a.args[1].k, a.width))
			}
		}
		if knownZero(a)&b.k != 0 {
			return ts.Bool(false)
		}
	}
	if a.op == opAdd && b.op == opAdd && a.args[1].isConst() && a.args[1] == b.args[1] {
		return ts.Eq(a.args[0], b.args[0])
	}
	if a.width > 0 {
		la, ha := a.srange()
		lb, hb := b.srange()
		if ha < lb || hb < la {
			return ts.Bool(false)
		}
		if la >= 0 && lb >= 0 {
			w := bitsFor(uint64(max(ha, hb)))
			if w < a.width {
				na, nb := ts.narrow(a, w), ts.narrow(b, w)
				if na != nil && nb != nil {
					return ts.Eq(na, nb)
				}
			}
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return ts.mk(opEq, 0, 0, "", a, b)
}

// knownZero returns a mask of bits known to be zero (within the width).
func knownZero(t *Term) uint64 {
	m := mask(t.width)
	switch t.op {
	case opConst:
		return ^t.k & m
	case opZExt:
		return (m &^ mask(t.args[0].width)) | knownZero(t.args[0])
	case opBAnd:
		return knownZero(t.args[0]) | knownZero(t.args[1])
	case opBOr:
		return knownZero(t.args[0]) & knownZero(t.args[1])
	case opIte:
		return knownZero(t.args[1]) & knownZero(t.args[2])
	case opShl:
		if t.args[1].isConst() && t.args[1].k < 64 {
			return ((knownZero(t.args[0]) << t.args[1].k) | mask(uint8(t.args[1].k))) & m
		}
	case opLShr:
		if t.args[1].isConst() && t.args[1].k < 64 {
			s := t.args[1].k
			return ((knownZero(t.args[0]) >> s) | ^(m >> s)) & m
		}
	case opExtract:
		return (knownZero(t.args[0]) >> t.k) & m
	}
	return 0
}

func evalBin(o op, a, b uint64, w uint8) uint64 {
	m := mask(w)
	sa, sb := sext(a, w), sext(b, w)
	bo := func(x bool) uint64 {
		if x {
			return 1
		}
		return 0
	}
	switch o {
	case opAdd:
		return (a + b) & m
	case opSub:
		return (a - b) & m
	case opMul:
		return (a * b) & m
	case opUDiv:
		if b == 0 {
			return m
		}
		return a / b
	case opURem:
		if b == 0 {
			return a
		}
		return a % b
	case opSDiv:
		if b == 0 {
			if sa >= 0 {
				return m
			}
			return 1
		}
		if sb == -1 {
			return uint64(-sa) & m
		}
		return uint64(sa/sb) & m
	case opSRem:
		if b == 0 {
			return a
		}
		if sb == -1 {
			return 0
		}
		return uint64(sa%sb) & m
	case opBAnd:
		return a & b
	case opBOr:
		return a | b
	case opBXor:
		return a ^ b
	case opShl:
		if b >= uint64(w) {
			return 0
		}
		return (a << b) & m
	case opLShr:
		if b >= uint64(w) {
			return 0
		}
		return a >> b
	case opAShr:
		if b >= uint64(w) {
			b = uint64(w) - 1
		}
		return uint64(sa>>b) & m
	case opULt:
		return bo(a < b)
	case opULe:
		return bo(a <= b)
	case opSLt:
		return bo(sa < sb)
	case opSLe:
		return bo(sa <= sb)
	}
	panic("evalBin")
}

// Bin builds a bit-vector binary operation (arithmetic, bitwise or comparison).
func (ts *Terms) Bin(o op, a, b *Term) *Term {
	w := a.width
	if a.width != b.width {
		panic(fmt.Sprintf("bin %s width mismatch %d %d", opNames[o], a.width, b.width))
	}
	rw := w
	cmp := o == opULt || o == opULe || o == opSLt || o == opSLe
	if cmp {
		rw = 0
	}
	if a.isConst() && b.isConst() {
		v := evalBin(o, a.k, b.k, w)
		if cmp {
			return ts.Bool(v == 1)
		}
		return ts.BV(v, w)
	}
	switch o {
	case opAdd, opMul, opBAnd, opBOr, opBXor:
		if a.isConst() {
			a, b = b, a
		} else if !b.isConst() && a.id > b.id {
			a, b = b, a
		}
	}
	switch o {
	case opAdd:
		if b.isConst() {
			if b.k == 0 {
				return a
			}
			if a.op == opAdd && a.args[1].isConst() {
				return ts.Bin(opAdd, a.args[0], ts.BV(a.args[1].k+b.k, w))
			}
		}
	case opSub:
		if b.isConst() {
			return ts.Bin(opAdd, a, ts.BV(-b.k, w))
		}
		if a == b {
			return ts.BV(0, w)
		}
		// (x + c1) - (y + c2)
		if a.op == opAdd && a.args[1].isConst() && b.op == opAdd && b.args[1].isConst() {
			return ts.Bin(opAdd, ts.Bin(opSub, a.args[0], b.args[0]), ts.BV(a.args[1].k-b.args[1].k, w))
		}
	case opMul:
		if b.isConst() {
			if b.k == 0 {
				return b
			}
			if b.k == 1 {
				return a
			}
		}
	case opBAnd:
		if b.isConst() {
			if b.k == 0 {
				return b
			}
			if b.k == mask(w) {
				return a
			}
			kz := knownZero(a)
			if ^kz&b.k == 0 {
				return ts.BV(0, w)
			}
			if ^kz&mask(w)&^b.k == 0 {
				return a
			}
		}
		if a == b {
			return a
		}
	case opBOr:
		if b.isConst() {
			if b.k == 0 {
				return a
			}
		}
		if a == b {
			return a
		}
	case opBXor:
		if b.isConst() && b.k == 0 {
			return a
		}
		if a == b {
			return ts.BV(0, w)
		}
	case opShl, opLShr, opAShr:
		if b.isConst() && b.k == 0 {
			return a
		}
		if b.isConst() && b.k >= uint64(w) && o != opAShr {
			return ts.BV(0, w)
		}
		if o == opLShr && b.isConst() && (^knownZero(a)&mask(w))>>b.k == 0 {
			return ts.BV(0, w)
		}
	case opULt:
		if a == b {
			return ts.Bool(false)
		}
		if b.isConst() && b.k == 0 {
			return ts.Bool(false)
		}
		if b.isConst() && (^knownZero(a)&mask(w)) < b.k {
			return ts.Bool(true)
		}
	case opULe:
		if a == b {
			return ts.Bool(true)
		}
		if b.isConst() && (^knownZero(a)&mask(w)) <= b.k {
			return ts.Bool(true)
		}
	case opSLt, opSLe:
		if a == b {
			return ts.Bool(o == opSLe)
		}
		if r := ts.simpSigned(o, a, b); r != nil {
			return r
		}
		// ranges from known-zero bits
		sb := uint64(1) << (w - 1)
		if knownZero(a)&sb != 0 && b.isConst() {
			maxa := int64(^knownZero(a) & mask(w))
			kb := sext(b.k, w)
			if o == opSLt && maxa < kb || o == opSLe && maxa <= kb {
				return ts.Bool(true)
			}
			if kb < 0 || o == opSLt && kb == 0 {
				return ts.Bool(false)
			}
		}
		if knownZero(b)&sb != 0 && a.isConst() {
			maxb := int64(^knownZero(b) & mask(w))
			ka := sext(a.k, w)
			if ka < 0 || o == opSLe && ka == 0 {
				return ts.Bool(true)
			}
			if o == opSLt && ka >= maxb || o == opSLe && ka > maxb {
				return ts.Bool(false)
			}
		}
	case opUDiv:
		if b.isConst() && b.k == 1 {
			return a
		}
		if b.isConst() && b.k > 0 && (^knownZero(a)&mask(w)) < b.k {
			return ts.BV(0, w)
		}
	case opURem:
		if b.isConst() && b.k > 0 && (^knownZero(a)&mask(w)) < b.k {
			return a
		}
	case opSDiv, opSRem:
		if b.isConst() && sext(b.k, w) > 0 && knownZero(a)&(uint64(1)<<(w-1)) != 0 {
			if o == opSDiv {
				return ts.Bin(opUDiv, a, b)
			}
			return ts.Bin(opURem, a, b)
		}
	}
	if cmp {
		// push comparisons with constants through ite with constant leaves
		if b.isConst() && a.op == opIte && a.args[1].isConst() && a.args[2].isConst() {
			return ts.Ite(a.args[0], ts.Bin(o, a.args[1], b), ts.Bin(o, a.args[2], b))
		}
		if a.isConst() && b.op == opIte && b.args[1].isConst() && b.args[2].isConst() {
			return ts.Ite(b.args[0], ts.Bin(o, a, b.args[1]), ts.Bin(o, a, b.args[2]))
		}
	}
	return ts.mk(o, rw, 0, "", a, b)
}

func (ts *Terms) BNot(a *Term) *Term {
	if a.isConst() {
		return ts.BV(^a.k, a.width)
	}
	return ts.mk(opBNot, a.width, 0, "", a)
}

func (ts *Terms) Neg(a *Term) *Term {
	if a.isConst() {
		return ts.BV(-a.k, a.width)
	}
	return ts.mk(opNeg, a.width, 0, "", a)
}

func (ts *Terms) ZExt(a *Term, w uint8) *Term {
	if w == a.width {
		return a
	}
	if a.isConst() {
		return ts.BV(a.k, w)
	}
	if a.op == opZExt {
		return ts.ZExt(a.args[0], w)
	}
	return ts.mk(opZExt, w, 0, "", a)
}

func (ts *Terms) SExt(a *Term, w uint8) *Term {
	if w == a.width {
		return a
	}
	if a.isConst() {
		return ts.BV(uint64(sext(a.k, a.width)), w)
	}
	if knownZero(a)&(uint64(1)<<(a.width-1)) != 0 {
		return ts.ZExt(a, w)
	}
	return ts.mk(opSExt, w, 0, "", a)
}

// Trunc extracts the low w bits.
func (ts *Terms) Trunc(a *Term, w uint8) *Term {
	if w == a.width {
		return a
	}
	if a.isConst() {
		return ts.BV(a.k, w)
	}
	if a.op == opZExt || a.op == opSExt {
		in := a.args[0]
		if in.width == w {
			return in
		}
		if in.width > w {
			return ts.Trunc(in, w)
		}
		if a.op == opZExt {
			return ts.ZExt(in, w)
		}
		return ts.SExt(in, w)
	}
	return ts.mk(opExtract, w, 0, "", a)
}

// Model assigns values to variables; absent variables are zero.
type Model map[string]uint64

func (t *Term) eval(m Model, memo map[*Term]uint64) uint64 {
	switch t.op {
	case opConst:
		return t.k
	case opVar:
		return m[t.name]
	}
	if v, ok := memo[t]; ok {
		return v
	}
	var r uint64
	switch t.op {
	case opNot:
		r = 1 - t.args[0].eval(m, memo)
	case opAnd:
		r = t.args[0].eval(m, memo)
		if r == 1 {
			r = t.args[1].eval(m, memo)
		}
	case opOr:
		r = t.args[0].eval(m, memo)
		if r == 0 {
			r = t.args[1].eval(m, memo)
		}
	case opIte:
		if t.args[0].eval(m, memo) == 1 {
			r = t.args[1].eval(m, memo)
		} else {
			r = t.args[2].eval(m, memo)
		}
	case opEq:
		if t.args[0].eval(m, memo) == t.args[1].eval(m, memo) {
			r = 1
		}
	case opBNot:
		r = ^t.args[0].eval(m, memo) & mask(t.width)
	case opNeg:
		r = -t.args[0].eval(m, memo) & mask(t.width)
	case opZExt:
		r = t.args[0].eval(m, memo)
	case opSExt:
		r = uint64(sext(t.args[0].eval(m, memo), t.args[0].width)) & mask(t.width)
	case opConcat:
		r = t.args[0].eval(m, memo)<<t.args[1].width | t.args[1].eval(m, memo)
	case opExtract:
		r = (t.args[0].eval(m, memo) >> t.k) & mask(t.width)
	default:
		r = evalBin(t.op, t.args[0].eval(m, memo), t.args[1].eval(m, memo), t.args[0].width)
	}
	if memo != nil {
		memo[t] = r
	}
	return r
}

func (t *Term) Eval(m Model) uint64 { return t.eval(m, map[*Term]uint64{}) }

func (t *Term) sortString() string {
	if t.width == 0 {
		return "Bool"
	}
	return "(_ BitVec " + strconv.Itoa(int(t.width)) + ")"
}

func constString(k uint64, w uint8) string {
	if w == 0 {
		if k == 1 {
			return "true"
		}
		return "false"
	}
	return "(_ bv" + strconv.FormatUint(k, 10) + " " + strconv.Itoa(int(w)) + ")"
}

// smtWriter emits declarations and definitions needed by terms, once each.
type smtWriter struct {
	done map[*Term]bool
	vars []*Term
	sb   *strings.Builder
}

func (w *smtWriter) ref(t *Term) string {
	switch t.op {
	case opConst:
		return constString(t.k, t.width)
	case opVar:
		return "|" + t.name + "|"
	}
	return "t" + strconv.Itoa(t.id)
}

// emit writes everything needed for t to be referenced.
func (w *smtWriter) emit(t *Term) {
	if t.op == opConst || w.done[t] {
		return
	}
	w.done[t] = true
	if t.op == opVar {
		fmt.Fprintf(w.sb, "(declare-const |%s| %s)\n", t.name, t.sortString())
		w.vars = append(w.vars, t)
		return
	}
	for i := 0; i < int(t.nargs); i++ {
		w.emit(t.args[i])
	}
	fmt.Fprintf(w.sb, "(define-fun t%d () %s ", t.id, t.sortString())
	switch t.op {
	case opZExt:
		fmt.Fprintf(w.sb, "((_ zero_extend %d) %s)", t.width-t.args[0].width, w.ref(t.args[0]))
	case opSExt:
		fmt.Fprintf(w.sb, "((_ sign_extend %d) %s)", t.width-t.args[0].width, w.ref(t.args[0]))
	case opExtract:
		fmt.Fprintf(w.sb, "((_ extract %d %d) %s)", uint64(t.width)+t.k-1, t.k, w.ref(t.args[0]))
	default:
		w.sb.WriteString("(" + opNames[t.op])
		for i := 0; i < int(t.nargs); i++ {
			w.sb.WriteString(" " + w.ref(t.args[i]))
		}
		w.sb.WriteString(")")
	}
	w.sb.WriteString(")\n")
}

func (t *Term) String() string {
	return t.str(6)
}

func (t *Term) str(depth int) string {
	switch t.op {
	case opConst:
		if t.width == 0 {
			return constString(t.k, 0)
		}
		return strconv.FormatInt(sext(t.k, t.width), 10)
	case opVar:
		return t.name
	}
	if depth == 0 {
		return "..."
	}
	n := opNames[t.op]
	switch t.op {
	case opZExt:
		n = "zext"
	case opSExt:
		n = "sext"
	case opExtract:
		n = "extract"
	}
	s := "(" + n
	for i := 0; i < int(t.nargs); i++ {
		s += " " + t.args[i].str(depth-1)
	}
	return s + ")"
}

var _ = bits.Len
