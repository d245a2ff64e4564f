package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"math/big"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

func (c *compiler) unop(ins *ssa.UnOp, dst int) func(*frame) {
	x := c.opnd(ins.X)
	switch ins.Op {
	case token.MUL:
		agg := isAggregate(ins.Type())
		if g, ok := ins.X.(*ssa.Global); ok {
			return func(fr *frame) {
				p := fr.m.global(g)
				if fr.m.race != nil {
					fr.m.race.accessCell(fr, p, false)
				}
				if agg {
					fr.r[dst] = copyVal(*p)
				} else {
					fr.r[dst] = *p
				}
			}
		}
		return func(fr *frame) {
			p := fr.ptr(fr.get(&x), ins)
			if fr.m.race != nil {
				fr.m.race.accessCell(fr, p, false)
			}
			if agg {
				fr.r[dst] = copyVal(*p)
			} else {
				fr.r[dst] = *p
			}
		}
	case token.NOT:
		return func(fr *frame) { fr.r[dst] = fr.m.not(fr.get(&x)) }
	case token.ARROW:
		ok := ins.CommaOk
		return func(fr *frame) {
			fr.cur = ins
			v, o := fr.m.recv(fr.g, fr.get(&x).(*channel))
			if ok {
				fr.r[dst] = tuple{v, o}
			} else {
				fr.r[dst] = v
			}
		}
	case token.SUB:
		if w, signed, ok := intInfo(ins.X.Type()); ok {
			return func(fr *frame) {
				switch v := fr.get(&x).(type) {
				case int64:
					fr.r[dst] = normInt(-v, w, signed)
				case *Term:
					fr.r[dst] = fr.m.ts.Neg(v)
				}
			}
		}
		return func(fr *frame) {
			switch v := fr.get(&x).(type) {
			case float64:
				fr.r[dst] = -v
			case *symFloat:
				fr.r[dst] = v.scale(big.NewRat(-1, 1))
			case complex128:
				fr.r[dst] = -v
			default:
				unsupported("negation of %T", v)
			}
		}
	case token.XOR:
		w, signed, _ := intInfo(ins.X.Type())
		return func(fr *frame) {
			switch v := fr.get(&x).(type) {
			case int64:
				fr.r[dst] = normInt(^v, w, signed)
			case *Term:
				fr.r[dst] = fr.m.ts.BNot(v)
			}
		}
	}
	panic("unop " + ins.Op.String())
}

// term turns an integer value into a bit-vector of width w.
func (m *machine) term(v value, w uint8) *Term {
	switch v := v.(type) {
	case int64:
		return m.ts.BV(uint64(v), w)
	case *Term:
		return v
	}
	panic(fmt.Sprintf("term of %T", v))
}

// fold turns constant integer terms back into concrete integers.
func fold(t *Term, signed bool) value {
	if t.isConst() {
		if t.width == 0 {
			return t.k == 1
		}
		if signed {
			return sext(t.k, t.width)
		}
		return int64(t.k)
	}
	return t
}

func (c *compiler) binop(ins *ssa.BinOp, dst int) func(*frame) {
	x, y := c.opnd(ins.X), c.opnd(ins.Y)
	o := ins.Op
	switch o {
	case token.EQL, token.NEQ:
		neg := o == token.NEQ
		tx, ty := ins.X.Type(), ins.Y.Type()
		_, ix := tx.Underlying().(*types.Interface)
		_, iy := ty.Underlying().(*types.Interface)
		cx, cy := c.p.canon(tx), c.p.canon(ty)
		// a nil constant compared with an interface etc. has the same type
		return func(fr *frame) {
			a, b := fr.get(&x), fr.get(&y)
			if ix != iy {
				// comparison of an interface with a concrete value
				if ix {
					b = iface{cy, b}
				} else {
					a = iface{cx, a}
				}
			}
			fr.cur = ins
			r := fr.m.equal(a, b)
			if neg {
				r = fr.m.not(r)
			}
			fr.r[dst] = r
		}
	}
	t := ins.X.Type()
	if w, signed, ok := intInfo(t); ok {
		return c.intBinop(ins, o, x, y, dst, w, signed)
	}
	b, _ := t.Underlying().(*types.Basic)
	if b == nil {
		panic("binop on " + t.String())
	}
	switch {
	case b.Info()&types.IsString != 0:
		if o == token.ADD {
			return func(fr *frame) {
				a, b := fr.get(&x), fr.get(&y)
				if s, ok := a.(string); ok {
					if u, ok := b.(string); ok {
						fr.r[dst] = s + u
						return
					}
				}
				fr.r[dst] = fr.m.concat(a, b)
			}
		}
		return func(fr *frame) {
			fr.cur = ins
			fr.r[dst] = fr.m.cmpStr(o, fr.get(&x), fr.get(&y))
		}
	case b.Info()&types.IsFloat != 0:
		is32 := b.Kind() == types.Float32
		return func(fr *frame) {
			fa, oka := fr.get(&x).(float64)
			fb, okb := fr.get(&y).(float64)
			if !oka || !okb {
				fr.cur = ins
				if is32 {
					unsupported("symbolic floating point at %s", fr.m.where())
				}
				fr.r[dst] = fr.m.floatOp(o, fr.get(&x), fr.get(&y))
				return
			}
			var r float64
			switch o {
			case token.ADD:
				r = fa + fb
			case token.SUB:
				r = fa - fb
			case token.MUL:
				r = fa * fb
			case token.QUO:
				r = fa / fb
			case token.LSS:
				fr.r[dst] = fa < fb
				return
			case token.LEQ:
				fr.r[dst] = fa <= fb
				return
			case token.GTR:
				fr.r[dst] = fa > fb
				return
			case token.GEQ:
				fr.r[dst] = fa >= fb
				return
			}
			if is32 {
				r = float64(float32(r))
			}
			fr.r[dst] = r
		}
	case b.Info()&types.IsComplex != 0:
		return func(fr *frame) {
			a, b := fr.get(&x).(complex128), fr.get(&y).(complex128)
			switch o {
			case token.ADD:
				fr.r[dst] = a + b
			case token.SUB:
				fr.r[dst] = a - b
			case token.MUL:
				fr.r[dst] = a * b
			case token.QUO:
				fr.r[dst] = a / b
			}
		}
	case b.Info()&types.IsBoolean != 0:
		return func(fr *frame) {
			a, _ := fr.m.boolTerm(fr.get(&x))
			b, _ := fr.m.boolTerm(fr.get(&y))
			switch o {
			case token.AND:
				fr.r[dst] = fr.m.unterm(fr.m.ts.And(a, b))
			case token.OR:
				fr.r[dst] = fr.m.unterm(fr.m.ts.Or(a, b))
			default:
				unsupported("boolean operator %s", o)
			}
		}
	}
	panic("binop " + ins.String())
}

func (m *machine) cmpStr(o token.Token, a, b value) value {
	f := func(x, y string) bool {
		switch o {
		case token.LSS:
			return x < y
		case token.LEQ:
			return x <= y
		case token.GTR:
			return x > y
		case token.GEQ:
			return x >= y
		}
		panic("cmpStr")
	}
	x, xs := a.(string)
	y, ys := b.(string)
	if xs && ys {
		return f(x, y)
	}
	var ta, tb []string
	var ia, ib *Term
	if xs {
		ta = []string{x}
	} else {
		s := a.(*SymStr)
		ta, ia = s.table, s.idx
	}
	if ys {
		tb = []string{y}
	} else {
		s := b.(*SymStr)
		tb, ib = s.table, s.idx
	}
	if !xs && ia == nil || !ys && ib == nil {
		unsupported("comparison of unmodelled text at %s", m.where())
	}
	r := m.ts.Bool(false)
	for i, p := range ta {
		for j, q := range tb {
			if f(p, q) {
				c := m.ts.Bool(true)
				if ia != nil {
					c = m.ts.And(c, m.ts.Eq(ia, m.ts.BV(uint64(i), ia.width)))
				}
				if ib != nil {
					c = m.ts.And(c, m.ts.Eq(ib, m.ts.BV(uint64(j), ib.width)))
				}
				r = m.ts.Or(r, c)
			}
		}
	}
	return m.unterm(r)
}

func (c *compiler) intBinop(ins *ssa.BinOp, o token.Token, x, y opnd, dst int, w uint8, signed bool) func(*frame) {
	yw, ysigned, _ := intInfo(ins.Y.Type())
	conc := func(fr *frame, a, b int64) value {
		switch o {
		case token.ADD:
			return normInt(a+b, w, signed)
		case token.SUB:
			return normInt(a-b, w, signed)
		case token.MUL:
			return normInt(a*b, w, signed)
		case token.QUO:
			if b == 0 {
				fr.cur = ins
				fr.m.throw("integer divide by zero")
			}
			if signed {
				if b == -1 {
					return normInt(-a, w, signed)
				}
				return normInt(a/b, w, signed)
			}
			return normInt(int64(uint64(a)/uint64(b)), w, signed)
		case token.REM:
			if b == 0 {
				fr.cur = ins
				fr.m.throw("integer divide by zero")
			}
			if signed {
				if b == -1 {
					return int64(0)
				}
				return normInt(a%b, w, signed)
			}
			return normInt(int64(uint64(a)%uint64(b)), w, signed)
		case token.AND:
			return a & b
		case token.OR:
			return a | b
		case token.XOR:
			return normInt(a^b, w, signed)
		case token.AND_NOT:
			return normInt(a&^b, w, signed)
		case token.SHL, token.SHR:
			if ysigned && b < 0 {
				fr.cur = ins
				fr.m.throw("negative shift amount")
			}
			ub := uint64(b)
			if o == token.SHL {
				if ub >= uint64(w) {
					return int64(0)
				}
				return normInt(a<<ub, w, signed)
			}
			if signed {
				if ub >= 64 {
					ub = 63
				}
				return normInt(a>>ub, w, signed)
			}
			if ub >= 64 {
				return int64(0)
			}
			return normInt(int64(uint64(a)>>ub), w, signed)
		case token.LSS:
			if signed {
				return a < b
			}
			return uint64(a) < uint64(b)
		case token.LEQ:
			if signed {
				return a <= b
			}
			return uint64(a) <= uint64(b)
		case token.GTR:
			if signed {
				return a > b
			}
			return uint64(a) > uint64(b)
		case token.GEQ:
			if signed {
				return a >= b
			}
			return uint64(a) >= uint64(b)
		}
		panic("int binop " + o.String())
	}
	return func(fr *frame) {
		xv, yv := fr.get(&x), fr.get(&y)
		a, ok := xv.(int64)
		if ok {
			if b, ok := yv.(int64); ok {
				fr.r[dst] = conc(fr, a, b)
				return
			}
		}
		m := fr.m
		if _, ok := xv.(opaqueByte); ok {
			fr.cur = ins
			unsupported("unmodelled text at %s", m.where())
		}
		if _, ok := yv.(opaqueByte); ok {
			fr.cur = ins
			unsupported("unmodelled text at %s", m.where())
		}
		ts := m.ts
		tx := m.term(xv, w)
		var r *Term
		switch o {
		case token.SHL, token.SHR:
			ty := m.term(yv, yw)
			if ysigned {
				if m.decide(ts.Bin(opSLt, ty, ts.BV(0, yw))) {
					fr.cur = ins
					m.throw("negative shift amount")
				}
			}
			// bring the shift amount to width w, saturating
			if yw > w {
				big := ts.Bin(opULe, ts.BV(uint64(w), yw), ty)
				ty = ts.Ite(big, ts.BV(uint64(w), w), ts.Trunc(ty, w))
			} else {
				ty = ts.ZExt(ty, w)
			}
			switch {
			case o == token.SHL:
				r = ts.Bin(opShl, tx, ty)
			case signed:
				r = ts.Bin(opAShr, tx, ty)
			default:
				r = ts.Bin(opLShr, tx, ty)
			}
			fr.r[dst] = fold(r, signed)
			return
		}
		ty := m.term(yv, w)
		switch o {
		case token.ADD:
			r = ts.Bin(opAdd, tx, ty)
		case token.SUB:
			r = ts.Bin(opSub, tx, ty)
		case token.MUL:
			r = ts.Bin(opMul, tx, ty)
		case token.QUO, token.REM:
			if m.decide(ts.Eq(ty, ts.BV(0, w))) {
				fr.cur = ins
				m.throw("integer divide by zero")
			}
			switch {
			case o == token.QUO && signed:
				r = ts.Bin(opSDiv, tx, ty)
			case o == token.QUO:
				r = ts.Bin(opUDiv, tx, ty)
			case signed:
				r = ts.Bin(opSRem, tx, ty)
			default:
				r = ts.Bin(opURem, tx, ty)
			}
		case token.AND:
			r = ts.Bin(opBAnd, tx, ty)
		case token.OR:
			r = ts.Bin(opBOr, tx, ty)
		case token.XOR:
			r = ts.Bin(opBXor, tx, ty)
		case token.AND_NOT:
			r = ts.Bin(opBAnd, tx, ts.BNot(ty))
		case token.LSS:
			r = ts.Bin(pick(signed, opSLt, opULt), tx, ty)
		case token.LEQ:
			r = ts.Bin(pick(signed, opSLe, opULe), tx, ty)
		case token.GTR:
			r = ts.Bin(pick(signed, opSLt, opULt), ty, tx)
		case token.GEQ:
			r = ts.Bin(pick(signed, opSLe, opULe), ty, tx)
		default:
			panic("int binop " + o.String())
		}
		fr.r[dst] = fold(r, signed)
	}
}

func pick(s bool, a, b op) op {
	if s {
		return a
	}
	return b
}

// ---- conversions --------------------------------------------------------

func (p *Program) converter(from, to types.Type) func(*frame, value) value {
	// conversions involving type parameters of core types are instantiated
	uf, ut := from.Underlying(), to.Underlying()
	if w, _, ok := intInfo(uf); ok {
		fw := w
		_, fsigned, _ := intInfo(uf)
		if tw, tsigned, ok := intInfo(ut); ok {
			return func(fr *frame, v value) value {
				switch v := v.(type) {
				case int64:
					return normInt(v, tw, tsigned)
				case *Term:
					ts := fr.m.ts
					switch {
					case tw < fw:
						return fold(ts.Trunc(v, tw), tsigned)
					case tw > fw && fsigned:
						return fold(ts.SExt(v, tw), tsigned)
					case tw > fw:
						return fold(ts.ZExt(v, tw), tsigned)
					}
					return fold(v, tsigned)
				case opaqueByte:
					return v
				case *value: // uintptr made from unsafe.Pointer
					return v
				}
				unsupported("integer conversion of %T", v)
				return nil
			}
		}
		if b, ok := ut.(*types.Basic); ok {
			switch {
			case b.Info()&types.IsFloat != 0:
				is32 := b.Kind() == types.Float32
				return func(fr *frame, v value) value {
					i, ok := v.(int64)
					if !ok {
						if t, isT := v.(*Term); isT && fr.m.opts.ConcretizeFloat {
							i = sext(fr.m.concretize(t), t.width)
						} else if isT && !is32 && fsigned {
							return newSymFloat(fr.m.ts.SExt(t, 64))
						} else {
							unsupported("symbolic integer converted to float at %s", fr.m.where())
						}
					}
					var f float64
					if fsigned {
						f = float64(i)
					} else {
						f = float64(uint64(i))
					}
					if is32 {
						f = float64(float32(f))
					}
					return f
				}
			case b.Info()&types.IsString != 0:
				return func(fr *frame, v value) value {
					return string(rune(fr.m.concInt(v)))
				}
			case b.Kind() == types.UnsafePointer:
				return func(fr *frame, v value) value { return v }
			}
		}
	}
	if b, ok := uf.(*types.Basic); ok {
		switch {
		case b.Info()&types.IsFloat != 0:
			if tw, tsigned, ok := intInfo(ut); ok {
				return func(fr *frame, v value) value {
					if s, ok := v.(*symFloat); ok {
						return fr.m.floatToInt(s, tw, tsigned)
					}
					f := v.(float64)
					if tsigned {
						return normInt(int64(f), tw, tsigned)
					}
					return normInt(int64(uint64(f)), tw, tsigned)
				}
			}
			if tb, ok := ut.(*types.Basic); ok && tb.Kind() == types.Float32 {
				return func(fr *frame, v value) value {
					f, ok := v.(float64)
					if !ok {
						unsupported("symbolic floating point at %s", fr.m.where())
					}
					return float64(float32(f))
				}
			}
			return func(fr *frame, v value) value { return v }
		case b.Info()&types.IsComplex != 0:
			return func(fr *frame, v value) value { return v }
		case b.Info()&types.IsString != 0:
			if s, ok := ut.(*types.Slice); ok {
				if eb, ok := s.Elem().Underlying().(*types.Basic); ok {
					if eb.Kind() == types.Uint8 {
						return func(fr *frame, v value) value { return fr.m.bytesOf(v) }
					}
					return func(fr *frame, v value) value {
						rs := []value{}
						for _, r := range fr.m.concStr(v) {
							rs = append(rs, int64(r))
						}
						return rs
					}
				}
			}
			return func(fr *frame, v value) value { return v }
		case b.Kind() == types.UnsafePointer:
			return func(fr *frame, v value) value { return v }
		}
	}
	switch u := uf.(type) {
	case *types.Slice:
		if tb, ok := ut.(*types.Basic); ok && tb.Info()&types.IsString != 0 {
			if eb := u.Elem().Underlying().(*types.Basic); eb.Kind() == types.Uint8 {
				return func(fr *frame, v value) value { return fr.m.stringOf(v.([]value)) }
			}
			return func(fr *frame, v value) value {
				var b []byte
				for _, r := range v.([]value) {
					b = utf8.AppendRune(b, rune(fr.m.concInt(r)))
				}
				return string(b)
			}
		}
		if ta, ok := ut.(*types.Array); ok {
			n := int(ta.Len())
			return func(fr *frame, v value) value {
				s := v.([]value)
				if len(s) < n {
					fr.m.throw("cannot convert slice to array: length too short")
				}
				return copyVal(array(s[:n]))
			}
		}
	}
	return func(fr *frame, v value) value { return v }
}

func (m *machine) bytesOf(v value) value {
	switch v := v.(type) {
	case string:
		bs := make([]value, len(v))
		for i := 0; i < len(v); i++ {
			bs[i] = int64(v[i])
		}
		return bs
	case *SymStr:
		if v.idx == nil {
			return []value{opaqueByte{}}
		}
		return m.bytesOf(m.concStr(v))
	}
	panic(fmt.Sprintf("bytesOf %T", v))
}

func (m *machine) stringOf(bs []value) value {
	b := make([]byte, len(bs))
	for i, x := range bs {
		switch x := x.(type) {
		case int64:
			b[i] = byte(x)
		case opaqueByte:
			return opaqueStr
		case *Term:
			b[i] = byte(m.concretize(x))
		}
	}
	return string(b)
}

// ---- builtins -----------------------------------------------------------

func (m *machine) lenOf(v value) value {
	switch v := v.(type) {
	case string:
		return int64(len(v))
	case *SymStr:
		if v.idx == nil {
			unsupported("length of unmodelled text at %s\n%s", m.where(), m.stack())
		}
		r := m.ts.BV(uint64(len(v.table[len(v.table)-1])), 64)
		for i := len(v.table) - 2; i >= 0; i-- {
			r = m.ts.Ite(m.ts.Eq(v.idx, m.ts.BV(uint64(i), v.idx.width)), m.ts.BV(uint64(len(v.table[i])), 64), r)
		}
		return fold(r, true)
	case []value:
		return int64(len(v))
	case *hmap:
		if v == nil {
			return int64(0)
		}
		return int64(v.live)
	case *channel:
		if v == nil {
			return int64(0)
		}
		return int64(len(v.buf))
	case array:
		return int64(len(v))
	case *value:
		return int64(len((*v).(array)))
	}
	panic(fmt.Sprintf("len of %T", v))
}

func (c *compiler) builtin(b *ssa.Builtin, call *ssa.CallCommon, ins *ssa.Call) func(*frame) value {
	var args []opnd
	for _, a := range call.Args {
		args = append(args, c.opnd(a))
	}
	get := func(fr *frame, i int) value { return fr.get(&args[i]) }
	switch b.Name() {
	case "len":
		isMap := false
		if _, ok := call.Args[0].Type().Underlying().(*types.Map); ok {
			isMap = true
		}
		return func(fr *frame) value {
			v := get(fr, 0)
			if isMap && fr.m.race != nil {
				if h := v.(*hmap); h != nil {
					fr.m.race.access(fr, h, false)
				}
			}
			return fr.m.lenOf(v)
		}
	case "cap":
		return func(fr *frame) value {
			switch v := get(fr, 0).(type) {
			case []value:
				return int64(cap(v))
			case *channel:
				if v == nil {
					return int64(0)
				}
				return int64(v.cap)
			case *value:
				return int64(len((*v).(array)))
			case array:
				return int64(len(v))
			}
			panic("cap")
		}
	case "append":
		if len(args) == 1 {
			return func(fr *frame) value { return get(fr, 0) }
		}
		st := call.Args[0].Type().Underlying().(*types.Slice)
		esz := c.p.sizes.Sizeof(st.Elem())
		agg := isAggregate(st.Elem())
		z := zeroFn(st.Elem())
		return func(fr *frame) value {
			dst := get(fr, 0).([]value)
			var src []value
			switch s := get(fr, 1).(type) {
			case []value:
				src = s
			case string, *SymStr:
				src = fr.m.bytesOf(s).([]value)
			}
			return fr.m.appendSlice(fr, dst, src, esz, agg, z)
		}
	case "copy":
		return func(fr *frame) value {
			dst := get(fr, 0).([]value)
			var src []value
			switch s := get(fr, 1).(type) {
			case []value:
				src = s
			case string, *SymStr:
				src = fr.m.bytesOf(s).([]value)
			}
			n := min(len(dst), len(src))
			if fr.m.race != nil {
				for i := 0; i < n; i++ {
					fr.m.race.accessCell(fr, &src[i], false)
					fr.m.race.accessCell(fr, &dst[i], true)
				}
			}
			tmp := make([]value, n)
			for i := 0; i < n; i++ {
				tmp[i] = copyVal(src[i])
			}
			copy(dst, tmp)
			return int64(n)
		}
	case "delete":
		return func(fr *frame) value {
			h := get(fr, 0).(*hmap)
			if h != nil {
				if fr.m.race != nil {
					fr.m.race.access(fr, h, true)
				}
				h.remove(fr.m, get(fr, 1))
			}
			return nil
		}
	case "clear":
		var z func() value
		if s, ok := call.Args[0].Type().Underlying().(*types.Slice); ok {
			z = zeroFn(s.Elem())
		}
		return func(fr *frame) value {
			switch v := get(fr, 0).(type) {
			case *hmap:
				if v != nil {
					if fr.m.race != nil {
						fr.m.race.access(fr, v, true)
					}
					v.clear()
				}
			case []value:
				for i := range v {
					v[i] = z()
				}
			}
			return nil
		}
	case "min", "max":
		t := call.Args[0].Type()
		w, signed, isInt := intInfo(t)
		isMin := b.Name() == "min"
		return func(fr *frame) value {
			m := fr.m
			r := get(fr, 0)
			for i := 1; i < len(args); i++ {
				v := get(fr, i)
				switch a := r.(type) {
				case string:
					s := m.concStr(v)
					if isMin && s < a || !isMin && s > a {
						r = s
					}
					continue
				case float64:
					if isMin {
						r = math.Min(a, v.(float64))
					} else {
						r = math.Max(a, v.(float64))
					}
					continue
				case int64:
					if bb, ok := v.(int64); ok {
						less := bb < a
						if !signed {
							less = uint64(bb) < uint64(a)
						}
						if isMin == less && bb != a {
							r = bb
						}
						continue
					}
				}
				if !isInt {
					unsupported("min/max")
				}
				ta, tb := m.term(r, w), m.term(v, w)
				lt := m.ts.Bin(pick(signed, opSLt, opULt), tb, ta)
				if isMin {
					r = fold(m.ts.Ite(lt, tb, ta), signed)
				} else {
					r = fold(m.ts.Ite(lt, ta, tb), signed)
				}
			}
			return r
		}
	case "close":
		return func(fr *frame) value {
			fr.m.closeChan(fr.g, get(fr, 0).(*channel))
			return nil
		}
	case "recover":
		return func(fr *frame) value { return fr.doRecover() }
	case "panic":
		return func(fr *frame) value {
			panic(targetPanic{get(fr, 0).(iface)})
		}
	case "print", "println":
		return func(fr *frame) value { return nil }
	case "ssa:wrapnilchk":
		return func(fr *frame) value {
			p := get(fr, 0)
			if q, ok := p.(*value); ok && q == nil {
				fr.m.throw("value method called using nil pointer")
			}
			return p
		}
	case "ssa:deferstack":
		return func(fr *frame) value { return &fr.defers }
	case "real":
		return func(fr *frame) value { return real(get(fr, 0).(complex128)) }
	case "imag":
		return func(fr *frame) value { return imag(get(fr, 0).(complex128)) }
	case "complex":
		return func(fr *frame) value { return complex(get(fr, 0).(float64), get(fr, 1).(float64)) }
	case "SliceData":
		return func(fr *frame) value {
			s := get(fr, 0).([]value)
			if cap(s) == 0 {
				return (*value)(nil)
			}
			p := &s[:1][0]
			fr.m.sliceData(p, s)
			return p
		}
	case "StringData":
		return func(fr *frame) value {
			cell := new(value)
			*cell = nil
			fr.m.stringData(cell, get(fr, 0))
			return cell
		}
	case "String":
		return func(fr *frame) value {
			p := get(fr, 0).(*value)
			n := int(fr.m.concInt(get(fr, 1)))
			if p == nil {
				return ""
			}
			s, ok := fr.m.sliceAt(p)
			if !ok {
				unsupported("unsafe.String at %s", fr.m.where())
			}
			return fr.m.stringOf(s[:n])
		}
	case "Slice":
		return func(fr *frame) value {
			p := get(fr, 0).(*value)
			n := int(fr.m.concInt(get(fr, 1)))
			if p == nil {
				return []value(nil)
			}
			if v, ok := fr.m.strAt(p); ok {
				bs := fr.m.bytesOf(v).([]value)
				return bs[:n]
			}
			s, ok := fr.m.sliceAt(p)
			if !ok {
				unsupported("unsafe.Slice at %s", fr.m.where())
			}
			return s[:n]
		}
	}
	name := b.Name()
	return func(fr *frame) value {
		fr.cur = ins
		unsupported("builtin %s at %s", name, fr.m.where())
		return nil
	}
}

// remembered origins of unsafe.SliceData / StringData pointers
func (m *machine) sliceData(p *value, s []value) {
	if m.userData == nil {
		m.userData = map[string]any{}
	}
	t, _ := m.userData["slicedata"].(map[*value][]value)
	if t == nil {
		t = map[*value][]value{}
		m.userData["slicedata"] = t
	}
	t[p] = s[:cap(s)]
}

func (m *machine) sliceAt(p *value) ([]value, bool) {
	t, _ := m.userData["slicedata"].(map[*value][]value)
	s, ok := t[p]
	return s, ok
}

func (m *machine) stringData(p *value, v value) {
	if m.userData == nil {
		m.userData = map[string]any{}
	}
	t, _ := m.userData["strdata"].(map[*value]value)
	if t == nil {
		t = map[*value]value{}
		m.userData["strdata"] = t
	}
	t[p] = v
}

func (m *machine) strAt(p *value) (value, bool) {
	t, _ := m.userData["strdata"].(map[*value]value)
	s, ok := t[p]
	return s, ok
}

func (fr *frame) doRecover() value {
	d := fr.deferBy
	if d == nil || !d.panicking {
		return iface{}
	}
	tp, ok := d.pnc.(targetPanic)
	if !ok {
		return iface{} // Goexit
	}
	d.panicking = false
	d.pnc = nil
	return tp.v
}

// callBuiltinValue runs a deferred builtin.
func (fr *frame) callBuiltinValue(b *ssa.Builtin, args []value) {
	switch b.Name() {
	case "close":
		fr.m.closeChan(fr.g, args[0].(*channel))
	case "delete":
		if h := args[0].(*hmap); h != nil {
			h.remove(fr.m, args[1])
		}
	case "recover":
		// a directly deferred recover() has no effect on the panic
	case "panic":
		panic(targetPanic{args[0].(iface)})
	case "print", "println":
	default:
		unsupported("deferred builtin %s", b.Name())
	}
}

// appendSlice follows the growth policy of the Go runtime, so that aliasing
// through spare capacity is the same as natively.
func (m *machine) appendSlice(fr *frame, dst, src []value, esz int64, agg bool, z func() value) []value {
	if len(src) == 0 {
		return dst
	}
	n := len(dst) + len(src)
	if n > cap(dst) {
		nc := growCap(cap(dst), n, esz)
		nd := make([]value, len(dst), nc)
		for i := range dst {
			if m.race != nil {
				m.race.accessCell(fr, &dst[i], false)
			}
			nd[i] = dst[i]
		}
		if agg {
			for i := range nd {
				nd[i] = copyVal(nd[i])
			}
		}
		for i := n; i < nc; i++ {
			nd[:nc][i] = z()
		}
		dst = nd
	} else if m.local != nil {
		unsupported("append in place inside a merged call")
	}
	old := len(dst)
	dst = dst[:n]
	if agg {
		tmp := make([]value, len(src))
		for i := range src {
			tmp[i] = copyVal(src[i])
		}
		src = tmp
	}
	if m.race != nil {
		for i := range src {
			m.race.access(fr, &dst[old+i], true)
		}
	}
	copy(dst[old:], src)
	return dst
}

var sizeClasses = []int64{0, 8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

func growCap(oldCap, newLen int, esz int64) int {
	nc := oldCap
	dbl := nc + nc
	switch {
	case newLen > dbl:
		nc = newLen
	case oldCap < 256:
		nc = dbl
	default:
		for nc < newLen {
			nc += (nc + 3*256) >> 2
		}
	}
	if esz == 0 {
		return newLen
	}
	bytes := int64(nc) * esz
	if bytes <= 32768 {
		for _, c := range sizeClasses {
			if bytes <= c {
				bytes = c
				break
			}
		}
	} else {
		bytes = (bytes + 8191) / 8192 * 8192
	}
	return int(bytes / esz)
}
