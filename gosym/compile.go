package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sync"
	"sync/atomic"

	"golang.org/x/tools/go/ssa"
)

// cfn is a function compiled to closures over frames.
type cfn struct {
	p         *Program
	fn        *ssa.Function
	name      string
	pkg       *ssa.Package
	intrinsic intrinsic
	pure      bool // results may be merged
	once      sync.Once
	nregs     int
	params    []int
	free      []int
	blocks    []*cblock
	protected bool // has defers or a recover block
	recoverB  int
	inRepo    bool
	used      atomic.Int64
	resT      types.Type
	self      *funcVal
}

type cblock struct {
	phis  []cphi
	code  []func(*frame)
	term  func(*frame) int // next block, or -1
	npred int
	preds []int // block indexes of predecessors
	n     int64
}

type cphi struct {
	dst   int
	edges []opnd
}

type opnd struct {
	reg int // >= 0: register
	c   value
	g   *ssa.Global
}

func (fr *frame) get(o *opnd) value {
	if o.reg >= 0 {
		return fr.r[o.reg]
	}
	if o.g != nil {
		return fr.m.global(o.g)
	}
	return o.c
}

type compiler struct {
	p    *Program
	f    *cfn
	regs map[ssa.Value]int
}

func (f *cfn) compile() {
	f.once.Do(func() {
		if f.fn.Pkg != nil {
			f.fn.Pkg.Build()
		} else if o := f.fn.Origin(); o != nil && o.Pkg != nil {
			o.Pkg.Build()
		}
		if f.fn.Blocks == nil {
			return
		}
		c := &compiler{p: f.p, f: f, regs: map[ssa.Value]int{}}
		c.compile()
	})
}

func (c *compiler) reg(v ssa.Value) int {
	if r, ok := c.regs[v]; ok {
		return r
	}
	r := c.f.nregs
	c.f.nregs++
	c.regs[v] = r
	return r
}

func (c *compiler) opnd(v ssa.Value) opnd {
	switch v := v.(type) {
	case nil:
		return opnd{reg: -1}
	case *ssa.Const:
		return opnd{reg: -1, c: c.p.constValue(v)}
	case *ssa.Global:
		return opnd{reg: -1, g: v}
	case *ssa.Function:
		return opnd{reg: -1, c: c.p.cfnOf(v).self}
	case *ssa.Builtin:
		return opnd{reg: -1, c: v}
	}
	return opnd{reg: c.reg(v)}
}

func (p *Program) constValue(c *ssa.Const) value {
	if c.Value == nil {
		return zeroFn(c.Type())()
	}
	t := c.Type().Underlying()
	if b, ok := t.(*types.Basic); ok {
		switch {
		case b.Info()&types.IsBoolean != 0:
			return constant.BoolVal(c.Value)
		case b.Info()&types.IsString != 0:
			if c.Value.Kind() == constant.String {
				return constant.StringVal(c.Value)
			}
			return string(rune(c.Int64()))
		case b.Info()&types.IsInteger != 0:
			w, signed, _ := intInfo(b)
			if signed {
				return c.Int64()
			}
			return normInt(int64(c.Uint64()), w, false)
		case b.Info()&types.IsFloat != 0:
			f := c.Float64()
			if b.Kind() == types.Float32 {
				f = float64(float32(f))
			}
			return f
		case b.Info()&types.IsComplex != 0:
			return c.Complex128()
		case b.Kind() == types.UnsafePointer:
			return (*value)(nil)
		}
	}
	panic(fmt.Sprintf("constValue: %s", c))
}

func (c *compiler) compile() {
	f := c.f
	fn := f.fn
	for _, p := range fn.Params {
		f.params = append(f.params, c.reg(p))
	}
	for _, v := range fn.FreeVars {
		f.free = append(f.free, c.reg(v))
	}
	f.recoverB = -1
	if fn.Recover != nil {
		f.recoverB = fn.Recover.Index
		f.protected = true
	}
	for _, b := range fn.Blocks {
		cb := &cblock{}
		for _, pr := range b.Preds {
			cb.preds = append(cb.preds, pr.Index)
		}
		f.blocks = append(f.blocks, cb)
	}
	for _, b := range fn.Blocks {
		cb := f.blocks[b.Index]
		for _, ins := range b.Instrs {
			switch ins := ins.(type) {
			case *ssa.Phi:
				ph := cphi{dst: c.reg(ins)}
				for _, e := range ins.Edges {
					ph.edges = append(ph.edges, c.opnd(e))
				}
				cb.phis = append(cb.phis, ph)
			case *ssa.DebugRef:
			case *ssa.If, *ssa.Jump, *ssa.Return, *ssa.Panic:
				cb.term = c.terminator(ins, b)
			default:
				if _, ok := ins.(*ssa.Defer); ok {
					f.protected = true
				}
				if code := c.instr(ins); code != nil {
					cb.code = append(cb.code, code)
				}
			}
		}
		if cb.term == nil {
			cb.term = func(fr *frame) int { panic("block without terminator") }
		}
		cb.n = int64(len(b.Instrs))
	}
}

func (c *compiler) terminator(ins ssa.Instruction, b *ssa.BasicBlock) func(*frame) int {
	switch ins := ins.(type) {
	case *ssa.If:
		cond := c.opnd(ins.Cond)
		t, e := b.Succs[0].Index, b.Succs[1].Index
		return func(fr *frame) int {
			switch v := fr.get(&cond).(type) {
			case bool:
				if v {
					return t
				}
				return e
			case *Term:
				fr.cur = ins
				if fr.m.decide(v) {
					return t
				}
				return e
			}
			panic("if condition")
		}
	case *ssa.Jump:
		t := b.Succs[0].Index
		return func(fr *frame) int { return t }
	case *ssa.Return:
		switch len(ins.Results) {
		case 0:
			return func(fr *frame) int { return -1 }
		case 1:
			r := c.opnd(ins.Results[0])
			return func(fr *frame) int { fr.result = fr.get(&r); return -1 }
		default:
			var rs []opnd
			for _, r := range ins.Results {
				rs = append(rs, c.opnd(r))
			}
			return func(fr *frame) int {
				t := make(tuple, len(rs))
				for i := range rs {
					t[i] = fr.get(&rs[i])
				}
				fr.result = t
				return -1
			}
		}
	case *ssa.Panic:
		x := c.opnd(ins.X)
		return func(fr *frame) int {
			fr.cur = ins
			v := fr.get(&x).(iface)
			if v.t == nil {
				fr.m.throw("panic called with nil argument (use GODEBUG=panicnil=1 to disable)")
			}
			panic(targetPanic{v})
		}
	}
	panic("terminator")
}

func deref(t types.Type) types.Type { return t.Underlying().(*types.Pointer).Elem() }

func (c *compiler) instr(ins ssa.Instruction) func(*frame) {
	var dst int
	if v, ok := ins.(ssa.Value); ok {
		dst = c.reg(v)
	}
	switch ins := ins.(type) {
	case *ssa.UnOp:
		return c.unop(ins, dst)
	case *ssa.BinOp:
		return c.binop(ins, dst)
	case *ssa.Call:
		call := c.call(&ins.Call, ins)
		return func(fr *frame) {
			fr.cur = ins
			fr.r[dst] = call(fr)
		}
	case *ssa.ChangeInterface, *ssa.ChangeType:
		var xv ssa.Value
		if ci, ok := ins.(*ssa.ChangeInterface); ok {
			xv = ci.X
		} else {
			xv = ins.(*ssa.ChangeType).X
		}
		x := c.opnd(xv)
		return func(fr *frame) { fr.r[dst] = fr.get(&x) }
	case *ssa.Convert:
		x := c.opnd(ins.X)
		conv := c.p.converter(ins.X.Type(), ins.Type())
		return func(fr *frame) { fr.cur = ins; fr.r[dst] = conv(fr, fr.get(&x)) }
	case *ssa.MultiConvert:
		x := c.opnd(ins.X)
		conv := c.p.converter(ins.X.Type(), ins.Type())
		return func(fr *frame) { fr.cur = ins; fr.r[dst] = conv(fr, fr.get(&x)) }
	case *ssa.SliceToArrayPointer:
		x := c.opnd(ins.X)
		n := int(deref(ins.Type()).Underlying().(*types.Array).Len())
		return func(fr *frame) {
			s := fr.get(&x).([]value)
			if len(s) < n {
				fr.cur = ins
				fr.m.throw("cannot convert slice to array pointer: length too short")
			}
			if s == nil {
				fr.r[dst] = (*value)(nil)
				return
			}
			cell := new(value)
			*cell = array(s[:n:n])
			fr.r[dst] = cell
		}
	case *ssa.MakeInterface:
		x := c.opnd(ins.X)
		t := c.p.canon(ins.X.Type())
		return func(fr *frame) { fr.r[dst] = iface{t, fr.get(&x)} }
	case *ssa.Extract:
		x := c.opnd(ins.Tuple)
		i := ins.Index
		return func(fr *frame) { fr.r[dst] = fr.get(&x).(tuple)[i] }
	case *ssa.Slice:
		return c.slice(ins, dst)
	case *ssa.RunDefers:
		return func(fr *frame) { fr.runDefers() }
	case *ssa.Send:
		ch, x := c.opnd(ins.Chan), c.opnd(ins.X)
		return func(fr *frame) {
			fr.cur = ins
			fr.m.send(fr.g, fr.get(&ch).(*channel), copyVal(fr.get(&x)))
		}
	case *ssa.Store:
		addr, x := c.opnd(ins.Addr), c.opnd(ins.Val)
		agg := isAggregate(ins.Val.Type())
		return func(fr *frame) {
			p := fr.ptr(fr.get(&addr), ins)
			v := fr.get(&x)
			if fr.m.race != nil {
				fr.m.race.accessCell(fr, p, true)
			}
			if agg {
				storeInto(p, v)
			} else {
				*p = v
			}
		}
	case *ssa.Defer:
		prep := c.prepare(&ins.Call)
		ds := opnd{reg: -1}
		hasDS := ins.DeferStack != nil
		if hasDS {
			ds = c.opnd(ins.DeferStack)
		}
		return func(fr *frame) {
			fr.cur = ins
			d := prep(fr)
			d.ins = ins
			list := &fr.defers
			if hasDS {
				list = fr.get(&ds).(**deferred)
			}
			d.tail = *list
			*list = d
		}
	case *ssa.Go:
		prep := c.prepare(&ins.Call)
		return func(fr *frame) {
			fr.cur = ins
			d := prep(fr)
			m := fr.m
			if m.local != nil {
				unsupported("go statement inside a merged call")
			}
			fv := d.fn
			if fv == nil {
				unsupported("go builtin")
			}
			g := m.newGor(fv, d.args)
			g.start()
			m.yield(fr.g)
		}
	case *ssa.MakeChan:
		n := c.opnd(ins.Size)
		z := zeroFn(ins.Type().Underlying().(*types.Chan).Elem())
		return func(fr *frame) {
			fr.r[dst] = &channel{cap: int(fr.m.concInt(fr.get(&n))), zero: z}
		}
	case *ssa.Alloc:
		z := zeroFn(deref(ins.Type()))
		return func(fr *frame) {
			p := new(value)
			*p = z()
			fr.r[dst] = p
		}
	case *ssa.MakeSlice:
		ln, cp := c.opnd(ins.Len), c.opnd(ins.Cap)
		z := zeroFn(ins.Type().Underlying().(*types.Slice).Elem())
		return func(fr *frame) {
			fr.cur = ins
			n := fr.m.concInt(fr.get(&ln))
			k := fr.m.concInt(fr.get(&cp))
			if n < 0 || n > 1<<24 {
				fr.m.throw("makeslice: len out of range")
			}
			if k < n || k > 1<<24 {
				fr.m.throw("makeslice: cap out of range")
			}
			s := make([]value, k)
			for i := range s {
				s[i] = z()
			}
			fr.r[dst] = s[:n]
		}
	case *ssa.MakeMap:
		kt := ins.Type().Underlying().(*types.Map).Key()
		return func(fr *frame) { fr.r[dst] = newHmap(kt) }
	case *ssa.Range:
		x := c.opnd(ins.X)
		return func(fr *frame) {
			fr.cur = ins
			switch v := fr.get(&x).(type) {
			case *hmap:
				fr.r[dst] = fr.m.newMapIter(fr, v)
			case string:
				fr.r[dst] = &stringIter{s: v}
			case *SymStr:
				fr.r[dst] = &stringIter{s: fr.m.concStr(v)}
			default:
				panic(fmt.Sprintf("range over %T", v))
			}
		}
	case *ssa.Next:
		x := c.opnd(ins.Iter)
		var kz, vz func() value
		if !ins.IsString {
			tt := ins.Type().(*types.Tuple)
			kz, vz = zeroFn(invalidToAny(tt.At(1).Type())), zeroFn(invalidToAny(tt.At(2).Type()))
		}
		return func(fr *frame) {
			fr.cur = ins
			switch it := fr.get(&x).(type) {
			case *mapIter:
				if fr.m.race != nil && it.m != nil {
					fr.m.race.access(fr, it.m, false)
				}
				for {
					if it.pos >= len(it.list) {
						fr.r[dst] = tuple{false, kz(), vz()}
						return
					}
					e := fr.m.nextEntry(it)
					if e.deleted {
						continue
					}
					fr.r[dst] = tuple{true, e.k, copyVal(e.v)}
					return
				}
			case *stringIter:
				if it.pos >= len(it.s) {
					fr.r[dst] = tuple{false, int64(0), int64(0)}
					return
				}
				for i, r := range it.s[it.pos:] {
					_ = i
					n := len(string(r))
					if r == 0xFFFD {
						n = runeLen(it.s[it.pos:])
					}
					fr.r[dst] = tuple{true, int64(it.pos), int64(r)}
					it.pos += n
					return
				}
			}
		}
	case *ssa.FieldAddr:
		x := c.opnd(ins.X)
		i := ins.Field
		return func(fr *frame) {
			p := fr.ptr(fr.get(&x), ins)
			s, ok := (*p).(structure)
			if !ok {
				fr.cur = ins
				unsupported("field address in %T (%s) at %s", *p, ins.X.Type(), fr.m.where())
			}
			fr.r[dst] = &s[i]
		}
	case *ssa.Field:
		x := c.opnd(ins.X)
		i := ins.Field
		return func(fr *frame) { fr.r[dst] = fr.get(&x).(structure)[i] }
	case *ssa.IndexAddr:
		x, ix := c.opnd(ins.X), c.opnd(ins.Index)
		return func(fr *frame) {
			var s []value
			switch v := fr.get(&x).(type) {
			case []value:
				s = v
			case *value:
				s = (*fr.ptr(v, ins)).(array)
			}
			i := fr.index(fr.get(&ix), len(s), ins)
			fr.r[dst] = &s[i]
		}
	case *ssa.Index:
		x, ix := c.opnd(ins.X), c.opnd(ins.Index)
		return func(fr *frame) {
			switch v := fr.get(&x).(type) {
			case array:
				fr.r[dst] = v[fr.index(fr.get(&ix), len(v), ins)]
			case string:
				fr.r[dst] = int64(v[fr.index(fr.get(&ix), len(v), ins)])
			case *SymStr:
				fr.cur = ins
				s := fr.m.concStr(v)
				fr.r[dst] = int64(s[fr.index(fr.get(&ix), len(s), ins)])
			default:
				panic(fmt.Sprintf("index of %T", v))
			}
		}
	case *ssa.Lookup:
		return c.lookup(ins, dst)
	case *ssa.MapUpdate:
		mp, k, v := c.opnd(ins.Map), c.opnd(ins.Key), c.opnd(ins.Value)
		return func(fr *frame) {
			fr.cur = ins
			h := fr.get(&mp).(*hmap)
			if h == nil {
				panic(targetPanic{iface{fr.m.p.runtimeErrorT, "assignment to entry in nil map"}})
			}
			if fr.m.local != nil {
				unsupported("map update inside a merged call")
			}
			if fr.m.race != nil {
				fr.m.race.access(fr, h, true)
			}
			h.set(fr.m, fr.get(&k), copyVal(fr.get(&v)))
		}
	case *ssa.TypeAssert:
		return c.typeAssert(ins, dst)
	case *ssa.MakeClosure:
		fn := c.p.cfnOf(ins.Fn.(*ssa.Function))
		var bs []opnd
		for _, b := range ins.Bindings {
			bs = append(bs, c.opnd(b))
		}
		return func(fr *frame) {
			env := make([]value, len(bs))
			for i := range bs {
				env[i] = fr.get(&bs[i])
			}
			fr.r[dst] = &funcVal{fn: fn, env: env}
		}
	case *ssa.Select:
		return c.selectInstr(ins, dst)
	}
	panic(fmt.Sprintf("instruction %T: %s", ins, ins))
}

func invalidToAny(t types.Type) types.Type {
	if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
		return types.Typ[types.Int]
	}
	return t
}

func runeLen(s string) int {
	// length of the encoding at the start of s when it decodes to U+FFFD
	if len(s) >= 3 && s[:3] == "�" {
		return 3
	}
	return 1
}

// storeInto stores an aggregate into a cell in place, so that pointers to its
// parts stay valid.
func storeInto(p *value, v value) {
	switch v := v.(type) {
	case structure:
		if dst, ok := (*p).(structure); ok && len(dst) == len(v) {
			for i := range v {
				switch v[i].(type) {
				case structure, array:
					storeInto(&dst[i], v[i])
				default:
					dst[i] = v[i]
				}
			}
			return
		}
	case array:
		if dst, ok := (*p).(array); ok && len(dst) == len(v) {
			for i := range v {
				switch v[i].(type) {
				case structure, array:
					storeInto(&dst[i], v[i])
				default:
					dst[i] = v[i]
				}
			}
			return
		}
	}
	*p = copyVal(v)
}

func (fr *frame) ptr(v value, ins ssa.Instruction) *value {
	p, ok := v.(*value)
	if !ok {
		fr.cur = ins
		unsupported("pointer expected, have %T in %s at %s", v, fr.fn.name, fr.m.where())
	}
	if p == nil {
		fr.cur = ins
		fr.m.throw("invalid memory address or nil pointer dereference")
	}
	return p
}

func (fr *frame) index(v value, n int, ins ssa.Instruction) int {
	var i int64
	switch v := v.(type) {
	case int64:
		i = v
	case *Term:
		fr.cur = ins
		i = int64(fr.m.concretize(v))
	}
	if i < 0 || i >= int64(n) {
		fr.cur = ins
		fr.m.throw(fmt.Sprintf("index out of range [%d] with length %d", i, n))
	}
	return int(i)
}

func (c *compiler) lookup(ins *ssa.Lookup, dst int) func(*frame) {
	x, k := c.opnd(ins.X), c.opnd(ins.Index)
	if _, ok := ins.X.Type().Underlying().(*types.Map); !ok {
		return func(fr *frame) {
			fr.cur = ins
			s := fr.m.concStr(fr.get(&x))
			fr.r[dst] = int64(s[fr.index(fr.get(&k), len(s), ins)])
		}
	}
	z := zeroFn(ins.X.Type().Underlying().(*types.Map).Elem())
	ok := ins.CommaOk
	return func(fr *frame) {
		fr.cur = ins
		h := fr.get(&x).(*hmap)
		if fr.m.race != nil && h != nil {
			fr.m.race.access(fr, h, false)
		}
		key := fr.get(&k)
		if f, isF := key.(iface); isF {
			fr.m.checkHashable(f)
		}
		e := h.find(fr.m, key)
		var v value
		if e != nil {
			v = copyVal(e.v)
		} else {
			v = z()
		}
		if ok {
			fr.r[dst] = tuple{v, e != nil}
		} else {
			fr.r[dst] = v
		}
	}
}

func (c *compiler) typeAssert(ins *ssa.TypeAssert, dst int) func(*frame) {
	x := c.opnd(ins.X)
	t := ins.AssertedType
	it, isI := t.Underlying().(*types.Interface)
	ct := c.p.canon(t)
	z := zeroFn(t)
	commaOk := ins.CommaOk
	return func(fr *frame) {
		v := fr.get(&x).(iface)
		ok := false
		if v.t != nil {
			if isI {
				ok = fr.m.p.implements(v.t, it)
			} else {
				ok = v.t == ct
			}
		}
		if ok {
			var r value = v
			if !isI {
				r = v.v
			}
			if commaOk {
				r = tuple{r, true}
			}
			fr.r[dst] = r
			return
		}
		if commaOk {
			fr.r[dst] = tuple{z(), false}
			return
		}
		fr.cur = ins
		dyn := "nil"
		if v.t != nil {
			dyn = fr.m.p.typeString(v.t)
		}
		fr.m.throw(fmt.Sprintf("interface conversion: interface is %s, not %s", dyn, fr.m.p.typeString(t)))
	}
}

func (c *compiler) slice(ins *ssa.Slice, dst int) func(*frame) {
	x, lo, hi, mx := c.opnd(ins.X), c.opnd(ins.Low), c.opnd(ins.High), c.opnd(ins.Max)
	hasLo, hasHi, hasMx := ins.Low != nil, ins.High != nil, ins.Max != nil
	return func(fr *frame) {
		fr.cur = ins
		m := fr.m
		switch v := fr.get(&x).(type) {
		case string, *SymStr:
			if sv, ok := v.(*SymStr); ok && sv.idx != nil {
				// slice each value when the bounds are concrete and valid
				l, h := 0, -1
				good := true
				if hasLo {
					if i, ok := fr.get(&lo).(int64); ok {
						l = int(i)
					} else {
						good = false
					}
				}
				if hasHi {
					if i, ok := fr.get(&hi).(int64); ok {
						h = int(i)
					} else {
						good = false
					}
				}
				for _, e := range sv.table {
					if l < 0 || l > len(e) || h >= 0 && (h > len(e) || h < l) {
						good = false
					}
				}
				if good {
					fr.r[dst] = m.mapStr(sv, func(s string) string {
						if h < 0 {
							return s[l:]
						}
						return s[l:h]
					})
					return
				}
			}
			s := m.concStr(v)
			l, h := int64(0), int64(len(s))
			if hasLo {
				l = m.concInt(fr.get(&lo))
			}
			if hasHi {
				h = m.concInt(fr.get(&hi))
			}
			if l < 0 || h < l || h > int64(len(s)) {
				m.throw(fmt.Sprintf("slice bounds out of range [%d:%d] with length %d", l, h, len(s)))
			}
			fr.r[dst] = s[l:h]
		default:
			var s []value
			switch v := v.(type) {
			case []value:
				s = v
			case *value:
				s = (*fr.ptr(v, ins)).(array)
			default:
				panic(fmt.Sprintf("slice of %T", v))
			}
			l, h, k := int64(0), int64(len(s)), int64(cap(s))
			if hasLo {
				l = m.concInt(fr.get(&lo))
			}
			if hasHi {
				h = m.concInt(fr.get(&hi))
			}
			if hasMx {
				k = m.concInt(fr.get(&mx))
			}
			if l < 0 || h < l || k < h || k > int64(cap(s)) {
				m.throw(fmt.Sprintf("slice bounds out of range [%d:%d:%d] with capacity %d", l, h, k, cap(s)))
			}
			if s == nil {
				fr.r[dst] = []value(nil)
				return
			}
			fr.r[dst] = s[l:h:k]
		}
	}
}

func (c *compiler) selectInstr(ins *ssa.Select, dst int) func(*frame) {
	type cs struct {
		ch, v opnd
		send  bool
		z     func() value
	}
	var cases []cs
	for _, st := range ins.States {
		k := cs{ch: c.opnd(st.Chan), send: st.Dir == types.SendOnly}
		if k.send {
			k.v = c.opnd(st.Send)
		} else {
			k.z = zeroFn(st.Chan.Type().Underlying().(*types.Chan).Elem())
		}
		cases = append(cases, k)
	}
	blocking := ins.Blocking
	return func(fr *frame) {
		fr.cur = ins
		var sc []selCase
		for i := range cases {
			k := selCase{c: fr.get(&cases[i].ch).(*channel), send: cases[i].send}
			if k.send {
				k.v = copyVal(fr.get(&cases[i].v))
			}
			sc = append(sc, k)
		}
		idx, v, ok := fr.m.selectOn(fr.g, sc, blocking)
		r := tuple{int64(idx), ok}
		for i := range cases {
			if !cases[i].send {
				if i == idx && ok {
					r = append(r, v)
				} else {
					r = append(r, cases[i].z())
				}
			}
		}
		fr.r[dst] = r
	}
}

// ---- calls --------------------------------------------------------------

// prepare evaluates the callee and arguments of a call.
func (c *compiler) prepare(call *ssa.CallCommon) func(*frame) *deferred {
	var args []opnd
	for _, a := range call.Args {
		args = append(args, c.opnd(a))
	}
	eval := func(fr *frame, recv value, hasRecv bool) []value {
		n := len(args)
		if hasRecv {
			n++
		}
		vs := make([]value, 0, n)
		if hasRecv {
			vs = append(vs, recv)
		}
		for i := range args {
			vs = append(vs, fr.get(&args[i]))
		}
		return vs
	}
	if call.IsInvoke() {
		x := c.opnd(call.Value)
		meth := call.Method
		return func(fr *frame) *deferred {
			recv := fr.get(&x).(iface)
			if recv.t == nil {
				fr.m.throw("invalid memory address or nil pointer dereference")
			}
			f := fr.m.p.method(recv.t, meth)
			return &deferred{fn: f.self, args: eval(fr, recv.v, true)}
		}
	}
	switch v := call.Value.(type) {
	case *ssa.Builtin:
		return func(fr *frame) *deferred {
			return &deferred{bi: v, args: eval(fr, nil, false)}
		}
	case *ssa.Function:
		f := c.p.cfnOf(v).self
		return func(fr *frame) *deferred {
			return &deferred{fn: f, args: eval(fr, nil, false)}
		}
	}
	x := c.opnd(call.Value)
	return func(fr *frame) *deferred {
		return &deferred{fn: fr.get(&x).(*funcVal), args: eval(fr, nil, false)}
	}
}

func (c *compiler) call(call *ssa.CallCommon, ins *ssa.Call) func(*frame) value {
	if b, ok := call.Value.(*ssa.Builtin); ok && !call.IsInvoke() {
		return c.builtin(b, call, ins)
	}
	if f, ok := call.Value.(*ssa.Function); ok && f.Synthetic == "package initializer" {
		// packages are initialized when one of their globals is first used
		return func(*frame) value { return nil }
	}
	var args []opnd
	for _, a := range call.Args {
		args = append(args, c.opnd(a))
	}
	if call.IsInvoke() {
		x := c.opnd(call.Value)
		meth := call.Method
		return func(fr *frame) value {
			recv := fr.get(&x).(iface)
			if recv.t == nil {
				fr.m.throw("invalid memory address or nil pointer dereference")
			}
			f := fr.m.p.method(recv.t, meth)
			vs := make([]value, len(args)+1)
			vs[0] = recv.v
			for i := range args {
				vs[i+1] = fr.get(&args[i])
			}
			return fr.g.callFn(fr, f, vs, nil, nil)
		}
	}
	if sf, ok := call.Value.(*ssa.Function); ok {
		f := c.p.cfnOf(sf)
		return func(fr *frame) value {
			vs := make([]value, len(args))
			for i := range args {
				vs[i] = fr.get(&args[i])
			}
			return fr.g.callFn(fr, f, vs, nil, nil)
		}
	}
	x := c.opnd(call.Value)
	return func(fr *frame) value {
		fv := fr.get(&x).(*funcVal)
		vs := make([]value, len(args))
		for i := range args {
			vs[i] = fr.get(&args[i])
		}
		return fr.g.callValue(fr, fv, vs)
	}
}

func (g *gor) callValue(caller *frame, fv *funcVal, args []value) value {
	if fv == nil {
		g.m.throw("invalid memory address or nil pointer dereference")
	}
	if fv.native != nil {
		return fv.native(g, args)
	}
	return g.callFn(caller, fv.fn, args, fv.env, nil)
}

// callFn runs a function. deferBy is the frame whose defers are running.
func (g *gor) callFn(caller *frame, f *cfn, args, env []value, deferBy *frame) value {
	m := g.m
	f.used.Add(1)
	if f.intrinsic != nil {
		if r := f.intrinsic(&icall{g: g, m: m, fr: caller, fn: f, args: args}); r != passThrough {
			return r
		}
	}
	f.compile()
	if f.blocks == nil {
		unsupported("function without body: %s at %s", f.name, m.where())
	}
	if f.pure && m.local == nil && m.hasSymbolic(args) {
		return m.mergeCall(f.resT, func() value { return g.run(caller, f, args, env, deferBy) })
	}
	return g.run(caller, f, args, env, deferBy)
}

// hasSymbolic looks shallowly for symbolic parts of arguments.
func (m *machine) hasSymbolic(args []value) bool {
	for _, a := range args {
		switch a := a.(type) {
		case *Term, *SymStr:
			return true
		case structure:
			if m.hasSymbolic(a) {
				return true
			}
		}
	}
	return false
}

func (g *gor) run(caller *frame, f *cfn, args, env []value, deferBy *frame) value {
	fr := &frame{g: g, m: g.m, fn: f, caller: caller, deferBy: deferBy, prev: -1}
	fr.r = make([]value, f.nregs)
	for i, r := range f.params {
		fr.r[r] = args[i]
	}
	for i, r := range f.free {
		fr.r[r] = env[i]
	}
	savedTop := g.top
	g.top = fr
	g.depth++
	if g.depth > 2000 {
		panic(abortPath{abLimit, "call depth bound exceeded in " + f.name})
	}
	if !f.protected {
		fr.exec()
	} else {
		for !fr.finished {
			fr.execProtected()
		}
	}
	g.depth--
	g.top = savedTop
	return fr.result
}

func (fr *frame) exec() {
	m := fr.m
	for {
		b := fr.fn.blocks[fr.block]
		if len(b.phis) > 0 {
			k := 0
			for i, p := range b.preds {
				if p == fr.prev {
					k = i
					break
				}
			}
			if len(b.phis) == 1 {
				fr.r[b.phis[0].dst] = fr.get(&b.phis[0].edges[k])
			} else {
				tmp := make([]value, len(b.phis))
				for i := range b.phis {
					tmp[i] = fr.get(&b.phis[i].edges[k])
				}
				for i := range b.phis {
					fr.r[b.phis[i].dst] = tmp[i]
				}
			}
		}
		for _, c := range b.code {
			c(fr)
		}
		m.steps += b.n
		if profileSteps {
			profile[fr.fn.name] += b.n
		}
		if m.steps > m.maxSteps {
			m.stepLimit()
		}
		next := b.term(fr)
		if next < 0 {
			fr.finished = true
			return
		}
		fr.prev, fr.block = fr.block, next
	}
}

func (fr *frame) execProtected() {
	depth := fr.g.depth
	ok := false
	defer func() {
		if ok {
			return
		}
		r := recover()
		switch r.(type) {
		case targetPanic, goexitPanic:
		default:
			panic(r)
		}
		if fr.m.over {
			panic(r)
		}
		fr.g.depth = depth
		fr.g.top = fr
		fr.panicking = true
		fr.pnc = r
		fr.runDefers() // re-panics unless recovered
		if fr.fn.recoverB >= 0 {
			fr.prev, fr.block = -1, fr.fn.recoverB
		} else {
			fr.result = zeroResults(fr.fn.fn)
			fr.finished = true
		}
	}()
	fr.exec()
	ok = true
}

func zeroResults(fn *ssa.Function) value {
	rs := fn.Signature.Results()
	switch rs.Len() {
	case 0:
		return nil
	case 1:
		return zeroFn(rs.At(0).Type())()
	}
	return zeroFn(rs)()
}

func (fr *frame) runDefers() {
	for fr.defers != nil {
		d := fr.defers
		fr.defers = d.tail
		fr.runDefer(d)
	}
	if fr.panicking {
		panic(fr.pnc)
	}
}

func (fr *frame) runDefer(d *deferred) {
	ok := false
	depth := fr.g.depth
	defer func() {
		if ok {
			return
		}
		r := recover()
		switch r.(type) {
		case targetPanic, goexitPanic:
			fr.g.depth = depth
			fr.g.top = fr
			fr.panicking = true
			fr.pnc = r
		default:
			panic(r)
		}
	}()
	if d.bi != nil {
		fr.callBuiltinValue(d.bi, d.args)
	} else {
		if d.fn == nil {
			fr.m.throw("invalid memory address or nil pointer dereference")
		}
		if d.fn.native != nil {
			d.fn.native(fr.g, d.args)
		} else {
			fr.g.callFn(fr, d.fn.fn, d.args, d.fn.env, fr)
		}
	}
	ok = true
}

func (m *machine) stepLimit() {
	m.violate("no-termination", "execution does not terminate within the step bound", m.model, "hang")
	panic(abortPath{abLimit, "step bound exceeded at " + m.where()})
}

var _ = token.ADD
