package main

import (
	"go/token"
	"go/types"
	"reflect"
)

func (p *Program) rtypeOf(t types.Type) value {
	t = p.canon(t)
	if c, ok := p.rtypes.Load(t); ok {
		return c.(*value)
	}
	cell := new(value)
	*cell = rtypeBox{t}
	a, _ := p.rtypes.LoadOrStore(t, cell)
	return a.(*value)
}

func (p *Program) rtypeIface(t types.Type) value { return iface{p.rtypeT, p.rtypeOf(t)} }

func (c *icall) rt(i int) types.Type {
	switch v := c.args[i].(type) {
	case *value:
		if v == nil {
			c.m.throw("invalid memory address or nil pointer dereference")
		}
		return (*v).(rtypeBox).t
	case iface:
		if v.t == nil {
			c.m.throw("invalid memory address or nil pointer dereference")
		}
		return (*v.v.(*value)).(rtypeBox).t
	}
	panic("rtype expected")
}

func kindOf(t types.Type) reflect.Kind {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool:
			return reflect.Bool
		case types.Int:
			return reflect.Int
		case types.Int8:
			return reflect.Int8
		case types.Int16:
			return reflect.Int16
		case types.Int32:
			return reflect.Int32
		case types.Int64:
			return reflect.Int64
		case types.Uint:
			return reflect.Uint
		case types.Uint8:
			return reflect.Uint8
		case types.Uint16:
			return reflect.Uint16
		case types.Uint32:
			return reflect.Uint32
		case types.Uint64:
			return reflect.Uint64
		case types.Uintptr:
			return reflect.Uintptr
		case types.Float32:
			return reflect.Float32
		case types.Float64:
			return reflect.Float64
		case types.Complex64:
			return reflect.Complex64
		case types.Complex128:
			return reflect.Complex128
		case types.String:
			return reflect.String
		case types.UnsafePointer:
			return reflect.UnsafePointer
		}
	case *types.Pointer:
		return reflect.Pointer
	case *types.Slice:
		return reflect.Slice
	case *types.Array:
		return reflect.Array
	case *types.Map:
		return reflect.Map
	case *types.Chan:
		return reflect.Chan
	case *types.Signature:
		return reflect.Func
	case *types.Interface:
		return reflect.Interface
	case *types.Struct:
		return reflect.Struct
	}
	return reflect.Invalid
}

// A reflect.Value is modelled as structure{*nativeBox{rval}, nil, 1}.
type rval struct {
	t    types.Type
	v    value
	cell *value // set if addressable
}

func (c *icall) mkVal(t types.Type, v value, cell *value) value {
	return structure{&nativeBox{rval{c.m.p.canon(t), v, cell}}, (*value)(nil), int64(1)}
}

func (c *icall) val(i int) (rval, bool) {
	s := c.args[i].(structure)
	b, ok := s[0].(*nativeBox)
	if !ok {
		return rval{}, false
	}
	r := b.v.(rval)
	if r.cell != nil {
		r.v = *r.cell
	}
	return r, true
}

func (c *icall) mustVal(i int) rval {
	r, ok := c.val(i)
	if !ok {
		unsupported("operation on the zero reflect.Value (%s)", c.fn.name)
	}
	return r
}

func init() {
	zeroVal := func() value { return structure{(*value)(nil), (*value)(nil), int64(0)} }

	for _, pk := range []string{"reflect.", "internal/reflectlite."} {
		reg(pk+"TypeOf", func(c *icall) value {
			v := c.args[0].(iface)
			if v.t == nil {
				return iface{}
			}
			return c.m.p.rtypeIface(v.t)
		})
		reg(pk+"ValueOf", func(c *icall) value {
			v := c.args[0].(iface)
			if v.t == nil {
				return zeroVal()
			}
			return c.mkVal(v.t, v.v, nil)
		})
		reg("("+pk+"Value).Len", func(c *icall) value { return c.m.lenOf(c.mustVal(0).v) })
		reg("("+pk+"Value).Kind", func(c *icall) value {
			r, ok := c.val(0)
			if !ok {
				return int64(0)
			}
			return int64(kindOf(r.t))
		})
		reg(pk+"Swapper", func(c *icall) value {
			s := c.args[0].(iface).v.([]value)
			return &funcVal{native: func(g *gor, a []value) value {
				i, j := g.m.concInt(a[0]), g.m.concInt(a[1])
				s[i], s[j] = s[j], s[i]
				return nil
			}}
		})
	}
	reg("reflect.PointerTo", func(c *icall) value { return c.m.p.rtypeIface(types.NewPointer(c.rt(0))) })
	reg("reflect.PtrTo", func(c *icall) value { return c.m.p.rtypeIface(types.NewPointer(c.rt(0))) })
	reg("reflect.SliceOf", func(c *icall) value { return c.m.p.rtypeIface(types.NewSlice(c.rt(0))) })
	reg("reflect.DeepEqual", func(c *icall) value {
		a, b := c.args[0].(iface), c.args[1].(iface)
		if a.t != b.t {
			return false
		}
		if a.t == nil {
			return true
		}
		return c.m.deepEqual(a.t, a.v, b.v, map[[2]*value]bool{})
	})
	t := "(*reflect.rtype)."
	reg(t+"String", func(c *icall) value { return c.m.p.typeString(c.rt(0)) })
	reg(t+"Name", func(c *icall) value {
		switch t := types.Unalias(c.rt(0)).(type) {
		case *types.Named:
			s := t.Obj().Name()
			if t.TypeArgs().Len() > 0 {
				s += "["
				for i := 0; i < t.TypeArgs().Len(); i++ {
					if i > 0 {
						s += ","
					}
					s += types.TypeString(t.TypeArgs().At(i), func(p *types.Package) string { return p.Path() })
				}
				s += "]"
			}
			return s
		case *types.Basic:
			return t.Name()
		}
		return ""
	})
	reg(t+"PkgPath", func(c *icall) value {
		if t, ok := types.Unalias(c.rt(0)).(*types.Named); ok && t.Obj().Pkg() != nil {
			return t.Obj().Pkg().Path()
		}
		return ""
	})
	reg(t+"Kind", func(c *icall) value { return int64(kindOf(c.rt(0))) })
	reg(t+"Elem", func(c *icall) value {
		switch u := c.rt(0).Underlying().(type) {
		case interface{ Elem() types.Type }:
			return c.m.p.rtypeIface(u.Elem())
		}
		panic(targetPanic{iface{c.m.p.stringT, "reflect: Elem of invalid type " + c.m.p.typeString(c.rt(0))}})
	})
	reg(t+"Key", func(c *icall) value { return c.m.p.rtypeIface(c.rt(0).Underlying().(*types.Map).Key()) })
	reg(t+"Len", func(c *icall) value { return c.rt(0).Underlying().(*types.Array).Len() })
	reg(t+"Size", func(c *icall) value { return c.m.p.sizes.Sizeof(c.rt(0)) })
	reg(t+"Implements", func(c *icall) value {
		u := c.rt(1)
		it, ok := u.Underlying().(*types.Interface)
		if !ok {
			panic(targetPanic{iface{c.m.p.stringT, "reflect: non-interface type passed to Type.Implements"}})
		}
		return types.Implements(c.rt(0), it)
	})
	reg(t+"AssignableTo", func(c *icall) value { return types.AssignableTo(c.rt(0), c.rt(1)) })
	reg(t+"ConvertibleTo", func(c *icall) value { return types.ConvertibleTo(c.rt(0), c.rt(1)) })
	reg(t+"Comparable", func(c *icall) value { return types.Comparable(c.rt(0)) })
	reg(t+"NumMethod", func(c *icall) value { return int64(types.NewMethodSet(c.rt(0)).Len()) })
	reg(t+"NumField", func(c *icall) value { return int64(c.rt(0).Underlying().(*types.Struct).NumFields()) })
	reg(t+"Field", func(c *icall) value {
		i := int(c.m.concInt(c.args[1]))
		st := c.rt(0).Underlying().(*types.Struct)
		f := st.Field(i)
		path := ""
		if !f.Exported() {
			path = f.Pkg().Path()
		}
		return structure{f.Name(), path, c.m.p.rtypeIface(f.Type()), st.Tag(i), int64(0), []value{int64(i)}, f.Embedded()}
	})
	reg(t+"NumIn", func(c *icall) value { return int64(c.rt(0).Underlying().(*types.Signature).Params().Len()) })
	reg(t+"NumOut", func(c *icall) value { return int64(c.rt(0).Underlying().(*types.Signature).Results().Len()) })
	reg(t+"In", func(c *icall) value {
		return c.m.p.rtypeIface(c.rt(0).Underlying().(*types.Signature).Params().At(int(c.m.concInt(c.args[1]))).Type())
	})
	reg(t+"Out", func(c *icall) value {
		return c.m.p.rtypeIface(c.rt(0).Underlying().(*types.Signature).Results().At(int(c.m.concInt(c.args[1]))).Type())
	})

	reg(t+"MethodByName", func(c *icall) value {
		typ := c.rt(0)
		name := c.m.concStr(c.args[1])
		if f := c.m.p.methodByName(typ, name); f != nil && token.IsExported(name) {
			ft := methodFuncType(typ, f.fn.Signature)
			return tuple{structure{name, "", c.m.p.rtypeIface(ft), c.mkVal(ft, f.self, nil), int64(0)}, true}
		}
		return tuple{structure{"", "", iface{}, zeroVal(), int64(0)}, false}
	})

	v := "(reflect.Value)."
	reg(v+"IsValid", func(c *icall) value { _, ok := c.val(0); return ok })
	reg(v+"Type", func(c *icall) value { return c.m.p.rtypeIface(c.mustVal(0).t) })
	reg(v+"Interface", func(c *icall) value {
		r := c.mustVal(0)
		if f, ok := r.v.(iface); ok {
			return f
		}
		return iface{r.t, copyVal(r.v)}
	})
	reg(v+"IsNil", func(c *icall) value {
		switch x := c.mustVal(0).v.(type) {
		case *value:
			return x == nil
		case []value:
			return x == nil
		case *hmap:
			return x == nil
		case *channel:
			return x == nil
		case *funcVal:
			return x == nil
		case iface:
			return x.t == nil
		}
		unsupported("reflect IsNil")
		return nil
	})
	reg(v+"Elem", func(c *icall) value {
		r := c.mustVal(0)
		switch x := r.v.(type) {
		case iface:
			if x.t == nil {
				return zeroVal()
			}
			return c.mkVal(x.t, x.v, nil)
		case *value:
			if x == nil {
				return zeroVal()
			}
			return c.mkVal(deref(r.t), *x, x)
		}
		unsupported("reflect Elem")
		return nil
	})
	reg(v+"Set", func(c *icall) value {
		r := c.mustVal(0)
		if r.cell == nil {
			unsupported("reflect Set on unaddressable value")
		}
		x := c.mustVal(1)
		if _, isI := r.t.Underlying().(*types.Interface); isI {
			*r.cell = iface{x.t, copyVal(x.v)}
		} else {
			*r.cell = copyVal(x.v)
		}
		return nil
	})
	reg(v+"Index", func(c *icall) value {
		r := c.mustVal(0)
		i := int(c.m.concInt(c.args[1]))
		switch u := r.t.Underlying().(type) {
		case *types.Slice:
			return c.mkVal(u.Elem(), r.v.([]value)[i], &r.v.([]value)[i])
		case *types.Array:
			return c.mkVal(u.Elem(), r.v.(array)[i], nil)
		}
		unsupported("reflect Index")
		return nil
	})
	reg(v+"Field", func(c *icall) value {
		r := c.mustVal(0)
		i := int(c.m.concInt(c.args[1]))
		return c.mkVal(r.t.Underlying().(*types.Struct).Field(i).Type(), r.v.(structure)[i], nil)
	})
	reg(v+"NumField", func(c *icall) value { return int64(len(c.mustVal(0).v.(structure))) })
	reg(v+"String", func(c *icall) value {
		switch x := c.mustVal(0).v.(type) {
		case string, *SymStr:
			return x
		}
		return "<value>"
	})
	reg(v+"Int", func(c *icall) value { return c.mustVal(0).v })
	reg(v+"Bool", func(c *icall) value { return c.mustVal(0).v })
	reg(v+"CanInterface", func(c *icall) value { return true })
	reg(v+"CanAddr", func(c *icall) value { return c.mustVal(0).cell != nil })
	reg(v+"Pointer", func(c *icall) value {
		r := c.mustVal(0)
		if f, ok := r.v.(*funcVal); ok {
			if f == nil {
				return int64(0)
			}
			if f.fn != nil {
				q := c.m.p.fset.Position(f.fn.fn.Pos())
				return c.m.p.pcFor(f.fn.fn, q.Filename, q.Line)
			}
		}
		p, ok := r.v.(*value)
		if x, slice := r.v.([]value); slice && cap(x) > 0 {
			p, ok = &x[:1][0], true
		}
		if ok {
			if p == nil {
				return int64(0)
			}
			ids, _ := c.m.userData["addresses"].(map[*value]int64)
			if ids == nil {
				ids = map[*value]int64{}
				if c.m.userData == nil {
					c.m.userData = map[string]any{}
				}
				c.m.userData["addresses"] = ids
			}
			if ids[p] == 0 {
				ids[p] = int64(0xc000000000 + 64*len(ids))
			}
			return ids[p]
		}
		return int64(1)
	})
	reg(v+"UnsafePointer", func(c *icall) value { return (*value)(nil) })
	reg(v+"IsZero", func(c *icall) value {
		r := c.mustVal(0)
		return c.m.equal(r.v, zeroFn(r.t)())
	})
	reg("reflect.New", func(c *icall) value {
		t := c.rt(0)
		cell := new(value)
		*cell = zeroFn(t)()
		return c.mkVal(types.NewPointer(t), cell, nil)
	})
	reg("reflect.Zero", func(c *icall) value { return c.mkVal(c.rt(0), zeroFn(c.rt(0))(), nil) })
	reg(v+"Call", func(c *icall) value {
		r := c.mustVal(0)
		sig := r.t.Underlying().(*types.Signature)
		var args []value
		for _, a := range variadic(c.args[1]) {
			x := a.(structure)[0].(*nativeBox).v.(rval)
			pt := sig.Params().At(len(args)).Type()
			if _, isI := pt.Underlying().(*types.Interface); isI {
				if _, already := x.v.(iface); !already {
					args = append(args, iface{x.t, x.v})
					continue
				}
			}
			args = append(args, x.v)
		}
		res := c.g.callValue(c.fr, r.v.(*funcVal), args)
		var outs []value
		switch sig.Results().Len() {
		case 0:
		case 1:
			outs = []value{c.mkVal(sig.Results().At(0).Type(), res, nil)}
		default:
			for i, x := range res.(tuple) {
				outs = append(outs, c.mkVal(sig.Results().At(i).Type(), x, nil))
			}
		}
		return outs
	})
}

// deepEqual models reflect.DeepEqual with symbolic leaves.
func (m *machine) deepEqual(t types.Type, a, b value, seen map[[2]*value]bool) value {
	conj := func(r *value, x value) bool {
		*r = m.and(*r, x)
		return *r != false
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return m.equal(a, b)
	case *types.Pointer:
		x, _ := a.(*value)
		y, _ := b.(*value)
		if x == y {
			return true
		}
		if x == nil || y == nil {
			return false
		}
		if _, ok := (*x).(rtypeBox); ok {
			return false
		}
		if _, ok := (*x).(*nativeBox); ok {
			return false
		}
		k := [2]*value{x, y}
		if seen[k] {
			return true
		}
		seen[k] = true
		return m.deepEqual(u.Elem(), *x, *y, seen)
	case *types.Struct:
		x, y := a.(structure), b.(structure)
		var r value = true
		for i := range x {
			if !conj(&r, m.deepEqual(u.Field(i).Type(), x[i], y[i], seen)) {
				return false
			}
		}
		return r
	case *types.Array:
		x, y := a.(array), b.(array)
		var r value = true
		for i := range x {
			if !conj(&r, m.deepEqual(u.Elem(), x[i], y[i], seen)) {
				return false
			}
		}
		return r
	case *types.Slice:
		x, y := a.([]value), b.([]value)
		if (x == nil) != (y == nil) || len(x) != len(y) {
			return false
		}
		var r value = true
		for i := range x {
			if !conj(&r, m.deepEqual(u.Elem(), x[i], y[i], seen)) {
				return false
			}
		}
		return r
	case *types.Interface:
		x, y := a.(iface), b.(iface)
		if x.t == nil || y.t == nil {
			return x.t == y.t
		}
		if x.t != y.t {
			return false
		}
		return m.deepEqual(x.t, x.v, y.v, seen)
	case *types.Map:
		x, y := a.(*hmap), b.(*hmap)
		if (x == nil) != (y == nil) {
			return false
		}
		if x == y {
			return true
		}
		if x.live != y.live {
			return false
		}
		var r value = true
		for _, e := range x.entries {
			if e.deleted {
				continue
			}
			f := y.find(m, e.k)
			if f == nil {
				return false
			}
			if !conj(&r, m.deepEqual(u.Elem(), e.v, f.v, seen)) {
				return false
			}
		}
		return r
	case *types.Signature:
		x, _ := a.(*funcVal)
		y, _ := b.(*funcVal)
		return x == nil && y == nil
	case *types.Chan:
		return a == b
	}
	unsupported("DeepEqual of %s", t)
	return nil
}

// methodFuncType is the type of a method turned into a function whose first
// parameter is the receiver.
func methodFuncType(recv types.Type, sig *types.Signature) types.Type {
	params := []*types.Var{types.NewParam(token.NoPos, nil, "", recv)}
	for i := 0; i < sig.Params().Len(); i++ {
		params = append(params, sig.Params().At(i))
	}
	return types.NewSignatureType(nil, nil, nil, types.NewTuple(params...), sig.Results(), sig.Variadic())
}
