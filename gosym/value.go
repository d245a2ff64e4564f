package main

import (
	"fmt"
	"go/types"
	"strings"
)

// value is the representation of every Go value in the interpreted program:
//
//	all integer kinds  int64 (sign- or zero-extended bits) or *Term
//	bool               bool or *Term
//	floats             float64; complex: complex128
//	string             string or *SymStr
//	pointer            *value (nil: (*value)(nil))
//	struct, array      structure, array (immutable as values, private in cells)
//	slice              []value
//	map, chan, func    *hmap, *channel, *funcVal
//	interface          iface
//	unsafe.Pointer     whatever pointer it was made from
type value = any

type structure []value
type array []value
type tuple []value

type iface struct {
	t types.Type // canonical dynamic type, nil for a nil interface
	v value
}

type funcVal struct {
	fn     *cfn
	env    []value
	native func(g *gor, args []value) value
}

// SymStr is a symbolic string: table[idx], or an opaque text whose content is
// not modelled (idx == nil).
type SymStr struct {
	idx   *Term
	table []string
}

// opaqueStr is an opaque text that is not empty, such as a formatted number;
// opaqueAny may be empty.
var opaqueStr, opaqueAny = &SymStr{}, &SymStr{}

// opaqueByte stands for the bytes of an opaque string inside a []byte.
type opaqueByte struct{}

// rtypeBox is the content of the cell a *reflect.rtype points to.
type rtypeBox struct{ t types.Type }

// nativeBox wraps a host object (e.g. a compiled regexp).
type nativeBox struct{ v any }

type targetPanic struct{ v value } // v is an iface

type goexitPanic struct{}

type abortKind int

const (
	abInfeasible abortKind = iota
	abViolation
	abUnsupported
	abLimit
	abKilled
	abUnknown
	abDone
)

type abortPath struct {
	kind abortKind
	msg  string
}

func unsupported(format string, args ...any) {
	panic(abortPath{abUnsupported, fmt.Sprintf(format, args...)})
}

func copyVal(v value) value {
	switch v := v.(type) {
	case structure:
		n := make(structure, len(v))
		for i, f := range v {
			switch f.(type) {
			case structure, array:
				n[i] = copyVal(f)
			default:
				n[i] = f
			}
		}
		return n
	case array:
		n := make(array, len(v))
		for i, f := range v {
			switch f.(type) {
			case structure, array:
				n[i] = copyVal(f)
			default:
				n[i] = f
			}
		}
		return n
	}
	return v
}

func isAggregate(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		return true
	}
	return false
}

// intInfo returns the width and signedness of an integer type.
func intInfo(t types.Type) (w uint8, signed bool, ok bool) {
	b, isB := t.Underlying().(*types.Basic)
	if !isB {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt, types.UntypedRune:
		return 64, true, true
	case types.Int32:
		return 32, true, true
	case types.Int16:
		return 16, true, true
	case types.Int8:
		return 8, true, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	case types.Uint32:
		return 32, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint8:
		return 8, false, true
	}
	return 0, false, false
}

func normInt(v int64, w uint8, signed bool) int64 {
	if w == 64 {
		return v
	}
	if signed {
		sh := 64 - w
		return v << sh >> sh
	}
	return int64(uint64(v) & mask(w))
}

// zeroFn returns a constructor for the zero value of t.
func zeroFn(t types.Type) func() value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Kind() == types.UnsafePointer:
			return func() value { return (*value)(nil) }
		case u.Info()&types.IsBoolean != 0:
			return func() value { return false }
		case u.Info()&types.IsInteger != 0:
			var z value = int64(0)
			return func() value { return z }
		case u.Info()&types.IsFloat != 0:
			return func() value { return float64(0) }
		case u.Info()&types.IsComplex != 0:
			return func() value { return complex128(0) }
		case u.Info()&types.IsString != 0:
			return func() value { return "" }
		case u.Kind() == types.UntypedNil:
			return func() value { return nil }
		}
	case *types.Pointer:
		return func() value { return (*value)(nil) }
	case *types.Slice:
		return func() value { return []value(nil) }
	case *types.Map:
		return func() value { return (*hmap)(nil) }
	case *types.Chan:
		return func() value { return (*channel)(nil) }
	case *types.Signature:
		return func() value { return (*funcVal)(nil) }
	case *types.Interface:
		return func() value { return iface{} }
	case *types.Struct:
		fs := make([]func() value, u.NumFields())
		for i := range fs {
			fs[i] = zeroFn(u.Field(i).Type())
		}
		return func() value {
			s := make(structure, len(fs))
			for i, f := range fs {
				s[i] = f()
			}
			return s
		}
	case *types.Array:
		f := zeroFn(u.Elem())
		n := u.Len()
		return func() value {
			a := make(array, n)
			for i := range a {
				a[i] = f()
			}
			return a
		}
	case *types.Tuple:
		fs := make([]func() value, u.Len())
		for i := range fs {
			fs[i] = zeroFn(u.At(i).Type())
		}
		return func() value {
			s := make(tuple, len(fs))
			for i, f := range fs {
				s[i] = f()
			}
			return s
		}
	}
	return func() value { unsupported("zero value of %s", t); return nil }
}

// hmap is a Go map with insertion-ordered entries. Concrete scalar keys are
// indexed; other keys are compared one by one, forking on symbolic equality.
type hmap struct {
	keyT    types.Type
	entries []*mentry
	index   map[value]*mentry // only fully concrete scalar keys
	live    int
	symKeys int // entries with non-indexable keys
}

type mentry struct {
	k, v    value
	deleted bool
	indexed bool
}

func newHmap(keyT types.Type) *hmap {
	return &hmap{keyT: keyT, index: map[value]*mentry{}}
}

// indexKey returns a host-comparable key for fully concrete keys.
func indexKey(k value) (value, bool) {
	switch k := k.(type) {
	case int64, bool, string:
		return k, true
	case float64:
		return k, k == k
	case *value:
		return k, true
	case *channel:
		return k, true
	case iface:
		if k.t == nil {
			return k, true
		}
		in, ok := indexKey(k.v)
		if !ok {
			return nil, false
		}
		return iface{k.t, in}, true
	case structure:
		return aggKey("s", k)
	case array:
		return aggKey("a", k)
	}
	return nil, false
}

type aggregateKey string

func aggKey(tag string, vs []value) (value, bool) {
	var sb strings.Builder
	sb.WriteString(tag)
	for _, v := range vs {
		in, ok := indexKey(v)
		if !ok {
			return nil, false
		}
		switch in := in.(type) {
		case string:
			fmt.Fprintf(&sb, "|%d:%s", len(in), in)
		case iface:
			fmt.Fprintf(&sb, "|i%p:%T:%v", in.t, in.v, in.v)
		default:
			fmt.Fprintf(&sb, "|%T:%v", in, in)
		}
	}
	return aggregateKey(sb.String()), true
}

func (h *hmap) find(m *machine, k value) *mentry {
	if h == nil || h.live == 0 {
		return nil
	}
	ik, ok := indexKey(k)
	if ok {
		if e := h.index[ik]; e != nil {
			return e
		}
		if h.symKeys == 0 {
			return nil
		}
	}
	for _, e := range h.entries {
		if e.deleted || ok && e.indexed {
			continue
		}
		if m.truth(m.equal(k, e.k)) {
			return e
		}
	}
	return nil
}

func (h *hmap) set(m *machine, k, v value) {
	if e := h.find(m, k); e != nil {
		e.v = v
		return
	}
	e := &mentry{k: k, v: v}
	if ik, ok := indexKey(k); ok {
		h.index[ik] = e
		e.indexed = true
	} else {
		if f, isF := k.(iface); isF {
			m.checkHashable(f)
		}
		h.symKeys++
	}
	h.entries = append(h.entries, e)
	h.live++
}

func (h *hmap) remove(m *machine, k value) {
	e := h.find(m, k)
	if e == nil {
		return
	}
	h.del(e)
}

func (h *hmap) del(e *mentry) {
	e.deleted = true
	h.live--
	if e.indexed {
		ik, _ := indexKey(e.k)
		delete(h.index, ik)
	} else {
		h.symKeys--
	}
	// compact
	if len(h.entries) > 32 && h.live*2 < len(h.entries) {
		var es []*mentry
		for _, x := range h.entries {
			if !x.deleted {
				es = append(es, x)
			}
		}
		h.entries = es
	}
}

func (h *hmap) clear() {
	for _, e := range h.entries {
		e.deleted = true
	}
	h.entries = nil
	h.index = map[value]*mentry{}
	h.live = 0
	h.symKeys = 0
}

type mapIter struct {
	m    *hmap
	list []*mentry
	pos  int
	all  bool // nondeterministic order
}

type stringIter struct {
	s   string
	pos int
}
