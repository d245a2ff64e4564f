package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
)

// Formatting is done by the host's fmt after rendering each operand. Text that
// depends on symbolic integers is not modelled and becomes opaque.

type sval struct { // host operand standing for a rendered value
	text string
	quot bool
}

func (s sval) Format(st fmt.State, verb rune) {
	f := "%" + flagString(st)
	switch verb {
	case 'q', 'x', 'X', 's':
		fmt.Fprintf(st, f+string(verb), s.text)
	default:
		fmt.Fprintf(st, f+"s", s.text)
	}
}

func flagString(st fmt.State) string {
	r := ""
	for _, c := range "-0" {
		if st.Flag(int(c)) {
			r += string(c)
		}
	}
	if w, ok := st.Width(); ok {
		r += fmt.Sprint(w)
	}
	if p, ok := st.Precision(); ok {
		r += "." + fmt.Sprint(p)
	}
	return r
}

// fmtArg renders one operand for a verb: a host value, or a *SymStr.
func (c *icall) fmtArg(v iface, verb rune, sharp bool, depth int) any {
	m := c.m
	if v.t == nil {
		if depth > 0 {
			return sval{text: "<nil>"}
		}
		return nil
	}
	if verb == 'T' {
		return sval{text: m.p.typeString(v.t)}
	}
	if verb == 'p' {
		return sval{text: "0x1"}
	}
	str := func(r value) any {
		switch r := r.(type) {
		case string:
			return sval{text: r}
		case *SymStr:
			return r
		}
		panic("string result")
	}
	switch verb {
	case 'v', 's', 'q', 'x', 'X', 'w':
		if !sharp {
			if p, isP := v.v.(*value); isP && p == nil && (m.p.hasMethod(v.t, "Error", 0, 1) || m.p.hasMethod(v.t, "String", 0, 1)) {
				return sval{text: "<nil>"}
			}
			if m.p.hasMethod(v.t, "Error", 0, 1) {
				return str(c.method(v, "Error"))
			}
			if m.p.hasMethod(v.t, "String", 0, 1) {
				return str(c.method(v, "String"))
			}
		} else if m.p.hasMethod(v.t, "GoString", 0, 1) {
			return str(c.method(v, "GoString"))
		}
	}
	switch u := v.t.Underlying().(type) {
	case *types.Basic:
		switch x := v.v.(type) {
		case bool:
			return x
		case float64:
			if u.Kind() == types.Float32 {
				return float32(x)
			}
			return x
		case complex128:
			return x
		case string:
			return x
		case *SymStr:
			return x
		case int64:
			_, signed, _ := intInfo(v.t)
			if signed {
				if u.Kind() == types.Int32 {
					return int32(x)
				}
				return x
			}
			if u.Kind() == types.Uint8 {
				return uint8(x)
			}
			return uint64(x)
		case *Term:
			if x.width == 0 {
				return &SymStr{idx: m.ts.Ite(x, m.ts.BV(1, 1), m.ts.BV(0, 1)), table: []string{"false", "true"}}
			}
			return opaqueStr
		case *value:
			return sval{text: "0x1"}
		}
	case *types.Slice, *types.Array:
		var vs []value
		var et types.Type
		switch u := u.(type) {
		case *types.Slice:
			vs, et = v.v.([]value), u.Elem()
		case *types.Array:
			vs, et = []value(v.v.(array)), u.Elem()
		}
		if b, ok := et.Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 && (verb == 's' || verb == 'q' || verb == 'x') {
			s := m.stringOf(vs)
			if s == value(opaqueStr) {
				return opaqueStr
			}
			return s
		}
		var parts []any
		for _, e := range vs {
			parts = append(parts, c.fmtArg(m.asIface(e, et), verb, sharp, depth+1))
		}
		return c.joinParts("[", parts, "]", verb)
	case *types.Struct:
		var parts []any
		for i, e := range v.v.(structure) {
			if !u.Field(i).Exported() {
				// methods of unexported fields are not called by fmt
				parts = append(parts, c.fmtPlain(m.asIface(e, u.Field(i).Type())))
				continue
			}
			parts = append(parts, c.fmtArg(m.asIface(e, u.Field(i).Type()), verb, sharp, depth+1))
		}
		return c.joinParts("{", parts, "}", verb)
	case *types.Map:
		h := v.v.(*hmap)
		var ents []string
		if h != nil {
			for _, e := range h.entries {
				if e.deleted {
					continue
				}
				k := c.joinParts("", []any{c.fmtArg(m.asIface(e.k, u.Key()), verb, sharp, depth+1)}, "", verb)
				x := c.joinParts("", []any{c.fmtArg(m.asIface(e.v, u.Elem()), verb, sharp, depth+1)}, "", verb)
				ks, ok1 := k.(sval)
				xs, ok2 := x.(sval)
				if !ok1 || !ok2 {
					return opaqueStr
				}
				ents = append(ents, ks.text+":"+xs.text)
			}
		}
		sort.Strings(ents)
		return sval{text: "map[" + strings.Join(ents, " ") + "]"}
	case *types.Pointer:
		p, _ := v.v.(*value)
		if p == nil {
			return sval{text: "<nil>"}
		}
		if depth == 0 {
			switch u.Elem().Underlying().(type) {
			case *types.Struct, *types.Slice, *types.Map, *types.Array:
				if _, isBox := (*p).(rtypeBox); isBox {
					return sval{text: "0x1"}
				}
				if _, isBox := (*p).(*nativeBox); isBox {
					return sval{text: "0x1"}
				}
				r := c.fmtArg(m.asIface(*p, u.Elem()), verb, sharp, depth+1)
				return c.joinParts("&", []any{r}, "", verb)
			}
		}
		return sval{text: "0x1"}
	}
	return sval{text: "0x1"}
}

func (c *icall) fmtPlain(v iface) any {
	if v.t == nil {
		return sval{text: "<nil>"}
	}
	if _, ok := v.t.Underlying().(*types.Basic); ok {
		switch x := v.v.(type) {
		case bool, string, int64, float64:
			return sval{text: fmt.Sprint(x)}
		default:
			return opaqueStr
		}
	}
	return sval{text: "?"}
}

func (m *machine) asIface(v value, t types.Type) iface {
	if f, ok := v.(iface); ok {
		if _, isI := t.Underlying().(*types.Interface); isI {
			return f
		}
	}
	return iface{m.p.canon(t), v}
}

func (c *icall) joinParts(open string, parts []any, cl string, verb rune) any {
	var sb strings.Builder
	sb.WriteString(open)
	for i, p := range parts {
		if i > 0 {
			sb.WriteByte(' ')
		}
		if _, ok := p.(*SymStr); ok {
			if len(parts) == 1 {
				s := p.(*SymStr)
				return c.m.mapStr(s, func(x string) string { return open + x + cl })
			}
			return opaqueStr
		}
		if p == nil {
			sb.WriteString("<nil>")
			continue
		}
		switch verb {
		case 'q', 'd', 's', 'v', 'x':
			fmt.Fprintf(&sb, "%"+string(verb), p)
		default:
			fmt.Fprintf(&sb, "%v", p)
		}
	}
	sb.WriteString(cl)
	return sval{text: sb.String()}
}

type verbSpec struct {
	verb  rune
	sharp bool
	star  bool
}

// parseVerbs lists the operand-consuming verbs of a format string.
func parseVerbs(f string) (vs []verbSpec, ok bool) {
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			continue
		}
		i++
		var v verbSpec
	flags:
		for i < len(f) {
			switch f[i] {
			case '#':
				v.sharp = true
			case '+', '-', ' ', '0', '.', '1', '2', '3', '4', '5', '6', '7', '8', '9':
			case '*':
				vs = append(vs, verbSpec{star: true})
			case '[':
				return nil, false
			default:
				break flags
			}
			i++
		}
		if i >= len(f) {
			break
		}
		if f[i] == '%' {
			continue
		}
		v.verb = rune(f[i])
		vs = append(vs, v)
	}
	return vs, true
}

// sprintf formats; the result is string or *SymStr.
func (c *icall) sprintf(format value, args []value) value {
	if s, ok := format.(*SymStr); ok && s.idx == nil {
		return opaqueStr
	}
	if s, ok := format.(*SymStr); ok && len(args) == 0 {
		plain := true
		for _, e := range s.table {
			plain = plain && !strings.Contains(e, "%")
		}
		if plain {
			return s
		}
	}
	f := c.m.concStr(format)
	vs, ok := parseVerbs(f)
	if !ok {
		unsupported("format with explicit argument indices: %q", f)
	}
	hostArgs := make([]any, len(args))
	var syms []int
	for i, a := range args {
		v := a.(iface)
		spec := verbSpec{verb: 'v'}
		if i < len(vs) {
			spec = vs[i]
		}
		if spec.star {
			hostArgs[i] = int(c.m.concInt(v.v))
			continue
		}
		h := c.fmtArg(v, spec.verb, spec.sharp, 0)
		if s, isS := h.(*SymStr); isS {
			if s.idx == nil {
				return opaqueStr
			}
			syms = append(syms, i)
		}
		hostArgs[i] = h
	}
	hf := strings.NewReplacer("%%", "%%", "%T", "%v", "%w", "%v", "%p", "%v").Replace(f)
	return c.pointwise(hostArgs, syms, func(as []any) string { return fmt.Sprintf(hf, as...) })
}

func (c *icall) pointwise(hostArgs []any, syms []int, f func([]any) string) value {
	if len(syms) == 0 {
		return f(hostArgs)
	}
	// combine the symbolic operands one after the other
	acc := hostArgs[syms[0]].(*SymStr)
	tabs := [][]string{}
	for _, s := range acc.table {
		tabs = append(tabs, []string{s})
	}
	idx := acc.idx
	for _, i := range syms[1:] {
		q := hostArgs[i].(*SymStr)
		if len(tabs)*len(q.table) > c.m.texts() {
			return opaqueStr
		}
		idx = c.m.ts.Bin(opAdd,
			c.m.ts.Bin(opMul, c.m.ts.ZExt(idx, 16), c.m.ts.BV(uint64(len(q.table)), 16)),
			c.m.ts.ZExt(q.idx, 16))
		var nt [][]string
		for _, a := range tabs {
			for _, b := range q.table {
				nt = append(nt, append(append([]string(nil), a...), b))
			}
		}
		tabs = nt
	}
	r := &SymStr{idx: idx}
	for _, tb := range tabs {
		as := append([]any(nil), hostArgs...)
		for k, i := range syms {
			as[i] = sval{text: tb[k]}
		}
		r.table = append(r.table, f(as))
	}
	return r
}

func (c *icall) sprint(args []value, ln bool) value {
	hostArgs := make([]any, len(args))
	var syms []int
	for i, a := range args {
		v := a.(iface)
		h := c.fmtArg(v, 'v', false, 0)
		if s, isS := h.(*SymStr); isS {
			if s.idx == nil {
				return opaqueStr
			}
			syms = append(syms, i)
		}
		if v.t != nil {
			if b, ok := v.t.(*types.Basic); ok && b.Info()&types.IsString != 0 {
				// keep string operands strings: Sprint adds spaces otherwise
				if x, ok := h.(sval); ok {
					h = x.text
				}
			}
		}
		hostArgs[i] = h
	}
	return c.pointwise(hostArgs, syms, func(as []any) string {
		for i, a := range as {
			if v, ok := args[i].(iface); ok && v.t != nil {
				if b, ok := v.t.(*types.Basic); ok && b.Info()&types.IsString != 0 {
					if x, ok := a.(sval); ok {
						as[i] = x.text
					}
				}
			}
		}
		if ln {
			return fmt.Sprintln(as...)
		}
		return fmt.Sprint(as...)
	})
}

// writeTo writes a rendered string to an interpreted io.Writer.
func (c *icall) writeTo(w iface, s value) value {
	if w.t == nil {
		c.m.throw("invalid memory address or nil pointer dereference")
	}
	if c.m.p.typeString(w.t) == "*strings.Builder" {
		return c.method(w, "WriteString", s)
	}
	return c.method(w, "Write", c.m.bytesOf(s))
}

func variadic(v value) []value {
	s, _ := v.([]value)
	return s
}

func init() {
	reg("fmt.Sprintf", func(c *icall) value { return c.sprintf(c.args[0], variadic(c.args[1])) })
	reg("fmt.Sprint", func(c *icall) value { return c.sprint(variadic(c.args[0]), false) })
	reg("fmt.Sprintln", func(c *icall) value { return c.sprint(variadic(c.args[0]), true) })
	reg("fmt.Fprintf", func(c *icall) value {
		return c.writeTo(c.args[0].(iface), c.sprintf(c.args[1], variadic(c.args[2])))
	})
	reg("fmt.Fprint", func(c *icall) value {
		return c.writeTo(c.args[0].(iface), c.sprint(variadic(c.args[1]), false))
	})
	reg("fmt.Fprintln", func(c *icall) value {
		return c.writeTo(c.args[0].(iface), c.sprint(variadic(c.args[1]), true))
	})
	for _, n := range []string{"fmt.Printf", "fmt.Print", "fmt.Println"} {
		reg(n, func(c *icall) value { return tuple{int64(0), iface{}} })
	}
	reg("fmt.Errorf", func(c *icall) value {
		f := c.m.concStr(c.args[0])
		args := variadic(c.args[1])
		s := c.sprintf(c.args[0], args)
		vs, _ := parseVerbs(f)
		var wrapped []iface
		for i, v := range vs {
			if v.verb == 'w' && i < len(args) {
				if e := args[i].(iface); e.t != nil && c.m.p.hasMethod(e.t, "Error", 0, 1) {
					wrapped = append(wrapped, e)
				}
			}
		}
		mk := func(name string, st structure) value {
			t := c.m.p.pkgs["fmt"].Pkg.Scope().Lookup(name).Type()
			cell := new(value)
			*cell = st
			return iface{c.m.p.canon(types.NewPointer(t)), cell}
		}
		switch len(wrapped) {
		case 0:
			cell := new(value)
			*cell = structure{s}
			return iface{c.m.p.errorStringT, cell}
		case 1:
			return mk("wrapError", structure{s, wrapped[0]})
		}
		var es []value
		for _, e := range wrapped {
			es = append(es, e)
		}
		return mk("wrapErrors", structure{s, es})
	})
}

// panicText renders a panic value for messages.
func (m *machine) panicText(p targetPanic) (s string) {
	defer func() {
		if r := recover(); r != nil {
			s = "(value cannot be rendered)"
		}
	}()
	v, ok := p.v.(iface)
	if !ok {
		return fmt.Sprintf("%T", p.v)
	}
	if v.t == nil {
		return "nil"
	}
	if v.t == m.p.runtimeErrorT {
		return fmt.Sprintf("runtime error: %v", v.v)
	}
	c := &icall{g: m.cur, m: m, fr: m.cur.top}
	r := c.sprint([]value{v}, false)
	if x, ok := r.(string); ok {
		return x
	}
	return "(" + m.p.typeString(v.t) + ")"
}
