package main

import (
	"bytes"
	"math"
	"path"
	"path/filepath"
	"reflect"
	"regexp"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"
)

// nativeFuncs are pure standard-library functions run on the host when their
// arguments are concrete (or pointwise over symbolic strings).
var nativeFuncs = map[string]any{
	"strings.Contains": strings.Contains, "strings.ContainsAny": strings.ContainsAny,
	"strings.ContainsRune": strings.ContainsRune, "strings.Count": strings.Count,
	"strings.EqualFold": strings.EqualFold, "strings.Fields": strings.Fields,
	"strings.HasPrefix": strings.HasPrefix, "strings.HasSuffix": strings.HasSuffix,
	"strings.Index": strings.Index, "strings.IndexByte": strings.IndexByte,
	"strings.IndexAny": strings.IndexAny, "strings.IndexRune": strings.IndexRune,
	"strings.LastIndex": strings.LastIndex, "strings.LastIndexByte": strings.LastIndexByte,
	"strings.LastIndexAny": strings.LastIndexAny, "strings.Compare": strings.Compare,
	"strings.Join": strings.Join, "strings.Repeat": strings.Repeat,
	"strings.Replace": strings.Replace, "strings.ReplaceAll": strings.ReplaceAll,
	"strings.Split": strings.Split, "strings.SplitN": strings.SplitN,
	"strings.SplitAfter": strings.SplitAfter, "strings.Title": strings.Title,
	"strings.ToLower": strings.ToLower, "strings.ToUpper": strings.ToUpper,
	"strings.ToTitle": strings.ToTitle, "strings.Trim": strings.Trim,
	"strings.TrimLeft": strings.TrimLeft, "strings.TrimRight": strings.TrimRight,
	"strings.TrimSpace": strings.TrimSpace, "strings.TrimPrefix": strings.TrimPrefix,
	"strings.TrimSuffix": strings.TrimSuffix, "strings.Cut": strings.Cut,
	"strings.CutPrefix": strings.CutPrefix, "strings.CutSuffix": strings.CutSuffix,
	"internal/stringslite.Index": strings.Index, "internal/stringslite.IndexByte": strings.IndexByte,
	"internal/stringslite.HasPrefix": strings.HasPrefix, "internal/stringslite.HasSuffix": strings.HasSuffix,
	"strconv.Itoa": strconv.Itoa, "strconv.Atoi": strconv.Atoi, "strconv.FormatInt": strconv.FormatInt,
	"strconv.FormatUint": strconv.FormatUint, "strconv.Quote": strconv.Quote,
	"strconv.ParseInt": strconv.ParseInt, "strconv.ParseUint": strconv.ParseUint,
	"strconv.ParseBool": strconv.ParseBool, "strconv.FormatBool": strconv.FormatBool,
	"strconv.ParseFloat": strconv.ParseFloat, "strconv.FormatFloat": strconv.FormatFloat,
	"strconv.AppendInt": strconv.AppendInt, "strconv.AppendUint": strconv.AppendUint,
	"strconv.AppendQuote": strconv.AppendQuote, "strconv.Unquote": strconv.Unquote,
	"unicode.IsSpace": unicode.IsSpace, "unicode.IsPrint": unicode.IsPrint,
	"unicode.IsLetter": unicode.IsLetter, "unicode.IsDigit": unicode.IsDigit,
	"unicode.IsUpper": unicode.IsUpper, "unicode.IsLower": unicode.IsLower,
	"unicode.ToUpper": unicode.ToUpper, "unicode.ToLower": unicode.ToLower,
	"unicode.IsControl": unicode.IsControl, "unicode.IsGraphic": unicode.IsGraphic,
	"unicode.IsPunct": unicode.IsPunct, "unicode.IsNumber": unicode.IsNumber,
	"unicode.ToTitle":        unicode.ToTitle,
	"unicode/utf8.RuneCount": utf8.RuneCount, "unicode/utf8.RuneCountInString": utf8.RuneCountInString,
	"unicode/utf8.ValidString": utf8.ValidString, "unicode/utf8.RuneLen": utf8.RuneLen,
	"unicode/utf8.DecodeRuneInString":     utf8.DecodeRuneInString,
	"unicode/utf8.DecodeLastRuneInString": utf8.DecodeLastRuneInString,
	"unicode/utf8.DecodeRune":             utf8.DecodeRune,
	"bytes.Equal":                         bytes.Equal, "bytes.Contains": bytes.Contains, "bytes.Compare": bytes.Compare,
	"bytes.Index": bytes.Index, "bytes.IndexByte": bytes.IndexByte, "bytes.HasPrefix": bytes.HasPrefix,
	"bytes.HasSuffix":            bytes.HasSuffix,
	"internal/bytealg.Count":     func(b []byte, c byte) int { return bytes.Count(b, []byte{c}) },
	"internal/bytealg.IndexByte": bytes.IndexByte, "internal/bytealg.Equal": bytes.Equal,
	"internal/bytealg.Compare":         bytes.Compare,
	"internal/bytealg.IndexByteString": strings.IndexByte,
	"internal/bytealg.CountString":     func(s string, c byte) int { return strings.Count(s, string(rune(c))) },
	"internal/bytealg.CompareString":   strings.Compare,
	"path.Base":                        path.Base, "path.Join": path.Join, "path.Dir": path.Dir, "path.Ext": path.Ext,
	"path/filepath.Base": filepath.Base, "path/filepath.Dir": filepath.Dir,
	"path/filepath.ToSlash": filepath.ToSlash, "path/filepath.Ext": filepath.Ext,
	"math.Abs": math.Abs, "math.Floor": math.Floor, "math.Ceil": math.Ceil, "math.Sqrt": math.Sqrt,
	"math.Float64bits": math.Float64bits, "math.Float64frombits": math.Float64frombits,
	"math.Float32bits": math.Float32bits, "math.Float32frombits": math.Float32frombits,
	"math.Inf": math.Inf, "math.NaN": math.NaN, "math.IsNaN": math.IsNaN, "math.IsInf": math.IsInf,
	"math.Round": math.Round, "math.Trunc": math.Trunc, "math.Mod": math.Mod, "math.Pow": math.Pow,
	"math.Max": math.Max, "math.Min": math.Min,
	"regexp.QuoteMeta": regexp.QuoteMeta, "regexp.MatchString": regexp.MatchString,
}

func nativeIntrinsic(key string, f any) intrinsic {
	fv := reflect.ValueOf(f)
	return func(c *icall) value { return c.callNative(key, fv, nil, c.args) }
}

// callNative calls a host function. Symbolic string arguments are expanded
// pointwise; opaque strings make string results opaque.
func (c *icall) callNative(key string, fv reflect.Value, pre []reflect.Value, args []value) value {
	ft := fv.Type()
	m := c.m
	var syms []int
	for i, a := range args {
		switch a := a.(type) {
		case *SymStr:
			if a.idx == nil {
				return c.opaqueResult(key, ft)
			}
			syms = append(syms, i)
		case *Term:
			// integers are concretized
		}
	}
	conv := func(vs []value) ([]reflect.Value, bool) {
		in := append([]reflect.Value(nil), pre...)
		for i, a := range vs {
			t := ft.In(len(pre) + i)
			v, ok := m.toNative(a, t)
			if !ok {
				return nil, false
			}
			in = append(in, v)
		}
		return in, true
	}
	callIt := func(in []reflect.Value) []reflect.Value {
		if ft.IsVariadic() {
			return fv.CallSlice(in)
		}
		return fv.Call(in)
	}
	if len(syms) == 1 && ft.NumOut() == 1 {
		s := args[syms[0]].(*SymStr)
		outs := make([]value, len(s.table))
		for k, e := range s.table {
			vs := append([]value(nil), args...)
			vs[syms[0]] = e
			in, ok := conv(vs)
			if !ok {
				return c.opaqueResult(key, ft)
			}
			outs[k] = m.fromNative(callIt(in)[0])
		}
		if r, ok := m.tableValue(s.idx, outs, ft.Out(0)); ok {
			return r
		}
	}
	vs := append([]value(nil), args...)
	for _, i := range syms {
		vs[i] = m.concStr(vs[i])
	}
	in, ok := conv(vs)
	if !ok {
		return c.opaqueResult(key, ft)
	}
	outs := callIt(in)
	switch len(outs) {
	case 0:
		return nil
	case 1:
		return m.fromNative(outs[0])
	}
	t := make(tuple, len(outs))
	for i, o := range outs {
		t[i] = m.fromNative(o)
	}
	return t
}

// tableValue selects outs[idx] as one symbolic value.
func (m *machine) tableValue(idx *Term, outs []value, t reflect.Type) (value, bool) {
	switch t.Kind() {
	case reflect.String:
		n := &SymStr{idx: idx}
		for _, o := range outs {
			s, ok := o.(string)
			if !ok {
				return nil, false
			}
			n.table = append(n.table, s)
		}
		same := true
		for _, s := range n.table {
			same = same && s == n.table[0]
		}
		if same {
			return n.table[0], true
		}
		return n, true
	case reflect.Bool:
		r := m.ts.Bool(outs[len(outs)-1].(bool))
		for i := len(outs) - 2; i >= 0; i-- {
			r = m.ts.Ite(m.ts.Eq(idx, m.ts.BV(uint64(i), idx.width)), m.ts.Bool(outs[i].(bool)), r)
		}
		return m.unterm(r), true
	case reflect.Int:
		r := m.ts.BV(uint64(outs[len(outs)-1].(int64)), 64)
		for i := len(outs) - 2; i >= 0; i-- {
			r = m.ts.Ite(m.ts.Eq(idx, m.ts.BV(uint64(i), idx.width)), m.ts.BV(uint64(outs[i].(int64)), 64), r)
		}
		return fold(r, true), true
	}
	return nil, false
}

func (c *icall) opaqueResult(key string, ft reflect.Type) value {
	if ft.NumOut() == 1 {
		switch ft.Out(0).Kind() {
		case reflect.String:
			return opaqueAny
		case reflect.Slice:
			if ft.Out(0).Elem().Kind() == reflect.String {
				return []value{opaqueStr}
			}
			if ft.Out(0).Elem().Kind() == reflect.Uint8 {
				return []value{opaqueByte{}}
			}
		}
	}
	unsupported("%s on unmodelled text at %s", key, c.m.where())
	return nil
}

func (m *machine) toNative(v value, t reflect.Type) (reflect.Value, bool) {
	switch t.Kind() {
	case reflect.String:
		switch s := v.(type) {
		case string:
			return reflect.ValueOf(s).Convert(t), true
		case *SymStr:
			if s.idx == nil {
				return reflect.Value{}, false
			}
			return reflect.ValueOf(m.concStr(s)).Convert(t), true
		}
	case reflect.Bool:
		return reflect.ValueOf(m.truth(v)).Convert(t), true
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64,
		reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		if _, ok := v.(opaqueByte); ok {
			return reflect.Value{}, false
		}
		if tm, ok := v.(*Term); ok && t.Kind() != reflect.Uint8 && !m.opts.ConcretizeInts {
			_ = tm
			return reflect.Value{}, false
		}
		return reflect.ValueOf(m.concInt(v)).Convert(t), true
	case reflect.Float32, reflect.Float64:
		return reflect.ValueOf(v.(float64)).Convert(t), true
	case reflect.Slice:
		s := v.([]value)
		if s == nil {
			return reflect.Zero(t), true
		}
		out := reflect.MakeSlice(t, len(s), len(s))
		for i, e := range s {
			ev, ok := m.toNative(e, t.Elem())
			if !ok {
				return reflect.Value{}, false
			}
			out.Index(i).Set(ev)
		}
		return out, true
	case reflect.Func:
		if fv, ok := v.(*funcVal); ok {
			return reflect.MakeFunc(t, func(in []reflect.Value) []reflect.Value {
				var args []value
				for _, a := range in {
					args = append(args, m.fromNative(a))
				}
				r := m.cur.callValue(m.cur.top, fv, args)
				switch t.NumOut() {
				case 0:
					return nil
				case 1:
					rv, ok := m.toNative(r, t.Out(0))
					if !ok {
						unsupported("callback result")
					}
					return []reflect.Value{rv}
				}
				unsupported("callback with several results")
				return nil
			}), true
		}
	}
	unsupported("host call with argument %T for %s", v, t)
	return reflect.Value{}, false
}

func (m *machine) fromNative(v reflect.Value) value {
	switch v.Kind() {
	case reflect.String:
		return v.String()
	case reflect.Bool:
		return v.Bool()
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return v.Int()
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return int64(v.Uint())
	case reflect.Float32, reflect.Float64:
		return v.Float()
	case reflect.Slice:
		if v.IsNil() {
			return []value(nil)
		}
		s := make([]value, v.Len())
		for i := range s {
			s[i] = m.fromNative(v.Index(i))
		}
		return s
	case reflect.Interface:
		if v.IsNil() {
			return iface{}
		}
		if e, ok := v.Interface().(error); ok {
			return m.newError(e.Error())
		}
	}
	unsupported("host result of type %s", v.Type())
	return nil
}
