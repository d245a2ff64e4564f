package main

import (
	"fmt"
	"go/types"
	"reflect"
	"regexp"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type icall struct {
	g    *gor
	m    *machine
	fr   *frame
	fn   *cfn
	args []value
}

type intrinsic func(c *icall) value

var intrinsics = map[string]intrinsic{}

// pureFuncs lists side-effect free functions whose symbolic branches are
// merged instead of forked.
var pureFuncs = map[string]bool{
	"(time.Time).After": true, "(time.Time).Before": true, "(time.Time).Equal": true,
	"(time.Time).Compare": true, "(time.Time).IsZero": true, "(time.Time).Sub": true,
	"(time.Time).Add": true, "(time.Time).Unix": true, "(time.Time).UnixNano": true,
	"(time.Time).Nanosecond": true, "(time.Time).UTC": true,
	"cmp.Compare": true, "cmp.Less": true,
}

// passThrough is returned by a model that leaves the call to the real body.
var passThrough value = new(int)

func reg(name string, f intrinsic) { intrinsics[name] = f }

func ret0(c *icall) value { return nil }

func (c *icall) cell(i int) *value {
	p, ok := c.args[i].(*value)
	if !ok || p == nil {
		c.m.throw("invalid memory address or nil pointer dereference")
	}
	return p
}

// call invokes a method by name on an interface value.
func (c *icall) method(v iface, name string, args ...value) value {
	f := c.m.p.methodByName(v.t, name)
	if f == nil {
		unsupported("no method %s on %s", name, v.t)
	}
	return c.g.callFn(c.fr, f, append([]value{v.v}, args...), nil, nil)
}

func (p *Program) hasMethod(t types.Type, name string, nin, nout int) bool {
	f := p.methodByName(t, name)
	return f != nil && f.fn.Signature.Params().Len() == nin && f.fn.Signature.Results().Len() == nout
}

func (m *machine) newError(msg value) value {
	cell := new(value)
	*cell = structure{msg}
	return iface{m.p.errorStringT, cell}
}

func init() {
	// ---- sync ----
	for _, t := range []string{"(*sync.Mutex)", "(*internal/sync.Mutex)"} {
		reg(t+".Lock", func(c *icall) value { c.m.lock(c.g, c.cell(0)); return nil })
		reg(t+".Unlock", func(c *icall) value { c.m.unlock(c.g, c.cell(0)); return nil })
		reg(t+".TryLock", func(c *icall) value { return c.m.tryLock(c.g, c.cell(0)) })
	}
	reg("(*sync.RWMutex).Lock", func(c *icall) value { c.m.lock(c.g, c.cell(0)); return nil })
	reg("(*sync.RWMutex).Unlock", func(c *icall) value { c.m.unlock(c.g, c.cell(0)); return nil })
	reg("(*sync.RWMutex).TryLock", func(c *icall) value { return c.m.tryLock(c.g, c.cell(0)) })
	reg("(*sync.RWMutex).RLock", func(c *icall) value { c.m.rlock(c.g, c.cell(0)); return nil })
	reg("(*sync.RWMutex).RUnlock", func(c *icall) value { c.m.runlock(c.g, c.cell(0)); return nil })
	type wg struct {
		n     int64
		clock vclock
	}
	wgOf := func(c *icall) *wg {
		if c.m.userData == nil {
			c.m.userData = map[string]any{}
		}
		t, _ := c.m.userData["wg"].(map[*value]*wg)
		if t == nil {
			t = map[*value]*wg{}
			c.m.userData["wg"] = t
		}
		w := t[c.cell(0)]
		if w == nil {
			w = &wg{}
			t[c.cell(0)] = w
		}
		return w
	}
	wgAdd := func(c *icall, d int64) {
		w := wgOf(c)
		if c.m.race != nil && d < 0 {
			c.m.race.release(c.g, &w.clock)
		}
		w.n += d
		if w.n < 0 {
			panic(targetPanic{iface{c.m.p.stringT, "sync: negative WaitGroup counter"}})
		}
		c.m.yield(c.g)
	}
	reg("(*sync.WaitGroup).Add", func(c *icall) value { wgAdd(c, c.m.concInt(c.args[1])); return nil })
	reg("(*sync.WaitGroup).Done", func(c *icall) value { wgAdd(c, -1); return nil })
	reg("(*sync.WaitGroup).Wait", func(c *icall) value {
		w := wgOf(c)
		c.m.yield(c.g)
		c.m.block(c.g, "WaitGroup.Wait", func() bool { return w.n == 0 })
		if c.m.race != nil {
			c.m.race.acquire(c.g, w.clock)
		}
		return nil
	})
	reg("(*sync.WaitGroup).Go", func(c *icall) value {
		w := wgOf(c)
		w.n++
		fv := c.args[1].(*funcVal)
		self := c.args[0]
		g := c.m.newGor(&funcVal{native: func(g *gor, _ []value) value {
			g.callValue(nil, fv, nil)
			wgAdd(&icall{g: g, m: c.m, args: []value{self}}, -1)
			return nil
		}}, nil)
		g.start()
		c.m.yield(c.g)
		return nil
	})
	reg("(*sync.Pool).Get", func(c *icall) value {
		p := c.cell(0)
		s := (*p).(structure)
		fv, _ := s[len(s)-1].(*funcVal)
		if fv == nil {
			return iface{}
		}
		return c.g.callValue(c.fr, fv, nil)
	})
	reg("(*sync.Pool).Put", ret0)
	smap := func(c *icall) *hmap {
		if c.m.userData == nil {
			c.m.userData = map[string]any{}
		}
		t, _ := c.m.userData["smap"].(map[*value]*hmap)
		if t == nil {
			t = map[*value]*hmap{}
			c.m.userData["smap"] = t
		}
		h := t[c.cell(0)]
		if h == nil {
			h = newHmap(types.NewInterfaceType(nil, nil))
			t[c.cell(0)] = h
		}
		c.m.yield(c.g)
		return h
	}
	reg("(*sync.Map).Load", func(c *icall) value {
		if e := smap(c).find(c.m, c.args[1]); e != nil {
			return tuple{e.v, true}
		}
		return tuple{iface{}, false}
	})
	reg("(*sync.Map).Store", func(c *icall) value { smap(c).set(c.m, c.args[1], c.args[2]); return nil })
	reg("(*sync.Map).LoadOrStore", func(c *icall) value {
		h := smap(c)
		if e := h.find(c.m, c.args[1]); e != nil {
			return tuple{e.v, true}
		}
		h.set(c.m, c.args[1], c.args[2])
		return tuple{c.args[2], false}
	})
	reg("(*sync.Map).LoadAndDelete", func(c *icall) value {
		h := smap(c)
		if e := h.find(c.m, c.args[1]); e != nil {
			h.del(e)
			return tuple{e.v, true}
		}
		return tuple{iface{}, false}
	})
	reg("(*sync.Map).Delete", func(c *icall) value { smap(c).remove(c.m, c.args[1]); return nil })
	reg("(*sync.Map).Clear", func(c *icall) value { smap(c).clear(); return nil })
	reg("(*sync.Map).Range", func(c *icall) value {
		h := smap(c)
		for _, e := range append([]*mentry(nil), h.entries...) {
			if !e.deleted {
				if !c.m.truth(c.g.callValue(c.fr, c.args[1].(*funcVal), []value{e.k, e.v})) {
					break
				}
			}
		}
		return nil
	})
	reg("sync.runtime_registerPoolCleanup", ret0)
	reg("sync.throw", func(c *icall) value { c.m.fatal(c.m.concStr(c.args[0])); return nil })
	reg("sync.fatal", func(c *icall) value { c.m.fatal(c.m.concStr(c.args[0])); return nil })

	// ---- sync/atomic ----
	for _, tn := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr", "Pointer"} {
		var w uint8 = 64
		signed := strings.HasPrefix(tn, "Int")
		if strings.HasSuffix(tn, "32") {
			w = 32
		}
		for _, pk := range []string{"sync/atomic.", "internal/runtime/atomic."} {
			reg(pk+"Load"+tn, func(c *icall) value {
				c.m.yield(c.g)
				c.m.atomicSync(c)
				return *c.cell(0)
			})
			reg(pk+"Store"+tn, func(c *icall) value {
				c.m.yield(c.g)
				c.m.atomicSync(c)
				*c.cell(0) = c.args[1]
				return nil
			})
			reg(pk+"Swap"+tn, func(c *icall) value {
				c.m.yield(c.g)
				c.m.atomicSync(c)
				old := *c.cell(0)
				*c.cell(0) = c.args[1]
				return old
			})
			reg(pk+"CompareAndSwap"+tn, func(c *icall) value {
				c.m.yield(c.g)
				c.m.atomicSync(c)
				if c.m.truth(c.m.equal(*c.cell(0), c.args[1])) {
					*c.cell(0) = c.args[2]
					return true
				}
				return false
			})
			arith := func(o op, retOld bool) intrinsic {
				return func(c *icall) value {
					c.m.yield(c.g)
					c.m.atomicSync(c)
					old := *c.cell(0)
					var nv value
					a, ok1 := old.(int64)
					b, ok2 := c.args[1].(int64)
					if ok1 && ok2 {
						nv = normInt(int64(evalBin(o, uint64(a)&mask(w), uint64(b)&mask(w), w)), w, signed)
					} else {
						nv = fold(c.m.ts.Bin(o, c.m.term(old, w), c.m.term(c.args[1], w)), signed)
					}
					*c.cell(0) = nv
					if retOld {
						return old
					}
					return nv
				}
			}
			reg(pk+"Add"+tn, arith(opAdd, false))
			reg(pk+"And"+tn, arith(opBAnd, true))
			reg(pk+"Or"+tn, arith(opBOr, true))
		}
	}
	reg("(*sync/atomic.Value).Load", func(c *icall) value {
		c.m.yield(c.g)
		c.m.atomicSync(c)
		return (*c.cell(0)).(structure)[0]
	})
	reg("(*sync/atomic.Value).Store", func(c *icall) value {
		c.m.yield(c.g)
		c.m.atomicSync(c)
		(*c.cell(0)).(structure)[0] = c.args[1]
		return nil
	})
	reg("(*sync/atomic.Value).Swap", func(c *icall) value {
		c.m.yield(c.g)
		c.m.atomicSync(c)
		s := (*c.cell(0)).(structure)
		old := s[0]
		s[0] = c.args[1]
		return old
	})
	reg("(*sync/atomic.Value).CompareAndSwap", func(c *icall) value {
		c.m.yield(c.g)
		c.m.atomicSync(c)
		s := (*c.cell(0)).(structure)
		if c.m.truth(c.m.equal(s[0], c.args[1])) {
			s[0] = c.args[2]
			return true
		}
		return false
	})

	// ---- runtime ----
	for _, n := range []string{"runtime.GC", "runtime.KeepAlive", "runtime.SetFinalizer", "internal/race.Acquire", "internal/race.Release", "internal/race.Enable", "internal/race.Disable", "internal/race.ReleaseMerge", "internal/race.Read", "internal/race.Write", "runtime.LockOSThread", "runtime.UnlockOSThread"} {
		reg(n, ret0)
	}
	reg("runtime.Gosched", func(c *icall) value { c.m.yield(c.g); return nil })
	reg("runtime.Goexit", func(c *icall) value { panic(goexitPanic{}) })
	reg("runtime.NumGoroutine", func(c *icall) value { return int64(len(c.m.gors)) })
	reg("runtime.NumCPU", func(c *icall) value { return int64(8) })
	reg("runtime.GOMAXPROCS", func(c *icall) value { return int64(8) })
	reg("runtime.Callers", func(c *icall) value {
		skip := int(c.m.concInt(c.args[0])) - 1
		dst := c.args[1].([]value)
		n := 0
		for fr := c.fr; fr != nil && n < len(dst); fr = fr.caller {
			if strings.HasPrefix(fr.fn.fn.Synthetic, "wrapper") || strings.HasPrefix(fr.fn.fn.Synthetic, "thunk") {
				continue
			}
			if skip > 0 {
				skip--
				continue
			}
			dst[n] = c.m.p.pcOf(fr)
			n++
		}
		return int64(n)
	})
	reg("runtime.Caller", func(c *icall) value {
		skip := int(c.m.concInt(c.args[0]))
		for fr := c.fr; fr != nil; fr = fr.caller {
			if skip > 0 {
				skip--
				continue
			}
			info := c.m.p.pcInfo(c.m.p.pcOf(fr))
			return tuple{info.pc, info.file, int64(info.line), true}
		}
		return tuple{int64(0), "", int64(0), false}
	})
	reg("runtime.CallersFrames", func(c *icall) value {
		cell := new(value)
		*cell = structure{c.args[0], int64(0)} // interpreted only by Next below
		return cell
	})
	reg("(*runtime.Frames).Next", func(c *icall) value {
		s := (*c.cell(0)).(structure)
		pcs := s[0].([]value)
		z := zeroFn(c.fn.fn.Signature.Results().At(0).Type())().(structure)
		if len(pcs) == 0 {
			return tuple{z, false}
		}
		info := c.m.p.pcInfo(pcs[0].(int64))
		s[0] = pcs[1:]
		st := c.fn.fn.Signature.Results().At(0).Type().Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			switch st.Field(i).Name() {
			case "PC", "Entry":
				z[i] = info.pc
			case "Function":
				z[i] = info.fn
			case "File":
				z[i] = info.file
			case "Line":
				z[i] = int64(info.line)
			}
		}
		return tuple{z, len(pcs) > 1}
	})
	reg("runtime.FuncForPC", func(c *icall) value {
		cell := new(value)
		*cell = structure{c.args[0]}
		return cell
	})
	reg("(*runtime.Func).Name", func(c *icall) value {
		return c.m.p.pcInfo((*c.cell(0)).(structure)[0].(int64)).fn
	})
	reg("(*runtime.Func).Entry", func(c *icall) value { return (*c.cell(0)).(structure)[0] })
	reg("(*runtime.Func).FileLine", func(c *icall) value {
		i := c.m.p.pcInfo((*c.cell(0)).(structure)[0].(int64))
		return tuple{i.file, int64(i.line)}
	})
	reg("runtime/debug.Stack", func(c *icall) value { return c.m.bytesOf("stack") })
	reg("os.Getenv", func(c *icall) value { return "" })
	reg("os.LookupEnv", func(c *icall) value { return tuple{"", false} })
	reg("internal/godebug.New", func(c *icall) value {
		cell := new(value)
		*cell = zeroFn(deref(c.fn.fn.Signature.Results().At(0).Type()))()
		return cell
	})
	reg("(*internal/godebug.Setting).Value", func(c *icall) value { return "" })
	reg("(*internal/godebug.Setting).IncNonDefault", ret0)
	reg("internal/bytealg.MakeNoZero", func(c *icall) value {
		n := c.m.concInt(c.args[0])
		s := make([]value, n)
		for i := range s {
			s[i] = int64(0)
		}
		return s
	})
	reg("internal/abi.NoEscape", func(c *icall) value { return c.args[0] })
	reg("internal/abi.Escape", func(c *icall) value { return c.args[0] })
	reg("internal/stringslite.Clone", func(c *icall) value { return c.args[0] })
	reg("strings.Clone", func(c *icall) value { return c.args[0] })

	// ---- errors ----
	reg("errors.Is", func(c *icall) value {
		return c.errorsIs(c.args[0].(iface), c.args[1].(iface))
	})
	reg("errors.As", func(c *icall) value { return c.errorsAs() })

	// ---- strings.Builder ----
	const sbt = "(*strings.Builder)"
	sbf := func(c *icall) *value { s := (*c.cell(0)).(structure); return &s[1] }
	content := func(c *icall) value {
		switch b := (*sbf(c)).(type) {
		case []value:
			return c.m.stringOf(b)
		case string, *SymStr:
			return b
		}
		panic("builder content")
	}
	appendStr := func(c *icall, s value) {
		cur := content(c)
		if c.m.race != nil {
			c.m.race.access(c.fr, sbf(c), true)
		}
		*sbf(c) = c.m.concat(cur, s)
	}
	reg(sbt+".String", func(c *icall) value {
		if c.m.race != nil {
			c.m.race.access(c.fr, sbf(c), false)
		}
		return content(c)
	})
	reg(sbt+".Len", func(c *icall) value {
		s := content(c)
		if s == opaqueStr || s == opaqueAny {
			return int64(1) // unmodelled but not empty
		}
		return c.m.lenOf(s)
	})
	reg(sbt+".Cap", func(c *icall) value { return c.m.lenOf(content(c)) })
	reg(sbt+".Grow", ret0)
	reg(sbt+".Reset", func(c *icall) value { *sbf(c) = []value(nil); return nil })
	reg(sbt+".WriteString", func(c *icall) value {
		appendStr(c, c.args[1])
		n := value(int64(1))
		if c.args[1] != value(opaqueStr) && c.args[1] != value(opaqueAny) {
			n = c.m.lenOf(c.args[1])
		}
		return tuple{n, iface{}}
	})
	reg(sbt+".Write", func(c *icall) value {
		b := c.args[1].([]value)
		appendStr(c, c.m.stringOf(b))
		return tuple{int64(len(b)), iface{}}
	})
	reg(sbt+".WriteByte", func(c *icall) value {
		appendStr(c, c.m.stringOf([]value{c.args[1]}))
		return iface{}
	})
	reg(sbt+".WriteRune", func(c *icall) value {
		r := string(rune(c.m.concInt(c.args[1])))
		appendStr(c, r)
		return tuple{int64(len(r)), iface{}}
	})

	// ---- regexp ----
	rxT := func(c *icall) string { return c.m.concStr(c.args[0]) }
	mkRx := func(c *icall, re *regexp.Regexp) value {
		cell := new(value)
		*cell = &nativeBox{re}
		return cell
	}
	reg("regexp.MustCompile", func(c *icall) value {
		re, err := regexp.Compile(rxT(c))
		if err != nil {
			panic(targetPanic{iface{c.m.p.stringT, "regexp: Compile(" + rxT(c) + "): " + err.Error()}})
		}
		return mkRx(c, re)
	})
	reg("regexp.Compile", func(c *icall) value {
		re, err := regexp.Compile(rxT(c))
		if err != nil {
			return tuple{(*value)(nil), c.m.newError(err.Error())}
		}
		return tuple{mkRx(c, re), iface{}}
	})
	rt := reflect.TypeOf((*regexp.Regexp)(nil))
	for i := 0; i < rt.NumMethod(); i++ {
		meth := rt.Method(i)
		key := "(*regexp.Regexp)." + meth.Name
		reg(key, func(c *icall) value {
			re := (*c.cell(0)).(*nativeBox).v
			return c.callNative(key, meth.Func, []reflect.Value{reflect.ValueOf(re)}, c.args[1:])
		})
	}

	// ---- rendering ----
	render := func(c *icall, v value) string {
		f := v.(iface)
		if f.t == nil {
			return "nil"
		}
		return "<" + c.m.p.typeString(f.t) + ">"
	}
	reg("(*github.com/dogmatiq/dapper.Printer).Format", func(c *icall) value {
		if c.m.render {
			return passThrough
		}
		return render(c, c.args[1])
	})
	reg("github.com/dogmatiq/dapper.Format", func(c *icall) value {
		if c.m.render {
			return passThrough
		}
		return render(c, c.args[0])
	})
	reg("github.com/dogmatiq/dapper/internal/unsafereflect.MakeMutable", func(c *icall) value { return c.args[0] })
	reg("github.com/dogmatiq/dapper.NewPrinter", func(c *icall) value {
		if c.m.render {
			return passThrough
		}
		cell := new(value)
		*cell = zeroFn(deref(c.fn.fn.Signature.Results().At(0).Type()))()
		return cell
	})
	reg("golang.org/x/text/cases.Title", func(c *icall) value {
		return zeroFn(c.fn.fn.Signature.Results().At(0).Type())()
	})
	reg("(golang.org/x/text/cases.Caser).String", func(c *icall) value {
		s := c.m.concStr(c.args[1])
		if s == "" {
			return s
		}
		return strings.ToUpper(s[:1]) + s[1:]
	})
	reg("github.com/dogmatiq/testkit/internal/report.WriteDiff", func(c *icall) value {
		if c.m.render {
			return passThrough
		}
		return zeroResults(c.fn.fn)
	})
}

// atomicSync treats atomics as synchronization (acquire and release).
func (m *machine) atomicSync(c *icall) {
	if m.race == nil {
		return
	}
	if m.userData == nil {
		m.userData = map[string]any{}
	}
	t, _ := m.userData["atomics"].(map[*value]*vclock)
	if t == nil {
		t = map[*value]*vclock{}
		m.userData["atomics"] = t
	}
	v := t[c.cell(0)]
	if v == nil {
		v = &vclock{}
		t[c.cell(0)] = v
	}
	m.race.acquire(c.g, *v)
	m.race.release(c.g, v)
}

func (c *icall) unwrap(err iface) []iface {
	if f := c.m.p.methodByName(err.t, "Unwrap"); f != nil && f.fn.Signature.Params().Len() == 0 && f.fn.Signature.Results().Len() == 1 {
		r := c.g.callFn(c.fr, f, []value{err.v}, nil, nil)
		switch r := r.(type) {
		case iface:
			return []iface{r}
		case []value:
			var es []iface
			for _, e := range r {
				es = append(es, e.(iface))
			}
			return es
		}
	}
	return nil
}

func (c *icall) errorsIs(err, target iface) value {
	if err.t == nil || target.t == nil {
		return err.t == nil && target.t == nil
	}
	if types.Comparable(target.t) && err.t == target.t {
		if c.m.truth(c.m.equal(err.v, target.v)) {
			return true
		}
	}
	if c.m.p.hasMethod(err.t, "Is", 1, 1) {
		if c.m.truth(c.method(err, "Is", target)) {
			return true
		}
	}
	for _, e := range c.unwrap(err) {
		if e.t == nil {
			continue
		}
		if c.m.truth(c.errorsIs(e, target)) {
			return true
		}
	}
	return false
}

func (c *icall) errorsAs() value {
	target := c.args[1].(iface)
	if target.t == nil {
		panic(targetPanic{iface{c.m.p.stringT, "errors: target cannot be nil"}})
	}
	pt := target.t.Underlying().(*types.Pointer).Elem()
	dst := target.v.(*value)
	var walk func(err iface) bool
	walk = func(err iface) bool {
		if err.t == nil {
			return false
		}
		if it, ok := pt.Underlying().(*types.Interface); ok {
			if c.m.p.implements(err.t, it) {
				*dst = err
				return true
			}
		} else if err.t == c.m.p.canon(pt) {
			*dst = copyVal(err.v)
			return true
		}
		if c.m.p.hasMethod(err.t, "As", 1, 1) {
			if c.m.truth(c.method(err, "As", target)) {
				return true
			}
		}
		for _, e := range c.unwrap(err) {
			if walk(e) {
				return true
			}
		}
		return false
	}
	return walk(c.args[0].(iface))
}

// ---- program counters ---------------------------------------------------

type pcInfoT struct {
	pc   int64
	fn   string
	file string
	line int
}

type pcTable struct {
	byKey map[string]int64
	infos []pcInfoT
}

var pcs = pcTable{byKey: map[string]int64{}}

func (p *Program) pcOf(fr *frame) int64 {
	pos := fr.fn.fn.Pos()
	if fr.cur != nil && fr.cur.Pos().IsValid() {
		pos = fr.cur.Pos()
	}
	return p.pcFor(fr.fn.fn, p.fset.Position(pos).Filename, p.fset.Position(pos).Line)
}

func (p *Program) pcFor(fn *ssa.Function, file string, line int) int64 {
	name := runtimeName(fn)
	p.mu.Lock()
	defer p.mu.Unlock()
	key := fmt.Sprintf("%s|%s|%d", name, file, line)
	if pc, ok := pcs.byKey[key]; ok {
		return pc
	}
	pc := int64(0x400000 + 16*len(pcs.infos))
	pcs.byKey[key] = pc
	pcs.infos = append(pcs.infos, pcInfoT{pc, name, file, line})
	return pc
}

func (p *Program) pcInfo(pc int64) pcInfoT {
	p.mu.Lock()
	defer p.mu.Unlock()
	i := (pc - 0x400000) / 16
	if i < 0 || int(i) >= len(pcs.infos) {
		return pcInfoT{}
	}
	return pcs.infos[i]
}

// runtimeName renders a function name the way the Go runtime does.
func runtimeName(fn *ssa.Function) string {
	if fn.Parent() != nil {
		i := strings.LastIndexByte(fn.Name(), '$')
		suffix := fn.Name()
		if i >= 0 {
			suffix = fn.Name()[i+1:]
		}
		return runtimeName(fn.Parent()) + ".func" + suffix
	}
	if o := fn.Origin(); o != nil {
		return runtimeName(o) + "[...]"
	}
	pkg := ""
	if fn.Pkg != nil {
		pkg = fn.Pkg.Pkg.Path()
	}
	if recv := fn.Signature.Recv(); recv != nil {
		t := recv.Type()
		if pt, ok := t.(*types.Pointer); ok {
			if n, ok := types.Unalias(pt.Elem()).(*types.Named); ok {
				return pkg + ".(*" + n.Obj().Name() + ")." + fn.Name()
			}
		}
		if n, ok := types.Unalias(t).(*types.Named); ok {
			return pkg + "." + n.Obj().Name() + "." + fn.Name()
		}
	}
	return pkg + "." + fn.Name()
}
