package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
	"golang.org/x/tools/go/types/typeutil"
)

// Program is the loaded program under check, shared by all workers.
type Program struct {
	prog  *ssa.Program
	fset  *token.FileSet
	sizes types.Sizes
	pkgs  map[string]*ssa.Package

	mu       sync.Mutex
	canonM   typeutil.Map
	canonF   sync.Map // types.Type -> types.Type
	fns      sync.Map // *ssa.Function -> *cfn
	methods  sync.Map // methKey -> *cfn
	impls    sync.Map // implKey -> bool
	rtypes   sync.Map // types.Type -> *value
	repoPath string
	repoDir  string

	runtimeErrorT types.Type
	rtypeT        types.Type // *reflect.rtype
	stringT       types.Type
	errorStringT  types.Type // *errors.errorString
	shared        map[string]bool
}

type methKey struct {
	t  types.Type
	id string
}

type implKey struct {
	t types.Type
	i *types.Interface
}

// loadProgram loads patterns of the module in dir with the given overlay.
func loadProgram(dir string, overlay map[string][]byte, env []string, buildFlags []string, patterns ...string) (*Program, error) {
	cfg := &packages.Config{
		Mode:       packages.LoadAllSyntax | packages.NeedModule,
		Dir:        dir,
		Env:        env,
		Overlay:    overlay,
		BuildFlags: buildFlags,
	}
	pkgs, err := packages.Load(cfg, patterns...)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		if len(errs) > 10 {
			errs = errs[:10]
		}
		return nil, fmt.Errorf("the program does not load:\n%s", strings.Join(errs, "\n"))
	}
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	p := &Program{
		prog: prog, fset: prog.Fset, pkgs: map[string]*ssa.Package{},
		sizes: types.SizesFor("gc", "amd64"), repoDir: dir,
		shared: map[string]bool{},
	}
	p.canonM.SetHasher(typeutil.MakeHasher())
	for _, sp := range prog.AllPackages() {
		p.pkgs[sp.Pkg.Path()] = sp
	}
	named := func(pkg, name string) types.Type {
		sp := p.pkgs[pkg]
		if sp == nil {
			panic("package not loaded: " + pkg)
		}
		o := sp.Pkg.Scope().Lookup(name)
		if o == nil {
			panic("no " + name + " in " + pkg)
		}
		return o.Type()
	}
	p.runtimeErrorT = p.canon(named("runtime", "errorString"))
	if p.pkgs["reflect"] != nil {
		p.rtypeT = p.canon(types.NewPointer(named("reflect", "rtype")))
	}
	p.stringT = p.canon(types.Typ[types.String])
	p.errorStringT = p.canon(types.NewPointer(named("errors", "errorString")))
	packages.Visit(pkgs, nil, func(pk *packages.Package) {
		if pk.Module == nil { // standard library
			p.shared[pk.PkgPath] = true
		} else if pk.Module.Main {
			p.repoPath = pk.Module.Path
		}
	})
	return p, nil
}

func (p *Program) pos(pos token.Pos) string {
	if !pos.IsValid() {
		return "?"
	}
	q := p.fset.Position(pos)
	f := q.Filename
	if r, err := filepath.Rel(p.repoDir, f); err == nil && !strings.HasPrefix(r, "..") {
		f = r
	}
	return fmt.Sprintf("%s:%d", f, q.Line)
}

// canon maps identical types to one representative.
func (p *Program) canon(t types.Type) types.Type {
	if c, ok := p.canonF.Load(t); ok {
		return c.(types.Type)
	}
	p.mu.Lock()
	defer p.mu.Unlock()
	u := types.Unalias(t)
	if c := p.canonM.At(u); c != nil {
		p.canonF.Store(t, c)
		return c.(types.Type)
	}
	p.canonM.Set(u, u)
	p.canonF.Store(t, u)
	return u
}

func (p *Program) typeString(t types.Type) string {
	return types.TypeString(t, func(pk *types.Package) string { return pk.Name() })
}

func (p *Program) implements(t types.Type, i *types.Interface) bool {
	k := implKey{t, i}
	if r, ok := p.impls.Load(k); ok {
		return r.(bool)
	}
	r := types.Implements(t, i)
	p.impls.Store(k, r)
	return r
}

// method finds the implementation of an interface method for a dynamic type.
func (p *Program) method(t types.Type, meth *types.Func) *cfn {
	k := methKey{t, meth.Id()}
	if f, ok := p.methods.Load(k); ok {
		return f.(*cfn)
	}
	p.mu.Lock()
	fn := p.prog.LookupMethod(t, meth.Pkg(), meth.Name())
	p.mu.Unlock()
	if fn == nil {
		panic(fmt.Sprintf("no method %s on %s", meth.Name(), t))
	}
	f := p.cfnOf(fn)
	p.methods.Store(k, f)
	return f
}

func (p *Program) methodByName(t types.Type, name string) *cfn {
	ms := types.NewMethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return p.method(t, ms.At(i).Obj().(*types.Func))
		}
	}
	return nil
}

func (p *Program) cfnOf(fn *ssa.Function) *cfn {
	if f, ok := p.fns.Load(fn); ok {
		return f.(*cfn)
	}
	f := &cfn{p: p, fn: fn, name: fnName(fn), pkg: fn.Pkg}
	f.self = &funcVal{fn: f}
	base := fn
	if o := fn.Origin(); o != nil {
		base = o
		f.pkg = o.Pkg
	}
	key := base.String()
	// only methods and functions of the declared package itself; wrappers and
	// thunks are interpreted and lead there
	if fn.Synthetic == "" || base != fn || fn.Blocks == nil {
		if in, ok := intrinsics[key]; ok {
			f.intrinsic = in
		} else if nf, ok := nativeFuncs[key]; ok {
			f.intrinsic = nativeIntrinsic(key, nf)
		}
	}
	if pureFuncs[key] {
		f.pure = true
	}
	rs := fn.Signature.Results()
	if rs.Len() == 1 {
		f.resT = rs.At(0).Type()
	} else {
		f.resT = rs
	}
	if f.pkg != nil {
		f.inRepo = p.inRepo(f.pkg.Pkg.Path())
	} else if fn.Parent() != nil {
		f.inRepo = p.cfnOf(fn.Parent()).inRepo
	}
	a, _ := p.fns.LoadOrStore(fn, f)
	return a.(*cfn)
}

func (p *Program) inRepo(path string) bool {
	return p.repoPath != "" && (path == p.repoPath || strings.HasPrefix(path, p.repoPath+"/")) &&
		!strings.Contains(path, "/zzverif")
}

func fnName(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		return o.String()
	}
	return fn.String()
}

// ---- globals ------------------------------------------------------------

func (m *machine) global(g *ssa.Global) *value {
	if p, ok := m.globs[g]; ok {
		return p
	}
	if g.Pkg != nil && m.p.shared[g.Pkg.Pkg.Path()] {
		if p, ok := m.w.sharedGlobs[g]; ok {
			m.globs[g] = p
			return p
		}
	}
	m.initPackage(g.Pkg)
	p := m.globs[g]
	if p == nil {
		panic("global without storage: " + g.String())
	}
	return p
}

// initPackage allocates the globals of a package and runs its initializer.
func (m *machine) initPackage(pkg *ssa.Package) {
	if m.inits[pkg] != 0 {
		return
	}
	m.inits[pkg] = 1
	shared := m.p.shared[pkg.Pkg.Path()]
	pkg.Build()
	if shared && m.w.sharedInit[pkg] {
		for _, mem := range pkg.Members {
			if g, ok := mem.(*ssa.Global); ok {
				m.globs[g] = m.w.sharedGlobs[g]
			}
		}
		return
	}
	for _, mem := range pkg.Members {
		if g, ok := mem.(*ssa.Global); ok {
			p := new(value)
			*p = zeroFn(deref(g.Type()))()
			m.globs[g] = p
			if shared {
				m.w.sharedGlobs[g] = p
			}
		}
	}
	if shared {
		m.w.sharedInit[pkg] = true
	}
	if noInit[pkg.Pkg.Path()] || strings.HasPrefix(pkg.Pkg.Path(), "golang.org/x/text/") {
		return
	}
	init := pkg.Func("init")
	if init == nil {
		return
	}
	saved := m.local
	m.local = nil
	race, preempt := m.race, m.preempt
	m.race, m.preempt = nil, 0
	top, depth := m.cur.top, m.cur.depth
	f := m.p.cfnOf(init)
	func() {
		defer func() {
			m.local = saved
			m.race, m.preempt = race, preempt
			m.cur.top, m.cur.depth = top, depth
			if r := recover(); r != nil {
				if a, ok := r.(abortPath); ok && a.kind == abUnsupported {
					if os.Getenv("GOSYM_DEBUG") != "" {
						fmt.Fprintf(os.Stderr, "init of %s incomplete: %s\n", pkg.Pkg.Path(), a.msg)
					}
					m.w.noteInit(pkg.Pkg.Path(), a.msg)
					return
				}
				if _, ok := r.(targetPanic); ok {
					m.w.noteInit(pkg.Pkg.Path(), "panic during initialization")
					return
				}
				panic(r)
			}
		}()
		m.cur.callFn(nil, f, nil, nil, nil)
	}()
}

// noInit lists packages whose initializers are not needed and expensive.
var noInit = map[string]bool{
	"runtime": true, "unicode": true, "syscall": true, "os": true, "internal/poll": true,
	"internal/godebug": true, "internal/cpu": true, "reflect": true, "net": true,
	"google.golang.org/protobuf/internal/impl": true,
	"internal/runtime/maps":                    true,
}

// ---- maps ---------------------------------------------------------------

func (m *machine) newMapIter(fr *frame, h *hmap) *mapIter {
	it := &mapIter{m: h}
	if h == nil {
		return it
	}
	for _, e := range h.entries {
		if !e.deleted {
			it.list = append(it.list, e)
		}
	}
	if m.mapReverse {
		for i, j := 0, len(it.list)-1; i < j; i, j = i+1, j-1 {
			it.list[i], it.list[j] = it.list[j], it.list[i]
		}
	}
	if m.mapAll && fr.fn.inRepo && len(it.list) > 1 {
		if len(it.list) <= 4 {
			it.all = true
		} else if m.choose(2, "map order") == 1 {
			for i, j := 0, len(it.list)-1; i < j; i, j = i+1, j-1 {
				it.list[i], it.list[j] = it.list[j], it.list[i]
			}
		}
	}
	return it
}

func (m *machine) nextEntry(it *mapIter) *mentry {
	if it.all {
		n := len(it.list) - it.pos
		k := it.pos + m.choose(n, "map order")
		it.list[it.pos], it.list[k] = it.list[k], it.list[it.pos]
	}
	e := it.list[it.pos]
	it.pos++
	return e
}
