package main

// Symbolic interpreter for go/ssa.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

type targetPanic struct {
	v     Iface
	where string
}

// pathEnd aborts the current path for engine reasons.
type pathEnd struct {
	kind string // "assume", "limit", "alloc", "violation"
	msg  string
}

type opnd struct {
	r int32 // register index, or -1
	v Value
}

type cinstr struct {
	in  ssa.Instruction
	dst int32
	ops []opnd
	aux interface{}
}

type cblock struct {
	phis  []cinstr
	code  []cinstr
	succs []int
	preds []int
}

type fnInfo struct {
	fn        *ssa.Function
	nregs     int
	blocks    []cblock
	intrinsic func(in *Interp, fr *frame, args []Value) Value
	hasDefer  bool
	name      string
	modCode   bool // function of the module under test
	isInit    bool
	calls     int
	nInstr    int
	cov       []bool // per block
	spec      []int8
	pdom      []int
}

type deferred struct {
	fn   Value
	args []Value
	call *ssa.CallCommon
}

type frame struct {
	fi        *fnInfo
	regs      []Value
	defers    []deferred
	result    Value
	panicking bool
	panicV    interface{}
	caller    *frame
	recovered bool
}

type Interp struct {
	prog     *ssa.Program
	b        *Builder
	sol      *Solver
	qcache   map[string]cached
	globals  map[*ssa.Global]*Value
	inited   map[*ssa.Package]int
	fns      map[*ssa.Function]*fnInfo
	trail    []trailEntry
	trailOn  bool
	emptyStr *Str

	errorType *types.Interface
	methCache map[methKey]*ssa.Function
	implCache map[implKey]bool
	typeCanon typeutil.Map
	nCanon    int
	pkgByPath map[string]*ssa.Package
	modPath   string
	symPath   string
	rtErrType types.Type
	rtypeT    types.Type
	opaqueT   types.Type

	// per path
	p         *path
	steps     int
	maxSteps  int
	depth     int
	maxDepth  int
	traceOn   bool
	inInit    bool
	compiling int
	spec      int
	pureCache map[*ssa.Function]bool
	pendInit  []*ssa.Package
	forceInit bool
	ex        *Explorer
	h         *ssa.Function

	allocLimit int64
	totalLimit int64 // for everything allocated together, when armed
	spent      int64
	nchecks    int
	cfg        *Config
	mapOrder   bool
	curFn      *fnInfo

	warned   map[string]bool
	onces    map[*Value]bool
	locks    map[*Value]int
	pools    map[*Value][]Value
	syncMaps map[*Value]*Map
	par      *parState
	usedPar  bool
}

type methKey struct {
	t types.Type
	m string
}
type implKey struct {
	t, i types.Type
}

func NewInterp(prog *ssa.Program, pkgs map[string]*ssa.Package, modPath string, st *SolverStats, cfg *Config) *Interp {
	b := NewBuilder()
	in := &Interp{prog: prog, b: b, globals: map[*ssa.Global]*Value{}, inited: map[*ssa.Package]int{}, fns: map[*ssa.Function]*fnInfo{},
		pureCache: map[*ssa.Function]bool{}, methCache: map[methKey]*ssa.Function{}, implCache: map[implKey]bool{}, pkgByPath: pkgs, modPath: modPath, symPath: modPath + "/zz_verif/sym",
		maxSteps: 64_000_000, maxDepth: 100_000, warned: map[string]bool{}}
	in.emptyStr = &Str{}
	in.qcache = map[string]cached{}
	in.cfg = cfg
	in.sol = NewSolver(b, st, cfg.QueryTimeout)
	in.errorType = types.Universe.Lookup("error").Type().Underlying().(*types.Interface)
	if rt := pkgs["runtime"]; rt != nil {
		if o := rt.Pkg.Scope().Lookup("errorString"); o != nil {
			in.rtErrType = o.Type()
		}
	}
	if rp := pkgs["reflect"]; rp != nil {
		in.rtypeT = types.NewPointer(rp.Pkg.Scope().Lookup("rtype").Type())
	}
	in.opaqueT = types.NewNamed(types.NewTypeName(token.NoPos, nil, "opaque", nil), types.NewStruct(nil, nil), nil)
	return in
}

func (in *Interp) canon(t types.Type) types.Type {
	if c := in.typeCanon.At(t); c != nil {
		return c.(types.Type)
	}
	in.typeCanon.Set(t, t)
	return t
}

// ---- package initialisation ----

var initDeny = []string{"runtime", "reflect", "os", "syscall", "time", "internal/", "go.uber.org/", "github.com/streamingfast/",
	"encoding/json", "sync", "crypto", "net", "context", "log", "golang.org/", "github.com/logrusorgru", "hash", "encoding/pem", "encoding/gob", "compress", "text/", "html", "flag", "testing", "path", "go/", "mime", "vendor/", "weak", "unique", "iter", "io/fs", "io/ioutil", "fmt", "embed"}

var initAllow = map[string]bool{"internal/bytealg": false, "internal/stringslite": true}

func deniedInit(path string) bool {
	if v, ok := initAllow[path]; ok {
		return !v
	}
	for _, d := range initDeny {
		if path == d || strings.HasPrefix(path, d+"/") || (strings.HasSuffix(d, "/") && strings.HasPrefix(path, d)) {
			return true
		}
	}
	return false
}

func (in *Interp) ensureInit(pkg *ssa.Package) {
	if pkg == nil || in.inited[pkg] != 0 {
		return
	}
	in.inited[pkg] = 1
	path := pkg.Pkg.Path()
	if deniedInit(path) {
		return
	}
	f := pkg.Func("init")
	if f == nil {
		return
	}
	saveTrail, saveInit, saveSteps, saveDepth := in.trailOn, in.inInit, in.steps, in.depth
	saveP := in.p
	in.trailOn, in.inInit = false, true
	in.steps, in.depth = 0, 0
	saveMax := in.maxSteps
	in.maxSteps = 50_000_000
	defer func() {
		in.trailOn, in.inInit, in.steps, in.depth, in.maxSteps = saveTrail, saveInit, saveSteps, saveDepth, saveMax
		in.p = saveP
		if r := recover(); r != nil {
			if u, ok := r.(unsupported); ok {
				in.inited[pkg] = 2
				in.warn("init of " + path + ": unsupported: " + string(u))
				if strings.HasPrefix(path, in.modPath) {
					panic(r)
				}
				return
			}
			panic(r)
		}
	}()
	in.info(f)
	in.forceInit = true
	in.callSSA(f, nil, nil, nil)
}

func (in *Interp) warn(s string) {
	if !in.warned[s] {
		in.warned[s] = true
		addWarning(s)
	}
}

func (in *Interp) global(g *ssa.Global) *Value {
	if p, ok := in.globals[g]; ok {
		return p
	}
	p := newCell(in.zero(g.Type().(*types.Pointer).Elem()))
	in.globals[g] = p
	if in.compiling > 0 {
		// the initialiser may call the function being compiled: run it afterwards
		in.pendInit = append(in.pendInit, g.Pkg)
	} else {
		in.ensureInit(g.Pkg)
	}
	return p
}

// ---- compilation ----

func (in *Interp) info(fn *ssa.Function) *fnInfo {
	if fi := in.fns[fn]; fi != nil {
		return fi
	}
	fi := in.compile(fn)
	if in.compiling == 0 {
		for len(in.pendInit) > 0 {
			p := in.pendInit[0]
			in.pendInit = in.pendInit[1:]
			in.ensureInit(p)
		}
	}
	return fi
}

func (in *Interp) compile(fn *ssa.Function) *fnInfo {
	in.compiling++
	defer func() { in.compiling-- }()
	fi := &fnInfo{fn: fn, name: fn.String()}
	in.fns[fn] = fi
	if fn.Pkg != nil {
		p := fn.Pkg.Pkg.Path()
		fi.modCode = p == in.modPath
	} else if o := fn.Object(); o != nil && o.Pkg() != nil {
		fi.modCode = o.Pkg().Path() == in.modPath
	} else if fn.Parent() != nil {
		pf := fn
		for pf.Parent() != nil {
			pf = pf.Parent()
		}
		fi.modCode = pf.Pkg != nil && pf.Pkg.Pkg.Path() == in.modPath
	}
	fi.isInit = fn.Synthetic == "package initializer"
	if fn.Pkg != nil {
		// always: another worker may be in the middle of building it
		fn.Pkg.Build()
	}
	fi.intrinsic = in.findIntrinsic(fn)
	if fi.isInit {
		fi.intrinsic = nil
	}
	if fi.intrinsic != nil {
		return fi
	}
	if fn.Blocks == nil {
		return fi
	}
	fi.fn = fn
	reg := map[ssa.Value]int32{}
	n := int32(0)
	for _, p := range fn.Params {
		reg[p] = n
		n++
	}
	for _, p := range fn.FreeVars {
		reg[p] = n
		n++
	}
	for _, blk := range fn.Blocks {
		for _, i := range blk.Instrs {
			if v, ok := i.(ssa.Value); ok {
				reg[v] = n
				n++
			}
		}
	}
	fi.nregs = int(n)
	mkop := func(v ssa.Value) opnd {
		if v == nil {
			return opnd{r: -1}
		}
		if r, ok := reg[v]; ok {
			return opnd{r: r}
		}
		switch x := v.(type) {
		case *ssa.Const:
			return opnd{r: -1, v: in.constVal(x)}
		case *ssa.Global:
			return opnd{r: -1, v: in.global(x)}
		case *ssa.Function:
			return opnd{r: -1, v: x}
		case *ssa.Builtin:
			return opnd{r: -1, v: x}
		}
		panic(unsupported(fmt.Sprintf("operand %T", v)))
	}
	fi.blocks = make([]cblock, len(fn.Blocks))
	fi.cov = make([]bool, len(fn.Blocks))
	for bi, blk := range fn.Blocks {
		cb := &fi.blocks[bi]
		for _, s := range blk.Succs {
			cb.succs = append(cb.succs, s.Index)
		}
		for _, s := range blk.Preds {
			cb.preds = append(cb.preds, s.Index)
		}
		for _, i := range blk.Instrs {
			if _, ok := i.(*ssa.DebugRef); ok {
				continue
			}
			ci := cinstr{in: i, dst: -1}
			if v, ok := i.(ssa.Value); ok {
				ci.dst = reg[v]
			}
			var rands []*ssa.Value
			rands = i.Operands(rands)
			switch x := i.(type) {
			case *ssa.Phi:
				for _, e := range x.Edges {
					ci.ops = append(ci.ops, mkop(e))
				}
				cb.phis = append(cb.phis, ci)
				continue
			case *ssa.Slice:
				ci.ops = []opnd{mkop(x.X), mkop(x.Low), mkop(x.High), mkop(x.Max)}
			case *ssa.Return:
				for _, r := range x.Results {
					ci.ops = append(ci.ops, mkop(r))
				}
			case *ssa.Defer:
				fi.hasDefer = true
				ci.ops = append(ci.ops, mkop(x.Call.Value))
				for _, a := range x.Call.Args {
					ci.ops = append(ci.ops, mkop(a))
				}
			case *ssa.Call:
				ci.ops = append(ci.ops, mkop(x.Call.Value))
				for _, a := range x.Call.Args {
					ci.ops = append(ci.ops, mkop(a))
				}
			case *ssa.Go:
			case *ssa.Select:
			case *ssa.MakeClosure:
				for _, b := range x.Bindings {
					ci.ops = append(ci.ops, mkop(b))
				}
			default:
				for _, r := range rands {
					if *r == nil {
						ci.ops = append(ci.ops, opnd{r: -1})
					} else {
						ci.ops = append(ci.ops, mkop(*r))
					}
				}
			}
			cb.code = append(cb.code, ci)
			fi.nInstr++
		}
	}
	return fi
}

func (in *Interp) constVal(c *ssa.Const) Value {
	t := c.Type()
	if c.Value == nil {
		return in.zero(t)
	}
	u, ok := types.Unalias(t).Underlying().(*types.Basic)
	if !ok {
		// type parameter constants are instantiated already; fall through
		panic(unsupported("const of type " + t.String()))
	}
	switch {
	case u.Info()&types.IsBoolean != 0:
		return in.b.Bool(constant.BoolVal(c.Value))
	case u.Info()&types.IsString != 0:
		return &Str{s: constant.StringVal(c.Value)}
	case u.Info()&types.IsFloat != 0:
		f, _ := constant.Float64Val(constant.ToFloat(c.Value))
		if u.Kind() == types.Float32 {
			return in.b.Const(32, uint64(math.Float32bits(float32(f))))
		}
		return in.b.Const(64, math.Float64bits(f))
	case u.Info()&types.IsInteger != 0:
		w := bitsOf(u.Kind())
		v := constant.ToInt(c.Value)
		if i, ok := constant.Int64Val(v); ok {
			return in.b.Const(w, uint64(i))
		}
		x, _ := constant.Uint64Val(v)
		return in.b.Const(w, x)
	case u.Kind() == types.UnsafePointer:
		return unsafePtr{}
	case u.Info()&types.IsComplex != 0:
		v := constant.ToComplex(c.Value)
		re, _ := constant.Float64Val(constant.Real(v))
		im, _ := constant.Float64Val(constant.Imag(v))
		return Cplx(complex(re, im))
	}
	panic(unsupported("const kind " + t.String()))
}

// ---- calls ----

func (in *Interp) rtPanic(msg string) {
	panic(targetPanic{v: Iface{t: in.rtErrType, v: &Str{s: msg}}, where: in.where()})
}

func (in *Interp) where() string {
	if in.curFn != nil {
		return in.curFn.name
	}
	return "?"
}

// Call invokes a function value.
func (in *Interp) Call(fr *frame, fn Value, args []Value) Value {
	switch f := fn.(type) {
	case *ssa.Function:
		if f == nil {
			in.rtPanic("nil function call")
		}
		return in.callSSA(f, args, nil, fr)
	case *Closure:
		return in.callSSA(f.fn, args, f.free, fr)
	case *NativeFn:
		return f.fn(in, args)
	}
	panic(unsupported(fmt.Sprintf("call of %T", fn)))
}

func (in *Interp) callSSA(fn *ssa.Function, args []Value, free []Value, caller *frame) (result Value) {
	fi := in.info(fn)
	fi.calls++
	if fi.isInit && !in.forceInit {
		return nil // packages are initialised lazily, on first access to a global
	}
	in.forceInit = false
	if fi.intrinsic != nil {
		return fi.intrinsic(in, caller, args)
	}
	if fn.Blocks == nil {
		panic(unsupported("function without body: " + fi.name))
	}
	in.depth++
	if in.depth > in.maxDepth {
		in.depth = 0
		panic(pathEnd{"depth", "call depth limit in " + fi.name})
	}
	fr := &frame{fi: fi, regs: make([]Value, fi.nregs), caller: caller}
	copy(fr.regs, args)
	copy(fr.regs[len(fn.Params):], free)
	save := in.curFn
	in.curFn = fi
	d := in.depth
	if fi.hasDefer {
		in.runDeferFrame(fr)
		result = fr.result
	} else {
		in.run(fr, 0)
		result = fr.result
	}
	in.curFn = save
	in.depth = d - 1
	return result
}

func (in *Interp) runDeferFrame(fr *frame) {
	d := in.depth
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(targetPanic); !ok {
					panic(r)
				}
				fr.panicking = true
				fr.panicV = r
				in.depth = d
				in.curFn = fr.fi
			}
		}()
		in.run(fr, 0)
	}()
	if !fr.panicking {
		return // RunDefers executed explicitly
	}
	in.runDefers(fr)
	if fr.panicking {
		panic(fr.panicV)
	}
	// recovered
	if fr.fi.fn.Recover != nil {
		in.run(fr, fr.fi.fn.Recover.Index)
	} else {
		res := fr.fi.fn.Signature.Results()
		switch res.Len() {
		case 0:
			fr.result = nil
		case 1:
			fr.result = in.zero(res.At(0).Type())
		default:
			fr.result = in.zero(res)
		}
	}
}

func (in *Interp) runDefers(fr *frame) {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		dep := in.depth
		func() {
			defer func() {
				if r := recover(); r != nil {
					if _, ok := r.(targetPanic); !ok {
						panic(r)
					}
					fr.panicking = true
					fr.panicV = r
					in.depth = dep
				}
			}()
			if b, ok := d.fn.(*ssa.Builtin); ok {
				in.builtin(fr, b, d.args, d.call)
				return
			}
			in.Call(fr, d.fn, d.args)
		}()
	}
}

func (in *Interp) val(fr *frame, o *opnd) Value {
	if o.r >= 0 {
		return fr.regs[o.r]
	}
	return o.v
}

func (in *Interp) expr(v Value) *Expr {
	e, ok := v.(*Expr)
	if !ok {
		panic(unsupported(fmt.Sprintf("expected scalar, got %T in %s", v, in.where())))
	}
	return e
}

func (in *Interp) run(fr *frame, blk int) {
	fi := fr.fi
	prev := -1
	merged := false
	for {
		cb := &fi.blocks[blk]
		fi.cov[blk] = true
		if merged {
			merged = false
		} else if len(cb.phis) > 0 {
			pi := -1
			for i, p := range cb.preds {
				if p == prev {
					pi = i
					break
				}
			}
			if pi < 0 {
				panic(engineError("phi predecessor"))
			}
			if len(cb.phis) == 1 {
				fr.regs[cb.phis[0].dst] = in.val(fr, &cb.phis[0].ops[pi])
			} else {
				tmp := make([]Value, len(cb.phis))
				for i := range cb.phis {
					tmp[i] = in.val(fr, &cb.phis[i].ops[pi])
				}
				for i := range cb.phis {
					fr.regs[cb.phis[i].dst] = tmp[i]
				}
			}
		}
		next := -1
		for ci := range cb.code {
			c := &cb.code[ci]
			in.steps++
			if in.steps > in.maxSteps {
				panic(pathEnd{"steps", "step limit in " + fi.name})
			}
			switch x := c.in.(type) {
			case *ssa.If:
				cond := in.expr(in.val(fr, &c.ops[0]))
				if _, known := in.known(cond); !known && !in.inInit {
					if j, ok := in.specMerge(fr, blk, cond); ok {
						if j < 0 {
							return
						}
						next, merged = j, true
						break
					}
				}
				if in.branch(cond) {
					next = cb.succs[0]
				} else {
					next = cb.succs[1]
				}
			case *ssa.Jump:
				next = cb.succs[0]
			case *ssa.Return:
				switch len(c.ops) {
				case 0:
					fr.result = nil
				case 1:
					fr.result = in.val(fr, &c.ops[0])
				default:
					t := make(Tuple, len(c.ops))
					for i := range c.ops {
						t[i] = in.val(fr, &c.ops[i])
					}
					fr.result = t
				}
				return
			case *ssa.Panic:
				v := in.val(fr, &c.ops[0]).(Iface)
				panic(targetPanic{v: v, where: fi.name})
			case *ssa.RunDefers:
				in.runDefers(fr)
				if fr.panicking {
					panic(fr.panicV)
				}
			case *ssa.Defer:
				fn, args := in.prepCall(fr, &x.Call, c)
				fr.defers = append(fr.defers, deferred{fn: fn, args: args, call: &x.Call})
			case *ssa.Call:
				fn, args := in.prepCall(fr, &x.Call, c)
				if b, ok := fn.(*ssa.Builtin); ok {
					fr.regs[c.dst] = in.builtin(fr, b, args, &x.Call)
				} else {
					fr.regs[c.dst] = in.Call(fr, fn, args)
				}
			case *ssa.Store:
				in.storeAddr(in.val(fr, &c.ops[0]), in.val(fr, &c.ops[1]))
			case *ssa.MapUpdate:
				m := in.val(fr, &c.ops[0]).(*Map)
				if m == nil {
					in.rtPanic("assignment to entry in nil map")
				}
				in.mapSet(m, in.val(fr, &c.ops[1]), in.val(fr, &c.ops[2]), under(x.Map.Type()).(*types.Map).Key())
			case *ssa.Go, *ssa.Send, *ssa.Select:
				panic(unsupported(fmt.Sprintf("%T", x)))
			default:
				fr.regs[c.dst] = in.eval(fr, c)
			}
		}
		if next < 0 {
			panic(engineError("block without successor"))
		}
		prev, blk = blk, next
	}
}

func (in *Interp) prepCall(fr *frame, call *ssa.CallCommon, c *cinstr) (Value, []Value) {
	if call.IsInvoke() {
		recv, ok := in.val(fr, &c.ops[0]).(Iface)
		if !ok {
			panic(unsupported("invoke on non-interface"))
		}
		if recv.t == nil {
			in.rtPanic("invalid memory address or nil pointer dereference (nil interface method " + call.Method.Name() + ")")
		}
		switch rv := recv.v.(type) {
		case RType:
			name := call.Method.Name()
			return &NativeFn{name: "reflect.Type." + name, fn: func(in *Interp, a []Value) Value { return in.rtypeMethod(rv, name, a[1:]) }}, in.collect(fr, recv, c.ops[1:])
		case *NativeObj:
			f := rv.methods[call.Method.Name()]
			if f == nil {
				panic(unsupported("stub method " + call.Method.Name()))
			}
			return f, in.collect(fr, recv, c.ops[1:])
		}
		m := in.lookupMethod(recv.t, call.Method)
		args := make([]Value, 0, len(c.ops))
		args = append(args, copyVal(recv.v))
		for i := range c.ops[1:] {
			args = append(args, in.val(fr, &c.ops[1+i]))
		}
		return m, args
	}
	fn := in.val(fr, &c.ops[0])
	args := make([]Value, len(c.ops)-1)
	for i := range args {
		args[i] = in.val(fr, &c.ops[1+i])
	}
	return fn, args
}

func (in *Interp) collect(fr *frame, recv Value, ops []opnd) []Value {
	args := []Value{recv}
	for i := range ops {
		args = append(args, in.val(fr, &ops[i]))
	}
	return args
}

type NativeObj struct{ methods map[string]*NativeFn }

func (in *Interp) lookupMethod(t types.Type, m *types.Func) *ssa.Function {
	k := methKey{t, m.Id()}
	if f := in.methCache[k]; f != nil {
		return f
	}
	sel := in.prog.MethodSets.MethodSet(t).Lookup(m.Pkg(), m.Name())
	if sel == nil {
		panic(engineError(fmt.Sprintf("method %s not found on %s", m.Name(), t)))
	}
	f := in.prog.MethodValue(sel)
	if f == nil {
		panic(engineError("no method value " + m.FullName()))
	}
	in.methCache[k] = f
	return f
}

func (in *Interp) implements(t types.Type, it types.Type) bool {
	k := implKey{t, it}
	if v, ok := in.implCache[k]; ok {
		return v
	}
	v := types.Implements(t, it.Underlying().(*types.Interface))
	in.implCache[k] = v
	return v
}

// ---- loads and stores ----

func (in *Interp) load(addr Value) Value {
	switch p := addr.(type) {
	case *Value:
		if p == nil {
			in.rtPanic("invalid memory address or nil pointer dereference")
		}
		if in.par != nil {
			in.parRead(p)
		}
		return copyVal(*p)
	case *symPtr:
		return in.symLoad(p)
	case *globalObj:
		panic(unsupported("load of " + p.name))
	}
	panic(unsupported(fmt.Sprintf("load via %T", addr)))
}

type globalObj struct{ name string }

func (in *Interp) symLoad(p *symPtr) Value {
	n := len(p.elems)
	// balanced selection over the (already bounds-checked) index
	e0, ok := p.elems[0].(*Expr)
	if !ok {
		i := in.concretize(p.idx, 64)
		return copyVal(p.elems[i])
	}
	_ = e0
	elems := make([]*Expr, n)
	for i := range elems {
		elems[i] = in.expr(p.elems[i])
	}
	return in.b.Select(elems, p.idx)
}

func (in *Interp) storeAddr(addr Value, v Value) {
	switch p := addr.(type) {
	case *Value:
		if p == nil {
			in.rtPanic("invalid memory address or nil pointer dereference")
		}
		in.store(p, v)
	case *symPtr:
		ve, ok := v.(*Expr)
		if !ok {
			i := in.concretize(p.idx, 64)
			in.store(&p.elems[i], v)
			return
		}
		for i := range p.elems {
			old := in.expr(p.elems[i])
			in.setCell(&p.elems[i], in.b.Ite(in.b.Eq(p.idx, in.b.Const(p.idx.w, uint64(i))), ve, old))
		}
	default:
		panic(unsupported(fmt.Sprintf("store via %T", addr)))
	}
}

// ---- expression instructions ----

func (in *Interp) eval(fr *frame, c *cinstr) Value {
	switch x := c.in.(type) {
	case *ssa.Alloc:
		return newCell(in.zero(x.Type().Underlying().(*types.Pointer).Elem()))
	case *ssa.UnOp:
		return in.unop(fr, x, in.val(fr, &c.ops[0]))
	case *ssa.BinOp:
		return in.binop(x.Op, x.X.Type(), in.val(fr, &c.ops[0]), in.val(fr, &c.ops[1]), x.Y.Type())
	case *ssa.ChangeType:
		return in.val(fr, &c.ops[0])
	case *ssa.ChangeInterface:
		return in.val(fr, &c.ops[0])
	case *ssa.Convert:
		return in.convert(x.X.Type(), x.Type(), in.val(fr, &c.ops[0]))
	case *ssa.MultiConvert:
		return in.convert(x.X.Type(), x.Type(), in.val(fr, &c.ops[0]))
	case *ssa.SliceToArrayPointer:
		s := in.val(fr, &c.ops[0]).([]Value)
		at := x.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		if int64(len(s)) < at.Len() {
			in.rtPanic("cannot convert slice to array pointer")
		}
		if s == nil {
			return (*Value)(nil)
		}
		var v Value = Array(s[:at.Len():at.Len()])
		return &v
	case *ssa.MakeInterface:
		v := in.val(fr, &c.ops[0])
		return Iface{t: x.X.Type(), v: v}
	case *ssa.Extract:
		return in.val(fr, &c.ops[0]).(Tuple)[x.Index]
	case *ssa.Slice:
		return in.slice(fr, x, c)
	case *ssa.MakeSlice:
		l := in.expr(in.val(fr, &c.ops[0]))
		cp := in.expr(in.val(fr, &c.ops[1]))
		return in.makeSlice(under(x.Type()).(*types.Slice).Elem(), l, cp, isSigned(x.Len.Type()))
	case *ssa.MakeMap:
		if c.ops != nil && len(c.ops) > 0 && c.ops[0].v != nil || (len(c.ops) > 0 && c.ops[0].r >= 0) {
			n := in.expr(in.val(fr, &c.ops[0]))
			in.checkAlloc(in.b.Resize(n, 64, true), 16, "make(map)")
		}
		return in.newMap()
	case *ssa.MakeChan:
		return &Chan{}
	case *ssa.MakeClosure:
		cl := &Closure{fn: x.Fn.(*ssa.Function), free: make([]Value, len(c.ops))}
		for i := range c.ops {
			cl.free[i] = in.val(fr, &c.ops[i])
		}
		return cl
	case *ssa.FieldAddr:
		switch p := in.val(fr, &c.ops[0]).(type) {
		case *Value:
			if p == nil {
				in.rtPanic("invalid memory address or nil pointer dereference")
			}
			s, ok := (*p).(Struct)
			if !ok {
				panic(unsupported(fmt.Sprintf("field address of %T (%s) in %s", *p, x.X.Type(), fr.fi.name)))
			}
			return &s[x.Field]
		case *symPtr:
			i := in.concretize(p.idx, 64)
			return &p.elems[i].(Struct)[x.Field]
		default:
			panic(unsupported(fmt.Sprintf("field address via %T", p)))
		}
	case *ssa.Field:
		s, ok := in.val(fr, &c.ops[0]).(Struct)
		if !ok {
			panic(unsupported(fmt.Sprintf("field of %T in %s", in.val(fr, &c.ops[0]), fr.fi.name)))
		}
		return s[x.Field]
	case *ssa.IndexAddr:
		return in.indexAddr(in.val(fr, &c.ops[0]), in.expr(in.val(fr, &c.ops[1])), isSigned(x.Index.Type()))
	case *ssa.Index:
		return in.index(in.val(fr, &c.ops[0]), in.expr(in.val(fr, &c.ops[1])), isSigned(x.Index.Type()))
	case *ssa.Lookup:
		cont := in.val(fr, &c.ops[0])
		if s, ok := cont.(*Str); ok {
			return in.index(s, in.expr(in.val(fr, &c.ops[1])), isSigned(x.Index.Type()))
		}
		m := cont.(*Map)
		mt := under(x.X.Type()).(*types.Map)
		v, ok := in.mapGet(m, in.val(fr, &c.ops[1]), mt.Key())
		if !ok {
			v = in.zero(mt.Elem())
		} else {
			v = copyVal(v)
		}
		if x.CommaOk {
			return Tuple{v, in.b.Bool(ok)}
		}
		return v
	case *ssa.TypeAssert:
		return in.typeAssert(x, in.val(fr, &c.ops[0]).(Iface))
	case *ssa.Range:
		switch v := in.val(fr, &c.ops[0]).(type) {
		case *Str:
			return &strIter{s: v}
		case *Map:
			return &mapIter{ents: in.mapOrderList(v)}
		}
		panic(unsupported("range"))
	case *ssa.Next:
		switch it := in.val(fr, &c.ops[0]).(type) {
		case *strIter:
			return in.strNext(it)
		case *mapIter:
			for it.i < len(it.ents) && it.ents[it.i].dead {
				it.i++
			}
			if it.i >= len(it.ents) {
				tt := x.Type().(*types.Tuple)
				var k, v Value
				if kt := tt.At(1).Type(); kt != nil && !isInvalid(kt) {
					k = in.zero(kt)
				}
				if vt := tt.At(2).Type(); vt != nil && !isInvalid(vt) {
					v = in.zero(vt)
				}
				return Tuple{in.b.False, k, v}
			}
			e := it.ents[it.i]
			it.i++
			return Tuple{in.b.True, copyVal(e.k), copyVal(e.v)}
		}
		panic(unsupported("next"))
	}
	panic(unsupported(fmt.Sprintf("instruction %T", c.in)))
}

func isInvalid(t types.Type) bool {
	b, ok := t.(*types.Basic)
	return ok && b.Kind() == types.Invalid
}

type strIter struct {
	s   *Str
	pos int
}
type mapIter struct {
	ents []*mapEntry
	i    int
}

func (in *Interp) strNext(it *strIter) Value {
	if it.pos >= it.s.Len() {
		return Tuple{in.b.False, in.b.Const(64, 0), in.b.Const(32, 0)}
	}
	start := it.pos
	if s, ok := it.s.concrete(); ok {
		for i, r := range s[it.pos:] {
			_ = i
			n := len(string(r))
			if r == 0xFFFD {
				// could be an invalid byte (width 1) or a real U+FFFD
				n = 1
				if strings.HasPrefix(s[it.pos:], "\uFFFD") {
					n = 3
				}
			}
			it.pos += n
			return Tuple{in.b.True, in.b.Const(64, uint64(start)), in.b.Const(32, uint64(uint32(r)))}
		}
	}
	bs := in.strBytes(it.s)
	if bs[it.pos].IsConst() && bs[it.pos].val < 0x80 {
		it.pos++
		return Tuple{in.b.True, in.b.Const(64, uint64(start)), in.b.Zext(bs[start], 32)}
	}
	if in.branch(in.b.Ult(bs[it.pos], in.b.Const(8, 0x80))) {
		it.pos++
		return Tuple{in.b.True, in.b.Const(64, uint64(start)), in.b.Zext(bs[start], 32)}
	}
	f := in.pkgByPath["unicode/utf8"].Func("DecodeRuneInString")
	r := in.callSSA(f, []Value{in.mkStr(bs[it.pos:])}, nil, nil).(Tuple)
	n := in.concretize(in.expr(r[1]), 5)
	it.pos += int(n)
	return Tuple{in.b.True, in.b.Const(64, uint64(start)), r[0]}
}

func (in *Interp) unop(fr *frame, x *ssa.UnOp, v Value) Value {
	switch x.Op {
	case token.MUL:
		r := in.load(v)
		return r
	case token.NOT:
		return in.b.Not(in.expr(v))
	case token.SUB:
		e := in.expr(v)
		if isFloat(x.X.Type()) {
			return in.b.XorBV(e, in.b.Const(e.w, uint64(1)<<uint(e.w-1)))
		}
		return in.b.Neg(e)
	case token.XOR:
		return in.b.BNotBV(in.expr(v))
	}
	panic(unsupported("unop " + x.Op.String()))
}

func (in *Interp) binop(op token.Token, t types.Type, x, y Value, yt types.Type) Value {
	b := in.b
	switch op {
	case token.EQL:
		return in.eq(t, x, y)
	case token.NEQ:
		return b.Not(in.eq(t, x, y))
	}
	if isString(t) {
		xs, ys := x.(*Str), y.(*Str)
		switch op {
		case token.ADD:
			return in.concat(xs, ys)
		case token.LSS:
			return in.strLess(xs, ys)
		case token.GTR:
			return in.strLess(ys, xs)
		case token.LEQ:
			return b.Not(in.strLess(ys, xs))
		case token.GEQ:
			return b.Not(in.strLess(xs, ys))
		}
	}
	xe, ye := in.expr(x), in.expr(y)
	if isFloat(t) {
		switch op {
		case token.LSS:
			return b.FCmp(OFLt, xe, ye)
		case token.GTR:
			return b.FCmp(OFLt, ye, xe)
		case token.LEQ:
			return b.FCmp(OFLe, xe, ye)
		case token.GEQ:
			return b.FCmp(OFLe, ye, xe)
		}
		if xe.IsConst() && ye.IsConst() {
			if xe.w == 64 {
				p, q := f64of(xe.val), f64of(ye.val)
				var r float64
				switch op {
				case token.ADD:
					r = p + q
				case token.SUB:
					r = p - q
				case token.MUL:
					r = p * q
				case token.QUO:
					r = p / q
				}
				return b.Const(64, math.Float64bits(r))
			}
			p, q := f32of(xe.val), f32of(ye.val)
			var r float32
			switch op {
			case token.ADD:
				r = p + q
			case token.SUB:
				r = p - q
			case token.MUL:
				r = p * q
			case token.QUO:
				r = p / q
			}
			return b.Const(32, uint64(math.Float32bits(r)))
		}
		panic(unsupported("symbolic float arithmetic"))
	}
	signed := isSigned(t)
	switch op {
	case token.ADD:
		return b.Add(xe, ye)
	case token.SUB:
		return b.Sub(xe, ye)
	case token.MUL:
		return b.Mul(xe, ye)
	case token.QUO, token.REM:
		if in.branch(b.Eq(ye, b.Const(ye.w, 0))) {
			in.rtPanic("integer divide by zero")
		}
		switch {
		case op == token.QUO && signed:
			return b.SDiv(xe, ye)
		case op == token.QUO:
			return b.UDiv(xe, ye)
		case signed:
			return b.SRem(xe, ye)
		default:
			return b.URem(xe, ye)
		}
	case token.AND:
		if xe.w == 0 {
			return b.And(xe, ye)
		}
		return b.AndBV(xe, ye)
	case token.OR:
		if xe.w == 0 {
			return b.Or(xe, ye)
		}
		return b.OrBV(xe, ye)
	case token.XOR:
		return b.XorBV(xe, ye)
	case token.AND_NOT:
		return b.AndBV(xe, b.BNotBV(ye))
	case token.SHL, token.SHR:
		if isSigned(yt) {
			if in.branch(b.Slt(ye, b.Const(ye.w, 0))) {
				in.rtPanic("negative shift amount")
			}
		}
		// normalise the shift amount to the width of x, saturating
		var sh *Expr
		if ye.w > xe.w {
			big := b.Not(b.Ult(ye, b.Const(ye.w, uint64(xe.w))))
			sh = b.Ite(big, b.Const(xe.w, satShift(xe.w)), b.Extract(ye, xe.w-1, 0))
		} else {
			sh = b.Zext(ye, xe.w)
		}
		if op == token.SHL {
			return b.Shl(xe, sh)
		}
		if signed {
			return b.Ashr(xe, sh)
		}
		return b.Lshr(xe, sh)
	case token.LSS:
		if signed {
			return b.Slt(xe, ye)
		}
		return b.Ult(xe, ye)
	case token.GTR:
		if signed {
			return b.Slt(ye, xe)
		}
		return b.Ult(ye, xe)
	case token.LEQ:
		if signed {
			return b.Sle(xe, ye)
		}
		return b.Ule(xe, ye)
	case token.GEQ:
		if signed {
			return b.Sle(ye, xe)
		}
		return b.Ule(ye, xe)
	}
	panic(unsupported("binop " + op.String()))
}

func satShift(w int) uint64 {
	if w >= 8 {
		return uint64(w)
	}
	return mask(w)
}

func (in *Interp) concat(x, y *Str) *Str {
	if x.Len() == 0 && !x.opaque {
		return y
	}
	if y.Len() == 0 && !y.opaque {
		return x
	}
	if x.opaque || y.opaque {
		return &Str{opaque: true, s: "?", thunk: func() *Str {
			in.force(x)
			in.force(y)
			if x.opaque || y.opaque {
				return &Str{opaque: true, s: "?"}
			}
			return in.concat(x, y)
		}}
	}
	if x.b == nil && y.b == nil {
		return &Str{s: x.s + y.s}
	}
	bs := append(append([]*Expr(nil), in.strBytes(x)...), in.strBytes(y)...)
	return &Str{b: bs}
}

func (in *Interp) strLess(x, y *Str) *Expr {
	if x.b == nil && y.b == nil && !x.opaque && !y.opaque {
		return in.b.Bool(x.s < y.s)
	}
	xb, yb := in.strBytes(x), in.strBytes(y)
	n := len(xb)
	if len(yb) < n {
		n = len(yb)
	}
	res := in.b.Bool(len(xb) < len(yb))
	for i := n - 1; i >= 0; i-- {
		res = in.b.Or(in.b.Ult(xb[i], yb[i]), in.b.And(in.b.Eq(xb[i], yb[i]), res))
	}
	return res
}

// eq builds the equality of two values of static type t.
func (in *Interp) eq(t types.Type, x, y Value) *Expr {
	b := in.b
	switch a := x.(type) {
	case *Expr:
		c := in.expr(y)
		if isFloat(t) {
			return b.FCmp(OFEq, a, c)
		}
		return b.Eq(a, c)
	case *Str:
		c := y.(*Str)
		in.force(a)
		in.force(c)
		if a.b == nil && c.b == nil && !a.opaque && !c.opaque {
			return b.Bool(a.s == c.s)
		}
		if !a.opaque && !c.opaque && a.Len() != c.Len() {
			return b.False
		}
		p, q := in.strBytes(a), in.strBytes(c)
		parts := make([]*Expr, len(p))
		for i := range p {
			parts[i] = b.Eq(p[i], q[i])
		}
		return b.And(parts...)
	case *Value:
		if c, ok := y.(*Value); ok {
			return b.Bool(a == c)
		}
		return b.False
	case []Value:
		c, _ := y.([]Value)
		if a != nil && c != nil {
			panic(unsupported("slice comparison"))
		}
		return b.Bool(a == nil && c == nil)
	case *Map:
		c, _ := y.(*Map)
		return b.Bool(a == c)
	case Iface:
		c, ok := y.(Iface)
		if !ok {
			// comparison of interface with concrete
			panic(unsupported("iface vs concrete compare"))
		}
		if a.t == nil || c.t == nil {
			return b.Bool(a.t == nil && c.t == nil)
		}
		if !types.Identical(a.t, c.t) {
			return b.False
		}
		if !types.Comparable(a.t) {
			in.rtPanic("comparing uncomparable type " + a.t.String())
		}
		return in.eq(a.t, a.v, c.v)
	case RType:
		c, ok := y.(RType)
		return b.Bool(ok && types.Identical(a.t, c.t))
	case Struct:
		c := y.(Struct)
		st := under(t).(*types.Struct)
		var parts []*Expr
		for i := range a {
			if st.Field(i).Name() == "_" {
				continue
			}
			parts = append(parts, in.eq(st.Field(i).Type(), a[i], c[i]))
		}
		return b.And(parts...)
	case Array:
		c := y.(Array)
		et := under(t).(*types.Array).Elem()
		parts := make([]*Expr, len(a))
		for i := range a {
			parts[i] = in.eq(et, a[i], c[i])
		}
		return b.And(parts...)
	case *ssa.Function:
		switch c := y.(type) {
		case *ssa.Function:
			return b.Bool(a == c)
		}
		return b.False
	case *Closure:
		if c, ok := y.(*Closure); ok {
			return b.Bool(a == c)
		}
		return b.False
	case *NativeFn:
		c, ok := y.(*NativeFn)
		return b.Bool(ok && c == a)
	case unsafePtr:
		c, ok := y.(unsafePtr)
		return b.Bool(ok && a.p == c.p)
	case RV:
		c, ok := y.(RV)
		return b.Bool(ok && a.same(c))
	case *NativeObj:
		return b.Bool(Value(a) == y)
	case nil:
		return b.Bool(y == nil)
	}
	panic(unsupported(fmt.Sprintf("eq of %T", x)))
}

func (in *Interp) typeAssert(x *ssa.TypeAssert, v Iface) Value {
	ok := false
	var res Value
	if v.t != nil {
		if it, isI := x.AssertedType.Underlying().(*types.Interface); isI {
			if _, isObj := v.v.(*NativeObj); isObj {
				ok = it.NumMethods() == 0
			} else {
				ok = in.implements(v.t, x.AssertedType)
			}
			res = v
		} else {
			ok = types.Identical(v.t, x.AssertedType)
			res = v.v
		}
	}
	if !ok {
		if x.CommaOk {
			return Tuple{in.zero(x.AssertedType), in.b.False}
		}
		msg := "interface conversion: interface is "
		if v.t == nil {
			msg += "nil"
		} else {
			msg += v.t.String()
		}
		in.rtPanic(msg + ", not " + x.AssertedType.String())
	}
	if x.CommaOk {
		return Tuple{copyVal(res), in.b.True}
	}
	return copyVal(res)
}

// ---- indexing and slicing ----

// boundsIdx checks 0 <= idx < n (panicking path forked) and returns idx as 64 bit.
func (in *Interp) boundsIdx(idx *Expr, signed bool, n int) *Expr {
	e := in.b.Resize(idx, 64, signed)
	if e.IsConst() {
		if int64(e.val) < 0 || int64(e.val) >= int64(n) {
			in.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", int64(e.val), n))
		}
		return e
	}
	if !in.branch(in.b.Ult(e, in.b.Const(64, uint64(n)))) {
		in.rtPanic(fmt.Sprintf("index out of range with length %d", n))
	}
	return e
}

func (in *Interp) indexAddr(base Value, idx *Expr, signed bool) Value {
	var elems []Value
	switch x := base.(type) {
	case []Value:
		elems = x
	case *Value:
		if x == nil {
			in.rtPanic("invalid memory address or nil pointer dereference")
		}
		elems = (*x).(Array)
	default:
		panic(unsupported(fmt.Sprintf("index address of %T", base)))
	}
	e := in.boundsIdx(idx, signed, len(elems))
	if e.IsConst() {
		return &elems[e.val]
	}
	if len(elems) == 1 {
		return &elems[0]
	}
	if len(elems) > 1024 {
		return &elems[in.concretize(e, 64)]
	}
	return &symPtr{elems: elems, idx: e}
}

func (in *Interp) index(base Value, idx *Expr, signed bool) Value {
	switch x := base.(type) {
	case *Str:
		in.force(x)
		e := in.boundsIdx(idx, signed, x.Len())
		if e.IsConst() && x.b == nil && !x.opaque {
			return in.b.c8[x.s[e.val]]
		}
		bs := in.strBytes(x)
		if e.IsConst() {
			return bs[e.val]
		}
		vs := make([]Value, len(bs))
		for i := range bs {
			vs[i] = bs[i]
		}
		return in.symLoad(&symPtr{elems: vs, idx: e})
	case Array:
		e := in.boundsIdx(idx, signed, len(x))
		if e.IsConst() {
			return x[e.val]
		}
		return in.symLoad(&symPtr{elems: x, idx: e})
	}
	panic(unsupported(fmt.Sprintf("index of %T", base)))
}

func (in *Interp) slice(fr *frame, x *ssa.Slice, c *cinstr) Value {
	base := in.val(fr, &c.ops[0])
	get := func(i int, v ssa.Value) *Expr {
		if v == nil {
			return nil
		}
		return in.b.Resize(in.expr(in.val(fr, &c.ops[i])), 64, isSigned(v.Type()))
	}
	lo, hi, max := get(1, x.Low), get(2, x.High), get(3, x.Max)
	return in.sliceOp(base, lo, hi, max)
}

func (in *Interp) sliceOp(base Value, lo, hi, max *Expr) Value {
	var elems []Value
	isNil := false
	switch b := base.(type) {
	case *Str:
		in.force(b)
		l, h := in.sliceBounds(lo, hi, nil, b.Len(), b.Len())
		if b.opaque {
			panic(unsupported("slicing a formatted string"))
		}
		if b.b == nil {
			return &Str{s: b.s[l:h]}
		}
		return in.mkStr(b.b[l:h])
	case []Value:
		elems = b
		isNil = b == nil
	case *Value:
		if b == nil {
			in.rtPanic("invalid memory address or nil pointer dereference")
		}
		elems = (*b).(Array)
	default:
		panic(unsupported(fmt.Sprintf("slice of %T", base)))
	}
	l, h := in.sliceBounds(lo, hi, max, len(elems), cap(elems))
	if isNil {
		return []Value(nil)
	}
	if max != nil {
		return elems[l:h:int(in.concretize(max, 4096))]
	}
	return elems[l:h]
}

func (in *Interp) sliceBounds(lo, hi, max *Expr, ln, cp int) (int, int) {
	b := in.b
	if lo == nil {
		lo = b.Const(64, 0)
	}
	if hi == nil {
		hi = b.Const(64, uint64(ln))
	}
	lim := b.Const(64, uint64(cp))
	if max != nil {
		if !in.branch(b.Ule(max, lim)) {
			in.rtPanic(fmt.Sprintf("slice bounds out of range (capacity %d)", cp))
		}
		lim = max
	}
	if !in.branch(b.Ule(hi, lim)) {
		in.rtPanic(fmt.Sprintf("slice bounds out of range [:x] with capacity %d", cp))
	}
	if !in.branch(b.Ule(lo, hi)) {
		in.rtPanic("slice bounds out of range [x:y]")
	}
	return int(in.concretize(lo, 4096)), int(in.concretize(hi, 4096))
}

func (in *Interp) sizeofType(t types.Type) int64 {
	return in.sizes().Sizeof(t)
}

var stdSizes = types.SizesFor("gc", "amd64")

func (in *Interp) sizes() types.Sizes { return stdSizes }

// charge counts memory against the armed total.
func (in *Interp) charge(n int64) {
	if in.totalLimit > 0 {
		in.spent += n
		if in.spent > in.totalLimit {
			in.totalLimit = 0
			in.allocAssert(in.b.False, "more in total than the input accounts for")
		}
	}
}

// checkAlloc enforces the armed allocation limit and Go's own range rule.
func (in *Interp) checkAlloc(n *Expr, elemSize int64, what string) {
	if in.allocLimit > 0 {
		lim := in.allocLimit
		if elemSize > 0 {
			lim = in.allocLimit / elemSize
		}
		in.allocAssert(in.b.Or(in.b.Slt(n, in.b.Const(64, 0)), in.b.Sle(n, in.b.Const(64, uint64(lim)))), what)
	}
}

func (in *Interp) makeSlice(et types.Type, l, cp *Expr, signed bool) Value {
	b := in.b
	l = b.Resize(l, 64, signed)
	cp = b.Resize(cp, 64, signed)
	esz := in.sizeofType(et)
	if l.IsConst() && cp.IsConst() && in.allocLimit == 0 {
		if int64(l.val) < 0 || int64(cp.val) < int64(l.val) || int64(l.val) > 1<<47 {
			in.rtPanic("makeslice: len out of range")
		}
	} else {
		if in.branch(b.Slt(l, b.Const(64, 0))) {
			in.rtPanic("makeslice: len out of range")
		}
		if in.branch(b.Slt(cp, l)) {
			in.rtPanic("makeslice: cap out of range")
		}
		in.checkAlloc(cp, esz, "makeslice")
		maxn := uint64(1) << 47
		if esz > 0 {
			maxn /= uint64(esz)
		}
		if in.branch(b.Ult(b.Const(64, maxn), cp)) {
			in.rtPanic("makeslice: len out of range")
		}
	}
	if !cp.IsConst() {
		// explore sizes that fit the engine; larger ones are outside the bound
		if !in.branch(b.Ule(cp, b.Const(64, 4096))) {
			panic(pathEnd{"alloc", "symbolic allocation above 4096 elements"})
		}
	}
	ln := int(in.concretize(l, 4200))
	c := int(in.concretize(cp, 4200))
	if c > 1<<21 {
		panic(pathEnd{"alloc", fmt.Sprintf("allocation of %d elements", c)})
	}
	in.charge(int64(c) * esz)
	s := make([]Value, c)
	z := in.zero(et)
	for i := range s {
		s[i] = copyVal(z)
	}
	return s[:ln]
}

// ---- conversions ----

func (in *Interp) convert(from, to types.Type, v Value) Value {
	b := in.b
	uf, ut := types.Unalias(from).Underlying(), types.Unalias(to).Underlying()
	if tb, ok := ut.(*types.Basic); ok && tb.Kind() == types.UnsafePointer {
		if u, ok := v.(unsafePtr); ok {
			return u
		}
		if e, ok := v.(*Expr); ok {
			if e.IsConst() && e.val == 0 {
				return unsafePtr{}
			}
			panic(unsupported("uintptr to unsafe.Pointer"))
		}
		return unsafePtr{p: v, t: from}
	}
	if u, ok := v.(unsafePtr); ok {
		if _, isP := ut.(*types.Pointer); isP {
			if u.p == nil {
				return (*Value)(nil)
			}
			if u.t != nil && types.Identical(under(u.t), ut) {
				return u.p
			}
			return in.castPtr(u, ut.(*types.Pointer))
		}
		panic(unsupported("unsafe.Pointer conversion to " + to.String()))
	}
	switch tu := ut.(type) {
	case *types.Basic:
		switch {
		case tu.Info()&types.IsString != 0:
			switch x := v.(type) {
			case *Str:
				return x
			case []Value:
				et := under(from).(*types.Slice).Elem()
				if widthOf(et) == 8 {
					in.charge(int64(len(x)))
					bs := make([]*Expr, len(x))
					for i := range x {
						bs[i] = in.expr(x[i])
					}
					return in.mkStr(bs)
				}
				// []rune
				var out []*Expr
				for _, r := range x {
					out = append(out, in.encodeRune(in.expr(r))...)
				}
				return in.mkStr(out)
			case *Expr:
				e := x
				if isSigned(from) {
					e = b.Resize(x, 64, true)
				} else {
					e = b.Resize(x, 64, false)
				}
				// values outside rune range become U+FFFD
				if e.IsConst() {
					r := rune(0xFFFD)
					if int64(e.val) >= 0 && e.val <= 0x10FFFF {
						r = rune(e.val)
					}
					return &Str{s: string(r)}
				}
				if !in.branch(b.Ule(e, b.Const(64, 0x10FFFF))) {
					return &Str{s: "\uFFFD"}
				}
				return in.mkStr(in.encodeRune(b.Extract(e, 31, 0)))
			}
		case tu.Info()&types.IsBoolean != 0:
			return v
		case tu.Info()&types.IsInteger != 0:
			e := in.expr(v)
			w := bitsOf(tu.Kind())
			if isFloat(from) {
				if e.IsConst() {
					f := f64of(e.val)
					if e.w == 32 {
						f = float64(f32of(e.val))
					}
					if tu.Info()&types.IsUnsigned != 0 {
						return b.Const(w, uint64(f))
					}
					return b.Const(w, uint64(int64(f)))
				}
				panic(unsupported("symbolic float to int"))
			}
			return b.Resize(e, w, isSigned(from))
		case tu.Info()&types.IsFloat != 0:
			e := in.expr(v)
			w := bitsOf(tu.Kind())
			if isFloat(from) {
				return b.FCvt(e, w)
			}
			if e.IsConst() {
				var f float64
				if isSigned(from) {
					f = float64(sext64(e.val, e.w))
				} else {
					f = float64(e.val)
				}
				if w == 32 {
					if isSigned(from) {
						return b.Const(32, uint64(math.Float32bits(float32(sext64(e.val, e.w)))))
					}
					return b.Const(32, uint64(math.Float32bits(float32(e.val))))
				}
				return b.Const(64, math.Float64bits(f))
			}
			panic(unsupported("symbolic int to float"))
		}
	case *types.Slice:
		if s, ok := v.(*Str); ok {
			if widthOf(tu.Elem()) == 8 {
				bs := in.strBytes(s)
				out := make([]Value, len(bs))
				for i := range bs {
					out[i] = bs[i]
				}
				return out
			}
			out := []Value{}
			it := &strIter{s: s}
			for {
				t := in.strNext(it).(Tuple)
				if in.expr(t[0]).IsFalse() {
					break
				}
				out = append(out, t[2])
			}
			return out
		}
		return v
	case *types.Array:
		if s, ok := v.([]Value); ok { // slice to array
			if int64(len(s)) < tu.Len() {
				in.rtPanic("cannot convert slice to array")
			}
			return copyVal(Array(s[:tu.Len()]))
		}
		return v
	}
	_ = uf
	return v
}

// castPtr handles the few unsafe pointer reinterpretations found in practice.
func (in *Interp) castPtr(u unsafePtr, to *types.Pointer) Value {
	p, ok := u.p.(*Value)
	if !ok || p == nil {
		panic(unsupported("unsafe pointer cast to " + to.String()))
	}
	switch x := (*p).(type) {
	case []Value:
		if isString(to.Elem()) {
			bs := make([]*Expr, len(x))
			for i := range x {
				bs[i] = in.expr(x[i])
			}
			return newCell(in.mkStr(bs))
		}
	case *Str:
		if sl, ok := under(to.Elem()).(*types.Slice); ok && widthOf(sl.Elem()) == 8 {
			return newCell(in.convert(types.Typ[types.String], sl, x))
		}
	case *Expr:
		if bt, ok := under(to.Elem()).(*types.Basic); ok && bitsOf(bt.Kind()) == x.w && x.w > 0 {
			return p
		}
	}
	if u.t != nil {
		if pt, ok := under(u.t).(*types.Pointer); ok && types.Identical(under(pt.Elem()), under(to.Elem())) {
			return p
		}
	}
	panic(unsupported(fmt.Sprintf("unsafe cast to %s", to)))
}

func (in *Interp) encodeRune(r *Expr) []*Expr {
	if r.IsConst() {
		s := string(rune(int32(r.val)))
		out := make([]*Expr, len(s))
		for i := 0; i < len(s); i++ {
			out[i] = in.b.c8[s[i]]
		}
		return out
	}
	b := in.b
	c := func(v uint64) *Expr { return b.Const(32, v) }
	if in.branch(b.Ult(r, c(0x80))) {
		return []*Expr{b.Extract(r, 7, 0)}
	}
	six := func(lo int) *Expr { return b.Concat(b.Const(2, 2), b.Extract(r, lo+5, lo)) }
	if in.branch(b.Ult(r, c(0x800))) {
		return []*Expr{b.Concat(b.Const(3, 6), b.Extract(r, 10, 6)), six(0)}
	}
	bad := b.Or(b.Ult(c(0x10FFFF), r), b.And(b.Ule(c(0xD800), r), b.Ule(r, c(0xDFFF))))
	if in.branch(bad) {
		return []*Expr{b.c8[0xEF], b.c8[0xBF], b.c8[0xBD]}
	}
	if in.branch(b.Ult(r, c(0x10000))) {
		return []*Expr{b.Concat(b.Const(4, 14), b.Extract(r, 15, 12)), six(6), six(0)}
	}
	return []*Expr{b.Concat(b.Const(5, 30), b.Extract(r, 20, 18)), six(12), six(6), six(0)}
}
