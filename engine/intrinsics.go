package main

import (
	"bytes"
	"crypto/sha256"
	"encoding/json"
	"fmt"
	"go/types"
	"math"
	"math/big"
	"reflect"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type intrinsic func(in *Interp, fr *frame, args []Value) Value

func fnPkgPath(fn *ssa.Function) string {
	if fn.Pkg != nil {
		return fn.Pkg.Pkg.Path()
	}
	if o := fn.Object(); o != nil && o.Pkg() != nil {
		return o.Pkg().Path()
	}
	if o := fn.Origin(); o != nil && o != fn {
		return fnPkgPath(o)
	}
	for p := fn.Parent(); p != nil; p = p.Parent() {
		if p.Pkg != nil {
			return p.Pkg.Pkg.Path()
		}
	}
	return ""
}

func recvTypeName(fn *ssa.Function) string {
	r := fn.Signature.Recv()
	if r == nil {
		return ""
	}
	t := types.Unalias(r.Type())
	if p, ok := t.(*types.Pointer); ok {
		t = types.Unalias(p.Elem())
	}
	if n, ok := t.(*types.Named); ok {
		return n.Obj().Name()
	}
	return ""
}

func isSynthWrapper(fn *ssa.Function) bool {
	return fn.Synthetic != "" && !strings.HasPrefix(fn.Synthetic, "instance of")
}

func (in *Interp) zeroResults(fn *ssa.Function) Value {
	res := fn.Signature.Results()
	switch res.Len() {
	case 0:
		return nil
	case 1:
		return in.zero(res.At(0).Type())
	}
	return in.zero(res)
}

func (in *Interp) findIntrinsic(fn *ssa.Function) func(*Interp, *frame, []Value) Value {
	pkg := fnPkgPath(fn)
	name := fn.Name()
	recv := recvTypeName(fn)
	if strings.HasPrefix(pkg, "go.uber.org/") || strings.HasPrefix(pkg, "github.com/streamingfast/") {
		if name == "PackageLogger" {
			return stubPackageLogger
		}
		if isSynthWrapper(fn) && recv == "" && name != "init" {
			return nil
		}
		return func(in *Interp, fr *frame, args []Value) Value {
			// logging: arguments are evaluated by the caller, the call has no effect
			if fn.Signature.Results().Len() == 1 {
				if _, ok := under(fn.Signature.Results().At(0).Type()).(*types.Pointer); ok {
					return newCell(in.zero(under(fn.Signature.Results().At(0).Type()).(*types.Pointer).Elem()))
				}
			}
			return in.zeroResults(fn)
		}
	}
	if isSynthWrapper(fn) && fn.Blocks != nil && name != "init" {
		// promoted-method wrappers, thunks and bound methods are interpreted
		if pkg != "reflect" {
			return nil
		}
	}
	if pkg == in.symPath {
		if f := symIntrinsics[name]; f != nil && recv == "" {
			return f
		}
		return nil
	}
	switch pkg {
	case "reflect":
		switch recv {
		case "Value":
			return func(in *Interp, fr *frame, args []Value) Value {
				return in.rvMethod(args[0].(RV), name, args[1:])
			}
		case "MapIter":
			return func(in *Interp, fr *frame, args []Value) Value {
				p := args[0].(*Value)
				return in.rvMapIterMethod((*p).(*rvMapIter), name, args[1:])
			}
		case "StructTag":
			return func(in *Interp, fr *frame, args []Value) Value {
				t, ok1 := args[0].(*Str).concrete()
				k, ok2 := args[1].(*Str).concrete()
				if !ok1 || !ok2 {
					panic(unsupported("symbolic struct tag"))
				}
				v, ok := reflect.StructTag(t).Lookup(k)
				if name == "Get" {
					return in.str(v)
				}
				return Tuple{in.str(v), in.b.Bool(ok)}
			}
		case "Kind":
			return func(in *Interp, fr *frame, args []Value) Value {
				return in.str(reflect.Kind(in.concretize(in.expr(args[0]), 64)).String())
			}
		case "StructField", "ValueError", "ChanDir", "Method":
			return nil
		}
		if recv == "" {
			if fn.Parent() != nil || name == "init" {
				return nil
			}
			if o := fn.Origin(); o != nil && o.Name() == "TypeFor" {
				return func(in *Interp, fr *frame, args []Value) Value { return in.mkType(fn.TypeArgs()[0]) }
			}
			return func(in *Interp, fr *frame, args []Value) Value { return in.reflectFunc(name, args) }
		}
		return nil
	case "internal/reflectlite":
		if recv == "" && name != "init" {
			return func(in *Interp, fr *frame, args []Value) Value { return in.reflectFunc(name, args) }
		}
		if recv == "Value" {
			return func(in *Interp, fr *frame, args []Value) Value {
				return in.rvMethod(args[0].(RV), name, args[1:])
			}
		}
	}
	key := fn.String()
	if o := fn.Origin(); o != nil {
		key = o.String()
	}
	if f := natives[key]; f != nil {
		return f
	}
	return nil
}

func stubPackageLogger(in *Interp, fr *frame, args []Value) Value {
	zp := in.pkgByPath["go.uber.org/zap"]
	var lt types.Type
	if zp != nil {
		lt = zp.Pkg.Scope().Lookup("Logger").Type()
	}
	tr := &NativeObj{methods: map[string]*NativeFn{
		"Enabled": {name: "Tracer.Enabled", fn: func(in *Interp, a []Value) Value { return in.b.Var("__trace", 0) }},
	}}
	var logger Value = (*Value)(nil)
	if lt != nil {
		logger = newCell(in.zero(lt))
	}
	return Tuple{logger, Iface{t: in.opaqueT, v: tr}}
}

func (in *Interp) errNew(msg *Str) Value {
	f := in.pkgByPath["errors"].Func("New")
	return in.callSSA(f, []Value{msg}, nil, nil)
}

func (in *Interp) nilErr() Value { return Iface{} }

// ---- formatting ----

func (in *Interp) sprintf(format Value, list []Value) (*Str, Value) {
	fs, ok := format.(*Str).concrete()
	var wrapped Value
	if !ok {
		return &Str{opaque: true, s: "?"}, nil
	}
	out := in.emptyStr
	ai := 0
	add := func(s *Str) { out = in.concat(out, s) }
	i := 0
	for i < len(fs) {
		j := strings.IndexByte(fs[i:], '%')
		if j < 0 {
			add(in.str(fs[i:]))
			break
		}
		add(in.str(fs[i : i+j]))
		i += j + 1
		st := i
		for i < len(fs) && strings.IndexByte("+-# 0123456789.", fs[i]) >= 0 {
			i++
		}
		if i >= len(fs) {
			break
		}
		verb := fs[i]
		flags := fs[st:i]
		i++
		if verb == '%' {
			add(in.str("%"))
			continue
		}
		if ai >= len(list) {
			add(&Str{opaque: true})
			continue
		}
		a := list[ai].(Iface)
		ai++
		if verb == 'w' && a.t != nil {
			wrapped = a
		}
		add(in.fmtArg(verb, flags, a))
	}
	return out, wrapped
}

// chargeText counts a formatted text against the armed total; texts that are not computed are estimated.
func (in *Interp) chargeText(s *Str, format Value, list []Value) {
	if in.totalLimit == 0 {
		return
	}
	size := func(s *Str) int {
		if s.opaque {
			return s.est
		}
		return s.Len()
	}
	n := size(s)
	if s.opaque {
		n = size(format.(*Str))
		for _, v := range list {
			n += 8
			if p, ok := v.(Iface).v.(*Value); ok && p != nil {
				if st, ok := (*p).(Struct); ok && len(st) > 0 {
					if t, ok := st[0].(*Str); ok {
						n += size(t)
					}
				}
			} else if t, ok := v.(Iface).v.(*Str); ok {
				n += size(t)
			}
		}
		s.est = n
	}
	in.charge(int64(n))
}

func (in *Interp) fmtArg(verb byte, flags string, a Iface) *Str {
	op := &Str{opaque: true, s: "?"}
	if a.t == nil {
		return in.str("<nil>")
	}
	if verb == 'T' {
		return in.str(typeString(a.t))
	}
	lazy := func(f func() []*Expr) *Str {
		return &Str{opaque: true, s: "?", thunk: func() *Str { return in.mkStr(f()) }}
	}
	if p, ok := a.v.(*Value); ok && p != nil && typeString(a.t) == "*big.Int" && (verb == 'd' || verb == 's' || verb == 'v') && flags == "" {
		return lazy(func() []*Expr { return in.bigText(p) })
	}
	ms := in.prog.MethodSets.MethodSet(a.t)
	text := verb == 's' || verb == 'v' || verb == 'q' || verb == 'w' || verb == 'x' || verb == 'X'
	if ms.Lookup(nil, "Format") != nil || (text && ms.Lookup(nil, "GoString") != nil && strings.Contains(flags, "#")) {
		return op
	}
	for _, nm := range []string{"Error", "String"} {
		if sel := ms.Lookup(nil, nm); sel != nil && text {
			if sig, ok := sel.Obj().Type().(*types.Signature); !ok || sig.Params().Len() != 0 || sig.Results().Len() != 1 {
				return op
			}
			if p, isP := a.v.(*Value); (isP && p == nil) || flags != "" || (verb != 's' && verb != 'v' && verb != 'w') {
				return op
			}
			recv := a.v
			return &Str{opaque: true, s: "?", thunk: func() *Str {
				return in.callSSA(in.prog.MethodValue(sel), []Value{recv}, nil, nil).(*Str)
			}}
		}
	}
	hexOf := func(es []*Expr) *Str {
		if verb != 'x' && verb != 'X' || flags != "" {
			return nil
		}
		digits := "0123456789abcdef"
		if verb == 'X' {
			digits = "0123456789ABCDEF"
		}
		tab := make([]*Expr, 16)
		for i := range tab {
			tab[i] = in.b.c8[digits[i]]
		}
		var out []*Expr
		for _, e := range es {
			out = append(out, in.b.Select(tab, in.b.Extract(e, 7, 4)), in.b.Select(tab, in.b.Extract(e, 3, 0)))
		}
		return in.mkStr(out)
	}
	switch x := a.v.(type) {
	case *Str:
		if s, ok := x.concrete(); ok {
			return in.str(fmt.Sprintf("%"+flags+string(verb), s))
		}
		if (verb == 's' || verb == 'v') && flags == "" {
			return x
		}
		if verb == 'q' && flags == "" {
			return lazy(func() []*Expr { return in.quote(in.strBytes(x)) })
		}
		if !x.opaque {
			if h := hexOf(in.strBytes(x)); h != nil {
				return h
			}
		}
	case []Value, Array:
		if et := elemType(a.t); et != nil {
			if bt, ok := under(et).(*types.Basic); ok && bt.Kind() == types.Uint8 && in.prog.MethodSets.MethodSet(et).Len() == 0 {
				es := in.exprBytes(x)
				if h := hexOf(es); h != nil {
					return h
				}
				if verb == 's' && flags == "" {
					return in.mkStr(es)
				}
				if verb == 'q' && flags == "" {
					return lazy(func() []*Expr { return in.quote(es) })
				}
			}
			if bt, ok := under(et).(*types.Basic); ok && bt.Info()&types.IsInteger != 0 && in.prog.MethodSets.MethodSet(et).Len() == 0 && (verb == 'd' || verb == 'v') && flags == "" {
				vs, isS := x.([]Value)
				if !isS {
					vs = x.(Array)
				}
				return lazy(func() []*Expr {
					out := []*Expr{in.b.c8['[']}
					for i, v := range vs {
						if i > 0 {
							out = append(out, in.b.c8[' '])
						}
						if isSigned(et) {
							out = append(out, in.decimalSigned(in.b.Sext(in.expr(v), 64))...)
						} else {
							out = append(out, in.decimal(in.b.Zext(in.expr(v), 64))...)
						}
					}
					return append(out, in.b.c8[']'])
				})
			}
		}
	case *Expr:
		if isFloat(a.t) {
			return op
		}
		if isBoolT(a.t) {
			if x.IsConst() {
				return in.str(fmt.Sprintf("%"+flags+string(verb), x.val == 1))
			}
			if (verb == 't' || verb == 'v') && flags == "" {
				return lazy(func() []*Expr {
					return in.strBytes(in.str(strconv.FormatBool(in.branch(x))))
				})
			}
			return op
		}
		if x.IsConst() {
			if isSigned(a.t) {
				return in.str(fmt.Sprintf("%"+flags+string(verb), sext64(x.val, x.w)))
			}
			return in.str(fmt.Sprintf("%"+flags+string(verb), x.val))
		}
		if (verb == 'd' || verb == 'v') && flags == "" {
			signed := isSigned(a.t)
			return lazy(func() []*Expr {
				if signed {
					return in.decimalSigned(in.b.Sext(x, 64))
				}
				return in.decimal(in.b.Zext(x, 64))
			})
		}
		if (verb == 'x' || verb == 'X') && !isSigned(a.t) && flags == "0"+strconv.Itoa(x.w/4) {
			flags = ""
			var es []*Expr
			for i := x.w - 8; i >= 0; i -= 8 {
				es = append(es, in.b.Extract(x, i+7, i))
			}
			if h := hexOf(es); h != nil {
				return h
			}
		}
		return op
	}
	return op
}

// quote is strconv.Quote for text of plain printable characters.
func (in *Interp) quote(es []*Expr) []*Expr {
	b := in.b
	ok := b.True
	for _, e := range es {
		ok = b.And(ok, b.And(b.And(b.Ule(b.c8[' '], e), b.Ule(e, b.c8['~'])), b.And(b.Not(b.Eq(e, b.c8['"'])), b.Not(b.Eq(e, b.c8['\\'])))))
	}
	if !in.branch(ok) {
		panic(unsupported("quoting text with special characters"))
	}
	return append(append([]*Expr{b.c8['"']}, es...), b.c8['"'])
}

// sprint formats operands as fmt.Sprint (or, with ln, fmt.Sprintln) does.
func (in *Interp) sprint(list []Value, ln bool) *Str {
	out := in.emptyStr
	prevStr := true
	for i, l := range list {
		a := l.(Iface)
		isStr := a.t != nil && func() bool { b, ok := a.t.(*types.Basic); return ok && b.Info()&types.IsString != 0 }()
		if i > 0 && (ln || (!isStr && !prevStr)) {
			out = in.concat(out, in.str(" "))
		}
		out = in.concat(out, in.fmtArg('v', "", a))
		prevStr = isStr
	}
	if ln {
		out = in.concat(out, in.str("\n"))
	}
	return out
}

// fprint writes a formatted text to an io.Writer.
func (in *Interp) fprint(w Iface, s *Str, fr *frame) Value {
	if w.t == nil {
		in.rtPanic("invalid memory address or nil pointer dereference")
	}
	sel := in.prog.MethodSets.MethodSet(w.t).Lookup(nil, "Write")
	return in.callSSA(in.prog.MethodValue(sel), []Value{w.v, fromExprs(in.strBytes(s))}, nil, fr)
}

// ---- decimal text ----

// hornerW is the width used for the value of an n-digit decimal number.
func hornerW(n int) int {
	if n <= 19 {
		return 64
	}
	return 4 * n
}

func (in *Interp) horner(digs []*Expr) *Expr {
	b := in.b
	w := hornerW(len(digs))
	if in.p != nil {
		for _, d := range in.p.decs {
			if len(d.digs) == len(digs) {
				same := true
				for i := range digs {
					same = same && digs[i] == d.digs[i]
				}
				if same {
					if d.v.w >= w {
						return d.v
					}
					return b.Zext(d.v, w)
				}
			}
		}
	}
	var v *Expr
	ten := b.Const(w, 10)
	for i, d := range digs {
		x := b.Zext(b.Sub(d, b.c8['0']), w)
		if i == 0 {
			v = x
		} else {
			v = b.Add(b.Mul(v, ten), x)
		}
	}
	return v
}

func (in *Interp) constBig(w int, v *big.Int) *Expr {
	if w <= 64 {
		return in.b.Const(w, v.Uint64())
	}
	lo := new(big.Int).And(v, new(big.Int).SetUint64(^uint64(0)))
	return in.b.Concat(in.constBig(w-64, new(big.Int).Rsh(v, 64)), in.b.Const(64, lo.Uint64()))
}

// decimal returns the decimal text of the unsigned number v (forking on its
// length); digits are fresh variables tied to v by the positional sum.
func (in *Interp) decimal(v *Expr) []*Expr {
	b := in.b
	if v.IsConst() {
		s := strconv.FormatUint(v.val, 10)
		out := make([]*Expr, len(s))
		for i := range out {
			out[i] = b.c8[s[i]]
		}
		return out
	}
	if in.inInit || in.p == nil {
		panic(unsupported("formatting a symbolic number during initialisation"))
	}
	if d, ok := in.p.decCache[v]; ok {
		return d
	}
	pow := big.NewInt(1)
	ten := big.NewInt(10)
	lim := new(big.Int).Lsh(big.NewInt(1), uint(v.w))
	n := 1
	for {
		pow = new(big.Int).Mul(pow, ten)
		if pow.Cmp(lim) >= 0 {
			break
		}
		if in.branch(b.Ult(v, in.constBig(v.w, pow))) {
			break
		}
		n++
	}
	p := in.p
	id := p.ndec
	p.ndec++
	text := b.EvalBig(v, p.model).String()
	if len(text) != n {
		panic(engineError("decimal length"))
	}
	m := cloneModel(p.model)
	digs := make([]*Expr, n)
	for i := range digs {
		nm := fmt.Sprintf("__dec%d_%d", id, i)
		digs[i] = b.Var(nm, 8)
		m[nm] = uint64(text[i])
	}
	p.model = m
	b.NewEval()
	for i, d := range digs {
		lo := byte('0')
		if i == 0 && n > 1 {
			lo = '1'
		}
		p.assume(b, b.Ule(b.c8[lo], d), false)
		p.assume(b, b.Ule(d, b.c8['9']), false)
	}
	h := in.horner(digs)
	w := h.w
	if v.w > w {
		w = v.w
	}
	def := b.Eq(b.Zext(h, w), b.Zext(v, w))
	if !def.IsConst() {
		var ids []int
		for _, d := range digs {
			ids = append(ids, d.id)
		}
		b.defs[def] = ids
	}
	p.assume(b, def, false)
	dd := decDef{v: v, digs: digs}
	for _, d := range digs {
		dd.names = append(dd.names, d.name)
	}
	p.decs = append(p.decs, dd)
	if p.decCache == nil {
		p.decCache = map[*Expr][]*Expr{}
	}
	p.decCache[v] = digs
	return digs
}

func (in *Interp) decimalSigned(v *Expr) []*Expr {
	b := in.b
	if in.branch(b.Slt(v, b.Const(v.w, 0))) {
		return append([]*Expr{b.c8['-']}, in.decimal(b.Neg(v))...)
	}
	return in.decimal(v)
}

// parseDec parses an optional sign and decimal digits; ok=false when the text
// is not of that form (forks on symbolic characters).
func (in *Interp) parseDec(bs []*Expr, allowPlus bool) (neg bool, val *Expr, ok bool) {
	b := in.b
	if len(bs) > 0 {
		if in.branch(b.Eq(bs[0], b.c8['-'])) {
			neg = true
			bs = bs[1:]
		} else if allowPlus && in.branch(b.Eq(bs[0], b.c8['+'])) {
			bs = bs[1:]
		}
	}
	if len(bs) == 0 {
		return neg, nil, false
	}
	for _, c := range bs {
		if !in.branch(b.And(b.Ule(b.c8['0'], c), b.Ule(c, b.c8['9']))) {
			return neg, nil, false
		}
	}
	return neg, in.horner(bs), true
}

// toSigned/unsigned range: returns the 64 bit value and whether in range.
func (in *Interp) rangeInt(neg bool, val *Expr, bits int, signed bool) (*Expr, bool) {
	b := in.b
	w := val.w
	if w < 72 {
		val = b.Zext(val, 72)
		w = 72
	}
	max := new(big.Int).Lsh(big.NewInt(1), uint(bits))
	if signed {
		max.Rsh(max, 1)
	}
	if !neg {
		max.Sub(max, big.NewInt(1))
	}
	if neg && !signed {
		max.SetInt64(0)
	}
	if !in.branch(b.Ule(val, in.constBig(w, max))) {
		return nil, false
	}
	r := b.Extract(val, 63, 0)
	if neg {
		r = b.Neg(r)
	}
	return r, true
}

func (in *Interp) concBytes(v Value) ([]byte, bool) {
	s, ok := v.([]Value)
	if !ok {
		return nil, false
	}
	out := make([]byte, len(s))
	for i := range s {
		e := in.expr(s[i])
		if !e.IsConst() {
			return nil, false
		}
		out[i] = byte(e.val)
	}
	return out, true
}

func (in *Interp) bytesVal(bs []byte) []Value {
	out := make([]Value, len(bs))
	for i := range bs {
		out[i] = in.b.c8[bs[i]]
	}
	return out
}

func (in *Interp) exprBytes(v Value) []*Expr {
	switch x := v.(type) {
	case *Str:
		return in.strBytes(x)
	case []Value:
		out := make([]*Expr, len(x))
		for i := range x {
			out[i] = in.expr(x[i])
		}
		return out
	case Array:
		out := make([]*Expr, len(x))
		for i := range x {
			out[i] = in.expr(x[i])
		}
		return out
	}
	panic(unsupported(fmt.Sprintf("bytes of %T", v)))
}

func fromExprs(es []*Expr) []Value {
	out := make([]Value, len(es))
	for i := range es {
		out[i] = es[i]
	}
	return out
}

// ---- native table ----

var natives = map[string]intrinsic{}

func reg(f intrinsic, names ...string) {
	for _, n := range names {
		natives[n] = f
	}
}

func nop(in *Interp, fr *frame, args []Value) Value { return nil }

func init() {
	// fmt
	reg(func(in *Interp, fr *frame, a []Value) Value {
		s, w := in.sprintf(a[0], a[1].([]Value))
		in.chargeText(s, a[0], a[1].([]Value))
		if w != nil {
			t := in.pkgByPath["fmt"].Pkg.Scope().Lookup("wrapError").Type()
			return Iface{t: types.NewPointer(t), v: newCell(Struct{s, w})}
		}
		return in.errNew(s)
	}, "fmt.Errorf")
	reg(func(in *Interp, fr *frame, a []Value) Value {
		s, _ := in.sprintf(a[0], a[1].([]Value))
		in.chargeText(s, a[0], a[1].([]Value))
		return s
	}, "fmt.Sprintf")
	reg(func(in *Interp, fr *frame, a []Value) Value { return in.sprint(a[0].([]Value), false) }, "fmt.Sprint")
	reg(func(in *Interp, fr *frame, a []Value) Value { return in.sprint(a[0].([]Value), true) }, "fmt.Sprintln")
	reg(func(in *Interp, fr *frame, a []Value) Value {
		s, _ := in.sprintf(a[1], a[2].([]Value))
		return in.fprint(a[0].(Iface), s, fr)
	}, "fmt.Fprintf")
	reg(func(in *Interp, fr *frame, a []Value) Value {
		return in.fprint(a[0].(Iface), in.sprint(a[1].([]Value), false), fr)
	}, "fmt.Fprint")
	reg(func(in *Interp, fr *frame, a []Value) Value {
		return in.fprint(a[0].(Iface), in.sprint(a[1].([]Value), true), fr)
	}, "fmt.Fprintln")
	reg(func(in *Interp, fr *frame, a []Value) Value { return Tuple{in.cint(0), Iface{}} }, "fmt.Println", "fmt.Printf", "fmt.Print")
	reg(func(in *Interp, fr *frame, a []Value) Value {
		s, _ := in.sprintf(a[1], a[2].([]Value))
		w := a[0].(Iface)
		if w.t == nil {
			in.rtPanic("nil io.Writer")
		}
		sel := in.prog.MethodSets.MethodSet(w.t).Lookup(nil, "Write")
		return in.callSSA(in.prog.MethodValue(sel), []Value{w.v, fromExprs(in.strBytes(s))}, nil, nil)
	}, "fmt.Fprintf")
	reg(func(in *Interp, fr *frame, a []Value) Value {
		p := a[0].(*Value)
		return (*p).(Struct)[0]
	}, "(*fmt.wrapError).Error")

	// math bit casts
	id := func(in *Interp, fr *frame, a []Value) Value { return a[0] }
	reg(id, "math.Float32bits", "math.Float32frombits", "math.Float64bits", "math.Float64frombits")
	reg(nop, "(*strings.Builder).copyCheck", "runtime.KeepAlive", "internal/race.Acquire", "internal/race.Release", "internal/race.ReleaseMerge", "internal/race.ReadRange", "internal/race.WriteRange")
	reg(id, "internal/abi.NoEscape", "internal/abi.Escape", "strings.noescape", "internal/stringslite.Clone", "strings.Clone")

	// bytealg
	reg(func(in *Interp, fr *frame, a []Value) Value {
		n := int(in.concretize(in.expr(a[0]), 4096))
		s := make([]Value, n)
		for i := range s {
			s[i] = in.b.c8[0]
		}
		return s
	}, "internal/bytealg.MakeNoZero")
	idx := func(in *Interp, fr *frame, a []Value) Value {
		bs := in.exprBytes(a[0])
		c := in.expr(a[1])
		res := in.b.Const(64, ^uint64(0))
		for i := len(bs) - 1; i >= 0; i-- {
			res = in.b.Ite(in.b.Eq(bs[i], c), in.b.Const(64, uint64(i)), res)
		}
		return res
	}
	reg(idx, "internal/bytealg.IndexByte", "internal/bytealg.IndexByteString")
	lidx := func(in *Interp, fr *frame, a []Value) Value {
		bs := in.exprBytes(a[0])
		c := in.expr(a[1])
		res := in.b.Const(64, ^uint64(0))
		for i := 0; i < len(bs); i++ {
			res = in.b.Ite(in.b.Eq(bs[i], c), in.b.Const(64, uint64(i)), res)
		}
		return res
	}
	reg(lidx, "internal/bytealg.LastIndexByte", "internal/bytealg.LastIndexByteString")
	cnt := func(in *Interp, fr *frame, a []Value) Value {
		bs := in.exprBytes(a[0])
		c := in.expr(a[1])
		res := in.b.Const(64, 0)
		for i := range bs {
			res = in.b.Add(res, in.b.Ite(in.b.Eq(bs[i], c), in.b.Const(64, 1), in.b.Const(64, 0)))
		}
		return res
	}
	reg(cnt, "internal/bytealg.Count", "internal/bytealg.CountString")
	reg(func(in *Interp, fr *frame, a []Value) Value {
		x, y := in.exprBytes(a[0]), in.exprBytes(a[1])
		if len(x) != len(y) {
			return in.b.False
		}
		ps := make([]*Expr, len(x))
		for i := range x {
			ps[i] = in.b.Eq(x[i], y[i])
		}
		return in.b.And(ps...)
	}, "internal/bytealg.Equal")
	cmp := func(in *Interp, fr *frame, a []Value) Value {
		x, y := in.mkStr(in.exprBytes(a[0])), in.mkStr(in.exprBytes(a[1]))
		lt, gt := in.strLess(x, y), in.strLess(y, x)
		return in.b.Ite(lt, in.b.Const(64, ^uint64(0)), in.b.Ite(gt, in.b.Const(64, 1), in.b.Const(64, 0)))
	}
	reg(cmp, "internal/bytealg.Compare", "internal/bytealg.CompareString", "bytes.Compare", "strings.Compare")
	index := func(in *Interp, fr *frame, a []Value) Value {
		x, y := in.exprBytes(a[0]), in.exprBytes(a[1])
		res := in.b.Const(64, ^uint64(0))
		for i := len(x) - len(y); i >= 0; i-- {
			ps := make([]*Expr, len(y))
			for j := range y {
				ps[j] = in.b.Eq(x[i+j], y[j])
			}
			res = in.b.Ite(in.b.And(ps...), in.b.Const(64, uint64(i)), res)
		}
		return res
	}
	reg(index, "strings.Index", "bytes.Index", "internal/stringslite.Index", "internal/bytealg.IndexString", "internal/bytealg.Index")

	// math/bits
	lenBits := func(w int) intrinsic {
		return func(in *Interp, fr *frame, a []Value) Value {
			x := in.expr(a[0])
			res := in.b.Const(64, 0)
			for i := 0; i < x.w; i++ {
				res = in.b.Ite(in.b.Eq(in.b.Extract(x, i, i), in.b.Const(1, 1)), in.b.Const(64, uint64(i+1)), res)
			}
			return res
		}
	}
	reg(lenBits(64), "math/bits.Len64", "math/bits.Len", "math/bits.Len32", "math/bits.Len16", "math/bits.Len8")
	tz := func(in *Interp, fr *frame, a []Value) Value {
		x := in.expr(a[0])
		res := in.b.Const(64, uint64(x.w))
		for i := x.w - 1; i >= 0; i-- {
			res = in.b.Ite(in.b.Eq(in.b.Extract(x, i, i), in.b.Const(1, 1)), in.b.Const(64, uint64(i)), res)
		}
		return res
	}
	reg(tz, "math/bits.TrailingZeros64", "math/bits.TrailingZeros", "math/bits.TrailingZeros32", "math/bits.TrailingZeros16", "math/bits.TrailingZeros8")
	reg(func(in *Interp, fr *frame, a []Value) Value {
		b := in.b
		p := b.Mul(b.Zext(in.expr(a[0]), 128), b.Zext(in.expr(a[1]), 128))
		return Tuple{b.Extract(p, 127, 64), b.Extract(p, 63, 0)}
	}, "math/bits.Mul64", "math/bits.Mul")
	reg(func(in *Interp, fr *frame, a []Value) Value {
		b := in.b
		s := b.Add(b.Add(b.Zext(in.expr(a[0]), 65), b.Zext(in.expr(a[1]), 65)), b.Zext(in.expr(a[2]), 65))
		return Tuple{b.Extract(s, 63, 0), b.Zext(b.Extract(s, 64, 64), 64)}
	}, "math/bits.Add64", "math/bits.Add")

	// sha256
	reg(func(in *Interp, fr *frame, a []Value) Value {
		bs := in.exprBytes(a[0])
		conc := true
		for _, e := range bs {
			conc = conc && e.IsConst()
		}
		out := make(Array, 32)
		if conc {
			raw := make([]byte, len(bs))
			for i, e := range bs {
				raw[i] = byte(e.val)
			}
			s := sha256.Sum256(raw)
			for i := range out {
				out[i] = in.b.c8[s[i]]
			}
			return out
		}
		h := in.b.UF("sha256", 256, bs...)
		for i := range out {
			out[i] = in.b.Extract(h, 255-8*i, 248-8*i)
		}
		return out
	}, "crypto/sha256.Sum256")
	reg(func(in *Interp, fr *frame, a []Value) Value {
		f := in.pkgByPath[in.symPath].Func("NewSHA256")
		return in.callSSA(f, nil, nil, fr)
	}, "crypto/sha256.New")

	// strconv
	reg(func(in *Interp, fr *frame, a []Value) Value {
		return in.mkStr(in.decimalSigned(in.expr(a[0])))
	}, "strconv.Itoa")
	reg(func(in *Interp, fr *frame, a []Value) Value {
		x := in.expr(a[0])
		base := in.expr(a[1])
		if x.IsConst() && base.IsConst() {
			return in.str(strconv.FormatInt(int64(x.val), int(base.val)))
		}
		if base.IsConst() && base.val == 10 {
			return in.mkStr(in.decimalSigned(x))
		}
		panic(unsupported("strconv.FormatInt"))
	}, "strconv.FormatInt")
	reg(func(in *Interp, fr *frame, a []Value) Value {
		x := in.expr(a[0])
		base := in.expr(a[1])
		if x.IsConst() && base.IsConst() {
			return in.str(strconv.FormatUint(x.val, int(base.val)))
		}
		if base.IsConst() && base.val == 10 {
			return in.mkStr(in.decimal(x))
		}
		panic(unsupported("strconv.FormatUint"))
	}, "strconv.FormatUint")
	reg(func(in *Interp, fr *frame, a []Value) Value {
		dst := a[0].([]Value)
		return in.appendVals(dst, fromExprs(in.decimalSigned(in.expr(a[1]))))
	}, "strconv.AppendInt")
	reg(func(in *Interp, fr *frame, a []Value) Value {
		dst := a[0].([]Value)
		return in.appendVals(dst, fromExprs(in.decimal(in.expr(a[1]))))
	}, "strconv.AppendUint")
	parse := func(signed bool) intrinsic {
		return func(in *Interp, fr *frame, a []Value) Value {
			s := a[0].(*Str)
			base, bits := in.expr(a[1]), in.expr(a[2])
			if !base.IsConst() || !bits.IsConst() {
				panic(unsupported("strconv.Parse base"))
			}
			bsz := int(bits.val)
			if bsz == 0 {
				bsz = 64
			}
			if cs, ok := s.concrete(); ok {
				if signed {
					v, err := strconv.ParseInt(cs, int(base.val), bsz)
					return Tuple{in.b.Const(64, uint64(v)), in.mkErrIf(err)}
				}
				v, err := strconv.ParseUint(cs, int(base.val), bsz)
				return Tuple{in.b.Const(64, v), in.mkErrIf(err)}
			}
			if base.val != 10 {
				panic(unsupported("strconv.Parse base"))
			}
			bs := in.strBytes(s)
			if !signed && len(bs) > 0 && in.branch(in.b.Or(in.b.Eq(bs[0], in.b.c8['-']), in.b.Eq(bs[0], in.b.c8['+']))) {
				return Tuple{in.b.Const(64, 0), in.errNew(in.str("invalid syntax"))}
			}
			neg, v, ok := in.parseDec(bs, signed)
			if !ok {
				return Tuple{in.b.Const(64, 0), in.errNew(in.str("invalid syntax"))}
			}
			r, ok := in.rangeInt(neg, v, bsz, signed)
			if !ok {
				return Tuple{in.b.Const(64, 0), in.errNew(in.str("out of range"))}
			}
			return Tuple{r, Iface{}}
		}
	}
	reg(parse(true), "strconv.ParseInt")
	reg(parse(false), "strconv.ParseUint")
	reg(func(in *Interp, fr *frame, a []Value) Value {
		return natives["strconv.ParseInt"](in, fr, []Value{a[0], in.b.Const(64, 10), in.b.Const(64, 64)})
	}, "strconv.Atoi")
	reg(func(in *Interp, fr *frame, a []Value) Value {
		cs, ok := a[0].(*Str).concrete()
		if !ok {
			if bs := in.expr(a[1]); !bs.IsConst() || bs.val != 64 {
				panic(unsupported("strconv.ParseFloat of symbolic text"))
			}
			return Tuple{in.parseFloat(in.strBytes(a[0].(*Str))), Iface{}}
		}
		v, err := strconv.ParseFloat(cs, int(in.concretize(in.expr(a[1]), 2)))
		return Tuple{in.constVal64f(v), in.mkErrIf(err)}
	}, "strconv.ParseFloat")
	reg(func(in *Interp, fr *frame, a []Value) Value {
		cs, ok := a[0].(*Str).concrete()
		if !ok {
			x := a[0].(*Str)
			return &Str{opaque: true, s: "?", thunk: func() *Str { return in.mkStr(in.quote(in.strBytes(x))) }}
		}
		return in.str(strconv.Quote(cs))
	}, "strconv.Quote")

	// math/big text
	reg(func(in *Interp, fr *frame, a []Value) Value {
		p := a[0].(*Value)
		if p == nil {
			return in.str("<nil>")
		}
		return in.mkStr(in.bigText(p))
	}, "(*math/big.Int).String")
	reg(func(in *Interp, fr *frame, a []Value) Value {
		p := a[0].(*Value)
		if p == nil {
			return in.str("<nil>")
		}
		if b := in.expr(a[1]); !b.IsConst() || b.val != 10 {
			panic(unsupported("big.Int.Text base"))
		}
		return in.mkStr(in.bigText(p))
	}, "(*math/big.Int).Text")
	reg(func(in *Interp, fr *frame, a []Value) Value {
		if b := in.expr(a[2]); !b.IsConst() || b.val != 10 {
			panic(unsupported("big.Int text in a base other than 10"))
		}
		var cell Value = Struct{a[1], a[0]}
		var out []Value
		for _, e := range in.bigText(&cell) {
			out = append(out, e)
		}
		return out
	}, "(math/big.nat).itoa")
	reg(func(in *Interp, fr *frame, a []Value) Value { return in.bigSetString(a) }, "(*math/big.Int).SetString")

	// sync
	// locks: one thread, so taking a lock that is held is a deadlock. State: -1 held for writing, n>0 readers.
	lockState := func(in *Interp, p *Value, n int) {
		old := in.locks[p]
		if in.locks == nil {
			in.locks = map[*Value]int{}
		}
		in.locks[p] = n
		in.onUndo(func() { in.locks[p] = old })
	}
	reg(func(in *Interp, fr *frame, a []Value) Value {
		p := a[0].(*Value)
		if in.locks[p] != 0 {
			in.rtPanic("deadlock: lock is already held")
		}
		lockState(in, p, -1)
		return nil
	}, "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock", "(*internal/sync.Mutex).Lock")
	reg(func(in *Interp, fr *frame, a []Value) Value {
		p := a[0].(*Value)
		if in.locks[p] != -1 {
			in.rtPanic("sync: unlock of unlocked mutex")
		}
		lockState(in, p, 0)
		in.preempt()
		return nil
	}, "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock", "(*internal/sync.Mutex).Unlock")
	reg(func(in *Interp, fr *frame, a []Value) Value {
		p := a[0].(*Value)
		if in.locks[p] < 0 {
			in.rtPanic("deadlock: lock is already held")
		}
		lockState(in, p, in.locks[p]+1)
		return nil
	}, "(*sync.RWMutex).RLock")
	reg(func(in *Interp, fr *frame, a []Value) Value {
		p := a[0].(*Value)
		if in.locks[p] <= 0 {
			in.rtPanic("sync: RUnlock of unlocked RWMutex")
		}
		lockState(in, p, in.locks[p]-1)
		return nil
	}, "(*sync.RWMutex).RUnlock")
	reg(func(in *Interp, fr *frame, a []Value) Value {
		p := a[0].(*Value)
		if in.locks[p] != 0 {
			return in.b.False
		}
		lockState(in, p, -1)
		return in.b.True
	}, "(*sync.Mutex).TryLock", "(*sync.RWMutex).TryLock")
	// A pool hands out what was last put back, as it does for one goroutine.
	poolSet := func(in *Interp, p *Value, items []Value) {
		old := in.pools[p]
		if in.pools == nil {
			in.pools = map[*Value][]Value{}
		}
		in.pools[p] = items
		in.onUndo(func() { in.pools[p] = old })
	}
	reg(func(in *Interp, fr *frame, a []Value) Value {
		if x, ok := a[1].(Iface); ok && x.t == nil {
			return nil
		}
		p := a[0].(*Value)
		poolSet(in, p, append(append([]Value{}, in.pools[p]...), a[1]))
		in.preempt()
		return nil
	}, "(*sync.Pool).Put")
	reg(func(in *Interp, fr *frame, a []Value) Value {
		p := a[0].(*Value)
		if it := in.pools[p]; len(it) > 0 {
			poolSet(in, p, it[:len(it)-1])
			return it[len(it)-1]
		}
		st := (*p).(Struct)
		pt := in.pkgByPath["sync"].Pkg.Scope().Lookup("Pool").Type().Underlying().(*types.Struct)
		for i := 0; i < pt.NumFields(); i++ {
			if pt.Field(i).Name() == "New" {
				if f, ok := st[i].(*ssa.Function); ok && f == nil {
					return Iface{}
				}
				return in.Call(fr, st[i], nil)
			}
		}
		return Iface{}
	}, "(*sync.Pool).Get")
	reg(func(in *Interp, fr *frame, a []Value) Value {
		p := a[0].(*Value)
		if in.onces == nil {
			in.onces = map[*Value]bool{}
		}
		if in.onces[p] {
			return nil
		}
		in.onces[p] = true
		in.onUndo(func() { delete(in.onces, p) })
		in.inQuiet(func() { in.Call(fr, a[1], nil) })
		return nil
	}, "(*sync.Once).Do")
	smap := func(in *Interp, p Value) *Map {
		c := p.(*Value)
		if in.syncMaps == nil {
			in.syncMaps = map[*Value]*Map{}
		}
		m := in.syncMaps[c]
		if m == nil {
			m = in.newMap()
			in.syncMaps[c] = m
		}
		return m
	}
	anyT := types.NewInterfaceType(nil, nil)
	reg(func(in *Interp, fr *frame, a []Value) Value {
		v, ok := in.mapGet(smap(in, a[0]), a[1], anyT)
		if !ok {
			v = Iface{}
		}
		return Tuple{v, in.b.Bool(ok)}
	}, "(*sync.Map).Load")
	reg(func(in *Interp, fr *frame, a []Value) Value {
		in.mapSet(smap(in, a[0]), a[1], a[2], anyT)
		in.publish(a[2])
		return nil
	}, "(*sync.Map).Store")
	reg(func(in *Interp, fr *frame, a []Value) Value {
		m := smap(in, a[0])
		v, ok := in.mapGet(m, a[1], anyT)
		if ok {
			return Tuple{v, in.b.True}
		}
		in.mapSet(m, a[1], a[2], anyT)
		in.publish(a[2])
		return Tuple{a[2], in.b.False}
	}, "(*sync.Map).LoadOrStore")
	reg(func(in *Interp, fr *frame, a []Value) Value {
		in.mapDelete(smap(in, a[0]), a[1], anyT)
		return nil
	}, "(*sync.Map).Delete")

	// atomics: synchronised accesses
	areg := func(f func(in *Interp, fr *frame, a []Value) Value, names ...string) {
		reg(func(in *Interp, fr *frame, a []Value) (v Value) {
			if in.par == nil {
				return f(in, fr, a)
			}
			in.inQuiet(func() { v = f(in, fr, a) })
			return v
		}, names...)
	}
	for _, t := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr", "Pointer"} {
		areg(func(in *Interp, fr *frame, a []Value) Value { return in.load(a[0]) }, "sync/atomic.Load"+t)
		areg(func(in *Interp, fr *frame, a []Value) Value { in.storeAddr(a[0], a[1]); return nil }, "sync/atomic.Store"+t)
		areg(func(in *Interp, fr *frame, a []Value) Value {
			v := in.b.Add(in.expr(in.load(a[0])), in.expr(a[1]))
			in.storeAddr(a[0], v)
			return v
		}, "sync/atomic.Add"+t)
		areg(func(in *Interp, fr *frame, a []Value) Value {
			v := in.load(a[0])
			in.storeAddr(a[0], a[1])
			return v
		}, "sync/atomic.Swap"+t)
		areg(func(in *Interp, fr *frame, a []Value) Value {
			v := in.load(a[0])
			var c *Expr
			if e, ok := v.(*Expr); ok {
				c = in.b.Eq(e, in.expr(a[1]))
			} else {
				c = in.eq(nil, v, a[1])
			}
			if in.branch(c) {
				in.storeAddr(a[0], a[2])
				return in.b.True
			}
			return in.b.False
		}, "sync/atomic.CompareAndSwap"+t)
	}
	ptrField := func(v Value) *Value {
		p := v.(*Value)
		st := (*p).(Struct)
		return &st[len(st)-1]
	}
	areg(func(in *Interp, fr *frame, a []Value) Value {
		u, _ := (*ptrField(a[0])).(unsafePtr)
		if u.p == nil {
			return (*Value)(nil)
		}
		return u.p
	}, "(*sync/atomic.Pointer[T]).Load")
	areg(func(in *Interp, fr *frame, a []Value) Value {
		in.setCell(ptrField(a[0]), unsafePtr{p: a[1]})
		return nil
	}, "(*sync/atomic.Pointer[T]).Store")
	areg(func(in *Interp, fr *frame, a []Value) Value {
		p := a[0].(*Value)
		st := (*p).(Struct)
		return st[0]
	}, "(*sync/atomic.Value).Load")
	areg(func(in *Interp, fr *frame, a []Value) Value {
		p := a[0].(*Value)
		st := (*p).(Struct)
		in.setCell(&st[0], a[1])
		return nil
	}, "(*sync/atomic.Value).Store")

	// encoding/json
	reg(func(in *Interp, fr *frame, a []Value) Value { return in.jsonMarshal(a[0].(Iface)) }, "encoding/json.Marshal")
	reg(func(in *Interp, fr *frame, a []Value) Value {
		return in.jsonUnmarshal(a[0].([]Value), a[1].(Iface))
	}, "encoding/json.Unmarshal")
}

func (in *Interp) constVal64f(f float64) Value { return in.b.Const(64, math.Float64bits(f)) }

func (in *Interp) mkErrIf(err error) Value {
	if err == nil {
		return Iface{}
	}
	return in.errNew(in.str(err.Error()))
}

// bigWords returns the magnitude of a big.Int as one expression (nil: zero).
func (in *Interp) bigWords(p *Value) (neg bool, mag *Expr) {
	st := (*p).(Struct)
	neg = in.branch(in.expr(st[0]))
	words := st[1].([]Value)
	for _, w := range words {
		e := in.expr(w)
		if mag == nil {
			mag = e
		} else {
			mag = in.b.Concat(e, mag)
		}
	}
	return
}

func (in *Interp) bigText(p *Value) []*Expr {
	neg, mag := in.bigWords(p)
	if mag == nil {
		return []*Expr{in.b.c8['0']}
	}
	var d []*Expr
	if mag.w > 64 {
		// constant?
		if mag.op == OConcat && allConst(mag) {
			s := in.b.EvalBig(mag, Model{}).String()
			for i := 0; i < len(s); i++ {
				d = append(d, in.b.c8[s[i]])
			}
		}
	}
	if d == nil {
		d = in.decimal(mag)
	}
	if neg {
		d = append([]*Expr{in.b.c8['-']}, d...)
	}
	return d
}

func allConst(e *Expr) bool {
	if e.IsConst() {
		return true
	}
	if e.op == OVar || e.op == OUF {
		return false
	}
	for _, a := range e.a {
		if !allConst(a) {
			return false
		}
	}
	return true
}

func (in *Interp) setBig(p *Value, neg bool, mag *Expr) {
	st := (*p).(Struct)
	nw := (mag.w + 63) / 64
	m := in.b.Zext(mag, nw*64)
	for nw > 0 {
		top := in.b.Extract(m, nw*64-1, nw*64-64)
		if in.branch(in.b.Eq(top, in.b.Const(64, 0))) {
			nw--
			continue
		}
		break
	}
	words := make([]Value, nw)
	for i := range words {
		words[i] = in.b.Extract(m, i*64+63, i*64)
	}
	in.setCell(&st[0], in.b.Bool(neg && nw > 0))
	in.setCell(&st[1], words)
}

func (in *Interp) bigSetString(a []Value) Value {
	z := a[0].(*Value)
	s := a[1].(*Str)
	base := in.expr(a[2])
	if !base.IsConst() {
		panic(unsupported("big.Int.SetString base"))
	}
	fail := Tuple{(*Value)(nil), in.b.False}
	if cs, ok := s.concrete(); ok {
		v, ok := new(big.Int).SetString(cs, int(base.val))
		if !ok {
			return fail
		}
		mag := new(big.Int).Abs(v)
		w := (mag.BitLen()/64 + 1) * 64
		in.setBig(z, v.Sign() < 0, in.constBig(w, mag))
		return Tuple{z, in.b.True}
	}
	bs := in.strBytes(s)
	if base.val != 10 && base.val != 0 {
		panic(unsupported("big.Int.SetString base"))
	}
	body := bs
	neg := false
	if in.branch(in.b.Eq(bs[0], in.b.c8['-'])) {
		neg = true
		body = bs[1:]
	} else if in.branch(in.b.Eq(bs[0], in.b.c8['+'])) {
		body = bs[1:]
	}
	if len(body) == 0 {
		return fail
	}
	if base.val == 0 && len(body) > 1 && in.branch(in.b.Eq(body[0], in.b.c8['0'])) {
		panic(unsupported("big.Int.SetString with base prefix"))
	}
	for _, c := range body {
		if !in.branch(in.b.And(in.b.Ule(in.b.c8['0'], c), in.b.Ule(c, in.b.c8['9']))) {
			if base.val == 0 && in.branch(in.b.Eq(c, in.b.c8['_'])) {
				panic(unsupported("big.Int.SetString with underscore"))
			}
			return fail
		}
	}
	in.setBig(z, neg, in.horner(body))
	return Tuple{z, in.b.True}
}

// parseFloat is an uninterpreted function of integer-shaped symbolic text.
func (in *Interp) parseFloat(es []*Expr) *Expr {
	b := in.b
	for i, c := range es {
		if c.IsConst() && c.val == '-' && i == 0 && len(es) > 1 {
			continue
		}
		if !in.branch(b.And(b.Ule(b.c8['0'], c), b.Ule(c, b.c8['9']))) {
			panic(unsupported("strconv.ParseFloat of symbolic text other than an integer"))
		}
	}
	if len(es) == 0 || len(es) > 100 {
		panic(unsupported("strconv.ParseFloat of that length"))
	}
	return b.UF("parsefloat", 64, es...)
}

// ---- encoding/json ----

func (in *Interp) jsonErr(s string) Value { return in.errNew(in.str("json: " + s)) }

func (in *Interp) jsonMarshal(v Iface) Value {
	ok := func(es []*Expr) Value { return Tuple{fromExprs(es), Iface{}} }
	if v.t == nil {
		return ok(in.strBytes(in.str("null")))
	}
	t := v.t
	recv := v.v
	if sel := in.prog.MethodSets.MethodSet(t).Lookup(nil, "MarshalJSON"); sel != nil {
		if p, isP := recv.(*Value); isP && p == nil {
			return ok(in.strBytes(in.str("null")))
		}
		r := in.callSSA(in.prog.MethodValue(sel), []Value{recv}, nil, nil).(Tuple)
		if e := r[1].(Iface); e.t != nil {
			return Tuple{[]Value(nil), r[1]}
		}
		return in.jsonCompact(r[0].([]Value))
	}
	if sel := in.prog.MethodSets.MethodSet(t).Lookup(nil, "MarshalText"); sel != nil {
		panic(unsupported("json.Marshal of a TextMarshaler"))
	}
	switch u := under(t).(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			s := recv.(*Str)
			return ok(in.jsonQuote(s))
		case u.Info()&types.IsBoolean != 0:
			if in.branch(in.expr(recv)) {
				return ok(in.strBytes(in.str("true")))
			}
			return ok(in.strBytes(in.str("false")))
		case u.Info()&types.IsInteger != 0:
			if isSigned(t) {
				return ok(in.decimalSigned(in.b.Resize(in.expr(recv), 64, true)))
			}
			return ok(in.decimal(in.b.Resize(in.expr(recv), 64, false)))
		case u.Info()&types.IsFloat != 0:
			e := in.expr(recv)
			if e.IsConst() {
				var bs []byte
				var err error
				if e.w == 32 {
					bs, err = json.Marshal(f32of(e.val))
				} else {
					bs, err = json.Marshal(f64of(e.val))
				}
				return Tuple{Value(in.bytesVal(bs)), in.mkErrIf(err)}
			}
		}
	case *types.Pointer:
		p := recv.(*Value)
		if p == nil {
			return ok(in.strBytes(in.str("null")))
		}
		return in.jsonMarshal(Iface{t: u.Elem(), v: copyVal(*p)})
	}
	panic(unsupported("json.Marshal of " + t.String()))
}

// jsonCompact: result of a MarshalJSON method must be valid JSON; the forms
// produced here are numbers, literals and strings without escapes.
func (in *Interp) jsonCompact(bs []Value) Value {
	if raw, ok := in.concBytes(bs); ok {
		if !json.Valid(raw) {
			return Tuple{[]Value(nil), in.jsonErr("invalid output of MarshalJSON")}
		}
		var buf bytes.Buffer
		json.Compact(&buf, raw)
		return Tuple{Value(in.bytesVal(buf.Bytes())), Iface{}}
	}
	return Tuple{bs, Iface{}}
}

func (in *Interp) jsonQuote(s *Str) []*Expr {
	b := in.b
	if cs, ok := s.concrete(); ok {
		r, _ := json.Marshal(cs)
		return in.exprBytes(in.bytesVal(r))
	}
	out := []*Expr{b.c8['"']}
	for _, c := range in.strBytes(s) {
		if !c.IsConst() {
			safe := []*Expr{b.Ule(b.c8[0x20], c), b.Ult(c, b.c8[0x7f])}
			for _, x := range []byte{'"', '\\', '<', '>', '&'} {
				safe = append(safe, b.Not(b.Eq(c, b.c8[x])))
			}
			if !in.branch(b.And(safe...)) {
				panic(unsupported("json.Marshal of a string that needs escaping"))
			}
		}
		out = append(out, c)
	}
	return append(out, b.c8['"'])
}

func (in *Interp) jsonUnmarshal(data []Value, v Iface) Value {
	b := in.b
	p, isP := v.v.(*Value)
	if v.t == nil || !isP || p == nil {
		return in.jsonErr("Unmarshal(non-pointer)")
	}
	raw, conc := in.concBytes(data)
	if conc && !json.Valid(raw) {
		return in.jsonErr("invalid JSON")
	}
	et := elemType(v.t)
	if sel := in.prog.MethodSets.MethodSet(v.t).Lookup(nil, "UnmarshalJSON"); sel != nil {
		if !conc {
			in.jsonCheckSimple(data)
		} else {
			data = in.bytesVal([]byte(strings.TrimSpace(string(raw))))
		}
		return in.callSSA(in.prog.MethodValue(sel), []Value{p, data}, nil, nil)
	}
	if conc && string(raw) == "null" {
		if kindOf(et) == reflect.Ptr {
			in.store(p, in.zero(et))
		}
		return Iface{}
	}
	u, ok := under(et).(*types.Basic)
	if !ok {
		panic(unsupported("json.Unmarshal into " + et.String()))
	}
	if conc {
		var err error
		switch {
		case u.Info()&types.IsString != 0:
			var s string
			if err = json.Unmarshal(raw, &s); err == nil {
				in.store(p, in.str(s))
			}
		case u.Info()&types.IsBoolean != 0:
			var x bool
			if err = json.Unmarshal(raw, &x); err == nil {
				in.store(p, b.Bool(x))
			}
		case u.Info()&types.IsFloat != 0 && bitsOf(u.Kind()) == 64:
			var x float64
			if err = json.Unmarshal(raw, &x); err == nil {
				in.store(p, b.Const(64, math.Float64bits(x)))
			}
		case u.Info()&types.IsInteger != 0:
			w := bitsOf(u.Kind())
			if isSigned(et) {
				var x int64
				if err = json.Unmarshal(raw, &x); err == nil {
					if sext64(uint64(x)&mask(w), w) != x {
						return in.jsonErr("number out of range")
					}
					in.store(p, b.Const(w, uint64(x)))
				}
			} else {
				var x uint64
				if err = json.Unmarshal(raw, &x); err == nil {
					if x&mask(w) != x {
						return in.jsonErr("number out of range")
					}
					in.store(p, b.Const(w, x))
				}
			}
		default:
			panic(unsupported("json.Unmarshal into " + et.String()))
		}
		return in.mkErrIf(err)
	}
	isStr := in.jsonCheckSimple(data)
	es := in.exprBytes(data)
	switch {
	case u.Info()&types.IsString != 0:
		if !isStr {
			return in.jsonErr("cannot unmarshal number into string")
		}
		in.store(p, in.mkStr(es[1:len(es)-1]))
		return Iface{}
	case u.Info()&types.IsInteger != 0:
		if isStr {
			return in.jsonErr("cannot unmarshal string into number")
		}
		neg, val, ok := in.parseDec(es, false)
		if !ok {
			panic(unsupported("json number form"))
		}
		w := bitsOf(u.Kind())
		r, ok := in.rangeInt(neg, val, w, isSigned(et))
		if !ok {
			return in.jsonErr("number out of range")
		}
		in.store(p, b.Resize(r, w, false))
		return Iface{}
	case u.Info()&types.IsFloat != 0 && bitsOf(u.Kind()) == 64:
		if isStr {
			return in.jsonErr("cannot unmarshal string into number")
		}
		in.store(p, in.parseFloat(es))
		return Iface{}
	case u.Info()&types.IsBoolean != 0:
		return in.jsonErr("cannot unmarshal into bool")
	}
	panic(unsupported("json.Unmarshal of symbolic text into " + et.String()))
}

// jsonCheckSimple accepts symbolic documents that are a plain string without
// escapes or an integer; anything else is outside the model.
func (in *Interp) jsonCheckSimple(data []Value) (isStr bool) {
	b := in.b
	es := in.exprBytes(data)
	if len(es) == 0 {
		panic(unsupported("empty json"))
	}
	if in.branch(b.Eq(es[0], b.c8['"'])) {
		if len(es) < 2 || !in.branch(b.Eq(es[len(es)-1], b.c8['"'])) {
			panic(unsupported("json document form"))
		}
		for _, c := range es[1 : len(es)-1] {
			ok := b.And(b.Ule(b.c8[0x20], c), b.Ult(c, b.c8[0x80]), b.Not(b.Eq(c, b.c8['"'])), b.Not(b.Eq(c, b.c8['\\'])))
			if !in.branch(ok) {
				panic(unsupported("json string with escapes"))
			}
		}
		return true
	}
	body := es
	if in.branch(b.Eq(es[0], b.c8['-'])) {
		body = es[1:]
	}
	for i, c := range body {
		if !in.branch(b.And(b.Ule(b.c8['0'], c), b.Ule(c, b.c8['9']))) {
			panic(unsupported("json document form"))
		}
		if i == 0 && len(body) > 1 && in.branch(b.Eq(c, b.c8['0'])) {
			panic(unsupported("json number with leading zero"))
		}
	}
	if len(body) == 0 {
		panic(unsupported("json document form"))
	}
	return false
}
