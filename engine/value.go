package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Value kinds:
//
//	*Expr            bool, integers, floats (bit pattern), uintptr
//	*Str             string
//	[]Value          slice
//	Array, Struct    aggregates (mutable cells, copied on load)
//	*Value           pointer
//	Iface            interface
//	*Map             map
//	*ssa.Function, *Closure, *NativeFn, *ssa.Builtin   functions
//	Tuple            multiple results
//	RV               reflect.Value
//	RType            dynamic value of reflect.Type
//	Opaque           value of a stubbed type
type Value interface{}

type Array []Value
type Struct []Value
type Tuple []Value

type Str struct {
	s      string
	b      []*Expr // symbolic bytes when non-nil
	opaque bool    // text not computed (formatted with symbolic parts)
	thunk  func() *Str
	est    int // about how long an opaque text is
}

type Iface struct {
	t types.Type
	v Value
}

type Closure struct {
	fn   *ssa.Function
	free []Value
}

type NativeFn struct {
	name string
	fn   func(in *Interp, args []Value) Value
}

type mapEntry struct {
	k, v Value
	dead bool
}

type Map struct {
	entries []*mapEntry
	n       int
	idx     map[string]*mapEntry // concrete keys
	symKeys int
}

type RType struct{ t types.Type }

// symPtr is the address of an element selected by a symbolic index.
type symPtr struct {
	elems []Value
	idx   *Expr
}

type unsafePtr struct {
	p Value
	t types.Type // original pointer type
}

func (s *Str) Len() int {
	if s.b != nil {
		return len(s.b)
	}
	return len(s.s)
}

func (in *Interp) str(s string) *Str { return &Str{s: s} }

// force computes the text of a lazily formatted string.
func (in *Interp) force(s *Str) {
	if s.opaque && s.thunk != nil {
		if in.spec > 0 {
			panic(specAbort{})
		}
		t := s.thunk
		s.thunk = nil
		r := t()
		in.force(r)
		if !r.opaque {
			s.s, s.b, s.opaque = r.s, r.b, false
		}
	}
}

func (in *Interp) strBytes(s *Str) []*Expr {
	in.force(s)
	if s.opaque {
		panic(unsupported("content of a formatted string with symbolic parts"))
	}
	if s.b != nil {
		return s.b
	}
	out := make([]*Expr, len(s.s))
	for i := 0; i < len(s.s); i++ {
		out[i] = in.b.c8[s.s[i]]
	}
	return out
}

// mkStr builds a string from byte expressions, concrete when possible.
func (in *Interp) mkStr(b []*Expr) *Str {
	conc := true
	for _, e := range b {
		if !e.IsConst() {
			conc = false
			break
		}
	}
	if conc {
		bs := make([]byte, len(b))
		for i, e := range b {
			bs[i] = byte(e.val)
		}
		return &Str{s: string(bs)}
	}
	return &Str{b: append([]*Expr(nil), b...)}
}

func (s *Str) concrete() (string, bool) {
	if s.b != nil || s.opaque {
		return "", false
	}
	return s.s, true
}

func copyVal(v Value) Value {
	switch x := v.(type) {
	case Array:
		y := make(Array, len(x))
		for i := range x {
			y[i] = copyVal(x[i])
		}
		return y
	case Struct:
		y := make(Struct, len(x))
		for i := range x {
			y[i] = copyVal(x[i])
		}
		return y
	}
	return v
}

// store writes v into the cell, element-wise for aggregates so that interior
// pointers stay valid, logging old contents on the undo trail.
func (in *Interp) store(p *Value, v Value) {
	switch x := v.(type) {
	case Array:
		if old, ok := (*p).(Array); ok && len(old) == len(x) {
			for i := range x {
				in.store(&old[i], x[i])
			}
			return
		}
		in.setCell(p, copyVal(v))
	case Struct:
		if old, ok := (*p).(Struct); ok && len(old) == len(x) {
			for i := range x {
				in.store(&old[i], x[i])
			}
			return
		}
		in.setCell(p, copyVal(v))
	default:
		in.setCell(p, v)
	}
}

type trailEntry struct {
	p   *Value
	old Value
	fn  func()
}

func (in *Interp) setCell(p *Value, v Value) {
	if in.trailOn {
		in.trail = append(in.trail, trailEntry{p: p, old: *p})
	}
	*p = v
	if in.par != nil {
		in.parWrite(p, v)
	}
}

func (in *Interp) undoAll() {
	for i := len(in.trail) - 1; i >= 0; i-- {
		t := &in.trail[i]
		if t.fn != nil {
			t.fn()
		} else {
			*t.p = t.old
		}
	}
	in.trail = in.trail[:0]
}

func (in *Interp) onUndo(fn func()) {
	if in.trailOn {
		in.trail = append(in.trail, trailEntry{fn: fn})
	}
}

func under(t types.Type) types.Type { return t.Underlying() }

func bitsOf(k types.BasicKind) int {
	switch k {
	case types.Bool, types.UntypedBool:
		return 0
	case types.Int8, types.Uint8:
		return 8
	case types.Int16, types.Uint16:
		return 16
	case types.Int32, types.Uint32, types.Float32, types.UntypedRune:
		return 32
	}
	return 64
}

func isSigned(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0 && b.Info()&types.IsUnsigned == 0
}
func isFloat(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}
func isInteger(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}
func isString(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isBoolT(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}
func widthOf(t types.Type) int {
	b, ok := under(t).(*types.Basic)
	if !ok {
		panic(unsupported("widthOf " + t.String()))
	}
	return bitsOf(b.Kind())
}

func isNamed(t types.Type, path, name string) bool {
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	return n.Obj().Name() == name && n.Obj().Pkg().Path() == path
}

func (in *Interp) zero(t types.Type) Value {
	if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "reflect" && n.Obj().Name() == "Value" {
		return RV{}
	}
	switch u := types.Unalias(t).Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			return in.emptyStr
		}
		switch u.Kind() {
		case types.UnsafePointer:
			return unsafePtr{}
		case types.UntypedNil:
			return Iface{}
		case types.Complex64, types.Complex128, types.UntypedComplex:
			return Cplx(0)
		case types.Invalid:
			panic(unsupported("invalid type"))
		}
		return in.b.Const(bitsOf(u.Kind()), 0)
	case *types.Pointer:
		return (*Value)(nil)
	case *types.Slice:
		return []Value(nil)
	case *types.Array:
		a := make(Array, u.Len())
		if u.Len() > 0 {
			z := in.zero(u.Elem())
			for i := range a {
				a[i] = copyVal(z)
			}
		}
		return a
	case *types.Struct:
		s := make(Struct, u.NumFields())
		for i := range s {
			s[i] = in.zero(u.Field(i).Type())
		}
		return s
	case *types.Map:
		return (*Map)(nil)
	case *types.Interface:
		return Iface{}
	case *types.Signature:
		return (*ssa.Function)(nil)
	case *types.Chan:
		return (*Chan)(nil)
	case *types.Tuple:
		tt := make(Tuple, u.Len())
		for i := range tt {
			tt[i] = in.zero(u.At(i).Type())
		}
		return tt
	}
	panic(unsupported("zero of " + t.String()))
}

// Cplx is a (concrete) complex number; Chan a channel no operation is modelled on.
type Cplx complex128
type Chan struct{}

func newCell(v Value) *Value {
	p := new(Value)
	*p = v
	return p
}

// debugging / sample rendering with a model
func (in *Interp) render(v Value, t types.Type, m Model, depth int) string {
	if depth > 600 {
		return "..."
	}
	switch x := v.(type) {
	case *Expr:
		if x.w > 64 {
			return in.b.EvalBig(x, m).String()
		}
		u := in.b.Eval(x, m)
		if x.w == 0 {
			if u == 1 {
				return "true"
			}
			return "false"
		}
		if t != nil {
			if isFloat(t) {
				if x.w == 32 && u&0x7f800000 == 0x7f800000 && u&0x7fffff != 0 || x.w == 64 && u&0x7ff0000000000000 == 0x7ff0000000000000 && u&0xfffffffffffff != 0 {
					return "fnan"
				}
				return fmt.Sprintf("f%x", u)
			}
			if isSigned(t) {
				return fmt.Sprint(sext64(u, x.w))
			}
		}
		return fmt.Sprint(u)
	case *Str:
		if x.opaque {
			return "?"
		}
		var sb strings.Builder
		for _, e := range in.strBytes(x) {
			fmt.Fprintf(&sb, "%02x", in.b.Eval(e, m))
		}
		return "s:" + sb.String()
	case []Value:
		return in.renderSeq([]Value(x), elemType(t), m, depth)
	case Array:
		return in.renderSeq([]Value(x), elemType(t), m, depth)
	case Struct:
		var sb strings.Builder
		sb.WriteByte('{')
		var st *types.Struct
		if t != nil {
			st, _ = under(t).(*types.Struct)
		}
		for i, f := range x {
			if i > 0 {
				sb.WriteByte(' ')
			}
			var ft types.Type
			if st != nil {
				ft = st.Field(i).Type()
			}
			sb.WriteString(in.render(f, ft, m, depth+1))
		}
		sb.WriteByte('}')
		return sb.String()
	case *Value:
		if x == nil {
			return "nil"
		}
		return "&" + in.render(*x, elemType(t), m, depth+1)
	case Iface:
		if x.t == nil {
			return "nil"
		}
		if types.Implements(x.t, in.errorType) {
			return "err"
		}
		return in.render(x.v, x.t, m, depth+1)
	case *Map:
		if x == nil || x.n == 0 {
			return "map[]"
		}
		var kt, vt types.Type
		if t != nil {
			if mt, ok := under(t).(*types.Map); ok {
				kt, vt = mt.Key(), mt.Elem()
			}
		}
		var parts []string
		for _, e := range x.entries {
			if !e.dead {
				parts = append(parts, in.render(e.k, kt, m, depth+1)+":"+in.render(e.v, vt, m, depth+1))
			}
		}
		sortStrings(parts)
		return "map[" + strings.Join(parts, " ") + "]"
	case nil:
		return "nil"
	}
	return fmt.Sprintf("?%T", v)
}

func (in *Interp) renderSeq(x []Value, et types.Type, m Model, depth int) string {
	isByte := et != nil
	if isByte {
		b, ok := under(et).(*types.Basic)
		isByte = ok && b.Kind() == types.Uint8
	}
	var sb strings.Builder
	if isByte {
		sb.WriteString("s:")
		for _, e := range x {
			fmt.Fprintf(&sb, "%02x", in.b.Eval(e.(*Expr), m))
		}
		return sb.String()
	}
	sb.WriteByte('[')
	for i, e := range x {
		if i > 0 {
			sb.WriteByte(' ')
		}
		sb.WriteString(in.render(e, et, m, depth+1))
	}
	sb.WriteByte(']')
	return sb.String()
}

func elemType(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	switch u := under(t).(type) {
	case *types.Slice:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	case *types.Pointer:
		return u.Elem()
	case *types.Map:
		return u.Elem()
	}
	return nil
}

func sortStrings(s []string) {
	for i := 1; i < len(s); i++ {
		for j := i; j > 0 && s[j] < s[j-1]; j-- {
			s[j], s[j-1] = s[j-1], s[j]
		}
	}
}
