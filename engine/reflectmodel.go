package main

// Model of package reflect over the interpreter's values.

import (
	"fmt"
	"go/token"
	"go/types"
	"reflect"

	"golang.org/x/tools/go/ssa"
)

// RV models reflect.Value. If addr != nil the value lives in *addr (addressable
// when canAddr); otherwise v holds it.
type RV struct {
	t       types.Type
	v       Value
	addr    *Value
	canAddr bool
	ro      bool // obtained via unexported field
}

func (r RV) same(o RV) bool {
	if r.t == nil || o.t == nil {
		return r.t == nil && o.t == nil
	}
	if !types.Identical(r.t, o.t) || r.addr != o.addr || r.canAddr != o.canAddr || r.ro != o.ro {
		return false
	}
	if r.addr != nil {
		return true
	}
	return identical(r.v, o.v)
}

// identical: same value by representation (no solver involved).
func identical(a, b Value) bool {
	switch x := a.(type) {
	case nil:
		return b == nil
	case *Expr:
		y, ok := b.(*Expr)
		return ok && x == y
	case *Value:
		y, ok := b.(*Value)
		return ok && x == y
	case *Map:
		y, ok := b.(*Map)
		return ok && x == y
	case *Str:
		y, ok := b.(*Str)
		if !ok {
			return false
		}
		if x == y {
			return true
		}
		if x.opaque || y.opaque || x.s != y.s || len(x.b) != len(y.b) || (x.b == nil) != (y.b == nil) {
			return false
		}
		for i := range x.b {
			if x.b[i] != y.b[i] {
				return false
			}
		}
		return true
	case Iface:
		y, ok := b.(Iface)
		if !ok || (x.t == nil) != (y.t == nil) {
			return false
		}
		return x.t == nil || types.Identical(x.t, y.t) && identical(x.v, y.v)
	case Struct:
		y, ok := b.(Struct)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !identical(x[i], y[i]) {
				return false
			}
		}
		return true
	case Array:
		y, ok := b.(Array)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !identical(x[i], y[i]) {
				return false
			}
		}
		return true
	case []Value:
		y, ok := b.([]Value)
		if !ok || len(x) != len(y) || cap(x) != cap(y) {
			return false
		}
		return cap(x) == 0 && (x == nil) == (y == nil) || cap(x) > 0 && &x[:1][0] == &y[:1][0]
	}
	return false
}

func (r RV) get() Value {
	if r.addr != nil {
		return copyVal(*r.addr)
	}
	return r.v
}

func (r RV) raw() Value { // no copy
	if r.addr != nil {
		return *r.addr
	}
	return r.v
}

func kindOf(t types.Type) reflect.Kind {
	if t == nil {
		return reflect.Invalid
	}
	switch u := types.Unalias(t).Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool, types.UntypedBool:
			return reflect.Bool
		case types.Int, types.UntypedInt:
			return reflect.Int
		case types.Int8:
			return reflect.Int8
		case types.Int16:
			return reflect.Int16
		case types.Int32:
			return reflect.Int32
		case types.Int64:
			return reflect.Int64
		case types.Uint:
			return reflect.Uint
		case types.Uint8:
			return reflect.Uint8
		case types.Uint16:
			return reflect.Uint16
		case types.Uint32:
			return reflect.Uint32
		case types.Uint64:
			return reflect.Uint64
		case types.Uintptr:
			return reflect.Uintptr
		case types.Float32:
			return reflect.Float32
		case types.Float64:
			return reflect.Float64
		case types.Complex64:
			return reflect.Complex64
		case types.Complex128:
			return reflect.Complex128
		case types.String, types.UntypedString:
			return reflect.String
		case types.UnsafePointer:
			return reflect.UnsafePointer
		}
	case *types.Array:
		return reflect.Array
	case *types.Slice:
		return reflect.Slice
	case *types.Struct:
		return reflect.Struct
	case *types.Map:
		return reflect.Map
	case *types.Pointer:
		return reflect.Ptr
	case *types.Interface:
		return reflect.Interface
	case *types.Signature:
		return reflect.Func
	case *types.Chan:
		return reflect.Chan
	}
	panic(unsupported("kind of " + t.String()))
}

func (in *Interp) mkType(t types.Type) Value {
	if t == nil {
		return Iface{}
	}
	return Iface{t: in.rtypeT, v: RType{in.canon(t)}}
}

func (in *Interp) typeArg(v Value) types.Type {
	i, ok := v.(Iface)
	if !ok || i.t == nil {
		in.rtPanic("reflect: nil type")
	}
	r, ok := i.v.(RType)
	if !ok {
		panic(unsupported("foreign reflect.Type"))
	}
	return r.t
}

func (in *Interp) valueOf(i Iface) RV {
	if i.t == nil {
		return RV{}
	}
	return RV{t: i.t, v: i.v}
}

func (in *Interp) rvInterface(r RV) Value {
	if r.t == nil {
		in.rtPanic("reflect: call of reflect.Value.Interface on zero Value")
	}
	if r.ro {
		in.rtPanic("reflect.Value.Interface: cannot return value obtained from unexported field or method")
	}
	v := r.get()
	if kindOf(r.t) == reflect.Interface {
		return v
	}
	return Iface{t: r.t, v: v}
}

func (in *Interp) kindPanic(m string, r RV) {
	in.rtPanic(fmt.Sprintf("reflect: call of reflect.Value.%s on %s Value", m, kindOf(r.t)))
}

func (in *Interp) mustSet(m string, r RV) {
	if r.t == nil {
		in.rtPanic("reflect: call of reflect.Value." + m + " on zero Value")
	}
	if r.ro {
		in.rtPanic("reflect: reflect.Value." + m + " using value obtained using unexported field")
	}
	if !r.canAddr {
		in.rtPanic("reflect: reflect.Value." + m + " using unaddressable value")
	}
}

func typeString(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

func typeName(t types.Type) string {
	switch x := types.Unalias(t).(type) {
	case *types.Named:
		return x.Obj().Name()
	case *types.Basic:
		return x.Name()
	}
	return ""
}

func (in *Interp) exportedMethods(t types.Type) int {
	if it, ok := under(t).(*types.Interface); ok {
		return it.NumMethods()
	}
	ms := in.prog.MethodSets.MethodSet(t)
	n := 0
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Exported() {
			n++
		}
	}
	return n
}

func (in *Interp) structField(t types.Type, i int) Value {
	st := under(t).(*types.Struct)
	f := st.Field(i)
	sft := in.pkgByPath["reflect"].Pkg.Scope().Lookup("StructField").Type()
	s := in.zero(sft).(Struct)
	ut := under(sft).(*types.Struct)
	for k := 0; k < ut.NumFields(); k++ {
		switch ut.Field(k).Name() {
		case "Name":
			s[k] = in.str(f.Name())
		case "PkgPath":
			if !f.Exported() && f.Pkg() != nil {
				s[k] = in.str(f.Pkg().Path())
			}
		case "Type":
			s[k] = in.mkType(f.Type())
		case "Tag":
			s[k] = in.str(st.Tag(i))
		case "Index":
			s[k] = []Value{in.b.Const(64, uint64(i))}
		case "Anonymous":
			s[k] = in.b.Bool(f.Embedded())
		}
	}
	return s
}

func (in *Interp) cint(n int) Value { return in.b.Const(64, uint64(int64(n))) }

func (in *Interp) rtypeMethod(r RType, name string, args []Value) Value {
	t := r.t
	b := in.b
	switch name {
	case "Kind":
		return b.Const(64, uint64(kindOf(t)))
	case "Elem":
		e := elemType(t)
		if e == nil {
			in.rtPanic("reflect: Elem of invalid type " + t.String())
		}
		return in.mkType(e)
	case "Key":
		m, ok := under(t).(*types.Map)
		if !ok {
			in.rtPanic("reflect: Key of non-map type")
		}
		return in.mkType(m.Key())
	case "Len":
		a, ok := under(t).(*types.Array)
		if !ok {
			in.rtPanic("reflect: Len of non-array type")
		}
		return in.cint(int(a.Len()))
	case "NumField":
		s, ok := under(t).(*types.Struct)
		if !ok {
			in.rtPanic("reflect: NumField of non-struct type " + t.String())
		}
		return in.cint(s.NumFields())
	case "Field":
		s, ok := under(t).(*types.Struct)
		if !ok {
			in.rtPanic("reflect: Field of non-struct type " + t.String())
		}
		i := int(in.concretize(in.expr(args[0]), 1024))
		if i < 0 || i >= s.NumFields() {
			in.rtPanic("reflect: Field index out of bounds")
		}
		return in.structField(t, i)
	case "FieldByName":
		s, ok := under(t).(*types.Struct)
		n, conc := args[0].(*Str).concrete()
		if !ok || !conc {
			panic(unsupported("FieldByName"))
		}
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() == n {
				return Tuple{in.structField(t, i), b.True}
			}
		}
		sft := in.pkgByPath["reflect"].Pkg.Scope().Lookup("StructField").Type()
		return Tuple{in.zero(sft), b.False}
	case "Name":
		return in.str(typeName(t))
	case "String":
		return in.str(typeString(t))
	case "PkgPath":
		if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
			return in.str(n.Obj().Pkg().Path())
		}
		return in.str("")
	case "Size":
		return in.cint(int(in.sizeofType(t)))
	case "Bits":
		return in.cint(int(in.sizeofType(t)) * 8)
	case "NumMethod":
		return in.cint(in.exportedMethods(t))
	case "Implements":
		it := in.typeArg(args[0])
		if _, ok := under(it).(*types.Interface); !ok {
			in.rtPanic("reflect: non-interface type passed to Type.Implements")
		}
		return b.Bool(in.implements(t, it))
	case "AssignableTo":
		return b.Bool(types.AssignableTo(t, in.typeArg(args[0])))
	case "ConvertibleTo":
		return b.Bool(types.ConvertibleTo(t, in.typeArg(args[0])))
	case "Comparable":
		return b.Bool(types.Comparable(t))
	}
	panic(unsupported("reflect.Type." + name))
}

func (in *Interp) rvIsNil(r RV) bool {
	switch x := r.raw().(type) {
	case *Value:
		return x == nil
	case *Map:
		return x == nil
	case []Value:
		return x == nil
	case Iface:
		return x.t == nil
	case *ssa.Function:
		return x == nil
	case *Closure:
		return x == nil
	case unsafePtr:
		return x.p == nil
	case *Chan:
		return x == nil
	case nil:
		return true
	}
	if k := kindOf(r.t); k == reflect.Func {
		return false
	}
	in.kindPanic("IsNil", r)
	return false
}

// isZeroV builds reflect's IsZero as an expression.
func (in *Interp) isZeroV(t types.Type, v Value) *Expr {
	b := in.b
	switch x := v.(type) {
	case *Expr:
		if x.w == 0 {
			return b.Not(x)
		}
		return b.Eq(x, b.Const(x.w, 0)) // floats: IsZero is on bits (+0 only)
	case *Str:
		return b.Bool(!x.opaque && x.Len() == 0)
	case Cplx:
		return b.Bool(x == 0)
	case Array:
		var ps []*Expr
		et := under(t).(*types.Array).Elem()
		for _, e := range x {
			ps = append(ps, in.isZeroV(et, e))
		}
		return b.And(ps...)
	case Struct:
		var ps []*Expr
		st := under(t).(*types.Struct)
		for i, e := range x {
			ps = append(ps, in.isZeroV(st.Field(i).Type(), e))
		}
		return b.And(ps...)
	}
	return b.Bool(in.rvIsNil(RV{t: t, v: v}))
}

// assignTo converts v of type from for storing in a location of type to.
func (in *Interp) assignTo(ctx string, from, to types.Type, v Value) Value {
	if it, ok := under(to).(*types.Interface); ok {
		if _, isI := under(from).(*types.Interface); isI {
			return v
		}
		if !types.Implements(from, it) {
			in.rtPanic(ctx + ": value of type " + from.String() + " is not assignable to type " + to.String())
		}
		return Iface{t: from, v: v}
	}
	if types.Identical(from, to) {
		return v
	}
	if types.AssignableTo(from, to) {
		return v
	}
	in.rtPanic(ctx + ": value of type " + from.String() + " is not assignable to type " + to.String())
	return nil
}

func (in *Interp) rvIndex(r RV, i int) RV {
	switch k := kindOf(r.t); k {
	case reflect.Array:
		a := under(r.t).(*types.Array)
		if i < 0 || int64(i) >= a.Len() {
			in.rtPanic("reflect: array index out of range")
		}
		if r.addr != nil {
			arr := (*r.addr).(Array)
			return RV{t: a.Elem(), addr: &arr[i], canAddr: r.canAddr, ro: r.ro}
		}
		return RV{t: a.Elem(), v: copyVal(r.v.(Array)[i]), ro: r.ro}
	case reflect.Slice:
		s := r.raw().([]Value)
		if i < 0 || i >= len(s) {
			in.rtPanic("reflect: slice index out of range")
		}
		return RV{t: elemType(r.t), addr: &s[i], canAddr: true, ro: r.ro}
	case reflect.String:
		s := r.raw().(*Str)
		if i < 0 || i >= s.Len() {
			in.rtPanic("reflect: string index out of range")
		}
		return RV{t: types.Typ[types.Uint8], v: in.strBytes(s)[i], ro: r.ro}
	}
	in.kindPanic("Index", r)
	return RV{}
}

func (in *Interp) rvElem(r RV) RV {
	switch kindOf(r.t) {
	case reflect.Ptr:
		p, ok := r.raw().(*Value)
		if !ok {
			panic(unsupported(fmt.Sprintf("reflect Elem of %T", r.raw())))
		}
		if p == nil {
			return RV{}
		}
		return RV{t: elemType(r.t), addr: p, canAddr: true, ro: r.ro}
	case reflect.Interface:
		i := r.raw().(Iface)
		if i.t == nil {
			return RV{}
		}
		return RV{t: i.t, v: i.v, ro: r.ro}
	}
	in.kindPanic("Elem", r)
	return RV{}
}

func (in *Interp) rvMethod(r RV, name string, args []Value) Value {
	b := in.b
	k := kindOf(r.t)
	switch name {
	case "Kind":
		return b.Const(64, uint64(k))
	case "IsValid":
		return b.Bool(r.t != nil)
	case "String":
		if r.t == nil {
			return in.str("<invalid Value>")
		}
		if k == reflect.String {
			return r.raw()
		}
		return in.str("<" + typeString(r.t) + " Value>")
	case "Comparable":
		return b.Bool(r.t == nil || types.Comparable(r.t))
	}
	if r.t == nil {
		switch name {
		case "CanSet", "CanAddr":
			return b.False
		case "CanInterface":
			in.rtPanic("reflect: call of reflect.Value.CanInterface on zero Value")
		}
		in.rtPanic("reflect: call of reflect.Value." + name + " on zero Value")
	}
	switch name {
	case "Type":
		return in.mkType(r.t)
	case "Interface":
		return in.rvInterface(r)
	case "CanInterface":
		return b.Bool(!r.ro)
	case "CanSet":
		return b.Bool(r.canAddr && !r.ro)
	case "CanAddr":
		return b.Bool(r.canAddr)
	case "CanInt":
		return b.Bool(k >= reflect.Int && k <= reflect.Int64)
	case "CanUint":
		return b.Bool(k >= reflect.Uint && k <= reflect.Uintptr)
	case "CanFloat":
		return b.Bool(k == reflect.Float32 || k == reflect.Float64)
	case "Addr":
		if !r.canAddr {
			in.rtPanic("reflect.Value.Addr of unaddressable value")
		}
		return RV{t: types.NewPointer(r.t), v: r.addr, ro: r.ro}
	case "Elem":
		return in.rvElem(r)
	case "IsNil":
		switch k {
		case reflect.Ptr, reflect.Map, reflect.Slice, reflect.Interface, reflect.Func, reflect.Chan, reflect.UnsafePointer:
			return b.Bool(in.rvIsNil(r))
		}
		in.kindPanic("IsNil", r)
	case "IsZero":
		return in.isZeroV(r.t, r.raw())
	case "SetZero":
		in.mustSet(name, r)
		in.store(r.addr, in.zero(r.t))
		return nil
	case "Int":
		if k < reflect.Int || k > reflect.Int64 {
			in.kindPanic(name, r)
		}
		return b.Resize(in.expr(r.raw()), 64, true)
	case "Uint":
		if k < reflect.Uint || k > reflect.Uintptr {
			in.kindPanic(name, r)
		}
		return b.Resize(in.expr(r.raw()), 64, false)
	case "Float":
		if k != reflect.Float32 && k != reflect.Float64 {
			in.kindPanic(name, r)
		}
		return b.FCvt(in.expr(r.raw()), 64)
	case "Bool":
		if k != reflect.Bool {
			in.kindPanic(name, r)
		}
		return r.raw()
	case "Bytes":
		if k == reflect.Slice && kindOf(elemType(r.t)) == reflect.Uint8 {
			return r.raw()
		}
		if k == reflect.Array && kindOf(elemType(r.t)) == reflect.Uint8 {
			if !r.canAddr {
				in.rtPanic("reflect.Value.Bytes of unaddressable byte array")
			}
			a := (*r.addr).(Array)
			return []Value(a[:len(a):len(a)])
		}
		in.kindPanic(name, r)
	case "SetInt":
		in.mustSet(name, r)
		if k < reflect.Int || k > reflect.Int64 {
			in.kindPanic(name, r)
		}
		in.setCell(r.addr, b.Resize(in.expr(args[0]), widthOf(r.t), true))
		return nil
	case "SetUint":
		in.mustSet(name, r)
		if k < reflect.Uint || k > reflect.Uintptr {
			in.kindPanic(name, r)
		}
		in.setCell(r.addr, b.Resize(in.expr(args[0]), widthOf(r.t), false))
		return nil
	case "SetFloat":
		in.mustSet(name, r)
		if k != reflect.Float32 && k != reflect.Float64 {
			in.kindPanic(name, r)
		}
		in.setCell(r.addr, b.FCvt(in.expr(args[0]), widthOf(r.t)))
		return nil
	case "SetBool":
		in.mustSet(name, r)
		if k != reflect.Bool {
			in.kindPanic(name, r)
		}
		in.setCell(r.addr, args[0])
		return nil
	case "SetString":
		in.mustSet(name, r)
		if k != reflect.String {
			in.kindPanic(name, r)
		}
		in.setCell(r.addr, args[0])
		return nil
	case "SetBytes":
		in.mustSet(name, r)
		if k != reflect.Slice || kindOf(elemType(r.t)) != reflect.Uint8 {
			in.rtPanic("reflect.Value.SetBytes of non-byte slice")
		}
		in.setCell(r.addr, args[0])
		return nil
	case "Set":
		in.mustSet(name, r)
		x := args[0].(RV)
		if x.t == nil {
			in.rtPanic("reflect: call of reflect.Value.Set on zero Value")
		}
		if x.ro {
			in.rtPanic("reflect: reflect.Value.Set using value obtained using unexported field")
		}
		in.store(r.addr, in.assignTo("reflect.Set", x.t, r.t, x.get()))
		return nil
	case "Len":
		switch x := r.raw().(type) {
		case []Value:
			return in.cint(len(x))
		case Array:
			return in.cint(len(x))
		case *Str:
			in.force(x)
			if x.opaque {
				panic(unsupported("len of formatted string"))
			}
			return in.cint(x.Len())
		case *Map:
			if x == nil {
				return in.cint(0)
			}
			return in.cint(x.n)
		}
		if k == reflect.Ptr && kindOf(elemType(r.t)) == reflect.Array {
			return in.cint(int(under(elemType(r.t)).(*types.Array).Len()))
		}
		in.kindPanic(name, r)
	case "Cap":
		switch x := r.raw().(type) {
		case []Value:
			return in.cint(cap(x))
		case Array:
			return in.cint(len(x))
		}
		in.kindPanic(name, r)
	case "SetLen":
		in.mustSet(name, r)
		s := r.raw().([]Value)
		e := in.expr(args[0])
		if !in.branch(b.Ule(e, b.Const(64, uint64(cap(s))))) {
			in.rtPanic("reflect: slice length out of range in SetLen")
		}
		in.setCell(r.addr, s[:in.concretize(e, 4096)])
		return nil
	case "SetCap":
		in.mustSet(name, r)
		s := r.raw().([]Value)
		n := int(in.concretize(in.expr(args[0]), 4096))
		if n < len(s) || n > cap(s) {
			in.rtPanic("reflect: slice capacity out of range in SetCap")
		}
		in.setCell(r.addr, s[:len(s):n])
		return nil
	case "Grow":
		in.mustSet(name, r)
		s := r.raw().([]Value)
		nE := in.expr(args[0])
		if in.branch(b.Slt(nE, b.Const(64, 0))) {
			in.rtPanic("reflect.Value.Grow: negative len")
		}
		in.checkAlloc(nE, in.sizeofType(elemType(r.t)), "reflect.Grow")
		n := int(in.concretize(nE, 4200))
		if len(s)+n > cap(s) {
			ns := in.makeSlice(elemType(r.t), in.cint(len(s)).(*Expr), in.cint(len(s)+n).(*Expr), true).([]Value)
			for i := range s {
				ns[i] = copyVal(s[i])
			}
			in.setCell(r.addr, ns)
		}
		return nil
	case "Index":
		e := in.expr(args[0])
		return in.rvIndex(r, int(int64(in.concretize(e, 4096))))
	case "Slice":
		if k == reflect.Array {
			if !r.canAddr {
				in.rtPanic("reflect.Value.Slice: slice of unaddressable array")
			}
			return RV{t: types.NewSlice(elemType(r.t)), v: in.sliceOp(r.addr, in.expr(args[0]), in.expr(args[1]), nil), ro: r.ro}
		}
		return RV{t: r.t, v: in.sliceOp(r.raw(), in.expr(args[0]), in.expr(args[1]), nil), ro: r.ro}
	case "NumField":
		s, ok := under(r.t).(*types.Struct)
		if !ok {
			in.kindPanic(name, r)
		}
		return in.cint(s.NumFields())
	case "NumMethod":
		if k == reflect.Interface {
			return in.cint(under(r.t).(*types.Interface).NumMethods())
		}
		return in.cint(in.exportedMethods(r.t))
	case "Field":
		s, ok := under(r.t).(*types.Struct)
		if !ok {
			in.kindPanic(name, r)
		}
		i := int(int64(in.concretize(in.expr(args[0]), 1024)))
		if i < 0 || i >= s.NumFields() {
			in.rtPanic("reflect: Field index out of range")
		}
		f := s.Field(i)
		out := RV{t: f.Type(), ro: r.ro || !f.Exported()}
		if r.addr != nil {
			st := (*r.addr).(Struct)
			out.addr = &st[i]
			out.canAddr = r.canAddr
		} else {
			out.v = copyVal(r.v.(Struct)[i])
		}
		return out
	case "FieldByName":
		s, ok := under(r.t).(*types.Struct)
		n, conc := args[0].(*Str).concrete()
		if !ok || !conc {
			panic(unsupported("FieldByName"))
		}
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() == n {
				return in.rvMethod(r, "Field", []Value{in.cint(i)})
			}
		}
		return RV{}
	case "MapKeys":
		m, ok := r.raw().(*Map)
		if !ok {
			in.kindPanic(name, r)
		}
		kt := under(r.t).(*types.Map).Key()
		out := []Value{}
		for _, e := range in.mapOrderList(m) {
			out = append(out, RV{t: kt, v: copyVal(e.k), ro: r.ro})
		}
		return out
	case "MapIndex":
		m, ok := r.raw().(*Map)
		if !ok {
			in.kindPanic(name, r)
		}
		mt := under(r.t).(*types.Map)
		kk := args[0].(RV)
		key := in.assignTo("reflect.Value.MapIndex", kk.t, mt.Key(), kk.get())
		v, found := in.mapGet(m, key, mt.Key())
		if !found {
			return RV{}
		}
		return RV{t: mt.Elem(), v: copyVal(v), ro: r.ro || kk.ro}
	case "SetMapIndex":
		m, ok := r.raw().(*Map)
		if !ok {
			in.kindPanic(name, r)
		}
		if r.ro {
			in.rtPanic("reflect: SetMapIndex using value obtained using unexported field")
		}
		mt := under(r.t).(*types.Map)
		kk, vv := args[0].(RV), args[1].(RV)
		key := in.assignTo("reflect.Value.SetMapIndex", kk.t, mt.Key(), kk.get())
		if vv.t == nil {
			if m != nil {
				in.mapDelete(m, key, mt.Key())
			}
			return nil
		}
		val := in.assignTo("reflect.Value.SetMapIndex", vv.t, mt.Elem(), vv.get())
		if m == nil {
			in.rtPanic("assignment to entry in nil map")
		}
		in.mapSet(m, key, val, mt.Key())
		return nil
	case "MapRange":
		m, ok := r.raw().(*Map)
		if !ok {
			in.kindPanic(name, r)
		}
		mt := under(r.t).(*types.Map)
		return newCell(&rvMapIter{ents: in.mapOrderList(m), i: -1, kt: mt.Key(), vt: mt.Elem(), ro: r.ro})
	case "Convert":
		to := in.typeArg(args[0])
		if _, isI := under(to).(*types.Interface); isI {
			return RV{t: to, v: in.assignTo("reflect.Value.Convert", r.t, to, r.get()), ro: r.ro}
		}
		if !types.ConvertibleTo(r.t, to) {
			in.rtPanic("reflect.Value.Convert: value of type " + r.t.String() + " cannot be converted to type " + to.String())
		}
		return RV{t: to, v: in.convert(r.t, to, r.get()), ro: r.ro}
	case "CanConvert":
		return b.Bool(types.ConvertibleTo(r.t, in.typeArg(args[0])))
	case "Pointer", "UnsafePointer", "UnsafeAddr":
		panic(unsupported("reflect.Value." + name))
	case "OverflowInt", "OverflowUint":
		e := in.expr(args[0])
		w := widthOf(r.t)
		return b.Not(b.Eq(b.Resize(b.Resize(e, w, false), 64, name == "OverflowInt"), e))
	case "Equal":
		o := args[0].(RV)
		if o.t == nil || !types.Identical(o.t, r.t) {
			return b.False
		}
		return in.eq(r.t, r.raw(), o.raw())
	case "Call":
		fn := r.raw()
		in2 := args[0].([]Value)
		var cargs []Value
		sig := under(r.t).(*types.Signature)
		if sig.Variadic() {
			panic(unsupported("reflect call variadic"))
		}
		for i, a := range in2 {
			rv := a.(RV)
			cargs = append(cargs, in.assignTo("reflect.Value.Call", rv.t, sig.Params().At(i).Type(), rv.get()))
		}
		res := in.Call(nil, fn, cargs)
		out := []Value{}
		switch sig.Results().Len() {
		case 0:
		case 1:
			out = append(out, RV{t: sig.Results().At(0).Type(), v: res})
		default:
			for i, x := range res.(Tuple) {
				out = append(out, RV{t: sig.Results().At(i).Type(), v: x})
			}
		}
		return out
	case "MethodByName":
		n, conc := args[0].(*Str).concrete()
		if !conc {
			panic(unsupported("MethodByName"))
		}
		sel := in.prog.MethodSets.MethodSet(r.t).Lookup(nil, n)
		if sel == nil {
			return RV{}
		}
		fn := in.prog.MethodValue(sel)
		recv := r.get()
		sig := sel.Type().(*types.Signature)
		return RV{t: types.NewSignatureType(nil, nil, nil, sig.Params(), sig.Results(), sig.Variadic()), v: &NativeFn{name: n, fn: func(in *Interp, a []Value) Value {
			return in.callSSA(fn, append([]Value{recv}, a...), nil, nil)
		}}}
	}
	panic(unsupported("reflect.Value." + name))
}

type rvMapIter struct {
	ents   []*mapEntry
	i      int
	kt, vt types.Type
	ro     bool
}

func (in *Interp) rvMapIterMethod(it *rvMapIter, name string, args []Value) Value {
	switch name {
	case "Next":
		it.i++
		return in.b.Bool(it.i < len(it.ents))
	case "Key":
		return RV{t: it.kt, v: copyVal(it.ents[it.i].k), ro: it.ro}
	case "Value":
		return RV{t: it.vt, v: copyVal(it.ents[it.i].v), ro: it.ro}
	}
	panic(unsupported("MapIter." + name))
}

func (in *Interp) reflectFunc(name string, args []Value) Value {
	b := in.b
	switch name {
	case "ValueOf":
		return in.valueOf(args[0].(Iface))
	case "TypeOf":
		return in.mkType(args[0].(Iface).t)
	case "New":
		t := in.typeArg(args[0])
		return RV{t: types.NewPointer(t), v: newCell(in.zero(t))}
	case "NewAt":
		panic(unsupported("reflect.NewAt"))
	case "Zero":
		t := in.typeArg(args[0])
		return RV{t: t, v: in.zero(t)}
	case "PtrTo", "PointerTo":
		return in.mkType(types.NewPointer(in.typeArg(args[0])))
	case "SliceOf":
		return in.mkType(types.NewSlice(in.typeArg(args[0])))
	case "ArrayOf":
		return in.mkType(types.NewArray(in.typeArg(args[1]), int64(in.concretize(in.expr(args[0]), 4096))))
	case "StructOf":
		ut := under(in.pkgByPath["reflect"].Pkg.Scope().Lookup("StructField").Type()).(*types.Struct)
		var fs []*types.Var
		var tags []string
		for _, x := range args[0].([]Value) {
			sf := x.(Struct)
			var fname, tag string
			var ft types.Type
			var emb bool
			for k := 0; k < ut.NumFields(); k++ {
				switch ut.Field(k).Name() {
				case "Name":
					fname = in.rawName(sf[k])
				case "Tag":
					tag = in.rawName(sf[k])
				case "Type":
					ft = in.typeArg(sf[k])
				case "Anonymous":
					emb = in.branch(in.expr(sf[k]))
				}
			}
			if !token.IsExported(fname) || emb {
				panic(unsupported("reflect.StructOf with unexported or embedded fields"))
			}
			fs = append(fs, types.NewField(token.NoPos, nil, fname, ft, false))
			tags = append(tags, tag)
		}
		return in.mkType(types.NewStruct(fs, tags))
	case "MapOf":
		return in.mkType(types.NewMap(in.typeArg(args[0]), in.typeArg(args[1])))
	case "Indirect":
		r := args[0].(RV)
		if kindOf(r.t) == reflect.Ptr {
			return in.rvElem(r)
		}
		return r
	case "MakeSlice":
		t := in.typeArg(args[0])
		if kindOf(t) != reflect.Slice {
			in.rtPanic("reflect.MakeSlice of non-slice type")
		}
		l, c := in.expr(args[1]), in.expr(args[2])
		if in.branch(b.Slt(l, b.Const(64, 0))) {
			in.rtPanic("reflect.MakeSlice: negative len")
		}
		return RV{t: t, v: in.makeSlice(elemType(t), l, c, true)}
	case "MakeMap", "MakeMapWithSize":
		t := in.typeArg(args[0])
		if kindOf(t) != reflect.Map {
			in.rtPanic("reflect.MakeMapWithSize of non-map type")
		}
		if name == "MakeMapWithSize" {
			in.checkAlloc(in.expr(args[1]), 16, "reflect.MakeMapWithSize")
		}
		return RV{t: t, v: in.newMap()}
	case "Append":
		r := args[0].(RV)
		if kindOf(r.t) != reflect.Slice {
			in.kindPanic("Append", r)
		}
		var vs []Value
		for _, x := range args[1].([]Value) {
			xr := x.(RV)
			vs = append(vs, in.assignTo("reflect.Append", xr.t, elemType(r.t), xr.get()))
		}
		return RV{t: r.t, v: in.appendVals(r.raw().([]Value), vs)}
	case "AppendSlice":
		r, x := args[0].(RV), args[1].(RV)
		return RV{t: r.t, v: in.appendVals(r.raw().([]Value), x.raw().([]Value))}
	case "Copy":
		d, s := args[0].(RV), args[1].(RV)
		var dst, src []Value
		switch kindOf(d.t) {
		case reflect.Array:
			in.mustSet("Copy", d)
			dst = (*d.addr).(Array)
		case reflect.Slice:
			dst = d.raw().([]Value)
		default:
			in.kindPanic("Copy", d)
		}
		switch x := s.raw().(type) {
		case Array:
			src = x
		case []Value:
			src = x
		case *Str:
			for _, e := range in.strBytes(x) {
				src = append(src, e)
			}
		}
		if s.t == nil {
			in.rtPanic("reflect: call of reflect.Copy on zero Value")
		}
		if kindOf(s.t) != reflect.String && !types.Identical(elemType(d.t), elemType(s.t)) {
			in.rtPanic("reflect.Copy: type mismatch")
		}
		n := len(dst)
		if len(src) < n {
			n = len(src)
		}
		in.copyVals(dst[:n], src[:n])
		return in.cint(n)
	case "DeepEqual":
		x, y := args[0].(Iface), args[1].(Iface)
		if x.t == nil || y.t == nil {
			return b.Bool(x.t == nil && y.t == nil)
		}
		if !types.Identical(x.t, y.t) {
			return b.False
		}
		return in.deepEq(x.t, x.v, y.v, false, 0)
	case "Swapper":
		i := args[0].(Iface)
		s, ok := i.v.([]Value)
		if !ok {
			in.rtPanic("reflect: Swapper of non-slice")
		}
		return &NativeFn{name: "reflect.Swapper", fn: func(in *Interp, a []Value) Value {
			p := int(in.concretize(in.expr(a[0]), 4096))
			q := int(in.concretize(in.expr(a[1]), 4096))
			if p < 0 || q < 0 || p >= len(s) || q >= len(s) {
				in.rtPanic("reflect: slice index out of range")
			}
			x, y := copyVal(s[p]), copyVal(s[q])
			in.store(&s[p], y)
			in.store(&s[q], x)
			return nil
		}}
	}
	panic(unsupported("reflect." + name))
}

// deepEq: structural equality. lax: nil==empty for slices and maps, floats by bits.
func (in *Interp) deepEq(t types.Type, x, y Value, lax bool, depth int) *Expr {
	b := in.b
	if depth > 100000 {
		panic(unsupported("deepEq recursion"))
	}
	switch a := x.(type) {
	case *Expr:
		c := in.expr(y)
		if !lax && isFloat(t) {
			return b.FCmp(OFEq, a, c)
		}
		return b.Eq(a, c)
	case *Str:
		return in.eq(t, x, y)
	case []Value:
		c := y.([]Value)
		if len(a) != len(c) {
			return b.False
		}
		if !lax && (a == nil) != (c == nil) {
			return b.False
		}
		ps := make([]*Expr, len(a))
		et := elemType(t)
		for i := range a {
			ps[i] = in.deepEq(et, a[i], c[i], lax, depth+1)
		}
		return b.And(ps...)
	case Array:
		c := y.(Array)
		ps := make([]*Expr, len(a))
		et := elemType(t)
		for i := range a {
			ps[i] = in.deepEq(et, a[i], c[i], lax, depth+1)
		}
		return b.And(ps...)
	case Struct:
		c := y.(Struct)
		st := under(t).(*types.Struct)
		var ps []*Expr
		for i := range a {
			ps = append(ps, in.deepEq(st.Field(i).Type(), a[i], c[i], lax, depth+1))
		}
		return b.And(ps...)
	case *Value:
		c := y.(*Value)
		if a == c {
			return b.True
		}
		if a == nil || c == nil {
			return b.False
		}
		return in.deepEq(elemType(t), *a, *c, lax, depth+1)
	case Iface:
		c := y.(Iface)
		if a.t == nil || c.t == nil {
			return b.Bool(a.t == nil && c.t == nil)
		}
		if !types.Identical(a.t, c.t) {
			return b.False
		}
		return in.deepEq(a.t, a.v, c.v, lax, depth+1)
	case *Map:
		c := y.(*Map)
		an, cn := 0, 0
		if a != nil {
			an = a.n
		}
		if c != nil {
			cn = c.n
		}
		if an != cn || (!lax && (a == nil) != (c == nil)) {
			return b.False
		}
		if an == 0 {
			return b.True
		}
		mt := under(t).(*types.Map)
		var ps []*Expr
		for _, e := range a.entries {
			if e.dead {
				continue
			}
			if ks, conc := in.keyStr(e.k); conc && !isFloat(mt.Key()) && c.idx[ks] != nil {
				ps = append(ps, in.deepEq(mt.Elem(), e.v, c.idx[ks].v, lax, depth+1))
				continue
			}
			var alts []*Expr
			for _, f := range c.entries {
				if f.dead {
					continue
				}
				alts = append(alts, b.And(in.eq(mt.Key(), e.k, f.k), in.deepEq(mt.Elem(), e.v, f.v, lax, depth+1)))
			}
			ps = append(ps, b.Or(alts...))
		}
		return b.And(ps...)
	case *ssa.Function, *Closure:
		return in.eq(t, x, y)
	case RType:
		return in.eq(t, x, y)
	case nil:
		return b.Bool(y == nil)
	}
	panic(unsupported(fmt.Sprintf("deepEq of %T", x)))
}
