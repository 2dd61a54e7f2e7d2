package main

import (
	"fmt"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (in *Interp) builtin(fr *frame, bi *ssa.Builtin, args []Value, call *ssa.CallCommon) Value {
	b := in.b
	i64 := func(n int) Value { return b.Const(64, uint64(int64(n))) }
	switch bi.Name() {
	case "len":
		switch x := args[0].(type) {
		case *Str:
			in.force(x)
			if x.opaque {
				panic(unsupported("len of a formatted string"))
			}
			return i64(x.Len())
		case []Value:
			return i64(len(x))
		case Array:
			return i64(len(x))
		case *Map:
			if x == nil {
				return i64(0)
			}
			return i64(x.n)
		case *Value:
			return i64(len((*x).(Array)))
		}
	case "cap":
		switch x := args[0].(type) {
		case []Value:
			return i64(cap(x))
		case Array:
			return i64(len(x))
		case *Value:
			return i64(len((*x).(Array)))
		}
	case "append":
		if len(args) == 1 {
			return args[0]
		}
		dst := args[0].([]Value)
		switch src := args[1].(type) {
		case *Str:
			bs := in.strBytes(src)
			vs := make([]Value, len(bs))
			for i := range bs {
				vs[i] = bs[i]
			}
			return in.appendVals(dst, vs)
		case []Value:
			return in.appendVals(dst, src)
		}
	case "copy":
		dst := args[0].([]Value)
		var src []Value
		switch s := args[1].(type) {
		case *Str:
			bs := in.strBytes(s)
			src = make([]Value, len(bs))
			for i := range bs {
				src[i] = bs[i]
			}
		case []Value:
			src = s
		}
		n := len(src)
		if len(dst) < n {
			n = len(dst)
		}
		in.copyVals(dst[:n], src[:n])
		return i64(n)
	case "delete":
		m := args[0].(*Map)
		if m != nil {
			in.mapDelete(m, args[1], under(call.Args[0].Type()).(*types.Map).Key())
		}
		return nil
	case "clear":
		switch x := args[0].(type) {
		case *Map:
			if x != nil {
				for _, e := range append([]*mapEntry(nil), x.entries...) {
					if !e.dead {
						in.killEntry(x, e)
					}
				}
			}
		case []Value:
			z := in.zero(under(call.Args[0].Type()).(*types.Slice).Elem())
			for i := range x {
				in.store(&x[i], copyVal(z))
			}
		}
		return nil
	case "panic":
		panic(targetPanic{v: args[0].(Iface), where: in.where()})
	case "recover":
		// valid only when called directly by a deferred function
		if fr.caller != nil && fr.caller.panicking {
			tp, ok := fr.caller.panicV.(targetPanic)
			if ok {
				fr.caller.panicking = false
				return tp.v
			}
		}
		return Iface{}
	case "print", "println":
		return nil
	case "min", "max":
		t := call.Args[0].Type()
		res := args[0]
		for _, a := range args[1:] {
			var lt *Expr
			if s, ok := a.(*Str); ok {
				lt = in.strLess(s, res.(*Str))
			} else if isFloat(t) {
				panic(unsupported("min/max float"))
			} else if isSigned(t) {
				lt = b.Slt(in.expr(a), in.expr(res))
			} else {
				lt = b.Ult(in.expr(a), in.expr(res))
			}
			take := lt
			if bi.Name() == "max" {
				if s, ok := a.(*Str); ok {
					take = in.strLess(res.(*Str), s)
				} else if isSigned(t) {
					take = b.Slt(in.expr(res), in.expr(a))
				} else {
					take = b.Ult(in.expr(res), in.expr(a))
				}
			}
			if e, ok := a.(*Expr); ok {
				res = b.Ite(take, e, in.expr(res))
			} else if in.branch(take) {
				res = a
			}
		}
		return res
	case "ssa:wrapnilchk":
		if p, ok := args[0].(*Value); ok && p == nil {
			in.rtPanic("value method called using nil pointer")
		}
		return args[0]
	case "ssa:deferstack":
		return nil
	case "String": // unsafe.String(ptr, len)
		n := int(in.concretize(b.Resize(in.expr(args[1]), 64, true), 4096))
		vs := in.unsafeSpan(args[0], n)
		bs := make([]*Expr, n)
		for i := range bs {
			bs[i] = in.expr(vs[i])
		}
		return in.mkStr(bs)
	case "StringData":
		s := args[0].(*Str)
		bs := in.strBytes(s)
		vs := make([]Value, len(bs))
		for i := range bs {
			vs[i] = bs[i]
		}
		if len(vs) == 0 {
			return (*Value)(nil)
		}
		in.spans()[&vs[0]] = vs
		return &vs[0]
	case "SliceData":
		vs := args[0].([]Value)
		if cap(vs) == 0 {
			if vs == nil {
				return (*Value)(nil)
			}
			return newCell(nil)
		}
		vs = vs[:cap(vs)]
		in.spans()[&vs[0]] = vs
		return &vs[0]
	case "Slice":
		n := int(in.concretize(b.Resize(in.expr(args[1]), 64, true), 4096))
		return in.unsafeSpan(args[0], n)
	}
	panic(unsupported("builtin " + bi.Name() + fmt.Sprintf(" %T", args[0])))
}

func (in *Interp) spans() map[*Value][]Value {
	if in.p == nil {
		panic(unsupported("unsafe data in init"))
	}
	if in.p.spans == nil {
		in.p.spans = map[*Value][]Value{}
	}
	return in.p.spans
}

func (in *Interp) unsafeSpan(p Value, n int) []Value {
	c, ok := p.(*Value)
	if !ok {
		panic(unsupported("unsafe.Slice/String"))
	}
	if n == 0 {
		return []Value{}
	}
	if vs, ok := in.spans()[c]; ok && len(vs) >= n {
		return vs[:n]
	}
	if n == 1 {
		return []Value{*c}
	}
	panic(unsupported("unsafe.Slice/String of unknown span"))
}

func (in *Interp) appendVals(dst []Value, src []Value) []Value {
	n := len(dst) + len(src)
	if len(src) == 0 {
		return dst
	}
	if n <= cap(dst) {
		tmp := make([]Value, len(src))
		for i := range src {
			tmp[i] = copyVal(src[i])
		}
		out := dst[:n]
		for i := range tmp {
			in.setCell(&out[len(dst)+i], tmp[i])
		}
		return out
	}
	nc := 2 * cap(dst)
	if nc < n {
		nc = n
	}
	if nc < 8 {
		nc = 8
	}
	in.charge(int64(nc))
	out := make([]Value, n, nc)
	for i := range dst {
		out[i] = copyVal(dst[i])
	}
	for i := range src {
		out[len(dst)+i] = copyVal(src[i])
	}
	// spare capacity must hold well-typed zero cells
	if nc > n {
		z := zeroLike(in, out[n-1])
		full := out[:nc]
		for i := n; i < nc; i++ {
			full[i] = copyVal(z)
		}
	}
	return out
}

func zeroLike(in *Interp, v Value) Value {
	switch x := v.(type) {
	case *Expr:
		return in.b.Const(x.w, 0)
	case *Str:
		return in.emptyStr
	case []Value:
		return []Value(nil)
	case Array:
		y := make(Array, len(x))
		for i := range x {
			y[i] = zeroLike(in, x[i])
		}
		return y
	case Struct:
		y := make(Struct, len(x))
		for i := range x {
			y[i] = zeroLike(in, x[i])
		}
		return y
	case *Value:
		return (*Value)(nil)
	case Iface:
		return Iface{}
	case *Map:
		return (*Map)(nil)
	case RV:
		return RV{}
	case *ssa.Function, *Closure, *NativeFn:
		return (*ssa.Function)(nil)
	}
	return nil
}

func (in *Interp) copyVals(dst, src []Value) {
	if len(dst) == 0 {
		return
	}
	tmp := make([]Value, len(src))
	for i := range src {
		tmp[i] = copyVal(src[i])
	}
	for i := range dst {
		in.store(&dst[i], tmp[i])
	}
}

// ---- maps ----

func (in *Interp) newMap() *Map { return &Map{idx: map[string]*mapEntry{}} }

// keyStr gives a canonical text for a fully concrete key.
func (in *Interp) keyStr(v Value) (string, bool) {
	switch x := v.(type) {
	case *Expr:
		if !x.IsConst() {
			return "", false
		}
		return strconv.Itoa(x.w) + ":" + strconv.FormatUint(x.val, 16), true
	case *Str:
		s, ok := x.concrete()
		return "s" + strconv.Itoa(len(s)) + ":" + s, ok
	case Array:
		var sb strings.Builder
		sb.WriteByte('[')
		for _, e := range x {
			s, ok := in.keyStr(e)
			if !ok {
				return "", false
			}
			sb.WriteString(s)
			sb.WriteByte(',')
		}
		return sb.String(), true
	case Struct:
		var sb strings.Builder
		sb.WriteByte('{')
		for _, e := range x {
			s, ok := in.keyStr(e)
			if !ok {
				return "", false
			}
			sb.WriteString(s)
			sb.WriteByte(',')
		}
		return sb.String(), true
	case Iface:
		if x.t == nil {
			return "nil", true
		}
		s, ok := in.keyStr(x.v)
		if !ok {
			return "", false
		}
		return fmt.Sprintf("I%p/", in.canon(x.t)) + s, true
	case RType:
		return fmt.Sprintf("T%p", in.canon(x.t)), true
	case *Value:
		return fmt.Sprintf("p%p", x), true
	}
	return "", false
}

func isFloatKey(t types.Type) bool { return isFloat(t) }

func (in *Interp) mapFind(m *Map, k Value, kt types.Type) *mapEntry {
	if m == nil {
		return nil
	}
	if ifc, ok := k.(Iface); ok && ifc.t != nil && !types.Comparable(ifc.t) {
		in.rtPanic("hash of unhashable type " + ifc.t.String())
	}
	ks, conc := in.keyStr(k)
	if conc && isFloat(kt) {
		conc = false // NaN / signed zero semantics
	}
	if conc {
		if e := m.idx[ks]; e != nil {
			return e
		}
		if m.symKeys == 0 {
			return nil
		}
	}
	for _, e := range m.entries {
		if e.dead {
			continue
		}
		if in.branch(in.eq(kt, e.k, k)) {
			return e
		}
	}
	return nil
}

func (in *Interp) mapGet(m *Map, k Value, kt types.Type) (Value, bool) {
	if in.par != nil {
		in.parMap(m, false, nil)
	}
	e := in.mapFind(m, k, kt)
	if e == nil {
		return nil, false
	}
	return e.v, true
}

func (in *Interp) mapSet(m *Map, k, v Value, kt types.Type) {
	k, v = copyVal(k), copyVal(v)
	if in.par != nil {
		defer in.parMap(m, true, v)
	}
	if e := in.mapFind(m, k, kt); e != nil {
		old := e.v
		e.v = v
		in.onUndo(func() { e.v = old })
		return
	}
	e := &mapEntry{k: k, v: v}
	m.entries = append(m.entries, e)
	m.n++
	ks, conc := in.keyStr(k)
	if conc && isFloat(kt) {
		conc = false
	}
	if conc {
		m.idx[ks] = e
	} else {
		m.symKeys++
	}
	in.onUndo(func() {
		m.n--
		m.entries = m.entries[:len(m.entries)-1]
		if conc {
			delete(m.idx, ks)
		} else {
			m.symKeys--
		}
	})
}

func (in *Interp) killEntry(m *Map, e *mapEntry) {
	e.dead = true
	m.n--
	var key string
	for ks, x := range m.idx {
		if x == e {
			key = ks
			delete(m.idx, ks)
			break
		}
	}
	in.onUndo(func() {
		e.dead = false
		m.n++
		if key != "" {
			m.idx[key] = e
		}
	})
}

func (in *Interp) mapDelete(m *Map, k Value, kt types.Type) {
	if in.par != nil {
		defer in.parMap(m, true, nil)
	}
	if e := in.mapFind(m, k, kt); e != nil {
		in.killEntry(m, e)
	}
}

// mapOrderList returns live entries in iteration order: insertion order, or,
// when the harness asked for it, every order (forked).
func (in *Interp) mapOrderList(m *Map) []*mapEntry {
	if m == nil {
		return nil
	}
	var live []*mapEntry
	for _, e := range m.entries {
		if !e.dead {
			live = append(live, e)
		}
	}
	if !in.mapOrder || len(live) < 2 || len(live) > 5 {
		return live
	}
	var out []*mapEntry
	for len(live) > 0 {
		i := 0
		if len(live) > 1 {
			i = in.choose("", len(live))
		}
		out = append(out, live[i])
		rest := append([]*mapEntry(nil), live[:i]...)
		live = append(rest, live[i+1:]...)
	}
	return out
}
