package main

// Engine side of the harness API (package sym).

import (
	"fmt"
	"go/types"
)

var symIntrinsics map[string]func(in *Interp, fr *frame, args []Value) Value

func (in *Interp) symName(v Value) string {
	s, ok := v.(*Str).concrete()
	if !ok {
		panic(engineError("symbolic variable name"))
	}
	p := in.p
	n := p.names[s]
	p.names[s]++
	if n > 0 {
		return fmt.Sprintf("%s#%d", s, n)
	}
	return s
}

func (in *Interp) rawName(v Value) string {
	s, ok := v.(*Str).concrete()
	if !ok {
		return "?"
	}
	return s
}

func (in *Interp) boolVar(name string) *Expr { return in.b.Var(name, 0) }

func init() {
	mkInt := func(w int) func(in *Interp, fr *frame, a []Value) Value {
		return func(in *Interp, fr *frame, a []Value) Value { return in.b.Var(in.symName(a[0]), w) }
	}
	bytesOf := func(in *Interp, a []Value) []*Expr {
		name := in.symName(a[0])
		n := int(int64(in.concretize(in.expr(a[1]), 4096)))
		out := make([]*Expr, n)
		for i := range out {
			out[i] = in.b.Var(fmt.Sprintf("%s.%d", name, i), 8)
		}
		return out
	}
	boolList := func(in *Interp, v Value) []*Expr {
		var out []*Expr
		for _, x := range v.([]Value) {
			out = append(out, in.expr(x))
		}
		return out
	}
	symIntrinsics = map[string]func(in *Interp, fr *frame, args []Value) Value{
		"U8": mkInt(8), "U16": mkInt(16), "U32": mkInt(32), "U64": mkInt(64),
		"I8": mkInt(8), "I16": mkInt(16), "I32": mkInt(32), "I64": mkInt(64), "Int": mkInt(64), "Uint": mkInt(64),
		"F32": mkInt(32), "F64": mkInt(64), "Bool": mkInt(0),
		"Bytes": func(in *Interp, fr *frame, a []Value) Value {
			return fromExprs(bytesOf(in, a))
		},
		"String": func(in *Interp, fr *frame, a []Value) Value {
			return in.mkStr(bytesOf(in, a))
		},
		"Choose": func(in *Interp, fr *frame, a []Value) Value {
			n := int(in.concretize(in.expr(a[1]), 4096))
			return in.cint(in.choose(in.symName(a[0]), n))
		},
		"Concretize": func(in *Interp, fr *frame, a []Value) Value {
			return in.b.Const(64, in.concretize(in.expr(a[0]), 1024))
		},
		"Assume": func(in *Interp, fr *frame, a []Value) Value {
			in.assumeCond(in.expr(a[0]))
			return nil
		},
		"Assert": func(in *Interp, fr *frame, a []Value) Value {
			in.assertCond(in.expr(a[0]), "assert", in.rawName(a[1]))
			return nil
		},
		"Reach": func(in *Interp, fr *frame, a []Value) Value {
			in.p.reach = append(in.p.reach, in.rawName(a[0]))
			return nil
		},
		"Observe": func(in *Interp, fr *frame, a []Value) Value {
			i := a[1].(Iface)
			in.p.obs = append(in.p.obs, obsItem{name: in.rawName(a[0]), v: Iface{t: i.t, v: deepCopy(i.v, 0)}, t: nil})
			return nil
		},
		"And": func(in *Interp, fr *frame, a []Value) Value { return in.b.And(boolList(in, a[0])...) },
		"Or":  func(in *Interp, fr *frame, a []Value) Value { return in.b.Or(boolList(in, a[0])...) },
		"Not": func(in *Interp, fr *frame, a []Value) Value { return in.b.Not(in.expr(a[0])) },
		"Imp": func(in *Interp, fr *frame, a []Value) Value {
			return in.b.Or(in.b.Not(in.expr(a[0])), in.expr(a[1]))
		},
		"Iff": func(in *Interp, fr *frame, a []Value) Value { return in.b.Eq(in.expr(a[0]), in.expr(a[1])) },
		"IteInt": func(in *Interp, fr *frame, a []Value) Value {
			return in.b.Ite(in.expr(a[0]), in.expr(a[1]), in.expr(a[2]))
		},
		"IteU64": func(in *Interp, fr *frame, a []Value) Value {
			return in.b.Ite(in.expr(a[0]), in.expr(a[1]), in.expr(a[2]))
		},
		"IteU8": func(in *Interp, fr *frame, a []Value) Value {
			return in.b.Ite(in.expr(a[0]), in.expr(a[1]), in.expr(a[2]))
		},
		"Eq": func(in *Interp, fr *frame, a []Value) Value {
			x, y := a[0].(Iface), a[1].(Iface)
			if x.t == nil || y.t == nil {
				return in.b.Bool(x.t == nil && y.t == nil)
			}
			if !types.Identical(x.t, y.t) {
				return in.b.False
			}
			return in.deepEq(x.t, x.v, y.v, true, 0)
		},
		"BytesEq": func(in *Interp, fr *frame, a []Value) Value {
			x, y := in.exprBytes(a[0]), in.exprBytes(a[1])
			if len(x) != len(y) {
				return in.b.False
			}
			ps := make([]*Expr, len(x))
			for i := range x {
				ps[i] = in.b.Eq(x[i], y[i])
			}
			return in.b.And(ps...)
		},
		"StrEq": func(in *Interp, fr *frame, a []Value) Value {
			return in.eq(types.Typ[types.String], a[0], a[1])
		},
		"Tier": func(in *Interp, fr *frame, a []Value) Value {
			if in.ex.cfg.Tier == "thorough" {
				return in.cint(1)
			}
			return in.cint(0)
		},
		"WithAlloc": func(in *Interp, fr *frame, a []Value) Value {
			old := in.allocLimit
			in.allocLimit = int64(in.concretize(in.expr(a[0]), 4))
			in.Call(fr, a[1], nil)
			in.allocLimit = old
			return nil
		},
		"Native": func(in *Interp, fr *frame, a []Value) Value { return in.b.False },
		"WithTotal": func(in *Interp, fr *frame, a []Value) Value {
			in.totalLimit, in.spent = int64(in.concretize(in.expr(a[0]), 4)), 0
			in.Call(fr, a[1], nil)
			in.totalLimit = 0
			return nil
		},
		"WithSteps": func(in *Interp, fr *frame, a []Value) Value {
			old := in.maxSteps
			lim := in.steps + int(in.concretize(in.expr(a[0]), 4))
			if lim < old {
				in.maxSteps = lim
			}
			defer func() { in.maxSteps = old }()
			in.Call(fr, a[1], nil)
			return nil
		},
		"Par": func(in *Interp, fr *frame, a []Value) Value {
			in.runPar(fr, a[0], a[1], a[2])
			return nil
		},
		"MapOrder": func(in *Interp, fr *frame, a []Value) Value {
			in.mapOrder = in.expr(a[0]).IsTrue()
			return nil
		},
		"SetTrace": func(in *Interp, fr *frame, a []Value) Value {
			in.traceOn = in.expr(a[0]).IsTrue()
			return nil
		},
		"Symbolic": func(in *Interp, fr *frame, a []Value) Value { return in.b.True },
		"DecText": func(in *Interp, fr *frame, a []Value) Value {
			return in.mkStr(in.decimal(in.b.Concat(in.expr(a[0]), in.b.Concat(in.expr(a[1]), in.expr(a[2])))))
		},
		"ParseDec": func(in *Interp, fr *frame, a []Value) Value {
			b := in.b
			z := b.Const(64, 0)
			neg, v, ok := in.parseDec(in.strBytes(a[0].(*Str)), false)
			if !ok {
				return Tuple{b.False, z, z, b.False}
			}
			v = b.Zext(v, maxInt(v.w, 160))
			fits := b.Eq(b.Extract(v, v.w-1, 128), in.constBig(v.w-128, bigZero))
			return Tuple{b.Bool(neg), b.Extract(v, 127, 64), b.Extract(v, 63, 0), fits}
		},
	}
}

func maxInt(a, b int) int {
	if a > b {
		return a
	}
	return b
}

// deepCopy snapshots a value for later rendering.
func deepCopy(v Value, depth int) Value {
	if depth > 60 {
		return v
	}
	switch x := v.(type) {
	case Array:
		y := make(Array, len(x))
		for i := range x {
			y[i] = deepCopy(x[i], depth+1)
		}
		return y
	case Struct:
		y := make(Struct, len(x))
		for i := range x {
			y[i] = deepCopy(x[i], depth+1)
		}
		return y
	case []Value:
		if x == nil {
			return x
		}
		y := make([]Value, len(x))
		for i := range x {
			y[i] = deepCopy(x[i], depth+1)
		}
		return y
	case *Value:
		if x == nil {
			return x
		}
		return newCell(deepCopy(*x, depth+1))
	case Iface:
		return Iface{t: x.t, v: deepCopy(x.v, depth+1)}
	case *Map:
		if x == nil {
			return x
		}
		m := &Map{n: x.n}
		for _, e := range x.entries {
			if !e.dead {
				m.entries = append(m.entries, &mapEntry{k: e.k, v: deepCopy(e.v, depth+1)})
			}
		}
		return m
	}
	return v
}
