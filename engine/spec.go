package main

// Merging of small side-effect-free branches: instead of forking on an If, both
// sides are evaluated up to the point where they rejoin (or return) and their
// results are combined with if-then-else terms. Whatever cannot be evaluated
// without effects, panics or further decisions falls back to forking.

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

type specAbort struct{}

var pureReflect = map[string]bool{
	"(reflect.Value).IsZero": true, "(reflect.Value).Kind": true, "(reflect.Value).IsNil": true, "(reflect.Value).IsValid": true,
	"(reflect.Value).CanSet": true, "(reflect.Value).CanAddr": true, "(reflect.Value).CanInterface": true, "(reflect.Value).Len": true,
	"(reflect.Value).Type": true, "(reflect.Value).NumField": true, "(reflect.Value).Elem": true, "(reflect.Value).Uint": true,
	"(reflect.Value).Int": true, "(reflect.Value).Bool": true, "(reflect.Value).Float": true, "(reflect.Value).String": true, "reflect.Indirect": true,
	"math.Float32bits": true, "math.Float64bits": true, "math.Float32frombits": true, "math.Float64frombits": true, "math.IsNaN": true,
}

func (in *Interp) pureFn(fn *ssa.Function, depth int) bool {
	if v, ok := in.pureCache[fn]; ok {
		return v
	}
	in.pureCache[fn] = false // recursion: not pure
	if pureReflect[fn.String()] {
		in.pureCache[fn] = true
		return true
	}
	fi := in.info(fn)
	res := fi.intrinsic == nil && len(fn.Blocks) > 0 && len(fn.Blocks) <= 16 && depth < 6 && !fi.isInit
	if res {
	outer:
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				if !in.pureInstr(i, depth+1) {
					res = false
					break outer
				}
			}
		}
	}
	in.pureCache[fn] = res
	return res
}

func (in *Interp) pureInstr(i ssa.Instruction, depth int) bool {
	switch x := i.(type) {
	case *ssa.DebugRef, *ssa.Phi, *ssa.Jump, *ssa.If, *ssa.Return, *ssa.ChangeType, *ssa.ChangeInterface, *ssa.MakeInterface, *ssa.Extract, *ssa.Field, *ssa.FieldAddr, *ssa.Index, *ssa.IndexAddr:
		return true
	case *ssa.Convert:
		return true
	case *ssa.BinOp:
		if x.Op == token.QUO || x.Op == token.REM {
			c, ok := x.Y.(*ssa.Const)
			return ok && c.Value != nil && c.Value.String() != "0"
		}
		return true
	case *ssa.UnOp:
		return x.Op != token.ARROW
	case *ssa.Lookup:
		_, isMap := under(x.X.Type()).(*types.Map)
		return !isMap
	case *ssa.Call:
		if x.Call.IsInvoke() {
			return false
		}
		switch f := x.Call.Value.(type) {
		case *ssa.Builtin:
			return f.Name() == "len" || f.Name() == "cap"
		case *ssa.Function:
			return in.pureFn(f, depth)
		}
	}
	return false
}

// postDom computes immediate post-dominators; -1 stands for the exit.
func postDom(fi *fnInfo) []int {
	n := len(fi.blocks)
	// iterative set-based computation over small functions
	words := (n + 64) / 64
	full := make([]uint64, words)
	for i := range full {
		full[i] = ^uint64(0)
	}
	sets := make([][]uint64, n)
	for i := range sets {
		sets[i] = append([]uint64(nil), full...)
		if len(fi.blocks[i].succs) == 0 {
			for j := range sets[i] {
				sets[i][j] = 0
			}
			sets[i][i/64] |= 1 << uint(i%64)
		}
	}
	for changed := true; changed; {
		changed = false
		for i := n - 1; i >= 0; i-- {
			ss := fi.blocks[i].succs
			if len(ss) == 0 {
				continue
			}
			t := append([]uint64(nil), sets[ss[0]]...)
			for _, s := range ss[1:] {
				for j := range t {
					t[j] &= sets[s][j]
				}
			}
			t[i/64] |= 1 << uint(i%64)
			for j := range t {
				if t[j] != sets[i][j] {
					sets[i] = t
					changed = true
					break
				}
			}
		}
	}
	count := func(s []uint64) int {
		c := 0
		for _, w := range s {
			for ; w != 0; w &= w - 1 {
				c++
			}
		}
		return c
	}
	out := make([]int, n)
	for i := range out {
		out[i] = -1
		best := -1
		for j := 0; j < n; j++ {
			if j == i || sets[i][j/64]>>uint(j%64)&1 == 0 {
				continue
			}
			if c := count(sets[j]); c > best {
				best, out[i] = c, j
			}
		}
	}
	return out
}

// specRegion tells whether the blocks between blk and its post-dominator are pure and few; computed once per block.
func (in *Interp) specRegion(fi *fnInfo, blk int) (int, bool) {
	if fi.spec == nil {
		fi.spec = make([]int8, len(fi.blocks))
		fi.pdom = postDom(fi)
	}
	j := fi.pdom[blk]
	if fi.spec[blk] != 0 {
		return j, fi.spec[blk] == 1
	}
	fi.spec[blk] = -1
	seen := map[int]bool{}
	stack := append([]int(nil), fi.blocks[blk].succs...)
	for len(stack) > 0 {
		b := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		if b == j || seen[b] {
			continue
		}
		if b == blk || len(seen) > 10 {
			return j, false
		}
		seen[b] = true
		for k := range fi.blocks[b].code {
			if !in.pureInstr(fi.blocks[b].code[k].in, 0) {
				return j, false
			}
		}
		stack = append(stack, fi.blocks[b].succs...)
	}
	fi.spec[blk] = 1
	return j, true
}

// specMerge evaluates both sides of an If. It returns the join block (phis set) or -1 after setting the result.
func (in *Interp) specMerge(fr *frame, blk int, cond *Expr) (join int, ok bool) {
	fi := fr.fi
	j, pure := in.specRegion(fi, blk)
	if !pure || (j < 0 && fi.hasDefer) {
		return 0, false
	}
	saveFn, saveDepth := in.curFn, in.depth
	in.spec++
	defer func() {
		in.spec--
		if r := recover(); r != nil {
			switch r.(type) {
			case specAbort, targetPanic, unsupported:
				in.curFn, in.depth = saveFn, saveDepth
				join, ok = 0, false
				return
			}
			panic(r)
		}
	}()
	vals := in.specIf(fr, blk, cond, j, 0)
	if j < 0 {
		switch len(vals) {
		case 0:
			fr.result = nil
		case 1:
			fr.result = vals[0]
		default:
			fr.result = Tuple(vals)
		}
		return -1, true
	}
	cb := &fi.blocks[j]
	for i := range cb.phis {
		fr.regs[cb.phis[i].dst] = vals[i]
	}
	return j, true
}

func (in *Interp) specIf(fr *frame, blk int, cond *Expr, j, depth int) []Value {
	if depth > 6 {
		panic(specAbort{})
	}
	cb := &fr.fi.blocks[blk]
	a := in.specBlock(fr, cb.succs[0], blk, j, depth+1)
	b := in.specBlock(fr, cb.succs[1], blk, j, depth+1)
	if len(a) != len(b) {
		panic(specAbort{})
	}
	out := make([]Value, len(a))
	for i := range a {
		out[i] = in.mergeVal(cond, a[i], b[i])
	}
	return out
}

// specBlock runs from blk until j (returning the values of j's phis) or a return.
func (in *Interp) specBlock(fr *frame, blk, prev, j, depth int) []Value {
	fi := fr.fi
	for n := 0; ; n++ {
		if n > 40 {
			panic(specAbort{})
		}
		cb := &fi.blocks[blk]
		pi := -1
		if len(cb.phis) > 0 {
			for i, p := range cb.preds {
				if p == prev {
					pi = i
					break
				}
			}
			if pi < 0 {
				panic(engineError("phi predecessor"))
			}
		}
		vals := make([]Value, len(cb.phis))
		for i := range cb.phis {
			vals[i] = in.val(fr, &cb.phis[i].ops[pi])
		}
		if blk == j {
			return vals
		}
		for i := range cb.phis {
			fr.regs[cb.phis[i].dst] = vals[i]
		}
		fi.cov[blk] = true
		next := -1
		for ci := range cb.code {
			c := &cb.code[ci]
			in.steps++
			if in.steps > in.maxSteps {
				panic(pathEnd{"steps", "step limit in " + fi.name})
			}
			switch x := c.in.(type) {
			case *ssa.If:
				cond := in.expr(in.val(fr, &c.ops[0]))
				if v, known := in.known(cond); known {
					if v {
						next = cb.succs[0]
					} else {
						next = cb.succs[1]
					}
				} else {
					return in.specIf(fr, blk, cond, j, depth)
				}
			case *ssa.Jump:
				next = cb.succs[0]
			case *ssa.Return:
				out := make([]Value, len(c.ops))
				for i := range c.ops {
					out[i] = in.val(fr, &c.ops[i])
				}
				return out
			case *ssa.Call:
				fn, args := in.prepCall(fr, &x.Call, c)
				if b, ok := fn.(*ssa.Builtin); ok {
					fr.regs[c.dst] = in.builtin(fr, b, args, &x.Call)
				} else {
					fr.regs[c.dst] = in.Call(fr, fn, args)
				}
			default:
				fr.regs[c.dst] = in.eval(fr, c)
			}
		}
		if next < 0 {
			panic(specAbort{})
		}
		prev, blk = blk, next
	}
}

// known: is the branch decided without a new decision?
func (in *Interp) known(c *Expr) (bool, bool) {
	if c.IsConst() {
		return c.val == 1, true
	}
	if c.op == OVar && c.name == "__trace" {
		return in.traceOn, true
	}
	if in.p != nil {
		if in.p.pcSet[c] {
			return true, true
		}
		if in.p.pcSet[in.b.Not(c)] {
			return false, true
		}
	}
	return false, false
}

func (in *Interp) mergeVal(c *Expr, a, b Value) Value {
	switch x := a.(type) {
	case nil:
		if b == nil {
			return nil
		}
	case *Expr:
		y, ok := b.(*Expr)
		if !ok {
			break
		}
		if x == y {
			return x
		}
		// merged lengths and indices only postpone the fork
		if x.w != y.w || x.w == 64 && (x.IsConst() || y.IsConst()) {
			break
		}
		return in.b.Ite(c, x, y)
	case *Value:
		if y, ok := b.(*Value); ok && x == y {
			return x
		}
	case *Map:
		if y, ok := b.(*Map); ok && x == y {
			return x
		}
	case *Str:
		y, ok := b.(*Str)
		if !ok || x.opaque || y.opaque {
			if x == b {
				return x
			}
			break
		}
		if x == y {
			return x
		}
		if x.b == nil && y.b == nil && x.s == y.s {
			return x
		}
	case RV:
		if y, ok := b.(RV); ok && x.same(y) {
			return x
		}
	case RType:
		if y, ok := b.(RType); ok && types.Identical(x.t, y.t) {
			return x
		}
	case Iface:
		y, ok := b.(Iface)
		if !ok {
			break
		}
		if x.t == nil && y.t == nil {
			return x
		}
		if x.t != nil && y.t != nil && types.Identical(x.t, y.t) {
			return Iface{t: x.t, v: in.mergeVal(c, x.v, y.v)}
		}
	case Tuple:
		y, ok := b.(Tuple)
		if !ok || len(x) != len(y) {
			break
		}
		out := make(Tuple, len(x))
		for i := range x {
			out[i] = in.mergeVal(c, x[i], y[i])
		}
		return out
	case Struct:
		y, ok := b.(Struct)
		if !ok || len(x) != len(y) {
			break
		}
		out := make(Struct, len(x))
		for i := range x {
			out[i] = in.mergeVal(c, x[i], y[i])
		}
		return out
	case Array:
		y, ok := b.(Array)
		if !ok || len(x) != len(y) {
			break
		}
		out := make(Array, len(x))
		for i := range x {
			out[i] = in.mergeVal(c, x[i], y[i])
		}
		return out
	case []Value:
		y, ok := b.([]Value)
		if ok && x == nil && y == nil {
			return x
		}
		if ok && len(x) == len(y) && cap(x) == cap(y) && cap(x) > 0 && &x[:1][0] == &y[:1][0] {
			return x
		}
	case *ssa.Function:
		if y, ok := b.(*ssa.Function); ok && x == y {
			return x
		}
	}
	panic(specAbort{})
}
