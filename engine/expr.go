package main

// Hash-consed bit-vector / boolean expressions with light simplification.

import (
	"crypto/sha256"
	"fmt"
	"math"
	"math/big"
	"strconv"
	"strings"
)

type Op uint8

const (
	OConst Op = iota
	OVar
	ONot // bvnot
	ONeg
	OAdd
	OSub
	OMul
	OUDiv
	OSDiv
	OURem
	OSRem
	OAnd
	OOr
	OXor
	OShl
	OLshr
	OAshr
	OConcat
	OExtract
	OZext
	OSext
	OIte
	OEq
	OUlt
	OUle
	OSlt
	OSle
	OBNot
	OBAnd
	OBOr
	OFLt  // float less-than on IEEE bit patterns
	OFLe  // float less-or-equal
	OFEq  // float equality
	OFCvt // float width conversion 32->64 or 64->32 (amd64 semantics)
	OFOp  // float arithmetic: name = add/sub/mul/div
	OUF   // uninterpreted function: name, args -> w bits
)

var opNames = map[Op]string{
	ONot: "bvnot", ONeg: "bvneg", OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul", OUDiv: "bvudiv", OSDiv: "bvsdiv",
	OURem: "bvurem", OSRem: "bvsrem", OAnd: "bvand", OOr: "bvor", OXor: "bvxor", OShl: "bvshl", OLshr: "bvlshr",
	OAshr: "bvashr", OConcat: "concat", OIte: "ite", OEq: "=", OUlt: "bvult", OUle: "bvule", OSlt: "bvslt", OSle: "bvsle",
	OBNot: "not", OBAnd: "and", OBOr: "or",
}

// Expr: w == 0 means Bool.
type Expr struct {
	id   int
	op   Op
	w    int
	a    []*Expr
	val  uint64 // constant (w<=64) or, for OExtract, hi<<32|lo
	name string
	// evaluation memo
	evGen int
	ev    uint64
	evBig *big.Int
	// solver bookkeeping
	defLvl int // level+1 at which defined; 0 = undefined
}

type ekey struct {
	op         Op
	w          int
	val        uint64
	name       string
	a0, a1, a2 int
}

type Builder struct {
	tab    map[ekey]*Expr
	tabN   map[string]*Expr
	nextID int
	consts map[int]map[uint64]*Expr
	c8     [256]*Expr
	True   *Expr
	False  *Expr
	evGen  int

	vars    map[*Expr][]int
	ufID    map[string]int
	varName map[int]string
	defs    map[*Expr][]int
}

func NewBuilder() *Builder {
	b := &Builder{tab: map[ekey]*Expr{}, tabN: map[string]*Expr{}, consts: map[int]map[uint64]*Expr{},
		vars: map[*Expr][]int{}, ufID: map[string]int{}, varName: map[int]string{}, defs: map[*Expr][]int{}}
	b.True = b.Const(0, 1)
	b.False = b.Const(0, 0)
	for i := range b.c8 {
		b.c8[i] = b.Const(8, uint64(i))
	}
	return b
}

func mask(w int) uint64 {
	if w >= 64 || w == 0 {
		return ^uint64(0)
	}
	return (uint64(1) << uint(w)) - 1
}

func (b *Builder) Const(w int, v uint64) *Expr {
	if w > 64 {
		// wide constant as concat
		return b.Concat(b.Const(w-64, 0), b.Const(64, v))
	}
	if w == 0 {
		v &= 1
	} else {
		v &= mask(w)
	}
	if w == 8 && b.c8[v] != nil {
		return b.c8[v]
	}
	m := b.consts[w]
	if m == nil {
		m = map[uint64]*Expr{}
		b.consts[w] = m
	}
	if e := m[v]; e != nil {
		return e
	}
	b.nextID++
	e := &Expr{id: b.nextID, op: OConst, w: w, val: v}
	m[v] = e
	return e
}

func (b *Builder) Bool(v bool) *Expr {
	if v {
		return b.True
	}
	return b.False
}

func (b *Builder) Var(name string, w int) *Expr {
	e := b.mk(OVar, w, 0, name)
	b.varName[e.id] = name
	return e
}

func (b *Builder) UF(name string, w int, args ...*Expr) *Expr { return b.mk(OUF, w, 0, name, args...) }

func (b *Builder) mk(op Op, w int, val uint64, name string, args ...*Expr) *Expr {
	if len(args) <= 3 {
		k := ekey{op: op, w: w, val: val, name: name}
		if len(args) > 0 {
			k.a0 = args[0].id
		}
		if len(args) > 1 {
			k.a1 = args[1].id
		}
		if len(args) > 2 {
			k.a2 = args[2].id
		}
		if e := b.tab[k]; e != nil {
			return e
		}
		b.nextID++
		e := &Expr{id: b.nextID, op: op, w: w, val: val, name: name, a: args}
		b.tab[k] = e
		return e
	}
	var sb strings.Builder
	fmt.Fprintf(&sb, "%d/%d/%d/%s", op, w, val, name)
	for _, x := range args {
		sb.WriteByte('/')
		sb.WriteString(strconv.Itoa(x.id))
	}
	k := sb.String()
	if e := b.tabN[k]; e != nil {
		return e
	}
	b.nextID++
	e := &Expr{id: b.nextID, op: op, w: w, val: val, name: name, a: append([]*Expr(nil), args...)}
	b.tabN[k] = e
	return e
}

func (e *Expr) IsConst() bool { return e.op == OConst }
func (e *Expr) IsTrue() bool  { return e.op == OConst && e.w == 0 && e.val == 1 }
func (e *Expr) IsFalse() bool { return e.op == OConst && e.w == 0 && e.val == 0 }

func sext64(v uint64, w int) int64 {
	if w >= 64 {
		return int64(v)
	}
	sh := uint(64 - w)
	return int64(v<<sh) >> sh
}

// ---- boolean ----

func (b *Builder) Not(x *Expr) *Expr {
	if x.IsConst() {
		return b.Bool(x.val == 0)
	}
	if x.op == OBNot {
		return x.a[0]
	}
	return b.mk(OBNot, 0, 0, "", x)
}

func (b *Builder) And(xs ...*Expr) *Expr {
	var out []*Expr
	seen := map[int]bool{}
	for _, x := range xs {
		if x.IsFalse() {
			return b.False
		}
		if x.IsTrue() || seen[x.id] {
			continue
		}
		seen[x.id] = true
		out = append(out, x)
	}
	switch len(out) {
	case 0:
		return b.True
	case 1:
		return out[0]
	}
	for _, x := range out {
		if x.op == OBNot && seen[x.a[0].id] {
			return b.False
		}
	}
	return b.mk(OBAnd, 0, 0, "", out...)
}

func (b *Builder) Or(xs ...*Expr) *Expr {
	var out []*Expr
	seen := map[int]bool{}
	for _, x := range xs {
		if x.IsTrue() {
			return b.True
		}
		if x.IsFalse() || seen[x.id] {
			continue
		}
		seen[x.id] = true
		out = append(out, x)
	}
	switch len(out) {
	case 0:
		return b.False
	case 1:
		return out[0]
	}
	for _, x := range out {
		if x.op == OBNot && seen[x.a[0].id] {
			return b.True
		}
	}
	return b.mk(OBOr, 0, 0, "", out...)
}

func (b *Builder) Ite(c, x, y *Expr) *Expr {
	if c.IsConst() {
		if c.val == 1 {
			return x
		}
		return y
	}
	if x == y {
		return x
	}
	if x.w == 0 {
		if x.IsTrue() && y.IsFalse() {
			return c
		}
		if x.IsFalse() && y.IsTrue() {
			return b.Not(c)
		}
		return b.Or(b.And(c, x), b.And(b.Not(c), y))
	}
	if c.op == OBNot {
		return b.Ite(c.a[0], y, x)
	}
	return b.mk(OIte, x.w, 0, "", c, x, y)
}

func (b *Builder) Eq(x, y *Expr) *Expr {
	if x == y {
		return b.True
	}
	if x.w != y.w {
		panic(fmt.Sprintf("Eq width mismatch %d %d", x.w, y.w))
	}
	if x.IsConst() && y.IsConst() {
		return b.Bool(x.val == y.val)
	}
	if x.IsConst() {
		x, y = y, x
	}
	if x.w == 0 {
		if y.IsConst() {
			if y.val == 1 {
				return x
			}
			return b.Not(x)
		}
		if x.id > y.id {
			x, y = y, x
		}
		return b.mk(OEq, 0, 0, "", x, y)
	}
	if y.IsConst() {
		switch x.op {
		case OZext:
			in := x.a[0]
			if y.val&^mask(in.w) != 0 {
				return b.False
			}
			return b.Eq(in, b.Const(in.w, y.val))
		case OIte:
			if x.a[1].IsConst() && x.a[2].IsConst() {
				t, f := x.a[1].val == y.val, x.a[2].val == y.val
				switch {
				case t && f:
					return b.True
				case t:
					return x.a[0]
				case f:
					return b.Not(x.a[0])
				default:
					return b.False
				}
			}
		case OConcat:
			if x.w <= 64 {
				hi, lo := x.a[0], x.a[1]
				if hi.IsConst() || lo.IsConst() {
					return b.And(b.Eq(hi, b.Const(hi.w, y.val>>uint(lo.w))), b.Eq(lo, b.Const(lo.w, y.val)))
				}
			}
		}
	}
	if x.op == OZext && y.op == OZext && x.a[0].w == y.a[0].w {
		return b.Eq(x.a[0], y.a[0])
	}
	if x.id > y.id {
		x, y = y, x
	}
	return b.mk(OEq, 0, 0, "", x, y)
}

func (b *Builder) Ult(x, y *Expr) *Expr {
	if x == y {
		return b.False
	}
	if x.w <= 64 {
		if x.IsConst() && y.IsConst() {
			return b.Bool(x.val < y.val)
		}
		if y.IsConst() && y.val == 0 {
			return b.False
		}
		if x.IsConst() && x.val == mask(x.w) {
			return b.False
		}
		if y.IsConst() && x.op == OZext {
			in := x.a[0]
			if y.val > mask(in.w) {
				return b.True
			}
			return b.Ult(in, b.Const(in.w, y.val))
		}
		if x.IsConst() && y.op == OZext {
			in := y.a[0]
			if x.val >= mask(in.w) {
				return b.False
			}
			return b.Ult(b.Const(in.w, x.val), in)
		}
		if x.op == OZext && y.op == OZext && x.a[0].w == y.a[0].w {
			return b.Ult(x.a[0], y.a[0])
		}
	}
	return b.mk(OUlt, 0, 0, "", x, y)
}
func (b *Builder) Ule(x, y *Expr) *Expr { return b.Not(b.Ult(y, x)) }
func (b *Builder) Slt(x, y *Expr) *Expr {
	if x == y {
		return b.False
	}
	if x.w <= 64 {
		if x.IsConst() && y.IsConst() {
			return b.Bool(sext64(x.val, x.w) < sext64(y.val, y.w))
		}
		// zero-extended values are non-negative
		xz, yz := nonNeg(x), nonNeg(y)
		if xz && yz {
			return b.Ult(x, y)
		}
		if xz && y.IsConst() && sext64(y.val, y.w) <= 0 {
			return b.False
		}
		if yz && x.IsConst() && sext64(x.val, x.w) < 0 {
			return b.True
		}
	}
	return b.mk(OSlt, 0, 0, "", x, y)
}
func nonNeg(x *Expr) bool {
	switch x.op {
	case OConst:
		return sext64(x.val, x.w) >= 0
	case OZext:
		return true
	case OConcat:
		return x.a[0].IsConst() && x.a[0].w > 0 && nonNeg(x.a[0])
	}
	return false
}
func (b *Builder) Sle(x, y *Expr) *Expr { return b.Not(b.Slt(y, x)) }

// ---- bit-vector ----

func (b *Builder) Extract(x *Expr, hi, lo int) *Expr {
	w := hi - lo + 1
	if w == x.w {
		return x
	}
	if w <= 0 || hi >= x.w || lo < 0 {
		panic(fmt.Sprintf("bad extract %d %d of %d", hi, lo, x.w))
	}
	switch x.op {
	case OConst:
		return b.Const(w, x.val>>uint(lo))
	case OExtract:
		l0 := int(x.val & 0xffffffff)
		return b.Extract(x.a[0], hi+l0, lo+l0)
	case OConcat:
		h, l := x.a[0], x.a[1]
		if lo >= l.w {
			return b.Extract(h, hi-l.w, lo-l.w)
		}
		if hi < l.w {
			return b.Extract(l, hi, lo)
		}
		return b.Concat(b.Extract(h, hi-l.w, 0), b.Extract(l, l.w-1, lo))
	case OZext:
		in := x.a[0]
		if lo >= in.w {
			return b.Const(w, 0)
		}
		if hi < in.w {
			return b.Extract(in, hi, lo)
		}
		return b.Zext(b.Extract(in, in.w-1, lo), w)
	case OSext:
		in := x.a[0]
		if hi < in.w {
			return b.Extract(in, hi, lo)
		}
		if lo < in.w {
			return b.Sext(b.Extract(in, in.w-1, lo), w)
		}
	case OIte:
		if x.a[1].IsConst() || x.a[2].IsConst() {
			return b.Ite(x.a[0], b.Extract(x.a[1], hi, lo), b.Extract(x.a[2], hi, lo))
		}
	case OAnd, OOr, OXor:
		// push extraction through bitwise ops
		return b.bitop(x.op, b.Extract(x.a[0], hi, lo), b.Extract(x.a[1], hi, lo))
	case ONot:
		return b.BNotBV(b.Extract(x.a[0], hi, lo))
	case OAdd, OSub, OMul:
		if lo == 0 && x.w > w {
			return b.arith(x.op, b.Extract(x.a[0], hi, 0), b.Extract(x.a[1], hi, 0))
		}
	}
	return b.mk(OExtract, w, uint64(hi)<<32|uint64(lo), "", x)
}

func (b *Builder) Concat(hi, lo *Expr) *Expr {
	w := hi.w + lo.w
	if hi.IsConst() && lo.IsConst() && w <= 64 {
		return b.Const(w, hi.val<<uint(lo.w)|lo.val)
	}
	if hi.IsConst() && hi.val == 0 && hi.w <= 64 {
		return b.Zext(lo, w)
	}
	if hi.op == OExtract && lo.op == OExtract && hi.a[0] == lo.a[0] && int(hi.val&0xffffffff) == int(lo.val>>32)+1 {
		return b.Extract(hi.a[0], int(hi.val>>32), int(lo.val&0xffffffff))
	}
	if lo.op == OConcat {
		// right-assoc to left-assoc merge attempts: hi ++ (l1 ++ l2)
		if m := b.tryMerge(hi, lo.a[0]); m != nil {
			return b.Concat(m, lo.a[1])
		}
		return b.Concat(b.Concat(hi, lo.a[0]), lo.a[1])
	}
	if hi.op == OConcat {
		if m := b.tryMerge(hi.a[1], lo); m != nil {
			return b.Concat(hi.a[0], m)
		}
	}
	if hi.op == OZext { // zext(a) ++ lo  = zext(a ++ lo)
		return b.Zext(b.Concat(hi.a[0], lo), w)
	}
	return b.mk(OConcat, w, 0, "", hi, lo)
}

func (b *Builder) tryMerge(hi, lo *Expr) *Expr {
	if hi.IsConst() && lo.IsConst() && hi.w+lo.w <= 64 {
		return b.Const(hi.w+lo.w, hi.val<<uint(lo.w)|lo.val)
	}
	if hi.op == OExtract && lo.op == OExtract && hi.a[0] == lo.a[0] && int(hi.val&0xffffffff) == int(lo.val>>32)+1 {
		return b.Extract(hi.a[0], int(hi.val>>32), int(lo.val&0xffffffff))
	}
	return nil
}

func (b *Builder) Zext(x *Expr, w int) *Expr {
	if w == x.w {
		return x
	}
	if w < x.w {
		panic("zext narrower")
	}
	if x.IsConst() && w <= 64 {
		return b.Const(w, x.val)
	}
	if x.op == OZext {
		return b.Zext(x.a[0], w)
	}
	return b.mk(OZext, w, 0, "", x)
}

func (b *Builder) Sext(x *Expr, w int) *Expr {
	if w == x.w {
		return x
	}
	if x.IsConst() && w <= 64 {
		return b.Const(w, uint64(sext64(x.val, x.w)))
	}
	if x.op == OZext {
		return b.Zext(x.a[0], w)
	}
	if x.op == OSext {
		return b.Sext(x.a[0], w)
	}
	return b.mk(OSext, w, 0, "", x)
}

// Resize converts to width w (trunc, or extend by signedness of source).
func (b *Builder) Resize(x *Expr, w int, signed bool) *Expr {
	switch {
	case w == x.w:
		return x
	case w < x.w:
		return b.Extract(x, w-1, 0)
	case signed:
		return b.Sext(x, w)
	default:
		return b.Zext(x, w)
	}
}

// segs flattens an expression into most-significant-first segments.
func (b *Builder) segs(x *Expr, out []*Expr) []*Expr {
	switch x.op {
	case OConcat:
		out = b.segs(x.a[0], out)
		return b.segs(x.a[1], out)
	case OZext:
		out = append(out, b.Const(x.w-x.a[0].w, 0))
		return b.segs(x.a[0], out)
	}
	return append(out, x)
}

// mergeDisjoint returns x|y as a concat if at each bit segment one side is the constant 0 (or both const).
func (b *Builder) mergeDisjoint(x, y *Expr) *Expr {
	if x.w > 64 {
		return nil
	}
	sx := b.segs(x, nil)
	sy := b.segs(y, nil)
	if len(sx) == 1 && len(sy) == 1 {
		return nil
	}
	var res *Expr
	i, j := 0, 0
	cx, cy := sx[0], sy[0]
	for {
		w := cx.w
		if cy.w < w {
			w = cy.w
		}
		px, py := b.Extract(cx, cx.w-1, cx.w-w), b.Extract(cy, cy.w-1, cy.w-w)
		var p *Expr
		switch {
		case px.IsConst() && py.IsConst():
			p = b.Const(w, px.val|py.val)
		case px.IsConst() && px.val == 0:
			p = py
		case py.IsConst() && py.val == 0:
			p = px
		default:
			return nil
		}
		if res == nil {
			res = p
		} else {
			res = b.Concat(res, p)
		}
		if cx.w == w {
			i++
			if i < len(sx) {
				cx = sx[i]
			}
		} else {
			cx = b.Extract(cx, cx.w-w-1, 0)
		}
		if cy.w == w {
			j++
			if j < len(sy) {
				cy = sy[j]
			}
		} else {
			cy = b.Extract(cy, cy.w-w-1, 0)
		}
		if i >= len(sx) || j >= len(sy) {
			break
		}
	}
	return res
}

func (b *Builder) bitop(op Op, x, y *Expr) *Expr {
	switch op {
	case OAnd:
		return b.AndBV(x, y)
	case OOr:
		return b.OrBV(x, y)
	default:
		return b.XorBV(x, y)
	}
}
func (b *Builder) arith(op Op, x, y *Expr) *Expr {
	switch op {
	case OAdd:
		return b.Add(x, y)
	case OSub:
		return b.Sub(x, y)
	default:
		return b.Mul(x, y)
	}
}

func (b *Builder) AndBV(x, y *Expr) *Expr {
	if x == y {
		return x
	}
	if x.IsConst() {
		x, y = y, x
	}
	if y.IsConst() && x.w <= 64 {
		if x.IsConst() {
			return b.Const(x.w, x.val&y.val)
		}
		m := y.val
		if m == 0 {
			return y
		}
		if m == mask(x.w) {
			return x
		}
		// mask made of few runs -> concat of extracts
		runs := 0
		prev := uint64(2)
		for i := 0; i < x.w; i++ {
			bit := m >> uint(i) & 1
			if bit != prev {
				runs++
				prev = bit
			}
		}
		if runs <= 3 {
			var res *Expr
			i := x.w - 1
			for i >= 0 {
				bit := m >> uint(i) & 1
				j := i
				for j-1 >= 0 && m>>uint(j-1)&1 == bit {
					j--
				}
				var p *Expr
				if bit == 1 {
					p = b.Extract(x, i, j)
				} else {
					p = b.Const(i-j+1, 0)
				}
				if res == nil {
					res = p
				} else {
					res = b.Concat(res, p)
				}
				i = j - 1
			}
			return res
		}
	}
	if x.id > y.id {
		x, y = y, x
	}
	return b.mk(OAnd, x.w, 0, "", x, y)
}

func (b *Builder) OrBV(x, y *Expr) *Expr {
	if x == y {
		return x
	}
	if x.IsConst() {
		x, y = y, x
	}
	if y.IsConst() && x.w <= 64 {
		if x.IsConst() {
			return b.Const(x.w, x.val|y.val)
		}
		if y.val == 0 {
			return x
		}
		if y.val == mask(x.w) {
			return y
		}
	}
	if m := b.mergeDisjoint(x, y); m != nil {
		return m
	}
	if x.id > y.id {
		x, y = y, x
	}
	return b.mk(OOr, x.w, 0, "", x, y)
}

func (b *Builder) XorBV(x, y *Expr) *Expr {
	if x == y && x.w <= 64 {
		return b.Const(x.w, 0)
	}
	if x.IsConst() {
		x, y = y, x
	}
	if y.IsConst() && x.w <= 64 {
		if x.IsConst() {
			return b.Const(x.w, x.val^y.val)
		}
		if y.val == 0 {
			return x
		}
		if y.val == mask(x.w) {
			return b.BNotBV(x)
		}
	}
	if m := b.mergeDisjoint(x, y); m != nil && !(x.IsConst() || y.IsConst()) {
		return m
	}
	if x.id > y.id {
		x, y = y, x
	}
	return b.mk(OXor, x.w, 0, "", x, y)
}

func (b *Builder) BNotBV(x *Expr) *Expr {
	if x.IsConst() {
		return b.Const(x.w, ^x.val)
	}
	if x.op == ONot {
		return x.a[0]
	}
	return b.mk(ONot, x.w, 0, "", x)
}

func (b *Builder) Neg(x *Expr) *Expr {
	if x.IsConst() {
		return b.Const(x.w, -x.val)
	}
	return b.mk(ONeg, x.w, 0, "", x)
}

func (b *Builder) Add(x, y *Expr) *Expr {
	if x.IsConst() {
		x, y = y, x
	}
	if y.IsConst() && x.w <= 64 {
		if x.IsConst() {
			return b.Const(x.w, x.val+y.val)
		}
		if y.val == 0 {
			return x
		}
		if x.op == OAdd && x.a[1].IsConst() {
			return b.Add(x.a[0], b.Const(x.w, x.a[1].val+y.val))
		}
		return b.mk(OAdd, x.w, 0, "", x, y)
	}
	if x.w <= 64 {
		if m := b.mergeDisjoint(x, y); m != nil {
			return m
		}
	}
	if x.id > y.id {
		x, y = y, x
	}
	return b.mk(OAdd, x.w, 0, "", x, y)
}

func (b *Builder) Sub(x, y *Expr) *Expr {
	if x == y && x.w <= 64 {
		return b.Const(x.w, 0)
	}
	if y.IsConst() && x.w <= 64 {
		return b.Add(x, b.Const(x.w, -y.val))
	}
	return b.mk(OSub, x.w, 0, "", x, y)
}

func (b *Builder) Mul(x, y *Expr) *Expr {
	if x.IsConst() {
		x, y = y, x
	}
	if y.IsConst() && x.w <= 64 {
		if x.IsConst() {
			return b.Const(x.w, x.val*y.val)
		}
		switch y.val {
		case 0:
			return y
		case 1:
			return x
		}
		if y.val&(y.val-1) == 0 {
			k := 0
			for y.val>>uint(k) != 1 {
				k++
			}
			return b.Shl(x, b.Const(x.w, uint64(k)))
		}
		return b.mk(OMul, x.w, 0, "", x, y)
	}
	if x.id > y.id {
		x, y = y, x
	}
	return b.mk(OMul, x.w, 0, "", x, y)
}

// division: divisor assumed non-zero (caller checks)
func (b *Builder) UDiv(x, y *Expr) *Expr {
	if x.IsConst() && y.IsConst() && y.val != 0 {
		return b.Const(x.w, x.val/y.val)
	}
	if y.IsConst() && y.val != 0 && y.val&(y.val-1) == 0 {
		k := 0
		for y.val>>uint(k) != 1 {
			k++
		}
		return b.Lshr(x, b.Const(x.w, uint64(k)))
	}
	return b.mk(OUDiv, x.w, 0, "", x, y)
}
func (b *Builder) URem(x, y *Expr) *Expr {
	if x.IsConst() && y.IsConst() && y.val != 0 {
		return b.Const(x.w, x.val%y.val)
	}
	if y.IsConst() && y.val != 0 && y.val&(y.val-1) == 0 {
		return b.AndBV(x, b.Const(x.w, y.val-1))
	}
	return b.mk(OURem, x.w, 0, "", x, y)
}
func (b *Builder) SDiv(x, y *Expr) *Expr {
	if x.IsConst() && y.IsConst() && y.val != 0 {
		a, c := sext64(x.val, x.w), sext64(y.val, y.w)
		if c == -1 {
			return b.Const(x.w, uint64(-a))
		}
		return b.Const(x.w, uint64(a/c))
	}
	return b.mk(OSDiv, x.w, 0, "", x, y)
}
func (b *Builder) SRem(x, y *Expr) *Expr {
	if x.IsConst() && y.IsConst() && y.val != 0 {
		a, c := sext64(x.val, x.w), sext64(y.val, y.w)
		if c == -1 {
			return b.Const(x.w, 0)
		}
		return b.Const(x.w, uint64(a%c))
	}
	return b.mk(OSRem, x.w, 0, "", x, y)
}

// shifts: y has same width as x; shift >= width gives 0 (or sign fill)
func (b *Builder) Shl(x, y *Expr) *Expr {
	if y.IsConst() && x.w <= 64 {
		if y.val == 0 {
			return x
		}
		if y.val >= uint64(x.w) {
			return b.Const(x.w, 0)
		}
		k := int(y.val)
		return b.Concat(b.Extract(x, x.w-1-k, 0), b.Const(k, 0))
	}
	if x.IsConst() && x.val == 0 {
		return x
	}
	return b.mk(OShl, x.w, 0, "", x, y)
}
func (b *Builder) Lshr(x, y *Expr) *Expr {
	if y.IsConst() && x.w <= 64 {
		if y.val == 0 {
			return x
		}
		if y.val >= uint64(x.w) {
			return b.Const(x.w, 0)
		}
		k := int(y.val)
		return b.Zext(b.Extract(x, x.w-1, k), x.w)
	}
	if x.IsConst() && x.val == 0 {
		return x
	}
	return b.mk(OLshr, x.w, 0, "", x, y)
}
func (b *Builder) Ashr(x, y *Expr) *Expr {
	if y.IsConst() && x.w <= 64 {
		if y.val == 0 {
			return x
		}
		k := int(y.val)
		if y.val >= uint64(x.w) {
			k = x.w - 1
		}
		return b.Sext(b.Extract(x, x.w-1, k), x.w)
	}
	return b.mk(OAshr, x.w, 0, "", x, y)
}

// ---- floats (bit patterns) ----

func f64of(v uint64) float64 { return math.Float64frombits(v) }
func f32of(v uint64) float32 { return math.Float32frombits(uint32(v)) }

func (b *Builder) FCmp(op Op, x, y *Expr) *Expr {
	if x.IsConst() && y.IsConst() {
		var p, q float64
		if x.w == 64 {
			p, q = f64of(x.val), f64of(y.val)
		} else {
			p, q = float64(f32of(x.val)), float64(f32of(y.val))
		}
		switch op {
		case OFLt:
			return b.Bool(p < q)
		case OFLe:
			return b.Bool(p <= q)
		default:
			return b.Bool(p == q)
		}
	}
	if op == OFEq && x == y {
		return b.Not(b.FIsNaN(x))
	}
	if x.op == OFCvt && y.op == OFCvt && x.w == 64 && y.w == 64 {
		return b.FCmp(op, x.a[0], y.a[0]) // widening is exact
	}
	return b.mk(op, 0, 0, "", x, y)
}

func (b *Builder) FIsNaN(x *Expr) *Expr {
	if x.op == OFCvt {
		return b.FIsNaN(x.a[0]) // conversion preserves NaN-ness
	}
	if x.w == 64 {
		return b.Ult(b.Const(64, 0x7ff0000000000000), b.AndBV(x, b.Const(64, 0x7fffffffffffffff)))
	}
	return b.Ult(b.Const(32, 0x7f800000), b.AndBV(x, b.Const(32, 0x7fffffff)))
}

// FCvt converts float bit pattern width (amd64: NaNs are quieted, payload shifted).
func (b *Builder) FCvt(x *Expr, w int) *Expr {
	if x.w == w {
		return x
	}
	if x.IsConst() {
		return b.Const(w, fcvt(x.val, x.w, w))
	}
	if w == 32 && x.op == OFCvt && x.a[0].w == 32 {
		in := x.a[0]
		return b.Ite(b.FIsNaN(in), b.OrBV(in, b.Const(32, 0x00400000)), in)
	}
	return b.mk(OFCvt, w, 0, "", x)
}

func fcvt(v uint64, from, to int) uint64 {
	if from == 32 {
		if v&0x7f800000 == 0x7f800000 && v&0x7fffff != 0 { // NaN
			return (v&0x80000000)<<32 | 0x7ff8000000000000 | (v&0x3fffff)<<29
		}
		return math.Float64bits(float64(math.Float32frombits(uint32(v))))
	}
	if v&0x7ff0000000000000 == 0x7ff0000000000000 && v&0xfffffffffffff != 0 {
		return (v>>32)&0x80000000 | 0x7fc00000 | (v>>29)&0x3fffff
	}
	return uint64(math.Float32bits(float32(math.Float64frombits(v))))
}

// ---- evaluation under a model ----

type Model map[string]uint64

func (b *Builder) NewEval() { b.evGen++ }

// Eval evaluates e (w<=64) under m. Call NewEval when the model changes.
func (b *Builder) Eval(e *Expr, m Model) uint64 {
	if e.op == OConst {
		return e.val
	}
	if e.w > 64 {
		panic("Eval wide")
	}
	if e.evGen == b.evGen {
		return e.ev
	}
	v := b.eval1(e, m)
	if e.w == 0 {
		v &= 1
	} else {
		v &= mask(e.w)
	}
	e.ev, e.evGen = v, b.evGen
	return v
}

func (b *Builder) EvalBig(e *Expr, m Model) *big.Int {
	if e.w <= 64 {
		return new(big.Int).SetUint64(b.Eval(e, m))
	}
	if e.evGen == b.evGen && e.evBig != nil {
		return e.evBig
	}
	var r *big.Int
	mod := new(big.Int).Lsh(big.NewInt(1), uint(e.w))
	arg := func(i int) *big.Int { return b.EvalBig(e.a[i], m) }
	switch e.op {
	case OConcat:
		r = new(big.Int).Lsh(arg(0), uint(e.a[1].w))
		r.Or(r, arg(1))
	case OZext:
		r = new(big.Int).Set(arg(0))
	case OSext:
		r = new(big.Int).Set(arg(0))
		if r.Bit(e.a[0].w-1) == 1 {
			r.Sub(r, new(big.Int).Lsh(big.NewInt(1), uint(e.a[0].w)))
		}
	case OExtract:
		hi, lo := int(e.val>>32), int(e.val&0xffffffff)
		r = new(big.Int).Rsh(arg(0), uint(lo))
		r.And(r, new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), uint(hi-lo+1)), big.NewInt(1)))
	case OIte:
		if b.Eval(e.a[0], m) == 1 {
			r = arg(1)
		} else {
			r = arg(2)
		}
	case ONot:
		r = new(big.Int).Sub(new(big.Int).Sub(mod, big.NewInt(1)), arg(0))
	case ONeg:
		r = new(big.Int).Neg(arg(0))
	case OAdd:
		r = new(big.Int).Add(arg(0), arg(1))
	case OSub:
		r = new(big.Int).Sub(arg(0), arg(1))
	case OMul:
		r = new(big.Int).Mul(arg(0), arg(1))
	case OAnd:
		r = new(big.Int).And(arg(0), arg(1))
	case OOr:
		r = new(big.Int).Or(arg(0), arg(1))
	case OXor:
		r = new(big.Int).Xor(arg(0), arg(1))
	case OUF:
		r = b.evalUF(e, m)
	default:
		panic(unsupported(fmt.Sprintf("EvalBig op %d", e.op)))
	}
	r = new(big.Int).Mod(r, mod)
	e.evBig, e.evGen = r, b.evGen
	return r
}

func (b *Builder) evalUF(e *Expr, m Model) *big.Int {
	switch {
	case e.name == "sha256":
		var buf []byte
		for _, x := range e.a {
			buf = append(buf, byte(b.Eval(x, m)))
		}
		s := sha256.Sum256(buf)
		return new(big.Int).SetBytes(s[:])
	case e.name == "parsefloat":
		var buf []byte
		for _, x := range e.a {
			buf = append(buf, byte(b.Eval(x, m)))
		}
		f, _ := strconv.ParseFloat(string(buf), 64)
		return new(big.Int).SetUint64(math.Float64bits(f))
	case strings.HasPrefix(e.name, "decdig"): // decdig_<n>_<i>: i-th char of decimal rendering (n digits) of arg
		var n, i int
		fmt.Sscanf(e.name, "decdig_%d_%d", &n, &i)
		s := b.EvalBig(e.a[0], m).String()
		if i < len(s) {
			return big.NewInt(int64(s[i]))
		}
		return big.NewInt('0')
	}
	panic(unsupported("evalUF " + e.name))
}

func (b *Builder) eval1(e *Expr, m Model) uint64 {
	w := e.w
	aw := 0
	if len(e.a) > 0 {
		aw = e.a[0].w
	}
	if aw > 64 || (len(e.a) > 1 && e.a[1].w > 64) {
		// wide args, narrow result
		switch e.op {
		case OExtract:
			hi, lo := int(e.val>>32), int(e.val&0xffffffff)
			r := new(big.Int).Rsh(b.EvalBig(e.a[0], m), uint(lo))
			r.And(r, new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), uint(hi-lo+1)), big.NewInt(1)))
			return r.Uint64()
		case OEq:
			return b2u(b.EvalBig(e.a[0], m).Cmp(b.EvalBig(e.a[1], m)) == 0)
		case OUlt:
			return b2u(b.EvalBig(e.a[0], m).Cmp(b.EvalBig(e.a[1], m)) < 0)
		case OSlt:
			f := func(x *Expr) *big.Int {
				r := new(big.Int).Set(b.EvalBig(x, m))
				if r.Bit(x.w-1) == 1 {
					r.Sub(r, new(big.Int).Lsh(big.NewInt(1), uint(x.w)))
				}
				return r
			}
			return b2u(f(e.a[0]).Cmp(f(e.a[1])) < 0)
		case OUF:
			return b.evalUF(e, m).Uint64()
		}
		panic(unsupported(fmt.Sprintf("eval wide-arg op %d", e.op)))
	}
	arg := func(i int) uint64 { return b.Eval(e.a[i], m) }
	switch e.op {
	case OVar:
		return m[e.name]
	case ONot:
		return ^arg(0)
	case ONeg:
		return -arg(0)
	case OAdd:
		return arg(0) + arg(1)
	case OSub:
		return arg(0) - arg(1)
	case OMul:
		return arg(0) * arg(1)
	case OUDiv:
		if arg(1) == 0 {
			return mask(w)
		}
		return arg(0) / arg(1)
	case OURem:
		if arg(1) == 0 {
			return arg(0)
		}
		return arg(0) % arg(1)
	case OSDiv:
		x, y := sext64(arg(0), w), sext64(arg(1), w)
		if y == 0 {
			if x < 0 {
				return 1
			}
			return mask(w)
		}
		if y == -1 {
			return uint64(-x)
		}
		return uint64(x / y)
	case OSRem:
		x, y := sext64(arg(0), w), sext64(arg(1), w)
		if y == 0 {
			return uint64(x)
		}
		if y == -1 {
			return 0
		}
		return uint64(x % y)
	case OAnd:
		return arg(0) & arg(1)
	case OOr:
		return arg(0) | arg(1)
	case OXor:
		return arg(0) ^ arg(1)
	case OShl:
		s := arg(1)
		if s >= uint64(w) {
			return 0
		}
		return arg(0) << s
	case OLshr:
		s := arg(1)
		if s >= uint64(w) {
			return 0
		}
		return arg(0) >> s
	case OAshr:
		s := arg(1)
		if s >= uint64(w) {
			s = uint64(w - 1)
		}
		return uint64(sext64(arg(0), w) >> s)
	case OConcat:
		return arg(0)<<uint(e.a[1].w) | arg(1)
	case OExtract:
		return arg(0) >> (e.val & 0xffffffff)
	case OZext:
		return arg(0)
	case OSext:
		return uint64(sext64(arg(0), aw))
	case OIte:
		if arg(0) == 1 {
			return arg(1)
		}
		return arg(2)
	case OEq:
		return b2u(arg(0) == arg(1))
	case OUlt:
		return b2u(arg(0) < arg(1))
	case OSlt:
		return b2u(sext64(arg(0), aw) < sext64(arg(1), aw))
	case OBNot:
		return 1 - arg(0)
	case OBAnd:
		for i := range e.a {
			if arg(i) == 0 {
				return 0
			}
		}
		return 1
	case OBOr:
		for i := range e.a {
			if arg(i) == 1 {
				return 1
			}
		}
		return 0
	case OFLt, OFLe, OFEq:
		var p, q float64
		if aw == 64 {
			p, q = f64of(arg(0)), f64of(arg(1))
		} else {
			p, q = float64(f32of(arg(0))), float64(f32of(arg(1)))
		}
		switch e.op {
		case OFLt:
			return b2u(p < q)
		case OFLe:
			return b2u(p <= q)
		}
		return b2u(p == q)
	case OFCvt:
		return fcvt(arg(0), aw, w)
	case OUF:
		return b.evalUF(e, m).Uint64()
	}
	panic(fmt.Sprintf("eval: op %d", e.op))
}

func b2u(x bool) uint64 {
	if x {
		return 1
	}
	return 0
}

type unsupported string

// Select reads elems[idx] (idx already bounds-checked) as a balanced tree over
// runs of equal or consecutively increasing elements.
func (b *Builder) Select(elems []*Expr, idx *Expr) *Expr {
	type run struct {
		from int
		val  *Expr // nil: affine
		off  uint64
	}
	var runs []run
	w := elems[0].w
	for i := 0; i < len(elems); {
		j := i + 1
		for j < len(elems) && elems[j] == elems[i] {
			j++
		}
		if j == i+1 && w > 0 && w <= 64 && elems[i].IsConst() {
			k := i + 1
			for k < len(elems) && elems[k].IsConst() && elems[k].val == (elems[k-1].val+1)&mask(w) {
				k++
			}
			if k-i >= 4 {
				runs = append(runs, run{from: i, off: elems[i].val - uint64(i)})
				i = k
				continue
			}
		}
		runs = append(runs, run{from: i, val: elems[i]})
		i = j
	}
	var build func(lo, hi int) *Expr
	build = func(lo, hi int) *Expr {
		if hi-lo == 1 {
			r := runs[lo]
			if r.val != nil {
				return r.val
			}
			return b.Add(b.Resize(idx, w, false), b.Const(w, r.off))
		}
		mid := (lo + hi) / 2
		return b.Ite(b.Ult(idx, b.Const(idx.w, uint64(runs[mid].from))), build(lo, mid), build(mid, hi))
	}
	return build(0, len(runs))
}

// brief lists the variables of e (debugging).
func (b *Builder) brief(e *Expr) string {
	s := ""
	for _, v := range b.varsOf(e) {
		s += " " + b.varName[v]
	}
	if len(s) > 60 {
		s = s[:60]
	}
	return fmt.Sprintf("op%d%s", e.op, s)
}
