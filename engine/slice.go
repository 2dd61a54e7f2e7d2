package main

// Independence slicing and a query cache: only the path constraints that share
// variables (transitively) with the queried condition reach the solver. The
// path's own model satisfies the rest, so it completes the solver's model.

import (
	"math/big"
	"strconv"
	"strings"
	"sync/atomic"
	"time"
)

// varsOf returns the variable (and uninterpreted function) ids of e.
func (b *Builder) varsOf(e *Expr) []int {
	if v, ok := b.vars[e]; ok {
		return v
	}
	set := map[int]bool{}
	if e.op == OVar {
		set[e.id] = true
	}
	if e.op == OUF {
		id, ok := b.ufID[e.name]
		if !ok {
			id = -1 - len(b.ufID)
			b.ufID[e.name] = id
		}
		set[id] = true
	}
	for _, a := range e.a {
		for _, v := range b.varsOf(a) {
			set[v] = true
		}
	}
	out := make([]int, 0, len(set))
	for v := range set {
		out = append(out, v)
	}
	b.vars[e] = out
	return out
}

func (b *Builder) slice(pc []*Expr, extra *Expr) []*Expr {
	live := map[int]bool{}
	for _, v := range b.varsOf(extra) {
		live[v] = true
	}
	taken := make([]bool, len(pc))
	n := 0
	for changed := true; changed; {
		changed = false
		for i, c := range pc {
			if taken[i] {
				continue
			}
			vs := b.varsOf(c)
			hit := false
			trig := vs
			if d, ok := b.defs[c]; ok {
				trig = d // a definition of fresh variables matters only through them
			}
			for _, v := range trig {
				if live[v] {
					hit = true
					break
				}
			}
			if !hit {
				continue
			}
			taken[i] = true
			n++
			for _, v := range vs {
				if !live[v] {
					live[v] = true
					changed = true
				}
			}
		}
	}
	out := make([]*Expr, 0, n)
	for i, c := range pc {
		if taken[i] {
			out = append(out, c)
		}
	}
	return out
}

type cached struct {
	r Result
	m Model
}

// check decides p.pc /\ extra and returns a model of the whole path.
func (in *Interp) check(extra *Expr) (Result, Model) {
	if extra.IsFalse() {
		return Unsat, nil
	}
	p := in.p
	if in.nchecks++; in.nchecks&15 == 0 && time.Since(in.cfg.Deadline) > 10*time.Second {
		panic(pathEnd{"time", "time budget exhausted inside a path"})
	}
	sl := in.b.slice(p.pc, extra)
	var sb strings.Builder
	sb.WriteString(strconv.Itoa(extra.id))
	for _, c := range sl {
		sb.WriteByte(' ')
		sb.WriteString(strconv.Itoa(c.id))
	}
	key := sb.String()
	ent, ok := in.qcache[key]
	if ok {
		atomic.AddInt64(&in.sol.st.Cached, 1)
	} else {
		ent.r, ent.m = in.sol.Check(sl, extra, true)
		if len(in.qcache) > 200000 {
			in.qcache = map[string]cached{}
		}
		if ent.r != Unknown {
			in.qcache[key] = ent
		}
	}
	if ent.r != Sat {
		return ent.r, nil
	}
	m := Model{}
	for k, v := range p.model {
		m[k] = v
	}
	want := map[string]bool{}
	add := func(e *Expr) {
		for _, id := range in.b.varsOf(e) {
			want[in.b.varName[id]] = true
		}
	}
	add(extra)
	for _, c := range sl {
		add(c)
	}
	for k, v := range ent.m {
		if want[k] {
			m[k] = v
		}
	}
	in.redefine(m)
	return Sat, m
}

// redefine recomputes the variables that are functions of others.
func (in *Interp) redefine(m Model) {
	for _, d := range in.p.decs {
		in.b.NewEval()
		text := in.b.EvalBig(d.v, m).String()
		if len(text) == len(d.names) {
			for i, nm := range d.names {
				m[nm] = uint64(text[i])
			}
		}
	}
	if len(in.p.decs) > 0 {
		in.b.NewEval()
	}
}

type decDef struct {
	v     *Expr
	digs  []*Expr
	names []string
}

// ---- unsigned ranges of variables, from the path's assumptions ----

type rangeT struct{ lo, hi *big.Int }

func (p *path) learn(c *Expr) {
	switch c.op {
	case OBAnd:
		for _, a := range c.a {
			p.learn(a)
		}
	case OBNot:
		n := c.a[0]
		if n.op == OBOr {
			for _, a := range n.a {
				if a.op == OUlt {
					p.learnLt(a.a[1], a.a[0], true)
				} else if a.op == OBNot {
					p.learn(a.a[0])
				}
			}
		}
		if n.op == OUlt {
			p.learnLt(n.a[1], n.a[0], true) // not x<y: y<=x
		}
	case OUlt:
		p.learnLt(c.a[0], c.a[1], false)
	}
}

// learnLt records x<y (or x<=y).
func (p *path) learnLt(x, y *Expr, orEq bool) {
	var v *Expr
	if x.op == OVar && x.w <= 8 && y.IsConst() {
		v = x
	} else if y.op == OVar && y.w <= 8 && x.IsConst() {
		v = y
	} else {
		return
	}
	r, ok := p.rng[v]
	if !ok {
		r = rangeT{big.NewInt(0), new(big.Int).SetUint64(mask(v.w))}
	}
	one := int64(1)
	if orEq {
		one = 0
	}
	if v == x {
		h := new(big.Int).Sub(new(big.Int).SetUint64(y.val), big.NewInt(one))
		if h.Cmp(r.hi) < 0 {
			r.hi = h
		}
	} else {
		l := new(big.Int).Add(new(big.Int).SetUint64(x.val), big.NewInt(one))
		if l.Cmp(r.lo) > 0 {
			r.lo = l
		}
	}
	if p.rng == nil {
		p.rng = map[*Expr]rangeT{}
	}
	p.rng[v] = r
	p.ivc = nil
}

func (in *Interp) interval(e *Expr) rangeT {
	if e.IsConst() {
		v := in.b.EvalBig(e, nil)
		return rangeT{v, v}
	}
	p := in.p
	if e.op == OVar {
		if r, ok := p.rng[e]; ok {
			return r
		}
	}
	if r, ok := p.ivc[e]; ok {
		return r
	}
	r := in.interval1(e)
	if p.ivc == nil {
		p.ivc = map[*Expr]rangeT{}
	}
	p.ivc[e] = r
	return r
}

func (in *Interp) interval1(e *Expr) rangeT {
	top := new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), uint(e.w)), big.NewInt(1))
	full := rangeT{new(big.Int), top}
	switch e.op {
	case OZext:
		return in.interval(e.a[0])
	case OAdd, OMul:
		if len(e.a) != 2 {
			return full
		}
		x, y := in.interval(e.a[0]), in.interval(e.a[1])
		// x + (2^w - k) is x - k
		if e.op == OAdd {
			for k := 0; k < 2; k++ {
				if y.lo == y.hi || y.lo.Cmp(y.hi) == 0 {
					neg := new(big.Int).Sub(new(big.Int).Add(top, big.NewInt(1)), y.lo)
					if neg.Cmp(x.lo) <= 0 {
						return rangeT{new(big.Int).Sub(x.lo, neg), new(big.Int).Sub(x.hi, neg)}
					}
				}
				x, y = y, x
			}
		}
		var lo, hi *big.Int
		if e.op == OAdd {
			lo, hi = new(big.Int).Add(x.lo, y.lo), new(big.Int).Add(x.hi, y.hi)
		} else {
			lo, hi = new(big.Int).Mul(x.lo, y.lo), new(big.Int).Mul(x.hi, y.hi)
		}
		if hi.Cmp(top) > 0 {
			return full
		}
		return rangeT{lo, hi}
	case OSub:
		x, y := in.interval(e.a[0]), in.interval(e.a[1])
		if y.hi.Cmp(x.lo) <= 0 {
			return rangeT{new(big.Int).Sub(x.lo, y.hi), new(big.Int).Sub(x.hi, y.lo)}
		}
	case OExtract:
		hi, lo := int(e.val>>32), int(e.val&0xffffffff)
		x := in.interval(e.a[0])
		if x.hi.BitLen() <= hi+1 {
			return rangeT{new(big.Int).Rsh(x.lo, uint(lo)), new(big.Int).Rsh(x.hi, uint(lo))}
		}
	case OConcat:
		if len(e.a) == 2 {
			x, y := in.interval(e.a[0]), in.interval(e.a[1])
			s := uint(e.a[1].w)
			return rangeT{new(big.Int).Add(new(big.Int).Lsh(x.lo, s), y.lo), new(big.Int).Add(new(big.Int).Lsh(x.hi, s), y.hi)}
		}
	}
	return full
}

// rangeDecide decides c from the ranges alone.
func (in *Interp) rangeDecide(c *Expr) (val, known bool) {
	if len(in.p.rng) == 0 {
		return false, false
	}
	switch c.op {
	case OBNot:
		v, k := in.rangeDecide(c.a[0])
		return !v, k
	case OBAnd, OBOr:
		all := true
		for _, a := range c.a {
			v, k := in.rangeDecide(a)
			if k && v == (c.op == OBOr) {
				return v, true
			}
			all = all && k
		}
		return c.op == OBAnd, all
	case OEq:
		if c.a[0].w == 0 {
			return false, false
		}
		x, y := in.interval(c.a[0]), in.interval(c.a[1])
		if x.hi.Cmp(y.lo) < 0 || y.hi.Cmp(x.lo) < 0 {
			return false, true
		}
		if x.lo.Cmp(x.hi) == 0 && y.lo.Cmp(y.hi) == 0 {
			return true, true
		}
	case OUlt:
		x, y := in.interval(c.a[0]), in.interval(c.a[1])
		if x.hi.Cmp(y.lo) < 0 {
			return true, true
		}
		if y.hi.Cmp(x.lo) <= 0 {
			return false, true
		}
	}
	if in.p.pcSet[c] {
		return true, true
	}
	if in.p.pcSet[in.b.Not(c)] {
		return false, true
	}
	return false, false
}
