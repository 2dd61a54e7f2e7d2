package main

// Two operations running at the same time (sym.Par).
//
// The operations are run one after the other, and every access to state
// reachable from the package-level variables of the code under test is
// recorded with the locks held. Two conflicting accesses without a common
// lock are a data race candidate. When neither operation writes such state
// all interleavings give the sequential result; otherwise the second
// operation is also run at every point of the first where it has just
// written shared state or released a lock (one preemption).

import (
	"fmt"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type parAccess struct {
	thread int
	write  bool
	locks  map[*Value]int
	fn     string
}

type parState struct {
	shared    map[*Value]string
	maps      map[*Map]string
	acc       map[interface{}][]parAccess
	thread    int
	quiet     int
	preempted bool
	points    int
	g         func()
	in2       bool
}

func (in *Interp) runPar(fr *frame, f, g, check Value) {
	ps := &parState{shared: map[*Value]string{}, maps: map[*Map]string{}, acc: map[interface{}][]parAccess{}, thread: 1}
	pkg := in.pkgByPath[in.modPath]
	var names []string
	for n := range pkg.Members {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		if gl, ok := pkg.Members[n].(*ssa.Global); ok && !strings.HasPrefix(n, "init$") {
			p := in.global(gl)
			in.parReachCell(ps, p, n, 0)
		}
	}
	if in.par != nil {
		panic(engineError("nested Par"))
	}
	in.par, in.usedPar = ps, true
	defer func() { in.par = nil }()
	ps.g = func() {
		ps.thread = 2
		in.Call(fr, g, nil)
		ps.thread = 1
	}
	in.Call(fr, f, nil)
	if !ps.preempted {
		ps.preempted = true
		ps.g()
	}
	in.par = nil
	for k, as := range ps.acc {
		what := ""
		switch x := k.(type) {
		case *Value:
			what = ps.shared[x]
		case *Map:
			what = ps.maps[x]
		}
		if a, b, bad := conflict(as); bad {
			in.candidate("race", fmt.Sprintf("unsynchronised access to shared state %s: %s / %s", what, a.fn, b.fn), "", in.p.model)
			break
		}
	}
	in.Call(fr, check, nil)
}

func conflict(as []parAccess) (parAccess, parAccess, bool) {
	for _, a := range as {
		if a.thread != 1 {
			continue
		}
		for _, b := range as {
			if b.thread != 2 || !(a.write || b.write) {
				continue
			}
			ok := false
			for l, s := range a.locks {
				if t := b.locks[l]; t != 0 && (s < 0 || t < 0) {
					ok = true
				}
			}
			if !ok {
				return a, b, true
			}
		}
	}
	return parAccess{}, parAccess{}, false
}

func (in *Interp) parReachCell(ps *parState, p *Value, name string, d int) {
	if p == nil {
		return
	}
	if _, ok := ps.shared[p]; ok || len(ps.shared) > 200000 {
		return
	}
	ps.shared[p] = name
	in.parReach(ps, *p, name, d+1)
}

func (in *Interp) parReach(ps *parState, v Value, name string, d int) {
	if d > 200 {
		return
	}
	switch x := v.(type) {
	case *Value:
		in.parReachCell(ps, x, name, d)
	case Struct:
		for i := range x {
			in.parReachCell(ps, &x[i], name, d)
		}
	case Array:
		for i := range x {
			in.parReachCell(ps, &x[i], name, d)
		}
	case []Value:
		x = x[:cap(x)]
		for i := range x {
			in.parReachCell(ps, &x[i], name, d)
		}
	case Iface:
		in.parReach(ps, x.v, name, d+1)
	case *Map:
		if x == nil {
			return
		}
		if _, ok := ps.maps[x]; ok {
			return
		}
		ps.maps[x] = name
		for _, e := range x.entries {
			in.parReach(ps, e.k, name, d+1)
			in.parReach(ps, e.v, name, d+1)
		}
	case *Closure:
		if x == nil {
			return
		}
		for i := range x.free {
			in.parReach(ps, x.free[i], name, d+1)
		}
	case unsafePtr:
		in.parReach(ps, x.p, name, d+1)
	}
}

func (in *Interp) parNote(key interface{}, write bool) {
	ps := in.par
	if ps.quiet > 0 {
		return
	}
	as := ps.acc[key]
	n := 0
	for _, a := range as {
		if a.thread == ps.thread && a.write == write {
			n++
			if len(a.locks) == 0 {
				return
			}
		}
	}
	if n > 4 {
		return
	}
	a := parAccess{thread: ps.thread, write: write}
	if in.curFn != nil {
		a.fn = in.curFn.fn.Name()
	}
	for l, s := range in.locks {
		if s != 0 {
			if a.locks == nil {
				a.locks = map[*Value]int{}
			}
			a.locks[l] = s
		}
	}
	ps.acc[key] = append(as, a)
}

func (in *Interp) parWrite(p *Value, v Value) {
	name, ok := in.par.shared[p]
	if !ok {
		return
	}
	in.parNote(p, true)
	in.parReach(in.par, v, name, 0)
	in.preempt()
}

func (in *Interp) parRead(p *Value) {
	if _, ok := in.par.shared[p]; !ok {
		return
	}
	switch x := (*p).(type) {
	case Struct:
		for i := range x {
			in.parRead(&x[i])
		}
	case Array:
		for i := range x {
			in.parRead(&x[i])
		}
	default:
		in.parNote(p, false)
	}
}

func (in *Interp) parMap(m *Map, write bool, v Value) {
	name, ok := in.par.maps[m]
	if !ok {
		return
	}
	in.parNote(m, write)
	if write {
		in.parReach(in.par, v, name, 0)
		in.preempt()
	}
}

// publish: v becomes visible to the other operation through a synchronised container.
func (in *Interp) publish(v Value) {
	if in.par != nil {
		in.parReach(in.par, v, "published", 0)
		in.preempt()
	}
}

// preempt optionally runs the second operation here.
func (in *Interp) preempt() {
	ps := in.par
	if ps == nil || ps.thread != 1 || ps.preempted || ps.points > 24 {
		return
	}
	for _, s := range in.locks {
		if s != 0 {
			return
		}
	}
	ps.points++
	if in.choose("", 2) == 1 {
		ps.preempted = true
		ps.g()
	}
}

// inQuiet: accesses made by f are ordered by other means (sync.Once, atomics).
func (in *Interp) inQuiet(f func()) {
	if in.par == nil {
		f()
		return
	}
	ps := in.par
	ps.quiet++
	defer func() { ps.quiet-- }()
	f()
}
