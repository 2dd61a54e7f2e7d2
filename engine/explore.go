package main

// Path exploration by deterministic re-execution: every symbolic branch is a
// decision; the solver decides which sides are feasible; the other side is
// queued as a decision prefix.

import (
	"fmt"
	"go/types"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Config struct {
	QueryTimeout time.Duration
	Deadline     time.Time
	Tier         string
	Workers      int
	CrossEvery   int // cross-check every n-th unsat assertion query with a second solver (0: never)
	MaxPaths     int64
}

type Decision struct {
	V       uint64
	Ne      bool // concretize: "not this value", try next
	Implied bool
}

type obsItem struct {
	name string
	v    Value
	t    types.Type
}

type path struct {
	prefix   []Decision
	pos      int
	dec      []Decision
	pc       []*Expr
	pcSet    map[*Expr]bool
	model    Model
	choices  map[string]int
	names    map[string]int
	conc     map[*Expr]uint64
	spans    map[*Value][]Value
	obs      []obsItem
	reach    []string
	nchoose  int
	ndec     int
	decCache map[*Expr][]*Expr
	decs     []decDef
	rng      map[*Expr]rangeT
	ivc      map[*Expr]rangeT
}

type workItem struct {
	h      *ssa.Function
	prefix []Decision
	model  Model
}

// Candidate is a solver counterexample awaiting native replay.
type Candidate struct {
	Harness string            `json:"harness"`
	Kind    string            `json:"kind"`
	Msg     string            `json:"msg"`
	Where   string            `json:"where"`
	Model   map[string]uint64 `json:"model"`
	Choices map[string]int    `json:"choices"`
	MapOrd  bool              `json:"map_order"`
	Par     bool              `json:"concurrent,omitempty"`
}

type doneRun struct {
	Harness string
	Model   map[string]uint64
	Choices map[string]int
	Obs     []string
	Reach   []string
	mapOrd  bool
}

type hstat struct {
	paths, ended, assumeEnd, unsup, limits int64
	cands                                  int
	closed                                 bool
}

type Explorer struct {
	cfg   *Config
	prog  *ssa.Program
	pkgs  map[string]*ssa.Package
	mod   string
	st    SolverStats
	mu    sync.Mutex
	cond  *sync.Cond
	pops  int
	queue []workItem
	busy  int
	stop  bool
	hs    map[string]*hstat

	paths        int64
	completed    int64
	decisions    int64
	asserts      int64 // assertion instances (on all paths)
	assertConst  int64 // discharged by simplification (no solver call needed)
	assertSolver int64 // discharged by the solver
	assertUnk    int64
	steps        int64
	assumeEnds   int64
	incomplete   map[string]int
	cands        []*Candidate
	candSeen     map[string]int
	dones        []*doneRun
	doneN        map[string]int
	maxDone      int
	reached      map[string]int
	fnCov        map[string]*covInfo
	maxPC        int
	maxDec       int
	engineErrs   []string
}

type covInfo struct {
	calls  int
	blocks int
	cov    []bool
	instrs int
}

var warnMu sync.Mutex
var warnings = map[string]int{}

func addWarning(s string) {
	warnMu.Lock()
	warnings[s]++
	warnMu.Unlock()
}

func NewExplorer(prog *ssa.Program, pkgs map[string]*ssa.Package, mod string, cfg *Config) *Explorer {
	ex := &Explorer{cfg: cfg, prog: prog, pkgs: pkgs, mod: mod, incomplete: map[string]int{}, candSeen: map[string]int{}, doneN: map[string]int{}, reached: map[string]int{}, fnCov: map[string]*covInfo{}, hs: map[string]*hstat{}, maxDone: 40}
	ex.cond = sync.NewCond(&ex.mu)
	return ex
}

func (ex *Explorer) note(kind string) {
	ex.mu.Lock()
	ex.incomplete[kind]++
	ex.mu.Unlock()
}

var forkDebug = os.Getenv("SYMGO_FORKS") != ""

func (ex *Explorer) push(w workItem) {
	ex.mu.Lock()
	ex.queue = append(ex.queue, w)
	ex.mu.Unlock()
	ex.cond.Signal()
}

func (ex *Explorer) Run(harnesses []*ssa.Function) {
	for i := len(harnesses) - 1; i >= 0; i-- {
		ex.hs[harnesses[i].Name()] = &hstat{}
		ex.queue = append(ex.queue, workItem{h: harnesses[i], model: Model{}})
	}
	var wg sync.WaitGroup
	for i := 0; i < ex.cfg.Workers; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			ex.worker(i)
		}(i)
	}
	wg.Wait()
}

func (ex *Explorer) worker(id int) {
	in := NewInterp(ex.prog, ex.pkgs, ex.mod, &ex.st, ex.cfg)
	in.ex = ex
	defer func() {
		in.sol.Close()
		ex.mu.Lock()
		for _, fi := range in.fns {
			if fi.calls == 0 || !fi.modCode {
				continue
			}
			c := ex.fnCov[fi.name]
			if c == nil {
				c = &covInfo{blocks: len(fi.blocks), cov: make([]bool, len(fi.blocks)), instrs: fi.nInstr}
				ex.fnCov[fi.name] = c
			}
			c.calls += fi.calls
			for i, x := range fi.cov {
				if x {
					c.cov[i] = true
				}
			}
		}
		ex.mu.Unlock()
	}()
	for {
		ex.mu.Lock()
		for len(ex.queue) == 0 && ex.busy > 0 && !ex.stop {
			ex.cond.Wait()
		}
		if ex.stop || len(ex.queue) == 0 {
			ex.stop = true
			ex.mu.Unlock()
			ex.cond.Broadcast()
			return
		}
		if time.Now().After(ex.cfg.Deadline) {
			ex.incomplete[fmt.Sprintf("time budget exhausted with work left")] += len(ex.queue)
			ex.stop = true
			ex.mu.Unlock()
			ex.cond.Broadcast()
			return
		}
		// depth first, but every fourth time the oldest item, so that an
		// exploding subtree cannot starve the other choices
		ex.pops++
		var w workItem
		if ex.pops%4 == 0 {
			w = ex.queue[0]
			ex.queue = ex.queue[1:]
		} else {
			w = ex.queue[len(ex.queue)-1]
			ex.queue = ex.queue[:len(ex.queue)-1]
		}
		if ex.hs[w.h.Name()].closed {
			ex.mu.Unlock()
			continue
		}
		ex.busy++
		ex.mu.Unlock()
		ex.runPath(in, w)
		ex.mu.Lock()
		ex.busy--
		if ex.cfg.MaxPaths > 0 && ex.paths > ex.cfg.MaxPaths {
			ex.incomplete["path limit reached"] += len(ex.queue)
			ex.stop = true
		}
		ex.mu.Unlock()
		ex.cond.Broadcast()
		if len(in.b.tab) > 4_000_000 {
			in = ex.freshInterp(in)
		}
	}
}

func (ex *Explorer) freshInterp(old *Interp) *Interp {
	old.sol.Close()
	in := NewInterp(ex.prog, ex.pkgs, ex.mod, &ex.st, ex.cfg)
	in.ex = ex
	ex.mu.Lock()
	for _, fi := range old.fns {
		if fi.calls == 0 || !fi.modCode {
			continue
		}
		c := ex.fnCov[fi.name]
		if c == nil {
			c = &covInfo{blocks: len(fi.blocks), cov: make([]bool, len(fi.blocks)), instrs: fi.nInstr}
			ex.fnCov[fi.name] = c
		}
		c.calls += fi.calls
		for i, x := range fi.cov {
			if x {
				c.cov[i] = true
			}
		}
	}
	ex.mu.Unlock()
	return in
}

func (in *Interp) newPath(w workItem) {
	in.p = &path{prefix: w.prefix, pcSet: map[*Expr]bool{}, model: w.model, choices: map[string]int{}, names: map[string]int{}, conc: map[*Expr]uint64{}}
	in.h = w.h
	in.steps, in.depth = 0, 0
	in.traceOn = false
	in.allocLimit, in.totalLimit = 0, 0
	in.usedPar, in.par = false, nil
	in.mapOrder = false
	in.curFn = nil
	in.b.NewEval()
}

func (ex *Explorer) runPath(in *Interp, w workItem) {
	atomic.AddInt64(&ex.paths, 1)
	in.newPath(w)
	in.trailOn = true
	name := w.h.Name()
	hs := ex.hs[name]
	completed := false
	func() {
		defer func() {
			r := recover()
			if r == nil {
				return
			}
			switch x := r.(type) {
			case targetPanic:
				msg := in.panicText(x.v)
				in.candidate("panic", "panic: "+msg, x.where, in.p.model)
			case pathEnd:
				switch x.kind {
				case "assume":
					atomic.AddInt64(&ex.assumeEnds, 1)
				case "violation":
				case "steps", "depth":
					in.candidate("hang", x.msg, "", in.p.model)
					ex.note(name + ": " + x.kind + ": " + x.msg)
				default:
					ex.note(name + ": " + x.kind + ": " + x.msg)
				}
			case unsupported:
				ex.note(name + ": unsupported: " + string(x))
				atomic.AddInt64(&hs.unsup, 1)
				if os.Getenv("SYMGO_DEBUG") != "" {
					fmt.Fprintf(os.Stderr, "unsupported %s: %s in %s\n%s\n", name, x, in.stackText(), shortStack())
				}
			case engineError:
				ex.note(name + ": engine: " + string(x))
				if os.Getenv("SYMGO_DEBUG") != "" {
					fmt.Fprintf(os.Stderr, "engine error %s: %s\n%s\n", name, x, shortStack())
				}
			default:
				ex.note(fmt.Sprintf("%s: engine panic: %v", name, r))
				if os.Getenv("SYMGO_DEBUG") != "" {
					fmt.Fprintf(os.Stderr, "engine panic %s: %v\n%s\n", name, r, debug.Stack())
				}
			}
		}()
		in.callSSA(w.h, nil, nil, nil)
		completed = true
	}()
	p := in.p
	atomic.AddInt64(&ex.steps, int64(in.steps))
	atomic.AddInt64(&ex.decisions, int64(len(p.dec)))
	atomic.AddInt64(&hs.paths, 1)
	if completed {
		atomic.AddInt64(&ex.completed, 1)
		ex.mu.Lock()
		if len(p.pc) > ex.maxPC {
			ex.maxPC = len(p.pc)
		}
		if len(p.dec) > ex.maxDec {
			ex.maxDec = len(p.dec)
		}
		for _, r := range p.reach {
			ex.reached[name+":"+r]++
		}
		ex.doneN[name]++
		n := ex.doneN[name]
		take := len(p.obs)+len(p.reach) > 0 && (n <= ex.maxDone || (n&(n-1)) == 0 || n%97 == 0) && len(ex.dones) < 4000
		ex.mu.Unlock()
		if take {
			d := &doneRun{Harness: name, Model: cloneModel(p.model), Choices: p.choices, Reach: p.reach, mapOrd: in.mapOrder}
			ok := true
			func() {
				defer func() {
					if recover() != nil {
						ok = false
					}
				}()
				for _, o := range p.obs {
					d.Obs = append(d.Obs, o.name+"="+in.render(o.v, o.t, p.model, -1))
				}
			}()
			if ok {
				ex.mu.Lock()
				ex.dones = append(ex.dones, d)
				ex.mu.Unlock()
			}
		}
	}
	in.undoAll()
	in.trailOn = false
}

func shortStack() string {
	s := string(debug.Stack())
	var out []string
	for _, l := range strings.Split(s, "\n") {
		if strings.Contains(l, "/verif/engine/") {
			out = append(out, strings.TrimSpace(l))
		}
	}
	if len(out) > 24 {
		out = out[:24]
	}
	return strings.Join(out, "\n")
}

func (in *Interp) stackText() string {
	if in.curFn != nil {
		return in.curFn.name
	}
	return ""
}

func cloneModel(m Model) Model {
	c := make(Model, len(m))
	for k, v := range m {
		c[k] = v
	}
	return c
}

func (in *Interp) panicText(v Iface) string {
	switch x := v.v.(type) {
	case *Str:
		if s, ok := x.concrete(); ok {
			return s
		}
		return "?"
	}
	if v.t != nil {
		return v.t.String()
	}
	return "nil"
}

const maxCandsPerHarness = 12

func (in *Interp) candidate(kind, msg, where string, m Model) {
	ex := in.ex
	name := in.h.Name()
	ex.mu.Lock()
	defer ex.mu.Unlock()
	key := name + "|" + kind + "|" + msg + "|" + where
	ex.candSeen[key]++
	hs := ex.hs[name]
	if ex.candSeen[key] > 3 {
		if kind != "hang" && ex.candSeen[key] > 200 {
			hs.closed = true
		}
		return
	}
	hs.cands++
	if hs.cands > maxCandsPerHarness {
		hs.closed = true
		return
	}
	c := &Candidate{Harness: name, Kind: kind, Msg: msg, Where: where, Model: cloneModel(m), Choices: map[string]int{}, MapOrd: in.mapOrder, Par: in.usedPar}
	for k, v := range in.p.choices {
		c.Choices[k] = v
	}
	ex.cands = append(ex.cands, c)
}

// ---- decisions ----

func (p *path) assume(b *Builder, c *Expr, implied bool) {
	if c.IsConst() {
		return
	}
	if !p.pcSet[c] {
		p.pcSet[c] = true
		p.learn(c)
		if !implied {
			p.pc = append(p.pc, c)
		}
	}
}

func (in *Interp) forkPrefix(d Decision) []Decision {
	p := in.p
	np := make([]Decision, len(p.dec)+1)
	copy(np, p.dec)
	np[len(p.dec)] = d
	return np
}

func (in *Interp) record(d Decision) {
	in.p.dec = append(in.p.dec, d)
}

func (in *Interp) next() (Decision, bool) {
	p := in.p
	if p.pos < len(p.prefix) {
		d := p.prefix[p.pos]
		p.pos++
		p.dec = append(p.dec, d)
		return d, true
	}
	return Decision{}, false
}

func (in *Interp) branch(c *Expr) bool {
	if c.IsConst() {
		return c.val == 1
	}
	if c.op == OVar && c.name == "__trace" {
		return in.traceOn
	}
	if in.inInit || in.p == nil {
		panic(unsupported("symbolic branch during package initialisation"))
	}
	p := in.p
	nc := in.b.Not(c)
	if p.pcSet[c] {
		return true
	}
	if p.pcSet[nc] {
		return false
	}
	if v, ok := in.rangeDecide(c); ok {
		return v
	}
	if in.spec > 0 {
		panic(specAbort{})
	}
	if d, ok := in.next(); ok {
		if d.V == 1 {
			p.assume(in.b, c, d.Implied)
		} else {
			p.assume(in.b, nc, d.Implied)
		}
		return d.V == 1
	}
	v := in.b.Eval(c, p.model)
	this, other := c, nc
	if v == 0 {
		this, other = nc, c
	}
	res, m := in.check(other)
	implied := false
	switch res {
	case Sat:
		if forkDebug {
			in.ex.note("fork in " + in.where() + " on " + in.b.brief(other))
		}
		if !in.modelOK(m, other) {
			in.ex.note(in.h.Name() + ": solver model not realisable (uninterpreted function)")
		} else {
			in.ex.push(workItem{h: in.h, prefix: in.forkPrefix(Decision{V: 1 - v}), model: m})
		}
	case Unsat:
		implied = true
	default:
		in.ex.note(in.h.Name() + ": solver gave no answer for a branch")
	}
	in.record(Decision{V: v, Implied: implied})
	p.assume(in.b, this, implied)
	return v == 1
}

// modelOK re-evaluates the path condition and extra under the model.
func (in *Interp) modelOK(m Model, extra *Expr) bool {
	in.b.NewEval()
	ok := in.b.Eval(extra, m) == 1
	for _, c := range in.p.pc {
		if !ok {
			break
		}
		ok = in.b.Eval(c, m) == 1
	}
	in.b.NewEval()
	return ok
}

func (in *Interp) concretize(e *Expr, limit int) uint64 {
	if e.IsConst() {
		return e.val
	}
	if in.inInit || in.p == nil {
		panic(unsupported("symbolic value during package initialisation"))
	}
	if in.spec > 0 {
		panic(specAbort{})
	}
	p := in.p
	if v, ok := p.conc[e]; ok {
		return v
	}
	n := 0
	for {
		if d, ok := in.next(); ok {
			eq := in.b.Eq(e, in.b.Const(e.w, d.V))
			if d.Ne {
				p.assume(in.b, in.b.Not(eq), false)
				n++
				continue
			}
			p.assume(in.b, eq, d.Implied)
			p.conc[e] = d.V
			return d.V
		}
		v := in.b.Eval(e, p.model)
		eq := in.b.Eq(e, in.b.Const(e.w, v))
		if n >= limit {
			in.ex.note(in.h.Name() + ": value enumeration limit")
			in.record(Decision{V: v})
			p.assume(in.b, eq, false)
			p.conc[e] = v
			return v
		}
		ne := in.b.Not(eq)
		implied := false
		if ne.IsFalse() {
			implied = true
		} else {
			res, m := in.check(ne)
			switch res {
			case Sat:
				if in.modelOK(m, ne) {
					in.ex.push(workItem{h: in.h, prefix: in.forkPrefix(Decision{V: v, Ne: true}), model: m})
				} else {
					in.ex.note(in.h.Name() + ": solver model not realisable (uninterpreted function)")
				}
			case Unsat:
				implied = true
			default:
				in.ex.note(in.h.Name() + ": solver gave no answer for a value enumeration")
			}
		}
		in.record(Decision{V: v, Implied: implied})
		p.assume(in.b, eq, implied)
		p.conc[e] = v
		return v
	}
}

// choose forks n ways without a solver query.
func (in *Interp) choose(name string, n int) int {
	if n <= 0 {
		panic(engineError("choose of nothing"))
	}
	if in.spec > 0 {
		panic(specAbort{})
	}
	p := in.p
	if name == "" {
		name = fmt.Sprintf("__ord%d", p.nchoose)
		p.nchoose++
	}
	if n == 1 {
		p.choices[name] = 0
		return 0
	}
	if d, ok := in.next(); ok {
		p.choices[name] = int(d.V)
		return int(d.V)
	}
	for k := n - 1; k >= 1; k-- {
		in.ex.push(workItem{h: in.h, prefix: in.forkPrefix(Decision{V: uint64(k), Implied: true}), model: p.model})
	}
	in.record(Decision{V: 0, Implied: true})
	p.choices[name] = 0
	return 0
}

func (in *Interp) assumeCond(c *Expr) {
	if c.IsTrue() {
		return
	}
	if c.IsFalse() {
		panic(pathEnd{"assume", ""})
	}
	p := in.p
	if p.pcSet[c] {
		return
	}
	if p.pcSet[in.b.Not(c)] {
		panic(pathEnd{"assume", ""})
	}
	if _, ok := in.next(); ok {
		p.assume(in.b, c, false)
		return
	}
	if in.b.Eval(c, p.model) != 1 {
		res, m := in.check(c)
		if res == Unknown {
			in.ex.note(in.h.Name() + ": solver gave no answer for an assumption")
			panic(pathEnd{"assume", ""})
		}
		if res == Unsat {
			panic(pathEnd{"assume", ""})
		}
		if !in.modelOK(m, c) {
			in.ex.note(in.h.Name() + ": solver model not realisable (uninterpreted function)")
			panic(pathEnd{"assume", ""})
		}
		p.model = m
		in.b.NewEval()
	}
	in.record(Decision{V: 1})
	p.assume(in.b, c, false)
}

// assertCond decides an assertion for every value on this path.
func (in *Interp) assertCond(c *Expr, kind, msg string) {
	ex := in.ex
	p := in.p
	if c.IsTrue() {
		if p.pos >= len(p.prefix) {
			atomic.AddInt64(&ex.asserts, 1)
			atomic.AddInt64(&ex.assertConst, 1)
		}
		return
	}
	if c.IsFalse() || p.pcSet[in.b.Not(c)] {
		atomic.AddInt64(&ex.asserts, 1)
		in.candidate(kind, msg, in.where(), p.model)
		panic(pathEnd{"violation", msg})
	}
	if p.pcSet[c] {
		return
	}
	if v, ok := in.rangeDecide(c); ok && v {
		if p.pos >= len(p.prefix) {
			atomic.AddInt64(&ex.asserts, 1)
			atomic.AddInt64(&ex.assertConst, 1)
		}
		return
	}
	if d, ok := in.next(); ok {
		p.assume(in.b, c, d.Implied)
		return
	}
	atomic.AddInt64(&ex.asserts, 1)
	nc := in.b.Not(c)
	res, m := in.check(nc)
	switch res {
	case Unsat:
		n := atomic.AddInt64(&ex.assertSolver, 1)
		if ex.cfg.CrossEvery > 0 && n%int64(ex.cfg.CrossEvery) == 0 {
			if !in.sol.CrossCheck(in.b.slice(p.pc, nc), nc, Unsat) {
				ex.note(in.h.Name() + ": solvers disagree")
			}
		}
		in.record(Decision{V: 1, Implied: true})
		p.assume(in.b, c, true)
		return
	case Unknown:
		atomic.AddInt64(&ex.assertUnk, 1)
		ex.note(in.h.Name() + ": solver gave no answer for an assertion: " + msg)
	case Sat:
		in.candidate(kind, msg, in.where(), m)
	}
	// continue on the side where the assertion holds, if there is one
	if in.b.Eval(c, p.model) != 1 {
		r2, m2 := in.check(c)
		if r2 != Sat || !in.modelOK(m2, c) {
			panic(pathEnd{"violation", msg})
		}
		p.model = m2
		in.b.NewEval()
	}
	in.record(Decision{V: 1})
	p.assume(in.b, c, false)
}

func (in *Interp) allocAssert(c *Expr, what string) {
	in.assertCond(c, "alloc", "allocation out of proportion to the input: "+what)
}

func (ex *Explorer) incompleteList() []string {
	var out []string
	for k, v := range ex.incomplete {
		out = append(out, fmt.Sprintf("%s (x%d)", k, v))
	}
	sort.Strings(out)
	return out
}
