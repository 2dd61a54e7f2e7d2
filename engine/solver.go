package main

// SMT-LIB2 back end: one long-lived z3 process per worker, with an assertion
// stack that mirrors the path condition.

import (
	"bufio"
	"fmt"
	"io"
	"math/big"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"sync/atomic"
	"time"
)

var slowDir = os.Getenv("SYMGO_SLOW")

type Result int

const (
	Unsat Result = iota
	Sat
	Unknown
)

func (r Result) String() string { return [...]string{"unsat", "sat", "unknown"}[r] }

// SolverStats are shared by all workers of a run.
type SolverStats struct {
	Queries   int64
	SatN      int64
	UnsatN    int64
	UnknownN  int64
	Nanos     int64
	CrossN    int64 // cross-checked with a second solver
	CrossBad  int64
	Cached    int64 // answered from the query cache
	Errors    int64
	Restarts  int64
	MaxMillis int64
}

type Solver struct {
	b       *Builder
	cmdline []string
	cmd     *exec.Cmd
	in      *bufio.Writer
	out     *bufio.Reader
	defined map[int]bool
	ufs     map[string]bool
	vars    map[string]int // name -> width
	varList []string
	stack   []*Expr
	nq      int
	timeout time.Duration
	st      *SolverStats
	// one-shot fallback
	script []string
}

func NewSolver(b *Builder, st *SolverStats, timeout time.Duration) *Solver {
	return &Solver{b: b, cmdline: []string{"z3-new", "-in", "-smt2"}, st: st, timeout: timeout}
}

func (s *Solver) start() {
	s.cmd = exec.Command(s.cmdline[0], s.cmdline[1:]...)
	w, err := s.cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	r, err := s.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	if err := s.cmd.Start(); err != nil {
		panic(engineError("cannot start solver: " + err.Error()))
	}
	s.in = bufio.NewWriterSize(w, 1<<16)
	s.out = bufio.NewReaderSize(r, 1<<16)
	s.defined = map[int]bool{}
	s.ufs = map[string]bool{}
	s.vars = map[string]int{}
	s.varList = nil
	s.stack = nil
	fmt.Fprintf(s.in, "(set-option :global-declarations true)\n(set-option :produce-models true)\n(set-option :timeout %d)\n", s.timeout.Milliseconds())
}

func (s *Solver) Close() {
	if s.cmd != nil {
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func (s *Solver) Reset() {
	s.Close()
	atomic.AddInt64(&s.st.Restarts, 1)
}

func qname(n string) string { return "|" + n + "|" }

func sortOf(w int) string {
	if w == 0 {
		return "Bool"
	}
	return "(_ BitVec " + strconv.Itoa(w) + ")"
}

// ref returns the SMT text that refers to e (assuming it has been defined).
func ref(e *Expr) string {
	switch e.op {
	case OConst:
		if e.w == 0 {
			if e.val == 1 {
				return "true"
			}
			return "false"
		}
		return "(_ bv" + strconv.FormatUint(e.val, 10) + " " + strconv.Itoa(e.w) + ")"
	case OVar:
		return qname(e.name)
	}
	return "e" + strconv.Itoa(e.id)
}

// emitter writes declarations/definitions for an expression DAG.
type emitter struct {
	w       io.Writer
	defined map[int]bool
	ufs     map[string]bool
	onVar   func(name string, w int)
	b       *Builder
}

func (em *emitter) define(e *Expr) {
	if e.op == OConst || em.defined[e.id] {
		return
	}
	// iterative post-order to survive deep chains
	type fr struct {
		e *Expr
		i int
	}
	st := []fr{{e, 0}}
	for len(st) > 0 {
		t := &st[len(st)-1]
		if t.i < len(t.e.a) {
			c := t.e.a[t.i]
			t.i++
			if c.op != OConst && !em.defined[c.id] {
				st = append(st, fr{c, 0})
			}
			continue
		}
		x := t.e
		st = st[:len(st)-1]
		if em.defined[x.id] {
			continue
		}
		em.defined[x.id] = true
		if x.op == OVar {
			em.onVar(x.name, x.w)
			fmt.Fprintf(em.w, "(declare-const %s %s)\n", qname(x.name), sortOf(x.w))
			continue
		}
		term := em.term(x)
		fmt.Fprintf(em.w, "(define-fun e%d () %s %s)\n", x.id, sortOf(x.w), term)
	}
}

func (em *emitter) term(x *Expr) string {
	var sb strings.Builder
	switch x.op {
	case OExtract:
		hi, lo := x.val>>32, x.val&0xffffffff
		fmt.Fprintf(&sb, "((_ extract %d %d) %s)", hi, lo, ref(x.a[0]))
	case OZext:
		fmt.Fprintf(&sb, "((_ zero_extend %d) %s)", x.w-x.a[0].w, ref(x.a[0]))
	case OSext:
		fmt.Fprintf(&sb, "((_ sign_extend %d) %s)", x.w-x.a[0].w, ref(x.a[0]))
	case OFLt, OFLe, OFEq:
		op := map[Op]string{OFLt: "fp.lt", OFLe: "fp.leq", OFEq: "fp.eq"}[x.op]
		fs := "11 53"
		if x.a[0].w == 32 {
			fs = "8 24"
		}
		fmt.Fprintf(&sb, "(%s ((_ to_fp %s) %s) ((_ to_fp %s) %s))", op, fs, ref(x.a[0]), fs, ref(x.a[1]))
	case OFCvt:
		if x.w == 64 {
			em.widen(&sb, ref(x.a[0]))
		} else {
			panic(unsupported("symbolic float64->float32 conversion"))
		}
	case OUF:
		key := fmt.Sprintf("%s/%d", x.name, len(x.a))
		fname := fmt.Sprintf("|uf_%s_%d|", x.name, len(x.a))
		if !em.ufs[key] {
			em.ufs[key] = true
			var as []string
			for _, a := range x.a {
				as = append(as, sortOf(a.w))
			}
			fmt.Fprintf(em.w, "(declare-fun %s (%s) %s)\n", fname, strings.Join(as, " "), sortOf(x.w))
		}
		if len(x.a) == 0 {
			return fname
		}
		sb.WriteString("(" + fname)
		for _, a := range x.a {
			sb.WriteString(" " + ref(a))
		}
		sb.WriteString(")")
	default:
		n, ok := opNames[x.op]
		if !ok {
			panic(unsupported(fmt.Sprintf("emit op %d", x.op)))
		}
		sb.WriteString("(" + n)
		for _, a := range x.a {
			sb.WriteString(" " + ref(a))
		}
		sb.WriteString(")")
	}
	return sb.String()
}

// widen: float32 bit pattern to float64 bit pattern as a bit-vector circuit.
func (em *emitter) widen(sb *strings.Builder, x string) {
	sign := fmt.Sprintf("((_ extract 31 31) %s)", x)
	exp := fmt.Sprintf("((_ extract 30 23) %s)", x)
	man := fmt.Sprintf("((_ extract 22 0) %s)", x)
	norm := fmt.Sprintf("(concat %s (bvadd ((_ zero_extend 3) %s) (_ bv896 11)) %s (_ bv0 29))", sign, exp, man)
	spec := fmt.Sprintf("(concat %s #b11111111111 (ite (= %s (_ bv0 23)) %s (bvor %s #b10000000000000000000000)) (_ bv0 29))", sign, man, man, man)
	// subnormals: find leading one
	sub := fmt.Sprintf("(concat %s (_ bv0 63))", sign)
	for k := 0; k <= 22; k++ { // highest set bit k: value = 1.f * 2^(k-149)
		e := 1023 + k - 149
		var frac string
		if k == 0 {
			frac = "(_ bv0 52)"
		} else {
			frac = fmt.Sprintf("(concat ((_ extract %d 0) %s) (_ bv0 %d))", k-1, man, 52-k)
		}
		cond := fmt.Sprintf("(= ((_ extract %d %d) %s) #b1)", k, k, man)
		sub = fmt.Sprintf("(ite %s (concat %s (_ bv%d 11) %s) %s)", cond, sign, e, frac, sub)
	}
	fmt.Fprintf(sb, "(ite (= %s #xff) %s (ite (= %s #x00) %s %s))", exp, spec, exp, sub, norm)
}

func (s *Solver) emitterFor() *emitter {
	return &emitter{w: s.in, defined: s.defined, ufs: s.ufs, b: s.b, onVar: func(n string, w int) {
		if _, ok := s.vars[n]; !ok {
			s.vars[n] = w
			s.varList = append(s.varList, n)
		}
	}}
}

// Check decides pc /\ extra; on Sat with wantModel returns a model of all declared variables.
func (s *Solver) Check(pc []*Expr, extra *Expr, wantModel bool) (Result, Model) {
	if extra.IsFalse() {
		return Unsat, nil
	}
	t0 := time.Now()
	defer func() {
		d := time.Since(t0)
		atomic.AddInt64(&s.st.Nanos, int64(d))
		if slowDir != "" && d > 30*time.Millisecond {
			os.WriteFile(fmt.Sprintf("%s/q%d-%d.smt2", slowDir, d.Milliseconds(), s.nq), []byte(s.scriptFor(pc, extra, true)), 0644)
		}
		if ms := d.Milliseconds(); ms > atomic.LoadInt64(&s.st.MaxMillis) {
			atomic.StoreInt64(&s.st.MaxMillis, ms)
		}
	}()
	atomic.AddInt64(&s.st.Queries, 1)
	r, m := s.check1(pc, extra, wantModel)
	if r == Unknown {
		r, m = s.oneShot(pc, extra, wantModel)
	}
	switch r {
	case Sat:
		atomic.AddInt64(&s.st.SatN, 1)
	case Unsat:
		atomic.AddInt64(&s.st.UnsatN, 1)
	default:
		atomic.AddInt64(&s.st.UnknownN, 1)
	}
	return r, m
}

func (s *Solver) check1(pc []*Expr, extra *Expr, wantModel bool) (res Result, m Model) {
	s.nq++
	if s.cmd != nil && s.nq%3000 == 0 {
		s.Reset()
	}
	if s.cmd == nil {
		s.start()
	}
	em := s.emitterFor()
	// align assertion stack
	k := 0
	for k < len(s.stack) && k < len(pc) && s.stack[k] == pc[k] {
		k++
	}
	if d := len(s.stack) - k; d > 0 {
		fmt.Fprintf(s.in, "(pop %d)\n", d)
		s.stack = s.stack[:k]
	}
	for ; k < len(pc); k++ {
		em.define(pc[k])
		fmt.Fprintf(s.in, "(push 1)\n(assert %s)\n", ref(pc[k]))
		s.stack = append(s.stack, pc[k])
	}
	em.define(extra)
	fmt.Fprintf(s.in, "(push 1)\n(assert %s)\n(check-sat)\n(echo \"@\")\n", ref(extra))
	if err := s.in.Flush(); err != nil {
		s.Reset()
		return Unknown, nil
	}
	lines, ok := s.readUntilAt(s.timeout + 2*time.Second)
	if !ok {
		s.Reset()
		return Unknown, nil
	}
	ans := ""
	for _, l := range lines {
		if strings.HasPrefix(l, "(error") {
			atomic.AddInt64(&s.st.Errors, 1)
			s.Reset()
			return Unknown, nil
		}
		if l == "sat" || l == "unsat" || l == "unknown" {
			ans = l
		}
	}
	switch ans {
	case "unsat":
		res = Unsat
	case "sat":
		res = Sat
		if wantModel && len(s.varList) > 0 {
			var sb strings.Builder
			sb.WriteString("(get-value (")
			for i, n := range s.varList {
				if i > 0 {
					sb.WriteByte(' ')
				}
				sb.WriteString(qname(n))
			}
			sb.WriteString("))\n(echo \"@\")\n")
			s.in.WriteString(sb.String())
			s.in.Flush()
			lines, ok := s.readUntilAt(10 * time.Second)
			if !ok {
				s.Reset()
				return Unknown, nil
			}
			m, ok = parseModel(strings.Join(lines, " "))
			if !ok {
				atomic.AddInt64(&s.st.Errors, 1)
				s.Reset()
				return Unknown, nil
			}
		} else if wantModel {
			m = Model{}
		}
	default:
		res = Unknown
	}
	fmt.Fprintf(s.in, "(pop 1)\n")
	return res, m
}

func (s *Solver) readUntilAt(limit time.Duration) ([]string, bool) {
	cmd := s.cmd
	t := time.AfterFunc(limit, func() { cmd.Process.Kill() })
	defer t.Stop()
	var lines []string
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			return nil, false
		}
		l = strings.TrimSpace(l)
		if l == "@" || l == "\"@\"" {
			return lines, true
		}
		lines = append(lines, l)
	}
}

func parseModel(t string) (Model, bool) {
	if strings.Contains(t, "(error") {
		return nil, false
	}
	m := Model{}
	i := 0
	n := len(t)
	for i < n {
		j := strings.IndexByte(t[i:], '|')
		if j < 0 {
			break
		}
		i += j + 1
		j = strings.IndexByte(t[i:], '|')
		if j < 0 {
			return nil, false
		}
		name := t[i : i+j]
		i += j + 1
		for i < n && t[i] == ' ' {
			i++
		}
		k := i
		depth := 0
		for k < n && (t[k] != ')' || depth > 0) {
			if t[k] == '(' {
				depth++
			}
			if t[k] == ')' {
				depth--
			}
			k++
		}
		v := strings.TrimSpace(t[i:k])
		i = k
		switch {
		case strings.HasPrefix(v, "#x"):
			x, err := strconv.ParseUint(v[2:], 16, 64)
			if err != nil {
				return nil, false
			}
			m[name] = x
		case strings.HasPrefix(v, "#b"):
			x, err := strconv.ParseUint(v[2:], 2, 64)
			if err != nil {
				return nil, false
			}
			m[name] = x
		case v == "true":
			m[name] = 1
		case v == "false":
			m[name] = 0
		case strings.HasPrefix(v, "(_ bv"):
			f := strings.Fields(v[5:])
			x, err := strconv.ParseUint(f[0], 10, 64)
			if err != nil {
				return nil, false
			}
			m[name] = x
		default:
			return nil, false
		}
	}
	return m, true
}

// script renders a self-contained SMT-LIB2 query.
func (s *Solver) scriptFor(pc []*Expr, extra *Expr, wantModel bool) string {
	var sb strings.Builder
	var vars []string
	em := &emitter{w: &sb, defined: map[int]bool{}, ufs: map[string]bool{}, b: s.b, onVar: func(n string, w int) { vars = append(vars, n) }}
	sb.WriteString("(set-option :produce-models true)\n(set-logic ALL)\n")
	for _, e := range pc {
		em.define(e)
		fmt.Fprintf(&sb, "(assert %s)\n", ref(e))
	}
	em.define(extra)
	fmt.Fprintf(&sb, "(assert %s)\n(check-sat)\n", ref(extra))
	if wantModel && len(vars) > 0 {
		sb.WriteString("(get-value (")
		for _, n := range vars {
			sb.WriteString(qname(n) + " ")
		}
		sb.WriteString("))\n")
	}
	return sb.String()
}

func runSolverScript(argv []string, script string, limit time.Duration) (Result, Model) {
	cmd := exec.Command(argv[0], argv[1:]...)
	cmd.Stdin = strings.NewReader(script)
	t := time.AfterFunc(limit, func() {
		if cmd.Process != nil {
			cmd.Process.Kill()
		}
	})
	defer t.Stop()
	out, _ := cmd.Output()
	txt := string(out)
	first := txt
	rest := ""
	if i := strings.IndexByte(txt, '\n'); i >= 0 {
		first, rest = txt[:i], txt[i+1:]
	}
	switch strings.TrimSpace(first) {
	case "unsat":
		return Unsat, nil
	case "sat":
		m, ok := parseModel(rest)
		if !ok {
			return Sat, nil
		}
		return Sat, m
	}
	return Unknown, nil
}

func (s *Solver) oneShot(pc []*Expr, extra *Expr, wantModel bool) (Result, Model) {
	script := s.scriptFor(pc, extra, wantModel)
	for _, argv := range [][]string{{"z3-new", "-in", "-smt2"}, {"cvc5", "--lang=smt2", "-q"}} {
		r, m := runSolverScript(argv, script, 2*s.timeout)
		if r == Unsat || (r == Sat && (!wantModel || m != nil)) {
			return r, m
		}
	}
	return Unknown, nil
}

// CrossCheck re-decides an unsat query with cvc5 (or the old z3); returns false on a contradiction.
func (s *Solver) CrossCheck(pc []*Expr, extra *Expr, expect Result) bool {
	script := s.scriptFor(pc, extra, false)
	for _, argv := range [][]string{{"cvc5", "--lang=smt2", "-q"}, {"z3", "-in", "-smt2"}} {
		r, _ := runSolverScript(argv, script, s.timeout)
		if r == Unknown {
			continue
		}
		atomic.AddInt64(&s.st.CrossN, 1)
		if r != expect {
			atomic.AddInt64(&s.st.CrossBad, 1)
			return false
		}
		return true
	}
	return true
}

type engineError string

var bigZero = new(big.Int)
