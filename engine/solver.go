package main

// SMT solver sessions (one z3 process per worker) and path-condition reasoning.

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type Solver struct {
	bin      string
	args     []string
	cmd      *exec.Cmd
	in       *bufio.Writer
	wc       io.WriteCloser
	out      *bufio.Reader
	defined  map[uint32]bool
	declared map[int32]bool
	timeout  int
	alt      string // used in turn with bin after trouble
}

type solverStats struct {
	queries, sat, unsat, unknown, cached int64
	nanos                                int64
	setDecisions                         int64
	restarts                             int64
}

var stats solverStats

func newSolver(bin string, args ...string) *Solver {
	s := &Solver{bin: bin, args: args, timeout: 20000}
	if bin == "z3" {
		s.alt = "z3-new"
	}
	return s
}

func (s *Solver) start() error {
	s.cmd = exec.Command(s.bin, s.args...)
	in, err := s.cmd.StdinPipe()
	if err != nil {
		return err
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	s.cmd.Stderr = os.Stderr
	if err := s.cmd.Start(); err != nil {
		return err
	}
	s.wc = in
	s.in = bufio.NewWriterSize(in, 1<<16)
	s.out = bufio.NewReaderSize(out, 1<<16)
	s.defined = map[uint32]bool{}
	s.declared = map[int32]bool{}
	if strings.Contains(s.bin, "cvc5") {
		fmt.Fprint(s.in, "(set-logic QF_BV)\n(set-option :produce-models true)\n")
	} else {
		fmt.Fprintf(s.in, "(set-option :global-declarations true)\n(set-option :timeout %d)\n", s.timeout)
	}
	return nil
}

func (s *Solver) close() {
	if s.cmd != nil {
		s.wc.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func ref(e *Expr) string {
	switch e.op {
	case OpConst:
		if e.w == 0 {
			if e.k != 0 {
				return "true"
			}
			return "false"
		}
		return bvLit(e.k, e.w)
	case OpVar:
		return "v" + strconv.Itoa(int(e.k))
	}
	return "e" + strconv.Itoa(int(e.id))
}

func (s *Solver) define(e *Expr) {
	switch e.op {
	case OpConst:
		return
	case OpVar:
		id := int32(e.k)
		if !s.declared[id] {
			s.declared[id] = true
			fmt.Fprintf(s.in, "(declare-const v%d (_ BitVec %d))\n", id, e.w)
		}
		return
	}
	if s.defined[e.id] {
		return
	}
	// iterative post-order to keep deep terms off the Go stack
	type fr struct {
		e *Expr
		i int
	}
	st := []fr{{e, 0}}
	for len(st) > 0 {
		t := &st[len(st)-1]
		ch := [3]*Expr{t.e.a, t.e.b, t.e.c}
		if t.i < 3 {
			c := ch[t.i]
			t.i++
			if c == nil || c.op == OpConst {
				continue
			}
			if c.op == OpVar {
				s.define(c)
				continue
			}
			if !s.defined[c.id] {
				st = append(st, fr{c, 0})
			}
			continue
		}
		x := t.e
		st = st[:len(st)-1]
		if s.defined[x.id] {
			continue
		}
		s.defined[x.id] = true
		s.emit(x)
	}
}

func (s *Solver) emit(x *Expr) {
	sort := "Bool"
	if x.w > 0 {
		sort = fmt.Sprintf("(_ BitVec %d)", x.w)
	}
	fmt.Fprintf(s.in, "(define-fun e%d () %s ", x.id, sort)
	s.in.WriteString(termOf(x))
	s.in.WriteString(")\n")
}

func termOf(x *Expr) string {
	a := ref(x.a)
	switch x.op {
	case OpZExt:
		return fmt.Sprintf("((_ zero_extend %d) %s)", x.w-x.a.w, a)
	case OpSExt:
		return fmt.Sprintf("((_ sign_extend %d) %s)", x.w-x.a.w, a)
	case OpTrunc:
		return fmt.Sprintf("((_ extract %d 0) %s)", x.w-1, a)
	case OpInSet:
		w := x.a.w
		var sb strings.Builder
		if len(x.ivs) != 1 {
			sb.WriteString("(or")
		}
		for _, iv := range x.ivs {
			if len(x.ivs) != 1 {
				sb.WriteByte(' ')
			}
			switch {
			case iv.Lo == iv.Hi:
				fmt.Fprintf(&sb, "(= %s %s)", a, bvLit(iv.Lo, w))
			case iv.Lo == 0:
				fmt.Fprintf(&sb, "(bvule %s %s)", a, bvLit(iv.Hi, w))
			case iv.Hi == mask(w):
				fmt.Fprintf(&sb, "(bvuge %s %s)", a, bvLit(iv.Lo, w))
			default:
				fmt.Fprintf(&sb, "(and (bvuge %s %s) (bvule %s %s))", a, bvLit(iv.Lo, w), a, bvLit(iv.Hi, w))
			}
		}
		if len(x.ivs) != 1 {
			sb.WriteString(")")
		}
		return sb.String()
	case OpIte:
		return fmt.Sprintf("(ite %s %s %s)", a, ref(x.b), ref(x.c))
	case OpNot, OpBNot:
		return fmt.Sprintf("(%s %s)", opNames[x.op], a)
	}
	return fmt.Sprintf("(%s %s %s)", opNames[x.op], a, ref(x.b))
}

// query decides the conjunction of fs: 1 sat, 0 unsat, -1 unknown. For sat and
// a non-empty vars list the values of those variables are returned.
func (s *Solver) query(fs []*Expr, vars []int32) (int, map[int32]uint64) {
	t0 := time.Now()
	defer func() { atomic.AddInt64(&stats.nanos, int64(time.Since(t0))) }()
	atomic.AddInt64(&stats.queries, 1)
	for attempt := 0; ; attempt++ {
		if s.cmd != nil && len(s.defined) > 300000 {
			s.close()
			atomic.AddInt64(&stats.restarts, 1)
		}
		if s.cmd == nil {
			if err := s.start(); err != nil {
				engineErr("cannot start solver %s: %v", s.bin, err)
			}
		}
		// the solver's own limit does not cover everything it does: stop a
		// process that gives no answer and ask another one
		proc, limit := s.cmd.Process, time.Duration(s.timeout)*time.Millisecond*3/2
		watch := time.AfterFunc(limit, func() { proc.Kill() })
		r, m, err := s.query1(fs, vars)
		watch.Stop()
		if err == nil {
			switch r {
			case 1:
				atomic.AddInt64(&stats.sat, 1)
			case 0:
				atomic.AddInt64(&stats.unsat, 1)
			default:
				atomic.AddInt64(&stats.unknown, 1)
			}
			return r, m
		}
		s.close()
		atomic.AddInt64(&stats.restarts, 1)
		if s.alt != "" {
			s.bin, s.alt = s.alt, s.bin
		}
		if attempt >= 3 {
			fmt.Fprintf(os.Stderr, "solver trouble: %v\n", err)
			atomic.AddInt64(&stats.unknown, 1)
			return -1, nil
		}
	}
}

func (s *Solver) query1(fs []*Expr, vars []int32) (int, map[int32]uint64, error) {
	for _, f := range fs {
		s.define(f)
	}
	for _, v := range vars {
		s.define(varExpr(v))
	}
	s.in.WriteString("(push 1)\n")
	for _, f := range fs {
		s.in.WriteString("(assert " + ref(f) + ")\n")
	}
	s.in.WriteString("(check-sat)\n")
	if err := s.in.Flush(); err != nil {
		return 0, nil, err
	}
	line, err := s.out.ReadString('\n')
	if err != nil {
		return 0, nil, err
	}
	line = strings.TrimSpace(line)
	res := -1
	switch line {
	case "sat":
		res = 1
	case "unsat":
		res = 0
	case "unknown", "timeout":
	default:
		return 0, nil, fmt.Errorf("solver said %q", line)
	}
	var m map[int32]uint64
	if res == 1 && len(vars) > 0 {
		m = map[int32]uint64{}
		s.in.WriteString("(get-value (")
		for _, v := range vars {
			fmt.Fprintf(s.in, "v%d ", v)
		}
		s.in.WriteString("))\n")
		if err := s.in.Flush(); err != nil {
			return 0, nil, err
		}
		txt, err := s.readSexp()
		if err != nil {
			return 0, nil, err
		}
		if strings.Contains(txt, "(error") {
			return 0, nil, fmt.Errorf("%s", txt)
		}
		toks := strings.Fields(strings.NewReplacer("(", " ", ")", " ").Replace(txt))
		for i := 0; i+1 < len(toks); {
			if toks[i][0] != 'v' {
				return 0, nil, fmt.Errorf("get-value: %q", txt)
			}
			id, _ := strconv.Atoi(toks[i][1:])
			var val uint64
			t := toks[i+1]
			adv := 2
			switch {
			case strings.HasPrefix(t, "#x"):
				val, err = strconv.ParseUint(t[2:], 16, 64)
			case strings.HasPrefix(t, "#b"):
				val, err = strconv.ParseUint(t[2:], 2, 64)
			case t == "_":
				val, err = strconv.ParseUint(strings.TrimPrefix(toks[i+2], "bv"), 10, 64)
				adv = 4
			default:
				err = fmt.Errorf("value %q", t)
			}
			if err != nil {
				return 0, nil, err
			}
			m[int32(id)] = val
			i += adv
		}
	}
	s.in.WriteString("(pop 1)\n")
	return res, m, nil
}

func (s *Solver) readSexp() (string, error) {
	depth := 0
	var sb strings.Builder
	for {
		line, err := s.out.ReadString('\n')
		if err != nil {
			return "", err
		}
		sb.WriteString(line)
		for _, c := range line {
			if c == '(' {
				depth++
			} else if c == ')' {
				depth--
			}
		}
		if depth <= 0 && strings.TrimSpace(line) != "" {
			return sb.String(), nil
		}
	}
}

func varExpr(v int32) *Expr {
	varMu.RLock()
	defer varMu.RUnlock()
	return varExprs[v]
}

// ---- path conditions ----

func (s *State) dom(v int32) *Dom {
	if int(v) < len(s.doms) {
		return s.doms[v]
	}
	return nil
}

func (s *State) setDom(v int32, d *Dom) {
	for int(v) >= len(s.doms) {
		s.doms = append(s.doms, nil)
	}
	s.doms[v] = d
}

func (s *State) domSet(v int32, w uint8) BSet {
	if d := s.dom(v); d != nil {
		return d.b
	}
	return fullBSet(w)
}

func (s *State) domIV(v int32, w uint8) []IV {
	if d := s.dom(v); d != nil {
		return d.iv
	}
	return []IV{{0, mask(w)}}
}

func (s *State) inCons(v int32) bool {
	i := sort.Search(len(s.consVars), func(i int) bool { return s.consVars[i] >= v })
	return i < len(s.consVars) && s.consVars[i] == v
}

func domExpr(v int32, d *Dom) *Expr {
	if d == nil {
		return eTrue
	}
	ve := varExpr(v)
	if d.w <= 8 {
		return mkSetExpr(ve, d.b)
	}
	return mkInSet(ve, d.iv)
}

// condSet returns the value set of a one-small-variable condition.
func condSet(e *Expr) *BSet {
	if e.op == OpInSet && e.bset != nil {
		return e.bset
	}
	t := e.table()
	var s BSet
	n := 1 << varWidth(e.v)
	for x := 0; x < n; x++ {
		if t[x] != 0 {
			s[x>>6] |= 1 << (x & 63)
		}
	}
	return &s
}

type witness map[int32]uint64

// firstVal returns some value of v allowed by its domain.
func (s *State) firstVal(v int32) uint64 {
	d := s.dom(v)
	if d == nil {
		return 0
	}
	if d.w <= 8 {
		return d.b.first()
	}
	if len(d.iv) == 0 {
		return 0
	}
	return d.iv[0].Lo
}

func (s *State) modelVal(v int32) uint64 {
	if x, ok := s.fixedMod[v]; ok {
		return x
	}
	return s.firstVal(v)
}

func (s *State) evalModel(e *Expr) uint64 {
	if e.depth > 12 {
		return evalMap(e, s.modelVal, map[*Expr]uint64{})
	}
	return evalMap(e, s.modelVal, nil)
}

// slice collects the constraints connected to the variables vs.
func (s *State) slice(vs []int32) ([]*Expr, []int32) {
	if len(s.cons) == 0 {
		return nil, vs
	}
	in := map[int32]bool{}
	for _, v := range vs {
		in[v] = true
	}
	used := make([]bool, len(s.cons))
	var out []*Expr
	for ch := true; ch; {
		ch = false
		for i, c := range s.cons {
			if used[i] {
				continue
			}
			hit := false
			for _, v := range c.vars {
				if in[v] {
					hit = true
					break
				}
			}
			if hit {
				used[i] = true
				out = append(out, c)
				ch = true
				for _, v := range c.vars {
					in[v] = true
				}
			}
		}
	}
	all := make([]int32, 0, len(in))
	for v := range in {
		all = append(all, v)
	}
	sort.Slice(all, func(i, j int) bool { return all[i] < all[j] })
	return out, all
}

type qres struct {
	r int
	m witness
}

var qcache [64]struct {
	mu sync.Mutex
	m  map[string]qres
}

func init() {
	for i := range qcache {
		qcache[i].m = map[string]qres{}
	}
}

// solve decides s ∧ cond with the solver.
func (w *Worker) solve(s *State, cond *Expr) (int, witness) {
	cons, vars := s.slice(cond.vars)
	fs := make([]*Expr, 0, len(cons)+len(vars)+1)
	fs = append(fs, cons...)
	for _, v := range vars {
		d := domExpr(v, s.dom(v))
		if d != eTrue {
			fs = append(fs, d)
		}
	}
	sort.Slice(fs, func(i, j int) bool { return fs[i].id < fs[j].id })
	fs = append(fs, cond)
	var kb []byte
	for _, f := range fs {
		kb = strconv.AppendUint(kb, uint64(f.id), 36)
		kb = append(kb, ' ')
	}
	key := string(kb)
	h := uint32(2166136261)
	for i := 0; i < len(key); i++ {
		h = (h ^ uint32(key[i])) * 16777619
	}
	sh := &qcache[h&63]
	sh.mu.Lock()
	r, ok := sh.m[key]
	sh.mu.Unlock()
	if ok {
		atomic.AddInt64(&stats.cached, 1)
		return r.r, r.m
	}
	res, m := w.solver.query(fs, vars)
	w.ex.noteQuery(fs, res)
	sh.mu.Lock()
	sh.m[key] = qres{res, m}
	sh.mu.Unlock()
	return res, m
}

// check reports whether cond can be true / false in s.
func (w *Worker) check(s *State, cond *Expr) (bool, bool) {
	if cond.op == OpConst {
		return cond.k != 0, cond.k == 0
	}
	w.lastCond = nil
	if cond.small() {
		set := condSet(cond)
		d := s.domSet(cond.v, varWidth(cond.v))
		a, b := d.and(set), d.andNot(set)
		ae, be := a.empty(), b.empty()
		if ae || be || !s.inCons(cond.v) {
			atomic.AddInt64(&stats.setDecisions, 1)
			return !ae, !be
		}
	} else if cond.op == OpInSet && cond.a.op == OpVar {
		v := cond.v
		d := s.domIV(v, cond.a.w)
		a := ivAnd(d, cond.ivs)
		b := ivAnd(d, ivNot(cond.ivs, mask(cond.a.w)))
		if len(a) == 0 || len(b) == 0 || !s.inCons(v) {
			atomic.AddInt64(&stats.setDecisions, 1)
			return len(a) != 0, len(b) != 0
		}
	}
	if s.summary != nil {
		s.summary.abort("summary needs the solver")
	}
	// the current model witnesses one side; ask the solver about the other
	w.lastCond = cond
	w.wT, w.wF = nil, nil
	if s.evalModel(cond) != 0 {
		r, m := w.solve(s, mkNot(cond))
		if r < 0 {
			s.inexact = true
			w.ex.unknown(s)
			return true, false
		}
		w.wF = m
		return true, r > 0
	}
	r, m := w.solve(s, cond)
	if r < 0 {
		s.inexact = true
		w.ex.unknown(s)
		return false, true
	}
	w.wT = m
	return r > 0, true
}

func (s *State) addModel(m witness) {
	nm := make(map[int32]uint64, len(s.fixedMod)+len(m))
	for k, v := range s.fixedMod {
		nm[k] = v
	}
	for k, v := range m {
		nm[k] = v
	}
	s.fixedMod = nm
}

// assume adds cond (known to be satisfiable together with s) to s.
func (w *Worker) assume(s *State, cond *Expr) {
	if cond.op == OpConst {
		if cond.k == 0 {
			engineErr("assume false at %s", s.where())
		}
		return
	}
	var m witness
	if w.lastCond != nil {
		if cond == w.lastCond {
			m = w.wT
		} else if cond == mkNot(w.lastCond) {
			m = w.wF
		}
	}
	needModel := s.evalModel(cond) == 0
	if !needModel {
		for _, v := range cond.vars {
			if d := s.dom(v); d != nil && d.w > 8 || s.inCons(v) || cond.v < 0 {
				if _, ok := s.fixedMod[v]; !ok {
					s.addModel(witness{v: s.firstVal(v)})
				}
			}
		}
	} else {
		touches := false
		for _, v := range cond.vars {
			if s.inCons(v) {
				touches = true
			}
		}
		if cond.v >= 0 && !touches && (cond.small() || cond.op == OpInSet && cond.a.op == OpVar) {
			// domain update below decides the value; drop a stale model entry
			if _, ok := s.fixedMod[cond.v]; ok {
				nm := make(map[int32]uint64, len(s.fixedMod))
				for k, v := range s.fixedMod {
					if k != cond.v {
						nm[k] = v
					}
				}
				s.fixedMod = nm
			}
		} else {
			if m == nil {
				r, mm := w.solve(s, cond)
				if r == 0 {
					engineErr("assume of an infeasible condition at %s", s.where())
				}
				if r < 0 {
					s.inexact = true
					w.ex.unknown(s)
				}
				m = mm
			}
			s.addModel(m)
		}
	}
	s.addCons(cond)
}

func (s *State) addCons(cond *Expr) {
	if cond.op == OpBAnd {
		s.addCons(cond.a)
		s.addCons(cond.b)
		return
	}
	if cond.op == OpConst {
		return
	}
	if cond.small() {
		set := condSet(cond)
		wd := varWidth(cond.v)
		d := s.domSet(cond.v, wd)
		s.setDom(cond.v, &Dom{b: d.and(set), w: wd})
		return
	}
	if cond.op == OpInSet && cond.a.op == OpVar {
		d := s.domIV(cond.v, cond.a.w)
		s.setDom(cond.v, &Dom{iv: ivAnd(d, cond.ivs), w: cond.a.w})
		return
	}
	for _, c := range s.cons {
		if c == cond {
			return
		}
	}
	s.cons = append(s.cons, cond)
	s.consVars = mergeVars(s.consVars, cond.vars)
}

// enumerate lists the feasible values of e in s (at most limit).
func (w *Worker) enumerate(s *State, e *Expr, limit int) []uint64 {
	if e.op == OpConst {
		return []uint64{e.k}
	}
	if e.v >= 0 && varWidth(e.v) <= 8 {
		wd := varWidth(e.v)
		d := s.domSet(e.v, wd)
		t := e.table()
		seen := map[uint64]bool{}
		var out []uint64
		for x := uint64(0); x < 1<<wd; x++ {
			if d.has(x) && !seen[t[x]] {
				seen[t[x]] = true
				out = append(out, t[x])
			}
		}
		if s.inCons(e.v) && len(out) > 1 {
			var o2 []uint64
			for _, v := range out {
				t, _ := w.check(s, mkBin(OpEq, e, mkConst(v, e.w)))
				if t {
					o2 = append(o2, v)
				}
			}
			out = o2
		}
		if len(out) > limit {
			engineErr("more than %d values at %s", limit, s.where())
		}
		return out
	}
	if s.summary != nil && !(e.op == OpVar) {
		s.summary.abort("enumerate in summary")
	}
	if e.op == OpVar && !s.inCons(e.v) {
		var out []uint64
		for _, iv := range s.domIV(e.v, e.w) {
			for x := iv.Lo; ; x++ {
				out = append(out, x)
				if len(out) > limit {
					if s.summary != nil {
						s.summary.abort("enumerate in summary")
					}
					engineErr("more than %d values at %s", limit, s.where())
				}
				if x == iv.Hi {
					break
				}
			}
		}
		return out
	}
	var out []uint64
	cond := eTrue
	var ivs []IV
	for {
		var v uint64
		if len(out) == 0 {
			v = s.evalModel(e)
		} else {
			r, m := w.solve(s, cond)
			if r < 0 {
				engineErr("solver gave no answer enumerating at %s", s.where())
			}
			if r == 0 {
				return out
			}
			v = evalMap(e, func(x int32) uint64 {
				if y, ok := m[x]; ok {
					return y
				}
				return s.modelVal(x)
			}, map[*Expr]uint64{})
		}
		out = append(out, v)
		if len(out) > limit {
			engineErr("more than %d values at %s", limit, s.where())
		}
		ivs = ivNorm(append(append([]IV(nil), ivs...), IV{v, v}))
		cond = mkInSet(e, ivNot(ivs, mask(e.w)))
		if cond == eFalse {
			return out
		}
		if cond == eTrue {
			engineErr("enumerate: condition vanished")
		}
	}
}

// modelOf returns a full assignment for the inputs of s.
func (s *State) inputValue(e *Expr) uint64 {
	return evalMap(e, s.modelVal, nil)
}
