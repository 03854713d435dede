package main

// Function summaries, memoised constructors and region if-conversion.

import (
	"fmt"
	"go/token"
	"os"
	"strings"
	"sync"
	"sync/atomic"

	"golang.org/x/tools/go/ssa"
)

type summaryAbort struct{ why string }

type summaryRun struct {
	shared    bool // allocate into the shared table
	initPhase bool
	aborted   string
	newObjs   []int32
	reads     map[int32]bool
	formal    *Expr
	full      uint8
	results   []sumRes
	stack     []*State
	steps     int64
	memoName  string
	pend      *pendFork
}

type sumRes struct {
	ivs []IV
	n   uint64
	e   *Expr
}

func (r *summaryRun) abort(why string) {
	r.aborted = why
	panic(summaryAbort{why})
}

func (r *summaryRun) noteRead(id int32) {
	if id < 0 && r.reads != nil {
		r.reads[id] = true
	}
}

// record stores the result of one finished summary path.
func (r *summaryRun) record(s *State) {
	r.steps += s.steps
	if r.formal == nil {
		return
	}
	v := s.result
	if r.pend != nil && r.pend.st == s {
		r.pend = nil
	}
	var ivs []IV
	if d := s.dom(r.formal.v); d == nil {
		ivs = []IV{{0, mask(r.formal.w)}}
	} else if d.w <= 8 {
		ivs = bsetIVs(&d.b)
	} else {
		ivs = d.iv
	}
	if e, ok := v.X.(*Expr); ok {
		r.results = append(r.results, sumRes{ivs: ivs, e: e})
		return
	}
	for i := range r.results {
		t := &r.results[i]
		if t.e == nil && t.n == v.N {
			// common case: consecutive single values
			last := &t.ivs[len(t.ivs)-1]
			if len(ivs) == 1 && last.Hi != ^uint64(0) && last.Hi+1 == ivs[0].Lo {
				last.Hi = ivs[0].Hi
				return
			}
			if len(ivs) == 1 && last.Hi < ivs[0].Lo {
				t.ivs = append(t.ivs, ivs[0])
				return
			}
			t.ivs = ivNorm(append(append([]IV(nil), t.ivs...), ivs...))
			return
		}
	}
	r.results = append(r.results, sumRes{ivs: append([]IV(nil), ivs...), n: v.N})
}

// pendFork is the most recent "equal" side of a scan comparison: later equal
// sides that reach the same place with the same live state join it.
type pendFork struct {
	st, parent *State
	code       *Code
	blk        int32
	wver       uint64
	nframes    int
	ivs        []IV
}

// scanEq handles "formal == constant" followed by a branch, the shape of a
// linear scan, without building a term per element.
func (w *Worker) scanEq(s *State, f *Frame, ins *Inst, x, y Val) (ctl, bool) {
	formal := s.summary.formal
	if x.X == nil {
		x, y = y, x
	}
	if y.X != nil {
		return 0, false
	}
	e, _ := x.X.(*Expr)
	if e == nil {
		return 0, false
	}
	if e.op == OpZExt {
		if y.N > mask(e.a.w) {
			f.regs[ins.dst] = boolVal(ins.tok != token.EQL)
			return cNext, true
		}
		e = e.a
	}
	if e != formal || formal.w <= 8 {
		return 0, false
	}
	b := &f.code.blocks[f.blk]
	if int(f.pc)+1 >= len(b.ins) {
		return 0, false
	}
	br := &b.ins[f.pc+1]
	if br.op != iIf || br.a != operand(ins.dst) {
		return 0, false
	}
	c := y.N & mask(formal.w)
	d := s.domIV(formal.v, formal.w)
	eqE, neE := &br.e0, &br.e1
	eqV := true
	if ins.tok != token.EQL {
		eqE, neE = neE, eqE
		eqV = false
	}
	if !inIVs(d, c) {
		f.regs[ins.dst] = boolVal(!eqV)
		f.take(neE)
		return cFrame, true
	}
	point := []IV{{c, c}}
	rest := ivAnd(d, ivNot(point, mask(formal.w)))
	if len(rest) == 0 {
		f.regs[ins.dst] = boolVal(eqV)
		f.take(eqE)
		return cFrame, true
	}
	p := s.summary.pend
	if p != nil && p.parent == s && p.code == f.code && p.blk == eqE.blk && p.wver == s.wver && p.nframes == len(s.frames) {
		// same live registers on the equal side?
		l := liveness(f.code)
		live := l.in[eqE.blk]
		top := p.st.frames[len(p.st.frames)-1]
		same := true
		for r := range f.regs {
			if !bitHas(live, r) {
				continue
			}
			v := f.regs[r]
			if int32(r) == ins.dst {
				v = boolVal(eqV)
			}
			for _, m := range eqE.moves {
				if m.dst == int32(r) {
					v = f.val(m.src)
				}
			}
			if !valSame(v, top.regs[r]) {
				same = false
				break
			}
		}
		if same {
			dd := p.st.dom(formal.v)
			if n := len(dd.iv); dd.iv[n-1].Hi+1 == c {
				dd.iv[n-1].Hi = c
			} else {
				dd.iv = ivNorm(append(dd.iv, IV{c, c}))
			}
			s.setDom(formal.v, &Dom{iv: rest, w: formal.w})
			f.regs[ins.dst] = boolVal(!eqV)
			f.take(neE)
			return cFrame, true
		}
	}
	t := w.fork(s)
	t.setDom(formal.v, &Dom{iv: []IV{{c, c}}, w: formal.w})
	tf := t.top()
	tf.regs[ins.dst] = boolVal(eqV)
	tf.take(eqE)
	s.summary.pend = &pendFork{st: t, parent: s, code: f.code, blk: eqE.blk, wver: s.wver, nframes: len(s.frames)}
	w.push(t)
	s.setDom(formal.v, &Dom{iv: rest, w: formal.w})
	f = s.top()
	f.regs[ins.dst] = boolVal(!eqV)
	f.take(neE)
	return cFrame, true
}

type summary struct {
	mu    sync.Mutex
	done  bool
	bad   string
	run   *summaryRun
	light bool
}

var sumMu sync.Mutex
var summaries = map[string]*summary{}
var sumSymOff sync.Map // code -> true: symbolic summaries do not work for it

type constSum struct {
	n     uint64
	reads map[int32]bool
	bad   bool
}

var constSums sync.Map
var lightCode sync.Map

func (w *Worker) argKey(s *State, v Val, t *TInfo, sb *strings.Builder) bool {
	switch t.kind {
	case KInt, KBool, KFloat:
		fmt.Fprintf(sb, ",%x", v.N)
		return true
	case KPtr:
		if v.Id > 0 {
			return false
		}
		fmt.Fprintf(sb, ",p%d.%d", v.Id, v.N)
		return true
	case KSlice:
		if v.Id > 0 {
			return false
		}
		fmt.Fprintf(sb, ",s%d.%d.%d", v.Id, v.N, v.Ln)
		return true
	case KString:
		g, ok := goString(v)
		if !ok || len(g) > 200 {
			return false
		}
		fmt.Fprintf(sb, ",%q", g)
		return true
	}
	return false
}

// trySummary replaces a call of a pure scalar function whose pointer arguments
// refer to shared (immutable) objects and with at most one symbolic argument by
// its closed summary: for every value of the argument, the result.
func (w *Worker) trySummary(s *State, f *Frame, ins *Inst, code *Code) (bool, ctl) {
	if len(ins.args) == 0 || len(ins.args) > 6 {
		return false, cNext
	}
	sym := -1
	var symE *Expr
	var sb strings.Builder
	fmt.Fprintf(&sb, "%d", code.id)
	sig := code.fn.Params
	forced := -1
	if h, ok := heavyCode.Load(code); ok {
		forced = h.(int)
		for _, a := range ins.args {
			if _, ok := f.val(a).X.(*Expr); ok {
				forced = -1
			}
		}
	}
	var forcedFull uint8
	for i, a := range ins.args {
		v := f.val(a)
		t := TI(sig[i].Type())
		if i == forced {
			forcedFull = t.w
			sym = i
			if v.N < 256 {
				symE = mkConst(v.N, 8)
			} else {
				symE = mkConst(v.N, t.w)
			}
			fmt.Fprintf(&sb, ",$%d", t.w)
			continue
		}
		if e, ok := v.X.(*Expr); ok {
			if sym >= 0 && e != symE {
				return false, cNext
			}
			sym, symE = i, e
			fmt.Fprintf(&sb, ",$%d", e.w)
			continue
		}
		if !w.argKey(s, v, t, &sb) {
			return false, cNext
		}
	}
	if sym < 0 {
		return w.constSummary(s, f, ins, code, sb.String())
	}
	if symE.w == 0 {
		return false, cNext
	}
	if _, off := sumSymOff.Load(code); off {
		return false, cNext
	}
	// 8-bit view of the argument
	arg := symE
	full := symE.w
	if forcedFull != 0 {
		full = forcedFull
		if arg.w == 8 && full > 8 {
			sb.WriteString("/8")
		}
	}
	if arg.op == OpZExt && arg.a.w <= 8 {
		arg = arg.a
		sb.WriteString("/8")
	}
	if arg.w != 8 && arg.w > 8 {
		sb.WriteString("/w")
	}
	key := sb.String()
	sumMu.Lock()
	sm := summaries[key]
	if sm == nil {
		sm = &summary{}
		summaries[key] = sm
	}
	sumMu.Unlock()
	w.finishSummary(s, f, ins, code, sm, arg.w, full)
	if sm.bad != "" {
		return false, cNext
	}
	if !w.readsClean(s, sm.run.reads) {
		return false, cNext
	}
	rt := code.results[0]
	rw := rt.w
	if rt.kind == KBool {
		rw = 0
	}
	rs := sm.run.results
	var r *Expr
	for i := len(rs) - 1; i >= 0; i-- {
		t := &rs[i]
		var v *Expr
		if t.e != nil {
			v = subst(t.e, sm.run.formal.v, arg, map[*Expr]*Expr{})
		} else {
			v = mkConst(t.n, rw)
		}
		if r == nil {
			r = v
		} else {
			r = mkIte(mkInSet(arg, t.ivs), v, r)
		}
	}
	f.regs[ins.dst] = valOf(r)
	return true, cNext
}

func (w *Worker) finishSummary(s *State, f *Frame, ins *Inst, code *Code, sm *summary, aw, full uint8) {
	sm.mu.Lock()
	defer sm.mu.Unlock()
	if !sm.done {
		w.buildSummary(s, f, ins, code, sm, aw, full)
	}
}

// stopAbort unwinds the work in progress once the exploration is stopped.
type stopAbort struct{}

func (w *Worker) readsClean(s *State, reads map[int32]bool) bool {
	if s.overlay == nil {
		return true
	}
	if len(reads) < len(s.overlay) {
		for id := range reads {
			if _, ok := s.overlay[id]; ok {
				return false
			}
		}
		return true
	}
	for id := range s.overlay {
		if reads[id] {
			return false
		}
	}
	return true
}

var summaryJob = &Job{name: "summary", stepLimit: 80_000_000}

func (w *Worker) newSummaryState(run *summaryRun) *State {
	return &State{owner: newOwner(), job: summaryJob, summary: run}
}

func (w *Worker) runSummary(run *summaryRun, s *State) {
	saveLast, sT, sF := w.lastCond, w.wT, w.wF
	run.stack = append(run.stack, s)
	var total int64
	for n := 0; len(run.stack) > 0 && run.aborted == ""; n++ {
		t := run.stack[len(run.stack)-1]
		run.stack = run.stack[:len(run.stack)-1]
		if run.pend != nil && run.pend.st == t {
			run.pend = nil
		}
		st := t.steps
		w.run(t)
		total += t.steps - st
		if w.ex.stopped() {
			panic(stopAbort{}) // an unfinished summary must not be kept
		}
		if n > 3_000_000 || total > 400_000_000 {
			run.aborted = "too many summary paths"
		}
	}
	run.steps = total
	w.lastCond, w.wT, w.wF = saveLast, sT, sF
	if os.Getenv("GOSYM_SUM") != "" {
		fmt.Fprintf(os.Stderr, "summary run: steps %d aborted %q results %d\n", total, run.aborted, len(run.results))
	}
}

func (w *Worker) buildSummary(s *State, f *Frame, ins *Inst, code *Code, sm *summary, aw, full uint8) {
	formal := newVar(fmt.Sprintf("$s%d", aw), aw)
	run := &summaryRun{reads: map[int32]bool{}, formal: formal}
	st := w.newSummaryState(run)
	var args []Val
	anySym := false
	for _, a := range ins.args {
		if _, ok := f.val(a).X.(*Expr); ok {
			anySym = true
		}
	}
	for _, a := range ins.args {
		v := f.val(a)
		if v.X != nil {
			if _, ok := v.X.(*Expr); ok {
				v = Val{X: mkZExt(formal, full)}
			}
		} else if h, ok := heavyCode.Load(code); ok && h.(int) == len(args) && !anySym {
			v = Val{X: mkZExt(formal, full)}
		}
		args = append(args, v)
	}
	st.pushFrame(code, args, nil, -1)
	if !func() (ok bool) {
		defer func() {
			if r := recover(); r != nil {
				if a, is := r.(summaryAbort); is {
					run.aborted = a.why
					return
				}
				panic(r)
			}
		}()
		w.runSummary(run, st)
		return true
	}() || run.aborted != "" {
		sm.bad = run.aborted
		sumSymOff.Store(code, true)
		if os.Getenv("GOSYM_SUM") != "" {
			fmt.Fprintf(os.Stderr, "no summary for %s: %s\n", code.name, run.aborted)
		}
	}
	run.stack = nil
	sm.run = run
	sm.done = true
}

// constSummary memoises expensive pure calls with concrete arguments.
func (w *Worker) constSummary(s *State, f *Frame, ins *Inst, code *Code, key string) (bool, ctl) {
	if _, ok := lightCode.Load(code); ok {
		return false, cNext
	}
	if c, ok := constSums.Load(key); ok {
		cs := c.(*constSum)
		if cs.bad || !w.readsClean(s, cs.reads) {
			return false, cNext
		}
		f.regs[ins.dst] = Val{N: cs.n}
		return true, cNext
	}
	run := &summaryRun{reads: map[int32]bool{}}
	st := w.newSummaryState(run)
	var args []Val
	for _, a := range ins.args {
		args = append(args, f.val(a))
	}
	st.pushFrame(code, args, nil, -1)
	w.runSummary(run, st)
	cs := &constSum{reads: run.reads}
	if run.aborted != "" || st.result.X != nil {
		cs.bad = true
		constSums.Store(key, cs)
		lightCode.Store(code, true)
		return false, cNext
	}
	cs.n = st.result.N
	if run.steps > 20000 {
		idx, cnt := -1, 0
		for i, p := range code.fn.Params {
			if TI(p.Type()).kind == KInt {
				idx = i
				cnt++
			}
		}
		if cnt == 1 {
			heavyCode.Store(code, idx)
		}
	}
	if run.steps < 200 {
		// not worth caching unless it turns out expensive for other arguments
		n, _ := lightCount.LoadOrStore(code, new(int64))
		if atomic.AddInt64(n.(*int64), 1) > 300 {
			lightCode.Store(code, true)
		}
	} else {
		n, _ := lightCount.LoadOrStore(code, new(int64))
		atomic.AddInt64(n.(*int64), -1000)
	}
	constSums.Store(key, cs)
	if !w.readsClean(s, cs.reads) {
		return false, cNext
	}
	f.regs[ins.dst] = Val{N: cs.n}
	return true, cNext
}

var lightCount, heavyCode sync.Map

// ---- memoised zero-argument constructors ----

type memoEntry struct {
	mu   sync.Mutex
	done bool
	bad  bool
	val  Val
	read map[int32]bool
}

var memos sync.Map
var memoOff sync.Map // name -> true, set when a memoised object was written to

func (w *Worker) tryMemo(s *State, f *Frame, ins *Inst, code *Code) bool {
	if s.summary != nil && s.summary.shared {
		return false
	}
	if len(code.results) != 1 || code.fn.Blocks == nil || code.results[0].kind != KPtr {
		return false
	}
	if _, off := memoOff.Load(code.name); off {
		return false
	}
	e, _ := memos.LoadOrStore(code, &memoEntry{})
	m := e.(*memoEntry)
	w.finishMemo(m, code)
	if m.bad || !w.readsClean(s, m.read) {
		return false
	}
	f.regs[ins.dst] = m.val
	return true
}

func (w *Worker) finishMemo(m *memoEntry, code *Code) {
	m.mu.Lock()
	defer m.mu.Unlock()
	if !m.done {
		run := &summaryRun{reads: map[int32]bool{}, shared: true, memoName: code.name}
		st := w.newSummaryState(run)
		st.pushFrame(code, nil, nil, -1)
		w.runSummary(run, st)
		m.done = true
		m.read = run.reads
		if run.aborted != "" || run.steps < 20000 || st.panicked != nil {
			m.bad = true
			for _, id := range run.newObjs {
				shared[-id] = nil
			}
		} else {
			m.val = st.result
			for _, id := range run.newObjs {
				shared[-id].memo = code.name
				delete(m.read, id)
				shared[-id].owner = newOwner()
			}
		}
	}
}

// ---- region if-conversion ----

type liveInfo struct {
	in   [][]uint64 // per block
	regT []*TInfo
	pure []bool // block may be part of a merged region
}

var liveMu sync.Mutex
var liveCache = map[*Code]*liveInfo{}

func bitHas(b []uint64, i int) bool { return b[i>>6]>>(uint(i)&63)&1 != 0 }
func bitSet(b []uint64, i int)      { b[i>>6] |= 1 << (uint(i) & 63) }
func bitClr(b []uint64, i int)      { b[i>>6] &^= 1 << (uint(i) & 63) }

func liveness(code *Code) *liveInfo {
	liveMu.Lock()
	defer liveMu.Unlock()
	if l := liveCache[code]; l != nil {
		return l
	}
	n := len(code.blocks)
	words := (code.nregs + 63) / 64
	l := &liveInfo{in: make([][]uint64, n), regT: make([]*TInfo, code.nregs), pure: make([]bool, n)}
	for i := range l.in {
		l.in[i] = make([]uint64, words)
	}
	use := func(b []uint64, o operand) {
		if o >= 0 {
			bitSet(b, int(o))
		}
	}
	edgeOut := func(b []uint64, e *edge) {
		tmp := append([]uint64(nil), l.in[e.blk]...)
		for _, m := range e.moves {
			bitClr(tmp, int(m.dst))
		}
		for _, m := range e.moves {
			if bitHas(l.in[e.blk], int(m.dst)) {
				use(tmp, m.src)
			}
		}
		for i := range b {
			b[i] |= tmp[i]
		}
	}
	for changed := true; changed; {
		changed = false
		for bi := n - 1; bi >= 0; bi-- {
			cur := make([]uint64, words)
			b := &code.blocks[bi]
			for k := len(b.ins) - 1; k >= 0; k-- {
				ins := &b.ins[k]
				switch ins.op {
				case iJump:
					edgeOut(cur, &ins.e0)
					continue
				case iIf:
					edgeOut(cur, &ins.e0)
					edgeOut(cur, &ins.e1)
					use(cur, ins.a)
					continue
				}
				if ins.dst >= 0 {
					bitClr(cur, int(ins.dst))
				}
				for _, o := range operandsOf(ins) {
					use(cur, o)
				}
			}
			for i := range cur {
				if cur[i]&^l.in[bi][i] != 0 {
					changed = true
				}
				l.in[bi][i] |= cur[i]
			}
		}
	}
	for bi := range code.blocks {
		ok := true
		for k := range code.blocks[bi].ins {
			if !regionIns(&code.blocks[bi].ins[k]) {
				ok = false
			}
		}
		l.pure[bi] = ok && len(code.blocks[bi].ins) < 40
	}
	for _, p := range code.fn.Params {
		_ = p
	}
	k := 0
	for _, p := range code.fn.Params {
		l.regT[k] = TI(p.Type())
		k++
	}
	for _, p := range code.fn.FreeVars {
		l.regT[k] = TI(p.Type())
		k++
	}
	for _, b := range code.fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				l.regT[k] = TI(v.Type())
				k++
			}
		}
	}
	// functions with a recover block or defers keep every register alive
	liveCache[code] = l
	return l
}

func operandsOf(ins *Inst) []operand {
	var r []operand
	switch ins.op {
	case iAlloc, iMakeMap, iRunDefers:
		return nil
	}
	add := func(o operand) {
		if o != noOperand {
			r = append(r, o)
		}
	}
	switch ins.op {
	case iCallStatic, iCallBuiltin, iMakeClosure, iReturn:
	case iDefer:
		if iop(ins.tok) != iCallStatic && iop(ins.tok) != iCallBuiltin {
			add(ins.a)
		}
	case iBin, iEqNe, iIndexAddrSlice, iIndexAddrArr, iIndexArr, iIndexStr, iLookupMap, iStore, iMakeSlice:
		add(ins.a)
		add(ins.b)
	case iMapUpdate:
		add(ins.a)
		add(ins.b)
		add(ins.c)
	default:
		add(ins.a)
	}
	for _, o := range ins.args {
		add(o)
	}
	return r
}

func regionIns(ins *Inst) bool {
	switch ins.op {
	case iBin:
		return ins.t.kind == KInt || ins.t.kind == KBool
	case iEqNe:
		return ins.t.kind == KInt || ins.t.kind == KBool
	case iNotB, iCopy, iExtract, iField, iFieldAddr, iLoad, iIndexAddrSlice, iIndexAddrArr, iJump, iIf:
		return true
	case iConvert:
		return ins.t.kind == KInt && ins.t2.kind == KInt
	case iCallStatic:
		code := ins.code
		if code == nil {
			code = codeFor(ins.fn)
			ins.code = code
		}
		return code.isPureCode()
	case iCallBuiltin:
		return ins.name == "len" && (ins.t.kind == KSlice || ins.t.kind == KString)
	}
	return false
}

type mpath struct {
	blk   int32
	guard BSet
	f     *Frame
	n     int
	exit  bool
}

// mergeRegion executes the pure code after an undecided branch on a single
// small variable for all values of that variable at once, and merges the paths
// that reach the same block.
func (w *Worker) mergeRegion(s *State, f *Frame, ins *Inst, cond *Expr) bool {
	if !cond.small() || s.inCons(cond.v) || s.summary != nil && s.summary.shared {
		return false
	}
	v := cond.v
	code := f.code
	l := liveness(code)
	if !l.pure[ins.e0.blk] && !l.pure[ins.e1.blk] && ins.e0.blk != ins.e1.blk {
		return false
	}
	d := s.domSet(v, varWidth(v))
	set := condSet(cond)
	mk := func(fr *Frame, e *edge, g BSet) *mpath {
		c := fr.clone(s.owner)
		c.take(e)
		return &mpath{blk: c.blk, guard: g, f: c}
	}
	start := f.blk
	work := []*mpath{mk(f, &ins.e0, d.and(set)), mk(f, &ins.e1, d.andNot(set))}
	var exits []*mpath
	for len(work) > 0 {
		p := work[len(work)-1]
		work = work[:len(work)-1]
		if p.n > 12 || p.blk == start || !l.pure[p.blk] || len(exits)+len(work) > 24 {
			exits = append(exits, p)
			continue
		}
		c := p.f.clone(s.owner)
		c.pc = 0
		kids, ok := w.regionBlock(s, c, p, v)
		if !ok {
			exits = append(exits, p)
			continue
		}
		work = append(work, kids...)
	}
	// group by exit block, merging registers
	type group struct {
		*mpath
	}
	var groups []*mpath
	for _, p := range exits {
		merged := false
		for _, g := range groups {
			if g.blk != p.blk {
				continue
			}
			if w.mergeInto(l, g, p, varExpr(v)) {
				merged = true
				break
			}
		}
		if !merged {
			groups = append(groups, p)
		}
	}
	if len(groups) >= len(exits) && len(exits) == 2 {
		// nothing gained over a plain fork
		same := true
		for _, p := range exits {
			if p.n > 0 {
				same = false
			}
		}
		if same {
			return false
		}
	}
	atomic.AddInt64(&w.ex.merges, int64(len(exits)-len(groups)))
	for i, g := range groups {
		t := s
		if i < len(groups)-1 {
			t = w.fork(s)
		}
		if len(groups) > 1 {
			w.lastCond = nil
			w.assume(t, mkSetExpr(varExpr(v), g.guard))
		}
		nf := g.f
		nf.owner = t.owner
		nf.blk, nf.pc = g.blk, 0
		t.frames[len(t.frames)-1] = nf
		if i < len(groups)-1 {
			w.push(t)
		}
	}
	return true
}

func (w *Worker) mergeInto(l *liveInfo, g, p *mpath, ve *Expr) bool {
	live := l.in[g.blk]
	type ch struct {
		r int
		v Val
	}
	var chs []ch
	for r := range g.f.regs {
		if !bitHas(live, r) {
			continue
		}
		a, b := g.f.regs[r], p.f.regs[r]
		if valSame(a, b) {
			continue
		}
		t := l.regT[r]
		if t == nil || !(t.kind == KInt || t.kind == KBool) {
			return false
		}
		wd := t.w
		if t.kind == KBool {
			wd = 0
		}
		chs = append(chs, ch{r, valOf(mkIte(mkSetExpr(ve, p.guard), exprOf(b, wd), exprOf(a, wd)))})
	}
	for _, c := range chs {
		g.f.regs[c.r] = c.v
	}
	for i := range g.guard {
		g.guard[i] |= p.guard[i]
	}
	return true
}

func valSame(a, b Val) bool {
	if a.N != b.N || a.Id != b.Id || a.Ln != b.Ln || a.Cp != b.Cp {
		return false
	}
	if a.X == nil || b.X == nil {
		return a.X == nil && b.X == nil
	}
	switch x := a.X.(type) {
	case *Expr:
		y, ok := b.X.(*Expr)
		return ok && x == y
	case *StrObj:
		y, ok := b.X.(*StrObj)
		return ok && x == y
	case *Iface:
		y, ok := b.X.(*Iface)
		return ok && x == y
	case *Closure:
		y, ok := b.X.(*Closure)
		return ok && x == y
	case []Val:
		y, ok := b.X.([]Val)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !valSame(x[i], y[i]) {
				return false
			}
		}
		return true
	}
	return false
}

// regionBlock runs one pure block; ok=false leaves the block as a region exit.
func (w *Worker) regionBlock(s *State, c *Frame, p *mpath, v int32) ([]*mpath, bool) {
	b := &c.code.blocks[p.blk]
	for k := range b.ins {
		ins := &b.ins[k]
		s.steps++
		switch ins.op {
		case iBin:
			y := c.val(ins.b)
			switch ins.tok.String() {
			case "/", "%":
				if y.X != nil || y.N == 0 {
					return nil, false
				}
			case "<<", ">>":
				if ins.t2.signed && (y.X != nil || sext(y.N, ins.w2) < 0) {
					return nil, false
				}
			}
			if w.binop(s, c, ins) != cNext {
				return nil, false
			}
		case iEqNe:
			if w.eqne(s, c, ins) != cNext {
				return nil, false
			}
		case iNotB:
			c.regs[ins.dst] = valOf(mkNot(exprOf(c.val(ins.a), 0)))
		case iCopy:
			c.regs[ins.dst] = c.val(ins.a)
		case iExtract:
			c.regs[ins.dst] = c.val(ins.a).X.([]Val)[ins.k]
		case iConvert:
			if w.convert(s, c, ins) != cNext {
				return nil, false
			}
		case iField:
			xs := c.val(ins.a)
			if xs.X == nil {
				c.regs[ins.dst] = Val{}
			} else {
				c.regs[ins.dst] = sub(xs.X.([]Val), ins.k, ins.t)
			}
		case iFieldAddr:
			x := c.val(ins.a)
			if x.Id == 0 {
				return nil, false
			}
			c.regs[ins.dst] = Val{Id: x.Id, N: x.N + uint64(ins.k)}
		case iLoad:
			x := c.val(ins.a)
			if x.Id == 0 {
				return nil, false
			}
			c.regs[ins.dst] = s.load(x, ins.t)
		case iIndexAddrSlice, iIndexAddrArr:
			x, iv := c.val(ins.a), c.val(ins.b)
			n := ins.n
			if ins.op == iIndexAddrSlice {
				n = int64(x.Ln)
			}
			if iv.X != nil || x.Id == 0 {
				return nil, false
			}
			i := int64(iv.N)
			if ins.signed {
				i = sext(iv.N, ins.w)
			}
			if i < 0 || i >= n {
				return nil, false
			}
			c.regs[ins.dst] = Val{Id: x.Id, N: x.N + uint64(i)*uint64(ins.t.slots)}
		case iCallBuiltin:
			x := c.val(ins.args[0])
			if isStr := ins.t.kind == KString; isStr && isOpaque(x) {
				return nil, false
			}
			c.regs[ins.dst] = intVal(int64(x.Ln))
		case iCallStatic:
			done, _ := w.trySummary(s, c, ins, ins.code)
			if !done {
				return nil, false
			}
		case iJump:
			c.take(&ins.e0)
			return []*mpath{{blk: c.blk, guard: p.guard, f: c, n: p.n + 1}}, true
		case iIf:
			x := c.val(ins.a)
			if x.X == nil {
				if x.N != 0 {
					c.take(&ins.e0)
				} else {
					c.take(&ins.e1)
				}
				return []*mpath{{blk: c.blk, guard: p.guard, f: c, n: p.n + 1}}, true
			}
			e := x.X.(*Expr)
			if e.v != v {
				return nil, false
			}
			set := condSet(e)
			gt, gf := p.guard.and(set), p.guard.andNot(set)
			switch {
			case gf.empty():
				c.take(&ins.e0)
				return []*mpath{{blk: c.blk, guard: gt, f: c, n: p.n + 1}}, true
			case gt.empty():
				c.take(&ins.e1)
				return []*mpath{{blk: c.blk, guard: gf, f: c, n: p.n + 1}}, true
			}
			c2 := c.clone(s.owner)
			c.take(&ins.e0)
			c2.take(&ins.e1)
			return []*mpath{{blk: c.blk, guard: gt, f: c, n: p.n + 1}, {blk: c2.blk, guard: gf, f: c2, n: p.n + 1}}, true
		default:
			return nil, false
		}
	}
	return nil, false
}
