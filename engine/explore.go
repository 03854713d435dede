package main

// Exploration: workers, work sharing, path ends, violations.

import (
	"fmt"
	"go/types"
	"os"
	"runtime/debug"
	"sort"
	"sync"
	"sync/atomic"
	"time"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

func decodeRune(b []byte) (rune, int) { return utf8.DecodeRune(b) }
func stackTrace() string              { return string(debug.Stack()) }

type Job struct {
	name      string
	fn        *ssa.Function
	stepLimit int64
	paths     int64
	steps     int64
	viol      int64
	asserts   int64
	maxDepth  int64
}

type Worker struct {
	ex       *Explorer
	solver   *Solver
	stack    []*State
	lastCond *Expr
	symStrs  []Val // arguments of the formatting call under way
	wT, wF   witness
	id       int
}

type InVal struct {
	Name string `json:"name"`
	W    uint8  `json:"w"`
	V    uint64 `json:"v"`
}

type PathModel struct {
	Job    string   `json:"job"`
	Inputs []InVal  `json:"inputs"`
	Obs    []string `json:"obs"`
	Find   []string `json:"find,omitempty"`
}

type Violation struct {
	PathModel
	Kind  string   `json:"kind"` // assert, panic, hang
	Msg   string   `json:"msg"`
	Where string   `json:"where"`
	Stack []string `json:"stack"`
}

type Explorer struct {
	prog     *ssa.Program
	deadline time.Time
	stop     int32
	nworkers int
	tier     int

	mu    sync.Mutex
	cond  *sync.Cond
	queue []*State
	idle  int32
	done  bool

	vmu         sync.Mutex
	viols       []*Violation
	violCount   map[string]int
	samples     []*PathModel
	sampleSeen  int64
	rng         uint64
	reach       map[string]int64
	findings    map[string]int64
	findSample  map[string]*PathModel
	errors      map[string]int
	infeasible  int64
	assumed     int64
	paths       int64
	forks       int64
	steps       int64
	asserts     int64
	assertsSym  int64
	unknowns    int64
	merges      int64
	timedOut    bool
	stopOnViol  bool
	maxSamples  int
	qsample     []qrec
	qseen       int64
	needRestart []string

	methMu  sync.RWMutex
	methods map[methKey]*ssa.Function
	implMu  sync.RWMutex
	impls   map[implKey]bool
}

type qrec struct {
	fs  []*Expr
	res int
}

type methKey struct {
	t *TInfo
	m *types.Func
}
type implKey struct{ a, b *TInfo }

func newExplorer(prog *ssa.Program, nworkers int) *Explorer {
	ex := &Explorer{prog: prog, nworkers: nworkers, violCount: map[string]int{}, reach: map[string]int64{},
		findings: map[string]int64{}, findSample: map[string]*PathModel{}, errors: map[string]int{},
		methods: map[methKey]*ssa.Function{}, impls: map[implKey]bool{}, rng: 0x9E3779B97F4A7C15, maxSamples: 150}
	ex.cond = sync.NewCond(&ex.mu)
	return ex
}

func (ex *Explorer) stopped() bool { return atomic.LoadInt32(&ex.stop) != 0 }

func (ex *Explorer) lookupMethod(t *TInfo, m *types.Func) *ssa.Function {
	k := methKey{t, m}
	ex.methMu.RLock()
	f := ex.methods[k]
	ex.methMu.RUnlock()
	if f != nil {
		return f
	}
	ex.methMu.Lock()
	defer ex.methMu.Unlock()
	f = ex.prog.LookupMethod(t.t, m.Pkg(), m.Name())
	if f == nil {
		engineErr("no method %s on %s", m.Name(), t.t)
	}
	ex.methods[k] = f
	return f
}

func (ex *Explorer) implements(t, iface *TInfo) bool {
	k := implKey{t, iface}
	ex.implMu.RLock()
	r, ok := ex.impls[k]
	ex.implMu.RUnlock()
	if ok {
		return r
	}
	ex.implMu.Lock()
	defer ex.implMu.Unlock()
	r = types.Implements(t.t, iface.t.Underlying().(*types.Interface))
	ex.impls[k] = r
	return r
}

func (ex *Explorer) noteQuery(fs []*Expr, res int) {
	n := atomic.AddInt64(&ex.qseen, 1)
	if n <= 200 || n%97 == 0 {
		ex.vmu.Lock()
		if len(ex.qsample) < 1500 {
			ex.qsample = append(ex.qsample, qrec{fs, res})
		}
		ex.vmu.Unlock()
	}
}

func (ex *Explorer) unknown(s *State) { atomic.AddInt64(&ex.unknowns, 1) }

func (w *Worker) fork(s *State) *State {
	if s.syncBase > 0 {
		engineErr("fork inside intrinsic call at %s", s.where())
	}
	atomic.AddInt64(&w.ex.forks, 1)
	return s.clone()
}

func (w *Worker) push(s *State) {
	if s.summary != nil {
		s.summary.stack = append(s.summary.stack, s)
		return
	}
	if atomic.LoadInt32(&w.ex.idle) > 0 {
		w.ex.mu.Lock()
		w.ex.queue = append(w.ex.queue, s)
		w.ex.cond.Signal()
		w.ex.mu.Unlock()
		return
	}
	w.stack = append(w.stack, s)
}

func (w *Worker) pushPanic(s *State, msg string) {
	if s.summary != nil {
		s.summary.abort("panic")
	}
	s.pending = msg
	w.push(s)
}

func (w *Worker) next1() *State {
	if n := len(w.stack); n > 0 {
		// share the oldest state when someone is idle
		if n > 1 && atomic.LoadInt32(&w.ex.idle) > 0 {
			w.ex.mu.Lock()
			w.ex.queue = append(w.ex.queue, w.stack[0])
			w.ex.cond.Signal()
			w.ex.mu.Unlock()
			w.stack = w.stack[1:]
			n--
		}
		s := w.stack[n-1]
		w.stack = w.stack[:n-1]
		return s
	}
	ex := w.ex
	ex.mu.Lock()
	defer ex.mu.Unlock()
	for {
		if ex.done || ex.stopped() {
			return nil
		}
		if n := len(ex.queue); n > 0 {
			s := ex.queue[n-1]
			ex.queue = ex.queue[:n-1]
			return s
		}
		if atomic.AddInt32(&ex.idle, 1) == int32(ex.nworkers) {
			ex.done = true
			ex.cond.Broadcast()
			return nil
		}
		ex.cond.Wait()
		atomic.AddInt32(&ex.idle, -1)
	}
}

func (ex *Explorer) explore(init []*State) {
	ex.queue = init
	ex.done = false
	ex.idle = 0
	var wg sync.WaitGroup
	stopTimer := make(chan struct{})
	go func() {
		t := time.NewTicker(100 * time.Millisecond)
		defer t.Stop()
		for {
			select {
			case <-stopTimer:
				return
			case <-t.C:
				if time.Now().After(ex.deadline) {
					ex.timedOut = true
					atomic.StoreInt32(&ex.stop, 1)
					ex.mu.Lock()
					ex.cond.Broadcast()
					ex.mu.Unlock()
				}
			}
		}
	}()
	for i := 0; i < ex.nworkers; i++ {
		wg.Add(1)
		w := &Worker{ex: ex, id: i, solver: newSolver("z3", "-in")}
		go func() {
			defer wg.Done()
			defer w.solver.close()
			for {
				s := w.next1()
				if s == nil {
					return
				}
				s0 := s.steps
				w.lastCond = nil
				w.runPath(s)
				atomic.AddInt64(&ex.steps, s.steps-s0)
				if ex.stopped() {
					ex.mu.Lock()
					ex.cond.Broadcast()
					ex.mu.Unlock()
					return
				}
			}
		}()
	}
	wg.Wait()
	close(stopTimer)
}

func (w *Worker) runPath(s *State) {
	if s.pending != "" {
		msg := s.pending
		s.pending = ""
		c := w.runtimePanic(s, msg)
		if c == cEnd {
			return
		}
	}
	w.run(s)
}

func (ex *Explorer) restart(name string) {
	ex.vmu.Lock()
	ex.needRestart = append(ex.needRestart, name)
	ex.vmu.Unlock()
	ex.setStop()
}

func (ex *Explorer) setStop() {
	atomic.StoreInt32(&ex.stop, 1)
	ex.mu.Lock()
	ex.cond.Broadcast()
	ex.mu.Unlock()
}

// ---- path ends ----

func (s *State) pathModel() PathModel {
	pm := PathModel{Job: s.job.name}
	for i := s.inputs; i != nil; i = i.prev {
		v := i.k
		if i.e != nil {
			v = s.inputValue(i.e)
		}
		pm.Inputs = append(pm.Inputs, InVal{i.name, i.w, v})
	}
	for i, j := 0, len(pm.Inputs)-1; i < j; i, j = i+1, j-1 {
		pm.Inputs[i], pm.Inputs[j] = pm.Inputs[j], pm.Inputs[i]
	}
	for o := s.obs; o != nil; o = o.prev {
		pm.Obs = append(pm.Obs, o.render(s))
	}
	for i, j := 0, len(pm.Obs)-1; i < j; i, j = i+1, j-1 {
		pm.Obs[i], pm.Obs[j] = pm.Obs[j], pm.Obs[i]
	}
	pm.Find = s.finds
	return pm
}

func (o *Obs) render(s *State) string {
	if o.str {
		r := o.label + "="
		for _, v := range o.vals {
			x := v.N
			if e, ok := v.X.(*Expr); ok {
				x = s.inputValue(e)
			}
			r += fmt.Sprintf("%02x", x&0xff)
		}
		return r
	}
	x := o.vals[0].N
	if e, ok := o.vals[0].X.(*Expr); ok {
		x = s.inputValue(e)
	}
	return fmt.Sprintf("%s=%d", o.label, int64(x))
}

func (w *Worker) endPath(s *State) {
	ex := w.ex
	n := atomic.AddInt64(&ex.paths, 1)
	atomic.AddInt64(&s.job.paths, 1)
	ex.vmu.Lock()
	defer ex.vmu.Unlock()
	for r := s.reach; r != nil; r = r.prev {
		ex.reach[r.label]++
	}
	// reservoir sample of path models for translation validation
	if s.inexact {
		return
	}
	if len(ex.samples) < ex.maxSamples {
		pm := s.pathModel()
		ex.samples = append(ex.samples, &pm)
		return
	}
	ex.rng ^= ex.rng << 13
	ex.rng ^= ex.rng >> 7
	ex.rng ^= ex.rng << 17
	if k := ex.rng % uint64(n); k < uint64(len(ex.samples)) {
		pm := s.pathModel()
		ex.samples[k] = &pm
	}
}

func (w *Worker) finished(s *State) {
	if s.summary != nil {
		s.summary.record(s)
		return
	}
	w.endPath(s)
}

func (w *Worker) violation(s *State, kind, msg, where string) {
	if s.summary != nil {
		s.summary.abort("violation in summary")
	}
	ex := w.ex
	atomic.AddInt64(&ex.paths, 1)
	atomic.AddInt64(&s.job.paths, 1)
	ex.vmu.Lock()
	defer ex.vmu.Unlock()
	key := kind + "|" + msg + "|" + where + "|" + s.job.name
	if kind == "panic" {
		key = kind + "|" + where + "|" + s.job.name
	}
	ex.violCount[key]++
	if ex.violCount[key] > 3 {
		return
	}
	v := &Violation{PathModel: s.pathModel(), Kind: kind, Msg: msg, Where: where, Stack: s.stack()}
	if s.inexact {
		v.Msg += " (solver gave no answer on this path)"
	}
	ex.viols = append(ex.viols, v)
	if ex.stopOnViol || len(ex.violCount) > 400 {
		ex.setStop()
	}
}

func (w *Worker) uncaught(s *State) {
	w.violation(s, "panic", s.panicked.msg, s.panicked.where)
}

func (w *Worker) hang(s *State) {
	if s.summary != nil {
		s.summary.abort("step limit")
	}
	w.violation(s, "hang", fmt.Sprintf("no end after %d steps", s.steps), s.where())
}

func (w *Worker) endError(s *State, msg string) {
	if s.summary != nil {
		s.summary.aborted = "engine: " + msg
		return
	}
	ex := w.ex
	ex.vmu.Lock()
	defer ex.vmu.Unlock()
	ex.errors[s.job.name+": "+msg]++
	if os.Getenv("GOSYM_DEBUG") != "" {
		fmt.Fprintln(os.Stderr, "engine error:", msg, s.stack())
	}
}

func (ex *Explorer) sortedErrors() []string {
	var r []string
	for k, n := range ex.errors {
		r = append(r, fmt.Sprintf("%s (x%d)", k, n))
	}
	sort.Strings(r)
	return r
}

func (w *Worker) finding(s *State, id string) {
	ex := w.ex
	ex.vmu.Lock()
	defer ex.vmu.Unlock()
	ex.findings[id]++
	s.finds = append(s.finds[:len(s.finds):len(s.finds)], id)
	if ex.findSample[id] == nil {
		pm := s.pathModel()
		ex.findSample[id] = &pm
	}
}
