package main

// Values, objects and states.

import (
	"fmt"
	"math"
	"sync"
	"sync/atomic"

	"golang.org/x/tools/go/ssa"
)

// Val is a Go value. The static type decides how it is read:
//
//	scalar:    N (masked to width), or X=*Expr when symbolic
//	pointer:   Id (0 = nil), N = slot offset
//	slice:     Id, N = slot offset, Ln, Cp (elements)
//	string:    X=*StrObj, N = offset, Ln
//	interface: X=*Iface (nil interface: X=nil)
//	func:      X=*Closure
//	aggregate: X=[]Val, one per slot (nil: all zero)
//	tuple:     X=[]Val, one per component
//	map:       Id
type Val struct {
	N  uint64
	Id int32
	Ln int32
	Cp int32
	X  any
}

type StrObj struct {
	b      []byte
	sym    []*Expr
	opaque bool
}

type Iface struct {
	t *TInfo
	v Val
}

type Closure struct {
	fn    *ssa.Function
	binds []Val
	name  string // builtin or intrinsic bound
}

type Object struct {
	owner  uint32
	init   bool   // allocated while package initialisers ran (globals and what they reach)
	forbid bool   // global of a package whose initialiser is not executed
	memo   string // result of a memoised constructor
	scalar bool
	n      int
	vals   []Val
	raw    []uint64
	sym    []*Expr
	mp     *MapObj
	site   string
}

type mapEntry struct {
	k, v Val
	dead bool
}
type MapObj struct {
	idx     map[string]int
	entries []mapEntry
	n       int
}

func (o *Object) clone(owner uint32) *Object {
	c := &Object{owner: owner, init: o.init, scalar: o.scalar, n: o.n, site: o.site}
	if o.vals != nil {
		c.vals = append(make([]Val, 0, len(o.vals)+4), o.vals...)
	}
	if o.raw != nil {
		c.raw = append(make([]uint64, 0, len(o.raw)+8), o.raw...)
	}
	if o.sym != nil {
		c.sym = append(make([]*Expr, 0, len(o.sym)+8), o.sym...)
	}
	if o.mp != nil {
		m := &MapObj{idx: make(map[string]int, len(o.mp.idx)), n: o.mp.n, entries: append([]mapEntry(nil), o.mp.entries...)}
		for k, v := range o.mp.idx {
			m.idx[k] = v
		}
		c.mp = m
	}
	return c
}

func (o *Object) get(i int) Val {
	if o.scalar {
		if i < len(o.sym) {
			if e := o.sym[i]; e != nil {
				return Val{X: e}
			}
		}
		if i < len(o.raw) {
			return Val{N: o.raw[i]}
		}
		return Val{}
	}
	if i < len(o.vals) {
		return o.vals[i]
	}
	return Val{}
}

func (o *Object) set(i int, v Val) {
	if o.scalar {
		if e, ok := v.X.(*Expr); ok {
			for len(o.sym) <= i {
				o.sym = append(o.sym, nil)
			}
			o.sym[i] = e
			return
		}
		if i < len(o.sym) {
			o.sym[i] = nil
		}
		if i >= len(o.raw) {
			if v.N == 0 {
				return
			}
			for len(o.raw) <= i {
				o.raw = append(o.raw, 0)
			}
		}
		o.raw[i] = v.N
		return
	}
	if i >= len(o.vals) {
		if v.X == nil && v.N == 0 && v.Id == 0 && v.Ln == 0 && v.Cp == 0 {
			return
		}
		for len(o.vals) <= i {
			o.vals = append(o.vals, Val{})
		}
	}
	o.vals[i] = v
}

// Shared objects (package state, memoised constructors) have negative ids.
const maxShared = 1 << 20

var shared [maxShared]*Object
var sharedCount int32

type Dom struct {
	b  BSet // width <= 8
	iv []IV // wider
	w  uint8
}

func (d *Dom) count() float64 {
	if d.w <= 8 {
		return float64(d.b.count())
	}
	return ivCount(d.iv)
}

type Input struct {
	prev *Input
	name string
	e    *Expr // nil: concrete
	k    uint64
	w    uint8
}

type Obs struct {
	prev  *Obs
	label string
	vals  []Val // scalars; X=*Expr or string Val
	str   bool
}

type Reach struct {
	prev  *Reach
	label string
}

type PanicInfo struct {
	msg       string
	val       Val
	recovered bool
	where     string
	goexit    bool
}

type State struct {
	owner    uint32
	frames   []*Frame
	objs     []*Object
	overlay  map[int32]*Object
	doms     []*Dom
	cons     []*Expr
	consVars []int32
	inputs   *Input
	ninputs  int
	counters map[string]int
	obs      *Obs
	reach    *Reach
	steps    int64
	forks    int32
	panicked *PanicInfo
	gwrites  int
	gwsite   string
	stdout   int
	stdoutAt string
	job      *Job
	summary  *summaryRun // summary / memo mode
	inexact  bool
	fixedMod map[int32]uint64 // a model of cons (complete on consVars)
	pending  string
	finds    []string
	precise  bool
	syncBase int // >0: callSync active (forking not allowed)
	result   Val
	wver     uint64
}

type deferred struct {
	fn   Val
	bi   string
	args []Val
}

type Frame struct {
	owner      uint32
	code       *Code
	regs       []Val
	blk, pc    int32
	retDst     int32
	isDefer    bool
	unwinding  bool
	recovering bool
	discard    bool
	syncRet    bool
	defers     []deferred
}

var ownerCtr uint32

func newOwner() uint32 { return atomic.AddUint32(&ownerCtr, 1) }

func (s *State) clone() *State {
	c := new(State)
	*c = *s
	c.owner = newOwner()
	s.owner = newOwner()
	c.frames = append(make([]*Frame, 0, len(s.frames)+4), s.frames...)
	c.objs = append(make([]*Object, 0, len(s.objs)+16), s.objs...)
	if s.overlay != nil {
		c.overlay = make(map[int32]*Object, len(s.overlay))
		for k, v := range s.overlay {
			c.overlay[k] = v
		}
	}
	c.doms = append([]*Dom(nil), s.doms...)
	c.cons = s.cons[:len(s.cons):len(s.cons)]
	s.cons = c.cons
	c.consVars = s.consVars[:len(s.consVars):len(s.consVars)]
	s.consVars = c.consVars
	if s.counters != nil {
		c.counters = make(map[string]int, len(s.counters))
		for k, v := range s.counters {
			c.counters[k] = v
		}
	}
	s.forks++
	c.forks = s.forks
	return c
}

func (f *Frame) clone(owner uint32) *Frame {
	c := new(Frame)
	*c = *f
	c.owner = owner
	c.regs = append(make([]Val, 0, len(f.regs)), f.regs...)
	c.defers = append([]deferred(nil), f.defers...)
	return c
}

func (s *State) top() *Frame {
	n := len(s.frames) - 1
	f := s.frames[n]
	if f.owner != s.owner {
		f = f.clone(s.owner)
		s.frames[n] = f
	}
	return f
}

func (s *State) obj(id int32) *Object {
	if id > 0 {
		return s.objs[id-1]
	}
	if s.overlay != nil {
		if o := s.overlay[id]; o != nil {
			return o
		}
	}
	return shared[-id]
}

// wobj returns a writable version of an object.
func (s *State) wobj(id int32) *Object {
	s.wver++
	if id > 0 {
		o := s.objs[id-1]
		if o.owner != s.owner {
			o = o.clone(s.owner)
			s.objs[id-1] = o
		}
		return o
	}
	o := s.obj(id)
	if o.forbid {
		engineErr("write to %s, whose package is not initialised here", o.site)
	}
	if o.owner == s.owner {
		return o
	}
	if o.memo != "" {
		memoOff.Store(o.memo, true)
		panic(memoRestart{o.memo})
	}
	if s.summary != nil {
		s.summary.abort("write to shared object")
	}
	if o.init {
		s.gwrites++
		if s.gwsite == "" {
			s.gwsite = s.where()
		}
	}
	o = o.clone(s.owner)
	if s.overlay == nil {
		s.overlay = map[int32]*Object{}
	}
	s.overlay[id] = o
	return o
}

func (s *State) alloc(n int, scalar bool) int32 {
	o := &Object{owner: s.owner, scalar: scalar, n: n}
	return s.addObj(o)
}

func (s *State) addObj(o *Object) int32 {
	s.wver++
	if s.summary != nil && s.summary.shared {
		id := atomic.AddInt32(&sharedCount, 1)
		if id >= maxShared {
			engineErr("too many shared objects")
		}
		o.init = s.summary.initPhase
		shared[id] = o
		s.summary.newObjs = append(s.summary.newObjs, -id)
		return -id
	}
	s.objs = append(s.objs, o)
	return int32(len(s.objs))
}

// load reads a value of type t at pointer p.
func (s *State) load(p Val, t *TInfo) Val {
	o := s.obj(p.Id)
	if s.summary != nil {
		s.summary.noteRead(p.Id)
	}
	if o.forbid {
		engineErr("read of %s, whose package is not initialised here", o.site)
	}
	if t.agg() {
		n := t.slots
		r := make([]Val, n)
		for i := 0; i < n; i++ {
			r[i] = o.get(int(p.N) + i)
		}
		return Val{X: r}
	}
	return o.get(int(p.N))
}

func (s *State) store(p Val, t *TInfo, v Val) {
	o := s.wobj(p.Id)
	if t.agg() {
		var src []Val
		if v.X != nil {
			src = v.X.([]Val)
		}
		for i := 0; i < t.slots; i++ {
			if src == nil {
				o.set(int(p.N)+i, Val{})
			} else {
				o.set(int(p.N)+i, src[i])
			}
		}
		return
	}
	o.set(int(p.N), v)
}

func aggSlots(v Val, n int) []Val {
	if v.X == nil {
		return make([]Val, n)
	}
	return v.X.([]Val)
}

func strVal(s string) Val {
	if s == "" {
		return Val{}
	}
	return Val{X: &StrObj{b: []byte(s)}, Ln: int32(len(s))}
}

func opaqueStr() Val { return Val{X: &StrObj{opaque: true}, Ln: 0} }

// goString returns a concrete string, false if symbolic or opaque.
func goString(v Val) (string, bool) {
	if v.X == nil {
		return "", true
	}
	o := v.X.(*StrObj)
	if o.opaque {
		return "", false
	}
	if o.sym != nil {
		for i := int(v.N); i < int(v.N)+int(v.Ln); i++ {
			if o.sym[i] != nil {
				return "", false
			}
		}
	}
	return string(o.b[v.N : int(v.N)+int(v.Ln)]), true
}

func isOpaque(v Val) bool {
	if v.X == nil {
		return false
	}
	return v.X.(*StrObj).opaque
}

func strByte(v Val, i int) Val {
	o := v.X.(*StrObj)
	j := int(v.N) + i
	if o.sym != nil && o.sym[j] != nil {
		return Val{X: o.sym[j]}
	}
	return Val{N: uint64(o.b[j])}
}

func mkStr(bs []Val) Val {
	if len(bs) == 0 {
		return Val{}
	}
	o := &StrObj{b: make([]byte, len(bs))}
	for i, b := range bs {
		if e, ok := b.X.(*Expr); ok {
			if o.sym == nil {
				o.sym = make([]*Expr, len(bs))
			}
			o.sym[i] = e
		} else {
			o.b[i] = byte(b.N)
		}
	}
	return Val{X: o, Ln: int32(len(bs))}
}

func exprOf(v Val, w uint8) *Expr {
	if v.X != nil {
		return v.X.(*Expr)
	}
	return mkConst(v.N, w)
}

func valOf(e *Expr) Val {
	if e.op == OpConst {
		return Val{N: e.k}
	}
	return Val{X: e}
}

func f64(v Val) float64  { return math.Float64frombits(v.N) }
func fval(f float64) Val { return Val{N: math.Float64bits(f)} }
func boolVal(b bool) Val { return Val{N: b2u(b)} }
func intVal(i int64) Val { return Val{N: uint64(i)} }
func ptrVal(id int32, off int) Val {
	return Val{Id: id, N: uint64(off)}
}

type memoRestart struct{ name string }

type EngineError struct{ msg string }

func engineErr(f string, a ...any) {
	panic(EngineError{fmt.Sprintf(f, a...)})
}

var _ sync.Mutex

func nextShared() int32 {
	id := atomic.AddInt32(&sharedCount, 1)
	if id >= maxShared {
		engineErr("too many shared objects")
	}
	return id
}
