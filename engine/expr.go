package main

// Symbolic expressions: interned bit-vector terms (width 1..64, width 0 means Bool).

import (
	"fmt"
	"math/bits"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
)

type Op uint8

const (
	OpConst Op = iota
	OpVar
	OpAdd
	OpSub
	OpMul
	OpUDiv
	OpSDiv
	OpURem
	OpSRem
	OpAnd
	OpOr
	OpXor
	OpNot
	OpShl
	OpLShr
	OpAShr
	OpZExt
	OpSExt
	OpTrunc
	OpEq
	OpUlt
	OpUle
	OpSlt
	OpSle
	OpBAnd
	OpBOr
	OpBNot
	OpIte
	OpInSet
)

var opNames = [...]string{"const", "var", "bvadd", "bvsub", "bvmul", "bvudiv", "bvsdiv", "bvurem", "bvsrem", "bvand", "bvor", "bvxor", "bvnot", "bvshl", "bvlshr", "bvashr", "zext", "sext", "trunc", "=", "bvult", "bvule", "bvslt", "bvsle", "and", "or", "not", "ite", "inset"}

// IV is an inclusive unsigned interval.
type IV struct{ Lo, Hi uint64 }

type BSet [4]uint64

// Expr is an immutable interned term. Boolean terms have width 0.
type Expr struct {
	op      Op
	w       uint8
	id      uint32
	v       int32 // single variable id, -1: several, -2: none
	k       uint64
	a, b, c *Expr
	ivs     []IV // OpInSet
	vars    []int32
	bset    *BSet // bool over one small var
	tab     atomic.Pointer[[256]uint64]
	depth   int32
}

type exprKey struct {
	op      Op
	w       uint8
	k       uint64
	a, b, c *Expr
	ivs     string
}

type internShard struct {
	mu sync.Mutex
	m  map[exprKey]*Expr
}

var internTab [64]internShard
var exprCount uint32

// VarInfo describes a symbolic input variable. Variables are identified by
// (name,width) so that the same input has the same variable on every path.
type VarInfo struct {
	name string
	w    uint8
}

var varMu sync.RWMutex
var varInfos []VarInfo
var varIdx = map[VarInfo]int32{}
var varExprs []*Expr

func newVar(name string, w uint8) *Expr {
	key := VarInfo{name, w}
	varMu.RLock()
	id, ok := varIdx[key]
	if ok {
		e := varExprs[id]
		varMu.RUnlock()
		return e
	}
	varMu.RUnlock()
	varMu.Lock()
	defer varMu.Unlock()
	if id, ok := varIdx[key]; ok {
		return varExprs[id]
	}
	id = int32(len(varInfos))
	varInfos = append(varInfos, key)
	varIdx[key] = id
	e := intern(exprKey{op: OpVar, w: w, k: uint64(id)}, nil)
	varExprs = append(varExprs, e)
	return e
}

func varInfo(id int32) VarInfo {
	varMu.RLock()
	defer varMu.RUnlock()
	return varInfos[id]
}

func hashKey(k *exprKey) uint64 {
	h := uint64(k.op)*0x9E3779B97F4A7C15 + uint64(k.w)*0xC2B2AE3D27D4EB4F + k.k*0x165667B19E3779F9
	if k.a != nil {
		h = (h ^ uint64(k.a.id)) * 0xff51afd7ed558ccd
	}
	if k.b != nil {
		h = (h ^ uint64(k.b.id)) * 0xc4ceb9fe1a85ec53
	}
	if k.c != nil {
		h = (h ^ uint64(k.c.id)) * 0xff51afd7ed558ccd
	}
	h ^= uint64(len(k.ivs)) << 7
	return h ^ (h >> 29)
}

func ivKey(ivs []IV) string {
	var sb strings.Builder
	for _, i := range ivs {
		for s := 0; s < 64; s += 8 {
			sb.WriteByte(byte(i.Lo >> s))
		}
		for s := 0; s < 64; s += 8 {
			sb.WriteByte(byte(i.Hi >> s))
		}
	}
	return sb.String()
}

func mergeVars(a, b []int32) []int32 {
	if len(a) == 0 {
		return b
	}
	if len(b) == 0 {
		return a
	}
	if len(a) == len(b) {
		same := true
		for i := range a {
			if a[i] != b[i] {
				same = false
				break
			}
		}
		if same {
			return a
		}
	}
	r := make([]int32, 0, len(a)+len(b))
	i, j := 0, 0
	for i < len(a) || j < len(b) {
		switch {
		case j >= len(b) || (i < len(a) && a[i] < b[j]):
			r = append(r, a[i])
			i++
		case i >= len(a) || b[j] < a[i]:
			r = append(r, b[j])
			j++
		default:
			r = append(r, a[i])
			i++
			j++
		}
	}
	return r
}

func intern(k exprKey, ivs []IV) *Expr {
	sh := &internTab[hashKey(&k)&63]
	sh.mu.Lock()
	if e, ok := sh.m[k]; ok {
		sh.mu.Unlock()
		return e
	}
	if sh.m == nil {
		sh.m = make(map[exprKey]*Expr)
	}
	e := &Expr{op: k.op, w: k.w, k: k.k, a: k.a, b: k.b, c: k.c, ivs: ivs}
	e.id = atomic.AddUint32(&exprCount, 1)
	if k.op == OpVar {
		e.vars = []int32{int32(k.k)}
	} else {
		if k.a != nil {
			e.vars = k.a.vars
			e.depth = k.a.depth + 1
		}
		if k.b != nil {
			e.vars = mergeVars(e.vars, k.b.vars)
			if k.b.depth >= e.depth {
				e.depth = k.b.depth + 1
			}
		}
		if k.c != nil {
			e.vars = mergeVars(e.vars, k.c.vars)
			if k.c.depth >= e.depth {
				e.depth = k.c.depth + 1
			}
		}
	}
	switch len(e.vars) {
	case 0:
		e.v = -2
	case 1:
		e.v = e.vars[0]
	default:
		e.v = -1
	}
	sh.m[k] = e
	sh.mu.Unlock()
	return e
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func sext(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	sh := 64 - w
	return int64(v<<sh) >> sh
}

var (
	eTrue  = intern(exprKey{op: OpConst, w: 0, k: 1}, nil)
	eFalse = intern(exprKey{op: OpConst, w: 0, k: 0}, nil)
)

func mkConst(v uint64, w uint8) *Expr {
	if w == 0 {
		if v&1 != 0 {
			return eTrue
		}
		return eFalse
	}
	return intern(exprKey{op: OpConst, w: w, k: v & mask(w)}, nil)
}

func mkBool(b bool) *Expr {
	if b {
		return eTrue
	}
	return eFalse
}

func (e *Expr) isConst() bool { return e.op == OpConst }

// small reports whether e depends on exactly one variable of width <= 8.
func (e *Expr) small() bool {
	return e.v >= 0 && varWidth(e.v) <= 8
}

func varWidth(id int32) uint8 {
	varMu.RLock()
	w := varInfos[id].w
	varMu.RUnlock()
	return w
}

func evalOp(op Op, w uint8, aw uint8, x, y uint64) uint64 {
	m := mask(w)
	switch op {
	case OpAdd:
		return (x + y) & m
	case OpSub:
		return (x - y) & m
	case OpMul:
		return (x * y) & m
	case OpUDiv:
		if y == 0 {
			return m
		}
		return x / y
	case OpURem:
		if y == 0 {
			return x
		}
		return x % y
	case OpSDiv:
		sx, sy := sext(x, w), sext(y, w)
		if sy == 0 {
			if sx < 0 {
				return 1
			}
			return m
		}
		if sy == -1 {
			return uint64(-sx) & m
		}
		return uint64(sx/sy) & m
	case OpSRem:
		sx, sy := sext(x, w), sext(y, w)
		if sy == 0 {
			return x
		}
		if sy == -1 {
			return 0
		}
		return uint64(sx%sy) & m
	case OpAnd:
		return x & y
	case OpOr:
		return x | y
	case OpXor:
		return x ^ y
	case OpShl:
		if y >= uint64(w) {
			return 0
		}
		return (x << y) & m
	case OpLShr:
		if y >= uint64(w) {
			return 0
		}
		return x >> y
	case OpAShr:
		s := sext(x, w)
		if y >= uint64(w) {
			y = uint64(w) - 1
		}
		return uint64(s>>y) & m
	case OpEq:
		return b2u(x == y)
	case OpUlt:
		return b2u(x < y)
	case OpUle:
		return b2u(x <= y)
	case OpSlt:
		return b2u(sext(x, aw) < sext(y, aw))
	case OpSle:
		return b2u(sext(x, aw) <= sext(y, aw))
	case OpBAnd:
		return x & y
	case OpBOr:
		return x | y
	}
	panic("evalOp")
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func inIVs(ivs []IV, x uint64) bool {
	i := sort.Search(len(ivs), func(i int) bool { return ivs[i].Hi >= x })
	return i < len(ivs) && ivs[i].Lo <= x
}

// evalMap evaluates e under an assignment (missing variables are 0).
func evalMap(e *Expr, get func(int32) uint64, memo map[*Expr]uint64) uint64 {
	switch e.op {
	case OpConst:
		return e.k
	case OpVar:
		return get(int32(e.k)) & mask(e.w)
	}
	if memo != nil {
		if v, ok := memo[e]; ok {
			return v
		}
	}
	var r uint64
	switch e.op {
	case OpNot:
		r = ^evalMap(e.a, get, memo) & mask(e.w)
	case OpBNot:
		r = evalMap(e.a, get, memo) ^ 1
	case OpZExt:
		r = evalMap(e.a, get, memo)
	case OpSExt:
		r = uint64(sext(evalMap(e.a, get, memo), e.a.w)) & mask(e.w)
	case OpTrunc:
		r = evalMap(e.a, get, memo) & mask(e.w)
	case OpIte:
		if evalMap(e.a, get, memo) != 0 {
			r = evalMap(e.b, get, memo)
		} else {
			r = evalMap(e.c, get, memo)
		}
	case OpInSet:
		r = b2u(inIVs(e.ivs, evalMap(e.a, get, memo)))
	default:
		r = evalOp(e.op, e.w, e.a.w, evalMap(e.a, get, memo), evalMap(e.b, get, memo))
	}
	if memo != nil {
		memo[e] = r
	}
	return r
}

// eval1 evaluates a term over one variable.
func eval1(e *Expr, x uint64) uint64 {
	switch e.op {
	case OpConst:
		return e.k
	case OpVar:
		return x & mask(e.w)
	case OpNot:
		return ^eval1(e.a, x) & mask(e.w)
	case OpBNot:
		return eval1(e.a, x) ^ 1
	case OpZExt:
		return eval1(e.a, x)
	case OpSExt:
		return uint64(sext(eval1(e.a, x), e.a.w)) & mask(e.w)
	case OpTrunc:
		return eval1(e.a, x) & mask(e.w)
	case OpIte:
		if eval1(e.a, x) != 0 {
			return eval1(e.b, x)
		}
		return eval1(e.c, x)
	case OpInSet:
		if e.bset != nil {
			return e.bset[x>>6] >> (x & 63) & 1
		}
		return b2u(inIVs(e.ivs, eval1(e.a, x)))
	}
	return evalOp(e.op, e.w, e.a.w, eval1(e.a, x), eval1(e.b, x))
}

// table returns the values of a term over one small variable.
func (e *Expr) table() *[256]uint64 {
	if t := e.tab.Load(); t != nil {
		return t
	}
	n := 1 << varWidth(e.v)
	t := new([256]uint64)
	for x := 0; x < n; x++ {
		t[x] = e.evalTab(uint64(x))
	}
	e.tab.Store(t)
	return t
}

func (e *Expr) evalTab(x uint64) uint64 {
	sub := func(s *Expr) uint64 {
		if s.op == OpConst {
			return s.k
		}
		if t := s.tab.Load(); t != nil {
			return t[x]
		}
		return eval1(s, x)
	}
	switch e.op {
	case OpConst, OpVar, OpInSet, OpIte, OpNot, OpBNot, OpSExt:
		return eval1(e, x)
	case OpZExt:
		return sub(e.a)
	case OpTrunc:
		return sub(e.a) & mask(e.w)
	}
	return evalOp(e.op, e.w, e.a.w, sub(e.a), sub(e.b))
}

func fullBSet(w uint8) BSet {
	var s BSet
	n := 1 << w
	for i := 0; i < n; i++ {
		s[i>>6] |= 1 << (i & 63)
	}
	return s
}

var full8 = fullBSet(8)

func (s *BSet) empty() bool { return s[0]|s[1]|s[2]|s[3] == 0 }
func (s *BSet) count() int {
	return bits.OnesCount64(s[0]) + bits.OnesCount64(s[1]) + bits.OnesCount64(s[2]) + bits.OnesCount64(s[3])
}
func (s *BSet) has(x uint64) bool { return s[x>>6]>>(x&63)&1 != 0 }
func (s *BSet) first() uint64 {
	for i := 0; i < 4; i++ {
		if s[i] != 0 {
			return uint64(i*64 + bits.TrailingZeros64(s[i]))
		}
	}
	return 0
}
func (s *BSet) and(t *BSet) BSet {
	return BSet{s[0] & t[0], s[1] & t[1], s[2] & t[2], s[3] & t[3]}
}
func (s *BSet) andNot(t *BSet) BSet {
	return BSet{s[0] &^ t[0], s[1] &^ t[1], s[2] &^ t[2], s[3] &^ t[3]}
}

func bsetIVs(s *BSet) []IV {
	var r []IV
	for i := uint64(0); i < 256; i++ {
		if !s.has(i) {
			continue
		}
		if n := len(r); n > 0 && r[n-1].Hi+1 == i {
			r[n-1].Hi = i
		} else {
			r = append(r, IV{i, i})
		}
	}
	return r
}

// Every reduction of a one-variable condition to an explicit value set is
// recorded once and confirmed by the SMT solver (see solver.go).
type reduction struct {
	e   *Expr // the unreduced condition
	set *Expr // the reduced form
}

var reduceMu sync.Mutex
var reduceSeen = map[exprKey]bool{}
var reduceQueue []reduction

func canonVarKey(k exprKey) exprKey { return k }

func noteReduction(k exprKey, ivs []IV, set *Expr) {
	reduceMu.Lock()
	if !reduceSeen[k] {
		reduceSeen[k] = true
		reduceQueue = append(reduceQueue, reduction{intern(k, ivs), set})
	}
	reduceMu.Unlock()
}

// reduceCache maps a one-small-variable condition key to its set form.
var reduceCache [64]struct {
	mu sync.RWMutex
	m  map[exprKey]*Expr
}

func init() {
	for i := range reduceCache {
		reduceCache[i].m = map[exprKey]*Expr{}
	}
}

func mkSetExpr(varE *Expr, s BSet) *Expr {
	full := fullBSet(varE.w)
	if s.empty() {
		return eFalse
	}
	if s == full {
		return eTrue
	}
	ivs := bsetIVs(&s)
	e := intern(exprKey{op: OpInSet, w: 0, a: varE, ivs: ivKey(ivs)}, ivs)
	if e.bset == nil {
		c := s
		e.bset = &c
	}
	return e
}

func varOf(e *Expr) *Expr {
	varMu.RLock()
	defer varMu.RUnlock()
	return varExprs[e.v]
}

// mkRaw builds op without simplification except, for boolean terms over one
// small variable, reduction to a value set.
func mkRaw(k exprKey, ivs []IV) *Expr {
	if k.w == 0 && k.op != OpVar && k.op != OpConst {
		// find the single var
		v := int32(-2)
		for _, s := range [...]*Expr{k.a, k.b, k.c} {
			if s == nil || s.v == -2 {
				continue
			}
			if v == -2 {
				v = s.v
			} else if v != s.v {
				v = -1
			}
		}
		if v >= 0 && varWidth(v) <= 8 && !(k.op == OpInSet && k.a.op == OpVar) {
			sh := &reduceCache[hashKey(&k)&63]
			sh.mu.RLock()
			r, ok := sh.m[k]
			sh.mu.RUnlock()
			if ok {
				return r
			}
			var s BSet
			n := uint64(1) << varWidth(v)
			var ta, tb, tc *[256]uint64
			get := func(e *Expr) *[256]uint64 {
				if e == nil || e.op == OpConst {
					return nil
				}
				return e.table()
			}
			ta, tb, tc = get(k.a), get(k.b), get(k.c)
			val := func(e *Expr, t *[256]uint64, x uint64) uint64 {
				if t == nil {
					if e == nil {
						return 0
					}
					return e.k
				}
				return t[x]
			}
			for x := uint64(0); x < n; x++ {
				var r uint64
				switch k.op {
				case OpBNot:
					r = val(k.a, ta, x) ^ 1
				case OpIte:
					if val(k.a, ta, x) != 0 {
						r = val(k.b, tb, x)
					} else {
						r = val(k.c, tc, x)
					}
				case OpInSet:
					r = b2u(inIVs(ivs, val(k.a, ta, x)))
				default:
					r = evalOp(k.op, k.w, k.a.w, val(k.a, ta, x), val(k.b, tb, x))
				}
				if r != 0 {
					s[x>>6] |= 1 << (x & 63)
				}
			}
			varMu.RLock()
			ve := varExprs[v]
			varMu.RUnlock()
			r = mkSetExpr(ve, s)
			noteReduction(k, ivs, r)
			sh.mu.Lock()
			sh.m[k] = r
			sh.mu.Unlock()
			return r
		}
	}
	return intern(k, ivs)
}

func mkBin(op Op, a, b *Expr) *Expr {
	w := a.w
	switch op {
	case OpEq, OpUlt, OpUle, OpSlt, OpSle, OpBAnd, OpBOr:
		w = 0
	}
	if a.op == OpConst && b.op == OpConst {
		return mkConst(evalOp(op, w, a.w, a.k, b.k), w)
	}
	switch op {
	case OpAdd:
		if a.op == OpConst {
			a, b = b, a
		}
		if b.op == OpConst {
			if b.k == 0 {
				return a
			}
			if a.op == OpAdd && a.b.op == OpConst {
				return mkBin(OpAdd, a.a, mkConst(a.b.k+b.k, w))
			}
		}
	case OpSub:
		if a == b {
			return mkConst(0, w)
		}
		if b.op == OpConst {
			return mkBin(OpAdd, a, mkConst(-b.k, w))
		}
	case OpMul:
		if a.op == OpConst {
			a, b = b, a
		}
		if b.op == OpConst {
			if b.k == 0 {
				return b
			}
			if b.k == 1 {
				return a
			}
			if bits.OnesCount64(b.k) == 1 {
				return mkBin(OpShl, a, mkConst(uint64(bits.TrailingZeros64(b.k)), w))
			}
		}
	case OpAnd:
		if a.op == OpConst {
			a, b = b, a
		}
		if a == b {
			return a
		}
		if b.op == OpConst {
			if b.k == 0 {
				return b
			}
			if b.k == mask(w) {
				return a
			}
			if a.op == OpZExt && b.k&mask(a.a.w) == mask(a.a.w) {
				return a
			}
			if a.op == OpAnd && a.b.op == OpConst {
				return mkBin(OpAnd, a.a, mkConst(a.b.k&b.k, w))
			}
			// (x | y) & m where one side vanishes
			if a.op == OpOr {
				l, r := mkBin(OpAnd, a.a, b), mkBin(OpAnd, a.b, b)
				if l.op == OpConst || r.op == OpConst {
					return mkBin(OpOr, l, r)
				}
			}
			if a.op == OpShl && a.b.op == OpConst && a.b.k < 64 {
				if b.k&(mask(w)<<a.b.k)&mask(w) == 0 {
					return mkConst(0, w)
				}
			}
			if a.op == OpZExt && b.k&mask(a.a.w) == 0 {
				return mkConst(0, w)
			}
		}
	case OpOr:
		if a.op == OpConst {
			a, b = b, a
		}
		if a == b {
			return a
		}
		if b.op == OpConst {
			if b.k == 0 {
				return a
			}
			if b.k == mask(w) {
				return b
			}
		}
	case OpXor:
		if a.op == OpConst {
			a, b = b, a
		}
		if a == b {
			return mkConst(0, w)
		}
		if b.op == OpConst && b.k == 0 {
			return a
		}
	case OpShl, OpLShr, OpAShr:
		if b.op == OpConst {
			if b.k == 0 {
				return a
			}
			if b.k >= uint64(w) && op != OpAShr {
				return mkConst(0, w)
			}
			if a.op == op && op != OpAShr && a.b.op == OpConst {
				return mkBin(op, a.a, mkConst(a.b.k+b.k, w))
			}
			if op == OpLShr && a.op == OpZExt && b.k >= uint64(a.a.w) {
				return mkConst(0, w)
			}
			// (x << s) >> s with zero-extended x that fits
			if op == OpLShr && a.op == OpShl && a.b.op == OpConst && a.b.k == b.k && a.a.op == OpZExt && uint64(a.a.a.w)+b.k <= uint64(w) {
				return a.a
			}
		}
		if a.op == OpConst && a.k == 0 {
			return a
		}
	case OpUDiv:
		if b.op == OpConst && b.k == 1 {
			return a
		}
		if b.op == OpConst && bits.OnesCount64(b.k) == 1 {
			return mkBin(OpLShr, a, mkConst(uint64(bits.TrailingZeros64(b.k)), w))
		}
	case OpURem:
		if b.op == OpConst && bits.OnesCount64(b.k) == 1 {
			return mkBin(OpAnd, a, mkConst(b.k-1, w))
		}
	case OpBAnd:
		if a.op == OpConst {
			a, b = b, a
		}
		if b.op == OpConst {
			if b.k == 0 {
				return eFalse
			}
			return a
		}
		if a == b {
			return a
		}
		if mkNot(a) == b {
			return eFalse
		}
	case OpBOr:
		if a.op == OpConst {
			a, b = b, a
		}
		if b.op == OpConst {
			if b.k == 1 {
				return eTrue
			}
			return a
		}
		if a == b {
			return a
		}
		if mkNot(a) == b {
			return eTrue
		}
	case OpEq:
		if a == b {
			return eTrue
		}
		if a.op == OpConst {
			a, b = b, a
		}
		if a.w == 0 {
			if b.op == OpConst {
				if b.k == 1 {
					return a
				}
				return mkNot(a)
			}
			if a.id > b.id {
				a, b = b, a
			}
			break
		}
		if b.op == OpConst {
			switch a.op {
			case OpZExt:
				if b.k > mask(a.a.w) {
					return eFalse
				}
				return mkBin(OpEq, a.a, mkConst(b.k, a.a.w))
			case OpSExt:
				t := b.k & mask(a.a.w)
				if uint64(sext(t, a.a.w))&mask(a.w) != b.k {
					return eFalse
				}
				return mkBin(OpEq, a.a, mkConst(t, a.a.w))
			case OpAdd:
				if a.b.op == OpConst {
					return mkBin(OpEq, a.a, mkConst(b.k-a.b.k, a.w))
				}
			case OpXor:
				if a.b.op == OpConst {
					return mkBin(OpEq, a.a, mkConst(b.k^a.b.k, a.w))
				}
			case OpIte:
				if a.b.op == OpConst && a.c.op == OpConst {
					tb, tc := a.b.k == b.k, a.c.k == b.k
					switch {
					case tb && tc:
						return eTrue
					case tb:
						return a.a
					case tc:
						return mkNot(a.a)
					default:
						return eFalse
					}
				}
			}
			return mkInSet(a, []IV{{b.k, b.k}})
		} else if a.id > b.id {
			a, b = b, a
		}
	case OpUlt, OpUle, OpSlt, OpSle:
		if a == b {
			return mkBool(op == OpUle || op == OpSle)
		}
		if b.op == OpConst || a.op == OpConst {
			return mkCmpConst(op, a, b)
		}
	}
	return mkRaw(exprKey{op: op, w: w, a: a, b: b}, nil)
}

// mkCmpConst turns a comparison with a constant into interval membership.
func mkCmpConst(op Op, a, b *Expr) *Expr {
	w := a.w
	m := mask(w)
	var ivs []IV
	var x *Expr
	if b.op == OpConst {
		x = a
		switch op {
		case OpUlt:
			if b.k == 0 {
				return eFalse
			}
			ivs = []IV{{0, b.k - 1}}
		case OpUle:
			ivs = []IV{{0, b.k}}
		case OpSlt, OpSle:
			c := sext(b.k, w)
			min := sext(uint64(1)<<(w-1), w)
			if op == OpSlt {
				if c == min {
					return eFalse
				}
				c--
			}
			ivs = signedRange(min, c, w)
		}
	} else {
		x = b
		switch op {
		case OpUlt:
			if a.k == m {
				return eFalse
			}
			ivs = []IV{{a.k + 1, m}}
		case OpUle:
			ivs = []IV{{a.k, m}}
		case OpSlt, OpSle:
			c := sext(a.k, w)
			max := int64(m >> 1)
			if op == OpSlt {
				if c == max {
					return eFalse
				}
				c++
			}
			ivs = signedRange(c, max, w)
		}
	}
	return mkInSet(x, ivs)
}

func signedRange(lo, hi int64, w uint8) []IV {
	m := mask(w)
	if lo > hi {
		return nil
	}
	if (lo < 0) == (hi < 0) {
		return []IV{{uint64(lo) & m, uint64(hi) & m}}
	}
	return []IV{{0, uint64(hi)}, {uint64(lo) & m, m}}
}

func ivNorm(ivs []IV) []IV {
	if len(ivs) < 2 {
		return ivs
	}
	sort.Slice(ivs, func(i, j int) bool { return ivs[i].Lo < ivs[j].Lo })
	r := ivs[:1]
	for _, i := range ivs[1:] {
		l := &r[len(r)-1]
		if i.Lo <= l.Hi || i.Lo == l.Hi+1 {
			if i.Hi > l.Hi {
				l.Hi = i.Hi
			}
		} else {
			r = append(r, i)
		}
	}
	return r
}

func ivAnd(a, b []IV) []IV {
	var r []IV
	i, j := 0, 0
	for i < len(a) && j < len(b) {
		lo, hi := a[i].Lo, a[i].Hi
		if b[j].Lo > lo {
			lo = b[j].Lo
		}
		if b[j].Hi < hi {
			hi = b[j].Hi
		}
		if lo <= hi {
			r = append(r, IV{lo, hi})
		}
		if a[i].Hi < b[j].Hi {
			i++
		} else {
			j++
		}
	}
	return r
}

func ivNot(a []IV, m uint64) []IV {
	r := make([]IV, 0, len(a)+1)
	next := uint64(0)
	done := false
	for _, i := range a {
		if i.Lo > next {
			r = append(r, IV{next, i.Lo - 1})
		}
		if i.Hi == m {
			done = true
			break
		}
		next = i.Hi + 1
	}
	if !done {
		r = append(r, IV{next, m})
	}
	return r
}

func ivCount(a []IV) float64 {
	s := 0.0
	for _, i := range a {
		s += float64(i.Hi-i.Lo) + 1
	}
	return s
}

// mkInSet: x ∈ ivs (normalised intervals).
func mkInSet(x *Expr, ivs []IV) *Expr {
	if len(ivs) == 0 {
		return eFalse
	}
	m := mask(x.w)
	if len(ivs) == 1 && ivs[0].Lo == 0 && ivs[0].Hi == m {
		return eTrue
	}
	switch x.op {
	case OpConst:
		return mkBool(inIVs(ivs, x.k))
	case OpZExt:
		return mkInSet(x.a, ivAnd(ivs, []IV{{0, mask(x.a.w)}}))
	case OpSExt:
		w := x.a.w
		half := uint64(1) << (w - 1)
		pos := ivAnd(ivs, []IV{{0, half - 1}})
		negLo := uint64(sext(half, w)) & m
		neg := ivAnd(ivs, []IV{{negLo, m}})
		var r []IV
		r = append(r, pos...)
		for _, i := range neg {
			r = append(r, IV{i.Lo & mask(w), i.Hi & mask(w)})
		}
		return mkInSet(x.a, ivNorm(r))
	case OpAdd:
		if x.b.op == OpConst {
			c := x.b.k
			var r []IV
			for _, i := range ivs {
				lo, hi := (i.Lo-c)&m, (i.Hi-c)&m
				if lo <= hi {
					r = append(r, IV{lo, hi})
				} else {
					r = append(r, IV{0, hi}, IV{lo, m})
				}
			}
			return mkInSet(x.a, ivNorm(r))
		}
	case OpIte:
		if x.b.op == OpConst && x.c.op == OpConst {
			tb, tc := inIVs(ivs, x.b.k), inIVs(ivs, x.c.k)
			switch {
			case tb && tc:
				return eTrue
			case tb:
				return x.a
			case tc:
				return mkNot(x.a)
			default:
				return eFalse
			}
		}
	}
	if x.op == OpVar && x.w <= 8 {
		var s BSet
		for _, i := range ivs {
			for v := i.Lo; v <= i.Hi; v++ {
				s[v>>6] |= 1 << (v & 63)
			}
		}
		return mkSetExpr(x, s)
	}
	return mkRaw(exprKey{op: OpInSet, w: 0, a: x, ivs: ivKey(ivs)}, ivs)
}

func mkNot(a *Expr) *Expr {
	switch a.op {
	case OpConst:
		return mkBool(a.k == 0)
	case OpBNot:
		return a.a
	case OpInSet:
		return mkInSet(a.a, ivNot(a.ivs, mask(a.a.w)))
	case OpUlt:
		return mkBin(OpUle, a.b, a.a)
	case OpUle:
		return mkBin(OpUlt, a.b, a.a)
	case OpSlt:
		return mkBin(OpSle, a.b, a.a)
	case OpSle:
		return mkBin(OpSlt, a.b, a.a)
	}
	return mkRaw(exprKey{op: OpBNot, w: 0, a: a}, nil)
}

func mkBvNot(a *Expr) *Expr {
	if a.op == OpConst {
		return mkConst(^a.k, a.w)
	}
	return intern(exprKey{op: OpNot, w: a.w, a: a}, nil)
}

func mkIte(c, a, b *Expr) *Expr {
	if c.op == OpConst {
		if c.k != 0 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if a.w == 0 {
		if a == eTrue && b == eFalse {
			return c
		}
		if a == eFalse && b == eTrue {
			return mkNot(c)
		}
		if a == eTrue {
			return mkBin(OpBOr, c, b)
		}
		if a == eFalse {
			return mkBin(OpBAnd, mkNot(c), b)
		}
		if b == eTrue {
			return mkBin(OpBOr, mkNot(c), a)
		}
		if b == eFalse {
			return mkBin(OpBAnd, c, a)
		}
	}
	return mkRaw(exprKey{op: OpIte, w: a.w, a: c, b: a, c: b}, nil)
}

func mkZExt(a *Expr, w uint8) *Expr {
	if a.w == w {
		return a
	}
	if a.op == OpConst {
		return mkConst(a.k, w)
	}
	if a.op == OpZExt {
		a = a.a
	}
	return intern(exprKey{op: OpZExt, w: w, a: a}, nil)
}

func mkSExt(a *Expr, w uint8) *Expr {
	if a.w == w {
		return a
	}
	if a.op == OpConst {
		return mkConst(uint64(sext(a.k, a.w)), w)
	}
	if a.op == OpZExt {
		return mkZExt(a.a, w)
	}
	if a.op == OpSExt {
		a = a.a
	}
	return intern(exprKey{op: OpSExt, w: w, a: a}, nil)
}

func mkTrunc(a *Expr, w uint8) *Expr {
	if a.w == w {
		return a
	}
	switch a.op {
	case OpConst:
		return mkConst(a.k, w)
	case OpZExt, OpSExt:
		if a.a.w == w {
			return a.a
		}
		if a.a.w > w {
			return mkTrunc(a.a, w)
		}
		if a.op == OpZExt {
			return mkZExt(a.a, w)
		}
		return mkSExt(a.a, w)
	case OpTrunc:
		return mkTrunc(a.a, w)
	case OpAnd:
		if a.b.op == OpConst && a.b.k&mask(w) == mask(w) {
			return mkTrunc(a.a, w)
		}
	case OpAdd, OpSub, OpMul, OpOr, OpXor:
		return mkBin(a.op, mkTrunc(a.a, w), mkTrunc(a.b, w))
	case OpShl:
		if a.b.op == OpConst {
			if a.b.k >= uint64(w) {
				return mkConst(0, w)
			}
			return mkBin(OpShl, mkTrunc(a.a, w), mkConst(a.b.k, w))
		}
	}
	return intern(exprKey{op: OpTrunc, w: w, a: a}, nil)
}

// bool <-> 1-bit conversions are not needed: Go has no bool conversions.

// subst replaces variable v by r in e.
func subst(e *Expr, v int32, r *Expr, memo map[*Expr]*Expr) *Expr {
	if e.v == -2 {
		return e
	}
	if e.op == OpVar {
		if int32(e.k) == v {
			return r
		}
		return e
	}
	if x, ok := memo[e]; ok {
		return x
	}
	var x *Expr
	switch e.op {
	case OpNot:
		x = mkBvNot(subst(e.a, v, r, memo))
	case OpBNot:
		x = mkNot(subst(e.a, v, r, memo))
	case OpZExt:
		x = mkZExt(subst(e.a, v, r, memo), e.w)
	case OpSExt:
		x = mkSExt(subst(e.a, v, r, memo), e.w)
	case OpTrunc:
		x = mkTrunc(subst(e.a, v, r, memo), e.w)
	case OpIte:
		x = mkIte(subst(e.a, v, r, memo), subst(e.b, v, r, memo), subst(e.c, v, r, memo))
	case OpInSet:
		x = mkInSet(subst(e.a, v, r, memo), e.ivs)
	default:
		x = mkBin(e.op, subst(e.a, v, r, memo), subst(e.b, v, r, memo))
	}
	memo[e] = x
	return x
}

func bvLit(v uint64, w uint8) string {
	if w%4 == 0 {
		return fmt.Sprintf("#x%0*x", int(w)/4, v&mask(w))
	}
	return fmt.Sprintf("(_ bv%d %d)", v&mask(w), w)
}

func (e *Expr) String() string {
	switch e.op {
	case OpConst:
		if e.w == 0 {
			return fmt.Sprint(e.k != 0)
		}
		return fmt.Sprintf("%d:%d", e.k, e.w)
	case OpVar:
		return varInfo(int32(e.k)).name
	case OpInSet:
		return fmt.Sprintf("(%v in %x)", e.a, e.ivs)
	}
	if e.depth > 12 {
		return fmt.Sprintf("(%s ...#%d)", opNames[e.op], e.id)
	}
	s := "(" + opNames[e.op]
	for _, x := range [...]*Expr{e.a, e.b, e.c} {
		if x != nil {
			s += " " + x.String()
		}
	}
	return s + ")"
}
