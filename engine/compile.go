package main

// Compilation of SSA functions into a compact register code.

import (
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"sync"
	"sync/atomic"

	"golang.org/x/tools/go/ssa"
)

type iop uint8

const (
	iBin iop = iota
	iEqNe
	iNotB
	iNeg
	iCompl
	iLoad
	iAlloc
	iFieldAddr
	iField
	iIndexAddrSlice
	iIndexAddrArr
	iIndexArr
	iIndexStr
	iLookupMap
	iCallStatic
	iCallDyn
	iCallInvoke
	iCallBuiltin
	iConvert
	iCopy // ChangeType
	iMakeIface
	iChangeIface
	iTypeAssert
	iMakeSlice
	iMakeMap
	iMakeClosure
	iMapUpdate
	iSlice
	iExtract
	iStore
	iRange
	iNext
	iDefer
	iRunDefers
	iPanic
	iReturn
	iJump
	iIf
	iSliceToArrPtr
	iAppendVals
	iUnsupported
)

type operand int32

type move struct {
	dst int32
	src operand
}

type edge struct {
	blk    int32
	moves  []move
	direct bool
}

type Inst struct {
	op      iop
	tok     token.Token
	signed  bool
	commaOk bool
	w, w2   uint8
	dst     int32
	a, b, c operand
	k       int
	n       int64
	t, t2   *TInfo
	args    []operand
	fn      *ssa.Function
	code    *Code
	name    string
	method  *types.Func
	e0, e1  edge
	ins     ssa.Instruction
}

type block struct {
	ins []Inst
}

type Code struct {
	fn      *ssa.Function
	name    string
	nregs   int
	consts  []Val
	blocks  []block
	params  []int32
	frees   []int32
	results []*TInfo
	recover int32
	pure    int32 // 0 unknown, 1 pure, -1 impure
	intr    intrinsic
	redir   *Code
	id      int32
	cover   uint32
}

var codeMu sync.RWMutex
var codes = map[*ssa.Function]*Code{}
var codeList []*Code

func codeFor(fn *ssa.Function) *Code {
	codeMu.RLock()
	c := codes[fn]
	codeMu.RUnlock()
	if c != nil {
		return c
	}
	codeMu.Lock()
	defer codeMu.Unlock()
	if c := codes[fn]; c != nil {
		return c
	}
	c = compile(fn)
	codes[fn] = c
	c.id = int32(len(codeList))
	codeList = append(codeList, c)
	return c
}

func (code *Code) isPureCode() bool {
	if p := atomic.LoadInt32(&code.pure); p != 0 {
		return p > 0
	}
	p := int32(-1)
	if code.intr == nil && code.fn.Blocks != nil && len(code.results) == 1 && code.results[0].scalar && !code.results[0].agg() && isPure(code.fn) {
		p = 1
	}
	atomic.StoreInt32(&code.pure, p)
	return p > 0
}

type compiler struct {
	c    *Code
	regs map[ssa.Value]int32
	cidx map[ssa.Value]operand
	skip map[ssa.Instruction]bool
	app  map[*ssa.Call][]ssa.Value
}

// findAppends recognises append(x, v1, ..., vn) so that the temporary argument
// array need not be allocated.
func (k *compiler) findAppends(fn *ssa.Function) {
	k.skip = map[ssa.Instruction]bool{}
	k.app = map[*ssa.Call][]ssa.Value{}
	for _, b := range fn.Blocks {
	next:
		for _, in := range b.Instrs {
			al, ok := in.(*ssa.Alloc)
			if !ok || al.Comment != "varargs" {
				continue
			}
			at, ok := al.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
			if !ok || at.Len() > 64 || TI(at.Elem()).agg() {
				continue
			}
			vals := make([]ssa.Value, at.Len())
			var call *ssa.Call
			drop := []ssa.Instruction{al}
			for _, r := range *al.Referrers() {
				if r.Block() != b {
					continue next
				}
				switch r := r.(type) {
				case *ssa.IndexAddr:
					c, ok := r.Index.(*ssa.Const)
					if !ok || len(*r.Referrers()) != 1 {
						continue next
					}
					st, ok := (*r.Referrers())[0].(*ssa.Store)
					if !ok || st.Addr != r || st.Block() != b {
						continue next
					}
					i := c.Int64()
					if i < 0 || i >= at.Len() || vals[i] != nil {
						continue next
					}
					vals[i] = st.Val
					drop = append(drop, r, st)
				case *ssa.Slice:
					if r.Low != nil || r.High != nil || r.Max != nil || call != nil || len(*r.Referrers()) != 1 {
						continue next
					}
					c, ok := (*r.Referrers())[0].(*ssa.Call)
					if !ok || c.Block() != b {
						continue next
					}
					bi, ok := c.Call.Value.(*ssa.Builtin)
					if !ok || bi.Name() != "append" || c.Call.Args[1] != ssa.Value(r) || c.Call.Args[0] == ssa.Value(r) {
						continue next
					}
					call = c
					drop = append(drop, r)
				default:
					continue next
				}
			}
			if call == nil {
				continue
			}
			for _, v := range vals {
				if v == nil {
					continue next
				}
			}
			k.app[call] = vals
			for _, d := range drop {
				k.skip[d] = true
			}
		}
	}
}

func compile(fn *ssa.Function) *Code {
	c := &Code{fn: fn, name: fn.String(), recover: -1}
	c.intr = lookupIntrinsic(fn)
	res := fn.Signature.Results()
	for i := 0; i < res.Len(); i++ {
		c.results = append(c.results, TI(res.At(i).Type()))
	}
	if c.intr != nil || fn.Blocks == nil {
		return c
	}
	k := &compiler{c: c, regs: map[ssa.Value]int32{}, cidx: map[ssa.Value]operand{}}
	newReg := func(v ssa.Value) int32 {
		r := int32(c.nregs)
		c.nregs++
		k.regs[v] = r
		return r
	}
	for _, p := range fn.Params {
		c.params = append(c.params, newReg(p))
	}
	for _, p := range fn.FreeVars {
		c.frees = append(c.frees, newReg(p))
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				newReg(v)
			}
		}
	}
	if fn.Recover != nil {
		c.recover = int32(fn.Recover.Index)
	}
	k.findAppends(fn)
	for _, b := range fn.Blocks {
		var blk block
		for _, in := range b.Instrs {
			if k.skip[in] {
				continue
			}
			if i, ok := k.inst(in, b); ok {
				i.ins = in
				blk.ins = append(blk.ins, i)
			}
		}
		c.blocks = append(c.blocks, blk)
	}
	return c
}

func (k *compiler) op(v ssa.Value) operand {
	if r, ok := k.regs[v]; ok {
		return operand(r)
	}
	if o, ok := k.cidx[v]; ok {
		return o
	}
	var val Val
	switch v := v.(type) {
	case *ssa.Const:
		val = constVal(v)
	case *ssa.Global:
		val = globalPtr(v)
	case *ssa.Function:
		val = Val{X: &Closure{fn: v}}
	case *ssa.Builtin:
		val = Val{X: &Closure{name: v.Name()}}
	default:
		engineErr("operand %T", v)
	}
	k.c.consts = append(k.c.consts, val)
	o := operand(-len(k.c.consts))
	k.cidx[v] = o
	return o
}

func constVal(v *ssa.Const) Val {
	if v.Value == nil {
		return Val{}
	}
	t := TI(v.Type())
	switch t.kind {
	case KBool:
		return boolVal(constant.BoolVal(v.Value))
	case KInt:
		x := constant.ToInt(v.Value)
		if i, ok := constant.Int64Val(x); ok {
			return Val{N: uint64(i) & mask(t.w)}
		}
		u, _ := constant.Uint64Val(x)
		return Val{N: u & mask(t.w)}
	case KFloat:
		f, _ := constant.Float64Val(v.Value)
		if t.w == 32 {
			f = float64(float32(f))
		}
		return fval(f)
	case KString:
		return strVal(constant.StringVal(v.Value))
	}
	return Val{X: badConst{v.String()}}
}

type badConst struct{ s string }

var _ = math.Pi

func (k *compiler) edge(from *ssa.BasicBlock, succIdx int) edge {
	to := from.Succs[succIdx]
	// which predecessor slot of `to` is this edge? duplicates carry equal values per slot
	occ := 0
	for i := 0; i < succIdx; i++ {
		if from.Succs[i] == to {
			occ++
		}
	}
	pi := -1
	for i, p := range to.Preds {
		if p == from {
			if occ == 0 {
				pi = i
				break
			}
			occ--
		}
	}
	e := edge{blk: int32(to.Index)}
	for _, in := range to.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		e.moves = append(e.moves, move{k.regs[ph], k.op(ph.Edges[pi])})
	}
	if len(e.moves) == 1 {
		e.direct = true
	} else if len(e.moves) > 1 {
		// parallel unless no move reads another's destination
		e.direct = true
		for i, m := range e.moves {
			for _, n := range e.moves[i+1:] {
				if operand(m.dst) == n.src {
					e.direct = false
				}
			}
		}
	}
	return e
}

func (k *compiler) inst(in ssa.Instruction, b *ssa.BasicBlock) (Inst, bool) {
	var i Inst
	if v, ok := in.(ssa.Value); ok {
		i.dst = k.regs[v]
	} else {
		i.dst = -1
	}
	switch in := in.(type) {
	case *ssa.DebugRef, *ssa.Phi:
		return i, false
	case *ssa.BinOp:
		t := TI(in.X.Type())
		i.a, i.b, i.tok, i.t = k.op(in.X), k.op(in.Y), in.Op, t
		i.w, i.signed = t.w, t.signed
		t2 := TI(in.Y.Type())
		i.t2, i.w2 = t2, t2.w
		i.op = iBin
		if in.Op == token.EQL || in.Op == token.NEQ {
			i.op = iEqNe
			if t.kind == KIface != (t2.kind == KIface) {
				// mixed comparison: make both interfaces is done by ssa builder
				i.t2 = t2
			}
		}
	case *ssa.UnOp:
		i.a = k.op(in.X)
		t := TI(in.Type())
		i.t = t
		i.w, i.signed = t.w, t.signed
		switch in.Op {
		case token.MUL:
			i.op = iLoad
		case token.NOT:
			i.op = iNotB
		case token.SUB:
			i.op = iNeg
		case token.XOR:
			i.op = iCompl
		default:
			i.op, i.name = iUnsupported, "unop "+in.Op.String()
		}
	case *ssa.Alloc:
		i.op = iAlloc
		i.t = TI(in.Type().Underlying().(*types.Pointer).Elem())
	case *ssa.FieldAddr:
		i.op, i.a = iFieldAddr, k.op(in.X)
		st := TI(in.X.Type().Underlying().(*types.Pointer).Elem())
		i.k = st.offs[in.Field]
	case *ssa.Field:
		i.op, i.a = iField, k.op(in.X)
		st := TI(in.X.Type())
		i.k = st.offs[in.Field]
		i.t = st.fields[in.Field]
	case *ssa.IndexAddr:
		i.a, i.b = k.op(in.X), k.op(in.Index)
		it := TI(in.Index.Type())
		i.w, i.signed = it.w, it.signed
		switch u := in.X.Type().Underlying().(type) {
		case *types.Slice:
			i.op = iIndexAddrSlice
			i.t = TI(u.Elem())
		case *types.Pointer:
			at := TI(u.Elem())
			i.op = iIndexAddrArr
			i.t, i.n = at.elem, at.n
		}
		i.commaOk = loadedNext(in) && i.t.slots == 1 && (i.t.kind == KInt || i.t.kind == KBool)
	case *ssa.Index:
		i.a, i.b = k.op(in.X), k.op(in.Index)
		it := TI(in.Index.Type())
		i.w, i.signed = it.w, it.signed
		xt := TI(in.X.Type())
		if xt.kind == KString {
			i.op = iIndexStr
		} else {
			i.op = iIndexArr
			i.t, i.n = xt.elem, xt.n
		}
	case *ssa.Lookup:
		i.a, i.b = k.op(in.X), k.op(in.Index)
		it := TI(in.Index.Type())
		i.w, i.signed = it.w, it.signed
		if TI(in.X.Type()).kind == KString {
			i.op = iIndexStr
		} else {
			i.op = iLookupMap
			i.commaOk = in.CommaOk
			i.t = it
			i.t2 = TI(in.X.Type()).elem
		}
	case *ssa.Call:
		if vals, ok := k.app[in]; ok {
			i.op = iAppendVals
			i.a = k.op(in.Call.Args[0])
			i.t = TI(in.Call.Args[0].Type())
			for _, v := range vals {
				i.args = append(i.args, k.op(v))
			}
			return i, true
		}
		return k.call(i, &in.Call), true
	case *ssa.Defer:
		j := k.call(i, &in.Call)
		j.tok = token.Token(j.op)
		j.op = iDefer
		return j, true
	case *ssa.RunDefers:
		i.op = iRunDefers
	case *ssa.ChangeType:
		i.op, i.a = iCopy, k.op(in.X)
	case *ssa.Convert:
		i.op, i.a = iConvert, k.op(in.X)
		i.t, i.t2 = TI(in.X.Type()), TI(in.Type())
	case *ssa.MultiConvert:
		i.op, i.a = iConvert, k.op(in.X)
		i.t, i.t2 = TI(in.X.Type()), TI(in.Type())
	case *ssa.ChangeInterface:
		i.op, i.a = iCopy, k.op(in.X)
	case *ssa.MakeInterface:
		i.op, i.a = iMakeIface, k.op(in.X)
		i.t = TI(in.X.Type())
	case *ssa.TypeAssert:
		i.op, i.a = iTypeAssert, k.op(in.X)
		i.t = TI(in.AssertedType)
		i.commaOk = in.CommaOk
	case *ssa.MakeSlice:
		i.op, i.a, i.b = iMakeSlice, k.op(in.Len), k.op(in.Cap)
		i.t = TI(in.Type()).elem
		i.w, i.w2 = TI(in.Len.Type()).w, TI(in.Cap.Type()).w
	case *ssa.MakeMap:
		i.op = iMakeMap
	case *ssa.MakeClosure:
		i.op = iMakeClosure
		i.fn = in.Fn.(*ssa.Function)
		for _, b := range in.Bindings {
			i.args = append(i.args, k.op(b))
		}
	case *ssa.MapUpdate:
		i.op, i.a, i.b, i.c = iMapUpdate, k.op(in.Map), k.op(in.Key), k.op(in.Value)
		i.t = TI(in.Key.Type())
		i.t2 = TI(in.Value.Type())
	case *ssa.Slice:
		i.op, i.a = iSlice, k.op(in.X)
		none := operand(math.MinInt32)
		i.args = []operand{none, none, none}
		for j, v := range []ssa.Value{in.Low, in.High, in.Max} {
			if v != nil {
				i.args[j] = k.op(v)
				i.w = TI(v.Type()).w
			}
		}
		i.t = TI(in.X.Type())
		if i.t.kind == KPtr {
			at := TI(in.X.Type().Underlying().(*types.Pointer).Elem())
			i.n = at.n
			i.t2 = at.elem
		} else if i.t.kind == KSlice {
			i.t2 = i.t.elem
		}
	case *ssa.SliceToArrayPointer:
		i.op, i.a = iSliceToArrPtr, k.op(in.X)
		i.n = TI(in.Type().Underlying().(*types.Pointer).Elem()).n
	case *ssa.Extract:
		i.op, i.a, i.k = iExtract, k.op(in.Tuple), in.Index
	case *ssa.Store:
		i.op, i.a, i.b = iStore, k.op(in.Addr), k.op(in.Val)
		i.t = TI(in.Val.Type())
	case *ssa.Range:
		i.op, i.a = iRange, k.op(in.X)
		i.t = TI(in.X.Type())
	case *ssa.Next:
		i.op, i.a = iNext, k.op(in.Iter)
		i.commaOk = in.IsString
	case *ssa.Panic:
		i.op, i.a = iPanic, k.op(in.X)
	case *ssa.Return:
		i.op = iReturn
		for _, r := range in.Results {
			i.args = append(i.args, k.op(r))
		}
	case *ssa.Jump:
		i.op = iJump
		i.e0 = k.edge(b, 0)
	case *ssa.If:
		i.op, i.a = iIf, k.op(in.Cond)
		i.e0, i.e1 = k.edge(b, 0), k.edge(b, 1)
	default:
		i.op, i.name = iUnsupported, in.String()
	}
	return i, true
}

func (k *compiler) call(i Inst, cc *ssa.CallCommon) Inst {
	for _, a := range cc.Args {
		i.args = append(i.args, k.op(a))
	}
	if cc.IsInvoke() {
		i.op = iCallInvoke
		i.a = k.op(cc.Value)
		i.method = cc.Method
		return i
	}
	switch f := cc.Value.(type) {
	case *ssa.Builtin:
		i.op, i.name = iCallBuiltin, f.Name()
		for _, a := range cc.Args {
			t := TI(a.Type())
			if i.t == nil {
				i.t = t
			} else if i.t2 == nil {
				i.t2 = t
			}
		}
		return i
	case *ssa.Function:
		i.op, i.fn = iCallStatic, f
		return i
	}
	i.op, i.a = iCallDyn, k.op(cc.Value)
	return i
}

// isPure: no side effects visible outside the call, one scalar result, only
// static calls to pure functions.
func isPure(fn *ssa.Function) bool { return pureRec(fn, map[*ssa.Function]bool{}) }

var pureMu sync.Mutex
var pureCache = map[*ssa.Function]bool{}

func pureRec(fn *ssa.Function, busy map[*ssa.Function]bool) bool {
	pureMu.Lock()
	r, ok := pureCache[fn]
	pureMu.Unlock()
	if ok {
		return r
	}
	if busy[fn] || fn.Blocks == nil || lookupIntrinsic(fn) != nil || fn.Recover != nil {
		return false
	}
	busy[fn] = true
	r = pureBody(fn, busy)
	delete(busy, fn)
	pureMu.Lock()
	pureCache[fn] = r
	pureMu.Unlock()
	return r
}

func pureBody(fn *ssa.Function, busy map[*ssa.Function]bool) bool {
	local := func(v ssa.Value) bool {
		for {
			switch x := v.(type) {
			case *ssa.Alloc:
				return true
			case *ssa.FieldAddr:
				v = x.X
			case *ssa.IndexAddr:
				v = x.X
			default:
				return false
			}
		}
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Store:
				if !local(in.Addr) {
					return false
				}
			case *ssa.MapUpdate, *ssa.Go, *ssa.Defer, *ssa.Send, *ssa.Panic, *ssa.Select, *ssa.MakeChan, *ssa.RunDefers:
				return false
			case *ssa.UnOp:
				if in.Op == token.ARROW {
					return false
				}
			case *ssa.Call:
				if in.Call.IsInvoke() {
					return false
				}
				switch f := in.Call.Value.(type) {
				case *ssa.Builtin:
					if f.Name() != "len" && f.Name() != "cap" && f.Name() != "min" && f.Name() != "max" {
						return false
					}
				case *ssa.Function:
					if !pureRec(f, busy) {
						return false
					}
				default:
					return false
				}
			}
		}
	}
	return true
}

// loadedNext reports whether the address is used only by a load that is the
// next instruction, so that only the loaded value matters.
func loadedNext(in *ssa.IndexAddr) bool {
	rs := *in.Referrers()
	if len(rs) != 1 {
		return false
	}
	ld, ok := rs[0].(*ssa.UnOp)
	if !ok || ld.Op != token.MUL {
		return false
	}
	ins := in.Block().Instrs
	for i, x := range ins {
		if x == ssa.Instruction(in) {
			return i+1 < len(ins) && ins[i+1] == ssa.Instruction(ld)
		}
	}
	return false
}
