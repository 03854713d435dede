package main

// The symbolic interpreter: executes one state until its path ends, forking on
// undecided branches.

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"sync/atomic"

	"golang.org/x/tools/go/ssa"
)

const noOperand = operand(math.MinInt32)

func (f *Frame) val(o operand) Val {
	if o >= 0 {
		return f.regs[o]
	}
	return f.code.consts[-o-1]
}

// pathEnd is returned by step functions that terminate the path.
type endKind int

const (
	endNone endKind = iota
	endReturn
	endAssume
	endPanic
	endViolation
	endHang
	endFinding
	endError
	endSync
)

type ctl int

const (
	cNext  ctl = iota // advance pc
	cFrame            // frame stack or pc changed: reload
	cRedo             // re-execute current instruction (state constrained)
	cEnd              // path ended
)

func (s *State) pushFrame(code *Code, args []Val, binds []Val, dst int32) *Frame {
	f := &Frame{owner: s.owner, code: code, retDst: dst}
	f.regs = make([]Val, code.nregs)
	for i, p := range code.params {
		f.regs[p] = args[i]
	}
	for i, p := range code.frees {
		f.regs[p] = binds[i]
	}
	if atomic.LoadUint32(&code.cover) == 0 {
		atomic.StoreUint32(&code.cover, 1)
	}
	s.frames = append(s.frames, f)
	if len(s.frames) > 2000 {
		engineErr("call depth exceeded in %s", code.name)
	}
	return f
}

func (s *State) where() string {
	for i := len(s.frames) - 1; i >= 0; i-- {
		f := s.frames[i]
		if int(f.blk) < len(f.code.blocks) {
			b := f.code.blocks[f.blk]
			pc := int(f.pc)
			if pc >= len(b.ins) {
				pc = len(b.ins) - 1
			}
			for j := pc; j >= 0; j-- {
				if p := b.ins[j].ins.Pos(); p.IsValid() {
					pos := f.code.fn.Prog.Fset.Position(p)
					return fmt.Sprintf("%s:%d (%s)", pos.Filename, pos.Line, f.code.name)
				}
			}
		}
		return f.code.name
	}
	return "?"
}

func (s *State) stack() []string {
	var r []string
	for i := len(s.frames) - 1; i >= 0 && len(r) < 12; i-- {
		f := s.frames[i]
		line := 0
		file := ""
		if int(f.blk) < len(f.code.blocks) {
			b := f.code.blocks[f.blk]
			pc := int(f.pc)
			if pc >= len(b.ins) {
				pc = len(b.ins) - 1
			}
			for j := pc; j >= 0; j-- {
				if p := b.ins[j].ins.Pos(); p.IsValid() {
					pos := f.code.fn.Prog.Fset.Position(p)
					file, line = pos.Filename, pos.Line
					break
				}
			}
		}
		r = append(r, fmt.Sprintf("%s %s:%d", f.code.name, file, line))
	}
	return r
}

func (f *Frame) take(e *edge) {
	if len(e.moves) != 0 {
		if e.direct {
			for _, m := range e.moves {
				f.regs[m.dst] = f.val(m.src)
			}
		} else {
			var buf [16]Val
			tmp := buf[:0]
			for _, m := range e.moves {
				tmp = append(tmp, f.val(m.src))
			}
			for i, m := range e.moves {
				f.regs[m.dst] = tmp[i]
			}
		}
	}
	f.blk = e.blk
	f.pc = 0
}

// run executes s until its path ends.
func (w *Worker) run(s *State) {
	defer func() {
		if r := recover(); r != nil {
			if a, ok := r.(summaryAbort); ok {
				if s.summary != nil {
					s.summary.aborted = a.why
					return
				}
			}
			if _, ok := r.(stopAbort); ok {
				return
			}
			if m, ok := r.(memoRestart); ok {
				w.ex.restart(m.name)
				if s.summary != nil {
					s.summary.aborted = "memo restart"
				}
				return
			}
			if e, ok := r.(EngineError); ok {
				w.endError(s, e.msg)
				return
			}
			if re, ok := r.(error); ok && s.summary == nil {
				w.endError(s, fmt.Sprintf("internal: %v at %s\n%s", re, s.where(), stackTrace()))
				return
			}
			panic(r)
		}
	}()
	w.loop(s)
}

func (w *Worker) loop(s *State) {
	f := s.top()
	for {
		ins := &f.code.blocks[f.blk].ins[f.pc]
		s.steps++
		var c ctl
		switch ins.op {
		case iLoad:
			p := f.val(ins.a)
			if p.Id == 0 {
				c = w.nilDeref(s)
				break
			}
			f.regs[ins.dst] = s.load(p, ins.t)
			f.pc++
			continue
		case iStore:
			p := f.val(ins.a)
			if p.Id == 0 {
				c = w.nilDeref(s)
				break
			}
			s.store(p, ins.t, f.val(ins.b))
			f.pc++
			continue
		case iFieldAddr:
			p := f.val(ins.a)
			if p.Id == 0 {
				c = w.nilDeref(s)
				break
			}
			f.regs[ins.dst] = Val{Id: p.Id, N: p.N + uint64(ins.k)}
			f.pc++
			continue
		case iBin:
			c = w.binop(s, f, ins)
		case iEqNe:
			c = w.eqne(s, f, ins)
		case iJump:
			f.take(&ins.e0)
			if s.steps > s.job.stepLimit {
				w.hang(s)
				return
			}
			if w.ex.stopped() {
				return
			}
			continue
		case iIf:
			v := f.val(ins.a)
			if v.X == nil {
				if v.N != 0 {
					f.take(&ins.e0)
				} else {
					f.take(&ins.e1)
				}
				continue
			}
			c = w.branch(s, f, ins, v.X.(*Expr))
		case iIndexAddrSlice, iIndexAddrArr:
			c = w.indexAddr(s, f, ins)
		case iCallStatic:
			c = w.callStatic(s, f, ins)
		case iReturn:
			c = w.ret(s, f, ins)
		case iNotB:
			v := f.val(ins.a)
			if v.X == nil {
				f.regs[ins.dst] = Val{N: v.N ^ 1}
			} else {
				f.regs[ins.dst] = valOf(mkNot(v.X.(*Expr)))
			}
			f.pc++
			continue
		case iConvert:
			c = w.convert(s, f, ins)
		case iCopy:
			f.regs[ins.dst] = f.val(ins.a)
			f.pc++
			continue
		case iExtract:
			f.regs[ins.dst] = f.val(ins.a).X.([]Val)[ins.k]
			f.pc++
			continue
		case iAppendVals:
			var buf [4]Val
			tmp := buf[:0]
			for _, a := range ins.args {
				tmp = append(tmp, f.val(a))
			}
			f.regs[ins.dst] = w.appendTmp(s, ins.t.elem, f.val(ins.a), tmp, len(tmp))
			f.pc++
			continue
		case iAlloc:
			f.regs[ins.dst] = Val{Id: s.alloc(ins.t.slots, ins.t.scalar)}
			f.pc++
			continue
		default:
			c = w.slow(s, f, ins)
		}
		switch c {
		case cNext:
			f.pc++
		case cFrame:
			f = s.top()
		case cRedo:
			f = s.top()
		case cEnd:
			return
		}
	}
}

func (w *Worker) nilDeref(s *State) ctl {
	return w.runtimePanic(s, "invalid memory address or nil pointer dereference")
}

func (w *Worker) runtimePanic(s *State, msg string) ctl {
	return w.raise(s, &PanicInfo{msg: "runtime error: " + msg, val: Val{X: &Iface{t: TI(types.Typ[types.String]), v: strVal("runtime error: " + msg)}}, where: s.where()})
}

func (w *Worker) raise(s *State, p *PanicInfo) ctl {
	if s.summary != nil {
		s.summary.abort("panic")
	}
	s.panicked = p
	return w.unwind(s)
}

func (w *Worker) unwind(s *State) ctl {
	for {
		f := s.top()
		if s.panicked != nil && s.panicked.recovered {
			s.panicked = nil
			f.unwinding = false
			f.recovering = true
		}
		if len(f.defers) > 0 {
			d := f.defers[len(f.defers)-1]
			f.defers = f.defers[:len(f.defers)-1]
			if !f.recovering {
				f.unwinding = true
			}
			return w.callDeferred(s, f, d)
		}
		if f.recovering {
			f.recovering = false
			if f.code.recover >= 0 {
				f.blk, f.pc = f.code.recover, 0
				return cFrame
			}
			return w.doReturn(s, f, make([]Val, len(f.code.results)))
		}
		if s.syncBase > 0 && len(s.frames) <= s.syncBase {
			engineErr("panic inside intrinsic call: %s", s.panicked.msg)
		}
		s.frames = s.frames[:len(s.frames)-1]
		if len(s.frames) == 0 {
			w.uncaught(s)
			return cEnd
		}
	}
}

func (w *Worker) callDeferred(s *State, f *Frame, d deferred) ctl {
	if d.bi != "" {
		// deferred builtin: only a few make sense
		switch d.bi {
		case "recover":
			return w.unwindOrNext(s, f)
		}
		engineErr("deferred builtin %s", d.bi)
	}
	cl, _ := d.fn.X.(*Closure)
	if cl == nil {
		return w.nilDeref(s)
	}
	code := codeFor(cl.fn)
	if code.intr != nil {
		r, c := code.intr(w, s, f, &Inst{dst: -1, name: code.name}, d.args)
		_ = r
		if c != cNext {
			return c
		}
		return w.unwindOrNext(s, f)
	}
	if cl.fn.Blocks == nil {
		engineErr("deferred external %s", cl.fn)
	}
	nf := s.pushFrame(code, d.args, cl.binds, -1)
	nf.isDefer = true
	nf.discard = true
	return cFrame
}

func (w *Worker) unwindOrNext(s *State, f *Frame) ctl {
	if f.unwinding || f.recovering {
		return w.unwind(s)
	}
	return cFrame // re-executes RunDefers
}

func (w *Worker) ret(s *State, f *Frame, ins *Inst) ctl {
	n := len(ins.args)
	if n == 1 {
		v := f.val(ins.args[0])
		return w.doReturn1(s, f, v)
	}
	if n == 0 {
		return w.doReturn1(s, f, Val{})
	}
	r := make([]Val, n)
	for i, a := range ins.args {
		r[i] = f.val(a)
	}
	return w.doReturn1(s, f, Val{X: r})
}

func (w *Worker) doReturn(s *State, f *Frame, r []Val) ctl {
	switch len(r) {
	case 0:
		return w.doReturn1(s, f, Val{})
	case 1:
		return w.doReturn1(s, f, r[0])
	}
	return w.doReturn1(s, f, Val{X: r})
}

func (w *Worker) doReturn1(s *State, f *Frame, v Val) ctl {
	s.frames = s.frames[:len(s.frames)-1]
	if f.syncRet {
		s.result = v
		return cEnd
	}
	if len(s.frames) == 0 {
		s.result = v
		w.finished(s)
		return cEnd
	}
	c := s.top()
	if f.discard {
		if c.unwinding || c.recovering {
			return w.unwind(s)
		}
		return cFrame
	}
	if f.retDst >= 0 {
		c.regs[f.retDst] = v
	}
	c.pc++
	return cFrame
}

func (w *Worker) callStatic(s *State, f *Frame, ins *Inst) ctl {
	code := ins.code
	if code == nil {
		code = codeFor(ins.fn)
		ins.code = code
	}
	if code.intr == nil {
		if code.isPureCode() {
			if done, c := w.trySummary(s, f, ins, code); done {
				return c
			}
		}
		if len(ins.args) == 0 {
			if done := w.tryMemo(s, f, ins, code); done {
				return cNext
			}
		}
	}
	var buf [12]Val
	args := buf[:0]
	for _, a := range ins.args {
		args = append(args, f.val(a))
	}
	return w.call(s, f, ins, code, args, nil)
}

func (w *Worker) call(s *State, f *Frame, ins *Inst, code *Code, args []Val, binds []Val) ctl {
	if code.intr != nil {
		r, c := code.intr(w, s, f, ins, args)
		if c == cNext && ins.dst >= 0 {
			// the intrinsic may have changed the frame's ownership
			s.top().regs[ins.dst] = r
		}
		if c == cNext {
			s.top().pc++
			return cFrame
		}
		return c
	}
	if code.fn.Blocks == nil {
		engineErr("call of external function %s at %s", code.name, s.where())
	}
	s.pushFrame(code, args, binds, ins.dst)
	return cFrame
}

func (w *Worker) callClosure(s *State, f *Frame, ins *Inst, fv Val, args []Val) ctl {
	cl, _ := fv.X.(*Closure)
	if cl == nil {
		return w.nilDeref(s)
	}
	if cl.fn == nil {
		engineErr("builtin as value: %s", cl.name)
	}
	return w.call(s, f, ins, codeFor(cl.fn), args, cl.binds)
}

// callSync runs a function to completion inside an intrinsic; it must not fork.
func (w *Worker) callSync(s *State, fn *ssa.Function, args []Val) Val {
	code := codeFor(fn)
	if code.intr != nil {
		r, c := code.intr(w, s, s.top(), &Inst{dst: -1, name: code.name}, args)
		if c != cNext {
			engineErr("callSync intrinsic control")
		}
		return r
	}
	if fn.Blocks == nil {
		engineErr("callSync external %s", fn)
	}
	old := s.syncBase
	nf := s.pushFrame(code, args, nil, -1)
	nf.syncRet = true
	s.syncBase = len(s.frames)
	w.loop(s)
	s.syncBase = old
	return s.result
}

func (w *Worker) binop(s *State, f *Frame, ins *Inst) ctl {
	x, y := f.val(ins.a), f.val(ins.b)
	t := ins.t
	if t.kind == KInt {
		if x.X == nil && y.X == nil {
			var r uint64
			a, b := x.N, y.N
			wd := ins.w
			switch ins.tok {
			case token.ADD:
				r = (a + b) & mask(wd)
			case token.SUB:
				r = (a - b) & mask(wd)
			case token.MUL:
				r = (a * b) & mask(wd)
			case token.QUO, token.REM:
				if b == 0 {
					return w.runtimePanic(s, "integer divide by zero")
				}
				op := OpUDiv
				switch {
				case ins.tok == token.QUO && ins.signed:
					op = OpSDiv
				case ins.tok == token.REM && ins.signed:
					op = OpSRem
				case ins.tok == token.REM:
					op = OpURem
				}
				r = evalOp(op, wd, wd, a, b)
			case token.AND:
				r = a & b
			case token.OR:
				r = a | b
			case token.XOR:
				r = a ^ b
			case token.AND_NOT:
				r = a &^ b
			case token.SHL, token.SHR:
				if ins.t2.signed && sext(b, ins.w2) < 0 {
					return w.runtimePanic(s, "negative shift amount")
				}
				if ins.tok == token.SHL {
					r = evalOp(OpShl, wd, wd, a, b)
				} else if ins.signed {
					r = evalOp(OpAShr, wd, wd, a, b)
				} else {
					r = evalOp(OpLShr, wd, wd, a, b)
				}
			case token.LSS:
				if ins.signed {
					r = b2u(sext(a, wd) < sext(b, wd))
				} else {
					r = b2u(a < b)
				}
			case token.LEQ:
				if ins.signed {
					r = b2u(sext(a, wd) <= sext(b, wd))
				} else {
					r = b2u(a <= b)
				}
			case token.GTR:
				if ins.signed {
					r = b2u(sext(a, wd) > sext(b, wd))
				} else {
					r = b2u(a > b)
				}
			case token.GEQ:
				if ins.signed {
					r = b2u(sext(a, wd) >= sext(b, wd))
				} else {
					r = b2u(a >= b)
				}
			}
			f.regs[ins.dst] = Val{N: r}
			return cNext
		}
		return w.binopSym(s, f, ins, x, y)
	}
	switch t.kind {
	case KString:
		switch ins.tok {
		case token.ADD:
			if x.Ln == 0 && !isOpaque(x) {
				f.regs[ins.dst] = y
				return cNext
			}
			if y.Ln == 0 && !isOpaque(y) {
				f.regs[ins.dst] = x
				return cNext
			}
			if isOpaque(x) || isOpaque(y) {
				f.regs[ins.dst] = opaqueStr()
				return cNext
			}
			bs := make([]Val, 0, x.Ln+y.Ln)
			for i := 0; i < int(x.Ln); i++ {
				bs = append(bs, strByte(x, i))
			}
			for i := 0; i < int(y.Ln); i++ {
				bs = append(bs, strByte(y, i))
			}
			f.regs[ins.dst] = mkStr(bs)
			return cNext
		default:
			a, ok1 := goString(x)
			b, ok2 := goString(y)
			if !ok1 || !ok2 {
				engineErr("ordering of symbolic strings at %s", s.where())
			}
			var r bool
			switch ins.tok {
			case token.LSS:
				r = a < b
			case token.LEQ:
				r = a <= b
			case token.GTR:
				r = a > b
			case token.GEQ:
				r = a >= b
			}
			f.regs[ins.dst] = boolVal(r)
			return cNext
		}
	case KFloat:
		if x.X != nil || y.X != nil {
			engineErr("symbolic float at %s", s.where())
		}
		a, b := f64(x), f64(y)
		var r float64
		switch ins.tok {
		case token.ADD:
			r = a + b
		case token.SUB:
			r = a - b
		case token.MUL:
			r = a * b
		case token.QUO:
			r = a / b
		case token.LSS:
			f.regs[ins.dst] = boolVal(a < b)
			return cNext
		case token.LEQ:
			f.regs[ins.dst] = boolVal(a <= b)
			return cNext
		case token.GTR:
			f.regs[ins.dst] = boolVal(a > b)
			return cNext
		case token.GEQ:
			f.regs[ins.dst] = boolVal(a >= b)
			return cNext
		}
		if t.w == 32 {
			r = float64(float32(r))
		}
		f.regs[ins.dst] = fval(r)
		return cNext
	case KBool:
		a, b := exprOf(x, 0), exprOf(y, 0)
		switch ins.tok {
		case token.AND, token.LAND:
			f.regs[ins.dst] = valOf(mkBin(OpBAnd, a, b))
		case token.OR, token.LOR:
			f.regs[ins.dst] = valOf(mkBin(OpBOr, a, b))
		default:
			engineErr("bool op %s", ins.tok)
		}
		return cNext
	}
	engineErr("binop on %s at %s", t.t, s.where())
	return cEnd
}

func (w *Worker) binopSym(s *State, f *Frame, ins *Inst, x, y Val) ctl {
	wd := ins.w
	a, b := exprOf(x, wd), exprOf(y, ins.w2)
	var r *Expr
	switch ins.tok {
	case token.ADD:
		r = mkBin(OpAdd, a, b)
	case token.SUB:
		r = mkBin(OpSub, a, b)
	case token.MUL:
		r = mkBin(OpMul, a, b)
	case token.QUO, token.REM:
		z := mkBin(OpEq, b, mkConst(0, wd))
		t, fa := w.check(s, z)
		if t {
			if fa {
				c := w.fork(s)
				w.assume(c, z)
				w.pushPanic(c, "integer divide by zero")
				w.assume(s, mkNot(z))
				return cRedo
			}
			return w.runtimePanic(s, "integer divide by zero")
		}
		switch {
		case ins.tok == token.QUO && ins.signed:
			r = mkBin(OpSDiv, a, b)
		case ins.tok == token.QUO:
			r = mkBin(OpUDiv, a, b)
		case ins.signed:
			r = mkBin(OpSRem, a, b)
		default:
			r = mkBin(OpURem, a, b)
		}
	case token.AND:
		r = mkBin(OpAnd, a, b)
	case token.OR:
		r = mkBin(OpOr, a, b)
	case token.XOR:
		r = mkBin(OpXor, a, b)
	case token.AND_NOT:
		if b.isConst() {
			r = mkBin(OpAnd, a, mkConst(^b.k, wd))
		} else {
			r = mkBin(OpAnd, a, mkBvNot(b))
		}
	case token.SHL, token.SHR:
		if ins.t2.signed {
			neg := mkBin(OpSlt, b, mkConst(0, ins.w2))
			t, fa := w.check(s, neg)
			if t {
				if fa {
					c := w.fork(s)
					w.assume(c, neg)
					w.pushPanic(c, "negative shift amount")
					w.assume(s, mkNot(neg))
					return cRedo
				}
				return w.runtimePanic(s, "negative shift amount")
			}
		}
		// shift amount to the width of the operand, saturating
		if b.w < wd {
			b = mkZExt(b, wd)
		} else if b.w > wd {
			big := mkBin(OpUle, mkConst(uint64(wd), b.w), b)
			b = mkIte(big, mkConst(uint64(wd), wd), mkTrunc(b, wd))
		}
		switch {
		case ins.tok == token.SHL:
			r = mkBin(OpShl, a, b)
		case ins.signed:
			r = mkBin(OpAShr, a, b)
		default:
			r = mkBin(OpLShr, a, b)
		}
	case token.LSS, token.GTR, token.LEQ, token.GEQ:
		if ins.tok == token.GTR || ins.tok == token.GEQ {
			a, b = b, a
		}
		op := OpUlt
		strict := ins.tok == token.LSS || ins.tok == token.GTR
		switch {
		case strict && ins.signed:
			op = OpSlt
		case !strict && ins.signed:
			op = OpSle
		case !strict:
			op = OpUle
		}
		r = mkBin(op, a, b)
	default:
		engineErr("binopSym %s", ins.tok)
	}
	f.regs[ins.dst] = valOf(r)
	return cNext
}

func (w *Worker) eqne(s *State, f *Frame, ins *Inst) ctl {
	x, y := f.val(ins.a), f.val(ins.b)
	var e *Expr
	switch ins.t.kind {
	case KInt:
		if x.X == nil && y.X == nil {
			f.regs[ins.dst] = Val{N: b2u((x.N == y.N) == (ins.tok == token.EQL))}
			return cNext
		}
		if s.summary != nil && s.summary.formal != nil {
			if c, ok := w.scanEq(s, f, ins, x, y); ok {
				return c
			}
		}
		{
			e = mkBin(OpEq, exprOf(x, ins.w), exprOf(y, ins.w))
		}
	case KBool:
		e = mkBin(OpEq, exprOf(x, 0), exprOf(y, 0))
	default:
		var c ctl
		var b bool
		b, c = w.eqVals(s, ins.t, ins.t2, x, y)
		if c != cNext {
			return c
		}
		e = mkBool(b)
	}
	if ins.tok == token.NEQ {
		e = mkNot(e)
	}
	f.regs[ins.dst] = valOf(e)
	return cNext
}

// decide forks on cond if it is undecided in s. It returns the truth value
// and cNext, or cRedo when the state was constrained (re-execute).
func (w *Worker) decide(s *State, cond *Expr) (bool, ctl) {
	if cond.isConst() {
		return cond.k != 0, cNext
	}
	t, fa := w.check(s, cond)
	if t && fa {
		c := w.fork(s)
		w.assume(c, mkNot(cond))
		w.push(c)
		w.assume(s, cond)
		return false, cRedo
	}
	if !t && !fa {
		engineErr("infeasible state at %s", s.where())
	}
	return t, cNext
}

func (w *Worker) eqVals(s *State, t, t2 *TInfo, x, y Val) (bool, ctl) {
	switch t.kind {
	case KInt:
		if x.X == nil && y.X == nil {
			return x.N == y.N, cNext
		}
		return w.decide(s, mkBin(OpEq, exprOf(x, t.w), exprOf(y, t.w)))
	case KBool:
		if x.X == nil && y.X == nil {
			return x.N == y.N, cNext
		}
		return w.decide(s, mkBin(OpEq, exprOf(x, 0), exprOf(y, 0)))
	case KFloat:
		return f64(x) == f64(y), cNext
	case KString:
		if isOpaque(x) || isOpaque(y) {
			if x.X == y.X {
				return true, cNext
			}
			engineErr("comparison of opaque string at %s", s.where())
		}
		if x.Ln != y.Ln {
			return false, cNext
		}
		for i := 0; i < int(x.Ln); i++ {
			a, b := strByte(x, i), strByte(y, i)
			if a.X == nil && b.X == nil {
				if a.N != b.N {
					return false, cNext
				}
				continue
			}
			r, c := w.decide(s, mkBin(OpEq, exprOf(a, 8), exprOf(b, 8)))
			if c != cNext {
				return false, c
			}
			if !r {
				return false, cNext
			}
		}
		return true, cNext
	case KPtr, KUnsafePtr:
		return x.Id == y.Id && (x.Id == 0 || x.N == y.N), cNext
	case KMap, KChan:
		return x.Id == y.Id, cNext
	case KSlice:
		return x.Id == 0 && y.Id == 0, cNext // only comparison with nil is legal
	case KFunc:
		return x.X == nil && y.X == nil, cNext
	case KIface:
		if t2 != nil && t2.kind != KIface {
			engineErr("mixed interface comparison")
		}
		a, _ := x.X.(*Iface)
		b, _ := y.X.(*Iface)
		if a == nil || b == nil {
			return a == b, cNext
		}
		if a.t != b.t {
			return false, cNext
		}
		switch a.t.kind {
		case KSlice, KMap, KFunc:
			return false, w.runtimePanic(s, "comparing uncomparable type "+a.t.t.String())
		}
		return w.eqVals(s, a.t, a.t, a.v, b.v)
	case KStruct:
		xs, ys := aggSlots(x, t.slots), aggSlots(y, t.slots)
		for i, ft := range t.fields {
			r, c := w.eqVals(s, ft, ft, sub(xs, t.offs[i], ft), sub(ys, t.offs[i], ft))
			if c != cNext || !r {
				return r, c
			}
		}
		return true, cNext
	case KArray:
		xs, ys := aggSlots(x, t.slots), aggSlots(y, t.slots)
		for i := 0; i < int(t.n); i++ {
			r, c := w.eqVals(s, t.elem, t.elem, sub(xs, i*t.elem.slots, t.elem), sub(ys, i*t.elem.slots, t.elem))
			if c != cNext || !r {
				return r, c
			}
		}
		return true, cNext
	}
	engineErr("eq on %s", t.t)
	return false, cEnd
}

func sub(xs []Val, off int, t *TInfo) Val {
	if t.agg() {
		return Val{X: xs[off : off+t.slots : off+t.slots]}
	}
	return xs[off]
}

// bounds decides 0 <= idx < n. cNext: in bounds and idx concrete value returned.
func (w *Worker) index(s *State, f *Frame, o operand, wd uint8, signed bool, n int64, look func(uint64) Val) (int64, ctl) {
	v := f.val(o)
	if v.X == nil {
		i := int64(v.N)
		if signed {
			i = sext(v.N, wd)
		}
		if i < 0 || i >= n {
			return 0, w.runtimePanic(s, fmt.Sprintf("index out of range [%d] with length %d", i, n))
		}
		return i, cNext
	}
	e := v.X.(*Expr)
	var in *Expr
	if signed && n > 0 && uint64(n) > mask(wd)>>1 {
		n = int64(mask(wd)>>1) + 1
	}
	if n > 0 && uint64(n) > mask(wd) {
		in = eTrue
	} else if n <= 0 {
		in = eFalse
	} else {
		in = mkBin(OpUlt, e, mkConst(uint64(n), wd))
	}
	t, fa := w.check(s, in)
	if fa {
		if t {
			c := w.fork(s)
			w.assume(c, mkNot(in))
			w.pushPanic(c, "index out of range")
			w.assume(s, in)
			return 0, cRedo
		}
		return 0, w.runtimePanic(s, "index out of range")
	}
	if look != nil {
		return w.byElement(s, o, e, look)
	}
	return 0, w.concretize(s, o, e)
}

// byElement forks s over the distinct elements that index e can select and
// returns an index of the element; e itself stays symbolic.
func (w *Worker) byElement(s *State, o operand, e *Expr, look func(uint64) Val) (int64, ctl) {
	vals := w.enumerate(s, e, 5000)
	if len(vals) == 0 {
		engineErr("no feasible value at %s", s.where())
	}
	groups := map[Val][]IV{}
	var keys []Val
	for _, v := range vals {
		k := look(v)
		if _, ok := groups[k]; !ok {
			keys = append(keys, k)
		}
		groups[k] = append(groups[k], IV{v, v})
	}
	if len(keys) == 1 {
		return int64(vals[0]), cNext
	}
	for i, k := range keys {
		c := s
		if i < len(keys)-1 {
			c = w.fork(s)
		}
		ivs := groups[k]
		if len(ivs) == 1 {
			w.assume(c, mkBin(OpEq, e, mkConst(ivs[0].Lo, e.w)))
			c.top().regs[o] = Val{N: ivs[0].Lo}
		} else {
			w.assume(c, mkInSet(e, ivNorm(ivs)))
		}
		if c != s {
			w.push(c)
		}
	}
	return 0, cRedo
}

// concretize forks s over all feasible values of the register operand o.
func (w *Worker) concretize(s *State, o operand, e *Expr) ctl {
	if o < 0 {
		engineErr("symbolic constant operand")
	}
	vals := w.enumerate(s, e, 5000)
	if len(vals) == 0 {
		engineErr("no feasible value at %s", s.where())
	}
	for i, v := range vals {
		if i == len(vals)-1 {
			w.assume(s, mkBin(OpEq, e, mkConst(v, e.w)))
			s.top().regs[o] = Val{N: v}
			break
		}
		c := w.fork(s)
		w.assume(c, mkBin(OpEq, e, mkConst(v, e.w)))
		c.top().regs[o] = Val{N: v}
		w.push(c)
	}
	return cRedo
}

func (w *Worker) looker(s *State, x Val, ins *Inst) func(uint64) Val {
	if !ins.commaOk {
		return nil
	}
	return func(i uint64) Val {
		return s.load(Val{Id: x.Id, N: x.N + i}, ins.t)
	}
}

func (w *Worker) indexAddr(s *State, f *Frame, ins *Inst) ctl {
	x := f.val(ins.a)
	if ins.op == iIndexAddrSlice {
		iv := f.val(ins.b)
		if iv.X == nil && !ins.signed || (iv.X == nil && ins.w == 64) {
			if iv.N >= uint64(x.Ln) {
				return w.runtimePanic(s, fmt.Sprintf("index out of range [%d] with length %d", int64(iv.N), x.Ln))
			}
			f.regs[ins.dst] = Val{Id: x.Id, N: x.N + iv.N*uint64(ins.t.slots)}
			return cNext
		}
		i, c := w.index(s, f, ins.b, ins.w, ins.signed, int64(x.Ln), w.looker(s, x, ins))
		if c != cNext {
			return c
		}
		f.regs[ins.dst] = Val{Id: x.Id, N: x.N + uint64(i)*uint64(ins.t.slots)}
		return cNext
	}
	if x.Id == 0 {
		return w.nilDeref(s)
	}
	i, c := w.index(s, f, ins.b, ins.w, ins.signed, ins.n, w.looker(s, x, ins))
	if c != cNext {
		return c
	}
	f.regs[ins.dst] = Val{Id: x.Id, N: x.N + uint64(i)*uint64(ins.t.slots)}
	return cNext
}

func (w *Worker) branch(s *State, f *Frame, ins *Inst, cond *Expr) ctl {
	t, fa := w.check(s, cond)
	switch {
	case t && fa:
		// try to merge a short-circuit chain or a diamond before forking
		if w.mergeRegion(s, f, ins, cond) {
			return cFrame
		}
		c := w.fork(s)
		w.assume(c, mkNot(cond))
		c.top().take(&ins.e1)
		w.push(c)
		w.assume(s, cond)
		s.top().take(&ins.e0)
		if s.steps > s.job.stepLimit {
			w.hang(s)
			return cEnd
		}
		return cFrame
	case t:
		f.take(&ins.e0)
	case fa:
		f.take(&ins.e1)
	default:
		engineErr("infeasible state at %s", s.where())
	}
	return cFrame
}

func (w *Worker) slow(s *State, f *Frame, ins *Inst) ctl {
	switch ins.op {
	case iNeg:
		v := f.val(ins.a)
		if ins.t.kind == KFloat {
			f.regs[ins.dst] = fval(-f64(v))
		} else {
			f.regs[ins.dst] = valOf(mkBin(OpSub, mkConst(0, ins.w), exprOf(v, ins.w)))
		}
		return cNext
	case iCompl:
		f.regs[ins.dst] = valOf(mkBvNot(exprOf(f.val(ins.a), ins.w)))
		return cNext
	case iField:
		xs := f.val(ins.a)
		if xs.X == nil {
			f.regs[ins.dst] = Val{}
			return cNext
		}
		f.regs[ins.dst] = sub(xs.X.([]Val), ins.k, ins.t)
		return cNext
	case iIndexArr:
		i, c := w.index(s, f, ins.b, ins.w, ins.signed, ins.n, nil)
		if c != cNext {
			return c
		}
		xs := f.val(ins.a)
		if xs.X == nil {
			f.regs[ins.dst] = Val{}
		} else {
			f.regs[ins.dst] = sub(xs.X.([]Val), int(i)*ins.t.slots, ins.t)
		}
		return cNext
	case iIndexStr:
		x := f.val(ins.a)
		if isOpaque(x) {
			engineErr("index of opaque string at %s", s.where())
		}
		i, c := w.index(s, f, ins.b, ins.w, ins.signed, int64(x.Ln), nil)
		if c != cNext {
			return c
		}
		f.regs[ins.dst] = strByte(x, int(i))
		return cNext
	case iLookupMap:
		return w.lookupMap(s, f, ins)
	case iMapUpdate:
		return w.mapUpdate(s, f, ins)
	case iCallDyn:
		var buf [12]Val
		args := buf[:0]
		for _, a := range ins.args {
			args = append(args, f.val(a))
		}
		return w.callClosure(s, f, ins, f.val(ins.a), args)
	case iCallInvoke:
		rv, _ := f.val(ins.a).X.(*Iface)
		if rv == nil {
			return w.nilDeref(s)
		}
		fn := w.ex.lookupMethod(rv.t, ins.method)
		var buf [12]Val
		args := append(buf[:0], rv.v)
		for _, a := range ins.args {
			args = append(args, f.val(a))
		}
		return w.call(s, f, ins, codeFor(fn), args, nil)
	case iCallBuiltin:
		args := make([]Val, 0, 4)
		for _, a := range ins.args {
			args = append(args, f.val(a))
		}
		return w.builtin(s, f, ins, args)
	case iDefer:
		args := make([]Val, 0, len(ins.args)+1)
		d := deferred{}
		switch iop(ins.tok) {
		case iCallStatic:
			d.fn = Val{X: &Closure{fn: ins.fn}}
		case iCallDyn:
			d.fn = f.val(ins.a)
		case iCallInvoke:
			rv, _ := f.val(ins.a).X.(*Iface)
			if rv == nil {
				return w.nilDeref(s)
			}
			d.fn = Val{X: &Closure{fn: w.ex.lookupMethod(rv.t, ins.method)}}
			args = append(args, rv.v)
		case iCallBuiltin:
			d.bi = ins.name
		}
		for _, a := range ins.args {
			args = append(args, f.val(a))
		}
		d.args = args
		f.defers = append(f.defers, d)
		return cNext
	case iRunDefers:
		if len(f.defers) == 0 {
			return cNext
		}
		d := f.defers[len(f.defers)-1]
		f.defers = f.defers[:len(f.defers)-1]
		return w.callDeferred(s, f, d)
	case iPanic:
		v := f.val(ins.a)
		msg := "panic"
		if ifc, ok := v.X.(*Iface); ok {
			msg = "panic: " + ifc.t.t.String()
			if ifc.t.kind == KString {
				if g, ok := goString(ifc.v); ok {
					msg = "panic: " + g
				}
			}
		}
		return w.raise(s, &PanicInfo{msg: msg, val: v, where: s.where()})
	case iMakeIface:
		f.regs[ins.dst] = Val{X: &Iface{t: ins.t, v: f.val(ins.a)}}
		return cNext
	case iTypeAssert:
		return w.typeAssert(s, f, ins)
	case iMakeSlice:
		ln, cp := f.val(ins.a), f.val(ins.b)
		if ln.X != nil {
			return w.concretizeBounded(s, ins.a, ln.X.(*Expr))
		}
		if cp.X != nil {
			return w.concretizeBounded(s, ins.b, cp.X.(*Expr))
		}
		l, c := sext(ln.N, ins.w), sext(cp.N, ins.w2)
		if l < 0 || l > 1<<40 {
			return w.runtimePanic(s, "makeslice: len out of range")
		}
		if c < l || c > 1<<40 {
			return w.runtimePanic(s, "makeslice: cap out of range")
		}
		if c > 1<<30 {
			engineErr("huge allocation (%d elements) at %s", c, s.where())
		}
		id := s.alloc(int(c)*ins.t.slots, ins.t.scalar)
		f.regs[ins.dst] = Val{Id: id, Ln: int32(l), Cp: int32(c)}
		return cNext
	case iMakeMap:
		id := s.addObj(&Object{owner: s.owner, mp: &MapObj{idx: map[string]int{}}})
		f.regs[ins.dst] = Val{Id: id}
		return cNext
	case iMakeClosure:
		cl := &Closure{fn: ins.fn}
		for _, a := range ins.args {
			cl.binds = append(cl.binds, f.val(a))
		}
		f.regs[ins.dst] = Val{X: cl}
		return cNext
	case iSlice:
		return w.slice(s, f, ins)
	case iSliceToArrPtr:
		x := f.val(ins.a)
		if int64(x.Ln) < ins.n {
			return w.runtimePanic(s, "cannot convert slice to array pointer: length too short")
		}
		f.regs[ins.dst] = Val{Id: x.Id, N: x.N}
		return cNext
	case iRange:
		// iterator: aggregate {container, position}
		id := s.alloc(3, false)
		o := s.wobj(id)
		o.set(0, f.val(ins.a))
		f.regs[ins.dst] = Val{Id: id}
		return cNext
	case iNext:
		return w.next(s, f, ins)
	}
	engineErr("unsupported instruction %s at %s", ins.name, s.where())
	return cEnd
}

func (w *Worker) concretizeBounded(s *State, o operand, e *Expr) ctl {
	return w.concretize(s, o, e)
}

func (w *Worker) typeAssert(s *State, f *Frame, ins *Inst) ctl {
	v, _ := f.val(ins.a).X.(*Iface)
	ok := false
	var r Val
	if v != nil {
		if ins.t.kind == KIface {
			ok = w.ex.implements(v.t, ins.t)
			if ok {
				r = f.val(ins.a)
			}
		} else if v.t == ins.t {
			ok = true
			r = v.v
		}
	}
	if ins.commaOk {
		f.regs[ins.dst] = Val{X: []Val{r, boolVal(ok)}}
		return cNext
	}
	if !ok {
		return w.runtimePanic(s, "interface conversion: wrong dynamic type for "+ins.t.t.String())
	}
	f.regs[ins.dst] = r
	return cNext
}

func (w *Worker) slice(s *State, f *Frame, ins *Inst) ctl {
	x := f.val(ins.a)
	var ln, cp int64
	es := 1
	isStr := false
	switch ins.t.kind {
	case KString:
		if isOpaque(x) {
			engineErr("slice of opaque string at %s", s.where())
		}
		ln, cp, isStr = int64(x.Ln), int64(x.Ln), true
	case KSlice:
		ln, cp = int64(x.Ln), int64(x.Cp)
		es = ins.t2.slots
	case KPtr:
		if x.Id == 0 {
			return w.nilDeref(s)
		}
		ln, cp = ins.n, ins.n
		es = ins.t2.slots
	}
	lo, hi, mx := int64(0), ln, cp
	get := func(o operand, def int64) (int64, *Expr) {
		if o == noOperand {
			return def, nil
		}
		v := f.val(o)
		if v.X != nil {
			return 0, v.X.(*Expr)
		}
		return sext(v.N, ins.w), nil
	}
	// concretise symbolic bounds, keeping out-of-range values as one path each
	for j := 2; j >= 0; j-- {
		if _, e := get(ins.args[j], 0); e != nil {
			in := mkBin(OpUle, e, mkConst(uint64(cp), e.w))
			t, fa := w.check(s, in)
			if fa {
				if t {
					c := w.fork(s)
					w.assume(c, mkNot(in))
					w.pushPanic(c, "slice bounds out of range")
					w.assume(s, in)
					return cRedo
				}
				return w.runtimePanic(s, "slice bounds out of range")
			}
			return w.concretize(s, ins.args[j], e)
		}
	}
	mx, _ = get(ins.args[2], cp)
	hi, _ = get(ins.args[1], ln)
	lo, _ = get(ins.args[0], 0)
	if mx < 0 || mx > cp || hi < 0 || hi > mx || lo < 0 || lo > hi {
		return w.runtimePanic(s, fmt.Sprintf("slice bounds out of range [%d:%d:%d] with capacity %d", lo, hi, mx, cp))
	}
	if isStr {
		if hi == lo {
			f.regs[ins.dst] = Val{}
		} else {
			f.regs[ins.dst] = Val{X: x.X, N: x.N + uint64(lo), Ln: int32(hi - lo)}
		}
		return cNext
	}
	r := Val{Id: x.Id, N: x.N + uint64(int(lo)*es), Ln: int32(hi - lo), Cp: int32(mx - lo)}
	f.regs[ins.dst] = r
	return cNext
}

func (w *Worker) next(s *State, f *Frame, ins *Inst) ctl {
	it := f.val(ins.a)
	o := s.wobj(it.Id)
	cont, pos := o.get(0), int(o.get(1).N)
	if ins.commaOk { // string
		if isOpaque(cont) {
			engineErr("range over opaque string at %s", s.where())
		}
		if pos >= int(cont.Ln) {
			f.regs[ins.dst] = Val{X: []Val{{}, {}, {}}}
			return cNext
		}
		b := strByte(cont, pos)
		if b.X != nil {
			t, c := w.decide(s, mkBin(OpUlt, b.X.(*Expr), mkConst(0x80, 8)))
			if c != cNext {
				return c
			}
			if !t {
				engineErr("range over symbolic non-ASCII string at %s", s.where())
			}
			o = s.wobj(it.Id)
			o.set(1, Val{N: uint64(pos + 1)})
			f.regs[ins.dst] = Val{X: []Val{boolVal(true), intVal(int64(pos)), valOf(mkZExt(b.X.(*Expr), 32))}}
			return cNext
		}
		if b.N < 0x80 {
			o.set(1, Val{N: uint64(pos + 1)})
			f.regs[ins.dst] = Val{X: []Val{boolVal(true), intVal(int64(pos)), b}}
			return cNext
		}
		// multi-byte: decode concrete bytes
		var bs []byte
		for i := pos; i < int(cont.Ln) && i < pos+4; i++ {
			v := strByte(cont, i)
			if v.X != nil {
				break
			}
			bs = append(bs, byte(v.N))
		}
		r, n := decodeRune(bs)
		o.set(1, Val{N: uint64(pos + n)})
		f.regs[ins.dst] = Val{X: []Val{boolVal(true), intVal(int64(pos)), Val{N: uint64(uint32(r))}}}
		return cNext
	}
	if cont.Id == 0 {
		f.regs[ins.dst] = Val{X: []Val{{}, {}, {}}}
		return cNext
	}
	m := s.obj(cont.Id).mp
	for pos < len(m.entries) && m.entries[pos].dead {
		pos++
	}
	if pos >= len(m.entries) {
		f.regs[ins.dst] = Val{X: []Val{{}, {}, {}}}
		return cNext
	}
	o.set(1, Val{N: uint64(pos + 1)})
	f.regs[ins.dst] = Val{X: []Val{boolVal(true), m.entries[pos].k, m.entries[pos].v}}
	return cNext
}

// mapKey builds a lookup key; symbolic parts are decided by forking.
func (w *Worker) mapKey(s *State, t *TInfo, v Val, o operand) (string, ctl) {
	switch t.kind {
	case KInt, KBool:
		if v.X != nil {
			e := v.X.(*Expr)
			if e.w == 0 {
				b, c := w.decide(s, e)
				return fmt.Sprint(b2u(b)), c
			}
			if o == noOperand {
				engineErr("symbolic nested map key")
			}
			return "", w.concretize(s, o, e)
		}
		return fmt.Sprint(v.N), cNext
	case KFloat:
		return fmt.Sprint(v.N), cNext
	case KString:
		g, ok := goString(v)
		if !ok {
			if isOpaque(v) {
				engineErr("opaque map key")
			}
			for i := 0; i < int(v.Ln); i++ {
				b := strByte(v, i)
				if b.X != nil {
					e := b.X.(*Expr)
					vals := w.enumerate(s, e, 300)
					if len(vals) > 1 {
						_, c := w.decide(s, mkBin(OpEq, e, mkConst(vals[0], 8)))
						if c != cNext {
							return "", c
						}
					}
				}
			}
			bs := make([]byte, v.Ln)
			for i := range bs {
				b := strByte(v, i)
				if b.X != nil {
					bs[i] = byte(w.enumerate(s, b.X.(*Expr), 2)[0])
				} else {
					bs[i] = byte(b.N)
				}
			}
			g = string(bs)
		}
		return g, cNext
	case KPtr:
		return fmt.Sprintf("%d/%d", v.Id, v.N), cNext
	case KIface:
		i, _ := v.X.(*Iface)
		if i == nil {
			return "nil", cNext
		}
		k, c := w.mapKey(s, i.t, i.v, noOperand)
		return fmt.Sprintf("%p:%s", i.t, k), c
	case KStruct, KArray:
		k := ""
		xs := aggSlots(v, t.slots)
		fs := t.fields
		for i := 0; ; i++ {
			var ft *TInfo
			var off int
			if t.kind == KStruct {
				if i >= len(fs) {
					break
				}
				ft, off = fs[i], t.offs[i]
			} else {
				if i >= int(t.n) {
					break
				}
				ft, off = t.elem, i*t.elem.slots
			}
			p, c := w.mapKey(s, ft, sub(xs, off, ft), noOperand)
			if c != cNext {
				return "", c
			}
			k += fmt.Sprintf("%d:%s|", len(p), p)
		}
		return k, cNext
	}
	engineErr("map key type %s", t.t)
	return "", cEnd
}

func (w *Worker) lookupMap(s *State, f *Frame, ins *Inst) ctl {
	m := f.val(ins.a)
	var r Val
	found := false
	kv := f.val(ins.b)
	if m.Id != 0 {
		o := s.obj(m.Id)
		if s.summary != nil {
			s.summary.noteRead(m.Id)
		}
		if e, ok := kv.X.(*Expr); ok && ins.t.kind == KInt && ins.t2.scalar && !ins.t2.agg() && ins.t2.w <= 64 {
			// symbolic integer key over a concrete map: group keys by value
			return w.lookupSym(s, f, ins, o.mp, e)
		}
		k, c := w.mapKey(s, ins.t, kv, ins.b)
		if c != cNext {
			return c
		}
		if i, ok := s.obj(m.Id).mp.idx[k]; ok {
			r, found = s.obj(m.Id).mp.entries[i].v, true
		}
	}
	if ins.commaOk {
		s.top().regs[ins.dst] = Val{X: []Val{r, boolVal(found)}}
	} else {
		s.top().regs[ins.dst] = r
	}
	return cNext
}

func (w *Worker) lookupSym(s *State, f *Frame, ins *Inst, m *MapObj, e *Expr) ctl {
	groups := map[uint64][]IV{}
	var all []IV
	for _, en := range m.entries {
		if en.dead {
			continue
		}
		if en.v.X != nil || en.k.X != nil {
			return w.concretize(s, ins.b, e)
		}
		groups[en.v.N] = append(groups[en.v.N], IV{en.k.N, en.k.N})
		all = append(all, IV{en.k.N, en.k.N})
	}
	all = ivNorm(all)
	wd := ins.t2.w
	if ins.t2.kind == KBool {
		wd = 0
	}
	r := mkConst(0, wd)
	for v, ivs := range groups {
		if v == 0 {
			continue
		}
		r = mkIte(mkInSet(e, ivNorm(ivs)), mkConst(v, wd), r)
	}
	if ins.commaOk {
		f.regs[ins.dst] = Val{X: []Val{valOf(r), valOf(mkInSet(e, all))}}
	} else {
		f.regs[ins.dst] = valOf(r)
	}
	return cNext
}

func (w *Worker) mapUpdate(s *State, f *Frame, ins *Inst) ctl {
	m := f.val(ins.a)
	if m.Id == 0 {
		return w.raise(s, &PanicInfo{msg: "assignment to entry in nil map", where: s.where(), val: Val{X: &Iface{t: TI(types.Typ[types.String]), v: strVal("assignment to entry in nil map")}}})
	}
	k, c := w.mapKey(s, ins.t, f.val(ins.b), ins.b)
	if c != cNext {
		return c
	}
	f = s.top()
	o := s.wobj(m.Id)
	if i, ok := o.mp.idx[k]; ok {
		o.mp.entries[i].v = f.val(ins.c)
	} else {
		o.mp.idx[k] = len(o.mp.entries)
		o.mp.entries = append(o.mp.entries, mapEntry{k: f.val(ins.b), v: f.val(ins.c)})
		o.mp.n++
	}
	return cNext
}

func (w *Worker) builtin(s *State, f *Frame, ins *Inst, args []Val) ctl {
	set := func(v Val) ctl {
		if ins.dst >= 0 {
			f.regs[ins.dst] = v
		}
		return cNext
	}
	switch ins.name {
	case "len":
		switch ins.t.kind {
		case KString:
			if isOpaque(args[0]) {
				engineErr("len of opaque string at %s", s.where())
			}
			return set(intVal(int64(args[0].Ln)))
		case KSlice:
			return set(intVal(int64(args[0].Ln)))
		case KMap:
			if args[0].Id == 0 {
				return set(Val{})
			}
			return set(intVal(int64(s.obj(args[0].Id).mp.n)))
		case KArray:
			return set(intVal(ins.t.n))
		case KPtr:
			return set(intVal(TI(ins.t.t.Underlying().(*types.Pointer).Elem()).n))
		}
	case "cap":
		switch ins.t.kind {
		case KSlice:
			return set(intVal(int64(args[0].Cp)))
		case KArray:
			return set(intVal(ins.t.n))
		case KPtr:
			return set(intVal(TI(ins.t.t.Underlying().(*types.Pointer).Elem()).n))
		}
	case "append":
		return set(w.appendVals(s, ins, args))
	case "copy":
		dst, src := args[0], args[1]
		es := ins.t.elem.slots
		n := int(dst.Ln)
		if int(src.Ln) < n {
			n = int(src.Ln)
		}
		if n > 0 {
			if ins.t2.kind == KString {
				o := s.wobj(dst.Id)
				for i := 0; i < n; i++ {
					o.set(int(dst.N)+i, strByte(src, i))
				}
			} else {
				so := s.obj(src.Id)
				tmp := make([]Val, n*es)
				for i := range tmp {
					tmp[i] = so.get(int(src.N) + i)
				}
				o := s.wobj(dst.Id)
				for i, v := range tmp {
					o.set(int(dst.N)+i, v)
				}
			}
		}
		return set(intVal(int64(n)))
	case "delete":
		if args[0].Id == 0 {
			return cNext
		}
		k, c := w.mapKey(s, ins.t2, args[1], ins.args[1])
		if c != cNext {
			return c
		}
		o := s.wobj(args[0].Id)
		if i, ok := o.mp.idx[k]; ok {
			o.mp.entries[i].dead = true
			delete(o.mp.idx, k)
			o.mp.n--
		}
		return cNext
	case "clear":
		if args[0].Id == 0 {
			return cNext
		}
		if ins.t.kind == KMap {
			s.wobj(args[0].Id).mp = &MapObj{idx: map[string]int{}}
		} else {
			o := s.wobj(args[0].Id)
			for i := 0; i < int(args[0].Ln)*ins.t.elem.slots; i++ {
				o.set(int(args[0].N)+i, Val{})
			}
		}
		return cNext
	case "min", "max":
		if ins.t.kind == KInt {
			r := exprOf(args[0], ins.t.w)
			for _, a := range args[1:] {
				b := exprOf(a, ins.t.w)
				op := OpUlt
				if ins.t.signed {
					op = OpSlt
				}
				if ins.name == "min" {
					r = mkIte(mkBin(op, b, r), b, r)
				} else {
					r = mkIte(mkBin(op, r, b), b, r)
				}
			}
			return set(valOf(r))
		}
	case "print", "println":
		return cNext // standard error
	case "recover":
		fr := f
		if fr.isDefer && s.panicked != nil && !s.panicked.recovered && len(s.frames) >= 2 && s.frames[len(s.frames)-2].unwinding {
			s.panicked.recovered = true
			p := *s.panicked
			s.panicked = &p
			return set(p.val)
		}
		return set(Val{})
	case "ssa:wrapnilchk":
		if args[0].Id == 0 {
			return w.nilDeref(s)
		}
		return set(args[0])
	case "String": // unsafe.String(ptr, len)
		if args[1].X != nil {
			engineErr("unsafe.String symbolic length")
		}
		n := int(args[1].N)
		if n == 0 {
			return set(Val{})
		}
		o := s.obj(args[0].Id)
		bs := make([]Val, n)
		for i := range bs {
			bs[i] = o.get(int(args[0].N) + i)
		}
		return set(mkStr(bs))
	case "SliceData":
		return set(Val{Id: args[0].Id, N: args[0].N})
	case "StringData":
		if args[0].Ln == 0 {
			return set(Val{})
		}
		id := s.alloc(int(args[0].Ln), true)
		o := s.wobj(id)
		for i := 0; i < int(args[0].Ln); i++ {
			o.set(i, strByte(args[0], i))
		}
		return set(Val{Id: id})
	case "Slice":
		if args[1].X != nil {
			engineErr("unsafe.Slice symbolic length")
		}
		return set(Val{Id: args[0].Id, N: args[0].N, Ln: int32(args[1].N), Cp: int32(args[1].N)})
	}
	engineErr("builtin %s(%s) at %s", ins.name, ins.t.t, s.where())
	return cEnd
}

func (w *Worker) appendVals(s *State, ins *Inst, args []Val) Val {
	dst := args[0]
	es := ins.t.elem.slots
	if len(args) == 1 {
		return dst
	}
	src := args[1]
	n := int(src.Ln)
	if isStrVal := ins.t2.kind == KString; isStrVal && isOpaque(src) {
		engineErr("append of opaque string at %s", s.where())
	}
	if n == 0 {
		return dst
	}
	var tmp []Val
	if ins.t2.kind == KString {
		tmp = make([]Val, n)
		for i := range tmp {
			tmp[i] = strByte(src, i)
		}
	} else {
		so := s.obj(src.Id)
		if s.summary != nil {
			s.summary.noteRead(src.Id)
		}
		var buf [4]Val
		if n*es <= 4 {
			tmp = buf[:n*es]
		} else {
			tmp = make([]Val, n*es)
		}
		for i := range tmp {
			tmp[i] = so.get(int(src.N) + i)
		}
	}
	return w.appendTmp(s, ins.t.elem, dst, tmp, n)
}

// appendTmp appends n elements whose slots are in tmp.
func (w *Worker) appendTmp(s *State, et *TInfo, dst Val, tmp []Val, n int) Val {
	es := et.slots
	newLen := int(dst.Ln) + n
	if newLen <= int(dst.Cp) {
		o := s.wobj(dst.Id)
		base := int(dst.N) + int(dst.Ln)*es
		for i, v := range tmp {
			o.set(base+i, v)
		}
		dst.Ln = int32(newLen)
		return dst
	}
	nc := growCap(int(dst.Cp), newLen, et)
	o := &Object{owner: s.owner, scalar: et.scalar, n: nc * es}
	if dst.Ln > 0 {
		so := s.obj(dst.Id)
		tot := int(dst.Ln) * es
		if so.scalar && o.scalar {
			lo := int(dst.N)
			hi := lo + tot
			if hi > len(so.raw) {
				hi = len(so.raw)
			}
			o.raw = make([]uint64, 0, nc*es)
			if lo < hi {
				o.raw = append(o.raw, so.raw[lo:hi]...)
			}
			if so.sym != nil {
				for i := 0; i < tot; i++ {
					if lo+i < len(so.sym) && so.sym[lo+i] != nil {
						o.set(i, Val{X: so.sym[lo+i]})
					}
				}
			}
		} else {
			for i := 0; i < tot; i++ {
				o.set(i, so.get(int(dst.N)+i))
			}
		}
	}
	for i, v := range tmp {
		o.set(int(dst.Ln)*es+i, v)
	}
	id := s.addObj(o)
	return Val{Id: id, Ln: int32(newLen), Cp: int32(nc)}
}

// growCap follows the runtime's growth rule including size-class rounding for
// the common element sizes, so that aliasing after append matches the real code.
func growCap(old, need int, et *TInfo) int {
	nc := old
	if need > 2*old {
		nc = need
	} else if old < 256 {
		nc = 2 * old
	} else {
		for nc < need {
			nc += (nc + 3*256) >> 2
		}
	}
	if nc == 0 {
		nc = need
	}
	sz := goSize(et)
	if sz == 0 {
		return nc
	}
	b := nc * sz
	r := roundSize(b)
	return r / sz
}

var sizeClasses = []int{8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

func roundSize(b int) int {
	for _, c := range sizeClasses {
		if b <= c {
			return c
		}
	}
	const page = 8192
	return (b + page - 1) / page * page
}

var stdSizes = types.SizesFor("gc", "amd64")

func goSize(t *TInfo) int { return int(stdSizes.Sizeof(t.t)) }

func (w *Worker) convert(s *State, f *Frame, ins *Inst) ctl {
	v := f.val(ins.a)
	a, b := ins.t, ins.t2
	switch {
	case a.kind == KInt && b.kind == KInt:
		if v.X == nil {
			if a.signed {
				f.regs[ins.dst] = Val{N: uint64(sext(v.N, a.w)) & mask(b.w)}
			} else {
				f.regs[ins.dst] = Val{N: v.N & mask(b.w)}
			}
			return cNext
		}
		e := v.X.(*Expr)
		switch {
		case b.w == a.w:
		case b.w < a.w:
			e = mkTrunc(e, b.w)
		case a.signed:
			e = mkSExt(e, b.w)
		default:
			e = mkZExt(e, b.w)
		}
		f.regs[ins.dst] = valOf(e)
		return cNext
	case a.kind == KInt && b.kind == KFloat:
		if v.X != nil {
			return w.concretize(s, ins.a, v.X.(*Expr))
		}
		var r float64
		if a.signed {
			r = float64(sext(v.N, a.w))
		} else {
			r = float64(v.N)
		}
		if b.w == 32 {
			r = float64(float32(r))
		}
		f.regs[ins.dst] = fval(r)
		return cNext
	case a.kind == KFloat && b.kind == KFloat:
		r := f64(v)
		if b.w == 32 {
			r = float64(float32(r))
		}
		f.regs[ins.dst] = fval(r)
		return cNext
	case a.kind == KFloat && b.kind == KInt:
		r := f64(v)
		if b.signed {
			f.regs[ins.dst] = Val{N: uint64(int64(r)) & mask(b.w)}
		} else {
			f.regs[ins.dst] = Val{N: uint64(r) & mask(b.w)}
		}
		return cNext
	case a.kind == KInt && b.kind == KString:
		if v.X != nil {
			e := v.X.(*Expr)
			if e.w < 32 {
				if a.signed {
					e = mkSExt(e, 32)
				} else {
					e = mkZExt(e, 32)
				}
			}
			var c ctl
			below := func(n uint64) (t bool) {
				if c == cNext {
					t, c = w.decide(s, mkBin(OpUlt, e, mkConst(n, e.w)))
				}
				return t && c == cNext
			}
			// byt is tag with the six (or fewer) bits of e from bit sh on
			byt := func(tag uint64, sh uint64, m uint64) Val {
				x := mkBin(OpAnd, mkBin(OpLShr, e, mkConst(sh, e.w)), mkConst(m, e.w))
				return valOf(mkTrunc(mkBin(OpOr, x, mkConst(tag, e.w)), 8))
			}
			var r Val
			switch {
			case below(0x80):
				r = mkStr([]Val{valOf(mkTrunc(e, 8))})
			case below(0x800):
				r = mkStr([]Val{byt(0xC0, 6, 0x1F), byt(0x80, 0, 0x3F)})
			case below(0xD800) || !below(0xE000) && below(0x10000):
				r = mkStr([]Val{byt(0xE0, 12, 0x0F), byt(0x80, 6, 0x3F), byt(0x80, 0, 0x3F)})
			case !below(0xE000) && below(0x110000):
				r = mkStr([]Val{byt(0xF0, 18, 0x07), byt(0x80, 12, 0x3F), byt(0x80, 6, 0x3F), byt(0x80, 0, 0x3F)})
			default:
				r = strVal("\uFFFD")
			}
			if c != cNext {
				return c
			}
			f.regs[ins.dst] = r
			return cNext
		}
		var r rune = 0xFFFD
		iv := int64(v.N)
		if a.signed {
			iv = sext(v.N, a.w)
		}
		if iv >= 0 && iv <= 0x10FFFF {
			r = rune(iv)
		}
		f.regs[ins.dst] = strVal(string(r))
		return cNext
	case a.kind == KSlice && b.kind == KString:
		if a.elem.w == 8 {
			if v.Ln == 0 {
				f.regs[ins.dst] = Val{}
				return cNext
			}
			o := s.obj(v.Id)
			bs := make([]Val, v.Ln)
			for i := range bs {
				bs[i] = o.get(int(v.N) + i)
			}
			f.regs[ins.dst] = mkStr(bs)
			return cNext
		}
		// []rune
		o := s.obj(v.Id)
		var out []rune
		for i := 0; i < int(v.Ln); i++ {
			x := o.get(int(v.N) + i)
			if x.X != nil {
				engineErr("symbolic rune slice to string")
			}
			out = append(out, rune(int32(x.N)))
		}
		f.regs[ins.dst] = strVal(string(out))
		return cNext
	case a.kind == KString && b.kind == KSlice:
		if isOpaque(v) {
			engineErr("conversion of opaque string at %s", s.where())
		}
		if b.elem.w == 8 {
			id := s.alloc(int(v.Ln), true)
			o := s.wobj(id)
			for i := 0; i < int(v.Ln); i++ {
				o.set(i, strByte(v, i))
			}
			f.regs[ins.dst] = Val{Id: id, Ln: v.Ln, Cp: v.Ln}
			return cNext
		}
		g, ok := goString(v)
		if !ok {
			// symbolic bytes: decide ASCII byte by byte
			for i := 0; i < int(v.Ln); i++ {
				b := strByte(v, i)
				if b.X != nil {
					t, c := w.decide(s, mkBin(OpUlt, b.X.(*Expr), mkConst(0x80, 8)))
					if c != cNext {
						return c
					}
					if !t {
						engineErr("symbolic non-ASCII string to []rune at %s", s.where())
					}
				} else if b.N >= 0x80 {
					engineErr("mixed symbolic non-ASCII string to []rune")
				}
			}
			id := s.alloc(int(v.Ln), true)
			o := s.wobj(id)
			for i := 0; i < int(v.Ln); i++ {
				b := strByte(v, i)
				if b.X != nil {
					b = valOf(mkZExt(b.X.(*Expr), 32))
				}
				o.set(i, b)
			}
			f.regs[ins.dst] = Val{Id: id, Ln: v.Ln, Cp: v.Ln}
			return cNext
		}
		rs := []rune(g)
		id := s.alloc(len(rs), true)
		o := s.wobj(id)
		for i, r := range rs {
			o.set(i, Val{N: uint64(uint32(r))})
		}
		f.regs[ins.dst] = Val{Id: id, Ln: int32(len(rs)), Cp: int32(len(rs))}
		return cNext
	case a.kind == KString && b.kind == KString, a.kind == KSlice && b.kind == KSlice:
		f.regs[ins.dst] = v
		return cNext
	case (a.kind == KPtr || a.kind == KUnsafePtr) && (b.kind == KPtr || b.kind == KUnsafePtr):
		f.regs[ins.dst] = v
		return cNext
	case a.kind == KUnsafePtr && b.kind == KInt:
		// used by strings.Builder.copyCheck style code only
		f.regs[ins.dst] = Val{N: uint64(uint32(v.Id))<<32 | v.N}
		return cNext
	}
	engineErr("convert %s to %s at %s", a.t, b.t, s.where())
	return cEnd
}
