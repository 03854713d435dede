package main

// Functions the engine interprets itself: the harness API, formatting, error
// chains, and runtime primitives.

import (
	"fmt"
	"go/types"
	"strings"
	"sync"
	"sync/atomic"

	"golang.org/x/tools/go/ssa"
)

type intrinsic func(w *Worker, s *State, f *Frame, ins *Inst, args []Val) (Val, ctl)

var theProg *ssa.Program
var curTier int

const zzsymPath = modPath + "/vtdxml/zzsym"
const zzhPath = modPath + "/vtdxml/zzh"
const zzmainPath = modPath + "/vtdxml/zzmain"

func nop(w *Worker, s *State, f *Frame, ins *Inst, args []Val) (Val, ctl) { return Val{}, cNext }

func lookupIntrinsic(fn *ssa.Function) intrinsic {
	pkg := ""
	if fn.Pkg != nil {
		pkg = fn.Pkg.Pkg.Path()
	} else if o := fn.Object(); o != nil && o.Pkg() != nil {
		pkg = o.Pkg().Path()
	}
	if pkg == "" {
		return nil
	}
	if isPkgInit(fn) {
		if !initAllowed(pkg) {
			return nop
		}
		return nil
	}
	if pkg == zzsymPath {
		if in, ok := symAPI[fn.Name()]; ok && fn.Signature.Recv() == nil {
			return in
		}
		return nil
	}
	if strings.HasPrefix(pkg, modPath) {
		return nil
	}
	name := fn.Name()
	if r := fn.Signature.Recv(); r != nil {
		t := r.Type()
		star := ""
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
			star = "*"
		}
		if n, ok := t.(*types.Named); ok {
			name = star + n.Obj().Name() + "." + name
		}
	}
	full := pkg + "." + name
	if in, ok := stdAPI[full]; ok {
		return in
	}
	switch pkg {
	case "fmt":
		if fn.Signature.Recv() == nil {
			switch fn.Name() {
			case "Printf", "Print", "Println":
				return printOut
			case "Fprintf", "Fprint", "Fprintln":
				return fprintOut
			case "Sprintf", "Sprint", "Sprintln":
				return sprint
			case "Errorf":
				return errorf
			}
		}
	case "log":
		if fn.Signature.Recv() == nil && !strings.Contains(fn.Name(), "Fatal") && !strings.Contains(fn.Name(), "Panic") {
			return nop // standard error
		}
	case "sync":
		if in := syncAPI(name); in != nil {
			return in
		}
	case "internal/race", "internal/msan", "internal/asan":
		return nop
	}
	return nil
}

func redirect(name string) intrinsic {
	return func(w *Worker, s *State, f *Frame, ins *Inst, args []Val) (Val, ctl) {
		p := theProg.ImportedPackage(zzsymPath)
		fn := p.Func(name)
		if fn == nil {
			engineErr("no redirect target %s", name)
		}
		s.pushFrame(codeFor(fn), args, nil, ins.dst)
		return Val{}, cFrame
	}
}

var symAPI map[string]intrinsic
var stdAPI map[string]intrinsic

func init() {
	symAPI = map[string]intrinsic{
		"Byte":   symScalar(8),
		"Bool":   symBool,
		"Int":    symScalar(64),
		"Uint64": symScalar(64),
		"Int64":  symScalar(64),
		"Int32":  symScalar(32),
		"Uint32": symScalar(32),
		"Bytes":  symBytes,
		"Choose": symChoose,
		"Pick":   symPick,
		"Assume": symAssume,
		"Assert": symAssert,
		"Finding": func(w *Worker, s *State, f *Frame, ins *Inst, args []Val) (Val, ctl) {
			g, _ := goString(args[0])
			if s.summary == nil {
				w.finding(s, g)
			}
			return Val{}, cNext
		},
		"Observe": func(w *Worker, s *State, f *Frame, ins *Inst, args []Val) (Val, ctl) {
			g, _ := goString(args[0])
			s.obs = &Obs{prev: s.obs, label: g, vals: []Val{args[1]}}
			return Val{}, cNext
		},
		"ObserveStr": func(w *Worker, s *State, f *Frame, ins *Inst, args []Val) (Val, ctl) {
			g, _ := goString(args[0])
			if isOpaque(args[1]) {
				return Val{}, cNext
			}
			o := &Obs{prev: s.obs, label: g, str: true}
			for i := 0; i < int(args[1].Ln); i++ {
				o.vals = append(o.vals, strByte(args[1], i))
			}
			s.obs = o
			return Val{}, cNext
		},
		"Reach": func(w *Worker, s *State, f *Frame, ins *Inst, args []Val) (Val, ctl) {
			g, _ := goString(args[0])
			for r := s.reach; r != nil; r = r.prev {
				if r.label == g {
					return Val{}, cNext
				}
			}
			s.reach = &Reach{prev: s.reach, label: g}
			return Val{}, cNext
		},
		"Tier": func(w *Worker, s *State, f *Frame, ins *Inst, args []Val) (Val, ctl) {
			return intVal(int64(curTier)), cNext
		},
		"StdoutWrites": func(w *Worker, s *State, f *Frame, ins *Inst, args []Val) (Val, ctl) {
			return intVal(int64(s.stdout)), cNext
		},
		"Precise": func(w *Worker, s *State, f *Frame, ins *Inst, args []Val) (Val, ctl) {
			s.precise = args[0].N != 0
			return Val{}, cNext
		},
		"SameBytes": symSameBytes,
		"EqB":       symEqB,
	}
	stdAPI = map[string]intrinsic{
		"errors.As": errorsAs,
		"errors.Is": errorsIs,
		"errors.Unwrap": func(w *Worker, s *State, f *Frame, ins *Inst, args []Val) (Val, ctl) {
			return w.unwrapErr(s, args[0]), cNext
		},
		"internal/bytealg.IndexByte":              redirect("BaIndexByte"),
		"internal/bytealg.IndexByteString":        redirect("BaIndexByteString"),
		"internal/bytealg.LastIndexByte":          redirect("BaLastIndexByte"),
		"internal/bytealg.Count":                  redirect("BaCount"),
		"internal/bytealg.CountString":            redirect("BaCountString"),
		"internal/bytealg.Equal":                  redirect("BaEqual"),
		"internal/bytealg.Compare":                redirect("BaCompare"),
		"internal/bytealg.CompareString":          redirect("BaCompareString"),
		"internal/bytealg.Index":                  redirect("BaIndex"),
		"internal/bytealg.IndexString":            redirect("BaIndexString"),
		"internal/bytealg.MakeNoZero":             redirect("BaMakeNoZero"),
		"bytes.Equal":                             redirect("BaEqual"),
		"bytes.IndexByte":                         redirect("BaIndexByte"),
		"strings.IndexByte":                       redirect("BaIndexByteString"),
		"bytes.Index":                             redirect("BaIndex"),
		"strings.Index":                           redirect("BaIndexString"),
		"strings.*Builder.copyCheck":              nop,
		"internal/stringslite.Index":              redirect("BaIndexString"),
		"internal/stringslite.IndexByte":          redirect("BaIndexByteString"),
		"internal/abi.NoEscape":                   ident,
		"internal/abi.Escape":                     ident,
		"runtime.KeepAlive":                       nop,
		"runtime.GC":                              nop,
		"sync/atomic.LoadInt32":                   atomicLoad,
		"os.*File.Write":                          fileWrite,
		"os.*File.WriteString":                    fileWrite,
		"internal/godebug.*Setting.Value":         func(w *Worker, s *State, f *Frame, ins *Inst, args []Val) (Val, ctl) { return Val{}, cNext },
		"internal/godebug.*Setting.IncNonDefault": nop,
	}
}

func ident(w *Worker, s *State, f *Frame, ins *Inst, args []Val) (Val, ctl) { return args[0], cNext }

func atomicLoad(w *Worker, s *State, f *Frame, ins *Inst, args []Val) (Val, ctl) {
	return s.load(args[0], TI(types.Typ[types.Int32])), cNext
}

func fileWrite(w *Worker, s *State, f *Frame, ins *Inst, args []Val) (Val, ctl) {
	s.stdout++
	return Val{X: []Val{{N: uint64(args[1].Ln)}, {}}}, cNext
}

func syncAPI(name string) intrinsic {
	switch name {
	case "*Mutex.Lock", "*Mutex.Unlock", "*RWMutex.Lock", "*RWMutex.Unlock", "*RWMutex.RLock", "*RWMutex.RUnlock", "*WaitGroup.Add", "*WaitGroup.Done", "*WaitGroup.Wait":
		return nop
	case "*Mutex.TryLock", "*RWMutex.TryLock":
		return func(w *Worker, s *State, f *Frame, ins *Inst, args []Val) (Val, ctl) { return boolVal(true), cNext }
	case "*Once.Do":
		return func(w *Worker, s *State, f *Frame, ins *Inst, args []Val) (Val, ctl) {
			// the first scalar slot of the object is used as the done flag
			o := s.obj(args[0].Id)
			if o.get(int(args[0].N)).N != 0 {
				return Val{}, cNext
			}
			s.wobj(args[0].Id).set(int(args[0].N), Val{N: 1})
			cl, _ := args[1].X.(*Closure)
			if cl == nil {
				return Val{}, w.nilDeref(s)
			}
			code := codeFor(cl.fn)
			if code.intr != nil {
				engineErr("Once.Do of intrinsic")
			}
			s.pushFrame(code, nil, cl.binds, -1)
			return Val{}, cFrame
		}
	case "*Pool.Put":
		return nop
	case "*Pool.Get":
		return func(w *Worker, s *State, f *Frame, ins *Inst, args []Val) (Val, ctl) {
			// field New is the last field of sync.Pool
			pt := TI(theProg.ImportedPackage("sync").Type("Pool").Type())
			fnv := s.obj(args[0].Id).get(int(args[0].N) + pt.offs[len(pt.offs)-1])
			cl, _ := fnv.X.(*Closure)
			if cl == nil {
				return Val{}, cNext
			}
			s.pushFrame(codeFor(cl.fn), nil, cl.binds, ins.dst)
			return Val{}, cFrame
		}
	}
	return nil
}

// ---- harness API ----

func (s *State) fresh(name string) string {
	if s.counters == nil {
		s.counters = map[string]int{}
	}
	n := s.counters[name]
	s.counters[name] = n + 1
	return fmt.Sprintf("%s.%d", name, n)
}

func (s *State) addInput(name string, e *Expr, k uint64, w uint8) {
	if s.summary != nil {
		s.summary.abort("input in summary")
	}
	s.inputs = &Input{prev: s.inputs, name: name, e: e, k: k, w: w}
	s.ninputs++
}

func symScalar(wd uint8) intrinsic {
	return func(w *Worker, s *State, f *Frame, ins *Inst, args []Val) (Val, ctl) {
		g, _ := goString(args[0])
		g = s.fresh(g)
		e := newVar(g, wd)
		s.addInput(g, e, 0, wd)
		return Val{X: e}, cNext
	}
}

func symBool(w *Worker, s *State, f *Frame, ins *Inst, args []Val) (Val, ctl) {
	g, _ := goString(args[0])
	g = s.fresh(g)
	e := newVar(g, 1)
	s.addInput(g, e, 0, 1)
	return valOf(mkBin(OpEq, e, mkConst(1, 1))), cNext
}

func symBytes(w *Worker, s *State, f *Frame, ins *Inst, args []Val) (Val, ctl) {
	g, _ := goString(args[0])
	if args[1].X != nil {
		engineErr("Bytes with a symbolic length")
	}
	n := int(args[1].N)
	id := s.alloc(n, true)
	o := s.wobj(id)
	for i := 0; i < n; i++ {
		nm := s.fresh(g)
		e := newVar(nm, 8)
		s.addInput(nm, e, 0, 8)
		o.set(i, Val{X: e})
	}
	return Val{Id: id, Ln: int32(n), Cp: int32(n)}, cNext
}

// symChoose forks over 0..n-1.
func symChoose(w *Worker, s *State, f *Frame, ins *Inst, args []Val) (Val, ctl) {
	g, _ := goString(args[0])
	n := int(args[1].N)
	if args[1].X != nil || n <= 0 {
		engineErr("Choose(%d)", n)
	}
	g = s.fresh(g)
	for i := n - 1; i > 0; i-- {
		c := w.fork(s)
		c.addInput(g, nil, uint64(i), 64)
		cf := c.top()
		if ins.dst >= 0 {
			cf.regs[ins.dst] = Val{N: uint64(i)}
		}
		cf.pc++
		w.push(c)
	}
	s.addInput(g, nil, 0, 64)
	return Val{N: 0}, cNext
}

// symPick(x, limit) makes a symbolic int concrete by forking over its values.
func symPick(w *Worker, s *State, f *Frame, ins *Inst, args []Val) (Val, ctl) {
	if args[0].X == nil {
		return args[0], cNext
	}
	return Val{}, w.concretize(s, ins.args[0], args[0].X.(*Expr))
}

func symAssume(w *Worker, s *State, f *Frame, ins *Inst, args []Val) (Val, ctl) {
	if args[0].X == nil {
		if args[0].N == 0 {
			atomic.AddInt64(&w.ex.infeasible, 1)
			return Val{}, cEnd
		}
		return Val{}, cNext
	}
	e := args[0].X.(*Expr)
	atomic.AddInt64(&w.ex.assumed, 1)
	t, _ := w.check(s, e)
	if !t {
		atomic.AddInt64(&w.ex.infeasible, 1)
		return Val{}, cEnd
	}
	w.assume(s, e)
	return Val{}, cNext
}

func symAssert(w *Worker, s *State, f *Frame, ins *Inst, args []Val) (Val, ctl) {
	msg, ok := goString(args[1])
	if !ok {
		msg = "(symbolic message)"
	}
	atomic.AddInt64(&w.ex.asserts, 1)
	atomic.AddInt64(&s.job.asserts, 1)
	if args[0].X == nil {
		if args[0].N == 0 {
			w.violation(s, "assert", msg, s.callSite())
			return Val{}, cEnd
		}
		return Val{}, cNext
	}
	e := args[0].X.(*Expr)
	atomic.AddInt64(&w.ex.assertsSym, 1)
	t, fa := w.check(s, e)
	if fa {
		if t {
			c := w.fork(s)
			w.assume(c, mkNot(e))
			w.violation(c, "assert", msg, c.callSite())
			w.assume(s, e)
			return Val{}, cNext
		}
		w.violation(s, "assert", msg, s.callSite())
		return Val{}, cEnd
	}
	return Val{}, cNext
}

func (s *State) callSite() string { return s.where() }

// symSameBytes compares two byte slices without forking per byte.
func symSameBytes(w *Worker, s *State, f *Frame, ins *Inst, args []Val) (Val, ctl) {
	a, b := args[0], args[1]
	if a.Ln != b.Ln {
		return boolVal(false), cNext
	}
	r := eTrue
	for i := 0; i < int(a.Ln); i++ {
		x := s.obj(a.Id).get(int(a.N) + i)
		y := s.obj(b.Id).get(int(b.N) + i)
		if x.X == nil && y.X == nil {
			if x.N != y.N {
				return boolVal(false), cNext
			}
			continue
		}
		r = mkBin(OpBAnd, r, mkBin(OpEq, exprOf(x, 8), exprOf(y, 8)))
	}
	return valOf(r), cNext
}

// symEqB(a, b string) compares two strings without forking per byte.
func symEqB(w *Worker, s *State, f *Frame, ins *Inst, args []Val) (Val, ctl) {
	a, b := args[0], args[1]
	if isOpaque(a) || isOpaque(b) {
		engineErr("comparison of opaque string")
	}
	if a.Ln != b.Ln {
		return boolVal(false), cNext
	}
	r := eTrue
	for i := 0; i < int(a.Ln); i++ {
		x, y := strByte(a, i), strByte(b, i)
		if x.X == nil && y.X == nil {
			if x.N != y.N {
				return boolVal(false), cNext
			}
			continue
		}
		r = mkBin(OpBAnd, r, mkBin(OpEq, exprOf(x, 8), exprOf(y, 8)))
	}
	return valOf(r), cNext
}

// ---- errors ----

var methodCacheMu sync.Mutex

func (w *Worker) findMethod(t *TInfo, name string) *ssa.Function {
	methodCacheMu.Lock()
	defer methodCacheMu.Unlock()
	ms := theProg.MethodSets.MethodSet(t.t)
	for i := 0; i < ms.Len(); i++ {
		sel := ms.At(i)
		if sel.Obj().Name() == name && sel.Obj().Exported() {
			return theProg.MethodValue(sel)
		}
	}
	return nil
}

func (w *Worker) unwrapErr(s *State, e Val) Val {
	i, _ := e.X.(*Iface)
	if i == nil {
		return Val{}
	}
	fn := w.findMethod(i.t, "Unwrap")
	if fn == nil || fn.Signature.Params().Len() != 0 || fn.Signature.Results().Len() != 1 || TI(fn.Signature.Results().At(0).Type()).kind != KIface {
		return Val{}
	}
	return w.callSync(s, fn, []Val{i.v})
}

func errorsAs(w *Worker, s *State, f *Frame, ins *Inst, args []Val) (Val, ctl) {
	tgt, _ := args[1].X.(*Iface)
	if tgt == nil || tgt.t.kind != KPtr {
		return Val{}, w.runtimePanic(s, "errors: target must be a non-nil pointer")
	}
	et := TI(derefType(tgt.t.t))
	e := args[0]
	for n := 0; n < 100; n++ {
		i, _ := e.X.(*Iface)
		if i == nil {
			return boolVal(false), cNext
		}
		if et.kind == KIface {
			if w.ex.implements(i.t, et) {
				s.store(tgt.v, et, e)
				return boolVal(true), cNext
			}
		} else if i.t == et {
			s.store(tgt.v, et, i.v)
			return boolVal(true), cNext
		}
		if fn := w.findMethod(i.t, "As"); fn != nil && fn.Signature.Params().Len() == 1 {
			r := w.callSync(s, fn, []Val{i.v, args[1]})
			if r.N != 0 {
				return boolVal(true), cNext
			}
		}
		e = w.unwrapErr(s, e)
	}
	engineErr("error chain too long")
	return Val{}, cEnd
}

func errorsIs(w *Worker, s *State, f *Frame, ins *Inst, args []Val) (Val, ctl) {
	e, t := args[0], args[1]
	ti, _ := t.X.(*Iface)
	for n := 0; n < 100; n++ {
		i, _ := e.X.(*Iface)
		if i == nil {
			return boolVal(ti == nil && n == 0), cNext
		}
		if ti != nil && i.t == ti.t && i.t.kind == KPtr && i.v.Id == ti.v.Id && i.v.N == ti.v.N {
			return boolVal(true), cNext
		}
		if fn := w.findMethod(i.t, "Is"); fn != nil && fn.Signature.Params().Len() == 1 {
			r := w.callSync(s, fn, []Val{i.v, t})
			if r.N != 0 {
				return boolVal(true), cNext
			}
		}
		e = w.unwrapErr(s, e)
		if e.X == nil {
			return boolVal(false), cNext
		}
	}
	engineErr("error chain too long")
	return Val{}, cEnd
}

// ---- formatting ----

func printOut(w *Worker, s *State, f *Frame, ins *Inst, args []Val) (Val, ctl) {
	if s.summary != nil {
		s.summary.abort("output")
	}
	s.stdout++
	if s.stdoutAt == "" {
		s.stdoutAt = s.where()
	}
	return Val{X: []Val{{}, {}}}, cNext
}

func fprintOut(w *Worker, s *State, f *Frame, ins *Inst, args []Val) (Val, ctl) {
	i, _ := args[0].X.(*Iface)
	if i != nil && i.t.t.String() == "*os.File" {
		return printOut(w, s, f, ins, args)
	}
	engineErr("fmt.Fprint to %v at %s", i, s.where())
	return Val{}, cEnd
}

type fmtStr struct{ s string }

func (x fmtStr) Error() string { return x.s }

// goValue converts a formatted argument to a native value.
func (w *Worker) goValue(s *State, v Val) (any, bool, ctl) {
	i, _ := v.X.(*Iface)
	if i == nil {
		return nil, true, cNext
	}
	if fn := w.findMethod(i.t, "Error"); fn != nil && fn.Signature.Params().Len() == 0 {
		if i.t.kind == KPtr && i.v.Id == 0 {
			return nil, false, cNext
		}
		r := w.callSync(s, fn, []Val{i.v})
		g, ok := goString(r)
		if !ok {
			h, ok := w.holder(r)
			return h, ok, cNext
		}
		return fmtStr{g}, ok, cNext
	}
	if fn := w.findMethod(i.t, "String"); fn != nil && fn.Signature.Params().Len() == 0 {
		if i.t.kind == KPtr && i.v.Id == 0 {
			return nil, false, cNext
		}
		r := w.callSync(s, fn, []Val{i.v})
		g, ok := goString(r)
		if !ok {
			h, ok := w.holder(r)
			return h, ok, cNext
		}
		return fmtStr{g}, ok, cNext
	}
	switch i.t.kind {
	case KString:
		g, ok := goString(i.v)
		if !ok {
			h, ok := w.holder(i.v)
			return h, ok, cNext
		}
		return g, ok, cNext
	case KBool:
		if i.v.X != nil {
			return nil, false, cNext
		}
		return i.v.N != 0, true, cNext
	case KInt:
		v := i.v
		if e, ok := v.X.(*Expr); ok {
			if !s.precise {
				return nil, false, cNext
			}
			vals := w.enumerate(s, e, 300)
			if len(vals) > 1 {
				_, c := w.decide(s, mkBin(OpEq, e, mkConst(vals[0], e.w)))
				if c != cNext {
					return nil, false, c
				}
			}
			v = Val{N: vals[0]}
		}
		b, _ := i.t.t.Underlying().(*types.Basic)
		switch b.Kind() {
		case types.Int:
			return int(v.N), true, cNext
		case types.Int8:
			return int8(v.N), true, cNext
		case types.Int16:
			return int16(v.N), true, cNext
		case types.Int32:
			return int32(v.N), true, cNext
		case types.Int64:
			return int64(v.N), true, cNext
		case types.Uint:
			return uint(v.N), true, cNext
		case types.Uint8:
			return uint8(v.N), true, cNext
		case types.Uint16:
			return uint16(v.N), true, cNext
		case types.Uint32:
			return uint32(v.N), true, cNext
		case types.Uint64:
			return uint64(v.N), true, cNext
		}
		return int64(v.N), true, cNext
	case KFloat:
		return f64(i.v), true, cNext
	}
	return nil, false, cNext
}

func (w *Worker) fmtArgs(s *State, sl Val) ([]any, bool, ctl) {
	var out []any
	ok := true
	for i := 0; i < int(sl.Ln); i++ {
		v := s.obj(sl.Id).get(int(sl.N) + i)
		g, o, c := w.goValue(s, v)
		if c != cNext {
			return nil, false, c
		}
		ok = ok && o
		out = append(out, g)
	}
	return out, ok, cNext
}

func sprint(w *Worker, s *State, f *Frame, ins *Inst, args []Val) (Val, ctl) {
	name := "Sprintf"
	if ins.fn != nil {
		name = ins.fn.Name()
	}
	format := ""
	va := args[0]
	if name == "Sprintf" {
		g, ok := goString(args[0])
		if !ok {
			return opaqueStr(), cNext
		}
		format = g
		va = args[1]
	}
	defer func(old []Val) { w.symStrs = old }(w.symStrs)
	w.symStrs = nil
	as, ok, c := w.fmtArgs(s, va)
	if c != cNext {
		return Val{}, c
	}
	if !ok {
		return opaqueStr(), cNext
	}
	switch name {
	case "Sprint":
		return w.fillIn("", fmt.Sprint(as...)), cNext
	case "Sprintln":
		return w.fillIn("", fmt.Sprintln(as...)), cNext
	}
	return w.fillIn(format, fmt.Sprintf(format, as...)), cNext
}

// a string with symbolic bytes is formatted as a placeholder
func (w *Worker) holder(v Val) (any, bool) {
	if isOpaque(v) {
		return nil, false
	}
	w.symStrs = append(w.symStrs, v)
	return fmtStr{fmt.Sprintf("\x00<%d>\x00", len(w.symStrs)-1)}, true
}

// fillIn replaces the placeholders in a formatted string
func (w *Worker) fillIn(format, r string) Val {
	if len(w.symStrs) == 0 {
		return strVal(r)
	}
	for i := 0; i+1 < len(format); i++ {
		if format[i] == '%' {
			i++
			if !strings.ContainsRune("%svdw", rune(format[i])) {
				return opaqueStr()
			}
		}
	}
	found := 0
	var bs []Val
	for r != "" {
		if r[0] == 0 {
			k := 0
			if n, err := fmt.Sscanf(r[1:], "<%d>", &k); n != 1 || err != nil || k >= len(w.symStrs) {
				return opaqueStr()
			}
			found++
			v := w.symStrs[k]
			for i := 0; i < int(v.Ln); i++ {
				bs = append(bs, strByte(v, i))
			}
			r = r[1:]
			r = r[strings.IndexByte(r, 0)+1:]
			continue
		}
		bs = append(bs, strByte(strVal(r[:1]), 0))
		r = r[1:]
	}
	if found != len(w.symStrs) {
		return opaqueStr()
	}
	return mkStr(bs)
}

func errorf(w *Worker, s *State, f *Frame, ins *Inst, args []Val) (Val, ctl) {
	g, okf := goString(args[0])
	defer func(old []Val) { w.symStrs = old }(w.symStrs)
	w.symStrs = nil
	as, ok, c := w.fmtArgs(s, args[1])
	if c != cNext {
		return Val{}, c
	}
	msg := opaqueStr()
	if okf && ok {
		msg = w.fillIn(g, fmt.Errorf(g, as...).Error())
	}
	tn := "errorString"
	pkg := "errors"
	var wrapped Val
	if okf && strings.Contains(g, "%w") {
		pkg, tn = "fmt", "wrapError"
		n := 0
		for i, verb := 0, 0; i < len(g)-1; i++ {
			if g[i] == '%' {
				if g[i+1] == 'w' {
					wrapped = s.obj(args[1].Id).get(int(args[1].N) + verb)
					n++
				}
				if g[i+1] != '%' {
					verb++
				}
				i++
			}
		}
		if n != 1 {
			engineErr("Errorf with several %%w at %s", s.where())
		}
	}
	p := theProg.ImportedPackage(pkg)
	if p == nil {
		engineErr("package %s not loaded", pkg)
	}
	var t types.Type
	if ty := p.Type(tn); ty != nil {
		t = ty.Type()
	} else {
		engineErr("type %s.%s not found", pkg, tn)
	}
	ti := TI(t)
	id := s.alloc(ti.slots, ti.scalar)
	o := s.wobj(id)
	o.set(0, msg)
	if tn == "wrapError" {
		o.set(1, wrapped)
	}
	return Val{X: &Iface{t: TI(types.NewPointer(t)), v: Val{Id: id}}}, cNext
}
