package main

// Package state: globals live in the shared object table; package initialisers
// of the packages below are executed once before exploration.

import (
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

var globMu sync.Mutex
var globIDs = map[*ssa.Global]int32{}
var initOwner = newOwner()

const modPath = "github.com/alexZaicev/go-vtd-xml"

func initAllowed(path string) bool {
	if path == modPath || strings.HasPrefix(path, modPath+"/") {
		return true
	}
	switch path {
	case "io", "unicode", "unicode/utf8", "unicode/utf16", "strings", "bytes", "strconv", "sort", "slices", "math", "math/bits", "cmp", "iter", "maps", "container/list", "container/heap":
		return true
	}
	return false
}

func globalPtr(g *ssa.Global) Val {
	globMu.Lock()
	defer globMu.Unlock()
	if id, ok := globIDs[g]; ok {
		return Val{Id: id}
	}
	t := TI(derefType(g.Type()))
	sharedCountAdd := nextShared()
	o := &Object{owner: initOwner, scalar: t.scalar, n: t.slots, init: true, site: g.String()}
	path := g.Pkg.Pkg.Path()
	if g.String() == "internal/bytealg.MaxLen" {
		// set by an initialiser that asks the processor: 64 with AVX2
		o.set(0, Val{N: 64})
	} else if !initAllowed(path) && !strings.HasPrefix(g.Name(), "init$guard") {
		o.forbid = true
	}
	shared[sharedCountAdd] = o
	globIDs[g] = -sharedCountAdd
	return Val{Id: -sharedCountAdd}
}

// runInit executes the initialiser of the harness package (and, through it, of
// every package it imports).
func (w *Worker) runInit(pkg *ssa.Package) string {
	run := &summaryRun{shared: true, initPhase: true}
	s := &State{owner: initOwner, job: summaryJob, summary: run}
	s.pushFrame(codeFor(pkg.Func("init")), nil, nil, -1)
	w.runSummary(run, s)
	initOwner = newOwner()
	return run.aborted
}

func isPkgInit(fn *ssa.Function) bool {
	return fn.Name() == "init" && fn.Synthetic == "package initializer" && fn.Pkg != nil
}
