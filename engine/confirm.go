package main

// Solver confirmation of the value-set reductions, and cross-checks of sampled
// queries with other solvers.

import (
	"fmt"
	"sync"
)

type confirmResult struct {
	Reductions int `json:"reductions"`
	Confirmed  int `json:"confirmed"`
	Refuted    int `json:"refuted"`
	Unanswered int `json:"unanswered"`
}

// confirmReductions proves with the solver that every value set used in place
// of a one-byte condition is equivalent to that condition.
func confirmReductions(nw int) confirmResult {
	reduceMu.Lock()
	q := reduceQueue
	reduceQueue = nil
	reduceMu.Unlock()
	res := confirmResult{Reductions: len(q)}
	var mu sync.Mutex
	var wg sync.WaitGroup
	const batch = 64
	ch := make(chan []reduction)
	for i := 0; i < nw; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			sv := newSolver("z3", "-in")
			defer sv.close()
			try := func(b []reduction) int {
				fs := []*Expr{}
				var or *Expr
				for _, r := range b {
					x := rawXor(r.e, r.set)
					if or == nil {
						or = x
					} else {
						or = intern(exprKey{op: OpBOr, a: or, b: x}, nil)
					}
				}
				fs = append(fs, or)
				r, _ := sv.query(fs, nil)
				return r
			}
			for b := range ch {
				r := try(b)
				mu.Lock()
				if r == 0 {
					res.Confirmed += len(b)
					mu.Unlock()
					continue
				}
				mu.Unlock()
				for _, one := range b {
					r := try([]reduction{one})
					mu.Lock()
					switch r {
					case 0:
						res.Confirmed++
					case 1:
						res.Refuted++
						fmt.Printf("refuted reduction: %v vs %v\n", one.e, one.set)
					default:
						res.Unanswered++
					}
					mu.Unlock()
				}
			}
		}()
	}
	for len(q) > 0 {
		n := batch
		if n > len(q) {
			n = len(q)
		}
		ch <- q[:n]
		q = q[n:]
	}
	close(ch)
	wg.Wait()
	return res
}

func rawXor(a, b *Expr) *Expr {
	return intern(exprKey{op: OpBNot, a: intern(exprKey{op: OpEq, a: a, b: b}, nil)}, nil)
}

type crossResult struct {
	Solver   string `json:"solver"`
	Queries  int    `json:"queries"`
	Agree    int    `json:"agree"`
	Disagree int    `json:"disagree"`
	NoAnswer int    `json:"no_answer"`
}

func crossCheck(qs []qrec, bin string, args ...string) crossResult {
	r := crossResult{Solver: bin}
	sv := newSolver(bin, args...)
	sv.timeout = 10000
	defer sv.close()
	for _, q := range qs {
		if q.res < 0 {
			continue
		}
		r.Queries++
		x, _ := sv.query(q.fs, nil)
		switch {
		case x < 0:
			r.NoAnswer++
		case x == q.res:
			r.Agree++
		default:
			r.Disagree++
		}
	}
	return r
}
