// Package zzsym is the harness API. Under the symbolic engine the functions of
// this file are intercepted; compiled natively they replay recorded inputs.
package zzsym

import (
	"fmt"
	"os"
)

type InVal struct {
	Name string `json:"name"`
	W    uint8  `json:"w"`
	V    uint64 `json:"v"`
}

type Result struct {
	Status string   `json:"status"`
	Msg    string   `json:"msg"`
	Obs    []string `json:"obs"`
	Find   []string `json:"find"`
	Stdout int      `json:"stdout"`
}

type stop struct{}

var (
	inputs []InVal
	pos    int
	tier   int
	res    Result
)

// Run replays one case natively.
func Run(f func(), in []InVal, t int) (r Result) {
	inputs, pos, tier = in, 0, t
	res = Result{Status: "ok"}
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(stop); !ok {
				res.Status, res.Msg = "panic", fmt.Sprint(e)
			}
		}
		r = res
	}()
	f()
	return res
}

func next(name string) uint64 {
	if pos >= len(inputs) {
		res.Status, res.Msg = "inputs", "no recorded input for "+name
		panic(stop{})
	}
	v := inputs[pos]
	pos++
	if len(v.Name) <= len(name) || v.Name[:len(name)] != name {
		res.Status, res.Msg = "inputs", "recorded input "+v.Name+" where "+name+" is read"
		panic(stop{})
	}
	return v.V
}

func Byte(name string) byte     { return byte(next(name)) }
func Bool(name string) bool     { return next(name)&1 != 0 }
func Int(name string) int       { return int(next(name)) }
func Int64(name string) int64   { return int64(next(name)) }
func Int32(name string) int32   { return int32(next(name)) }
func Uint32(name string) uint32 { return uint32(next(name)) }
func Uint64(name string) uint64 { return next(name) }

func Bytes(name string, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(next(name))
	}
	return b
}

// Choose returns one of 0..n-1; every value is explored.
func Choose(name string, n int) int { return int(next(name)) }

// Pick makes x concrete; every feasible value is explored.
func Pick(x int) int { return x }

func Assume(b bool) {
	if !b {
		res.Status = "assume"
		panic(stop{})
	}
}

func Assert(b bool, msg string) {
	if !b {
		res.Status, res.Msg = "assert", msg
		panic(stop{})
	}
}

// Finding marks the path as showing the behaviour of a recorded finding.
func Finding(id string) { res.Find = append(res.Find, id) }

func Observe(label string, v int) { res.Obs = append(res.Obs, fmt.Sprintf("%s=%d", label, v)) }

func ObserveStr(label, v string) { res.Obs = append(res.Obs, fmt.Sprintf("%s=%x", label, v)) }

func Reach(label string) {}

func Tier() int { return tier }

// Precise makes the engine format symbolic integers exactly.
func Precise(on bool) {}

// StdoutWrites reports how much has been written to standard output.
func StdoutWrites() int {
	fi, err := os.Stdout.Stat()
	if err != nil {
		return 0
	}
	return int(fi.Size())
}

// SameBytes compares without a branch per byte.
func SameBytes(a, b []byte) bool { return string(a) == string(b) }

// EqB compares without a branch per byte.
func EqB(a, b string) bool { return a == b }

// Try runs f and reports whether it returned without a panic.
func Try(f func()) (ok bool) {
	defer func() {
		if e := recover(); e != nil {
			if s, is := e.(stop); is {
				panic(s)
			}
			ok = false
		}
	}()
	f()
	return true
}
