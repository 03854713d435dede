package main

// Native replay: the same harness functions compiled by the Go toolchain
// against the code under test.

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io/ioutil"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"syscall"
	"time"
)

type Native struct {
	bin     string
	race    string
	dir     string
	buildOK chan error
}

type nativeCase struct {
	Job    string  `json:"job"`
	Inputs []InVal `json:"inputs"`
	Tier   int     `json:"tier"`
}

type nativeResult struct {
	Status string   `json:"status"` // ok, assert, panic, assume, inputs, hang, crash
	Msg    string   `json:"msg"`
	Obs    []string `json:"obs"`
	Find   []string `json:"find"`
	Stdout int      `json:"stdout"`
}

func goEnv() []string {
	env := os.Environ()
	env = append(env, "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOSUMDB=off", "GOTOOLCHAIN=local", "GO111MODULE=on", "GOWORK=off")
	if os.Getenv("HOME") == "" {
		env = append(env, "HOME=/root")
	}
	return env
}

// writeOverlay lays the harness packages over the repository and returns the
// overlay file and the map.
func writeOverlay(repo, harness, dir string) (string, map[string]string, error) {
	rep := map[string]string{}
	for _, p := range []string{"zzsym", "zzh", "zzmain"} {
		fs, err := filepath.Glob(filepath.Join(harness, p, "*.go"))
		if err != nil {
			return "", nil, err
		}
		for _, f := range fs {
			rep[filepath.Join(repo, "vtdxml", p, filepath.Base(f))] = f
		}
	}
	b, _ := json.Marshal(map[string]any{"Replace": rep})
	of := filepath.Join(dir, "overlay.json")
	return of, rep, ioutil.WriteFile(of, b, 0644)
}

func startNative(repo, overlay, dir string) *Native {
	n := &Native{bin: filepath.Join(dir, "native"), dir: dir, buildOK: make(chan error, 1)}
	go func() {
		cmd := exec.Command("go", "build", "-overlay", overlay, "-o", n.bin, "./vtdxml/zzmain")
		cmd.Dir = repo
		cmd.Env = goEnv()
		out, err := cmd.CombinedOutput()
		if err != nil {
			err = fmt.Errorf("native build: %v\n%s", err, out)
		}
		n.buildOK <- err
	}()
	return n
}

// run executes the cases in order in child processes; a case that hangs or
// crashes the process is reported and the rest continues in a new process.
func (n *Native) run(cases []nativeCase, timeout time.Duration) []nativeResult {
	res := make([]nativeResult, len(cases))
	par := 6
	if len(cases) < 12 {
		par = 1
	}
	var wg sync.WaitGroup
	for p := 0; p < par; p++ {
		lo, hi := p*len(cases)/par, (p+1)*len(cases)/par
		if lo == hi {
			continue
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := lo; i < hi; {
				i += n.runSome(cases[i:hi], res[i:hi], timeout)
			}
		}()
	}
	wg.Wait()
	return res
}

func (n *Native) runSome(cases []nativeCase, res []nativeResult, timeout time.Duration) int {
	cmd := exec.Command(n.bin)
	cmd.Env = append(os.Environ(), "GOMEMLIMIT=3GiB", "GOMAXPROCS=2")
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	in, _ := cmd.StdinPipe()
	r, wpipe, err := os.Pipe()
	if err != nil {
		engineErr("pipe: %v", err)
	}
	cmd.ExtraFiles = []*os.File{wpipe}
	var errb strings.Builder
	cmd.Stderr = &limitWriter{b: &errb, n: 8000}
	if err := cmd.Start(); err != nil {
		engineErr("native start: %v", err)
	}
	wpipe.Close()
	defer func() {
		in.Close()
		syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
		cmd.Wait()
		r.Close()
	}()
	br := bufio.NewReaderSize(r, 1<<20)
	enc := json.NewEncoder(in)
	for i, c := range cases {
		if err := enc.Encode(c); err != nil {
			res[i] = nativeResult{Status: "crash", Msg: err.Error()}
			return i + 1
		}
		type lr struct {
			line []byte
			err  error
		}
		ch := make(chan lr, 1)
		go func() {
			l, err := br.ReadBytes('\n')
			ch <- lr{l, err}
		}()
		select {
		case x := <-ch:
			if x.err != nil {
				time.Sleep(50 * time.Millisecond)
				res[i] = nativeResult{Status: "crash", Msg: firstLines(errb.String(), 3)}
				return i + 1
			}
			if err := json.Unmarshal(x.line, &res[i]); err != nil {
				res[i] = nativeResult{Status: "crash", Msg: err.Error()}
				return i + 1
			}
		case <-time.After(timeout):
			res[i] = nativeResult{Status: "hang", Msg: fmt.Sprintf("no result after %v", timeout)}
			return i + 1
		}
	}
	return len(cases)
}

type limitWriter struct {
	b *strings.Builder
	n int
}

func (l *limitWriter) Write(p []byte) (int, error) {
	if l.b.Len() < l.n {
		l.b.Write(p)
	}
	return len(p), nil
}

func firstLines(s string, n int) string {
	ls := strings.Split(s, "\n")
	if len(ls) > n {
		ls = ls[:n]
	}
	return strings.Join(ls, " / ")
}
