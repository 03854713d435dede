package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"io/ioutil"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type KnownFinding struct {
	ID       string `json:"id"`
	Property string `json:"property"`
	What     string `json:"what"`
	Status   string `json:"status"` // open or fixed
	Commit   string `json:"commit,omitempty"`
}

func main() {
	var (
		repo    = flag.String("repo", "/repo", "")
		verif   = flag.String("verif", "/verif", "")
		prop    = flag.String("property", "", "")
		tier    = flag.String("tier", "quick", "")
		only    = flag.String("only", "", "run only harnesses containing this text")
		budget  = flag.Int("budget", 0, "seconds of exploration")
		workers = flag.Int("workers", 0, "")
		replayF = flag.String("replay", "", "replay a saved counterexample natively")
		stopV   = flag.Bool("stop", false, "stop at first violation")
		noEvid  = flag.Bool("noevidence", false, "")
		verbose = flag.Bool("v", false, "")
	)
	flag.Parse()
	debug.SetGCPercent(200)
	debug.SetMemoryLimit(20 << 30)
	if *tier == "thorough" {
		curTier = 1
	}
	os.Exit(checkMain(*repo, *verif, *prop, *tier, *only, *budget, *workers, *replayF, *stopV, *noEvid, *verbose))
}

func loadProgram(repo string, rep map[string]string) (*ssa.Program, *ssa.Package, error) {
	ov := map[string][]byte{}
	for k, v := range rep {
		b, err := ioutil.ReadFile(v)
		if err != nil {
			return nil, nil, err
		}
		ov[k] = b
	}
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: repo, Overlay: ov, Env: goEnv()}
	pkgs, err := packages.Load(cfg, "./vtdxml/zzh")
	if err != nil {
		return nil, nil, err
	}
	bad := ""
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			if strings.HasPrefix(p.PkgPath, modPath) {
				bad += e.Error() + "\n"
			}
		}
	})
	if bad != "" {
		return nil, nil, fmt.Errorf("load: %s", bad)
	}
	prog, ps := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	return prog, ps[0], nil
}

func checkMain(repo, verif, prop, tier, only string, budget, workers int, replayF string, stopV, noEvid, verbose bool) int {
	t0 := time.Now()
	if workers == 0 {
		workers = runtime.NumCPU()
	}
	dir, err := ioutil.TempDir("", "gosym")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(dir)
	overlay, rep, err := writeOverlay(repo, filepath.Join(verif, "harness"), dir)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	nat := startNative(repo, overlay, dir)
	if replayF != "" {
		return replayMain(nat, replayF)
	}
	prog, hpkg, err := loadProgram(repo, rep)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	theProg = prog
	known := loadKnown(verif)
	secs := budget
	if secs == 0 {
		secs = 420
		if tier == "thorough" {
			secs = 3600
		}
	}

	// harness functions of this property
	var names []string
	for n, m := range hpkg.Members {
		if f, ok := m.(*ssa.Function); ok && strings.HasPrefix(n, "H_"+prop+"_") && f.Signature.Params().Len() == 0 {
			if only == "" || strings.Contains(n, only) {
				names = append(names, n)
			}
		}
	}
	sort.Strings(names)
	if len(names) == 0 {
		fmt.Fprintf(os.Stderr, "no harness for %s\n", prop)
		return 2
	}
	var ex *Explorer
	var jobs []*Job
	deadline := time.Now().Add(time.Duration(secs) * time.Second)
	for attempt := 0; ; attempt++ {
		ex = newExplorer(prog, workers)
		ex.stopOnViol = stopV
		ex.deadline = deadline
		iw := &Worker{ex: ex, solver: newSolver("z3", "-in")}
		if attempt == 0 {
			if why := iw.runInit(hpkg); why != "" {
				fmt.Fprintln(os.Stderr, "package initialisation:", why)
				return 2
			}
		}
		iw.solver.close()
		jobs = nil
		var init []*State
		for _, n := range names {
			j := &Job{name: n, fn: hpkg.Func(n), stepLimit: 40_000_000}
			if strings.HasSuffix(n, "_mb") {
				j.stepLimit = 1_000_000_000 // documents beyond a megabyte
			}
			jobs = append(jobs, j)
			s := &State{owner: newOwner(), job: j}
			s.pushFrame(codeFor(j.fn), nil, nil, -1)
			init = append(init, s)
		}
		for i, j := 0, len(init)-1; i < j; i, j = i+1, j-1 {
			init[i], init[j] = init[j], init[i]
		}
		ex.explore(init)
		if len(ex.needRestart) == 0 || attempt > 4 {
			break
		}
		atomic.StoreInt32(&ex.stop, 0)
	}
	tExp := time.Since(t0)
	conf := confirmReductions(workers)
	var cross []crossResult
	if n := len(ex.qsample); n > 0 {
		qs := ex.qsample
		if tier != "thorough" && len(qs) > 40 {
			qs = qs[:40]
		}
		cross = append(cross, crossCheck(qs, "z3-new", "-in"))
		if tier == "thorough" {
			cross = append(cross, crossCheck(qs, "cvc5", "--incremental", "--lang=smt2", "--tlimit-per=10000"))
		}
	}

	if err := <-nat.buildOK; err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	// translation validation on sampled paths
	var cases []nativeCase
	for _, p := range ex.samples {
		cases = append(cases, nativeCase{p.Job, p.Inputs, curTier})
	}
	tr := nat.run(cases, 60*time.Second)
	validated, mismatches := 0, []string{}
	type outViol struct {
		*Violation
		Native nativeResult `json:"native"`
	}
	var confirmed []outViol
	for i, r := range tr {
		p := ex.samples[i]
		switch {
		case r.Status == "ok" && strings.Join(r.Obs, ";") == strings.Join(p.Obs, ";") && strings.Join(r.Find, ";") == strings.Join(p.Find, ";"):
			validated++
		case r.Status == "assert" || r.Status == "panic":
			confirmed = append(confirmed, outViol{&Violation{PathModel: *p, Kind: r.Status, Msg: r.Msg, Where: "native replay of an explored path"}, r})
		default:
			mismatches = append(mismatches, fmt.Sprintf("%s %v: engine obs %v find %v, native %s %s obs %v find %v", p.Job, p.Inputs, p.Obs, p.Find, r.Status, r.Msg, r.Obs, r.Find))
		}
	}
	// counterexamples
	sort.SliceStable(ex.viols, func(i, j int) bool { return len(ex.viols[i].Inputs) < len(ex.viols[j].Inputs) })
	var unconfirmed []*Violation
	vcases := make([]nativeCase, len(ex.viols))
	for i, v := range ex.viols {
		vcases[i] = nativeCase{v.Job, v.Inputs, curTier}
	}
	vr := nat.run(vcases, 60*time.Second)
	for i, v := range ex.viols {
		r := vr[i]
		ok := false
		switch r.Status {
		case "assert", "panic", "crash":
			ok = true
		case "hang":
			ok = v.Kind == "hang"
		}
		if ok {
			confirmed = append(confirmed, outViol{v, r})
		} else {
			unconfirmed = append(unconfirmed, v)
		}
	}
	// known findings
	var findLines []string
	var fids []string
	for id := range ex.findings {
		fids = append(fids, id)
	}
	sort.Strings(fids)
	for _, id := range fids {
		k, ok := known[id]
		sample := ex.findSample[id]
		r := nat.run([]nativeCase{{sample.Job, sample.Inputs, curTier}}, 60*time.Second)[0]
		hit := false
		for _, f := range r.Find {
			if f == id {
				hit = true
			}
		}
		if !ok || k.Status != "open" {
			if hit {
				confirmed = append(confirmed, outViol{&Violation{PathModel: *sample, Kind: "finding", Msg: "behaviour " + id + " which no open known finding lists", Where: sample.Job}, r})
			}
			continue
		}
		if hit {
			findLines = append(findLines, fmt.Sprintf("KNOWN-FINDING: property=%s %s: %s", prop, id, k.What))
		}
	}

	// functions encoded
	var fns []string
	nfn := 0
	for _, c := range codeList {
		if atomic.LoadUint32(&c.cover) != 0 && c.fn.Pkg != nil {
			p := c.fn.Pkg.Pkg.Path()
			if strings.HasPrefix(p, modPath) && p != zzsymPath && p != zzhPath {
				fns = append(fns, strings.TrimPrefix(c.name, modPath+"/vtdxml/"))
			}
			nfn++
		}
	}
	sort.Strings(fns)
	var bounds []string
	if hp, err := ioutil.ReadFile(filepath.Join(verif, "harness", "bounds.json")); err == nil {
		var m map[string]map[string]string
		if err := json.Unmarshal(hp, &m); err == nil {
			for _, n := range names {
				if b := m["bounds"][n]; b != "" {
					bounds = append(bounds, n+": "+b)
				}
			}
		} else {
			fmt.Fprintln(os.Stderr, "bounds.json:", err)
		}
	}
	errs := ex.sortedErrors()
	complete := !ex.timedOut && len(errs) == 0 && ex.unknowns == 0 && len(unconfirmed) == 0
	jobInfo := []map[string]any{}
	vacuous := []string{}
	for _, j := range jobs {
		jobInfo = append(jobInfo, map[string]any{"harness": j.name, "paths": j.paths, "assertions": j.asserts})
		if j.paths == 0 {
			vacuous = append(vacuous, j.name)
		}
	}
	var samples []any
	for i, p := range ex.samples {
		if i >= 6 {
			break
		}
		samples = append(samples, p)
	}
	reach := map[string]int64{}
	for k, v := range ex.reach {
		reach[k] = v
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	ev := map[string]any{
		"property": prop, "tier": tier, "seed": seed, "level": "model_checking",
		"coverage": map[string]any{
			"states":                        ex.paths,
			"transitions":                   ex.steps,
			"traces_validated_against_impl": validated,
			"samples":                       samples,
			"exhaustive":                    complete,
			"meaning":                       "states: symbolic path states explored to their end (each stands for every input that satisfies its path condition); transitions: SSA instructions executed symbolically",
			"forks":                         ex.forks,
			"merged_paths":                  ex.merges,
			"assertions_evaluated":          ex.asserts,
			"assertions_symbolic":           ex.assertsSym,
			"harnesses":                     jobInfo,
			"bounds":                        bounds,
			"functions_encoded":             fns,
			"functions_encoded_total":       nfn,
			"solver":                        map[string]any{"queries": stats.queries, "sat": stats.sat, "unsat": stats.unsat, "unknown": stats.unknown, "cached_answers": stats.cached, "solver_seconds": float64(stats.nanos) / 1e9, "value_set_decisions": stats.setDecisions},
			"value_set_reductions_confirmed_by_solver": conf,
			"cross_checks":              cross,
			"reach_witnesses":           reach,
			"assumed_away_paths":        ex.infeasible,
			"time_limit_hit":            ex.timedOut,
			"engine_limits":             errs,
			"unconfirmed":               len(unconfirmed),
			"translation_mismatches":    mismatches,
			"known_findings_reproduced": findLines,
			"vacuous_harnesses":         vacuous,
		},
		"assumptions": []string{
			"bounds listed under coverage.bounds; nothing is claimed outside them",
			"the engine's reading of Go SSA (x/tools/go/ssa) agrees with the compiled code; sampled paths are replayed against the compiled code on every run",
			"fmt formatting of symbolic values yields an arbitrary string that no decision depends on; sync primitives are no-ops (single goroutine)",
		},
		"wall_s":     time.Since(t0).Seconds(),
		"violations": len(confirmed),
	}
	if !noEvid {
		os.MkdirAll(filepath.Join(verif, "evidence"), 0755)
		b, _ := json.MarshalIndent(ev, "", " ")
		if err := ioutil.WriteFile(filepath.Join(verif, "evidence", prop+".json"), append(b, '\n'), 0644); err != nil {
			fmt.Fprintln(os.Stderr, err)
		}
	}
	fmt.Printf("%s %s: %d harnesses, %d paths, %d steps, %d assertions (%d symbolic), %d solver queries (%.1fs), explored in %.1fs, %d/%d traces validated\n",
		prop, tier, len(names), ex.paths, ex.steps, ex.asserts, ex.assertsSym, stats.queries, float64(stats.nanos)/1e9, tExp.Seconds(), validated, len(tr))
	if verbose {
		for _, j := range jobInfo {
			fmt.Println("  ", j)
		}
		fmt.Println("  reach", reach)
		fmt.Printf("  reductions %+v cross %+v setdec %d merges %d forks %d infeasible %d\n", conf, cross, stats.setDecisions, ex.merges, ex.forks, ex.infeasible)
	}
	if ex.timedOut {
		fmt.Printf("NOTE %s: time limit reached; the exploration is not complete within its bounds\n", prop)
	}
	for i, e := range errs {
		if i < 8 {
			fmt.Printf("NOTE %s: not explored: %s\n", prop, e)
		}
	}
	for i, m := range mismatches {
		if i < 5 {
			fmt.Printf("NOTE %s: translation mismatch: %s\n", prop, m)
		}
	}
	for i, v := range unconfirmed {
		if i < 5 {
			fmt.Printf("NOTE %s: counterexample not confirmed on the compiled code, not reported: %s %s at %s inputs %s\n", prop, v.Kind, v.Msg, v.Where, showInputs(v.Inputs))
		}
	}
	for _, l := range vacuous {
		fmt.Printf("NOTE %s: harness %s reached its end on no path\n", prop, l)
	}
	for _, l := range findLines {
		fmt.Println(l)
	}
	if conf.Refuted > 0 {
		fmt.Printf("NOTE %s: %d value-set reductions refuted by the solver\n", prop, conf.Refuted)
	}
	if len(confirmed) > 0 {
		rd := filepath.Join(verif, "build", "replay")
		os.MkdirAll(rd, 0755)
		for i, v := range confirmed {
			if i >= 20 {
				break
			}
			f := filepath.Join(rd, fmt.Sprintf("%s-%d.json", prop, i))
			b, _ := json.MarshalIndent(v, "", " ")
			ioutil.WriteFile(f, append(b, '\n'), 0644)
			if i < 8 {
				fmt.Printf("  %s: %s at %s\n    inputs %s\n    native: %s %s\n", v.Kind, v.Msg, v.Where, showInputs(v.Inputs), v.Native.Status, v.Native.Msg)
				if verbose {
					for _, l := range v.Stack {
						fmt.Println("       ", l)
					}
				}
			}
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, filepath.Join(rd, prop+"-0.json"))
		return 1
	}
	return 0
}

func showInputs(in []InVal) string {
	var sb strings.Builder
	run := ""
	var bs []byte
	flush := func() {
		if run != "" {
			fmt.Fprintf(&sb, "%s=%q ", run, bs)
		}
		run, bs = "", nil
	}
	for _, i := range in {
		base := i.Name
		if k := strings.LastIndex(base, "."); k >= 0 {
			base = base[:k]
		}
		if i.W == 8 {
			if base != run {
				flush()
				run = base
			}
			bs = append(bs, byte(i.V))
			continue
		}
		flush()
		fmt.Fprintf(&sb, "%s=%d ", base, int64(sext(i.V, i.W)))
	}
	flush()
	return strings.TrimSpace(sb.String())
}

func loadKnown(verif string) map[string]KnownFinding {
	r := map[string]KnownFinding{}
	b, err := ioutil.ReadFile(filepath.Join(verif, "known_findings.json"))
	if err != nil {
		return r
	}
	var d struct {
		Findings []KnownFinding `json:"findings"`
	}
	if err := json.Unmarshal(b, &d); err != nil {
		fmt.Fprintln(os.Stderr, "known_findings.json:", err)
		return r
	}
	for _, k := range d.Findings {
		r[k.ID] = k
	}
	return r
}

func replayMain(nat *Native, file string) int {
	b, err := ioutil.ReadFile(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var v Violation
	if err := json.Unmarshal(b, &v); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	if err := <-nat.buildOK; err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	r := nat.run([]nativeCase{{v.Job, v.Inputs, curTier}}, 60*time.Second)[0]
	fmt.Printf("%s %s\ninputs %s\nnative: %s %s\nobs %v find %v\n", v.Job, v.Msg, showInputs(v.Inputs), r.Status, r.Msg, r.Obs, r.Find)
	if r.Status != "ok" {
		return 1
	}
	return 0
}

var _ = exec.Command
