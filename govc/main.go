package main

import (
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"
	"time"
)

func main() {
	for _, f := range late {
		f()
	}
	if len(os.Args) < 2 {
		fmt.Println("usage: govc check -prop C01")
		os.Exit(2)
	}
	if f := os.Getenv("GOVC_PROF"); f != "" {
		w, err := os.Create(f)
		if err == nil {
			pprof.StartCPUProfile(w)
			defer pprof.StopCPUProfile()
		}
	}
	switch os.Args[1] {
	case "check":
		if os.Getenv("GOVC_PROF") != "" {
			check(os.Args[2:])
			return
		}
		os.Exit(check(os.Args[2:]))
	case "list":
		l, s, err := load("/verif/contracts", "/repo", os.Args[2])
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		for _, k := range []string{"ensures", "contract", "inv", "requires", "modifies", "before", "after", "setup"} {
			for t, fs := range s.by[k] {
				for _, f := range fs {
					fmt.Println(k, t, f.name)
				}
			}
		}
		_ = l
	default:
		os.Exit(2)
	}
}

type result struct {
	prop, tier string
	seed       int64
	reports    []*FnReport
	base       *Base
	limits     []string // what could not be decided by proof
	failed     []*Obligation
	total      int
	discharged int
	solvers    map[string]int
	loadErr    error
	dropped    bool // some contracts don't fit the code any more
}

func check(argv []string) int {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	prop := fs.String("prop", "", "property")
	tier := fs.String("tier", os.Getenv("VERIF_TIER"), "quick or thorough")
	repo := fs.String("repo", "/repo", "code under verification")
	verif := fs.String("verif", "/verif", "this directory")
	only := fs.String("fn", "", "only this function (debugging)")
	verbose := fs.Bool("v", false, "print every obligation")
	noReplay := fs.Bool("noreplay", false, "debugging")
	limit := fs.Duration("limit", 0, "exploration limit per function")
	fs.Parse(argv)
	if *tier != "thorough" {
		*tier = "quick"
	}
	seed, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		seed = 1
	}
	t0 := time.Now()
	defer pool.closeAll()
	r := &result{prop: *prop, tier: *tier, seed: seed, solvers: map[string]int{}}
	fnLimit := 240 * time.Second
	if *tier == "thorough" {
		fnLimit = 300 * time.Second
	}
	if *limit > 0 {
		fnLimit = *limit
	}
	deadline := t0.Add(480 * time.Second)
	hardStop = t0.Add(600 * time.Second)
	r.run(*repo, *verif, *only, fnLimit, deadline)
	if *verbose {
		for _, f := range r.reports {
			fmt.Printf("%s (%s): %d paths, %v %s\n", f.Name, f.Pos, f.Outcomes, f.Dur.Round(time.Millisecond), f.Unsupported)
			for _, o := range f.Obls {
				fmt.Printf("   %v %s %s [%s] %s %v\n", [...]string{"ok", "FAILED", "unknown"}[o.status], o.kind, o.label, o.pos, o.solver, o.dur.Round(time.Millisecond))
				if o.status != Unsat && os.Getenv("GOVC_TRACE") != "" {
					fmt.Printf("      goal %v\n      trace %s\n      taint %s\n", o.goal, strings.Join(o.trace, " | "), strings.Join(o.taint, " | "))
					for _, p := range o.pc {
						fmt.Printf("      pc %v\n", p)
					}
				}
			}
		}
	}
	for _, o := range r.failed {
		if *verbose || true {
			fmt.Printf("FAILED OBLIGATION: %s: %s %s (%s)\n", o.fn, o.kind, o.label, o.pos)
			if *verbose {
				dumpObl(o)
			}
		}
	}
	for _, l := range r.limits {
		fmt.Printf("NOT PROVED: %s\n", l)
	}
	if *verbose {
		solverErrors.Range(func(k, v interface{}) bool { fmt.Println("solver:", k); return true })
	}
	// replay against the real code, or bounded stand-in
	bounded := r.base != nil && len(r.base.S.Bounded) > 0
	runReplay := len(r.failed) > 0 || len(r.limits) > 0 || bounded || *tier == "thorough" || r.loadErr != nil || os.Getenv("GOVC_REPLAY") != ""
	rp := replayResult{}
	if runReplay && !*noReplay {
		left := 850*time.Second - time.Since(t0)
		rp = replay(*repo, *verif, *prop, *tier, seed, left)
	}
	if r.dropped && !rp.failed && len(r.failed) > 0 {
		// what fails may fail because a part of the specification is missing
		for _, o := range r.failed {
			r.limits = append(r.limits, fmt.Sprintf("%s: %s %s (%s)", o.fn, o.kind, o.label, o.pos))
		}
		r.failed = nil
	}
	violations := 0
	path := filepath.Join(*verif, "replays", *prop+".txt")
	code := 0
	if len(r.failed) > 0 || rp.failed {
		violations = len(r.failed)
		if violations == 0 {
			violations = 1
		}
		writeReplay(path, r, rp)
		line := fmt.Sprintf("VIOLATION property=%s replay=%s", *prop, path)
		if !rp.failed {
			line += " no-failing-input-found"
		}
		for _, in := range rp.inputs {
			fmt.Println(in)
		}
		fmt.Println(line)
		code = 1
	}
	r.evidence(*verif, rp, runReplay, time.Since(t0), violations)
	fmt.Printf("%s %s: %d functions under contract, %d obligations, %d discharged, %d failed, %d not decided; replay %s; %.1fs\n", *prop, *tier, len(r.reports), r.total, r.discharged, len(r.failed), len(r.limits), rp.summary(runReplay), time.Since(t0).Seconds())
	if code == 0 && r.loadErr != nil && rp.noAnswer {
		return 2
	}
	return code
}

func dumpObl(o *Obligation) {
	fmt.Printf("    goal: %v\n", o.goal)
	for _, t := range o.pc {
		fmt.Printf("    pc: %v\n", t)
	}
	for _, m := range o.model {
		fmt.Printf("    model: %s\n", m)
	}
	for _, m := range o.trace {
		fmt.Printf("    trace: %s\n", m)
	}
}

func (r *result) run(repo, verif, only string, fnLimit time.Duration, deadline time.Time) {
	l, s, err := load(filepath.Join(verif, "contracts"), repo, r.prop)
	if err != nil {
		r.loadErr = err
		r.limits = append(r.limits, "loading: "+err.Error())
		return
	}
	for _, d := range l.Dropped {
		r.limits = append(r.limits, "contract "+d)
		r.dropped = true
	}
	b, err := newBase(l, s)
	if err != nil {
		r.limits = append(r.limits, err.Error())
		r.base = &Base{L: l, S: s}
		return
	}
	r.base = b
	todo := map[string]bool{}
	for _, k := range []string{"ensures", "contract"} {
		for t, fs := range s.by[k] {
			for _, f := range fs {
				if f.prop == r.prop {
					todo[t] = true
				}
			}
		}
	}
	done := map[string]bool{}
	// what takes long is put off until the other functions are done
	first := 60 * time.Second
	var late []string
	var stages []stage
	if r.tier == "thorough" {
		stages = []stage{{"z3-new", 15 * time.Second}, {"cvc5", 60 * time.Second}, {"z3", 60 * time.Second}}
	} else {
		stages = []stage{{"z3-new", 5 * time.Second}, {"cvc5", 15 * time.Second}, {"z3", 10 * time.Second}}
	}
	finish := func(rep *FnReport) {
		r.reports = append(r.reports, rep)
		for fn := range rep.ex.modular {
			todo[rep.ex.targetName(fn)] = true
		}
		var work []*Obligation
		for _, o := range rep.Obls {
			if s.Partial && o.kind == "safety" {
				o.status = Unknown
				continue
			}
			work = append(work, o)
		}
		rep.Obls = work
		parallel(len(work), func(i int) { discharge(work[i], stages) })
		r.classify(rep)
	}
	for {
		var names []string
		for t := range todo {
			if !done[t] && (only == "" || only == t) {
				names = append(names, t)
			}
			done[t] = true
		}
		if len(names) == 0 {
			if len(late) == 0 {
				break
			}
			names, late, first = late, nil, fnLimit
		}
		sort.Strings(names)
		for _, t := range names {
			lim := fnLimit
			if left := time.Until(deadline); left < lim {
				lim = left
			}
			if lim < time.Second {
				r.limits = append(r.limits, t+": out of time")
				continue
			}
			if first < lim && len(todo) > 20 {
				rep := b.verify(t, l.findFunc(t), first)
				if strings.Contains(rep.Unsupported, "time limit") {
					late = append(late, t)
					continue
				}
				finish(rep)
				continue
			}
			finish(b.verify(t, l.findFunc(t), lim))
		}
	}
}

// modelled: nothing in the obligation depends on the result of a call
// without a model.
func tainted(o *Obligation) bool {
	m := map[*Term]bool{}
	collectApps(o.goal, m)
	for _, t := range o.pc {
		collectApps(t, m)
	}
	for t := range m {
		if strings.Contains(t.name, "u!") {
			return true
		}
	}
	return false
}

func (r *result) classify(rep *FnReport) {
	if rep.Unsupported != "" {
		r.limits = append(r.limits, rep.Name+": "+rep.Unsupported)
	}
	if rep.Vacuous && rep.Unsupported == "" {
		r.limits = append(r.limits, rep.Name+": no path returns (vacuous)")
	}
	seen := map[string]bool{}
	for _, o := range rep.Obls {
		r.total++
		switch {
		case o.status == Unsat:
			r.discharged++
			r.solvers[o.solver]++
		case o.status == Sat && !tainted(o):
			r.failed = append(r.failed, o)
		default:
			k := rep.Name + ": " + o.kind + " " + o.label
			if o.status == Sat {
				k += " (depends on a library call without a contract)"
			} else {
				k += " (solvers gave up)"
			}
			if !seen[k] {
				seen[k] = true
				r.limits = append(r.limits, k)
			}
		}
	}
}

type replayResult struct {
	ran, failed, noAnswer bool
	inputs                []string
	output                string
	dur                   time.Duration
	cases                 string
}

func (rp replayResult) summary(asked bool) string {
	switch {
	case !asked:
		return "not needed"
	case rp.failed:
		return "FAILED"
	case rp.noAnswer:
		return "could not run"
	case rp.ran:
		return "passed " + rp.cases
	}
	return "none"
}

// replay runs the property's test of the real code.
func replay(repo, verif, prop, tier string, seed int64, limit time.Duration) (rp replayResult) {
	t0 := time.Now()
	defer func() { rp.dur = time.Since(t0) }()
	dir := filepath.Join(verif, "replay")
	src := filepath.Join(dir, prop+"_test.go")
	b, err := os.ReadFile(src)
	if err != nil {
		rp.noAnswer = true
		return
	}
	if limit > 400*time.Second && tier == "quick" {
		limit = 400 * time.Second
	}
	if limit < 20*time.Second {
		limit = 20 * time.Second
	}
	tmp, err := os.MkdirTemp("", "govc-replay")
	if err != nil {
		rp.noAnswer = true
		return
	}
	defer os.RemoveAll(tmp)
	pkg, pdir := ".", repo
	common := "common_test.go"
	if strings.Contains(string(b), "\npackage main") || strings.HasPrefix(string(b), "package main") {
		pkg, pdir = "./cmd/ofx", filepath.Join(repo, "cmd", "ofx")
	}
	rep := map[string]string{}
	cb, err := os.ReadFile(filepath.Join(dir, common))
	if err == nil {
		pkgName := "ofxgo_test"
		for _, line := range strings.Split(string(b), "\n") {
			if strings.HasPrefix(line, "package ") {
				pkgName = strings.TrimSpace(strings.TrimPrefix(line, "package "))
				break
			}
		}
		cp := filepath.Join(tmp, common)
		os.WriteFile(cp, []byte(strings.Replace(string(cb), "package ofxgo_test", "package "+pkgName, 1)), 0644)
		rep[filepath.Join(pdir, "zz_verif_common_test.go")] = cp
	}
	rep[filepath.Join(pdir, "zz_verif_replay_test.go")] = src
	// shared helpers named in the test
	for _, line := range strings.Split(string(b), "\n") {
		if strings.HasPrefix(line, "//replay:use ") {
			for _, f := range strings.Fields(line)[1:] {
				hb, err := os.ReadFile(filepath.Join(dir, f))
				if err == nil && pkg != "." {
					hp := filepath.Join(tmp, f)
					os.WriteFile(hp, []byte(strings.Replace(string(hb), "package ofxgo_test", "package main", 1)), 0644)
					rep[filepath.Join(pdir, "zz_verif_"+f)] = hp
					continue
				}
				rep[filepath.Join(pdir, "zz_verif_"+f)] = filepath.Join(dir, f)
			}
		}
	}
	// the repository's own tests are not part of this
	ms, _ := filepath.Glob(filepath.Join(pdir, "*_test.go"))
	for _, m := range ms {
		if _, ok := rep[m]; !ok {
			rep[m] = ""
		}
	}
	ov, _ := json.Marshal(map[string]interface{}{"Replace": rep})
	ovf := filepath.Join(tmp, "overlay.json")
	os.WriteFile(ovf, ov, 0644)
	ctx, cancel := context.WithTimeout(context.Background(), limit+10*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, "go", "test", "-vet=off", "-count=1", "-v", "-overlay", ovf, "-run", "^TestReplay"+prop+"$", "-timeout", fmt.Sprintf("%ds", int(limit.Seconds())), pkg)
	cmd.Dir = repo
	cmd.Env = append(os.Environ(), "VERIF_TIER="+tier, fmt.Sprintf("VERIF_SEED=%d", seed), "VERIF_REPO="+repo, "TMPDIR="+tmp)
	out, err := cmd.CombinedOutput()
	rp.output = string(out)
	if len(rp.output) > 200000 {
		rp.output = rp.output[:200000]
	}
	for _, line := range strings.Split(string(out), "\n") {
		if strings.HasPrefix(line, "FAILING-INPUT:") && len(rp.inputs) < 20 {
			if len(line) > 2000 {
				line = line[:2000]
			}
			rp.inputs = append(rp.inputs, line)
		}
		if strings.HasPrefix(line, "CASES:") {
			rp.cases = strings.TrimSpace(strings.TrimPrefix(line, "CASES:"))
		}
	}
	rp.ran = true
	if err != nil {
		switch {
		case strings.Contains(rp.output, "[build failed]") || strings.Contains(rp.output, "[setup failed]"):
			rp.noAnswer = true
			fmt.Println(firstLines(rp.output, 12))
		case strings.Contains(rp.output, "--- FAIL") || strings.Contains(rp.output, "panic:") || strings.Contains(rp.output, "FAILING-INPUT"):
			rp.failed = true
			if len(rp.inputs) == 0 {
				rp.inputs = append(rp.inputs, "FAILING-INPUT: "+firstLines(rp.output, 6))
			}
		default:
			rp.noAnswer = true
			fmt.Println(firstLines(rp.output, 12))
		}
	}
	return
}

func firstLines(s string, n int) string {
	ls := strings.Split(s, "\n")
	if len(ls) > n {
		ls = ls[:n]
	}
	return strings.Join(ls, "\n")
}

func writeReplay(path string, r *result, rp replayResult) {
	os.MkdirAll(filepath.Dir(path), 0755)
	var b strings.Builder
	fmt.Fprintf(&b, "property %s\n\n", r.prop)
	for _, o := range r.failed {
		fmt.Fprintf(&b, "failed obligation: %s: %s %s at %s (%s)\n", o.fn, o.kind, o.label, o.pos, o.solver)
		fmt.Fprintf(&b, "  goal: %s\n", o.goal)
		for _, t := range o.pc {
			fmt.Fprintf(&b, "  assuming: %s\n", t)
		}
		for _, m := range o.model {
			fmt.Fprintf(&b, "  counterexample: %s\n", m)
		}
		for _, m := range o.trace {
			fmt.Fprintf(&b, "  path: %s\n", m)
		}
		fmt.Fprintln(&b)
	}
	for _, l := range r.limits {
		fmt.Fprintf(&b, "not proved: %s\n", l)
	}
	fmt.Fprintf(&b, "\nreplay of the real code: cd %s && go test with /verif/replay/%s_test.go laid over (govc check -prop %s does this)\n", "/repo", r.prop, r.prop)
	for _, in := range rp.inputs {
		fmt.Fprintln(&b, in)
	}
	if !rp.failed {
		fmt.Fprintln(&b, "no failing input was found")
	}
	fmt.Fprintf(&b, "\n%s\n", rp.output)
	os.WriteFile(path, []byte(b.String()), 0644)
}

func (r *result) evidence(verif string, rp replayResult, asked bool, wall time.Duration, violations int) {
	type fnEv struct {
		Name        string   `json:"name"`
		Pos         string   `json:"pos"`
		Contracts   []string `json:"contracts"`
		Paths       int      `json:"paths"`
		Obligations int      `json:"obligations"`
		Discharged  int      `json:"discharged"`
		LoopsCut    int      `json:"loops_with_invariants"`
		Seconds     float64  `json:"seconds"`
		Limit       string   `json:"limit,omitempty"`
	}
	var fns []fnEv
	trusted := map[string]bool{}
	inlined := map[string]bool{}
	unknown := map[string]bool{}
	kinds := map[string]int{}
	for _, f := range r.reports {
		d := 0
		for _, o := range f.Obls {
			kinds[o.kind]++
			if o.status == Unsat {
				d++
			}
		}
		fns = append(fns, fnEv{f.Name, f.Pos, f.Contracts, f.Outcomes, len(f.Obls), d, f.ex.loopsCut, f.Dur.Seconds(), f.Unsupported})
		for k := range f.ex.used {
			trusted[k] = true
		}
		for k := range f.ex.inlined {
			inlined[k] = true
		}
		for k := range f.ex.unknown {
			unknown[k] = true
		}
	}
	tb := []string{"govc (this verifier: Go SSA to verification conditions) and golang.org/x/tools/go/ssa v0.52.0", "the solvers z3-new, cvc5, z3"}
	for _, k := range sortedFns(trusted) {
		tb = append(tb, "assumed contract of "+k)
	}
	for _, k := range sortedFns(unknown) {
		tb = append(tb, "no contract: "+k+" (result unknown, may change what its arguments point to)")
	}
	assume := []string{
		"int and uint are 64 bits; machine integers are mathematical integers wrapped to their range",
		"strings are sequences of bytes; lengths are below 2^48",
		"pointers reached through different unknown places of the inputs do not alias; pointer parameters are not nil unless the contract says so",
		"no other goroutine changes the data a function works on",
	}
	var bounded []string
	if r.base != nil && r.base.S != nil {
		assume = append(assume, r.base.S.Trusted...)
		bounded = append(bounded, r.base.S.Bounded...)
	}
	bounded = append(bounded, r.limits...)
	cov := map[string]interface{}{
		"obligations":              r.total,
		"discharged":               r.discharged,
		"checker_cmd":              "/verif/bin/govc check -prop " + r.prop + " -tier " + r.tier,
		"trusted_base":             tb,
		"functions_under_contract": fns,
		"functions_inlined":        sortedFns(inlined),
		"discharged_by":            r.solvers,
		"obligations_by_kind":      kinds,
		"solver_calls":             atomic.LoadInt64(&pool.calls),
		"solver_time_s":            float64(atomic.LoadInt64(&pool.nanos)) / 1e9,
		"bounded_not_proved":       bounded,
	}
	if asked {
		cov["bounded_check"] = map[string]interface{}{"what": "replay/" + r.prop + "_test.go run against the real code (a sampled check, never counted as proved)", "ran": rp.ran, "failed": rp.failed, "cases": rp.cases, "seconds": rp.dur.Seconds()}
	}
	ev := map[string]interface{}{
		"property":    r.prop,
		"tier":        r.tier,
		"seed":        r.seed,
		"level":       "proof",
		"coverage":    cov,
		"assumptions": assume,
		"wall_s":      wall.Seconds(),
		"violations":  violations,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verif, "evidence"), 0755)
	os.WriteFile(filepath.Join(verif, "evidence", r.prop+".json"), append(b, '\n'), 0644)
}
