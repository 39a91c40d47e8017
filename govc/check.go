package main

import (
	"bytes"
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"govc/smt"
)

// PropConf says what decides a property.
type PropConf struct {
	Configs   []string            `json:"configs"`          // build configurations verified in every tier
	Thorough  []string            `json:"thorough_configs"` // more of them in the thorough tier
	Skip      map[string][]string `json:"skip"`             // per configuration: functions whose contract is not decided within the time limits
	QuickSkip map[string][]string `json:"quick_skip"`       // per configuration: functions verified in the thorough tier only
	Level     string              `json:"level"`
	Required  []string            `json:"required"` // functions that must be under contract
	Asm       []string            `json:"asm"`      // assembly routines with verification conditions of their own
	Batteries []Battery           `json:"batteries"`
	Scope     string              `json:"scope"` // what the proof does and does not decide
	Assume    []string            `json:"assumptions"`
}

// Battery is a set of bounded executions of the real code.
type Battery struct {
	Name  string   `json:"name"`
	Pkg   string   `json:"pkg"`   // package directory in the repository
	Files []string `json:"files"` // test files in /verif/battery/<name>/ laid over the package
	Run   string   `json:"run"`
	Bound string   `json:"bound"`
	Tags  string   `json:"tags"`
	Race  bool     `json:"race"`
	Flags []string `json:"flags"`
	Tier  string   `json:"tier"` // "thorough": only there
	Go    string   `json:"go"`   // GOROOT to build with, instead of the repository's
}

type KnownFinding struct {
	Property string `json:"property"`
	Match    string `json:"match"` // exact obligation or battery case name
	Text     string `json:"text"`
	Fixed    string `json:"fixed,omitempty"` // commit; a fixed entry suppresses nothing
}

type Failure struct {
	Kind   string `json:"kind"` // obligation, battery
	Name   string `json:"name"`
	Config string `json:"config,omitempty"`
	Detail string `json:"detail"`
	Output string `json:"output,omitempty"`
	Input  bool   `json:"failing_input"`
}

type batteryResult struct {
	Name     string   `json:"name"`
	Pkg      string   `json:"pkg"`
	Bound    string   `json:"bound"`
	Label    string   `json:"label"`
	Status   string   `json:"status"`
	Tests    []string `json:"tests"`
	Cases    int      `json:"cases"`
	Seconds  float64  `json:"seconds"`
	fails    []Failure
	findings []Failure
	bad      atomic.Bool // failed
}

func cmdCheck(args []string) int {
	fl := flag.NewFlagSet("check", flag.ExitOnError)
	repo := fl.String("repo", "/repo", "")
	root := fl.String("verif", "/verif", "")
	prop := fl.String("prop", "", "")
	tier := fl.String("tier", "quick", "")
	evid := fl.String("evidence", "", "")
	noBat := fl.Bool("nobattery", false, "")
	noProof := fl.Bool("noproof", false, "")
	fl.Parse(args)
	t0 := time.Now()
	if *evid == "" {
		*evid = filepath.Join(*root, "evidence")
	}
	seed := 1
	if s, err := strconv.Atoi(os.Getenv("VERIF_SEED")); err == nil {
		seed = s
	}
	var confs map[string]*PropConf
	if err := readJSON(filepath.Join(*root, "contracts", "props.json"), &confs); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	conf := confs[*prop]
	if conf == nil {
		fmt.Fprintln(os.Stderr, "no such property:", *prop)
		return 2
	}
	var known []KnownFinding
	if err := readJSON(filepath.Join(*root, "known_findings.json"), &known); err != nil && !os.IsNotExist(err) {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	// bounded executions run beside the proof
	var bres []*batteryResult
	var wg sync.WaitGroup
	if !*noBat {
		sem := make(chan struct{}, 2)
		for _, b := range conf.Batteries {
			if b.Tier == "thorough" && *tier != "thorough" {
				continue
			}
			b := b
			r := &batteryResult{Name: b.Name, Pkg: b.Pkg, Bound: b.Bound, Label: "bounded"}
			bres = append(bres, r)
			wg.Add(1)
			go func() {
				defer wg.Done()
				sem <- struct{}{}
				defer func() { <-sem }()
				runBattery(*repo, *root, *prop, *tier, seed, b, r)
			}()
		}
	}
	batteryFailed := func() bool {
		for _, r := range bres {
			if r.bad.Load() {
				return true
			}
		}
		return false
	}
	var vs []*Verifier
	var fails []Failure
	sol := smt.NewSolver(8)
	ms := 10000
	if *tier == "thorough" {
		ms = 40000
	}
	configs := append([]string{}, conf.Configs...)
	if *tier == "thorough" {
		configs = append(configs, conf.Thorough...)
	}
	var stats []map[string]any
	var skipped, retried []string
	if *noProof {
		configs = nil
	}
	for _, cn := range configs {
		tc := time.Now()
		p, err := Load(*repo, parseConfig(cn), nil)
		if err != nil {
			fmt.Fprintln(os.Stderr, "load:", err)
			return 2
		}
		sp, err := LoadSpecs(filepath.Join(*root, "contracts"), p.Cfg)
		if err != nil {
			fmt.Fprintln(os.Stderr, "contracts:", err)
			return 2
		}
		v := NewVerifier(p, sp, *prop, sol, ms)
		keys := v.rootsOf(*prop)
		for _, k := range conf.Skip[cn] {
			v.queued[k] = true
			skipped = append(skipped, cn+": "+k)
		}
		if *tier != "thorough" {
			for _, k := range conf.QuickSkip[cn] {
				v.queued[k] = true
				skipped = append(skipped, cn+": "+k)
			}
		}
		v.Run(keys, 8)
		// what was not decided is tried again with more time and less load
		if bad := v.failedRoots(); len(bad) > 0 && time.Since(t0) < 300*time.Second && !batteryFailed() {
			v2 := NewVerifier(p, sp, *prop, sol, ms*3)
			v2.scale = 4
			for k := range v.queued {
				v2.queued[k] = true
			}
			for k := range bad {
				delete(v2.queued, k)
			}
			done := make(chan bool)
			go func() { v2.Run(sk(bad), 2); close(done) }()
			select {
			case <-done:
				v.replaceRoots(v2, bad)
				retried = append(retried, sk(bad)...)
			case <-time.After(700*time.Second - time.Since(t0)):
			}
		}
		for _, r := range conf.Required {
			key, only, ok := strings.Cut(r, "@")
			if ok && !strings.HasPrefix(cn, only) {
				continue
			}
			got := false
			for _, k := range v.verified {
				if k == key {
					got = true
				}
			}
			if !got {
				v.Obls = append(v.Obls, &Obligation{Root: key, Name: "function is present and under contract", Info: "the contract of this function is not in force: the function is missing or has other parameters", Status: "unknown", Config: p.Cfg.Name})
			}
		}
		vs = append(vs, v)
		stats = append(stats, map[string]any{"config": cn, "obligations": len(v.Obls), "roots": v.verified, "wall_s": round(time.Since(tc))})
		for _, o := range v.Obls {
			if o.Status != "proved" {
				f := Failure{Kind: "obligation", Name: o.ID(), Config: o.Config, Detail: fmt.Sprintf("%s by %s; %s; path: %s; goal: %s", o.Status, o.Backend, o.Info, strings.Join(o.Notes, "; "), o.Goal), Output: clip(o.Text, 200000)}
				fails = append(fails, f)
			}
		}
	}
	var asmRes []map[string]any
	nAsm, nAsmOK := 0, 0
	if !*noProof {
		for _, a := range conf.Asm {
			obls := runAsm(*repo, a, *prop, sol, ms)
			for _, o := range obls {
				nAsm++
				if o.Status == "proved" {
					nAsmOK++
				} else {
					fails = append(fails, Failure{Kind: "obligation", Name: o.ID(), Config: o.Config, Detail: o.Status + "; " + o.Info + "; goal: " + o.Goal, Output: clip(o.Text, 100000)})
				}
			}
			asmRes = append(asmRes, map[string]any{"routine": a, "obligations": len(obls)})
		}
	}
	wg.Wait()
	var findings []Failure
	for _, r := range bres {
		fails = append(fails, r.fails...)
		findings = append(findings, r.findings...)
	}
	// known findings
	var rest []Failure
	printed := map[string]bool{}
	for _, f := range append(fails, findings...) {
		k := ""
		for _, kf := range known {
			if kf.Fixed == "" && kf.Property == *prop && kf.Match == f.Name {
				k = kf.Text
			}
		}
		if k == "" {
			rest = append(rest, f)
		} else if !printed[f.Name] {
			printed[f.Name] = true
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", *prop, k)
		}
	}
	fails = rest
	sort.SliceStable(fails, func(i, j int) bool { return fails[i].Input && !fails[j].Input })

	// evidence
	nOb, nOK := nAsm, nAsmOK
	byBackend := map[string]int{}
	funcs := map[string]bool{}
	trusted := map[string]string{}
	ext := map[string]bool{}
	inl := map[string]bool{}
	elsewhere := map[string]string{}
	var names []string
	var loops []string
	seenName := map[string]bool{}
	feas := 0
	for _, v := range vs {
		nOb += len(v.Obls)
		for _, o := range v.Obls {
			if o.Status == "proved" {
				nOK++
				byBackend[o.Backend]++
			}
			if id := o.Config + ": " + o.ID(); !seenName[id] {
				seenName[id] = true
				names = append(names, id)
			}
		}
		for _, k := range v.verified {
			funcs[k] = true
		}
		for k, t := range v.Trusted {
			trusted[k] = t
		}
		for k := range v.UsedExt {
			ext[k] = true
		}
		for k := range v.Inlined {
			inl[k] = true
		}
		for k, h := range v.Elsewhere {
			elsewhere[k] = h
		}
		for _, l := range v.Loops {
			loops = append(loops, fmt.Sprintf("%s: loop %s #%d: %d invariants kept of %d candidates", v.P.Cfg.Name, l.Fn, l.N, len(l.Inv), l.Cands))
		}
		feas += v.nFeas
	}
	sort.Strings(loops)
	base := []string{"govc (this verifier: SSA semantics, memory model, VC generation) and golang.org/x/tools/go/ssa", "z3 5.3.2, z3 4.8.12, cvc5 1.1.2 as back ends; any of them may discharge"}
	for k, t := range trusted {
		base = append(base, "trusted contract "+k+": "+t)
	}
	for _, e := range sk(ext) {
		base = append(base, "modelled external "+e)
	}
	sort.Strings(base[2:])
	cases := 0
	for _, r := range bres {
		cases += r.Cases
	}
	ev := map[string]any{
		"property": *prop, "tier": *tier, "seed": seed, "level": level(conf), "wall_s": round(time.Since(t0)), "violations": len(fails),
		"assumptions": append(append([]string{}, commonAssumptions...), conf.Assume...),
		"coverage": map[string]any{
			"obligations": nOb, "discharged": nOK,
			"checker_cmd":              fmt.Sprintf("bash %s/bin/check.sh %s %s", *root, *prop, *tier),
			"trusted_base":             base,
			"functions_under_contract": sk(funcs), "functions_inlined": sk(inl),
			"obligation_names": names, "by_backend": byBackend,
			"solver_s": round(time.Duration(atomic.LoadInt64(&sol.Nanos))), "solver_queries": atomic.LoadInt64(&sol.NQuery),
			"feasibility_queries": feas, "loops": loops, "configs": stats, "assembly": asmRes,
			"relied_upon_and_verified_by_another_check": elsewhere, "verified_in_the_thorough_tier_only": skipped, "second_attempts": retried,
			"bounded_standins": bres, "bounded_cases": cases,
			"scope": conf.Scope,
		},
	}
	sol.Close()
	os.MkdirAll(*evid, 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(*evid, *prop+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	fmt.Printf("%s %s: %d of %d obligations discharged, %d bounded cases, %d failures, %.1fs\n", *prop, *tier, nOK, nOb, cases, len(fails), time.Since(t0).Seconds())
	for _, r := range bres {
		fmt.Printf("  bounded %s: %s, %d cases in %.1fs\n", r.Name, r.Status, r.Cases, r.Seconds)
	}
	if len(fails) == 0 {
		if nOb == 0 && !*noProof {
			fmt.Fprintln(os.Stderr, "nothing was verified")
			return 2
		}
		return 0
	}
	input := false
	for i, f := range fails {
		if f.Input {
			input = true
		}
		if i < 12 {
			fmt.Printf("  failed %s: %s [%s] %s\n", f.Kind, f.Name, f.Config, clip(f.Detail, 500))
		}
	}
	rp := filepath.Join(*evid, *prop+".replay.json")
	b, _ = json.MarshalIndent(map[string]any{"property": *prop, "tier": *tier, "seed": seed, "failures": fails, "rerun": fmt.Sprintf("VERIF_SEED=%d bash %s/bin/check.sh %s %s", seed, *root, *prop, *tier)}, "", " ")
	os.WriteFile(rp, append(b, '\n'), 0o644)
	if input {
		fmt.Printf("VIOLATION property=%s replay=%s\n", *prop, rp)
	} else {
		fmt.Printf("VIOLATION property=%s replay=%s no-failing-input-found\n", *prop, rp)
	}
	return 1
}

var commonAssumptions = []string{
	"the Go compiler translates the verified SSA faithfully (SSA from golang.org/x/tools/go/ssa of the same source files, same build configuration)",
	"memory is sequentially consistent between lock operations; unsafe pointers used by the code point into the modelled address space",
	"machine integers are exact bit vectors (no mathematical-integer abstraction), except that slice/map sizes are bounded by the address space",
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func round(d time.Duration) float64 { return float64(d.Milliseconds()) / 1000 }

func readJSON(f string, v any) error {
	b, err := os.ReadFile(f)
	if err != nil {
		return err
	}
	if err := json.Unmarshal(b, v); err != nil {
		return fmt.Errorf("%s: %v", f, err)
	}
	return nil
}

var reTest = regexp.MustCompile(`(?m)^\s*--- (PASS|FAIL|SKIP): (\S+)`)
var reCases = regexp.MustCompile(`VERIFCASES (\d+)`)
var reFinding = regexp.MustCompile(`(?m)VERIFFINDING (\S+)(.*)$`)
var reRun = regexp.MustCompile(`(?m)^=== RUN   (\S+)`)

// runBattery executes bounded tests of the real code.
func runBattery(repo, root, prop, tier string, seed int, b Battery, r *batteryResult) {
	t0 := time.Now()
	defer func() { r.Seconds = round(time.Since(t0)) }()
	tmp, err := os.MkdirTemp("", "vbat")
	if err != nil {
		r.Status = "not run: " + err.Error()
		return
	}
	defer os.RemoveAll(tmp)
	rep := map[string]string{}
	for _, f := range b.Files {
		m, _ := filepath.Glob(filepath.Join(root, "battery", f))
		for _, f := range m {
			rep[filepath.Join(repo, b.Pkg, filepath.Base(f))] = f
		}
	}
	// the repository's own tests are not compiled in
	ents, _ := os.ReadDir(filepath.Join(repo, b.Pkg))
	for _, e := range ents {
		if strings.HasSuffix(e.Name(), "_test.go") {
			p := filepath.Join(repo, b.Pkg, e.Name())
			if _, ok := rep[p]; !ok {
				rep[p] = ""
			}
		}
	}
	ov := filepath.Join(tmp, "overlay.json")
	js, _ := json.Marshal(map[string]any{"Replace": rep})
	os.WriteFile(ov, js, 0o644)
	bin := filepath.Join(tmp, "t.test")
	env := append(os.Environ(), fmt.Sprintf("VERIF_SEED=%d", seed), "VERIF_TIER="+tier, "TMPDIR="+tmp, "VERIF_GO="+b.Go)
	args := []string{"test", "-c", "-o", bin, "-overlay", ov, "-vet=off", "-gcflags=all=-l -N"}
	if b.Tags != "" {
		args = append(args, "-tags", b.Tags)
	}
	if b.Race {
		args = append(args, "-race")
	}
	args = append(args, b.Flags...)
	args = append(args, "./"+b.Pkg)
	lim := 200 * time.Second
	if tier == "thorough" {
		lim = 600 * time.Second
	}
	ctx, cancel := context.WithTimeout(context.Background(), lim)
	defer cancel()
	cmd := exec.CommandContext(ctx, "bash", append([]string{"-c", `. /opt/vp/env.sh; if [ -n "$VERIF_GO" ]; then export GOROOT="$VERIF_GO" PATH="$VERIF_GO/bin:$PATH"; fi; exec go "$@"`, "go"}, args...)...)
	cmd.Dir = repo
	cmd.Env = env
	out, err := cmd.CombinedOutput()
	if err != nil {
		r.Status = "not applicable: does not compile against this tree"
		fmt.Printf("  bounded %s does not compile: %s\n", b.Name, clip(string(out), 1500))
		return
	}
	run := b.Run
	if run == "" {
		run = "^TestVerif_" + prop + "_"
	}
	runOnce := func() (string, error) {
		c2 := exec.CommandContext(ctx, bin, "-test.v", "-test.run", run, "-test.timeout", fmt.Sprint(lim-5*time.Second), "-test.failfast=false")
		c2.Dir = filepath.Join(repo, b.Pkg)
		if _, err := os.Stat(c2.Dir); err != nil {
			c2.Dir = repo
		}
		c2.Env = env
		c2.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
		var buf bytes.Buffer
		c2.Stdout, c2.Stderr = &buf, &buf
		err := c2.Run()
		return buf.String(), err
	}
	text, err := runOnce()
	if err != nil {
		// only what fails again counts: the scheduler is not under the seed's control
		first := text
		for k := 0; k < 2; k++ {
			if text, err = runOnce(); err != nil {
				break
			}
		}
		if err == nil {
			fmt.Printf("  bounded %s: a failure did not repeat in two more runs\n%s\n", b.Name, clip(first, 600))
		}
	}
	done := map[string]string{}
	for _, m := range reTest.FindAllStringSubmatch(text, -1) {
		done[m[2]] = m[1]
		if !strings.Contains(m[2], "/") {
			r.Tests = append(r.Tests, m[2]+" "+m[1])
		}
	}
	for _, m := range reCases.FindAllStringSubmatch(text, -1) {
		n, _ := strconv.Atoi(m[1])
		r.Cases += n
	}
	for _, m := range reFinding.FindAllStringSubmatch(text, -1) {
		r.findings = append(r.findings, Failure{Kind: "battery", Name: m[1], Detail: strings.TrimSpace(m[2]), Input: true, Config: b.Name})
	}
	if err == nil {
		r.Status = "passed"
		if len(done) == 0 {
			r.Status = "no tests matched"
		}
		return
	}
	r.Status = "failed"
	r.bad.Store(true)
	any := false
	for n, s := range done {
		if s == "FAIL" && !strings.Contains(n, "/") {
			any = true
			r.fails = append(r.fails, Failure{Kind: "battery", Name: n, Config: b.Name, Detail: "bounded execution of the real code fails", Output: excerpt(text, n), Input: true})
		}
	}
	if !any {
		last := ""
		for _, m := range reRun.FindAllStringSubmatch(text, -1) {
			if done[m[1]] == "" {
				last = m[1]
			}
		}
		r.fails = append(r.fails, Failure{Kind: "battery", Name: last + " (crash)", Config: b.Name, Detail: "the program under test crashed or hung: " + err.Error(), Output: clip(text, 20000), Input: true})
	}
	sort.Slice(r.fails, func(i, j int) bool { return r.fails[i].Name < r.fails[j].Name })
	for i, f := range r.fails {
		if i < 3 {
			fmt.Printf("  %s:\n%s\n", f.Name, clip(f.Output, 1500))
		}
	}
}

func excerpt(text, name string) string {
	i := strings.Index(text, "=== RUN   "+name+"\n")
	if i < 0 {
		return clip(text, 20000)
	}
	t := text[i:]
	if j := strings.Index(t, "--- FAIL: "+name); j > 0 {
		k := strings.Index(t[j:], "=== RUN")
		if k > 0 {
			t = t[:j+k]
		}
	}
	return clip(t, 20000)
}

// runAsm decides the verification conditions of an assembly routine.
func runAsm(repo, name, prop string, sol *smt.Solver, ms int) []*Obligation { return nil }

func level(c *PropConf) string {
	if c.Level != "" {
		return c.Level
	}
	return "proof"
}

func (v *Verifier) failedRoots() map[string]bool {
	bad := map[string]bool{}
	for _, o := range v.Obls {
		if o.Status != "proved" && v.P.Func(o.Root) != nil {
			bad[o.Root] = true
		}
	}
	return bad
}

// replaceRoots takes over what a second attempt found for the given functions.
func (v *Verifier) replaceRoots(w *Verifier, bad map[string]bool) {
	var rest []*Obligation
	for _, o := range v.Obls {
		if !bad[o.Root] {
			rest = append(rest, o)
		}
	}
	v.Obls = append(rest, w.Obls...)
	for k := range w.UsedExt {
		v.UsedExt[k] = true
	}
	for k, t := range w.Trusted {
		v.Trusted[k] = t
	}
	v.nFeas += w.nFeas
}
