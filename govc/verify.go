package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"

	"govc/smt"
)

// Root is one thing to verify: the body of a function against its contract.
type Root struct {
	fn  *ssa.Function
	con *Contract
	key string
	env *Env
}

type Obligation struct {
	Root    string
	Name    string
	Info    string
	Goal    string
	Text    string
	Notes   []string
	Status  string // proved refuted unknown trivial
	Backend string
	Ms      int64
	Config  string
	Model   string
	kind    string
}

// ID is the stable name of an obligation.
func (o *Obligation) ID() string { return o.Root + " / " + o.Name }

type Verifier struct {
	P    *Program
	Spec *SpecSet
	Prop string
	Sol  *smt.Solver

	mu        sync.Mutex
	Obls      []*Obligation
	wg        sync.WaitGroup
	queued    map[string]bool
	verified  []string
	Loops     []loopNote
	Errors    []string
	nFeas     int
	UsedExt   map[string]bool
	UsedCon   map[string]bool
	Inlined   map[string]bool
	Trusted   map[string]string
	Elsewhere map[string]string // relied upon here, verified by another property's check
	vcMs      int
	implMemo  map[string][]types.Type
	Steps     int
	Vacuity   []string
	Paths     map[string]int
	only      string
	scale     int // multiplies the time limits of queries made during execution
}

type loopNote struct {
	Fn    string
	N     int
	Cands int
	Inv   []string
}

func NewVerifier(p *Program, spec *SpecSet, prop string, sol *smt.Solver, vcMs int) *Verifier {
	return &Verifier{P: p, Spec: spec, Prop: prop, Sol: sol, queued: map[string]bool{}, UsedExt: map[string]bool{}, UsedCon: map[string]bool{}, Inlined: map[string]bool{}, Trusted: map[string]string{}, Elsewhere: map[string]string{}, vcMs: vcMs, implMemo: map[string][]types.Type{}, Paths: map[string]int{}}
}

// contract finds the contract in force for f.
func (v *Verifier) contractKey(key string, nparams int) *Contract {
	for _, c := range v.Spec.Funcs[key] {
		if c.Configs != nil && !c.Configs[v.P.Cfg.Name] {
			continue
		}
		if len(c.Params) != nparams {
			continue
		}
		if len(c.active(v.Prop)) == 0 {
			continue
		}
		return c
	}
	return nil
}

func (v *Verifier) contract(x *Exec, f *ssa.Function) *Contract {
	if !inRepo(f) || f.Parent() != nil {
		return nil
	}
	c := v.contractKey(fnKey(f), len(f.Params))
	if c == nil {
		return nil
	}
	// a contract that has only verification clauses of this property but
	// no frame is still applied
	return c
}

func (v *Verifier) implementers(p *Program, t types.Type) []types.Type {
	k := typeKey(t)
	v.mu.Lock()
	defer v.mu.Unlock()
	if r, ok := v.implMemo[k]; ok {
		return r
	}
	it, ok := t.Underlying().(*types.Interface)
	var r []types.Type
	if ok {
		for _, q := range p.Pkgs {
			sc := q.Types.Scope()
			for _, n := range sc.Names() {
				tn, ok := sc.Lookup(n).(*types.TypeName)
				if !ok || tn.IsAlias() {
					continue
				}
				if _, isI := tn.Type().Underlying().(*types.Interface); isI {
					continue
				}
				if types.Implements(tn.Type(), it) {
					r = append(r, tn.Type())
				} else if types.Implements(types.NewPointer(tn.Type()), it) {
					r = append(r, types.NewPointer(tn.Type()))
				}
			}
		}
	}
	v.implMemo[k] = r
	return r
}

func (v *Verifier) noteLoop(fn string, n, cands int, inv []string) {
	v.mu.Lock()
	v.Loops = append(v.Loops, loopNote{fn, n, cands, inv})
	v.mu.Unlock()
}

// addObligation builds the verification condition now (the term context
// belongs to this goroutine) and decides it in the background.
func (v *Verifier) addObligation(x *Exec, st *State, name string, goal *T, info string) {
	o := &Obligation{Root: x.rootName(), Name: name, Info: info, Notes: st.notes, Config: v.P.Cfg.Name}
	v.mu.Lock()
	v.Obls = append(v.Obls, o)
	v.mu.Unlock()
	if goal.IsTrue() || st.pathSet[goal.ID] {
		o.Status, o.Backend = "proved", "simplifier"
		return
	}
	t0 := time.Now()
	o.Goal = goal.String()
	if len(o.Goal) > 40000 {
		o.Goal = o.Goal[:40000] + "..."
	}
	x.decide(&pending{o: o, st: st, goal: goal, t0: t0})
}

// pending: an obligation on its way through the attempts.
type pending struct {
	o    *Obligation
	st   *State
	goal *T
	t0   time.Time
	at   int
}

// decide builds the next attempt and hands it to the solvers.
func (x *Exec) decide(p *pending) {
	v, o := x.V, p.o
	var texts []string
	more := false
	// the first attempt is cheap to build, and seldom enough
	for n := 0; n < 2 || p.at == 2 && n < 1; n++ {
		if p.at >= len(attempts) {
			break
		}
		at := attempts[p.at]
		q := x.query(p.st, p.goal)
		q.Limit = 6000
		q.Rounds = 4
		q.Depth, q.Light, q.Gen = at.depth, at.light, at.gen
		if at.rounds != 0 {
			q.Rounds = at.rounds
		}
		fs := q.Build()
		for _, f := range fs {
			if f.IsFalse() {
				o.Status, o.Backend = "proved", "simplifier"
				return
			}
		}
		texts = append(texts, smt.Emit(x.C, fs))
		p.at++
		more = q.Skipped && p.at < len(attempts)
		if !q.Skipped {
			break
		}
	}
	first := p.at == len(texts)
	x.owg.Add(1)
	go func() {
		defer x.owg.Done()
		var r smt.Result
		var who string
		for i, text := range texts {
			last := !more && i == len(texts)-1
			ms := v.vcMs
			if !last && first && i == 0 && ms > 2000 {
				ms = 2000
			}
			t1 := time.Now()
			r, who = v.Sol.Check(text, ms, last)
			if os.Getenv("GOVC_ATT") != "" {
				if d := os.Getenv("GOVC_ATTDIR"); d != "" {
					os.WriteFile(fmt.Sprintf("%s/%d-%d.smt2", d, p.at-len(texts)+i, t1.UnixNano()), []byte(text+"(check-sat)\n"), 0o644)
				}
				fmt.Println("ATT", p.at-len(texts)+i, r, time.Since(t1).Milliseconds(), len(text), o.Name)
			}
			if r == smt.Unsat {
				break
			}
			if last {
				o.Text = text
			}
		}
		if r != smt.Unsat && more {
			x.omu.Lock()
			x.again = append(x.again, p)
			x.omu.Unlock()
			return
		}
		o.Ms = time.Since(p.t0).Milliseconds()
		o.Backend = who
		switch r {
		case smt.Unsat:
			o.Status = "proved"
			o.Text = ""
		case smt.Sat:
			o.Status = "refuted"
		default:
			o.Status = "unknown"
		}
	}()
}

// drain finishes the obligations that need more attempts.
func (x *Exec) drain() {
	for {
		x.owg.Wait()
		ps := x.again
		x.again = nil
		if len(ps) == 0 {
			return
		}
		for _, p := range ps {
			x.decide(p)
		}
	}
}

func (x *Exec) rootName() string {
	if x.root == nil {
		return "?"
	}
	return x.root.key
}

func (v *Verifier) newExec(root *Root) *Exec {
	x := &Exec{C: smt.NewCtx(), P: v.P, V: v, Sol: v.Sol, root: root,
		layouts: map[string]*Layout{}, compSort: map[string]compInfo{}, interior: map[int]*Ptr{}, allocType: map[int]types.Type{},
		litTypes: map[string]types.Type{}, boxTypes: map[string]types.Type{}, clos: map[string]*closInfo{},
		usedExt: map[string]bool{}, usedCon: map[string]bool{}, inlined: map[string]bool{}, maxSteps: 60000, satMemo: map[string]bool{}, born: map[int][]*State{}, heldTerms: map[int]*T{}}
	x.setup()
	x.regRecs()
	return x
}

func (x *Exec) newState() *State {
	return &State{x: x, pathSet: map[int]bool{}, heap: map[string]*T{}, held: map[int]int{}}
}

// verify runs one root and everything its proof relies on.
func (v *Verifier) queue(keys ...string) []string {
	var todo []string
	for _, k := range keys {
		if !v.queued[k] {
			v.queued[k] = true
			todo = append(todo, k)
		}
	}
	return todo
}

// Run verifies the given functions and, transitively, every contract used.
func (v *Verifier) Run(keys []string, par int) {
	for _, l := range v.Spec.Lemmas {
		if v.only == "" || v.only == l.Key {
			v.verifyLemma(l)
		}
	}
	work := v.queue(keys...)
	for len(work) > 0 {
		var mu sync.Mutex
		var next []string
		sem := make(chan struct{}, par)
		var wg sync.WaitGroup
		for _, k := range work {
			k := k
			wg.Add(1)
			go func() {
				defer wg.Done()
				sem <- struct{}{}
				defer func() { <-sem }()
				used := v.verifyKey(k)
				mu.Lock()
				next = append(next, used...)
				mu.Unlock()
			}()
		}
		wg.Wait()
		sort.Strings(next)
		work = v.queue(next...)
	}
	v.wg.Wait()
}

// verifyLemma proves a lemma over the contracts, for all values of its parameters.
func (v *Verifier) verifyLemma(l *Contract) {
	if v.queued[l.Key] {
		return
	}
	v.queued[l.Key] = true
	act := l.active(v.Prop)
	used := false
	for _, cl := range act {
		if cl.Kind == "ensures" && (len(cl.Tags) > 0 || v.Prop == "") {
			used = true
		}
	}
	if !used {
		return
	}
	root := &Root{con: l, key: l.Key}
	x := v.newExec(root)
	fail := func(msg string) {
		v.mu.Lock()
		v.Obls = append(v.Obls, &Obligation{Root: l.Key, Name: "within the verifier's reach", Info: msg, Status: "unknown", Backend: "none", Config: v.P.Cfg.Name})
		v.mu.Unlock()
	}
	defer func() {
		if r := recover(); r != nil {
			fail(fmt.Sprint(r))
		}
	}()
	st := x.newState()
	x.specState = st.clone()
	x.assumeAxioms(st, nil)
	env := x.newEnv(st, st, nil)
	for _, b := range l.Args {
		ty, so, err := x.resolveSort(b.Sort, nil)
		if err != nil {
			fail(err.Error())
			return
		}
		if ty != nil {
			env.vars[b.Name] = x.freshVal(st, b.Name, ty)
		} else {
			env.vars[b.Name] = Val{L: []*T{x.C.Fresh(b.Name, so)}}
		}
	}
	x.rootEnv = env
	x.rootEntry = st
	var goals []*Clause
	for _, cl := range act {
		t, err := env.Bool(cl.E)
		if err != nil {
			fail(cl.Pos + ": " + err.Error())
			return
		}
		if cl.Kind == "requires" {
			st.assume(t)
		} else {
			goals = append(goals, cl)
		}
	}
	x.vacuity(st, "lemma hypotheses")
	for _, cl := range goals {
		t, err := env.Bool(cl.E)
		if err != nil {
			fail(err.Error())
			return
		}
		x.oblige(st, "lemma: "+cl.Label, t, cl.Pos)
	}
	x.drain()
	v.mu.Lock()
	v.verified = append(v.verified, l.Key)
	v.mu.Unlock()
}

func (v *Verifier) verifyKey(key string) (used []string) {
	if v.only != "" && v.only != key {
		return nil
	}
	f := v.P.Func(key)
	if f == nil {
		return nil
	}
	con := v.contractKey(key, len(f.Params))
	if con == nil {
		return nil
	}
	v.mu.Lock()
	con.Used = true
	if con.Home != nil && !con.Home[v.Prop] && v.Prop != "" {
		v.Elsewhere[key] = strings.Join(sk(con.Home), ",")
		v.mu.Unlock()
		return nil
	}
	v.mu.Unlock()
	if con.Trusted != "" {
		v.mu.Lock()
		v.Trusted[key] = con.Trusted
		v.mu.Unlock()
		return nil
	}
	root := &Root{fn: f, con: con, key: key}
	x := v.newExec(root)
	defer func() {
		defer x.owg.Wait()
		if r := recover(); r != nil {
			msg := ""
			switch r := r.(type) {
			case unsupportedErr:
				msg = r.Error()
			case evalErr:
				msg = r.Error()
			default:
				if os.Getenv("GOVC_PANIC") != "" {
					panic(r)
				}
				msg = fmt.Sprintf("internal: %v", r)
			}
			v.mu.Lock()
			v.Obls = append(v.Obls, &Obligation{Root: key, Name: "within the verifier's reach", Info: msg, Status: "unknown", Backend: "none", Config: v.P.Cfg.Name})
			v.mu.Unlock()
		}
		v.mu.Lock()
		for k := range x.usedExt {
			v.UsedExt[k] = true
		}
		for k := range x.inlined {
			v.Inlined[k] = true
		}
		for k := range x.usedCon {
			v.UsedCon[k] = true
			used = append(used, k)
		}
		v.Steps += x.steps
		v.verified = append(v.verified, key)
		v.mu.Unlock()
	}()
	x.verifyBody(f, con)
	x.drain()
	return nil
}

func (x *Exec) bindParams(con *Contract, args []Val, env *Env) {
	for i, n := range con.Params {
		if n != "_" {
			env.vars[n] = args[i]
		}
	}
}

func (x *Exec) bindResults(con *Contract, res []Val, env *Env) {
	if len(res) == 1 {
		env.vars["result"] = res[0]
	}
	for i, r := range res {
		env.vars[fmt.Sprintf("result%d", i)] = r
		if i < len(con.Results) {
			env.vars[con.Results[i]] = r
		}
	}
}

func (x *Exec) newEnv(st, old *State, pkg *types.Package) *Env {
	return &Env{x: x, st: st, old: old, vars: map[string]Val{}, pkg: pkg}
}

func fnPkg(f *ssa.Function) *types.Package {
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f.Pkg != nil {
		return f.Pkg.Pkg
	}
	if o := f.Object(); o != nil {
		return o.Pkg()
	}
	return nil
}

func (x *Exec) assumeAxioms(st *State, hide map[string]bool) {
	for _, a := range x.V.Spec.Axioms {
		if hide[a.Label] {
			continue
		}
		env := x.newEnv(st, st, nil)
		t, err := env.Bool(a.E)
		if err != nil {
			panic(err)
		}
		st.assume(t)
	}
}

func (x *Exec) verifyBody(f *ssa.Function, con *Contract) {
	v := x.V
	x.onRead = func(st *State, p *Ptr, l Leaf) { x.guardCheck(st, p, l, false) }
	x.onWrite = func(st *State, p *Ptr, l Leaf) { x.guardCheck(st, p, l, true) }
	st := x.newState()
	x.specState = st.clone()
	var args []Val
	for i, p := range f.Params {
		a := x.freshVal(st, fmt.Sprintf("p%d.%s", i, p.Name()), p.Type())
		args = append(args, a)
	}
	x.assumeAxioms(st, con.Hide)
	pre := st
	env := x.newEnv(st, st, fnPkg(f))
	x.bindParams(con, args, env)
	act := con.checked(v.Prop)
	for _, cl := range act {
		if cl.Kind == "requires" {
			t, err := env.Bool(cl.E)
			if err != nil {
				panic(err)
			}
			st.assume(t)
			x.fixComp(st, t)
		}
	}
	// vacuity: the precondition must be satisfiable
	x.vacuity(st, "precondition")
	entry := st.clone()
	x.rootEnv = x.newEnv(entry, entry, fnPkg(f))
	x.bindParams(con, args, x.rootEnv)
	x.rootEntry = entry
	x.candClauses = nil
	for _, cl := range act {
		if cl.Kind == "cand" {
			x.candClauses = append(x.candClauses, cl)
		}
	}
	outs := x.callStatic(pre, f, args)
	normal, feasible := 0, 0
	for _, o := range outs {
		if o.St.dead() {
			continue
		}
		if o.Panic == nil {
			normal++
		}
		x.checkOutcome(f, con, act, entry, args, o)
		feasible++
	}
	v.mu.Lock()
	v.Paths[con.Key] += len(outs)
	v.mu.Unlock()
	// vacuity: a normal path must be satisfiable, unless the contract says it never returns
	if normal > 0 {
		ok := false
		for _, o := range outs {
			if o.Panic == nil && x.satisfiable(o.St) {
				ok = true
				break
			}
		}
		if !ok {
			v.addVacuity(x, "no normal path is satisfiable")
		}
	}
}

func (v *Verifier) addVacuity(x *Exec, msg string) {
	v.mu.Lock()
	defer v.mu.Unlock()
	v.Vacuity = append(v.Vacuity, x.rootName()+": "+msg)
	v.Obls = append(v.Obls, &Obligation{Root: x.rootName(), Name: "contract is not vacuous", Info: msg, Status: "unknown", Backend: "z3-5.3", Config: v.P.Cfg.Name})
}

func (x *Exec) satisfiable(st *State) bool {
	q := &smt.Query{C: x.C, Hyps: st.path, Regions: st.regions, Rounds: 2, Limit: 300}
	fs := q.Build()
	for _, f := range fs {
		if f.IsFalse() {
			return false
		}
	}
	r, _ := x.Sol.Check(smt.Emit(x.C, fs), 3000, false)
	if r == smt.Unsat && os.Getenv("GOVC_VAC") != "" {
		core := append([]*T(nil), st.path...)
		for i := 0; i < len(core); {
			try := append(append([]*T(nil), core[:i]...), core[i+1:]...)
			q := &smt.Query{C: x.C, Hyps: try, Regions: st.regions, Rounds: 2, Limit: 300}
			if r, _ := x.Sol.Check(smt.Emit(x.C, q.Build()), 3000, false); r == smt.Unsat {
				core = try
			} else {
				i++
			}
		}
		for _, t := range core {
			fmt.Println("  CORE", t)
		}
	}
	return r != smt.Unsat
}

func (x *Exec) vacuity(st *State, what string) {
	if !x.satisfiable(st) {
		x.V.addVacuity(x, what+" is unsatisfiable")
	}
}

// checkOutcome emits the obligations of one way the body can end.
func (x *Exec) checkOutcome(f *ssa.Function, con *Contract, act []*Clause, entry *State, args []Val, o Outcome) {
	st := o.St
	env := x.newEnv(st, entry, fnPkg(f))
	x.bindParams(con, args, env)
	preEnv := x.newEnv(entry, entry, fnPkg(f))
	x.bindParams(con, args, preEnv)
	if con.Spec {
		for k, v := range x.ghosts {
			env.vars[k], preEnv.vars[k] = v, v
		}
	}
	ev := func(en *Env, cl *Clause) *T {
		t, err := en.Bool(cl.E)
		if err != nil {
			panic(err)
		}
		return t
	}
	nm := func(cl *Clause) string { return cl.Kind + ": " + cl.Label }
	if o.Panic != nil {
		env.vars["panicval"] = *o.Panic
		for id, n := range st.held {
			if n > entry.held[id] {
				x.oblige(st, "every mutex taken is released when it panics", x.C.False, x.heldTerms[id].String())
			}
		}
		for _, cl := range act {
			switch cl.Kind {
			case "nopanic":
				if cl.E == nil {
					x.oblige(st, nm(cl), x.C.False, strings.Join(st.notes, "; "))
				} else {
					x.oblige(st, nm(cl), x.C.Not(ev(preEnv, cl)), strings.Join(st.notes, "; "))
				}
			case "panicsiff", "panicsif":
				x.oblige(st, nm(cl), ev(preEnv, cl), strings.Join(st.notes, "; "))
			case "exsures":
				x.oblige(st, nm(cl), ev(env, cl), "")
			}
		}
		x.checkFrame(con, act, entry, env, st, "exceptional frame")
		return
	}
	for id, n := range st.held {
		if n > entry.held[id] {
			x.oblige(st, "every mutex taken is released", x.C.False, x.heldTerms[id].String())
		}
	}
	x.bindResults(con, o.Res, env)
	for _, cl := range act {
		switch cl.Kind {
		case "panicsiff":
			x.oblige(st, nm(cl), x.C.Not(ev(preEnv, cl)), "")
		case "ensures":
			x.oblige(st, nm(cl), ev(env, cl), "")
		}
	}
	x.checkFrame(con, act, entry, env, st, "frame")
}

// modSpec is what the modifies clauses allow.
type modSpec struct {
	full map[string]bool // whole components
	refs map[string][]*T // component -> references that may be written
	news map[string]bool
	any  bool
	has  bool
}

func (x *Exec) modifies(act []*Clause, env *Env) *modSpec {
	m := &modSpec{full: map[string]bool{}, refs: map[string][]*T{}, news: map[string]bool{}}
	for _, cl := range act {
		if cl.Kind != "modifies" {
			continue
		}
		m.has = true
		for _, n := range cl.Names {
			x.modEntry(m, n, env, cl.Pos)
		}
	}
	return m
}

func (x *Exec) modEntry(m *modSpec, n string, env *Env, pos string) {
	switch {
	case n == "everything":
		m.any = true
		return
	case n == "nothing":
		return
	case n == "M" || n == "W" || n == "RC" || n == "prot":
		m.full[n] = true
		return
	case n == "stwDepth":
		m.full["stw"] = true
		return
	case strings.HasPrefix(n, "H:") || strings.HasPrefix(n, "E:") || strings.HasPrefix(n, "G:") || strings.HasPrefix(n, "MD:"):
		m.full[n] = true
		return
	case strings.HasPrefix(n, "new "):
		m.news[strings.TrimSpace(n[4:])] = true
		return
	case strings.HasPrefix(n, "maps "):
		// every map of this type
		t, err := x.P.resolveType(strings.TrimSpace(n[5:]))
		if err != nil {
			panic(evalErr{pos + ": " + err.Error()})
		}
		k := x.mapName(t.Underlying().(*types.Map))
		m.full["MD:"+k], m.full["ML:"+k] = true, true
		for _, lf := range x.layout(t.Underlying().(*types.Map).Elem()).Leaves {
			m.full["MV:"+k+lf.Path] = true
		}
		return
	case strings.HasPrefix(n, "global "):
		g := strings.TrimSpace(n[7:])
		i := strings.Index(g, ".")
		pk := x.P.pkgByName(g[:i])
		o := pk.Scope().Lookup(g[i+1:])
		if o == nil {
			panic(evalErr{pos + ": no global " + g})
		}
		for _, lf := range x.layout(o.Type()).Leaves {
			m.full["G:"+shortName(pk.Path())+"."+g[i+1:]+lf.Path] = true
		}
		return
	case strings.HasPrefix(n, "all "):
		// all mockey.Mocker.times : that field of every object
		s := strings.TrimSpace(n[4:])
		i := strings.LastIndex(s, ".")
		t, err := x.P.resolveType(s[:i])
		if err != nil {
			panic(evalErr{pos + ": " + err.Error()})
		}
		st := t.Underlying().(*types.Struct)
		fi := fieldPath(st, s[i+1:])
		if fi == nil {
			panic(evalErr{pos + ": no field " + s})
		}
		lo, k := x.fieldRange(st, fi[0])
		for j := lo; j < lo+k; j++ {
			m.full["H:"+typeKey(t)+x.layout(t).Leaves[j].Path] = true
		}
		return
	}
	ex, err := parseExpr(n, pos)
	if err != nil {
		panic(evalErr{err.Error()})
	}
	// elems(s): the elements of a slice
	if ex.Op == "call" && ex.A[0].Op == "id" && ex.A[0].Name == "elems" {
		v, err := env.Value(ex.A[1])
		if err != nil {
			panic(err)
		}
		et := v.T.Underlying().(*types.Slice).Elem()
		for _, lf := range x.layout(et).Leaves {
			k := "E:" + typeKey(et) + lf.Path
			m.refs[k] = append(m.refs[k], v.L[0])
		}
		return
	}
	if ex.Op == "call" && ex.A[0].Op == "id" && ex.A[0].Name == "object" {
		v, err := env.Value(ex.A[1])
		if err != nil {
			panic(err)
		}
		t := v.T.Underlying().(*types.Pointer).Elem()
		for _, lf := range x.layout(t).Leaves {
			k := "H:" + typeKey(t) + lf.Path
			m.refs[k] = append(m.refs[k], x.enc(v))
		}
		return
	}
	if ex.Op == "sel" {
		v, err := env.Value(ex.A[0])
		if err != nil {
			panic(err)
		}
		pt, ok := v.T.Underlying().(*types.Pointer)
		if !ok {
			panic(evalErr{pos + ": modifies " + n})
		}
		s := pt.Elem().Underlying().(*types.Struct)
		fi := fieldPath(s, ex.Name)
		if fi == nil {
			panic(evalErr{pos + ": no field in modifies " + n})
		}
		lo, k := x.fieldRange(s, fi[0])
		for j := lo; j < lo+k; j++ {
			nm := "H:" + typeKey(pt.Elem()) + x.layout(pt.Elem()).Leaves[j].Path
			m.refs[nm] = append(m.refs[nm], v.L[0])
		}
		return
	}
	panic(evalErr{pos + ": cannot interpret modifies " + n})
}

func ghostComp(k string) bool {
	return strings.HasPrefix(k, "IV:") || strings.HasPrefix(k, "IS:")
}

func (x *Exec) checkFrame(con *Contract, act []*Clause, entry *State, env *Env, st *State, what string) {
	preEnv := *env
	preEnv.st = entry
	m := x.modifies(act, &preEnv)
	if m.any {
		return
	}
	c := x.C
	for _, k := range sortedKeys(st.heap) {
		if ghostComp(k) || m.full[k] {
			continue
		}
		ci, ok := x.compSort[k]
		var old *T
		if o, had := entry.heap[k]; had {
			old = o
		} else {
			if !ok {
				ci = compInfo{st.heap[k].S, false}
			}
			old = entry.base(k, st.heap[k].S, ci.ref)
		}
		cur := st.heap[k]
		if cur == old {
			continue
		}
		var goal *T
		if cur.S.K == smt.KArr && cur.S.Dom == smt.BV64 {
			// an arbitrary object that existed at entry
			bv := c.FreshBase("fr", smt.BV64, "fr", entry.clock, true)
			var g []*T
			for _, r := range m.refs[k] {
				g = append(g, c.Eq(bv, r))
			}
			g = append(g, c.Eq(c.Select(cur, bv), c.Select(old, bv)), c.Eq(bv, c.C64(0)))
			goal = c.Or(append(g, c.Not(c.ILe(c.RawApp("birth", smt.Int, bv), c.IntC(int64(entry.clock)))))...)
		} else {
			goal = c.Eq(cur, old)
		}
		x.oblige(st, what+": "+k, goal, "only what the contract lists is modified")
	}
}

// havoc gives the components arbitrary values where the contract allows.
func (x *Exec) havoc(st *State, m *modSpec, clk0 int, tag string) {
	c := x.C
	st.newClock()
	comps := map[string]bool{}
	for k := range m.full {
		comps[k] = true
	}
	for k := range m.refs {
		comps[k] = true
	}
	for n := range m.news {
		t, err := x.P.resolveType(n)
		if err != nil {
			panic(evalErr{err.Error()})
		}
		if sl, ok := t.Underlying().(*types.Slice); ok {
			for _, lf := range x.layout(sl.Elem()).Leaves {
				k := "E:" + typeKey(sl.Elem()) + lf.Path
				comps[k] = true
				if _, ok := x.compSort[k]; !ok {
					p := &Ptr{Kind: PElem, Root: sl.Elem()}
					st.comp(k, x.leafCompSort(p, lf), lf.Ref)
				}
			}
			continue
		}
		for _, lf := range x.layout(t).Leaves {
			k := "H:" + typeKey(t) + lf.Path
			comps[k] = true
			if _, ok := x.compSort[k]; !ok {
				p := &Ptr{Kind: PObj, Root: t}
				st.comp(k, x.leafCompSort(p, lf), lf.Ref)
			}
		}
	}
	var ks []string
	for k := range comps {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		ci, ok := x.compSort[k]
		if !ok {
			s, ref, found := x.compByName(k)
			if !found {
				continue
			}
			ci = compInfo{s, ref}
		}
		old := st.comp(k, ci.s, ci.ref)
		fresh := c.FreshBase(k+"."+tag, ci.s, k, st.clock, ci.ref)
		if !m.full[k] {
			bv := c.Bound("h", smt.BV64)
			g := []*T{c.Not(c.ILe(c.RawApp("birth", smt.Int, bv), c.IntC(int64(clk0))))}
			for _, r := range m.refs[k] {
				g = append(g, c.Eq(bv, r))
			}
			fresh = c.Merge(bv, c.Or(g...), fresh, old)
			for _, r := range m.refs[k] {
				st.wlog = append(st.wlog, wrec{comp: k, base: r})
			}
		} else {
			st.wlog = append(st.wlog, wrec{comp: k})
		}
		st.setComp(k, fresh)
	}
}

func (x *Exec) compByName(k string) (*smt.Sort, bool, bool) {
	c := x.C
	switch k {
	case "M":
		return x.memSort(), false, true
	case "W":
		return c.U("World"), false, true
	case "stw":
		return smt.BV64, false, true
	}
	for _, g := range ghosts {
		if g.comp == k {
			return g.sort(x), false, true
		}
	}
	if strings.HasPrefix(k, "H:") || strings.HasPrefix(k, "G:") {
		for i := len(k) - 1; i > 2; i-- {
			if k[i] != '.' {
				continue
			}
			if k[0] == 'G' {
				continue
			}
			t, err := x.P.resolveType(k[2:i])
			if err != nil {
				continue
			}
			for _, lf := range x.layout(t).Leaves {
				if lf.Path == k[i:] || strings.HasSuffix(k, typeKey(t)+lf.Path) {
					p := &Ptr{Kind: PObj, Root: t}
					return x.leafCompSort(p, lf), lf.Ref, true
				}
			}
		}
	}
	if strings.HasPrefix(k, "G:") {
		for _, q := range x.P.Pkgs {
			pre := "G:" + shortName(q.PkgPath) + "."
			if !strings.HasPrefix(k, pre) {
				continue
			}
			rest := k[len(pre):]
			n := rest
			if i := strings.Index(rest, "."); i >= 0 {
				n = rest[:i]
			}
			if o := q.Types.Scope().Lookup(n); o != nil {
				for _, lf := range x.layout(o.Type()).Leaves {
					if n+lf.Path == rest {
						return lf.Sort, lf.Ref, true
					}
				}
			}
		}
	}
	return nil, false, false
}

// applyContract replaces a call by the contract of the callee.
func (x *Exec) applyContract(st *State, con *Contract, f *ssa.Function, args []Val) []Outcome {
	return x.applySpec(st, con, f.Signature, args, fnKey(f), fnPkg(f), nil)
}

func (x *Exec) applySpec(st *State, con *Contract, sig *types.Signature, args []Val, name string, pkg *types.Package, extra map[string]Val) []Outcome {
	c := x.C
	act := con.active(x.V.Prop)
	st = st.clone()
	pre := st.clone()
	env := x.newEnv(st, pre, pkg)
	x.bindParams(con, args, env)
	for k, v := range extra {
		env.vars[k] = v
	}
	preEnv := x.newEnv(pre, pre, pkg)
	preEnv.vars = env.vars
	ev := func(en *Env, cl *Clause) *T {
		t, err := en.Bool(cl.E)
		if err != nil {
			panic(err)
		}
		return t
	}
	pre.path, pre.pathSet = st.path, st.pathSet
	for _, cl := range act {
		if cl.Kind != "requires" {
			continue
		}
		t := ev(env, cl)
		x.oblige(st, "requires of "+name+": "+cl.Label, t, "precondition at a call")
		st.assume(t)
	}
	mayPanic := true
	var pc *T = c.True
	for _, cl := range act {
		switch cl.Kind {
		case "nopanic":
			if cl.E == nil {
				mayPanic = false
			} else {
				pc = c.And(pc, c.Not(ev(preEnv, cl)))
			}
		case "panicsiff":
			pc = c.And(pc, ev(preEnv, cl))
			st.assume() // the normal outcome assumes the negation below
		case "panicsif":
			pc = c.And(pc, ev(preEnv, cl))
		}
	}
	m := x.modifies(act, preEnv)
	if m.any {
		panic(unsupported("call of " + name + ", whose contract has no frame"))
	}
	clk0 := st.clock
	var outs []Outcome
	mk := func(s *State) *Env {
		e := *env
		e.st = s
		e.vars = map[string]Val{}
		for k, v := range env.vars {
			e.vars[k] = v
		}
		return &e
	}
	if mayPanic && !pc.IsFalse() {
		s := st.clone()
		s.assume(pc)
		if !s.dead() && x.feasible(s) {
			x.havoc(s, m, clk0, shortTag(name))
			en := mk(s)
			pv := Val{T: types.NewInterfaceType(nil, nil), L: []*T{c.Fresh("panicval", c.U("Iface"))}}
			s.assume(c.Not(c.Eq(pv.L[0], x.nilIface())))
			en.vars["panicval"] = pv
			for _, cl := range act {
				if cl.Kind == "exsures" {
					s.assume(ev(en, cl))
				}
			}
			s.note(name + " panics")
			outs = append(outs, Outcome{St: s, Panic: &pv})
		}
	}
	for _, cl := range act {
		if cl.Kind == "panicsiff" {
			st.assume(c.Not(ev(preEnv, cl)))
		}
	}
	if st.dead() || (pc != c.True && !x.feasible(st)) {
		return outs
	}
	x.havoc(st, m, clk0, shortTag(name))
	en := mk(st)
	var res []Val
	rt := sig.Results()
	for i := 0; i < rt.Len(); i++ {
		r := x.freshVal(st, shortTag(name)+".r", rt.At(i).Type())
		if x.claimsFresh(act, con, i) {
			r = x.freshResult(st, r, shortTag(name))
		}
		res = append(res, r)
	}
	x.bindResults(con, res, en)
	for _, cl := range act {
		if cl.Kind == "ensures" {
			st.assume(ev(en, cl))
		}
	}
	if !st.dead() {
		outs = append(outs, Outcome{St: st, Res: res})
	}
	return outs
}

func shortTag(n string) string {
	if i := strings.LastIndex(n, "."); i >= 0 {
		n = n[i+1:]
	}
	return sanitize(n)
}

// claimsFresh: an unconditional conjunct fresh(result) of the postcondition.
func (x *Exec) claimsFresh(act []*Clause, con *Contract, i int) bool {
	isRes := func(e *Expr) bool {
		if e.Op != "id" {
			return false
		}
		return e.Name == "result" && i == 0 || e.Name == fmt.Sprintf("result%d", i) || i < len(con.Results) && con.Results[i] == e.Name
	}
	var has func(e *Expr) bool
	has = func(e *Expr) bool {
		if e.Op == "bin" && e.Name == "&&" {
			return has(e.A[0]) || has(e.A[1])
		}
		return e.Op == "call" && e.A[0].Op == "id" && e.A[0].Name == "fresh" && isRes(e.A[1])
	}
	for _, cl := range act {
		if cl.Kind == "ensures" && has(cl.E) {
			return true
		}
	}
	return false
}

func (x *Exec) freshResult(st *State, r Val, tag string) Val {
	switch u := r.T.Underlying().(type) {
	case *types.Pointer:
		ref := st.allocRef("new." + tag)
		x.allocType[ref.ID] = u.Elem()
		v := Val{T: r.T, L: []*T{ref}}
		x.fixPtr(&v, st, true)
		return v
	case *types.Slice:
		v := r
		v.L = append([]*T(nil), r.L...)
		if isRaw(u.Elem()) {
			sz := x.C.C64(uint64(x.P.Sizes.Sizeof(u.Elem())))
			v.L[0] = st.allocRegion("new."+tag, x.C.Mul(v.L[2], sz))
		} else {
			v.L[0] = st.allocRef("new." + tag)
		}
		return v
	case *types.Map:
		v := r
		v.L = []*T{st.allocRef("new." + tag)}
		return v
	}
	return r
}

// fixComp replaces the value of a component that a precondition makes equal to a literal by that literal.
func (x *Exec) fixComp(st *State, t *T) {
	if t.Op == smt.OAnd {
		for _, a := range t.A {
			x.fixComp(st, a)
		}
		return
	}
	if t.Op != smt.OEq {
		return
	}
	for i := 0; i < 2; i++ {
		if l := t.A[1-i]; l.Op == smt.OBV {
			for k, ci := range x.compSort {
				if ci.s == t.A[i].S && st.comp(k, ci.s, ci.ref) == t.A[i] {
					st.heap[k] = l
				}
			}
		}
	}
}
