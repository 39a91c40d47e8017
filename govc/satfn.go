package main

// Contracts of function values: sat(Spec, f, ghosts) says that whenever f is
// called later, it meets funcspec Spec for those ghosts. For a closure made by
// the code being verified it is established by verifying the closure's body
// from an arbitrary later state, in which only what cannot change any more is
// still known; for a function value that is called it is what a call does.

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
	"govc/smt"
)

// kept: components that stay as they are between the making of a function
// value and its calls.
func (x *Exec) kept(k string) bool {
	for _, s := range x.V.Spec.Stable {
		if k == s || strings.HasPrefix(k, s+".") {
			return true
		}
	}
	return false
}

// future is an arbitrary state after st, as the closure f with bindings binds
// may find it.
func (x *Exec) future(st *State, f *ssa.Function, binds []Val) *State {
	c := x.C
	x.nEpoch++
	n := st.clone()
	n.epoch = x.nEpoch
	n.epochClk = st.clock + 1
	n.clock = st.clock + 2
	n.heap = map[string]*T{}
	n.held = map[int]int{}
	n.notes = nil
	for k, v := range st.heap {
		if x.kept(k) || ghostComp(k) {
			n.heap[k] = v
		}
	}
	n.keptEpoch, n.keptClk = st.keptEpoch, st.keptClk
	for i, fv := range f.FreeVars {
		b := binds[i]
		if b.P == nil || b.P.Kind != PObj || b.P.View != nil || !x.finalCapture(f, i) {
			_ = fv
			continue
		}
		lay := x.layout(b.P.Root)
		var vals []*T
		for j := 0; j < b.P.N; j++ {
			lf := lay.Leaves[b.P.Lo+j]
			v := st.readLeaf(b.P, lf)
			vals = append(vals, v)
			n.writeLeafQuiet(b.P, lf, v)
		}
		// the elements of a slice made here that only functions under contract hold
		if sl, ok := b.P.T.Underlying().(*types.Slice); ok && len(vals) == 4 && vals[0].Alloc > 0 && !isRaw(sl.Elem()) {
			for _, lf := range x.layout(sl.Elem()).Leaves {
				p := &Ptr{Kind: PElem, Root: sl.Elem(), N: 1}
				k := x.compName(p, lf)
				if x.kept(k) {
					continue
				}
				s := x.leafCompSort(p, lf)
				n.setComp(k, c.Store(n.comp(k, s, lf.Ref), vals[0], c.Select(st.comp(k, s, lf.Ref), vals[0])))
			}
		}
	}
	n.wlog = nil
	return n
}

// finalCapture: the i-th variable f captures is not assigned after f is made.
func (x *Exec) finalCapture(f *ssa.Function, i int) bool {
	p := f.Parent()
	if p == nil {
		return false
	}
	n := 0
	for _, b := range p.Blocks {
		for k, ins := range b.Instrs {
			mc, ok := ins.(*ssa.MakeClosure)
			if !ok || mc.Fn != f {
				continue
			}
			n++
			if !finalAt(mc.Bindings[i], b, k) {
				return false
			}
		}
	}
	// the closure does not assign it either
	return n > 0 && !assigns(f, f.FreeVars[i])
}

// assigns: f, or a closure made in it, may assign the variable v points to.
func assigns(f *ssa.Function, v ssa.Value) bool {
	refs := v.Referrers()
	if refs == nil {
		return true
	}
	for _, r := range *refs {
		switch r := r.(type) {
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.Store:
			if r.Addr == v || r.Val == v {
				return true
			}
		case *ssa.MakeClosure:
			g := r.Fn.(*ssa.Function)
			for i, b := range r.Bindings {
				if b == v && assigns(g, g.FreeVars[i]) {
					return true
				}
			}
		default:
			return true
		}
	}
	return false
}

func finalAt(v ssa.Value, b *ssa.BasicBlock, at int) bool {
	if fv, ok := v.(*ssa.FreeVar); ok {
		f := b.Parent()
		if assigns(f, fv) {
			return false
		}
		for i, w := range f.FreeVars {
			if w == fv {
				p := f.Parent()
				for _, pb := range p.Blocks {
					for k, ins := range pb.Instrs {
						if mc, ok := ins.(*ssa.MakeClosure); ok && mc.Fn == f && !finalAt(mc.Bindings[i], pb, k) {
							return false
						}
					}
				}
				return true
			}
		}
		return false
	}
	a, ok := v.(*ssa.Alloc)
	if !ok {
		return false
	}
	refs := a.Referrers()
	var stores []ssa.Instruction
	for _, r := range *refs {
		switch r := r.(type) {
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.Store:
			if r.Val == a {
				return false
			}
			stores = append(stores, r)
		case *ssa.MakeClosure:
			g := r.Fn.(*ssa.Function)
			for i, w := range r.Bindings {
				if w == a && assigns(g, g.FreeVars[i]) {
					return false
				}
			}
		default:
			return false
		}
	}
	// is a store reachable without making the variable anew?
	seen := map[*ssa.BasicBlock]bool{}
	hit := false
	var scan func(b *ssa.BasicBlock, from int)
	scan = func(b *ssa.BasicBlock, from int) {
		for k := from; k < len(b.Instrs); k++ {
			ins := b.Instrs[k]
			if ins == ssa.Instruction(a) {
				return
			}
			for _, s := range stores {
				if s == ins {
					hit = true
				}
			}
		}
		for _, s := range b.Succs {
			if !seen[s] {
				seen[s] = true
				scan(s, 0)
			}
		}
	}
	scan(b, at+1)
	return !hit
}

type sink struct {
	dry    int
	failed bool
	sts    []*State
	goals  []*T
	names  []string
}

// ghostVals resolves the ghost arguments of a funcspec.
func (x *Exec) ghostVals(st *State, sp *Contract, gs []*T, pkg *types.Package) map[string]Val {
	m := map[string]Val{}
	for i, a := range sp.Args {
		ty, _, err := x.resolveSort(a.Sort, pkg)
		if err != nil {
			panic(evalErr{err.Error()})
		}
		v := Val{T: ty, L: []*T{gs[i]}}
		if ty != nil {
			x.fixPtr(&v, st, true)
		}
		m[a.Name] = v
	}
	return m
}

// verifySat checks that the closure t meets sp for the ghosts, from any state
// later than st. Each obligation goes to the report, or to the sink.
func (x *Exec) verifySat(st *State, sp *Contract, t *T, gs []*T) {
	f, binds, ok := x.closure(st, t)
	if !ok {
		x.oblige(st, "function value meets "+sp.Key, x.C.False, "not a function made here: "+t.String())
		return
	}
	if f.Signature.Params().Len() != len(sp.Params) {
		x.oblige(st, "function value meets "+sp.Key, x.C.False, "it takes other parameters")
		return
	}
	root := f
	for root.Parent() != nil {
		root = root.Parent()
	}
	pkg := fnPkg(f)
	s := x.future(st, f, binds)
	for i := range binds {
		x.fixPtr(&binds[i], s, true)
	}
	var args []Val
	for i := 0; i < f.Signature.Params().Len(); i++ {
		p := f.Signature.Params().At(i)
		if sl, ok := p.Type().Underlying().(*types.Slice); ok && isNamed(sl.Elem(), "reflect", "Value") {
			sq := x.C.Fresh("seq."+p.Name(), x.C.U("ASeq"))
			args = append(args, x.seqSlice(s, p.Type(), sq))
			continue
		}
		args = append(args, x.freshVal(s, "sp."+p.Name(), p.Type()))
	}
	saveEnv, saveEntry, saveCands, savePre, saveGh, saveStack := x.rootEnv, x.rootEntry, x.candClauses, x.oblPre, x.ghosts, x.stack
	defer func() {
		x.rootEnv, x.rootEntry, x.candClauses, x.oblPre, x.ghosts, x.stack = saveEnv, saveEntry, saveCands, savePre, saveGh, saveStack
	}()
	x.stack = append([]*ssa.Function(nil), x.stack...)
	x.oblPre = savePre + "the function value is a " + sp.Key + ": "
	s.wlog = nil
	env := x.newEnv(s, s, pkg)
	x.bindParams(sp, args, env)
	gh := x.ghostVals(s, sp, gs, pkg)
	for k, v := range gh {
		env.vars[k] = v
	}
	act := sp.checked(x.V.Prop)
	for _, cl := range act {
		if cl.Kind == "requires" {
			b, err := env.Bool(cl.E)
			if err != nil {
				panic(err)
			}
			s.assume(b)
		}
	}
	if x.sink == nil && x.dry == 0 {
		x.vacuity(s, "what a "+sp.Key+" requires")
	}
	entry := s.clone()
	x.ghosts = gh
	x.rootEnv = x.newEnv(entry, entry, pkg)
	x.bindParams(sp, args, x.rootEnv)
	for k, v := range gh {
		x.rootEnv.vars[k] = v
	}
	x.rootEntry = entry
	x.candClauses = nil
	for _, cl := range act {
		if cl.Kind == "cand" {
			x.candClauses = append(x.candClauses, cl)
		}
	}
	for _, o := range x.callFn(s, f, args, binds) {
		if o.St.dead() {
			continue
		}
		x.checkOutcome(f, sp, act, entry, args, o)
		if x.sink != nil && x.sink.failed {
			return
		}
	}
}

// meets decides quietly whether the closure meets the funcspec.
func (x *Exec) meets(st *State, sp *Contract, t *T, gs []*T) (ok bool) {
	if b := x.birthOf(st, t); b != nil {
		// what is known of the ghosts by now
		for _, h := range st.path[len(b.path):] {
			for _, g := range gs {
				if isPart(g, h) && !mentionsFn(h) {
					b.assume(h)
					break
				}
			}
		}
		st = b
	}
	var b strings.Builder
	fmt.Fprintf(&b, "%s %d", sp.Key, t.ID)
	for _, g := range gs {
		fmt.Fprintf(&b, " %d", g.ID)
	}
	for _, p := range st.path {
		fmt.Fprintf(&b, ",%d", p.ID)
	}
	for _, k := range sortedKeys(st.heap) {
		if !ghostComp(k) {
			fmt.Fprintf(&b, ";%d", st.heap[k].ID)
		}
	}
	key := b.String()
	if r, ok := x.satMemo[key]; ok {
		return r
	}
	save := x.sink
	x.sink = &sink{dry: x.dry}
	defer func() {
		if r := recover(); r != nil {
			if _, is := r.(unsupportedErr); !is {
				panic(r)
			}
			x.trace("closure %s: %v", t, r)
			ok = false
		}
		x.sink = save
		x.satMemo[key] = ok
	}()
	x.verifySat(st, sp, t, gs)
	k := x.sink
	for i, ok := range x.provesAll(func(i int) *State { return k.sts[i] }, k.goals, func(int) int { return 8000 }) {
		if !ok {
			x.trace("not provable: %s", k.names[i])
			return false
		}
	}
	return !k.failed
}

// isPart: g, a term with parts, occurs in t.
func isPart(g, t *T) bool {
	if len(g.A) == 0 {
		return false
	}
	seen := map[int]bool{}
	var in func(t *T) bool
	in = func(t *T) bool {
		if t == g {
			return true
		}
		if seen[t.ID] {
			return false
		}
		seen[t.ID] = true
		for _, a := range t.A {
			if in(a) {
				return true
			}
		}
		return false
	}
	return in(t)
}

func mentionsFn(t *T) bool { return t.Op == smt.OForall || hasSat(t) }

func hasSat(t *T) bool {
	var as []*T
	satAtoms(t, map[int]bool{}, &as)
	return len(as) > 0
}

// satAtoms lists the sat atoms of t.
func satAtoms(t *T, seen map[int]bool, out *[]*T) {
	if seen[t.ID] {
		return
	}
	seen[t.ID] = true
	if t.Op == smt.OApp && strings.HasPrefix(t.Name, "sat:") {
		*out = append(*out, t)
	}
	for _, a := range t.A {
		satAtoms(a, seen, out)
	}
}

func (x *Exec) closTerms(t *T, seen map[int]bool, out *[]*T) {
	if seen[t.ID] {
		return
	}
	seen[t.ID] = true
	if t.Op == smt.OApp && t.S == x.C.U("Fn") {
		if _, ok := x.clos[t.Name]; ok {
			*out = append(*out, t)
			return
		}
	}
	for _, a := range t.A {
		x.closTerms(a, seen, out)
	}
}

// saturateGoals adds to the state which funcspecs the closures in the goals
// meet, for the ghosts that are at hand.
func (x *Exec) saturateGoals(it *item, goals []*T) {
	var atoms, clos []*T
	sa, sc := map[int]bool{}, map[int]bool{}
	for _, g := range goals {
		if g == nil {
			continue
		}
		n := len(atoms)
		satAtoms(g, sa, &atoms)
		if len(atoms) > n {
			x.closTerms(g, sc, &clos)
		}
	}
	if len(atoms) == 0 || len(clos) == 0 {
		return
	}
	specs := map[string]bool{}
	for _, a := range atoms {
		specs[a.Name[4:]] = true
	}
	for _, k := range sk(specs) {
		sp := x.V.Spec.FSpecs[k]
		for _, cl := range clos {
			ci := x.clos[cl.Name]
			if ci.fn.Signature.Params().Len() != len(sp.Params) || ci.fn.Signature.Results().Len() != len(sp.Results) || sp.Shape != "" && sp.Shape != sigShape(ci.fn.Signature) {
				continue
			}
			opts := make([][]*T, len(sp.Args))
			for i, a := range sp.Args {
				ty, _, err := x.resolveSort(a.Sort, x.rootEnv.pkg)
				if err != nil {
					panic(evalErr{err.Error()})
				}
				seen := map[int]bool{}
				add := func(v Val) {
					if v.T == nil || ty == nil || !types.Identical(v.T, ty) || len(v.Tup) > 0 {
						return
					}
					t := (*T)(nil)
					if v.P != nil {
						t = x.enc(v)
					} else if len(v.L) == 1 {
						t = v.L[0]
					}
					if t != nil && !seen[t.ID] {
						seen[t.ID] = true
						opts[i] = append(opts[i], t)
					}
				}
				var vs []ssa.Value
				for v := range it.env {
					vs = append(vs, v)
				}
				sort.Slice(vs, func(i, j int) bool { return vs[i].Name() < vs[j].Name() })
				for _, v := range vs {
					add(it.env[v])
				}
				for _, n := range sortedVals(x.rootEnv.vars) {
					add(x.rootEnv.vars[n])
				}
			}
			var rec func(i int, gs []*T)
			rec = func(i int, gs []*T) {
				if i == len(opts) {
					atom := x.C.App("sat:"+sp.Key, smt.Bool, append([]*T{cl}, gs...)...)
					if it.st.pathSet[atom.ID] {
						return
					}
					if x.meets(it.st, sp, cl, append([]*T(nil), gs...)) {
						it.st.assume(atom)
						x.trace("%s meets %s", cl, sp.Key)
					} else {
						x.trace("%s does not meet %s for %v", cl, sp.Key, gs)
					}
					return
				}
				for _, o := range opts[i] {
					rec(i+1, append(gs, o))
				}
			}
			rec(0, nil)
		}
	}
}

// sigShape is the type of a function without the names of its parameters.
func sigShape(sg *types.Signature) string {
	strip := func(t *types.Tuple) *types.Tuple {
		var vs []*types.Var
		for i := 0; i < t.Len(); i++ {
			vs = append(vs, types.NewVar(0, nil, "", t.At(i).Type()))
		}
		return types.NewTuple(vs...)
	}
	return types.TypeString(types.NewSignatureType(nil, nil, nil, strip(sg.Params()), strip(sg.Results()), sg.Variadic()), nil)
}

func sortedVals(m map[string]Val) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

// obligeSat verifies the closures that a goal speaks of, and returns the state
// with what was established.
func (x *Exec) obligeSat(st *State, goal *T) *State {
	var atoms []*T
	satAtoms(goal, map[int]bool{}, &atoms)
	for _, a := range atoms {
		if st.pathSet[a.ID] {
			continue
		}
		if a.A[0].Op != smt.OApp {
			continue
		}
		if _, ok := x.clos[a.A[0].Name]; !ok {
			continue
		}
		// under the conditions the goal puts before it
		s := st.clone()
		for _, g := range guardsOf(x.C, goal, a) {
			s.assume(g)
		}
		if s.dead() || !x.feasible(s) {
			continue
		}
		x.verifySat(s, x.V.Spec.FSpecs[a.Name[4:]], a.A[0], a.A[1:])
		st = st.clone()
		st.assume(a)
	}
	return st
}

// guardsOf: what must hold for the atom a to matter in goal (no binders).
func guardsOf(c *smt.Ctx, goal, a *T) []*T {
	has := func(t *T) bool {
		var as []*T
		satAtoms(t, map[int]bool{}, &as)
		for _, b := range as {
			if b == a {
				return true
			}
		}
		return false
	}
	var r []*T
	for goal != a {
		if goal.Op != smt.OOr {
			return r
		}
		var next *T
		for _, d := range goal.A {
			if has(d) {
				if next != nil {
					return r
				}
				next = d
			}
		}
		if next == nil {
			return r
		}
		for _, d := range goal.A {
			if d != next {
				r = append(r, c.Not(d))
			}
		}
		goal = next
	}
	return r
}

// satFacts finds what is known of the function value t: funcspecs and ghosts.
func (x *Exec) satOf(st *State, t *T) (*Contract, []*T) {
	for i := len(st.path) - 1; i >= 0; i-- {
		if sp, gs := x.satIn(st, st.path[i], nil, nil, t); sp != nil {
			return sp, gs
		}
	}
	return nil, nil
}

func (x *Exec) satIn(st *State, h *T, bound []*T, guards []*T, t *T) (*Contract, []*T) {
	switch h.Op {
	case smt.OForall:
		n := len(h.A) - 1
		return x.satIn(st, h.A[n], append(append([]*T(nil), bound...), h.A[:n]...), guards, t)
	case smt.OAnd:
		for _, a := range h.A {
			if sp, gs := x.satIn(st, a, bound, guards, t); sp != nil {
				return sp, gs
			}
		}
	case smt.OOr:
		for i, a := range h.A {
			var as []*T
			satAtoms(a, map[int]bool{}, &as)
			if len(as) == 0 {
				continue
			}
			g := append([]*T(nil), guards...)
			for j, b := range h.A {
				if j != i {
					g = append(g, x.C.Not(b))
				}
			}
			if sp, gs := x.satIn(st, a, bound, g, t); sp != nil {
				return sp, gs
			}
		}
	case smt.OApp:
		if !strings.HasPrefix(h.Name, "sat:") {
			return nil, nil
		}
		m := map[*T]*T{}
		if !x.unify(h.A[0], t, bound, m) {
			return nil, nil
		}
		sub := func(q *T) *T {
			for _, b := range bound {
				if v, ok := m[b]; ok {
					q = x.C.Subst(q, b, v)
				}
			}
			return q
		}
		for _, g := range guards {
			if !x.proves(st, sub(g)) {
				return nil, nil
			}
		}
		sp := x.V.Spec.FSpecs[h.Name[4:]]
		var gs []*T
		for _, g := range h.A[1:] {
			gs = append(gs, sub(g))
		}
		return sp, gs
	}
	return nil, nil
}

func (x *Exec) unify(p, t *T, bound []*T, m map[*T]*T) bool {
	for _, b := range bound {
		if p == b {
			if v, ok := m[b]; ok {
				return v == t
			}
			if b.S != t.S {
				return false
			}
			m[b] = t
			return true
		}
	}
	if p == t {
		return true
	}
	if p.Op == smt.OAdd {
		// rest + bound == t
		var rest *T = x.C.C64(0)
		var bv *T
		for _, a := range p.A {
			isB := false
			for _, b := range bound {
				isB = isB || a == b
			}
			if isB && bv == nil {
				bv = a
			} else {
				rest = x.C.Add(rest, a)
			}
		}
		if bv != nil {
			return x.unify(bv, x.C.Sub(t, rest), bound, m)
		}
	}
	if p.Op != t.Op || p.Name != t.Name || len(p.A) != len(t.A) || p.S != t.S || len(p.A) == 0 {
		return false
	}
	for i := range p.A {
		if !x.unify(p.A[i], t.A[i], bound, m) {
			return false
		}
	}
	return true
}

var _ = os.Getenv
