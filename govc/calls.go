package main

import (
	"fmt"
	"go/types"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"

	"govc/smt"
)

func (x *Exec) callArgs(it *item, call *ssa.CallCommon) (Val, []Val) {
	var fv Val
	if call.IsInvoke() {
		fv = x.val(it, call.Value)
		fv.T = call.Value.Type()
	} else if _, ok := call.Value.(*ssa.Builtin); !ok {
		fv = x.val(it, call.Value)
	}
	var args []Val
	for _, a := range call.Args {
		v := x.val(it, a)
		v.T = a.Type()
		args = append(args, v)
	}
	return fv, args
}

func (x *Exec) doCall(st *State, call *ssa.CallCommon, fv Val, args []Val) []Outcome {
	if b, ok := call.Value.(*ssa.Builtin); ok {
		return x.builtin(st, b.Name(), call, args)
	}
	if call.IsInvoke() {
		return x.invoke(st, call, fv, args)
	}
	if f := call.StaticCallee(); f != nil {
		if _, isClo := call.Value.(*ssa.MakeClosure); !isClo {
			return x.callStatic(st, f, args)
		}
	}
	return x.callTerm(st, fv.L[0], call.Signature(), args)
}

// callTerm calls a function value.
func (x *Exec) callTerm(st *State, t *T, sig *types.Signature, args []Val) []Outcome {
	if t.Op == smt.OIte {
		var outs []Outcome
		for i, g := range []*T{t.A[0], x.C.Not(t.A[0])} {
			s := st.clone()
			s.assume(g)
			if s.dead() || !x.feasible(s) {
				continue
			}
			outs = append(outs, x.callTerm(s, t.A[i+1], sig, args)...)
		}
		return outs
	}
	if f, binds, ok := x.closure(st, t); ok {
		if len(f.FreeVars) == 0 {
			return x.callStatic(st, f, args)
		}
		return x.callFn(st, f, args, binds)
	}
	var outs []Outcome
	nilT := x.C.Eq(t, x.nilFn())
	if !nilT.IsFalse() {
		s := st.clone()
		s.assume(nilT)
		if !s.dead() && x.feasible(s) {
			s.note("call of nil function")
			outs = append(outs, x.rtPanic(s, "nil func call"))
		}
		st = st.clone()
		st.assume(x.C.Not(nilT))
		if st.dead() {
			return outs
		}
	}
	if sp, gs := x.satOf(st, t); sp != nil {
		return append(outs, x.applySpec(st, sp, sig, args, "the "+sp.Key, x.rootEnv.pkg, x.ghostVals(st, sp, gs, x.rootEnv.pkg))...)
	}
	return append(outs, x.callUnknown(st, t, sig, args)...)
}

func (x *Exec) rtPanic(st *State, what string) Outcome {
	v := Val{T: types.NewInterfaceType(nil, nil), L: []*T{x.C.App("nonnil:rt:"+what, x.C.U("Iface"))}}
	st.note("run-time panic: " + what)
	return Outcome{St: st, Panic: &v}
}

func (x *Exec) callStatic(st *State, f *ssa.Function, args []Val) []Outcome {
	key := fnKey(f)
	if con := x.V.contract(x, f); con != nil && !x.verifyingBody(f) {
		x.usedCon[key] = true
		return x.applyContract(st, con, f, args)
	}
	if m, ok := externs[f.String()]; ok {
		x.usedExt[f.String()] = true
		if strings.HasPrefix(f.String(), "(reflect.Value).") {
			args = append([]Val(nil), args...)
			for i, a := range args {
				if len(a.L) == 1 && a.L[0].S == x.anyS() {
					args[i].L = []*T{x.canon(st, a.L[0])}
				}
			}
		}
		return m(x, st, f.Signature, args)
	}
	if inRepo(f) && len(f.Blocks) > 0 {
		if x.depth > 0 {
			x.inlined[key] = true
		}
		return x.callFn(st, f, args, nil)
	}
	return x.externDefault(st, f, args)
}

// verifyingBody: the body of f is what is being verified right now, at the
// outermost level.
func (x *Exec) verifyingBody(f *ssa.Function) bool {
	return x.root != nil && x.root.fn == f && len(x.stack) == 0
}

var effectful = []string{"sync", "sync/atomic", "reflect", "runtime", "syscall", "unsafe", "golang.org/x/sys", "os/signal"}

func (x *Exec) externDefault(st *State, f *ssa.Function, args []Val) []Outcome {
	pk := ""
	if f.Pkg != nil {
		pk = f.Pkg.Pkg.Path()
	} else if o := f.Object(); o != nil && o.Pkg() != nil {
		pk = o.Pkg().Path()
	}
	for _, e := range effectful {
		if pk == e || strings.HasPrefix(pk, e+"/") {
			panic(unsupported("call of " + f.String() + " (no model)"))
		}
	}
	x.usedExt[f.String()+" (havoc: arbitrary result, no effect on the program's memory)"] = true
	st = st.clone()
	st.newClock()
	var res []Val
	rt := f.Signature.Results()
	for i := 0; i < rt.Len(); i++ {
		res = append(res, x.freshVal(st, "ext."+f.Name(), rt.At(i).Type()))
	}
	return []Outcome{{St: st, Res: res}}
}

// invoke dispatches an interface method call.
func (x *Exec) invoke(st *State, call *ssa.CallCommon, recv Val, args []Val) []Outcome {
	m := call.Method
	it := call.Value.Type()
	if isNamed(it, "reflect", "Type") {
		mod, ok := externs["(reflect.Type)."+m.Name()]
		if !ok {
			panic(unsupported("reflect.Type." + m.Name()))
		}
		x.usedExt["(reflect.Type)."+m.Name()] = true
		var outs []Outcome
		nt := x.C.Eq(recv.L[0], x.nilRType())
		if !nt.IsFalse() {
			s := st.clone()
			s.assume(nt)
			if !s.dead() && x.feasible(s) {
				outs = append(outs, x.rtPanic(s, "method call on nil reflect.Type"))
			}
			st = st.clone()
			st.assume(x.C.Not(nt))
			if st.dead() {
				return outs
			}
		}
		return append(outs, mod(x, st, m.Type().(*types.Signature), append([]Val{recv}, args...))...)
	}
	i := recv.L[0]
	if i.Op == smt.OIte {
		var outs []Outcome
		for k, g := range []*T{i.A[0], x.C.Not(i.A[0])} {
			s := st.clone()
			s.assume(g)
			if s.dead() || !x.feasible(s) {
				continue
			}
			outs = append(outs, x.invoke(s, call, Val{T: recv.T, L: []*T{i.A[k+1]}}, args)...)
		}
		return outs
	}
	if i.Op == smt.OApp && strings.HasPrefix(i.Name, "mk:") {
		return x.invokeOn(st, x.boxTypes[i.Name], i, m, args)
	}
	var outs []Outcome
	nt := x.isNilIface(i)
	s := st.clone()
	s.assume(nt)
	if !s.dead() && x.feasible(s) {
		outs = append(outs, x.rtPanic(s, "method call on nil interface"))
	}
	st = st.clone()
	st.assume(x.C.Not(nt))
	if m.Name() == "Error" && m.Type().(*types.Signature).Params().Len() == 0 {
		return append(outs, Outcome{St: st, Res: []Val{{T: types.Typ[types.String], L: []*T{x.C.App("errstr", x.C.U("Str"), i)}}}})
	}
	// closed world: the implementations in the repository
	impls := x.V.implementers(x.P, it)
	if len(impls) == 0 {
		panic(unsupported("invoke " + m.FullName() + " without known implementation"))
	}
	var alts []*T
	for _, t := range impls {
		g := x.hasType(i, t)
		alts = append(alts, g)
		s := st.clone()
		s.assume(g)
		if s.dead() || !x.feasible(s) {
			continue
		}
		outs = append(outs, x.invokeOn(s, t, i, m, args)...)
	}
	return outs
}

func (x *Exec) invokeOn(st *State, t types.Type, i *T, m *types.Func, args []Val) []Outcome {
	sel := x.P.SSA.MethodSets.MethodSet(t).Lookup(m.Pkg(), m.Name())
	if sel == nil {
		panic(unsupported("method " + m.Name() + " of " + t.String()))
	}
	f := x.P.SSA.MethodValue(sel)
	st = st.clone()
	recv := x.unbox(st, i, t)
	return x.callStatic(st, f, append([]Val{recv}, args...))
}

func (x *Exec) panicVal(v *T) *Val {
	return &Val{T: types.NewInterfaceType(nil, nil), L: []*T{v}}
}

// ---- builtins

func (x *Exec) builtin(st *State, name string, call *ssa.CallCommon, args []Val) []Outcome {
	c := x.C
	one := func(t types.Type, l ...*T) []Outcome { return []Outcome{{St: st, Res: []Val{{T: t, L: l}}}} }
	intT := types.Typ[types.Int]
	switch name {
	case "len":
		return one(intT, x.lenOf(st, args[0]))
	case "cap":
		l := args[0].L
		return one(intT, l[len(l)-1])
	case "print", "println":
		return []Outcome{{St: st}}
	case "panic":
		return []Outcome{{St: st, Panic: &args[0]}}
	case "recover":
		et := types.NewInterfaceType(nil, nil)
		if n := len(st.panics); n > 0 && !st.panics[n-1].recovered {
			st = st.clone()
			st.panics[n-1].recovered = true
			return []Outcome{{St: st, Res: []Val{{T: et, L: st.panics[n-1].val.L}}}}
		}
		return []Outcome{{St: st, Res: []Val{{T: et, L: []*T{x.nilIface()}}}}}
	case "delete":
		st = st.clone()
		m := args[0].T.Underlying().(*types.Map)
		isnil := c.Eq(args[0].L[0], c.C64(0))
		if isnil.IsTrue() {
			return []Outcome{{St: st}}
		}
		x.mapSet(st, m, args[0].L[0], x.enc(args[1]), Val{}, c.False)
		return []Outcome{{St: st}}
	case "append":
		return x.appendB(st, call.Args[0].Type(), args)
	case "copy":
		return x.copyB(st, args)
	case "ssa:wrapnilchk":
		return []Outcome{{St: st, Res: []Val{args[0]}}}
	case "min", "max":
		r := args[0].L[0]
		for _, a := range args[1:] {
			lt := c.Ult(a.L[0], r)
			if isSigned(args[0].T) {
				lt = c.Slt(a.L[0], r)
			}
			if name == "max" {
				lt = c.Not(c.Or(lt, c.Eq(a.L[0], r)))
			}
			r = c.Ite(lt, a.L[0], r)
		}
		return one(args[0].T, r)
	}
	panic(unsupported("builtin " + name))
}

func (x *Exec) lenOf(st *State, v Val) *T {
	switch u := v.T.Underlying().(type) {
	case *types.Slice:
		return v.L[len(v.L)-2]
	case *types.Basic:
		return x.strlen(v.L[0])
	case *types.Map:
		_, l := x.mapLen(st, u)
		n := x.C.Select(l, v.L[0])
		st.assume(x.C.Ult(n, x.C.C64(1<<46)))
		return x.C.Ite(x.C.Eq(v.L[0], x.C.C64(0)), x.C.C64(0), n)
	case *types.Array:
		return x.C.C64(uint64(u.Len()))
	case *types.Pointer:
		if a, ok := u.Elem().Underlying().(*types.Array); ok {
			return x.C.C64(uint64(a.Len()))
		}
	}
	panic(unsupported("len of " + v.T.String()))
}

func (x *Exec) appendB(st *State, t types.Type, args []Val) []Outcome {
	c := x.C
	et := t.Underlying().(*types.Slice).Elem()
	s, add := args[0], args[1]
	if len(args) == 1 {
		return []Outcome{{St: st, Res: []Val{s}}}
	}
	if b, ok := add.T.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
		panic(unsupported("append of string bytes"))
	}
	raw := isRaw(et)
	ln, cp := s.L[len(s.L)-2], s.L[len(s.L)-1]
	n := add.L[len(add.L)-2]
	if n.Op == smt.OBV && n.V == 0 {
		return []Outcome{{St: st, Res: []Val{s}}}
	}
	nl := c.Add(ln, n)
	fits := c.Ule(nl, cp)
	var outs []Outcome
	try := func(g *T, f func(st *State) Val) {
		s := st.clone()
		s.assume(g)
		if s.dead() {
			return
		}
		if !g.IsTrue() && !x.feasible(s) {
			return
		}
		v := f(s)
		outs = append(outs, Outcome{St: s, Res: []Val{v}})
	}
	// lengths never wrap: at most 2^46 elements each
	try(fits, func(st *State) Val {
		if raw {
			sz := c.C64(uint64(x.P.Sizes.Sizeof(et)))
			x.memCopy(st, c.Add(s.L[0], c.Mul(ln, sz)), add.L[0], c.Mul(n, sz))
			return Val{T: t, L: []*T{s.L[0], nl, cp}}
		}
		x.elemCopy(st, et, s.L[0], c.Add(s.L[1], ln), add.L[0], add.L[1], n)
		return Val{T: t, L: []*T{s.L[0], s.L[1], nl, cp}}
	})
	try(c.Not(fits), func(st *State) Val {
		ncap := c.Fresh("cap", smt.BV64)
		if k, ok := growCap(cp, nl, x.P.Sizes.Sizeof(et)); ok {
			ncap = c.C64(k)
		} else {
			st.assume(c.Ule(nl, ncap), c.Ult(ncap, c.C64(1<<46)))
		}
		v := x.makeSlice(st, t, nl, ncap, "append")
		if raw {
			sz := c.C64(uint64(x.P.Sizes.Sizeof(et)))
			x.memCopy(st, v.L[0], s.L[0], c.Mul(ln, sz))
			x.memCopy(st, c.Add(v.L[0], c.Mul(ln, sz)), add.L[0], c.Mul(n, sz))
			return v
		}
		x.elemCopy(st, et, v.L[0], c.C64(0), s.L[0], s.L[1], ln)
		x.elemCopy(st, et, v.L[0], ln, add.L[0], add.L[1], n)
		return v
	})
	return outs
}

// growCap is runtime.growslice for small slices of statically known capacity
// and length: the same in every supported release.
func growCap(cp, nl *T, size int64) (uint64, bool) {
	if cp.Op != smt.OBV || nl.Op != smt.OBV || size <= 0 || size > 64 || nl.V > 200 {
		return 0, false
	}
	n := nl.V
	if n <= 2*cp.V {
		n = 2 * cp.V
	}
	for _, k := range sizeClasses {
		if n*uint64(size) <= k {
			return k / uint64(size), true
		}
	}
	return 0, false
}

// sizeClasses are the allocator's size classes that carry no header.
var sizeClasses = []uint64{8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512}

// memCopy is memmove on raw memory.
func (x *Exec) memCopy(st *State, dst, src, n *T) {
	c := x.C
	if n.Op == smt.OBV && n.V == 0 {
		return
	}
	m := st.mem()
	if n.Op == smt.OBV && n.V <= 24 {
		out := m
		for i := uint64(0); i < n.V; i++ {
			out = c.Store(out, c.Add(dst, c.C64(i)), c.Select(m, c.Add(src, c.C64(i))))
		}
		st.setMem(out)
	} else {
		st.setMem(c.Cpy(m, dst, m, src, n))
	}
	st.wlog = append(st.wlog, wrec{comp: "M", base: dst, n: n})
}

func (x *Exec) elemCopy(st *State, et types.Type, darr, doff, sarr, soff, n *T) {
	c := x.C
	if n.Op == smt.OBV && n.V == 0 {
		return
	}
	for _, lf := range x.layout(et).Leaves {
		p := &Ptr{Kind: PElem, Root: et}
		nm := x.compName(p, lf)
		e := st.comp(nm, x.leafCompSort(p, lf), lf.Ref)
		d, s := c.Select(e, darr), c.Select(e, sarr)
		var nd *T
		if n.Op == smt.OBV && n.V <= 16 {
			nd = d
			for i := uint64(0); i < n.V; i++ {
				nd = c.Store(nd, c.Add(doff, c.C64(i)), c.Select(s, c.Add(soff, c.C64(i))))
			}
		} else {
			nd = c.Cpy(d, doff, s, soff, n)
		}
		st.setComp(nm, c.Store(e, darr, nd))
		st.wlog = append(st.wlog, wrec{comp: nm, base: darr})
	}
}

func (x *Exec) copyB(st *State, args []Val) []Outcome {
	c := x.C
	d, s := args[0], args[1]
	st = st.clone()
	et := d.T.Underlying().(*types.Slice).Elem()
	dl, sl := x.lenOf(st, d), x.lenOf(st, s)
	var n *T
	switch {
	case dl == sl:
		n = dl
	default:
		lt := c.Ult(sl, dl)
		// decide the minimum by the path condition when possible
		if x.proves(st, c.Ule(sl, dl)) {
			n = sl
		} else if x.proves(st, c.Ule(dl, sl)) {
			n = dl
		} else {
			n = c.Ite(lt, sl, dl)
		}
	}
	if isRaw(et) {
		if b, ok := s.T.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			panic(unsupported("copy from string"))
		}
		sz := c.C64(uint64(x.P.Sizes.Sizeof(et)))
		x.memCopy(st, d.L[0], s.L[0], c.Mul(n, sz))
	} else {
		x.elemCopy(st, et, d.L[0], d.L[1], s.L[0], s.L[1], n)
	}
	return []Outcome{{St: st, Res: []Val{{T: types.Typ[types.Int], L: []*T{n}}}}}
}

// ---- solver access during execution

func (x *Exec) query(st *State, goal *T) *smt.Query {
	return &smt.Query{C: x.C, Hyps: st.path, Goal: goal, Regions: st.regions}
}

// feasible is false only when the path condition is unsatisfiable.
func (x *Exec) feasible(st *State) bool {
	if st.dead() {
		return false
	}
	q := &smt.Query{C: x.C, Hyps: st.path, Regions: st.regions, Rounds: 2, Limit: 400, Depth: 1}
	fs := q.Build()
	for _, f := range fs {
		if f.IsFalse() {
			return false
		}
	}
	x.V.nFeas++
	ms := 400
	if x.dry > 0 || x.sink != nil {
		ms = 120 // it only prunes
	}
	r, _ := x.Sol.Check(smt.Emit(x.C, fs), x.V.slow(ms), false)
	return r != smt.Unsat
}

// proves tries to prove goal from the path condition.
func (x *Exec) proves(st *State, goal *T) bool {
	return x.provesT(st, goal, 2000)
}

// attempts are the ways to state a query, from the cheapest to the complete one.
type attempt struct {
	light  bool
	depth  int
	rounds int
	gen    int
}

var attempts = []attempt{{true, 1, 0, 3}, {false, 1, 1, 2}, {false, 1, 0, 3}, {false, 2, 0, 5}, {false, 0, 0, 0}}

// provesMany is provesT for several goals, solved side by side.
func (x *Exec) provesMany(st *State, goals []*T, ms func(int) int) []bool {
	return x.provesAll(func(int) *State { return st }, goals, ms)
}

// provesAll: the i-th goal in the i-th state.
func (x *Exec) provesAll(sts func(int) *State, goals []*T, ms func(int) int) []bool {
	res := make([]bool, len(goals))
	type piece struct {
		i int
		g *T
	}
	var todo []piece
	failed := map[int]bool{}
	for i, g := range goals {
		if g == nil {
			continue
		}
		res[i] = true
		var split func(g *T)
		split = func(g *T) {
			if g.Op == smt.OAnd {
				for _, a := range g.A {
					split(a)
				}
				return
			}
			if g.IsTrue() || sts(i).pathSet[g.ID] {
				return
			}
			todo = append(todo, piece{i, g})
		}
		split(g)
	}
	for _, at := range attempts {
		var wg sync.WaitGroup
		done := make([]bool, len(todo))
		final := make([]bool, len(todo))
		for k, p := range todo {
			if failed[p.i] {
				continue
			}
			q := x.query(sts(p.i), p.g)
			q.Depth, q.Light, q.Gen = at.depth, at.light, at.gen
			if at.rounds != 0 {
				q.Rounds = at.rounds
			}
			fs := q.Build()
			final[k] = !q.Skipped
			for _, f := range fs {
				if f.IsFalse() {
					done[k] = true
				}
			}
			if done[k] {
				continue
			}
			text := smt.Emit(x.C, fs)
			t := ms(p.i)
			if at.light && t > 1000 {
				t = 1000
			}
			wg.Add(1)
			go func(k int) {
				defer wg.Done()
				r, _ := x.Sol.Check(text, x.V.slow(t), false)
				done[k] = r == smt.Unsat
			}(k)
		}
		wg.Wait()
		var rest []piece
		for k, p := range todo {
			switch {
			case done[k] || failed[p.i]:
			case final[k]:
				failed[p.i] = true
			default:
				rest = append(rest, p)
			}
		}
		todo = rest
	}
	for _, p := range todo {
		failed[p.i] = true
	}
	for i := range res {
		if failed[i] {
			res[i] = false
		}
	}
	return res
}

func (x *Exec) provesT(st *State, goal *T, ms int) bool {
	return x.provesMany(st, []*T{goal}, func(int) int { return ms })[0]
}

func (x *Exec) oblige(st *State, name string, goal *T, info string) {
	if x.dry > 0 && (x.sink == nil || x.sink.dry != x.dry) {
		return
	}
	if goal.Op == smt.OAnd {
		for _, g := range goal.A {
			x.oblige(st, name, g, info)
		}
		return
	}
	st = x.obligeSat(st, goal)
	if x.sink != nil {
		if goal.IsFalse() && !x.feasible(st) {
			return
		}
		x.sink.sts = append(x.sink.sts, st.clone())
		x.sink.goals = append(x.sink.goals, goal)
		x.sink.names = append(x.sink.names, x.oblPre+name)
		return
	}
	x.V.addObligation(x, st, x.oblPre+name, goal, info)
}

func fmtVals(vs []Val) string {
	var s []string
	for _, v := range vs {
		s = append(s, fmt.Sprint(v.L))
	}
	return strings.Join(s, ", ")
}

func (v *Verifier) slow(ms int) int {
	if v.scale > 1 {
		return ms * v.scale
	}
	return ms
}
