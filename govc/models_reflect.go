package main

import (
	"go/types"

	"govc/smt"
)

// The reflect package, as documented. A reflect.Value is one of: the zero
// Value (nilAny); a plain value rv(type, content); an addressable location
// loc(address, type) whose content is RC[address]. The content of a value is
// the interface value Interface returns. Types are uninterpreted, observed
// through kind, numIn, inT, ...

// canon is the location or plain value that v is known to be.
func (x *Exec) canon(st *State, v *T) *T {
	if v.Op == smt.OApp && (v.Name == "loc" || v.Name == "rv") {
		return v
	}
	is := func(t *T) bool { return t.Op == smt.OApp && (t.Name == "loc" || t.Name == "rv") }
	var find func(p *T) *T
	find = func(p *T) *T {
		switch p.Op {
		case smt.OEq:
			if p.A[0] == v && is(p.A[1]) {
				return p.A[1]
			}
			if p.A[1] == v && is(p.A[0]) {
				return p.A[0]
			}
		case smt.OAnd:
			for _, q := range p.A {
				if r := find(q); r != nil {
					return r
				}
			}
		case smt.OOr:
			// all but one of the alternatives are excluded
			var left *T
			for _, q := range p.A {
				if st.pathSet[x.C.Not(q).ID] {
					continue
				}
				if left != nil {
					return nil
				}
				left = q
			}
			if left != nil {
				return find(left)
			}
		}
		return nil
	}
	for _, p := range st.path {
		if r := find(p); r != nil {
			return r
		}
	}
	return v
}

// under drops the alternatives that the path excludes.
func (x *Exec) under(st *State, v *T) *T {
	for v.Op == smt.OIte {
		switch {
		case st.pathSet[v.A[0].ID]:
			v = v.A[1]
		case st.pathSet[x.C.Not(v.A[0]).ID]:
			v = v.A[2]
		default:
			return v
		}
	}
	return v
}

// typedLoc: a variable of a type other than an interface type holds a value of
// that type.
func (x *Exec) typedLoc(st *State, v *T) {
	c := x.C
	if v.Op == smt.OApp && v.Name == "loc" {
		st.assume(c.Or(c.Eq(x.rkind(v.A[1]), c.C64(kInterface)), c.Eq(x.typeOf(x.rvIface(st, v)), v.A[1])))
	}
}

// rconv is the content of a value of content i made into one of type rt
// (assignment or conversion).
func (x *Exec) rassign(rt, i *T) *T {
	c := x.C
	if i.Op == smt.OIte {
		return c.Ite(i.A[0], x.rassign(rt, i.A[1]), x.rassign(rt, i.A[2]))
	}
	same := c.Eq(x.typeOf(i), rt)
	if same.IsTrue() {
		return i
	}
	isI := c.Eq(x.rkind(rt), c.C64(kInterface))
	if isI.IsTrue() {
		return i
	}
	return c.Ite(c.Or(same, isI), i, c.App("convI", x.ifaceS(), rt, i))
}

func (x *Exec) world2(st *State, name string, args ...*T) {
	st.setComp("W", x.C.App(name, x.C.U("World"), append([]*T{st.world()}, args...)...))
	st.wlog = append(st.wlog, wrec{comp: "W"})
}

// assignableT: a value of type b can be stored where a is declared.
func (x *Exec) assignableT(b, a *T) *T { return x.C.App("assignable", smt.Bool, b, a) }
func (x *Exec) convertibleT(b, a *T) *T {
	return x.C.App("convertible", smt.Bool, b, a)
}

// callValue is Value.Call (packed=false) and Value.CallSlice (packed=true).
func (x *Exec) callValue(st *State, f *T, args Val, packed bool, rt types.Type) []Outcome {
	c := x.C
	if f.Op == smt.OIte {
		var outs []Outcome
		for i, g := range []*T{f.A[0], c.Not(f.A[0])} {
			s := st.clone()
			s.assume(g)
			if s.dead() || !x.feasible(s) {
				continue
			}
			outs = append(outs, x.callValue(s, f.A[i+1], args, packed, rt)...)
		}
		return outs
	}
	ft := x.rvtype(f)
	bad, st := x.guard(st, c.Eq(x.rkind(ft), c.C64(kFunc)), "reflect: call of a value that is not a function")
	if st == nil {
		return bad
	}
	outs := bad
	st = st.clone()
	x.typedLoc(st, f)
	i := x.rvIface(st, f)
	b2, st := x.guard(st, c.Not(c.Eq(x.closptr(i), c.C64(0))), "reflect: call of a nil function")
	outs = append(outs, b2...)
	if st == nil {
		return outs
	}
	variadic := c.App("variadic", smt.Bool, ft)
	seq := x.mkseq(st, args)
	n := c.App("numIn", smt.BV64, ft)
	inT := func(k *T) *T { return c.App("inT", x.rtypeT(), ft, k) }
	full := seq
	fits := func(s *T) *T {
		k := c.Bound("ca", smt.BV64)
		return c.And(c.Eq(c.Len(s), n), c.Forall(k, c.Imp(c.Ult(k, n), c.And(c.Not(c.Eq(c.At(s, k), x.nilAny())), x.assignableT(x.rvtype(c.At(s, k)), inT(k))))))
	}
	if packed {
		b, s := x.guard(st, variadic, "reflect: CallSlice of non-variadic function")
		outs = append(outs, b...)
		if s == nil {
			return outs
		}
		st = s
	} else if !variadic.IsFalse() {
		s := st.clone()
		s.assume(variadic)
		if !s.dead() && x.feasible(s) {
			// the trailing arguments are collected in a new slice
			outs = append(outs, x.callContent(s, i, ft, c.App("packVariadic", c.U("ASeq"), ft, seq), rt, true)...)
		}
		st = st.clone()
		st.assume(c.Not(variadic))
		if st.dead() || !x.feasible(st) {
			return outs
		}
	}
	b3, st := x.guard(st, fits(full), "reflect: call with arguments that do not fit")
	outs = append(outs, b3...)
	if st == nil {
		return outs
	}
	return append(outs, x.callContent(st, i, ft, full, rt, false)...)
}

// callContent calls the function value i of type ft with the arguments.
func (x *Exec) callContent(st *State, i, ft, seq *T, rt types.Type, mayPanic bool) []Outcome {
	c := x.C
	st = st.clone()
	st.newClock()
	if mayPanic {
		s := st.clone()
		s.note("reflect: call with arguments that do not fit")
	}
	if i.Op == smt.OIte {
		var outs []Outcome
		for k, g := range []*T{i.A[0], c.Not(i.A[0])} {
			s := st.clone()
			s.assume(g)
			if s.dead() || !x.feasible(s) {
				continue
			}
			outs = append(outs, x.callContent(s, i.A[k+1], ft, seq, rt, false)...)
		}
		return outs
	}
	if i.Op == smt.OApp && i.Name == "nonnil:mkfunc" && i.A[1] != x.nilFn() {
		// a function made by reflect.MakeFunc here: run its implementation
		sl := types.NewSlice(x.rvalueT())
		in := x.seqSlice(st, sl, seq)
		sig := types.NewSignatureType(nil, nil, nil, types.NewTuple(types.NewVar(0, nil, "", sl)), types.NewTuple(types.NewVar(0, nil, "", sl)), false)
		var outs []Outcome
		for _, o := range x.callTerm(st, i.A[1], sig, []Val{in}) {
			if o.Panic != nil {
				outs = append(outs, o)
				continue
			}
			bad, s := x.mkFuncResults(o.St, ft, o.Res[0])
			outs = append(outs, bad...)
			if s != nil {
				outs = append(outs, Outcome{St: s, Res: []Val{x.seqSlice(s, rt, x.convSeq(s, ft, o.Res[0]))}})
			}
		}
		return outs
	}
	// a function of the user: any result of its types, any effect on the user's world, or a panic
	w := st.world()
	pn := st.clone()
	pv := c.App("nonnil:callPanic", x.ifaceS(), w, i, seq)
	p := c.App("callPanics", smt.Bool, w, i, seq)
	var outs []Outcome
	pn.assume(p)
	if !pn.dead() && x.feasible(pn) {
		x.world2(pn, "callWorld", i, seq)
		pn.note("the called function panics")
		outs = append(outs, Outcome{St: pn, Panic: x.panicVal(pv)})
	}
	st.assume(c.Not(p))
	if st.dead() {
		return outs
	}
	res := c.App("callResult", c.U("ASeq"), w, i, seq)
	no := c.App("numOut", smt.BV64, ft)
	st.assume(c.Eq(c.Len(res), no))
	k := c.Bound("cr", smt.BV64)
	st.assume(c.Forall(k, c.Imp(c.Ult(k, no), c.Eq(x.rvtype(c.At(res, k)), c.App("outT", x.rtypeT(), ft, k)))))
	x.world2(st, "callWorld", i, seq)
	return append(outs, Outcome{St: st, Res: []Val{x.seqSlice(st, rt, res)}})
}

// mkFuncResults: what the reflect package checks of the results of a function
// given to MakeFunc.
func (x *Exec) mkFuncResults(st *State, ft *T, r Val) ([]Outcome, *State) {
	c := x.C
	s := x.mkseq(st, r)
	no := c.App("numOut", smt.BV64, ft)
	k := c.Bound("mr", smt.BV64)
	ok := c.And(c.Eq(c.Len(s), no), c.Forall(k, c.Imp(c.Ult(k, no), c.And(c.Not(c.Eq(c.At(s, k), x.nilAny())), x.assignableT(x.rvtype(c.At(s, k)), c.App("outT", x.rtypeT(), ft, k))))))
	return x.guard(st, ok, "reflect: wrong return of a function made by MakeFunc")
}

// convSeq: the results as the caller sees them.
func (x *Exec) convSeq(st *State, ft *T, r Val) *T { return x.mkseq(st, r) }

func (x *Exec) rvalueT() types.Type {
	for _, p := range x.P.SSA.AllPackages() {
		if p.Pkg.Path() == "reflect" {
			return p.Pkg.Scope().Lookup("Value").Type()
		}
	}
	panic(unsupported("reflect is not imported"))
}

// loadCode reads the code pointer of the function value with machine word p.
func (x *Exec) codeOf(st *State, p *T) *T {
	return x.C.Ite(x.C.Eq(p, x.C.C64(0)), x.C.C64(0), x.loadBytes(st.mem(), p, 8))
}

func init() {
	R := func(n string, f extern) { externs["reflect."+n] = f }
	V := func(n string, f extern) { externs["(reflect.Value)."+n] = f }
	T0 := func(n string, f extern) { externs["(reflect.Type)."+n] = f }
	res := func(sig *types.Signature, i int) types.Type { return sig.Results().At(i).Type() }

	R("TypeOf", func(x *Exec, st *State, sig *types.Signature, a []Val) []Outcome {
		return ret(st, val(res(sig, 0), x.typeOf(a[0].L[0])))
	})
	R("ValueOf", func(x *Exec, st *State, sig *types.Signature, a []Val) []Outcome {
		return ret(st, val(res(sig, 0), x.under(st, x.valueOf(a[0].L[0]))))
	})
	R("Zero", func(x *Exec, st *State, sig *types.Signature, a []Val) []Outcome {
		outs, st := x.guard(st, x.C.Not(x.C.Eq(a[0].L[0], x.nilRType())), "reflect: Zero(nil)")
		if st == nil {
			return outs
		}
		return append(outs, ret(st, val(res(sig, 0), x.rv(a[0].L[0], x.zeroI(a[0].L[0]))))...)
	})
	R("New", func(x *Exec, st *State, sig *types.Signature, a []Val) []Outcome {
		c := x.C
		outs, st := x.guard(st, c.Not(c.Eq(a[0].L[0], x.nilRType())), "reflect: New(nil)")
		if st == nil {
			return outs
		}
		st = st.clone()
		p := st.allocRegion("reflect.New", c.C64(8))
		st.setGhost("RC", c.Store(st.ghostOf("RC"), p, x.zeroI(a[0].L[0])))
		st.wlog = append(st.wlog, wrec{comp: "RC", base: p})
		i := c.App("nonnil:mkptr", x.ifaceS(), a[0].L[0], p)
		return append(outs, ret(st, val(res(sig, 0), x.rv(c.App("ptrTo", x.rtypeT(), a[0].L[0]), i)))...)
	})
	R("MakeFunc", func(x *Exec, st *State, sig *types.Signature, a []Val) []Outcome {
		c := x.C
		outs, st := x.guard(st, c.Eq(x.rkind(a[0].L[0]), c.C64(kFunc)), "reflect: call of MakeFunc with non-Func type")
		if st == nil {
			return outs
		}
		st = st.clone()
		p := st.allocRegion("makeFuncImpl", c.C64(8))
		st.setMem(x.storeBytes(st.mem(), p, 8, c.App("makeFuncStub", smt.BV64)))
		st.assume(c.Not(c.Eq(c.App("makeFuncStub", smt.BV64), c.C64(0))))
		st.wlog = append(st.wlog, wrec{comp: "M", base: p, n: c.C64(8)})
		i := c.App("nonnil:mkfunc", x.ifaceS(), a[0].L[0], a[1].L[0], p)
		return append(outs, ret(st, val(res(sig, 0), x.rv(a[0].L[0], i)))...)
	})
	R("FuncOf", func(x *Exec, st *State, sig *types.Signature, a []Val) []Outcome {
		c := x.C
		in, out := x.mkseq(st, a[0]), x.mkseq(st, a[1])
		last := c.At(in, c.Sub(c.Len(in), c.C64(1)))
		outs, st := x.guard(st, c.Imp(a[2].L[0], c.And(c.Not(c.Eq(c.Len(in), c.C64(0))), c.Eq(x.rkind(last), c.C64(kSlice)))), "reflect.FuncOf: last arg of variadic func must be slice")
		if st == nil {
			return outs
		}
		t := c.App("funcOf", x.rtypeT(), in, out, a[2].L[0])
		return append(outs, ret(st, val(res(sig, 0), t))...)
	})
	ptrTo := func(x *Exec, st *State, sig *types.Signature, a []Val) []Outcome {
		outs, st := x.guard(st, x.C.Not(x.C.Eq(a[0].L[0], x.nilRType())), "reflect: PtrTo(nil)")
		if st == nil {
			return outs
		}
		return append(outs, ret(st, val(res(sig, 0), x.C.App("ptrTo", x.rtypeT(), a[0].L[0])))...)
	}
	R("PtrTo", ptrTo)
	R("PointerTo", ptrTo)
	elem := func(x *Exec, st *State, v *T, rt types.Type) []Outcome {
		c := x.C
		var outs []Outcome
		k := x.rkind(x.rvtype(v))
		isP := c.Eq(k, c.C64(kPtr))
		isI := c.Eq(k, c.C64(kInterface))
		bad, st := x.guard(st, c.Or(isP, isI), "reflect: Elem of a value that is neither pointer nor interface")
		outs = append(outs, bad...)
		if st == nil {
			return outs
		}
		i := x.rvIface(st, v)
		p := c.App("ptrof", smt.BV64, i)
		nilp := c.Eq(p, c.C64(0))
		loc := c.App("loc", x.anyS(), p, c.App("elemT", x.rtypeT(), x.rvtype(v)))
		for _, alt := range []struct {
			g []*T
			r *T
		}{{[]*T{isP, nilp}, x.nilAny()}, {[]*T{isP, c.Not(nilp)}, loc}, {[]*T{c.Not(isP)}, x.valueOf(i)}} {
			s := st.clone()
			for _, g := range alt.g {
				s.assume(g)
			}
			if s.dead() || !x.feasible(s) {
				continue
			}
			outs = append(outs, ret(s, val(rt, alt.r))...)
		}
		return outs
	}
	V("Elem", func(x *Exec, st *State, sig *types.Signature, a []Val) []Outcome {
		return elem(x, st, a[0].L[0], res(sig, 0))
	})
	R("Indirect", func(x *Exec, st *State, sig *types.Signature, a []Val) []Outcome {
		c := x.C
		v := a[0].L[0]
		isP := c.Eq(x.rkind(x.rvtype(v)), c.C64(kPtr))
		var outs []Outcome
		s := st.clone()
		s.assume(isP)
		if !s.dead() && x.feasible(s) {
			outs = append(outs, elem(x, s, v, res(sig, 0))...)
		}
		s = st.clone()
		s.assume(c.Not(isP))
		if !s.dead() && x.feasible(s) {
			outs = append(outs, ret(s, val(res(sig, 0), v))...)
		}
		return outs
	})
	V("Kind", func(x *Exec, st *State, sig *types.Signature, a []Val) []Outcome {
		return ret(st, val(res(sig, 0), x.rkind(x.rvtype(a[0].L[0]))))
	})
	V("IsValid", func(x *Exec, st *State, sig *types.Signature, a []Val) []Outcome {
		return ret(st, val(boolT(), x.C.Not(x.isNilAny(a[0].L[0]))))
	})
	nonZero := func(what string, f func(x *Exec, st *State, v *T) *T) extern {
		return func(x *Exec, st *State, sig *types.Signature, a []Val) []Outcome {
			outs, st := x.guard(st, x.C.Not(x.isNilAny(a[0].L[0])), "reflect: "+what+" of the zero Value")
			if st == nil {
				return outs
			}
			return append(outs, ret(st, val(res(sig, 0), f(x, st, a[0].L[0])))...)
		}
	}
	V("Type", nonZero("Type", func(x *Exec, st *State, v *T) *T { return x.rvtype(v) }))
	V("Interface", func(x *Exec, st *State, sig *types.Signature, a []Val) []Outcome {
		outs, st := x.guard(st, x.C.Not(x.isNilAny(a[0].L[0])), "reflect: Interface of the zero Value")
		if st == nil {
			return outs
		}
		st = st.clone()
		x.typedLoc(st, a[0].L[0])
		return append(outs, ret(st, val(res(sig, 0), x.rvIface(st, a[0].L[0])))...)
	})
	V("String", func(x *Exec, st *State, sig *types.Signature, a []Val) []Outcome {
		return ret(st, val(res(sig, 0), x.C.App("rvString", x.C.U("Str"), a[0].L[0])))
	})
	V("IsNil", func(x *Exec, st *State, sig *types.Signature, a []Val) []Outcome {
		c := x.C
		k := x.rkind(x.rvtype(a[0].L[0]))
		var ks []*T
		for _, n := range []uint64{18, kFunc, kInterface, kMap, kPtr, kSlice, 26} {
			ks = append(ks, c.Eq(k, c.C64(n)))
		}
		outs, st := x.guard(st, c.Or(ks...), "reflect: IsNil of a kind that is never nil")
		if st == nil {
			return outs
		}
		i := x.rvIface(st, a[0].L[0])
		r := c.Ite(c.Eq(k, c.C64(kInterface)), x.isNilIface(i), c.Ite(c.Eq(k, c.C64(kFunc)), c.Eq(x.closptr(i), c.C64(0)), c.Eq(c.App("ptrof", smt.BV64, i), c.C64(0))))
		return append(outs, ret(st, val(boolT(), r))...)
	})
	V("Bool", func(x *Exec, st *State, sig *types.Signature, a []Val) []Outcome {
		c := x.C
		outs, st := x.guard(st, c.Eq(x.rkind(x.rvtype(a[0].L[0])), c.C64(1)), "reflect: Bool of a value that is not a bool")
		if st == nil {
			return outs
		}
		return append(outs, ret(st, val(boolT(), x.boolOf(x.rvIface(st, a[0].L[0]))))...)
	})
	V("Pointer", func(x *Exec, st *State, sig *types.Signature, a []Val) []Outcome {
		c := x.C
		v := a[0].L[0]
		k := x.rkind(x.rvtype(v))
		var ks []*T
		for _, n := range []uint64{18, kFunc, kMap, kPtr, kSlice, 26, 24} {
			ks = append(ks, c.Eq(k, c.C64(n)))
		}
		outs, st := x.guard(st, c.Or(ks...), "reflect: Pointer of a value without pointer")
		if st == nil {
			return outs
		}
		i := x.rvIface(st, v)
		if cl := x.closptr(i); st.pathSet[c.Eq(k, c.C64(kFunc)).ID] && st.pathSet[c.Not(c.Eq(cl, c.C64(0))).ID] {
			return append(outs, ret(st, val(res(sig, 0), x.loadBytes(st.mem(), cl, 8)))...)
		}
		r := c.Ite(c.Eq(k, c.C64(kFunc)), x.codeOf(st, x.closptr(i)), c.App("ptrof", smt.BV64, i))
		return append(outs, ret(st, val(res(sig, 0), r))...)
	})
	V("CanSet", func(x *Exec, st *State, sig *types.Signature, a []Val) []Outcome {
		return ret(st, val(boolT(), x.isLoc(a[0].L[0])))
	})
	V("Addr", func(x *Exec, st *State, sig *types.Signature, a []Val) []Outcome {
		c := x.C
		v := a[0].L[0]
		if v.Op != smt.OApp || v.Name != "loc" {
			if v.Op == smt.OApp && (v.Name == "rv" || v.Name == "lit:nilAny") {
				return []Outcome{x.rtPanic(st.clone(), "reflect: Addr of an unaddressable value")}
			}
			panic(unsupported("Addr of a reflect.Value that is not known to be a location"))
		}
		i := c.App("nonnil:mkptr", x.ifaceS(), v.A[1], v.A[0])
		return ret(st, val(res(sig, 0), x.rv(c.App("ptrTo", x.rtypeT(), v.A[1]), i)))
	})
	V("CanAddr", externs["(reflect.Value).CanSet"])
	V("Set", func(x *Exec, st *State, sig *types.Signature, a []Val) []Outcome {
		c := x.C
		var outs []Outcome
		var rec func(st *State, v *T)
		rec = func(st *State, v *T) {
			if v.Op == smt.OIte {
				for i, g := range []*T{v.A[0], c.Not(v.A[0])} {
					s := st.clone()
					s.assume(g)
					if s.dead() || !x.feasible(s) {
						continue
					}
					rec(s, v.A[i+1])
				}
				return
			}
			if v.Op != smt.OApp || v.Name != "loc" {
				// not addressable: the value is not one this code has the address of
				s := st.clone()
				outs = append(outs, x.rtPanic(s, "reflect: Set of an unaddressable value"))
				return
			}
			n := a[1].L[0]
			ok := c.And(c.Not(x.isNilAny(n)), x.assignableT(x.rvtype(n), v.A[1]))
			bad, s := x.guard(st, ok, "reflect.Set: value is not assignable")
			outs = append(outs, bad...)
			if s == nil {
				return
			}
			s = s.clone()
			s.setGhost("RC", c.Store(s.ghostOf("RC"), v.A[0], x.rassign(v.A[1], x.rvIface(s, n))))
			s.wlog = append(s.wlog, wrec{comp: "RC", base: v.A[0]})
			outs = append(outs, Outcome{St: s})
		}
		rec(st, a[0].L[0])
		return outs
	})
	V("Convert", func(x *Exec, st *State, sig *types.Signature, a []Val) []Outcome {
		c := x.C
		v, t := a[0].L[0], a[1].L[0]
		outs, st := x.guard(st, c.And(c.Not(x.isNilAny(v)), c.Not(c.Eq(t, x.nilRType())), x.convertibleT(x.rvtype(v), t)), "reflect: Convert of a value that is not convertible")
		if st == nil {
			return outs
		}
		// (a slice too short for the array type panics as well: convPanics)
		i := x.rvIface(st, v)
		p := c.App("convPanics", smt.Bool, t, i)
		same := c.Or(c.Eq(x.rvtype(v), t), c.Eq(x.rkind(t), c.C64(kInterface)))
		bad, st := x.guard(st, c.Or(same, c.Not(p)), "reflect: cannot convert slice to array")
		outs = append(outs, bad...)
		if st == nil {
			return outs
		}
		st = st.clone()
		r := x.rassign(t, i)
		if r.Op == smt.OApp && r.Name == "convI" {
			st.assume(c.Eq(x.typeOf(r), t))
		}
		return append(outs, ret(st, val(res(sig, 0), x.rv(t, r)))...)
	})
	V("Call", func(x *Exec, st *State, sig *types.Signature, a []Val) []Outcome {
		return x.callValue(st, a[0].L[0], a[1], false, res(sig, 0))
	})
	V("CallSlice", func(x *Exec, st *State, sig *types.Signature, a []Val) []Outcome {
		return x.callValue(st, a[0].L[0], a[1], true, res(sig, 0))
	})

	// ---- types
	T0("Kind", func(x *Exec, st *State, sig *types.Signature, a []Val) []Outcome {
		return ret(st, val(res(sig, 0), x.rkind(a[0].L[0])))
	})
	externs["(reflect.Kind).String"] = func(x *Exec, st *State, sig *types.Signature, a []Val) []Outcome {
		return ret(st, val(res(sig, 0), x.C.App("kindString", x.C.U("Str"), a[0].L[0])))
	}
	for _, n := range []string{"String", "Name", "PkgPath"} {
		n := n
		T0(n, func(x *Exec, st *State, sig *types.Signature, a []Val) []Outcome {
			return ret(st, val(res(sig, 0), x.C.App("type"+n, x.C.U("Str"), a[0].L[0])))
		})
	}
	isFunc := func(what string, f func(x *Exec, t *T) *T) extern {
		return func(x *Exec, st *State, sig *types.Signature, a []Val) []Outcome {
			outs, st := x.guard(st, x.C.Eq(x.rkind(a[0].L[0]), x.C.C64(kFunc)), "reflect: "+what+" of non-func type")
			if st == nil {
				return outs
			}
			return append(outs, ret(st, val(res(sig, 0), f(x, a[0].L[0])))...)
		}
	}
	// the method set: whether it has a method of the name, and its function
	T0("MethodByName", func(x *Exec, st *State, sig *types.Signature, a []Val) []Outcome {
		c := x.C
		mt := res(sig, 0)
		m := x.freshVal(st, "method", mt)
		has := c.App("$hasMethod", smt.Bool, a[0].L[0], a[1].L[0])
		s := mt.Underlying().(*types.Struct)
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() != "Func" {
				continue
			}
			lo, n := x.fieldRange(s, i)
			if n != 1 {
				panic(unsupported("reflect.Method"))
			}
			m.L[lo] = c.App("$methodFn", x.anyS(), a[0].L[0], a[1].L[0])
			st.assume(c.Imp(has, c.Eq(x.rkind(x.rvtype(m.L[lo])), c.C64(kFunc))))
		}
		return ret(st, m, val(res(sig, 1), has))
	})
	// struct types and values
	isStruct := func(x *Exec, st *State, t *T, what string) ([]Outcome, *State) {
		return x.guard(st, x.C.Eq(x.rkind(t), x.C.C64(kStruct)), "reflect: "+what+" of a type that is not a struct")
	}
	numField := func(x *Exec, t *T) *T { return x.C.App("$numField", smt.BV64, t) }
	T0("NumField", func(x *Exec, st *State, sig *types.Signature, a []Val) []Outcome {
		outs, st := isStruct(x, st, a[0].L[0], "NumField")
		if st == nil {
			return outs
		}
		return append(outs, ret(st, val(res(sig, 0), numField(x, a[0].L[0])))...)
	})
	T0("Field", func(x *Exec, st *State, sig *types.Signature, a []Val) []Outcome {
		c := x.C
		outs, st := isStruct(x, st, a[0].L[0], "Field")
		if st == nil {
			return outs
		}
		b, st := x.guard(st, c.Ult(a[1].L[0], numField(x, a[0].L[0])), "reflect: Field index out of bounds")
		outs = append(outs, b...)
		if st == nil {
			return outs
		}
		ft := res(sig, 0)
		f := x.freshVal(st, "field", ft)
		s := ft.Underlying().(*types.Struct)
		for i := 0; i < s.NumFields(); i++ {
			lo, n := x.fieldRange(s, i)
			switch s.Field(i).Name() {
			case "Anonymous":
				f.L[lo] = c.App("$embeds", smt.Bool, a[0].L[0], a[1].L[0])
			case "Type":
				if n != 1 {
					panic(unsupported("reflect.StructField"))
				}
				f.L[lo] = c.App("fieldT", x.rtypeT(), a[0].L[0], a[1].L[0])
				st.assume(c.Not(c.Eq(f.L[lo], x.nilRType())))
			}
		}
		return append(outs, ret(st, f)...)
	})
	V("FieldByName", func(x *Exec, st *State, sig *types.Signature, a []Val) []Outcome {
		c := x.C
		outs, st := isStruct(x, st, x.rvtype(a[0].L[0]), "FieldByName")
		if st == nil {
			return outs
		}
		// (a field promoted through a nil embedded pointer panics)
		st = st.clone()
		r := c.App("$fieldNamed", x.anyS(), st.ghostOf("RC"), a[0].L[0], a[1].L[0])
		st.assume(c.Eq(c.Eq(r, x.nilAny()), c.Eq(x.rkind(x.rvtype(r)), c.C64(0))))
		return append(outs, ret(st, val(res(sig, 0), r))...)
	})
	V("NumField", func(x *Exec, st *State, sig *types.Signature, a []Val) []Outcome {
		t := x.rvtype(a[0].L[0])
		outs, st := isStruct(x, st, t, "NumField")
		if st == nil {
			return outs
		}
		return append(outs, ret(st, val(res(sig, 0), numField(x, t)))...)
	})
	V("Field", func(x *Exec, st *State, sig *types.Signature, a []Val) []Outcome {
		c := x.C
		t := x.rvtype(a[0].L[0])
		outs, st := isStruct(x, st, t, "Field")
		if st == nil {
			return outs
		}
		b, st := x.guard(st, c.Ult(a[1].L[0], numField(x, t)), "reflect: Field index out of range")
		outs = append(outs, b...)
		if st == nil {
			return outs
		}
		st = st.clone()
		r := c.App("$fieldV", x.anyS(), st.ghostOf("RC"), a[0].L[0], a[1].L[0])
		st.assume(c.Not(c.Eq(r, x.nilAny())))
		st.assume(c.Not(c.Eq(x.rkind(x.rvtype(r)), c.C64(0))))
		st.assume(c.Eq(x.rvtype(r), c.App("fieldT", x.rtypeT(), t, a[1].L[0])))
		return append(outs, ret(st, val(res(sig, 0), r))...)
	})
	T0("NumIn", isFunc("NumIn", func(x *Exec, t *T) *T { return x.C.App("numIn", smt.BV64, t) }))
	T0("NumOut", isFunc("NumOut", func(x *Exec, t *T) *T { return x.C.App("numOut", smt.BV64, t) }))
	T0("IsVariadic", isFunc("IsVariadic", func(x *Exec, t *T) *T { return x.C.App("variadic", smt.Bool, t) }))
	nth := func(what, num, fn string) extern {
		return func(x *Exec, st *State, sig *types.Signature, a []Val) []Outcome {
			c := x.C
			t, i := a[0].L[0], a[1].L[0]
			outs, st := x.guard(st, c.Eq(x.rkind(t), c.C64(kFunc)), "reflect: "+what+" of non-func type")
			if st == nil {
				return outs
			}
			b, st := x.guard(st, c.Ult(i, c.App(num, smt.BV64, t)), "reflect: "+what+" index out of range")
			outs = append(outs, b...)
			if st == nil {
				return outs
			}
			return append(outs, ret(st, val(res(sig, 0), c.App(fn, x.rtypeT(), t, i)))...)
		}
	}
	T0("In", nth("In", "numIn", "inT"))
	T0("Out", nth("Out", "numOut", "outT"))
	T0("Elem", func(x *Exec, st *State, sig *types.Signature, a []Val) []Outcome {
		c := x.C
		k := x.rkind(a[0].L[0])
		var ks []*T
		for _, n := range []uint64{17, 18, kMap, kPtr, kSlice} {
			ks = append(ks, c.Eq(k, c.C64(n)))
		}
		outs, st := x.guard(st, c.Or(ks...), "reflect: Elem of invalid type")
		if st == nil {
			return outs
		}
		return append(outs, ret(st, val(res(sig, 0), c.App("elemT", x.rtypeT(), a[0].L[0])))...)
	})
	rel := func(what string, f func(x *Exec, a, b *T) *T) extern {
		return func(x *Exec, st *State, sig *types.Signature, a []Val) []Outcome {
			outs, st := x.guard(st, x.C.Not(x.C.Eq(a[1].L[0], x.nilRType())), "reflect: nil type passed to Type."+what)
			if st == nil {
				return outs
			}
			return append(outs, ret(st, val(boolT(), f(x, a[0].L[0], a[1].L[0])))...)
		}
	}
	T0("AssignableTo", rel("AssignableTo", func(x *Exec, a, b *T) *T { return x.assignableT(a, b) }))
	T0("ConvertibleTo", rel("ConvertibleTo", func(x *Exec, a, b *T) *T { return x.convertibleT(a, b) }))
	externs["fmt.Errorf"] = func(x *Exec, st *State, sig *types.Signature, a []Val) []Outcome {
		st = st.clone()
		st.newClock()
		e := x.C.Fresh("err", x.ifaceS())
		st.assume(x.C.Not(x.C.Eq(e, x.nilIface())))
		return ret(st, val(res(sig, 0), e))
	}
	externs["errors.New"] = externs["fmt.Errorf"]
	specFuncs["rassign"] = func(e *Env, a []*T) Val { return raw(e.x.rassign(a[0], a[1])) }
	specFuncs["boolOf"] = func(e *Env, a []*T) Val {
		return Val{T: boolT(), L: []*T{e.x.boolOf(a[0])}}
	}
	specFuncs["assignable"] = func(e *Env, a []*T) Val { return raw(e.x.assignableT(a[0], a[1])) }
	specFuncs["convertible"] = func(e *Env, a []*T) Val { return raw(e.x.convertibleT(a[0], a[1])) }
	// the implementation of a function made by reflect.MakeFunc
	specFuncs["impl"] = func(e *Env, a []*T) Val {
		return Val{L: []*T{e.x.C.App("mkimpl", e.x.C.U("Fn"), a[0])}}
	}
	specFuncs["at"] = func(e *Env, a []*T) Val { return raw(e.x.C.At(a[0], a[1])) }
	specFuncs["codeOf"] = func(e *Env, a []*T) Val {
		return Val{T: types.Typ[types.Uintptr], L: []*T{e.x.codeOf(e.st, a[0])}}
	}
	specFuncs["ptrof"] = func(e *Env, a []*T) Val {
		return Val{T: types.Typ[types.Uintptr], L: []*T{e.x.C.App("ptrof", smt.BV64, a[0])}}
	}
	specFuncs["loc"] = func(e *Env, a []*T) Val {
		return raw(e.x.C.App("loc", e.x.anyS(), a[0], a[1]))
	}
	specFuncs["callPanics"] = func(e *Env, a []*T) Val { return raw(e.x.C.App("callPanics", smt.Bool, a...)) }
	specFuncs["callWorld"] = func(e *Env, a []*T) Val {
		return raw(e.x.C.App("callWorld", e.x.C.U("World"), a...))
	}
	specFuncs["callResult"] = func(e *Env, a []*T) Val {
		return raw(e.x.C.App("callResult", e.x.C.U("ASeq"), a...))
	}
	specFuncs["callPanic"] = func(e *Env, a []*T) Val {
		return raw(e.x.C.App("nonnil:callPanic", e.x.ifaceS(), a...))
	}
}

// boolOf is the value of an interface holding some boolean type.
func (x *Exec) boolOf(i *T) *T {
	c := x.C
	if i.Op == smt.OIte {
		return c.Ite(i.A[0], x.boolOf(i.A[1]), x.boolOf(i.A[2]))
	}
	if i.Op == smt.OApp && len(i.A) == 1 && i.A[0].S == smt.Bool && len(i.Name) > 3 && i.Name[:3] == "mk:" {
		return i.A[0]
	}
	return c.App("boolof", smt.Bool, i)
}

func (x *Exec) isLoc(v *T) *T {
	c := x.C
	if v.Op == smt.OIte {
		return c.Ite(v.A[0], x.isLoc(v.A[1]), x.isLoc(v.A[2]))
	}
	if v.Op == smt.OApp && v.Name == "loc" {
		return c.True
	}
	if v.Op == smt.OApp && (v.Name == "rv" || v.Name == "lit:nilAny") {
		return c.False
	}
	return c.App("addressable", smt.Bool, v)
}

func (x *Exec) storeBytes(m, a *T, n int, v *T) *T {
	c := x.C
	for k := 0; k < n; k++ {
		m = c.Store(m, c.Add(a, c.C64(uint64(k))), c.Extract(v, 8*k+7, 8*k))
	}
	return m
}
