package main

import (
	"go/types"
	"strings"

	"govc/smt"
)

// pagesize is the machine's page size: fixed on amd64 and darwin, one of
// three on linux/arm64 (each has its own configuration).
func (x *Exec) pagesize() *T {
	cfg := x.P.Cfg
	n := uint64(4096)
	if cfg.Arch == "arm64" && cfg.OS == "darwin" {
		n = 16384
	}
	for _, t := range strings.FieldsFunc(cfg.Tags, func(r rune) bool { return r == 44 || r == 32 }) {
		switch t {
		case "page16k":
			n = 16384
		case "page64k":
			n = 65536
		}
	}
	return x.C.C64(n)
}

func (x *Exec) pageOf(a *T) *T {
	c := x.C
	return c.BAnd(a, c.BNot(c.Sub(x.pagesize(), c.C64(1))))
}

func (x *Exec) heldKey(v Val) (*T, *Ptr) {
	t := x.enc(v)
	if v.P != nil {
		return t, v.P
	}
	return t, x.interior[t.ID]
}

func (x *Exec) lock(st *State, v Val) []Outcome {
	st = st.clone()
	t, p := x.heldKey(v)
	if st.held[t.ID] > 0 {
		x.oblige(st, "a mutex is not locked again by its holder", x.C.False, t.String())
	}
	x.protocolAcquire(st, t, p)
	st.held[t.ID]++
	x.heldTerms[t.ID] = t
	return ret(st)
}

func (x *Exec) unlock(st *State, v Val) []Outcome {
	st = st.clone()
	t, _ := x.heldKey(v)
	if st.held[t.ID] == 0 {
		x.oblige(st, "a mutex is unlocked only while held", x.C.False, t.String())
	} else {
		st.held[t.ID]--
		st.released = append(st.released[:len(st.released):len(st.released)], t.ID)
	}
	return ret(st)
}

// protocolAcquire: after a lock was released, whatever it guards may have been
// changed by other goroutines before it is taken again.
func (x *Exec) protocolAcquire(st *State, t *T, p *Ptr) {
	again := false
	for _, id := range st.released {
		if id == t.ID {
			again = true
		}
	}
	if !again || p == nil || p.Kind != PObj {
		return
	}
	for _, g := range x.V.Spec.Guarded {
		if g.Type != typeKey(p.Root) {
			continue
		}
		lay := x.layout(p.Root)
		for _, lf := range lay.Leaves {
			if !strings.HasPrefix(lf.Path+".", "."+g.Field+".") {
				continue
			}
			q := &Ptr{Kind: PObj, Root: p.Root, Base: p.Base}
			st.writeLeafQuiet(q, lf, x.C.FreshBase("interfered", lf.Sort, "interfered", st.clock, lf.Ref))
		}
	}
}

func (st *State) writeLeafQuiet(p *Ptr, lf Leaf, v *T) {
	old := st.x.onWrite
	st.x.onWrite = nil
	st.writeLeaf(p, lf, v)
	st.x.onWrite = old
}

// guardCheck is called on every access of a leaf of an object.
func (x *Exec) guardCheck(st *State, p *Ptr, lf Leaf, write bool) {
	if x.noGuard > 0 || p.Kind != PObj || len(x.V.Spec.Guarded) == 0 {
		return
	}
	if p.Base.Alloc > 0 {
		return // made here, not shared yet
	}
	for _, g := range x.V.Spec.Guarded {
		if g.Type != typeKey(p.Root) || !strings.HasPrefix(lf.Path+".", "."+g.Field+".") {
			continue
		}
		if g.By == "atomic" {
			x.oblige(st, "counter "+g.Type+"."+g.Field+" is accessed atomically only", x.C.False, "")
			continue
		}
		lay := x.layout(p.Root)
		lo := -1
		for i, l := range lay.Leaves {
			if strings.HasPrefix(l.Path+".", "."+g.By+".") {
				lo = i
				break
			}
		}
		if lo < 0 {
			continue
		}
		lp := &Ptr{Kind: PObj, Root: p.Root, Base: p.Base, Lo: lo, N: 1, T: lay.Leaves[lo].T, Off: lay.Leaves[lo].Off}
		t := x.enc(Val{L: []*T{p.Base}, P: lp})
		if st.held[t.ID] == 0 {
			x.oblige(st, g.Type+"."+g.Field+" is accessed only while "+g.By+" is held", x.C.False, t.String())
		}
	}
}

func init() {
	// ---- synchronisation
	externs["(*sync.Mutex).Lock"] = func(x *Exec, st *State, sig *types.Signature, a []Val) []Outcome { return x.lock(st, a[0]) }
	externs["(*sync.Mutex).Unlock"] = func(x *Exec, st *State, sig *types.Signature, a []Val) []Outcome { return x.unlock(st, a[0]) }
	externs["(*sync.RWMutex).Lock"] = externs["(*sync.Mutex).Lock"]
	externs["(*sync.RWMutex).Unlock"] = externs["(*sync.Mutex).Unlock"]
	atomicP := func(x *Exec, v Val) *Ptr {
		if v.P != nil {
			return v.P
		}
		pt := v.T.Underlying().(*types.Pointer)
		return x.decodePtr(v.L[0], pt.Elem(), true)
	}
	for _, w := range []string{"Int64", "Int32", "Uint64", "Uint32"} {
		w := w
		load := func(x *Exec, st *State, sig *types.Signature, a []Val) []Outcome {
			x.noGuard++
			defer func() { x.noGuard-- }()
			st = st.clone()
			p := atomicP(x, a[0])
			v := x.load(st, p, p.T)
			return ret(st, val(sig.Results().At(0).Type(), v.L...))
		}
		store := func(x *Exec, st *State, sig *types.Signature, a []Val) []Outcome {
			x.noGuard++
			defer func() { x.noGuard-- }()
			st = st.clone()
			p := atomicP(x, a[0])
			x.store(st, p, p.T, a[1])
			return ret(st)
		}
		add := func(x *Exec, st *State, sig *types.Signature, a []Val) []Outcome {
			x.noGuard++
			defer func() { x.noGuard-- }()
			st = st.clone()
			p := atomicP(x, a[0])
			v := x.load(st, p, p.T)
			nv := x.C.Add(v.L[0], a[1].L[0])
			x.store(st, p, p.T, Val{T: p.T, L: []*T{nv}})
			return ret(st, val(sig.Results().At(0).Type(), nv))
		}
		swap := func(x *Exec, st *State, sig *types.Signature, a []Val) []Outcome {
			x.noGuard++
			defer func() { x.noGuard-- }()
			st = st.clone()
			p := atomicP(x, a[0])
			v := x.load(st, p, p.T)
			x.store(st, p, p.T, a[1])
			return ret(st, val(sig.Results().At(0).Type(), v.L...))
		}
		for _, nm := range [][2]string{{"Load", "load"}, {"Store", "store"}, {"Add", "add"}, {"Swap", "swap"}} {
			f := map[string]extern{"load": load, "store": store, "add": add, "swap": swap}[nm[1]]
			externs["sync/atomic."+nm[0]+w] = f
			externs["(*sync/atomic."+w+")."+nm[0]] = f
		}
	}
	// ---- the operating system
	externs["syscall.Getpagesize"] = func(x *Exec, st *State, sig *types.Signature, a []Val) []Outcome {
		st = st.clone()
		return ret(st, val(intT(), x.pagesize()))
	}
	mmap := func(x *Exec, st *State, sig *types.Signature, a []Val) []Outcome {
		c := x.C
		n := a[2].L[0]
		prot := a[3].L[0]
		bad := st.clone()
		bad.newClock()
		e := c.Fresh("mmaperr", x.ifaceS())
		bad.assume(c.Not(c.Eq(e, x.nilIface())))
		rt0, rt1 := sig.Results().At(0).Type(), sig.Results().At(1).Type()
		outs := []Outcome{{St: bad, Res: []Val{x.zero(rt0), val(rt1, e)}}}
		st = st.clone()
		st.assume(c.Slt(c.C64(0), n), c.Ult(n, c.C64(1<<40)))
		if !st.dead() {
			p := st.allocRegion("mmap", n)
			st.assume(c.Eq(c.BAnd(p, c.Sub(x.pagesize(), c.C64(1))), c.C64(0)))
			bv := c.Bound("mm", smt.BV64)
			in := c.Ult(c.Sub(bv, p), n)
			st.setMem(c.Merge(bv, in, c.ConstArr(x.memSort(), c.BVC(0, 8)), st.mem()))
			st.wlog = append(st.wlog, wrec{comp: "M", base: p, n: n})
			pr := st.ghostOf("prot")
			st.setGhost("prot", c.Merge(bv, in, c.ConstArr(pr.S, c.Extract(prot, 7, 0)), pr))
			st.wlog = append(st.wlog, wrec{comp: "prot"})
			outs = append(outs, Outcome{St: st, Res: []Val{val(rt0, p, n, n), val(rt1, x.nilIface())}})
		}
		return outs
	}
	externs["syscall.Mmap"] = mmap
	externs["syscall.Munmap"] = func(x *Exec, st *State, sig *types.Signature, a []Val) []Outcome {
		c := x.C
		st = st.clone()
		st.newClock()
		p, n := a[0].L[0], a[0].L[1]
		bv := c.Bound("mu", smt.BV64)
		// whatever is mapped there next: any content, any protection
		e := c.Fresh("munmaperr", x.ifaceS())
		in := c.And(c.Eq(e, x.nilIface()), c.Ult(c.Sub(bv, p), n))
		st.setMem(c.Merge(bv, in, c.FreshBase("unmapped", x.memSort(), "M", st.clock, false), st.mem()))
		pr := st.ghostOf("prot")
		st.setGhost("prot", c.Merge(bv, in, c.FreshBase("unmappedprot", pr.S, "prot", st.clock, false), pr))
		st.wlog = append(st.wlog, wrec{comp: "M", base: p, n: n}, wrec{comp: "prot"})
		return ret(st, val(sig.Results().At(0).Type(), e))
	}
	mprotect := func(x *Exec, st *State, p, n, prot *T, et types.Type) []Outcome {
		c := x.C
		st = st.clone()
		st.newClock()
		m1 := c.Sub(x.pagesize(), c.C64(1))
		e := c.Fresh("mprotecterr", x.ifaceS())
		// an address that is not on a page boundary is refused
		st.assume(c.Imp(c.Not(c.Eq(c.BAnd(p, m1), c.C64(0))), c.Not(c.Eq(e, x.nilIface()))))
		span := c.BAnd(c.Add(n, m1), c.BNot(m1))
		bv := c.Bound("mp", smt.BV64)
		in := c.Ult(c.Sub(bv, p), span)
		pr := st.ghostOf("prot")
		// a failing call may have changed any of the pages in the range
		np := c.FreshBase("protafter", pr.S, "prot", st.clock, false)
		st.assume(c.Imp(c.Eq(e, x.nilIface()), c.Forall(bv, c.Imp(in, c.Eq(c.Select(np, bv), c.Extract(prot, 7, 0))))))
		st.setGhost("prot", c.Merge(bv, in, np, pr))
		st.wlog = append(st.wlog, wrec{comp: "prot"})
		return ret(st, val(et, e))
	}
	externs["syscall.Mprotect"] = func(x *Exec, st *State, sig *types.Signature, a []Val) []Outcome {
		return mprotect(x, st, a[0].L[0], a[0].L[1], a[1].L[0], sig.Results().At(0).Type())
	}
	for _, f := range []string{"os.Getenv", "(*runtime.Func).Name", "runtime.FuncForPC", "runtime.Caller", "runtime.Callers", "runtime.CallersFrames", "(*runtime.Frames).Next", "runtime.Version"} {
		externs[f] = havocRes
	}
	externs["runtime.KeepAlive"] = func(x *Exec, st *State, sig *types.Signature, a []Val) []Outcome { return ret(st.clone()) }
	externs["strings.Contains"] = havocRes
	specFuncs["pageOf"] = func(e *Env, a []*T) Val {
		return Val{T: types.Typ[types.Uintptr], L: []*T{e.x.pageOf(a[0])}}
	}
	specFuncs["pagesize"] = func(e *Env, a []*T) Val {
		return Val{T: types.Typ[types.Uintptr], L: []*T{e.x.pagesize()}}
	}
	specFuncs["protAt"] = func(e *Env, a []*T) Val {
		return Val{T: types.Typ[types.Uint8], L: []*T{e.x.C.Select(e.st.ghostOf("prot"), a[0])}}
	}
}
