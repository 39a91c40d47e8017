package main

import (
	"go/types"

	"govc/smt"
)

// decodeArgs are what an x86 decoder can look at: the first fifteen bytes
// that exist and how many there are.
func (x *Exec) decodeArgs(m, a, avail *T) []*T {
	c := x.C
	av := c.Ite(c.Ult(avail, c.C64(15)), avail, c.C64(15))
	args := []*T{c.Resize(av, 8, false)}
	for i := 0; i < 15; i++ {
		b := c.Select(m, c.Add(a, c.C64(uint64(i))))
		args = append(args, c.Ite(c.Ult(c.C64(uint64(i)), av), b, c.BVC(0, 8)))
	}
	return args
}

func (x *Exec) setupInst() {
	c := x.C
	c.AppFacts["x86:.Len"] = func(_ *smt.Ctx, t *T) []*T {
		ok := c.RawApp("x86:ok", smt.Bool, t.A...)
		n := t
		return []*T{c.Imp(ok, c.And(c.Ule(c.C64(1), n), c.Ule(n, c.C64(15)), c.Ule(n, c.Resize(t.A[0], 64, false))))}
	}
}

func (x *Exec) x86leaf(path string, s *smt.Sort, d []*T) *T { return x.C.RawApp("x86:"+path, s, d...) }

func (x *Exec) armWord(m, a *T) *T { return x.loadBytes(m, a, 4) }

func (x *Exec) armBL(w *T) *T {
	c := x.C
	return c.Eq(c.Extract(w, 31, 26), c.BVC(0x25, 6))
}

func (x *Exec) armRET(w *T) *T {
	c := x.C
	return c.Eq(c.BAnd(w, c.BVC(0xfffffc1f, 32)), c.BVC(0xd65f0000, 32))
}

func (x *Exec) armOpVal(n string) uint64 {
	pk := x.P.pkgByName("arm64asm")
	if pk == nil {
		return 0
	}
	if k, ok := pk.Scope().Lookup(n).(*types.Const); ok {
		v := x.constOf(k.Type(), k.Val())
		return v.L[0].V
	}
	return 0
}

func (x *Exec) instVal(t types.Type, leaf func(path string, s *smt.Sort) *T) Val {
	v := Val{T: t}
	for _, lf := range x.layout(t).Leaves {
		v.L = append(v.L, leaf(lf.Path, lf.Sort))
	}
	return v
}

func init() {
	externs["golang.org/x/arch/x86/x86asm.Decode"] = func(x *Exec, st *State, sig *types.Signature, args []Val) []Outcome {
		c := x.C
		st = st.clone()
		src := args[0]
		d := x.decodeArgs(st.mem(), src.L[0], src.L[1])
		it := sig.Results().At(0).Type()
		ok := x.x86leaf("ok", smt.Bool, d)
		inst := x.instVal(it, func(p string, s *smt.Sort) *T { return x.x86leaf(p, s, d) })
		err := c.Ite(ok, x.nilIface(), c.RawApp("nonnil:x86err", x.ifaceS(), d...))
		return ret(st, inst, val(sig.Results().At(1).Type(), err))
	}
	externs["golang.org/x/arch/arm64/arm64asm.Decode"] = func(x *Exec, st *State, sig *types.Signature, args []Val) []Outcome {
		c := x.C
		st = st.clone()
		src := args[0]
		it := sig.Results().At(0).Type()
		w := x.armWord(st.mem(), src.L[0])
		has := c.Ule(c.C64(4), src.L[1])
		bl, rt := x.armBL(w), x.armRET(w)
		ok := c.And(has, c.Or(bl, rt, c.App("arm:ok", smt.Bool, w)))
		inst := x.instVal(it, func(p string, s *smt.Sort) *T {
			switch p {
			case ".Op":
				other := c.App("arm:Op", s, w)
				st.assume(c.Or(bl, c.Not(c.Eq(other, c.BVC(x.armOpVal("BL"), s.W)))), c.Or(rt, c.Not(c.Eq(other, c.BVC(x.armOpVal("RET"), s.W)))))
				return c.Ite(bl, c.BVC(x.armOpVal("BL"), s.W), c.Ite(rt, c.BVC(x.armOpVal("RET"), s.W), other))
			case ".Enc":
				return w
			case ".Args[]":
				pc, err := x.P.resolveType("arm64asm.PCRel")
				if err != nil {
					panic(unsupported("arm64asm.PCRel"))
				}
				imm := c.Shl(c.SExt(c.Extract(w, 25, 0), 64), c.C64(2))
				rel := x.box(Val{T: pc, L: []*T{imm}})
				a := c.App("arm:Args", s, w)
				return c.Store(a, c.C64(0), c.Ite(bl, rel, c.App("arm:arg0", x.ifaceS(), w)))
			}
			return c.App("arm:"+p, s, w)
		})
		err := c.Ite(ok, x.nilIface(), c.RawApp("nonnil:armerr", x.ifaceS(), w))
		return ret(st, inst, val(sig.Results().At(1).Type(), err))
	}
	spec := func(path string, s func(x *Exec) *smt.Sort) func(e *Env, a []*T) Val {
		return func(e *Env, a []*T) Val {
			x := e.x
			d := x.decodeArgs(a[0], a[1], a[2])
			return raw(x.x86leaf(path, s(x), d))
		}
	}
	specFuncs["x86ok"] = spec("ok", func(x *Exec) *smt.Sort { return smt.Bool })
	specFuncs["x86len"] = spec(".Len", func(x *Exec) *smt.Sort { return smt.BV64 })
	specFuncs["x86op"] = spec(".Op", func(x *Exec) *smt.Sort { return smt.BV(32) })
	specFuncs["x86arg0"] = func(e *Env, a []*T) Val {
		x := e.x
		d := x.decodeArgs(a[0], a[1], a[2])
		return raw(x.C.Select(x.x86leaf(".Args[]", x.C.Arr(smt.BV64, x.ifaceS()), d), x.C.C64(0)))
	}
	specFuncs["armword"] = func(e *Env, a []*T) Val {
		return Val{T: types.Typ[types.Uint32], L: []*T{e.x.armWord(a[0], a[1])}}
	}
	specFuncs["armok"] = func(e *Env, a []*T) Val {
		x := e.x
		return raw(x.C.Or(x.armBL(a[0]), x.armRET(a[0]), x.C.App("arm:ok", smt.Bool, a[0])))
	}
	specFuncs["armBL"] = func(e *Env, a []*T) Val { return raw(e.x.armBL(a[0])) }
	specFuncs["armRET"] = func(e *Env, a []*T) Val { return raw(e.x.armRET(a[0])) }
}
