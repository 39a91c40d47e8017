package main

import (
	"fmt"
	"go/types"
	"strings"

	"govc/smt"
)

type extern func(x *Exec, st *State, sig *types.Signature, args []Val) []Outcome

var externs = map[string]extern{}

func intT() types.Type  { return types.Typ[types.Int] }
func boolT() types.Type { return types.Typ[types.Bool] }

func ret(st *State, vs ...Val) []Outcome { return []Outcome{{St: st, Res: vs}} }
func val(t types.Type, l ...*T) Val      { return Val{T: t, L: l} }

// guard splits off the panicking outcome when ok does not hold.
func (x *Exec) guard(st *State, ok *T, what string) (outs []Outcome, rest *State) {
	if ok.IsTrue() {
		return nil, st
	}
	s := st.clone()
	s.assume(x.C.Not(ok))
	if !s.dead() && x.feasible(s) {
		outs = append(outs, x.rtPanic(s, what))
	}
	st = st.clone()
	st.assume(ok)
	if st.dead() || !x.feasible(st) {
		return outs, nil
	}
	return outs, st
}

// havocRes gives arbitrary results.
func havocRes(x *Exec, st *State, sig *types.Signature, args []Val) []Outcome {
	st = st.clone()
	st.newClock()
	var res []Val
	rt := sig.Results()
	for i := 0; i < rt.Len(); i++ {
		res = append(res, x.freshVal(st, "ext", rt.At(i).Type()))
	}
	return ret(st, res...)
}

func (x *Exec) rtypeT() *smt.Sort { return x.C.U("RType") }
func (x *Exec) ifaceS() *smt.Sort { return x.C.U("Iface") }
func (x *Exec) anyS() *smt.Sort   { return x.C.U("Any") }

func (x *Exec) nilAny() *T { return x.C.App("lit:nilAny", x.anyS()) }

func (x *Exec) rkind(rt *T) *T { return x.C.App("kind", smt.BV64, rt) }

func (x *Exec) rvtype(v *T) *T { return x.C.App("rvtype", x.rtypeT(), v) }

func (x *Exec) rv(rt, i *T) *T { return x.C.App("rv", x.anyS(), rt, i) }

// rvIface is the content of a reflect.Value as an interface value.
func (x *Exec) rvIface(st *State, v *T) *T {
	c := x.C
	if v.Op == smt.OIte {
		return c.Ite(v.A[0], x.rvIface(st, v.A[1]), x.rvIface(st, v.A[2]))
	}
	if v.Op == smt.OApp {
		switch v.Name {
		case "rv":
			return v.A[1]
		case "lit:nilAny":
			return x.nilIface()
		case "loc":
			return c.Select(st.ghostOf("RC"), v.A[0])
		}
	}
	return c.App("rvcontent", x.ifaceS(), v)
}

func (x *Exec) isNilAny(v *T) *T { return x.C.Eq(v, x.nilAny()) }

func (x *Exec) valueOf(i *T) *T {
	c := x.C
	return c.Ite(x.isNilIface(i), x.nilAny(), x.rv(x.typeOf(i), i))
}

// zeroI is the content of the zero value of a type.
func (x *Exec) zeroI(rt *T) *T { return x.C.App("zeroI", x.ifaceS(), rt) }

// closptr is the machine word of a function value: the address of its code
// pointer.
func (x *Exec) closptr(i *T) *T { return x.C.App("closptr", smt.BV64, i) }

// rvPtrField is the second machine word of a reflect.Value.
func (x *Exec) rvPtrField(v *T) *T { return x.C.App("get:rv.ptr", smt.BV64, v) }

const (
	kInterface = 20
	kFunc      = 19
	kPtr       = 22
	kSlice     = 23
	kStruct    = 25
	kMap       = 21
)

func kindOf(t types.Type) (uint64, bool) {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		k := map[types.BasicKind]uint64{types.Bool: 1, types.Int: 2, types.Int8: 3, types.Int16: 4, types.Int32: 5, types.Int64: 6, types.Uint: 7, types.Uint8: 8, types.Uint16: 9, types.Uint32: 10, types.Uint64: 11, types.Uintptr: 12, types.Float32: 13, types.Float64: 14, types.Complex64: 15, types.Complex128: 16, types.String: 24, types.UnsafePointer: 26}
		n, ok := k[u.Kind()]
		return n, ok
	case *types.Array:
		return 17, true
	case *types.Chan:
		return 18, true
	case *types.Signature:
		return kFunc, true
	case *types.Interface:
		return kInterface, true
	case *types.Map:
		return kMap, true
	case *types.Pointer:
		return kPtr, true
	case *types.Slice:
		return kSlice, true
	case *types.Struct:
		return kStruct, true
	}
	return 0, false
}

func (x *Exec) mkseq(st *State, v Val) *T {
	c := x.C
	sl, ok := v.T.Underlying().(*types.Slice)
	if !ok || len(v.L) != 4 {
		panic(unsupported("sequence of " + fmt.Sprint(v.T)))
	}
	ls := x.layout(sl.Elem()).Leaves
	if len(ls) != 1 {
		panic(unsupported("sequence of " + v.T.String()))
	}
	sn := ""
	for k, e := range smt.SeqElem {
		if ls[0].Sort.Name == e {
			sn = k
		}
	}
	if sn == "" {
		panic(unsupported("sequence of " + v.T.String()))
	}
	p := &Ptr{Kind: PElem, Root: sl.Elem(), N: 1}
	comp := st.comp(x.compName(p, ls[0]), x.leafCompSort(p, ls[0]), ls[0].Ref)
	return c.App("mkseq:"+sn, c.U(sn), c.Select(comp, v.L[0]), v.L[1], v.L[2])
}

// seqSlice makes a fresh slice holding the sequence s.
func (x *Exec) seqSlice(st *State, t types.Type, s *T) Val {
	c := x.C
	et := t.Underlying().(*types.Slice).Elem()
	lf := x.layout(et).Leaves[0]
	p := &Ptr{Kind: PElem, Root: et, N: 1}
	n := c.Len(s)
	r := st.allocRef("seq")
	name := x.compName(p, lf)
	comp := st.comp(name, x.leafCompSort(p, lf), lf.Ref)
	st.setComp(name, c.Store(comp, r, c.App("seqArr:"+s.S.Name, c.Arr(smt.BV64, lf.Sort), s)))
	st.wlog = append(st.wlog, wrec{comp: name, base: r})
	st.assume(c.Ult(n, c.C64(1<<40)))
	return val(t, r, c.C64(0), n, n)
}

func (x *Exec) setup() {
	c := x.C
	lit := func(t *T) (types.Type, bool) {
		if t.Op == smt.OApp && strings.HasPrefix(t.Name, "lit:T:") {
			ty, ok := x.litTypes[t.Name]
			return ty, ok
		}
		return nil, false
	}
	name := func(t *T) string {
		if t.Op == smt.OApp {
			return t.Name
		}
		return ""
	}
	push := func(n string, s func() *smt.Sort) func(a []*T) *T {
		return func(a []*T) *T {
			if a[0].Op == smt.OIte {
				r1 := append([]*T{a[0].A[1]}, a[1:]...)
				r2 := append([]*T{a[0].A[2]}, a[1:]...)
				return c.Ite(a[0].A[0], c.App(n, s(), r1...), c.App(n, s(), r2...))
			}
			return nil
		}
	}
	reg := func(n string, s func() *smt.Sort, f func(a []*T) *T) {
		p := push(n, s)
		c.Rewrite[n] = func(_ *smt.Ctx, a []*T) *T {
			if r := p(a); r != nil {
				return r
			}
			return f(a)
		}
	}
	bv := func() *smt.Sort { return smt.BV64 }
	rts := x.rtypeT
	bl := func() *smt.Sort { return smt.Bool }
	fact := func(n string, f func(t *T) []*T) {
		old := c.AppFacts[n]
		c.AppFacts[n] = func(cc *smt.Ctx, t *T) []*T {
			r := f(t)
			if old != nil {
				r = append(r, old(cc, t)...)
			}
			return r
		}
	}
	// ---- sequences
	for sn, en := range smt.SeqElem {
		sn, en := sn, en
		c.Rewrite["len:"+sn] = func(_ *smt.Ctx, a []*T) *T {
			if a[0].Op == smt.OIte {
				return c.Ite(a[0].A[0], c.Len(a[0].A[1]), c.Len(a[0].A[2]))
			}
			if name(a[0]) == "mkseq:"+sn {
				return a[0].A[2]
			}
			return nil
		}
		c.Rewrite["at:"+sn] = func(_ *smt.Ctx, a []*T) *T {
			if a[0].Op == smt.OIte {
				return c.Ite(a[0].A[0], c.At(a[0].A[1], a[1]), c.At(a[0].A[2], a[1]))
			}
			if name(a[0]) == "mkseq:"+sn {
				return c.Select(a[0].A[0], c.Add(a[0].A[1], a[1]))
			}
			return nil
		}
		c.Rewrite["select:seqArr:"+sn] = func(_ *smt.Ctx, a []*T) *T {
			return c.App("at:"+sn, c.U(en), a[0].A[0], a[1])
		}
		c.Rewrite["mkseq:"+sn] = func(_ *smt.Ctx, a []*T) *T {
			if name(a[0]) == "seqArr:"+sn && a[1].IsConst() && a[1].V == 0 && a[2] == c.Len(a[0].A[0]) {
				return a[0].A[0]
			}
			return nil
		}
		fact("mkseq:"+sn, func(t *T) []*T {
			return []*T{c.Eq(c.RawApp("len:"+sn, smt.BV64, t), t.A[2])}
		})
		fact("at:"+sn, func(t *T) []*T { return nil })
	}
	fnS := func() *smt.Sort { return c.U("Fn") }
	reg("mkimpl", fnS, func(a []*T) *T {
		if name(a[0]) == "nonnil:mkfunc" {
			return a[0].A[1]
		}
		return nil
	})
	// ---- types
	reg("kind", bv, func(a []*T) *T {
		switch name(a[0]) {
		case "lit:nilRType":
			return c.C64(0)
		case "funcOf":
			return c.C64(kFunc)
		case "ptrTo":
			return c.C64(kPtr)
		}
		if t, ok := lit(a[0]); ok {
			if k, ok := kindOf(t); ok {
				return c.C64(k)
			}
		}
		return nil
	})
	fact("kind", func(t *T) []*T {
		r := []*T{c.Ult(t, c.C64(27)), c.Eq(c.Eq(t, c.C64(0)), c.Eq(t.A[0], x.nilRType()))}
		return r
	})
	sigOf := func(t *T) *types.Signature {
		if ty, ok := lit(t); ok {
			if s, ok := ty.Underlying().(*types.Signature); ok {
				return s
			}
		}
		return nil
	}
	tup := func(tu *types.Tuple, i *T) *T {
		if i.IsConst() && i.V < uint64(tu.Len()) {
			return x.rtypeLit(tu.At(int(i.V)).Type())
		}
		return nil
	}
	reg("numIn", bv, func(a []*T) *T {
		if s := sigOf(a[0]); s != nil {
			return c.C64(uint64(s.Params().Len()))
		}
		if name(a[0]) == "funcOf" {
			return c.Len(a[0].A[0])
		}
		return nil
	})
	fact("numIn", func(t *T) []*T {
		return []*T{c.Ult(t, c.C64(1<<16)), c.Imp(c.App("variadic", smt.Bool, t.A[0]), c.Ult(c.C64(0), t))}
	})
	reg("numOut", bv, func(a []*T) *T {
		if s := sigOf(a[0]); s != nil {
			return c.C64(uint64(s.Results().Len()))
		}
		if name(a[0]) == "funcOf" {
			return c.Len(a[0].A[1])
		}
		return nil
	})
	fact("numOut", func(t *T) []*T { return []*T{c.Ult(t, c.C64(1<<15))} })
	reg("inT", rts, func(a []*T) *T {
		if s := sigOf(a[0]); s != nil {
			return tup(s.Params(), a[1])
		}
		if name(a[0]) == "funcOf" {
			return c.At(a[0].A[0], a[1])
		}
		return nil
	})
	fact("inT", func(t *T) []*T {
		n := c.App("numIn", smt.BV64, t.A[0])
		last := c.Eq(t.A[1], c.Sub(n, c.C64(1)))
		return []*T{c.Imp(c.Ult(t.A[1], n), c.Not(c.Eq(t, x.nilRType()))),
			c.Imp(c.And(c.App("variadic", smt.Bool, t.A[0]), last), c.Eq(x.rkind(t), c.C64(kSlice)))}
	})
	reg("outT", rts, func(a []*T) *T {
		if s := sigOf(a[0]); s != nil {
			return tup(s.Results(), a[1])
		}
		if name(a[0]) == "funcOf" {
			return c.At(a[0].A[1], a[1])
		}
		return nil
	})
	fact("outT", func(t *T) []*T {
		return []*T{c.Imp(c.Ult(t.A[1], c.App("numOut", smt.BV64, t.A[0])), c.Not(c.Eq(t, x.nilRType())))}
	})
	reg("variadic", bl, func(a []*T) *T {
		if s := sigOf(a[0]); s != nil {
			return c.B(s.Variadic())
		}
		if name(a[0]) == "funcOf" {
			return a[0].A[2]
		}
		return nil
	})
	fact("variadic", func(t *T) []*T {
		return []*T{c.Imp(t, c.Ult(c.C64(0), c.App("numIn", smt.BV64, t.A[0])))}
	})
	reg("elemT", rts, func(a []*T) *T {
		if name(a[0]) == "ptrTo" {
			return a[0].A[0]
		}
		if t, ok := lit(a[0]); ok {
			switch u := t.Underlying().(type) {
			case *types.Pointer:
				return x.rtypeLit(u.Elem())
			case *types.Slice:
				return x.rtypeLit(u.Elem())
			case *types.Array:
				return x.rtypeLit(u.Elem())
			case *types.Map:
				return x.rtypeLit(u.Elem())
			}
		}
		return nil
	})
	fact("elemT", func(t *T) []*T {
		k := x.rkind(t.A[0])
		return []*T{c.Imp(c.Or(c.Eq(k, c.C64(kPtr)), c.Eq(k, c.C64(kSlice)), c.Eq(k, c.C64(kMap)), c.Eq(k, c.C64(17)), c.Eq(k, c.C64(18))), c.Not(c.Eq(t, x.nilRType())))}
	})
	reg("ptrTo", rts, func(a []*T) *T {
		if t, ok := lit(a[0]); ok {
			return x.rtypeLit(types.NewPointer(t))
		}
		return nil
	})
	fact("ptrTo", func(t *T) []*T {
		return []*T{c.Or(c.Eq(t.A[0], x.nilRType()), c.Eq(c.RawApp("elemT", rts(), t), t.A[0])), c.Eq(c.RawApp("kind", smt.BV64, t), c.C64(kPtr))}
	})
	fact("funcOf", func(t *T) []*T {
		return []*T{c.Eq(c.RawApp("kind", smt.BV64, t), c.C64(kFunc)),
			c.Eq(c.RawApp("numIn", smt.BV64, t), c.Len(t.A[0])),
			c.Eq(c.RawApp("numOut", smt.BV64, t), c.Len(t.A[1])),
			c.Eq(c.RawApp("variadic", smt.Bool, t), t.A[2])}
	})
	for _, n := range []string{"assignable", "convertible"} {
		n := n
		c.Rewrite[n] = func(_ *smt.Ctx, a []*T) *T {
			if a[0] == a[1] {
				return c.True
			}
			t1, ok1 := lit(a[0])
			t2, ok2 := lit(a[1])
			if ok1 && ok2 {
				if n == "assignable" {
					return c.B(types.AssignableTo(t1, t2))
				}
				return c.B(types.ConvertibleTo(t1, t2))
			}
			return nil
		}
		fact(n, func(t *T) []*T { return []*T{c.Imp(c.Eq(t.A[0], t.A[1]), t)} })
	}
	fact("assignable", func(t *T) []*T {
		return []*T{c.Imp(t, c.App("convertible", smt.Bool, t.A[0], t.A[1]))}
	})
	// ---- interfaces
	reg("typeof", rts, func(a []*T) *T {
		n := name(a[0])
		switch {
		case strings.HasPrefix(n, "mk:"):
			if t, ok := x.boxTypes[n]; ok {
				return x.rtypeLit(t)
			}
		case n == "lit:nilIface":
			return x.nilRType()
		case n == "zeroI":
			if k := x.rkind(a[0].A[0]); k.IsConst() && k.V != kInterface {
				return a[0].A[0]
			}
		case n == "set:eface.data":
			return x.typeOf(a[0].A[0])
		case n == "nonnil:mkfunc", n == "nonnil:mkptr":
			if n == "nonnil:mkptr" {
				return c.App("ptrTo", rts(), a[0].A[0])
			}
			return a[0].A[0]
		}
		return nil
	})
	fact("typeof", func(t *T) []*T {
		r := []*T{c.Eq(c.Eq(t, x.nilRType()), c.Eq(t.A[0], x.nilIface())),
			c.Not(c.Eq(x.rkind(t), c.C64(kInterface)))}
		return r
	})
	fact("zeroI", func(t *T) []*T {
		k := x.rkind(t.A[0])
		isI := c.Eq(k, c.C64(kInterface))
		return []*T{c.Imp(isI, c.Eq(t, x.nilIface())), c.Imp(c.Not(isI), c.Eq(c.RawApp("typeof", rts(), t), t.A[0]))}
	})
	c.Rewrite["zeroI"] = func(_ *smt.Ctx, a []*T) *T {
		if t, ok := lit(a[0]); ok {
			if _, isI := t.Underlying().(*types.Interface); isI {
				return x.nilIface()
			}
			if isNamed(t, "reflect", "Type") {
				return nil
			}
			var r *T
			func() {
				defer func() { recover() }()
				r = x.box(x.zero(t))
			}()
			return r
		}
		return nil
	}
	// ---- reflect.Value
	reg("rvtype", rts, func(a []*T) *T {
		switch name(a[0]) {
		case "rv":
			return a[0].A[0]
		case "loc":
			return a[0].A[1]
		case "lit:nilAny":
			return x.nilRType()
		}
		return nil
	})
	fact("rvtype", func(t *T) []*T {
		return []*T{c.Eq(c.Eq(t, x.nilRType()), c.Eq(t.A[0], x.nilAny()))}
	})
	fact("rvcontent", func(t *T) []*T {
		rt := x.rvtype(t.A[0])
		return []*T{c.Imp(c.Not(c.Eq(x.rkind(rt), c.C64(kInterface))), c.Eq(x.typeOf(t), rt)),
			// a value that is not addressable is determined by its type and content
			c.Eq(t.A[0], c.Ite(c.Eq(t.A[0], x.nilAny()), x.nilAny(), c.RawApp("rv", x.anyS(), rt, t)))}
	})
	fact("rv", func(t *T) []*T {
		return []*T{c.Eq(c.RawApp("rvtype", rts(), t), t.A[0]), c.Eq(c.RawApp("rvcontent", x.ifaceS(), t), t.A[1])}
	})
	reg("closptr", bv, func(a []*T) *T {
		n := name(a[0])
		if n == "nonnil:mkfunc" {
			return a[0].A[2]
		}
		if strings.HasPrefix(n, "mk:") && len(a[0].A) == 1 && a[0].A[0].S.Name == "Fn" {
			return c.App("fnword", smt.BV64, a[0].A[0])
		}
		return nil
	})
	reg("fnword", bv, func(a []*T) *T {
		if name(a[0]) == "lit:nilFn" {
			return c.C64(0)
		}
		return nil
	})
	fact("fnword", func(t *T) []*T {
		return []*T{c.Eq(c.Eq(t, c.C64(0)), c.Eq(t.A[0], x.nilFn()))}
	})
	reg("get:rv.ptr", bv, func(a []*T) *T {
		switch name(a[0]) {
		case "loc":
			return a[0].A[0]
		case "rv":
			if k := x.rkind(a[0].A[0]); k.IsConst() && k.V == kFunc {
				return x.closptr(a[0].A[1])
			}
		}
		return nil
	})
	fact("get:rv.ptr", func(t *T) []*T {
		return []*T{c.Imp(c.Eq(x.rkind(x.rvtype(t.A[0])), c.C64(kFunc)), c.Eq(t, x.closptr(c.App("rvcontent", x.ifaceS(), t.A[0]))))}
	})
	reg("get:eface.data", bv, func(a []*T) *T {
		if name(a[0]) == "set:eface.data" {
			return a[0].A[1]
		}
		return nil
	})
	reg("rvcontent", x.ifaceS, func(a []*T) *T {
		switch name(a[0]) {
		case "rv":
			return a[0].A[1]
		case "lit:nilAny":
			return x.nilIface()
		}
		return nil
	})
	reg("ptrof", bv, func(a []*T) *T {
		n := name(a[0])
		if n == "nonnil:mkptr" {
			return a[0].A[1]
		}
		if strings.HasPrefix(n, "mk:") && len(a[0].A) == 1 && a[0].A[0].S == smt.BV64 {
			return a[0].A[0]
		}
		return nil
	})
	x.setupInst()
}
