package main

import (
	"go/types"

	"govc/smt"
)

func (e *Env) argType(ex *Expr, i int) types.Type {
	a := ex.A[i]
	if a.Op != "type" && a.Op != "str" {
		e.fail(ex, "argument %d must be a type in backquotes", i)
	}
	t, err := e.x.P.resolveType(a.Name)
	if err != nil {
		e.fail(ex, "%v", err)
	}
	return t
}

func (e *Env) call(ex *Expr) Val {
	x, c := e.x, e.x.C
	boolV := func(t *T) Val { return Val{T: types.Typ[types.Bool], L: []*T{t}} }
	intV := func(t *T) Val { return Val{T: types.Typ[types.Int], L: []*T{t}} }
	callee := ex.A[0]
	n := len(ex.A) - 1
	if callee.Op != "id" {
		// a method of the specification language on a value: v.M(args)
		e.fail(ex, "cannot call %s", callee.Op)
	}
	need := func(k int) {
		if n != k {
			e.fail(ex, "%s takes %d arguments", callee.Name, k)
		}
	}
	name := callee.Name
	if d, ok := x.V.Spec.Defs[name]; ok {
		var args []Val
		for i, a := range ex.A[1:] {
			var v Val
			sn := ""
			if i < len(d.Params) {
				sn = d.Params[i].Sort
			}
			if sn != "" && (isNum(a) || isNilExpr(a)) {
				ty, s, err := x.resolveSort(sn, e.pkg)
				if err != nil {
					e.fail(ex, "%v", err)
				}
				if isNilExpr(a) {
					if ty != nil {
						v = x.zero(ty)
					} else {
						v = raw(x.zeroLeaf(s))
					}
				} else {
					v = Val{T: ty, L: []*T{c.BVC(e.numExpr(a, Val{}).L[0].V, s.W)}}
				}
			} else {
				v = e.eval(a)
			}
			args = append(args, v)
		}
		return e.macro(ex, d, args)
	}
	if d, ok := x.V.Spec.Recs[name]; ok {
		return e.appDecl(ex, d, ex.A[1:])
	}
	if d, ok := x.V.Spec.UFs[name]; ok {
		return e.appDecl(ex, d, ex.A[1:])
	}
	rt := func(i int) *T {
		t := e.term(ex.A[i])
		if t.S != c.U("RType") {
			e.fail(ex, "%s: argument %d must be a reflect.Type", name, i)
		}
		return t
	}
	switch name {
	case "old":
		need(1)
		o := *e
		o.st = e.old
		return o.eval(ex.A[1])
	case "len", "cap":
		need(1)
		v := e.eval(ex.A[1])
		if v.T == nil {
			if _, ok := smt.SeqElem[v.L[0].S.Name]; ok {
				return intV(c.Len(v.L[0]))
			}
			e.fail(ex, "len of an untyped value")
		}
		if name == "cap" {
			return intV(v.L[len(v.L)-1])
		}
		return intV(x.lenOf(e.st.clone(), v))
	case "ptr", "arr":
		need(1)
		v := e.eval(ex.A[1])
		return raw(v.L[0])
	case "off":
		need(1)
		v := e.eval(ex.A[1])
		if len(v.L) != 4 {
			e.fail(ex, "off of a value that is not a typed slice")
		}
		return intV(v.L[1])
	case "addr":
		need(1)
		return raw(x.enc(e.eval(ex.A[1])))
	case "trig", "trigx":
		need(1)
		return boolV(c.RawApp(name, smt.Bool, e.eval(ex.A[1]).L[0]))
	case "fresh", "existing":
		need(1)
		v := e.eval(ex.A[1])
		t := v.L[0]
		if v.P != nil {
			t = v.P.Base
			if t == nil {
				t = x.enc(v)
			}
		}
		g := c.ILe(c.RawApp("birth", smt.Int, t), c.IntC(int64(e.old.clock)))
		if name == "fresh" {
			g = c.Not(g)
		}
		return boolV(g)
	case "typeof":
		need(1)
		t := e.term(ex.A[1])
		return raw(x.typeOf(t))
	case "seq":
		need(1)
		v := e.eval(ex.A[1])
		return raw(x.mkseq(e.st, v))
	case "kind":
		need(1)
		return Val{T: types.Typ[types.Uint], L: []*T{x.rkind(rt(1))}}
	case "numIn", "numOut":
		need(1)
		return intV(c.App(name, smt.BV64, rt(1)))
	case "inT", "outT":
		need(2)
		return raw(c.App(name, c.U("RType"), rt(1), e.intTerm(ex.A[2])))
	case "variadic":
		need(1)
		return boolV(c.App("variadic", smt.Bool, rt(1)))
	case "elemT", "ptrTo":
		need(1)
		return raw(c.App(name, c.U("RType"), rt(1)))
	case "rvtype":
		need(1)
		return raw(x.rvtype(e.term(ex.A[1])))
	case "rvIface":
		need(1)
		return raw(x.rvIface(e.st, x.canon(e.st, e.term(ex.A[1]))))
	case "rv":
		need(2)
		return raw(c.App("rv", c.U("Any"), rt(1), e.term(ex.A[2])))
	case "loc":
		need(2)
		return raw(c.App("loc", c.U("Any"), e.intTermOrPtr(ex.A[1]), rt(2)))
	case "valueOf":
		need(1)
		return raw(x.valueOf(e.term(ex.A[1])))
	case "zeroIface":
		need(1)
		return raw(x.zeroI(rt(1)))
	case "nilAny":
		need(0)
		return raw(x.nilAny())
	case "closptr":
		need(1)
		return raw(x.closptr(e.term(ex.A[1])))
	case "rvptr":
		need(1)
		return raw(x.rvPtrField(e.term(ex.A[1])))
	case "mkstr": // the string of l bytes at d
		need(2)
		return Val{T: types.Typ[types.String], L: []*T{x.C.App("mkstr", x.C.U("Str"), e.intTermOrPtr(ex.A[1]), e.intTermOrPtr(ex.A[2]))}}
	case "rtdata": // the address of a type's descriptor
		need(1)
		return Val{T: types.Typ[types.Uintptr], L: []*T{x.C.App("get:rtype.data", smt.BV64, rt(1))}}
	case "ifdata": // the data word of an interface value
		need(1)
		return Val{T: types.Typ[types.Uintptr], L: []*T{x.C.App("get:eface.data", smt.BV64, e.term(ex.A[1]))}}
	case "typeAt": // the type whose descriptor is at an address
		need(1)
		return raw(x.typeOf(x.C.App("set:eface.typ", x.C.U("Iface"), x.nilIface(), e.intTermOrPtr(ex.A[1]))))
	case "wordIn": // what the cell of an unsafe pointer holds
		need(1)
		et := types.Typ[types.UnsafePointer]
		r := e.eval(ex.A[1]).L[0]
		p := &Ptr{Kind: PObj, Root: et, Base: r, N: 1, T: et}
		return Val{T: types.Typ[types.Uintptr], L: []*T{e.st.clone().readLeaf(p, x.layout(et).Leaves[0])}}
	case "ld8", "ld64", "ld32":
		m := e.st.mem()
		if n == 2 {
			m = e.term(ex.A[2])
		}
		a := e.intTermOrPtr(ex.A[1])
		switch name {
		case "ld8":
			return Val{T: types.Typ[types.Uint8], L: []*T{c.Select(m, a)}}
		case "ld32":
			return Val{T: types.Typ[types.Uint32], L: []*T{x.loadBytes(m, a, 4)}}
		}
		return Val{T: types.Typ[types.Uintptr], L: []*T{x.loadBytes(m, a, 8)}}
	case "sat":
		return boolV(e.satTerm(ex))
	case "as":
		need(2)
		t := e.argType(ex, 2)
		return x.unbox(e.st.clone(), e.term(ex.A[1]), t)
	case "is":
		need(2)
		t := e.argType(ex, 2)
		return boolV(x.hasType(e.term(ex.A[1]), t))
	case "isnil":
		need(1)
		return boolV(x.isNilIface(e.term(ex.A[1])))
	case "box":
		need(1)
		return raw(x.box(e.eval(ex.A[1])))
	case "has":
		need(2)
		m := e.eval(ex.A[1])
		mt, ok := m.T.Underlying().(*types.Map)
		if !ok {
			e.fail(ex, "has on a value that is not a map")
		}
		k := e.eval(ex.A[2])
		kt := k.L[0]
		if k.P != nil {
			kt = x.enc(k)
		}
		p, _ := x.mapGet(e.st.clone(), mt, m.L[0], kt)
		return boolV(p)
	case "ite":
		need(3)
		g, err := e.Bool(ex.A[1])
		if err != nil {
			panic(err)
		}
		var a, b Val
		if isNum(ex.A[2]) {
			b = e.eval(ex.A[3])
			a = e.numExpr(ex.A[2], b)
		} else {
			a = e.eval(ex.A[2])
			if isNum(ex.A[3]) {
				b = e.numExpr(ex.A[3], a)
			} else {
				b = e.eval(ex.A[3])
			}
		}
		return Val{T: a.T, L: []*T{c.Ite(g, a.L[0], b.L[0])}}
	case "u64", "uintptr":
		need(1)
		if isNum(ex.A[1]) {
			return Val{T: types.Typ[types.Uintptr], L: []*T{e.numExpr(ex.A[1], Val{}).L[0]}}
		}
		return Val{T: types.Typ[types.Uintptr], L: []*T{e.intTermOrPtr(ex.A[1])}}
	case "int", "int64":
		need(1)
		return intV(e.intTermOrPtr(ex.A[1]))
	case "sext64":
		need(1)
		v := e.eval(ex.A[1])
		return intV(c.Resize(v.L[0], 64, true))
	case "sext32":
		need(1)
		v := e.eval(ex.A[1])
		return intV(c.Resize(c.Resize(v.L[0], 32, false), 64, true))
	case "lo32":
		need(1)
		v := e.eval(ex.A[1])
		return Val{T: types.Typ[types.Uint32], L: []*T{c.Resize(v.L[0], 32, false)}}
	case "u8", "byte":
		need(1)
		if isNum(ex.A[1]) {
			return Val{T: types.Typ[types.Uint8], L: []*T{c.BVC(e.numExpr(ex.A[1], Val{}).L[0].V, 8)}}
		}
		v := e.eval(ex.A[1])
		return Val{T: types.Typ[types.Uint8], L: []*T{c.Resize(v.L[0], 8, false)}}
	case "u32":
		need(1)
		if isNum(ex.A[1]) {
			return Val{T: types.Typ[types.Uint32], L: []*T{c.BVC(e.numExpr(ex.A[1], Val{}).L[0].V, 32)}}
		}
		v := e.eval(ex.A[1])
		return Val{T: types.Typ[types.Uint32], L: []*T{c.Resize(v.L[0], 32, false)}}
	case "bits":
		// bits(x, hi, lo)
		need(3)
		v := e.eval(ex.A[1])
		hi, lo := int(ex.A[2].Num), int(ex.A[3].Num)
		r := c.Extract(v.L[0], hi, lo)
		return Val{L: []*T{c.Resize(r, v.L[0].S.W, false)}, T: v.T}
	case "ule", "ult", "sle", "slt":
		need(2)
		a, b := e.intTermOrPtr(ex.A[1]), e.intTermOrPtr(ex.A[2])
		switch name {
		case "ule":
			return boolV(c.Ule(a, b))
		case "ult":
			return boolV(c.Ult(a, b))
		case "sle":
			return boolV(c.Sle(a, b))
		}
		return boolV(c.Slt(a, b))
	case "wide":
		// wide(a, n, b): a+n does not wrap and stays at or below b
		need(2)
		a, k := e.intTermOrPtr(ex.A[1]), e.intTermOrPtr(ex.A[2])
		return boolV(c.Ule(a, c.Add(a, k)))
	}
	if f, ok := specFuncs[name]; ok {
		var args []*T
		for _, a := range ex.A[1:] {
			args = append(args, e.term(a))
		}
		return f(e, args)
	}
	e.fail(ex, "unknown function %q", name)
	return Val{}
}

// specFuncs are functions of the reflection and instruction models that
// contracts may mention.
var specFuncs = map[string]func(e *Env, a []*T) Val{}

func (e *Env) intTermOrPtr(ex *Expr) *T {
	if isNum(ex) {
		return e.numExpr(ex, Val{}).L[0]
	}
	v := e.eval(ex)
	if v.P != nil {
		return e.x.enc(v)
	}
	if len(v.L) != 1 || v.L[0].S.K != smt.KBV {
		e.fail(ex, "integer expected")
	}
	return e.x.C.Resize(v.L[0], 64, v.T != nil && isSigned(v.T))
}

func (e *Env) satTerm(ex *Expr) *T {
	x := e.x
	if len(ex.A) < 3 || ex.A[1].Op != "id" {
		e.fail(ex, "sat(Spec, f, args...)")
	}
	sp := x.V.Spec.FSpecs[ex.A[1].Name]
	if sp == nil {
		e.fail(ex, "no funcspec %s", ex.A[1].Name)
	}
	if len(sp.Args) != len(ex.A)-3 {
		e.fail(ex, "funcspec %s takes %d parameters", sp.Key, len(sp.Args))
	}
	var ts []*T
	for _, a := range ex.A[2:] {
		v := e.eval(a)
		if v.P != nil {
			ts = append(ts, x.enc(v))
		} else {
			ts = append(ts, v.L...)
		}
	}
	return x.C.App("sat:"+sp.Key, smt.Bool, ts...)
}
