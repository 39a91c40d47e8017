package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"govc/smt"
)

// Env is the context a contract expression is evaluated in.
type Env struct {
	x     *Exec
	st    *State
	old   *State
	vars  map[string]Val
	metas map[string]Val
	pkg   *types.Package
	depth int
}

func (e *Env) with(n string, v Val) *Env {
	c := *e
	c.vars = make(map[string]Val, len(e.vars)+1)
	for k, w := range e.vars {
		c.vars[k] = w
	}
	c.vars[n] = v
	return &c
}

type evalErr struct{ msg string }

func (e evalErr) Error() string { return e.msg }

func (e *Env) fail(ex *Expr, f string, a ...interface{}) {
	panic(evalErr{fmt.Sprintf("%s: ", ex.Pos) + fmt.Sprintf(f, a...)})
}

func raw(t *T) Val { return Val{L: []*T{t}} }

// Bool evaluates a clause to a formula.
func (e *Env) Bool(ex *Expr) (t *T, err error) {
	defer func() {
		if r := recover(); r != nil {
			switch r := r.(type) {
			case evalErr:
				err = r
			case unsupportedErr:
				err = r
			default:
				panic(r)
			}
		}
	}()
	v := e.eval(ex)
	if len(v.L) != 1 || v.L[0].S != smt.Bool {
		return nil, evalErr{ex.Pos + ": clause is not a proposition"}
	}
	return v.L[0], nil
}

func (e *Env) Value(ex *Expr) (v Val, err error) {
	defer func() {
		if r := recover(); r != nil {
			switch r := r.(type) {
			case evalErr:
				err = r
			case unsupportedErr:
				err = r
			default:
				panic(r)
			}
		}
	}()
	return e.eval(ex), nil
}

var rawSorts = map[string]bool{"Any": true, "ASeq": true, "TSeq": true, "ISeq": true, "World": true, "Iface": true, "Fn": true, "RType": true, "Str": true}

func (x *Exec) resolveSort(name string, pkg *types.Package) (types.Type, *smt.Sort, error) {
	switch name {
	case "u64":
		return types.Typ[types.Uintptr], smt.BV64, nil
	case "ref":
		return nil, smt.BV64, nil
	case "u32":
		return types.Typ[types.Uint32], smt.BV32, nil
	case "u16":
		return types.Typ[types.Uint16], smt.BV16, nil
	case "u8":
		return types.Typ[types.Uint8], smt.BV8, nil
	case "Mem":
		return nil, x.memSort(), nil
	case "Cells": // what variables reached by reflection hold
		return nil, x.C.Arr(smt.BV64, x.C.U("Iface")), nil
	case "bool", "prop":
		return types.Typ[types.Bool], smt.Bool, nil
	}
	if rawSorts[name] {
		return nil, x.C.U(name), nil
	}
	t, err := x.P.resolveType(name)
	if err != nil {
		return nil, nil, err
	}
	if ls := x.layout(t).Leaves; len(ls) == 1 {
		return t, ls[0].Sort, nil
	}
	return t, nil, nil
}

func (p *Program) pkgByName(n string) *types.Package {
	var ks []string
	for k := range p.ByPkg {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var best *types.Package
	for _, k := range ks {
		q := p.ByPkg[k]
		if q.Types == nil || q.Types.Name() != n {
			continue
		}
		if strings.HasPrefix(k, modPath) {
			return q.Types
		}
		if k == n {
			best = q.Types
		} else if best == nil {
			best = q.Types
		}
	}
	return best
}

func (p *Program) resolveType(s string) (types.Type, error) {
	s = strings.TrimSpace(s)
	if b, ok := types.Universe.Lookup(s).(*types.TypeName); ok && s != "any" {
		return b.Type(), nil
	}
	switch {
	case strings.HasPrefix(s, "*"):
		t, err := p.resolveType(s[1:])
		if err != nil {
			return nil, err
		}
		return types.NewPointer(t), nil
	case strings.HasPrefix(s, "[]"):
		t, err := p.resolveType(s[2:])
		if err != nil {
			return nil, err
		}
		return types.NewSlice(t), nil
	case strings.HasPrefix(s, "map["):
		d := 0
		for i := 3; i < len(s); i++ {
			if s[i] == '[' {
				d++
			}
			if s[i] == ']' {
				d--
				if d == 0 {
					k, err := p.resolveType(s[4:i])
					if err != nil {
						return nil, err
					}
					v, err := p.resolveType(s[i+1:])
					if err != nil {
						return nil, err
					}
					return types.NewMap(k, v), nil
				}
			}
		}
	case strings.HasPrefix(s, "func("):
		d, end := 0, -1
		for i := 4; i < len(s) && end < 0; i++ {
			switch s[i] {
			case '(':
				d++
			case ')':
				if d--; d == 0 {
					end = i
				}
			}
		}
		if end < 0 {
			return nil, fmt.Errorf("bad type %q", s)
		}
		tup := func(l string) (*types.Tuple, error) {
			var vs []*types.Var
			for _, e := range splitTop(l) {
				if e = strings.TrimSpace(e); e == "" {
					continue
				}
				t, err := p.resolveType(e)
				if err != nil {
					return nil, err
				}
				vs = append(vs, types.NewVar(0, nil, "", t))
			}
			return types.NewTuple(vs...), nil
		}
		in, err := tup(s[5:end])
		if err != nil {
			return nil, err
		}
		rs := strings.TrimSpace(s[end+1:])
		if strings.HasPrefix(rs, "(") {
			rs = rs[1 : len(rs)-1]
		}
		out, err := tup(rs)
		if err != nil {
			return nil, err
		}
		return types.NewSignatureType(nil, nil, nil, in, out, false), nil
	case s == "any" || s == "interface{}":
		return types.NewInterfaceType(nil, nil), nil
	}
	if i := strings.Index(s, "."); i >= 0 {
		pk := p.pkgByName(s[:i])
		if pk == nil {
			return nil, fmt.Errorf("unknown package %q", s[:i])
		}
		o := pk.Scope().Lookup(s[i+1:])
		if o == nil {
			return nil, fmt.Errorf("unknown type %q", s)
		}
		return o.Type(), nil
	}
	if o := types.Universe.Lookup(s); o != nil {
		if tn, ok := o.(*types.TypeName); ok {
			return tn.Type(), nil
		}
	}
	return nil, fmt.Errorf("unknown type %q", s)
}

func (e *Env) num(v uint64, like Val) Val {
	if like.T != nil || len(like.L) == 1 && like.L[0].S.K == smt.KBV {
		if len(like.L) == 1 && like.L[0].S.K == smt.KBV {
			return Val{T: like.T, L: []*T{e.x.C.BVC(v, like.L[0].S.W)}}
		}
	}
	return Val{T: types.Typ[types.Int], L: []*T{e.x.C.C64(v)}}
}

func isNum(ex *Expr) bool {
	return ex.Op == "num" || ex.Op == "un" && ex.Name == "-" && ex.A[0].Op == "num"
}

func isNilExpr(ex *Expr) bool { return ex.Op == "id" && ex.Name == "nil" }

func (e *Env) numExpr(ex *Expr, like Val) Val {
	if ex.Op == "num" {
		return e.num(ex.Num, like)
	}
	return e.num(-ex.A[0].Num, like)
}

func (e *Env) term(ex *Expr) *T {
	v := e.eval(ex)
	if v.P != nil {
		return e.x.enc(v)
	}
	if len(v.L) != 1 {
		e.fail(ex, "a single value expected")
	}
	return v.L[0]
}

func (e *Env) boolT(ex *Expr) *T {
	t := e.term(ex)
	if t.S != smt.Bool {
		e.fail(ex, "a proposition expected, found sort %s", t.S)
	}
	return t
}

func (e *Env) eval(ex *Expr) Val {
	x, c := e.x, e.x.C
	boolV := func(t *T) Val { return Val{T: types.Typ[types.Bool], L: []*T{t}} }
	switch ex.Op {
	case "num":
		return e.num(ex.Num, Val{})
	case "str":
		return Val{T: types.Typ[types.String], L: []*T{x.strLit(ex.Name)}}
	case "type":
		t, err := x.P.resolveType(ex.Name)
		if err != nil {
			e.fail(ex, "%v", err)
		}
		return raw(x.rtypeLit(t))
	case "meta":
		v, ok := e.metas[ex.Name]
		if !ok {
			e.fail(ex, "unbound metavariable ?%s", ex.Name)
		}
		return v
	case "id":
		return e.ident(ex)
	case "sel":
		if ex.A[0].Op == "id" {
			if _, bound := e.vars[ex.A[0].Name]; !bound {
				if pk := x.P.pkgByName(ex.A[0].Name); pk != nil {
					return e.pkgMember(ex, pk, ex.Name)
				}
			}
		}
		return e.field(ex, e.eval(ex.A[0]), ex.Name)
	case "idx":
		return e.index(ex)
	case "slice":
		b := e.eval(ex.A[0])
		if b.T == nil {
			e.fail(ex, "slice of an untyped value")
		}
		lo := c.C64(0)
		if ex.A[1] != nil {
			lo = e.intTerm(ex.A[1])
		}
		n := len(b.L)
		hi := b.L[n-2]
		if ex.A[2] != nil {
			hi = e.intTerm(ex.A[2])
		}
		if n == 3 {
			return Val{T: b.T, L: []*T{c.Add(b.L[0], lo), c.Sub(hi, lo), c.Sub(b.L[2], lo)}}
		}
		return Val{T: b.T, L: []*T{b.L[0], c.Add(b.L[1], lo), c.Sub(hi, lo), c.Sub(b.L[3], lo)}}
	case "let":
		v := e.eval(ex.A[0])
		return e.with(ex.Name, v).eval(ex.A[1])
	case "ite":
		g := e.boolT(ex.A[0])
		var a, b Val
		if isNum(ex.A[1]) {
			b = e.eval(ex.A[2])
			a = e.numExpr(ex.A[1], b)
		} else {
			a = e.eval(ex.A[1])
			if isNum(ex.A[2]) {
				b = e.numExpr(ex.A[2], a)
			} else {
				b = e.eval(ex.A[2])
			}
		}
		r := Val{T: a.T}
		for i := range a.L {
			r.L = append(r.L, c.Ite(g, a.L[i], b.L[i]))
		}
		if r.T != nil {
			x.fixPtr(&r, e.st, false)
		}
		return r
	case "forall", "exists":
		en := e
		type bv struct {
			t  *T
			ty types.Type
		}
		var bs []bv
		for _, b := range ex.Bind {
			ty, s, err := x.resolveSort(b.Sort, e.pkg)
			if err != nil {
				e.fail(ex, "%v", err)
			}
			if s == nil {
				e.fail(ex, "cannot quantify over %s", b.Sort)
			}
			t := c.Bound(b.Name, s)
			v := Val{T: ty, L: []*T{t}}
			if ty != nil {
				x.fixPtr(&v, e.st, true)
			}
			en = en.with(b.Name, v)
			bs = append(bs, bv{t, ty})
		}
		body := en.boolT(ex.A[0])
		for i := len(bs) - 1; i >= 0; i-- {
			if ex.Op == "forall" {
				body = c.Forall(bs[i].t, body)
			} else {
				body = c.Exists(bs[i].t, body)
			}
		}
		return boolV(body)
	case "un":
		switch ex.Name {
		case "!":
			return boolV(c.Not(e.boolT(ex.A[0])))
		case "*":
			p := e.eval(ex.A[0])
			if p.P == nil {
				x.fixPtr(&p, e.st, false)
			}
			if p.P == nil {
				e.fail(ex, "dereference of a non-pointer")
			}
			return x.loadQuiet(e.st, p.P)
		case "-":
			if isNum(ex) {
				return e.numExpr(ex, Val{})
			}
			v := e.eval(ex.A[0])
			return Val{T: v.T, L: []*T{c.Neg(v.L[0])}}
		case "~":
			v := e.eval(ex.A[0])
			return Val{T: v.T, L: []*T{c.BNot(v.L[0])}}
		}
	case "bin":
		return e.binary(ex)
	case "call":
		return e.call(ex)
	}
	e.fail(ex, "cannot evaluate %s", ex.Op)
	return Val{}
}

func (e *Env) intTerm(ex *Expr) *T {
	if isNum(ex) {
		return e.numExpr(ex, Val{}).L[0]
	}
	v := e.eval(ex)
	if len(v.L) != 1 || v.L[0].S.K != smt.KBV {
		e.fail(ex, "integer expected")
	}
	return e.x.C.Resize(v.L[0], 64, v.T != nil && isSigned(v.T))
}

func (e *Env) ident(ex *Expr) Val {
	x, c := e.x, e.x.C
	if v, ok := e.vars[ex.Name]; ok {
		return v
	}
	switch ex.Name {
	case "true":
		return Val{T: types.Typ[types.Bool], L: []*T{c.True}}
	case "false":
		return Val{T: types.Typ[types.Bool], L: []*T{c.False}}
	case "mem":
		return raw(e.st.mem())
	case "W":
		return raw(e.st.world())
	case "nil":
		return Val{T: types.Typ[types.UntypedNil], L: []*T{c.C64(0)}}
	}
	if g, ok := ghosts[ex.Name]; ok {
		return raw(e.st.ghost(g.comp, g.sort(x)))
	}
	if e.pkg != nil {
		if o := e.pkg.Scope().Lookup(ex.Name); o != nil {
			return e.pkgMember(ex, e.pkg, ex.Name)
		}
	}
	if d, ok := x.V.Spec.Defs[ex.Name]; ok && len(d.Params) == 0 {
		return e.macro(ex, d, nil)
	}
	e.fail(ex, "unknown name %q", ex.Name)
	return Val{}
}

type ghost struct {
	comp string
	sort func(x *Exec) *smt.Sort
}

var ghosts = map[string]ghost{
	"stwDepth": {"stw", func(x *Exec) *smt.Sort { return smt.BV64 }},
	"prot":     {"prot", func(x *Exec) *smt.Sort { return x.C.Arr(smt.BV64, smt.BV8) }},
	"RC":       {"RC", func(x *Exec) *smt.Sort { return x.C.Arr(smt.BV64, x.C.U("Iface")) }},
}

func (st *State) ghostOf(n string) *T {
	g := ghosts[n]
	return st.comp(g.comp, g.sort(st.x), false)
}

func (st *State) setGhost(n string, t *T) { st.setComp(ghosts[n].comp, t) }

func (e *Env) pkgMember(ex *Expr, pk *types.Package, n string) Val {
	x := e.x
	o := pk.Scope().Lookup(n)
	switch o := o.(type) {
	case *types.Var:
		name := shortName(pk.Path()) + "." + n
		p := &Ptr{Kind: PGlobal, G: name, Root: o.Type(), N: len(x.layout(o.Type()).Leaves), T: o.Type()}
		return x.loadQuiet(e.st, p)
	case *types.Const:
		return x.constOf(o.Type(), o.Val())
	case *types.Func:
		if f := x.P.SSA.FuncValue(o); f != nil {
			return Val{T: o.Type(), L: []*T{x.fnTerm(f, nil)}}
		}
	case *types.TypeName:
		return raw(x.rtypeLit(o.Type()))
	}
	e.fail(ex, "no member %s in package %s", n, pk.Name())
	return Val{}
}

func (x *Exec) constOf(t types.Type, v constant.Value) Val {
	c := x.C
	if b, ok := t.Underlying().(*types.Basic); ok {
		switch {
		case b.Info()&types.IsBoolean != 0:
			return Val{T: t, L: []*T{c.B(constant.BoolVal(v))}}
		case b.Info()&types.IsInteger != 0:
			w := 64
			if b.Info()&types.IsUntyped == 0 {
				w = int(x.P.Sizes.Sizeof(b)) * 8
			}
			if i, ok := constant.Int64Val(constant.ToInt(v)); ok {
				return Val{T: t, L: []*T{c.BVC(uint64(i), w)}}
			}
			u, _ := constant.Uint64Val(constant.ToInt(v))
			return Val{T: t, L: []*T{c.BVC(u, w)}}
		case b.Info()&types.IsString != 0:
			return Val{T: t, L: []*T{x.strLit(constant.StringVal(v))}}
		}
	}
	panic(evalErr{"constant of type " + t.String()})
}

func (e *Env) field(ex *Expr, v Val, name string) Val {
	x := e.x
	if v.T == nil {
		e.fail(ex, "field %s of an untyped value", name)
	}
	if pt, ok := v.T.Underlying().(*types.Pointer); ok {
		if v.P == nil {
			x.fixPtr(&v, e.st, true)
		}
		s, ok := pt.Elem().Underlying().(*types.Struct)
		if !ok {
			e.fail(ex, "field of %s", v.T)
		}
		p := *v.P
		if p.View != nil {
			e.fail(ex, "field through a reinterpreted pointer")
		}
		cur := s
		for _, i := range fieldPath(cur, name) {
			ft := cur.Field(i).Type()
			if p.Kind == PRaw {
				p = Ptr{Kind: PRaw, Base: x.C.Add(p.Base, x.C.C64(uint64(x.P.Sizes.Offsetsof(fieldsOf(cur))[i]))), T: ft}
			} else {
				lo, n := x.fieldRange(cur, i)
				p.Lo, p.N, p.T = p.Lo+lo, n, ft
			}
			if ns, ok := ft.Underlying().(*types.Struct); ok {
				cur = ns
			}
		}
		if fieldPath(s, name) == nil {
			e.fail(ex, "%s has no field %s", v.T, name)
		}
		r := x.loadQuiet(e.st, &p)
		r.T = p.T
		x.typeInv(e.st, r)
		return r
	}
	if s, ok := v.T.Underlying().(*types.Struct); ok {
		path := fieldPath(s, name)
		if path == nil {
			e.fail(ex, "%s has no field %s", v.T, name)
		}
		for _, i := range path {
			lo, n := x.fieldRange(s, i)
			v = Val{T: s.Field(i).Type(), L: v.L[lo : lo+n]}
			if ns, ok := v.T.Underlying().(*types.Struct); ok {
				s = ns
			}
		}
		x.fixPtr(&v, e.st, false)
		return v
	}
	e.fail(ex, "field %s of %s", name, v.T)
	return Val{}
}

// fieldPath finds a (possibly promoted) field.
func fieldPath(s *types.Struct, name string) []int {
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return []int{i}
		}
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Embedded() {
			if t, ok := s.Field(i).Type().Underlying().(*types.Struct); ok {
				if r := fieldPath(t, name); r != nil {
					return append([]int{i}, r...)
				}
			}
		}
	}
	return nil
}

func (e *Env) index(ex *Expr) Val {
	x, c := e.x, e.x.C
	b := e.eval(ex.A[0])
	if b.T == nil {
		if len(b.L) == 1 && b.L[0].S.K == smt.KArr {
			var i *T
			if isNum(ex.A[1]) {
				i = c.BVC(e.numExpr(ex.A[1], Val{}).L[0].V, b.L[0].S.Dom.W)
			} else {
				i = e.term(ex.A[1])
			}
			t := c.Select(b.L[0], i)
			if t.S == smt.BV8 {
				return Val{T: types.Typ[types.Uint8], L: []*T{t}}
			}
			return raw(t)
		}
		if len(b.L) == 1 && smt.SeqElem[b.L[0].S.Name] != "" {
			return raw(c.At(b.L[0], e.intTerm(ex.A[1])))
		}
		e.fail(ex, "index of an untyped value")
	}
	switch u := b.T.Underlying().(type) {
	case *types.Slice:
		i := e.intTerm(ex.A[1])
		if isRaw(u.Elem()) {
			p := &Ptr{Kind: PRaw, Base: c.Add(b.L[0], c.Mul(i, c.C64(uint64(x.P.Sizes.Sizeof(u.Elem()))))), T: u.Elem()}
			return x.loadQuiet(e.st, p)
		}
		p := &Ptr{Kind: PElem, Root: u.Elem(), Base: b.L[0], Idx: c.Add(b.L[1], i), N: len(x.layout(u.Elem()).Leaves), T: u.Elem()}
		return x.loadQuiet(e.st, p)
	case *types.Map:
		k := e.term(ex.A[1])
		_, v := x.mapGet(e.st, u, b.L[0], k)
		return v
	case *types.Array:
		i := e.intTerm(ex.A[1])
		r := Val{T: u.Elem()}
		for _, l := range b.L {
			r.L = append(r.L, c.Select(l, i))
		}
		x.fixPtr(&r, e.st, false)
		return r
	case *types.Basic:
		i := e.intTerm(ex.A[1])
		return Val{T: types.Typ[types.Uint8], L: []*T{c.App("strat", smt.BV8, b.L[0], i)}}
	}
	e.fail(ex, "index of %s", b.T)
	return Val{}
}

func (e *Env) binary(ex *Expr) Val {
	x, c := e.x, e.x.C
	boolV := func(t *T) Val { return Val{T: types.Typ[types.Bool], L: []*T{t}} }
	switch ex.Name {
	case "&&":
		return boolV(c.And(e.boolT(ex.A[0]), e.boolT(ex.A[1])))
	case "||":
		return boolV(c.Or(e.boolT(ex.A[0]), e.boolT(ex.A[1])))
	case "==>":
		return boolV(c.Imp(e.boolT(ex.A[0]), e.boolT(ex.A[1])))
	case "<==>":
		return boolV(c.Eq(e.boolT(ex.A[0]), e.boolT(ex.A[1])))
	}
	var a, b Val
	l, r := ex.A[0], ex.A[1]
	switch {
	case isNum(l) && !isNum(r):
		b = e.eval(r)
		a = e.numExpr(l, b)
	case isNum(r):
		a = e.eval(l)
		b = e.numExpr(r, a)
	case isNilExpr(l):
		b = e.eval(r)
		a = e.nilOf(ex, b)
	case isNilExpr(r):
		a = e.eval(l)
		b = e.nilOf(ex, a)
	default:
		a, b = e.eval(l), e.eval(r)
	}
	if ex.Name == "==" || ex.Name == "!=" {
		var t *T
		if a.T != nil && b.T != nil && a.T.Underlying() != nil {
			if _, ok := a.T.Underlying().(*types.Slice); ok && (isNilExpr(l) || isNilExpr(r)) {
				t = c.Eq(a.L[0], b.L[0])
			}
		}
		if t == nil {
			if len(a.L) != len(b.L) {
				e.fail(ex, "comparison of different types")
			}
			if a.T != nil && b.T != nil {
				t = x.eqVals(a, b)
			} else {
				var es []*T
				for i := range a.L {
					p, q := a.L[i], b.L[i]
					if a.P != nil && len(a.L) == 1 {
						p = x.enc(a)
					}
					if b.P != nil && len(b.L) == 1 {
						q = x.enc(b)
					}
					if p.S != q.S {
						e.fail(ex, "comparison of sorts %s and %s", p.S, q.S)
					}
					if p.S.Name == "Iface" && q == x.nilIface() {
						es = append(es, x.isNilIface(p))
					} else {
						es = append(es, c.Eq(p, q))
					}
				}
				t = c.And(es...)
			}
		}
		if ex.Name == "!=" {
			t = c.Not(t)
		}
		return boolV(t)
	}
	if len(a.L) != 1 || len(b.L) != 1 {
		e.fail(ex, "operator %s on composite values", ex.Name)
	}
	p, q := a.L[0], b.L[0]
	if a.P != nil {
		p = x.enc(a)
	}
	if b.P != nil {
		q = x.enc(b)
	}
	if p.S.K != smt.KBV || p.S != q.S {
		if p.S.Name == "Str" && ex.Name == "+" {
			return Val{T: a.T, L: []*T{c.App("strcat", p.S, p, q)}}
		}
		if p.S.K == smt.KBV && q.S.K == smt.KBV && (ex.Name == "<<" || ex.Name == ">>") {
			q = c.Resize(q, p.S.W, false)
		} else {
			e.fail(ex, "operator %s on sorts %s and %s", ex.Name, p.S, q.S)
		}
	}
	ty := a.T
	if ty == nil {
		ty = b.T
	}
	sg := ty != nil && isSigned(ty)
	val := func(t *T) Val { return Val{T: ty, L: []*T{t}} }
	lt := func(p, q *T) *T {
		if sg {
			return c.Slt(p, q)
		}
		return c.Ult(p, q)
	}
	switch ex.Name {
	case "+":
		return val(c.Add(p, q))
	case "-":
		return val(c.Sub(p, q))
	case "*":
		return val(c.Mul(p, q))
	case "/":
		if sg {
			return val(c.Sdiv(p, q))
		}
		return val(c.Udiv(p, q))
	case "%":
		if sg {
			return val(c.Srem(p, q))
		}
		return val(c.Urem(p, q))
	case "&":
		return val(c.BAnd(p, q))
	case "|":
		return val(c.BOr(p, q))
	case "^":
		return val(c.BXor(p, q))
	case "&^":
		return val(c.BAnd(p, c.BNot(q)))
	case "<<":
		return val(c.Shl(p, q))
	case ">>":
		if sg {
			return val(c.Ashr(p, q))
		}
		return val(c.Lshr(p, q))
	case "<":
		return boolV(lt(p, q))
	case "<=":
		return boolV(c.Not(lt(q, p)))
	case ">":
		return boolV(lt(q, p))
	case ">=":
		return boolV(c.Not(lt(p, q)))
	}
	e.fail(ex, "operator %s", ex.Name)
	return Val{}
}

func (e *Env) nilOf(ex *Expr, like Val) Val {
	x := e.x
	if like.T != nil && like.T != types.Typ[types.UntypedNil] {
		return x.zero(like.T)
	}
	if len(like.L) == 1 {
		return raw(x.zeroLeaf(like.L[0].S))
	}
	e.fail(ex, "nil of unknown type")
	return Val{}
}

func (e *Env) macro(ex *Expr, d *Define, args []Val) Val {
	if e.depth > 40 {
		e.fail(ex, "macro recursion in %s", d.Name)
	}
	c := *e
	c.depth++
	c.vars = map[string]Val{}
	for k, v := range e.vars {
		if strings.HasPrefix(k, "result") || k == "recv" {
			_ = v
		}
	}
	if len(args) != len(d.Params) {
		e.fail(ex, "%s takes %d arguments", d.Name, len(d.Params))
	}
	for i, p := range d.Params {
		v := args[i]
		if p.Sort != "" {
			if ty, _, err := e.x.resolveSort(p.Sort, e.pkg); err == nil && ty != nil && v.T == nil {
				v.T = ty
				e.x.fixPtr(&v, e.st, true)
			} else if err != nil {
				e.fail(ex, "%v", err)
			}
		}
		c.vars[p.Name] = v
	}
	r := c.eval(d.Body)
	if d.Ret != "" && r.T == nil {
		if ty, _, err := e.x.resolveSort(d.Ret, e.pkg); err == nil && ty != nil {
			r.T = ty
			e.x.fixPtr(&r, e.st, true)
		}
	}
	return r
}

// appDecl evaluates the application of a declared uninterpreted or recursive
// function.
func (e *Env) appDecl(ex *Expr, d *Define, args []*Expr) Val {
	x, c := e.x, e.x.C
	if len(args) != len(d.Params) {
		e.fail(ex, "%s takes %d arguments", d.Name, len(d.Params))
	}
	var ts []*T
	for i, a := range args {
		var v Val
		sn := d.Params[i].Sort
		if sn == "" {
			sn = d.Params[i].Name
		}
		_, s, err := x.resolveSort(sn, e.pkg)
		if err != nil || s == nil {
			e.fail(ex, "parameter %d of %s: %v", i, d.Name, err)
		}
		if isNum(a) && s.K == smt.KBV {
			v = raw(c.BVC(e.numExpr(a, Val{}).L[0].V, s.W))
		} else if isNilExpr(a) {
			v = raw(x.zeroLeaf(s))
		} else {
			v = e.eval(a)
		}
		t := v.L[0]
		if v.P != nil {
			t = x.enc(v)
		}
		if t.S != s {
			e.fail(ex, "argument %d of %s has sort %s, wanted %s", i, d.Name, t.S, s)
		}
		ts = append(ts, t)
	}
	ty, s, err := x.resolveSort(d.Ret, e.pkg)
	if err != nil {
		e.fail(ex, "%v", err)
	}
	r := Val{T: ty, L: []*T{c.App("$"+d.Name, s, ts...)}}
	if ty != nil {
		x.fixPtr(&r, e.st, true)
	}
	return r
}

// regRecs registers the recursive specification functions of the contracts
// with the solver layer.
func (x *Exec) regRecs() {
	opq := map[string]bool{}
	if x.root != nil && x.root.con != nil {
		for _, n := range x.root.con.Opaque {
			opq[n] = true
		}
	}
	for n, d := range x.V.Spec.Recs {
		if opq[n] {
			continue
		}
		d := d
		x.C.Rec["$"+n] = func(c *smt.Ctx, args []*T) *T {
			en := &Env{x: x, vars: map[string]Val{}, st: x.specState, old: x.specState}
			for i, p := range d.Params {
				ty, _, err := x.resolveSort(p.Sort, nil)
				if err != nil {
					return nil
				}
				v := Val{T: ty, L: []*T{args[i]}}
				if ty != nil {
					x.fixPtr(&v, nil, true)
				}
				en.vars[p.Name] = v
			}
			v, err := en.Value(d.Body)
			if err != nil {
				panic(unsupported("recursive definition " + d.Name + ": " + err.Error()))
			}
			t := v.L[0]
			if v.P != nil {
				t = x.enc(v)
			}
			return t
		}
	}
}
