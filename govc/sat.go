package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (x *Exec) callUnknown(st *State, t *T, sig *types.Signature, args []Val) []Outcome {
	// a function of the user: it may write what its arguments point to and
	// the user's own world, return anything of its result types, or panic
	c := x.C
	for _, a := range args {
		if a.T == nil || len(a.Tup) > 0 {
			panic(unsupported("call of an unknown function value " + t.String()))
		}
		switch u := a.T.Underlying().(type) {
		case *types.Basic, *types.Interface, *types.Signature:
		case *types.Pointer:
			if _, ok := u.Elem().Underlying().(*types.Struct); !ok {
				panic(unsupported("call of an unknown function value " + t.String()))
			}
		default:
			panic(unsupported("call of an unknown function value " + t.String()))
		}
	}
	st = st.clone()
	clk := st.clock
	m := &modSpec{full: map[string]bool{}, refs: map[string][]*T{}, news: map[string]bool{}}
	var ts []*T
	for _, a := range args {
		ts = append(ts, a.L...)
		u, ok := a.T.Underlying().(*types.Pointer)
		if !ok {
			continue
		}
		for _, lf := range x.layout(u.Elem()).Leaves {
			k := "H:" + typeKey(u.Elem()) + lf.Path
			m.refs[k] = append(m.refs[k], x.enc(a))
			if _, ok := x.compSort[k]; !ok {
				p := &Ptr{Kind: PObj, Root: u.Elem()}
				st.comp(k, x.leafCompSort(p, lf), lf.Ref)
			}
		}
	}
	x.havoc(st, m, clk, "user")
	x.world2(st, "userWorld", t)
	pn := st.clone()
	pn.note("the user's function panics")
	outs := []Outcome{{St: pn, Panic: x.panicVal(c.Fresh("userPanic", x.ifaceS()))}}
	var res []Val
	for i := 0; i < sig.Results().Len(); i++ {
		res = append(res, x.freshVal(st, "userResult", sig.Results().At(i).Type()))
	}
	return append(outs, Outcome{St: st, Res: res})
}

// templateCands instantiates the invariant templates of the contract being
// verified: the outer universally quantified names of a template range over the
// loop's variables (integers also shifted by one, for range loops) and over
// the other values of matching type that are known before the loop.
func (x *Exec) templateCands(fr *Frame, entry *item, mv []metavar) []cand {
	c := x.C
	var out []cand
	type choice struct {
		name string
		idx  int // metavar, or -1
		add  uint64
		val  Val
	}
	sameKind := func(a, b types.Type) bool {
		if types.Identical(a, b) {
			return true
		}
		ba, ok1 := a.Underlying().(*types.Basic)
		bb, ok2 := b.Underlying().(*types.Basic)
		if ok1 && ok2 && ba.Info()&types.IsInteger != 0 && bb.Info()&types.IsInteger != 0 {
			return x.P.Sizes.Sizeof(a) == x.P.Sizes.Sizeof(b)
		}
		return false
	}
	for _, cl := range x.candClauses {
		cl := cl
		ex := cl.E
		var bs []Binder
		if ex.Op == "forall" && strings.HasPrefix(cl.Raw, "forall") {
			bs = ex.Bind
			ex = ex.A[0]
		}
		var opts [][]choice
		for _, b := range bs {
			ty, _, err := x.resolveSort(b.Sort, x.rootEnv.pkg)
			if err != nil || ty == nil {
				panic(evalErr{cl.Pos + ": template variable " + b.Name + " needs a Go type"})
			}
			var o []choice
			for i, m := range mv {
				if !sameKind(m.ct, ty) {
					continue
				}
				o = append(o, choice{name: m.name, idx: i})
				if bt, ok := ty.Underlying().(*types.Basic); ok && bt.Info()&types.IsInteger != 0 {
					o = append(o, choice{name: m.name + "+1", idx: i, add: 1})
				}
			}
			var vs []ssa.Value
			for v := range entry.env {
				vs = append(vs, v)
			}
			sort.Slice(vs, func(i, j int) bool { return vs[i].Name() < vs[j].Name() })
			seen := map[string]bool{}
			for _, v := range vs {
				val := entry.env[v]
				if _, ok := v.(*ssa.Parameter); !ok {
					if bt, ok := ty.Underlying().(*types.Basic); ok && bt.Info()&types.IsInteger != 0 {
						continue
					}
				}
				if val.T == nil || len(val.Tup) > 0 || !sameKind(val.T, ty) || len(val.L) == 0 {
					continue
				}
				k := ""
				for _, l := range val.L {
					k += fmt.Sprint(l.ID, ",")
				}
				if seen[k] {
					continue
				}
				seen[k] = true
				o = append(o, choice{name: v.Name(), idx: -1, val: val})
			}
			opts = append(opts, o)
		}
		n := 0
		var rec func(i int, ch []choice)
		rec = func(i int, ch []choice) {
			if n > 60 {
				return
			}
			if i == len(bs) {
				n++
				ch := append([]choice(nil), ch...)
				nm := cl.Label
				for j, q := range ch {
					nm += fmt.Sprintf(" %s=%s", bs[j].Name, q.name)
				}
				out = append(out, cand{name: nm, user: true, eval: func(st *State, vs []Val) (*T, error) {
					env := x.newEnv(st, x.rootEntry, x.rootEnv.pkg)
					for k, v := range x.rootEnv.vars {
						env.vars[k] = v
					}
					for j, q := range ch {
						v := q.val
						if q.idx >= 0 {
							v = vs[q.idx]
							if q.add != 0 {
								v = Val{T: v.T, L: []*T{c.Add(v.L[0], c.BVC(q.add, v.L[0].S.W))}}
							}
						}
						env.vars[bs[j].Name] = v
					}
					return env.Bool(ex)
				}})
				return
			}
			for _, q := range opts[i] {
				rec(i+1, append(ch, q))
			}
		}
		rec(0, nil)
	}
	return out
}
