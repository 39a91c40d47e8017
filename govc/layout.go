package main

import (
	"fmt"
	"go/types"
	"strings"

	"govc/smt"
)

// Leaf is one scalar of a flattened Go type.
type Leaf struct {
	Path string
	Sort *smt.Sort
	T    types.Type
	Off  int64
	Size int64
	Ref  bool
	Nest int // number of enclosing fixed arrays
}

type Layout struct {
	Leaves []Leaf
}

func typeKey(t types.Type) string {
	t = anonParams(t)
	return shortName(types.TypeString(t, func(p *types.Package) string { return p.Path() }))
}

// anonParams drops the names of parameters and results: they are no part of a type.
func anonParams(t types.Type) types.Type {
	switch u := t.(type) {
	case *types.Signature:
		tup := func(t *types.Tuple) *types.Tuple {
			var vs []*types.Var
			for i := 0; i < t.Len(); i++ {
				vs = append(vs, types.NewVar(0, nil, "", anonParams(t.At(i).Type())))
			}
			return types.NewTuple(vs...)
		}
		if u.TypeParams().Len() > 0 {
			return t
		}
		return types.NewSignatureType(nil, nil, nil, tup(u.Params()), tup(u.Results()), u.Variadic())
	case *types.Slice:
		return types.NewSlice(anonParams(u.Elem()))
	case *types.Pointer:
		return types.NewPointer(anonParams(u.Elem()))
	}
	return t
}

func namedOf(t types.Type) (string, string) {
	if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj() != nil {
		if n.Obj().Pkg() == nil {
			return "", n.Obj().Name()
		}
		return n.Obj().Pkg().Path(), n.Obj().Name()
	}
	return "", ""
}

func isNamed(t types.Type, pkg, name string) bool {
	p, n := namedOf(t)
	return p == pkg && n == name
}

// isRaw: values of this type live in byte-addressed memory, not in typed
// components, when reached through a pointer or a slice.
func isRaw(t types.Type) bool {
	if b, ok := t.Underlying().(*types.Basic); ok {
		return b.Kind() == types.Uint8
	}
	p, _ := namedOf(t)
	if strings.HasSuffix(p, "/unsafereflect") {
		return true
	}
	if a, ok := t.Underlying().(*types.Array); ok {
		return isRaw(a.Elem())
	}
	if s, ok := t.Underlying().(*types.Struct); ok && p == "" {
		for i := 0; i < s.NumFields(); i++ {
			if q, _ := namedOf(s.Field(i).Type()); strings.HasSuffix(q, "/unsafereflect") {
				return true
			}
		}
	}
	return false
}

func (x *Exec) layout(t types.Type) *Layout {
	k := types.TypeString(t, func(p *types.Package) string { return p.Path() })
	if l, ok := x.layouts[k]; ok {
		return l
	}
	l := &Layout{}
	x.flatten(t, "", 0, l)
	x.layouts[k] = l
	return l
}

func (x *Exec) leafSort(t types.Type) (*smt.Sort, bool) {
	c := x.C
	if isNamed(t, "reflect", "Type") {
		return c.U("RType"), false
	}
	if isNamed(t, "reflect", "Value") {
		return c.U("Any"), false
	}
	if isNamed(t, "sync", "Mutex") {
		return smt.Bool, false
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return smt.Bool, false
		case u.Info()&types.IsInteger != 0:
			return smt.BV(int(x.P.Sizes.Sizeof(u)) * 8), false
		case u.Info()&types.IsString != 0:
			return c.U("Str"), false
		case u.Kind() == types.UnsafePointer:
			return smt.BV64, false
		case u.Kind() == types.UntypedNil:
			return smt.BV64, false
		case u.Info()&(types.IsFloat|types.IsComplex) != 0:
			return c.U("Flt"), false
		}
	case *types.Pointer:
		return smt.BV64, !isRaw(u.Elem())
	case *types.Map, *types.Chan:
		return smt.BV64, true
	case *types.Signature:
		return c.U("Fn"), false
	case *types.Interface:
		return c.U("Iface"), false
	}
	return nil, false
}

func (x *Exec) flatten(t types.Type, path string, off int64, l *Layout) {
	if s, ref := x.leafSort(t); s != nil {
		l.Leaves = append(l.Leaves, Leaf{Path: path, Sort: s, T: t, Off: off, Size: x.P.Sizes.Sizeof(t), Ref: ref})
		return
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		i := types.Typ[types.Int]
		if isRaw(u.Elem()) {
			l.Leaves = append(l.Leaves,
				Leaf{Path: path + ".#ptr", Sort: smt.BV64, T: types.Typ[types.Uintptr], Off: off, Size: 8},
				Leaf{Path: path + ".#len", Sort: smt.BV64, T: i, Off: off + 8, Size: 8},
				Leaf{Path: path + ".#cap", Sort: smt.BV64, T: i, Off: off + 16, Size: 8})
			return
		}
		l.Leaves = append(l.Leaves,
			Leaf{Path: path + ".#arr", Sort: smt.BV64, T: types.Typ[types.Uintptr], Off: -1, Ref: true},
			Leaf{Path: path + ".#off", Sort: smt.BV64, T: i, Off: -1},
			Leaf{Path: path + ".#len", Sort: smt.BV64, T: i, Off: off + 8, Size: 8},
			Leaf{Path: path + ".#cap", Sort: smt.BV64, T: i, Off: off + 16, Size: 8})
	case *types.Struct:
		offs := x.P.Sizes.Offsetsof(fieldsOf(u))
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			name := f.Name()
			if name == "_" {
				name = fmt.Sprintf("_%d", i)
			}
			x.flatten(f.Type(), path+"."+name, off+offs[i], l)
		}
	case *types.Array:
		sub := &Layout{}
		x.flatten(u.Elem(), path+"[]", off, sub)
		for _, lf := range sub.Leaves {
			lf.Sort = x.C.Arr(smt.BV64, lf.Sort)
			lf.Nest++
			l.Leaves = append(l.Leaves, lf)
		}
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			x.flatten(u.At(i).Type(), fmt.Sprintf("%s.%d", path, i), off, l)
		}
	default:
		panic(unsupported("layout of type " + t.String()))
	}
}

func fieldsOf(s *types.Struct) []*types.Var {
	r := make([]*types.Var, s.NumFields())
	for i := range r {
		r[i] = s.Field(i)
	}
	return r
}

// fieldRange: index of the first leaf of field i in the layout of struct s
// and the number of its leaves.
func (x *Exec) fieldRange(s *types.Struct, i int) (int, int) {
	lo := 0
	for j := 0; j < i; j++ {
		lo += len(x.layout(s.Field(j).Type()).Leaves)
	}
	return lo, len(x.layout(s.Field(i).Type()).Leaves)
}

type unsupportedErr struct{ msg string }

func (u unsupportedErr) Error() string { return "unsupported: " + u.msg }
func unsupported(m string) error       { return unsupportedErr{m} }
