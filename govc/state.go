package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"govc/smt"
)

type T = smt.Term

// Val is a symbolic Go value: its flattened leaves, plus the designated
// lvalue when it is a pointer to something other than a whole object.
type Val struct {
	T   types.Type
	L   []*T
	P   *Ptr
	Tup []Val
}

type PKind int

const (
	PObj PKind = iota
	PElem
	PGlobal
	PRaw
)

type Ptr struct {
	Kind PKind
	Root types.Type // type of the object Base designates
	Base *T
	Idx  *T
	G    string
	Lo   int // leaf range of the designated lvalue inside Root
	N    int
	Arr  []*T       // indices into fixed arrays
	T    types.Type // declared type of the lvalue
	Off  int64      // byte offset inside Root, -1 unknown
	View types.Type // reinterpretation through unsafe.Pointer
}

type wrec struct {
	comp string
	base *T // object or array reference, or raw address
	n    *T // raw: number of bytes
}

// State is one symbolic machine state.
type State struct {
	x        *Exec
	path     []*T
	pathSet  map[int]bool
	heap     map[string]*T
	clock    int
	regions  []smt.Region
	wlog     []wrec
	wbase    int
	panics   []panicRec // active panics of deferred calls being run
	notes    []string
	held     map[int]int // locks held: number of times, by address term id
	released []int
	epoch    int // numbers the arbitrary contents of components not read yet
	epochClk int
	// components that are kept between epochs date from this one
	keptEpoch, keptClk int
}

type panicRec struct {
	val       Val
	recovered bool
}

func (st *State) clone() *State {
	n := *st
	n.path = st.path[:len(st.path):len(st.path)]
	n.pathSet = make(map[int]bool, len(st.pathSet)+4)
	for k := range st.pathSet {
		n.pathSet[k] = true
	}
	n.heap = make(map[string]*T, len(st.heap)+2)
	for k, v := range st.heap {
		n.heap[k] = v
	}
	n.regions = st.regions[:len(st.regions):len(st.regions)]
	n.wlog = st.wlog[:len(st.wlog):len(st.wlog)]
	n.panics = append([]panicRec(nil), st.panics...)
	n.notes = st.notes[:len(st.notes):len(st.notes)]
	n.held = make(map[int]int, len(st.held))
	for k, v := range st.held {
		n.held[k] = v
	}
	return &n
}

func (st *State) assume(ts ...*T) {
	for _, t := range ts {
		if t.IsTrue() {
			continue
		}
		if t.Op == smt.OAnd {
			st.assume(t.A...)
			continue
		}
		if st.pathSet[t.ID] {
			continue
		}
		st.pathSet[t.ID] = true
		st.path = append(st.path, t)
	}
}

func (st *State) dead() bool {
	for _, p := range st.path {
		if p.IsFalse() {
			return true
		}
	}
	return false
}

func (st *State) note(s string) { st.notes = append(st.notes, s) }

// comp returns the current value of a heap component.
func (st *State) comp(name string, s *smt.Sort, ref bool) *T {
	if t, ok := st.heap[name]; ok {
		if t.S != s {
			panic(fmt.Sprintf("component %s has sort %s, wanted %s", name, t.S, s))
		}
		return t
	}
	t := st.base(name, s, ref)
	st.x.compSort[name] = compInfo{s, ref}
	return t
}

// base is what a component holds that was neither read nor written yet.
func (st *State) base(name string, s *smt.Sort, ref bool) *T {
	e, clk := st.epoch, st.epochClk
	if e != 0 && st.x.kept(name) {
		e, clk = st.keptEpoch, st.keptClk
	}
	return st.x.C.Base(fmt.Sprintf("%s@%d", name, e), s, name, clk, ref)
}

type compInfo struct {
	s   *smt.Sort
	ref bool
}

func (st *State) setComp(name string, t *T) {
	st.heap[name] = t
}

func (st *State) ghost(name string, s *smt.Sort) *T { return st.comp(name, s, false) }

func (st *State) mem() *T       { return st.comp("M", st.x.memSort(), false) }
func (st *State) setMem(t *T)   { st.setComp("M", t) }
func (st *State) world() *T     { return st.comp("W", st.x.C.U("World"), false) }
func (st *State) setWorld(t *T) { st.setComp("W", t) }

func (x *Exec) memSort() *smt.Sort { return x.C.Arr(smt.BV64, smt.BV8) }

func (st *State) newClock() int { st.clock++; return st.clock }

func (st *State) allocRef(prefix string) *T {
	return st.x.C.AllocRef(prefix, st.newClock())
}

// allocRegion makes a fresh raw memory region of n bytes.
func (st *State) allocRegion(prefix string, n *T) *T { return st.allocRegionMin(prefix, n, 0) }

func (st *State) allocRegionMin(prefix string, n *T, min uint64) *T {
	b := st.newClock()
	p := st.x.C.AllocRef(prefix, b)
	st.x.C.NoteRegion(p, n, min)
	st.regions = append(st.regions, smt.Region{Base: p, Len: n, Birth: b})
	c := st.x.C
	// the region does not wrap and does not start at zero
	st.assume(c.Not(c.Eq(p, c.C64(0))), c.Ult(p, c.C64(1<<47)), c.Ult(n, c.C64(1<<46)))
	return p
}

// ---- leaves of components

func (x *Exec) compName(p *Ptr, leaf Leaf) string {
	switch p.Kind {
	case PObj:
		return "H:" + typeKey(p.Root) + leaf.Path
	case PElem:
		return "E:" + typeKey(p.Root) + leaf.Path
	case PGlobal:
		return "G:" + p.G + leaf.Path
	}
	panic("compName")
}

func (x *Exec) leafCompSort(p *Ptr, leaf Leaf) *smt.Sort {
	switch p.Kind {
	case PObj:
		return x.C.Arr(smt.BV64, leaf.Sort)
	case PElem:
		return x.C.Arr(smt.BV64, x.C.Arr(smt.BV64, leaf.Sort))
	}
	return leaf.Sort
}

func (st *State) readLeaf(p *Ptr, leaf Leaf) *T {
	x := st.x
	c := x.C
	t := st.comp(x.compName(p, leaf), x.leafCompSort(p, leaf), leaf.Ref)
	switch p.Kind {
	case PObj:
		t = c.Select(t, p.Base)
	case PElem:
		t = c.Select(c.Select(t, p.Base), p.Idx)
	}
	for _, i := range p.Arr {
		t = c.Select(t, i)
	}
	return t
}

func (st *State) writeLeaf(p *Ptr, leaf Leaf, v *T) {
	x := st.x
	c := x.C
	name := x.compName(p, leaf)
	cur := st.comp(name, x.leafCompSort(p, leaf), leaf.Ref)
	var put func(a *T, idx []*T) *T
	put = func(a *T, idx []*T) *T {
		if len(idx) == 0 {
			return v
		}
		return c.Store(a, idx[0], put(c.Select(a, idx[0]), idx[1:]))
	}
	var idx []*T
	switch p.Kind {
	case PObj:
		idx = append(idx, p.Base)
	case PElem:
		idx = append(idx, p.Base, p.Idx)
	}
	idx = append(idx, p.Arr...)
	st.setComp(name, put(cur, idx))
	st.wlog = append(st.wlog, wrec{comp: name, base: p.Base})
	if x.onWrite != nil {
		x.onWrite(st, p, leaf)
	}
}

// load reads the lvalue designated by p, with the static type t.
func (x *Exec) load(st *State, p *Ptr, t types.Type) Val {
	if p.Kind == PRaw {
		return x.loadRaw(st, p.Base, t)
	}
	if p.View != nil {
		if v, ok := x.loadView(st, p, t); ok {
			return v
		}
	}
	lay := x.layout(p.Root)
	v := Val{T: t}
	for i := 0; i < p.N; i++ {
		if x.onRead != nil {
			x.onRead(st, p, lay.Leaves[p.Lo+i])
		}
		v.L = append(v.L, st.readLeaf(p, lay.Leaves[p.Lo+i]))
	}
	want := x.layout(t)
	if len(want.Leaves) != len(v.L) {
		panic(unsupported(fmt.Sprintf("load of %s from %s", t, p.T)))
	}
	x.fixPtr(&v, st, false)
	x.typeInv(st, v)
	return v
}

// loadView reads through an unsafe reinterpretation: the leaf at the byte
// offset.
func (x *Exec) loadView(st *State, p *Ptr, t types.Type) (Val, bool) {
	if types.Identical(p.T, t) {
		return Val{}, false
	}
	lay := x.layout(p.Root)
	want := x.layout(t)
	if len(want.Leaves) != 1 {
		panic(unsupported(fmt.Sprintf("reinterpreting load of %s", t)))
	}
	w := want.Leaves[0]
	for _, lf := range lay.Leaves {
		if lf.Off == p.Off && lf.Size == w.Size && lf.Sort == w.Sort {
			return Val{T: t, L: []*T{st.readLeaf(p, lf)}}, true
		}
		if vl, ok := virtualLeaf(lf, p.Off, w.Size); ok {
			cur := st.readLeaf(p, lf)
			return Val{T: t, L: []*T{x.getWord(vl, w.Sort, cur)}}, true
		}
	}
	panic(unsupported(fmt.Sprintf("reinterpreting load at offset %d of %s", p.Off, p.Root)))
}

func (x *Exec) storeView(st *State, p *Ptr, t types.Type, v Val) bool {
	if types.Identical(p.T, t) {
		return false
	}
	lay := x.layout(p.Root)
	w := x.layout(t).Leaves
	if len(w) != 1 {
		panic(unsupported("reinterpreting store of " + t.String()))
	}
	for _, lf := range lay.Leaves {
		if lf.Off == p.Off && lf.Size == w[0].Size && lf.Sort == w[0].Sort {
			st.writeLeaf(p, lf, x.enc(v))
			return true
		}
		if vl, ok := virtualLeaf(lf, p.Off, w[0].Size); ok {
			cur := st.readLeaf(p, lf)
			st.writeLeaf(p, lf, x.setWord(vl, lf.Sort, cur, x.enc(v)))
			return true
		}
	}
	panic(unsupported(fmt.Sprintf("reinterpreting store at offset %d of %s", p.Off, p.Root)))
}

// getWord and setWord read and write a word of such a value; a string's two
// words stand for the string.
func (x *Exec) getWord(vl string, s *smt.Sort, cur *T) *T {
	if cur.Op == smt.OApp && cur.Name == "mkstr" {
		if vl == "str.data" {
			return cur.A[0]
		}
		return cur.A[1]
	}
	return x.C.App("get:"+vl, s, cur)
}

func (x *Exec) setWord(vl string, s *smt.Sort, cur, v *T) *T {
	switch vl {
	case "str.data":
		return x.C.App("mkstr", s, v, x.getWord("str.len", smt.BV64, cur))
	case "str.len":
		return x.C.App("mkstr", s, x.getWord("str.data", smt.BV64, cur), v)
	}
	return x.C.App("set:"+vl, s, cur, v)
}

// virtualLeaf names the machine word of a runtime-represented value.
func virtualLeaf(lf Leaf, off, size int64) (string, bool) {
	if lf.Off < 0 || size != 8 || off < lf.Off || off >= lf.Off+lf.Size {
		return "", false
	}
	d := off - lf.Off
	switch {
	case isNamed(lf.T, "reflect", "Value") && d == 8:
		return "rv.ptr", true
	case lf.Sort.Name == "Str" && d == 0:
		return "str.data", true
	case lf.Sort.Name == "Str" && d == 8:
		return "str.len", true
	case lf.Sort.Name == "Iface" && d == 0:
		return "eface.typ", true
	case lf.Sort.Name == "Iface" && d == 8:
		return "eface.data", true
	case lf.Sort.Name == "RType" && d == 0:
		return "rtype.itab", true
	case lf.Sort.Name == "RType" && d == 8:
		return "rtype.data", true
	}
	return "", false
}

func (x *Exec) store(st *State, p *Ptr, t types.Type, v Val) {
	if p.Kind == PRaw {
		x.storeRaw(st, p.Base, t, v)
		return
	}
	if p.View != nil && x.storeView(st, p, t, v) {
		return
	}
	lay := x.layout(p.Root)
	if p.N != len(v.L) {
		panic(unsupported(fmt.Sprintf("store of %s into %s", v.T, p.T)))
	}
	if v.P != nil && len(v.L) == 1 {
		v.L = []*T{x.enc(v)}
	}
	for i := 0; i < p.N; i++ {
		st.writeLeaf(p, lay.Leaves[p.Lo+i], v.L[i])
	}
}

// ---- raw memory

func (x *Exec) loadBytes(m, addr *T, n int) *T {
	c := x.C
	r := c.Select(m, addr)
	for i := 1; i < n; i++ {
		r = c.Concat(c.Select(m, c.Add(addr, c.C64(uint64(i)))), r)
	}
	return r
}

func (x *Exec) loadRaw(st *State, addr *T, t types.Type) Val {
	lay := x.layout(t)
	v := Val{T: t}
	for _, lf := range lay.Leaves {
		if lf.Off < 0 || lf.Sort.K != smt.KBV || lf.Nest > 0 {
			panic(unsupported("raw load of " + t.String()))
		}
		v.L = append(v.L, x.loadBytes(st.mem(), x.C.Add(addr, x.C.C64(uint64(lf.Off))), int(lf.Size)))
	}
	x.fixPtr(&v, st, false)
	return v
}

func (x *Exec) storeRaw(st *State, addr *T, t types.Type, v Val) {
	lay := x.layout(t)
	c := x.C
	m := st.mem()
	for i, lf := range lay.Leaves {
		if lf.Off < 0 || lf.Sort.K != smt.KBV || lf.Nest > 0 {
			panic(unsupported("raw store of " + t.String()))
		}
		a := c.Add(addr, c.C64(uint64(lf.Off)))
		val := v.L[i]
		if v.P != nil {
			val = x.enc(v)
		}
		for k := 0; k < int(lf.Size); k++ {
			m = c.Store(m, c.Add(a, c.C64(uint64(k))), c.Extract(val, 8*k+7, 8*k))
		}
		st.wlog = append(st.wlog, wrec{comp: "M", base: a, n: c.C64(uint64(lf.Size))})
	}
	st.setMem(m)
}

// ---- pointers as terms

// enc is the machine word of a pointer value.
func (x *Exec) enc(v Val) *T {
	if v.P == nil {
		return v.L[0]
	}
	c := x.C
	p := v.P
	var t *T
	switch p.Kind {
	case PRaw:
		return p.Base
	case PObj:
		if len(p.Arr) == 0 && p.Off == 0 {
			return p.Base
		}
		if len(p.Arr) == 0 && p.Off > 0 && p.Base.Alloc > 0 {
			return c.Add(p.Base, c.C64(uint64(p.Off)))
		}
		t = c.App(fmt.Sprintf("fieldaddr:%s:%d:%d", typeKey(p.Root), p.Lo, p.N), smt.BV64, append([]*T{p.Base}, p.Arr...)...)
	case PElem:
		t = c.App(fmt.Sprintf("elemaddr:%s:%d:%d", typeKey(p.Root), p.Lo, p.N), smt.BV64, append([]*T{p.Base, p.Idx}, p.Arr...)...)
	case PGlobal:
		t = c.App(fmt.Sprintf("gaddr:%s:%d", p.G, p.Lo), smt.BV64)
	}
	if t.Op == smt.OApp {
		cp := *p
		cp.View = nil
		x.interior[t.ID] = &cp
	}
	return t
}

// decodePtr turns a machine word into an lvalue of type elem.
func (x *Exec) decodePtr(t *T, elem types.Type, forceObj bool) *Ptr {
	if p, ok := x.interior[t.ID]; ok {
		q := *p
		if !types.Identical(q.T, elem) {
			q.View = elem
		}
		return &q
	}
	if isRaw(elem) {
		return &Ptr{Kind: PRaw, Base: t, T: elem}
	}
	if at, ok := x.allocType[t.ID]; ok {
		p := &Ptr{Kind: PObj, Root: at, Base: t, N: len(x.layout(at).Leaves), T: at}
		if !types.Identical(at, elem) {
			p.View = elem
		}
		return p
	}
	if t.Op == smt.OAdd && len(t.A) == 2 && t.A[1].Op == smt.OBV && t.A[0].Alloc > 0 {
		if at, ok := x.allocType[t.A[0].ID]; ok {
			return &Ptr{Kind: PObj, Root: at, Base: t.A[0], N: len(x.layout(at).Leaves), T: at, Off: int64(t.A[1].V), View: elem}
		}
	}
	if b, ok := elem.Underlying().(*types.Basic); ok && !forceObj && b.Info()&types.IsInteger != 0 {
		return &Ptr{Kind: PRaw, Base: t, T: elem}
	}
	return &Ptr{Kind: PObj, Root: elem, Base: t, N: len(x.layout(elem).Leaves), T: elem}
}

// fixPtr attaches lvalue information to a freshly read pointer value.
func (x *Exec) fixPtr(v *Val, st *State, forceObj bool) {
	if v.T == nil || len(v.L) != 1 || v.P != nil {
		return
	}
	pt, ok := v.T.Underlying().(*types.Pointer)
	if !ok {
		return
	}
	v.P = x.decodePtr(v.L[0], pt.Elem(), forceObj)
	if v.P.Kind == PObj && v.P.Off == 0 && len(v.P.Arr) == 0 && v.P.View == nil {
		v.P.Base = v.L[0]
	}
}

// typeInv assumes what the Go runtime guarantees about every value of the type.
func (x *Exec) typeInv(st *State, v Val) {
	lay := x.layout(v.T)
	for i, lf := range lay.Leaves {
		t := v.L[i]
		if lf.Nest > 0 || t.HasBound() {
			continue
		}
		switch {
		case strings.HasSuffix(lf.Path, ".#len"):
			// next leaf is cap
			c := x.C
			if i+1 < len(v.L) && !(t.IsConst() && v.L[i+1].IsConst()) {
				cp := v.L[i+1]
				st.assume(c.Ule(t, cp), c.Ult(cp, c.C64(1<<46)))
			}
			if strings.HasSuffix(lay.Leaves[i-1].Path, ".#off") {
				st.assume(c.Ult(v.L[i-1], c.C64(1<<46)))
				if n := v.L[i+1]; !n.IsConst() || n.V != 0 {
					// a nil array holds no elements
					st.assume(c.Imp(c.Eq(v.L[i-2], c.C64(0)), c.Eq(n, c.C64(0))))
				}
			}
		}
	}
}

// ---- constants

func (x *Exec) zeroLeaf(s *smt.Sort) *T {
	c := x.C
	switch s.K {
	case smt.KBool:
		return c.False
	case smt.KBV:
		return c.BVC(0, s.W)
	case smt.KArr:
		return c.ConstArr(s, x.zeroLeaf(s.Rng))
	case smt.KUn:
		switch s.Name {
		case "Str":
			return x.strLit("")
		case "Iface":
			return x.nilIface()
		}
		return c.App("lit:nil"+s.Name, s)
	}
	panic("zeroLeaf " + s.String())
}

func (x *Exec) strLit(s string) *T { return x.C.App("lit:S:"+s, x.C.U("Str")) }
func (x *Exec) nilIface() *T       { return x.C.App("lit:nilIface", x.C.U("Iface")) }
func (x *Exec) nilFn() *T          { return x.C.App("lit:nilFn", x.C.U("Fn")) }
func (x *Exec) nilRType() *T       { return x.C.App("lit:nilRType", x.C.U("RType")) }

func (x *Exec) zero(t types.Type) Val {
	v := Val{T: t}
	for _, lf := range x.layout(t).Leaves {
		v.L = append(v.L, x.zeroLeaf(lf.Sort))
	}
	if _, ok := t.Underlying().(*types.Pointer); ok {
		x.fixPtr(&v, nil, false)
	}
	return v
}

// fresh makes an arbitrary value of the type.
func (x *Exec) freshVal(st *State, prefix string, t types.Type) Val {
	if tup, ok := t.(*types.Tuple); ok {
		v := Val{T: t}
		for i := 0; i < tup.Len(); i++ {
			v.Tup = append(v.Tup, x.freshVal(st, fmt.Sprintf("%s.%d", prefix, i), tup.At(i).Type()))
		}
		return v
	}
	v := Val{T: t}
	for _, lf := range x.layout(t).Leaves {
		v.L = append(v.L, x.C.FreshBase(prefix+lf.Path, lf.Sort, prefix+lf.Path, st.clock, lf.Ref))
	}
	x.fixPtr(&v, st, false)
	x.typeInv(st, v)
	return v
}

// ---- interfaces

func (x *Exec) rtypeLit(t types.Type) *T {
	k := typeKey(t)
	x.litTypes["lit:T:"+k] = t
	return x.C.App("lit:T:"+k, x.C.U("RType"))
}

func (x *Exec) typeOf(i *T) *T { return x.C.App("typeof", x.C.U("RType"), i) }

// box makes an interface value.
func (x *Exec) box(v Val) *T {
	if isNamed(v.T, "reflect", "Type") {
		return x.C.App("ifaceOfType", x.C.U("Iface"), v.L[0])
	}
	if _, ok := v.T.Underlying().(*types.Interface); ok {
		return v.L[0]
	}
	ls := v.L
	if v.P != nil && len(ls) == 1 {
		ls = []*T{x.enc(v)}
	}
	k := "mk:" + typeKey(v.T)
	x.boxTypes[k] = v.T
	return x.C.App(k, x.C.U("Iface"), ls...)
}

// unbox extracts a concrete value (its type must have been established).
func (x *Exec) unbox(st *State, i *T, t types.Type) Val {
	v := Val{T: t}
	k := "mk:" + typeKey(t)
	x.boxTypes[k] = t
	for n, lf := range x.layout(t).Leaves {
		x.regUnbox(n, t, lf.Sort)
		v.L = append(v.L, x.C.App(fmt.Sprintf("un:%d:%s", n, typeKey(t)), lf.Sort, i))
	}
	x.fixPtr(&v, st, false)
	x.typeInv(st, v)
	return v
}

func (x *Exec) regUnbox(n int, t types.Type, srt *smt.Sort) {
	name := fmt.Sprintf("un:%d:%s", n, typeKey(t))
	if _, ok := x.C.Rewrite[name]; ok {
		return
	}
	mk := "mk:" + typeKey(t)
	x.C.Rewrite[name] = func(c *smt.Ctx, a []*T) *T {
		if a[0].Op == smt.OApp && a[0].Name == mk {
			return a[0].A[n]
		}
		if a[0].Op == smt.OIte {
			return c.Ite(a[0].A[0], c.App(name, srt, a[0].A[1]), c.App(name, srt, a[0].A[2]))
		}
		return nil
	}
}

func (x *Exec) isNilIface(i *T) *T {
	c := x.C
	if i.Op == smt.OApp {
		if strings.HasPrefix(i.Name, "mk:") || strings.HasPrefix(i.Name, "nonnil:") {
			return c.False
		}
		if i.Name == "ifaceOfType" {
			return c.Eq(i.A[0], x.nilRType())
		}
	}
	if i.Op == smt.OIte {
		return c.Ite(i.A[0], x.isNilIface(i.A[1]), x.isNilIface(i.A[2]))
	}
	return c.Eq(i, x.nilIface())
}

func sortedKeys(m map[string]*T) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}
