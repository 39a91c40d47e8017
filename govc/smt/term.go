// Package smt holds the term language of govc: hash-consed, simplified on
// construction, with array reads pushed through array writes, so that the
// formulas handed to the solvers are quantifier free and read only from base
// arrays.
package smt

import (
	"fmt"
	"math/bits"
	"sort"
	"strconv"
	"strings"
)

type SortKind uint8

const (
	KBool SortKind = iota
	KInt
	KBV
	KUn
	KArr
)

type Sort struct {
	K        SortKind
	W        int
	Name     string
	Dom, Rng *Sort
	str      string
}

func (s *Sort) String() string { return s.str }

var (
	Bool = &Sort{K: KBool, str: "Bool"}
	Int  = &Sort{K: KInt, str: "Int"}
	bvs  [129]*Sort
	BV8  *Sort
	BV16 *Sort
	BV32 *Sort
	BV64 *Sort
)

func init() {
	for i := 1; i <= 128; i++ {
		bvs[i] = &Sort{K: KBV, W: i, str: fmt.Sprintf("(_ BitVec %d)", i)}
	}
	BV8, BV16, BV32, BV64 = bvs[8], bvs[16], bvs[32], bvs[64]
}

func BV(w int) *Sort { return bvs[w] }

type Op uint8

const (
	OTrue Op = iota
	OFalse
	OVar   // free constant
	OBound // bound variable
	OBV    // bit-vector literal
	OIntC
	ONot
	OAnd
	OOr
	OIte
	OEq
	OAdd // n-ary, linear normal form
	OMul
	OUdiv
	OUrem
	OSdiv
	OSrem
	OBAnd
	OBOr
	OBXor
	OBNot
	OShl
	OLshr
	OAshr
	OUlt
	OUle
	OSlt
	OSle
	OConcat
	OExtract // hi in P1, lo in P2
	OZExt
	OSExt
	OILe // Int <=
	OILt
	OSelect
	OStore
	OCpy   // dst, doff, src, soff, n : array
	OMerge // boundvar, cond, a, b: lambda x. cond(x) ? a[x] : b[x]
	OConstArr
	OLam // boundvar, body : array
	OApp
	OForall // boundvar, body
)

type Term struct {
	ID   int
	Op   Op
	S    *Sort
	Name string
	V    uint64
	P1   int
	P2   int
	A    []*Term

	// meta data of base constants
	Alloc int    // >0: address of the allocation with that birth number
	Clock int    // every reference read out of this constant was born at or before Clock (-1: unknown)
	Fam   string // component family
	Ref   bool   // elements (or the constant itself) are references
	free  int8   // 0 unknown, 1 has bound vars, 2 none
	hasQ  int8
}

type Ctx struct {
	canon   map[int]*Term
	qheight map[int]int
	tab     map[string]*Term
	n       int
	fresh   int
	uns     map[string]*Sort
	arrs    map[[2]*Sort]*Sort
	True    *Term
	False   *Term
	Rewrite map[string]func(c *Ctx, args []*Term) *Term
	AppSort map[string]*Sort
	Rec     map[string]func(c *Ctx, args []*Term) *Term
	// Facts produces extra ground facts about an application term
	AppFacts map[string]func(c *Ctx, t *Term) []*Term
	kb       strings.Builder
	nskol    int
	// Regs: known facts about fresh raw regions, by the id of their base
	Regs map[int]*RegInfo
}

// RegInfo describes a fresh raw region: at least Min bytes long.
type RegInfo struct {
	Base, Len *Term
	Min       uint64
}

// NoteRegion records a fresh raw region of the given length.
func (c *Ctx) NoteRegion(base, n *Term, min uint64) {
	if n.Op == OBV && n.V > min {
		min = n.V
	}
	c.Regs[base.ID] = &RegInfo{base, n, min}
}

// regionOf splits an address into region base + constant.
func (c *Ctx) regionOf(t *Term) (*RegInfo, uint64) {
	if t.Op == OVar {
		return c.Regs[t.ID], 0
	}
	if t.Op == OAdd && len(t.A) == 2 && t.A[1].Op == OBV {
		return c.Regs[t.A[0].ID], t.A[1].V
	}
	return nil, 0
}

// apart says that the two addresses are surely different: in different fresh
// regions, or one older than the region of the other.
func (c *Ctx) apart(a, b *Term, wb uint64) bool {
	// b .. b+wb-1 is inside a region
	rb, kb := c.regionOf(b)
	if rb == nil || kb+wb > rb.Min || kb > rb.Min {
		return false
	}
	if ra, ka := c.regionOf(a); ra != nil {
		return ra != rb && ka < ra.Min
	}
	k := refClock(a)
	return k >= 0 && k < rb.Base.Alloc
}

func NewCtx() *Ctx {
	c := &Ctx{tab: map[string]*Term{}, uns: map[string]*Sort{}, arrs: map[[2]*Sort]*Sort{},
		Rewrite: map[string]func(*Ctx, []*Term) *Term{}, AppSort: map[string]*Sort{},
		Rec: map[string]func(*Ctx, []*Term) *Term{}, AppFacts: map[string]func(*Ctx, *Term) []*Term{}, Regs: map[int]*RegInfo{}}
	c.True = c.mk(&Term{Op: OTrue, S: Bool})
	c.False = c.mk(&Term{Op: OFalse, S: Bool})
	return c
}

func (c *Ctx) U(name string) *Sort {
	if s, ok := c.uns[name]; ok {
		return s
	}
	s := &Sort{K: KUn, Name: name, str: name}
	c.uns[name] = s
	return s
}

func (c *Ctx) Arr(d, r *Sort) *Sort {
	k := [2]*Sort{d, r}
	if s, ok := c.arrs[k]; ok {
		return s
	}
	s := &Sort{K: KArr, Dom: d, Rng: r, str: "(Array " + d.str + " " + r.str + ")"}
	c.arrs[k] = s
	return s
}

func (c *Ctx) mk(t *Term) *Term {
	b := &c.kb
	b.Reset()
	b.WriteByte(byte(t.Op) + 33)
	switch t.Op {
	case OVar, OBound, OApp:
		b.WriteString(t.Name)
		b.WriteByte('|')
		b.WriteString(t.S.str)
	case OBV, OIntC:
		b.WriteString(strconv.FormatUint(t.V, 16))
		b.WriteByte('|')
		b.WriteString(t.S.str)
	case OExtract, OZExt, OSExt:
		b.WriteString(strconv.Itoa(t.P1))
		b.WriteByte(',')
		b.WriteString(strconv.Itoa(t.P2))
	case OConstArr:
		b.WriteString(t.S.str)
	}
	for _, a := range t.A {
		b.WriteByte(';')
		b.WriteString(strconv.Itoa(a.ID))
	}
	k := b.String()
	if o, ok := c.tab[k]; ok {
		return o
	}
	c.n++
	t.ID = c.n
	c.tab[k] = t
	return t
}

// ---- constants

func (c *Ctx) B(b bool) *Term {
	if b {
		return c.True
	}
	return c.False
}

func mask(w int) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << uint(w)) - 1
}

func (c *Ctx) BVC(v uint64, w int) *Term {
	return c.mk(&Term{Op: OBV, S: BV(w), V: v & mask(w)})
}
func (c *Ctx) C64(v uint64) *Term { return c.BVC(v, 64) }
func (c *Ctx) IntC(v int64) *Term { return c.mk(&Term{Op: OIntC, S: Int, V: uint64(v)}) }

func (c *Ctx) Var(name string, s *Sort) *Term {
	return c.mk(&Term{Op: OVar, S: s, Name: name, Clock: -1})
}

// Base makes (or finds) a named constant with meta data.
func (c *Ctx) Base(name string, s *Sort, fam string, clock int, ref bool) *Term {
	t := c.Var(name, s)
	if t.Fam == "" {
		t.Fam, t.Clock, t.Ref = fam, clock, ref
	}
	return t
}

func (c *Ctx) Fresh(prefix string, s *Sort) *Term {
	c.fresh++
	return c.Var(fmt.Sprintf("%s!%d", prefix, c.fresh), s)
}

func (c *Ctx) FreshBase(prefix string, s *Sort, fam string, clock int, ref bool) *Term {
	c.fresh++
	return c.Base(fmt.Sprintf("%s!%d", prefix, c.fresh), s, fam, clock, ref)
}

// AllocRef makes the address of a new allocation.
func (c *Ctx) AllocRef(prefix string, birth int) *Term {
	c.fresh++
	t := c.Var(fmt.Sprintf("%s@%d!%d", prefix, birth, c.fresh), BV64)
	t.Alloc = birth
	t.Clock = birth
	return t
}

func (c *Ctx) Bound(prefix string, s *Sort) *Term {
	c.fresh++
	return c.mk(&Term{Op: OBound, S: s, Name: fmt.Sprintf("%s?%d", prefix, c.fresh)})
}

func (t *Term) IsConst() bool { return t.Op == OBV || t.Op == OTrue || t.Op == OFalse || t.Op == OIntC }
func (t *Term) IsTrue() bool  { return t.Op == OTrue }
func (t *Term) IsFalse() bool { return t.Op == OFalse }

// HasBound says whether the term contains bound variables (free in it or not).
func (t *Term) HasBound() bool {
	if t.free == 0 {
		t.free = 2
		if t.Op == OBound {
			t.free = 1
		}
		for _, a := range t.A {
			if a.HasBound() {
				t.free = 1
				break
			}
		}
	}
	return t.free == 1
}

func (t *Term) HasQuant() bool {
	if t.hasQ == 0 {
		t.hasQ = 2
		if t.Op == OForall {
			t.hasQ = 1
		}
		for _, a := range t.A {
			if a.HasQuant() {
				t.hasQ = 1
				break
			}
		}
	}
	return t.hasQ == 1
}

// ---- boolean

func (c *Ctx) Not(a *Term) *Term {
	switch a.Op {
	case OTrue:
		return c.False
	case OFalse:
		return c.True
	case ONot:
		return a.A[0]
	}
	return c.mk(&Term{Op: ONot, S: Bool, A: []*Term{a}})
}

func (c *Ctx) And(xs ...*Term) *Term { return c.nary(OAnd, xs) }
func (c *Ctx) Or(xs ...*Term) *Term  { return c.nary(OOr, xs) }

func (c *Ctx) nary(op Op, xs []*Term) *Term {
	unit, zero := c.True, c.False
	if op == OOr {
		unit, zero = c.False, c.True
	}
	var out []*Term
	seen := map[int]bool{}
	var add func(x *Term) bool
	add = func(x *Term) bool {
		if x == unit {
			return true
		}
		if x == zero {
			return false
		}
		if x.Op == op {
			for _, y := range x.A {
				if !add(y) {
					return false
				}
			}
			return true
		}
		if seen[x.ID] {
			return true
		}
		if x.Op == ONot && seen[x.A[0].ID] {
			return false
		}
		if n, ok := c.findNot(x); ok && seen[n] {
			return false
		}
		seen[x.ID] = true
		out = append(out, x)
		return true
	}
	for _, x := range xs {
		if x.S != Bool {
			panic("nary on non bool " + x.String())
		}
		if !add(x) {
			return zero
		}
	}
	switch len(out) {
	case 0:
		return unit
	case 1:
		return out[0]
	}
	sort.Slice(out, func(i, j int) bool { return out[i].ID < out[j].ID })
	return c.mk(&Term{Op: op, S: Bool, A: out})
}

func (c *Ctx) findNot(x *Term) (int, bool) {
	if x.Op == ONot {
		return x.A[0].ID, true
	}
	k := string([]byte{byte(ONot) + 33}) + ";" + strconv.Itoa(x.ID)
	if t, ok := c.tab[k]; ok {
		return t.ID, true
	}
	return 0, false
}

func (c *Ctx) Imp(a, b *Term) *Term { return c.Or(c.Not(a), b) }

func (c *Ctx) Ite(g, a, b *Term) *Term {
	if g.Op == OTrue {
		return a
	}
	if g.Op == OFalse {
		return b
	}
	if a == b {
		return a
	}
	if a.S != b.S {
		panic(fmt.Sprintf("ite sorts %s %s: %s / %s", a.S, b.S, a, b))
	}
	if g.Op == ONot {
		return c.Ite(g.A[0], b, a)
	}
	if a.S == Bool {
		if a.Op == OTrue {
			return c.Or(g, b)
		}
		if a.Op == OFalse {
			return c.And(c.Not(g), b)
		}
		if b.Op == OTrue {
			return c.Or(c.Not(g), a)
		}
		if b.Op == OFalse {
			return c.And(g, a)
		}
	}
	if a.Op == OIte && a.A[0] == g {
		a = a.A[1]
	}
	if b.Op == OIte && b.A[0] == g {
		b = b.A[2]
	}
	if a == b {
		return a
	}
	return c.mk(&Term{Op: OIte, S: a.S, A: []*Term{g, a, b}})
}

// refClock: latest birth a reference term can have, or -1 when unknown.
func refClock(t *Term) int {
	switch t.Op {
	case OVar:
		if t.Alloc > 0 {
			return t.Alloc
		}
		if t.Ref || t.Clock >= 0 {
			return t.Clock
		}
		return -1
	case OBV:
		if t.V == 0 {
			return 0
		}
		return -1
	case OSelect:
		b := t.A[0]
		for b.Op == OSelect {
			b = b.A[0]
		}
		if b.Op == OVar && b.Ref {
			return b.Clock
		}
		return -1
	case OIte:
		x, y := refClock(t.A[1]), refClock(t.A[2])
		if x < 0 || y < 0 {
			return -1
		}
		if x > y {
			return x
		}
		return y
	}
	return -1
}

// RefClock exports refClock.
func RefClock(t *Term) int { return refClock(t) }

func (c *Ctx) Eq(a, b *Term) *Term {
	if a == b {
		return c.True
	}
	if a.S != b.S {
		panic(fmt.Sprintf("eq sorts %s %s: %s = %s", a.S, b.S, a, b))
	}
	if a.IsConst() && b.IsConst() {
		return c.False
	}
	if a.S == Bool {
		if b.IsConst() {
			a, b = b, a
		}
		if a.Op == OTrue {
			return b
		}
		if a.Op == OFalse {
			return c.Not(b)
		}
		if a.Op == ONot && b.Op == ONot {
			return c.Eq(a.A[0], b.A[0])
		}
		if (a.Op == ONot && a.A[0] == b) || (b.Op == ONot && b.A[0] == a) {
			return c.False
		}
	}
	if a.S.K == KBV {
		if a.Alloc > 0 {
			if k := refClock(b); k >= 0 && (k < a.Alloc || b.Alloc > 0) {
				return c.False
			}
		}
		if b.Alloc > 0 {
			if k := refClock(a); k >= 0 && (k < b.Alloc || a.Alloc > 0) {
				return c.False
			}
		}
		if len(c.Regs) > 0 && a.S == BV64 && (c.apart(a, b, 1) || c.apart(b, a, 1)) {
			return c.False
		}
		for k := 0; k < 2; k++ {
			p, q := a, b
			if k == 1 {
				p, q = b, a
			}
			if q.Op == OIte && (p.Op == OBV || p.Alloc > 0) {
				l, r := c.Eq(p, q.A[1]), c.Eq(p, q.A[2])
				if l.IsTrue() || l.IsFalse() || r.IsTrue() || r.IsFalse() {
					return c.Ite(q.A[0], l, r)
				}
			}
		}
		la, lb := c.lin(a), c.lin(b)
		d := la.sub(lb)
		if len(d.at) == 0 {
			return c.B(d.k == 0)
		}
		if len(d.at) == 1 {
			for id, co := range d.at {
				x := la.terms[id]
				if x == nil {
					x = lb.terms[id]
				}
				if co == 1 {
					return c.eqRaw(x, c.BVC(-d.k, a.S.W))
				}
				if co == mask(a.S.W) {
					return c.eqRaw(x, c.BVC(d.k, a.S.W))
				}
			}
		}
		// concat against constant / concat
		if a.Op == OConcat && b.Op == OConcat && a.A[0].S == b.A[0].S {
			return c.And(c.Eq(a.A[0], b.A[0]), c.Eq(a.A[1], b.A[1]))
		}
		// push a common shift out: x+k1 = y+k2 normalised
		if len(d.at) == 2 {
			var pos, neg *Term
			ok := true
			for id, co := range d.at {
				x := la.terms[id]
				if x == nil {
					x = lb.terms[id]
				}
				switch co {
				case 1:
					pos = x
				case mask(a.S.W):
					neg = x
				default:
					ok = false
				}
			}
			if ok && pos != nil && neg != nil && d.k == 0 {
				return c.eqRaw(pos, neg)
			}
		}
	}
	return c.eqRaw(a, b)
}

func (c *Ctx) eqRaw(a, b *Term) *Term {
	if a == b {
		return c.True
	}
	if a.IsConst() && b.IsConst() {
		return c.False
	}
	if a.Op == OZExt && b.Op == OBV {
		w := a.A[0].S.W
		if b.V&^mask(w) != 0 {
			return c.False
		}
		return c.eqRaw(a.A[0], c.BVC(b.V, w))
	}
	if b.Op == OZExt && a.Op == OBV {
		return c.eqRaw(b, a)
	}
	if a.Op == OConcat && b.Op == OBV {
		w := a.A[1].S.W
		return c.And(c.Eq(a.A[0], c.BVC(b.V>>uint(w), a.A[0].S.W)), c.Eq(a.A[1], c.BVC(b.V, w)))
	}
	if b.Op == OConcat && a.Op == OBV {
		return c.eqRaw(b, a)
	}
	if a.Op == OIte && (b.IsConst() || b.Op == OVar) && (a.A[1].IsConst() || a.A[1] == b || a.A[2] == b || a.A[2].IsConst()) && a.S != Bool {
		return c.Ite(a.A[0], c.Eq(a.A[1], b), c.Eq(a.A[2], b))
	}
	if b.Op == OIte && (a.IsConst() || a.Op == OVar) && (b.A[1].IsConst() || b.A[1] == a || b.A[2] == a || b.A[2].IsConst()) && a.S != Bool {
		return c.Ite(b.A[0], c.Eq(b.A[1], a), c.Eq(b.A[2], a))
	}
	// constructors of uninterpreted sorts
	if a.Op == OApp && b.Op == OApp {
		ka, kb := ctorClass(a.Name), ctorClass(b.Name)
		if ka != 0 && kb != 0 {
			if a.Name == b.Name && (ka == 'm' || ka == 'v') && len(a.A) == len(b.A) {
				r := c.True
				for i := range a.A {
					r = c.And(r, c.Eq(a.A[i], b.A[i]))
				}
				return r
			}
			if a.Name != b.Name {
				switch {
				case ka == 'l' && kb == 'l':
					return c.False
				case ka == 'l' && strings.HasPrefix(a.Name, "lit:nil"), kb == 'l' && strings.HasPrefix(b.Name, "lit:nil"):
					return c.False
				case ka == kb && (ka == 'm' || ka == 'v' || ka == 'f'):
					return c.False
				}
			}
		}
	}
	if a.ID > b.ID {
		a, b = b, a
	}
	return c.mk(&Term{Op: OEq, S: Bool, A: []*Term{a, b}})
}

// ctorClass classifies the applications that build values: l literal, m boxed
// interface, v reflect.Value, f function, n non-nil interface, t type.
func ctorClass(n string) byte {
	switch {
	case strings.HasPrefix(n, "lit:"):
		return 'l'
	case strings.HasPrefix(n, "mk:"):
		return 'm'
	case n == "rv" || n == "loc":
		return 'v'
	case strings.HasPrefix(n, "fn:") || strings.HasPrefix(n, "clo:"):
		return 'f'
	case strings.HasPrefix(n, "nonnil:"):
		return 'n'
	case n == "funcOf" || n == "ptrTo":
		return 't'
	}
	return 0
}

// ---- linear bit-vector arithmetic

type lin struct {
	w     int
	at    map[int]uint64
	terms map[int]*Term
	k     uint64
}

func (c *Ctx) lin(t *Term) *lin {
	l := &lin{w: t.S.W, at: map[int]uint64{}, terms: map[int]*Term{}}
	l.add(t, 1)
	return l
}

func (l *lin) add(t *Term, co uint64) {
	m := mask(l.w)
	switch t.Op {
	case OBV:
		l.k = (l.k + t.V*co) & m
	case OAdd:
		for _, a := range t.A {
			l.add(a, co)
		}
	case OMul:
		if t.A[0].Op == OBV {
			l.add(t.A[1], co*t.A[0].V)
			return
		}
		fallthrough
	default:
		n := (l.at[t.ID] + co) & m
		l.terms[t.ID] = t
		if n == 0 {
			delete(l.at, t.ID)
		} else {
			l.at[t.ID] = n
		}
	}
}

func (l *lin) sub(o *lin) *lin {
	r := &lin{w: l.w, at: map[int]uint64{}, terms: map[int]*Term{}, k: (l.k - o.k) & mask(l.w)}
	for id, co := range l.at {
		r.at[id] = co
		r.terms[id] = l.terms[id]
	}
	for id, co := range o.at {
		n := (r.at[id] - co) & mask(l.w)
		r.terms[id] = o.terms[id]
		if n == 0 {
			delete(r.at, id)
		} else {
			r.at[id] = n
		}
	}
	return r
}

func (c *Ctx) fromLin(l *lin) *Term {
	ids := make([]int, 0, len(l.at))
	for id := range l.at {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	var out []*Term
	for _, id := range ids {
		co := l.at[id]
		x := l.terms[id]
		if co != 1 {
			x = c.mk(&Term{Op: OMul, S: BV(l.w), A: []*Term{c.BVC(co, l.w), x}})
		}
		out = append(out, x)
	}
	if l.k != 0 || len(out) == 0 {
		out = append(out, c.BVC(l.k, l.w))
	}
	if len(out) == 1 {
		return out[0]
	}
	return c.mk(&Term{Op: OAdd, S: BV(l.w), A: out})
}

func (c *Ctx) Add(a, b *Term) *Term {
	if a.S == Int {
		if a.IsConst() && b.IsConst() {
			return c.IntC(int64(a.V) + int64(b.V))
		}
		return c.mk(&Term{Op: OAdd, S: Int, A: []*Term{a, b}})
	}
	l := c.lin(a)
	l.add(b, 1)
	return c.fromLin(l)
}
func (c *Ctx) Sub(a, b *Term) *Term {
	l := c.lin(a)
	l.add(b, mask(a.S.W))
	return c.fromLin(l)
}
func (c *Ctx) Neg(a *Term) *Term { return c.Sub(c.BVC(0, a.S.W), a) }

func (c *Ctx) Mul(a, b *Term) *Term {
	if b.Op == OBV {
		a, b = b, a
	}
	if a.Op == OBV {
		if b.Op == OBV {
			return c.BVC(a.V*b.V, a.S.W)
		}
		l := &lin{w: a.S.W, at: map[int]uint64{}, terms: map[int]*Term{}}
		l.add(b, a.V)
		return c.fromLin(l)
	}
	if a.ID > b.ID {
		a, b = b, a
	}
	return c.mk(&Term{Op: OMul, S: a.S, A: []*Term{a, b}})
}

func sx(v uint64, w int) int64 {
	if w >= 64 {
		return int64(v)
	}
	return int64(v<<uint(64-w)) >> uint(64-w)
}

func (c *Ctx) bin(op Op, a, b *Term, f func(x, y uint64) (uint64, bool)) *Term {
	if a.Op == OBV && b.Op == OBV && f != nil {
		if v, ok := f(a.V, b.V); ok {
			return c.BVC(v, a.S.W)
		}
	}
	return c.mk(&Term{Op: op, S: a.S, A: []*Term{a, b}})
}

func (c *Ctx) Udiv(a, b *Term) *Term {
	return c.bin(OUdiv, a, b, func(x, y uint64) (uint64, bool) {
		if y == 0 {
			return 0, false
		}
		return x / y, true
	})
}
func (c *Ctx) Urem(a, b *Term) *Term {
	return c.bin(OUrem, a, b, func(x, y uint64) (uint64, bool) {
		if y == 0 {
			return 0, false
		}
		return x % y, true
	})
}
func (c *Ctx) Sdiv(a, b *Term) *Term {
	w := a.S.W
	return c.bin(OSdiv, a, b, func(x, y uint64) (uint64, bool) {
		if y == 0 || sx(y, w) == -1 {
			return 0, false
		}
		return uint64(sx(x, w) / sx(y, w)), true
	})
}
func (c *Ctx) Srem(a, b *Term) *Term {
	w := a.S.W
	return c.bin(OSrem, a, b, func(x, y uint64) (uint64, bool) {
		if y == 0 || sx(y, w) == -1 {
			return 0, false
		}
		return uint64(sx(x, w) % sx(y, w)), true
	})
}

func (c *Ctx) BAnd(a, b *Term) *Term {
	if a == b {
		return a
	}
	if b.Op == OBV {
		a, b = b, a
	}
	w := a.S.W
	if a.Op == OBV {
		if b.Op == OBV {
			return c.BVC(a.V&b.V, w)
		}
		if a.V == 0 {
			return a
		}
		if a.V == mask(w) {
			return b
		}
		// low mask: zext(extract)
		if n := bits.Len64(a.V); a.V == mask(n) && n < w {
			return c.ZExt(c.Extract(b, n-1, 0), w)
		}
	}
	if a.ID > b.ID {
		a, b = b, a
	}
	return c.mk(&Term{Op: OBAnd, S: a.S, A: []*Term{a, b}})
}
func (c *Ctx) BOr(a, b *Term) *Term {
	if a == b {
		return a
	}
	if b.Op == OBV {
		a, b = b, a
	}
	if a.Op == OBV {
		if b.Op == OBV {
			return c.BVC(a.V|b.V, a.S.W)
		}
		if a.V == 0 {
			return b
		}
		if a.V == mask(a.S.W) {
			return a
		}
	}
	if a.ID > b.ID {
		a, b = b, a
	}
	return c.mk(&Term{Op: OBOr, S: a.S, A: []*Term{a, b}})
}
func (c *Ctx) BXor(a, b *Term) *Term {
	if a == b {
		return c.BVC(0, a.S.W)
	}
	if a.Op == OBV && a.V == 0 {
		return b
	}
	if b.Op == OBV && b.V == 0 {
		return a
	}
	return c.bin(OBXor, a, b, func(x, y uint64) (uint64, bool) { return x ^ y, true })
}
func (c *Ctx) BNot(a *Term) *Term {
	if a.Op == OBV {
		return c.BVC(^a.V, a.S.W)
	}
	if a.Op == OBNot {
		return a.A[0]
	}
	return c.mk(&Term{Op: OBNot, S: a.S, A: []*Term{a}})
}
func (c *Ctx) Shl(a, b *Term) *Term {
	w := a.S.W
	if b.Op == OBV {
		if b.V == 0 {
			return a
		}
		if b.V >= uint64(w) {
			return c.BVC(0, w)
		}
		if a.Op == OBV {
			return c.BVC(a.V<<b.V, w)
		}
		if b.V < uint64(w) {
			return c.Concat(c.Extract(a, w-1-int(b.V), 0), c.BVC(0, int(b.V)))
		}
	}
	return c.mk(&Term{Op: OShl, S: a.S, A: []*Term{a, b}})
}
func (c *Ctx) Lshr(a, b *Term) *Term {
	w := a.S.W
	if b.Op == OBV {
		if b.V == 0 {
			return a
		}
		if b.V >= uint64(w) {
			return c.BVC(0, w)
		}
		return c.ZExt(c.Extract(a, w-1, int(b.V)), w)
	}
	return c.mk(&Term{Op: OLshr, S: a.S, A: []*Term{a, b}})
}
func (c *Ctx) Ashr(a, b *Term) *Term {
	w := a.S.W
	if b.Op == OBV {
		if b.V == 0 {
			return a
		}
		n := b.V
		if n >= uint64(w) {
			n = uint64(w - 1)
		}
		return c.SExt(c.Extract(a, w-1, int(n)), w)
	}
	return c.mk(&Term{Op: OAshr, S: a.S, A: []*Term{a, b}})
}

func (c *Ctx) Ult(a, b *Term) *Term {
	if a == b {
		return c.False
	}
	if a.Op == OBV && b.Op == OBV {
		return c.B(a.V < b.V)
	}
	if b.Op == OBV && b.V == 0 {
		return c.False
	}
	if b.Op == OBV && b.V == 1 {
		return c.Eq(a, c.BVC(0, a.S.W))
	}
	if a.Op == OBV && a.V == mask(a.S.W) {
		return c.False
	}
	if a.Op == OZExt && b.Op == OBV && b.V > mask(a.A[0].S.W) {
		return c.True
	}
	if len(c.Regs) > 0 && a.Op == OAdd && a.S == BV64 && c.outside(a, b) {
		return c.False
	}
	return c.mk(&Term{Op: OUlt, S: Bool, A: []*Term{a, b}})
}

// outside: a is x - base for a fresh region holding at least n bytes, and x is
// surely an address outside it.
func (c *Ctx) outside(a, n *Term) bool {
	var reg *RegInfo
	var rest *Term
	k := uint64(0)
	for _, t := range a.A {
		switch {
		case t.Op == OBV:
			k = t.V
		case t.Op == OMul && t.A[0].Op == OBV && t.A[0].V == ^uint64(0) && reg == nil && c.Regs[t.A[1].ID] != nil:
			reg = c.Regs[t.A[1].ID]
		case rest == nil:
			rest = t
		default:
			return false
		}
	}
	if reg == nil || rest == nil {
		return false
	}
	if !(n == reg.Len || n.Op == OBV && n.V <= reg.Min) {
		return false
	}
	if ra := c.Regs[rest.ID]; ra != nil {
		return ra != reg && k < ra.Min
	}
	rc := refClock(rest)
	return k == 0 && rc >= 0 && rc < reg.Base.Alloc
}
func (c *Ctx) Ule(a, b *Term) *Term { return c.Not(c.Ult(b, a)) }
func (c *Ctx) Slt(a, b *Term) *Term {
	if a == b {
		return c.False
	}
	if a.Op == OBV && b.Op == OBV {
		return c.B(sx(a.V, a.S.W) < sx(b.V, b.S.W))
	}
	return c.mk(&Term{Op: OSlt, S: Bool, A: []*Term{a, b}})
}
func (c *Ctx) Sle(a, b *Term) *Term { return c.Not(c.Slt(b, a)) }

func (c *Ctx) ILe(a, b *Term) *Term {
	if a.IsConst() && b.IsConst() {
		return c.B(int64(a.V) <= int64(b.V))
	}
	if a == b {
		return c.True
	}
	return c.mk(&Term{Op: OILe, S: Bool, A: []*Term{a, b}})
}

func (c *Ctx) Concat(a, b *Term) *Term {
	w := a.S.W + b.S.W
	if a.Op == OBV && b.Op == OBV && w <= 64 {
		return c.BVC(a.V<<uint(b.S.W)|b.V, w)
	}
	if a.Op == OBV && a.V == 0 {
		return c.ZExt(b, w)
	}
	// adjacent extracts
	if a.Op == OExtract && b.Op == OExtract && a.A[0] == b.A[0] && a.P2 == b.P1+1 {
		return c.Extract(a.A[0], a.P1, b.P2)
	}
	// right-assoc: (x ++ e1) ++ e2 with e1,e2 adjacent
	if a.Op == OConcat && b.Op == OExtract && a.A[1].Op == OExtract && a.A[1].A[0] == b.A[0] && a.A[1].P2 == b.P1+1 {
		return c.Concat(a.A[0], c.Extract(b.A[0], a.A[1].P1, b.P2))
	}
	if a.Op == OZExt {
		return c.ZExt(c.Concat(a.A[0], b), w)
	}
	return c.mk(&Term{Op: OConcat, S: BV(w), A: []*Term{a, b}})
}

func (c *Ctx) Extract(a *Term, hi, lo int) *Term {
	w := hi - lo + 1
	if w == a.S.W {
		return a
	}
	switch a.Op {
	case OBV:
		return c.BVC(a.V>>uint(lo), w)
	case OExtract:
		return c.Extract(a.A[0], hi+a.P2, lo+a.P2)
	case OConcat:
		bw := a.A[1].S.W
		if hi < bw {
			return c.Extract(a.A[1], hi, lo)
		}
		if lo >= bw {
			return c.Extract(a.A[0], hi-bw, lo-bw)
		}
		return c.Concat(c.Extract(a.A[0], hi-bw, 0), c.Extract(a.A[1], bw-1, lo))
	case OZExt:
		iw := a.A[0].S.W
		if hi < iw {
			return c.Extract(a.A[0], hi, lo)
		}
		if lo >= iw {
			return c.BVC(0, w)
		}
		return c.ZExt(c.Extract(a.A[0], iw-1, lo), w)
	case OSExt:
		iw := a.A[0].S.W
		if hi < iw {
			return c.Extract(a.A[0], hi, lo)
		}
	case OIte:
		if a.A[1].IsConst() || a.A[2].IsConst() {
			return c.Ite(a.A[0], c.Extract(a.A[1], hi, lo), c.Extract(a.A[2], hi, lo))
		}
	case OBAnd:
		return c.BAnd(c.Extract(a.A[0], hi, lo), c.Extract(a.A[1], hi, lo))
	case OBOr:
		return c.BOr(c.Extract(a.A[0], hi, lo), c.Extract(a.A[1], hi, lo))
	case OBXor:
		return c.BXor(c.Extract(a.A[0], hi, lo), c.Extract(a.A[1], hi, lo))
	case OBNot:
		return c.BNot(c.Extract(a.A[0], hi, lo))
	}
	return c.mk(&Term{Op: OExtract, S: BV(w), P1: hi, P2: lo, A: []*Term{a}})
}

func (c *Ctx) ZExt(a *Term, w int) *Term {
	if a.S.W == w {
		return a
	}
	if a.Op == OBV && w <= 64 {
		return c.BVC(a.V, w)
	}
	if a.Op == OZExt {
		return c.ZExt(a.A[0], w)
	}
	// the magnitude of a negative number: tie it to the sign extension
	if w <= 64 && (a.Op == OAdd || a.Op == OMul) {
		n := c.Neg(a)
		if n.Op == OVar || n.Op == OApp || n.Op == OSelect || n.Op == OExtract {
			return c.Ite(c.Slt(n, c.BVC(0, n.S.W)), c.Neg(c.SExt(n, w)), c.mk(&Term{Op: OZExt, S: BV(w), P1: w, A: []*Term{a}}))
		}
	}
	return c.mk(&Term{Op: OZExt, S: BV(w), P1: w, A: []*Term{a}})
}
func (c *Ctx) SExt(a *Term, w int) *Term {
	if a.S.W == w {
		return a
	}
	if a.Op == OBV && w <= 64 {
		return c.BVC(uint64(sx(a.V, a.S.W)), w)
	}
	if a.Op == OZExt {
		return c.ZExt(a.A[0], w)
	}
	return c.mk(&Term{Op: OSExt, S: BV(w), P1: w, A: []*Term{a}})
}

// Resize converts between integer widths.
func (c *Ctx) Resize(a *Term, w int, signed bool) *Term {
	switch {
	case a.S.W == w:
		return a
	case a.S.W > w:
		return c.Extract(a, w-1, 0)
	case signed:
		return c.SExt(a, w)
	default:
		return c.ZExt(a, w)
	}
}

// ---- arrays

func (c *Ctx) Select(a, i *Term) *Term {
	if a.S.K != KArr {
		panic("select on " + a.S.str + ": " + a.String())
	}
	if a.S.Dom != i.S {
		panic(fmt.Sprintf("select index sort %s vs %s", a.S, i.S))
	}
	switch a.Op {
	case OStore:
		e := c.Eq(a.A[1], i)
		if e.Op == OTrue {
			return a.A[2]
		}
		rest := c.Select(a.A[0], i)
		return c.Ite(e, a.A[2], rest)
	case OCpy:
		d := c.Sub(i, a.A[1])
		in := c.Ult(d, a.A[4])
		if i.S == BV64 && a.A[4].Op == OBV && c.apart(i, a.A[1], a.A[4].V) {
			in = c.False
		}
		return c.Ite(in, c.lazySel(in, a.A[2], c.Add(a.A[3], d)), c.lazySel(c.Not(in), a.A[0], i))
	case OMerge:
		g := c.Subst(a.A[1], a.A[0], i)
		return c.Ite(g, c.lazySel(g, a.A[2], i), c.lazySel(c.Not(g), a.A[3], i))
	case OLam:
		return c.Subst(a.A[1], a.A[0], i)
	case OConstArr:
		return a.A[0]
	case OIte:
		return c.Ite(a.A[0], c.Select(a.A[1], i), c.Select(a.A[2], i))
	case OApp:
		if r, ok := c.Rewrite["select:"+a.Name]; ok {
			if t := r(c, []*Term{a, i}); t != nil {
				return t
			}
		}
	}
	return c.mk(&Term{Op: OSelect, S: a.S.Rng, A: []*Term{a, i}})
}

func (c *Ctx) lazySel(g, a, i *Term) *Term {
	if g.Op == OFalse { // value irrelevant
		return c.Var("dontcare:"+a.S.Rng.str, a.S.Rng)
	}
	return c.Select(a, i)
}

func (c *Ctx) Store(a, i, v *Term) *Term {
	if a.S.Dom != i.S || a.S.Rng != v.S {
		panic(fmt.Sprintf("store sorts %s [%s] := %s", a.S, i.S, v.S))
	}
	if a.Op == OStore && a.A[1] == i {
		a = a.A[0]
	}
	if a.Op == OStore {
		// drop a shadowed older store of the same index when the indices between are constants different from it
		x := a
		for x.Op == OStore && c.Eq(x.A[1], i).IsFalse() {
			x = x.A[0]
		}
		if x.Op == OStore && x.A[1] == i {
			var rebuild func(y *Term) *Term
			rebuild = func(y *Term) *Term {
				if y == x {
					return y.A[0]
				}
				return c.mk(&Term{Op: OStore, S: y.S, A: []*Term{rebuild(y.A[0]), y.A[1], y.A[2]}})
			}
			a = rebuild(a)
		}
	}
	if v.Op == OSelect && v.A[0] == a && v.A[1] == i {
		return a
	}
	return c.mk(&Term{Op: OStore, S: a.S, A: []*Term{a, i, v}})
}

func (c *Ctx) Cpy(dst, doff, src, soff, n *Term) *Term {
	if n.Op == OBV && n.V == 0 {
		return dst
	}
	return c.mk(&Term{Op: OCpy, S: dst.S, A: []*Term{dst, doff, src, soff, n}})
}

// Merge: lambda x. cond ? a[x] : b[x]; bv occurs in cond.
func (c *Ctx) Merge(bv, cond, a, b *Term) *Term {
	if cond.IsTrue() {
		return a
	}
	if cond.IsFalse() || a == b {
		return b
	}
	return c.mk(&Term{Op: OMerge, S: a.S, A: []*Term{bv, cond, a, b}})
}

func (c *Ctx) Lam(bv, body *Term) *Term {
	return c.mk(&Term{Op: OLam, S: c.Arr(bv.S, body.S), A: []*Term{bv, body}})
}

func (c *Ctx) ConstArr(s *Sort, v *Term) *Term {
	return c.mk(&Term{Op: OConstArr, S: s, A: []*Term{v}})
}

func (c *Ctx) App(name string, s *Sort, args ...*Term) *Term {
	if r, ok := c.Rewrite[name]; ok {
		if t := r(c, args); t != nil {
			return t
		}
	}
	return c.RawApp(name, s, args...)
}

func (c *Ctx) RawApp(name string, s *Sort, args ...*Term) *Term {
	return c.mk(&Term{Op: OApp, S: s, Name: name, A: append([]*Term(nil), args...)})
}

func (c *Ctx) Forall(bv, body *Term) *Term {
	if body.IsConst() {
		return body
	}
	return c.mk(&Term{Op: OForall, S: Bool, A: []*Term{bv, body}})
}

func (c *Ctx) Exists(bv, body *Term) *Term { return c.Not(c.Forall(bv, c.Not(body))) }

// Canon renames the bound variables of quantifiers, so that formulas that
// differ in these names only become the same term.
func (c *Ctx) Canon(t *Term) *Term {
	if !t.HasQuant() {
		return t
	}
	if r, ok := c.canon[t.ID]; ok {
		return r
	}
	if c.canon == nil {
		c.canon = map[int]*Term{}
		c.qheight = map[int]int{}
	}
	r := t
	switch t.Op {
	case OForall:
		body := c.Canon(t.A[1])
		h := c.height(body) + 1
		bv := c.mk(&Term{Op: OBound, S: t.A[0].S, Name: fmt.Sprintf("canon%d?", h)})
		r = c.Forall(bv, c.Subst(body, t.A[0], bv))
	case OAnd, OOr, ONot, OIte, OEq:
		args := make([]*Term, len(t.A))
		for i, a := range t.A {
			args[i] = c.Canon(a)
		}
		r = c.Rebuild(t, args)
	}
	c.canon[t.ID] = r
	return r
}

func (c *Ctx) height(t *Term) int {
	if !t.HasQuant() {
		return 0
	}
	if h, ok := c.qheight[t.ID]; ok {
		return h
	}
	h := 0
	for _, a := range t.A {
		if k := c.height(a); k > h {
			h = k
		}
	}
	if t.Op == OForall {
		h++
	}
	c.qheight[t.ID] = h
	return h
}

// Subst replaces the bound variable bv by t.
func (c *Ctx) Subst(x, bv, t *Term) *Term {
	memo := map[int]*Term{}
	return c.subst(x, bv, t, memo)
}

func (c *Ctx) SubstMap(x *Term, m map[*Term]*Term) *Term {
	memo := map[int]*Term{}
	for k, v := range m {
		memo[k.ID] = v
	}
	return c.substAll(x, memo)
}

func (c *Ctx) substAll(x *Term, memo map[int]*Term) *Term {
	if r, ok := memo[x.ID]; ok {
		return r
	}
	if len(x.A) == 0 {
		return x
	}
	args := make([]*Term, len(x.A))
	ch := false
	for i, a := range x.A {
		args[i] = c.substAll(a, memo)
		if args[i] != a {
			ch = true
		}
	}
	r := x
	if ch {
		r = c.Rebuild(x, args)
	}
	memo[x.ID] = r
	return r
}

func (c *Ctx) subst(x, bv, t *Term, memo map[int]*Term) *Term {
	if x == bv {
		return t
	}
	if !x.HasBound() {
		return x
	}
	if r, ok := memo[x.ID]; ok {
		return r
	}
	if len(x.A) == 0 {
		return x
	}
	args := make([]*Term, len(x.A))
	ch := false
	for i, a := range x.A {
		args[i] = c.subst(a, bv, t, memo)
		if args[i] != a {
			ch = true
		}
	}
	r := x
	if ch {
		r = c.Rebuild(x, args)
	}
	memo[x.ID] = r
	return r
}

// Rebuild makes the term x with new arguments, simplifying.
func (c *Ctx) Rebuild(x *Term, a []*Term) *Term {
	switch x.Op {
	case ONot:
		return c.Not(a[0])
	case OAnd:
		return c.And(a...)
	case OOr:
		return c.Or(a...)
	case OIte:
		return c.Ite(a[0], a[1], a[2])
	case OEq:
		return c.Eq(a[0], a[1])
	case OAdd:
		r := a[0]
		for _, y := range a[1:] {
			r = c.Add(r, y)
		}
		return r
	case OMul:
		return c.Mul(a[0], a[1])
	case OUdiv:
		return c.Udiv(a[0], a[1])
	case OUrem:
		return c.Urem(a[0], a[1])
	case OSdiv:
		return c.Sdiv(a[0], a[1])
	case OSrem:
		return c.Srem(a[0], a[1])
	case OBAnd:
		return c.BAnd(a[0], a[1])
	case OBOr:
		return c.BOr(a[0], a[1])
	case OBXor:
		return c.BXor(a[0], a[1])
	case OBNot:
		return c.BNot(a[0])
	case OShl:
		return c.Shl(a[0], a[1])
	case OLshr:
		return c.Lshr(a[0], a[1])
	case OAshr:
		return c.Ashr(a[0], a[1])
	case OUlt:
		return c.Ult(a[0], a[1])
	case OUle:
		return c.Ule(a[0], a[1])
	case OSlt:
		return c.Slt(a[0], a[1])
	case OSle:
		return c.Sle(a[0], a[1])
	case OConcat:
		return c.Concat(a[0], a[1])
	case OExtract:
		return c.Extract(a[0], x.P1, x.P2)
	case OZExt:
		return c.ZExt(a[0], x.S.W)
	case OSExt:
		return c.SExt(a[0], x.S.W)
	case OILe:
		return c.ILe(a[0], a[1])
	case OSelect:
		return c.Select(a[0], a[1])
	case OStore:
		return c.Store(a[0], a[1], a[2])
	case OCpy:
		return c.Cpy(a[0], a[1], a[2], a[3], a[4])
	case OMerge:
		return c.Merge(a[0], a[1], a[2], a[3])
	case OLam:
		return c.Lam(a[0], a[1])
	case OConstArr:
		return c.ConstArr(x.S, a[0])
	case OApp:
		return c.App(x.Name, x.S, a...)
	case OForall:
		return c.Forall(a[0], a[1])
	}
	panic(fmt.Sprintf("rebuild op %d", x.Op))
}

// ---- printing for people

func (t *Term) String() string {
	var b strings.Builder
	t.write(&b, 0)
	return b.String()
}

var opn = map[Op]string{ONot: "not", OAnd: "and", OOr: "or", OIte: "ite", OEq: "=", OAdd: "+", OMul: "*", OUdiv: "udiv", OUrem: "urem", OSdiv: "sdiv", OSrem: "srem", OBAnd: "&", OBOr: "|", OBXor: "^", OBNot: "~", OShl: "shl", OLshr: "lshr", OAshr: "ashr", OUlt: "<u", OUle: "<=u", OSlt: "<s", OSle: "<=s", OConcat: "++", OILe: "<=", OSelect: "sel", OStore: "store", OCpy: "cpy", OMerge: "merge", OLam: "lam", OConstArr: "constarr", OForall: "forall"}

func (t *Term) write(b *strings.Builder, d int) {
	if d > 14 {
		b.WriteString("...")
		return
	}
	switch t.Op {
	case OTrue:
		b.WriteString("true")
	case OFalse:
		b.WriteString("false")
	case OVar, OBound:
		b.WriteString(t.Name)
	case OBV:
		if t.S.W == 64 && int64(t.V) < 0 && int64(t.V) > -100000 {
			fmt.Fprintf(b, "%d", int64(t.V))
		} else if t.V < 4096 {
			fmt.Fprintf(b, "%d", t.V)
		} else {
			fmt.Fprintf(b, "0x%x", t.V)
		}
	case OIntC:
		fmt.Fprintf(b, "%d", int64(t.V))
	default:
		b.WriteByte('(')
		switch t.Op {
		case OApp:
			b.WriteString(t.Name)
		case OExtract:
			fmt.Fprintf(b, "bits[%d:%d]", t.P1, t.P2)
		case OZExt:
			fmt.Fprintf(b, "zext%d", t.S.W)
		case OSExt:
			fmt.Fprintf(b, "sext%d", t.S.W)
		default:
			b.WriteString(opn[t.Op])
		}
		for _, a := range t.A {
			b.WriteByte(' ')
			a.write(b, d+1)
		}
		b.WriteByte(')')
	}
}
