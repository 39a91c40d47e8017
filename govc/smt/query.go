package smt

import (
	"fmt"
	"os"
	"sort"
	"strings"
)

// Region is a raw memory area obtained at a known moment.
type Region struct {
	Base, Len *Term
	Birth     int
}

// Query is one verification condition: Hyps |- Goal.
type Query struct {
	Light bool // leave out the quantified hypotheses

	C       *Ctx
	Hyps    []*Term
	Goal    *Term
	Regions []Region
	Name    string
	Rounds  int
	Gen     int  // how often terms that instances bring in are used to instantiate again, 0 no limit
	Depth   int  // how deep defined functions are unfolded: 1 those of the hypotheses, 2 also those of the goal, 0 no limit
	Skipped bool // set by Build: some were not unfolded
	Limit   int
}

type proxy struct {
	p    *Term
	bv   *Term
	body *Term
	trig []trigger
	done map[int]bool
	gen  int
}

// mproxy: a quantifier over several variables, which are the arguments of its
// pattern.
type mproxy struct {
	p    *Term
	bvs  []*Term
	body *Term
	pat  *Term
	done map[int]bool
}

type trigger struct {
	key string
	pat *Term // linear in bv
}

type builder struct {
	depth    map[int]int
	curDepth int
	c        *Ctx
	q        *Query
	fs       []*Term
	memo     map[[2]int]*Term
	gen      map[int]int
	curGen   int
	maxGen   int
	later    bool
	proxies  []*proxy
	mproxies []*mproxy
	appL     map[string][]*Term
	pmap     map[int]*proxy
	seen     map[int]bool
	occ      map[string]map[int]*Term
	occL     map[string][]*Term
	recs     []*Term
	recDone  map[int]int
	factDn   map[int]bool
	seqCtx   map[string][]*Term
	aseqDn   map[[2]int]bool
	births   []*Term
	birthDn  map[int]bool
	allocs   []*Term
	newApps  []*Term
	inst     int
}

// FV returns the free bound variables of t.
func (c *Ctx) fvs(t *Term, memo map[int]map[*Term]bool) map[*Term]bool {
	if !t.HasBound() {
		return nil
	}
	if r, ok := memo[t.ID]; ok {
		return r
	}
	r := map[*Term]bool{}
	if t.Op == OBound {
		r[t] = true
	} else {
		switch t.Op {
		case OForall, OLam:
			for v := range c.fvs(t.A[1], memo) {
				if v != t.A[0] {
					r[v] = true
				}
			}
		case OMerge:
			for v := range c.fvs(t.A[1], memo) {
				if v != t.A[0] {
					r[v] = true
				}
			}
			for _, a := range t.A[2:] {
				for v := range c.fvs(a, memo) {
					r[v] = true
				}
			}
		default:
			for _, a := range t.A {
				for v := range c.fvs(a, memo) {
					r[v] = true
				}
			}
		}
	}
	memo[t.ID] = r
	return r
}

// Build produces the quantifier-free formulas whose unsatisfiability proves
// the goal.
func (q *Query) Build() []*Term {
	c := q.C
	b := &builder{c: c, q: q, memo: map[[2]int]*Term{}, pmap: map[int]*proxy{}, seen: map[int]bool{},
		occ: map[string]map[int]*Term{}, occL: map[string][]*Term{}, appL: map[string][]*Term{}, seqCtx: map[string][]*Term{}, gen: map[int]int{}, recDone: map[int]int{}, factDn: map[int]bool{}, aseqDn: map[[2]int]bool{}, birthDn: map[int]bool{}}
	rounds := q.Rounds
	if rounds == 0 {
		rounds = 3
	}
	limit := q.Limit
	if limit == 0 {
		limit = 4000
	}
	b.depth = map[int]int{}
	b.curDepth = 1
	if q.Goal != nil && q.Goal.HasQuant() {
		g := c.Canon(q.Goal)
		for _, h := range q.Hyps {
			if h.HasQuant() && c.Canon(h) == g {
				return []*Term{c.False}
			}
		}
	}
	hyps, goal := q.solveEqs()
	for _, h := range hyps {
		if q.Light && (h.HasQuant() || containsArrEq(h)) {
			q.Skipped = true
			continue
		}
		b.addFormula(b.process(h, true))
	}
	b.curDepth = 2
	if goal != nil {
		b.addFormula(b.process(goal, false))
	}
	b.curDepth = 3
	for r := 0; r < rounds; r++ {
		n0 := len(b.fs)
		b.unfold()
		b.facts()
		for i := 0; i < len(b.mproxies); i++ {
			b.instantiateApps(b.mproxies[i])
		}
		b.extensional()
		for b.maxGen = 0; ; b.maxGen++ {
			b.later = false
			for i := 0; i < len(b.proxies) && b.inst <= limit; i++ {
				b.instantiate(b.proxies[i])
			}
			if !b.later || b.inst > limit {
				break
			}
		}
		b.extensional()
		b.facts()
		if len(b.fs) == n0 {
			break
		}
		if rounds == 1 {
			q.Skipped = true
		}
	}
	if os.Getenv("GOVC_INST") != "" && b.inst > 1000 {
		var ps []*proxy
		ps = append(ps, b.proxies...)
		sort.Slice(ps, func(i, j int) bool { return len(ps[i].done) > len(ps[j].done) })
		fmt.Fprintln(os.Stderr, "== instances", b.inst, "proxies", len(ps))
		for i := 0; i < len(ps) && i < 25; i++ {
			t := ps[i].body.String()
			if len(t) > 300 {
				t = t[:300]
			}
			fmt.Fprintln(os.Stderr, len(ps[i].done), ps[i].bv, ps[i].gen, len(ps[i].trig), t)
		}
	}
	b.birthFacts()
	b.disjoint()
	return b.fs
}

// disjoint: the fresh raw regions that occur do not overlap.
func (b *builder) disjoint() {
	c := b.c
	var rs []Region
	for _, r := range b.q.Regions {
		if b.seen[r.Base.ID] {
			rs = append(rs, r)
		}
	}
	for i := range rs {
		for j := i + 1; j < len(rs); j++ {
			x, y := rs[i], rs[j]
			b.addFormula(c.Or(c.Ule(c.Add(x.Base, x.Len), y.Base), c.Ule(c.Add(y.Base, y.Len), x.Base)))
		}
	}
}

func (b *builder) addFormula(f *Term) {
	if f.IsTrue() {
		return
	}
	b.fs = append(b.fs, f)
	b.scan(f)
}

// process returns an NNF, quantifier-free version; universal subformulas
// become proxies, existential ones are skolemized.
func (b *builder) process(t *Term, pos bool) *Term {
	c := b.c
	arrEq := t.Op == OEq && t.A[0].S.K == KArr
	if !t.HasQuant() && !arrEq && !containsArrEq(t) {
		if pos {
			return t
		}
		return c.Not(t)
	}
	k := [2]int{t.ID, 0}
	if pos {
		k[1] = 1
	}
	if r, ok := b.memo[k]; ok {
		return r
	}
	var r *Term
	switch t.Op {
	case ONot:
		r = b.process(t.A[0], !pos)
	case OAnd, OOr:
		xs := make([]*Term, len(t.A))
		for i, a := range t.A {
			xs[i] = b.process(a, pos)
		}
		if (t.Op == OAnd) == pos {
			r = c.And(xs...)
		} else {
			r = c.Or(xs...)
		}
	case OIte:
		g, x, y := t.A[0], t.A[1], t.A[2]
		r = c.And(c.Or(b.process(g, false), b.process(x, pos)), c.Or(b.process(g, true), b.process(y, pos)))
	case OEq:
		if arrEq {
			bv := c.Bound("ext", t.A[0].S.Dom)
			body := c.Eq(c.Select(t.A[0], bv), c.Select(t.A[1], bv))
			r = b.quant(bv, body, pos, t)
		} else {
			x, y := t.A[0], t.A[1]
			if pos {
				r = c.And(c.Or(b.process(x, false), b.process(y, true)), c.Or(b.process(x, true), b.process(y, false)))
			} else {
				r = c.And(c.Or(b.process(x, true), b.process(y, true)), c.Or(b.process(x, false), b.process(y, false)))
			}
		}
	case OForall:
		r = b.quant(t.A[0], t.A[1], pos, t)
	default:
		panic("process: quantifier in an atom: " + t.String())
	}
	b.memo[k] = r
	return r
}

func containsArrEq(t *Term) bool {
	if t.S != Bool {
		return false
	}
	switch t.Op {
	case ONot, OAnd, OOr, OIte:
		for _, a := range t.A {
			if a.S == Bool && containsArrEq(a) {
				return true
			}
		}
	case OEq:
		if t.A[0].S.K == KArr {
			return true
		}
		if t.A[0].S == Bool {
			return containsArrEq(t.A[0]) || containsArrEq(t.A[1])
		}
	}
	return false
}

func (b *builder) quant(bv, body *Term, pos bool, t *Term) *Term {
	c := b.c
	full := body
	body = c.untrig(body, map[int]*Term{})
	if !pos {
		c.nskol++
		sk := c.Var(fmt.Sprintf("sk!%d", c.nskol), bv.S)
		for _, t := range trigApps(full, map[int]bool{}) {
			b.scan(c.Subst(t.A[0], bv, sk))
		}
		return b.process(c.Subst(body, bv, sk), false)
	}
	if bv, in := t.A[0], t.A[1]; t.Op == OForall && in.Op == OForall {
		bvs := []*Term{bv}
		for in.Op == OForall {
			bvs = append(bvs, in.A[0])
			in = in.A[1]
		}
		if ts := trigApps(in, map[int]bool{}); len(ts) == 1 && ts[0].Name == "trig" {
			if pat := ts[0].A[0]; pat.Op == OApp && len(pat.A) == len(bvs) {
				m := map[*Term]bool{}
				for _, a := range pat.A {
					m[a] = true
				}
				all := len(m) == len(bvs)
				for _, v := range bvs {
					all = all && m[v]
				}
				if all {
					p := &mproxy{p: c.Fresh("q", Bool), bvs: bvs, body: c.untrig(in, map[int]*Term{}), pat: pat, done: map[int]bool{}}
					b.mproxies = append(b.mproxies, p)
					return p.p
				}
			}
		}
	}
	p := &proxy{p: c.Fresh("q", Bool), bv: bv, body: body, done: map[int]bool{}, gen: b.curGen}
	p.trig = b.triggers(bv, full)
	b.proxies = append(b.proxies, p)
	return p.p
}

func famOf(a *Term) string {
	lvl := 0
	for a.Op == OSelect {
		a = a.A[0]
		lvl++
	}
	f := a.Fam
	if f == "" {
		f = a.Name
		if a.Op != OVar && a.Op != OApp {
			f = "?"
		}
	}
	return fmt.Sprintf("%s/%d", f, lvl)
}

func (b *builder) triggers(bv, body *Term) []trigger {
	var out []trigger
	seen := map[int]bool{}
	have := map[string]bool{}
	memo := map[int]map[*Term]bool{}
	var walk func(t *Term)
	add := func(key string, idx *Term) {
		// idx must be linear in bv: bv or bv + rest
		if idx != bv {
			if idx.Op != OAdd {
				return
			}
			ok := false
			for _, a := range idx.A {
				if a == bv {
					ok = true
				} else if b.c.fvs(a, memo)[bv] {
					return
				}
			}
			if !ok {
				return
			}
			// other free bound variables inside: no use
			for v := range b.c.fvs(idx, memo) {
				if v != bv {
					return
				}
			}
		}
		k := key + "#" + fmt.Sprint(idx.ID)
		if !have[k] {
			have[k] = true
			out = append(out, trigger{key, idx})
		}
	}
	walk = func(t *Term) {
		if seen[t.ID] || !t.HasBound() {
			return
		}
		seen[t.ID] = true
		switch t.Op {
		case OSelect:
			add("sel:"+famOf(t.A[0]), t.A[1])
		case OApp:
			for i, a := range t.A {
				add(fmt.Sprintf("app:%s/%d", t.Name, i), a)
			}
		case OUlt:
			// range guards of raw addresses: no trigger
		}
		for _, a := range t.A {
			walk(a)
		}
	}
	if ts := trigApps(body, map[int]bool{}); len(ts) > 0 {
		for _, t := range ts {
			if t.Name == "trigx" {
				// reads of this very array
				if a := t.A[0]; a.Op == OSelect {
					add(fmt.Sprint("selx:", a.A[0].ID), a.A[1])
				}
				continue
			}
			walk(t.A[0])
		}
		return out
	}
	walk(body)
	return out
}

// trigApps are the explicit patterns trig(..) of a quantifier body.
func trigApps(t *Term, seen map[int]bool) []*Term {
	if seen[t.ID] || !t.HasBound() {
		return nil
	}
	seen[t.ID] = true
	if t.Op == OApp && (t.Name == "trig" || t.Name == "trigx") {
		return []*Term{t}
	}
	var out []*Term
	for _, a := range t.A {
		out = append(out, trigApps(a, seen)...)
	}
	return out
}

// untrig replaces the patterns, which mean true, by true.
func (c *Ctx) untrig(t *Term, memo map[int]*Term) *Term {
	if r, ok := memo[t.ID]; ok {
		return r
	}
	if len(t.A) == 0 || !t.HasBound() {
		return t
	}
	r := t
	if t.Op == OApp && (t.Name == "trig" || t.Name == "trigx") {
		r = c.B(true)
	} else {
		args := make([]*Term, len(t.A))
		ch := false
		for i, a := range t.A {
			args[i] = c.untrig(a, memo)
			ch = ch || args[i] != a
		}
		if ch {
			r = c.Rebuild(t, args)
		}
	}
	memo[t.ID] = r
	return r
}

// scan records ground index occurrences.
func (b *builder) scan(t *Term) {
	if b.seen[t.ID] {
		return
	}
	b.seen[t.ID] = true
	memo := map[int]map[*Term]bool{}
	if t.Op == OForall || t.Op == OLam || t.Op == OMerge || t.Op == OCpy {
		// only under function arguments; their insides are not ground
		if t.Op != OCpy {
			return
		}
	}
	switch t.Op {
	case OSelect:
		b.addOcc("sel:"+famOf(t.A[0]), t.A[1])
		b.addOcc(fmt.Sprint("selx:", t.A[0].ID), t.A[1])
	case OApp:
		if !t.HasBound() || len(b.c.fvs(t, memo)) == 0 {
			for i, a := range t.A {
				b.addOcc(fmt.Sprintf("app:%s/%d", t.Name, i), a)
			}
			b.appL[t.Name] = append(b.appL[t.Name], t)
			if _, ok := b.c.Rec[t.Name]; ok {
				b.recs = append(b.recs, t)
				b.depth[t.ID] = b.curDepth
			}
			if _, ok := b.c.AppFacts[t.Name]; ok {
				b.newApps = append(b.newApps, t)
			}
			if t.Name == "birth" {
				b.births = append(b.births, t)
			}
		}
	case OVar:
		if t.Alloc > 0 {
			b.allocs = append(b.allocs, t)
		}
	}
	b.seqUses(t, memo)
	for _, a := range t.A {
		b.scan(a)
	}
}

func (b *builder) addOcc(key string, idx *Term) {
	m := b.occ[key]
	if m == nil {
		m = map[int]*Term{}
		b.occ[key] = m
	}
	if g, ok := b.gen[idx.ID]; !ok || b.curGen < g {
		b.gen[idx.ID] = b.curGen
	}
	if _, ok := m[idx.ID]; !ok {
		m[idx.ID] = idx
		b.occL[key] = append(b.occL[key], idx)
	}
}

func (b *builder) instantiate(p *proxy) {
	c := b.c
	try := func(x *Term, g int) {
		if x.S != p.bv.S || p.done[x.ID] {
			return
		}
		if p.gen > g {
			g = p.gen
		}
		if b.q.Gen > 0 && g >= b.q.Gen {
			b.q.Skipped = true
			return
		}
		if g > b.maxGen {
			b.later = true
			return
		}
		p.done[x.ID] = true
		b.inst++
		save := b.curGen
		b.curGen = g + 1
		b.addFormula(c.Or(c.Not(p.p), b.process(c.Subst(p.body, p.bv, x), true)))
		b.curGen = save
	}
	for _, tr := range p.trig {
		occ := b.occL[tr.key]
		for i := 0; i < len(occ); i++ {
			t := occ[i]
			if t.S != p.bv.S {
				continue
			}
			if tr.pat == p.bv {
				try(t, b.gen[t.ID])
			} else {
				rest := c.Sub(tr.pat, p.bv)
				try(c.Sub(t, rest), b.gen[t.ID])
			}
		}
	}
}

func (b *builder) instantiateApps(p *mproxy) {
	c := b.c
	occ := b.appL[p.pat.Name]
	for _, t := range occ {
		if p.done[t.ID] {
			continue
		}
		p.done[t.ID] = true
		b.inst++
		m := map[*Term]*Term{}
		for i, a := range p.pat.A {
			m[a] = t.A[i]
		}
		b.addFormula(c.Or(c.Not(p.p), b.process(c.SubstMap(p.body, m), true)))
	}
}

func (b *builder) unfold() {
	rs := b.recs
	b.recs = nil
	for _, t := range rs {
		if b.recDone[t.ID] > 0 {
			continue
		}
		if d := b.q.Depth; d > 0 && b.depth[t.ID] > d {
			b.q.Skipped = true
			continue
		}
		b.recDone[t.ID] = 1
		body := b.c.Rec[t.Name](b.c, t.A)
		if body == nil {
			continue
		}
		old := b.curDepth
		b.curDepth = b.depth[t.ID] + 2
		if t.S == Bool {
			b.addFormula(b.process(b.c.Eq(t, body), true))
		} else {
			b.addFormula(b.c.Eq(t, body))
		}
		b.curDepth = old
	}
}

func (b *builder) facts() {
	for len(b.newApps) > 0 {
		as := b.newApps
		b.newApps = nil
		for _, t := range as {
			if b.factDn[t.ID] {
				continue
			}
			b.factDn[t.ID] = true
			for _, f := range b.c.AppFacts[t.Name](b.c, t) {
				b.addFormula(b.process(f, true))
			}
		}
	}
}

// SeqElem maps the sorts of sequences to the sorts of their elements.
var SeqElem = map[string]string{"ASeq": "Any", "TSeq": "RType", "ISeq": "Iface"}

// Len and At build sequence observations.
func (c *Ctx) Len(s *Term) *Term { return c.App("len:"+s.S.Name, BV64, s) }
func (c *Ctx) At(s, i *Term) *Term {
	return c.App("at:"+s.S.Name, c.U(SeqElem[s.S.Name]), s, i)
}

// extensional: sequences of the same length and elements are equal; for those
// that an equation compares or that the same function is applied to.
func (b *builder) extensional() {
	c := b.c
	var ks []string
	for k := range b.seqCtx {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		as := b.seqCtx[k]
		if len(as) > 14 {
			as = as[:14]
		}
		for i := range as {
			for j := i + 1; j < len(as); j++ {
				x, y := as[i], as[j]
				if x == y {
					continue
				}
				if x.ID > y.ID {
					x, y = y, x
				}
				k := [2]int{x.ID, y.ID}
				if b.aseqDn[k] {
					continue
				}
				b.aseqDn[k] = true
				sk := c.Var(fmt.Sprintf("sx!%d!%d", x.ID, y.ID), BV64)
				b.addFormula(c.Or(c.Eq(x, y), c.Not(c.Eq(c.Len(x), c.Len(y))), c.And(c.Ult(sk, c.Len(x)), c.Not(c.Eq(c.At(x, sk), c.At(y, sk))))))
			}
		}
	}
}

// seqUses notes where t uses sequences.
func (b *builder) seqUses(t *Term, memo map[int]map[*Term]bool) {
	add := func(k string, a *Term) {
		if a.S.K != KUn || SeqElem[a.S.Name] == "" || len(b.c.fvs(a, memo)) > 0 {
			return
		}
		k += "/" + a.S.Name
		for _, o := range b.seqCtx[k] {
			if o == a {
				return
			}
		}
		b.seqCtx[k] = append(b.seqCtx[k], a)
	}
	switch t.Op {
	case OApp:
		if t.Name[0] == '$' && t.S.K == KUn && SeqElem[t.S.Name] != "" {
			return
		}
		for _, p := range []string{"len:", "at:", "seqArr:"} {
			if strings.HasPrefix(t.Name, p) {
				return
			}
		}
		for i, a := range t.A {
			add(fmt.Sprintf("%s/%d", t.Name, i), a)
		}
	case OEq:
		if !b.aseqDn[[2]int{t.A[0].ID, t.A[1].ID}] && !b.aseqDn[[2]int{t.A[1].ID, t.A[0].ID}] {
			add(fmt.Sprint("=", t.ID), t.A[0])
			add(fmt.Sprint("=", t.ID), t.A[1])
		}
	case OIte:
		if t.S.K == KUn {
			add("ite", t.A[1])
			add("ite", t.A[2])
		}
	}
}

func (b *builder) birthFacts() {
	c := b.c
	if len(b.births) == 0 {
		return
	}
	done := map[int]bool{}
	for {
		n := len(b.births)
		for _, t := range b.births {
			if done[t.ID] {
				continue
			}
			done[t.ID] = true
			x := t.A[0]
			if x.Alloc > 0 {
				b.addFormula(c.Eq(t, c.IntC(int64(x.Alloc))))
			} else if k := refClock(x); k >= 0 {
				b.addFormula(c.ILe(t, c.IntC(int64(k))))
			}
			for _, r := range b.q.Regions {
				b.addFormula(c.Or(c.Not(c.Ult(c.Sub(x, r.Base), r.Len)), c.Eq(t, c.IntC(int64(r.Birth)))))
			}
		}
		for _, a := range b.allocs {
			t := c.RawApp("birth", Int, a)
			if !done[t.ID] {
				b.births = append(b.births, t)
			}
		}
		if len(b.births) == n {
			break
		}
	}
}

// Emit prints the formulas as an SMT-LIB script (without check-sat).
func Emit(c *Ctx, fs []*Term) string {
	var out strings.Builder
	decls := map[string]string{}
	sorts := map[string]bool{}
	names := map[int]string{}
	cnt := map[int]int{}
	var order []*Term
	var visit func(t *Term)
	visit = func(t *Term) {
		cnt[t.ID]++
		if cnt[t.ID] > 1 {
			return
		}
		if t.Op == OCpy || t.Op == OMerge || t.Op == OLam {
			order = append(order, t)
			return
		}
		for _, a := range t.A {
			visit(a)
		}
		order = append(order, t)
	}
	for _, f := range fs {
		visit(f)
	}
	var noteSort func(s *Sort)
	noteSort = func(s *Sort) {
		switch s.K {
		case KUn:
			sorts[s.Name] = true
		case KArr:
			noteSort(s.Dom)
			noteSort(s.Rng)
		}
	}
	var body strings.Builder
	var dnames []string
	declare := func(name, d string) {
		if _, ok := decls[name]; !ok {
			decls[name] = d
			dnames = append(dnames, name)
		}
	}
	ref := func(t *Term) string { return names[t.ID] }
	for _, t := range order {
		noteSort(t.S)
		var s string
		switch t.Op {
		case OTrue:
			s = "true"
		case OFalse:
			s = "false"
		case OVar:
			s = quote(t.Name)
			declare(s, "(declare-const "+s+" "+t.S.str+")")
		case OBV:
			if t.S.W%4 == 0 {
				s = fmt.Sprintf("#x%0*x", t.S.W/4, t.V)
			} else {
				s = fmt.Sprintf("(_ bv%d %d)", t.V, t.S.W)
			}
		case OIntC:
			if int64(t.V) < 0 {
				s = fmt.Sprintf("(- %d)", -int64(t.V))
			} else {
				s = fmt.Sprintf("%d", t.V)
			}
		case OCpy, OMerge, OLam:
			s = fmt.Sprintf("opaque!%d", t.ID)
			declare(s, "(declare-const "+s+" "+t.S.str+")")
		case OBound:
			panic("unbound variable in query: " + t.Name)
		default:
			var h string
			switch t.Op {
			case OApp:
				h = quote(t.Name)
				var ds []string
				for _, a := range t.A {
					ds = append(ds, a.S.str)
				}
				if len(t.A) == 0 {
					declare(h, "(declare-const "+h+" "+t.S.str+")")
				} else {
					declare(h, "(declare-fun "+h+" ("+strings.Join(ds, " ")+") "+t.S.str+")")
				}
			case OExtract:
				h = fmt.Sprintf("(_ extract %d %d)", t.P1, t.P2)
			case OZExt:
				h = fmt.Sprintf("(_ zero_extend %d)", t.S.W-t.A[0].S.W)
			case OSExt:
				h = fmt.Sprintf("(_ sign_extend %d)", t.S.W-t.A[0].S.W)
			case OConstArr:
				h = "(as const " + t.S.str + ")"
			case OAdd:
				h = "bvadd"
				if t.S == Int {
					h = "+"
				}
			default:
				h = smtop[t.Op]
			}
			if len(t.A) == 0 {
				s = h
			} else {
				var sb strings.Builder
				sb.WriteString("(")
				sb.WriteString(h)
				for _, a := range t.A {
					sb.WriteString(" ")
					sb.WriteString(ref(a))
				}
				sb.WriteString(")")
				s = sb.String()
			}
			if cnt[t.ID] > 1 || len(s) > 2000 {
				n := fmt.Sprintf("t!%d", t.ID)
				fmt.Fprintf(&body, "(define-fun %s () %s %s)\n", n, t.S.str, s)
				s = n
			}
		}
		names[t.ID] = s
	}
	var sn []string
	for s := range sorts {
		sn = append(sn, s)
	}
	sort.Strings(sn)
	for _, s := range sn {
		fmt.Fprintf(&out, "(declare-sort %s 0)\n", s)
	}
	for _, n := range dnames {
		out.WriteString(decls[n])
		out.WriteString("\n")
	}
	out.WriteString(body.String())
	// literals of one sort are pairwise distinct; constructed values are not nil
	lits := map[string][]string{}
	var ls []string
	for _, t := range order {
		if t.Op == OApp && len(t.A) == 0 && ctorClass(t.Name) == 'l' {
			if lits[t.S.str] == nil {
				ls = append(ls, t.S.str)
			}
			lits[t.S.str] = append(lits[t.S.str], names[t.ID])
		}
	}
	for _, l := range ls {
		if len(lits[l]) > 1 {
			out.WriteString("(assert (distinct " + strings.Join(lits[l], " ") + "))\n")
		}
	}
	for _, t := range order {
		if t.Op != OApp || t.S.K != KUn {
			continue
		}
		k := ctorClass(t.Name)
		if k == 0 || k == 'l' {
			continue
		}
		if n := quote("lit:nil" + t.S.Name); decls[n] != "" {
			out.WriteString("(assert (not (= " + n + " " + names[t.ID] + ")))\n")
		}
	}
	for _, f := range fs {
		out.WriteString("(assert " + names[f.ID] + ")\n")
	}
	return out.String()
}

var smtop = map[Op]string{ONot: "not", OAnd: "and", OOr: "or", OIte: "ite", OEq: "=", OMul: "bvmul", OUdiv: "bvudiv", OUrem: "bvurem", OSdiv: "bvsdiv", OSrem: "bvsrem", OBAnd: "bvand", OBOr: "bvor", OBXor: "bvxor", OBNot: "bvnot", OShl: "bvshl", OLshr: "bvlshr", OAshr: "bvashr", OUlt: "bvult", OUle: "bvule", OSlt: "bvslt", OSle: "bvsle", OConcat: "concat", OILe: "<=", OILt: "<", OSelect: "select", OStore: "store"}

func quote(n string) string {
	for _, r := range n {
		if !(r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || strings.ContainsRune("!@_.-$", r)) {
			return "|" + strings.ReplaceAll(n, "|", "!") + "|"
		}
	}
	return n
}

// solveEqs uses the equations among the hypotheses that fix a bit-vector
// constant to eliminate it, so that index terms become syntactically equal.
func (q *Query) solveEqs() ([]*Term, *Term) {
	c := q.C
	keep := map[*Term]bool{}
	for _, r := range q.Regions {
		keep[r.Base] = true
	}
	hyps := append([]*Term(nil), q.Hyps...)
	goal := q.Goal
	done := map[int]bool{}
	uses := map[int]int{}
	seen := map[int]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		for _, a := range t.A {
			uses[a.ID]++
			if !seen[a.ID] {
				seen[a.ID] = true
				walk(a)
			}
		}
	}
	for _, h := range hyps {
		walk(h)
	}
	if goal != nil {
		walk(goal)
	}
	for n := 0; n < 24; n++ {
		var v, by *Term
		for _, h := range hyps {
			if h.Op != OEq || done[h.ID] || h.A[0].S.K != KBV {
				continue
			}
			l := c.lin(h.A[0]).sub(c.lin(h.A[1]))
			m := mask(l.w)
			var best *Term
			for id, co := range l.at {
				t := l.terms[id]
				if t.Op != OVar || t.Alloc != 0 || t.Ref || keep[t] || co != 1 && co != m {
					continue
				}
				if best == nil || uses[t.ID] < uses[best.ID] || uses[t.ID] == uses[best.ID] && t.ID > best.ID {
					best = t
				}
			}
			done[h.ID] = true
			if best == nil {
				continue
			}
			co := l.at[best.ID]
			delete(l.at, best.ID)
			r := c.fromLin(l)
			if co == 1 {
				r = c.Neg(r)
			}
			if occurs(best, r, map[int]bool{}) {
				continue
			}
			v, by = best, r
			break
		}
		if v == nil {
			break
		}
		memo := map[int]*Term{v.ID: by}
		out := hyps[:0:0]
		for _, h := range hyps {
			x := c.substAll(h, memo)
			if x.IsTrue() {
				continue
			}
			if x.Op == OAnd {
				out = append(out, x.A...)
			} else {
				out = append(out, x)
			}
		}
		hyps = out
		if goal != nil {
			goal = c.substAll(goal, memo)
		}
	}
	return hyps, goal
}

func occurs(v, t *Term, memo map[int]bool) bool {
	if v == t {
		return true
	}
	if len(t.A) == 0 || memo[t.ID] {
		return false
	}
	memo[t.ID] = true
	for _, a := range t.A {
		if occurs(v, a, memo) {
			return true
		}
	}
	return false
}
