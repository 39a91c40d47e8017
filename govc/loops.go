package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"govc/smt"
)

type loopInfo struct {
	head *ssa.BasicBlock
	body map[*ssa.BasicBlock]bool
	n    int
}

// findLoops returns the natural loops by header (bodies of several back edges
// to one header are merged).
func findLoops(fn *ssa.Function) map[*ssa.BasicBlock]*loopInfo {
	res := map[*ssa.BasicBlock]*loopInfo{}
	for _, b := range fn.Blocks {
		for _, h := range b.Succs {
			if !h.Dominates(b) {
				continue
			}
			li := res[h]
			if li == nil {
				li = &loopInfo{head: h, body: map[*ssa.BasicBlock]bool{h: true}}
				res[h] = li
			}
			work := []*ssa.BasicBlock{b}
			for len(work) > 0 {
				q := work[len(work)-1]
				work = work[:len(work)-1]
				if li.body[q] {
					continue
				}
				li.body[q] = true
				work = append(work, q.Preds...)
			}
		}
	}
	var hs []*ssa.BasicBlock
	for h := range res {
		hs = append(hs, h)
	}
	sort.Slice(hs, func(i, j int) bool { return hs[i].Index < hs[j].Index })
	for i, h := range hs {
		res[h].n = i
	}
	return res
}

// unrollable: the loop counts from a known number to a known bound in a few
// steps, so it is executed iteration by iteration.
func (x *Exec) unrollable(it *item, li *loopInfo) bool {
	const most = 16
	h := li.head
	iff, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	cmp, ok := iff.Cond.(*ssa.BinOp)
	if !ok || cmp.Block() != h {
		return false
	}
	num := func(v ssa.Value) (uint64, bool) {
		if k, ok := v.(*ssa.Const); ok && k.Value != nil {
			w := x.constVal(k)
			if len(w.L) == 1 && w.L[0].Op == smt.OBV {
				return w.L[0].V, true
			}
			return 0, false
		}
		if w, ok := it.env[v]; ok && len(w.L) == 1 && w.L[0].Op == smt.OBV {
			return w.L[0].V, true
		}
		return 0, false
	}
	step := func(v ssa.Value) (*ssa.Phi, uint64) {
		if b, ok := v.(*ssa.BinOp); ok && b.Op == token.ADD {
			if p, ok := b.X.(*ssa.Phi); ok && p.Block() == h {
				if k, ok := num(b.Y); ok && b.Y.Parent() == nil {
					return p, k
				}
			}
		}
		return nil, 0
	}
	var ph *ssa.Phi
	if p, ok := cmp.X.(*ssa.Phi); ok && p.Block() == h {
		ph = p
	} else if p, _ := step(cmp.X); p != nil {
		ph = p
	}
	if ph == nil || cmp.Op != token.LSS && cmp.Op != token.LEQ && cmp.Op != token.NEQ {
		return false
	}
	hi, ok := num(cmp.Y)
	if !ok {
		return false
	}
	for i, e := range ph.Edges {
		pr := h.Preds[i]
		if li.body[pr] {
			if p, k := step(e); p != ph || k != 1 {
				return false
			}
			continue
		}
		if pr == it.prev {
			lo, ok := num(e)
			if !ok {
				return false
			}
			if d := int64(hi) - int64(lo); d < 0 || d > most {
				return false
			}
		}
	}
	return true
}

// metavar is something a candidate invariant can talk about: a header phi or
// a local variable living in memory.
type metavar struct {
	name string
	init Val
	cur  Val
	phi  *ssa.Phi
	cell *Ptr
	ct   types.Type
}

type cand struct {
	name string
	user bool // from the contract
	// eval builds the invariant over a state: vals gives the current values of the metavars
	eval func(st *State, vals []Val) (t *T, err error)
}

func (c cand) ms() int {
	if c.user {
		return 30000
	}
	return 1500
}

// loop handles the arrival of an item at a loop header from outside.
func (x *Exec) loop(it *item, fr *Frame, li *loopInfo) *runResult {
	c := x.C
	stop := &stopCtx{loop: li}
	h := li.head
	entry := it.clone()
	clk0 := it.st.clock
	wl0 := len(it.st.wlog)
	var phis []*ssa.Phi
	initVals := map[ssa.Value]Val{}
	for _, ins := range h.Instrs {
		p, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, p)
	}
	x.phis(it, h, it.prev, initVals)

	// 1. components the loop changes (least fixed point of trial runs)
	type shape struct {
		full  bool
		allow []*T // references existing before the loop that may be written
	}
	mods := map[string]*shape{}
	clk1 := clk0 + 1000
	start := func(shapes map[string]*shape) *item {
		n := entry.clone()
		n.st.clock = clk1
		for _, k := range sortedShape(mods) {
			old := n.st.heap[k]
			ci := x.compSort[k]
			if old == nil {
				old = n.st.comp(k, ci.s, ci.ref)
			}
			fresh := c.Base(fmt.Sprintf("%s@L%d.%s.%d.%d", k, li.n, fr.fn.Name(), clk0, old.ID), ci.s, k, clk1, ci.ref)
			sh := mods[k]
			if !sh.full && ci.s.K == smt.KArr && ci.s.Dom == smt.BV64 {
				bv := c.Bound("r", smt.BV64)
				g := []*T{c.Not(c.ILe(c.RawApp("birth", smt.Int, bv), c.IntC(int64(clk0))))}
				for _, a := range sh.allow {
					g = append(g, c.Eq(bv, a))
				}
				fresh = c.Merge(bv, c.Or(g...), fresh, old)
			}
			n.st.heap[k] = fresh
		}
		n.prev = nil
		for _, p := range phis {
			v := Val{T: p.Type()}
			iv := initVals[p]
			for i, lf := range x.layout(p.Type()).Leaves {
				// a phi leaf that never changes keeps its value: decided by candidates
				v.L = append(v.L, c.Base(fmt.Sprintf("phi.%s.L%d.%s.%d.%d.%d", p.Name(), li.n, fr.fn.Name(), clk0, iv.L[i].ID, i), lf.Sort, "phi"+lf.Path, clk1, lf.Ref))
			}
			x.fixPtr(&v, n.st, false)
			x.typeInv(n.st, v)
			n.env[p] = v
		}
		n.pc = len(phis)
		n.st.wlog = n.st.wlog[:wl0:wl0]
		return n
	}
	x.dry++
	for round := 0; ; round++ {
		s := start(mods)
		before := map[string]*T{}
		for k, v := range s.st.heap {
			before[k] = v
		}
		rr := x.run([]*item{s}, fr, stop)
		grew := false
		stable := func(t *T) bool { return !mentions(t, clk1, map[int]bool{}) }
		for _, b := range rr.back {
			for k, v := range b.st.heap {
				if bv, ok := before[k]; ok && bv == v {
					continue
				}
				if before[k] == nil {
					ci := x.compSort[k]
					if v == b.st.base(k, ci.s, ci.ref) {
						continue
					}
				}
				if mods[k] == nil {
					mods[k] = &shape{}
					grew = true
				}
				sh := mods[k]
				ci := x.compSort[k]
				if sh.full {
					continue
				}
				if ci.s.K != smt.KArr || ci.s.Dom != smt.BV64 || k == "M" || k == "prot" {
					sh.full = true
					grew = true
					continue
				}
				seenW := false
				for _, w := range b.st.wlog[wl0:] {
					if w.comp != k {
						continue
					}
					seenW = true
					if w.base == nil {
						sh.full = true
						grew = true
						break
					}
					if w.base.Alloc > clk0 {
						continue
					}
					if !stable(w.base) {
						// written through a loop variable: what it points to initially may change
						for _, p := range phis {
							for i, lf := range x.layout(p.Type()).Leaves {
								if s.env[p].L[i] != w.base || !lf.Ref {
									continue
								}
								iv := initVals[p].L[i]
								if iv.IsConst() {
									continue
								}
								dup := false
								for _, a := range sh.allow {
									if a == iv {
										dup = true
									}
								}
								if !dup {
									sh.allow = append(sh.allow, iv)
									grew = true
								}
							}
						}
					}
					if stable(w.base) {
						found := false
						for _, a := range sh.allow {
							if a == w.base {
								found = true
							}
						}
						if !found {
							sh.allow = append(sh.allow, w.base)
							grew = true
						}
					}
				}
				_ = seenW
			}
		}
		if !grew {
			break
		}
		if round > 12 {
			panic(unsupported("loop effects do not stabilise in " + fr.fn.String()))
		}
	}
	x.dry--
	// 2. candidates
	var mv []metavar
	probe := start(mods)
	for _, p := range phis {
		mv = append(mv, metavar{name: p.Name(), init: initVals[p], cur: probe.env[p], phi: p, ct: p.Type()})
	}
	for _, cl := range x.localCells(probe, mods2names(mods, func(s *shape) bool { return true })) {
		iv := x.loadQuiet(entry.st, cl.p)
		cv := x.loadQuiet(probe.st, cl.p)
		same := true
		for i := range iv.L {
			if iv.L[i] != cv.L[i] {
				same = false
			}
		}
		if same {
			continue
		}
		mv = append(mv, metavar{name: "cell." + cl.name, init: iv, cur: cv, cell: cl.p, ct: cl.p.T})
	}
	cands := x.candidates(fr, li, entry, probe, mv, clk0)

	valsIn := func(b *item, env map[ssa.Value]Val) []Val {
		var vs []Val
		for _, m := range mv {
			if m.phi != nil {
				vs = append(vs, env[m.phi])
			} else {
				vs = append(vs, x.loadQuiet(b.st, m.cell))
			}
		}
		return vs
	}
	initV := make([]Val, len(mv))
	for i, m := range mv {
		initV[i] = m.init
	}
	// initially true?
	var alive []cand
	x.dry++
	var gs []*T
	for _, cd := range cands {
		t, err := cd.eval(entry.st, initV)
		if err != nil {
			t = nil
		}
		gs = append(gs, t)
	}
	initial := x.provesMany(entry.st, gs, func(int) int { return 1000 })
	late := make([]*T, len(gs)) // those that speak of function values
	again := false
	for i, ok := range initial {
		if gs[i] != nil && !ok && hasSat(gs[i]) {
			late[i], again = gs[i], true
		}
	}
	if again {
		x.saturateGoals(entry, late)
		for i, ok := range x.provesMany(entry.st, late, func(int) int { return 1000 }) {
			if late[i] != nil && ok {
				initial[i] = true
			}
		}
	}
	for i, ok := range initial {
		if gs[i] == nil {
			continue
		}
		if ok {
			alive = append(alive, cands[i])
		} else {
			x.trace("loop %s.%d: candidate not initially true: %s", fr.fn.Name(), li.n, cands[i].name)
		}
	}
	// preserved?
	for round := 0; ; round++ {
		s := start(mods)
		sv := valsIn(s, s.env)
		for _, cd := range alive {
			t, err := cd.eval(s.st, sv)
			if err == nil && t != nil {
				s.st.assume(t)
			}
		}
		rr := x.run([]*item{s}, fr, stop)
		changed := false
		// frame shapes
		for _, b := range rr.back {
			for _, w := range b.st.wlog[wl0:] {
				sh := mods[w.comp]
				if sh == nil || sh.full || w.base == nil || w.base.Alloc > clk0 {
					continue
				}
				ok := false
				for _, a := range sh.allow {
					if a == w.base {
						ok = true
					}
				}
				if ok {
					continue
				}
				g := []*T{c.Not(c.ILe(c.RawApp("birth", smt.Int, w.base), c.IntC(int64(clk0))))}
				for _, a := range sh.allow {
					g = append(g, c.Eq(w.base, a))
				}
				if !x.proves(b.st, c.Or(g...)) {
					x.trace("loop %s.%d: frame of %s not provable (write at %s)", fr.fn.Name(), li.n, w.comp, w.base)
					sh.full = true
					changed = true
				}
			}
		}
		var keep []cand
		dead := map[int]bool{}
		// what speaks of function values is looked at once the rest is settled
		for pass := 0; pass < 2; pass++ {
			if pass == 1 && (changed || len(dead) > 0) {
				break
			}
			for _, b := range rr.back {
				env2 := map[ssa.Value]Val{}
				x.phis(b, h, b.prev, env2)
				bv := valsIn(b, env2)
				gs := make([]*T, len(alive))
				for i, cd := range alive {
					if dead[i] {
						continue
					}
					if t, err := cd.eval(b.st, bv); err == nil && t != nil && hasSat(t) == (pass == 1) {
						gs[i] = t
					} else if (err != nil || t == nil) && pass == 0 {
						gs[i] = c.False
					}
				}
				x.saturateGoals(b, gs)
				res := x.provesMany(b.st, gs, func(i int) int { return alive[i].ms() })
				for i, cd := range alive {
					if dead[i] || gs[i] == nil {
						continue
					}
					if !res[i] {
						t := gs[i]
						dead[i] = true
						x.trace("loop %s.%d: candidate not preserved: %s (from block %d) round %d", fr.fn.Name(), li.n, cd.name, b.prev.Index, round)
						if d := os.Getenv("GOVC_DUMPCAND"); d != "" && strings.Contains(cd.name, d) && t != nil {
							fmt.Fprintf(os.Stderr, "CAND GOAL %s\n", t)
							for _, h := range b.st.path {
								fmt.Fprintf(os.Stderr, "  HYP %s\n", h)
							}
							for _, dp := range []int{1, 2, 4} {
								q := x.query(b.st, t)
								q.Depth = dp
								q.Rounds = dp
								os.WriteFile(fmt.Sprintf("/tmp/cand%d.%d.smt2", round, dp), []byte(smt.Emit(x.C, q.Build())+"(check-sat)\n"), 0o644)
							}
						}
					}
				}
			}
		}
		for i, cd := range alive {
			if !dead[i] {
				keep = append(keep, cd)
			}
		}
		if len(keep) != len(alive) {
			changed = true
		}
		alive = keep
		if !changed {
			break
		}
		if round > 25 {
			alive = nil
			break
		}
	}
	x.dry--
	// 3. the real pass
	s := start(mods)
	sv := valsIn(s, s.env)
	var names []string
	for _, cd := range alive {
		t, err := cd.eval(s.st, sv)
		if err == nil && t != nil {
			s.st.assume(t)
			names = append(names, cd.name)
		}
	}
	x.trace("loop %s.%d: invariant: %s", fr.fn.Name(), li.n, strings.Join(names, " && "))
	if x.dry == 0 {
		x.V.noteLoop(fnKey(fr.fn), li.n, len(cands), names)
	}
	for _, k := range sortedShape(mods) {
		if mods[k].full {
			s.st.wlog = append(s.st.wlog, wrec{comp: k})
		}
		for _, a := range mods[k].allow {
			s.st.wlog = append(s.st.wlog, wrec{comp: k, base: a})
		}
	}
	rr := x.run([]*item{s}, fr, stop)
	rr.back = nil
	return rr
}

func sortedShape[V any](m map[string]V) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

func mods2names[V any](m map[string]V, f func(V) bool) []string {
	var r []string
	for k, v := range m {
		if f(v) {
			r = append(r, k)
		}
	}
	sort.Strings(r)
	return r
}

// mentions: does the term depend on a constant introduced at the loop header?
func mentions(t *T, clk int, seen map[int]bool) bool {
	if seen[t.ID] {
		return false
	}
	seen[t.ID] = true
	if t.Op == smt.OVar {
		if t.Clock >= clk || t.Alloc > clk {
			return true
		}
		if t.Clock < 0 && t.Alloc == 0 && strings.Contains(t.Name, "!") {
			return true // anonymous fresh constant: assume it is local
		}
	}
	for _, a := range t.A {
		if mentions(a, clk, seen) {
			return true
		}
	}
	return false
}

type cellRef struct {
	name string
	p    *Ptr
}

// localCells lists the memory cells of local variables in the current frame.
func (x *Exec) localCells(it *item, mods []string) []cellRef {
	var r []cellRef
	mod := map[string]bool{}
	for _, m := range mods {
		mod[m] = true
	}
	var vals []ssa.Value
	for v := range it.env {
		switch v.(type) {
		case *ssa.Alloc, *ssa.FreeVar:
			vals = append(vals, v)
		}
	}
	sort.Slice(vals, func(i, j int) bool { return vals[i].Name() < vals[j].Name() })
	for _, v := range vals {
		p := it.env[v].P
		if p == nil || p.Kind != PObj || p.View != nil {
			continue
		}
		touched := false
		lay := x.layout(p.Root)
		for i := 0; i < p.N; i++ {
			if mod[x.compName(p, lay.Leaves[p.Lo+i])] {
				touched = true
			}
		}
		if touched {
			r = append(r, cellRef{v.Name(), p})
		}
	}
	return r
}

func (x *Exec) loadQuiet(st *State, p *Ptr) Val {
	r, w := x.onRead, x.onWrite
	x.onRead, x.onWrite = nil, nil
	defer func() { x.onRead, x.onWrite = r, w }()
	if p.Kind == PRaw {
		return x.loadRaw(st, p.Base, p.T)
	}
	lay := x.layout(p.Root)
	v := Val{T: p.T}
	for i := 0; i < p.N; i++ {
		v.L = append(v.L, st.readLeaf(p, lay.Leaves[p.Lo+i]))
	}
	x.fixPtr(&v, st, false)
	return v
}

// candidates builds the candidate invariants of a loop.
func (x *Exec) candidates(fr *Frame, li *loopInfo, entry, probe *item, mv []metavar, clk0 int) []cand {
	c := x.C
	var out []cand
	add := func(name string, f func(st *State, vs []Val) *T) {
		out = append(out, cand{name: name, eval: func(st *State, vs []Val) (*T, error) { return f(st, vs), nil }})
	}
	isInt := func(v Val) bool {
		if len(v.L) != 1 || v.L[0].S.K != smt.KBV {
			return false
		}
		b, ok := v.T.Underlying().(*types.Basic)
		return ok && b.Info()&types.IsInteger != 0
	}
	isSlice := func(v Val) bool {
		_, ok := v.T.Underlying().(*types.Slice)
		return ok
	}
	slen := func(v Val) *T { return v.L[len(v.L)-2] }
	// bounds appearing in comparisons of the loop, evaluated where stable
	type bound struct {
		name string
		t    *T
	}
	var bounds []bound
	seenB := map[int]bool{}
	addBound := func(n string, t *T) {
		if t.S.K == smt.KBV && !seenB[t.ID] {
			seenB[t.ID] = true
			bounds = append(bounds, bound{n, t})
		}
	}
	for b := range li.body {
		for _, ins := range b.Instrs {
			bo, ok := ins.(*ssa.BinOp)
			if !ok {
				continue
			}
			for _, o := range []ssa.Value{bo.X, bo.Y} {
				if k, isC := o.(*ssa.Const); isC {
					if k.Value != nil {
						func() {
							defer func() { recover() }()
							v := x.constVal(k)
							if len(v.L) == 1 {
								addBound(k.Name(), v.L[0])
							}
						}()
					}
					continue
				}
				if v, ok := entry.env[o]; ok && len(v.L) == 1 {
					addBound(o.Name(), v.L[0])
				}
			}
		}
	}
	for v, val := range entry.env {
		if val.T != nil && len(val.L) > 0 {
			if _, ok := v.(*ssa.Parameter); ok && isSlice(val) {
				addBound("len("+v.Name()+")", slen(val))
			}
		}
	}
	sort.Slice(bounds, func(i, j int) bool { return bounds[i].t.ID < bounds[j].t.ID })
	for i := range mv {
		i := i
		m := mv[i]
		if isInt(m.cur) {
			sg := isSigned(m.ct)
			le := func(a, b *T) *T {
				if sg {
					return c.Sle(a, b)
				}
				return c.Ule(a, b)
			}
			lt := func(a, b *T) *T {
				if sg {
					return c.Slt(a, b)
				}
				return c.Ult(a, b)
			}
			ini := m.init.L[0]
			add(m.name+">=init", func(st *State, vs []Val) *T { return le(ini, vs[i].L[0]) })
			add(m.name+"<=init", func(st *State, vs []Val) *T { return le(vs[i].L[0], ini) })
			if sg {
				add(m.name+">=0", func(st *State, vs []Val) *T { return le(c.BVC(0, ini.S.W), vs[i].L[0]) })
				add(m.name+">=-1", func(st *State, vs []Val) *T { return le(c.BVC(^uint64(0), ini.S.W), vs[i].L[0]) })
				add(m.name+"<2^46", func(st *State, vs []Val) *T {
					if ini.S.W < 64 {
						return nil
					}
					return lt(vs[i].L[0], c.C64(1<<46))
				})
			}
			for _, b := range bounds {
				b := b
				if b.t.S != ini.S || b.t == ini {
					continue
				}
				add(m.name+"<="+b.name, func(st *State, vs []Val) *T { return le(vs[i].L[0], b.t) })
				add(m.name+"<"+b.name, func(st *State, vs []Val) *T { return lt(vs[i].L[0], b.t) })
			}
		}
		// reference leaves: unchanged or younger than the loop
		for k, lf := range x.layout(m.ct).Leaves {
			k := k
			if !lf.Ref || lf.Nest > 0 || lf.Sort != smt.BV64 {
				continue
			}
			ini := m.init.L[k]
			add(fmt.Sprintf("%s%s new or initial", m.name, lf.Path), func(st *State, vs []Val) *T {
				t := vs[i].L[k]
				return c.Or(c.Eq(t, ini), c.Not(c.ILe(c.RawApp("birth", smt.Int, t), c.IntC(int64(clk0)))))
			})
			add(fmt.Sprintf("%s%s new", m.name, lf.Path), func(st *State, vs []Val) *T {
				t := vs[i].L[k]
				return c.Not(c.ILe(c.RawApp("birth", smt.Int, t), c.IntC(int64(clk0))))
			})
			add(fmt.Sprintf("%s%s nil, empty or new", m.name, lf.Path), func(st *State, vs []Val) *T {
				t := vs[i].L[k]
				return c.Or(c.Eq(t, c.C64(0)), c.Not(c.ILe(c.RawApp("birth", smt.Int, t), c.IntC(int64(clk0)))))
			})
		}
		for k := range m.init.L {
			k := k
			if m.init.L[k].S.K == smt.KArr {
				continue
			}
			add(fmt.Sprintf("%s#%d==init", m.name, k), func(st *State, vs []Val) *T { return c.Eq(vs[i].L[k], m.init.L[k]) })
			if x.layout(m.ct).Leaves[k].Path != "" && strings.HasSuffix(x.layout(m.ct).Leaves[k].Path, ".#off") {
				add(fmt.Sprintf("%s.off==0", m.name), func(st *State, vs []Val) *T { return c.Eq(vs[i].L[k], c.C64(0)) })
			}
		}
	}
	for i := range mv {
		for j := range mv {
			i, j := i, j
			if i == j {
				continue
			}
			a, b := mv[i], mv[j]
			if isInt(a.cur) && isInt(b.cur) && i < j && a.cur.L[0].S == b.cur.L[0].S {
				d := c.Sub(a.init.L[0], b.init.L[0])
				add(a.name+"-"+b.name+"==const", func(st *State, vs []Val) *T { return c.Eq(c.Sub(vs[i].L[0], vs[j].L[0]), d) })
			}
			if isSlice(a.cur) && isInt(b.cur) && b.cur.L[0].S == smt.BV64 {
				d := c.Sub(slen(a.init), b.init.L[0])
				add("len("+a.name+")-"+b.name+"==const", func(st *State, vs []Val) *T { return c.Eq(c.Sub(slen(vs[i]), vs[j].L[0]), d) })
			}
			if isSlice(a.cur) && isSlice(b.cur) && i < j {
				d := c.Sub(slen(a.init), slen(b.init))
				add("len("+a.name+")-len("+b.name+")==const", func(st *State, vs []Val) *T { return c.Eq(c.Sub(slen(vs[i]), slen(vs[j])), d) })
			}
		}
	}
	// ranges over maps: the keys produced are gone; no key is added
	for b := range li.body {
		for _, ins := range b.Instrs {
			nx, ok := ins.(*ssa.Next)
			if !ok {
				continue
			}
			iv, ok := entry.env[nx.Iter]
			if !ok || len(iv.Tup) == 0 {
				continue
			}
			m, ok := iv.Tup[0].T.Underlying().(*types.Map)
			if !ok {
				continue
			}
			ks := x.mapKeySort(m)
			as := c.Arr(smt.BV64, c.Arr(ks, smt.Bool))
			nv, ns := "IV:"+x.mapName(m), "IS:"+x.mapName(m)
			r, ref := iv.L[0], iv.L[1]
			add("keys produced are removed", func(st *State, vs []Val) *T {
				_, d := x.mapDom(st, m)
				k := c.Bound("k", ks)
				return c.Forall(k, c.Imp(c.Select(c.Select(st.comp(nv, as, false), r), k), c.Not(c.Select(c.Select(d, ref), k))))
			})
			add("no key is added", func(st *State, vs []Val) *T {
				_, d := x.mapDom(st, m)
				k := c.Bound("k", ks)
				return c.Forall(k, c.Imp(c.Select(c.Select(d, ref), k), c.Select(c.Select(st.comp(ns, as, false), r), k)))
			})
		}
	}
	// templates from the contracts of the functions being executed
	out = append(out, x.templateCands(fr, entry, mv)...)
	return out
}
