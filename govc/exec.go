package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"

	"govc/smt"
)

// Exec symbolically executes one verification root.
type Exec struct {
	C   *smt.Ctx
	P   *Program
	V   *Verifier
	Sol *smt.Solver

	owg   sync.WaitGroup // obligations being decided
	omu   sync.Mutex
	again []*pending

	layouts   map[string]*Layout
	compSort  map[string]compInfo
	interior  map[int]*Ptr
	allocType map[int]types.Type
	litTypes  map[string]types.Type
	boxTypes  map[string]types.Type
	clos      map[string]*closInfo

	root     *Root
	dry      int
	depth    int
	stack    []*ssa.Function
	steps    int
	maxSteps int

	onRead  func(st *State, p *Ptr, l Leaf)
	onWrite func(st *State, p *Ptr, l Leaf)

	regionsAll  []smt.Region
	usedExt     map[string]bool
	usedCon     map[string]bool
	inlined     map[string]bool
	frames      []*Frame
	heldTerms   map[int]*T
	noGuard     int
	specState   *State
	rootEnv     *Env
	rootEntry   *State
	candClauses []*Clause
	satMemo     map[string]bool
	born        map[int][]*State // the states in which each function value was made
	nEpoch      int
	sink        *sink
	oblPre      string
	ghosts      map[string]Val
}

type closInfo struct {
	fn    *ssa.Function
	binds []types.Type
}

// Outcome is one way a call can end.
type Outcome struct {
	St    *State
	Res   []Val
	Panic *Val // interface value when the call panics
}

type Frame struct {
	fn    *ssa.Function
	loops map[*ssa.BasicBlock]*loopInfo
	entry *State
}

type deferRec struct {
	call *ssa.CallCommon
	fv   Val
	args []Val
}

type item struct {
	st     *State
	env    map[ssa.Value]Val
	b      *ssa.BasicBlock
	prev   *ssa.BasicBlock
	pc     int
	defers []deferRec
	unroll map[*loopInfo]bool // loops being executed iteration by iteration
}

func (it *item) clone() *item {
	n := *it
	n.st = it.st.clone()
	n.env = make(map[ssa.Value]Val, len(it.env)+4)
	for k, v := range it.env {
		n.env[k] = v
	}
	n.defers = it.defers[:len(it.defers):len(it.defers)]
	if it.unroll != nil {
		n.unroll = make(map[*loopInfo]bool, len(it.unroll))
		for k, v := range it.unroll {
			n.unroll[k] = v
		}
	}
	return &n
}

// runResult collects what leaves a region of a function.
type runResult struct {
	outs  []fnOut
	back  []*item
	exits []*item
}

type fnOut struct {
	it    *item
	res   []Val
	panic *Val
}

type stopCtx struct {
	loop *loopInfo
	up   *stopCtx
}

func (x *Exec) fail(st *State, name, msg string) {
	x.oblige(st, name, x.C.False, msg)
}

// callFn runs fn on args (inlining its body) and returns every outcome.
func (x *Exec) callFn(st *State, fn *ssa.Function, args []Val, binds []Val) []Outcome {
	if len(fn.Blocks) == 0 {
		panic(unsupported("call of function without body: " + fn.String()))
	}
	if x.depth > 40 {
		panic(unsupported("call depth exceeded at " + fn.String()))
	}
	n := 0
	for _, f := range x.stack {
		if f == fn {
			n++
		}
	}
	if n > 3 {
		panic(unsupported("recursion without contract: " + fn.String()))
	}
	x.depth++
	x.stack = append(x.stack, fn)
	fr := &Frame{fn: fn, loops: findLoops(fn), entry: st}
	x.frames = append(x.frames, fr)
	defer func() {
		x.depth--
		x.stack = x.stack[:len(x.stack)-1]
		x.frames = x.frames[:len(x.frames)-1]
	}()
	env := map[ssa.Value]Val{}
	for i, p := range fn.Params {
		v := args[i]
		v.T = p.Type()
		env[p] = v
	}
	for i, p := range fn.FreeVars {
		v := binds[i]
		env[p] = v
	}
	it := &item{st: st.clone(), env: env, b: fn.Blocks[0]}
	rr := x.run([]*item{it}, fr, nil)
	var outs []Outcome
	for _, o := range rr.outs {
		if o.panic == nil {
			outs = append(outs, Outcome{St: o.it.st, Res: o.res})
			continue
		}
		outs = append(outs, x.unwind(o, fr)...)
	}
	return outs
}

// unwind runs the pending deferred calls of a panicking frame.
func (x *Exec) unwind(o fnOut, fr *Frame) []Outcome {
	if len(o.it.defers) == 0 {
		return []Outcome{{St: o.it.st, Panic: o.panic}}
	}
	type pend struct {
		it  *item
		val Val
		rec bool
	}
	work := []pend{{o.it, *o.panic, false}}
	var done []Outcome
	for len(work) > 0 {
		p := work[len(work)-1]
		work = work[:len(work)-1]
		if len(p.it.defers) == 0 {
			if !p.rec {
				v := p.val
				done = append(done, Outcome{St: p.it.st, Panic: &v})
				continue
			}
			// recovered: run the recover block, or return zero values
			if fr.fn.Recover != nil {
				it := p.it.clone()
				it.b, it.prev, it.pc = fr.fn.Recover, nil, 0
				rr := x.run([]*item{it}, fr, nil)
				for _, ro := range rr.outs {
					if ro.panic != nil {
						done = append(done, Outcome{St: ro.it.st, Panic: ro.panic})
					} else {
						done = append(done, Outcome{St: ro.it.st, Res: ro.res})
					}
				}
			} else {
				var res []Val
				rt := fr.fn.Signature.Results()
				for i := 0; i < rt.Len(); i++ {
					res = append(res, x.zero(rt.At(i).Type()))
				}
				done = append(done, Outcome{St: p.it.st, Res: res})
			}
			continue
		}
		d := p.it.defers[len(p.it.defers)-1]
		it := p.it.clone()
		it.defers = it.defers[:len(it.defers)-1]
		it.st.panics = append(it.st.panics, panicRec{val: p.val, recovered: p.rec})
		for _, co := range x.doCall(it.st, d.call, d.fv, d.args) {
			n := it.clone()
			n.st = co.St
			pr := n.st.panics[len(n.st.panics)-1]
			n.st.panics = n.st.panics[:len(n.st.panics)-1]
			if co.Panic != nil {
				work = append(work, pend{n, *co.Panic, false})
			} else {
				work = append(work, pend{n, p.val, pr.recovered})
			}
		}
	}
	return done
}

// run executes items until they leave the function or the region of stop.
func (x *Exec) run(work []*item, fr *Frame, stop *stopCtx) *runResult {
	rr := &runResult{}
	for len(work) > 0 {
		it := work[len(work)-1]
		work = work[:len(work)-1]
		if it.st.dead() {
			continue
		}
		if it.pc == 0 && it.prev != nil {
			if li := fr.loops[it.b]; li != nil {
				if li.body[it.prev] {
					if it.unroll[li] {
						goto body
					}
					// back edge
					if stop != nil && stop.loop == li {
						rr.back = append(rr.back, it)
						continue
					}
					panic("back edge outside its loop analysis: " + fr.fn.String())
				}
				if x.unrollable(it, li) {
					m := map[*loopInfo]bool{li: true}
					for k := range it.unroll {
						m[k] = true
					}
					it.unroll = m
					goto body
				}
				delete(it.unroll, li)
				nrr := x.loop(it, fr, li)
				rr.outs = append(rr.outs, nrr.outs...)
				for _, e := range nrr.exits {
					if stop != nil && !stop.loop.body[e.b] {
						rr.exits = append(rr.exits, e)
					} else {
						work = append(work, e)
					}
				}
				for _, bk := range nrr.back {
					if stop != nil && stop.loop.head == bk.b {
						rr.back = append(rr.back, bk)
					}
				}
				continue
			}
		body:
			x.enterBlock(it)
		}
		if stop != nil && !stop.loop.body[it.b] {
			rr.exits = append(rr.exits, it)
			continue
		}
		work = append(work, x.block(it, fr, rr)...)
	}
	return rr
}

// goTo moves an item to a successor block, without evaluating phis of loop
// headers (the loop logic does that).
func (x *Exec) goTo(it *item, to *ssa.BasicBlock) *item {
	it.prev = it.b
	it.b = to
	it.pc = 0
	return it
}

// enterBlock evaluates the phis.
func (x *Exec) enterBlock(it *item) {
	it.pc = x.phis(it, it.b, it.prev, it.env)
}

func (x *Exec) phis(it *item, b, prev *ssa.BasicBlock, out map[ssa.Value]Val) int {
	idx := -1
	for i, p := range b.Preds {
		if p == prev {
			idx = i
		}
	}
	type nv struct {
		p *ssa.Phi
		v Val
	}
	var vs []nv
	n := 0
	for _, ins := range b.Instrs {
		p, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		n++
		v := x.val(it, p.Edges[idx])
		v.T = p.Type()
		vs = append(vs, nv{p, v})
	}
	for _, e := range vs {
		out[e.p] = e.v
	}
	return n
}

func (x *Exec) val(it *item, v ssa.Value) Val {
	switch v := v.(type) {
	case *ssa.Const:
		return x.constVal(v)
	case *ssa.Function:
		return Val{T: v.Type(), L: []*T{x.fnTerm(v, nil)}}
	case *ssa.Global:
		et := v.Type().Underlying().(*types.Pointer).Elem()
		p := &Ptr{Kind: PGlobal, G: x.globalName(v), Root: et, N: len(x.layout(et).Leaves), T: et}
		r := Val{T: v.Type(), P: p}
		r.L = []*T{x.enc(Val{P: p})}
		return r
	case *ssa.Builtin:
		return Val{T: v.Type()}
	}
	r, ok := it.env[v]
	if !ok {
		panic(fmt.Sprintf("no value for %s = %s in %s", v.Name(), v, v.Parent()))
	}
	return r
}

func (x *Exec) globalName(g *ssa.Global) string {
	return shortName(g.Pkg.Pkg.Path()) + "." + g.Name()
}

// bornAt remembers the state in which a function value was made.
func (x *Exec) bornAt(st *State, t *T) {
	x.born[t.ID] = append(x.born[t.ID], st.clone())
}

// birth is the state in which the function value t was made, on the way to
// st, with the components forgotten that have changed since.
func (x *Exec) birthOf(st *State, t *T) *State {
	bs := x.born[t.ID]
	for i := len(bs) - 1; i >= 0; i-- {
		b := bs[i]
		if len(b.path) > len(st.path) || b.epoch != st.epoch {
			continue
		}
		pre := true
		for j := len(b.path) - 1; j >= 0 && pre; j-- {
			pre = b.path[j] == st.path[j]
		}
		if !pre {
			continue
		}
		n := b.clone()
		for k, v := range st.heap {
			if !x.kept(k) {
				continue
			}
			ci := x.compSort[k]
			if old := n.comp(k, v.S, ci.ref); old != v {
				n.setComp(k, x.C.App(fmt.Sprintf("%s.kept@%d", k, old.ID), v.S))
			}
		}
		return n
	}
	return nil
}

func (x *Exec) fnTerm(f *ssa.Function, binds []Val) *T {
	k := "clo:" + shortName(f.String())
	if f.Parent() == nil && len(f.FreeVars) == 0 {
		k = "fn:" + shortName(f.String())
	}
	ci := &closInfo{fn: f}
	var ls []*T
	for i, b := range binds {
		ci.binds = append(ci.binds, f.FreeVars[i].Type())
		if b.P != nil && len(b.L) == 1 {
			ls = append(ls, x.enc(b))
		} else {
			ls = append(ls, b.L...)
		}
	}
	x.clos[k] = ci
	return x.C.App(k, x.C.U("Fn"), ls...)
}

// closure resolves a function term to the function it names.
func (x *Exec) closure(st *State, t *T) (*ssa.Function, []Val, bool) {
	if t.Op != smt.OApp {
		return nil, nil, false
	}
	ci, ok := x.clos[t.Name]
	if !ok {
		return nil, nil, false
	}
	var bs []Val
	i := 0
	for _, bt := range ci.binds {
		n := len(x.layout(bt).Leaves)
		v := Val{T: bt, L: t.A[i : i+n]}
		x.fixPtr(&v, st, true)
		bs = append(bs, v)
		i += n
	}
	return ci.fn, bs, true
}

func (x *Exec) constVal(k *ssa.Const) Val {
	t := k.Type()
	if k.Value == nil {
		return x.zero(t)
	}
	c := x.C
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return Val{T: t, L: []*T{c.B(constant.BoolVal(k.Value))}}
		case u.Info()&types.IsInteger != 0:
			w := int(x.P.Sizes.Sizeof(u)) * 8
			v := constant.ToInt(k.Value)
			if i, ok := constant.Int64Val(v); ok {
				return Val{T: t, L: []*T{c.BVC(uint64(i), w)}}
			}
			uv, _ := constant.Uint64Val(v)
			return Val{T: t, L: []*T{c.BVC(uv, w)}}
		case u.Info()&types.IsString != 0:
			return Val{T: t, L: []*T{x.strLit(constant.StringVal(k.Value))}}
		case u.Info()&types.IsFloat != 0:
			return Val{T: t, L: []*T{c.App("lit:F:"+k.Value.String(), c.U("Flt"))}}
		}
	}
	panic(unsupported("constant " + k.String()))
}

var traceOn = os.Getenv("GOVC_TRACE") != ""

var traceT0 = time.Now()

func (x *Exec) trace(f string, a ...interface{}) {
	if traceOn {
		fmt.Fprintf(os.Stderr, "%7.1f "+strings.Repeat("  ", x.depth)+f+"\n", append([]interface{}{time.Since(traceT0).Seconds()}, a...)...)
	}
}

// block executes one basic block from it.pc; returns successor items.
func (x *Exec) block(it *item, fr *Frame, rr *runResult) []*item {
	x.steps++
	if x.steps > x.maxSteps {
		panic(unsupported("too many execution steps"))
	}
	for it.pc < len(it.b.Instrs) {
		ins := it.b.Instrs[it.pc]
		it.pc++
		switch ins := ins.(type) {
		case *ssa.DebugRef:
		case *ssa.Jump:
			return []*item{x.goTo(it, it.b.Succs[0])}
		case *ssa.If:
			cond := x.val(it, ins.Cond).L[0]
			return x.fork(it, cond)
		case *ssa.Return:
			var res []Val
			for i, r := range ins.Results {
				v := x.val(it, r)
				v.T = fr.fn.Signature.Results().At(i).Type()
				res = append(res, v)
			}
			rr.outs = append(rr.outs, fnOut{it: it, res: res})
			return nil
		case *ssa.Panic:
			v := x.val(it, ins.X)
			rr.outs = append(rr.outs, fnOut{it: it, panic: &v})
			return nil
		case *ssa.RunDefers:
			return x.runDefers(it, fr, rr)
		case *ssa.Defer:
			fv, args := x.callArgs(it, &ins.Call)
			it.defers = append(it.defers[:len(it.defers):len(it.defers)], deferRec{&ins.Call, fv, args})
		case *ssa.Go:
			panic(unsupported("go statement"))
		case *ssa.Call:
			fv, args := x.callArgs(it, &ins.Call)
			outs := x.doCall(it.st, &ins.Call, fv, args)
			var next []*item
			for i, o := range outs {
				n := it
				if i < len(outs)-1 {
					n = it.clone()
				}
				n.st = o.St
				if o.Panic != nil {
					rr.outs = append(rr.outs, fnOut{it: n, panic: o.Panic})
					continue
				}
				n.env[ins] = x.tuple(ins.Type(), o.Res)
				next = append(next, n)
			}
			if len(next) == 1 && next[0] == it {
				continue
			}
			return next
		case *ssa.Store:
			p := x.val(it, ins.Addr)
			v := x.val(it, ins.Val)
			for _, o := range x.derefCheck(it, p, rr) {
				it = o
			}
			if it.st.dead() {
				return nil
			}
			x.store(it.st, x.ptr(it.st, p), ins.Val.Type(), v)
		case *ssa.MapUpdate:
			x.mapUpdate(it, ins)
		case *ssa.UnOp:
			if ins.Op == token.MUL {
				p := x.val(it, ins.X)
				x.derefCheck(it, p, rr)
				if it.st.dead() {
					return nil
				}
				it.env[ins] = x.load(it.st, x.ptr(it.st, p), ins.Type())
				continue
			}
			it.env[ins] = x.unop(it, ins)
		case *ssa.IndexAddr:
			if v, ok := x.indexAddr(it, ins, rr); ok {
				it.env[ins] = v
			} else {
				return nil
			}
		case *ssa.Index:
			base := x.val(it, ins.X)
			idx := x.val(it, ins.Index)
			i64 := x.C.Resize(idx.L[0], 64, isSigned(idx.T))
			r := Val{T: ins.Type()}
			if _, ok := base.T.Underlying().(*types.Basic); ok {
				x.rtCheck(it, x.C.Ult(i64, x.strlen(base.L[0])), "index out of range", rr)
				r.L = []*T{x.C.App("strat", smt.BV8, base.L[0], i64)}
			} else {
				at := base.T.Underlying().(*types.Array)
				x.rtCheck(it, x.C.Ult(i64, x.C.C64(uint64(at.Len()))), "index out of range", rr)
				for _, l := range base.L {
					r.L = append(r.L, x.C.Select(l, i64))
				}
			}
			if it.st.dead() {
				return nil
			}
			x.fixPtr(&r, it.st, false)
			it.env[ins] = r
		case *ssa.TypeAssert:
			if !x.typeAssert(it, ins, rr) {
				return nil
			}
		case *ssa.Slice:
			if v, ok := x.slice(it, ins, rr); ok {
				it.env[ins] = v
			} else {
				return nil
			}
		case *ssa.Next:
			return x.next(it, ins)
		case *ssa.Lookup:
			x.lookup(it, ins, rr)
			if it.st.dead() {
				return nil
			}
		case ssa.Value:
			it.env[ins] = x.pure(it, ins, rr)
			if it.st.dead() {
				return nil
			}
		default:
			panic(unsupported(fmt.Sprintf("instruction %T %s", ins, ins)))
		}
	}
	panic("fell off block")
}

func (x *Exec) tuple(t types.Type, res []Val) Val {
	if tup, ok := t.(*types.Tuple); ok {
		if tup.Len() == 0 {
			return Val{T: t}
		}
		return Val{T: t, Tup: res}
	}
	if len(res) == 0 {
		return Val{T: t}
	}
	v := res[0]
	v.T = t
	return v
}

func (x *Exec) runDefers(it *item, fr *Frame, rr *runResult) []*item {
	work := []*item{it}
	var done []*item
	for len(work) > 0 {
		it := work[len(work)-1]
		work = work[:len(work)-1]
		if len(it.defers) == 0 {
			done = append(done, it)
			continue
		}
		d := it.defers[len(it.defers)-1]
		it.defers = it.defers[:len(it.defers)-1]
		it.st.panics = append(it.st.panics, panicRec{recovered: true})
		for _, co := range x.doCall(it.st, d.call, d.fv, d.args) {
			n := it.clone()
			n.st = co.St
			n.st.panics = n.st.panics[:len(n.st.panics)-1]
			if co.Panic != nil {
				rr.outs = append(rr.outs, fnOut{it: n, panic: co.Panic})
			} else {
				work = append(work, n)
			}
		}
	}
	return done
}

// fork splits on a branch condition.
func (x *Exec) fork(it *item, cond *T) []*item {
	c := x.C
	tb, fb := it.b.Succs[0], it.b.Succs[1]
	if cond.IsTrue() || it.st.pathSet[cond.ID] {
		return []*item{x.goTo(it, tb)}
	}
	nc := c.Not(cond)
	if cond.IsFalse() || it.st.pathSet[nc.ID] {
		return []*item{x.goTo(it, fb)}
	}
	a := it.clone()
	a.st.assume(cond)
	it.st.assume(nc)
	var out []*item
	fa := x.feasible(a.st)
	if !fa {
		x.goTo(it, fb)
		return []*item{it}
	}
	if x.feasible(it.st) {
		out = append(out, x.goTo(it, fb))
	}
	return append(out, x.goTo(a, tb))
}

// rtCheck splits off a run-time panic when ok may fail; the item continues
// with ok assumed.
func (x *Exec) rtCheck(it *item, ok *T, what string, rr *runResult) {
	if ok.IsTrue() || it.st.pathSet[ok.ID] {
		return
	}
	bad := it.clone()
	bad.st.assume(x.C.Not(ok))
	if !bad.st.dead() && x.feasible(bad.st) {
		v := Val{T: types.NewInterfaceType(nil, nil), L: []*T{x.C.App("nonnil:rt:"+what, x.C.U("Iface"))}}
		bad.st.note("run-time panic: " + what)
		rr.outs = append(rr.outs, fnOut{it: bad, panic: &v})
	}
	it.st.assume(ok)
}

func (x *Exec) derefCheck(it *item, p Val, rr *runResult) []*item {
	if p.P == nil {
		return nil
	}
	switch p.P.Kind {
	case PGlobal, PElem:
		return nil
	case PRaw:
		return nil
	}
	b := p.P.Base
	if b.Alloc > 0 || p.P.Off > 0 || p.P.Lo > 0 {
		if b.Alloc > 0 {
			return nil
		}
	}
	x.rtCheck(it, x.C.Not(x.C.Eq(b, x.C.C64(0))), "nil dereference", rr)
	return nil
}

func (x *Exec) ptr(st *State, v Val) *Ptr {
	if v.P == nil {
		x.fixPtr(&v, st, false)
	}
	if v.P == nil {
		panic(unsupported("dereference of " + v.T.String()))
	}
	return v.P
}

func isSigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned == 0 && b.Info()&types.IsInteger != 0
}

func (x *Exec) unop(it *item, ins *ssa.UnOp) Val {
	v := x.val(it, ins.X)
	c := x.C
	switch ins.Op {
	case token.NOT:
		return Val{T: ins.Type(), L: []*T{c.Not(v.L[0])}}
	case token.SUB:
		return Val{T: ins.Type(), L: []*T{c.Neg(v.L[0])}}
	case token.XOR:
		return Val{T: ins.Type(), L: []*T{c.BNot(v.L[0])}}
	}
	panic(unsupported("unary " + ins.Op.String()))
}

func (x *Exec) eqVals(a, b Val) *T {
	c := x.C
	// comparison of an interface with nil
	if _, ok := a.T.Underlying().(*types.Interface); ok && a.L[0].S.Name == "Iface" {
		if b.L[0] == x.nilIface() {
			return x.isNilIface(a.L[0])
		}
		if a.L[0] == x.nilIface() {
			return x.isNilIface(b.L[0])
		}
	}
	var es []*T
	for i := range a.L {
		p, q := a.L[i], b.L[i]
		if a.P != nil && len(a.L) == 1 {
			p = x.enc(a)
		}
		if b.P != nil && len(b.L) == 1 {
			q = x.enc(b)
		}
		es = append(es, c.Eq(p, q))
	}
	return c.And(es...)
}

func (x *Exec) binop(it *item, ins *ssa.BinOp, rr *runResult) Val {
	c := x.C
	a, b := x.val(it, ins.X), x.val(it, ins.Y)
	t := ins.X.Type()
	one := func(r *T) Val { return Val{T: ins.Type(), L: []*T{r}} }
	switch ins.Op {
	case token.EQL, token.NEQ:
		var e *T
		switch u := t.Underlying().(type) {
		case *types.Slice: // only against nil
			s := a
			if k, ok := ins.X.(*ssa.Const); ok && k.Value == nil {
				s = b
			}
			e = c.Eq(s.L[0], c.C64(0))
		case *types.Basic:
			e = c.Eq(a.L[0], b.L[0])
			_ = u
		default:
			if _, ok := t.Underlying().(*types.Interface); ok {
				// mixed interface/concrete comparison
				if _, ok := ins.Y.Type().Underlying().(*types.Interface); !ok {
					b = Val{T: t, L: []*T{x.box(b)}}
				}
			} else if _, ok := ins.Y.Type().Underlying().(*types.Interface); ok {
				a = Val{T: ins.Y.Type(), L: []*T{x.box(a)}}
			}
			e = x.eqVals(a, b)
		}
		if ins.Op == token.NEQ {
			e = c.Not(e)
		}
		return one(e)
	}
	p, q := a.L[0], b.L[0]
	if p.S.Name == "Str" {
		switch ins.Op {
		case token.ADD:
			return one(c.App("strcat", p.S, p, q))
		default:
			return one(c.App("strcmp:"+ins.Op.String(), smt.Bool, p, q))
		}
	}
	if p.S.K != smt.KBV {
		if p.S.Name == "Flt" {
			switch ins.Op {
			case token.LSS, token.LEQ, token.GTR, token.GEQ:
				return one(c.App("fcmp:"+ins.Op.String(), smt.Bool, p, q))
			}
			return one(c.App("fop:"+ins.Op.String(), p.S, p, q))
		}
		panic(unsupported("binary " + ins.String()))
	}
	signed := isSigned(t)
	sh := func() *T {
		// shift counts: widen to the operand width
		if isSigned(ins.Y.Type()) {
			x.rtCheck(it, c.Not(c.Slt(q, c.BVC(0, q.S.W))), "negative shift", rr)
		}
		w := p.S.W
		if q.S.W < w {
			return c.ZExt(q, w)
		}
		if q.S.W > w {
			return c.Ite(c.Ult(q, c.BVC(uint64(w), q.S.W)), c.Extract(q, w-1, 0), c.BVC(uint64(w), w))
		}
		return q
	}
	switch ins.Op {
	case token.ADD:
		return one(c.Add(p, q))
	case token.SUB:
		return one(c.Sub(p, q))
	case token.MUL:
		return one(c.Mul(p, q))
	case token.QUO, token.REM:
		x.rtCheck(it, c.Not(c.Eq(q, c.BVC(0, q.S.W))), "division by zero", rr)
		if ins.Op == token.QUO {
			if signed {
				return one(c.Sdiv(p, q))
			}
			return one(c.Udiv(p, q))
		}
		if signed {
			return one(c.Srem(p, q))
		}
		return one(c.Urem(p, q))
	case token.AND:
		return one(c.BAnd(p, q))
	case token.OR:
		return one(c.BOr(p, q))
	case token.XOR:
		return one(c.BXor(p, q))
	case token.AND_NOT:
		return one(c.BAnd(p, c.BNot(q)))
	case token.SHL:
		return one(c.Shl(p, sh()))
	case token.SHR:
		if signed {
			return one(c.Ashr(p, sh()))
		}
		return one(c.Lshr(p, sh()))
	case token.LSS:
		if signed {
			return one(c.Slt(p, q))
		}
		return one(c.Ult(p, q))
	case token.LEQ:
		if signed {
			return one(c.Sle(p, q))
		}
		return one(c.Ule(p, q))
	case token.GTR:
		if signed {
			return one(c.Slt(q, p))
		}
		return one(c.Ult(q, p))
	case token.GEQ:
		if signed {
			return one(c.Sle(q, p))
		}
		return one(c.Ule(q, p))
	}
	panic(unsupported("binary " + ins.String()))
}

// pure evaluates instructions that do not branch.
func (x *Exec) pure(it *item, ins ssa.Value, rr *runResult) Val {
	c := x.C
	st := it.st
	switch ins := ins.(type) {
	case *ssa.BinOp:
		return x.binop(it, ins, rr)
	case *ssa.Alloc:
		et := ins.Type().Underlying().(*types.Pointer).Elem()
		if isRaw(et) && !fieldsOnly(ins) {
			n := c.C64(uint64(x.P.Sizes.Sizeof(et)))
			p := st.allocRegion("raw."+ins.Name(), n)
			bv := c.Bound("z", smt.BV64)
			st.setMem(c.Merge(bv, c.Ult(c.Sub(bv, p), n), c.ConstArr(x.memSort(), c.BVC(0, 8)), st.mem()))
			return Val{T: ins.Type(), L: []*T{p}, P: &Ptr{Kind: PRaw, Base: p, T: et}}
		}
		r := st.allocRef("a." + sanitize(ins.Comment) + "." + ins.Name())
		x.allocType[r.ID] = et
		p := &Ptr{Kind: PObj, Root: et, Base: r, N: len(x.layout(et).Leaves), T: et}
		x.store(st, p, et, x.zero(et))
		return Val{T: ins.Type(), L: []*T{r}, P: p}
	case *ssa.FieldAddr:
		p := x.val(it, ins.X)
		x.derefCheck(it, p, rr)
		return x.fieldAddr(st, x.ptr(st, p), ins)
	case *ssa.Field:
		v := x.val(it, ins.X)
		s := ins.X.Type().Underlying().(*types.Struct)
		lo, n := x.fieldRange(s, ins.Field)
		r := Val{T: ins.Type(), L: v.L[lo : lo+n]}
		x.fixPtr(&r, st, false)
		return r
	case *ssa.Extract:
		v := x.val(it, ins.Tuple)
		r := v.Tup[ins.Index]
		r.T = ins.Type()
		return r
	case *ssa.MakeInterface:
		v := x.val(it, ins.X)
		v.T = ins.X.Type()
		if isNamed(ins.Type(), "reflect", "Type") {
			panic(unsupported("custom reflect.Type"))
		}
		return Val{T: ins.Type(), L: []*T{x.box(v)}}
	case *ssa.ChangeInterface:
		v := x.val(it, ins.X)
		if isNamed(ins.X.Type(), "reflect", "Type") && !isNamed(ins.Type(), "reflect", "Type") {
			return Val{T: ins.Type(), L: []*T{x.box(Val{T: ins.X.Type(), L: v.L})}}
		}
		return Val{T: ins.Type(), L: v.L}
	case *ssa.ChangeType:
		v := x.val(it, ins.X)
		r := Val{T: ins.Type(), L: v.L, P: v.P}
		return r
	case *ssa.Convert:
		return x.convert(it, ins)
	case *ssa.MakeClosure:
		fn := ins.Fn.(*ssa.Function)
		var bs []Val
		for _, b := range ins.Bindings {
			bs = append(bs, x.val(it, b))
		}
		t := x.fnTerm(fn, bs)
		x.bornAt(st, t)
		return Val{T: ins.Type(), L: []*T{t}}
	case *ssa.MakeMap:
		r := st.allocRef("map." + ins.Name())
		x.mapInit(st, r, ins.Type().Underlying().(*types.Map))
		return Val{T: ins.Type(), L: []*T{r}}
	case *ssa.MakeSlice:
		n := c.Resize(x.val(it, ins.Len).L[0], 64, true)
		cp := c.Resize(x.val(it, ins.Cap).L[0], 64, true)
		x.rtCheck(it, c.And(c.Ule(n, cp), c.Ult(cp, c.C64(1<<46))), "makeslice: len out of range", rr)
		return x.makeSlice(st, ins.Type(), n, cp, ins.Name())
	case *ssa.Range:
		return x.rangeInit(it, ins)
	case *ssa.SliceToArrayPointer:
		panic(unsupported("slice to array pointer"))
	}
	panic(unsupported(fmt.Sprintf("instruction %T %s", ins, ins)))
}

func sanitize(s string) string {
	return strings.Map(func(r rune) rune {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' {
			return r
		}
		return '_'
	}, s)
}

func (x *Exec) makeSlice(st *State, t types.Type, n, cp *T, name string) Val {
	c := x.C
	et := t.Underlying().(*types.Slice).Elem()
	if isRaw(et) {
		sz := c.Mul(cp, c.C64(uint64(x.P.Sizes.Sizeof(et))))
		min := uint64(0)
		if n.Op == smt.OBV {
			min = n.V * uint64(x.P.Sizes.Sizeof(et))
		}
		p := st.allocRegionMin("bytes."+name, sz, min)
		bv := c.Bound("z", smt.BV64)
		st.setMem(c.Merge(bv, c.Ult(c.Sub(bv, p), sz), c.ConstArr(x.memSort(), c.BVC(0, 8)), st.mem()))
		return Val{T: t, L: []*T{p, n, cp}}
	}
	r := st.allocRef("arr." + name)
	for _, lf := range x.layout(et).Leaves {
		p := &Ptr{Kind: PElem, Root: et}
		s := x.leafCompSort(p, lf)
		nm := x.compName(p, lf)
		st.setComp(nm, c.Store(st.comp(nm, s, lf.Ref), r, c.ConstArr(s.Rng, x.zeroLeaf(lf.Sort))))
	}
	return Val{T: t, L: []*T{r, c.C64(0), n, cp}}
}

func (x *Exec) fieldAddr(st *State, p *Ptr, ins *ssa.FieldAddr) Val {
	et := ins.X.Type().Underlying().(*types.Pointer).Elem()
	s := et.Underlying().(*types.Struct)
	off := x.P.Sizes.Offsetsof(fieldsOf(s))[ins.Field]
	ft := s.Field(ins.Field).Type()
	c := x.C
	if p.Kind == PRaw {
		q := &Ptr{Kind: PRaw, Base: c.Add(p.Base, c.C64(uint64(off))), T: ft}
		return Val{T: ins.Type(), L: []*T{q.Base}, P: q}
	}
	q := *p
	if p.View != nil && !types.Identical(p.T, et) {
		q.Off = p.Off + off
		q.View = ft
		return Val{T: ins.Type(), P: &q, L: []*T{nil}}
	}
	lo, n := x.fieldRange(s, ins.Field)
	q.Lo, q.N, q.T, q.View = p.Lo+lo, n, ft, nil
	if p.Off >= 0 {
		q.Off = p.Off + off
	}
	v := Val{T: ins.Type(), P: &q}
	v.L = []*T{x.enc(v)}
	return v
}

func (x *Exec) indexAddr(it *item, ins *ssa.IndexAddr, rr *runResult) (Val, bool) {
	c := x.C
	base := x.val(it, ins.X)
	idx := x.val(it, ins.Index)
	i := c.Resize(idx.L[0], 64, isSigned(idx.T))
	switch u := ins.X.Type().Underlying().(type) {
	case *types.Slice:
		et := u.Elem()
		if isRaw(et) {
			x.rtCheck(it, c.Ult(i, base.L[1]), "index out of range", rr)
			a := c.Add(base.L[0], c.Mul(i, c.C64(uint64(x.P.Sizes.Sizeof(et)))))
			return Val{T: ins.Type(), L: []*T{a}, P: &Ptr{Kind: PRaw, Base: a, T: et}}, !it.st.dead()
		}
		x.rtCheck(it, c.Ult(i, base.L[2]), "index out of range", rr)
		p := &Ptr{Kind: PElem, Root: et, Base: base.L[0], Idx: c.Add(base.L[1], i), N: len(x.layout(et).Leaves), T: et}
		v := Val{T: ins.Type(), P: p}
		v.L = []*T{x.enc(v)}
		return v, !it.st.dead()
	case *types.Pointer:
		at := u.Elem().Underlying().(*types.Array)
		x.rtCheck(it, c.Ult(i, c.C64(uint64(at.Len()))), "index out of range", rr)
		p := x.ptr(it.st, base)
		if p.Kind == PRaw {
			a := c.Add(p.Base, c.Mul(i, c.C64(uint64(x.P.Sizes.Sizeof(at.Elem())))))
			return Val{T: ins.Type(), L: []*T{a}, P: &Ptr{Kind: PRaw, Base: a, T: at.Elem()}}, !it.st.dead()
		}
		if p.View != nil {
			panic(unsupported("index of reinterpreted array"))
		}
		q := *p
		q.Arr = append(append([]*T(nil), p.Arr...), i)
		q.T = at.Elem()
		q.Off = -1
		v := Val{T: ins.Type(), P: &q}
		v.L = []*T{x.enc(v)}
		return v, !it.st.dead()
	}
	panic(unsupported("index address of " + ins.X.Type().String()))
}

func (x *Exec) slice(it *item, ins *ssa.Slice, rr *runResult) (Val, bool) {
	c := x.C
	b := x.val(it, ins.X)
	get := func(v ssa.Value) *T {
		if v == nil {
			return nil
		}
		r := x.val(it, v)
		return c.Resize(r.L[0], 64, isSigned(r.T))
	}
	lo, hi, mx := get(ins.Low), get(ins.High), get(ins.Max)
	if lo == nil {
		lo = c.C64(0)
	}
	chk := func(limit *T) {
		if mx == nil {
			x.rtCheck(it, c.And(c.Ule(lo, hi), c.Ule(hi, limit)), "slice bounds out of range", rr)
		} else {
			x.rtCheck(it, c.And(c.Ule(lo, hi), c.Ule(hi, mx), c.Ule(mx, limit)), "slice bounds out of range", rr)
		}
	}
	switch u := ins.X.Type().Underlying().(type) {
	case *types.Slice:
		raw := isRaw(u.Elem())
		ln, cp := b.L[len(b.L)-2], b.L[len(b.L)-1]
		if hi == nil {
			hi = ln
		}
		chk(cp)
		ncap := c.Sub(cp, lo)
		if mx != nil {
			ncap = c.Sub(mx, lo)
		}
		if raw {
			sz := c.C64(uint64(x.P.Sizes.Sizeof(u.Elem())))
			return Val{T: ins.Type(), L: []*T{c.Add(b.L[0], c.Mul(lo, sz)), c.Sub(hi, lo), ncap}}, !it.st.dead()
		}
		return Val{T: ins.Type(), L: []*T{b.L[0], c.Add(b.L[1], lo), c.Sub(hi, lo), ncap}}, !it.st.dead()
	case *types.Basic:
		ln := x.strlen(b.L[0])
		if hi == nil {
			hi = ln
		}
		chk(ln)
		return Val{T: ins.Type(), L: []*T{c.App("substr", c.U("Str"), b.L[0], lo, hi)}}, !it.st.dead()
	case *types.Pointer:
		at := u.Elem().Underlying().(*types.Array)
		n := c.C64(uint64(at.Len()))
		if hi == nil {
			hi = n
		}
		chk(n)
		ncap := c.Sub(n, lo)
		if mx != nil {
			ncap = c.Sub(mx, lo)
		}
		p := x.ptr(it.st, b)
		if p.Kind == PRaw {
			sz := c.C64(uint64(x.P.Sizes.Sizeof(at.Elem())))
			return Val{T: ins.Type(), L: []*T{c.Add(p.Base, c.Mul(lo, sz)), c.Sub(hi, lo), ncap}}, !it.st.dead()
		}
		return x.sliceOfArray(it.st, p, at, ins.Type(), lo, hi, ncap), !it.st.dead()
	}
	panic(unsupported("slice of " + ins.X.Type().String()))
}

// sliceOfArray: slicing a freshly built array (composite literal, variadic
// arguments). The array moves into the element heap under the same reference.
func (x *Exec) sliceOfArray(st *State, p *Ptr, at *types.Array, t types.Type, lo, hi, ncap *T) Val {
	if p.Kind != PObj || p.Base.Alloc == 0 || len(p.Arr) > 0 || p.Lo != 0 {
		panic(unsupported("slice of an array that is not a fresh local"))
	}
	et := at.Elem()
	lay := x.layout(p.Root)
	for i, lf := range x.layout(et).Leaves {
		q := &Ptr{Kind: PElem, Root: et}
		s := x.leafCompSort(q, lf)
		nm := x.compName(q, lf)
		content := st.readLeaf(p, lay.Leaves[i])
		st.setComp(nm, x.C.Store(st.comp(nm, s, lf.Ref), p.Base, content))
		st.wlog = append(st.wlog, wrec{comp: nm, base: p.Base})
	}
	return Val{T: t, L: []*T{p.Base, lo, x.C.Sub(hi, lo), ncap}}
}

func (x *Exec) convert(it *item, ins *ssa.Convert) Val {
	c := x.C
	v := x.val(it, ins.X)
	from, to := ins.X.Type(), ins.Type()
	fu, tu := from.Underlying(), to.Underlying()
	fb, fok := fu.(*types.Basic)
	tb, tok := tu.(*types.Basic)
	if fok && tok {
		if fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsInteger != 0 {
			w := int(x.P.Sizes.Sizeof(tb)) * 8
			return Val{T: to, L: []*T{c.Resize(v.L[0], w, isSigned(from))}}
		}
		if fb.Kind() == types.UnsafePointer && tb.Info()&types.IsInteger != 0 {
			return Val{T: to, L: []*T{x.enc(v)}}
		}
		if fb.Info()&types.IsInteger != 0 && tb.Kind() == types.UnsafePointer {
			return Val{T: to, L: v.L}
		}
		if fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsFloat != 0 || fb.Info()&types.IsFloat != 0 {
			if tb.Info()&types.IsInteger != 0 {
				return x.freshVal(it.st, "f2i", to)
			}
			return Val{T: to, L: []*T{c.App("tofloat:"+tb.Name(), c.U("Flt"), v.L[0])}}
		}
		if tb.Info()&types.IsString != 0 {
			if fb.Info()&types.IsString != 0 {
				return Val{T: to, L: v.L}
			}
			return Val{T: to, L: []*T{c.App("runestr", c.U("Str"), v.L[0])}}
		}
	}
	if _, ok := fu.(*types.Pointer); ok && tok && tb.Kind() == types.UnsafePointer {
		return Val{T: to, L: v.L, P: v.P}
	}
	if pt, ok := tu.(*types.Pointer); ok && fok && fb.Kind() == types.UnsafePointer {
		el := pt.Elem()
		if v.P != nil && v.P.Kind != PRaw {
			q := *v.P
			if !types.Identical(q.T, el) {
				q.View = el
			} else {
				q.View = nil
			}
			r := Val{T: to, P: &q}
			r.L = []*T{x.enc(r)}
			return r
		}
		var p *Ptr
		w := v.L[0]
		if v.P != nil && v.P.Kind == PRaw {
			w = v.P.Base
			p = &Ptr{Kind: PRaw, Base: w, T: el}
		} else {
			p = x.decodePtr(w, el, false)
			if p.Kind == PObj && p.View == nil {
				if _, known := x.allocType[w.ID]; !known && !isRefTerm(w) {
					p = &Ptr{Kind: PRaw, Base: w, T: el}
				}
			}
		}
		return Val{T: to, L: []*T{w}, P: p}
	}
	if _, ok := tu.(*types.Slice); ok && fok && fb.Info()&types.IsString != 0 {
		n := x.strlen(v.L[0])
		r := x.makeSlice(it.st, to, n, n, "strbytes")
		if isRaw(tu.(*types.Slice).Elem()) {
			// contents are those of the string
			bv := c.Bound("z", smt.BV64)
			m := c.Lam(bv, c.App("strat", smt.BV8, v.L[0], c.Sub(bv, r.L[0])))
			bv2 := c.Bound("z", smt.BV64)
			it.st.setMem(c.Merge(bv2, c.Ult(c.Sub(bv2, r.L[0]), n), m, it.st.mem()))
		}
		return r
	}
	if tok && tb.Info()&types.IsString != 0 {
		return Val{T: to, L: []*T{c.Fresh("str", c.U("Str"))}}
	}
	panic(unsupported("conversion " + from.String() + " -> " + to.String()))
}

func isRefTerm(t *T) bool { return smt.RefClock(t) >= 0 }

func (x *Exec) strlen(s *T) *T { return x.C.App("strlen", smt.BV64, s) }

func (x *Exec) typeAssert(it *item, ins *ssa.TypeAssert, rr *runResult) bool {
	c := x.C
	v := x.val(it, ins.X)
	i := v.L[0]
	var ok *T
	var res Val
	if isNamed(ins.X.Type(), "reflect", "Type") {
		i = x.box(Val{T: ins.X.Type(), L: v.L})
	}
	if _, isI := ins.AssertedType.Underlying().(*types.Interface); isI {
		if isNamed(ins.AssertedType, "reflect", "Type") {
			res = Val{T: ins.AssertedType, L: []*T{c.App("typeOfIface", c.U("RType"), i)}}
		} else {
			res = Val{T: ins.AssertedType, L: []*T{i}}
		}
		ok = x.implements(i, ins.AssertedType)
	} else {
		ok = x.hasType(i, ins.AssertedType)
		res = x.unbox(it.st, i, ins.AssertedType)
	}
	if ins.CommaOk {
		z := x.zero(ins.AssertedType)
		r := Val{T: ins.AssertedType}
		for k := range res.L {
			r.L = append(r.L, c.Ite(ok, res.L[k], z.L[k]))
		}
		x.fixPtr(&r, it.st, false)
		it.env[ins] = Val{T: ins.Type(), Tup: []Val{r, {T: types.Typ[types.Bool], L: []*T{ok}}}}
		return true
	}
	x.rtCheck(it, ok, "type assertion", rr)
	if it.st.dead() {
		return false
	}
	it.env[ins] = res
	return true
}

func (x *Exec) hasType(i *T, t types.Type) *T {
	if i.Op == smt.OApp && strings.HasPrefix(i.Name, "mk:") {
		return x.C.B(i.Name == "mk:"+typeKey(t))
	}
	return x.C.Eq(x.typeOf(i), x.rtypeLit(t))
}

func (x *Exec) implements(i *T, t types.Type) *T {
	c := x.C
	it, _ := t.Underlying().(*types.Interface)
	nn := c.Not(x.isNilIface(i))
	if it != nil && it.Empty() {
		return nn
	}
	if i.Op == smt.OApp && strings.HasPrefix(i.Name, "mk:") {
		if bt, ok := x.boxTypes[i.Name]; ok {
			return c.B(types.Implements(bt, it))
		}
	}
	return c.And(nn, c.App("impl:"+typeKey(t), smt.Bool, x.typeOf(i)))
}

// ---- maps

func (x *Exec) mapKeySort(m *types.Map) *smt.Sort {
	ls := x.layout(m.Key()).Leaves
	if len(ls) != 1 {
		panic(unsupported("map key " + m.Key().String()))
	}
	return ls[0].Sort
}

func (x *Exec) mapName(m *types.Map) string { return typeKey(m.Key()) + "=>" + typeKey(m.Elem()) }

func (x *Exec) mapDom(st *State, m *types.Map) (string, *T) {
	c := x.C
	n := "MD:" + x.mapName(m)
	return n, st.comp(n, c.Arr(smt.BV64, c.Arr(x.mapKeySort(m), smt.Bool)), false)
}

func (x *Exec) mapVal(st *State, m *types.Map, i int) (string, *T) {
	c := x.C
	lf := x.layout(m.Elem()).Leaves[i]
	n := "MV:" + x.mapName(m) + lf.Path
	return n, st.comp(n, c.Arr(smt.BV64, c.Arr(x.mapKeySort(m), lf.Sort)), lf.Ref)
}

func (x *Exec) mapLen(st *State, m *types.Map) (string, *T) {
	n := "ML:" + x.mapName(m)
	return n, st.comp(n, x.C.Arr(smt.BV64, smt.BV64), false)
}

func (x *Exec) mapInit(st *State, r *T, m *types.Map) {
	c := x.C
	n, d := x.mapDom(st, m)
	st.setComp(n, c.Store(d, r, c.ConstArr(d.S.Rng, c.False)))
	n, l := x.mapLen(st, m)
	st.setComp(n, c.Store(l, r, c.C64(0)))
}

func (x *Exec) mapSet(st *State, m *types.Map, ref, key *T, val Val, present *T) {
	c := x.C
	n, d := x.mapDom(st, m)
	old := c.Select(c.Select(d, ref), key)
	st.setComp(n, c.Store(d, ref, c.Store(c.Select(d, ref), key, present)))
	st.wlog = append(st.wlog, wrec{comp: n, base: ref})
	ln, l := x.mapLen(st, m)
	cur := c.Select(l, ref)
	var nl *T
	if present.IsTrue() {
		nl = c.Ite(old, cur, c.Add(cur, c.C64(1)))
	} else {
		nl = c.Ite(old, c.Sub(cur, c.C64(1)), cur)
	}
	st.setComp(ln, c.Store(l, ref, nl))
	st.wlog = append(st.wlog, wrec{comp: ln, base: ref})
	if present.IsTrue() {
		if val.P != nil && len(val.L) == 1 {
			val.L = []*T{x.enc(val)}
		}
		for i := range val.L {
			vn, v := x.mapVal(st, m, i)
			st.setComp(vn, c.Store(v, ref, c.Store(c.Select(v, ref), key, val.L[i])))
			st.wlog = append(st.wlog, wrec{comp: vn, base: ref})
		}
	}
}

func (x *Exec) mapUpdate(it *item, ins *ssa.MapUpdate) {
	m := ins.Map.Type().Underlying().(*types.Map)
	ref := x.val(it, ins.Map).L[0]
	x.mapSet(it.st, m, ref, x.enc(x.val(it, ins.Key)), x.val(it, ins.Value), x.C.True)
}

func (x *Exec) lookup(it *item, ins *ssa.Lookup, rr *runResult) {
	c := x.C
	if b, ok := ins.X.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
		s := x.val(it, ins.X)
		idx := x.val(it, ins.Index)
		i := c.Resize(idx.L[0], 64, isSigned(idx.T))
		x.rtCheck(it, c.Ult(i, x.strlen(s.L[0])), "index out of range", rr)
		it.env[ins] = Val{T: ins.Type(), L: []*T{c.App("strat", smt.BV8, s.L[0], i)}}
		return
	}
	m := ins.X.Type().Underlying().(*types.Map)
	ref := x.val(it, ins.X).L[0]
	key := x.enc(x.val(it, ins.Index))
	in, v := x.mapGet(it.st, m, ref, key)
	if ins.CommaOk {
		it.env[ins] = Val{T: ins.Type(), Tup: []Val{v, {T: types.Typ[types.Bool], L: []*T{in}}}}
	} else {
		it.env[ins] = v
	}
}

func (x *Exec) mapGet(st *State, m *types.Map, ref, key *T) (*T, Val) {
	c := x.C
	_, d := x.mapDom(st, m)
	in := c.And(c.Not(c.Eq(ref, c.C64(0))), c.Select(c.Select(d, ref), key))
	z := x.zero(m.Elem())
	v := Val{T: m.Elem()}
	for i := range x.layout(m.Elem()).Leaves {
		_, mv := x.mapVal(st, m, i)
		v.L = append(v.L, c.Ite(in, c.Select(c.Select(mv, ref), key), z.L[i]))
	}
	x.fixPtr(&v, st, false)
	return in, v
}

// Range over a map: ghost iterator with the set of keys already produced.
func (x *Exec) rangeInit(it *item, ins *ssa.Range) Val {
	c := x.C
	m, ok := ins.X.Type().Underlying().(*types.Map)
	if !ok {
		panic(unsupported("range over " + ins.X.Type().String()))
	}
	st := it.st
	ref := x.val(it, ins.X).L[0]
	r := st.allocRef("iter")
	ks := x.mapKeySort(m)
	as := c.Arr(smt.BV64, c.Arr(ks, smt.Bool))
	nv, ns := "IV:"+x.mapName(m), "IS:"+x.mapName(m)
	_, d := x.mapDom(st, m)
	st.setComp(nv, c.Store(st.comp(nv, as, false), r, c.ConstArr(as.Rng, c.False)))
	start := c.Select(d, ref)
	start = c.Ite(c.Eq(ref, c.C64(0)), c.ConstArr(as.Rng, c.False), start)
	st.setComp(ns, c.Store(st.comp(ns, as, false), r, start))
	return Val{T: ins.Type(), L: []*T{r, ref}, Tup: []Val{{T: ins.X.Type()}}}
}

func (x *Exec) next(it *item, ins *ssa.Next) []*item {
	c := x.C
	iv := x.val(it, ins.Iter)
	m := iv.Tup[0].T.Underlying().(*types.Map)
	ks := x.mapKeySort(m)
	as := c.Arr(smt.BV64, c.Arr(ks, smt.Bool))
	nv, ns := "IV:"+x.mapName(m), "IS:"+x.mapName(m)
	r, ref := iv.L[0], iv.L[1]
	kt := m.Key()
	boolT := types.Typ[types.Bool]
	// produce one more
	a := it.clone()
	{
		st := a.st
		vis := st.comp(nv, as, false)
		_, d := x.mapDom(st, m)
		k := c.Fresh("key", ks)
		st.assume(c.Not(c.Eq(ref, c.C64(0))), c.Select(c.Select(d, ref), k), c.Not(c.Select(c.Select(vis, r), k)))
		st.setComp(nv, c.Store(vis, r, c.Store(c.Select(vis, r), k, c.True)))
		st.wlog = append(st.wlog, wrec{comp: nv, base: r})
		_, v := x.mapGet(st, m, ref, k)
		x.typeInv(st, v)
		kv := Val{T: kt, L: []*T{k}}
		x.fixPtr(&kv, st, false)
		a.env[ins] = Val{T: ins.Type(), Tup: []Val{{T: boolT, L: []*T{c.True}}, kv, v}}
	}
	// exhausted: every key that was there at the start and still is has been produced
	{
		st := it.st
		vis := st.comp(nv, as, false)
		start := st.comp(ns, as, false)
		_, d := x.mapDom(st, m)
		bv := c.Bound("k", ks)
		st.assume(c.Forall(bv, c.Imp(c.And(c.Select(c.Select(d, ref), bv), c.Select(c.Select(start, r), bv)), c.Select(c.Select(vis, r), bv))))
		it.env[ins] = Val{T: ins.Type(), Tup: []Val{{T: boolT, L: []*T{c.False}}, x.zero(kt), x.zero(m.Elem())}}
	}
	out := []*item{it}
	if x.feasible(a.st) {
		out = append(out, a)
	}
	return out
}

// fieldsOnly: a local struct of which only fields are read and written.
func fieldsOnly(a *ssa.Alloc) bool {
	if _, ok := a.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct); !ok || a.Heap {
		return false
	}
	for _, r := range *a.Referrers() {
		switch r := r.(type) {
		case *ssa.DebugRef:
		case *ssa.UnOp:
		case *ssa.Store:
			if r.Val == a {
				return false
			}
		case *ssa.FieldAddr:
			for _, q := range *r.Referrers() {
				switch q := q.(type) {
				case *ssa.DebugRef, *ssa.UnOp:
				case *ssa.Store:
					if q.Val == r {
						return false
					}
				default:
					return false
				}
			}
		default:
			return false
		}
	}
	return true
}
