package mockey_test

import (
	"bytes"
	"fmt"
	"io"
	"math/rand"
	"os"
	"reflect"
	"strings"
	"testing"

	. "github.com/bytedance/mockey"
	"github.com/smartystreets/goconvey/convey"
)

// Random histories of mocking operations in nested scopes, compared after every
// operation with a model of the contracts of C13 to C16.

func c13a(n int) int                     { return -1 }
func c13b(n int, xs ...int) int          { return -2 }
func (r *recvT) c13c(n int) int          { return -3 }
func c13d[T any](v T) int                { return -4 }
func c13e(a, b, c string, d float64) int { return -5 }

var c13recv = &recvT{"r", 1}

type c13target struct {
	mk     func() *MockBuilder
	call   func() int
	orig   int
	when   func(b bool) interface{}
	to     func(v int) interface{}
	holder func() (interface{}, func() int)
}

var c13targets = []c13target{
	{func() *MockBuilder { return Mock(c13a) }, func() int { return c13a(1) }, -1,
		func(b bool) interface{} { return func(int) bool { return b } }, func(v int) interface{} { return func(int) int { return v } },
		func() (interface{}, func() int) { var o func(int) int; return &o, func() int { return o(1) } }},
	{func() *MockBuilder { return Mock(c13b) }, func() int { return c13b(1, 2, 3) }, -2,
		func(b bool) interface{} { return func(_ int, xs ...int) bool { return b } }, func(v int) interface{} { return func(_ int, xs ...int) int { return v } },
		func() (interface{}, func() int) {
			var o func(int, ...int) int
			return &o, func() int { return o(1, 2) }
		}},
	{func() *MockBuilder { return Mock((*recvT).c13c) }, func() int { return c13recv.c13c(1) }, -3,
		func(b bool) interface{} { return func(int) bool { return b } }, func(v int) interface{} { return func(_ *recvT, _ int) int { return v } },
		func() (interface{}, func() int) {
			var o func(*recvT, int) int
			return &o, func() int { return o(c13recv, 1) }
		}},
	{func() *MockBuilder { return Mock(c13d[string], OptGeneric) }, func() int { return c13d("x") }, -4,
		func(b bool) interface{} { return func(GenericInfo, string) bool { return b } }, func(v int) interface{} { return func(string) int { return v } },
		func() (interface{}, func() int) { var o func(string) int; return &o, func() int { return o("y") } }},
	{func() *MockBuilder { return Mock(c13d[int], OptGeneric) }, func() int { return c13d(5) }, -4,
		func(b bool) interface{} { return func(int) bool { return b } }, func(v int) interface{} { return func(GenericInfo, int) int { return v } },
		func() (interface{}, func() int) { var o func(int) int; return &o, func() int { return o(6) } }},
	{func() *MockBuilder { return Mock(c13e) }, func() int { return c13e("a", "b", "c", 1) }, -5,
		func(b bool) interface{} { return func(b1, b2, b3 string, _ float64) bool { return b } }, func(v int) interface{} { return func(b1, b2, b3 string, _ float64) int { return v } },
		func() (interface{}, func() int) {
			var o func(a, b, c string, d float64) int
			return &o, func() int { return o("", "", "", 1) }
		}},
}

var (
	c13v0             = 1
	c13v1 interface{} = "one"
	c13v2 error
	c13v3 = []int{1}
	c13v4 func() int
	c13v5 = struct {
		A int
		B string
	}{1, "x"}
	c13v6 io.Writer = os.Stderr
	c13v7 *int
)

var c13vars = []struct {
	ptr  interface{}
	vals []interface{} // assignable
	bad  []interface{}
}{
	{&c13v0, []interface{}{5, nil, -1}, []interface{}{int64(1), "s", 1.5}},
	{&c13v1, []interface{}{5, nil, "s", errOrig, []int{1}}, nil},
	{&c13v2, []interface{}{errOrig, nil, c10e, (*c10Err)(nil)}, []interface{}{"s", 1, c10Err{}}},
	{&c13v3, []interface{}{[]int{2, 3}, nil, []int{}}, []interface{}{[]int8{1}, [1]int{1}}},
	{&c13v4, []interface{}{func() int { return 3 }, nil}, []interface{}{func() {}, func() int64 { return 1 }}},
	{&c13v5, []interface{}{struct {
		A int
		B string
	}{2, "y"}, nil}, []interface{}{struct{ A int }{1}}},
	{&c13v6, []interface{}{os.Stdout, nil, &bytes.Buffer{}}, []interface{}{bytes.Buffer{}, 1}},
	{&c13v7, []interface{}{&c13v0, nil}, []interface{}{&c13v1, 0}},
}

type c13cfg struct {
	has  bool // has a hook value
	ret  int
	when int // -1 none, 0 false, 1 true
}

type c13builder struct {
	b      *MockBuilder
	filter FilterGoroutineType
	self   bool // gid is this goroutine
	conds  []c13cfg
}

type c13mock struct {
	m             *Mocker
	target        int
	b             *c13builder
	conds         []c13cfg // as built into the hook
	patched       bool
	scope         int
	times, mocked int
	origin        func() int
	no            int
}

type c13vm struct {
	m       *MockerVar
	v       int
	orig    interface{}
	cur     interface{}
	patched bool
	scope   int
}

type c13model struct {
	t      *testing.T
	r      *rand.Rand
	depth  int
	stacks [][]*c13mock
	mocks  []*c13mock
	vms    []*c13vm
	vals   []interface{} // current content of each variable
	next   int
	log    []string
	ops    int
	weight []int
	dead   bool
	nos    int
}

func (x *c13model) failf(f string, a ...interface{}) {
	if x.dead {
		return
	}
	x.dead = true
	l := x.log
	if len(l) > 60 {
		l = l[len(l)-60:]
	}
	x.t.Errorf("%s\nhistory:\n  %s", fmt.Sprintf(f, a...), strings.Join(l, "\n  "))
}

func c13get(i int) interface{} { return reflect.ValueOf(c13vars[i].ptr).Elem().Interface() }

// admits says whether the filter lets calls of this goroutine through.
func (b *c13builder) admits() bool {
	switch b.filter {
	case Include:
		return b.self
	case Exclude:
		return !b.self
	}
	return true
}

// behave says what a call of the target returns, starting at stack position k.
func (x *c13model) behave(i, k int) int {
	if k < 0 {
		return c13targets[i].orig
	}
	m := x.stacks[i][k]
	m.times++
	if m.b.admits() {
		for _, c := range m.conds {
			if c.when == 0 {
				continue
			}
			if !c.has {
				return x.behave(i, k-1)
			}
			m.mocked++
			return c.ret
		}
	}
	return x.behave(i, k-1)
}

func (x *c13model) check() {
	if x.dead {
		return
	}
	for i, tg := range c13targets {
		breathe()
		want := x.behave(i, len(x.stacks[i])-1)
		if got := tg.call(); got != want {
			x.failf("target %d returned %d, not %d", i, got, want)
			return
		}
	}
	for _, m := range x.mocks {
		if m.m == nil {
			continue
		}
		t, mt := m.times, m.mocked
		if !m.patched {
			t, mt = 0, 0
		}
		if m.m.Times() != t || m.m.MockTimes() != mt {
			x.failf("mock of target %d (installed %v): Times %d MockTimes %d, expected %d and %d", m.target, m.patched, m.m.Times(), m.m.MockTimes(), t, mt)
			return
		}
	}
	for i := range c13vars {
		if got := c13get(i); !eqv(got, x.vals[i]) {
			x.failf("variable %d holds %#v, not %#v", i, got, x.vals[i])
			return
		}
	}
}

func (x *c13model) inScope(target int) *c13mock {
	for _, m := range x.stacks[target] {
		if m.scope == x.depth {
			return m
		}
	}
	return nil
}

func (x *c13model) varInScope(v int) *c13vm {
	for _, m := range x.vms {
		if m.v == v && m.patched && m.scope == x.depth {
			return m
		}
	}
	return nil
}

func (x *c13model) install(m *c13mock) {
	m.patched, m.scope, m.times, m.mocked = true, x.depth, 0, 0
	x.stacks[m.target] = append(x.stacks[m.target], m)
}

func (x *c13model) remove(m *c13mock) {
	s := x.stacks[m.target]
	x.stacks[m.target] = s[:len(s)-1]
	m.patched = false
}

func (x *c13model) top(m *c13mock) bool {
	s := x.stacks[m.target]
	return len(s) > 0 && s[len(s)-1] == m
}

func (x *c13model) expect(what string, refuse bool, f func()) bool {
	x.log = append(x.log, fmt.Sprintf("%*s%s", 2*x.depth, "", what))
	p, v := panics(f)
	if p != refuse {
		x.failf("%s: panic %v (%v), expected %v", what, p, v, refuse)
		return false
	}
	return !x.dead
}

func (x *c13model) val() int { x.next++; return x.next + 1000 }

func (x *c13model) step() {
	x.ops++
	r := x.r
	op := x.weight[r.Intn(len(x.weight))]
	var m *c13mock
	if len(x.mocks) > 0 {
		m = x.mocks[r.Intn(len(x.mocks))]
		if r.Intn(3) == 0 { // prefer a recent one
			m = x.mocks[len(x.mocks)-1]
		}
	}
	var vm *c13vm
	if len(x.vms) > 0 {
		vm = x.vms[r.Intn(len(x.vms))]
	}
	switch op {
	case 0: // a new mock
		i := r.Intn(len(c13targets))
		b := &c13builder{}
		refuse := x.inScope(i) != nil
		n := 1 + r.Intn(3)
		nm := &c13mock{target: i, b: b}
		x.expect(fmt.Sprintf("mock target %d", i), refuse, func() {
			mb := c13targets[i].mk()
			b.b = mb
			x.conds(mb, b, i, n)
			if r.Intn(3) == 0 {
				h, o := c13targets[i].holder()
				mb.Origin(h)
				nm.origin = o
			}
			x.filter(mb, b)
			nm.m = mb.Build()
		})
		if !refuse && nm.m != nil {
			nm.conds = append([]c13cfg(nil), b.conds...)
			x.mocks = append(x.mocks, nm)
			x.install(nm)
		}
	case 1: // remove
		if m == nil || m.patched && !x.top(m) {
			return
		}
		x.expect(fmt.Sprintf("unpatch mock %d of target %d", x.id(m), m.target), false, func() { m.m.UnPatch() })
		if m.patched {
			x.remove(m)
		}
	case 2: // install
		if m == nil {
			return
		}
		refuse := !m.patched && x.inScope(m.target) != nil
		x.expect(fmt.Sprintf("patch mock %d of target %d", x.id(m), m.target), refuse, func() { m.m.Patch() })
		if !m.patched && !refuse {
			x.install(m)
		}
	case 3: // reconfigure
		if m == nil || m.patched && !x.top(m) {
			return
		}
		kind := r.Intn(4)
		if kind < 3 && len(m.b.conds) != 1 {
			x.expect(fmt.Sprintf("reset mock %d with %d conditions", x.id(m), len(m.b.conds)), true, func() {
				switch kind {
				case 0:
					m.m.Return(1)
				case 1:
					m.m.To(c13targets[m.target].to(1))
				case 2:
					m.m.When(c13targets[m.target].when(true))
				}
			})
			return
		}
		was := m.patched
		if was {
			x.remove(m)
		}
		refuse := x.inScope(m.target) != nil
		x.expect(fmt.Sprintf("reconfigure (%d) mock %d of target %d", kind, x.id(m), m.target), refuse, func() {
			switch kind {
			case 0:
				v := x.val()
				m.b.conds[0].has, m.b.conds[0].ret = true, v
				m.m.Return(v)
			case 1:
				v := x.val()
				m.b.conds[0].has, m.b.conds[0].ret = true, v
				m.m.To(c13targets[m.target].to(v))
			case 2:
				w := r.Intn(2)
				m.b.conds[0].when = w
				m.m.When(c13targets[m.target].when(w == 1))
			case 3:
				switch r.Intn(3) {
				case 0:
					m.b.filter, m.b.self = Include, true
					m.m.IncludeCurrentGoRoutine()
				case 1:
					m.b.filter, m.b.self = Exclude, true
					m.m.ExcludeCurrentGoRoutine()
				case 2:
					m.b.filter, m.b.self = FilterGoroutineType(r.Intn(3)), r.Intn(2) == 0
					id := GetGoroutineId()
					if !m.b.self {
						id += 12345
					}
					m.m.FilterGoRoutine(m.b.filter, id)
				}
			}
		})
		m.conds = append([]c13cfg(nil), m.b.conds...)
		if !refuse {
			x.install(m)
		}
	case 4: // release, and sometimes build again
		if m == nil || m.patched && !x.top(m) {
			return
		}
		var mb *MockBuilder
		x.expect(fmt.Sprintf("release mock %d of target %d", x.id(m), m.target), false, func() { mb = m.m.Release() })
		if m.patched {
			x.remove(m)
		}
		m.b.conds = []c13cfg{{when: -1}}
		if x.dead || r.Intn(2) == 0 {
			return
		}
		refuse := x.inScope(m.target) != nil
		nm := &c13mock{target: m.target, b: m.b, origin: m.origin}
		for i := range x.mocks { // the mocks made from one builder share its settings: keep one of them
			if x.mocks[i] == m {
				x.mocks = append(x.mocks[:i:i], x.mocks[i+1:]...)
				break
			}
		}
		x.expect("build it again", refuse, func() {
			x.conds(mb, m.b, m.target, 1+r.Intn(2))
			nm.m = mb.Build()
		})
		if !refuse && nm.m != nil {
			nm.conds = append([]c13cfg(nil), m.b.conds...)
			x.mocks = append(x.mocks, nm)
			x.install(nm)
		}
	case 5: // everything of this scope
		x.expect("UnPatchAll", false, UnPatchAll)
		x.leave()
	case 6: // a new variable mock
		i := r.Intn(len(c13vars))
		nv := &c13vm{v: i, orig: x.vals[i]}
		vals := c13vars[i].vals
		val := vals[r.Intn(len(vals))]
		refuse := x.varInScope(i) != nil
		ok := x.expect(fmt.Sprintf("mock variable %d with %v", i, val), refuse, func() {
			nv.m = MockValue(c13vars[i].ptr)
			nv.m.To(val)
		})
		nv.cur = c13conv(i, val)
		if ok && !refuse {
			x.vms = append(x.vms, nv)
			nv.patched, nv.scope = true, x.depth
			x.vals[i] = nv.cur
		} else if ok && nv.m != nil && r.Intn(2) == 0 {
			x.vms = append(x.vms, nv) // kept, not installed
		}
	case 7: // another value
		if vm == nil {
			return
		}
		vals := c13vars[vm.v].vals
		val := vals[r.Intn(len(vals))]
		refuse := !vm.patched && x.varInScope(vm.v) != nil
		if x.expect(fmt.Sprintf("variable %d: To(%v)", vm.v, val), refuse, func() { vm.m.To(val) }) {
			vm.cur = c13conv(vm.v, val)
			if !refuse {
				if !vm.patched {
					vm.patched, vm.scope = true, x.depth
				}
				x.vals[vm.v] = vm.cur
			}
		}
	case 8: // a value that does not fit
		if vm == nil || len(c13vars[vm.v].bad) == 0 {
			return
		}
		bad := c13vars[vm.v].bad
		val := bad[r.Intn(len(bad))]
		x.expect(fmt.Sprintf("variable %d: To(%v), not assignable", vm.v, val), true, func() { vm.m.To(val) })
	case 9:
		if vm == nil {
			return
		}
		x.expect(fmt.Sprintf("variable %d: UnPatch", vm.v), false, func() { vm.m.UnPatch() })
		if vm.patched {
			vm.patched = false
			x.vals[vm.v] = vm.orig
		}
	case 10:
		if vm == nil {
			return
		}
		refuse := !vm.patched && x.varInScope(vm.v) != nil
		if x.expect(fmt.Sprintf("variable %d: Patch", vm.v), refuse, func() { vm.m.Patch() }) && !refuse && !vm.patched {
			vm.patched, vm.scope = true, x.depth
			x.vals[vm.v] = vm.cur
		}
	case 11: // the program assigns the variable
		i := r.Intn(len(c13vars))
		val := c13vars[i].vals[r.Intn(len(c13vars[i].vals))]
		x.log = append(x.log, fmt.Sprintf("%*svariable %d = %v", 2*x.depth, "", i, val))
		e := reflect.ValueOf(c13vars[i].ptr).Elem()
		if val == nil {
			e.Set(reflect.Zero(e.Type()))
		} else {
			e.Set(reflect.ValueOf(val))
		}
		x.vals[i] = c13conv(i, val)
	case 12: // an origin, of the mock on top
		if m == nil || m.origin == nil || !m.patched || m.times == 0 || !x.ownsOrigin(m) {
			return
		}
		k := 0
		for x.stacks[m.target][k] != m {
			k++
		}
		want := x.behave(m.target, k-1)
		x.log = append(x.log, fmt.Sprintf("%*sorigin of mock %d", 2*x.depth, "", x.id(m)))
		if got := m.origin(); got != want {
			x.failf("the origin of a mock of target %d returned %d, not %d", m.target, got, want)
		}
	}
	x.check()
}

// ownsOrigin: no other mock writes to the same holder
func (x *c13model) ownsOrigin(m *c13mock) bool {
	for _, o := range x.mocks {
		if o != m && o.b == m.b {
			return false
		}
	}
	return true
}

func (x *c13model) id(m *c13mock) int {
	if m.no == 0 {
		x.nos++
		m.no = x.nos
	}
	return m.no
}

func c13conv(i int, val interface{}) interface{} {
	t := reflect.TypeOf(c13vars[i].ptr).Elem()
	if val == nil {
		return reflect.Zero(t).Interface()
	}
	return val
}

// conds declares n conditions, the last possibly incomplete.
func (x *c13model) conds(mb *MockBuilder, b *c13builder, i, n int) {
	b.conds = nil
	tg := c13targets[i]
	for k := 0; k < n; k++ {
		c := c13cfg{when: -1}
		last := k == n-1
		setWhen := !last || x.r.Intn(2) == 0
		setHook := !last || !setWhen || x.r.Intn(3) > 0
		if x.r.Intn(2) == 0 && setWhen {
			c.when = x.r.Intn(2)
			mb.When(tg.when(c.when == 1))
			setWhen = false
		}
		if setHook {
			c.has, c.ret = true, x.val()
			if x.r.Intn(2) == 0 {
				mb.Return(c.ret)
			} else {
				mb.To(tg.to(c.ret))
			}
		}
		if setWhen {
			c.when = x.r.Intn(2)
			mb.When(tg.when(c.when == 1))
		}
		b.conds = append(b.conds, c)
	}
}

func (x *c13model) filter(mb *MockBuilder, b *c13builder) {
	switch x.r.Intn(8) {
	case 0:
		b.filter, b.self = Include, true
		mb.IncludeCurrentGoRoutine()
	case 1:
		b.filter, b.self = Exclude, true
		mb.ExcludeCurrentGoRoutine()
	case 2:
		b.filter, b.self = Include, false
		mb.FilterGoRoutine(Include, GetGoroutineId()+999)
	case 3:
		b.filter, b.self = Exclude, false
		mb.FilterGoRoutine(Exclude, GetGoroutineId()+999)
	}
}

// leave is what ending the current scope does.
func (x *c13model) leave() {
	for i := range x.stacks {
		for len(x.stacks[i]) > 0 && x.stacks[i][len(x.stacks[i])-1].scope == x.depth {
			x.remove(x.stacks[i][len(x.stacks[i])-1])
		}
	}
	for _, v := range x.vms {
		if v.patched && v.scope == x.depth {
			v.patched = false
			x.vals[v.v] = v.orig
		}
	}
}

type c13tree struct {
	name  string
	kids  []*c13tree
	boom  int // 0 none, 1 panic at the end, 2 panic with nil-like error
	steps int
}

func c13mk(r *rand.Rand, depth int, name string) *c13tree {
	n := &c13tree{name: name, steps: 1 + r.Intn(10)}
	if depth > 0 {
		for i := r.Intn(3); i > 0; i-- {
			n.kids = append(n.kids, c13mk(r, depth-1, fmt.Sprintf("%s.%d", name, i)))
		}
	}
	if len(n.kids) == 0 && r.Intn(3) == 0 {
		n.boom = 1 + r.Intn(2)
	}
	return n
}

type c13t struct{ failed int }

func (f *c13t) Fail() { f.failed++ }

func (x *c13model) body(n *c13tree) {
	x.log = append(x.log, fmt.Sprintf("%*s{ %s", 2*x.depth, "", n.name))
	x.depth++
	defer func() {
		x.leave()
		x.depth--
		x.log = append(x.log, fmt.Sprintf("%*s} %s", 2*x.depth, "", n.name))
	}()
	for i := 0; i < n.steps && !x.dead; i++ {
		x.step()
	}
	for _, k := range n.kids {
		PatchConvey(k.name, func() { x.body(k) })
		x.check()
		for i := 0; i < n.steps && !x.dead; i++ {
			x.step()
		}
	}
	switch n.boom {
	case 1:
		panic("boom")
	case 2:
		var p *int
		*p = 1
	}
}

func c13history(t *testing.T, weight []int, quick, thorough int) {
	r := verifRand()
	rounds := quick
	if verifThorough() {
		rounds = thorough
	}
	old := os.Stdout
	if dn, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
		os.Stdout = dn // goconvey reports every panic of a body
		defer func() { os.Stdout = old; dn.Close() }()
	}
	n := 0
	snap := snapCode()
	for round := 0; round < rounds && !t.Failed(); round++ {
		x := &c13model{t: t, r: r, stacks: make([][]*c13mock, len(c13targets)), weight: weight}
		for i := range c13vars {
			x.vals = append(x.vals, c13get(i))
		}
		for i := 0; i < r.Intn(6); i++ {
			x.step()
		}
		tree := c13mk(r, 3, "s")
		PatchConvey(tree.name, &c13t{}, func() { x.body(tree) })
		x.check()
		for i := 0; i < r.Intn(6) && !x.dead; i++ {
			x.step()
		}
		x.expect("UnPatchAll at the end", false, UnPatchAll)
		x.leave()
		x.check()
		n += x.ops
		if round%10 == 0 || x.dead {
			if d := snap.diff(); len(d) > 0 && !x.dead {
				x.failf("with no mock installed the code differs at %#x", d)
			}
		}
	}
	os.Stdout = old
	cases(n)
}

var _ = convey.ShouldEqual

func TestVerif_C13_history(t *testing.T) {
	c13history(t, []int{0, 0, 0, 1, 1, 2, 2, 2, 3, 3, 3, 4, 4, 5, 12}, 150, 1500)
}

func TestVerif_C14_history(t *testing.T) {
	c13history(t, []int{0, 0, 0, 0, 0, 0, 1, 2, 2, 6, 6, 6, 6, 10, 10, 7, 9}, 150, 1500)
}

func TestVerif_C15_history(t *testing.T) {
	c13history(t, []int{0, 0, 0, 0, 1, 2, 2, 3, 5, 6, 6, 6, 6, 10, 7, 9}, 150, 1500)
}

func TestVerif_C16_history(t *testing.T) {
	c13history(t, []int{0, 6, 6, 6, 6, 7, 7, 7, 8, 8, 9, 9, 10, 10, 11, 5}, 150, 1500)
}
