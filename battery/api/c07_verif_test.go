package mockey_test

import (
	"fmt"
	"math"
	"reflect"
	"runtime"
	"sync"
	"sync/atomic"
	"testing"

	. "github.com/bytedance/mockey"
)

func tgtQuiet(a int) int { // logs nothing: called concurrently
	x := a
	for i := 0; i < 3; i++ {
		x += i
	}
	return x
}

func tgtQuietG[T any](a T, n int) int {
	x := n
	for i := 0; i < 3; i++ {
		x += i
	}
	return x
}

// Counts are exact under concurrent calls.
func TestVerif_C07_concurrent(t *testing.T) {
	n := 0
	rounds := 4
	if verifThorough() {
		rounds = 40
	}
	const G, K = 8, 1500
	for k := 0; k < rounds; k++ {
		for _, cond := range []bool{false, true} {
			var hooks int64
			b := Mock(tgtQuiet)
			if cond {
				b = b.When(func(a int) bool { return a%3 == 0 })
			}
			m := b.To(func(a int) int { atomic.AddInt64(&hooks, 1); return -1 }).Build()
			var wg sync.WaitGroup
			for g := 0; g < G; g++ {
				g := g
				wg.Add(1)
				go func() {
					defer wg.Done()
					for i := 0; i < K; i++ {
						if i%16 == 0 {
							runtime.Gosched()
						}
						tgtQuiet(g*K + i)
					}
				}()
			}
			wg.Wait()
			n += G * K
			if m.Times() != G*K || int64(m.MockTimes()) != hooks || (!cond && hooks != G*K) || (cond && hooks != G*K/3) {
				m.UnPatch()
				t.Fatalf("%d concurrent calls (predicate: %v): Times()=%d MockTimes()=%d, hooks run %d", G*K, cond, m.Times(), m.MockTimes(), hooks)
			}
			m.UnPatch()
			if m.Times() != 0 || m.MockTimes() != 0 {
				t.Fatalf("after removal Times()=%d MockTimes()=%d", m.Times(), m.MockTimes())
			}
		}
	}
	cases(n)
}

// the goroutine filter does not stop calls from being counted, nor do panics of the hook
func TestVerif_C07_filtered(t *testing.T) {
	n := 0
	for _, filter := range []FilterGoroutineType{Disable, Include, Exclude} {
		for _, own := range []bool{true, false} {
			id := GetGoroutineId()
			if !own {
				id = -7
			}
			m := Mock(tgtQuiet).Return(-1).FilterGoRoutine(filter, id).Build()
			mocked := 0
			for i := 1; i <= 5; i++ {
				n++
				if tgtQuiet(1) == -1 {
					mocked++
				}
				if m.Times() != i || m.MockTimes() != mocked {
					t.Fatalf("filter %d own goroutine %v: after %d calls (%d mocked) Times()=%d MockTimes()=%d", filter, own, i, mocked, m.Times(), m.MockTimes())
				}
			}
			done := make(chan int)
			go func() { done <- tgtQuiet(1) }()
			if <-done == -1 {
				mocked++
			}
			if m.Times() != 6 || m.MockTimes() != mocked {
				t.Fatalf("filter %d own goroutine %v: after 6 calls (%d mocked), the last on another goroutine: Times()=%d MockTimes()=%d", filter, own, mocked, m.Times(), m.MockTimes())
			}
			m.UnPatch()
		}
	}
	boom := false
	m := Mock(tgtQuiet).To(func(a int) int {
		if boom {
			panic("x")
		}
		return 0
	}).Build()
	defer m.UnPatch()
	for i := 1; i <= 6; i++ {
		n++
		boom = i%2 == 0
		panics(func() { tgtQuiet(1) })
		if m.Times() != i || m.MockTimes() != i {
			t.Fatalf("hook panicking every other time: after %d calls Times()=%d MockTimes()=%d", i, m.Times(), m.MockTimes())
		}
	}
	cases(n)
}

// origin calls, reconfiguration and other mocks
func TestVerif_C07_others(t *testing.T) {
	n := 0
	origin := tgtQuiet
	m := Mock(tgtQuiet).To(func(a int) int { return origin(a) + origin(a+1) }).Origin(&origin).Build()
	other := Mock(tgtInt).Return(1, nil).Build()
	defer other.UnPatch()
	for i := 1; i <= 5; i++ {
		n++
		if r := tgtQuiet(i); r != 2*i+7 {
			t.Fatalf("hook with origin: result %d, want %d", r, 2*i+7)
		}
		tgtInt(1, "")
		tgtInt(1, "")
		if m.Times() != i || m.MockTimes() != i || other.Times() != 2*i || other.MockTimes() != 2*i {
			t.Fatalf("after %d calls: Times()=%d MockTimes()=%d; other mock, %d calls: %d %d", i, m.Times(), m.MockTimes(), 2*i, other.Times(), other.MockTimes())
		}
	}
	// each way of removing
	for k, f := range []func(){func() { m.UnPatch() }, func() { m.Release() }, func() { UnPatchAll() }} {
		m.Patch()
		f0, _ := tgtInt(1, "")
		_ = f0
		tgtQuiet(1)
		f()
		n++
		if m.Times() != 0 || m.MockTimes() != 0 {
			t.Fatalf("removed in way %d: Times()=%d MockTimes()=%d", k, m.Times(), m.MockTimes())
		}
		tgtQuiet(1)
		if m.Times() != 0 || m.MockTimes() != 0 {
			t.Fatalf("a call after the removal is counted: Times()=%d MockTimes()=%d", m.Times(), m.MockTimes())
		}
	}
	// reconfigured: removed and installed again, the counts restart
	m2 := Mock(tgtQuiet).Return(1).Build()
	defer m2.UnPatch()
	for k, f := range []func(){func() { m2.Return(2) }, func() { m2.When(func(int) bool { return true }) }, func() { m2.To(func(int) int { return 3 }) }, func() { m2.FilterGoRoutine(Disable, 0) }, func() { o := tgtQuiet; m2.Origin(&o) }} {
		tgtQuiet(1)
		tgtQuiet(1)
		f()
		n++
		if m2.Times() != 0 || m2.MockTimes() != 0 {
			t.Fatalf("reconfigured in way %d: Times()=%d MockTimes()=%d", k, m2.Times(), m2.MockTimes())
		}
		tgtQuiet(1)
		if m2.Times() != 1 || m2.MockTimes() != 1 {
			t.Fatalf("one call after the reconfiguration %d: Times()=%d MockTimes()=%d", k, m2.Times(), m2.MockTimes())
		}
	}
	// generic target
	m3 := Mock(tgtQuietG[string], OptGeneric).When(func(s string, n int) bool { return n > 2 }).Return(9).Build()
	defer m3.UnPatch()
	for i := 0; i < 6; i++ {
		tgtQuietG("", i)
	}
	if m3.Times() != 6 || m3.MockTimes() != 3 {
		t.Fatalf("generic target, 6 calls of which 3 mocked: Times()=%d MockTimes()=%d", m3.Times(), m3.MockTimes())
	}
	// a condition without hook runs the original: counted as a call only
	m4 := Mock(tgtInt)
	_ = m4
	other.UnPatch()
	m5 := Mock(tgtInt).When(func(a int, s string) bool { return a == 1 }).Return(5, nil).When(func(a int, s string) bool { return a == 2 }).Build()
	defer m5.UnPatch()
	for _, a := range []int{1, 2, 3, 2, 1} {
		tgtInt(a, "")
	}
	if m5.Times() != 5 || m5.MockTimes() != 2 {
		t.Fatalf("5 calls of which 2 reach a hook: Times()=%d MockTimes()=%d", m5.Times(), m5.MockTimes())
	}
	cases(n + 11)
}

// ---- C08

type onG struct {
	ch chan func()
	id int64
	wg sync.WaitGroup
}

func newG() *onG {
	g := &onG{ch: make(chan func())}
	ok := make(chan bool)
	go func() {
		g.id = GetGoroutineId()
		ok <- true
		for f := range g.ch {
			runtime.Gosched()
			f()
			ok <- true
		}
	}()
	<-ok
	run := g.ch
	g.ch = make(chan func())
	go func() {
		for f := range g.ch {
			run <- f
			<-ok
			g.wg.Done()
		}
		close(run)
	}()
	return g
}

func (g *onG) do(f func()) { g.wg.Add(1); g.ch <- f; g.wg.Wait() }

func TestVerif_C08_filter(t *testing.T) {
	r := verifRand()
	gs := []*onG{newG(), newG(), newG(), newG()}
	defer func() {
		for _, g := range gs {
			close(g.ch)
		}
	}()
	for i, g := range gs {
		for j := range gs[:i] {
			if gs[j].id == g.id {
				t.Fatalf("goroutines %d and %d have one id %d", j, i, g.id)
			}
		}
	}
	n := 0
	rounds := 60
	if verifThorough() {
		rounds = 1000
	}
	for k := 0; k < rounds; k++ {
		// a history of settings, each made on some goroutine, before and after Build
		mode, who := Disable, int64(0)
		desc := ""
		type setter interface {
			IncludeCurrentGoRoutine()
		}
		b := Mock(tgtInt)
		ret := r.Intn(2) == 0
		if ret {
			b = b.Return(-1, errOrig)
		} else {
			b = b.To(func(a int, s string) (int, error) { return -1, errOrig })
		}
		var m *Mocker
		set := func() {
			g := gs[r.Intn(len(gs))]
			o := gs[r.Intn(len(gs))]
			switch r.Intn(5) {
			case 0:
				mode, who = Include, g.id
				desc += fmt.Sprintf(" include-current on %d;", g.id)
				g.do(func() {
					if m == nil {
						b.IncludeCurrentGoRoutine()
					} else {
						m.IncludeCurrentGoRoutine()
					}
				})
			case 1:
				mode, who = Exclude, g.id
				desc += fmt.Sprintf(" exclude-current on %d;", g.id)
				g.do(func() {
					if m == nil {
						b.ExcludeCurrentGoRoutine()
					} else {
						m.ExcludeCurrentGoRoutine()
					}
				})
			default:
				mode = []FilterGoroutineType{Disable, Include, Exclude}[r.Intn(3)]
				who = o.id
				switch r.Intn(4) {
				case 0: // one bit away from a goroutine's id
					who ^= 1 << r.Intn(64)
				case 1:
					who = []int64{0, -1, 1 << 40, -who, math.MaxInt64, math.MinInt64, who + 1<<32, who | -1<<32}[r.Intn(8)]
				}
				desc += fmt.Sprintf(" filter(%d, %d) on %d;", mode, who, g.id)
				g.do(func() {
					if m == nil {
						b.FilterGoRoutine(mode, who)
					} else {
						m.FilterGoRoutine(mode, who)
					}
				})
			}
		}
		for i := r.Intn(3); i > 0; i-- {
			set()
		}
		gs[r.Intn(len(gs))].do(func() { m = b.Build() })
		check := func() {
			for _, g := range gs {
				n++
				in := mode == Disable || mode == Include && g.id == who || mode == Exclude && g.id != who
				a := r.Intn(100)
				var x int
				var err error
				vlog.take()
				g.do(func() { x, err = tgtInt(a, "abc") })
				ev := vlog.take()
				if in && (x != -1 || err != errOrig || len(ev) != 0) {
					t.Fatalf("after%s the call on goroutine %d (setting %d %d) was not mocked: %d %v %v", desc, g.id, mode, who, x, err, ev)
				}
				if !in && (x != a*10+3 || err != nil || len(ev) != 1 || !eqArgs(ev[0].args, []interface{}{a, "abc"})) {
					t.Fatalf("after%s the call on goroutine %d (setting %d %d) did not just run the original: %d %v %v", desc, g.id, mode, who, x, err, ev)
				}
			}
		}
		check()
		for i := r.Intn(3); i > 0; i-- {
			set()
			check()
		}
		m.UnPatch()
	}
	cases(n)
}

// filters combined with conditions and origin on shapes of all kinds
func TestVerif_C08_shapes(t *testing.T) {
	r := verifRand()
	g := newG()
	defer close(g.ch)
	n := 0
	for k := 0; k < 6; k++ {
		for _, s := range shapes {
			for _, incl := range []bool{true, false} {
				results := randResults(r, s.typ())
				b := newMock(s).When(s.logged("when", form{}, []reflect.Type{boolType}, func([]reflect.Value) []reflect.Value { return []reflect.Value{reflect.ValueOf(true)} })).Return(ifaces(results)...)
				if incl {
					b = b.IncludeCurrentGoRoutine()
				} else {
					b = b.ExcludeCurrentGoRoutine()
				}
				m := b.Build()
				for _, here := range []bool{true, false} {
					n++
					args := randArgs(r, s.typ())
					vlog.take()
					var res []reflect.Value
					if here {
						res = call(s.target, args)
					} else {
						g.do(func() { res = call(s.target, args) })
					}
					ev := vlog.take()
					want, ran := ifaces(results), "when"
					if here != incl {
						want, ran = origResults(s, args), "orig"
						vlog.take()
					}
					if names(ev) != ran || !eqArgs(ifaces(res), want) {
						t.Fatalf("%s, include-current %v, call on the configuring goroutine %v: ran [%s] and returned %v; the contract says [%s] and %v", s.name, incl, here, names(ev), ifaces(res), ran, want)
					}
					if ran == "orig" && !eqArgs(ev[0].args, ifaces(args)) {
						t.Fatalf("%s: the original got %v, the call had %v", s.name, ev[0].args, ifaces(args))
					}
				}
				m.UnPatch()
			}
		}
	}
	cases(n)
}
