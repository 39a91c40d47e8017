package mockey_test

import (
	"fmt"
	"reflect"
	"runtime"
	"sync"
	"testing"

	. "github.com/bytedance/mockey"
)

// origForms are the signatures an origin holder may have.
func (s shape) origForms() []form {
	if s.generic && s.recv {
		return []form{{dropRecv: true}} // full form: known finding of C11
	}
	if s.recv {
		return []form{{}, {dropRecv: true}}
	}
	return []form{{}}
}

// changed gives other values for the arguments, so that they cannot be confused.
func c12other(t reflect.Type, from int, gen func(reflect.Type) reflect.Value) []reflect.Value {
	var out []reflect.Value
	for i := from; i < t.NumIn(); i++ {
		out = append(out, gen(t.In(i)))
	}
	return out
}

// the predicate and the hook both call the origin, with other arguments than the call's
func TestVerif_C12_origin(t *testing.T) {
	r := verifRand()
	rounds := 12
	if verifThorough() {
		rounds = 150
	}
	n := 0
	for _, s := range shapes {
		for _, of := range s.origForms() {
			for _, hf := range s.forms() {
				for k := 0; k < rounds; k++ {
					n++
					tt := s.typ()
					holder := reflect.New(s.fnType(form{dropRecv: of.dropRecv}, outsOf(tt)))
					from := 0
					if of.dropRecv {
						from = 1
					}
					gen := func(x reflect.Type) reflect.Value { return randVal(r, x, 0) }
					var given [][]interface{}
					var results [][]interface{}
					callOrigin := func() {
						a := c12other(tt, from, gen)
						vlog.add("calling")
						given = append(given, ifaces(a))
						results = append(results, ifaces(call(holder.Elem().Interface(), a)))
						vlog.add("called")
					}
					whenCalls, hookCalls := r.Intn(3), r.Intn(3)
					want := randResults(r, tt)
					when := s.logged("when", hf, []reflect.Type{boolType}, func([]reflect.Value) []reflect.Value {
						for i := 0; i < whenCalls; i++ {
							callOrigin()
						}
						return []reflect.Value{reflect.ValueOf(true)}
					})
					hook := s.logged("hook", hf, outsOf(tt), func([]reflect.Value) []reflect.Value {
						for i := 0; i < hookCalls; i++ {
							callOrigin()
						}
						return want
					})
					var m *Mocker
					switch k % 3 {
					case 0:
						m = newMock(s).Origin(holder.Interface()).When(when).To(hook).Build()
					case 1:
						m = newMock(s).When(when).To(hook).Origin(holder.Interface()).Build()
					case 2:
						m = newMock(s).When(when).To(hook).Build()
						m.Origin(holder.Interface())
					}
					vlog.take()
					args := randArgs(r, tt)
					got := ifaces(call(s.target, args))
					ev := vlog.take()
					ai := ifaces(args)
					if !eqArgs(got, ifaces(want)) {
						t.Fatalf("%s %v %v: the call returned %v, the hook %v", s.name, of, hf, got, ifaces(want))
					}
					// expected: when, origin calls, hook, origin calls
					exp := []string{"when"}
					for i := 0; i < whenCalls; i++ {
						exp = append(exp, "calling", "orig", "called")
					}
					exp = append(exp, "hook")
					for i := 0; i < hookCalls; i++ {
						exp = append(exp, "calling", "orig", "called")
					}
					if len(ev) != len(exp) {
						t.Fatalf("%s %v %v: ran %s, expected %v", s.name, of, hf, names(ev), exp)
					}
					oi := 0
					for i, e := range ev {
						if e.what != exp[i] {
							t.Fatalf("%s %v %v: ran %s, expected %v", s.name, of, hf, names(ev), exp)
						}
						switch e.what {
						case "when", "hook":
							if why := s.checkEvent(e, hf, ai); why != "" {
								t.Fatalf("%s %v %v: %s after %d origin calls %s", s.name, of, hf, e.what, oi, why)
							}
						case "orig":
							wantA := given[oi]
							if of.dropRecv {
								wantA = append([]interface{}{ai[0]}, given[oi]...)
							}
							if !eqArgs(e.args, wantA) {
								t.Fatalf("%s %v %v: the original ran with %v, the origin was given %v", s.name, of, hf, e.args, wantA)
							}
							// what the original returns for these arguments
							oi++
						}
					}
					if m.Times() != 1 || m.MockTimes() != 1 {
						t.Fatalf("%s: %d origin calls: Times %d MockTimes %d after one mocked call", s.name, oi, m.Times(), m.MockTimes())
					}
					m.UnPatch()
					// the origin returned what the original returns
					for i := range given {
						full := given[i]
						if of.dropRecv {
							full = append([]interface{}{ai[0]}, given[i]...)
						}
						var av []reflect.Value
						for j, a := range full {
							if a == nil {
								av = append(av, reflect.Zero(tt.In(j)))
							} else {
								av = append(av, reflect.ValueOf(a))
							}
						}
						if w := ifaces(call(s.target, av)); !eqArgs(results[i], w) {
							t.Fatalf("%s: the origin returned %v, the original returns %v", s.name, results[i], w)
						}
					}
					vlog.take()
				}
			}
		}
	}
	cases(n)
}

// the origin is called outside any mocked call's hook: after the first call, on another goroutine
func TestVerif_C12_outside(t *testing.T) {
	n := 0
	var origin func(int, string) (int, error)
	m := Mock(tgtInt).When(func(a int, s string) bool { vlog.add("when"); return true }).Return(7, nil).Origin(&origin).Build()
	defer m.UnPatch()
	if a, _ := tgtInt(1, "x"); a != 7 {
		t.Fatal("not mocked")
	}
	vlog.take()
	var wg sync.WaitGroup
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			for i := 0; i < 200; i++ {
				runtime.Gosched()
				if a, err := origin(g*1000+i, "ab"); a != (g*1000+i)*10+2 || err != nil {
					t.Errorf("origin(%d) gave %d %v", g*1000+i, a, err)
					return
				}
			}
		}(g)
	}
	wg.Wait()
	n += 1600
	ev := vlog.take()
	if len(ev) != 1600 {
		t.Fatalf("1600 origin calls ran the original %d times", len(ev))
	}
	for _, e := range ev {
		if e.what != "orig" {
			t.Fatalf("an origin call ran %v", e)
		}
	}
	if m.Times() != 1 || m.MockTimes() != 1 {
		t.Fatalf("counters %d %d after one mocked call", m.Times(), m.MockTimes())
	}
	cases(n)
}

// a filtered call and a call whose conditions all fail leave the origin usable and run it once
func TestVerif_C12_fallthrough(t *testing.T) {
	n := 0
	for _, filter := range []FilterGoroutineType{Disable, Include, Exclude} {
		var origin func(a int, xs ...string) (int, []string)
		id := GetGoroutineId()
		if filter == Include {
			id++
		}
		m := Mock(tgtVar).When(func(a int, xs ...string) bool { return a > 5 }).Return(-1, nil).
			Origin(&origin).FilterGoRoutine(filter, id).Build()
		for i := 0; i < 10; i++ {
			n++
			xs := []string{"p", "q"}
			vlog.take()
			a, ys := tgtVar(i, xs...)
			if filter == Disable && i > 5 {
				if a != -1 {
					t.Fatalf("filter %d: call(%d) gave %d", filter, i, a)
				}
			} else if a != i+2 || len(vlog.take()) != 1 || &ys[0] != &xs[0] {
				t.Fatalf("filter %d: call(%d) gave %d %v", filter, i, a, ys)
			}
			vlog.take()
			b, zs := origin(i+100, xs[:1]...)
			ev := vlog.take()
			if b != i+101 || &zs[0] != &xs[0] || names(ev) != "orig" {
				t.Fatalf("filter %d: origin(%d) gave %d %v, ran %s", filter, i+100, b, zs, names(ev))
			}
			if m.Times() != i+1 {
				t.Fatalf("Times %d after %d calls", m.Times(), i+1)
			}
		}
		m.UnPatch()
	}
	cases(n)
}

// the origin of a recursive function: only the origin call itself bypasses the mock
var c12depth int

func c12fib(n int) int {
	c12depth++
	if n < 2 {
		return n
	}
	return c12fib(n-1) + c12fib(n-2)
}

func TestVerif_C12_recursive(t *testing.T) {
	var origin func(int) int
	calls := 0
	m := Mock(c12fib).To(func(n int) int { calls++; runtime.Gosched(); return origin(n) }).Origin(&origin).Build()
	defer m.UnPatch()
	if got := c12fib(12); got != 144 {
		t.Fatalf("fib(12) through the origin is %d", got)
	}
	if calls != c12depth || m.Times() != calls || m.MockTimes() != calls {
		t.Fatalf("%d hook calls, %d original runs, Times %d, MockTimes %d", calls, c12depth, m.Times(), m.MockTimes())
	}
	cases(calls)
}

// holders that fit are accepted, the others refused, and a refused one leaves the target unmocked
func TestVerif_C12_refusal(t *testing.T) {
	holders := []reflect.Type{}
	seen := map[reflect.Type]bool{}
	for _, s := range shapes {
		for _, f := range []form{{}, {dropRecv: true}, {info: true}, {info: true, dropRecv: true}} {
			if f.dropRecv && s.typ().NumIn() == 0 || f.dropRecv && s.typ().IsVariadic() && s.typ().NumIn() == 1 {
				continue
			}
			ft := s.fnType(f, outsOf(s.typ()))
			if !seen[ft] {
				seen[ft] = true
				holders = append(holders, ft)
			}
		}
	}
	n := 0
	for _, s := range shapes {
		for _, h := range holders {
			n++
			tt := s.typ()
			fits := h == tt
			var in []reflect.Type
			for i := 1; i < tt.NumIn(); i++ {
				in = append(in, tt.In(i))
			}
			if tt.NumIn() > 0 && !(tt.IsVariadic() && tt.NumIn() == 1) && h == reflect.FuncOf(in, outsOf(tt), tt.IsVariadic()) {
				fits = true
			}
			sameOuts := reflect.DeepEqual(outsOf(h), outsOf(tt))
			if !sameOuts {
				continue // the results are only looked at when the origin is called
			}
			snap := entry(s.target)
			before := append([]byte(nil), bytesAt(snap, 32)...)
			var m *Mocker
			p, v := panics(func() {
				m = newMock(s).Return(ifaces(randResults(verifRand(), tt))...).Origin(reflect.New(h).Interface()).Build()
			})
			if p == fits {
				t.Fatalf("%s: an origin holder of type %v for %v: refused %v (%v)", s.name, h, tt, p, v)
			}
			if m != nil {
				m.UnPatch()
			} else if string(bytesAt(snap, 32)) != string(before) {
				t.Fatalf("%s: refusing the origin changed the target", s.name)
			}
		}
	}
	var x int
	var e error
	for i, bad := range []interface{}{x, &x, &e, tgtInt, "s", struct{}{}, &struct{}{}} {
		n++
		var m *Mocker
		if p, _ := panics(func() { m = Mock(tgtInt).Origin(bad).Return(1, nil).Build() }); !p {
			m.UnPatch()
			t.Fatalf("origin holder %d (%T) is accepted", i, bad)
		}
	}
	if a, err := tgtInt(1, "x"); a != 11 || err != nil {
		t.Fatal(fmt.Sprint("the target is mocked after refusals: ", a))
	}
	vlog.take()
	cases(n)
}

func c12deep(d int, f func()) {
	var pad [40]byte
	pad[d%40] = 1
	if d == 0 {
		f()
		return
	}
	c12deep(d-1, f)
	pad[0]++
}

func c12frame1(a int, s string) (int, error) {
	var buf [100]int
	for i := range buf {
		buf[i] = a
	}
	vlog.add("orig")
	return buf[a] * 10, nil
}

func c12frame2(a int, s string) (int, error) {
	var buf [2000]byte
	for i := range buf {
		buf[i] = byte(a)
	}
	vlog.add("orig")
	return int(buf[a]) * 10, nil
}

func c12frame3(a int, s string) (int, error) {
	var buf [2000]int
	for i := range buf {
		buf[i] = a
	}
	vlog.add("orig")
	return buf[a] * 10, nil
}

// running the original works whatever room is left on the goroutine's stack
func TestVerif_C12_stack(t *testing.T) {
	step := 5
	if verifThorough() {
		step = 1
	}
	n := 0
	for i, f := range []func(int, string) (int, error){c12frame1, c12frame2, c12frame3} {
		var origin func(int, string) (int, error)
		m := Mock(f).When(func(a int, s string) bool { return a > 5 }).
			To(func(a int, s string) (int, error) { return origin(a, s) }).Origin(&origin).Build()
		k := 0
		for d := 0; d < 600; d += step {
			for a := 4; a < 8; a += 2 {
				k++
				breathe()
				done := make(chan int)
				go func() {
					r := 0
					c12deep(d, func() { r, _ = f(a, "ab") })
					done <- r
				}()
				if r := <-done; r != a*10 {
					t.Fatalf("depth %d: call(%d) gave %d", d, a, r)
				}
			}
		}
		if ev := vlog.take(); len(ev) != k {
			t.Fatalf("function %d: %d calls ran the original %d times", i, k, len(ev))
		}
		if m.Times() != k || m.MockTimes() != k/2 {
			t.Fatalf("function %d: Times %d MockTimes %d after %d calls", i, m.Times(), m.MockTimes(), k)
		}
		m.UnPatch()
		n += k
	}
	cases(n)
}
