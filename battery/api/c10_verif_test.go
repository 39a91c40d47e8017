package mockey_test

import (
	"fmt"
	"math"
	"reflect"
	"testing"

	. "github.com/bytedance/mockey"
)

type c10Str string
type c10Err struct{ s string }

func (e *c10Err) Error() string { return e.s }

type c10S1 struct{ A int }
type c10S2 struct{ A int }
type c10Fn func(int) int

func c10r1() int             { return -1 }
func c10r2() int8            { return -1 }
func c10r3() float64         { return -1 }
func c10r4() string          { return "orig" }
func c10r5() c10Str          { return "orig" }
func c10r6() error           { return errOrig }
func c10r7() interface{}     { return errOrig }
func c10r8() []byte          { return []byte("orig") }
func c10r9() c10S2           { return c10S2{-1} }
func c10r10() *c10S1         { return &c10S1{-1} }
func c10r11() map[string]int { return map[string]int{"o": 1} }
func c10r12() c10Fn          { return nil }
func c10r13() <-chan int     { return nil }
func c10r14() uint16         { return 1 }
func c10r15() [2]int         { return [2]int{-1, -1} }
func c10r16() fmt.Stringer   { return nil }
func c10r17() complex64      { return 1 }
func c10r18() bool           { return true }
func c10two() (int, error)   { return -1, errOrig }
func c10none()               { vlog.add("orig") }
func c10five() (a string, b int64, c error, d float32, e interface{}) {
	return "o", -1, errOrig, -1, errOrig
}
func c10gen[T any](v T) (T, error)                     { return v, errOrig }
func (r *recvT) c10m(a int, b ...string) (string, int) { return "o", -1 }

var c10ch = make(chan int)
var c10e = &c10Err{"c10"}
var c10p = &c10S1{7}
var c10sl = []byte("abc")
var c10map = map[string]int{"k": 1}

// a target, given values and what the call must return; nil means it must panic
var c10cases = []struct {
	f     interface{}
	given []interface{}
	want  []interface{}
}{
	{c10r1, []interface{}{5}, []interface{}{5}},
	{c10r1, []interface{}{int8(-5)}, []interface{}{-5}},
	{c10r1, []interface{}{uint64(1 << 63)}, []interface{}{math.MinInt64}},
	{c10r1, []interface{}{2.9}, []interface{}{2}},
	{c10r1, []interface{}{-2.9}, []interface{}{-2}},
	{c10r1, []interface{}{nil}, []interface{}{0}},
	{c10r1, []interface{}{"5"}, nil},
	{c10r1, []interface{}{true}, nil},
	{c10r1, []interface{}{c10e}, nil},
	{c10r1, []interface{}{}, nil},
	{c10r1, []interface{}{1, 2}, nil},
	{c10r1, []interface{}{1, nil}, nil},
	{c10r2, []interface{}{300}, []interface{}{int8(44)}},
	{c10r2, []interface{}{nil}, []interface{}{int8(0)}},
	{c10r3, []interface{}{3}, []interface{}{3.0}},
	{c10r3, []interface{}{float32(0.5)}, []interface{}{0.5}},
	{c10r4, []interface{}{""}, []interface{}{""}},
	{c10r4, []interface{}{65}, []interface{}{"A"}},
	{c10r4, []interface{}{[]byte("xy")}, []interface{}{"xy"}},
	{c10r4, []interface{}{c10Str("z")}, []interface{}{"z"}},
	{c10r4, []interface{}{nil}, []interface{}{""}},
	{c10r4, []interface{}{1.5}, nil},
	{c10r5, []interface{}{"z"}, []interface{}{c10Str("z")}},
	{c10r5, []interface{}{nil}, []interface{}{c10Str("")}},
	{c10r6, []interface{}{c10e}, []interface{}{c10e}},
	{c10r6, []interface{}{nil}, []interface{}{nil}},
	{c10r6, []interface{}{(*c10Err)(nil)}, []interface{}{(*c10Err)(nil)}},
	{c10r6, []interface{}{c10Err{"v"}}, nil},
	{c10r6, []interface{}{"err"}, nil},
	{c10r7, []interface{}{nil}, []interface{}{nil}},
	{c10r7, []interface{}{3}, []interface{}{3}},
	{c10r7, []interface{}{[]interface{}{1, 2}}, []interface{}{[]interface{}{1, 2}}},
	{c10r7, []interface{}{c10p}, []interface{}{c10p}},
	{c10r8, []interface{}{"qq"}, []interface{}{[]byte("qq")}},
	{c10r8, []interface{}{nil}, []interface{}{[]byte(nil)}},
	{c10r8, []interface{}{[]int{1}}, nil},
	{c10r9, []interface{}{c10S1{4}}, []interface{}{c10S2{4}}},
	{c10r9, []interface{}{nil}, []interface{}{c10S2{}}},
	{c10r9, []interface{}{c10p}, nil},
	{c10r10, []interface{}{c10p}, []interface{}{c10p}},
	{c10r10, []interface{}{nil}, []interface{}{(*c10S1)(nil)}},
	{c10r10, []interface{}{c10S1{}}, nil},
	{c10r11, []interface{}{c10map}, []interface{}{c10map}},
	{c10r11, []interface{}{nil}, []interface{}{map[string]int(nil)}},
	{c10r11, []interface{}{map[string]int64{}}, nil},
	{c10r12, []interface{}{nil}, []interface{}{c10Fn(nil)}},
	{c10r13, []interface{}{c10ch}, []interface{}{(<-chan int)(c10ch)}},
	{c10r13, []interface{}{make(chan<- int)}, nil},
	{c10r14, []interface{}{-1}, []interface{}{uint16(65535)}},
	{c10r14, []interface{}{uint64(0x12345)}, []interface{}{uint16(0x2345)}},
	{c10r15, []interface{}{[2]int{1, 2}}, []interface{}{[2]int{1, 2}}},
	{c10r15, []interface{}{[3]int{1, 2}}, nil},
	{c10r15, []interface{}{nil}, []interface{}{[2]int{}}},
	{c10r16, []interface{}{nil}, []interface{}{nil}},
	{c10r16, []interface{}{c10e}, nil},
	{c10r16, []interface{}{reflect.TypeOf(1)}, []interface{}{reflect.TypeOf(1)}},
	{c10r17, []interface{}{complex(1, 2)}, []interface{}{complex64(complex(1, 2))}},
	{c10r17, []interface{}{1}, nil},
	{c10r18, []interface{}{false}, []interface{}{false}},
	{c10r18, []interface{}{0}, nil},
	{c10two, []interface{}{1, nil}, []interface{}{1, nil}},
	{c10two, []interface{}{nil, c10e}, []interface{}{0, c10e}},
	{c10two, []interface{}{int16(9), c10e}, []interface{}{9, c10e}},
	{c10two, []interface{}{nil, nil}, []interface{}{0, nil}},
	{c10two, []interface{}{c10e, 1}, nil},
	{c10two, []interface{}{1, 1}, nil},
	{c10two, []interface{}{"x", nil}, nil},
	{c10two, []interface{}{1}, nil},
	{c10two, []interface{}{nil}, nil},
	{c10two, []interface{}{1, nil, nil}, nil},
	{c10none, []interface{}{}, []interface{}{}},
	{c10none, []interface{}{1}, nil},
	{c10none, []interface{}{nil}, nil},
	{c10five, []interface{}{"a", 1, nil, 2.5, "e"}, []interface{}{"a", int64(1), nil, float32(2.5), "e"}},
	{c10five, []interface{}{nil, nil, c10e, nil, nil}, []interface{}{"", int64(0), c10e, float32(0), nil}},
	{c10five, []interface{}{"a", 1, nil, 2.5}, nil},
	{c10five, []interface{}{"a", 1, nil, "no", "e"}, nil},
	{c10five, []interface{}{"a", 1, 1, 2.5, "e"}, nil},
	{c10five, []interface{}{"a", 1, nil, 2.5, "e", nil}, nil},
	{c10gen[int], []interface{}{int8(3), nil}, []interface{}{3, nil}},
	{c10gen[string], []interface{}{"s", c10e}, []interface{}{"s", c10e}},
	{c10gen[string], []interface{}{nil, nil}, []interface{}{"", nil}},
	{c10gen[string], []interface{}{1.5, nil}, nil},
	{c10gen[string], []interface{}{"s"}, nil},
	{(*recvT).c10m, []interface{}{"s", 4}, []interface{}{"s", 4}},
	{(*recvT).c10m, []interface{}{nil, 4.0}, []interface{}{"", 4}},
	{(*recvT).c10m, []interface{}{4.0, 4}, nil},
}

func c10generic(f interface{}) bool {
	return reflect.TypeOf(f).NumIn() == 1 // only c10gen takes a single argument
}

func c10build(i int) *MockBuilder {
	f := c10cases[i].f
	switch f.(type) {
	case func(int) (int, error):
		return Mock(c10gen[int], OptGeneric)
	case func(string) (string, error):
		return Mock(c10gen[string], OptGeneric)
	}
	return Mock(f)
}

func c10call(i int, r []reflect.Value) ([]interface{}, bool, interface{}) {
	var out []interface{}
	f := c10cases[i].f
	p, v := panics(func() {
		switch g := f.(type) {
		case func(int) (int, error):
			a, b := c10gen[int](1)
			out = []interface{}{a, b}
		case func(string) (string, error):
			a, b := c10gen[string]("1")
			out = []interface{}{a, b}
		default:
			_ = g
			out = ifaces(call(f, randArgs(verifRand(), reflect.TypeOf(f))))
		}
	})
	return out, p, v
}

func c10same(got, want []interface{}) bool {
	if len(got) != len(want) {
		return false
	}
	for i := range got {
		if reflect.TypeOf(got[i]) != reflect.TypeOf(want[i]) {
			return false
		}
		if got[i] == nil {
			continue
		}
		if reflect.TypeOf(got[i]).Kind() == reflect.Slice {
			if !reflect.DeepEqual(got[i], want[i]) {
				return false
			}
			continue
		}
		if !eqv(got[i], want[i]) {
			return false
		}
	}
	return true
}

// values given by Return, on the builder and on the installed mock
func TestVerif_C10_return(t *testing.T) {
	n := 0
	for i, c := range c10cases {
		for how := 0; how < 4; how++ {
			var m *Mocker
			p, v := panics(func() {
				switch how {
				case 0:
					m = c10build(i).Return(c.given...).Build()
				case 1:
					m = c10build(i).To(c.f).Build()
					m.Return(c.given...)
				case 2:
					m = c10build(i).Return(Sequence(c.given...)).Build()
				case 3:
					m = c10build(i).Return(Sequence(c.given...).Times(2).Then(c.given...)).Build()
				}
			})
			if p {
				if c.want != nil {
					t.Fatalf("case %d (%d): Return(%v) on %T is refused: %v", i, how, c.given, c.f, v)
				}
				continue // refused early: never returns other values
			}
			for k := 0; k < 5; k++ {
				n++
				got, p, v := c10call(i, nil)
				if c.want == nil && !p {
					t.Fatalf("case %d (%d) call %d: Return(%v) on %T returned %v instead of a panic", i, how, k, c.given, c.f, got)
				}
				if c.want != nil && p {
					t.Fatalf("case %d (%d) call %d: Return(%v) on %T: panic %v", i, how, k, c.given, c.f, v)
				}
				if c.want != nil && !c10same(got, c.want) {
					t.Fatalf("case %d (%d) call %d: Return(%#v) on %T returned %#v, not %#v", i, how, k, c.given, c.f, got, c.want)
				}
			}
			m.UnPatch()
		}
	}
	cases(n)
}

// a sequence mixing good and bad entries: the good ones are returned, the bad ones panic, in turn
func TestVerif_C10_sequence(t *testing.T) {
	r := verifRand()
	rounds := 150
	if verifThorough() {
		rounds = 2000
	}
	n := 0
	byF := map[uintptr][]int{}
	for i, c := range c10cases {
		if reflect.TypeOf(c.f).NumIn() == 1 {
			continue
		}
		byF[entry(c.f)] = append(byF[entry(c.f)], i)
	}
	var keys []int
	for i, c := range c10cases {
		if l := byF[entry(c.f)]; len(l) > 1 && l[0] == i {
			keys = append(keys, i)
		}
	}
	for round := 0; round < rounds; round++ {
		list := byF[entry(c10cases[keys[r.Intn(len(keys))]].f)]
		m := 1 + r.Intn(5)
		var order []int
		seq := Sequence(c10cases[list[0]].given...)
		order = append(order, list[0])
		for k := 1; k < m; k++ {
			i := list[r.Intn(len(list))]
			tm := 1 + r.Intn(3)
			seq = seq.Then(c10cases[i].given...).Times(tm)
			for ; tm > 0; tm-- {
				order = append(order, i)
			}
		}
		var mk *Mocker
		if p, _ := panics(func() { mk = c10build(list[0]).Return(seq).Build() }); p {
			continue
		}
		for k := 0; k < 2*len(order)+1; k++ {
			n++
			i := order[k%len(order)]
			got, p, v := c10call(list[0], nil)
			want := c10cases[i].want
			if (want == nil) != p || want != nil && !c10same(got, want) {
				t.Fatalf("%T with the sequence %v: call %d gave %v (panic %v %v), not %v", c10cases[i].f, order, k, got, p, v, want)
			}
		}
		mk.UnPatch()
	}
	cases(n)
}

// random values of the exact types come back as given
func TestVerif_C10_exact(t *testing.T) {
	r := verifRand()
	rounds := 40
	if verifThorough() {
		rounds = 400
	}
	n := 0
	for _, s := range shapes {
		for k := 0; k < rounds; k++ {
			n++
			want := ifaces(randResults(r, s.typ()))
			m := newMock(s).Return(want...).Build()
			args := randArgs(r, s.typ())
			got := ifaces(call(s.target, args))
			m.UnPatch()
			vlog.take()
			// generic targets are called through a wrapper: only code generated with the
			// instantiation goes through it, a function value does
			if !eqArgs(got, want) {
				t.Fatalf("%s: Return(%#v) gave %#v", s.name, want, got)
			}
		}
	}
	cases(n)
}
