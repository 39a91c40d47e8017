package mockey_test

import (
	"bytes"
	"crypto/sha256"
	"fmt"
	"reflect"
	"strings"
	"testing"

	. "github.com/bytedance/mockey"
)

// ---- types with many ways of having a method

type c17V struct{ n int }

func (v c17V) Val(a int) string               { return fmt.Sprint("c17V.Val ", v.n, a) }
func (v *c17V) Ptr(a int, b ...string) string { return fmt.Sprint("c17V.Ptr ", v.n, a, len(b)) }
func (v c17V) Both() int                      { return 17 }

type c17E1 struct{ x int }

func (e c17E1) Shared() string  { return "c17E1.Shared" }
func (e *c17E1) OnlyE1() string { return "c17E1.OnlyE1" }

type c17E2 struct{ c17E1 }

func (e c17E2) Shared() string { return "c17E2.Shared" }
func (e c17E2) OnlyE2() string { return "c17E2.OnlyE2" }

type c17E3 struct{ y string }

func (e *c17E3) Shared() string { return "c17E3.Shared" }
func (e *c17E3) OnlyE3() string { return "c17E3.OnlyE3" }

type c17Outer struct {
	named c17V
	c17E2
	*c17E3
	F  func(int) int
	f2 func() string
	g  int
}

func (o c17Outer) Shared() string           { return "c17Outer.Shared" }
func (o *c17Outer) OnlyOut() string         { return "c17Outer.OnlyOut" }
func (o c17Outer) ValOut(x float64) float64 { return x * 2 }

type c17Iface interface{ Do(int) string }
type c17impl struct{}

func (c17impl) Do(n int) string { return "c17impl.Do" }

type c17WithIface struct {
	c17Iface
	n int
}

func (c17WithIface) Own() string { return "own" }

type c17Int int

func (c c17Int) Twice() int { return int(c) * 2 }
func (c *c17Int) Inc() int  { *c++; return int(*c) }

type c17Func func(int) int

func (f c17Func) Apply(n int) int { return f(n) }

type c17Gen[T any] struct{ v T }

func (g *c17Gen[T]) Get() T { return g.v }

func c17field(n int) int { return n * 31 }
func c17field2() string  { return "field2" }

type c17Deep struct {
	c17Outer
	F func(int) int
}

type c17Many struct{}

func (c17Many) Aa() int  { return 1 }
func (c17Many) Ab() int  { return 2 }
func (c17Many) B() int   { return 3 }
func (c17Many) A() int   { return 4 }
func (c17Many) ABC() int { return 5 }
func (c17Many) Z() int   { return 6 }

func c17cases() []struct {
	inst interface{}
	name string
	want interface{} // a function with the same code and type
} {
	o := &c17Outer{c17E3: &c17E3{}, F: c17field, f2: c17field2}
	noE3 := &c17Outer{F: c17field}
	ci := c17Int(4)
	return []struct {
		inst interface{}
		name string
		want interface{}
	}{
		{c17V{}, "Val", c17V.Val}, {&c17V{}, "Val", c17V.Val}, {c17V{}, "Ptr", (*c17V).Ptr}, {&c17V{}, "Ptr", (*c17V).Ptr},
		{c17V{}, "Both", c17V.Both}, {&c17V{}, "Both", c17V.Both},
		{o, "Shared", c17E1.Shared}, {*o, "Shared", c17E1.Shared},
		{o, "OnlyE1", (*c17E1).OnlyE1}, {*o, "OnlyE2", c17E2.OnlyE2}, {o, "OnlyE3", (*c17E3).OnlyE3},
		{o, "OnlyOut", (*c17Outer).OnlyOut}, {*o, "OnlyOut", (*c17Outer).OnlyOut}, {o, "ValOut", c17Outer.ValOut},
		{c17E2{}, "Shared", c17E1.Shared}, {&c17E3{}, "Shared", (*c17E3).Shared}, {c17E3{}, "Shared", (*c17E3).Shared},
		{o, "F", c17field}, {*o, "F", c17field}, {o, "f2", c17field2}, {*o, "f2", c17field2},
		{noE3, "OnlyOut", (*c17Outer).OnlyOut}, {noE3, "Shared", c17E1.Shared},
		{c17WithIface{c17Iface: c17impl{}}, "Do", c17impl.Do}, {&c17WithIface{c17Iface: &c17impl{}}, "Do", (*c17impl).Do},
		{c17WithIface{}, "Own", c17WithIface.Own}, {&c17WithIface{}, "Own", c17WithIface.Own},
		{c17Int(3), "Twice", c17Int.Twice}, {&ci, "Twice", c17Int.Twice}, {ci, "Inc", (*c17Int).Inc}, {&ci, "Inc", (*c17Int).Inc},
		{c17Func(c17field), "Apply", c17Func.Apply},
		{c17Deep{c17Outer: *o, F: c17field}, "OnlyOut", (*c17Outer).OnlyOut}, {&c17Deep{c17Outer: *o, F: c17field}, "F", c17field},
		{&c17Deep{c17Outer: *o, F: c17field}, "f2", c17field2}, {c17Deep{}, "OnlyE1", (*c17E1).OnlyE1},
		{c17Many{}, "A", c17Many.A}, {c17Many{}, "Aa", c17Many.Aa}, {c17Many{}, "Ab", c17Many.Ab}, {c17Many{}, "B", c17Many.B}, {&c17Many{}, "ABC", c17Many.ABC}, {c17Many{}, "Z", c17Many.Z},
		{new(bytes.Buffer), "WriteString", (*bytes.Buffer).WriteString}, {bytes.Buffer{}, "Len", (*bytes.Buffer).Len},
		{&strings.Builder{}, "String", (*strings.Builder).String},
	}
}

func TestVerif_C17_lookup(t *testing.T) {
	n := 0
	for i, c := range c17cases() {
		n++
		var got interface{}
		if p, v := panics(func() { got = GetMethod(c.inst, c.name) }); p {
			t.Fatalf("case %d: GetMethod(%T, %q) panics: %v", i, c.inst, c.name, v)
		}
		if got == nil || reflect.TypeOf(got) != reflect.TypeOf(c.want) {
			t.Fatalf("case %d: GetMethod(%T, %q) has type %T, not %T", i, c.inst, c.name, got, c.want)
		}
		if entry(got) != entry(c.want) {
			t.Fatalf("case %d: GetMethod(%T, %q) runs other code than %T", i, c.inst, c.name, c.want)
		}
	}
	cases(n)
}

// ---- embedded fields of every kind, in every order

type c17I interface{ M() string }
type c17A struct{ n int }
type c17B struct{ n int }
type c17N int

func (c17A) M() string     { return "A" }
func (c17A) OnlyA() string { return "OnlyA" }
func (*c17B) M() string    { return "B" }
func (*c17B) OnlyB() int   { return 2 }
func (c17N) M() string     { return "N" }
func (c17N) OnlyN() string { return "OnlyN" }

type (
	c17X1 struct {
		c17A
		c17I
	}
	c17X2 struct {
		c17I
		c17A
	}
	c17X3 struct {
		*c17B
		c17I
		c17A
	}
	c17X4 struct {
		k int
		c17N
		c17X2
	}
	c17X5 struct {
		x c17A
		c17I
		*c17X1
	}
	c17X6 struct {
		c17N
		*c17X4
		c17I
		B c17B
	}
	c17X7 struct {
		_ int
		y string
		c17I
	}
)

func (c17X1) OnlyX1() int  { return 1 }
func (*c17X5) OnlyX5() int { return 5 }
func (c17X7) M() string    { return "X7" }

// the first embedded field in which the search succeeds, else the type's own
func c17ref(v reflect.Value, name string) (reflect.Method, bool) {
	if k := v.Kind(); k == reflect.Ptr || k == reflect.Interface {
		if v.IsNil() {
			return reflect.Method{}, false
		}
		v = v.Elem()
	}
	if v.Kind() == reflect.Struct {
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).Anonymous {
				if m, ok := c17ref(v.Field(i), name); ok {
					return m, true
				}
			}
		}
	}
	if m, ok := v.Type().MethodByName(name); ok {
		return m, true
	}
	return reflect.PtrTo(v.Type()).MethodByName(name)
}

func TestVerif_C17_embedded(t *testing.T) {
	var insts []interface{}
	for _, i := range []c17I{nil, c17A{}, &c17A{}, &c17B{}, c17N(1), c17X7{}, c17X7{c17I: &c17B{}}} {
		x1 := c17X1{c17I: i}
		x2 := c17X2{c17I: i}
		x4 := c17X4{c17X2: x2}
		for _, v := range []interface{}{x1, x2, c17X3{c17I: i}, c17X3{c17I: i, c17B: &c17B{}}, x4, c17X5{c17I: i}, c17X5{c17I: i, c17X1: &x1}, c17X6{c17I: i}, c17X6{c17I: i, c17X4: &x4}, c17X7{c17I: i}} {
			p := reflect.New(reflect.TypeOf(v))
			p.Elem().Set(reflect.ValueOf(v))
			insts = append(insts, v, p.Interface())
		}
	}
	n := 0
	for _, in := range insts {
		for _, name := range []string{"M", "OnlyA", "OnlyB", "OnlyN", "OnlyX1", "OnlyX5", "Absent"} {
			for k, f := range []func(interface{}, string) interface{}{GetMethod, GetNestedMethod} {
				n++
				want, ok := c17ref(reflect.ValueOf(in), name)
				var got interface{}
				p, v := panics(func() { got = f(in, name) })
				if p == ok {
					t.Fatalf("lookup %d of %q on %#v panics %v (%v), there is such a method: %v", k, name, in, p, v, ok)
				}
				if ok && (got == nil || reflect.TypeOf(got) != want.Type || entry(got) != entry(want.Func.Interface())) {
					t.Fatalf("lookup %d of %q on %#v gives a %T, not the %v searched first", k, name, in, got, want.Type)
				}
			}
		}
	}
	cases(n)
}

// what is found is what a program calls: mocking it takes effect there
func TestVerif_C17_mocked(t *testing.T) {
	o := &c17Outer{c17E3: &c17E3{}, F: c17field, f2: c17field2}
	type tc struct {
		inst interface{}
		name string
		call func() interface{}
		with interface{}
	}
	list := []tc{
		{o, "OnlyE3", func() interface{} { return o.OnlyE3() }, "mocked"},
		{o, "OnlyOut", func() interface{} { return o.OnlyOut() }, "mocked"},
		{o, "ValOut", func() interface{} { return o.ValOut(1) }, 44.5},
		{c17V{}, "Ptr", func() interface{} { return (&c17V{}).Ptr(1, "x") }, "mocked"},
		{&c17V{}, "Val", func() interface{} { return c17V{}.Val(1) }, "mocked"},
		{o, "F", func() interface{} { return c17field(1) }, 99},
		{c17Many{}, "Ab", func() interface{} { return c17Many{}.Ab() }, 99},
	}
	for i, c := range list {
		m := Mock(GetMethod(c.inst, c.name)).Return(c.with).Build()
		got := c.call()
		others := c17Many{}.A() + c17Many{}.Aa() + c17Many{}.B()
		m.UnPatch()
		if got != c.with {
			t.Fatalf("case %d: mocking the %q found on %T: the call gives %v", i, c.name, c.inst, got)
		}
		if others != 8 {
			t.Fatalf("case %d: other methods are mocked", i)
		}
	}
	cases(len(list))
}

// calling what is found runs that method on the given receiver
func TestVerif_C17_call(t *testing.T) {
	v := c17V{n: 3}
	if f := GetMethod(v, "Val").(func(c17V, int) string); f(c17V{n: 8}, 1) != "c17V.Val 8 1" {
		t.Fatal(f(v, 1))
	}
	if f := GetMethod(v, "Ptr").(func(*c17V, int, ...string) string); f(&c17V{n: 9}, 1, "a", "b") != "c17V.Ptr 9 1 2" {
		t.Fatal(f(&v, 1))
	}
	g := &c17Gen[int]{v: 5}
	if f := GetMethod(g, "Get").(func(*c17Gen[int]) int); f(&c17Gen[int]{v: 6}) != 6 {
		t.Fatal("generic")
	}
	o := &c17Outer{F: c17field, f2: c17field2}
	if f := GetMethod(o, "F").(func(int) int); f(2) != 62 {
		t.Fatal("field")
	}
	cases(4)
}

func TestVerif_C17_absent(t *testing.T) {
	n := 0
	var e error
	insts := []interface{}{c17V{}, &c17V{}, c17Outer{}, &c17Outer{}, c17Int(1), c17WithIface{}, c17Many{}, 5, "s", []int{1}, map[string]int{}, func() {}, &e, nil, struct{}{}}
	for _, in := range insts {
		for _, name := range []string{"", "Nope", "nope", "VaL", "Va", "Vall", "named", "g", "n", "x", "OnlyE4", "Ä", "_", "AA"} {
			n++
			for k, f := range []func() interface{}{func() interface{} { return GetMethod(in, name) }, func() interface{} { return GetNestedMethod(in, name) }, func() interface{} { return GetPrivateMethod(in, name) }} {
				var got interface{}
				if p, _ := panics(func() { got = f() }); !p {
					t.Fatalf("lookup %d of %q on %T does not panic but gives %T", k, name, in, got)
				}
			}
		}
	}
	cases(n)
}

// ---- unexported methods

func c18check(t *testing.T, inst interface{}, name string, want interface{}) {
	var got interface{}
	if p, v := panics(func() { got = GetMethod(inst, name) }); p {
		t.Fatalf("GetMethod(%T, %.40q) panics: %v", inst, name, v)
	}
	if reflect.TypeOf(got) != reflect.TypeOf(want) {
		t.Fatalf("GetMethod(%T, %.40q) has type %T, not %T", inst, name, got, want)
	}
	if entry(got) != entry(want) {
		t.Fatalf("GetMethod(%T, %.40q) runs other code", inst, name)
	}
}

type c18S struct{ a int }

func (c *c18S) plain() int                                      { return c.a }
func (c *c18S) args(a int, b string, f float64) (string, error) { return b, nil }
func (c *c18S) vari(a int, b ...string) []string                { return b }
func (c *c18S) noresult(m map[string]int)                       { c.a++ }
func (c *c18S) p() int                                          { return 1 }
func (c *c18S) plai() int                                       { return 2 }
func (c *c18S) plain2() int                                     { return 3 }
func (c *c18S) Exported() int                                   { return 4 }
func (c *c18S) _x() int                                         { return 5 }
func (c *c18S) ünicode() int                                    { return 6 }

type c18V struct{ a, b, c int }

func (c c18V) val(x int) int { return c.b + x }
func (c *c18V) ptr() int     { return c.c }

type c18F func(int) int

func (f c18F) run(n int) int { return f(n) }

func (c *c18S) aa() {}

type c18ifs interface {
	plain() int
	args(int, string, float64) (string, error)
	vari(int, ...string) []string
	noresult(map[string]int)
	plai() int
	plain2() int
	_x() int
	ünicode() int
}

func TestVerif_C18_types(t *testing.T) {
	keep := []interface{}{func() int { return 0 }, func(int, string, float64) (string, error) { return "", nil }, func(int, ...string) []string { return nil }, func(map[string]int) {}, func(int) int { return 0 }, func() (r [sha256.Size]byte) { return }, func() bool { return true }}
	_ = keep
	var i c18ifs = &c18S{a: 2}
	i.args(1, "", 1)
	i.vari(1)
	i.noresult(nil)
	_ = i.plain() + i.plai() + i.plain2() + i._x() + i.ünicode()
	s := &c18S{}
	c18check(t, s, "plain", (*c18S).plain)
	c18check(t, s, "args", (*c18S).args)
	c18check(t, s, "vari", (*c18S).vari)
	c18check(t, s, "noresult", (*c18S).noresult)
	c18check(t, s, "plai", (*c18S).plai)
	c18check(t, s, "plain2", (*c18S).plain2)
	c18check(t, s, "_x", (*c18S)._x)
	c18check(t, s, "ünicode", (*c18S).ünicode)
	c18check(t, c18V{}, "val", c18V.val)
	c18check(t, &c18V{}, "ptr", (*c18V).ptr)
	c18check(t, c18F(func(int) int { return 0 }), "run", c18F.run)
	// through the function found
	if f := GetMethod(&c18V{}, "ptr").(func(*c18V) int); f(&c18V{c: 9}) != 9 {
		t.Fatal("wrong receiver")
	}
	if f := GetMethod(c18V{}, "val").(func(c18V, int) int); f(c18V{b: 5}, 2) != 7 {
		t.Fatal("wrong receiver or argument")
	}
	if f := GetMethod(s, "vari").(func(*c18S, int, ...string) []string); len(f(s, 1, "x", "y")) != 2 {
		t.Fatal("wrong variadic")
	}
	// mocking takes effect where the method is called
	m := Mock(GetMethod(s, "plain")).Return(77).Build()
	if s.plain() != 77 || s.plain2() != 3 || s.plai() != 2 {
		t.Fatal("mocking the private method")
	}
	m.UnPatch()
	// standard library
	h := sha256.New()
	h.Write([]byte("x"))
	m = Mock(GetMethod(h, "checkSum")).Return([sha256.Size]byte{1, 2, 3}).Build()
	if got := h.Sum(nil); got[0] != 1 || got[1] != 2 {
		t.Fatal("checkSum of sha256 is not mocked")
	}
	m.UnPatch()
	var b bytes.Buffer
	b.Write([]byte("x"))
	m = Mock(GetMethod(&b, "empty")).Return(true).Build()
	if n, _ := b.Read(make([]byte, 1)); n != 0 {
		t.Fatal("empty of bytes.Buffer is not mocked")
	}
	m.UnPatch()
	cases(18)
}

func TestVerif_C18_many(t *testing.T) {
	n := 0
	var keep []interface{}
	keep = append(keep, func(int) int { return 0 }, func(string, ...int) string { return "" })
	_ = keep
	for name, want := range c18many {
		n++
		c18check(t, &c18M{}, name, want)
	}
	for name := range c18many {
		for _, other := range []string{name + "x", name[:len(name)-1], "z" + name} {
			if c18many[other] != nil || other == "" || other[0] < 'a' {
				continue
			}
			n++
			var got interface{}
			if p, _ := panics(func() { got = GetMethod(&c18M{}, other) }); !p {
				t.Fatalf("GetMethod(%.40q...) does not panic but gives %T", other, got)
			}
		}
	}
	cases(n)
}

func TestVerif_C18_absent(t *testing.T) {
	n := 0
	for _, in := range []interface{}{&c18S{}, c18V{}, &c18V{}, &c17Many{}, 5, "s", &struct{}{}, []int{}, c17Int(2), func() {}, new(bytes.Buffer)} {
		for _, name := range []string{"absent", "plaim", "exported", "emptyy", "empt", "ptrr", "va"} {
			n++
			var got interface{}
			if p, _ := panics(func() { got = GetMethod(in, name) }); !p {
				t.Fatalf("GetMethod(%T, %q) does not panic but gives %T", in, name, got)
			}
		}
	}
	cases(n)
}
