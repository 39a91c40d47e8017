package mockey_test

import (
	"bytes"
	"runtime"
	"testing"

	. "github.com/bytedance/mockey"
)

// removing puts every byte of code back, and nothing but the entry is changed
func TestVerif_C01_bytes(t *testing.T) {
	r := verifRand()
	rounds := 3
	if verifThorough() {
		rounds = 40
	}
	n := 0
	for round := 0; round < rounds; round++ {
		for _, s := range shapes {
			for _, unsafeOpt := range []bool{false, true} {
				n++
				snap := snapCode()
				mk := func() *MockBuilder {
					if s.generic && unsafeOpt {
						return Mock(s.target, OptGeneric, OptUnsafe)
					} else if unsafeOpt {
						return MockUnsafe(s.target)
					}
					return newMock(s)
				}
				depth := 1 + r.Intn(3)
				var ms []*Mocker
				var lvl func(d int)
				var snaps [][]byte
				at := entry(s.target)
				lvl = func(d int) {
					m := mk().Return(ifaces(randResults(r, s.typ()))...).Build()
					ms = append(ms, m)
					d1 := snap.diff()
					if len(d1) == 0 {
						t.Fatalf("%s: installing changes no code", s.name)
					}
					lo, hi := d1[0], d1[len(d1)-1]
					if hi-lo >= 24 {
						t.Fatalf("%s: installing changes the code from %#x to %#x", s.name, lo, hi)
					}
					fn := runtime.FuncForPC(lo)
					if !s.generic && (lo < at || hi >= at+24) {
						t.Fatalf("%s: entered at %#x, changed at %#x to %#x (%s)", s.name, at, lo, hi, fn.Name())
					}
					if fn.Entry() != runtime.FuncForPC(hi).Entry() || lo-fn.Entry() >= 24 {
						t.Fatalf("%s: changed %#x to %#x, not the entry of %s", s.name, lo, hi, fn.Name())
					}
					cur := append([]byte(nil), bytesAt(lo&^63, 192)...)
					snaps = append(snaps, cur)
					if d > 1 {
						PatchConvey("inner", func() { lvl(d - 1) })
						if !bytes.Equal(bytesAt(lo&^63, 192), cur) {
							t.Fatalf("%s: removing the mock of the inner scope does not restore the code", s.name)
						}
					}
					if r.Intn(2) == 0 { // off and on again
						m.UnPatch()
						m.Patch()
						m.UnPatch()
					}
				}
				PatchConvey("outer", &c13t{}, func() { lvl(depth) })
				if d := snap.diff(); len(d) > 0 {
					t.Fatalf("%s: after removal the code differs at %#x", s.name, d)
				}
			}
		}
	}
	cases(n)
}

// every short function of this program with a prologue that is accepted: small bodies
func c01t1(a int) int          { return a + 1 }
func c01t2() (a, b, c int)     { return 1, 2, 3 }
func c01t3(x float64) float64  { return x * 1.5 }
func c01t4(x *int)             { *x++ }
func c01t5(s string) byte      { return s[0] }
func c01t6(f func() int) int   { return f() }
func c01t7(a, b uint64) uint64 { return a ^ b<<3 }
func c01t8(x interface{}) bool { return x == nil }
func c01t9(m map[int]int)      { m[1] = 2 }
func c01t10(c chan int) int    { return <-c }
func c01t11()                  { panic("x") }
func c01t12(a [100]int) int    { return a[7] }

func TestVerif_C01_bodies(t *testing.T) {
	n := 0
	for i, f := range []interface{}{c01t1, c01t2, c01t3, c01t4, c01t5, c01t6, c01t7, c01t8, c01t9, c01t10, c01t11, c01t12,
		bytes.Equal, bytes.Index, (*bytes.Buffer).String, bytes.Repeat, bytes.NewReader, bytes.Title, bytes.Fields} {
		n++
		snap := snapCode()
		var m *Mocker
		p, _ := panics(func() { m = Mock(f, OptUnsafe).To(f).Build() })
		if p {
			if d := snap.diff(); len(d) > 0 {
				t.Fatalf("function %d: refused, but the code differs at %#x", i, d)
			}
			continue
		}
		m.UnPatch()
		if d := snap.diff(); len(d) > 0 {
			t.Fatalf("function %d: after removal the code differs at %#x", i, d)
		}
	}
	cases(n)
}
