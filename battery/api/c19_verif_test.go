package mockey_test

import (
	"fmt"
	"testing"

	. "github.com/bytedance/mockey"
)

type c19cond struct {
	set  int // values of x for which the predicate holds, as bits
	when bool
	hook bool
	ret  int
}

// random sequences of settings: each ends up with the condition it was given for
func TestVerif_C19_builder(t *testing.T) {
	r := verifRand()
	rounds := 1500
	if verifThorough() {
		rounds = 20000
	}
	n := 0
	for round := 0; round < rounds; round++ {
		var log []string
		conds := []*c19cond{{}}
		last := func() *c19cond {
			c := conds[len(conds)-1]
			if c.when && c.hook {
				c = &c19cond{}
				conds = append(conds, c)
			}
			return c
		}
		var origin func(int) int
		hasOrigin, touched := false, false
		b := Mock(c13a)
		for k := 1 + r.Intn(9); k > 0; k-- {
			n++
			refuse := false
			p, v := false, interface{}(nil)
			switch op := r.Intn(10); {
			case op < 4:
				set := r.Intn(256)
				c := last()
				refuse = c.when
				log = append(log, fmt.Sprintf("When(%b)", set))
				p, v = panics(func() { b.When(func(x int) bool { return set>>uint(x)&1 == 1 }) })
				if !refuse {
					c.when, c.set = true, set
				}
			case op < 8:
				c := last()
				refuse = c.hook
				val := 100*round + k
				how := r.Intn(3)
				log = append(log, fmt.Sprintf("Return/To/Sequence(%d) %d", val, how))
				p, v = panics(func() {
					switch how {
					case 0:
						b.Return(val)
					case 1:
						b.To(func(x int) int { return val })
					case 2:
						b.Return(Sequence(val).Times(2))
					}
				})
				if !refuse {
					c.hook, c.ret = true, val
				}
			case op == 8:
				refuse = hasOrigin
				log = append(log, "Origin")
				p, v = panics(func() { b.Origin(&origin) })
				hasOrigin = true
			default:
				refuse, touched = true, true // refused settings are of no effect on what was given
				how := r.Intn(6)
				log = append(log, fmt.Sprintf("refused setting %d", how))
				p, v = panics(func() {
					switch how {
					case 0:
						b.When(func(x int) int { return x })
					case 1:
						b.When(func(x int) {})
					case 2:
						b.When(func(x int) (bool, bool) { return true, true })
					case 3:
						b.To(5)
					case 4:
						b.When(5)
					case 5:
						b.Origin(5)
					}
				})
			}
			if p != refuse {
				t.Fatalf("%v: panic %v (%v), expected %v", log, p, v, refuse)
			}
		}
		breathe()
		m := b.Build()
		for x := 0; x < 8; x++ {
			want := -1
			for _, c := range conds {
				if c.when && c.set>>uint(x)&1 == 0 {
					continue
				}
				if c.hook {
					want = c.ret
				}
				break
			}
			if got := c13a(x); got != want {
				m.UnPatch()
				t.Fatalf("%v: call(%d) gave %d, not %d", log, x, got, want)
			}
			if hasOrigin && origin(x) != -1 {
				m.UnPatch()
				t.Fatalf("%v: the origin does not run the original", log)
			}
		}
		// resetting is only for one condition
		for how := 0; how < 3 && !touched; how++ {
			refuse := len(conds) > 1
			val := 7000000 + how
			p, v := panics(func() {
				switch how {
				case 0:
					m.Return(val)
				case 1:
					m.To(func(int) int { return val })
				case 2:
					m.When(func(x int) bool { return x%2 == 0 })
				}
			})
			if p != refuse {
				t.Fatalf("%v: resetting (%d) with %d conditions: panic %v (%v)", log, how, len(conds), p, v)
			}
			if refuse {
				for x := 0; x < 8; x++ {
					want := -1
					for _, c := range conds {
						if c.when && c.set>>uint(x)&1 == 0 {
							continue
						}
						if c.hook {
							want = c.ret
						}
						break
					}
					if got := c13a(x); got != want {
						t.Fatalf("%v: after a refused reset call(%d) gave %d, not %d", log, x, got, want)
					}
				}
				continue
			}
			switch how {
			case 0, 1:
				conds[0].hook, conds[0].ret = true, val
			case 2:
				conds[0].when, conds[0].set = true, 0x55
			}
			for x := 0; x < 8; x++ {
				want := -1
				if (!conds[0].when || conds[0].set>>uint(x)&1 == 1) && conds[0].hook {
					want = conds[0].ret
				}
				if got := c13a(x); got != want {
					t.Fatalf("%v: after resetting (%d) call(%d) gave %d, not %d", log, how, x, got, want)
				}
			}
		}
		m.UnPatch()
	}
	cases(n)
}

func TestVerif_C19_refusal(t *testing.T) {
	n := 0
	var p2 *int
	bad := map[string]func(){
		"target int":                func() { Mock(5) },
		"target nil":                func() { Mock(nil) },
		"target pointer":            func() { f := c13a; Mock(&f) },
		"target struct":             func() { Mock(struct{}{}) },
		"target string":             func() { MockUnsafe("x") },
		"generic target int":        func() { MockGeneric(5) },
		"hook int":                  func() { Mock(c13a).To(5) },
		"hook nil":                  func() { Mock(c13a).To(nil) },
		"hook pointer":              func() { f := c13a; Mock(c13a).To(&f) },
		"when nil":                  func() { Mock(c13a).When(nil) },
		"when int":                  func() { Mock(c13a).When(1) },
		"when without result":       func() { Mock(c13a).When(func(int) {}) },
		"when with two results":     func() { Mock(c13a).When(func(int) (bool, error) { return true, nil }) },
		"when with an int result":   func() { Mock(c13a).When(func(int) int { return 1 }) },
		"when with error result":    func() { Mock(c13a).When(func(int) error { return nil }) },
		"when with interface":       func() { Mock(c13a).When(func(int) interface{} { return true }) },
		"when with pointer to bool": func() { Mock(c13a).When(func(int) *bool { return nil }) },
		"two predicates":            func() { w := func(int) bool { return true }; Mock(c13a).When(w).When(w) },
		"two returns":               func() { Mock(c13a).Return(1).Return(2) },
		"return then to":            func() { Mock(c13a).Return(1).To(c13a) },
		"to then return":            func() { Mock(c13a).To(c13a).Return(1) },
		"to then to":                func() { Mock(c13a).To(c13a).To(c13a) },
		"two origins":               func() { var o func(int) int; Mock(c13a).Origin(&o).Origin(&o) },
		"origin not a pointer":      func() { var o func(int) int; Mock(c13a).Origin(o) },
		"origin nil":                func() { Mock(c13a).Origin(nil) },
		"variable not a pointer":    func() { MockValue(5) },
		"variable nil":              func() { MockValue(nil) },
		"variable func":             func() { MockValue(c13a) },
		"variable nil pointer":      func() { MockValue(p2).To(1) },
		"times zero":                func() { Sequence(1).Times(0) },
	}
	for name, f := range bad {
		n++
		if p, _ := panics(f); !p {
			t.Errorf("%s is accepted", name)
		}
	}
	// a named bool is a boolean, and these are fine
	type myBool bool
	good := map[string]func() int{
		"named bool": func() int {
			m := Mock(c13a).When(func(int) myBool { return true }).Return(5).Build()
			defer m.UnPatch()
			return c13a(1)
		},
		"hook before predicate": func() int {
			m := Mock(c13a).Return(5).When(func(int) bool { return true }).Build()
			defer m.UnPatch()
			return c13a(1)
		},
		"two complete conditions in both orders": func() int {
			m := Mock(c13a).Return(4).When(func(x int) bool { return x == 2 }).When(func(x int) bool { return x == 1 }).Return(5).Build()
			defer m.UnPatch()
			return c13a(1)
		},
		"origin first": func() int {
			var o func(int) int
			m := Mock(c13a).Origin(&o).Return(5).Build()
			defer m.UnPatch()
			return c13a(1)
		},
	}
	for name, f := range good {
		n++
		got := 0
		if p, v := panics(func() { got = f() }); p || got != 5 {
			t.Errorf("%s: panic %v, result %d", name, v, got)
		}
	}
	// options are kept: unsafe installs on a function too short for the jump
	if got := c13a(3); got != -1 {
		t.Errorf("a mock is left: %d", got)
	}
	cases(n)
}
