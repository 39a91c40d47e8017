package mockey_test

import (
	"fmt"
	"math/rand"
	"reflect"
	"testing"

	. "github.com/bytedance/mockey"
)

type condM struct {
	when, hook   bool
	wform, hform form
	results      []reflect.Value
	ret          bool // Return instead of To
	toFirst      bool
}

type verdict struct{ events, args, results, counts string }

// condEngine builds random condition lists on every shape and compares every call with the contract.
func condEngine(r *rand.Rand, s shape, desc *string) (v verdict, n int) {
	t := s.typ()
	forms := s.forms()
	rf := func() form { return forms[r.Intn(len(forms))] }
	var conds []condM
	for k := r.Intn(5); k > 0; k-- {
		conds = append(conds, condM{when: true, hook: true})
	}
	switch r.Intn(3) {
	case 0:
		conds = append(conds, condM{when: true})
	case 1:
		conds = append(conds, condM{hook: true})
	}
	dec := make([]bool, len(conds))
	b := newMock(s)
	d := ""
	for i := range conds {
		i := i
		c := &conds[i]
		c.wform, c.hform, c.results, c.toFirst = rf(), rf(), randResults(r, t), r.Intn(2) == 0
		c.ret = r.Intn(4) == 0
		when := func() {
			if c.when {
				b = b.When(s.logged(fmt.Sprintf("when%d", i), c.wform, []reflect.Type{boolType}, func([]reflect.Value) []reflect.Value {
					return []reflect.Value{reflect.ValueOf(dec[i])}
				}))
			}
		}
		hook := func() {
			if !c.hook {
				return
			}
			if c.ret {
				b = b.Return(ifaces(c.results)...)
			} else {
				b = b.To(s.logged(fmt.Sprintf("hook%d", i), c.hform, outsOf(t), func([]reflect.Value) []reflect.Value { return c.results }))
			}
		}
		if c.toFirst {
			hook()
			when()
		} else {
			when()
			hook()
		}
		d += fmt.Sprintf(" [when=%v hook=%v return=%v forms %v %v]", c.when, c.hook, c.ret, c.wform, c.hform)
	}
	m := b.Build()
	defer m.UnPatch()
	*desc = fmt.Sprintf("%s, conditions%s", s.name, d)
	times, mocked := 0, 0
	for k := 0; k < 4; k++ {
		n++
		for i := range dec {
			dec[i] = r.Intn(3) == 0
		}
		args := randArgs(r, t)
		ia := ifaces(args)
		var exp []string
		sel := -1
		for i, c := range conds {
			if c.when {
				exp = append(exp, fmt.Sprintf("when%d", i))
				if !dec[i] {
					continue
				}
			}
			sel = i
			break
		}
		var want []interface{}
		orig := true
		if sel >= 0 && conds[sel].hook {
			orig = false
			if !conds[sel].ret {
				exp = append(exp, fmt.Sprintf("hook%d", sel))
			}
			want = ifaces(conds[sel].results)
			mocked++
		} else {
			exp = append(exp, "orig")
		}
		times++
		vlog.take()
		res := call(s.target, args)
		got := vlog.take()
		e := ""
		for i, x := range exp {
			if i > 0 {
				e += " "
			}
			e += x
		}
		if g := names(got); g != e {
			v.events = fmt.Sprintf("call %d with the predicates %v ran [%s], the contract says [%s]", k, dec, g, e)
			return
		}
		for _, ev := range got {
			var f form
			var i int
			if _, err := fmt.Sscanf(ev.what, "when%d", &i); err == nil {
				f = conds[i].wform
			} else if _, err := fmt.Sscanf(ev.what, "hook%d", &i); err == nil {
				f = conds[i].hform
			}
			if msg := s.checkEvent(ev, f, ia); msg != "" {
				v.args = fmt.Sprintf("call %d: %s %s", k, ev.what, msg)
				return
			}
		}
		if orig {
			want = origResults(s, args)
			vlog.take()
		}
		if !eqArgs(ifaces(res), want) {
			v.results = fmt.Sprintf("call %d returned %v, the contract says %v", k, ifaces(res), want)
			return
		}
		if m.Times() != times || m.MockTimes() != mocked {
			v.counts = fmt.Sprintf("after %d calls of which %d mocked, Times()=%d MockTimes()=%d", times, mocked, m.Times(), m.MockTimes())
			return
		}
	}
	m.UnPatch()
	if m.Times() != 0 || m.MockTimes() != 0 {
		v.counts = fmt.Sprintf("after removal Times()=%d MockTimes()=%d", m.Times(), m.MockTimes())
	}
	return
}

// origResults computes what the unmocked target returns.
func origResults(s shape, args []reflect.Value) []interface{} {
	a := ifaces(args)
	switch s.name {
	case "no parameters":
		return []interface{}{errOrig}
	case "int and string":
		return []interface{}{a[0].(int)*10 + len(a[1].(string)), nil}
	case "variadic":
		return []interface{}{a[0].(int) + len(a[1].([]string)), a[1]}
	case "variadic of interfaces":
		return []interface{}{len(a[0].([]interface{}))}
	case "big values":
		return []interface{}{a[0].(bigT).A, a[3].([3]string)[1], a[1].(float64) * 2, a[0]}
	case "many parameters":
		n := 0
		for i := 0; i < 12; i++ {
			n += a[i].(int)
		}
		return []interface{}{n, a[12].(float64) + a[13].(float64), a[14].(string) + a[15].(string), a[16], a[17]}
	case "all kinds":
		return a
	case "pointer receiver":
		return []interface{}{a[0].(*recvT).Name, a[0].(*recvT).N + a[1].(int)}
	case "value receiver, variadic":
		return []interface{}{a[0], a[2]}
	case "receiver only":
		return []interface{}{a[0].(recvT).N}
	case "generic int", "generic string", "generic struct":
		return []interface{}{a[0], a[1].(int) * 3}
	case "generic variadic":
		return []interface{}{len(a[1].([]float64)), a[1]}
	case "generic method":
		return []interface{}{a[1], a[2].(int) + 1}
	}
	panic("shape")
}

func runCond(t *testing.T, pick func(v verdict) string) {
	r := verifRand()
	rounds := 25
	if verifThorough() {
		rounds = 300
	}
	total := 0
	for k := 0; k < rounds; k++ {
		for _, s := range shapes {
			desc := ""
			v, n := condEngine(r, s, &desc)
			total += n
			if m := pick(v); m != "" {
				t.Fatalf("mock of the function with %s: %s", desc, m)
			}
		}
	}
	cases(total)
}

func TestVerif_C06_conditions(t *testing.T) {
	runCond(t, func(v verdict) string { return v.events + v.args + v.results })
}

func TestVerif_C07_conditions(t *testing.T) {
	runCond(t, func(v verdict) string { return v.counts })
}

func TestVerif_C11_conditions(t *testing.T) {
	runCond(t, func(v verdict) string { return v.args })
}

// a condition may be declared without hook only at the end; predicates see the arguments of this very call
func TestVerif_C06_nested(t *testing.T) {
	// a hook that calls the target again: the conditions are evaluated afresh for the inner call
	var m *Mocker
	depth := 0
	m = Mock(tgtInt).When(func(a int, s string) bool { vlog.add("when", a, s); return a > 0 }).To(func(a int, s string) (int, error) {
		vlog.add("hook", a, s)
		depth++
		n, err := tgtInt(a-1, s+"x")
		return n + 1000, err
	}).Build()
	defer m.UnPatch()
	vlog.take()
	n, err := tgtInt(3, "")
	got := vlog.take()
	if names(got) != "when hook when hook when hook when orig" || n != 3003 || err != nil || m.Times() != 4 || m.MockTimes() != 3 {
		t.Fatalf("nested calls: ran [%s], result %d %v, Times %d MockTimes %d", names(got), n, err, m.Times(), m.MockTimes())
	}
	cases(4)
}

// a predicate, hook or original that panics reaches the caller, and the next call starts afresh
func TestVerif_C06_panics(t *testing.T) {
	boom := ""
	m := Mock(tgtInt).
		When(func(a int, s string) bool {
			vlog.add("when0")
			if boom == "when" {
				panic("w")
			}
			return a == 1
		}).
		To(func(a int, s string) (int, error) {
			vlog.add("hook0")
			if boom == "hook" {
				panic("h")
			}
			return 1, nil
		}).
		When(func(a int, s string) bool { vlog.add("when1"); return a == 2 }).
		To(func(a int, s string) (int, error) { vlog.add("hook1"); return 2, nil }).Build()
	defer m.UnPatch()
	for k, c := range []struct {
		boom string
		a    int
		ran  string
		p    interface{}
	}{{"", 1, "when0 hook0", nil}, {"when", 1, "when0", "w"}, {"", 2, "when0 when1 hook1", nil}, {"hook", 1, "when0 hook0", "h"}, {"", 1, "when0 hook0", nil}, {"hook", 2, "when0 when1 hook1", nil}, {"", 3, "when0 when1 orig", nil}} {
		boom = c.boom
		vlog.take()
		p, v := panics(func() { tgtInt(c.a, "") })
		if got := names(vlog.take()); got != c.ran || p != (c.p != nil) || v != c.p {
			t.Fatalf("call %d (a=%d, panicking %q): ran [%s] panic %v, the contract says [%s] panic %v", k, c.a, c.boom, got, v, c.ran, c.p)
		}
	}
	cases(7)
}
