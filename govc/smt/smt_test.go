package smt

import "testing"

func TestBasic(t *testing.T) {
	c := NewCtx()
	s := NewSolver(2)
	x, y := c.Var("x", BV64), c.Var("y", BV64)
	m := c.Base("M", c.Arr(BV64, BV8), "M", 0, false)
	m2 := c.Cpy(m, x, m, y, c.C64(10))
	bv := c.Bound("a", BV64)
	goal := c.Forall(bv, c.Imp(c.Not(c.Ult(c.Sub(bv, x), c.C64(10))), c.Eq(c.Select(m2, bv), c.Select(m, bv))))
	q := &Query{C: c, Goal: goal}
	r, _ := s.Check(Emit(c, q.Build()), 1000, true)
	if r != Unsat {
		t.Fatal(r)
	}
	goal = c.Forall(bv, c.Imp(c.Not(c.Ult(c.Sub(bv, x), c.C64(9))), c.Eq(c.Select(m2, bv), c.Select(m, bv))))
	q = &Query{C: c, Goal: goal}
	r, _ = s.Check(Emit(c, q.Build()), 1000, true)
	if r != Sat {
		t.Fatal(r)
	}
	h := c.Forall(bv, c.Imp(c.Ult(bv, y), c.Eq(c.Select(m, c.Add(bv, x)), c.BVC(7, 8))))
	q = &Query{C: c, Hyps: []*Term{h, c.Ult(c.C64(3), y)}, Goal: c.Eq(c.Select(m, c.Add(x, c.C64(2))), c.BVC(7, 8))}
	r, _ = s.Check(Emit(c, q.Build()), 1000, true)
	if r != Unsat {
		t.Fatal(r)
	}
}
