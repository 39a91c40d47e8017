package mockey_test

import (
	"fmt"
	"math/rand"
	"reflect"
	"sync"
	"testing"

	. "github.com/bytedance/mockey"
)

func tgtSeq(a int) (int, string) {
	x := a
	for i := 0; i < 3; i++ {
		x += i
	}
	return x, "orig"
}

// randSeq builds a sequence and its schedule of one round.
func randSeq(r *rand.Rand) (s SequenceOpt, sched []int, desc string) {
	k := 1 + r.Intn(5)
	rep := func() int {
		if r.Intn(3) == 0 {
			return 1
		}
		return 1 + r.Intn(4)
	}
	id := 0
	add := func(times int) {
		for i := 0; i < times; i++ {
			sched = append(sched, id)
		}
		id++
	}
	q := Sequence(100, "v0")
	desc = "Sequence(100, v0)"
	mod := func() {
		t := 1
		for i := r.Intn(3); i > 0; i-- { // the last setting counts
			t = rep()
			q = q.Times(t)
			desc += fmt.Sprintf(".Times(%d)", t)
		}
		add(t)
	}
	mod()
	for i := 1; i < k; i++ {
		q = q.Then(100+i, fmt.Sprintf("v%d", i))
		desc += fmt.Sprintf(".Then(%d)", 100+i)
		mod()
	}
	return q, sched, desc
}

func TestVerif_C09_order(t *testing.T) {
	r := verifRand()
	n := 0
	rounds := 150
	if verifThorough() {
		rounds = 3000
	}
	for k := 0; k < rounds; k++ {
		s, sched, desc := randSeq(r)
		m := Mock(tgtSeq).Return(s).Build()
		for i := 0; i < 3*len(sched)+2; i++ {
			n++
			x, v := tgtSeq(1)
			want := sched[i%len(sched)]
			if x != 100+want || v != fmt.Sprintf("v%d", want) {
				m.UnPatch()
				t.Fatalf("%s: call %d returned %d %s, the contract says entry %d", desc, i, x, v, want)
			}
		}
		m.UnPatch()
	}
	cases(n)
}

// one sequence used directly: GetNext hands out the same schedule
func TestVerif_C09_getNext(t *testing.T) {
	r := verifRand()
	n := 0
	for k := 0; k < 200; k++ {
		s, sched, desc := randSeq(r)
		for i := 0; i < 3*len(sched)+1; i++ {
			n++
			v := s.GetNext()
			want := []interface{}{100 + sched[i%len(sched)], fmt.Sprintf("v%d", sched[i%len(sched)])}
			if !reflect.DeepEqual(v, want) {
				t.Fatalf("%s: position %d is %v, the contract says %v", desc, i, v, want)
			}
		}
	}
	// shared by two mocks: each call takes one position
	a := Sequence(1, "a").Then(2, "b").Times(2).Then(3, "c")
	m1 := Mock(tgtSeq).When(func(a int) bool { return a%2 == 0 }).Return(a).When(func(a int) bool { return true }).Return(a).Build()
	defer m1.UnPatch()
	for i, w := range []int{1, 2, 2, 3, 1, 2, 2, 3} {
		if x, _ := tgtSeq(i); x != w {
			t.Fatalf("a sequence shared by two conditions: call %d returned %d, want %d", i, x, w)
		}
	}
	cases(n + 8)
}

func TestVerif_C09_concurrent(t *testing.T) {
	r := verifRand()
	n := 0
	rounds := 12
	if verifThorough() {
		rounds = 100
	}
	for k := 0; k < rounds; k++ {
		s, sched, desc := randSeq(r)
		m := Mock(tgtSeq).Return(s).Build()
		const G = 8
		per := 40 * len(sched)
		cnt := make([]map[int]int, G)
		var wg sync.WaitGroup
		for g := 0; g < G; g++ {
			g := g
			cnt[g] = map[int]int{}
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := 0; i < per; i++ {
					x, v := tgtSeq(1)
					if v != fmt.Sprintf("v%d", x-100) {
						x = -1
					}
					cnt[g][x]++
				}
			}()
		}
		wg.Wait()
		m.UnPatch()
		n += G * per
		got := map[int]int{}
		for _, c := range cnt {
			for x, k := range c {
				got[x] += k
			}
		}
		want := map[int]int{}
		for _, i := range sched {
			want[100+i] += G * per / len(sched)
		}
		if !reflect.DeepEqual(got, want) {
			t.Fatalf("%s: %d concurrent calls handed out %v, the contract says %v", desc, G*per, got, want)
		}
	}
	cases(n)
}

func TestVerif_C09_repeat(t *testing.T) {
	n := 0
	for _, k := range []int{0, -1, -5, -1 << 62} {
		n++
		s := Sequence(1, "a").Then(2, "b")
		if p, _ := panics(func() { s.Times(k) }); !p {
			t.Fatalf("Times(%d) was accepted", k)
		}
		// and the refused setting leaves the schedule alone
		for i := 0; i < 5; i++ {
			if v := s.GetNext(); v[0] != 1+i%2 {
				t.Fatalf("after the refused Times(%d), position %d is %v", k, i, v)
			}
		}
	}
	for _, k := range []int{1, 2, 7, 1000} {
		n++
		s := Sequence(1, "a").Times(k).Then(2, "b")
		for i := 0; i <= 2*k+2; i++ {
			want := 1
			if i%(k+1) == k {
				want = 2
			}
			if v := s.GetNext(); v[0] != want {
				t.Fatalf("Times(%d): position %d is %v, want %d", k, i, v, want)
			}
		}
	}
	cases(n)
}
