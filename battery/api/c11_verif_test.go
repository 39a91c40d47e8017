package mockey_test

import (
	"fmt"
	"reflect"
	"testing"
	"unsafe"

	. "github.com/bytedance/mockey"
)

// the receiver of a method of a generic type
func TestVerif_C11_genericReceiver(t *testing.T) {
	g := &genT[int]{V: 7}
	var got *genT[int]
	var info GenericInfo
	m := Mock((*genT[int]).Set, OptGeneric).To(func(i GenericInfo, r *genT[int], v int, n int) (int, int) {
		got, info = r, i
		return 0, 0
	}).Build()
	g.Set(1, 2)
	m.UnPatch()
	switch {
	case got == g:
	case uintptr(info) == uintptr(unsafe.Pointer(g)):
		fmt.Println("VERIFFINDING c11-generic-method-receiver on a method of a generic type a hook gets the receiver as generic information and the generic information as receiver")
	default:
		t.Fatalf("hook of a method of a generic type got the receiver %p, info %#x; the call had %p", got, uintptr(info), g)
	}
	cases(1)
}

// ---- which hooks and predicates are accepted

func accepts(f func()) bool {
	p, _ := panics(f)
	return !p
}

// a catalogue of parameter lists
var paramTypes = []reflect.Type{reflect.TypeOf(0), reflect.TypeOf(""), reflect.TypeOf(&recvT{}), reflect.TypeOf(recvT{}), infoType, reflect.TypeOf([]string(nil)), reflect.TypeOf([]int(nil)), reflect.TypeOf(uintptr(0)), reflect.TypeOf((*interface{})(nil)).Elem(), reflect.TypeOf((*error)(nil)).Elem(), reflect.TypeOf([]interface{}(nil)), reflect.TypeOf(int64(0))}

type namedInt int

// fits says whether a parameter list is acceptable for a target.
func fits(target, h reflect.Type) bool {
	if target.IsVariadic() != h.IsVariadic() {
		return false
	}
	var th, hh []reflect.Type
	for i := 0; i < target.NumIn(); i++ {
		th = append(th, target.In(i))
	}
	for i := 0; i < h.NumIn(); i++ {
		hh = append(hh, h.In(i))
	}
	eq := func(a, b []reflect.Type) bool {
		if len(a) != len(b) {
			return false
		}
		for i := range a {
			if a[i] != b[i] {
				return false
			}
		}
		return true
	}
	if len(hh) > 0 && hh[0] == infoType {
		hh = hh[1:]
	}
	return eq(th, hh) || len(th) > 0 && eq(th[1:], hh)
}

func mutateParams(r interface{ Intn(int) int }, in []reflect.Type, variadic bool) ([]reflect.Type, bool) {
	out := append([]reflect.Type(nil), in...)
	for k := r.Intn(3); k >= 0; k-- {
		switch r.Intn(7) {
		case 0: // drop the first
			if len(out) > 0 {
				out = out[1:]
			}
		case 1: // drop the last
			if len(out) > 0 {
				out = out[:len(out)-1]
			}
		case 2: // prepend the info
			out = append([]reflect.Type{infoType}, out...)
		case 3: // another type somewhere
			if len(out) > 0 {
				i := r.Intn(len(out))
				out[i] = paramTypes[r.Intn(len(paramTypes))]
			}
		case 4: // exchange two
			if len(out) > 1 {
				i := r.Intn(len(out) - 1)
				out[i], out[i+1] = out[i+1], out[i]
			}
		case 5:
			variadic = !variadic
		case 6: // add one
			i := r.Intn(len(out) + 1)
			out = append(out[:i:i], append([]reflect.Type{paramTypes[r.Intn(len(paramTypes))]}, out[i:]...)...)
		}
	}
	if variadic && (len(out) == 0 || out[len(out)-1].Kind() != reflect.Slice) {
		variadic = false
	}
	return out, variadic
}

func tgtTwoRecv(a, b recvT) int       { vlog.add("orig", a, b); return 1 }
func tgtInfo(a int, b int) int        { vlog.add("orig", a, b); return 1 }
func tgtUptr(a uintptr, b int) int    { vlog.add("orig", a, b); return 1 }
func tgtSlice(a int, xs []string) int { vlog.add("orig", a, xs); return 1 }

func TestVerif_C11_signatures(t *testing.T) {
	r := verifRand()
	all := append([]shape{{"two of one type", tgtTwoRecv, false, true}, {"two ints", tgtInfo, false, true}, {"uintptr first", tgtUptr, false, true}, {"slice last", tgtSlice, false, true}, {"generic", tgtGen[int], true, false}}, shapes...)
	n := 0
	acc := 0
	rounds := 120
	if verifThorough() {
		rounds = 1500
	}
	for k := 0; k < rounds; k++ {
		for _, s := range all {
			tt := s.typ()
			var in []reflect.Type
			for i := 0; i < tt.NumIn(); i++ {
				in = append(in, tt.In(i))
			}
			ps, variadic := mutateParams(r, in, tt.IsVariadic())
			ht := reflect.FuncOf(ps, outsOf(tt), variadic)
			wt := reflect.FuncOf(ps, []reflect.Type{boolType}, variadic)
			n += 2
			want := fits(tt, ht)
			// a hook asking for the generic information fits only a generic target
			wantTo := want
			if !s.generic && len(ps) > 0 && ps[0] == infoType {
				if !(len(in) > 0 && in[0] == infoType) {
					wantTo = false
				} else {
					continue
				}
			}
			hook := reflect.MakeFunc(ht, func(a []reflect.Value) []reflect.Value { return nil }).Interface()
			when := reflect.MakeFunc(wt, func(a []reflect.Value) []reflect.Value { return nil }).Interface()
			if got := accepts(func() { newMock(s).To(hook) }); got != wantTo {
				t.Fatalf("hook %v for the target %v (generic %v): accepted %v, the contract says %v", ht, tt, s.generic, got, wantTo)
			}
			if got := accepts(func() { newMock(s).When(when) }); got != wantTo {
				t.Fatalf("predicate %v for the target %v (generic %v): accepted %v, the contract says %v", wt, tt, s.generic, got, wantTo)
			}
			if wantTo {
				acc++
			}
		}
	}
	if acc < 50 {
		t.Fatalf("only %d accepted", acc)
	}
	cases(n)
}

// a variadic list arrives as the very slice: writes through it are seen, nil stays nil
func TestVerif_C11_variadic(t *testing.T) {
	n := 0
	for _, xs := range [][]string{nil, {}, {"a"}, {"a", "b", "c"}} {
		for _, ret := range []bool{true, false} {
			n++
			var got, got2 []string
			m := Mock(tgtVar).When(func(a int, ys ...string) bool { got = ys; return ret }).To(func(a int, ys ...string) (int, []string) {
				got2 = ys
				if len(ys) > 0 {
					ys[0] = "changed"
				}
				return 1, ys
			}).Build()
			vlog.take()
			arg := append(xs[:0:0], xs...)
			if xs == nil {
				arg = nil
			}
			_, res := tgtVar(1, arg...)
			ev := vlog.take()
			m.UnPatch()
			if !eqv(got, arg) || !eqv(res, arg) || ret && !eqv(got2, arg) {
				t.Fatalf("variadic call with %#v: predicate got %#v, hook got %#v, result %#v", arg, got, got2, res)
			}
			if !ret && (len(ev) != 1 || !eqv(ev[0].args[1], arg)) {
				t.Fatalf("variadic call with %#v: the original got %v", arg, ev)
			}
			if ret && len(arg) > 0 && arg[0] != "changed" {
				t.Fatalf("the hook's write to its variadic slice is not seen by the caller")
			}
		}
	}
	cases(n)
}
