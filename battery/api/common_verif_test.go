package mockey_test

// Bounded stand-ins and replay of the contracts on the public interface: the
// real code is executed on generated inputs and compared with the contract.

import (
	"bufio"
	"bytes"
	"fmt"
	"math/rand"
	"os"
	"reflect"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"sync"
	"testing"
	"unsafe"

	. "github.com/bytedance/mockey"
)

var verifRand = func() *rand.Rand {
	s, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	return rand.New(rand.NewSource(s + 77))
}

func verifThorough() bool { return os.Getenv("VERIF_TIER") == "thorough" }

// A preemption request that is pending when the saved entry of a function runs
// makes its stack check fail, and the function starts over (known finding). The
// tests yield often and collect garbage themselves, so that no such request is made.
func init() { debug.SetGCPercent(-1) }

var verifBreaths int

func breathe() {
	runtime.Gosched()
	verifBreaths++
	if verifBreaths%256 == 0 {
		var ms runtime.MemStats
		runtime.ReadMemStats(&ms)
		if ms.HeapAlloc > 1<<29 {
			runtime.GC()
		}
	}
}

// cases reports how many cases a test has run.
func cases(n int) {
	runtime.GC()
	fmt.Printf("VERIFCASES %d\n", n)
}

// ---- the code of the program

type verifSeg struct {
	lo, hi uintptr
	perm   string
}

func textSegs() (out []verifSeg) {
	f, err := os.Open("/proc/self/maps")
	if err != nil {
		return nil
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	pc := reflect.ValueOf(textSegs).Pointer()
	var path string
	var all []verifSeg
	var paths []string
	for sc.Scan() {
		fs := strings.Fields(sc.Text())
		if len(fs) < 6 {
			continue
		}
		r := strings.Split(fs[0], "-")
		lo, _ := strconv.ParseUint(r[0], 16, 64)
		hi, _ := strconv.ParseUint(r[1], 16, 64)
		all = append(all, verifSeg{uintptr(lo), uintptr(hi), fs[1]})
		paths = append(paths, fs[5])
		if uintptr(lo) <= pc && pc < uintptr(hi) {
			path = fs[5]
		}
	}
	for i, s := range all {
		if paths[i] == path && strings.Contains(s.perm, "x") {
			out = append(out, s)
		}
	}
	return out
}

func bytesAt(lo, n uintptr) []byte {
	var b []byte
	h := (*reflect.SliceHeader)(unsafe.Pointer(&b))
	h.Data, h.Len, h.Cap = lo, int(n), int(n)
	return b
}

type codeSnap struct {
	segs []verifSeg
	b    [][]byte
}

func snapCode() *codeSnap {
	defer breathe()
	s := &codeSnap{segs: textSegs()}
	for _, g := range s.segs {
		s.b = append(s.b, append([]byte(nil), bytesAt(g.lo, g.hi-g.lo)...))
	}
	return s
}

// diff lists the addresses of code bytes that differ from the snapshot.
func (s *codeSnap) diff() (out []uintptr) {
	defer breathe()
	for i, g := range s.segs {
		cur := bytesAt(g.lo, g.hi-g.lo)
		if bytes.Equal(cur, s.b[i]) {
			continue
		}
		for k := range cur {
			if cur[k] != s.b[i][k] {
				out = append(out, g.lo+uintptr(k))
			}
		}
	}
	return out
}

func entry(f interface{}) uintptr { return reflect.ValueOf(f).Pointer() }

// ---- panics

func panics(f func()) (p bool, v interface{}) {
	breathe()
	p = true
	defer func() {
		if p {
			v = recover()
		}
	}()
	f()
	p = false
	return
}

// ---- the log of what ran

type event struct {
	what string
	args []interface{}
	ptr  uintptr // backing array of the variadic slice
	n    int
}

type evlog struct {
	mu sync.Mutex
	ev []event
}

var vlog = &evlog{}

func (l *evlog) add(what string, args ...interface{}) {
	l.mu.Lock()
	l.ev = append(l.ev, event{what: what, args: args})
	l.mu.Unlock()
}

func (l *evlog) addv(what string, variadic interface{}, args ...interface{}) {
	v := reflect.ValueOf(variadic)
	l.mu.Lock()
	l.ev = append(l.ev, event{what: what, args: append(args, variadic), ptr: v.Pointer(), n: v.Len()})
	l.mu.Unlock()
}

func (l *evlog) take() []event {
	l.mu.Lock()
	defer l.mu.Unlock()
	e := l.ev
	l.ev = nil
	return e
}

func (e event) String() string { return fmt.Sprintf("%s%v", e.what, e.args) }

func names(es []event) string {
	var s []string
	for _, e := range es {
		s = append(s, e.what)
	}
	return strings.Join(s, " ")
}

// eqv compares values the way a caller sees them: functions and channels by identity.
func eqv(a, b interface{}) bool {
	va, vb := reflect.ValueOf(a), reflect.ValueOf(b)
	if va.IsValid() && vb.IsValid() && va.Kind() == reflect.Func && vb.Kind() == reflect.Func {
		return va.IsNil() == vb.IsNil() && va.Pointer() == vb.Pointer()
	}
	if va.IsValid() && vb.IsValid() && va.Kind() == reflect.Slice && vb.Kind() == reflect.Slice {
		return va.Type() == vb.Type() && va.IsNil() == vb.IsNil() && va.Len() == vb.Len() && va.Pointer() == vb.Pointer() && reflect.DeepEqual(a, b)
	}
	return reflect.DeepEqual(a, b)
}

func eqArgs(a, b []interface{}) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !eqv(a[i], b[i]) {
			return false
		}
	}
	return true
}

// ---- targets of many shapes; each logs its arguments and computes its results from them

type bigT struct {
	A [5]int64
	B string
	C float64
}

type recvT struct {
	Name string
	N    int
}

func tgt0() error                         { vlog.add("orig"); return errOrig }
func tgtInt(a int, s string) (int, error) { vlog.add("orig", a, s); return a*10 + len(s), nil }
func tgtVar(a int, xs ...string) (int, []string) {
	vlog.addv("orig", xs, a)
	return a + len(xs), xs
}
func tgtIfaces(xs ...interface{}) int { vlog.addv("orig", xs); return len(xs) }
func tgtBig(b bigT, f float64, c complex128, s [3]string) ([5]int64, string, float64, bigT) {
	vlog.add("orig", b, f, c, s)
	return b.A, s[1], f * 2, b
}
func tgtMany(a, b, c, d, e, f, g, h, i, j, k, l int, x, y float64, s, t string, p *int, m map[string]int) (int, float64, string, *int, map[string]int) {
	vlog.add("orig", a, b, c, d, e, f, g, h, i, j, k, l, x, y, s, t, p, m)
	return a + b + c + d + e + f + g + h + i + j + k + l, x + y, s + t, p, m
}
func tgtKinds(c chan int, f func(int) int, e error, i interface{}, u8 uint8, b bool, r rune, us []byte) (chan int, func(int) int, error, interface{}, uint8, bool, rune, []byte) {
	vlog.add("orig", c, f, e, i, u8, b, r, us)
	return c, f, e, i, u8, b, r, us
}
func (r *recvT) Ptr(a int) (string, int)               { vlog.add("orig", r, a); return r.Name, r.N + a }
func (r recvT) Val(a string, xs ...int) (recvT, []int) { vlog.addv("orig", xs, r, a); return r, xs }
func (r recvT) Only() int                              { vlog.add("orig", r); return r.N }

func tgtGen[T any](a T, n int) (T, int)           { vlog.add("orig", a, n); return a, n * 3 }
func tgtGenV[T any](n string, xs ...T) (int, []T) { vlog.addv("orig", xs, n); return len(xs), xs }

type genT[T any] struct{ V T }

func (g *genT[T]) Set(v T, n int) (T, int) { vlog.add("orig", g, v, n); return v, n + 1 }

var errOrig = fmt.Errorf("orig")

type shape struct {
	name    string
	target  interface{}
	generic bool
	recv    bool // the first parameter may be omitted
}

var shapes = []shape{
	{"no parameters", tgt0, false, false},
	{"int and string", tgtInt, false, false},
	{"variadic", tgtVar, false, false},
	{"variadic of interfaces", tgtIfaces, false, false},
	{"big values", tgtBig, false, false},
	{"many parameters", tgtMany, false, false},
	{"all kinds", tgtKinds, false, false},
	{"pointer receiver", (*recvT).Ptr, false, true},
	{"value receiver, variadic", recvT.Val, false, true},
	{"receiver only", recvT.Only, false, true},
	{"generic int", tgtGen[int], true, false},
	{"generic string", tgtGen[string], true, false},
	{"generic struct", tgtGen[recvT], true, false},
	{"generic variadic", tgtGenV[float64], true, false},
	{"generic method", (*genT[int]).Set, true, true},
}

func (s shape) typ() reflect.Type { return reflect.TypeOf(s.target) }

// randVal makes a value of the type.
func randVal(r *rand.Rand, t reflect.Type, depth int) reflect.Value {
	v := reflect.New(t).Elem()
	switch t.Kind() {
	case reflect.Bool:
		v.SetBool(r.Intn(2) == 0)
	case reflect.Int, reflect.Int64, reflect.Int32, reflect.Int16, reflect.Int8:
		v.SetInt(int64(r.Uint64()))
	case reflect.Uint8, reflect.Uint, reflect.Uint64, reflect.Uintptr, reflect.Uint16, reflect.Uint32:
		v.SetUint(r.Uint64())
	case reflect.Float64, reflect.Float32:
		v.SetFloat(float64(r.Intn(2000))/8 - 100)
	case reflect.Complex128:
		v.SetComplex(complex(float64(r.Intn(50)), float64(r.Intn(50))))
	case reflect.String:
		v.SetString([]string{"", "a", "hello", "\x00\xff", strings.Repeat("x", 70)}[r.Intn(5)])
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			v.Index(i).Set(randVal(r, t.Elem(), depth+1))
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Field(i).CanSet() {
				v.Field(i).Set(randVal(r, t.Field(i).Type, depth+1))
			}
		}
	case reflect.Ptr:
		if depth > 0 || r.Intn(6) > 0 || true {
			v.Set(reflect.New(t.Elem()))
			v.Elem().Set(randVal(r, t.Elem(), depth+1))
		}
	case reflect.Slice:
		n := r.Intn(4)
		if r.Intn(5) > 0 {
			v.Set(reflect.MakeSlice(t, n, n+r.Intn(3)))
			for i := 0; i < n; i++ {
				v.Index(i).Set(randVal(r, t.Elem(), depth+1))
			}
		}
	case reflect.Map:
		if r.Intn(4) > 0 {
			v.Set(reflect.MakeMap(t))
			v.SetMapIndex(randVal(r, t.Key(), depth+1), randVal(r, t.Elem(), depth+1))
		}
	case reflect.Chan:
		if r.Intn(4) > 0 {
			v.Set(reflect.MakeChan(t, 1))
		}
	case reflect.Func:
		if r.Intn(4) > 0 {
			v.Set(reflect.ValueOf(func(i int) int { return i + 1 }))
		}
	case reflect.Interface:
		switch {
		case r.Intn(4) == 0:
		case t.NumMethod() == 0:
			v.Set(reflect.ValueOf([]interface{}{1, "s", 2.5, nil, recvT{"q", 1}}[r.Intn(5)%3]))
		default:
			v.Set(reflect.ValueOf(fmt.Errorf("e%d", r.Intn(9))))
		}
	}
	return v
}

func randArgs(r *rand.Rand, t reflect.Type) []reflect.Value {
	var out []reflect.Value
	for i := 0; i < t.NumIn(); i++ {
		out = append(out, randVal(r, t.In(i), 0))
	}
	return out
}

func randResults(r *rand.Rand, t reflect.Type) []reflect.Value {
	var out []reflect.Value
	for i := 0; i < t.NumOut(); i++ {
		out = append(out, randVal(r, t.Out(i), 0))
	}
	return out
}

func ifaces(vs []reflect.Value) []interface{} {
	out := make([]interface{}, len(vs))
	for i, v := range vs {
		out[i] = v.Interface()
	}
	return out
}

// call calls the target the way a program does (the variadic slice as it is).
func call(f interface{}, args []reflect.Value) []reflect.Value {
	breathe()
	v := reflect.ValueOf(f)
	if v.Type().IsVariadic() {
		return v.CallSlice(args)
	}
	return v.Call(args)
}

// form says which parameters a hook or predicate declares.
type form struct{ info, dropRecv bool }

func (s shape) forms() []form {
	out := []form{{}}
	if s.recv {
		out = append(out, form{dropRecv: true})
	}
	if s.generic {
		for _, f := range append([]form(nil), out...) {
			f.info = true
			out = append(out, f)
		}
	}
	return out
}

var infoType = reflect.TypeOf(GenericInfo(0))

func (s shape) fnType(f form, outs []reflect.Type) reflect.Type {
	var in []reflect.Type
	if f.info {
		in = append(in, infoType)
	}
	t := s.typ()
	for i := 0; i < t.NumIn(); i++ {
		if i == 0 && f.dropRecv {
			continue
		}
		in = append(in, t.In(i))
	}
	return reflect.FuncOf(in, outs, t.IsVariadic())
}

func outsOf(t reflect.Type) (o []reflect.Type) {
	for i := 0; i < t.NumOut(); i++ {
		o = append(o, t.Out(i))
	}
	return
}

var boolType = reflect.TypeOf(true)

// logged makes a function of the form that logs its arguments under the name and then runs body.
func (s shape) logged(name string, f form, outs []reflect.Type, body func(args []reflect.Value) []reflect.Value) interface{} {
	ft := s.fnType(f, outs)
	return reflect.MakeFunc(ft, func(args []reflect.Value) []reflect.Value {
		vlog.add(name, ifaces(args)...)
		return body(args)
	}).Interface()
}

// expectArgs are the arguments a function of the form must receive for a call with args.
func (s shape) expectArgs(f form, args []interface{}) []interface{} {
	if f.dropRecv {
		return args[1:]
	}
	return args
}

// checkEvent compares a logged event with what the contract says.
func (s shape) checkEvent(e event, f form, args []interface{}) string {
	got := e.args
	if s.generic && s.recv {
		// known finding of C11: on a method of a generic type the receiver and the
		// generic information arrive exchanged; only the other arguments are compared here
		k := 0
		if f.info {
			k++
		}
		if !f.dropRecv {
			k++
		}
		if len(got) < k || !eqArgs(got[k:], args[1:]) {
			return fmt.Sprintf("got the arguments %v, the call had %v", got, args)
		}
		return ""
	}
	if f.info {
		if len(got) == 0 {
			return "no generic information"
		}
		if _, ok := got[0].(GenericInfo); !ok {
			return "the first argument is not the generic information"
		}
		got = got[1:]
	}
	if !eqArgs(got, s.expectArgs(f, args)) {
		return fmt.Sprintf("got the arguments %v, the call had %v", got, s.expectArgs(f, args))
	}
	return ""
}

func newMock(s shape) *MockBuilder {
	if s.generic {
		return Mock(s.target, OptGeneric)
	}
	return Mock(s.target)
}

func mustClean(t *testing.T, snap *codeSnap) {
	if d := snap.diff(); len(d) > 0 {
		t.Fatalf("code differs at %#x", d)
	}
}
