package inst

import (
	"encoding/binary"
	"fmt"
	"math/rand"
	"os"
	"reflect"
	"strconv"
	"syscall"
	"testing"
	"unsafe"

	"golang.org/x/arch/x86/x86asm"
)

func rnd() (*rand.Rand, bool) {
	s, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	return rand.New(rand.NewSource(s + 55)), os.Getenv("VERIF_TIER") == "thorough"
}

func panics(f func()) (p bool) {
	defer func() { p = recover() != nil }()
	f()
	return
}

var addrs = []uint64{0, 1, 0x7f, 0x80, 0xff, 0x7fff, 0x8000, 0x7fffffff, 0x80000000, 0xffffffff, 0x100000000, 0x123456789abcdef0,
	0x7fffffffffff, 0x800000000000, 0x7fffffffffffffff, 0x8000000000000000, 0xffffffff80000000, 0xffffffffffffffff, 0xc000123456, 0x7f12fedcba98}

func someAddr(r *rand.Rand, k int) uint64 {
	if k < len(addrs) {
		return addrs[k]
	}
	return r.Uint64() >> uint(r.Intn(64))
}

// emulate runs the code: where does it go, with which registers changed? ok is false when
// the code holds an instruction this emulator does not know.
func emulate(code []byte, load func(uint64) uint64) (to uint64, regs map[x86asm.Reg]uint64, ok bool) {
	regs = map[x86asm.Reg]uint64{}
	pos := 0
	var stack []uint64
	val := func(in x86asm.Inst, a x86asm.Arg) (uint64, bool) {
		switch a := a.(type) {
		case x86asm.Imm:
			return uint64(a), true
		case x86asm.Reg:
			v, ok := regs[a]
			return v, ok
		case x86asm.Mem:
			if a.Index != 0 || a.Segment != 0 {
				return 0, false
			}
			if a.Base == x86asm.RIP {
				i := pos + in.Len + int(a.Disp)
				if i < 0 || i+8 > len(code) {
					return 0, false
				}
				return binary.LittleEndian.Uint64(code[i:]), true
			}
			b, ok := regs[a.Base]
			return load(b + uint64(a.Disp)), ok
		}
		return 0, false
	}
	for pos < len(code) {
		in, err := x86asm.Decode(code[pos:], 64)
		if err != nil {
			return 0, regs, false
		}
		switch in.Op {
		case x86asm.NOP:
		case x86asm.MOV:
			d, isReg := in.Args[0].(x86asm.Reg)
			v, ok := val(in, in.Args[1])
			if !isReg || !ok || in.DataSize != 64 && in.DataSize != 32 {
				return 0, regs, false
			}
			if d >= x86asm.EAX && d <= x86asm.R15L {
				d, v = d-x86asm.EAX+x86asm.RAX, uint64(uint32(v))
			} else if d < x86asm.RAX || d > x86asm.R15 {
				return 0, regs, false
			}
			regs[d] = v
		case x86asm.PUSH:
			v, ok := val(in, in.Args[0])
			if !ok {
				return 0, regs, false
			}
			stack = append(stack, v)
		case x86asm.RET:
			if len(stack) == 0 {
				return 0, regs, false
			}
			return stack[len(stack)-1], regs, true
		case x86asm.JMP:
			if _, rel := in.Args[0].(x86asm.Rel); rel {
				return 0, regs, false
			}
			v, ok := val(in, in.Args[0])
			return v, regs, ok
		default:
			return 0, regs, false
		}
		pos += in.Len
	}
	return 0, regs, false
}

func TestVerif_C02_jumps(t *testing.T) {
	r, thorough := rnd()
	rounds := 20000
	if thorough {
		rounds = 1000000
	}
	n := 0
	mem := map[uint64]uint64{}
	load := func(a uint64) uint64 {
		if v, ok := mem[a]; ok {
			return v
		}
		return 0xdead
	}
	for k := 0; k < rounds; k++ {
		a := someAddr(r, k)
		for into := 0; into < 2; into++ {
			var code []byte
			want := a
			if into == 1 {
				code = BranchInto(uintptr(a))
				want = r.Uint64()
				mem = map[uint64]uint64{a: want}
			} else {
				code = BranchTo(uintptr(a))
			}
			to, regs, ok := emulate(code, load)
			if !ok {
				continue
			}
			n++
			if to != want {
				t.Fatalf("into=%d, address %#x: the code % x goes to %#x, not %#x", into, a, code, to, want)
			}
			for reg, v := range regs {
				if reg != x86asm.RDX {
					t.Fatalf("into=%d, address %#x: the code % x alters %v", into, a, code, reg)
				}
				if into == 1 && v != a {
					t.Fatalf("address %#x: the code % x enters with context %#x", a, code, v)
				}
			}
			if into == 1 && regs[x86asm.RDX] != a {
				t.Fatalf("address %#x: the code % x does not set the context register", a, code)
			}
		}
	}
	fmt.Printf("VERIFCASES %d\n", n)
}

// instructions with their lengths, from the manual and not from the decoder
var insns = [][]byte{
	{0x90}, {0x55}, {0x5d}, {0x48, 0x89, 0xe5}, {0x48, 0x83, 0xec, 0x18}, {0x49, 0x3b, 0x66, 0x10}, {0x76, 0x20},
	{0x0f, 0x86, 1, 2, 3, 0}, {0x48, 0x81, 0xec, 0x18, 1, 0, 0}, {0x4c, 0x8d, 0x64, 0x24, 0xe0}, {0x4d, 0x3b, 0x66, 0x10},
	{0x48, 0xb8, 1, 2, 3, 4, 5, 6, 7, 8}, {0xb8, 1, 0, 0, 0}, {0x31, 0xc0}, {0x48, 0x8b, 0x05, 1, 2, 3, 0}, {0x0f, 0x57, 0xc0},
	{0xf2, 0x0f, 0x10, 0x05, 1, 2, 3, 4}, {0xe8, 1, 2, 3, 0}, {0xeb, 0x05}, {0x41, 0x54}, {0x48, 0x8d, 0x6c, 0x24, 0x10}, {0xff, 0x22},
	{0x48, 0xc7, 0x44, 0x24, 0x20, 1, 2, 3, 4}, {0x48, 0xc7, 0x84, 0x24, 0xe0, 0, 0, 0, 1, 2, 3, 4}, {0x66, 0x90}, {0x0f, 0x1f, 0x44, 0x00, 0x00},
}

var rets = [][]byte{{0xc3}, {0xc2, 8, 0}}

func TestVerif_C03_prefix(t *testing.T) {
	r, thorough := rnd()
	rounds := 60000
	if thorough {
		rounds = 2000000
	}
	n := 0
	for k := 0; k < rounds; k++ {
		n++
		req := r.Intn(25)
		if r.Intn(2) == 0 {
			req = 12
		}
		var code []byte
		want, bad, hasRet := -1, false, false
		for len(code) < 64+req {
			if want < 0 && len(code) >= req {
				want = len(code)
			}
			in := insns[r.Intn(len(insns))]
			switch r.Intn(20) {
			case 0:
				in = rets[r.Intn(2)]
				if want < 0 {
					hasRet = true
				}
			case 1:
				if r.Intn(3) == 0 {
					in = []byte{0x06} // not an instruction in 64-bit mode
					if want < 0 {
						bad = true
					}
				}
			}
			code = append(code, in...)
		}
		if want < 0 && len(code) >= req {
			want = len(code)
		}
		keep := string(code)
		for _, check := range []bool{false, true} {
			got := -1
			p := panics(func() { got = Disassemble(code, req, check) })
			// undecodable bytes after a return are not reached with the check on
			refuse := bad || check && hasRet
			if p != refuse || !p && got != want {
				t.Fatalf("% x, required %d, check %v: %d (panic %v), expected %d (panic %v)", code, req, check, got, p, want, refuse)
			}
		}
		if keep != string(code) {
			t.Fatal("the code is changed")
		}
	}
	fmt.Printf("VERIFCASES %d\n", n)
}

//go:linkname verifDuffcopy runtime.duffcopy
func verifDuffcopy()

//go:linkname verifDuffzero runtime.duffzero
func verifDuffzero()

// callTo encodes a call at address at to address to.
func callTo(at, to uint64) ([]byte, bool) {
	d := int64(to - (at + 5))
	if d != int64(int32(d)) {
		return nil, false
	}
	b := []byte{0xe8, 0, 0, 0, 0}
	binary.LittleEndian.PutUint32(b[1:], uint32(d))
	return b, true
}

func TestVerif_C05_wrapper(t *testing.T) {
	r, thorough := rnd()
	rounds := 3000
	if thorough {
		rounds = 60000
	}
	dc := uint64(reflect.ValueOf(verifDuffcopy).Pointer())
	dz := uint64(reflect.ValueOf(verifDuffzero).Pointer())
	// wrappers close to the program's code, so that helpers are in reach
	const size = 1 << 14
	var area []byte
	for hint := (dc | 0xffffff) + 1 + 0x4000000; hint < dc+1<<30; hint += 1 << 24 {
		p, _, e := syscall.Syscall6(syscall.SYS_MMAP, uintptr(hint), size, 3, syscall.MAP_ANON|syscall.MAP_PRIVATE|0x100000, ^uintptr(0), 0)
		if e == 0 {
			h := (*reflect.SliceHeader)(unsafe.Pointer(&area))
			h.Data, h.Len, h.Cap = p, size, size
			break
		}
	}
	if area == nil {
		t.Skip("no room near the code")
	}
	base := uint64(uintptr(unsafe.Pointer(&area[0])))
	plain := [][]byte{}
	for _, in := range insns {
		if in[0] != 0xe8 {
			plain = append(plain, in)
		}
	}
	n := 0
	for k := 0; k < rounds; k++ {
		for i := range area {
			area[i] = 0x90
		}
		pos, calls := 0, 0
		var want uint64
		helpers := 0
		filler := func(m int) {
			for i := r.Intn(m); i > 0; i-- {
				pos += copy(area[pos:], plain[r.Intn(len(plain))])
			}
		}
		put := func(to uint64) bool {
			b, ok := callTo(base+uint64(pos), to)
			if ok {
				pos += copy(area[pos:], b)
			}
			return ok
		}
		nCalls := r.Intn(3)
		if r.Intn(2) == 0 {
			nCalls = 1
		}
		filler(30)
		for c := 0; c < nCalls; c++ {
			for h := r.Intn(3); h > 0; h-- {
				to := dc + uint64(r.Intn(200))
				switch r.Intn(4) {
				case 0:
					to = dz + uint64(r.Intn(100))
				case 1:
					to = dc
				case 2:
					to = dz
				}
				if put(to) {
					helpers++
				}
				filler(8)
			}
			to := base + uint64(pos) + uint64(r.Int63n(1<<31))
			switch r.Intn(4) {
			case 0:
				to = base - uint64(r.Int63n(1<<26)) // backwards
			case 1:
				to = base + uint64(pos) - uint64(r.Intn(1<<20))
			case 2:
				to = base + uint64(pos) + 5 + uint64(r.Intn(1<<10))
			}
			if to >= dc-1000 && to < dc+1<<14 || to >= dz-1000 && to < dz+1<<14 {
				to = base + 100
			}
			if put(to) {
				calls++
				want = to
			}
			filler(20)
		}
		area[pos] = 0xc3
		pos++
		// after the return anything may follow
		for i := 0; i < 4; i++ {
			filler(5)
			put(base + uint64(r.Intn(5000)))
		}
		keep := string(area[:pos])
		got := uint64(0)
		p := panics(func() { got = uint64(GetGenericJumpAddr(uintptr(base), 10000)) })
		if p != (calls != 1) || !p && got != want {
			t.Fatalf("wrapper with %d calls and %d helper calls: %#x (panic %v), expected %#x\n% x", calls, helpers, got, p, want, keep)
		}
		if keep != string(area[:pos]) {
			t.Fatal("the code is changed")
		}
		n++
	}
	// no return and undecodable bytes
	for i := range area {
		area[i] = 0x90
	}
	b, _ := callTo(base+9, base+77)
	copy(area[9:], b)
	if got := uint64(0); panics(func() { got = uint64(GetGenericJumpAddr(uintptr(base), 1000)) }) || got == 1 {
		t.Fatal("one call and no return within the area")
	}
	area[3] = 0x06
	if !panics(func() { GetGenericJumpAddr(uintptr(base), 1000) }) {
		t.Fatal("undecodable bytes are accepted")
	}
	fmt.Printf("VERIFCASES %d\n", n+2)
}
