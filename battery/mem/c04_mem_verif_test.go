package mem

import (
	"bufio"
	"bytes"
	"fmt"
	"math/rand"
	"os"
	"reflect"
	"strconv"
	"strings"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	"github.com/bytedance/mockey/internal/monkey/common"
)

// perms gives the protection of the page at a, "" if it is not mapped.
func perms(a uintptr) string {
	f, err := os.Open("/proc/self/maps")
	if err != nil {
		return "?"
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		fs := strings.Fields(sc.Text())
		r := strings.Split(fs[0], "-")
		lo, _ := strconv.ParseUint(r[0], 16, 64)
		hi, _ := strconv.ParseUint(r[1], 16, 64)
		if uint64(a) >= lo && uint64(a) < hi {
			return fs[1][:3]
		}
	}
	return ""
}

func rnd() (*rand.Rand, bool) {
	s, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	return rand.New(rand.NewSource(s + 99)), os.Getenv("VERIF_TIER") == "thorough"
}

// pages maps n pages of the given protections ("---" for a hole), filled with a pattern.
func pages(t *testing.T, r *rand.Rand, prots []int) []byte {
	ps := common.PageSize()
	b, err := syscall.Mmap(-1, 0, ps*len(prots), syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_ANON|syscall.MAP_PRIVATE)
	if err != nil {
		t.Skip(err)
	}
	r.Read(b)
	for i, p := range prots {
		if err := syscall.Mprotect(b[i*ps:(i+1)*ps], p); err != nil {
			t.Skip(err)
		}
	}
	return b
}

func permOf(p int) string {
	s := []byte("---")
	if p&syscall.PROT_READ != 0 {
		s[0] = 'r'
	}
	if p&syscall.PROT_WRITE != 0 {
		s[1] = 'w'
	}
	if p&syscall.PROT_EXEC != 0 {
		s[2] = 'x'
	}
	return string(s)
}

// every alignment and many lengths, ranges over up to four pages, neighbours of other protections
func TestVerif_C04_writes(t *testing.T) {
	r, thorough := rnd()
	ps := common.PageSize()
	rounds := 400
	if thorough {
		rounds = 6000
	}
	rw, rx, ro := syscall.PROT_READ|syscall.PROT_WRITE, syscall.PROT_READ|syscall.PROT_EXEC, syscall.PROT_READ
	n := 0
	for k := 0; k < rounds; k++ {
		n++
		prots := make([]int, 6)
		for i := range prots {
			prots[i] = []int{rx, rx, ro, rw}[r.Intn(4)]
		}
		area := pages(t, r, prots)
		before := append([]byte(nil), area...)
		// where: mostly close to page boundaries
		at := ps + r.Intn(2*ps)
		switch r.Intn(4) {
		case 0:
			at = 2*ps - r.Intn(20)
		case 1:
			at = 2 * ps
		}
		ln := 1 + r.Intn(30)
		switch r.Intn(6) {
		case 0:
			ln = 1 + r.Intn(2*ps+100)
		case 1:
			ln = (at/ps+1)*ps - at // up to the end of the page
		case 2:
			ln = (at/ps+1)*ps - at + 1
		case 3:
			ln = (at/ps+2)*ps - at
		}
		if r.Intn(40) == 0 {
			ln = 0
		}
		data := make([]byte, ln)
		r.Read(data)
		keep := append([]byte(nil), data...)
		WriteWithSTW(common.PtrOf(area)+uintptr(at), data)
		if !bytes.Equal(data, keep) {
			t.Fatalf("writing %d bytes at page offset %d changes the data", ln, at%ps)
		}
		want := append([]byte(nil), before...)
		copy(want[at:], data)
		if !bytes.Equal(area, want) {
			i := 0
			for area[i] == want[i] {
				i++
			}
			t.Fatalf("writing %d bytes at page offset %d: byte %d relative to the first is %#x, not %#x", ln, at%ps, i-at, area[i], want[i])
		}
		for i := range prots {
			w := permOf(prots[i])
			if ln > 0 && i >= at/ps && i <= (at+ln-1)/ps {
				w = "r-x"
			}
			if g := perms(common.PtrOf(area) + uintptr(i*ps)); g != w {
				t.Fatalf("writing %d bytes at page offset %d: page %d (first is %d) has protection %s, not %s", ln, at%ps, i, at/ps, g, w)
			}
		}
		syscall.Munmap(area)
	}
	fmt.Printf("VERIFCASES %d\n", n)
}

func otherRuns() bool {
	var x int32
	go func() { atomic.StoreInt32(&x, 1) }()
	for i := 0; i < 2000; i++ {
		if atomic.LoadInt32(&x) == 1 {
			return true
		}
		time.Sleep(time.Millisecond)
	}
	return false
}

// a write that fails on a page that is not there: the others keep their bytes and protections,
// the world runs again, and the next write works
func TestVerif_C04_failure(t *testing.T) {
	r, thorough := rnd()
	ps := common.PageSize()
	rounds := 40
	if thorough {
		rounds = 400
	}
	rx := syscall.PROT_READ | syscall.PROT_EXEC
	n := 0
	for k := 0; k < rounds; k++ {
		n++
		area := pages(t, r, []int{rx, rx, rx, rx, rx})
		hole := 1 + r.Intn(3)
		base := common.PtrOf(area)
		before := append([]byte(nil), area...)
		if _, _, e := syscall.Syscall(syscall.SYS_MUNMAP, base+uintptr(hole*ps), uintptr(ps), 0); e != 0 {
			t.Skip(e)
		}
		at := hole*ps - r.Intn(12)
		ln := 13 + r.Intn(ps)
		data := make([]byte, ln)
		r.Read(data)
		p := func() (p bool) {
			defer func() { p = recover() != nil }()
			WriteWithSTW(base+uintptr(at), data)
			return
		}()
		if !p {
			t.Fatalf("writing to a page that is not mapped does not panic")
		}
		if !otherRuns() {
			t.Fatalf("no other goroutine runs after a failed write")
		}
		for i := 0; i < 5; i++ {
			if i == hole {
				continue
			}
			for o := i * ps; o < (i+1)*ps; o++ {
				if area[o] != before[o] && (o < at || o >= at+ln) {
					t.Fatalf("a failed write at %d changes byte %d", at, o)
				}
			}
			if (i < at/ps || i > (at+ln-1)/ps) && perms(base+uintptr(i*ps)) != "r-x" {
				t.Fatalf("a failed write changes the protection of page %d", i)
			}
		}
		// and a good one
		WriteWithSTW(base+5, []byte{1, 2, 3})
		if !otherRuns() {
			t.Fatalf("no other goroutine runs after a write")
		}
		if !bytes.Equal(area[4:9], []byte{before[4], 1, 2, 3, before[8]}) {
			t.Fatalf("the write after a failed one: %v", area[4:9])
		}
		for i := 0; i < 5; i++ {
			if i != hole {
				syscall.Syscall(syscall.SYS_MUNMAP, base+uintptr(i*ps), uintptr(ps), 0)
			}
		}
	}
	fmt.Printf("VERIFCASES %d\n", n)
}

var _ = reflect.ValueOf
