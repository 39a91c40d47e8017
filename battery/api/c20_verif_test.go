package mockey_test

import (
	"bytes"
	"runtime"
	"strconv"
	"sync"
	"testing"

	. "github.com/bytedance/mockey"
)

// stackID is the id the runtime prints for the running goroutine.
func stackID() int64 {
	b := make([]byte, 64)
	b = b[:runtime.Stack(b, false)]
	b = bytes.TrimPrefix(b, []byte("goroutine "))
	n, err := strconv.ParseInt(string(b[:bytes.IndexByte(b, ' ')]), 10, 64)
	if err != nil {
		panic(err)
	}
	return n
}

func TestVerif_C20_ids(t *testing.T) {
	rounds := 2000
	if verifThorough() {
		rounds = 50000
	}
	var wg sync.WaitGroup
	errs := make(chan [2]int64, rounds+1)
	if a, b := GetGoroutineId(), stackID(); a != b {
		t.Fatalf("%s: the id is %d, the runtime's is %d", runtime.Version(), a, b)
	}
	for i := 0; i < rounds; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			if i%3 == 0 {
				runtime.LockOSThread()
				defer runtime.UnlockOSThread()
			}
			for k := 0; k < 3; k++ {
				if a, b := GetGoroutineId(), stackID(); a != b {
					errs <- [2]int64{a, b}
					return
				}
				runtime.Gosched()
			}
		}(i)
	}
	wg.Wait()
	select {
	case e := <-errs:
		t.Fatalf("%s: the id is %d, the runtime's is %d", runtime.Version(), e[0], e[1])
	default:
	}
	cases(3*rounds + 1)
}
