package tool

import (
	"bytes"
	"fmt"
	"os"
	"runtime"
	"strconv"
	"sync"
	"testing"
)

// stackID is the id the runtime prints for the running goroutine.
func stackID() int64 {
	b := make([]byte, 64)
	b = b[:runtime.Stack(b, false)]
	b = bytes.TrimPrefix(b, []byte("goroutine "))
	n, err := strconv.ParseInt(string(b[:bytes.IndexByte(b, ' ')]), 10, 64)
	if err != nil {
		panic(err)
	}
	return n
}

// the id is the runtime's, under the Go release this is built with
func TestVerif_C20_release(t *testing.T) {
	n := 500
	if os.Getenv("VERIF_TIER") == "thorough" {
		n = 20000
	}
	fmt.Println("running", runtime.Version())
	if a, b := GetGoroutineID(), stackID(); a != b {
		t.Fatalf("%s: the id is %d, the runtime's is %d", runtime.Version(), a, b)
	}
	var wg sync.WaitGroup
	bad := make(chan string, n)
	for i := 0; i < n; i++ {
		i := i
		wg.Add(1)
		go func() {
			defer wg.Done()
			if i%5 == 0 {
				runtime.LockOSThread()
				defer runtime.UnlockOSThread()
			}
			for k := 0; k < 3; k++ {
				if a, b := GetGoroutineID(), stackID(); a != b {
					bad <- fmt.Sprintf("%s: the id is %d, the runtime's is %d", runtime.Version(), a, b)
				}
				runtime.Gosched()
			}
		}()
	}
	wg.Wait()
	select {
	case s := <-bad:
		t.Fatal(s)
	default:
	}
	fmt.Printf("VERIFCASES %d\n", 3*n+1)
}
