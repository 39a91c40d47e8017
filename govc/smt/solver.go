package smt

import (
	"bufio"
	"context"
	"fmt"
	"io"
	"os/exec"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type Result int

const (
	Unknown Result = iota
	Unsat
	Sat
)

func (r Result) String() string { return [...]string{"unknown", "unsat", "sat"}[r] }

type proc struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
}

func startZ3() (*proc, error) {
	cmd := exec.Command("z3-new", "-in", "-memory:3000")
	in, err := cmd.StdinPipe()
	if err != nil {
		return nil, err
	}
	out, err := cmd.StdoutPipe()
	if err != nil {
		return nil, err
	}
	cmd.Stderr = nil
	if err := cmd.Start(); err != nil {
		return nil, err
	}
	return &proc{cmd, in, bufio.NewReaderSize(out, 1<<16)}, nil
}

func (p *proc) kill() {
	p.in.Close()
	p.cmd.Process.Kill()
	p.cmd.Wait()
}

// Solver is a pool of z3 processes plus fall-back solvers.
type Solver struct {
	free  chan *proc
	tok   chan struct{}
	mu    sync.Mutex
	cache map[string]Result

	NQuery, NCached int64
	ByBackend       map[string]int
	Nanos           int64
}

func NewSolver(n int) *Solver {
	s := &Solver{free: make(chan *proc, n), tok: make(chan struct{}, n), cache: map[string]Result{}, ByBackend: map[string]int{}}
	for i := 0; i < n; i++ {
		s.tok <- struct{}{}
	}
	return s
}

func (s *Solver) count(b string) {
	s.mu.Lock()
	s.ByBackend[b]++
	s.mu.Unlock()
}

// Check decides satisfiability of the script with z3-new within the time
// limit; when full is set and z3-new gives up, the other solvers are tried.
func (s *Solver) Check(text string, ms int, full bool) (Result, string) {
	key := text
	s.mu.Lock()
	if r, ok := s.cache[key]; ok && r != Unknown {
		s.mu.Unlock()
		atomic.AddInt64(&s.NCached, 1)
		return r, "cache"
	}
	s.mu.Unlock()
	<-s.tok
	defer func() { s.tok <- struct{}{} }()
	t0 := time.Now()
	defer func() { atomic.AddInt64(&s.Nanos, int64(time.Since(t0))) }()
	atomic.AddInt64(&s.NQuery, 1)
	first := ms
	if first > 400 {
		first = 300
	}
	r := s.z3(text, first)
	who := "z3-5.3"
	race := func(lim int, old bool) {
		type ans struct {
			r Result
			w string
		}
		ch := make(chan ans, 8)
		ctx, cancel := context.WithTimeout(context.Background(), time.Duration(lim)*time.Millisecond+3*time.Second)
		defer cancel()
		n := 0
		run := func(w string, name string, args ...string) {
			n++
			go func() { ch <- ans{oneshot(ctx, text, name, args...), w} }()
		}
		secs := fmt.Sprintf("-T:%d", lim/1000+1)
		big := len(text) > 150000
		if old || !big {
			run("cvc5-1.1", "cvc5", "--lang=smt2", fmt.Sprintf("--tlimit=%d", lim))
		}
		run("z3-5.3", "z3-new", "-in", "-memory:3000", fmt.Sprintf("-t:%d", lim), secs)
		if old || !big {
			run("z3-5.3", "z3-new", "-in", "-memory:3000", fmt.Sprintf("-t:%d", lim), secs, "tactic.default_tactic=smt")
		}
		if old || big {
			run("z3-4.8", "z3", "-in", "-memory:3000", secs)
		}
		if old {
			run("z3-5.3", "z3-new", "-in", "-memory:3000", secs, "smt.arith.solver=2", "smt.random_seed=7")
		}
		for i := 0; i < n; i++ {
			a := <-ch
			if a.r != Unknown {
				r, who = a.r, a.w
				return
			}
		}
	}
	if r == Unknown && ms > first {
		race(ms, false)
	}
	if r == Unknown && full {
		race(ms*4, true)
	}
	s.mu.Lock()
	s.cache[key] = r
	s.mu.Unlock()
	s.count(who + "/" + r.String())
	return r, who
}

func (s *Solver) z3(text string, ms int) Result {
	var p *proc
	select {
	case p = <-s.free:
	default:
		var err error
		p, err = startZ3()
		if err != nil {
			return Unknown
		}
	}
	type res struct {
		r  Result
		ok bool
	}
	done := make(chan res, 1)
	go func() {
		_, err := io.WriteString(p.in, "(reset)\n(set-option :timeout "+fmt.Sprint(ms)+")\n"+text+"(check-sat)\n(echo \"@done\")\n")
		if err != nil {
			done <- res{Unknown, false}
			return
		}
		r := Unknown
		for {
			l, err := p.out.ReadString('\n')
			if err != nil {
				done <- res{Unknown, false}
				return
			}
			l = strings.TrimSpace(l)
			switch l {
			case "sat":
				r = Sat
			case "unsat":
				r = Unsat
			case "unknown", "timeout":
				r = Unknown
			case "@done":
				done <- res{r, true}
				return
			default:
				if strings.HasPrefix(l, "(error") {
					fmt.Println("solver error:", l)
					if DumpBad != nil {
						DumpBad(text, l)
					}
				}
			}
		}
	}()
	select {
	case r := <-done:
		if r.ok {
			s.free <- p
		} else {
			p.kill()
		}
		return r.r
	case <-time.After(time.Duration(ms)*time.Millisecond + 5*time.Second):
		p.kill()
		<-done
		return Unknown
	}
}

// DumpBad is called with scripts the solver rejects.
var DumpBad func(text, msg string)

func oneshot(ctx context.Context, text, name string, args ...string) Result {
	pre := "(set-logic ALL)\n"
	cmd := exec.CommandContext(ctx, name, args...)
	cmd.Stdin = strings.NewReader(pre + text + "(check-sat)\n")
	out, _ := cmd.Output()
	for _, l := range strings.Split(string(out), "\n") {
		switch strings.TrimSpace(l) {
		case "sat":
			return Sat
		case "unsat":
			return Unsat
		}
	}
	return Unknown
}

// Model asks z3 for the values of the given terms in a model of text.
func Model(text string, names []string, ms int) string {
	ctx, cancel := context.WithTimeout(context.Background(), time.Duration(ms)*time.Millisecond+3*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, "z3-new", "-in", "-memory:3000", fmt.Sprintf("-T:%d", ms/1000+1))
	q := text + "(check-sat)\n"
	if len(names) > 0 {
		q += "(get-value (" + strings.Join(names, " ") + "))\n"
	} else {
		q += "(get-model)\n"
	}
	cmd.Stdin = strings.NewReader(q)
	out, _ := cmd.Output()
	return string(out)
}

func (s *Solver) Close() {
	for {
		select {
		case p := <-s.free:
			p.kill()
		default:
			return
		}
	}
}
