package main

import (
	"flag"
	"fmt"
	"os"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"time"

	"govc/smt"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: govc verify|check ...")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "verify":
		cmdVerify(os.Args[2:])
	case "check":
		os.Exit(cmdCheck(os.Args[2:]))
	default:
		fmt.Fprintln(os.Stderr, "unknown command", os.Args[1])
		os.Exit(2)
	}
}

// cmdVerify is the development entry point: verify some functions in one
// configuration and print every obligation.
func cmdVerify(args []string) {
	fl := flag.NewFlagSet("verify", flag.ExitOnError)
	repo := fl.String("repo", "/repo", "")
	specs := fl.String("specs", "/verif/contracts", "")
	cfg := fl.String("config", "linux/amd64", "")
	prop := fl.String("prop", "", "")
	only := fl.String("only", "", "")
	ms := fl.Int("ms", 10000, "")
	verbose := fl.Bool("v", false, "")
	dump := fl.String("dump", "", "directory for the failing conditions")
	fl.Parse(args)
	t0 := time.Now()
	p, err := Load(*repo, parseConfig(*cfg), nil)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	sp, err := LoadSpecs(*specs, p.Cfg)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	sol := smt.NewSolver(8)
	v := NewVerifier(p, sp, *prop, sol, *ms)
	keys := fl.Args()
	if len(keys) == 0 {
		keys = v.rootsOf(*prop)
	}
	if *only != "" {
		keys = []string{*only}
		v.only = *only
	}
	fmt.Printf("loaded in %v; roots %v\n", time.Since(t0).Round(time.Millisecond), keys)
	v.Run(keys, 8)
	bad := v.print(*verbose, *dump)
	fmt.Printf("verified %v\ninlined %v\nexternals %v\nsteps %d, feasibility queries %d, solver %v, wall %v\n", v.verified, sk(v.Inlined), sk(v.UsedExt), v.Steps, v.nFeas, sol.ByBackend, time.Since(t0).Round(time.Millisecond))
	fmt.Println("relied upon", v.Elsewhere)
	for _, n := range v.Vacuity {
		fmt.Println("VACUOUS", n)
	}
	sol.Close()
	if bad > 0 {
		os.Exit(1)
	}
}

func sk(m map[string]bool) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

// rootsOf lists the functions with a clause that belongs to the property.
func (v *Verifier) rootsOf(prop string) []string {
	var r []string
	seen := map[string]bool{}
	for _, k := range v.Spec.Order {
		if seen[k] {
			continue
		}
		for _, c := range v.Spec.Funcs[k] {
			if c.Configs != nil && !c.Configs[v.P.Cfg.Name] {
				continue
			}
			if c.Home != nil && c.Trusted == "" && prop != "" {
				if c.Home[prop] && !seen[k] {
					seen[k] = true
					r = append(r, k)
				}
				continue
			}
			for _, cl := range c.Clauses {
				if cl.Tags[prop] || prop == "" {
					if !seen[k] {
						seen[k] = true
						r = append(r, k)
					}
				}
			}
		}
	}
	return r
}

func (v *Verifier) print(verbose bool, dump string) int {
	bad := 0
	for i, o := range v.Obls {
		ok := o.Status == "proved"
		if !ok {
			bad++
		}
		if verbose || !ok {
			fmt.Printf("%-8s %s  [%s %dms] %s\n", o.Status, o.ID(), o.Backend, o.Ms, o.Info)
			if !ok {
				fmt.Printf("         path: %s\n", strings.Join(o.Notes, "; "))
				g := o.Goal
				if len(g) > 600 {
					g = g[:600] + "..."
				}
				fmt.Printf("         goal: %s\n", g)
				if dump != "" {
					os.MkdirAll(dump, 0o755)
					os.WriteFile(fmt.Sprintf("%s/%d.smt2", dump, i), []byte(o.Text+"(check-sat)\n"), 0o644)
				}
			}
		}
	}
	fmt.Printf("%d obligations, %d not proved\n", len(v.Obls), bad)
	return bad
}

func init() {
	if f := os.Getenv("GOVC_PROF"); f != "" {
		w, _ := os.Create(f)
		go func() {
			at, _ := strconv.Atoi(os.Getenv("GOVC_PROFAT"))
			time.Sleep(time.Duration(at) * time.Second)
			pprof.StartCPUProfile(w)
			time.Sleep(40 * time.Second)
			pprof.StopCPUProfile()
			w.Close()
			os.Exit(3)
		}()
	}
}
