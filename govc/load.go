package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Config is one build configuration of the code under verification.
type Config struct {
	Name   string // e.g. linux/amd64
	OS     string
	Arch   string
	Tags   string
	GoRoot string // toolchain whose go command lists the packages; empty: the one in PATH
}

// Program is /repo loaded in one configuration.
type Program struct {
	Cfg   Config
	Dir   string
	SSA   *ssa.Program
	Pkgs  []*packages.Package
	ByPkg map[string]*packages.Package
	Sizes types.Sizes
	Mod   string
	funcs map[string]*ssa.Function
	mu    sync.Mutex
}

const modPath = "github.com/bytedance/mockey"

func parseConfig(s string) Config {
	c := Config{Name: s}
	parts := strings.Split(s, "+")
	oa := strings.SplitN(parts[0], "/", 2)
	c.OS, c.Arch = oa[0], oa[1]
	for _, p := range parts[1:] {
		if strings.HasPrefix(p, "go1.") {
			c.GoRoot = p
		} else {
			c.Tags = p
		}
	}
	return c
}

func Load(dir string, cfg Config, overlay map[string][]byte) (*Program, error) {
	mode := packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedDeps | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule
	env := os.Environ()
	env = append(env, "GOOS="+cfg.OS, "GOARCH="+cfg.Arch, "CGO_ENABLED=0", "GOFLAGS=-mod=mod", "GOPROXY=off", "GOWORK=off", "GOSUMDB=off", "GOTOOLCHAIN=local", "GOROOT=")
	pc := &packages.Config{Mode: mode, Dir: dir, Env: env, Overlay: overlay}
	if cfg.Tags != "" {
		pc.BuildFlags = []string{"-tags=" + cfg.Tags}
	}
	ps, err := packages.Load(pc, "./...")
	if err != nil {
		return nil, err
	}
	p := &Program{Cfg: cfg, Dir: dir, Pkgs: ps, ByPkg: map[string]*packages.Package{}, funcs: map[string]*ssa.Function{}, Mod: modPath}
	var errs []string
	for _, q := range ps {
		for _, e := range q.Errors {
			errs = append(errs, e.Error())
		}
	}
	if len(errs) > 0 {
		return nil, fmt.Errorf("loading %s: %s", cfg.Name, strings.Join(errs, "; "))
	}
	packages.Visit(ps, nil, func(q *packages.Package) { p.ByPkg[q.PkgPath] = q })
	prog, _ := ssautil.Packages(ps, ssa.InstantiateGenerics)
	p.SSA = prog
	for _, q := range ps {
		if sp := prog.Package(q.Types); sp != nil {
			sp.Build()
		}
		p.Sizes = q.TypesSizes
	}
	for _, q := range ps {
		sp := prog.Package(q.Types)
		if sp == nil {
			continue
		}
		for _, m := range sp.Members {
			switch m := m.(type) {
			case *ssa.Function:
				p.addFunc(m)
			case *ssa.Type:
				for _, t := range []types.Type{m.Type(), types.NewPointer(m.Type())} {
					ms := prog.MethodSets.MethodSet(t)
					for i := 0; i < ms.Len(); i++ {
						if f := prog.MethodValue(ms.At(i)); f != nil && f.Synthetic == "" {
							p.addFunc(f)
						}
					}
				}
			}
		}
	}
	return p, nil
}

func (p *Program) addFunc(f *ssa.Function) { p.funcs[fnKey(f)] = f }

// fnKey names a function independently of the module path:
// "mem.WriteWithSTW", "mockey.(*Mocker).Patch".
func fnKey(f *ssa.Function) string {
	s := f.String()
	return shortName(s)
}

func shortName(s string) string {
	s = strings.ReplaceAll(s, modPath+"/internal/monkey/common/runtime_link/", "")
	for _, pre := range []string{"/internal/monkey/common/", "/internal/monkey/mem/", "/internal/monkey/", "/internal/"} {
		s = strings.ReplaceAll(s, modPath+pre, "")
	}
	s = strings.ReplaceAll(s, modPath, "mockey")
	return s
}

func (p *Program) Func(key string) *ssa.Function { return p.funcs[key] }

func (p *Program) FuncKeys() []string {
	var r []string
	for k := range p.funcs {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

// inRepo says whether the function belongs to the repository (or is a wrapper
// or closure of it).
func inRepo(f *ssa.Function) bool {
	pk := f.Pkg
	if pk == nil {
		if f.Parent() != nil {
			return inRepo(f.Parent())
		}
		if o := f.Object(); o != nil && o.Pkg() != nil {
			return strings.HasPrefix(o.Pkg().Path(), modPath)
		}
		return strings.Contains(f.String(), modPath)
	}
	return strings.HasPrefix(pk.Pkg.Path(), modPath)
}
