package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// World is the resolved program under analysis.
type World struct {
	Repo    string
	Prog    *ssa.Program
	Fset    *token.FileSet
	Pkgs    []*packages.Package // packages of the module, dependencies first
	SSA     map[string]*ssa.Package
	Module  string
	Mutable map[*ssa.Global]bool
	NFuncs  int
}

const goroot = "/opt/veriftools/go1.27.3"

func loadEnv(extra ...string) []string {
	env := []string{}
	for _, kv := range os.Environ() {
		k := strings.SplitN(kv, "=", 2)[0]
		switch k {
		case "GOFLAGS", "GOOS", "GOARCH", "GOROOT", "GOENV", "GOPROXY", "GOSUMDB", "GOTOOLCHAIN", "PATH", "GOWORK", "GO111MODULE":
			continue
		}
		env = append(env, kv)
	}
	path := goroot + "/bin:/usr/local/bin:/usr/bin:/bin"
	env = append(env, "PATH="+path, "GOTOOLCHAIN=local", "GOSUMDB=off", "GOPROXY=off", "GOENV=off", "GOFLAGS=-mod=mod", "GOWORK=off")
	if os.Getenv("HOME") == "" {
		env = append(env, "HOME=/root")
	}
	return append(env, extra...)
}

var patterns = []string{"./...", "./_examples/csv/...", "./_examples/formula/...", "./_examples/torpn/..."}

// Load reads and type checks the repository and builds its SSA form.
func Load(repo string) (*World, error) {
	return loadWith(repo, patterns, nil)
}

func loadWith(repo string, pats []string, env []string, flags ...string) (*World, error) {
	cfg := &packages.Config{
		Mode:       packages.LoadAllSyntax | packages.NeedModule,
		Dir:        repo,
		Env:        loadEnv(env...),
		BuildFlags: flags,
	}
	pkgs, err := packages.Load(cfg, pats...)
	if err != nil {
		return nil, err
	}
	w := &World{Repo: repo, SSA: map[string]*ssa.Package{}, Mutable: map[*ssa.Global]bool{}}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
		if p.Module != nil && p.Module.Main {
			w.Module = p.Module.Path
			w.Pkgs = append(w.Pkgs, p)
		}
	})
	if len(errs) > 0 {
		if len(errs) > 10 {
			errs = errs[:10]
		}
		return nil, fmt.Errorf("the repository does not type check: %s", strings.Join(errs, "; "))
	}
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	w.Prog = prog
	w.Fset = prog.Fset
	for _, p := range w.Pkgs {
		sp := prog.Package(p.Types)
		if sp != nil {
			w.SSA[p.PkgPath] = sp
		}
	}
	w.findMutable()
	return w, nil
}

// InModule reports whether a package belongs to the repository.
func (w *World) InModule(p *types.Package) bool {
	return p != nil && (p.Path() == w.Module || strings.HasPrefix(p.Path(), w.Module+"/"))
}

// findMutable lists the global variables written outside initialisers.
func (w *World) findMutable() {
	for fn := range ssautil.AllFunctions(w.Prog) {
		if fn.Pkg == nil || !w.InModule(fn.Pkg.Pkg) {
			continue
		}
		w.NFuncs++
		if fn.Synthetic == "package initializer" {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					g, ok := (*op).(*ssa.Global)
					if !ok {
						continue
					}
					switch x := in.(type) {
					case *ssa.UnOp:
						continue
					case *ssa.Store:
						if x.Addr == g {
							w.Mutable[g] = true
						}
					case *ssa.FieldAddr, *ssa.IndexAddr:
						// written if any referrer stores
						if addrWritten(in.(ssa.Value)) {
							w.Mutable[g] = true
						}
					case *ssa.DebugRef:
					default:
						w.Mutable[g] = true
					}
				}
			}
		}
	}
}

func addrWritten(v ssa.Value) bool {
	for _, r := range *v.Referrers() {
		switch x := r.(type) {
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.Store:
			return true
		case *ssa.FieldAddr:
			if addrWritten(x) {
				return true
			}
		case *ssa.IndexAddr:
			if addrWritten(x) {
				return true
			}
		default:
			return true
		}
	}
	return false
}

// Rel shortens a position.
func (w *World) Rel(s string) string {
	if r, err := filepath.Rel(w.Repo, s); err == nil && !strings.HasPrefix(r, "..") {
		return r
	}
	return s
}

// Fn finds a package level function.
func (w *World) Fn(pkg, name string) *ssa.Function {
	p := w.SSA[w.Module+"/"+pkg]
	if p == nil {
		return nil
	}
	return p.Func(name)
}

// Named finds a named type.
func (w *World) Named(pkg, name string) *types.Named {
	p := w.SSA[w.Module+"/"+pkg]
	if p == nil {
		return nil
	}
	t, ok := p.Pkg.Scope().Lookup(name).(*types.TypeName)
	if !ok {
		return nil
	}
	n, _ := types.Unalias(t.Type()).(*types.Named)
	return n
}

// Exported lists the exported functions of a package.
func (w *World) Exported(pkg string) []*ssa.Function {
	p := w.SSA[w.Module+"/"+pkg]
	var r []*ssa.Function
	if p == nil {
		return nil
	}
	for _, m := range p.Members {
		if f, ok := m.(*ssa.Function); ok && token.IsExported(f.Name()) {
			r = append(r, f)
		}
	}
	sort.Slice(r, func(i, j int) bool { return r[i].Name() < r[j].Name() })
	return r
}

// Method finds a method of a named type (by value or by pointer).
func (w *World) Method(pkg, typ, name string) *ssa.Function {
	n := w.Named(pkg, typ)
	if n == nil {
		return nil
	}
	for i := 0; i < n.NumMethods(); i++ {
		if m := n.Method(i); m.Name() == name {
			return w.Prog.FuncValue(m)
		}
	}
	return nil
}
