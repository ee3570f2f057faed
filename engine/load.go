package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const repoModule = "github.com/teonet-go/tru"

// Case is one verification harness function.
type Case struct {
	Name string
	Prop string
	Pkg  string // import path
	fn   *ssa.Function
	opt  map[string]string
}

// Program is the repository, together with the harnesses, in SSA form.
type Program struct {
	fset     *token.FileSet
	prog     *ssa.Program
	infos    sync.Map
	models   map[string]*ssa.Function
	globalOv map[string]*ssa.Global
	rtErr    types.Type
	plainErr types.Type
	errStr   types.Type
	wrapErr  types.Type
	full     map[*ssa.Package]bool
	cases    []*Case
	swaps    map[string][]swap // package dir -> native call replacements
	mu       sync.Mutex
	impl     map[[2]types.Type]bool
	byPath   map[string]*ssa.Package
	overlay  map[string][]byte
	dropped  []string // white-box harness files left out, with the reason
}

type swap struct{ qual, fn string }

// pkgDirs maps harness directories to package directories of the repository.
var pkgDirs = map[string]string{"root": "", "teolog": "teolog", "hotkey": "hotkey", "term": "term"}

var pkgNames = map[string]string{"root": "tru", "teolog": "teolog", "hotkey": "hotkey", "term": "term"}

// harnessFiles returns overlay path -> content of the harness files needed for
// the given property.
func harnessFiles(verif, repo string, dirs []string, prop string) (map[string][]byte, error) {
	ov := map[string][]byte{}
	prims, err := os.ReadFile(filepath.Join(verif, "harness", "prims.go.txt"))
	if err != nil {
		return nil, err
	}
	for _, d := range dirs {
		fs, err := filepath.Glob(filepath.Join(verif, "harness", d, "zz_verif_*.go"))
		if err != nil {
			return nil, err
		}
		for _, f := range fs {
			base := strings.TrimSuffix(filepath.Base(f), ".go")
			id := strings.TrimPrefix(base, "zz_verif_")
			if len(id) >= 3 && id[0] == 'c' && id[1] >= '0' && id[1] <= '9' && prop != "" && !strings.EqualFold(id[:3], prop) {
				continue
			}
			b, err := os.ReadFile(f)
			if err != nil {
				return nil, err
			}
			ov[filepath.Join(repo, pkgDirs[d], filepath.Base(f))] = b
		}
		ov[filepath.Join(repo, pkgDirs[d], "zz_verif_prims.go")] = []byte(strings.Replace(string(prims), "package PKG", "package "+pkgNames[d], 1))
	}
	return ov, nil
}

func propDirs(verif, prop string) []string {
	var ds []string
	for d := range pkgDirs {
		fs, _ := filepath.Glob(filepath.Join(verif, "harness", d, "zz_verif_"+strings.ToLower(prop)+"*.go"))
		if len(fs) > 0 {
			ds = append(ds, d)
		}
	}
	sort.Strings(ds)
	return ds
}

func goEnv(repo string) []string {
	var env []string
	for _, e := range os.Environ() {
		if strings.HasPrefix(e, "GOFLAGS=") || strings.HasPrefix(e, "GOWORK=") || strings.HasPrefix(e, "GO111MODULE=") {
			continue
		}
		env = append(env, e)
	}
	if _, err := os.Stat(filepath.Join(repo, "go.work")); err == nil {
		env = append(env, "GOWORK="+filepath.Join(repo, "go.work"))
	}
	return append(env, "GOFLAGS=", "GOPROXY=off", "CGO_ENABLED=0")
}

// Load loads the repository with the harnesses of prop overlaid.
func Load(verif, repo, prop string) (*Program, error) {
	dirs := propDirs(verif, prop)
	if len(dirs) == 0 {
		return nil, fmt.Errorf("no harness for %s", prop)
	}
	ov, err := harnessFiles(verif, repo, dirs, prop)
	if err != nil {
		return nil, err
	}
	var pats []string
	for _, d := range dirs {
		pats = append(pats, "./"+pkgDirs[d])
	}
	var fset *token.FileSet
	var ps []*packages.Package
	var dropped []string
	for {
		fset = token.NewFileSet()
		cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: repo, Fset: fset, Overlay: ov, Env: goEnv(repo)}
		ps, err = packages.Load(cfg, pats...)
		if err != nil {
			return nil, err
		}
		var errs []string
		var drop []string
		packages.Visit(ps, nil, func(p *packages.Package) {
			for _, e := range p.Errors {
				errs = append(errs, e.Error())
				// a harness file that looks inside the code and no longer
				// compiles against it is left out
				f, _, _ := strings.Cut(e.Pos, ":")
				if _, ok := ov[f]; ok && strings.HasSuffix(f, "_wb.go") {
					drop = append(drop, f)
				}
			}
		})
		if len(errs) == 0 {
			break
		}
		if len(drop) > 0 {
			for _, f := range drop {
				if _, ok := ov[f]; ok {
					delete(ov, f)
					dropped = append(dropped, filepath.Base(f)+": "+errs[0])
				}
			}
			continue
		}
		if len(errs) > 8 {
			errs = errs[:8]
		}
		return nil, fmt.Errorf("load: %s", strings.Join(errs, "; "))
	}
	prog, _ := ssautil.AllPackages(ps, ssa.InstantiateGenerics|ssa.SanityCheckFunctions&0)
	prog.Build()
	pr := &Program{fset: fset, prog: prog, models: map[string]*ssa.Function{}, globalOv: map[string]*ssa.Global{},
		full: map[*ssa.Package]bool{}, swaps: map[string][]swap{}, impl: map[[2]types.Type]bool{}, byPath: map[string]*ssa.Package{}, overlay: ov, dropped: dropped}
	for _, sp := range prog.AllPackages() {
		pr.byPath[sp.Pkg.Path()] = sp
		if strings.HasPrefix(sp.Pkg.Path(), repoModule) {
			pr.full[sp] = true
		}
	}
	named := func(pkg, name string) types.Type {
		sp := pr.byPath[pkg]
		if sp == nil {
			return nil
		}
		if o := sp.Pkg.Scope().Lookup(name); o != nil {
			return o.Type()
		}
		return nil
	}
	pr.rtErr = named("runtime", "errorString")
	pr.plainErr = named("runtime", "plainError")
	if pr.rtErr == nil {
		pr.rtErr = types.Typ[types.String]
	}
	if pr.plainErr == nil {
		pr.plainErr = pr.rtErr
	}
	pr.errStr = named("errors", "errorString")
	pr.wrapErr = named("fmt", "wrapError")

	seen := map[*packages.Package]bool{}
	for _, p := range ps {
		if seen[p] {
			continue
		}
		seen[p] = true
		sp := prog.Package(p.Types)
		for i, f := range p.Syntax {
			if i >= len(p.CompiledGoFiles) && false {
				continue
			}
			fname := fset.Position(f.Package).Filename
			if !strings.Contains(filepath.Base(fname), "zz_verif") {
				continue
			}
			if err := pr.scanHarness(sp, f); err != nil {
				return nil, err
			}
		}
	}
	sort.Slice(pr.cases, func(i, j int) bool { return pr.cases[i].Name < pr.cases[j].Name })
	return pr, nil
}

func (pr *Program) scanHarness(sp *ssa.Package, f *ast.File) error {
	for _, d := range f.Decls {
		switch d := d.(type) {
		case *ast.FuncDecl:
			if d.Recv != nil {
				continue
			}
			fn := sp.Func(d.Name.Name)
			opt := map[string]string{}
			if d.Doc != nil {
				for _, c := range d.Doc.List {
					t := strings.TrimPrefix(c.Text, "//")
					switch {
					case strings.HasPrefix(t, "verif:model "):
						pr.models[strings.TrimSpace(strings.TrimPrefix(t, "verif:model "))] = fn
					case strings.HasPrefix(t, "verif:swap "):
						q := strings.TrimSpace(strings.TrimPrefix(t, "verif:swap "))
						pr.models[q] = fn
						pr.swaps[sp.Pkg.Path()] = append(pr.swaps[sp.Pkg.Path()], swap{q, d.Name.Name})
					case strings.HasPrefix(t, "verif:opt "):
						for _, kv := range strings.Fields(strings.TrimPrefix(t, "verif:opt ")) {
							k, v, _ := strings.Cut(kv, "=")
							opt[k] = v
						}
					}
				}
			}
			if strings.HasPrefix(d.Name.Name, "vCase_") {
				rest := strings.TrimPrefix(d.Name.Name, "vCase_")
				prop, _, _ := strings.Cut(rest, "_")
				pr.cases = append(pr.cases, &Case{Name: rest, Prop: prop, Pkg: sp.Pkg.Path(), fn: fn, opt: opt})
			}
		case *ast.GenDecl:
			if d.Doc == nil || d.Tok != token.VAR {
				continue
			}
			for _, c := range d.Doc.List {
				t := strings.TrimPrefix(c.Text, "//")
				if strings.HasPrefix(t, "verif:global ") {
					q := strings.TrimSpace(strings.TrimPrefix(t, "verif:global "))
					for _, s := range d.Specs {
						vs := s.(*ast.ValueSpec)
						pr.globalOv[q] = sp.Var(vs.Names[0].Name)
					}
				}
			}
		}
	}
	return nil
}

func (c *Case) intOpt(k string, def int) int {
	if v, ok := c.opt[k]; ok {
		if n, err := strconv.Atoi(v); err == nil {
			return n
		}
	}
	return def
}

// fullInit reports whether the whole package initialiser is executed.
func (pr *Program) fullInit(pkg *ssa.Package) bool { return pr.full[pkg] }

func (pr *Program) method(t types.Type, m *types.Func) *ssa.Function {
	pr.mu.Lock()
	defer pr.mu.Unlock()
	sel := pr.prog.MethodSets.MethodSet(t).Lookup(m.Pkg(), m.Name())
	if sel == nil {
		return nil
	}
	return pr.prog.MethodValue(sel)
}

func (pr *Program) methodByName(t types.Type, name string) *ssa.Function {
	pr.mu.Lock()
	defer pr.mu.Unlock()
	ms := pr.prog.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return pr.prog.MethodValue(ms.At(i))
		}
	}
	return nil
}

func (pr *Program) implements(t types.Type, it *types.Interface) bool {
	pr.mu.Lock()
	defer pr.mu.Unlock()
	k := [2]types.Type{t, it}
	if v, ok := pr.impl[k]; ok {
		return v
	}
	v := types.Implements(t, it)
	pr.impl[k] = v
	return v
}

func (pr *Program) fnByName(pkg, name string) *ssa.Function {
	sp := pr.byPath[pkg]
	if sp == nil {
		return nil
	}
	return sp.Func(name)
}
