package main

import (
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
	"golang.org/x/tools/go/types/typeutil"
)

const mainPkgPath = "github.com/simonmittag/j8a"

type Program struct {
	prog             *ssa.Program
	pkg              *ssa.Package
	mu               sync.Mutex
	canon            typeutil.Map
	built            map[*ssa.Package]bool
	models           map[string]*ssa.Function
	runtimeErrorType types.Type
	initOrder        map[*ssa.Package]bool
	repo             string
	cmd              *ssa.Package // the command, if a check runs it
}

// loadProgram loads /repo with the harness files overlaid into the package.
func loadProgram(repo string, harness []string, points, cmd bool) (*Program, error) {
	overlay := map[string][]byte{}
	if points {
		src, err := pointSources(repo)
		if err != nil {
			return nil, err
		}
		overlay = src
	}
	for _, h := range harness {
		b, err := os.ReadFile(h)
		if err != nil {
			return nil, err
		}
		overlay[filepath.Join(repo, overlayName(h))] = b
	}
	cfg := &packages.Config{
		Mode:    packages.LoadAllSyntax,
		Dir:     repo,
		Overlay: overlay,
		Env:     append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "CGO_ENABLED=0", "GOTOOLCHAIN=local"),
	}
	pats := []string{"."}
	if cmd {
		pats = append(pats, "./cmd/j8a")
	}
	ps, err := packages.Load(cfg, pats...)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(ps, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("load: %s", strings.Join(errs, "\n"))
	}
	prog, pkgs := ssautil.AllPackages(ps, ssa.InstantiateGenerics)
	p := &Program{prog: prog, built: map[*ssa.Package]bool{}, models: map[string]*ssa.Function{}, repo: repo}
	for _, x := range pkgs {
		if x != nil && x.Pkg.Path() == mainPkgPath {
			p.pkg = x
		}
		if cmd && x != nil && x.Pkg.Name() == "main" {
			p.cmd = x
		}
	}
	if p.pkg == nil {
		return nil, fmt.Errorf("package %s not found", mainPkgPath)
	}
	p.buildPkg(p.pkg)
	if p.cmd != nil {
		p.buildPkg(p.cmd)
	}
	rt := prog.ImportedPackage("runtime")
	p.runtimeErrorType = rt.Pkg.Scope().Lookup("errorString").Type()
	// models: functions of the harness named vfM_* replace the function named in their table
	for name, target := range modelTable {
		if f := p.pkg.Func(name); f != nil {
			p.models[target] = f
		}
	}
	return p, nil
}

func overlayName(h string) string {
	return "zz_vf_" + strings.TrimSuffix(filepath.Base(h), ".go") + ".go"
}

func (p *Program) buildPkg(pk *ssa.Package) {
	p.mu.Lock()
	defer p.mu.Unlock()
	if p.built[pk] {
		return
	}
	p.built[pk] = true
	pk.Build()
}

func (p *Program) canonType(t types.Type) types.Type {
	p.mu.Lock()
	defer p.mu.Unlock()
	if _, isAlias := t.(*types.Alias); isAlias {
		t = types.Unalias(t)
	}
	if c := p.canon.At(t); c != nil {
		return c.(types.Type)
	}
	p.canon.Set(t, t)
	return t
}

func (p *Program) lookupMethod(t types.Type, pkg *types.Package, name string) *ssa.Function {
	p.mu.Lock()
	defer p.mu.Unlock()
	sel := p.prog.MethodSets.MethodSet(t).Lookup(pkg, name)
	if sel == nil {
		return nil
	}
	return p.prog.MethodValue(sel)
}

func (p *Program) lookupMethodName(t types.Type, name string) *ssa.Function {
	p.mu.Lock()
	defer p.mu.Unlock()
	ms := p.prog.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return p.prog.MethodValue(ms.At(i))
		}
	}
	return nil
}

// ---- globals and lazy initialisation ----

// packages whose initialisers are not run (their globals are unavailable).
var noInit = map[string]bool{
	"runtime": true, "os": true, "syscall": true, "internal/poll": true, "internal/godebug": true,
	"internal/cpu": true, "github.com/rs/zerolog": true, "github.com/rs/zerolog/log": true, "internal/godebugs": true,
	"crypto/internal/fips140": true, "os/signal": true, "os/user": true, "time/tzdata": true, "testing": true,
}

// globals of packages without initialisation that may still be read as their zero value or a given value.
var globalOverride = map[string]func(w *Worker) value{
	"os.ErrNotExist": nil,
	"os.Args":        func(w *Worker) value { return slice{"j8a"} },
}

func (w *Worker) globalAddr(g *ssa.Global) value {
	if p, ok := w.globals[g]; ok {
		return p
	}
	w.initPackage(g.Pkg)
	p, ok := w.globals[g]
	if !ok {
		p = new(value)
		*p = zero(g.Type().Underlying().(*types.Pointer).Elem())
		w.globals[g] = p
	}
	return p
}

func (w *Worker) initPackage(pk *ssa.Package) {
	if pk == nil || w.initState[pk] != 0 {
		return
	}
	w.initState[pk] = 1
	w.prg.buildPkg(pk)
	path := pk.Pkg.Path()
	var names []string
	for n := range pk.Members {
		names = append(names, n)
	}
	sort.Strings(names)
	skip := noInit[path] || strings.HasPrefix(path, "crypto/internal/") || strings.HasPrefix(path, "vendor/golang.org/x/crypto")
	for _, n := range names {
		if g, ok := pk.Members[n].(*ssa.Global); ok {
			p := new(value)
			et := g.Type().Underlying().(*types.Pointer).Elem()
			*p = zero(et)
			if skip && n != "init$guard" {
				*p = poison{"global of uninitialised package " + path + "." + n}
				if f := globalOverride[path+"."+n]; f != nil {
					*p = f(w)
				}
			}
			w.globals[g] = p
		}
	}
	if skip {
		w.initState[pk] = 2
		return
	}
	initFn := pk.Func("init")
	if initFn == nil {
		w.initState[pk] = 2
		return
	}
	w.initDepth++
	saveSteps := w.steps
	w.steps = -200_000_000
	saveG := w.cur
	d := w.initDepth
	g := &G{id: -1}
	func() {
		defer func() {
			if r := recover(); r != nil {
				switch x := r.(type) {
				case unsupported, targetPanic, engineError:
					debugf("init of %s aborted: %v\n", path, x)
					w.poisonRest(pk, fmt.Sprint(x))
				case pathEnd, pathKill:
					panic(r)
				default:
					debugf("init of %s crashed: %v\n", path, x)
					w.poisonRest(pk, fmt.Sprint(x))
				}
			}
			w.initDepth = d
		}()
		w.runInit(g, pk, initFn)
	}()
	w.initDepth--
	w.steps = saveSteps
	w.cur = saveG
	w.initState[pk] = 2
}

// poisonRest marks globals still at their zero value as unavailable.
func (w *Worker) poisonRest(pk *ssa.Package, why string) {
	for _, m := range pk.Members {
		if g, ok := m.(*ssa.Global); ok {
			p := w.globals[g]
			switch v := (*p).(type) {
			case *value:
				if v == nil {
					*p = poison{why}
				}
			case slice:
				if v == nil {
					*p = poison{why}
				}
			case *Map:
				if v == nil {
					*p = poison{why}
				}
			case iface:
				if v.t == nil {
					*p = poison{why}
				}
			}
		}
	}
}

// runInit interprets the package initialiser; calls to other packages' initialisers are skipped
// (their globals are initialised on first use).
func (w *Worker) runInit(g *G, pk *ssa.Package, fn *ssa.Function) {
	w.callFn(g, nil, fn, nil, nil)
}
