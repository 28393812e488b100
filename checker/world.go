package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// World is the loaded program.
type World struct {
	tier    string
	repo    string
	prog    *ssa.Program
	pkgs    []*packages.Package
	json    *ssa.Package
	common  *ssa.Package
	repoPk  map[string]bool // import paths of the repository itself (tests excluded)
	M, A, V *types.Named
	builder types.Type // *strings.Builder
	lookup  func(path, name string) types.Type
}

func load(repo string) (*World, error) {
	cfg := &packages.Config{Mode: packages.LoadAllSyntax | packages.NeedModule, Dir: repo, Env: append(os.Environ(), "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOTOOLCHAIN=local")}
	ps, err := packages.Load(cfg, "./...", "errors", "fmt", "strings", "time", "net/url", "os/exec", "os")
	if err != nil {
		return nil, err
	}
	var bad []string
	packages.Visit(ps, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			bad = append(bad, e.Error())
		}
	})
	if len(bad) > 0 {
		return nil, fmt.Errorf("the program does not load: %s", bad[0])
	}
	prog, _ := ssautil.AllPackages(ps, ssa.InstantiateGenerics)
	w := &World{repo: repo, prog: prog, pkgs: ps, repoPk: map[string]bool{}}
	all := map[string]*types.Package{}
	packages.Visit(ps, nil, func(p *packages.Package) { all[p.PkgPath] = p.Types })
	for _, p := range ps {
		if p.Module != nil && p.Module.Main {
			w.repoPk[p.PkgPath] = true
		}
	}
	for _, p := range prog.AllPackages() {
		path := p.Pkg.Path()
		if w.repoPk[path] || path == commonPath {
			p.Build()
		}
		if path == commonPath {
			w.common = p
		}
		if w.repoPk[path] && p.Pkg.Name() == "json" {
			w.json = p
		}
	}
	if w.json == nil {
		return nil, fmt.Errorf("package json not found")
	}
	named := func(n string) *types.Named {
		o := w.json.Pkg.Scope().Lookup(n)
		if o == nil {
			return nil
		}
		t, _ := o.Type().(*types.Named)
		return t
	}
	w.M, w.A, w.V = named("Map"), named("Array"), named("Value")
	if w.M == nil || w.A == nil || w.V == nil {
		return nil, fmt.Errorf("types Map, Array and Value not found")
	}
	w.lookup = func(path, name string) types.Type {
		p := all[path]
		if p == nil {
			return nil
		}
		o := p.Scope().Lookup(name)
		if o == nil {
			return nil
		}
		return o.Type()
	}
	w.builder = types.NewPointer(w.lookup("strings", "Builder"))
	errPtr = types.NewPointer(w.lookup("errors", "errorString"))
	timeType = w.lookup("time", "Time")
	w.readInits()
	return w, nil
}

func (w *World) inl(fn *ssa.Function) bool {
	f := fn
	if f.Origin() != nil {
		f = f.Origin()
	}
	for f.Parent() != nil {
		f = f.Parent()
	}
	p := f.Pkg
	if p == nil {
		if f.Object() != nil && f.Object().Pkg() != nil {
			path := f.Object().Pkg().Path()
			if w.repoPk[path] {
				return true
			}
			// small generic helpers of the standard library are analysed by their bodies
			return len(fn.Blocks) > 0 && (path == "slices" || path == "maps" || path == "cmp")
		}
		return fn.Synthetic != "" && len(fn.Blocks) > 0
	}
	if p.Pkg.Path() == commonPath {
		return strings.HasPrefix(f.Name(), "Is") || f.Name() == "CloneString" || f.Name() == "Contains"
	}
	if w.repoPk[p.Pkg.Path()] {
		return true
	}
	path := p.Pkg.Path()
	return len(fn.Blocks) > 0 && (path == "slices" || path == "maps" || path == "cmp")
}

func (w *World) eng() *Eng {
	e := newEng(w.prog)
	e.inl = w.inl
	return e
}

// fields of one of the published structures, by name.
type field struct {
	name string
	k    int
	sig  *types.Signature
}

func fieldsOf(n *types.Named) []field {
	st := n.Underlying().(*types.Struct)
	var r []field
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		sig, ok := f.Type().Underlying().(*types.Signature)
		if ok {
			r = append(r, field{f.Name(), i, sig})
		}
	}
	return r
}

func fieldNamed(n *types.Named, name string) (field, bool) {
	for _, f := range fieldsOf(n) {
		if f.name == name {
			return f, true
		}
	}
	return field{}, false
}

func (w *World) fn(name string) *ssa.Function { return w.json.Func(name) }

// where renders a position as file:line relative to the repository, with the function it lies in.
func (w *World) where(pos token.Pos, fn *ssa.Function) string {
	s := ""
	if pos.IsValid() {
		p := w.prog.Fset.Position(pos)
		f := p.Filename
		if r, err := filepath.Rel(w.repo, f); err == nil && !strings.HasPrefix(r, "..") {
			f = r
		}
		s = fmt.Sprintf("%s:%d", f, p.Line)
	}
	if fn != nil {
		s += " (" + fn.RelString(nil) + ")"
	}
	return s
}

// repoFunctions are all functions of the non-test packages of the repository, closures included.
func (w *World) repoFunctions() []*ssa.Function {
	var r []*ssa.Function
	for fn := range ssautil.AllFunctions(w.prog) {
		f := fn
		for f.Parent() != nil {
			f = f.Parent()
		}
		if f.Origin() != nil {
			f = f.Origin()
		}
		p := f.Pkg
		path := ""
		if p != nil {
			path = p.Pkg.Path()
		} else if f.Object() != nil && f.Object().Pkg() != nil {
			path = f.Object().Pkg().Path()
		}
		if w.repoPk[path] && len(fn.Blocks) > 0 {
			if p := w.prog.Fset.Position(fn.Pos()); strings.HasSuffix(p.Filename, "_test.go") {
				continue
			}
			r = append(r, fn)
		}
	}
	sort.Slice(r, func(i, j int) bool {
		if r[i].Pos() != r[j].Pos() {
			return r[i].Pos() < r[j].Pos()
		}
		return r[i].String() < r[j].String()
	})
	return r
}
