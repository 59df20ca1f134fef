package main

// Loading of the repository's current source.

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const (
	modPath  = "github.com/gogama/flatgeobuf"
	fgbPath  = modPath + "/flatgeobuf"
	flatPath = modPath + "/flatgeobuf/flat"
	prtPath  = modPath + "/packedrtree"
	fbPath   = "github.com/google/flatbuffers/go"
)

type Loaded struct {
	fset   *token.FileSet
	prog   *ssa.Program
	pkgs   []*packages.Package
	byPath map[string]*packages.Package
	ssaBy  map[string]*ssa.Package
	root   string
}

func repoRoot() string {
	if r := os.Getenv("FGB_REPO"); r != "" {
		return r
	}
	return "/repo"
}

func load(env ...string) (*Loaded, error) {
	cfg := &packages.Config{
		Mode: packages.LoadAllSyntax | packages.NeedModule,
		Dir:  repoRoot(),
		Env:  append(os.Environ(), env...),
		Fset: token.NewFileSet(),
	}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	if len(pkgs) == 0 {
		return nil, fmt.Errorf("no packages found in %s", cfg.Dir)
	}
	ld := &Loaded{fset: cfg.Fset, pkgs: pkgs, byPath: map[string]*packages.Package{}, ssaBy: map[string]*ssa.Package{}, root: cfg.Dir}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		ld.byPath[p.PkgPath] = p
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("the repository does not type-check: %s", strings.Join(errs, "; "))
	}
	return ld, nil
}

func (ld *Loaded) buildSSA() {
	prog, _ := ssautil.AllPackages(ld.pkgs, ssa.InstantiateGenerics)
	ld.prog = prog
	for _, p := range prog.AllPackages() {
		ld.ssaBy[p.Pkg.Path()] = p
	}
	prog.Build()
}

func (ld *Loaded) pkg(path string) *ssa.Package { return ld.ssaBy[path] }

// fn finds a package-level function, or nil.
func (ld *Loaded) fn(path, name string) *ssa.Function {
	p := ld.ssaBy[path]
	if p == nil {
		return nil
	}
	return p.Func(name)
}

// method finds a method on T or *T, or nil.
func (ld *Loaded) method(path, typ, name string) *ssa.Function {
	p := ld.ssaBy[path]
	if p == nil {
		return nil
	}
	t := p.Type(typ)
	if t == nil {
		return nil
	}
	for _, T := range []types.Type{types.NewPointer(t.Type()), t.Type()} {
		ms := ld.prog.MethodSets.MethodSet(T)
		for i := 0; i < ms.Len(); i++ {
			if ms.At(i).Obj().Name() == name {
				return ld.prog.MethodValue(ms.At(i))
			}
		}
	}
	return nil
}

func (ld *Loaded) position(p token.Pos, in ssa.Instruction) string {
	if !p.IsValid() && in != nil {
		// nearest instruction with a position in the same block, or the function
		b := in.Block()
		if b != nil {
			for _, x := range b.Instrs {
				if x.Pos().IsValid() {
					p = x.Pos()
				}
				if x == in && p.IsValid() {
					break
				}
			}
		}
		if !p.IsValid() && in.Parent() != nil {
			p = in.Parent().Pos()
		}
	}
	if !p.IsValid() {
		return "?"
	}
	q := ld.fset.Position(p)
	f := q.Filename
	if r, err := filepath.Rel(ld.root, f); err == nil && !strings.HasPrefix(r, "..") {
		f = r
	} else {
		f = filepath.Base(f)
	}
	return fmt.Sprintf("%s:%d", f, q.Line)
}

// repoPkgs are the library's packages (without tests).
func (ld *Loaded) repoPkgs() []*packages.Package {
	var r []*packages.Package
	for p, x := range ld.byPath {
		if p == modPath || strings.HasPrefix(p, modPath+"/") {
			r = append(r, x)
		}
	}
	sort.Slice(r, func(i, j int) bool { return r[i].PkgPath < r[j].PkgPath })
	return r
}

func isRepoFn(fn *ssa.Function) bool {
	if o := fn.Origin(); o != nil {
		fn = o
	}
	p := fnPkgPath(fn)
	return p == modPath || strings.HasPrefix(p, modPath+"/")
}

func fnPkgPath(fn *ssa.Function) string {
	for f := fn; f != nil; f = f.Parent() {
		if f.Pkg != nil {
			return f.Pkg.Pkg.Path()
		}
		if f.Object() != nil && f.Object().Pkg() != nil {
			return f.Object().Pkg().Path()
		}
	}
	return ""
}

// repoFns are all functions with bodies of the repository's packages,
// closures included.
func (ld *Loaded) repoFns() []*ssa.Function {
	var r []*ssa.Function
	for fn := range ssautil.AllFunctions(ld.prog) {
		if len(fn.Blocks) > 0 && isRepoFn(fn) {
			r = append(r, fn)
		}
	}
	sort.Slice(r, func(i, j int) bool {
		if r[i].String() != r[j].String() {
			return r[i].String() < r[j].String()
		}
		return r[i].Pos() < r[j].Pos()
	})
	return r
}

var _ ast.Node
