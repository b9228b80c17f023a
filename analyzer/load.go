package main

// Loading of the program: type-checked packages and their SSA form.

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type Prog struct {
	Dir    string
	Fset   *token.FileSet
	SSA    *ssa.Program
	Root   *ssa.Package
	Parser *ssa.Package
	Antlr  *ssa.Package
	rootPk *packages.Package
	prPk   *packages.Package
	built  map[*ssa.Package]bool
	tokens map[string]int

	// changes of the control flow: see rotate.go
	rotated map[*ssa.Function]bool
	moved   map[ssa.Instruction]*ssa.BasicBlock
	split   map[*ssa.BasicBlock]*ssa.BasicBlock
	all     []*packages.Package
}

// stubSource is added to the package: a search that reports n paths
const stubSource = `package gojsonpath

func vtStubPath(i int) DocPath { panic(i) }

func vtStubRunes(s string) int {
	for i, r := range s {
		panic(i + int(r))
	}
	return 0
}

func vtStubSearch(n int, capture func(DocPath)) {
	for i := 0; i < n; i++ {
		capture(vtStubPath(i))
	}
}
`

func load(dir string) (*Prog, error) {
	cfg := &packages.Config{
		Mode: packages.LoadAllSyntax,
		Dir:  dir,
		Env:  append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOSUMDB=off", "GOTOOLCHAIN=local", "GOWORK=off"),
	}
	if abs, err := filepath.Abs(dir); err == nil {
		cfg.Overlay = map[string][]byte{filepath.Join(abs, "zz_vt_stub.go"): []byte(stubSource)}
	}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	p := &Prog{Dir: dir, built: map[*ssa.Package]bool{}, rotated: map[*ssa.Function]bool{}, moved: map[ssa.Instruction]*ssa.BasicBlock{}, split: map[*ssa.BasicBlock]*ssa.BasicBlock{}, all: pkgs}
	var errs []string
	for _, pk := range pkgs {
		for _, e := range pk.Errors {
			errs = append(errs, e.Error())
		}
	}
	if len(errs) > 0 {
		return nil, fmt.Errorf("the code does not type check: %s", strings.Join(errs, "; "))
	}
	prog, sp := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	p.SSA = prog
	p.Fset = prog.Fset
	for i, pk := range pkgs {
		if pk.Name == "gojsonpath" {
			p.Root, p.rootPk = sp[i], pk
		}
		if pk.Name == "parser" && strings.HasSuffix(pk.PkgPath, "/parser") {
			p.Parser, p.prPk = sp[i], pk
		}
	}
	if p.Root == nil || p.Parser == nil {
		return nil, fmt.Errorf("packages gojsonpath and parser not found in %s", dir)
	}
	for _, x := range prog.AllPackages() {
		if x.Pkg.Path() == "github.com/antlr4-go/antlr/v4" {
			p.Antlr = x
		}
	}
	if p.Antlr == nil {
		return nil, fmt.Errorf("package antlr not found")
	}
	if p.tokens, err = readTokens(dir); err != nil {
		return nil, err
	}
	p.Root.Build()
	p.Parser.Build()
	p.built[p.Root], p.built[p.Parser] = true, true
	return p, nil
}

func (p *Prog) build(fn *ssa.Function) {
	pk := fn.Pkg
	if pk == nil && fn.Origin() != nil {
		pk = fn.Origin().Pkg
	}
	if pk == nil {
		if o := fn.Object(); o != nil && o.Pkg() != nil {
			pk = p.SSA.Package(o.Pkg())
		}
	}
	if pk != nil && !p.built[pk] {
		p.built[pk] = true
		pk.Build()
	}
}

func (p *Prog) position(pos token.Pos) string {
	if !pos.IsValid() {
		return "-"
	}
	ps := p.Fset.Position(pos)
	f := ps.Filename
	if r, err := filepath.Rel(p.Dir, f); err == nil && !strings.HasPrefix(r, "..") {
		f = r
	} else {
		f = filepath.Base(filepath.Dir(f)) + "/" + filepath.Base(f)
	}
	return fmt.Sprintf("%s:%d", f, ps.Line)
}

// fn returns a function of the root package
func (p *Prog) fn(name string) *ssa.Function {
	f := p.Root.Func(name)
	if f == nil {
		panic(undecided("function " + name + " not found"))
	}
	return f
}

func (p *Prog) typ(name string) types.Type {
	o := p.Root.Pkg.Scope().Lookup(name)
	if o == nil {
		panic(undecided("type " + name + " not found"))
	}
	return o.Type()
}

// method returns the method of a named type of the root package
func (p *Prog) method(typ, name string) *ssa.Function {
	t := p.typ(typ)
	for _, x := range []types.Type{t, types.NewPointer(t)} {
		if s := p.SSA.MethodSets.MethodSet(x).Lookup(p.Root.Pkg, name); s != nil {
			return p.SSA.MethodValue(s)
		}
	}
	panic(undecided("method " + typ + "." + name + " not found"))
}

// intConst is the value of an integer constant of the root package
func (p *Prog) intConst(name string) int64 {
	c, ok := p.Root.Pkg.Scope().Lookup(name).(*types.Const)
	if !ok {
		panic(undecided("constant " + name + " not found"))
	}
	v, _ := constant.Int64Val(c.Val())
	return v
}

func (p *Prog) field(t types.Type, name string) int {
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		panic(undecided(t.String() + " is not a struct"))
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return i
		}
	}
	panic(undecided("field " + name + " of " + t.String() + " not found"))
}

// parserType returns a type of the generated parser package
func (p *Prog) parserType(name string) types.Type {
	o := p.Parser.Pkg.Scope().Lookup(name)
	if o == nil {
		panic(undecided("parser type " + name + " not found"))
	}
	return o.Type()
}

func (p *Prog) antlrType(name string) types.Type {
	o := p.Antlr.Pkg.Scope().Lookup(name)
	if o == nil {
		panic(undecided("antlr type " + name + " not found"))
	}
	return o.Type()
}

// files returns the syntax of the hand-written files
func (p *Prog) files() []*ast.File { return p.rootPk.Syntax }
