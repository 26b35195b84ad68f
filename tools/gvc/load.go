package main

import (
	"fmt"
	"go/ast"
	"go/build"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"strings"
)

// load.go: loads and type-checks packages of /repo (and, without bodies,
// of the standard library) from their current source.

type Pkg struct {
	path  string
	types *types.Package
	info  *types.Info
	files []*ast.File
	errs  []error
	repo  bool
	decls map[*types.Func]*ast.FuncDecl
	// package level variable initialisers
	inits map[*types.Var]*varInit
}

type varInit struct {
	pkg *Pkg
	rhs ast.Expr
	n   int // index in a multi-value initialiser, or -1
	lhs []*types.Var
}

type Loader struct {
	fset    *token.FileSet
	repo    string
	module  string
	pkgs    map[string]*Pkg
	bctx    build.Context
	goroot  string
	overlay map[string]bool
}

var stdWithBodies = map[string]bool{"encoding/binary": true}

func NewLoader(repo, module string) *Loader {
	b := build.Default
	b.CgoEnabled = false
	b.GOPATH = "/nonexistent"
	return &Loader{fset: token.NewFileSet(), repo: repo, module: module, pkgs: map[string]*Pkg{}, bctx: b, goroot: goroot()}
}

func goroot() string {
	if g := os.Getenv("GOROOT"); g != "" {
		return g
	}
	return build.Default.GOROOT
}

func (l *Loader) Import(path string) (*types.Package, error) {
	p, err := l.Load(path)
	if err != nil {
		return nil, err
	}
	return p.types, nil
}

func (l *Loader) Load(path string) (*Pkg, error) {
	if path == "unsafe" {
		return &Pkg{path: path, types: types.Unsafe}, nil
	}
	if p, ok := l.pkgs[path]; ok {
		if p == nil {
			return nil, fmt.Errorf("import cycle via %s", path)
		}
		return p, nil
	}
	l.pkgs[path] = nil
	var dir string
	repo := false
	if path == l.module || strings.HasPrefix(path, l.module+"/") {
		dir = filepath.Join(l.repo, strings.TrimPrefix(path, l.module))
		repo = true
	} else {
		dir = filepath.Join(l.goroot, "src", path)
		if _, err := os.Stat(dir); err != nil {
			dir = filepath.Join(l.goroot, "src", "vendor", path)
		}
	}
	bp, err := l.bctx.ImportDir(dir, 0)
	if err != nil {
		return nil, err
	}
	p := &Pkg{path: path, repo: repo, decls: map[*types.Func]*ast.FuncDecl{}, inits: map[*types.Var]*varInit{}}
	for _, f := range bp.GoFiles {
		af, err := parser.ParseFile(l.fset, filepath.Join(dir, f), nil, parser.SkipObjectResolution)
		if err != nil {
			return nil, err
		}
		p.files = append(p.files, af)
	}
	p.info = &types.Info{
		Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{},
		Uses: map[*ast.Ident]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{},
		Instances: map[*ast.Ident]types.Instance{}, Implicits: map[ast.Node]types.Object{},
		Scopes: map[ast.Node]*types.Scope{},
	}
	conf := types.Config{
		Importer:         l,
		IgnoreFuncBodies: !repo && !stdWithBodies[path],
		Error:            func(err error) { p.errs = append(p.errs, err) },
		FakeImportC:      true,
		Sizes:            types.SizesFor("gc", "amd64"),
	}
	tp, _ := conf.Check(path, l.fset, p.files, p.info)
	p.types = tp
	for _, f := range p.files {
		for _, d := range f.Decls {
			switch d := d.(type) {
			case *ast.FuncDecl:
				if fn, ok := p.info.Defs[d.Name].(*types.Func); ok {
					p.decls[fn] = d
				}
			case *ast.GenDecl:
				if d.Tok != token.VAR {
					continue
				}
				for _, s := range d.Specs {
					vs := s.(*ast.ValueSpec)
					if len(vs.Values) == 0 {
						continue
					}
					var vars []*types.Var
					for _, n := range vs.Names {
						v, _ := p.info.Defs[n].(*types.Var)
						vars = append(vars, v)
					}
					for i, v := range vars {
						if v == nil {
							continue
						}
						if len(vs.Values) == len(vs.Names) {
							p.inits[v] = &varInit{p, vs.Values[i], -1, vars}
						} else {
							p.inits[v] = &varInit{p, vs.Values[0], i, vars}
						}
					}
				}
			}
		}
	}
	l.pkgs[path] = p
	return p, nil
}

// funcKey is the name under which contracts refer to a function.
func funcKey(fn *types.Func) string {
	fn = fn.Origin()
	sig := fn.Type().(*types.Signature)
	pkg := ""
	if fn.Pkg() != nil {
		pkg = fn.Pkg().Path()
	}
	if r := sig.Recv(); r != nil {
		t := types.Unalias(r.Type())
		ptr := ""
		if p, ok := t.(*types.Pointer); ok {
			t = types.Unalias(p.Elem())
			ptr = "*"
		}
		if n, ok := t.(*types.Named); ok {
			return pkg + ".(" + ptr + n.Obj().Name() + ")." + fn.Name()
		}
		return pkg + ".(?)." + fn.Name()
	}
	return pkg + "." + fn.Name()
}

func (l *Loader) declOf(fn *types.Func) (*Pkg, *ast.FuncDecl) {
	fn = fn.Origin()
	if fn.Pkg() == nil {
		return nil, nil
	}
	p := l.pkgs[fn.Pkg().Path()]
	if p == nil {
		return nil, nil
	}
	return p, p.decls[fn]
}
