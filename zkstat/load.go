package main

// Loading: type-check /repo's packages (with the build's own file selection)
// and the standard library from source, and build SSA for the repository's
// packages plus a few pure standard packages whose bodies are inlined.

import (
	"fmt"
	"go/ast"
	"go/build"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const repoPrefix = "github.com/mit-dci/zksigma"

type Program struct {
	fset    *token.FileSet
	dir     string
	pkgs    map[string]*types.Package
	files   map[string][]*ast.File
	infos   map[string]*types.Info
	ssa     *ssa.Program
	ssaPkgs map[string]*ssa.Package
	ctx     build.Context
	order   []string
	errs    []error
}

// inlineStd lists pure standard packages whose bodies are analysed by inlining.
var inlineStd = map[string]bool{
	"slices": true, "bytes": true, "strings": true, "errors": true, "math/bits": true, "cmp": true, "iter": true, "maps": true, "unicode/utf8": true, "sort": true,
}

func loadProgram(dir string) (*Program, error) {
	p := &Program{fset: token.NewFileSet(), dir: dir, pkgs: map[string]*types.Package{}, files: map[string][]*ast.File{}, infos: map[string]*types.Info{}, ssaPkgs: map[string]*ssa.Package{}, ctx: build.Default}
	p.ctx.CgoEnabled = false
	p.ctx.GOARCH = "amd64"
	p.ctx.GOOS = "linux"
	roots := []string{}
	err := filepath.Walk(dir, func(path string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if !fi.IsDir() {
			return nil
		}
		base := filepath.Base(path)
		if path != dir && (strings.HasPrefix(base, ".") || strings.HasPrefix(base, "_") || base == "testdata" || base == "vendor" || base == "examples") {
			return filepath.SkipDir
		}
		rel, _ := filepath.Rel(dir, path)
		bp, err := p.ctx.ImportDir(path, 0)
		if err != nil || len(bp.GoFiles) == 0 || bp.Name == "main" {
			return nil
		}
		ip := repoPrefix
		if rel != "." {
			ip += "/" + filepath.ToSlash(rel)
		}
		roots = append(roots, ip)
		return nil
	})
	if err != nil {
		return nil, err
	}
	sort.Strings(roots)
	for _, r := range roots {
		if _, err := p.load(r); err != nil {
			return nil, err
		}
	}
	if len(p.errs) > 0 {
		return nil, fmt.Errorf("type errors: %v", p.errs[0])
	}
	p.ssa = ssa.NewProgram(p.fset, ssa.InstantiateGenerics)
	p.ssa.CreatePackage(types.Unsafe, nil, nil, true)
	for _, ip := range p.order {
		if ip == "unsafe" {
			continue
		}
		var fs []*ast.File
		var info *types.Info
		if p.isBody(ip) {
			fs = p.files[ip]
			info = p.infos[ip]
		}
		sp := p.ssa.CreatePackage(p.pkgs[ip], fs, info, true)
		p.ssaPkgs[ip] = sp
	}
	for _, ip := range p.order {
		if p.isBody(ip) {
			p.ssaPkgs[ip].Build()
		}
	}
	return p, nil
}

func (p *Program) isBody(ip string) bool {
	return ip == repoPrefix || strings.HasPrefix(ip, repoPrefix+"/") || inlineStd[ip]
}

func (p *Program) Import(path string) (*types.Package, error) { return p.load(path) }

func (p *Program) load(path string) (*types.Package, error) {
	if path == "unsafe" {
		return types.Unsafe, nil
	}
	if pk, ok := p.pkgs[path]; ok {
		if pk == nil {
			return nil, fmt.Errorf("import cycle via %s", path)
		}
		return pk, nil
	}
	p.pkgs[path] = nil
	var dir string
	repo := path == repoPrefix || strings.HasPrefix(path, repoPrefix+"/")
	if repo {
		dir = filepath.Join(p.dir, strings.TrimPrefix(strings.TrimPrefix(path, repoPrefix), "/"))
	} else {
		dir = filepath.Join(p.ctx.GOROOT, "src", path)
		if _, err := os.Stat(dir); err != nil {
			dir = filepath.Join(p.ctx.GOROOT, "src", "vendor", path)
		}
	}
	bp, err := p.ctx.ImportDir(dir, 0)
	if err != nil {
		return nil, fmt.Errorf("%s: %v", path, err)
	}
	var files []*ast.File
	for _, f := range bp.GoFiles {
		mode := parser.SkipObjectResolution
		if repo {
			mode |= parser.ParseComments
		}
		af, err := parser.ParseFile(p.fset, filepath.Join(dir, f), nil, mode)
		if err != nil {
			return nil, err
		}
		files = append(files, af)
	}
	body := p.isBody(path)
	info := &types.Info{}
	if body {
		info = &types.Info{
			Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{},
			Implicits: map[ast.Node]types.Object{}, Instances: map[*ast.Ident]types.Instance{}, Scopes: map[ast.Node]*types.Scope{},
			Selections: map[*ast.SelectorExpr]*types.Selection{}, FileVersions: map[*ast.File]string{},
		}
	}
	conf := types.Config{
		Importer: p, IgnoreFuncBodies: !body, FakeImportC: true,
		Sizes: types.SizesFor("gc", "amd64"),
		Error: func(err error) {
			if repo || body {
				p.errs = append(p.errs, err)
			}
		},
	}
	pk, err := conf.Check(path, p.fset, files, info)
	if err != nil && (repo || body) {
		return nil, err
	}
	p.pkgs[path] = pk
	p.files[path] = files
	p.infos[path] = info
	p.order = append(p.order, path)
	return pk, nil
}

func (p *Program) pos(ps token.Pos) string {
	if !ps.IsValid() {
		return "?"
	}
	q := p.fset.Position(ps)
	f := q.Filename
	if r, err := filepath.Rel(p.dir, f); err == nil && !strings.HasPrefix(r, "..") {
		f = r
	}
	return fmt.Sprintf("%s:%d", f, q.Line)
}

// fn returns the package-level function pkg.name ("" is the root package).
func (p *Program) fn(pkg, name string) *ssa.Function {
	ip := repoPrefix
	if pkg != "" {
		ip += "/" + pkg
	}
	sp := p.ssaPkgs[ip]
	if sp == nil {
		return nil
	}
	return sp.Func(name)
}

func (p *Program) namedType(pkg, name string) types.Type {
	ip := repoPrefix
	if pkg != "" {
		ip += "/" + pkg
	}
	pk := p.pkgs[ip]
	if pk == nil {
		return nil
	}
	o := pk.Scope().Lookup(name)
	if o == nil {
		return nil
	}
	return o.Type()
}

// method returns the method name of type T (or *T).
func (p *Program) method(pkg, typ, name string) *ssa.Function {
	t := p.namedType(pkg, typ)
	if t == nil {
		return nil
	}
	for _, tt := range []types.Type{types.NewPointer(t), t} {
		sel := p.ssa.MethodSets.MethodSet(tt).Lookup(p.pkgs[pkgPath(pkg)], name)
		if sel != nil {
			f := sel.Obj().(*types.Func)
			return p.ssa.FuncValue(f)
		}
	}
	return nil
}

func pkgPath(pkg string) string {
	if pkg == "" {
		return repoPrefix
	}
	return repoPrefix + "/" + pkg
}
