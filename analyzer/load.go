package main

// Loading: parse, type-check and build SSA for the project, offline, with stand-ins for absent modules.

import (
	"fmt"
	"go/ast"
	"go/build"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const modPath = "gitlab.com/alephledger/threshold-ecdsa"

type Program struct {
	fset   *token.FileSet
	repo   string
	verif  string
	goVer  string
	prog   *ssa.Program
	pkgs   map[string]*types.Package
	infos  map[string]*types.Info
	files  map[string][]*ast.File
	ssaPk  map[string]*ssa.Package
	errs   []string
	vers   map[string]string
	std    types.ImporterFrom
	order  []string // repo packages in dependency order
	state  *[]*ssa.Global
	allFns []*ssa.Function
	mods   map[modRec]bool // the moduli met (C22)
}

func readVersions(repo string) (map[string]string, string) {
	vers := map[string]string{}
	goVer := "1.19"
	data, err := os.ReadFile(filepath.Join(repo, "go.mod"))
	if err != nil {
		data, err = os.ReadFile("/opt/vp/gomod/go.mod")
	}
	if err == nil {
		for _, l := range strings.Split(string(data), "\n") {
			f := strings.Fields(strings.TrimPrefix(strings.TrimSpace(l), "require "))
			if len(f) >= 2 && strings.HasPrefix(f[1], "v") {
				vers[f[0]] = f[1]
			}
			if len(f) == 2 && f[0] == "go" {
				goVer = f[1]
			}
		}
	}
	return vers, goVer
}

func load(repo, verif string) (*Program, error) {
	build.Default.CgoEnabled = false
	p := &Program{fset: token.NewFileSet(), repo: repo, verif: verif, pkgs: map[string]*types.Package{},
		infos: map[string]*types.Info{}, files: map[string][]*ast.File{}, ssaPk: map[string]*ssa.Package{}}
	p.vers, p.goVer = readVersions(repo)
	p.std = importer.ForCompiler(p.fset, "source", nil).(types.ImporterFrom)
	var dirs []string
	err := filepath.Walk(repo, func(path string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if fi.IsDir() {
			b := fi.Name()
			if path != repo && (strings.HasPrefix(b, ".") || strings.HasPrefix(b, "_") || b == "testdata" || b == "vendor") {
				return filepath.SkipDir
			}
			return nil
		}
		if strings.HasSuffix(path, ".go") && !strings.HasSuffix(path, "_test.go") {
			d := filepath.Dir(path)
			if len(dirs) == 0 || dirs[len(dirs)-1] != d {
				dirs = append(dirs, d)
			}
		}
		return nil
	})
	if err != nil {
		return nil, err
	}
	sort.Strings(dirs)
	last := ""
	for _, d := range dirs {
		if d == last {
			continue
		}
		last = d
		rel, _ := filepath.Rel(repo, d)
		ip := modPath
		if rel != "." {
			ip += "/" + filepath.ToSlash(rel)
		}
		if _, err := p.Import(ip); err != nil {
			if _, ok := err.(*build.NoGoError); ok {
				continue
			}
			return nil, fmt.Errorf("cannot type-check %s: %v", ip, err)
		}
	}
	// SSA
	p.prog = ssa.NewProgram(p.fset, 0)
	done := map[*types.Package]bool{}
	var create func(tp *types.Package)
	create = func(tp *types.Package) {
		if done[tp] {
			return
		}
		done[tp] = true
		for _, im := range tp.Imports() {
			create(im)
		}
		path := tp.Path()
		if isRepo(path) && p.files[path] != nil {
			p.ssaPk[path] = p.prog.CreatePackage(tp, p.files[path], p.infos[path], true)
			p.order = append(p.order, path)
		} else if tp.Path() != "unsafe" {
			p.prog.CreatePackage(tp, nil, nil, true)
		}
	}
	var paths []string
	for k := range p.pkgs {
		paths = append(paths, k)
	}
	sort.Strings(paths)
	for _, k := range paths {
		if isRepo(k) {
			create(p.pkgs[k])
		}
	}
	for _, path := range p.order {
		p.ssaPk[path].Build()
	}
	p.allFns = p.sourceFuncs()
	return p, nil
}

func isRepo(path string) bool { return path == modPath || strings.HasPrefix(path, modPath+"/") }

func (p *Program) dirOf(path string) (string, bool) {
	if isRepo(path) {
		return filepath.Join(p.repo, strings.TrimPrefix(strings.TrimPrefix(path, modPath), "/")), true
	}
	stubs := map[string]string{
		"gitlab.com/alephledger/core-go":   "core-go",
		"github.com/binance-chain/tss-lib": "tss-lib",
		"github.com/rs/zerolog":            "zerolog",
	}
	for m, d := range stubs {
		if path == m || strings.HasPrefix(path, m+"/") {
			return filepath.Join(p.verif, "stubs", d, strings.TrimPrefix(path, m)), true
		}
	}
	best := ""
	for m := range p.vers {
		if (path == m || strings.HasPrefix(path, m+"/")) && len(m) > len(best) {
			best = m
		}
	}
	if best != "" {
		cache := os.Getenv("GOMODCACHE")
		if cache == "" {
			gp := os.Getenv("GOPATH")
			if gp == "" {
				gp = filepath.Join(os.Getenv("HOME"), "go")
			}
			cache = filepath.Join(gp, "pkg", "mod")
			if _, err := os.Stat(cache); err != nil {
				cache = "/root/go/pkg/mod"
			}
		}
		var sb strings.Builder
		for _, r := range best {
			if r >= 'A' && r <= 'Z' {
				sb.WriteByte('!')
				r += 32
			}
			sb.WriteRune(r)
		}
		return filepath.Join(cache, sb.String()+"@"+p.vers[best], strings.TrimPrefix(path, best)), true
	}
	return "", false
}

func (p *Program) Import(path string) (*types.Package, error) { return p.ImportFrom(path, "", 0) }

func (p *Program) ImportFrom(path, dir string, mode types.ImportMode) (*types.Package, error) {
	if path == "unsafe" {
		return types.Unsafe, nil
	}
	if pk, ok := p.pkgs[path]; ok {
		if pk == nil {
			return nil, fmt.Errorf("import cycle through %s", path)
		}
		return pk, nil
	}
	d, ours := p.dirOf(path)
	if !ours {
		pk, err := p.std.ImportFrom(path, dir, 0)
		if err == nil {
			p.pkgs[path] = pk
		}
		return pk, err
	}
	p.pkgs[path] = nil
	ctx := build.Default
	ctx.CgoEnabled = !isRepo(path)
	bp, err := ctx.ImportDir(d, 0)
	if err != nil {
		delete(p.pkgs, path)
		return nil, err
	}
	var files []*ast.File
	names := append(append([]string{}, bp.GoFiles...), bp.CgoFiles...)
	if len(bp.CgoFiles) > 0 {
		sort.Strings(names)
	}
	repo := isRepo(path)
	pm := parser.SkipObjectResolution
	if repo {
		pm |= parser.ParseComments
	}
	for _, f := range names {
		af, err := parser.ParseFile(p.fset, filepath.Join(d, f), nil, pm)
		if err != nil {
			return nil, err
		}
		files = append(files, af)
	}
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{},
		Implicits: map[ast.Node]types.Object{}, Scopes: map[ast.Node]*types.Scope{}, Selections: map[*ast.SelectorExpr]*types.Selection{},
		Instances: map[*ast.Ident]types.Instance{}, FileVersions: map[*ast.File]string{}}
	var firstErr error
	conf := types.Config{Importer: p, FakeImportC: true, IgnoreFuncBodies: !repo, Sizes: types.SizesFor("gc", "amd64"),
		Error: func(err error) {
			if firstErr == nil {
				firstErr = err
			}
		}}
	if repo {
		conf.GoVersion = "go" + p.goVer
	}
	pk, err := conf.Check(path, p.fset, files, info)
	if repo && firstErr != nil {
		return nil, firstErr
	}
	if pk == nil {
		return nil, err
	}
	p.pkgs[path] = pk
	if repo {
		p.infos[path] = info
		p.files[path] = files
	}
	return pk, nil
}

// sourceFuncs returns every function of the project with a body, closures included, in source order.
func (p *Program) sourceFuncs() []*ssa.Function {
	var out []*ssa.Function
	seen := map[*ssa.Function]bool{}
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil || seen[f] || len(f.Blocks) == 0 {
			return
		}
		seen[f] = true
		out = append(out, f)
		for _, a := range f.AnonFuncs {
			add(a)
		}
	}
	for _, path := range p.order {
		sp := p.ssaPk[path]
		for _, m := range sp.Members {
			switch m := m.(type) {
			case *ssa.Function:
				add(m)
			case *ssa.Type:
				for _, t := range []types.Type{m.Type(), types.NewPointer(m.Type())} {
					ms := p.prog.MethodSets.MethodSet(t)
					for i := 0; i < ms.Len(); i++ {
						f := p.prog.MethodValue(ms.At(i))
						if f != nil && f.Pkg == sp && f.Synthetic == "" {
							add(f)
						}
					}
				}
			}
		}
	}
	sort.SliceStable(out, func(i, j int) bool {
		a, b := p.fset.Position(out[i].Pos()), p.fset.Position(out[j].Pos())
		if a.Filename != b.Filename {
			return a.Filename < b.Filename
		}
		return a.Offset < b.Offset
	})
	return out
}

func (p *Program) pos(pos token.Pos) string {
	q := p.fset.Position(pos)
	if !q.IsValid() {
		return "?"
	}
	rel, err := filepath.Rel(p.repo, q.Filename)
	if err != nil || strings.HasPrefix(rel, "..") {
		rel = q.Filename
	}
	return fmt.Sprintf("%s:%d", rel, q.Line)
}

// fn finds a package-level function or nil.
func (p *Program) fn(pkg, name string) *ssa.Function {
	sp := p.ssaPk[modPath+"/"+pkg]
	if sp == nil {
		return nil
	}
	return sp.Func(name)
}

// named finds a named type.
func (p *Program) named(pkg, name string) *types.Named {
	tp := p.pkgs[modPath+"/"+pkg]
	if tp == nil {
		return nil
	}
	o := tp.Scope().Lookup(name)
	if o == nil {
		return nil
	}
	n, _ := o.Type().(*types.Named)
	return n
}

// method finds the method name on T or *T.
func (p *Program) method(t types.Type, name string) *ssa.Function {
	for _, tt := range []types.Type{t, types.NewPointer(t)} {
		ms := p.prog.MethodSets.MethodSet(tt)
		for i := 0; i < ms.Len(); i++ {
			if ms.At(i).Obj().Name() == name {
				return p.prog.MethodValue(ms.At(i))
			}
		}
	}
	return nil
}
