package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

type listPkg struct {
	ImportPath string
	Dir        string
	GoFiles    []string
	Imports    []string
	ImportMap  map[string]string
	Standard   bool
	Module     *struct {
		Path      string
		GoVersion string
	}
	Error *struct {
		Err string
	}
	DepsErrors []struct{ Err string }
}

type Program struct {
	fset    *token.FileSet
	prog    *ssa.Program
	pkgs    map[string]*ssa.Package
	tpkgs   map[string]*types.Package
	order   []*listPkg
	errs    map[string]string // packages that failed to type-check
	overlay map[string]string
}

const repoModule = "github.com/tg123/phabrik"

func isRepoPath(p string) bool {
	return p == repoModule || strings.HasPrefix(p, repoModule+"/")
}

func goEnv() []string {
	env := os.Environ()
	env = append(env, "CGO_ENABLED=0", "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off", "GO111MODULE=on")
	return env
}

// Load lists, parses and type-checks the packages with the overlay applied.
func Load(repo string, overlayFile string, overlay map[string]string, roots []string) (*Program, error) {
	args := []string{"list", "-e", "-deps", "-json=ImportPath,Dir,GoFiles,Imports,ImportMap,Standard,Module,Error,DepsErrors", "-tags=purego,math_big_pure_go,verifsym", "-overlay", overlayFile}
	args = append(args, roots...)
	cmd := exec.Command("go", args...)
	cmd.Dir = repo
	cmd.Env = goEnv()
	var eb bytes.Buffer
	cmd.Stderr = &eb
	out, err := cmd.Output()
	if err != nil {
		return nil, fmt.Errorf("go list: %v\n%s", err, eb.String())
	}
	p := &Program{fset: token.NewFileSet(), pkgs: map[string]*ssa.Package{}, tpkgs: map[string]*types.Package{}, errs: map[string]string{}, overlay: overlay}
	dec := json.NewDecoder(bytes.NewReader(out))
	for {
		var lp listPkg
		if err := dec.Decode(&lp); err == io.EOF {
			break
		} else if err != nil {
			return nil, err
		}
		p.order = append(p.order, &lp)
	}
	p.prog = ssa.NewProgram(p.fset, ssa.InstantiateGenerics)
	type res struct {
		files []*ast.File
		pkg   *types.Package
		info  *types.Info
		err   error
	}
	done := map[string]chan struct{}{}
	results := map[string]*res{}
	for _, lp := range p.order {
		done[lp.ImportPath] = make(chan struct{})
		results[lp.ImportPath] = &res{}
	}
	sizes := types.SizesFor("gc", "amd64")
	var wg sync.WaitGroup
	sem := make(chan struct{}, 8)
	for _, lp := range p.order {
		wg.Add(1)
		go func(lp *listPkg) {
			defer wg.Done()
			r := results[lp.ImportPath]
			defer close(done[lp.ImportPath])
			if lp.ImportPath == "unsafe" {
				r.pkg = types.Unsafe
				return
			}
			for _, im := range lp.Imports {
				if c, ok := done[im]; ok {
					<-c
				}
			}
			sem <- struct{}{}
			defer func() { <-sem }()
			if lp.Error != nil && len(lp.GoFiles) == 0 {
				r.err = fmt.Errorf("%s", lp.Error.Err)
				return
			}
			for _, gf := range lp.GoFiles {
				path := gf
				if !filepath.IsAbs(path) {
					path = filepath.Join(lp.Dir, gf)
				}
				var src any
				if o, ok := overlay[path]; ok {
					b, err := os.ReadFile(o)
					if err != nil {
						r.err = err
						return
					}
					src = b
				}
				f, err := parser.ParseFile(p.fset, path, src, parser.SkipObjectResolution)
				if err != nil {
					r.err = err
					return
				}
				r.files = append(r.files, f)
			}
			info := &types.Info{
				Types:        map[ast.Expr]types.TypeAndValue{},
				Defs:         map[*ast.Ident]types.Object{},
				Uses:         map[*ast.Ident]types.Object{},
				Implicits:    map[ast.Node]types.Object{},
				Instances:    map[*ast.Ident]types.Instance{},
				Scopes:       map[ast.Node]*types.Scope{},
				Selections:   map[*ast.SelectorExpr]*types.Selection{},
				FileVersions: map[*ast.File]string{},
			}
			var firstErr error
			conf := types.Config{
				Sizes: sizes,
				Importer: importerFunc(func(path string) (*types.Package, error) {
					if m, ok := lp.ImportMap[path]; ok {
						path = m
					}
					if path == "unsafe" {
						return types.Unsafe, nil
					}
					ir := results[path]
					if ir == nil || ir.pkg == nil {
						return nil, fmt.Errorf("package %s not available", path)
					}
					return ir.pkg, nil
				}),
				Error: func(err error) {
					if firstErr == nil {
						firstErr = err
					}
				},
			}
			if lp.Module != nil && lp.Module.GoVersion != "" {
				conf.GoVersion = "go" + lp.Module.GoVersion
			}
			pkg, _ := conf.Check(lp.ImportPath, p.fset, r.files, info)
			r.pkg = pkg
			r.info = info
			r.err = firstErr
		}(lp)
	}
	wg.Wait()
	for _, lp := range p.order {
		r := results[lp.ImportPath]
		if lp.ImportPath == "unsafe" {
			p.prog.CreatePackage(types.Unsafe, nil, nil, true)
			continue
		}
		if r.err != nil {
			p.errs[lp.ImportPath] = r.err.Error()
			continue
		}
		bad := ""
		for _, im := range lp.Imports {
			if m, ok := lp.ImportMap[im]; ok {
				im = m
			}
			if e, ok := p.errs[im]; ok {
				bad = "import " + im + ": " + e
			}
		}
		if bad != "" {
			p.errs[lp.ImportPath] = bad
			continue
		}
		p.tpkgs[lp.ImportPath] = r.pkg
		p.pkgs[lp.ImportPath] = p.prog.CreatePackage(r.pkg, r.files, r.info, true)
	}
	return p, nil
}

type importerFunc func(string) (*types.Package, error)

func (f importerFunc) Import(path string) (*types.Package, error) { return f(path) }

// writeOverlay writes the overlay description for the go command.
func writeOverlay(file string, m map[string]string) error {
	b, err := json.MarshalIndent(map[string]any{"Replace": m}, "", " ")
	if err != nil {
		return err
	}
	return os.WriteFile(file, b, 0o644)
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
