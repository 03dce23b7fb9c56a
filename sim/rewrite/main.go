// Command rewrite makes the instrumented copy of the module under test: every
// source of nondeterminism (goroutines, channels, locks, time, timers,
// network, randomness, map order, package variables of a process) is redirected
// to package simrt, and a preemption point is placed before every statement.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/printer"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

type pkgInfo struct {
	ImportPath string
	Dir        string
	Export     string
	GoFiles    []string
	CgoFiles   []string
	Imports    []string
	Standard   bool
	Module     *struct {
		Path      string
		Dir       string
		GoVersion string
		Main      bool
	}
}

const simPath = "verifsim/simrt"

func die(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "rewrite: "+f+"\n", a...)
	os.Exit(3)
}

func main() {
	repo := flag.String("repo", "/repo", "module under test")
	out := flag.String("out", "", "output directory")
	flag.Parse()
	cmd := exec.Command("go", "list", "-export", "-deps", "-json=ImportPath,Dir,Export,GoFiles,CgoFiles,Imports,Standard,Module", ".")
	cmd.Dir = *repo
	cmd.Stderr = os.Stderr
	b, err := cmd.Output()
	if err != nil {
		die("go list: %v", err)
	}
	exports := map[string]string{}
	var pkgs []*pkgInfo
	dec := json.NewDecoder(bytes.NewReader(b))
	for {
		var p pkgInfo
		if err := dec.Decode(&p); err == io.EOF {
			break
		} else if err != nil {
			die("go list output: %v", err)
		}
		exports[p.ImportPath] = p.Export
		pkgs = append(pkgs, &p)
	}
	root := pkgs[len(pkgs)-1]
	mod := root.Module.Path
	fset := token.NewFileSet()
	imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		f := exports[path]
		if f == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(f)
	})
	if err := os.MkdirAll(*out, 0o755); err != nil {
		die("%v", err)
	}
	for _, f := range []string{"go.mod", "go.sum"} {
		if b, err := os.ReadFile(filepath.Join(*repo, f)); err == nil {
			write(filepath.Join(*out, f), b)
		}
	}
	for _, p := range pkgs {
		if p.Standard || p.Module == nil || p.Module.Path != mod {
			continue
		}
		rel := strings.TrimPrefix(strings.TrimPrefix(p.ImportPath, mod), "/")
		dst := filepath.Join(*out, rel)
		if err := os.MkdirAll(dst, 0o755); err != nil {
			die("%v", err)
		}
		if rel == "teolog" || rel == "term" {
			for _, f := range append(p.GoFiles, p.CgoFiles...) {
				b, err := os.ReadFile(filepath.Join(p.Dir, f))
				if err != nil {
					die("%v", err)
				}
				write(filepath.Join(dst, f), b)
			}
			continue
		}
		rewritePkg(fset, imp, p, mod, dst)
	}
}

func write(path string, b []byte) {
	if err := os.WriteFile(path, b, 0o644); err != nil {
		die("%v", err)
	}
}

type rw struct {
	fset  *token.FileSet
	info  *types.Info
	pkg   *types.Package
	mod   string
	n     int
	old   bool // loop variables shared by all iterations (go < 1.22)
	inits []string
	fname map[string]bool
}

func rewritePkg(fset *token.FileSet, imp types.Importer, p *pkgInfo, mod, dst string) {
	var files []*ast.File
	for _, f := range p.GoFiles {
		a, err := parser.ParseFile(fset, filepath.Join(p.Dir, f), nil, parser.SkipObjectResolution)
		if err != nil {
			die("%v", err)
		}
		files = append(files, a)
	}
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{},
		Defs: map[*ast.Ident]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{}}
	gv := "go" + p.Module.GoVersion
	conf := types.Config{Importer: imp, GoVersion: gv}
	tp, err := conf.Check(p.ImportPath, fset, files, info)
	if err != nil {
		die("type check: %v", err)
	}
	r := &rw{fset: fset, info: info, pkg: tp, mod: mod, old: goMinor(gv) < 22}

	// where is which initializer
	fileOf := map[token.Pos]*ast.File{}
	_ = fileOf
	ownFile := func(pos token.Pos) *ast.File {
		for _, f := range files {
			if f.FileStart <= pos && pos < f.FileEnd {
				return f
			}
		}
		return nil
	}
	type initFn struct {
		file *ast.File
		decl *ast.FuncDecl
	}
	var add []initFn
	var order []string
	var sharedVars = map[string]bool{}
	for i, in := range info.InitOrder {
		flagUse := false
		ast.Inspect(in.Rhs, func(n ast.Node) bool {
			if s, ok := n.(*ast.SelectorExpr); ok && r.pkgOf(s) == "flag" {
				flagUse = true
			}
			return true
		})
		if flagUse {
			for _, v := range in.Lhs {
				sharedVars[v.Name()] = true
			}
			continue
		}
		var lhs []ast.Expr
		blank := true
		for _, v := range in.Lhs {
			if v.Name() != "_" {
				blank = false
			}
			lhs = append(lhs, ast.NewIdent(v.Name()))
		}
		if blank {
			continue
		}
		name := fmt.Sprintf("simInit_%d", i)
		order = append(order, name)
		fd := &ast.FuncDecl{Name: ast.NewIdent(name), Type: &ast.FuncType{Params: &ast.FieldList{}},
			Body: &ast.BlockStmt{List: []ast.Stmt{&ast.AssignStmt{Lhs: lhs, Tok: token.ASSIGN, Rhs: []ast.Expr{in.Rhs}}}}}
		add = append(add, initFn{ownFile(in.Rhs.Pos()), fd})
	}
	var vars []string
	for _, f := range files {
		for _, d := range f.Decls {
			switch d := d.(type) {
			case *ast.GenDecl:
				if d.Tok != token.VAR {
					continue
				}
				for _, s := range d.Specs {
					for _, id := range s.(*ast.ValueSpec).Names {
						if id.Name != "_" {
							vars = append(vars, id.Name)
						}
					}
				}
			case *ast.FuncDecl:
				if d.Recv == nil && d.Name.Name == "init" {
					n := fmt.Sprintf("simUserInit_%d", len(r.inits))
					d.Name = ast.NewIdent(n)
					r.inits = append(r.inits, n)
				}
			}
		}
	}
	for _, f := range files {
		r.file(f)
	}
	for _, a := range add {
		// rewritten in place: the printed expression is that of the declaration
		rhs := &a.decl.Body.List[0].(*ast.AssignStmt).Rhs[0]
		*rhs = r.rewritten(*rhs)
		a.file.Decls = append(a.file.Decls, a.decl)
	}
	for i, f := range files {
		f.Comments = nil
		r.fixImports(f)
		var buf bytes.Buffer
		cfg := printer.Config{Mode: printer.UseSpaces | printer.TabIndent, Tabwidth: 8}
		stripPos(f)
		if err := cfg.Fprint(&buf, token.NewFileSet(), f); err != nil {
			die("print: %v", err)
		}
		write(filepath.Join(dst, p.GoFiles[i]), buf.Bytes())
	}
	// generated part
	var g bytes.Buffer
	fmt.Fprintf(&g, "package %s\n\nimport simrt %q\n\nfunc init() {\n", tp.Name(), simPath)
	for _, v := range vars {
		if !sharedVars[v] {
			fmt.Fprintf(&g, "\tsimrt.RegGlobal(%q, &%s)\n", p.ImportPath+"."+v, v)
		}
	}
	fmt.Fprintf(&g, "\tsimrt.RegInit(simInit)\n")
	for _, n := range r.inits {
		fmt.Fprintf(&g, "\t%s()\n", n)
	}
	fmt.Fprintf(&g, "}\n\nfunc simInit() {\n")
	for _, v := range vars {
		if !sharedVars[v] {
			fmt.Fprintf(&g, "\tsimrt.Zero(&%s)\n", v)
		}
	}
	for _, n := range append(order, r.inits...) {
		fmt.Fprintf(&g, "\t%s()\n", n)
	}
	fmt.Fprintf(&g, "}\n\nfunc simMapKeys[M ~map[K]V, K comparable, V any](m M) []K {\n\tks := make([]K, 0, len(m))\n\tfor k := range m {\n\t\tks = append(ks, k)\n\t}\n\treturn simrt.OrderKeys(ks)\n}\n\nvar _ = simMapKeys[map[int]int, int, int]\n")
	write(filepath.Join(dst, "zz_sim_generated.go"), g.Bytes())
}

func goMinor(v string) int {
	p := strings.Split(strings.TrimPrefix(v, "go"), ".")
	if len(p) < 2 {
		return 0
	}
	n, _ := strconv.Atoi(p[1])
	return n
}

// pkgOf returns the import path if s is package.Name.
func (r *rw) pkgOf(s *ast.SelectorExpr) string {
	if id, ok := s.X.(*ast.Ident); ok {
		if pn, ok := r.info.Uses[id].(*types.PkgName); ok {
			return pn.Imported().Path()
		}
	}
	return ""
}

func (r *rw) fixImports(f *ast.File) {
	used := map[string]bool{}
	for _, d := range f.Decls {
		if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.IMPORT {
			continue
		}
		ast.Inspect(d, func(n ast.Node) bool {
			if s, ok := n.(*ast.SelectorExpr); ok {
				if id, ok := s.X.(*ast.Ident); ok {
					used[id.Name] = true
				}
			}
			return true
		})
	}
	for _, is := range f.Imports {
		name := ""
		if is.Name != nil {
			name = is.Name.Name
		} else {
			path, _ := strconv.Unquote(is.Path.Value)
			name = r.impName(path)
		}
		if name == "_" || name == "." {
			continue
		}
		if !used[name] {
			is.Name = ast.NewIdent("_")
		}
	}
	spec := &ast.ImportSpec{Name: ast.NewIdent("simrt"), Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(simPath)}}
	if !used["simrt"] {
		spec.Name = ast.NewIdent("_")
	}
	f.Decls = append([]ast.Decl{&ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{spec}}}, f.Decls...)
}

func (r *rw) impName(path string) string {
	for _, p := range r.pkg.Imports() {
		if p.Path() == path {
			return p.Name()
		}
	}
	return filepath.Base(path)
}

func (r *rw) sortedKeys(m map[string]bool) []string {
	var o []string
	for k := range m {
		o = append(o, k)
	}
	sort.Strings(o)
	return o
}
