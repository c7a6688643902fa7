// Command instr copies the packages of bgokden/veri (and the two cache
// libraries whose goroutines, clocks and locks the properties depend on) from
// a working tree into a build directory, rewriting every source of
// nondeterminism -- goroutines, channels, select, map iteration, locks,
// clocks, files, network, randomness, signals, package level state -- to calls
// into the deterministic simulator (package verisim/simrt and friends).
//
// It works on type-checked syntax, so it follows the code whatever its shape:
// nothing below names a function, field or statement of the repository.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/build"
	"go/format"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
)

var (
	repo    = flag.String("repo", "/repo", "working tree to instrument")
	out     = flag.String("out", "", "output directory (module root of the simulation build)")
	repoMod = ""
)

const instPrefix = "verisim/inst/"

type listPkg struct {
	ImportPath string
	Dir        string
	GoFiles    []string
	CgoFiles   []string
	Export     string
	Imports    []string
	ImportMap  map[string]string
	Standard   bool
	Module     *struct {
		Path string
		Main bool
		Dir  string
	}
	Error      *struct{ Err string }
	DepsErrors []*struct{ Err string }
}

type pkgKind int

const (
	kindRepo pkgKind = iota // full instrumentation incl. statement level yields
	kindPB                  // import substitution only
	kindLib                 // seams but no statement level yields
)

type srcPkg struct {
	lp      *listPkg
	kind    pkgKind
	newPath string
	files   []*ast.File
	names   []string
	info    *types.Info
	tpkg    *types.Package
}

func die(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "instr: "+f+"\n", a...)
	os.Exit(2)
}

var fset = token.NewFileSet()
var pkgs = map[string]*listPkg{}
var insts = map[string]*srcPkg{}
var order []*srcPkg

func main() {
	flag.Parse()
	_ = build.Default
	cmd := exec.Command("go", "list", "-export", "-deps", "-json=ImportPath,Dir,GoFiles,CgoFiles,Export,Imports,ImportMap,Standard,Module,Error,DepsErrors", "./server", "./data", "./node", "./util")
	cmd.Dir = *repo
	var stderr bytes.Buffer
	cmd.Stderr = &stderr
	b, err := cmd.Output()
	if err != nil {
		die("go list in %s: %v\n%s", *repo, err, stderr.String())
	}
	dec := json.NewDecoder(bytes.NewReader(b))
	var all []*listPkg
	for {
		var p listPkg
		if err := dec.Decode(&p); err == io.EOF {
			break
		} else if err != nil {
			die("go list output: %v", err)
		}
		pp := p
		pkgs[p.ImportPath] = &pp
		all = append(all, &pp)
		if p.Module != nil && p.Module.Main {
			repoMod = p.Module.Path
		}
	}
	for _, p := range all { // dependency order
		if !selected(p) {
			continue
		}
		sp := &srcPkg{lp: p}
		switch {
		case p.Module.Main && isPB(p):
			sp.kind = kindPB
		case p.Module.Main:
			sp.kind = kindRepo
		default:
			sp.kind = kindLib
		}
		sp.newPath = instPrefix + strings.TrimPrefix(strings.TrimPrefix(p.ImportPath, repoMod+"/"), "github.com/")
		insts[p.ImportPath] = sp
		order = append(order, sp)
	}
	imp := &mixImporter{gc: importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		p := pkgs[path]
		if p == nil || p.Export == "" {
			return nil, fmt.Errorf("no export data for %q", path)
		}
		return os.Open(p.Export)
	})}
	for _, sp := range order {
		load(sp, imp)
	}
	for _, sp := range order {
		rewrite(sp)
	}
	// site table
	var sb bytes.Buffer
	for i, s := range sites {
		fmt.Fprintf(&sb, "%d %s\n", i, s)
	}
	must(os.WriteFile(filepath.Join(*out, "sites.txt"), sb.Bytes(), 0644))
	var ib bytes.Buffer
	ib.WriteString("package simrt\n\nvar SiteNames = []string{\n")
	for _, s := range sites {
		fmt.Fprintf(&ib, "\t%q,\n", s)
	}
	ib.WriteString("}\n")
	must(os.WriteFile(filepath.Join(*out, "simrt", "zz_sites.go"), ib.Bytes(), 0644))
}

func must(err error) {
	if err != nil {
		die("%v", err)
	}
}

// selected: every package of the repository's module except those with cgo
// (the annoy binding, wrapped by a shim) plus the two cache libraries.
func selected(p *listPkg) bool {
	if p.Module == nil || p.Standard {
		return false
	}
	if p.Module.Main {
		return len(p.CgoFiles) == 0 && !importsC(p) && !strings.HasSuffix(p.ImportPath, "/annoyindex")
	}
	return p.Module.Path == "github.com/bgokden/go-cache" || p.Module.Path == "github.com/goburrow/cache"
}

func importsC(p *listPkg) bool {
	for _, i := range p.Imports {
		if i == "C" {
			return true
		}
	}
	return false
}

func isPB(p *listPkg) bool {
	for _, f := range p.GoFiles {
		if strings.HasSuffix(f, ".pb.go") {
			return true
		}
	}
	return false
}

type mixImporter struct{ gc types.Importer }

func (m *mixImporter) Import(path string) (*types.Package, error) {
	if sp, ok := insts[path]; ok && sp.tpkg != nil {
		return sp.tpkg, nil
	}
	if path == "unsafe" {
		return types.Unsafe, nil
	}
	return m.gc.Import(path)
}

func load(sp *srcPkg, imp types.Importer) {
	for _, f := range sp.lp.GoFiles {
		full := filepath.Join(sp.lp.Dir, f)
		af, err := parser.ParseFile(fset, full, nil, parser.SkipObjectResolution)
		if err != nil {
			die("parse: %v", err)
		}
		sp.files = append(sp.files, af)
		sp.names = append(sp.names, f)
	}
	sp.info = &types.Info{
		Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{},
		Defs: map[*ast.Ident]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{},
		Implicits: map[ast.Node]types.Object{}, Scopes: map[ast.Node]*types.Scope{},
	}
	conf := types.Config{Importer: imp, Error: func(err error) {}}
	tp, err := conf.Check(sp.lp.ImportPath, fset, sp.files, sp.info)
	if err != nil {
		die("type check %s: %v", sp.lp.ImportPath, err)
	}
	sp.tpkg = tp
}

func write(sp *srcPkg, name string, f *ast.File) {
	dir := filepath.Join(*out, strings.TrimPrefix(sp.newPath, "verisim/"))
	must(os.MkdirAll(dir, 0755))
	var buf bytes.Buffer
	buf.WriteString("// Code generated by instr from " + sp.lp.ImportPath + "/" + name + "; DO NOT EDIT.\n\n")
	if err := format.Node(&buf, token.NewFileSet(), f); err != nil {
		die("format %s/%s: %v", sp.lp.ImportPath, name, err)
	}
	must(os.WriteFile(filepath.Join(dir, name), buf.Bytes(), 0644))
}

var sites []string

func sortedKeys(m map[string]bool) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}
