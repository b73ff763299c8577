// Command instr rewrites Go packages so that they run on verif/vsched: see
// /verif/DESIGN.md. Packages are given as importpath=dir=mode where mode is
// repo (synchronisation and memory accesses are instrumented), harness
// (synchronisation only) or plain (type-checked, not written).
package main

import (
	"bytes"
	"flag"
	"fmt"
	"go/ast"
	"go/build"
	"go/importer"
	"go/parser"
	"go/printer"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
)

type pkgSpec struct {
	path, dir, mode string
	files           []*ast.File
	names           []string
	imports         map[string]bool
	tpkg            *types.Package
	info            *types.Info
	state           int
}

var (
	fset    = token.NewFileSet()
	specs   = map[string]*pkgSpec{}
	exports = map[string]string{}
	stdImp  types.Importer
	bctx    = build.Default
	shims   = map[string]map[string]bool{}
)

// shimPkgs maps a replaced package to its replacement.
var shimPkgs = map[string]string{
	"sync":        "verif/vsched/vsync",
	"sync/atomic": "verif/vsched/vatomic",
	"time":        "verif/vsched/vtime",
	"context":     "verif/vsched/vctx",
	"os":          "verif/vsched/vos",
	"io/ioutil":   "verif/vsched/vioutil",
	"runtime":     "verif/vsched/vruntime",
	"maps":        "verif/vsched/vmaps",
}

func fatal(format string, a ...any) {
	fmt.Fprintf(os.Stderr, "instr: "+format+"\n", a...)
	os.Exit(3)
}

func main() {
	out := flag.String("out", "", "output GOPATH/src")
	repo := flag.String("repo", "", "repository root, mounted at -repopath")
	repopath := flag.String("repopath", "", "import path of the repository")
	shimroot := flag.String("shims", "", "directory of verif/vsched")
	flag.Parse()
	bctx.CgoEnabled = false
	for _, a := range flag.Args() {
		f := strings.SplitN(a, "=", 3)
		if len(f) != 3 {
			fatal("bad package spec %q", a)
		}
		specs[f[0]] = &pkgSpec{path: f[0], dir: f[1], mode: f[2]}
	}
	for _, sp := range shimPkgs {
		loadShim(sp, filepath.Join(*shimroot, strings.TrimPrefix(sp, "verif/vsched/")))
	}
	var order []*pkgSpec
	std := map[string]bool{}
	var load func(p *pkgSpec)
	resolve := func(from *pkgSpec, imp string) *pkgSpec {
		if s := specs[imp]; s != nil {
			return s
		}
		if *repo != "" {
			if imp == *repopath || strings.HasPrefix(imp, *repopath+"/") {
				s := &pkgSpec{path: imp, dir: filepath.Join(*repo, strings.TrimPrefix(imp, *repopath)), mode: "repo"}
				specs[imp] = s
				return s
			}
			if v := filepath.Join(*repo, "vendor", imp); isDir(v) {
				p := *repopath + "/vendor/" + imp
				if specs[p] == nil {
					specs[p] = &pkgSpec{path: p, dir: v, mode: "repo"}
				}
				return specs[p]
			}
		}
		if strings.HasPrefix(imp, "verif/") {
			s := &pkgSpec{path: imp, dir: filepath.Join(filepath.Dir(*shimroot), strings.TrimPrefix(imp, "verif/")), mode: "plain"}
			specs[imp] = s
			return s
		}
		return nil
	}
	load = func(p *pkgSpec) {
		if p.state == 2 {
			return
		}
		if p.state == 1 {
			fatal("import cycle at %s", p.path)
		}
		p.state = 1
		bp, err := bctx.ImportDir(p.dir, 0)
		if err != nil {
			fatal("%s: %v", p.path, err)
		}
		p.imports = map[string]bool{}
		for _, n := range bp.GoFiles {
			f, err := parser.ParseFile(fset, filepath.Join(p.dir, n), nil, parser.SkipObjectResolution)
			if err != nil {
				fatal("%v", err)
			}
			p.files = append(p.files, f)
			p.names = append(p.names, n)
		}
		for _, imp := range bp.Imports {
			if s := resolve(p, imp); s != nil {
				load(s)
			} else if imp != "unsafe" {
				std[imp] = true
			}
		}
		p.state = 2
		order = append(order, p)
	}
	var roots []string
	for k := range specs {
		roots = append(roots, k)
	}
	sort.Strings(roots)
	for _, k := range roots {
		load(specs[k])
	}
	loadExports(std)
	stdImp = importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		e := exports[path]
		if e == "" {
			return nil, fmt.Errorf("no export data for %q", path)
		}
		return os.Open(e)
	})
	for _, p := range order {
		p.info = &types.Info{
			Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{},
			Defs: map[*ast.Ident]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{},
			Implicits: map[ast.Node]types.Object{}, Instances: map[*ast.Ident]types.Instance{},
		}
		var firstErr error
		conf := types.Config{
			Importer: impFunc(func(path string) (*types.Package, error) {
				if path == "unsafe" {
					return types.Unsafe, nil
				}
				if s := resolve(p, path); s != nil {
					return s.tpkg, nil
				}
				return stdImp.Import(path)
			}),
			Error: func(err error) {
				if firstErr == nil {
					firstErr = err
				}
			},
			Sizes: types.SizesFor("gc", bctx.GOARCH),
		}
		tp, err := conf.Check(p.path, fset, p.files, p.info)
		if err != nil {
			fatal("type checking %s: %v", p.path, firstErr)
		}
		p.tpkg = tp
	}
	for _, p := range order {
		if p.mode == "plain" {
			continue
		}
		dir := filepath.Join(*out, p.path)
		if err := os.MkdirAll(dir, 0o755); err != nil {
			fatal("%v", err)
		}
		for i, f := range p.files {
			w := &rw{p: p, f: f, race: p.mode == "repo"}
			w.file()
			src := render(f, true)
			if _, err := parser.ParseFile(token.NewFileSet(), "x.go", src, 0); err != nil {
				src = render(f, false)
			}
			if err := os.WriteFile(filepath.Join(dir, p.names[i]), src, 0o644); err != nil {
				fatal("%v", err)
			}
		}
	}
}

func render(f *ast.File, pos bool) []byte {
	var b bytes.Buffer
	mode := printer.TabIndent | printer.UseSpaces
	if pos {
		mode |= printer.SourcePos
	}
	f.Comments = nil
	if err := (&printer.Config{Mode: mode, Tabwidth: 8}).Fprint(&b, fset, f); err != nil {
		fatal("printing: %v", err)
	}
	return b.Bytes()
}

func isDir(p string) bool {
	st, err := os.Stat(p)
	return err == nil && st.IsDir()
}

type impFunc func(string) (*types.Package, error)

func (f impFunc) Import(p string) (*types.Package, error) { return f(p) }

func loadShim(path, dir string) {
	names := map[string]bool{}
	bp, err := bctx.ImportDir(dir, 0)
	if err != nil {
		fatal("shim %s: %v", path, err)
	}
	for _, n := range bp.GoFiles {
		f, err := parser.ParseFile(token.NewFileSet(), filepath.Join(dir, n), nil, 0)
		if err != nil {
			fatal("%v", err)
		}
		for _, d := range f.Decls {
			switch d := d.(type) {
			case *ast.FuncDecl:
				if d.Recv == nil && d.Name.IsExported() {
					names[d.Name.Name] = true
				}
			case *ast.GenDecl:
				for _, s := range d.Specs {
					switch s := s.(type) {
					case *ast.TypeSpec:
						if s.Name.IsExported() {
							names[s.Name.Name] = true
						}
					case *ast.ValueSpec:
						for _, n := range s.Names {
							if n.IsExported() {
								names[n.Name] = true
							}
						}
					}
				}
			}
		}
	}
	shims[path] = names
}

func loadExports(std map[string]bool) {
	if len(std) == 0 {
		return
	}
	args := []string{"list", "-export", "-deps", "-f", "{{.ImportPath}}={{.Export}}"}
	var l []string
	for s := range std {
		l = append(l, s)
	}
	sort.Strings(l)
	cmd := exec.Command("go", append(args, l...)...)
	cmd.Stderr = os.Stderr
	o, err := cmd.Output()
	if err != nil {
		fatal("go list: %v", err)
	}
	for _, line := range strings.Split(string(o), "\n") {
		if i := strings.IndexByte(line, '='); i > 0 {
			exports[line[:i]] = line[i+1:]
		}
	}
}
