// Command verifrewrite makes an instrumented copy of the tree under test: the
// same program, with every scheduling point, shared-memory access, clock
// reading and system call routed through the simulator. It judges nothing
// and knows nothing about the tree except the Go language.
package main

import (
	"bytes"
	"flag"
	"fmt"
	"go/ast"
	"go/build"
	"go/importer"
	"go/parser"
	"go/printer"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

const (
	modPrefix = "github.com/Symantec/tricorder"
	simName   = "verifsim_"
)

type pkg struct {
	path  string
	dir   string
	files []*ast.File
	names []string
	info  *types.Info
	tpkg  *types.Package
	deps  []string
}

type rewriter struct {
	fset   *token.FileSet
	src    string
	level  int
	pkgs   map[string]*pkg
	order  []*pkg
	std    types.Importer
	sites  []string // of the current package
	base   int
	cur    *pkg
	shared map[*types.Var]bool
	stats  map[string]int
}

func die(format string, args ...any) {
	fmt.Fprintf(os.Stderr, "verifrewrite: "+format+"\n", args...)
	os.Exit(2)
}

func main() {
	src := flag.String("src", "/repo", "tree under test")
	out := flag.String("out", "", "output GOPATH")
	level := flag.Int("level", 0, "0: full; 1: no memory accesses; 2: also no file system seam")
	tests := flag.Bool("tests", false, "copy test files as well")
	flag.Parse()
	rw := &rewriter{fset: token.NewFileSet(), src: *src, level: *level, pkgs: map[string]*pkg{}, base: 1, stats: map[string]int{}}
	rw.discover()
	rw.loadStd()
	for _, p := range rw.order {
		rw.check(p)
	}
	var paths []string
	for _, p := range rw.order {
		rw.rewritePkg(p, *out, *tests)
		paths = append(paths, outPath(p.path))
	}
	rw.resetAll(*out, paths)
	var keys []string
	for k := range rw.stats {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	var b strings.Builder
	for _, k := range keys {
		fmt.Fprintf(&b, "%s=%d ", k, rw.stats[k])
	}
	fmt.Println(strings.TrimSpace(b.String()))
}

// outPath is the import path a package has in the instrumented copy: an
// internal package must be reachable from the harness, which lies elsewhere.
func outPath(path string) string {
	l := strings.Split(path, "/")
	for i := range l {
		if l[i] == "internal" {
			l[i] = "verifinternal"
		}
	}
	return strings.Join(l, "/")
}

// resetAll writes package verifreset, which restores every package of the
// tree to its initial state in dependency order.
func (rw *rewriter) resetAll(out string, paths []string) {
	var b strings.Builder
	b.WriteString("package verifreset\n\nimport (\n")
	for i, p := range paths {
		fmt.Fprintf(&b, "\tp%d %q\n", i, p)
	}
	b.WriteString(")\n\n// All restores every package to its initial state.\nfunc All() {\n")
	for i := range paths {
		fmt.Fprintf(&b, "\tp%d.VerifReset()\n", i)
	}
	b.WriteString("}\n")
	dir := filepath.Join(out, "src", "verifreset")
	if err := os.MkdirAll(dir, 0755); err != nil {
		die("%v", err)
	}
	if err := os.WriteFile(filepath.Join(dir, "reset.go"), []byte(b.String()), 0644); err != nil {
		die("%v", err)
	}
}

// ---------------------------------------------------------------- loading

func (rw *rewriter) discover() {
	ctx := build.Default
	ctx.CgoEnabled = false
	root := rw.src
	err := filepath.Walk(root, func(path string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if !fi.IsDir() {
			return nil
		}
		if n := fi.Name(); path != root && (strings.HasPrefix(n, ".") || strings.HasPrefix(n, "_") || n == "testdata") {
			return filepath.SkipDir
		}
		ents, err := os.ReadDir(path)
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(rw.src, path)
		p := &pkg{path: modPrefix, dir: path}
		if rel != "." {
			p.path += "/" + filepath.ToSlash(rel)
		}
		for _, e := range ents {
			n := e.Name()
			if e.IsDir() || !strings.HasSuffix(n, ".go") || strings.HasSuffix(n, "_test.go") {
				continue
			}
			if ok, err := ctx.MatchFile(path, n); err != nil || !ok {
				continue
			}
			f, err := parser.ParseFile(rw.fset, filepath.Join(path, n), nil, parser.SkipObjectResolution)
			if err != nil {
				die("%v", err)
			}
			if f.Name.Name == "main" {
				continue
			}
			p.files = append(p.files, f)
			p.names = append(p.names, n)
		}
		if len(p.files) > 0 {
			rw.pkgs[p.path] = p
		}
		return nil
	})
	if err != nil {
		die("%v", err)
	}
	// dependency order
	state := map[string]int{}
	var visit func(p *pkg)
	visit = func(p *pkg) {
		if state[p.path] == 2 {
			return
		}
		if state[p.path] == 1 {
			die("import cycle at %s", p.path)
		}
		state[p.path] = 1
		seen := map[string]bool{}
		for _, f := range p.files {
			for _, im := range f.Imports {
				ip, _ := strconv.Unquote(im.Path.Value)
				if !seen[ip] {
					seen[ip] = true
					p.deps = append(p.deps, ip)
				}
			}
		}
		sort.Strings(p.deps)
		for _, d := range p.deps {
			if q := rw.pkgs[d]; q != nil {
				visit(q)
			}
		}
		state[p.path] = 2
		rw.order = append(rw.order, p)
	}
	var paths []string
	for k := range rw.pkgs {
		paths = append(paths, k)
	}
	sort.Strings(paths)
	for _, k := range paths {
		visit(rw.pkgs[k])
	}
}

func (rw *rewriter) loadStd() {
	need := map[string]bool{}
	for _, p := range rw.order {
		for _, d := range p.deps {
			if rw.pkgs[d] == nil && d != "unsafe" {
				need[d] = true
			}
		}
	}
	args := []string{"list", "-export", "-deps", "-f", "{{if .Export}}{{.ImportPath}}={{.Export}}{{end}}"}
	var l []string
	for d := range need {
		l = append(l, d)
	}
	sort.Strings(l)
	if len(l) == 0 {
		l = []string{"fmt"}
	}
	cmd := exec.Command("go", append(args, l...)...)
	cmd.Stderr = os.Stderr
	o, err := cmd.Output()
	if err != nil {
		die("go list: %v", err)
	}
	exports := map[string]string{}
	for _, line := range strings.Split(string(o), "\n") {
		if i := strings.IndexByte(line, '='); i > 0 {
			exports[line[:i]] = line[i+1:]
		}
	}
	rw.std = importer.ForCompiler(rw.fset, "gc", func(path string) (io.ReadCloser, error) {
		f, ok := exports[path]
		if !ok {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(f)
	})
}

func (rw *rewriter) Import(path string) (*types.Package, error) {
	if p := rw.pkgs[path]; p != nil {
		if p.tpkg == nil {
			return nil, fmt.Errorf("package %s not checked yet", path)
		}
		return p.tpkg, nil
	}
	if path == "unsafe" {
		return types.Unsafe, nil
	}
	return rw.std.Import(path)
}

func (rw *rewriter) check(p *pkg) {
	p.info = &types.Info{
		Types:      map[ast.Expr]types.TypeAndValue{},
		Defs:       map[*ast.Ident]types.Object{},
		Uses:       map[*ast.Ident]types.Object{},
		Selections: map[*ast.SelectorExpr]*types.Selection{},
		Implicits:  map[ast.Node]types.Object{},
		Instances:  map[*ast.Ident]types.Instance{},
		Scopes:     map[ast.Node]*types.Scope{},
	}
	conf := types.Config{Importer: rw, Sizes: types.SizesFor("gc", "amd64")}
	t, err := conf.Check(p.path, rw.fset, p.files, p.info)
	if err != nil {
		die("type check %s: %v", p.path, err)
	}
	p.tpkg = t
}

// ---------------------------------------------------------------- sites

func (rw *rewriter) site(pos token.Pos) ast.Expr {
	ps := rw.fset.Position(pos)
	rel, err := filepath.Rel(rw.src, ps.Filename)
	if err != nil {
		rel = ps.Filename
	}
	rw.sites = append(rw.sites, fmt.Sprintf("%s:%d", rel, ps.Line))
	return &ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(rw.base + len(rw.sites) - 1)}
}

func simSel(name string) ast.Expr {
	return &ast.SelectorExpr{X: ast.NewIdent(simName), Sel: ast.NewIdent(name)}
}

func simCall(name string, args ...ast.Expr) *ast.CallExpr {
	return &ast.CallExpr{Fun: simSel(name), Args: args}
}

// ---------------------------------------------------------------- packages

// seams: package path -> name -> replacement in package sim.
var seams = map[string]map[string]string{
	"time": {"Now": "Now", "Since": "Since", "Until": "Until", "Sleep": "Sleep", "After": "After",
		"AfterFunc": "AfterFunc", "NewTimer": "NewTimer", "Timer": "Timer", "Tick": "Tick",
		"NewTicker": "NewTicker", "Ticker": "Ticker"},
	"syscall": {"Getrusage": "Getrusage"},
	"runtime": {"ReadMemStats": "ReadMemStats", "NumGoroutine": "NumGoroutine", "Gosched": "Gosched"},
	"math/rand": {"Intn": "RandIntn", "Int": "RandInt", "Int63": "RandInt63", "Int63n": "RandInt63n",
		"Int31n": "RandInt31n", "Float64": "RandFloat64", "Perm": "RandPerm", "Shuffle": "RandShuffle", "Seed": "RandSeed"},
	"log": {"Fatal": "LogFatal", "Fatalf": "LogFatalf", "Fatalln": "LogFatal"},
}

var osSeams = map[string]map[string]string{
	"os":        {"Exit": "Exit", "Open": "Open", "File": "File", "ReadDir": "ReadDir"},
	"io/ioutil": {"ReadDir": "IoutilReadDir"},
}

var keepUse = map[string]string{
	"time": "Now", "syscall": "Getrusage", "runtime": "Version", "os": "Getpid", "math/rand": "Int", "io/ioutil": "ReadAll",
	"log": "Flags",
}

func (rw *rewriter) seam(pkgPath, name string) string {
	if s := seams[pkgPath][name]; s != "" {
		return s
	}
	if rw.level < 2 {
		return osSeams[pkgPath][name]
	}
	return ""
}

func (rw *rewriter) rewritePkg(p *pkg, out string, tests bool) {
	rw.cur = p
	rw.sites = nil
	rw.findShared(p)

	// package initialisation, captured before rewriting
	type setter struct {
		file int
		lhs  []*types.Var
		rhs  ast.Expr
	}
	fileOf := func(pos token.Pos) int {
		for i, f := range p.files {
			if f.FileStart <= pos && pos <= f.FileEnd {
				return i
			}
		}
		die("no file for %v", rw.fset.Position(pos))
		return 0
	}
	var setters []setter
	inited := map[*types.Var]bool{}
	for _, in := range p.info.InitOrder {
		s := setter{file: fileOf(in.Rhs.Pos()), lhs: in.Lhs, rhs: in.Rhs}
		for _, v := range in.Lhs {
			inited[v] = true
		}
		setters = append(setters, s)
	}
	var zeros []string
	scope := p.tpkg.Scope()
	for _, n := range scope.Names() {
		if v, ok := scope.Lookup(n).(*types.Var); ok && !inited[v] && n != "_" {
			zeros = append(zeros, n)
		}
	}

	initNames := []string{}
	extra := make([][]ast.Decl, len(p.files))

	// rewrite all declarations
	for _, f := range p.files {
		for _, d := range f.Decls {
			switch d := d.(type) {
			case *ast.FuncDecl:
				rw.fieldList(d.Recv)
				rw.fieldList(d.Type.Params)
				rw.fieldList(d.Type.Results)
				if d.Body != nil {
					rw.block(d.Body)
				}
			case *ast.GenDecl:
				rw.genDecl(d)
			}
		}
	}
	// setters use the rewritten initialisers: find them again by variable
	rhsOf := map[*types.Var]ast.Expr{}
	for _, f := range p.files {
		for _, d := range f.Decls {
			g, ok := d.(*ast.GenDecl)
			if !ok || g.Tok != token.VAR {
				continue
			}
			for _, sp := range g.Specs {
				vs := sp.(*ast.ValueSpec)
				for i, n := range vs.Names {
					v, _ := p.info.Defs[n].(*types.Var)
					if v == nil || len(vs.Values) == 0 {
						continue
					}
					if len(vs.Values) == len(vs.Names) {
						rhsOf[v] = vs.Values[i]
					} else {
						rhsOf[v] = vs.Values[0]
					}
				}
			}
		}
	}
	var body []string
	for _, z := range zeros {
		body = append(body, fmt.Sprintf("\t%s.Zero(&%s)", simName, z))
	}
	for i, s := range setters {
		allBlank := true
		var lhs []ast.Expr
		for _, v := range s.lhs {
			lhs = append(lhs, ast.NewIdent(v.Name()))
			if v.Name() != "_" {
				allBlank = false
			}
		}
		if allBlank {
			continue
		}
		rhs := rhsOf[s.lhs[0]]
		if rhs == nil {
			rhs = s.rhs
		}
		name := fmt.Sprintf("verifSet%d", i)
		fd := &ast.FuncDecl{
			Name: ast.NewIdent(name),
			Type: &ast.FuncType{Params: &ast.FieldList{}},
			Body: &ast.BlockStmt{List: []ast.Stmt{&ast.AssignStmt{Lhs: lhs, Tok: token.ASSIGN, Rhs: []ast.Expr{rhs}}}},
		}
		extra[s.file] = append(extra[s.file], fd)
		body = append(body, fmt.Sprintf("\t%s()", name))
	}
	n := 0
	for i, f := range p.files {
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Recv != nil || fd.Name.Name != "init" {
				continue
			}
			name := fmt.Sprintf("verifInit%d", n)
			n++
			fd.Name = ast.NewIdent(name)
			initNames = append(initNames, name)
			extra[i] = append(extra[i], &ast.FuncDecl{
				Name: ast.NewIdent("init"),
				Type: &ast.FuncType{Params: &ast.FieldList{}},
				Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: &ast.CallExpr{Fun: ast.NewIdent(name)}}}},
			})
		}
	}
	for _, x := range initNames {
		body = append(body, "\t"+x+"()")
	}

	dir := filepath.Join(out, "src", filepath.FromSlash(outPath(p.path)))
	if err := os.MkdirAll(dir, 0755); err != nil {
		die("%v", err)
	}
	for i, f := range p.files {
		rw.imports(f)
		f.Decls = append(f.Decls, extra[i]...)
		f.Comments = nil
		f.Doc = nil
		var b bytes.Buffer
		// A fresh file set: old positions must not influence the layout.
		if err := (&printer.Config{Mode: printer.RawFormat}).Fprint(&b, token.NewFileSet(), f); err != nil {
			die("print %s: %v", p.names[i], err)
		}
		if err := os.WriteFile(filepath.Join(dir, p.names[i]), b.Bytes(), 0644); err != nil {
			die("%v", err)
		}
	}
	var z strings.Builder
	fmt.Fprintf(&z, "package %s\n\nimport %s \"verifsim/sim\"\n\nvar _ = %s.RegisterSites(%d, []string{\n", p.files[0].Name.Name, simName, simName, rw.base)
	for _, s := range rw.sites {
		fmt.Fprintf(&z, "\t%q,\n", s)
	}
	z.WriteString("})\n\n// VerifReset restores the package to its initial state.\nfunc VerifReset() {\n")
	z.WriteString(strings.Join(body, "\n"))
	z.WriteString("\n}\n")
	if err := os.WriteFile(filepath.Join(dir, "zz_verif_reset.go"), []byte(z.String()), 0644); err != nil {
		die("%v", err)
	}
	if tests {
		ents, _ := os.ReadDir(p.dir)
		for _, e := range ents {
			if strings.HasSuffix(e.Name(), "_test.go") {
				b, err := os.ReadFile(filepath.Join(p.dir, e.Name()))
				if err == nil {
					os.WriteFile(filepath.Join(dir, e.Name()), b, 0644)
				}
			}
		}
	}
	rw.base += len(rw.sites)
	rw.stats["packages"]++
	rw.stats["sites"] += len(rw.sites)
}

func (rw *rewriter) imports(f *ast.File) {
	var keep []ast.Decl
	for _, im := range f.Imports {
		ip, _ := strconv.Unquote(im.Path.Value)
		local := filepath.Base(ip)
		if im.Name != nil {
			local = im.Name.Name
		}
		switch ip {
		case "sync":
			im.Path = &ast.BasicLit{Kind: token.STRING, Value: `"verifsim/simsync"`}
			if im.Name == nil {
				im.Name = ast.NewIdent("sync")
			}
		case "sync/atomic":
			im.Path = &ast.BasicLit{Kind: token.STRING, Value: `"verifsim/simatomic"`}
			if im.Name == nil {
				im.Name = ast.NewIdent("atomic")
			}
		default:
			if rw.pkgs[ip] != nil && outPath(ip) != ip {
				im.Path = &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(outPath(ip))}
			}
			if u := keepUse[ip]; u != "" && local != "_" && local != "." {
				keep = append(keep, &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{
					Names:  []*ast.Ident{ast.NewIdent("_")},
					Values: []ast.Expr{&ast.SelectorExpr{X: ast.NewIdent(local), Sel: ast.NewIdent(u)}}}}})
			}
		}
	}
	imp := &ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{&ast.ImportSpec{
		Name: ast.NewIdent(simName), Path: &ast.BasicLit{Kind: token.STRING, Value: `"verifsim/sim"`}}}}
	keep = append(keep, &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{
		Names: []*ast.Ident{ast.NewIdent("_")}, Values: []ast.Expr{simSel("Y")}}}})
	f.Decls = append([]ast.Decl{imp}, append(f.Decls, keep...)...)
}

// ---------------------------------------------------------------- sharing

// findShared decides which variables can be reached by two tasks: package
// variables, and locals that are captured or have their address taken and are
// assigned after their declaration.
func (rw *rewriter) findShared(p *pkg) {
	rw.shared = map[*types.Var]bool{}
	declFn := map[*types.Var]ast.Node{}
	escaped := map[*types.Var]bool{}
	assigned := map[*types.Var]bool{}
	for _, f := range p.files {
		var stack []ast.Node // enclosing functions
		var walk func(n ast.Node)
		cur := func() ast.Node {
			if len(stack) == 0 {
				return nil
			}
			return stack[len(stack)-1]
		}
		root := func(e ast.Expr) *types.Var {
			for {
				switch x := e.(type) {
				case *ast.ParenExpr:
					e = x.X
				case *ast.SelectorExpr:
					if s := p.info.Selections[x]; s == nil || s.Indirect() {
						return nil
					}
					e = x.X
				case *ast.IndexExpr:
					if _, ok := under(p.info.TypeOf(x.X)).(*types.Array); !ok {
						return nil
					}
					e = x.X
				case *ast.Ident:
					v, _ := p.info.ObjectOf(x).(*types.Var)
					return v
				default:
					return nil
				}
			}
		}
		walk = func(n ast.Node) {
			ast.Inspect(n, func(m ast.Node) bool {
				switch m := m.(type) {
				case nil:
					return true
				case *ast.FuncDecl:
					if m != n {
						stack = append(stack, m)
						walk(m)
						stack = stack[:len(stack)-1]
						return false
					}
				case *ast.FuncLit:
					if m != n {
						stack = append(stack, m)
						walk(m)
						stack = stack[:len(stack)-1]
						return false
					}
				case *ast.Ident:
					if v, ok := p.info.Defs[m].(*types.Var); ok && !v.IsField() {
						declFn[v] = cur()
					}
					if v, ok := p.info.Uses[m].(*types.Var); ok && !v.IsField() {
						if d, known := declFn[v]; known && d != cur() {
							escaped[v] = true
						}
					}
				case *ast.UnaryExpr:
					if m.Op == token.AND {
						if v := root(m.X); v != nil {
							escaped[v], assigned[v] = true, true
						}
					}
				case *ast.SelectorExpr:
					// implicit & by a pointer-receiver method
					if s := p.info.Selections[m]; s != nil && s.Kind() == types.MethodVal {
						if fn, ok := s.Obj().(*types.Func); ok {
							if r := fn.Type().(*types.Signature).Recv(); r != nil {
								if _, ptr := r.Type().(*types.Pointer); ptr {
									if _, isPtr := p.info.TypeOf(m.X).(*types.Pointer); !isPtr {
										if v := root(m.X); v != nil {
											assigned[v] = true
										}
									}
								}
							}
						}
					}
				case *ast.AssignStmt:
					for _, l := range m.Lhs {
						if id, ok := l.(*ast.Ident); ok && p.info.Defs[id] != nil {
							continue
						}
						if v := root(l); v != nil {
							assigned[v] = true
						}
					}
				case *ast.IncDecStmt:
					if v := root(m.X); v != nil {
						assigned[v] = true
					}
				case *ast.RangeStmt:
					if m.Tok == token.ASSIGN {
						for _, l := range []ast.Expr{m.Key, m.Value} {
							if l != nil {
								if v := root(l); v != nil {
									assigned[v] = true
								}
							}
						}
					}
				}
				return true
			})
		}
		walk(f)
	}
	for v := range escaped {
		if assigned[v] {
			rw.shared[v] = true
		}
	}
	for _, n := range p.tpkg.Scope().Names() {
		if v, ok := p.tpkg.Scope().Lookup(n).(*types.Var); ok && assigned[v] {
			rw.shared[v] = true
		}
	}
}

func under(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	return t.Underlying()
}

func isPointer(t types.Type) bool {
	_, ok := under(t).(*types.Pointer)
	return ok
}

func hasTypeParam(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := t.(*types.TypeParam)
	return ok
}

// syncType: values of these types are synchronisation objects, never data.
func syncType(t types.Type) bool {
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	switch n.Obj().Pkg().Path() {
	case "sync", "sync/atomic":
		return true
	}
	return false
}

func (rw *rewriter) typeOf(e ast.Expr) types.Type { return rw.cur.info.TypeOf(e) }

// sharedLoc: can the location e denotes be reached by another task?
func (rw *rewriter) sharedLoc(e ast.Expr) bool {
	switch x := e.(type) {
	case *ast.ParenExpr:
		return rw.sharedLoc(x.X)
	case *ast.Ident:
		v, _ := rw.cur.info.ObjectOf(x).(*types.Var)
		return v != nil && rw.shared[v]
	case *ast.SelectorExpr:
		s := rw.cur.info.Selections[x]
		if s == nil || s.Kind() != types.FieldVal {
			return false
		}
		if s.Indirect() {
			return true
		}
		return rw.sharedLoc(x.X)
	case *ast.IndexExpr:
		switch under(rw.typeOf(x.X)).(type) {
		case *types.Slice, *types.Pointer:
			return true
		case *types.Array:
			return rw.sharedLoc(x.X)
		}
		return false
	case *ast.StarExpr:
		return true
	}
	return false
}
