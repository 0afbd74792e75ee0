// translate copies a Go module into a build directory, rewritten so that every
// source of nondeterminism it uses (goroutines, channels, select, locks, clocks,
// network, disk, randomness, map order) goes through the simulator package
// vsim/rt. The code is otherwise unchanged; nothing in it is stubbed.
//
//	translate -src /repo/src -out DIR [-mainpkg gotormain]
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/format"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

const alias = "simrt__"

type listPkg struct {
	ImportPath string
	Dir        string
	Name       string
	Export     string
	Standard   bool
	GoFiles    []string
	CgoFiles   []string
	Imports    []string
	Module     *struct{ Path string }
	Error      *struct{ Err string }
}

func fatal(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "translate: "+f+"\n", a...)
	os.Exit(3)
}

func main() {
	src := flag.String("src", "", "module directory")
	out := flag.String("out", "", "output directory")
	mainpkg := flag.String("mainpkg", "gotormain", "new name of package main")
	flag.Parse()

	cmd := exec.Command("go", "list", "-export", "-deps", "-json=ImportPath,Dir,Name,Export,Standard,GoFiles,CgoFiles,Imports,Module,Error", ".")
	cmd.Dir = *src
	cmd.Env = append(os.Environ(), "CGO_ENABLED=0", "GOFLAGS=-mod=mod", "GOWORK=off")
	var eb bytes.Buffer
	cmd.Stderr = &eb
	o, e := cmd.Output()
	if e != nil {
		fatal("go list: %v\n%s", e, eb.String())
	}
	dec := json.NewDecoder(bytes.NewReader(o))
	var order []*listPkg
	exports := map[string]string{}
	for {
		p := new(listPkg)
		if e := dec.Decode(p); e == io.EOF {
			break
		} else if e != nil {
			fatal("go list output: %v", e)
		}
		if p.Standard || p.Module == nil {
			exports[p.ImportPath] = p.Export
			continue
		}
		if len(p.CgoFiles) > 0 {
			fatal("cgo in %s", p.ImportPath)
		}
		order = append(order, p)
	}

	fset := token.NewFileSet()
	std := importer.ForCompiler(fset, "gc", func(p string) (io.ReadCloser, error) {
		f := exports[p]
		if f == "" {
			return nil, fmt.Errorf("no export data for %s", p)
		}
		return os.Open(f)
	})
	done := map[string]*types.Package{}
	imp := impFunc(func(p string) (*types.Package, error) {
		if t := done[p]; t != nil {
			return t, nil
		}
		return std.Import(p)
	})

	gomod, e := os.ReadFile(filepath.Join(*src, "go.mod"))
	if e != nil {
		fatal("%v", e)
	}
	must(os.MkdirAll(*out, 0755))
	must(os.WriteFile(filepath.Join(*out, "go.mod"), gomod, 0644))

	t := &tr{fset: fset, src: *src}
	var resets []string
	for _, p := range order {
		var files []*ast.File
		for _, f := range p.GoFiles {
			af, e := parser.ParseFile(fset, filepath.Join(p.Dir, f), nil, parser.SkipObjectResolution)
			if e != nil {
				fatal("%v", e)
			}
			files = append(files, af)
		}
		info := &types.Info{
			Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}, Defs: map[*ast.Ident]types.Object{},
			Selections: map[*ast.SelectorExpr]*types.Selection{}, Instances: map[*ast.Ident]types.Instance{}, Implicits: map[ast.Node]types.Object{},
		}
		conf := types.Config{Importer: imp, GoVersion: "go1.18", Error: func(error) {}}
		tp, e := conf.Check(p.ImportPath, fset, files, info)
		if e != nil {
			fatal("type check %s: %v", p.ImportPath, e)
		}
		done[p.ImportPath] = tp
		t.info, t.pkg = info, tp
		dir := filepath.Join(*out, strings.TrimPrefix(strings.TrimPrefix(p.ImportPath, p.Module.Path), "/"))
		must(os.MkdirAll(dir, 0755))
		name := p.Name
		if name == "main" {
			name = *mainpkg
		}
		t.resetFns = map[types.Object]string{}
		t.inits = nil
		for i, f := range files {
			t.file(f)
			f.Name = ast.NewIdent(name)
			if p.Name == "main" {
				for _, d := range f.Decls {
					if fd, ok := d.(*ast.FuncDecl); ok && fd.Recv == nil && fd.Name.Name == "main" {
						fd.Name = ast.NewIdent("Main")
					}
				}
			}
			var b bytes.Buffer
			if e := format.Node(&b, fset, f); e != nil {
				fatal("printing %s: %v", p.GoFiles[i], e)
			}
			must(os.WriteFile(filepath.Join(dir, p.GoFiles[i]), b.Bytes(), 0644))
		}
		// package reset: re-run variable initialisers in order, then init functions
		var rb strings.Builder
		fmt.Fprintf(&rb, "package %s\n\n// SimReset puts the package in its state at process start.\nfunc SimReset() {\n", name)
		zeroed := make([]string, 0)
		for o, fn := range t.resetFns {
			if strings.HasPrefix(fn, "zero:") {
				zeroed = append(zeroed, o.Name())
			}
		}
		sort.Strings(zeroed)
		rt := ""
		if len(zeroed) > 0 {
			rt = fmt.Sprintf("import %s \"vsim/rt\"\n\n", alias)
		}
		for _, z := range zeroed {
			fmt.Fprintf(&rb, "\t%s.ResetVar(&%s)\n", alias, z)
		}
		seen := map[string]bool{}
		for _, in := range info.InitOrder {
			for _, l := range in.Lhs {
				if fn := t.resetFns[l]; fn != "" && !seen[fn] && !strings.HasPrefix(fn, "zero:") {
					seen[fn] = true
					fmt.Fprintf(&rb, "\t%s()\n", fn)
				}
			}
		}
		for _, fn := range t.inits {
			fmt.Fprintf(&rb, "\t%s()\n", fn)
		}
		rb.WriteString("}\n")
		s := rb.String()
		if rt != "" {
			s = strings.Replace(s, "\n\n", "\n\n"+rt, 1)
		}
		must(os.WriteFile(filepath.Join(dir, "zz_simreset.go"), []byte(s), 0644))
		resets = append(resets, p.ImportPath)
	}
	// one package that resets everything in dependency order
	var b strings.Builder
	b.WriteString("// Package simreset resets all packages of the program under test.\npackage simreset\n\nimport (\n")
	for i, r := range resets {
		fmt.Fprintf(&b, "\tp%d %q\n", i, r)
	}
	b.WriteString(")\n\nfunc All() {\n")
	for i := range resets {
		fmt.Fprintf(&b, "\tp%d.SimReset()\n", i)
	}
	b.WriteString("}\n\n// Sites names the scheduling points.\nvar Sites = []string{\n")
	for _, s := range t.sites {
		fmt.Fprintf(&b, "\t%q,\n", s)
	}
	b.WriteString("}\n")
	sd := filepath.Join(*out, "simreset")
	must(os.MkdirAll(sd, 0755))
	must(os.WriteFile(filepath.Join(sd, "simreset.go"), []byte(b.String()), 0644))
	if len(t.errs) > 0 {
		for _, e := range t.errs {
			fmt.Fprintln(os.Stderr, "translate:", e)
		}
		os.Exit(3)
	}
	fmt.Printf("translated %d packages, %d scheduling points\n", len(order), len(t.sites))
}

func must(e error) {
	if e != nil {
		fatal("%v", e)
	}
}

type impFunc func(string) (*types.Package, error)

func (f impFunc) Import(p string) (*types.Package, error) { return f(p) }

// ---------------------------------------------------------------------------

type tr struct {
	fset     *token.FileSet
	src      string
	info     *types.Info
	pkg      *types.Package
	sites    []string
	n        int
	fn       string
	errs     []string
	resetFns map[types.Object]string
	inits    []string
}

func (t *tr) err(n ast.Node, f string, a ...any) {
	t.errs = append(t.errs, fmt.Sprintf("%s: %s", t.fset.Position(n.Pos()), fmt.Sprintf(f, a...)))
}

func id(s string) *ast.Ident                       { return ast.NewIdent(s) }
func rtSel(n string) ast.Expr                      { return &ast.SelectorExpr{X: id(alias), Sel: id(n)} }
func call(f ast.Expr, a ...ast.Expr) *ast.CallExpr { return &ast.CallExpr{Fun: f, Args: a} }
func rtCall(n string, a ...ast.Expr) *ast.CallExpr { return call(rtSel(n), a...) }
func intLit(n int) ast.Expr                        { return &ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(n)} }
func strLit(s string) ast.Expr                     { return &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(s)} }
func define(e ast.Expr, names ...string) ast.Stmt {
	var l []ast.Expr
	for _, n := range names {
		l = append(l, id(n))
	}
	return &ast.AssignStmt{Lhs: l, Tok: token.DEFINE, Rhs: []ast.Expr{e}}
}
func block(s ...ast.Stmt) *ast.BlockStmt { return &ast.BlockStmt{List: s} }

func (t *tr) tmp(p string) string { t.n++; return fmt.Sprintf("%s__%d", p, t.n) }

func (t *tr) site(n ast.Node) ast.Expr {
	p := t.fset.Position(n.Pos())
	r, e := filepath.Rel(t.src, p.Filename)
	if e != nil {
		r = p.Filename
	}
	t.sites = append(t.sites, fmt.Sprintf("%s:%d", r, p.Line))
	return intLit(len(t.sites) - 1)
}

func (t *tr) y(n ast.Node) ast.Stmt  { return &ast.ExprStmt{X: rtCall("Y", t.site(n))} }
func (t *tr) yl(n ast.Node) ast.Stmt { return &ast.ExprStmt{X: rtCall("YL", t.site(n))} }

func (t *tr) typeOf(e ast.Expr) types.Type {
	if tv, ok := t.info.Types[e]; ok {
		return tv.Type
	}
	if i, ok := e.(*ast.Ident); ok {
		if o := t.info.Uses[i]; o != nil {
			return o.Type()
		}
		if o := t.info.Defs[i]; o != nil {
			return o.Type()
		}
	}
	return nil
}

func (t *tr) isChan(e ast.Expr) bool {
	ty := t.typeOf(e)
	if ty == nil {
		return false
	}
	_, ok := ty.Underlying().(*types.Chan)
	return ok
}

func (t *tr) isMap(e ast.Expr) bool {
	ty := t.typeOf(e)
	if ty == nil {
		return false
	}
	_, ok := ty.Underlying().(*types.Map)
	return ok
}

func (t *tr) file(f *ast.File) {
	f.Comments = nil
	f.Doc = nil
	var decls []ast.Decl
	var extra []ast.Decl
	for _, d := range f.Decls {
		switch d := d.(type) {
		case *ast.FuncDecl:
			d.Doc = nil
			t.fn = d.Name.Name
			d.Recv = t.fields(d.Recv)
			t.funcType(d.Type)
			if d.Body != nil {
				d.Body.List = t.stmts(d.Body.List)
			}
			if d.Recv == nil && d.Name.Name == "init" {
				t.n++
				nm := fmt.Sprintf("siminit__%d", t.n)
				d.Name = id(nm)
				t.inits = append(t.inits, nm)
			}
			decls = append(decls, d)
		case *ast.GenDecl:
			d.Doc = nil
			if d.Tok == token.IMPORT {
				continue
			}
			for _, sp := range d.Specs {
				switch sp := sp.(type) {
				case *ast.ValueSpec:
					sp.Doc, sp.Comment = nil, nil
					if sp.Type != nil {
						sp.Type = t.expr(sp.Type)
					}
					for i := range sp.Values {
						if d.Tok == token.VAR {
							t.fn = "var " + sp.Names[0].Name
						}
						sp.Values[i] = t.expr(sp.Values[i])
					}
					if len(sp.Names) == 2 && len(sp.Values) == 1 {
						t.commaOk(sp.Values)
					}
					if d.Tok == token.VAR {
						extra = append(extra, t.resetDecl(sp)...)
					}
				case *ast.TypeSpec:
					t.typeSpec(sp)
				}
			}
			decls = append(decls, d)
		default:
			decls = append(decls, d)
		}
	}
	// which imports are still used?
	used := map[string]bool{}
	for _, d := range append(append([]ast.Decl{}, decls...), extra...) {
		ast.Inspect(d, func(n ast.Node) bool {
			if s, ok := n.(*ast.SelectorExpr); ok {
				if i, ok := s.X.(*ast.Ident); ok {
					if i.Name == alias {
						used[alias] = true
					} else if pn, ok := t.info.Uses[i].(*types.PkgName); ok {
						used[pn.Name()] = true
					}
				}
			}
			return true
		})
	}
	imp := &ast.GenDecl{Tok: token.IMPORT, Lparen: 1, Rparen: 1}
	for _, s := range f.Imports {
		p, _ := strconv.Unquote(s.Path.Value)
		if s.Name != nil && s.Name.Name == "." {
			t.err(s, "dot import of %s is not supported", p)
		}
		nm := ""
		if s.Name != nil {
			nm = s.Name.Name
		} else if o, ok := t.info.Implicits[s].(*types.PkgName); ok {
			nm = o.Name()
		}
		if nm == "_" {
			if p == "embed" || strings.HasPrefix(p, "net/http/pprof") {
				continue
			}
			imp.Specs = append(imp.Specs, &ast.ImportSpec{Name: id("_"), Path: s.Path})
			continue
		}
		if !used[nm] {
			continue
		}
		sp := &ast.ImportSpec{Path: &ast.BasicLit{Kind: token.STRING, Value: s.Path.Value}}
		if s.Name != nil {
			sp.Name = id(s.Name.Name)
		}
		imp.Specs = append(imp.Specs, sp)
	}
	if used[alias] {
		imp.Specs = append(imp.Specs, &ast.ImportSpec{Name: id(alias), Path: &ast.BasicLit{Kind: token.STRING, Value: `"vsim/rt"`}})
	}
	f.Decls = nil
	if len(imp.Specs) > 0 {
		f.Decls = append(f.Decls, imp)
	}
	f.Decls = append(f.Decls, decls...)
	f.Decls = append(f.Decls, extra...)
	f.Imports = nil
}

// resetDecl makes a function that re-initialises a package-level variable.
func (t *tr) resetDecl(sp *ast.ValueSpec) []ast.Decl {
	if len(sp.Values) == 0 {
		for _, n := range sp.Names {
			if n.Name != "_" {
				t.resetFns[t.info.Defs[n]] = "zero:"
			}
		}
		return nil
	}
	mk := func(names []*ast.Ident, v ast.Expr) ast.Decl {
		t.n++
		fn := fmt.Sprintf("simreset__%s_%d", strings.Trim(names[0].Name, "_"), t.n)
		var l []ast.Expr
		for _, n := range names {
			l = append(l, id(n.Name))
			t.resetFns[t.info.Defs[n]] = fn
		}
		return &ast.FuncDecl{Name: id(fn), Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: block(&ast.AssignStmt{Lhs: l, Tok: token.ASSIGN, Rhs: []ast.Expr{v}})}
	}
	var out []ast.Decl
	if len(sp.Values) == len(sp.Names) {
		for i, n := range sp.Names {
			if n.Name == "_" {
				continue
			}
			out = append(out, mk([]*ast.Ident{n}, sp.Values[i]))
		}
	} else {
		out = append(out, mk(sp.Names, sp.Values[0]))
	}
	return out
}

func (t *tr) typeSpec(sp *ast.TypeSpec) {
	sp.Doc, sp.Comment = nil, nil
	if _, ok := sp.Type.(*ast.ChanType); ok && !sp.Assign.IsValid() {
		if o := t.info.Defs[sp.Name]; o != nil {
			if n, ok := o.Type().(*types.Named); ok && n.NumMethods() > 0 {
				t.err(sp, "named channel type with methods is not supported")
			}
		}
		sp.Assign = sp.Name.End()
	}
	if sp.TypeParams != nil {
		t.fields(sp.TypeParams)
	}
	sp.Type = t.expr(sp.Type)
}

func (t *tr) fields(fl *ast.FieldList) *ast.FieldList {
	if fl == nil {
		return nil
	}
	for _, f := range fl.List {
		f.Doc, f.Comment = nil, nil
		f.Type = t.expr(f.Type)
	}
	return fl
}

func (t *tr) funcType(ft *ast.FuncType) {
	t.fields(ft.TypeParams)
	t.fields(ft.Params)
	t.fields(ft.Results)
}

// ---------------------------------------------------------------- expressions

func (t *tr) exprs(l []ast.Expr) {
	for i := range l {
		l[i] = t.expr(l[i])
	}
}

func (t *tr) builtin(f ast.Expr) string {
	for {
		p, ok := f.(*ast.ParenExpr)
		if !ok {
			break
		}
		f = p.X
	}
	if i, ok := f.(*ast.Ident); ok {
		if _, ok := t.info.Uses[i].(*types.Builtin); ok {
			return i.Name
		}
	}
	return ""
}

func (t *tr) expr(e ast.Expr) ast.Expr {
	switch e := e.(type) {
	case nil:
		return nil
	case *ast.Ident, *ast.BasicLit:
		return e
	case *ast.ParenExpr:
		e.X = t.expr(e.X)
		return e
	case *ast.SelectorExpr:
		if i, ok := e.X.(*ast.Ident); ok {
			if pn, ok := t.info.Uses[i].(*types.PkgName); ok {
				return t.pkgSym(e, pn.Imported().Path())
			}
		}
		e.X = t.expr(e.X)
		return e
	case *ast.IndexExpr:
		if t.isMap(e.X) {
			return &ast.IndexExpr{X: rtCall("MapR", t.expr(e.X)), Index: t.expr(e.Index)}
		}
		e.X, e.Index = t.expr(e.X), t.expr(e.Index)
		return e
	case *ast.IndexListExpr:
		e.X = t.expr(e.X)
		t.exprs(e.Indices)
		return e
	case *ast.SliceExpr:
		e.X, e.Low, e.High, e.Max = t.expr(e.X), t.expr(e.Low), t.expr(e.High), t.expr(e.Max)
		return e
	case *ast.StarExpr:
		e.X = t.expr(e.X)
		return e
	case *ast.TypeAssertExpr:
		e.X, e.Type = t.expr(e.X), t.expr(e.Type)
		return e
	case *ast.BinaryExpr:
		e.X, e.Y = t.expr(e.X), t.expr(e.Y)
		return e
	case *ast.KeyValueExpr:
		e.Key, e.Value = t.expr(e.Key), t.expr(e.Value)
		return e
	case *ast.UnaryExpr:
		if e.Op == token.ARROW {
			return call(&ast.SelectorExpr{X: t.paren(t.expr(e.X)), Sel: id("Recv")})
		}
		e.X = t.expr(e.X)
		return e
	case *ast.CompositeLit:
		e.Type = t.expr(e.Type)
		t.exprs(e.Elts)
		return e
	case *ast.FuncLit:
		t.funcType(e.Type)
		e.Body.List = t.stmts(e.Body.List)
		return e
	case *ast.Ellipsis:
		e.Elt = t.expr(e.Elt)
		return e
	case *ast.ArrayType:
		e.Len, e.Elt = t.expr(e.Len), t.expr(e.Elt)
		return e
	case *ast.MapType:
		e.Key, e.Value = t.expr(e.Key), t.expr(e.Value)
		return e
	case *ast.StructType:
		t.fields(e.Fields)
		return e
	case *ast.InterfaceType:
		t.fields(e.Methods)
		return e
	case *ast.FuncType:
		t.funcType(e)
		return e
	case *ast.ChanType:
		return &ast.StarExpr{X: &ast.IndexExpr{X: rtSel("Chan"), Index: t.expr(e.Value)}}
	case *ast.CallExpr:
		return t.callExpr(e)
	}
	t.err(e, "unsupported expression %T", e)
	return e
}

func (t *tr) paren(e ast.Expr) ast.Expr {
	switch e.(type) {
	case *ast.Ident, *ast.SelectorExpr, *ast.CallExpr, *ast.IndexExpr, *ast.ParenExpr:
		return e
	}
	return &ast.ParenExpr{X: e}
}

func (t *tr) callExpr(e *ast.CallExpr) ast.Expr {
	switch t.builtin(e.Fun) {
	case "make":
		if t.isChan(e.Args[0]) || t.isChanType(e.Args[0]) {
			ty := t.typeOf(e.Args[0])
			ct, ok := ty.Underlying().(*types.Chan)
			if !ok {
				t.err(e, "make of unknown channel type")
				return e
			}
			var elt ast.Expr
			if x, ok := unparen(e.Args[0]).(*ast.ChanType); ok {
				elt = t.expr(x.Value)
			} else {
				elt = t.typeExpr(e, ct.Elem())
			}
			if len(e.Args) == 1 {
				return call(&ast.IndexExpr{X: rtSel("MakeChan"), Index: elt})
			}
			return call(&ast.IndexExpr{X: rtSel("MakeChan"), Index: elt}, call(id("int"), t.expr(e.Args[1])))
		}
	case "close":
		return call(&ast.SelectorExpr{X: t.paren(t.expr(e.Args[0])), Sel: id("Close")})
	case "len", "cap":
		if t.isChan(e.Args[0]) {
			n := "Len"
			if t.builtin(e.Fun) == "cap" {
				n = "Cap"
			}
			return call(&ast.SelectorExpr{X: t.paren(t.expr(e.Args[0])), Sel: id(n)})
		}
	case "delete", "clear":
		if t.isMap(e.Args[0]) && t.pure(e.Args[len(e.Args)-1]) {
			site := t.site(e)
			t.exprs(e.Args)
			e.Args[0] = rtCall("MapW", site, e.Args[0])
			return e
		}
	case "new":
		// new(chan T) falls through to the general case
	}
	if tv, ok := t.info.Types[e.Fun]; ok && tv.IsType() {
		f := t.expr(e.Fun)
		switch f.(type) {
		case *ast.StarExpr, *ast.FuncType:
			f = &ast.ParenExpr{X: f}
		}
		e.Fun = f
		t.exprs(e.Args)
		return e
	}
	if s, ok := e.Fun.(*ast.SelectorExpr); ok && len(e.Args) == 1 {
		if f, ok := t.info.Uses[s.Sel].(*types.Func); ok && f.FullName() == "(*net/http.Request).WithContext" {
			return rtCall("HTTPReqWithContext", t.expr(s.X), t.expr(e.Args[0]))
		}
	}
	e.Fun = t.expr(e.Fun)
	t.exprs(e.Args)
	return e
}

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

func (t *tr) isChanType(e ast.Expr) bool {
	tv, ok := t.info.Types[e]
	if !ok || !tv.IsType() {
		return false
	}
	_, ok = tv.Type.Underlying().(*types.Chan)
	return ok
}

// typeExpr writes a type as source (used for named channel types only).
func (t *tr) typeExpr(n ast.Node, ty types.Type) ast.Expr {
	s := types.TypeString(ty, func(p *types.Package) string {
		if p == t.pkg {
			return ""
		}
		return p.Name()
	})
	x, e := parser.ParseExpr(s)
	if e != nil {
		t.err(n, "cannot express type %s", s)
		return id("any")
	}
	return x
}

// pkgSym replaces a reference to a standard-library symbol.
func (t *tr) pkgSym(e *ast.SelectorExpr, path string) ast.Expr {
	tab, ok := symbols[path]
	if !ok {
		if t.isLocal(path) || purePkgs[path] {
			return e
		}
		t.err(e, "package %s is not known to the simulator (symbol %s)", path, e.Sel.Name)
		return e
	}
	if r, ok := tab.repl[e.Sel.Name]; ok {
		if strings.HasSuffix(r, "()") {
			return rtCall(strings.TrimSuffix(r, "()"))
		}
		return rtSel(r)
	}
	if tab.open || tab.pass[e.Sel.Name] {
		return e
	}
	switch t.info.Uses[e.Sel].(type) {
	case *types.Const:
		return e
	}
	t.err(e, "%s.%s is not known to the simulator", path, e.Sel.Name)
	return e
}

func (t *tr) isLocal(path string) bool {
	root := strings.SplitN(t.pkg.Path(), "/", 2)[0]
	return path == root || strings.HasPrefix(path, root+"/")
}

// ---------------------------------------------------------------- statements

func (t *tr) stmts(l []ast.Stmt) []ast.Stmt {
	var out []ast.Stmt
	for _, s := range l {
		switch s.(type) {
		case *ast.EmptyStmt:
			continue
		}
		out = append(out, t.y(s))
		out = append(out, t.stmt(s)...)
	}
	return out
}

func (t *tr) body(n ast.Node, b *ast.BlockStmt) {
	b.List = append([]ast.Stmt{t.yl(n)}, t.stmts(b.List)...)
}

func (t *tr) one(s ast.Stmt) ast.Stmt {
	if s == nil {
		return nil
	}
	l := t.stmt(s)
	if len(l) == 1 {
		return l[0]
	}
	return block(l...)
}

// simple rewrites a statement that must stay one simple statement (init, post).
func (t *tr) simple(s ast.Stmt) ast.Stmt {
	switch s := s.(type) {
	case nil:
		return nil
	case *ast.AssignStmt:
		t.lhs(s, s.Lhs, t.allPure(s.Rhs))
		t.recvRhs(s)
		return s
	case *ast.IncDecStmt:
		if x, ok := t.mapIndex(s.X); ok {
			s.X = t.mapElem(s, x)
			return s
		}
		s.X = t.expr(s.X)
		return s
	case *ast.ExprStmt:
		s.X = t.expr(s.X)
		return s
	case *ast.SendStmt:
		return &ast.ExprStmt{X: call(&ast.SelectorExpr{X: t.paren(t.expr(s.Chan)), Sel: id("Send")}, t.expr(s.Value))}
	}
	t.err(s, "unsupported simple statement %T", s)
	return s
}

func isRecv(e ast.Expr) (*ast.UnaryExpr, bool) {
	u, ok := unparen(e).(*ast.UnaryExpr)
	return u, ok && u.Op == token.ARROW
}

// mapIndex is the map element an lvalue denotes, if it is one.
func (t *tr) mapIndex(e ast.Expr) (*ast.IndexExpr, bool) {
	x, ok := unparen(e).(*ast.IndexExpr)
	return x, ok && t.isMap(x.X)
}

// mapElem rewrites a map element that is assigned to.
func (t *tr) mapElem(n ast.Node, x *ast.IndexExpr) ast.Expr {
	k := x.Index
	site := t.site(n)
	var key ast.Expr
	if ty := t.typeOf(k); ty != nil && t.info.Types[k].Value == nil && !t.info.Types[k].IsNil() {
		switch ty.Underlying().(type) {
		case *types.Pointer, *types.Chan, *types.Interface:
			if _, ok := ty.(*types.TypeParam); !ok {
				key = rtCall("KeyOf", t.expr(k))
			}
		}
	}
	if key == nil {
		key = t.expr(k)
	}
	return &ast.IndexExpr{X: rtCall("MapW", site, t.expr(x.X)), Index: key}
}

// pure reports that evaluating an expression neither waits nor calls anything but
// conversions and builtins.
func (t *tr) pure(e ast.Expr) bool {
	ok := true
	ast.Inspect(e, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.CallExpr:
			if tv, is := t.info.Types[n.Fun]; !(is && tv.IsType()) && t.builtin(n.Fun) == "" {
				ok = false
			}
		case *ast.UnaryExpr:
			if n.Op == token.ARROW {
				ok = false
			}
		case *ast.FuncLit:
			return false
		}
		return ok
	})
	return ok
}

// lhs rewrites the left side of an assignment.
func (t *tr) lhs(n ast.Node, l []ast.Expr, pure bool) {
	for i := range l {
		if x, ok := t.mapIndex(l[i]); ok {
			if pure {
				l[i] = t.mapElem(n, x)
			} else {
				x.X, x.Index = t.expr(x.X), t.expr(x.Index)
			}
			continue
		}
		l[i] = t.expr(l[i])
	}
}

func (t *tr) allPure(l []ast.Expr) bool {
	for _, e := range l {
		if !t.pure(e) {
			return false
		}
	}
	return true
}

// recvRhs rewrites the right side of an assignment, with the comma-ok form of a receive.
func (t *tr) recvRhs(s *ast.AssignStmt) {
	if len(s.Lhs) == 2 && len(s.Rhs) == 1 {
		if u, ok := isRecv(s.Rhs[0]); ok {
			s.Rhs[0] = call(&ast.SelectorExpr{X: t.paren(t.expr(u.X)), Sel: id("Recv2")})
			return
		}
	}
	t.exprs(s.Rhs)
}

// commaOk turns an already rewritten x.Recv() into x.Recv2().
func (t *tr) commaOk(v []ast.Expr) {
	if c, ok := v[0].(*ast.CallExpr); ok {
		if s, ok := c.Fun.(*ast.SelectorExpr); ok && s.Sel.Name == "Recv" && len(c.Args) == 0 && s.Sel.NamePos == 0 {
			s.Sel = id("Recv2")
		}
	}
}

// shared reports whether an lvalue may be visible to other goroutines.
func (t *tr) shared(e ast.Expr) bool {
	switch e := unparen(e).(type) {
	case *ast.SelectorExpr:
		return true
	case *ast.StarExpr:
		return true
	case *ast.IndexExpr:
		return !t.isMap(e.X)
	case *ast.Ident:
		if v, ok := t.info.Uses[e].(*types.Var); ok && v.Parent() == t.pkg.Scope() {
			return true
		}
	}
	return false
}

var opOf = map[token.Token]token.Token{
	token.ADD_ASSIGN: token.ADD, token.SUB_ASSIGN: token.SUB, token.MUL_ASSIGN: token.MUL, token.QUO_ASSIGN: token.QUO,
	token.REM_ASSIGN: token.REM, token.AND_ASSIGN: token.AND, token.OR_ASSIGN: token.OR, token.XOR_ASSIGN: token.XOR,
	token.SHL_ASSIGN: token.SHL, token.SHR_ASSIGN: token.SHR, token.AND_NOT_ASSIGN: token.AND_NOT,
}

// rmw splits a read-modify-write of a shared location so that others can run in between.
func (t *tr) rmw(n ast.Node, lhs ast.Expr, op token.Token, y ast.Expr) []ast.Stmt {
	p, v := t.tmp("p"), t.tmp("v")
	return []ast.Stmt{block(
		define(&ast.UnaryExpr{Op: token.AND, X: t.paren(lhs)}, p),
		define(&ast.StarExpr{X: id(p)}, v),
		t.y(n),
		&ast.AssignStmt{Lhs: []ast.Expr{&ast.StarExpr{X: id(p)}}, Tok: token.ASSIGN,
			Rhs: []ast.Expr{&ast.BinaryExpr{X: id(v), Op: op, Y: &ast.ParenExpr{X: y}}}},
	)}
}

func (t *tr) stmt(s ast.Stmt) []ast.Stmt {
	one := func(s ast.Stmt) []ast.Stmt { return []ast.Stmt{s} }
	switch s := s.(type) {
	case *ast.ExprStmt:
		s.X = t.expr(s.X)
		return one(s)
	case *ast.SendStmt:
		return one(t.simple(s))
	case *ast.IncDecStmt:
		if t.shared(s.X) {
			op := token.ADD
			if s.Tok == token.DEC {
				op = token.SUB
			}
			return t.rmw(s, t.expr(s.X), op, intLit(1))
		}
		return one(t.simple(s))
	case *ast.AssignStmt:
		if op, ok := opOf[s.Tok]; ok {
			if t.shared(s.Lhs[0]) {
				return t.rmw(s, t.expr(s.Lhs[0]), op, t.expr(s.Rhs[0]))
			}
			return one(t.simple(s))
		}
		if s.Tok == token.ASSIGN && len(s.Lhs) == 1 && len(s.Rhs) == 1 && t.shared(s.Lhs[0]) {
			l, r := t.info.Types[s.Lhs[0]], t.info.Types[s.Rhs[0]]
			if l.Type != nil && r.Type != nil && r.Value == nil && !r.IsNil() && types.Identical(l.Type, r.Type) && !simpleOperand(s.Rhs[0]) {
				st := t.site(s)
				lh, rh := t.expr(s.Lhs[0]), t.expr(s.Rhs[0])
				return one(&ast.AssignStmt{Lhs: []ast.Expr{lh}, Tok: token.ASSIGN, Rhs: []ast.Expr{rtCall("Split", st, rh)}})
			}
		}
		if x, ok := t.mapIndex(s.Lhs[0]); ok && s.Tok == token.ASSIGN && len(s.Lhs) == 1 && len(s.Rhs) == 1 && !t.pure(s.Rhs[0]) && t.pure(x.X) && t.pure(x.Index) {
			// The element is written after the right side has been evaluated
			v := t.tmp("v")
			r := s.Rhs[0]
			if u, ok := isRecv(r); ok {
				r = call(&ast.SelectorExpr{X: t.paren(t.expr(u.X)), Sel: id("Recv")})
			} else {
				r = t.expr(r)
			}
			return one(block(define(r, v), &ast.AssignStmt{Lhs: []ast.Expr{t.mapElem(s, x)}, Tok: token.ASSIGN, Rhs: []ast.Expr{id(v)}}))
		}
		return one(t.simple(s))
	case *ast.DeclStmt:
		d := s.Decl.(*ast.GenDecl)
		for _, sp := range d.Specs {
			switch sp := sp.(type) {
			case *ast.ValueSpec:
				sp.Doc, sp.Comment = nil, nil
				sp.Type = t.expr(sp.Type)
				rc := len(sp.Names) == 2 && len(sp.Values) == 1
				t.exprs(sp.Values)
				if rc {
					t.commaOk(sp.Values)
				}
			case *ast.TypeSpec:
				t.typeSpec(sp)
			}
		}
		return one(s)
	case *ast.GoStmt:
		return t.goStmt(s)
	case *ast.DeferStmt:
		if c, ok := t.expr(s.Call).(*ast.CallExpr); ok {
			s.Call = c
		} else {
			t.err(s, "unsupported defer")
		}
		return one(s)
	case *ast.ReturnStmt:
		t.exprs(s.Results)
		return one(s)
	case *ast.BranchStmt, *ast.EmptyStmt:
		return one(s)
	case *ast.BlockStmt:
		s.List = t.stmts(s.List)
		return one(s)
	case *ast.IfStmt:
		s.Init = t.simple(s.Init)
		s.Cond = t.expr(s.Cond)
		s.Body.List = t.stmts(s.Body.List)
		if s.Else != nil {
			s.Else = t.one(s.Else)
		}
		return one(s)
	case *ast.SwitchStmt:
		s.Init = t.simple(s.Init)
		s.Tag = t.expr(s.Tag)
		t.clauses(s.Body)
		return one(s)
	case *ast.TypeSwitchStmt:
		s.Init = t.simple(s.Init)
		switch a := s.Assign.(type) {
		case *ast.AssignStmt:
			t.exprs(a.Rhs)
		case *ast.ExprStmt:
			a.X = t.expr(a.X)
		}
		t.clauses(s.Body)
		return one(s)
	case *ast.ForStmt:
		s.Init, s.Cond, s.Post = t.simple(s.Init), t.expr(s.Cond), t.simple(s.Post)
		t.body(s, s.Body)
		return one(s)
	case *ast.RangeStmt:
		return t.rangeStmt(s, nil)
	case *ast.SelectStmt:
		return t.selectStmt(s, nil)
	case *ast.LabeledStmt:
		switch in := s.Stmt.(type) {
		case *ast.RangeStmt:
			return t.rangeStmt(in, s.Label)
		case *ast.SelectStmt:
			return t.selectStmt(in, s.Label)
		case *ast.ForStmt, *ast.SwitchStmt, *ast.TypeSwitchStmt:
			s.Stmt = t.one(in)
			return one(s)
		}
		yl := t.yl(s)
		l := t.stmt(s.Stmt)
		s.Stmt = yl
		return append(one(s), l...)
	}
	t.err(s, "unsupported statement %T", s)
	return one(s)
}

func simpleOperand(e ast.Expr) bool {
	switch unparen(e).(type) {
	case *ast.Ident, *ast.BasicLit:
		return true
	}
	return false
}

func (t *tr) clauses(b *ast.BlockStmt) {
	for _, c := range b.List {
		cc := c.(*ast.CaseClause)
		t.exprs(cc.List)
		cc.Body = t.stmts(cc.Body)
	}
}

func (t *tr) goStmt(s *ast.GoStmt) []ast.Stmt {
	name := strLit(t.fn + "." + types.ExprString(nameOf(s.Call.Fun)))
	if fl, ok := s.Call.Fun.(*ast.FuncLit); ok && len(s.Call.Args) == 0 && fl.Type.Results.NumFields() == 0 {
		return []ast.Stmt{&ast.ExprStmt{X: rtCall("Go", name, t.expr(fl))}}
	}
	var pre []ast.Stmt
	c := s.Call
	if t.builtin(c.Fun) == "" {
		inst := false
		ast.Inspect(c.Fun, func(n ast.Node) bool {
			if i, ok := n.(*ast.Ident); ok {
				if _, ok := t.info.Instances[i]; ok {
					inst = true
				}
			}
			return true
		})
		tv := t.info.Types[c.Fun]
		if !inst && !tv.IsType() {
			f := t.tmp("f")
			pre = append(pre, define(t.expr(c.Fun), f))
			c.Fun = id(f)
		} else {
			c.Fun = t.expr(c.Fun)
		}
		if len(c.Args) == 1 {
			if tup, ok := t.info.Types[c.Args[0]].Type.(*types.Tuple); ok {
				_ = tup
				t.err(s, "go f(g()) with several results is not supported")
			}
		}
		for i, a := range c.Args {
			tv := t.info.Types[a]
			if tv.Value != nil || tv.IsNil() {
				c.Args[i] = t.expr(a)
				continue
			}
			n := t.tmp("a")
			pre = append(pre, define(t.expr(a), n))
			c.Args[i] = id(n)
		}
		pre = append(pre, &ast.ExprStmt{X: rtCall("Go", name, &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: block(&ast.ExprStmt{X: c})})})
		return []ast.Stmt{block(pre...)}
	}
	x := t.expr(c)
	return []ast.Stmt{&ast.ExprStmt{X: rtCall("Go", name, &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: block(&ast.ExprStmt{X: x})})}}
}

func nameOf(e ast.Expr) ast.Expr {
	if _, ok := e.(*ast.FuncLit); ok {
		return id("func")
	}
	return e
}

func (t *tr) labeled(l *ast.Ident, s ast.Stmt) ast.Stmt {
	if l == nil {
		return s
	}
	return &ast.LabeledStmt{Label: l, Stmt: s}
}

func isBlank(e ast.Expr) bool {
	if e == nil {
		return true
	}
	i, ok := e.(*ast.Ident)
	return ok && i.Name == "_"
}

func (t *tr) rangeStmt(s *ast.RangeStmt, label *ast.Ident) []ast.Stmt {
	switch {
	case t.isChan(s.X):
		c, ok := t.tmp("c"), t.tmp("ok")
		recv := call(&ast.SelectorExpr{X: id(c), Sel: id("Recv2")})
		key := s.Key
		var first []ast.Stmt
		brk := &ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: id(ok)}, Body: block(&ast.BranchStmt{Tok: token.BREAK})}
		x := t.expr(s.X)
		var pre []ast.Stmt
		pre = append(pre, define(x, c))
		if isBlank(key) {
			first = append(first, &ast.AssignStmt{Lhs: []ast.Expr{id("_"), id(ok)}, Tok: token.DEFINE, Rhs: []ast.Expr{recv}}, brk)
		} else {
			v := t.tmp("v")
			first = append(first, define(recv, v, ok), brk)
			if s.Tok == token.DEFINE {
				kn := key.(*ast.Ident).Name
				pre = append(pre, define(call(&ast.SelectorExpr{X: id(c), Sel: id("Zero")}), kn))
				first = append(first, &ast.AssignStmt{Lhs: []ast.Expr{id(kn)}, Tok: token.ASSIGN, Rhs: []ast.Expr{id(v)}})
			} else {
				first = append(first, &ast.AssignStmt{Lhs: []ast.Expr{t.expr(key)}, Tok: token.ASSIGN, Rhs: []ast.Expr{id(v)}})
			}
		}
		t.body(s, s.Body)
		s.Body.List = append(first, s.Body.List...)
		pre = append(pre, t.labeled(label, &ast.ForStmt{Body: s.Body}))
		return []ast.Stmt{block(pre...)}
	case t.isMap(s.X):
		m, k := t.tmp("m"), t.tmp("k")
		pre := []ast.Stmt{define(t.expr(s.X), m)}
		v, ok := t.tmp("v"), t.tmp("ok")
		first := []ast.Stmt{
			&ast.AssignStmt{Lhs: []ast.Expr{id(v), id(ok)}, Tok: token.DEFINE, Rhs: []ast.Expr{&ast.IndexExpr{X: rtCall("MapR", id(m)), Index: id(k)}}},
			&ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: id(ok)}, Body: block(&ast.BranchStmt{Tok: token.CONTINUE})},
			&ast.AssignStmt{Lhs: []ast.Expr{id("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{id(v)}},
		}
		bind := func(e ast.Expr, val, zero string) {
			if isBlank(e) {
				return
			}
			if s.Tok == token.DEFINE {
				n := e.(*ast.Ident).Name
				pre = append(pre, define(rtCall(zero, id(m)), n))
				first = append(first, &ast.AssignStmt{Lhs: []ast.Expr{id(n)}, Tok: token.ASSIGN, Rhs: []ast.Expr{id(val)}})
			} else {
				first = append(first, &ast.AssignStmt{Lhs: []ast.Expr{t.expr(e)}, Tok: token.ASSIGN, Rhs: []ast.Expr{id(val)}})
			}
		}
		bind(s.Key, k, "MapKey")
		bind(s.Value, v, "MapVal")
		t.body(s, s.Body)
		s.Body.List = append(first, s.Body.List...)
		pre = append(pre, t.labeled(label, &ast.RangeStmt{Key: id("_"), Value: id(k), Tok: token.DEFINE, X: rtCall("MapKeys", id(m)), Body: s.Body}))
		return []ast.Stmt{block(pre...)}
	}
	if ty := t.typeOf(s.X); ty != nil {
		if _, ok := ty.Underlying().(*types.Signature); ok {
			t.err(s, "range over function is not supported")
		}
	}
	s.X = t.expr(s.X)
	if s.Tok == token.ASSIGN {
		s.Key, s.Value = t.expr(s.Key), t.expr(s.Value)
	}
	t.body(s, s.Body)
	return []ast.Stmt{t.labeled(label, s)}
}

func (t *tr) selectStmt(s *ast.SelectStmt, label *ast.Ident) []ast.Stmt {
	if len(s.Body.List) == 0 {
		return []ast.Stmt{t.labeled(label, &ast.ForStmt{Body: block(&ast.ExprStmt{X: rtCall("BlockForever")})})}
	}
	var pre []ast.Stmt
	args := []ast.Expr{id("false")}
	sw := &ast.SwitchStmt{Body: &ast.BlockStmt{}}
	n := 0
	for _, cl := range s.Body.List {
		cc := cl.(*ast.CommClause)
		body := []ast.Stmt{}
		if cc.Comm == nil {
			args[0] = id("true")
			sw.Body.List = append(sw.Body.List, &ast.CaseClause{List: nil, Body: t.stmts(cc.Body)})
			continue
		}
		switch c := cc.Comm.(type) {
		case *ast.SendStmt:
			ch := t.tmp("c")
			pre = append(pre, define(t.expr(c.Chan), ch))
			sc := t.tmp("s")
			pre = append(pre, define(call(&ast.SelectorExpr{X: id(ch), Sel: id("SendCase")}, t.expr(c.Value)), sc))
			args = append(args, id(sc))
		case *ast.ExprStmt, *ast.AssignStmt:
			var u *ast.UnaryExpr
			var lhs []ast.Expr
			var tok token.Token
			ok := false
			switch c := c.(type) {
			case *ast.ExprStmt:
				u, ok = isRecv(c.X)
			case *ast.AssignStmt:
				u, ok = isRecv(c.Rhs[0])
				lhs, tok = c.Lhs, c.Tok
			}
			if !ok {
				t.err(c, "unexpected select case")
				continue
			}
			ch, v, k := t.tmp("c"), t.tmp("v"), t.tmp("ok")
			pre = append(pre, define(t.expr(u.X), ch))
			pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{id(v), id(k)}, Tok: token.DEFINE,
				Rhs: []ast.Expr{call(&ast.SelectorExpr{X: id(ch), Sel: id("Zero")}), id("false")}})
			args = append(args, rtCall("CaseRecv", id(ch), &ast.UnaryExpr{Op: token.AND, X: id(v)}, &ast.UnaryExpr{Op: token.AND, X: id(k)}))
			vals := []ast.Expr{id(v), id(k)}
			var l, r []ast.Expr
			for i, x := range lhs {
				if isBlank(x) {
					continue
				}
				if tok == token.DEFINE {
					l = append(l, id(x.(*ast.Ident).Name))
				} else {
					l = append(l, t.expr(x))
				}
				r = append(r, vals[i])
			}
			if len(l) > 0 {
				body = append(body, &ast.AssignStmt{Lhs: l, Tok: tok, Rhs: r})
			}
		}
		body = append(body, t.stmts(cc.Body)...)
		sw.Body.List = append(sw.Body.List, &ast.CaseClause{List: []ast.Expr{intLit(n)}, Body: body})
		n++
	}
	sw.Tag = rtCall("Select", args...)
	if args[0].(*ast.Ident).Name == "false" { // keeps the statement terminating where the select was
		sw.Body.List = append(sw.Body.List, &ast.CaseClause{Body: []ast.Stmt{&ast.ExprStmt{X: call(id("panic"), strLit("unreachable"))}}})
	}
	pre = append(pre, t.labeled(label, sw))
	return []ast.Stmt{block(pre...)}
}
