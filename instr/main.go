// Command instr copies the production code of a Go module (and of the
// third-party modules it uses) into a scratch directory, rewriting every
// source of nondeterminism - goroutines, channels, select, sync, atomics,
// time, context, net, randomness, map iteration - into calls to the
// deterministic simulation runtime (package simrt/...).
//
// It works from type information only and makes no assumption about how the
// code is written, so refactorings of the module under test go through.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/printer"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"sort"
	"strconv"
	"strings"
)

type listPkg struct {
	ImportPath string
	Dir        string
	Name       string
	Standard   bool
	Export     string
	GoFiles    []string
	Imports    []string
	Module     *struct {
		Path, Dir, Version, GoVersion string
		Main                          bool
	}
}

func fatal(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "instr: "+f+"\n", a...)
	os.Exit(2)
}

func goList(dir string, args ...string) []*listPkg {
	cmd := exec.Command("go", append([]string{"list"}, args...)...)
	cmd.Dir = dir
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errb
	if err := cmd.Run(); err != nil {
		fatal("go list %v: %v\n%s", args, err, errb.String())
	}
	dec := json.NewDecoder(&out)
	var res []*listPkg
	for {
		p := new(listPkg)
		if err := dec.Decode(p); err == io.EOF {
			break
		} else if err != nil {
			fatal("decode go list: %v", err)
		}
		res = append(res, p)
	}
	return res
}

// packages replaced by simulation stand-ins in instrumented code
var remap = map[string]string{
	"sync":                            "simrt/ssync",
	"sync/atomic":                     "simrt/satomic",
	"time":                            "simrt/stime",
	"context":                         "simrt/sctx",
	"net":                             "simrt/snet",
	"math/rand":                       "simrt/srand",
	"math/rand/v2":                    "simrt/srand2",
	"crypto/rand":                     "simrt/scrand",
	"runtime":                         "simrt/srt",
	"container/list":                  "simrt/slist",
	"github.com/singchia/go-timer/v2": "simrt/stimer",
}

// import paths copied but never rewritten
var plain = map[string]bool{
	"github.com/jumboframes/armorigo/log": true,
}

func main() {
	repo := flag.String("repo", "/repo", "")
	simrt := flag.String("simrt", "", "")
	harness := flag.String("harness", "", "")
	out := flag.String("out", "", "")
	roots := flag.String("roots", "./client,./server", "")
	flag.Parse()

	pk := goList(*repo, append([]string{"-deps", "-json=ImportPath,Dir,Name,Standard,GoFiles,Imports,Module"}, strings.Split(*roots, ",")...)...)
	var src []*listPkg
	stdSet := map[string]bool{"unsafe": true}
	for _, p := range pk {
		if p.Standard {
			continue
		}
		src = append(src, p)
		for _, i := range p.Imports {
			stdSet[i] = true
		}
	}
	for _, p := range src {
		delete(stdSet, p.ImportPath)
	}
	delete(stdSet, "C")
	var stds []string
	for s := range stdSet {
		if s != "unsafe" {
			stds = append(stds, s)
		}
	}
	sort.Strings(stds)
	exports := map[string]string{}
	for _, p := range goList(*repo, append([]string{"-export", "-deps", "-json=ImportPath,Export"}, stds...)...) {
		exports[p.ImportPath] = p.Export
	}
	fset := token.NewFileSet()
	std := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		e := exports[path]
		if e == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(e)
	})
	imp := &imp{std: std, done: map[string]*types.Package{}}

	type mod struct{ path, dir, gover, outdir string }
	mods := map[string]*mod{}
	var resets []string
	siteBase := 1 // site 0 is unknown
	for _, p := range src {
		if p.Module == nil {
			fatal("package %s has no module", p.ImportPath)
		}
		m := mods[p.Module.Path]
		if m == nil {
			m = &mod{path: p.Module.Path, dir: p.Module.Dir, gover: p.Module.GoVersion}
			if m.gover == "" {
				m.gover = "1.18"
			}
			m.outdir = filepath.Join(*out, "mods", strings.NewReplacer("/", "_", ".", "_").Replace(p.Module.Path))
			mods[m.path] = m
		}
		rel, err := filepath.Rel(m.dir, p.Dir)
		if err != nil {
			fatal("%v", err)
		}
		odir := filepath.Join(m.outdir, rel)
		if err := os.MkdirAll(odir, 0o755); err != nil {
			fatal("%v", err)
		}
		var files []*ast.File
		for _, f := range p.GoFiles {
			af, err := parser.ParseFile(fset, filepath.Join(p.Dir, f), nil, parser.ParseComments)
			if err != nil {
				fatal("parse: %v", err)
			}
			files = append(files, af)
		}
		info := &types.Info{
			Types:  map[ast.Expr]types.TypeAndValue{},
			Defs:   map[*ast.Ident]types.Object{},
			Uses:   map[*ast.Ident]types.Object{},
			Scopes: map[ast.Node]*types.Scope{},
		}
		conf := &types.Config{Importer: imp, GoVersion: "go" + m.gover}
		tp, err := conf.Check(p.ImportPath, fset, files, info)
		if err != nil {
			fatal("typecheck %s: %v", p.ImportPath, err)
		}
		imp.done[p.ImportPath] = tp
		if plain[p.ImportPath] {
			for i, f := range p.GoFiles {
				_ = i
				b, err := os.ReadFile(filepath.Join(p.Dir, f))
				if err != nil {
					fatal("%v", err)
				}
				if err := os.WriteFile(filepath.Join(odir, f), b, 0o644); err != nil {
					fatal("%v", err)
				}
			}
			continue
		}
		w := &rewriter{fset: fset, info: info, pkg: tp, yields: p.Module.Main, siteBase: siteBase}
		for i, f := range files {
			w.file(f)
			w.leftovers(f)
			var buf bytes.Buffer
			f.Comments = nil
			f.Doc = nil
			if err := (&printer.Config{Mode: printer.SourcePos | printer.TabIndent | printer.UseSpaces, Tabwidth: 8}).Fprint(&buf, fset, f); err != nil {
				fatal("print %s: %v", p.GoFiles[i], err)
			}
			if err := os.WriteFile(filepath.Join(odir, p.GoFiles[i]), buf.Bytes(), 0o644); err != nil {
				fatal("%v", err)
			}
		}
		gen := w.resetFile(p.Name, info)
		siteBase += len(w.sites)
		if err := os.WriteFile(filepath.Join(odir, "zz_sim_reset.go"), []byte(gen), 0o644); err != nil {
			fatal("%v", err)
		}
		if p.ImportPath == "github.com/singchia/go-timer/v2" {
			if err := os.WriteFile(filepath.Join(odir, "zz_sim_opts.go"), []byte(timerOpts), 0o644); err != nil {
				fatal("%v", err)
			}
		}
		resets = append(resets, p.ImportPath)
	}
	var names []string
	for n := range mods {
		names = append(names, n)
	}
	sort.Strings(names)
	var rep strings.Builder
	for _, n := range names {
		m := mods[n]
		var b strings.Builder
		fmt.Fprintf(&b, "module %s\n\ngo %s\n\nrequire simrt v0.0.0\n", m.path, atLeast18(m.gover))
		for _, o := range names {
			if o != n {
				fmt.Fprintf(&b, "require %s %s\n", o, ver(o))
			}
		}
		if err := os.WriteFile(filepath.Join(m.outdir, "go.mod"), []byte(b.String()), 0o644); err != nil {
			fatal("%v", err)
		}
		fmt.Fprintf(&rep, "require %s %s\nreplace %s => %s\n", n, ver(n), n, m.outdir)
	}
	// simulation runtime as a module of its own (it needs the real go-timer)
	cp(*simrt, filepath.Join(*out, "simrt"))
	var b strings.Builder
	b.WriteString("module simrt\n\ngo 1.24\n")
	for _, o := range names {
		fmt.Fprintf(&b, "require %s %s\n", o, ver(o))
	}
	os.WriteFile(filepath.Join(*out, "simrt", "go.mod"), []byte(b.String()), 0o644)
	hdir := filepath.Join(*out, "harness")
	cp(*harness, hdir)
	os.WriteFile(filepath.Join(hdir, "go.mod"), []byte("module harness\n\ngo 1.24\n\nrequire simrt v0.0.0\nreplace simrt => "+filepath.Join(*out, "simrt")+"\n"+rep.String()), 0o644)
	var r strings.Builder
	r.WriteString("package main\n\nimport (\n")
	for i, p := range resets {
		fmt.Fprintf(&r, "\tr%d %q\n", i, p)
	}
	r.WriteString(")\n\nfunc resetGlobals() {\n")
	for i := range resets {
		fmt.Fprintf(&r, "\tr%d.SimReset()\n", i)
	}
	r.WriteString("}\n")
	os.WriteFile(filepath.Join(hdir, "zz_resets.go"), []byte(r.String()), 0o644)
	fmt.Printf("instrumented %d packages, %d yield sites\n", len(resets), siteBase)
}

func ver(path string) string {
	if i := strings.LastIndex(path, "/v"); i >= 0 {
		if n, err := strconv.Atoi(path[i+2:]); err == nil {
			return fmt.Sprintf("v%d.0.0", n)
		}
	}
	return "v0.0.0"
}

func cp(from, to string) {
	err := filepath.Walk(from, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(from, p)
		if fi.IsDir() {
			return os.MkdirAll(filepath.Join(to, rel), 0o755)
		}
		if strings.HasSuffix(p, "go.mod") || strings.HasSuffix(p, "go.sum") {
			return nil
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		return os.WriteFile(filepath.Join(to, rel), b, 0o644)
	})
	if err != nil {
		fatal("copy: %v", err)
	}
}

type imp struct {
	std  types.Importer
	done map[string]*types.Package
}

func (i *imp) Import(path string) (*types.Package, error) {
	if p := i.done[path]; p != nil {
		return p, nil
	}
	if path == "unsafe" {
		return types.Unsafe, nil
	}
	return i.std.Import(path)
}

// ---------------------------------------------------------------- rewriting

type rewriter struct {
	fset     *token.FileSet
	info     *types.Info
	pkg      *types.Package
	yields   bool
	siteBase int
	sites    []string
	n        int
	used     bool
	fname    string
	inits    int

	resetN     int
	resetOf    map[*types.Var]string
	resetNames []string
}

const simName = "sim__"

func sel(name string) ast.Expr {
	return &ast.SelectorExpr{X: ast.NewIdent(simName), Sel: ast.NewIdent(name)}
}
func call(f ast.Expr, args ...ast.Expr) *ast.CallExpr { return &ast.CallExpr{Fun: f, Args: args} }
func (w *rewriter) sim(name string, args ...ast.Expr) *ast.CallExpr {
	w.used = true
	return call(sel(name), args...)
}
func (w *rewriter) tmp(p string) string { w.n++; return fmt.Sprintf("sim_%s%d", p, w.n) }
func id(s string) *ast.Ident            { return ast.NewIdent(s) }
func lit(i int) ast.Expr {
	return &ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(i)}
}

func (w *rewriter) file(f *ast.File) {
	w.used = false
	w.fname = filepath.Base(w.fset.Position(f.Pos()).Filename)
	var extra []ast.Decl
	// strip comments everywhere (the printer would misplace them)
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.GenDecl:
			x.Doc = nil
		case *ast.FuncDecl:
			x.Doc = nil
		case *ast.Field:
			x.Doc, x.Comment = nil, nil
		case *ast.ImportSpec:
			x.Doc, x.Comment = nil, nil
		case *ast.ValueSpec:
			x.Doc, x.Comment = nil, nil
		case *ast.TypeSpec:
			x.Doc, x.Comment = nil, nil
		}
		return true
	})
	for _, d := range f.Decls {
		if fd, ok := d.(*ast.FuncDecl); ok && fd.Recv == nil && fd.Name.Name == "init" && fd.Body != nil {
			w.inits++
			fd.Name = id(fmt.Sprintf("simInit%d", w.inits))
		}
		w.walk(reflect.ValueOf(d))
		if gd, ok := d.(*ast.GenDecl); ok && gd.Tok == token.VAR {
			for _, sp := range gd.Specs {
				extra = append(extra, w.resetVar(sp.(*ast.ValueSpec))...)
			}
		}
	}
	f.Decls = append(f.Decls, extra...)
	for _, s := range f.Imports {
		p, _ := strconv.Unquote(s.Path.Value)
		if r, ok := remap[p]; ok {
			if s.Name == nil {
				s.Name = id(pkgNameOf(p))
			}
			s.Path = &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(r), ValuePos: s.Path.Pos()}
		}
	}
	if w.used {
		gd := &ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{&ast.ImportSpec{Name: id(simName), Path: &ast.BasicLit{Kind: token.STRING, Value: `"simrt/sim"`}}}}
		f.Decls = append([]ast.Decl{gd}, f.Decls...)
	}
}

func pkgNameOf(p string) string {
	switch p {
	case "math/rand/v2":
		return "rand"
	case "github.com/singchia/go-timer/v2":
		return "timer"
	}
	return p[strings.LastIndex(p, "/")+1:]
}

var (
	exprT = reflect.TypeOf((*ast.Expr)(nil)).Elem()
	stmtT = reflect.TypeOf((*ast.Stmt)(nil)).Elem()
)

// walk rewrites all children of v in place (post-order).
func (w *rewriter) walk(v reflect.Value) {
	switch v.Kind() {
	case reflect.Interface:
		if v.IsNil() {
			return
		}
		w.walk(v.Elem())
	case reflect.Ptr:
		if v.IsNil() {
			return
		}
		switch v.Interface().(type) {
		case *ast.Object, *ast.Scope, *ast.CommentGroup, *ast.Comment:
			return
		}
		w.walk(v.Elem())
	case reflect.Struct:
		// select comm clauses are handled by their SelectStmt
		if v.Type() == reflect.TypeOf(ast.SelectStmt{}) {
			s := v.Addr().Interface().(*ast.SelectStmt)
			for _, c := range s.Body.List {
				cc := c.(*ast.CommClause)
				w.comm(cc)
				cc.Body = w.list(cc.Body)
			}
			return
		}
		for i := 0; i < v.NumField(); i++ {
			f := v.Field(i)
			switch {
			case f.Type() == exprT:
				w.setExpr(f)
			case f.Type() == stmtT:
				if !f.IsNil() {
					f.Set(reflect.ValueOf(w.stmt(f.Interface().(ast.Stmt))))
				}
			case f.Kind() == reflect.Slice && f.Type().Elem() == exprT:
				for j := 0; j < f.Len(); j++ {
					w.setExpr(f.Index(j))
				}
			case f.Kind() == reflect.Slice && f.Type().Elem() == stmtT:
				l := w.list(f.Interface().([]ast.Stmt))
				f.Set(reflect.ValueOf(l))
			case f.Kind() == reflect.Slice, f.Kind() == reflect.Ptr, f.Kind() == reflect.Interface:
				if f.Kind() == reflect.Slice {
					for j := 0; j < f.Len(); j++ {
						w.walk(f.Index(j))
					}
				} else {
					w.walk(f)
				}
			}
		}
	}
}

func (w *rewriter) setExpr(f reflect.Value) {
	if f.IsNil() {
		return
	}
	f.Set(reflect.ValueOf(w.expr(f.Interface().(ast.Expr))))
}

func under(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	return t.Underlying()
}

func (w *rewriter) isChan(e ast.Expr) bool {
	_, ok := under(w.info.TypeOf(e)).(*types.Chan)
	return ok
}
func (w *rewriter) isMap(e ast.Expr) bool {
	_, ok := under(w.info.TypeOf(e)).(*types.Map)
	return ok
}
func (w *rewriter) builtin(e ast.Expr) string {
	if i, ok := ast.Unparen(e).(*ast.Ident); ok {
		if b, ok := w.info.Uses[i].(*types.Builtin); ok {
			return b.Name()
		}
	}
	return ""
}

// leftovers refuses a tree in which a channel operation or a go statement
// escaped the rewriting: it would be invisible to the simulator.
func (w *rewriter) leftovers(f *ast.File) {
	ast.Inspect(f, func(n ast.Node) bool {
		bad := ""
		switch x := n.(type) {
		case *ast.SendStmt, *ast.SelectStmt, *ast.GoStmt:
			bad = fmt.Sprintf("%T", x)
		case *ast.UnaryExpr:
			if x.Op == token.ARROW {
				bad = "receive"
			}
		case *ast.CallExpr:
			if w.builtin(x.Fun) == "close" {
				bad = "close"
			}
		case *ast.RangeStmt:
			if t, ok := w.info.Types[x.X]; ok && t.Type != nil {
				if _, ok := t.Type.Underlying().(*types.Chan); ok {
					bad = "range over channel"
				}
			}
		}
		if bad != "" {
			fatal("%s: %s was not rewritten", w.fset.Position(n.Pos()), bad)
		}
		return true
	})
}

func (w *rewriter) kids(n any) { w.walk(reflect.ValueOf(n)) }

// expr rewrites an expression and returns its replacement.
func (w *rewriter) expr(e ast.Expr) ast.Expr {
	switch x := e.(type) {
	case *ast.UnaryExpr:
		if x.Op == token.ARROW {
			w.kids(x)
			return w.sim("Recv", x.X)
		}
	case *ast.CallExpr:
		switch w.builtin(x.Fun) {
		case "close":
			w.kids(x)
			return w.sim("Close", x.Args...)
		case "len":
			if len(x.Args) == 1 && w.isChan(x.Args[0]) {
				w.kids(x)
				return w.sim("Len", x.Args...)
			}
		}
	case *ast.IndexExpr:
		if w.yields && w.isMap(x.X) {
			w.kids(x)
			x.X = w.sim("MapR", x.X)
			return x
		}
	}
	w.kids(e)
	return e
}

// lvalue: map index expressions that are assigned to are left alone
func (w *rewriter) lhs(e ast.Expr) ast.Expr {
	if ix, ok := e.(*ast.IndexExpr); ok && w.isMap(ix.X) {
		w.kids(ix)
		return ix
	}
	return w.expr(e)
}

func pure(e ast.Expr) bool {
	switch x := e.(type) {
	case *ast.Ident:
		return true
	case *ast.SelectorExpr:
		return pure(x.X)
	case *ast.ParenExpr:
		return pure(x.X)
	}
	return false
}

// mapTarget returns the map expression written by statement s, if it is a
// plain side-effect-free one.
func (w *rewriter) mapTargets(s ast.Stmt) []ast.Expr {
	var res []ast.Expr
	add := func(e ast.Expr) {
		if ix, ok := ast.Unparen(e).(*ast.IndexExpr); ok && w.isMap(ix.X) && pure(ix.X) {
			res = append(res, ix.X)
		}
	}
	switch x := s.(type) {
	case *ast.AssignStmt:
		if x.Tok != token.DEFINE {
			for _, l := range x.Lhs {
				add(l)
			}
		}
	case *ast.IncDecStmt:
		add(x.X)
	case *ast.ExprStmt:
		if c, ok := x.X.(*ast.CallExpr); ok && w.builtin(c.Fun) == "delete" && len(c.Args) == 2 && pure(c.Args[0]) && w.isMap(c.Args[0]) {
			res = append(res, c.Args[0])
		}
	}
	return res
}

// field is the text of e if it is a plain a.b.c, else "".
func field(e ast.Expr) string {
	switch x := e.(type) {
	case *ast.Ident:
		return x.Name
	case *ast.SelectorExpr:
		if b := field(x.X); b != "" {
			return b + "." + x.Sel.Name
		}
	}
	return ""
}

// updates tells whether s computes the new value of a field from its old one,
// which is a read and a write that something else may come between.
func updates(s ast.Stmt) bool {
	calls := func(e ast.Expr) (found bool) {
		ast.Inspect(e, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.CallExpr:
				if f, ok := x.Fun.(*ast.Ident); !ok || f.Name != "append" && f.Name != "len" {
					found = true
				}
			case *ast.FuncLit, *ast.UnaryExpr:
				found = true
			}
			return true
		})
		return
	}
	switch x := s.(type) {
	case *ast.IncDecStmt:
		sel, ok := x.X.(*ast.SelectorExpr)
		return ok && field(sel) != ""
	case *ast.AssignStmt:
		if len(x.Lhs) != 1 || len(x.Rhs) != 1 || x.Tok == token.DEFINE {
			return false
		}
		sel, ok := x.Lhs[0].(*ast.SelectorExpr)
		if !ok || field(sel) == "" || calls(x.Rhs[0]) {
			return false
		}
		if x.Tok != token.ASSIGN {
			return true
		}
		found := false
		ast.Inspect(x.Rhs[0], func(n ast.Node) bool {
			if e, ok := n.(*ast.SelectorExpr); ok && field(e) == field(sel) {
				found = true
			}
			return true
		})
		return found
	}
	return false
}

// splitUpdate puts a scheduling point between the computation of the new value
// and the write.
func (w *rewriter) splitUpdate(s ast.Stmt) ast.Stmt {
	var f ast.Expr
	switch x := s.(type) {
	case *ast.IncDecStmt:
		f, x.X = x.X, id("simupd")
	case *ast.AssignStmt:
		f, x.Lhs[0] = x.Lhs[0], id("simupd")
	}
	c := w.sim("Y", lit(w.siteBase+len(w.sites)-1))
	c.Lparen, c.Rparen = s.Pos(), s.Pos()
	return &ast.BlockStmt{Lbrace: s.Pos(), Rbrace: s.Pos(), List: []ast.Stmt{
		&ast.AssignStmt{Lhs: []ast.Expr{id("simupd")}, TokPos: s.Pos(), Tok: token.DEFINE, Rhs: []ast.Expr{clone(f)}},
		s,
		&ast.ExprStmt{X: c},
		&ast.AssignStmt{Lhs: []ast.Expr{clone(f)}, TokPos: s.Pos(), Tok: token.ASSIGN, Rhs: []ast.Expr{id("simupd")}},
	}}
}

func clone(e ast.Expr) ast.Expr {
	switch x := e.(type) {
	case *ast.Ident:
		return id(x.Name)
	case *ast.SelectorExpr:
		return &ast.SelectorExpr{X: clone(x.X), Sel: id(x.Sel.Name)}
	case *ast.ParenExpr:
		return clone(x.X)
	}
	return e
}

func (w *rewriter) list(l []ast.Stmt) []ast.Stmt {
	var res []ast.Stmt
	for _, s := range l {
		switch s.(type) {
		case *ast.CaseClause, *ast.CommClause:
			res = append(res, w.stmt(s))
			continue
		}
		_, isGo := s.(*ast.GoStmt)
		if w.yields || isGo {
			if _, ok := s.(*ast.EmptyStmt); !ok {
				p := w.fset.Position(s.Pos())
				w.sites = append(w.sites, fmt.Sprintf("%s/%s:%d", w.pkg.Name(), w.fname, p.Line))
				c := w.sim("Y", lit(w.siteBase+len(w.sites)-1))
				c.Lparen, c.Rparen = s.Pos(), s.Pos()
				res = append(res, &ast.ExprStmt{X: c})
			}
		}
		var mt []ast.Expr
		if w.yields {
			mt = w.mapTargets(s)
		}
		for _, m := range mt {
			res = append(res, &ast.ExprStmt{X: w.sim("MapW", clone(m))})
		}
		split := w.yields && updates(s)
		st := w.stmt(s)
		if split {
			st = w.splitUpdate(st)
		}
		res = append(res, st)
		for _, m := range mt {
			res = append(res, &ast.ExprStmt{X: w.sim("MapWEnd", clone(m))})
		}
	}
	return res
}

func (w *rewriter) stmt(s ast.Stmt) ast.Stmt {
	switch x := s.(type) {
	case *ast.SendStmt:
		w.kids(x)
		return &ast.ExprStmt{X: call(&ast.SelectorExpr{X: w.sim("SendTo", x.Chan), Sel: id("Do")}, x.Value)}
	case *ast.AssignStmt:
		if len(x.Lhs) == 2 && len(x.Rhs) == 1 {
			if u, ok := ast.Unparen(x.Rhs[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
				for i := range x.Lhs {
					x.Lhs[i] = w.lhs(x.Lhs[i])
				}
				w.kids(u)
				x.Rhs[0] = w.sim("Recv2", u.X)
				return x
			}
		}
		for i := range x.Lhs {
			x.Lhs[i] = w.lhs(x.Lhs[i])
		}
		for i := range x.Rhs {
			x.Rhs[i] = w.expr(x.Rhs[i])
		}
		return x
	case *ast.IncDecStmt:
		x.X = w.lhs(x.X)
		return x
	case *ast.ExprStmt:
		if c, ok := x.X.(*ast.CallExpr); ok && w.builtin(c.Fun) == "delete" {
			w.kids(c)
			return x
		}
	case *ast.DeclStmt:
		if gd, ok := x.Decl.(*ast.GenDecl); ok {
			for _, sp := range gd.Specs {
				if vs, ok := sp.(*ast.ValueSpec); ok && len(vs.Names) == 2 && len(vs.Values) == 1 {
					if u, ok := ast.Unparen(vs.Values[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
						w.kids(u)
						vs.Values[0] = w.sim("Recv2", u.X)
					}
				}
			}
		}
	case *ast.GoStmt:
		return w.goStmt(x)
	case *ast.DeferStmt:
		x.Call = w.expr(x.Call).(*ast.CallExpr)
		return x
	case *ast.RangeStmt:
		return w.rangeStmt(x)
	case *ast.SelectStmt:
		return w.selectStmt(x)
	case *ast.LabeledStmt:
		x.Stmt = w.stmt(x.Stmt)
		return x
	}
	w.kids(s)
	return s
}

func (w *rewriter) goStmt(g *ast.GoStmt) ast.Stmt {
	c := g.Call
	if fl, ok := c.Fun.(*ast.FuncLit); ok && len(c.Args) == 0 && fl.Type.Results == nil {
		w.kids(c)
		r := w.sim("Go", fl)
		r.Lparen = g.Pos()
		return &ast.ExprStmt{X: r}
	}
	var pre []ast.Stmt
	bind := func(e ast.Expr) ast.Expr {
		t := w.tmp("g")
		pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{id(t)}, Tok: token.DEFINE, Rhs: []ast.Expr{e}})
		return id(t)
	}
	bi := w.builtin(c.Fun)
	keepFun := bi != ""
	switch f := ast.Unparen(c.Fun).(type) {
	case *ast.Ident:
		if _, ok := w.info.Uses[f].(*types.Func); ok {
			keepFun = true
		}
	case *ast.SelectorExpr:
		if xi, ok := f.X.(*ast.Ident); ok {
			if _, ok := w.info.Uses[xi].(*types.PkgName); ok {
				if _, ok := w.info.Uses[f.Sel].(*types.Func); ok {
					keepFun = true
				}
			}
		}
	}
	keepArg := make([]bool, len(c.Args))
	for i, a := range c.Args {
		tv := w.info.Types[a]
		if tv.Value != nil || tv.IsNil() || tv.IsType() {
			keepArg[i] = true
		}
		if b, ok := tv.Type.(*types.Basic); ok && b.Info()&types.IsUntyped != 0 {
			keepArg[i] = true
		}
		if _, ok := tv.Type.(*types.Tuple); ok {
			keepArg[i] = true
		}
	}
	w.kids(c)
	if bi != "" {
		// the call itself may have been replaced (close)
		ne := w.expr(&ast.CallExpr{Fun: c.Fun, Args: c.Args})
		if nc, ok := ne.(*ast.CallExpr); ok {
			c = nc
		}
	}
	if !keepFun {
		c.Fun = bind(c.Fun)
	}
	for i := range c.Args {
		if !keepArg[i] {
			c.Args[i] = bind(c.Args[i])
		}
	}
	fl := &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: c}}}}
	pre = append(pre, &ast.ExprStmt{X: w.sim("Go", fl)})
	return &ast.BlockStmt{List: pre}
}

func blank(e ast.Expr) bool {
	if e == nil {
		return true
	}
	i, ok := e.(*ast.Ident)
	return ok && i.Name == "_"
}

func (w *rewriter) rangeStmt(r *ast.RangeStmt) ast.Stmt {
	isC, isM := w.isChan(r.X), w.isMap(r.X)
	if !isC && !isM {
		w.kids(r)
		return r
	}
	key, val := r.Key, r.Value
	if key != nil {
		key = w.lhs(key)
	}
	if val != nil {
		val = w.lhs(val)
	}
	r.X = w.expr(r.X)
	r.Body.List = w.list(r.Body.List)
	it := w.tmp("it")
	fn := "RangeChan"
	if isM {
		fn = "RangeMap"
	}
	var asg []ast.Stmt
	var l, rr []ast.Expr
	if !blank(key) {
		l = append(l, key)
		rr = append(rr, call(&ast.SelectorExpr{X: id(it), Sel: id("K")}))
	}
	if !blank(val) {
		l = append(l, val)
		rr = append(rr, call(&ast.SelectorExpr{X: id(it), Sel: id("V")}))
	}
	if len(l) > 0 {
		asg = append(asg, &ast.AssignStmt{Lhs: l, Tok: r.Tok, Rhs: rr})
	}
	body := &ast.BlockStmt{Lbrace: r.Body.Lbrace, Rbrace: r.Body.Rbrace, List: append(asg, r.Body.List...)}
	return &ast.ForStmt{
		For:  r.For,
		Init: &ast.AssignStmt{Lhs: []ast.Expr{id(it)}, Tok: token.DEFINE, Rhs: []ast.Expr{w.sim(fn, r.X)}},
		Cond: call(&ast.SelectorExpr{X: id(it), Sel: id("Next")}),
		Body: body,
	}
}

// comm rewrites the operands (not the operation) of a communication clause.
func (w *rewriter) comm(cc *ast.CommClause) {
	switch x := cc.Comm.(type) {
	case *ast.SendStmt:
		x.Chan = w.expr(x.Chan)
		x.Value = w.expr(x.Value)
	case *ast.ExprStmt:
		u := ast.Unparen(x.X).(*ast.UnaryExpr)
		u.X = w.expr(u.X)
	case *ast.AssignStmt:
		u := ast.Unparen(x.Rhs[0]).(*ast.UnaryExpr)
		u.X = w.expr(u.X)
		if x.Tok != token.DEFINE {
			for i := range x.Lhs {
				x.Lhs[i] = w.lhs(x.Lhs[i])
			}
		}
	}
}

func (w *rewriter) selectStmt(s *ast.SelectStmt) ast.Stmt {
	w.kids(s)
	if len(s.Body.List) == 0 {
		return &ast.ForStmt{For: s.Select, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: w.sim("BlockForever")}}}}
	}
	var names, inits []ast.Expr
	var clauses []ast.Stmt
	hasDefault := false
	args := []ast.Expr{nil}
	for _, c := range s.Body.List {
		cc := c.(*ast.CommClause)
		if cc.Comm == nil {
			hasDefault = true
			clauses = append(clauses, &ast.CaseClause{Case: cc.Case, Colon: cc.Colon, Body: cc.Body})
			continue
		}
		n := w.tmp("c")
		idx := len(names)
		body := cc.Body
		m := func(name string) ast.Expr {
			return call(&ast.SelectorExpr{X: id(n), Sel: id(name)})
		}
		switch x := cc.Comm.(type) {
		case *ast.SendStmt:
			inits = append(inits, call(&ast.SelectorExpr{X: w.sim("SendCase", x.Chan), Sel: id("Val")}, x.Value))
		case *ast.ExprStmt:
			inits = append(inits, w.sim("RecvCase", ast.Unparen(x.X).(*ast.UnaryExpr).X))
		case *ast.AssignStmt:
			inits = append(inits, w.sim("RecvCase", ast.Unparen(x.Rhs[0]).(*ast.UnaryExpr).X))
			f := "V"
			if len(x.Lhs) == 2 {
				f = "V2"
			}
			body = append([]ast.Stmt{&ast.AssignStmt{Lhs: x.Lhs, Tok: x.Tok, TokPos: x.TokPos, Rhs: []ast.Expr{m(f)}}}, body...)
		}
		names = append(names, id(n))
		args = append(args, id(n))
		clauses = append(clauses, &ast.CaseClause{Case: cc.Case, Colon: cc.Colon, List: []ast.Expr{lit(idx)}, Body: body})
	}
	args[0] = id(strconv.FormatBool(hasDefault))
	if !hasDefault {
		clauses = append(clauses, &ast.CaseClause{Body: []ast.Stmt{&ast.ExprStmt{X: call(id("panic"), &ast.BasicLit{Kind: token.STRING, Value: `"sim: unreachable select"`})}}})
	}
	sw := &ast.SwitchStmt{Switch: s.Select, Tag: w.sim("Select", args...), Body: &ast.BlockStmt{Lbrace: s.Body.Lbrace, Rbrace: s.Body.Rbrace, List: clauses}}
	if len(names) > 0 {
		sw.Init = &ast.AssignStmt{Lhs: names, Tok: token.DEFINE, Rhs: inits}
	}
	return sw
}

// resetVar emits functions that put the variables of one spec back to their
// initial values.
func (w *rewriter) resetVar(vs *ast.ValueSpec) []ast.Decl {
	var res []ast.Decl
	fn := func(key *types.Var, body ...ast.Stmt) {
		w.resetN++
		n := fmt.Sprintf("simResetVar%d", w.resetN)
		if w.resetOf == nil {
			w.resetOf = map[*types.Var]string{}
		}
		w.resetOf[key] = n
		w.resetNames = append(w.resetNames, n)
		res = append(res, &ast.FuncDecl{Name: id(n), Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: body}})
	}
	obj := func(i *ast.Ident) *types.Var { v, _ := w.info.Defs[i].(*types.Var); return v }
	if len(vs.Values) == 0 {
		for _, n := range vs.Names {
			if n.Name == "_" {
				continue
			}
			t := w.tmp("z")
			fn(obj(n), &ast.DeclStmt{Decl: &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{Names: []*ast.Ident{id(t)}, Type: vs.Type}}}},
				&ast.AssignStmt{Lhs: []ast.Expr{id(n.Name)}, Tok: token.ASSIGN, Rhs: []ast.Expr{id(t)}})
		}
		return res
	}
	if len(vs.Values) == len(vs.Names) {
		for i, n := range vs.Names {
			if n.Name != "_" {
				fn(obj(n), &ast.AssignStmt{Lhs: []ast.Expr{id(n.Name)}, Tok: token.ASSIGN, Rhs: []ast.Expr{vs.Values[i]}})
			}
		}
		return res
	}
	var l []ast.Expr
	var first *types.Var
	for _, n := range vs.Names {
		l = append(l, id(n.Name))
		if first == nil && n.Name != "_" {
			first = obj(n)
		}
	}
	if first != nil {
		fn(first, &ast.AssignStmt{Lhs: l, Tok: token.ASSIGN, Rhs: vs.Values})
	}
	return res
}

// resetFile generates SimReset, which puts every package-level variable back
// to its initial value, so that runs in one process are independent.
func (w *rewriter) resetFile(name string, info *types.Info) string {
	var b strings.Builder
	fmt.Fprintf(&b, "package %s\n\nimport \"simrt/sim\"\n\n", name)
	fmt.Fprintf(&b, "// SimReset re-runs package initialisation.\nfunc SimReset() {\n")
	late := map[string]bool{}
	var order []string
	for _, in := range info.InitOrder {
		for _, v := range in.Lhs {
			if n := w.resetOf[v]; n != "" && !late[n] {
				late[n] = true
				order = append(order, n)
			}
		}
	}
	for _, n := range w.resetNames {
		if !late[n] {
			fmt.Fprintf(&b, "\t%s()\n", n)
		}
	}
	for _, n := range order {
		fmt.Fprintf(&b, "\t%s()\n", n)
	}
	for i := 1; i <= w.inits; i++ {
		fmt.Fprintf(&b, "\tsimInit%d()\n", i)
	}
	b.WriteString("}\n\nfunc init() {\n")
	for i := 1; i <= w.inits; i++ {
		fmt.Fprintf(&b, "\tsimInit%d()\n", i)
	}
	fmt.Fprintf(&b, "\tsim.AddSites(%d, []string{\n", w.siteBase)
	for _, s := range w.sites {
		fmt.Fprintf(&b, "\t\t%q,\n", s)
	}
	b.WriteString("\t})\n}\n")
	return b.String()
}

// timerOpts lets the timer stand-in read the (unexported) tick options.
const timerOpts = `package timer

type SimOpt struct {
	Data      interface{}
	Ch        chan *Event
	ChOutside bool
	Handler   func(*Event)
	Cyc       bool
}

func SimApply(opts ...TickOption) SimOpt {
	o := &tickOption{}
	for _, f := range opts {
		f(o)
	}
	return SimOpt{o.data, o.ch, o.chOutside, o.handler, o.cyclically}
}
`

// atLeast18 raises a language version so that generic calls are accepted.
func atLeast18(v string) string {
	f := strings.Split(v, ".")
	if len(f) >= 2 && f[0] == "1" {
		if n, err := strconv.Atoi(f[1]); err == nil && n < 18 {
			return "1.18"
		}
	}
	return v
}
