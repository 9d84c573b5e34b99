// simgen rewrites, in place, the packages of a scratch copy of the module so
// that every goroutine, channel operation, lock, timer, map iteration, random
// number and network connection goes through the simulator (zz_sim/...).
//
// usage: simgen DIR MODULE PKG...   (packages named by import path)
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/constant"
	"go/importer"
	"go/parser"
	"go/printer"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

// shims maps standard packages to their stand-ins.
var shims = map[string]string{
	"sync":       "ssync",
	"time":       "stime",
	"net":        "snet",
	"context":    "scontext",
	"math/rand":  "srand",
	"crypto/tls": "stls",
	"os":         "sos",
	"maps":       "smaps",
}

// cmdShims are the further stand-ins of the command line tool's packages.
var cmdShims = map[string]string{
	"fmt":                      "sfmt",
	"os/signal":                "ssignal",
	"github.com/gin-gonic/gin": "sgin",
}

func isCmd(path string) bool { return strings.Contains(path, "/command/") }

type pkgInfo struct {
	ImportPath string
	Dir        string
	Name       string
	GoFiles    []string
	Export     string
	Standard   bool
}

func die(f string, a ...any) { fmt.Fprintf(os.Stderr, "simgen: "+f+"\n", a...); os.Exit(2) }

func goList(dir string, args ...string) []pkgInfo {
	cmd := exec.Command("go", append([]string{"list", "-export", "-deps", "-json=ImportPath,Dir,Name,GoFiles,Export,Standard"}, args...)...)
	cmd.Dir = dir
	var eb bytes.Buffer
	cmd.Stderr = &eb
	out, err := cmd.Output()
	if err != nil {
		die("go list: %v\n%s", err, eb.String())
	}
	dec := json.NewDecoder(bytes.NewReader(out))
	var ps []pkgInfo
	for {
		var p pkgInfo
		if err := dec.Decode(&p); err == io.EOF {
			break
		} else if err != nil {
			die("go list output: %v", err)
		}
		ps = append(ps, p)
	}
	return ps
}

func main() {
	if len(os.Args) < 4 {
		die("usage: simgen DIR MODULE PKG...")
	}
	dir, mod := os.Args[1], os.Args[2]
	var std []string
	for s := range shims {
		std = append(std, s)
	}
	for s := range cmdShims {
		std = append(std, s)
	}
	sort.Strings(std)
	pkgs := goList(dir, append(append([]string{}, os.Args[3:]...), std...)...)
	exports := map[string]string{}
	for _, p := range pkgs {
		exports[p.ImportPath] = p.Export
	}
	fset := token.NewFileSet()
	imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		e := exports[path]
		if e == "" {
			return nil, fmt.Errorf("no export data for %q", path)
		}
		return os.Open(e)
	})
	genAliases(dir, mod, std, imp)
	var done []string
	for _, p := range pkgs {
		if p.Standard || !(p.ImportPath == mod || strings.HasPrefix(p.ImportPath, mod+"/")) || strings.Contains(p.ImportPath, "/zz_sim") {
			continue
		}
		rewritePackage(fset, imp, mod, p)
		if p.Name != "main" {
			done = append(done, p.ImportPath)
		}
	}
	genReset(dir, done)
}

// genReset writes the function that resets every package, dependencies first.
func genReset(dir string, pkgs []string) {
	var b, lib, tool bytes.Buffer
	b.WriteString("package allreset\n\nimport (\n")
	for i, p := range pkgs {
		fmt.Fprintf(&b, "\tp%d %q\n", i, p)
		if isCmd(p) {
			fmt.Fprintf(&tool, "\tp%d.ZzSimReset()\n", i)
		} else {
			fmt.Fprintf(&lib, "\tp%d.ZzSimReset()\n", i)
		}
	}
	fmt.Fprintf(&b, ")\n\n// Library resets the packages of the library.\nfunc Library() {\n%s}\n\n// Tool resets the packages of the command line tool.\nfunc Tool() {\n%s}\n", lib.String(), tool.String())
	if err := os.WriteFile(filepath.Join(dir, "zz_sim", "allreset", "allreset.go"), b.Bytes(), 0o644); err != nil {
		die("%v", err)
	}
}

// genAliases completes every stand-in package with aliases for whatever the
// real package exports and the stand-in does not define itself.
func genAliases(dir, mod string, std []string, imp types.Importer) {
	for _, path := range std {
		sname := shims[path]
		if sname == "" {
			sname = cmdShims[path]
		}
		sdir := filepath.Join(dir, "zz_sim", sname)
		own := map[string]bool{}
		fs := token.NewFileSet()
		ents, err := os.ReadDir(sdir)
		if err != nil {
			die("%v", err)
		}
		for _, e := range ents {
			if !strings.HasSuffix(e.Name(), ".go") || e.Name() == "zz_alias.go" {
				continue
			}
			f, err := parser.ParseFile(fs, filepath.Join(sdir, e.Name()), nil, 0)
			if err != nil {
				die("%v", err)
			}
			for _, d := range f.Decls {
				switch d := d.(type) {
				case *ast.FuncDecl:
					if d.Recv == nil {
						own[d.Name.Name] = true
					}
				case *ast.GenDecl:
					for _, s := range d.Specs {
						switch s := s.(type) {
						case *ast.TypeSpec:
							own[s.Name.Name] = true
						case *ast.ValueSpec:
							for _, n := range s.Names {
								own[n.Name] = true
							}
						}
					}
				}
			}
		}
		p, err := imp.Import(path)
		if err != nil {
			die("import %s: %v", path, err)
		}
		var b bytes.Buffer
		fmt.Fprintf(&b, "package %s\n\nimport real %q\n\n", sname, path)
		n := 0
		for _, name := range p.Scope().Names() {
			if !token.IsExported(name) || own[name] {
				continue
			}
			switch o := p.Scope().Lookup(name).(type) {
			case *types.TypeName:
				if nt, ok := o.Type().(*types.Named); ok && nt.TypeParams().Len() > 0 {
					continue
				}
				fmt.Fprintf(&b, "type %s = real.%s\n", name, name)
			case *types.Const:
				fmt.Fprintf(&b, "const %s = real.%s\n", name, name)
			case *types.Var:
				fmt.Fprintf(&b, "var %s = real.%s\n", name, name)
			case *types.Func:
				if o.Type().(*types.Signature).TypeParams().Len() > 0 {
					continue
				}
				fmt.Fprintf(&b, "var %s = real.%s\n", name, name)
			}
			n++
		}
		if n == 0 {
			b.Reset()
			fmt.Fprintf(&b, "package %s\n", sname)
		}
		if err := os.WriteFile(filepath.Join(sdir, "zz_alias.go"), b.Bytes(), 0o644); err != nil {
			die("%v", err)
		}
	}
}

type rewriter struct {
	cmd    bool
	fset   *token.FileSet
	info   *types.Info
	mod    string
	n      int
	used   bool
	file   string
	inits  *[]string
	caught map[types.Object]bool // local variables used in function literals inside their function
}

func rewritePackage(fset *token.FileSet, imp types.Importer, mod string, p pkgInfo) {
	var files []*ast.File
	for _, name := range p.GoFiles {
		f, err := parser.ParseFile(fset, filepath.Join(p.Dir, name), nil, parser.SkipObjectResolution)
		if err != nil {
			die("%v", err)
		}
		files = append(files, f)
	}
	info := &types.Info{
		Types: map[ast.Expr]types.TypeAndValue{},
		Defs:  map[*ast.Ident]types.Object{},
		Uses:  map[*ast.Ident]types.Object{},

		Selections: map[*ast.SelectorExpr]*types.Selection{},
	}
	conf := types.Config{Importer: imp, FakeImportC: true}
	tp, err := conf.Check(p.ImportPath, fset, files, info)
	if err != nil {
		die("typecheck %s: %v", p.ImportPath, err)
	}
	resetSrc := map[string][]string{}
	// package-level state: re-evaluated before every run
	type initStep struct{ code string }
	var steps []string
	initialised := map[types.Object]bool{}
	varInit := map[types.Object]int{}
	type fileInit struct {
		file *ast.File
		fn   string
	}
	for i, in := range info.InitOrder {
		for _, v := range in.Lhs {
			initialised[v] = true
			varInit[v] = i
		}
	}
	// initialiser functions live in the file of the declaration, where its imports are in scope
	for fi, f := range files {
		for _, d := range f.Decls {
			gd, ok := d.(*ast.GenDecl)
			if !ok || gd.Tok != token.VAR {
				continue
			}
			for _, s := range gd.Specs {
				vs := s.(*ast.ValueSpec)
				if len(vs.Values) == 0 {
					for _, n := range vs.Names {
						if n.Name == "_" {
							continue
						}
						var tb bytes.Buffer
						printer.Fprint(&tb, fset, vs.Type)
						steps = append(steps, fmt.Sprintf("%s = *new(%s)", n.Name, tb.String()))
						resetSrc[p.GoFiles[fi]] = append(resetSrc[p.GoFiles[fi]], fmt.Sprintf("func zzZero_%s() { %s = *new(%s) }", n.Name, n.Name, tb.String()))
						steps[len(steps)-1] = fmt.Sprintf("zzZero_%s()", n.Name)
					}
				}
			}
		}
	}
	var initFns []string
	nInit := 0
	for fi, f := range files {
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if ok && fd.Recv == nil && fd.Name.Name == "init" {
				nInit++
				fd.Name.Name = fmt.Sprintf("zzInit%d", nInit)
				initFns = append(initFns, fd.Name.Name)
			}
		}
		_ = fi
	}
	declOf := map[string]int{} // var name -> file index
	for fi, f := range files {
		for _, d := range f.Decls {
			if gd, ok := d.(*ast.GenDecl); ok && gd.Tok == token.VAR {
				for _, s := range gd.Specs {
					for _, n := range s.(*ast.ValueSpec).Names {
						declOf[n.Name] = fi
					}
				}
			}
		}
	}
	type pending struct {
		fi   int
		name string
		lhs  []string
		rhs  ast.Expr
	}
	var pend []pending
	for i, in := range info.InitOrder {
		var lhs []string
		fi := -1
		for _, v := range in.Lhs {
			lhs = append(lhs, v.Name())
			if v.Name() != "_" {
				fi = declOf[v.Name()]
			}
		}
		if fi < 0 {
			continue
		}
		pend = append(pend, pending{fi, fmt.Sprintf("zzVar%d", i), lhs, in.Rhs})
		steps = append(steps, fmt.Sprintf("zzVar%d()", i))
	}

	caught := map[types.Object]bool{}
	for _, f := range files {
		ast.Inspect(f, func(n ast.Node) bool {
			if fl, ok := n.(*ast.FuncLit); ok {
				ast.Inspect(fl.Body, func(n ast.Node) bool {
					if id, ok := n.(*ast.Ident); ok {
						if v, ok := info.Uses[id].(*types.Var); ok && !v.IsField() && (v.Pos() < fl.Pos() || v.Pos() > fl.End()) {
							caught[v] = true
						}
					}
					return true
				})
			}
			return true
		})
	}
	for fi, f := range files {
		r := &rewriter{cmd: isCmd(p.ImportPath), fset: fset, info: info, mod: mod, file: p.GoFiles[fi], caught: caught}
		r.imports(f)
		for _, d := range f.Decls {
			switch d := d.(type) {
			case *ast.FuncDecl:
				if d.Body != nil {
					r.block(d.Body)
				}
			case *ast.GenDecl:
				for _, s := range d.Specs {
					if vs, ok := s.(*ast.ValueSpec); ok {
						for i := range vs.Values {
							vs.Values[i] = r.expr(vs.Values[i])
						}
					}
				}
			}
		}
		if r.used {
			addImport(f, "sim_zz", mod+"/zz_sim/sim")
		}
		var b bytes.Buffer
		f.Comments = nil
		if err := (&printer.Config{Mode: printer.UseSpaces | printer.TabIndent, Tabwidth: 8}).Fprint(&b, fset, f); err != nil {
			die("print: %v", err)
		}
		b.WriteString("\n")
		for _, s := range resetSrc[p.GoFiles[fi]] {
			b.WriteString(s + "\n")
		}
		for _, pd := range pend {
			if pd.fi == fi {
				fmt.Fprintf(&b, "func %s() { %s = ", pd.name, strings.Join(pd.lhs, ", "))
				printer.Fprint(&b, fset, pd.rhs)
				b.WriteString(" }\n")
			}
		}
		if err := os.WriteFile(filepath.Join(p.Dir, p.GoFiles[fi]), b.Bytes(), 0o644); err != nil {
			die("%v", err)
		}
	}
	var b bytes.Buffer
	fmt.Fprintf(&b, "package %s\n\n// ZzSimReset restores the package-level state to what a fresh process has.\nfunc ZzSimReset() {\n", tp.Name())
	for _, s := range steps {
		b.WriteString("\t" + s + "\n")
	}
	for _, s := range initFns {
		b.WriteString("\t" + s + "()\n")
	}
	b.WriteString("}\n\nfunc init() {\n")
	for _, s := range initFns {
		b.WriteString("\t" + s + "()\n")
	}
	b.WriteString("}\n")
	if err := os.WriteFile(filepath.Join(p.Dir, "zz_reset.go"), b.Bytes(), 0o644); err != nil {
		die("%v", err)
	}
}

func addImport(f *ast.File, name, path string) {
	spec := &ast.ImportSpec{Name: ast.NewIdent(name), Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(path)}}
	f.Decls = append([]ast.Decl{&ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{spec}}}, f.Decls...)
}

func (r *rewriter) imports(f *ast.File) {
	for _, d := range f.Decls {
		gd, ok := d.(*ast.GenDecl)
		if !ok || gd.Tok != token.IMPORT {
			continue
		}
		for _, s := range gd.Specs {
			is := s.(*ast.ImportSpec)
			path, _ := strconv.Unquote(is.Path.Value)
			sh, ok := shims[path]
			if !ok && r.cmd {
				sh, ok = cmdShims[path]
			}
			if ok {
				if is.Name == nil {
					is.Name = ast.NewIdent(path[strings.LastIndexByte(path, '/')+1:])
				}
				is.Path.Value = strconv.Quote(r.mod + "/zz_sim/" + sh)
				is.EndPos = 0
			}
		}
	}
}

func (r *rewriter) sim(name string) ast.Expr {
	r.used = true
	return &ast.SelectorExpr{X: ast.NewIdent("sim_zz"), Sel: ast.NewIdent(name)}
}

func (r *rewriter) call(name string, args ...ast.Expr) *ast.CallExpr {
	return &ast.CallExpr{Fun: r.sim(name), Args: args}
}

func (r *rewriter) fresh(p string) *ast.Ident {
	r.n++
	return ast.NewIdent(fmt.Sprintf("zz_%s%d", p, r.n))
}

func (r *rewriter) typeOf(e ast.Expr) types.Type {
	if tv, ok := r.info.Types[e]; ok && tv.Type != nil {
		return tv.Type
	}
	if id, ok := e.(*ast.Ident); ok {
		if o := r.info.Uses[id]; o != nil {
			return o.Type()
		}
		if o := r.info.Defs[id]; o != nil {
			return o.Type()
		}
	}
	return nil
}

func under(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	u := t.Underlying()
	if tp, ok := u.(*types.Interface); ok {
		// type parameter constrained to one core type
		_ = tp
	}
	return u
}

func (r *rewriter) isChan(e ast.Expr) bool { _, ok := under(r.typeOf(e)).(*types.Chan); return ok }
func (r *rewriter) isMap(e ast.Expr) bool  { _, ok := under(r.typeOf(e)).(*types.Map); return ok }

func (r *rewriter) isBuiltin(e ast.Expr, name string) bool {
	id, ok := e.(*ast.Ident)
	if !ok || id.Name != name {
		return false
	}
	_, ok = r.info.Uses[id].(*types.Builtin)
	return ok
}

// block rewrites a statement list and inserts a preemption point before every statement.
func (r *rewriter) block(b *ast.BlockStmt) {
	if b == nil {
		return
	}
	b.List = r.stmts(b.List, true)
}

func (r *rewriter) yield() ast.Stmt { return &ast.ExprStmt{X: r.call("Y")} }

func (r *rewriter) stmts(list []ast.Stmt, atLeastOne bool) []ast.Stmt {
	var out []ast.Stmt
	for _, s := range list {
		switch s.(type) {
		case *ast.DeclStmt, *ast.EmptyStmt:
			if ds, ok := s.(*ast.DeclStmt); ok {
				if gd := ds.Decl.(*ast.GenDecl); gd.Tok == token.VAR {
					out = append(out, r.yield())
				}
			}
		default:
			out = append(out, r.yield())
		}
		out = append(out, r.split(s)...)
	}
	if atLeastOne && len(out) == 0 {
		out = append(out, r.yield())
	}
	return out
}

// shared tells whether an expression is a variable other goroutines may reach:
// a struct field, a package variable or a local variable that function literals use.
// It may be evaluated again, having no calls or index expressions.
func (r *rewriter) shared(e ast.Expr) bool {
	switch e := e.(type) {
	case *ast.ParenExpr:
		return r.shared(e.X)
	case *ast.Ident:
		v, ok := r.info.Uses[e].(*types.Var)
		if !ok || v.IsField() || v.Pkg() == nil {
			return false
		}
		if v.Parent() == v.Pkg().Scope() {
			return true
		}
		return r.caught[v]
	case *ast.SelectorExpr:
		if s := r.info.Selections[e]; s != nil {
			return s.Kind() == types.FieldVal && r.path(e.X)
		}
		return false
	}
	return false
}

func (r *rewriter) path(e ast.Expr) bool {
	switch e := e.(type) {
	case *ast.ParenExpr:
		return r.path(e.X)
	case *ast.StarExpr:
		return r.path(e.X)
	case *ast.Ident:
		_, ok := r.info.Uses[e].(*types.Var)
		return ok
	case *ast.SelectorExpr:
		if s := r.info.Selections[e]; s != nil {
			return s.Kind() == types.FieldVal && r.path(e.X)
		}
	}
	return false
}

// readsShared tells whether evaluating an expression reads shared variables and calls no functions
// (but conversions and builtins).
func (r *rewriter) readsShared(e ast.Expr) bool {
	found, bad := false, false
	ast.Inspect(e, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.FuncLit:
			bad = true
			return false
		case *ast.CallExpr:
			if tv, ok := r.info.Types[n.Fun]; !ok || !tv.IsType() && !tv.IsBuiltin() {
				bad = true
			}
		case *ast.UnaryExpr:
			if n.Op == token.ARROW || n.Op == token.AND {
				bad = true
			}
		case *ast.SelectorExpr:
			if r.shared(n) {
				found = true
			}
		case *ast.Ident:
			if r.shared(n) {
				found = true
			}
		}
		return true
	})
	return found && !bad
}

// split rewrites one statement of a list. What other goroutines may do
// between its steps becomes visible: an assignment to a shared variable that
// reads shared variables has a preemption point between reading and writing,
// and a write to a shared map takes time.
func (r *rewriter) split(s ast.Stmt) []ast.Stmt {
	switch x := s.(type) {
	case *ast.IncDecStmt:
		if r.shared(x.X) {
			op := token.ADD
			if x.Tok == token.DEC {
				op = token.SUB
			}
			id := r.fresh("h")
			return block(
				&ast.AssignStmt{Lhs: []ast.Expr{id}, Tok: token.DEFINE, Rhs: []ast.Expr{x.X}},
				r.yield(),
				&ast.AssignStmt{Lhs: []ast.Expr{x.X}, Tok: token.ASSIGN, Rhs: []ast.Expr{&ast.BinaryExpr{X: id, Op: op, Y: &ast.BasicLit{Kind: token.INT, Value: "1"}}}},
			)
		}
		if m := r.sharedMap(x.X); m != nil {
			return []ast.Stmt{r.stmt(s), &ast.ExprStmt{X: r.call("MW", m)}}
		}
	case *ast.AssignStmt:
		if x.Tok != token.DEFINE && len(x.Lhs) == 1 && len(x.Rhs) == 1 && r.shared(x.Lhs[0]) {
			if op, ok := assignOps[x.Tok]; ok && r.pure(x.Rhs[0]) {
				id := r.fresh("h")
				lhs := x.Lhs[0]
				return block(
					&ast.AssignStmt{Lhs: []ast.Expr{id}, Tok: token.DEFINE, Rhs: []ast.Expr{lhs}},
					r.yield(),
					&ast.AssignStmt{Lhs: []ast.Expr{lhs}, Tok: token.ASSIGN, Rhs: []ast.Expr{&ast.BinaryExpr{X: id, Op: op, Y: &ast.ParenExpr{X: r.expr(x.Rhs[0])}}}},
				)
			}
			tv := r.info.Types[x.Rhs[0]]
			if x.Tok == token.ASSIGN && tv.Type != nil && tv.Value == nil && !tv.IsNil() && r.ownType(x.Rhs[0]) && r.readsShared(x.Rhs[0]) {
				id := r.fresh("h")
				return block(
					&ast.AssignStmt{Lhs: []ast.Expr{id}, Tok: token.DEFINE, Rhs: []ast.Expr{r.expr(x.Rhs[0])}},
					r.yield(),
					&ast.AssignStmt{Lhs: x.Lhs, Tok: token.ASSIGN, Rhs: []ast.Expr{id}},
				)
			}
		}
		if x.Tok != token.DEFINE {
			var after []ast.Stmt
			for _, l := range x.Lhs {
				if m := r.sharedMap(l); m != nil {
					after = append(after, &ast.ExprStmt{X: r.call("MW", m)})
				}
			}
			return append([]ast.Stmt{r.stmt(s)}, after...)
		}
	case *ast.ExprStmt:
		if c, ok := x.X.(*ast.CallExpr); ok && len(c.Args) > 0 && (r.isBuiltin(c.Fun, "delete") || r.isBuiltin(c.Fun, "clear")) && r.isMap(c.Args[0]) && r.shared(c.Args[0]) {
			return []ast.Stmt{r.stmt(s), &ast.ExprStmt{X: r.call("MW", c.Args[0])}}
		}
	}
	return []ast.Stmt{r.stmt(s)}
}

var assignOps = map[token.Token]token.Token{
	token.ADD_ASSIGN: token.ADD, token.SUB_ASSIGN: token.SUB, token.MUL_ASSIGN: token.MUL, token.QUO_ASSIGN: token.QUO,
	token.REM_ASSIGN: token.REM, token.AND_ASSIGN: token.AND, token.OR_ASSIGN: token.OR, token.XOR_ASSIGN: token.XOR,
}

// block is a statement of its own, so that no jump crosses its variables.
func block(l ...ast.Stmt) []ast.Stmt { return []ast.Stmt{&ast.BlockStmt{List: l}} }

// ownType: the expression has its type wherever it stands (not so comparisons
// and shifts of constants, which take the type of what they are assigned to).
func (r *rewriter) ownType(e ast.Expr) bool {
	if t := r.info.Types[e].Type; t == nil {
		return false
	} else if b, ok := t.(*types.Basic); ok && b.Info()&types.IsUntyped != 0 {
		return false
	}
	switch e := e.(type) {
	case *ast.ParenExpr:
		return r.ownType(e.X)
	case *ast.UnaryExpr:
		return r.ownType(e.X)
	case *ast.BinaryExpr:
		switch e.Op {
		case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
			b, ok := r.info.Types[e].Type.(*types.Basic)
			return ok && b.Kind() == types.Bool
		case token.SHL, token.SHR:
			return r.info.Types[e.X].Value == nil && r.ownType(e.X)
		case token.LAND, token.LOR:
			return r.ownType(e.X) && r.ownType(e.Y)
		}
		x, y := r.info.Types[e.X], r.info.Types[e.Y]
		return (x.Value != nil || r.ownType(e.X)) && (y.Value != nil || r.ownType(e.Y))
	}
	return true
}

func elemSize(t types.Type) (n int64) {
	defer func() {
		if recover() != nil { // depends on a type parameter
			n = 0
		}
	}()
	return types.SizesFor("gc", "amd64").Sizeof(t)
}

// pure: no calls but conversions and builtins
func (r *rewriter) pure(e ast.Expr) bool {
	ok := true
	ast.Inspect(e, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.FuncLit:
			ok = false
		case *ast.CallExpr:
			if tv, k := r.info.Types[n.Fun]; !k || !tv.IsType() && !tv.IsBuiltin() {
				ok = false
			}
		case *ast.UnaryExpr:
			if n.Op == token.ARROW {
				ok = false
			}
		}
		return ok
	})
	return ok
}

// sharedMap returns the map of an index expression into a shared map.
func (r *rewriter) sharedMap(e ast.Expr) ast.Expr {
	if p, ok := e.(*ast.ParenExpr); ok {
		return r.sharedMap(p.X)
	}
	if x, ok := e.(*ast.IndexExpr); ok && r.isMap(x.X) && r.shared(x.X) {
		return x.X
	}
	return nil
}

func (r *rewriter) exprs(l []ast.Expr) {
	for i := range l {
		l[i] = r.expr(l[i])
	}
}

func recvOf(e ast.Expr) *ast.UnaryExpr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			break
		}
		e = p.X
	}
	u, ok := e.(*ast.UnaryExpr)
	if ok && u.Op == token.ARROW {
		return u
	}
	return nil
}

func (r *rewriter) stmt(s ast.Stmt) ast.Stmt {
	switch s := s.(type) {
	case nil:
		return nil
	case *ast.AssignStmt:
		if len(s.Lhs) == 2 && len(s.Rhs) == 1 {
			if u := recvOf(s.Rhs[0]); u != nil {
				r.exprs(s.Lhs)
				s.Rhs[0] = r.call("Recv2", r.expr(u.X))
				return s
			}
		}
		if s.Tok != token.DEFINE {
			r.exprs(s.Lhs)
		}
		r.exprs(s.Rhs)
	case *ast.BlockStmt:
		r.block(s)
	case *ast.DeclStmt:
		if gd, ok := s.Decl.(*ast.GenDecl); ok && gd.Tok == token.VAR {
			for _, sp := range gd.Specs {
				vs := sp.(*ast.ValueSpec)
				if len(vs.Names) == 2 && len(vs.Values) == 1 {
					if u := recvOf(vs.Values[0]); u != nil {
						vs.Values[0] = r.call("Recv2", r.expr(u.X))
						continue
					}
				}
				r.exprs(vs.Values)
			}
		}
	case *ast.DeferStmt:
		s.Call = r.deferCall(s.Call)
	case *ast.ExprStmt:
		s.X = r.expr(s.X)
	case *ast.ForStmt:
		s.Init = r.stmt(s.Init)
		if s.Cond != nil {
			s.Cond = r.expr(s.Cond)
		}
		s.Post = r.stmt(s.Post)
		r.block(s.Body)
	case *ast.GoStmt:
		return r.goStmt(s)
	case *ast.IfStmt:
		s.Init = r.stmt(s.Init)
		s.Cond = r.expr(s.Cond)
		r.block(s.Body)
		s.Else = r.stmt(s.Else)
	case *ast.IncDecStmt:
		s.X = r.expr(s.X)
	case *ast.LabeledStmt:
		if sel, ok := s.Stmt.(*ast.SelectStmt); ok {
			return r.selectStmt(sel, s.Label)
		}
		s.Stmt = r.stmt(s.Stmt)
	case *ast.RangeStmt:
		ch, mp := r.isChan(s.X), r.isMap(s.X)
		s.X = r.expr(s.X)
		if s.Tok == token.ASSIGN {
			if s.Key != nil {
				s.Key = r.expr(s.Key)
			}
			if s.Value != nil {
				s.Value = r.expr(s.Value)
			}
		}
		if ch {
			s.X = r.call("RangeChan", s.X)
		} else if mp {
			s.X = r.call("RangeMap", s.X)
		}
		r.block(s.Body)
	case *ast.ReturnStmt:
		r.exprs(s.Results)
	case *ast.SelectStmt:
		return r.selectStmt(s, nil)
	case *ast.SendStmt:
		return &ast.ExprStmt{X: &ast.CallExpr{Fun: r.call("SendTo", r.expr(s.Chan)), Args: []ast.Expr{r.expr(s.Value)}}}
	case *ast.SwitchStmt:
		s.Init = r.stmt(s.Init)
		if s.Tag != nil {
			s.Tag = r.expr(s.Tag)
		}
		r.clauses(s.Body)
	case *ast.TypeSwitchStmt:
		s.Init = r.stmt(s.Init)
		s.Assign = r.stmt(s.Assign)
		r.clauses(s.Body)
	}
	return s
}

func (r *rewriter) clauses(b *ast.BlockStmt) {
	for _, c := range b.List {
		cc := c.(*ast.CaseClause)
		r.exprs(cc.List)
		cc.Body = r.stmts(cc.Body, false)
	}
}

func (r *rewriter) deferCall(c *ast.CallExpr) *ast.CallExpr {
	if e, ok := r.expr(c).(*ast.CallExpr); ok {
		return e
	}
	return c
}

func (r *rewriter) simple(e ast.Expr) bool {
	if tv, ok := r.info.Types[e]; ok && (tv.IsNil() || tv.Value != nil && tv.Value.Kind() != constant.Unknown) {
		return true
	}
	_, ok := e.(*ast.FuncLit)
	return ok
}

func (r *rewriter) goStmt(s *ast.GoStmt) ast.Stmt {
	pos := r.fset.Position(s.Pos())
	name := &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(fmt.Sprintf("%s:%d", filepath.Base(pos.Filename), pos.Line))}
	c := s.Call
	var pre []ast.Stmt
	bind := func(e ast.Expr) ast.Expr {
		id := r.fresh("g")
		pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{id}, Tok: token.DEFINE, Rhs: []ast.Expr{r.expr(e)}})
		return id
	}
	call := &ast.CallExpr{Ellipsis: c.Ellipsis}
	if _, ok := c.Fun.(*ast.FuncLit); ok {
		call.Fun = r.expr(c.Fun)
	} else if tv := r.info.Types[c.Fun]; tv.IsBuiltin() || tv.IsType() {
		call.Fun = r.expr(c.Fun)
	} else {
		call.Fun = bind(c.Fun)
	}
	for _, a := range c.Args {
		if r.simple(a) {
			call.Args = append(call.Args, r.expr(a))
		} else {
			call.Args = append(call.Args, bind(a))
		}
	}
	var body ast.Expr
	if fl, ok := call.Fun.(*ast.FuncLit); ok && len(call.Args) == 0 && fl.Type.Results == nil {
		body = fl
	} else {
		var st ast.Stmt = &ast.ExprStmt{X: call}
		if tv := r.info.Types[c.Fun]; tv.IsBuiltin() {
			if e, ok := r.expr(call).(*ast.CallExpr); ok {
				st = &ast.ExprStmt{X: e}
			}
		}
		body = &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{st}}}
	}
	gs := &ast.ExprStmt{X: r.call("Go", name, body)}
	if len(pre) == 0 {
		return gs
	}
	return &ast.BlockStmt{List: append(pre, gs)}
}

func (r *rewriter) selectStmt(s *ast.SelectStmt, label *ast.Ident) ast.Stmt {
	if len(s.Body.List) == 0 {
		return &ast.BlockStmt{List: []ast.Stmt{
			&ast.ExprStmt{X: r.call("BlockForever")},
			&ast.ExprStmt{X: &ast.CallExpr{Fun: ast.NewIdent("panic"), Args: []ast.Expr{&ast.BasicLit{Kind: token.STRING, Value: `"unreachable"`}}}},
		}}
	}
	sel := r.fresh("s")
	out := &ast.BlockStmt{}
	out.List = append(out.List, &ast.AssignStmt{Lhs: []ast.Expr{sel}, Tok: token.DEFINE, Rhs: []ast.Expr{r.call("NewSelect")}})
	sw := &ast.SwitchStmt{Body: &ast.BlockStmt{}}
	hasDefault := false
	idx := 0
	for _, c := range s.Body.List {
		cc := c.(*ast.CommClause)
		if cc.Comm == nil {
			hasDefault = true
			sw.Body.List = append(sw.Body.List, &ast.CaseClause{Body: r.stmts(cc.Body, false)})
			continue
		}
		var pre []ast.Stmt
		recv := func(u *ast.UnaryExpr, lhs []ast.Expr, tok token.Token) {
			id := r.fresh("r")
			call := r.call("SelRecv", sel, r.expr(u.X))
			if lhs == nil {
				out.List = append(out.List, &ast.ExprStmt{X: call})
				return
			}
			out.List = append(out.List, &ast.AssignStmt{Lhs: []ast.Expr{id}, Tok: token.DEFINE, Rhs: []ast.Expr{call}})
			m := "Get"
			if len(lhs) == 2 {
				m = "Get2"
			}
			if tok == token.ASSIGN {
				r.exprs(lhs)
			}
			pre = append(pre, &ast.AssignStmt{Lhs: lhs, Tok: tok, Rhs: []ast.Expr{&ast.CallExpr{Fun: &ast.SelectorExpr{X: id, Sel: ast.NewIdent(m)}}}})
		}
		switch cm := cc.Comm.(type) {
		case *ast.SendStmt:
			out.List = append(out.List, &ast.ExprStmt{X: &ast.CallExpr{
				Fun:  r.call("SelSend", sel, r.expr(cm.Chan)),
				Args: []ast.Expr{r.expr(cm.Value)},
			}})
		case *ast.ExprStmt:
			recv(recvOf(cm.X), nil, 0)
		case *ast.AssignStmt:
			recv(recvOf(cm.Rhs[0]), cm.Lhs, cm.Tok)
		}
		sw.Body.List = append(sw.Body.List, &ast.CaseClause{
			List: []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(idx)}},
			Body: append(pre, r.stmts(cc.Body, false)...),
		})
		idx++
	}
	def := "false"
	if hasDefault {
		def = "true"
	} else {
		sw.Body.List = append(sw.Body.List, &ast.CaseClause{Body: []ast.Stmt{
			&ast.ExprStmt{X: &ast.CallExpr{Fun: ast.NewIdent("panic"), Args: []ast.Expr{&ast.BasicLit{Kind: token.STRING, Value: `"unreachable"`}}}},
		}})
	}
	sw.Tag = &ast.CallExpr{Fun: &ast.SelectorExpr{X: sel, Sel: ast.NewIdent("Wait")}, Args: []ast.Expr{ast.NewIdent(def)}}
	if label != nil {
		out.List = append(out.List, &ast.LabeledStmt{Label: label, Stmt: sw})
	} else {
		out.List = append(out.List, sw)
	}
	return out
}

func (r *rewriter) expr(e ast.Expr) ast.Expr {
	switch e := e.(type) {
	case nil:
		return nil
	case *ast.BinaryExpr:
		e.X, e.Y = r.expr(e.X), r.expr(e.Y)
	case *ast.CallExpr:
		if len(e.Args) == 1 {
			if r.isBuiltin(e.Fun, "close") {
				return r.call("Close", r.expr(e.Args[0]))
			}
			if r.isBuiltin(e.Fun, "len") && r.isChan(e.Args[0]) {
				return r.call("Len", r.expr(e.Args[0]))
			}
			if r.isBuiltin(e.Fun, "clear") && r.isMap(e.Args[0]) {
				e.Args[0] = r.call("MR", r.expr(e.Args[0]))
				return e
			}
		}
		if len(e.Args) == 2 && r.isBuiltin(e.Fun, "delete") && r.shared(e.Args[0]) {
			e.Args[0], e.Args[1] = r.call("MR", r.expr(e.Args[0])), r.expr(e.Args[1])
			return e
		}
		if len(e.Args) > 1 && r.isBuiltin(e.Fun, "make") {
			// what no machine has is not allocated
			if sl, ok := under(r.typeOf(e.Args[0])).(*types.Slice); ok {
				size := elemSize(sl.Elem())
				for i, a := range e.Args[1:] {
					tv := r.info.Types[a]
					a = r.expr(a)
					if b, ok := under(tv.Type).(*types.Basic); ok && tv.Value == nil && b.Info()&types.IsInteger != 0 && b.Info()&types.IsUntyped == 0 && size > 0 {
						a = r.call("Alloc", a, &ast.BasicLit{Kind: token.INT, Value: fmt.Sprint(size)})
					}
					e.Args[i+1] = a
				}
				return e
			}
		}
		e.Fun = r.expr(e.Fun)
		r.exprs(e.Args)
	case *ast.CompositeLit:
		r.exprs(e.Elts)
	case *ast.FuncLit:
		r.block(e.Body)
	case *ast.IndexExpr:
		m := r.sharedMap(e)
		e.X, e.Index = r.expr(e.X), r.expr(e.Index)
		if m != nil {
			e.X = r.call("MR", e.X)
		}
	case *ast.KeyValueExpr:
		if _, ok := e.Key.(*ast.Ident); !ok {
			e.Key = r.expr(e.Key)
		}
		e.Value = r.expr(e.Value)
	case *ast.ParenExpr:
		e.X = r.expr(e.X)
	case *ast.SelectorExpr:
		e.X = r.expr(e.X)
	case *ast.SliceExpr:
		e.X = r.expr(e.X)
		if e.Low != nil {
			e.Low = r.expr(e.Low)
		}
		if e.High != nil {
			e.High = r.expr(e.High)
		}
		if e.Max != nil {
			e.Max = r.expr(e.Max)
		}
	case *ast.StarExpr:
		e.X = r.expr(e.X)
	case *ast.TypeAssertExpr:
		e.X = r.expr(e.X)
	case *ast.UnaryExpr:
		if e.Op == token.ARROW {
			return r.call("Recv", r.expr(e.X))
		}
		e.X = r.expr(e.X)
	}
	return e
}
