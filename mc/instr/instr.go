// Package instr rewrites Go source so that it runs under the controlled scheduler of vsched.
package instr

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/format"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"strconv"
	"strings"
)

type pkgInfo struct {
	Dir, ImportPath, Export string
	GoFiles                 []string
	Imports                 []string
}

// Target names a package and says which of its files take part.
type Target struct {
	Path string
	// Types selects the files that declare one of these types or a method of one (empty: all files).
	Types []string
}

// Overlay rewrites the targets into dir and returns the path of an overlay file for "go build -overlay".
func Overlay(modDir, dir string, targets ...Target) (string, error) {
	replace := map[string]string{}
	for i, t := range targets {
		out := filepath.Join(dir, fmt.Sprintf("t%d", i))
		if err := os.MkdirAll(out, 0o755); err != nil {
			return "", err
		}
		if err := one(modDir, out, t, replace); err != nil {
			return "", fmt.Errorf("%s: %w", t.Path, err)
		}
	}
	b, _ := json.MarshalIndent(map[string]any{"Replace": replace}, "", " ")
	p := filepath.Join(dir, "overlay.json")
	return p, os.WriteFile(p, b, 0o644)
}

func one(modDir, out string, t Target, replace map[string]string) error {
	cmd := exec.Command("go", "list", "-export", "-deps", "-json=Dir,ImportPath,Export,GoFiles,Imports", t.Path)
	cmd.Dir = modDir
	var eb bytes.Buffer
	cmd.Stderr = &eb
	raw, err := cmd.Output()
	if err != nil {
		return fmt.Errorf("go list: %v %s", err, eb.String())
	}
	exports := map[string]string{}
	var self pkgInfo
	dec := json.NewDecoder(bytes.NewReader(raw))
	for {
		var p pkgInfo
		if err := dec.Decode(&p); err == io.EOF {
			break
		} else if err != nil {
			return err
		}
		exports[p.ImportPath] = p.Export
		if p.ImportPath == t.Path {
			self = p
		}
	}
	fset := token.NewFileSet()
	var files []*ast.File
	for _, f := range self.GoFiles {
		af, err := parser.ParseFile(fset, filepath.Join(self.Dir, f), nil, parser.SkipObjectResolution)
		if err != nil {
			return err
		}
		files = append(files, af)
	}
	imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		e, ok := exports[path]
		if !ok || e == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(e)
	})
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{}}
	conf := types.Config{Importer: imp, GoVersion: "go1.22"}
	if _, err := conf.Check(t.Path, fset, files, info); err != nil {
		return fmt.Errorf("type check: %w", err)
	}
	for i, f := range files {
		if !selected(f, t.Types) {
			continue
		}
		r := &rw{fset: fset, info: info, file: f}
		if err := r.run(); err != nil {
			return fmt.Errorf("%s: %w", self.GoFiles[i], err)
		}
		f.Comments = nil
		var b bytes.Buffer
		if err := format.Node(&b, fset, f); err != nil {
			return err
		}
		p := filepath.Join(out, self.GoFiles[i])
		if err := os.WriteFile(p, b.Bytes(), 0o644); err != nil {
			return err
		}
		replace[filepath.Join(self.Dir, self.GoFiles[i])] = p
	}
	return nil
}

func selected(f *ast.File, names []string) bool {
	if len(names) == 0 {
		return true
	}
	want := map[string]bool{}
	for _, n := range names {
		want[n] = true
	}
	for _, d := range f.Decls {
		switch x := d.(type) {
		case *ast.GenDecl:
			for _, s := range x.Specs {
				if ts, ok := s.(*ast.TypeSpec); ok && want[ts.Name.Name] {
					return true
				}
			}
		case *ast.FuncDecl:
			if x.Recv != nil && len(x.Recv.List) == 1 {
				t := x.Recv.List[0].Type
				if st, ok := t.(*ast.StarExpr); ok {
					t = st.X
				}
				if id, ok := t.(*ast.Ident); ok && want[id.Name] {
					return true
				}
			}
		}
	}
	return false
}

var redirected = map[string]string{
	"sync":        "verif.local/mc/vsched/vsync",
	"sync/atomic": "verif.local/mc/vsched/vatomic",
	"context":     "verif.local/mc/vsched/vcontext",
	"github.com/iotaledger/hive.go/runtime/syncutils": "verif.local/mc/vsched/vsync",
}

var forbidden = []string{"golang.org/x/sync", "github.com/iotaledger/hive.go/runtime/workerpool", "github.com/iotaledger/hive.go/runtime/timed", "github.com/iotaledger/hive.go/runtime/event",
	"os/signal", "net", "os/exec", "testing", "C", "unsafe"}

type rw struct {
	fset    *token.FileSet
	info    *types.Info
	file    *ast.File
	shared  map[types.Object]bool
	n       int
	err     error
	recv2   map[*ast.UnaryExpr]bool
	used    bool
	pkgName map[string]string
}

func (r *rw) fail(n ast.Node, f string, a ...any) {
	if r.err == nil {
		r.err = fmt.Errorf("%s: %s", r.fset.Position(n.Pos()), fmt.Sprintf(f, a...))
	}
}

func (r *rw) run() error {
	r.recv2 = map[*ast.UnaryExpr]bool{}
	r.findShared()
	for _, d := range r.file.Decls {
		if fd, ok := d.(*ast.FuncDecl); ok && fd.Body != nil {
			r.points(fd.Body)
		}
	}
	for _, d := range r.file.Decls {
		r.walk(reflect.ValueOf(d))
	}
	// imports
	for _, im := range r.file.Imports {
		p, _ := strconv.Unquote(im.Path.Value)
		if to, ok := redirected[p]; ok {
			if im.Name == nil {
				im.Name = ast.NewIdent(filepath.Base(p))
			}
			im.Path.Value = strconv.Quote(to)
			continue
		}
		for _, f := range forbidden {
			if p == f || strings.HasPrefix(p, f+"/") {
				r.fail(im, "import %s is not supported", p)
			}
		}
	}
	if r.err != nil {
		return r.err
	}
	if r.used {
		spec := &ast.ImportSpec{Name: ast.NewIdent("vsched_"), Path: &ast.BasicLit{Kind: token.STRING, Value: `"verif.local/mc/vsched"`}}
		decl := &ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{spec}}
		r.file.Decls = append([]ast.Decl{decl}, r.file.Decls...)
	}
	// an import only used through rewritten expressions must not be left unused
	var keep []ast.Decl
	for _, im := range r.file.Imports {
		p, _ := strconv.Unquote(im.Path.Value)
		if p == "runtime" {
			name := "runtime"
			if im.Name != nil {
				name = im.Name.Name
			}
			keep = append(keep, &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{Names: []*ast.Ident{ast.NewIdent("_")}, Values: []ast.Expr{&ast.SelectorExpr{X: ast.NewIdent(name), Sel: ast.NewIdent("NumCPU")}}}}})
		}
	}
	r.file.Decls = append(r.file.Decls, keep...)
	return r.err
}

// findShared collects the variables more than one function literal can reach and that change after their declaration.
func (r *rw) findShared() {
	r.shared = map[types.Object]bool{}
	captured := map[types.Object]bool{}
	changed := map[types.Object]bool{}
	var visit func(n ast.Node, start token.Pos)
	mark := func(e ast.Expr) {
		for {
			switch x := e.(type) {
			case *ast.ParenExpr:
				e = x.X
				continue
			case *ast.IndexExpr:
				e = x.X
				continue
			case *ast.SelectorExpr:
				e = x.X
				continue
			case *ast.StarExpr:
				e = x.X
				continue
			case *ast.Ident:
				if o := r.info.Uses[x]; o != nil {
					changed[o] = true
				}
			}
			return
		}
	}
	visit = func(n ast.Node, start token.Pos) {
		ast.Inspect(n, func(m ast.Node) bool {
			switch x := m.(type) {
			case *ast.FuncLit:
				if m == n {
					return true
				}
				visit(x, x.Pos())
				return false
			case *ast.Ident:
				if v, ok := r.info.Uses[x].(*types.Var); ok && !v.IsField() {
					if v.Parent() == v.Pkg().Scope() || (start.IsValid() && v.Pos() < start) {
						captured[v] = true
					}
				}
			case *ast.AssignStmt:
				for _, l := range x.Lhs {
					mark(l)
				}
			case *ast.IncDecStmt:
				mark(x.X)
			case *ast.RangeStmt:
				if x.Tok == token.ASSIGN {
					if x.Key != nil {
						mark(x.Key)
					}
					if x.Value != nil {
						mark(x.Value)
					}
				}
			case *ast.UnaryExpr:
				if x.Op == token.AND {
					mark(x.X)
				}
			}
			return true
		})
	}
	for _, d := range r.file.Decls {
		if fd, ok := d.(*ast.FuncDecl); ok && fd.Body != nil {
			visit(fd.Body, token.NoPos)
		}
	}
	for v := range captured {
		if changed[v] {
			r.shared[v] = true
		}
	}
}

func isSyncType(t types.Type) bool {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
		_, red := redirected[n.Obj().Pkg().Path()]
		return red
	}
	_, ch := t.Underlying().(*types.Chan)
	return ch
}

// touches says whether the part of a statement executed at its own level reads or writes shared data.
func (r *rw) touches(s ast.Stmt) bool {
	hit := false
	var look func(n ast.Node)
	look = func(n ast.Node) {
		if n == nil || reflect.ValueOf(n).IsNil() {
			return
		}
		ast.Inspect(n, func(m ast.Node) bool {
			if hit {
				return false
			}
			switch x := m.(type) {
			case *ast.FuncLit, *ast.BlockStmt:
				return false
			case *ast.SelectorExpr:
				if sel := r.info.Selections[x]; sel != nil && sel.Kind() == types.FieldVal && !isSyncType(sel.Type()) {
					hit = true
					return false
				}
			case *ast.Ident:
				if o := r.info.Uses[x]; o != nil && r.shared[o] && !isSyncType(o.Type()) {
					hit = true
					return false
				}
			case *ast.StarExpr:
				if tv, ok := r.info.Types[x]; ok && tv.IsValue() {
					hit = true
					return false
				}
			case *ast.IndexExpr:
				if tv, ok := r.info.Types[x.X]; ok {
					if _, mp := tv.Type.Underlying().(*types.Map); mp {
						hit = true
						return false
					}
				}
			}
			return true
		})
	}
	switch x := s.(type) {
	case *ast.BlockStmt, *ast.LabeledStmt, *ast.SelectStmt, *ast.GoStmt, *ast.CaseClause, *ast.CommClause:
		return false
	case *ast.IfStmt:
		if x.Init != nil {
			look(x.Init)
		}
		look(x.Cond)
	case *ast.ForStmt:
		if x.Init != nil {
			look(x.Init)
		}
		if x.Cond != nil {
			look(x.Cond)
		}
		if x.Post != nil {
			look(x.Post)
		}
	case *ast.RangeStmt:
		look(x.X)
	case *ast.SwitchStmt:
		if x.Init != nil {
			look(x.Init)
		}
		if x.Tag != nil {
			look(x.Tag)
		}
	case *ast.TypeSwitchStmt:
		look(x.Assign)
	default:
		look(s)
	}
	return hit
}

func (r *rw) call(name string, args ...ast.Expr) *ast.CallExpr {
	r.used = true
	return &ast.CallExpr{Fun: &ast.SelectorExpr{X: ast.NewIdent("vsched_"), Sel: ast.NewIdent(name)}, Args: args}
}

func (r *rw) point() ast.Stmt { return &ast.ExprStmt{X: r.call("Point")} }

// points inserts scheduling points before the statements that touch shared data.
func (r *rw) points(n ast.Node) {
	list := func(l []ast.Stmt) (out []ast.Stmt) {
		for _, s := range l {
			if r.touches(s) {
				out = append(out, r.point())
			}
			out = append(out, s)
		}
		return
	}
	ast.Inspect(n, func(m ast.Node) bool {
		switch x := m.(type) {
		case *ast.BlockStmt:
			x.List = list(x.List)
		case *ast.CaseClause:
			x.Body = list(x.Body)
		case *ast.CommClause:
			x.Body = list(x.Body)
		case *ast.ForStmt:
			if x.Cond != nil && r.touches(&ast.ExprStmt{X: x.Cond}) {
				x.Body.List = append(x.Body.List[:len(x.Body.List):len(x.Body.List)], r.point())
			}
		}
		return true
	})
}

var (
	exprT = reflect.TypeOf((*ast.Expr)(nil)).Elem()
	stmtT = reflect.TypeOf((*ast.Stmt)(nil)).Elem()
)

// walk rewrites expressions and statements bottom up.
func (r *rw) walk(v reflect.Value) {
	switch v.Kind() {
	case reflect.Interface:
		if !v.IsNil() {
			r.walk(v.Elem())
			if v.CanSet() {
				r.replace(v)
			}
		}
	case reflect.Pointer:
		if v.IsNil() {
			return
		}
		switch v.Interface().(type) {
		case *ast.Object, *ast.Scope, *ast.CommentGroup, *ast.Comment:
			return
		}
		r.pre(v.Interface())
		r.walk(v.Elem())
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			r.walk(v.Field(i))
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			r.walk(v.Index(i))
		}
	}
}

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

func (r *rw) pre(n any) {
	switch x := n.(type) {
	case *ast.AssignStmt:
		if len(x.Lhs) == 2 && len(x.Rhs) == 1 {
			if u, ok := unparen(x.Rhs[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
				r.recv2[u] = true
			}
		}
	case *ast.ValueSpec:
		if len(x.Names) == 2 && len(x.Values) == 1 {
			if u, ok := unparen(x.Values[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
				r.recv2[u] = true
			}
		}
	}
}

func (r *rw) isChan(e ast.Expr) bool {
	tv, ok := r.info.Types[e]
	if !ok || tv.Type == nil {
		return false
	}
	_, ch := tv.Type.Underlying().(*types.Chan)
	return ch
}

func (r *rw) name(p string) *ast.Ident {
	r.n++
	return ast.NewIdent(fmt.Sprintf("vs_%s%d", p, r.n))
}

func (r *rw) replace(v reflect.Value) {
	if v.Type() == exprT {
		switch x := v.Interface().(ast.Expr).(type) {
		case *ast.UnaryExpr:
			if x.Op == token.ARROW {
				fn := "Recv"
				if r.recv2[x] {
					fn = "Recv2"
				}
				v.Set(reflect.ValueOf(r.call(fn, x.X)))
			}
		case *ast.CallExpr:
			if id, ok := x.Fun.(*ast.Ident); ok {
				if b, ok := r.info.Uses[id].(*types.Builtin); ok {
					switch {
					case b.Name() == "close":
						v.Set(reflect.ValueOf(r.call("Close", x.Args...)))
					case b.Name() == "len" && r.isChan(x.Args[0]):
						v.Set(reflect.ValueOf(r.call("Len", x.Args...)))
					}
				}
			}
		case *ast.SelectorExpr:
			if id, ok := x.X.(*ast.Ident); ok {
				if pn, ok := r.info.Uses[id].(*types.PkgName); ok {
					switch pn.Imported().Path() + "." + x.Sel.Name {
					case "runtime.Gosched":
						r.used = true
						v.Set(reflect.ValueOf(&ast.SelectorExpr{X: ast.NewIdent("vsched_"), Sel: ast.NewIdent("Gosched")}))
					case "time.Sleep", "time.After", "time.AfterFunc", "time.NewTimer", "time.NewTicker", "time.Tick", "runtime.Goexit":
						r.fail(x, "%s.%s is not supported", pn.Imported().Path(), x.Sel.Name)
					}
				}
			}
		}
		return
	}
	if v.Type() != stmtT {
		return
	}
	switch x := v.Interface().(ast.Stmt).(type) {
	case *ast.SendStmt:
		v.Set(reflect.ValueOf(&ast.ExprStmt{X: &ast.CallExpr{Fun: r.call("SendTo", x.Chan), Args: []ast.Expr{x.Value}}}))
	case *ast.GoStmt:
		v.Set(reflect.ValueOf(r.goStmt(x)))
	case *ast.SelectStmt:
		v.Set(reflect.ValueOf(r.selectStmt(x)))
	case *ast.RangeStmt:
		if r.isChan(x.X) {
			v.Set(reflect.ValueOf(r.rangeStmt(x)))
		}
	}
}

func (r *rw) goStmt(x *ast.GoStmt) ast.Stmt {
	blk := &ast.BlockStmt{}
	c := x.Call
	fun := c.Fun
	if sel, ok := fun.(*ast.SelectorExpr); ok {
		if s := r.info.Selections[sel]; s != nil {
			n := r.name("f")
			blk.List = append(blk.List, &ast.AssignStmt{Lhs: []ast.Expr{n}, Tok: token.DEFINE, Rhs: []ast.Expr{fun}})
			fun = n
		}
	}
	args := make([]ast.Expr, len(c.Args))
	for i, a := range c.Args {
		if tv, ok := r.info.Types[a]; ok && (tv.Value != nil || tv.IsNil()) {
			args[i] = a
			continue
		}
		if _, ok := a.(*ast.FuncLit); ok {
			args[i] = a
			continue
		}
		n := r.name("a")
		blk.List = append(blk.List, &ast.AssignStmt{Lhs: []ast.Expr{n}, Tok: token.DEFINE, Rhs: []ast.Expr{a}})
		args[i] = n
	}
	if len(args) == 0 {
		if fl, ok := fun.(*ast.FuncLit); ok && (fl.Type.Results == nil || len(fl.Type.Results.List) == 0) {
			blk.List = append(blk.List, &ast.ExprStmt{X: r.call("Go", fl)})
			return blk
		}
	}
	body := &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: &ast.CallExpr{Fun: fun, Args: args, Ellipsis: c.Ellipsis}}}}
	blk.List = append(blk.List, &ast.ExprStmt{X: r.call("Go", &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: body})})
	return blk
}

// recvOf takes apart a rewritten receive (vsched_.Recv(ch) or Recv2(ch)).
func recvOf(e ast.Expr) (ast.Expr, bool) {
	c, ok := unparen(e).(*ast.CallExpr)
	if !ok || len(c.Args) != 1 {
		return nil, false
	}
	s, ok := c.Fun.(*ast.SelectorExpr)
	if !ok {
		return nil, false
	}
	id, ok := s.X.(*ast.Ident)
	if !ok || id.Name != "vsched_" || (s.Sel.Name != "Recv" && s.Sel.Name != "Recv2") {
		return nil, false
	}
	return c.Args[0], true
}

func (r *rw) selectStmt(x *ast.SelectStmt) ast.Stmt {
	blk := &ast.BlockStmt{}
	sw := &ast.SwitchStmt{Body: &ast.BlockStmt{}}
	var args []ast.Expr
	hasDef := "false"
	idx := 0
	for _, cl := range x.Body.List {
		cc := cl.(*ast.CommClause)
		if cc.Comm == nil {
			hasDef = "true"
			sw.Body.List = append(sw.Body.List, &ast.CaseClause{List: []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: "-1"}}, Body: cc.Body})
			continue
		}
		n := r.name("c")
		var mk ast.Expr
		body := cc.Body
		switch s := cc.Comm.(type) {
		case *ast.ExprStmt:
			if ch, ok := recvOf(s.X); ok {
				mk = r.call("CaseRecv", ch)
			} else if c, ok := s.X.(*ast.CallExpr); ok { // rewritten send: SendTo(ch)(v)
				if inner, ok := c.Fun.(*ast.CallExpr); ok && len(inner.Args) == 1 && len(c.Args) == 1 {
					mk = &ast.CallExpr{Fun: r.call("CaseSendTo", inner.Args[0]), Args: c.Args}
				}
			}
		case *ast.AssignStmt:
			ch, ok := recvOf(s.Rhs[0])
			if ok {
				mk = r.call("CaseRecv", ch)
				get := "Val"
				if len(s.Lhs) == 2 {
					get = "Get"
				}
				as := &ast.AssignStmt{Lhs: s.Lhs, Tok: s.Tok, Rhs: []ast.Expr{&ast.CallExpr{Fun: &ast.SelectorExpr{X: n, Sel: ast.NewIdent(get)}}}}
				body = append([]ast.Stmt{as}, body...)
			}
		}
		if mk == nil {
			r.fail(x, "unsupported select clause")
			return x
		}
		blk.List = append(blk.List, &ast.AssignStmt{Lhs: []ast.Expr{n}, Tok: token.DEFINE, Rhs: []ast.Expr{mk}})
		args = append(args, n)
		sw.Body.List = append(sw.Body.List, &ast.CaseClause{List: []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(idx)}}, Body: body})
		idx++
	}
	sw.Tag = r.call("Select", append([]ast.Expr{ast.NewIdent(hasDef)}, args...)...)
	blk.List = append(blk.List, sw)
	return blk
}

func (r *rw) rangeStmt(x *ast.RangeStmt) ast.Stmt {
	v, ok := r.name("v"), r.name("ok")
	var first ast.Expr = v
	if x.Key == nil {
		first = ast.NewIdent("_")
	}
	body := []ast.Stmt{
		&ast.AssignStmt{Lhs: []ast.Expr{first, ok}, Tok: token.DEFINE, Rhs: []ast.Expr{r.call("Recv2", x.X)}},
		&ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: ok}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.BREAK}}}},
	}
	if x.Key != nil {
		if id, isId := x.Key.(*ast.Ident); isId && id.Name == "_" {
			body = append(body, &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{v}})
		} else {
			body = append(body, &ast.AssignStmt{Lhs: []ast.Expr{x.Key}, Tok: x.Tok, Rhs: []ast.Expr{v}})
		}
	}
	return &ast.ForStmt{Body: &ast.BlockStmt{List: append(body, x.Body.List...)}}
}
