package main

// Rewriting of a package onto the controlled runtime (../vs): channels, select,
// goroutines, contexts and sync primitives become calls into the scheduler;
// everything else stays as it is.

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/printer"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
)

type rewriter struct {
	info *types.Info
	fset *token.FileSet
	tmp  int

	shared bool
}

func genXVM(repo, mc, out string) {
	access := xvmAccess
	if genPackage(repo, "x/vm", mc, "xvmgen", out, false) {
		access += xvmLog
	}
	put(out, filepath.Join(mc, "xvmgen", "xvmgen.go"), access)
}

// genPackage rewrites the package in a directory of the repository and reports
// whether it has state functions that announce themselves. With shared, every
// statement that uses a field of a structure of the package through a pointer
// is a scheduling point, and the package gets a function that initialises its
// variables again.
func genPackage(repo, rel, mc, pkg, out string, shared bool) bool {
	dir := filepath.Join(repo, filepath.FromSlash(rel))
	exports := exportData(repo, "./"+rel)
	fset := token.NewFileSet()
	var files []*ast.File
	var names []string
	var preambles []string
	ms, _ := filepath.Glob(filepath.Join(dir, "*.go"))
	for _, f := range ms {
		if strings.HasSuffix(f, "_test.go") {
			continue
		}
		b, err := os.ReadFile(f)
		if err != nil {
			fatal(err)
		}
		if !included(string(b)) {
			continue
		}
		// comments are left out: they would be attached to the wrong places
		af, err := parser.ParseFile(fset, f, b, 0)
		if err != nil {
			fatal(err)
		}
		files, names, preambles = append(files, af), append(names, f), append(preambles, preamble(f, b))
	}
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}, Defs: map[*ast.Ident]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{}}
	conf := types.Config{FakeImportC: true, Importer: importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		e, ok := exports[path]
		if !ok {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(e)
	})}
	if _, err := conf.Check("xvm", fset, files, info); err != nil {
		fatal("type checking:", err)
	}
	logged := false
	for _, af := range files {
		for _, d := range af.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok && logState(fd, info) {
				logged = true
			}
		}
	}
	var again []string
	for i, af := range files {
		r := &rewriter{info: info, fset: fset, shared: shared}
		r.file(af)
		var buf bytes.Buffer
		fmt.Fprintf(&buf, "package %s\n\n", pkg)
		for _, im := range af.Imports {
			p, _ := strconv.Unquote(im.Path.Value)
			name := ""
			if im.Name != nil {
				name = im.Name.Name
			}
			switch p {
			case "C":
				buf.WriteString(preambles[i])
			case "context":
				p = "verif/mc/vs/vcontext"
				if name == "" {
					name = "context"
				}
			case "sync":
				p = "verif/mc/vs/vsync"
				if name == "" {
					name = "sync"
				}
			}
			fmt.Fprintf(&buf, "import %s %q\n", name, p)
		}
		buf.WriteString("import vs \"verif/mc/vs\"\n\nvar _ = vs.Yield\n\n")
		for _, d := range af.Decls {
			if g, ok := d.(*ast.GenDecl); ok {
				if g.Tok == token.IMPORT {
					continue
				}
				again = append(again, initialisers(g)...)
			}
			if err := printer.Fprint(&buf, token.NewFileSet(), d); err != nil {
				fatal(err)
			}
			buf.WriteString("\n\n")
		}
		put(out, filepath.Join(mc, pkg, "x_"+filepath.Base(names[i])), buf.String())
	}
	if shared {
		var buf bytes.Buffer
		fmt.Fprintf(&buf, "package %s\n\nfunc vsReset() {\n%s}\n", pkg, strings.Join(again, ""))
		put(out, filepath.Join(mc, pkg, "x_vsreset.go"), buf.String())
		for _, g := range []string{"*.c", "*.h"} {
			ms, _ := filepath.Glob(filepath.Join(dir, g))
			for _, f := range ms {
				b, err := os.ReadFile(f)
				if err != nil {
					fatal(err)
				}
				put(out, filepath.Join(mc, pkg, filepath.Base(f)), string(b))
			}
		}
	}
	return logged
}

// preamble is the C code in front of import "C".
func preamble(name string, src []byte) string {
	fs := token.NewFileSet()
	af, err := parser.ParseFile(fs, name, src, parser.ParseComments)
	if err != nil {
		fatal(err)
	}
	for _, d := range af.Decls {
		g, ok := d.(*ast.GenDecl)
		if !ok || g.Tok != token.IMPORT {
			continue
		}
		for _, s := range g.Specs {
			im := s.(*ast.ImportSpec)
			if im.Path.Value != `"C"` {
				continue
			}
			doc := im.Doc
			if doc == nil && len(g.Specs) == 1 {
				doc = g.Doc
			}
			if doc == nil {
				return ""
			}
			return string(src[fs.Position(doc.Pos()).Offset:fs.Position(doc.End()).Offset]) + "\n"
		}
	}
	return ""
}

// initialisers are assignments that give the variables of a declaration their
// first values.
func initialisers(g *ast.GenDecl) (out []string) {
	if g.Tok != token.VAR {
		return nil
	}
	for _, s := range g.Specs {
		v := s.(*ast.ValueSpec)
		if len(v.Values) == 0 {
			continue
		}
		a := &ast.AssignStmt{Tok: token.ASSIGN}
		used := false
		for _, n := range v.Names {
			a.Lhs = append(a.Lhs, n)
			used = used || n.Name != "_"
		}
		a.Rhs = v.Values
		if !used {
			continue
		}
		var buf bytes.Buffer
		if err := printer.Fprint(&buf, token.NewFileSet(), a); err != nil {
			fatal(err)
		}
		out = append(out, "\t"+buf.String()+"\n")
	}
	return out
}

// logState makes a state function of the per-node state machine record that it
// has been entered: a function of a context and a node that returns the next
// state.
func logState(fd *ast.FuncDecl, info *types.Info) bool {
	t := fd.Type
	if fd.Recv != nil || fd.Body == nil || t.Results == nil || len(t.Results.List) != 1 || t.Params.NumFields() != 2 || len(t.Params.List) != 2 {
		return false
	}
	rt, ok := info.Types[t.Results.List[0].Type]
	if !ok {
		return false
	}
	named, ok := rt.Type.(*types.Named)
	if !ok || named.Obj().Pkg() == nil || named.Obj().Pkg().Path() != "xvm" || !types.Identical(named.Underlying(), info.Defs[fd.Name].Type()) {
		return false
	}
	pt, ok := info.Types[t.Params.List[1].Type].Type.(*types.Pointer)
	if !ok {
		return false
	}
	st, ok := pt.Elem().Underlying().(*types.Struct)
	if !ok || types.TypeString(pt.Elem(), nil) != "xvm.node" {
		return false
	}
	found := false
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		if f.Name() == "id" && types.Identical(f.Type(), types.Typ[types.Int64]) {
			found = true
		}
	}
	if !found {
		return false
	}
	if len(t.Params.List[1].Names) == 0 {
		return false
	}
	n := t.Params.List[1].Names[0]
	if n.Name == "_" {
		n.Name = "vs_node"
	}
	fd.Body.List = append([]ast.Stmt{&ast.ExprStmt{X: call(ast.NewIdent("vsEnter"), ast.NewIdent(n.Name), &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(fd.Name.Name)})}}, fd.Body.List...)
	return true
}

const xvmLog = `

func init() { Logs = true }

func vsEnter(n *node, name string) {
	if n != nil && Enter != nil {
		Enter(n.id, name)
	}
}
`

const xvmAccess = `package xvmgen

import (
	"gorgonia.org/gorgonia"

	"verif/mc/vs"
	context "verif/mc/vs/vcontext"
)

type verifMachine struct{ m *Machine }

func (v verifMachine) Run(ctx context.Context) error          { return v.m.Run(ctx) }
func (v verifMachine) GetResult(id int64) gorgonia.Value      { return v.m.GetResult(id) }
func (v verifMachine) Close()                                 { v.m.Close() }

// New makes a machine that runs on the controlled runtime.
func New(g *gorgonia.ExprGraph) M { return verifMachine{NewMachine(g)} }

// M is the concurrent machine.
type M interface {
	Run(ctx context.Context) error
	GetResult(id int64) gorgonia.Value
	Close()
}

// Ev is a trace event.
type Ev struct {
	ID    int64
	State string
	End   bool
}

// Logs tells whether the states nodes go through are announced to Enter.
var Logs bool

// Enter is told about every state a node goes through.
var Enter func(id int64, state string)

func ev(t Trace) Ev { return Ev{t.ID, t.StateFunction, !t.End.IsZero()} }

// Tracing turns on tracing. With sink, events go to it at once; without, the
// returned function receives one event.
func Tracing(ctx context.Context, sink func(Ev)) (context.Context, func() (Ev, bool)) {
	ctx, c := WithTracing(ctx)
	if sink != nil {
		(*vs.Chan[Trace])(c).Sink(func(t Trace) { sink(ev(t)) })
	}
	return ctx, func() (Ev, bool) {
		t, ok := (*vs.Chan[Trace])(c).Recv2()
		return ev(t), ok
	}
}

// StopTracing ends tracing.
func StopTracing(ctx context.Context) { CloseTracing(ctx) }
`

func exportData(repo, pkg string) map[string]string {
	cmd := exec.Command("go", "list", "-mod=readonly", "-export", "-deps", "-json=ImportPath,Export", pkg)
	cmd.Dir = repo
	cmd.Stderr = os.Stderr
	b, err := cmd.Output()
	if err != nil {
		fatal("go list:", err)
	}
	m := map[string]string{}
	d := json.NewDecoder(bytes.NewReader(b))
	for {
		var p struct{ ImportPath, Export string }
		if err := d.Decode(&p); err != nil {
			break
		}
		m[p.ImportPath] = p.Export
	}
	return m
}

func (r *rewriter) name(s string) *ast.Ident {
	r.tmp++
	return ast.NewIdent(fmt.Sprintf("vs_%s%d", s, r.tmp))
}

func vsSel(n string) ast.Expr {
	return &ast.SelectorExpr{X: ast.NewIdent("vs"), Sel: ast.NewIdent(n)}
}

func call(f ast.Expr, args ...ast.Expr) *ast.CallExpr { return &ast.CallExpr{Fun: f, Args: args} }

func (r *rewriter) file(f *ast.File) {
	for _, d := range f.Decls {
		switch d := d.(type) {
		case *ast.GenDecl:
			for _, s := range d.Specs {
				switch s := s.(type) {
				case *ast.TypeSpec:
					s.Type = r.expr(s.Type)
				case *ast.ValueSpec:
					r.valueSpec(s)
				}
			}
		case *ast.FuncDecl:
			if d.Recv != nil {
				r.fields(d.Recv)
			}
			r.funcType(d.Type)
			if d.Body != nil {
				r.block(d.Body)
			}
		}
	}
}

func (r *rewriter) valueSpec(s *ast.ValueSpec) {
	if s.Type != nil {
		s.Type = r.expr(s.Type)
	}
	for i := range s.Values {
		s.Values[i] = r.expr2(s.Values[i], len(s.Names) == 2 && len(s.Values) == 1)
	}
}

func (r *rewriter) fields(l *ast.FieldList) {
	if l == nil {
		return
	}
	for _, f := range l.List {
		f.Type = r.expr(f.Type)
	}
}

func (r *rewriter) funcType(t *ast.FuncType) {
	r.fields(t.Params)
	r.fields(t.Results)
}

func (r *rewriter) block(b *ast.BlockStmt) {
	if b != nil {
		b.List = r.stmts(b.List)
	}
}

func (r *rewriter) stmts(l []ast.Stmt) []ast.Stmt {
	var out []ast.Stmt
	for i := range l {
		if r.shared && r.touches(l[i]) {
			out = append(out, &ast.ExprStmt{X: call(vsSel("Touch"))})
		}
		s := r.stmt(l[i])
		if f, ok := s.(*ast.ForStmt); ok && r.shared && f.Cond != nil {
			f.Body.List = append(f.Body.List, &ast.ExprStmt{X: call(vsSel("Touch"))})
		}
		out = append(out, s)
	}
	return out
}

// touches tells whether executing s, up to the statements inside it, uses a
// field of a structure through a pointer.
func (r *rewriter) touches(s ast.Stmt) bool {
	found := false
	ast.Inspect(s, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.BlockStmt, *ast.FuncLit, *ast.CommClause:
			return false
		case *ast.SelectorExpr:
			sel := r.info.Selections[n]
			if sel == nil || sel.Kind() != types.FieldVal {
				return true
			}
			if _, ok := sel.Recv().Underlying().(*types.Pointer); !ok {
				return true
			}
			switch sel.Type().Underlying().(type) {
			case *types.Chan:
				return true
			}
			if strings.HasPrefix(types.TypeString(sel.Type(), nil), "sync.") {
				return true
			}
			found = true
		}
		return true
	})
	return found
}

func (r *rewriter) isChan(e ast.Expr) bool {
	tv, ok := r.info.Types[e]
	if !ok || tv.Type == nil {
		return false
	}
	_, ok = tv.Type.Underlying().(*types.Chan)
	return ok
}

func (r *rewriter) isBuiltin(e ast.Expr, name string) bool {
	id, ok := e.(*ast.Ident)
	if !ok || id.Name != name {
		return false
	}
	_, ok = r.info.Uses[id].(*types.Builtin)
	return ok
}

func (r *rewriter) stmt(s ast.Stmt) ast.Stmt { return r.labelled(s, nil) }

func withLabel(s ast.Stmt, l *ast.Ident) ast.Stmt {
	if l == nil {
		return s
	}
	return &ast.LabeledStmt{Label: ast.NewIdent(l.Name), Stmt: s}
}

func (r *rewriter) labelled(s ast.Stmt, label *ast.Ident) ast.Stmt {
	switch s := s.(type) {
	case nil:
		return nil
	case *ast.LabeledStmt:
		return r.labelled(s.Stmt, s.Label)
	case *ast.SelectStmt:
		return r.selectStmt(s, label)
	case *ast.RangeStmt:
		if r.isChan(s.X) {
			return r.rangeChan(s, label)
		}
		if s.Key != nil {
			s.Key = r.expr(s.Key)
		}
		if s.Value != nil {
			s.Value = r.expr(s.Value)
		}
		s.X = r.expr(s.X)
		r.block(s.Body)
		return withLabel(s, label)
	case *ast.GoStmt:
		return withLabel(r.goStmt(s), label)
	case *ast.DeferStmt:
		s.Call = r.expr(s.Call).(*ast.CallExpr)
		return withLabel(s, label)
	case *ast.SendStmt:
		c, v := r.expr(s.Chan), r.expr(s.Value)
		return withLabel(&ast.ExprStmt{X: call(&ast.SelectorExpr{X: c, Sel: ast.NewIdent("Send")}, v)}, label)
	case *ast.ExprStmt:
		s.X = r.expr(s.X)
		return withLabel(s, label)
	case *ast.IncDecStmt:
		s.X = r.expr(s.X)
		return withLabel(s, label)
	case *ast.AssignStmt:
		for i := range s.Lhs {
			s.Lhs[i] = r.expr(s.Lhs[i])
		}
		for i := range s.Rhs {
			s.Rhs[i] = r.expr2(s.Rhs[i], len(s.Lhs) == 2 && len(s.Rhs) == 1)
		}
		return withLabel(s, label)
	case *ast.DeclStmt:
		if g, ok := s.Decl.(*ast.GenDecl); ok {
			for _, sp := range g.Specs {
				switch sp := sp.(type) {
				case *ast.TypeSpec:
					sp.Type = r.expr(sp.Type)
				case *ast.ValueSpec:
					r.valueSpec(sp)
				}
			}
		}
		return withLabel(s, label)
	case *ast.ReturnStmt:
		for i := range s.Results {
			s.Results[i] = r.expr(s.Results[i])
		}
		return withLabel(s, label)
	case *ast.BlockStmt:
		r.block(s)
		return withLabel(s, label)
	case *ast.IfStmt:
		s.Init = r.stmt(s.Init)
		s.Cond = r.expr(s.Cond)
		r.block(s.Body)
		if s.Else != nil {
			s.Else = r.stmt(s.Else)
		}
		return withLabel(s, label)
	case *ast.ForStmt:
		s.Init = r.stmt(s.Init)
		if s.Cond != nil {
			s.Cond = r.expr(s.Cond)
		}
		s.Post = r.stmt(s.Post)
		r.block(s.Body)
		return withLabel(s, label)
	case *ast.SwitchStmt:
		s.Init = r.stmt(s.Init)
		if s.Tag != nil {
			s.Tag = r.expr(s.Tag)
		}
		for _, c := range s.Body.List {
			cc := c.(*ast.CaseClause)
			for i := range cc.List {
				cc.List[i] = r.expr(cc.List[i])
			}
			cc.Body = r.stmts(cc.Body)
		}
		return withLabel(s, label)
	case *ast.TypeSwitchStmt:
		s.Init = r.stmt(s.Init)
		s.Assign = r.stmt(s.Assign)
		for _, c := range s.Body.List {
			cc := c.(*ast.CaseClause)
			for i := range cc.List {
				cc.List[i] = r.expr(cc.List[i])
			}
			cc.Body = r.stmts(cc.Body)
		}
		return withLabel(s, label)
	}
	return withLabel(s, label)
}

func (r *rewriter) goStmt(s *ast.GoStmt) ast.Stmt {
	c := s.Call
	var pre []ast.Stmt
	bind := func(e ast.Expr) ast.Expr {
		tv := r.info.Types[e]
		if tv.Value != nil || tv.IsNil() {
			return e
		}
		id := r.name("a")
		pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{id}, Tok: token.DEFINE, Rhs: []ast.Expr{r.expr(e)}})
		return ast.NewIdent(id.Name)
	}
	var inner *ast.CallExpr
	if tv := r.info.Types[c.Fun]; tv.IsBuiltin() {
		inner = r.expr(c).(*ast.CallExpr)
	} else {
		f := bind(c.Fun)
		var args []ast.Expr
		for _, a := range c.Args {
			args = append(args, bind(a))
		}
		inner = &ast.CallExpr{Fun: f, Args: args, Ellipsis: c.Ellipsis}
	}
	fn := &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: inner}}}}
	return &ast.BlockStmt{List: append(pre, &ast.ExprStmt{X: call(vsSel("Go"), fn)})}
}

func (r *rewriter) rangeChan(s *ast.RangeStmt, label *ast.Ident) ast.Stmt {
	c, ok := r.name("c"), r.name("ok")
	var v ast.Expr = ast.NewIdent("_")
	tok := token.DEFINE
	var pre []ast.Stmt
	if s.Key != nil {
		if s.Tok == token.ASSIGN {
			tok = token.ASSIGN
			pre = append(pre, &ast.DeclStmt{Decl: &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{Names: []*ast.Ident{ast.NewIdent(ok.Name)}, Type: ast.NewIdent("bool")}}}})
		}
		v = r.expr(s.Key)
	}
	x := r.expr(s.X)
	r.block(s.Body)
	body := append(pre,
		&ast.AssignStmt{Lhs: []ast.Expr{v, ok}, Tok: tok, Rhs: []ast.Expr{call(&ast.SelectorExpr{X: ast.NewIdent(c.Name), Sel: ast.NewIdent("Recv2")})}},
		&ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: ast.NewIdent(ok.Name)}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.BREAK}}}},
		s.Body)
	loop := withLabel(&ast.ForStmt{Body: &ast.BlockStmt{List: body}}, label)
	return &ast.BlockStmt{List: []ast.Stmt{
		&ast.AssignStmt{Lhs: []ast.Expr{c}, Tok: token.DEFINE, Rhs: []ast.Expr{x}}, loop}}
}

func (r *rewriter) selectStmt(s *ast.SelectStmt, label *ast.Ident) ast.Stmt {
	var pre []ast.Stmt
	args := []ast.Expr{ast.NewIdent("false")}
	sw := &ast.SwitchStmt{Body: &ast.BlockStmt{}}
	n := 0
	for _, cl := range s.Body.List {
		cc := cl.(*ast.CommClause)
		if cc.Comm == nil {
			args[0] = ast.NewIdent("true")
			sw.Body.List = append(sw.Body.List, &ast.CaseClause{List: []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: "-1"}}, Body: r.stmts(cc.Body)})
			continue
		}
		id := r.name("s")
		var mk ast.Expr
		var body []ast.Stmt
		recv := func(e ast.Expr) ast.Expr {
			for {
				p, ok := e.(*ast.ParenExpr)
				if !ok {
					break
				}
				e = p.X
			}
			return call(vsSel("RecvOf"), r.expr(e.(*ast.UnaryExpr).X))
		}
		switch c := cc.Comm.(type) {
		case *ast.SendStmt:
			mk = call(vsSel("SendOf"), r.expr(c.Chan), r.expr(c.Value))
		case *ast.ExprStmt:
			mk = recv(c.X)
		case *ast.AssignStmt:
			mk = recv(c.Rhs[0])
			as := &ast.AssignStmt{Tok: c.Tok}
			for i, l := range c.Lhs {
				as.Lhs = append(as.Lhs, r.expr(l))
				as.Rhs = append(as.Rhs, &ast.SelectorExpr{X: ast.NewIdent(id.Name), Sel: ast.NewIdent([]string{"V", "OK"}[i])})
			}
			body = append(body, as)
		}
		pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{id}, Tok: token.DEFINE, Rhs: []ast.Expr{mk}})
		args = append(args, ast.NewIdent(id.Name))
		body = append(body, r.stmts(cc.Body)...)
		sw.Body.List = append(sw.Body.List, &ast.CaseClause{List: []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(n)}}, Body: body})
		n++
	}
	// without a break the original statement is a terminating one
	sw.Body.List = append(sw.Body.List, &ast.CaseClause{Body: []ast.Stmt{&ast.ExprStmt{X: call(ast.NewIdent("panic"), &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote("no alternative")})}}})
	sw.Tag = call(vsSel("Select"), args...)
	return &ast.BlockStmt{List: append(pre, withLabel(sw, label))}
}

func (r *rewriter) expr2(e ast.Expr, two bool) ast.Expr {
	if two {
		if u, ok := e.(*ast.UnaryExpr); ok && u.Op == token.ARROW {
			return call(&ast.SelectorExpr{X: r.expr(u.X), Sel: ast.NewIdent("Recv2")})
		}
	}
	return r.expr(e)
}

func (r *rewriter) exprs(l []ast.Expr) {
	for i := range l {
		l[i] = r.expr(l[i])
	}
}

func (r *rewriter) expr(e ast.Expr) ast.Expr {
	switch e := e.(type) {
	case nil:
		return nil
	case *ast.ChanType:
		return &ast.StarExpr{X: &ast.IndexExpr{X: vsSel("Chan"), Index: r.expr(e.Value)}}
	case *ast.UnaryExpr:
		if e.Op == token.ARROW {
			return call(&ast.SelectorExpr{X: r.expr(e.X), Sel: ast.NewIdent("Recv")})
		}
		e.X = r.expr(e.X)
	case *ast.CallExpr:
		switch {
		case r.isBuiltin(e.Fun, "make") && r.isChan(e.Args[0]):
			t := r.info.Types[e.Args[0]].Type.Underlying().(*types.Chan)
			var el ast.Expr
			if ct, ok := e.Args[0].(*ast.ChanType); ok {
				el = r.expr(ct.Value)
			} else {
				el = r.typeExpr(t.Elem())
			}
			args := append([]ast.Expr{}, e.Args[1:]...)
			r.exprs(args)
			return call(&ast.IndexExpr{X: vsSel("Make"), Index: el}, args...)
		case r.isBuiltin(e.Fun, "close"):
			return call(&ast.SelectorExpr{X: r.expr(e.Args[0]), Sel: ast.NewIdent("Close")})
		case r.isBuiltin(e.Fun, "len") && r.isChan(e.Args[0]):
			return call(&ast.SelectorExpr{X: r.expr(e.Args[0]), Sel: ast.NewIdent("Len")})
		case r.isBuiltin(e.Fun, "cap") && r.isChan(e.Args[0]):
			return call(&ast.SelectorExpr{X: r.expr(e.Args[0]), Sel: ast.NewIdent("Cap")})
		}
		if s, ok := e.Fun.(*ast.SelectorExpr); ok {
			if id, ok := s.X.(*ast.Ident); ok {
				if pn, ok := r.info.Uses[id].(*types.PkgName); ok && pn.Imported().Path() == "runtime" && s.Sel.Name == "Gosched" {
					return call(vsSel("Yield"))
				}
				if pn, ok := r.info.Uses[id].(*types.PkgName); ok && pn.Imported().Path() == "time" && (s.Sel.Name == "After" || s.Sel.Name == "Tick" || s.Sel.Name == "NewTimer" || s.Sel.Name == "AfterFunc") {
					fatal("timers are not supported:", r.fset.Position(e.Pos()))
				}
			}
		}
		e.Fun = r.expr(e.Fun)
		r.exprs(e.Args)
	case *ast.ParenExpr:
		e.X = r.expr(e.X)
	case *ast.StarExpr:
		e.X = r.expr(e.X)
	case *ast.BinaryExpr:
		e.X, e.Y = r.expr(e.X), r.expr(e.Y)
	case *ast.SelectorExpr:
		e.X = r.expr(e.X)
	case *ast.IndexExpr:
		e.X, e.Index = r.expr(e.X), r.expr(e.Index)
	case *ast.SliceExpr:
		e.X = r.expr(e.X)
		e.Low, e.High, e.Max = r.expr(e.Low), r.expr(e.High), r.expr(e.Max)
	case *ast.TypeAssertExpr:
		e.X = r.expr(e.X)
		if e.Type != nil {
			e.Type = r.expr(e.Type)
		}
	case *ast.CompositeLit:
		if e.Type != nil {
			e.Type = r.expr(e.Type)
		}
		r.exprs(e.Elts)
	case *ast.KeyValueExpr:
		e.Key, e.Value = r.expr(e.Key), r.expr(e.Value)
	case *ast.FuncLit:
		r.funcType(e.Type)
		r.block(e.Body)
	case *ast.FuncType:
		r.funcType(e)
	case *ast.ArrayType:
		e.Elt = r.expr(e.Elt)
	case *ast.MapType:
		e.Key, e.Value = r.expr(e.Key), r.expr(e.Value)
	case *ast.StructType:
		r.fields(e.Fields)
	case *ast.InterfaceType:
		r.fields(e.Methods)
	case *ast.Ellipsis:
		e.Elt = r.expr(e.Elt)
	}
	return e
}

// typeExpr spells a type of the rewritten package.
func (r *rewriter) typeExpr(t types.Type) ast.Expr {
	s := types.TypeString(t, func(p *types.Package) string {
		if p.Path() == "xvm" {
			return ""
		}
		return p.Name()
	})
	x, err := parser.ParseExpr(s)
	if err != nil {
		fatal("type", s, err)
	}
	return r.expr(x)
}
