// mutate lists small changes to Go files, one JSON object a line:
// {file, line, func, start, end, new, what}. Development aid; no check uses it.
package main

import (
	"encoding/json"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type mutant struct {
	File       string `json:"file"`
	Line       int    `json:"line"`
	Func       string `json:"func"`
	Start, End int
	New, What  string
}

var flips = map[token.Token][]string{
	token.LSS: {"<="}, token.LEQ: {"<"}, token.GTR: {">="}, token.GEQ: {">"},
	token.EQL: {"!="}, token.NEQ: {"=="}, token.ADD: {"-"}, token.SUB: {"+"},
	token.MUL: {"/"}, token.QUO: {"*"}, token.LAND: {"||"}, token.LOR: {"&&"},
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	for _, f := range os.Args[1:] {
		src, err := os.ReadFile(f)
		if err != nil {
			panic(err)
		}
		fs := token.NewFileSet()
		af, err := parser.ParseFile(fs, f, src, 0)
		if err != nil {
			continue
		}
		off := func(p token.Pos) int { return fs.Position(p).Offset }
		for _, d := range af.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil {
				continue
			}
			name := fd.Name.Name
			if name == "String" || name == "Format" || name == "WriteHash" && false {
				continue
			}
			emit := func(a, b token.Pos, s, what string) {
				enc.Encode(mutant{f, fs.Position(a).Line, name, off(a), off(b), s, what})
			}
			text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
			ast.Inspect(fd.Body, func(n ast.Node) bool {
				switch n := n.(type) {
				case *ast.CallExpr:
					if id, ok := n.Fun.(*ast.Ident); ok && id.Name == "panic" {
						return false
					}
					if s, ok := n.Fun.(*ast.SelectorExpr); ok {
						switch s.Sel.Name {
						case "Errorf", "Wrap", "Wrapf", "logf", "Sprintf", "Fprintf", "Printf", "WriteString", "New":
							return false
						}
					}
					for i := 0; i+1 < len(n.Args); i++ {
						a, ok1 := n.Args[i].(*ast.Ident)
						b, ok2 := n.Args[i+1].(*ast.Ident)
						if ok1 && ok2 && a.Name != b.Name {
							emit(a.Pos(), b.End(), b.Name+", "+a.Name, "swap arguments")
						}
					}
				case *ast.BinaryExpr:
					if id, ok := n.Y.(*ast.Ident); ok && id.Name == "nil" {
						break
					}
					for _, t := range flips[n.Op] {
						emit(n.OpPos, n.OpPos+token.Pos(len(n.Op.String())), t, n.Op.String()+" -> "+t)
					}
					if n.Op == token.LAND || n.Op == token.LOR {
						emit(n.Pos(), n.End(), text(n.X), "drop right operand")
						emit(n.Pos(), n.End(), text(n.Y), "drop left operand")
					}
				case *ast.IfStmt:
					if b, ok := n.Cond.(*ast.BinaryExpr); ok {
						if id, ok := b.Y.(*ast.Ident); ok && id.Name == "nil" {
							if id, ok := b.X.(*ast.Ident); ok && id.Name == "err" {
								break
							}
						}
					}
					emit(n.Cond.Pos(), n.Cond.End(), "!("+text(n.Cond)+")", "negate condition")
				case *ast.BlockStmt:
					for _, s := range n.List {
						del(s, emit)
					}
				case *ast.CaseClause:
					for _, s := range n.Body {
						del(s, emit)
					}
				case *ast.BasicLit:
					if n.Kind == token.INT {
						if v, err := strconv.Atoi(n.Value); err == nil {
							emit(n.Pos(), n.End(), strconv.Itoa(v+1), n.Value+" -> +1")
							if v == 1 {
								emit(n.Pos(), n.End(), "0", "1 -> 0")
							}
						}
					}
				case *ast.Ident:
					if n.Name == "true" {
						emit(n.Pos(), n.End(), "false", "true -> false")
					}
					if n.Name == "false" {
						emit(n.Pos(), n.End(), "true", "false -> true")
					}
				}
				return true
			})
		}
	}
}

func del(s ast.Stmt, emit func(a, b token.Pos, s, what string)) {
	switch s := s.(type) {
	case *ast.ExprStmt:
		if c, ok := s.X.(*ast.CallExpr); ok {
			if se, ok := c.Fun.(*ast.SelectorExpr); ok && se.Sel.Name == "logf" {
				return
			}
			if id, ok := c.Fun.(*ast.Ident); ok && (id.Name == "enterLogScope" || id.Name == "leaveLogScope" || id.Name == "panic") {
				return
			}
		}
		emit(s.Pos(), s.End(), "", "delete call")
	case *ast.AssignStmt:
		if s.Tok != token.DEFINE {
			emit(s.Pos(), s.End(), "", "delete assignment")
		}
	case *ast.IncDecStmt:
		emit(s.Pos(), s.End(), "", "delete increment")
	case *ast.BranchStmt:
		if s.Label == nil && s.Tok != token.FALLTHROUGH {
			emit(s.Pos(), s.End(), "", "delete "+s.Tok.String())
		}
	}
}
