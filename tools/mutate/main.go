// Command mutate lists small mutations of Go source files, one JSON object
// per line: {"file", "off", "end", "new", "desc"}. It is a development tool
// for measuring the checks (see sweep.py); no check uses it.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type mutant struct {
	File string `json:"file"`
	Off  int    `json:"off"`
	End  int    `json:"end"`
	New  string `json:"new"`
	Desc string `json:"desc"`
	Func string `json:"func"`
	Line int    `json:"line"`
}

var swaps = map[token.Token][]token.Token{
	token.LSS: {token.LEQ, token.GEQ}, token.LEQ: {token.LSS}, token.GTR: {token.GEQ, token.LEQ}, token.GEQ: {token.GTR},
	token.EQL: {token.NEQ}, token.NEQ: {token.EQL}, token.LAND: {token.LOR}, token.LOR: {token.LAND},
	token.ADD: {token.SUB}, token.SUB: {token.ADD}, token.MUL: {token.QUO}, token.QUO: {token.MUL}, token.REM: {token.QUO},
}
var idents = map[string]string{"left": "right", "right": "left", "low": "high", "high": "low", "mid": "low", "true": "false", "false": "true",
	"ok0": "ok1", "ok1": "ok0", "err0": "err1", "err1": "err0", "p0": "p1", "p1": "p0"}
var sels = map[string]string{"Lock": "RLock", "RLock": "Lock", "Broadcast": "Signal"}

func main() {
	enc := json.NewEncoder(os.Stdout)
	for _, name := range os.Args[1:] {
		src, err := os.ReadFile(name)
		if err != nil {
			panic(err)
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, name, src, 0)
		if err != nil {
			panic(err)
		}
		fn := ""
		off := func(p token.Pos) int { return fset.Position(p).Offset }
		text := func(a, b token.Pos) string { return string(src[off(a):off(b)]) }
		emit := func(a, b token.Pos, repl, desc string) {
			enc.Encode(mutant{name, off(a), off(b), repl, desc, fn, fset.Position(a).Line})
		}
		del := func(n ast.Node, what string) { emit(n.Pos(), n.End(), "", "delete "+what+": "+short(text(n.Pos(), n.End()))) }
		stmts := func(list []ast.Stmt) {
			for i, s := range list {
				switch s := s.(type) {
				case *ast.ExprStmt:
					del(s, "call")
				case *ast.AssignStmt:
					if s.Tok != token.DEFINE {
						del(s, "assignment")
					}
				case *ast.IncDecStmt, *ast.SendStmt, *ast.BranchStmt:
					del(s, "statement")
				case *ast.DeferStmt:
					del(s, "defer")
					emit(s.Pos(), s.Call.Pos(), "", "undefer "+short(text(s.Pos(), s.End())))
				case *ast.GoStmt:
					emit(s.Pos(), s.Call.Pos(), "", "un-go "+short(text(s.Pos(), s.End())))
				case *ast.IfStmt:
					if s.Else == nil {
						del(s, "if")
					}
					emit(s.Cond.Pos(), s.Cond.End(), "!("+text(s.Cond.Pos(), s.Cond.End())+")", "negate "+text(s.Cond.Pos(), s.Cond.End()))
				}
				if i+1 < len(list) {
					t := list[i+1]
					_, a := s.(*ast.AssignStmt)
					_, b := t.(*ast.ReturnStmt)
					if !a || !b {
						emit(s.Pos(), t.End(), text(t.Pos(), t.End())+"\n"+text(s.Pos(), s.End()), "swap statements: "+short(text(s.Pos(), t.End())))
					}
				}
			}
		}
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil {
				continue
			}
			fn = fd.Name.Name
			ast.Inspect(fd.Body, func(n ast.Node) bool {
				switch n := n.(type) {
				case *ast.BlockStmt:
					stmts(n.List)
				case *ast.CaseClause:
					stmts(n.Body)
					for _, e := range n.List {
						emit(e.Pos(), e.End(), "!("+text(e.Pos(), e.End())+")", "negate case "+text(e.Pos(), e.End()))
					}
				case *ast.CommClause:
					stmts(n.Body)
				case *ast.BinaryExpr:
					for _, t := range swaps[n.Op] {
						emit(n.OpPos, n.OpPos+token.Pos(len(n.Op.String())), t.String(), fmt.Sprintf("%s -> %s in %s", n.Op, t, short(text(n.Pos(), n.End()))))
					}
				case *ast.BasicLit:
					if n.Kind == token.INT {
						if v, err := strconv.ParseInt(n.Value, 0, 64); err == nil {
							emit(n.Pos(), n.End(), strconv.FormatInt(v+1, 10), fmt.Sprintf("%d -> %d", v, v+1))
							if v > 0 {
								emit(n.Pos(), n.End(), strconv.FormatInt(v-1, 10), fmt.Sprintf("%d -> %d", v, v-1))
							}
						}
					}
				case *ast.SelectorExpr:
					if t, ok := sels[n.Sel.Name]; ok {
						emit(n.Sel.Pos(), n.Sel.End(), t, n.Sel.Name+" -> "+t)
						if n.Sel.Name == "RLock" || n.Sel.Name == "Lock" {
							return true
						}
					}
				case *ast.Ident:
					if t, ok := idents[n.Name]; ok {
						emit(n.Pos(), n.End(), t, n.Name+" -> "+t)
					}
				case *ast.CallExpr:
					if len(n.Args) == 2 {
						a, b := n.Args[0], n.Args[1]
						emit(a.Pos(), b.End(), text(b.Pos(), b.End())+", "+text(a.Pos(), a.End()), "swap arguments: "+short(text(n.Pos(), n.End())))
					}
				case *ast.ReturnStmt:
					if len(n.Results) > 0 {
						emit(n.Pos(), n.End(), "return", "drop results: "+short(text(n.Pos(), n.End())))
					}
				}
				return true
			})
		}
	}
}

func short(s string) string {
	if len(s) > 100 {
		s = s[:97] + "..."
	}
	return s
}
