// mutate lists small changes of a Go file as JSON lines {line, from, to, off, end}.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type mut struct {
	File string `json:"file"`
	Line int    `json:"line"`
	Off  int    `json:"off"`
	End  int    `json:"end"`
	From string `json:"from"`
	To   string `json:"to"`
	Kind string `json:"kind"`
}

func main() {
	for _, path := range os.Args[1:] {
		src, err := os.ReadFile(path)
		if err != nil {
			panic(err)
		}
		fs := token.NewFileSet()
		f, err := parser.ParseFile(fs, path, src, 0)
		if err != nil {
			panic(err)
		}
		enc := json.NewEncoder(os.Stdout)
		off := func(p token.Pos) int { return fs.Position(p).Offset }
		emit := func(kind string, a, b token.Pos, to string) {
			enc.Encode(mut{path, fs.Position(a).Line, off(a), off(b), string(src[off(a):off(b)]), to, kind})
		}
		text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		ops := map[token.Token][]string{
			token.LSS: {"<=", ">="}, token.LEQ: {"<", ">"}, token.GTR: {">=", "<="}, token.GEQ: {">", "<"},
			token.EQL: {"!="}, token.NEQ: {"=="}, token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"+"}, token.QUO: {"*"},
			token.REM: {"+"}, token.LAND: {"||"}, token.LOR: {"&&"}, token.AND: {"|"}, token.OR: {"&"}, token.SHL: {">>"}, token.SHR: {"<<"}, token.XOR: {"|"},
		}
		asg := map[token.Token][]string{token.ADD_ASSIGN: {"-="}, token.SUB_ASSIGN: {"+="}, token.OR_ASSIGN: {"&=", "="}}
		ast.Inspect(f, func(n ast.Node) bool {
			switch t := n.(type) {
			case *ast.FuncDecl:
				// how things print is not judged
				if t.Name.Name == "String" {
					return false
				}
			case *ast.GenDecl:
				if t.Tok == token.IMPORT {
					return false
				}
			case *ast.BinaryExpr:
				for _, o := range ops[t.Op] {
					emit("op", t.OpPos, t.OpPos+token.Pos(len(t.Op.String())), o)
				}
				if t.Op == token.LAND || t.Op == token.LOR {
					emit("left", t.Pos(), t.End(), "("+text(t.X)+")")
					emit("right", t.Pos(), t.End(), "("+text(t.Y)+")")
				}
				if t.Op == token.ADD || t.Op == token.SUB {
					emit("left", t.Pos(), t.End(), "("+text(t.X)+")")
				}
			case *ast.BasicLit:
				if t.Kind == token.INT {
					v, err := strconv.ParseInt(t.Value, 0, 64)
					if err == nil {
						emit("int", t.Pos(), t.End(), fmt.Sprint(v+1))
						if v > 0 {
							emit("int", t.Pos(), t.End(), fmt.Sprint(v-1))
						}
					}
				}
				if t.Kind == token.CHAR {
					emit("char", t.Pos(), t.End(), t.Value+"+1")
				}
			case *ast.Ident:
				if t.Name == "true" {
					emit("bool", t.Pos(), t.End(), "false")
				}
				if t.Name == "false" {
					emit("bool", t.Pos(), t.End(), "true")
				}
			case *ast.UnaryExpr:
				if t.Op == token.NOT {
					emit("not", t.OpPos, t.OpPos+1, "")
				}
				if t.Op == token.XOR {
					emit("not", t.OpPos, t.OpPos+1, "")
				}
			case *ast.IfStmt:
				emit("if", t.Cond.Pos(), t.Cond.End(), "true || ("+text(t.Cond)+")")
				emit("if", t.Cond.Pos(), t.Cond.End(), "false && ("+text(t.Cond)+")")
			case *ast.ExprStmt:
				emit("drop", t.Pos(), t.End(), "")
			case *ast.IncDecStmt:
				emit("drop", t.Pos(), t.End(), "")
			case *ast.DeferStmt:
				emit("drop", t.Pos(), t.End(), "")
			case *ast.BranchStmt:
				if t.Tok != token.GOTO {
					emit("drop", t.Pos(), t.End(), "")
				}
			case *ast.AssignStmt:
				if t.Tok != token.DEFINE {
					emit("drop", t.Pos(), t.End(), "")
				}
				for _, o := range asg[t.Tok] {
					emit("asg", t.TokPos, t.TokPos+token.Pos(len(t.Tok.String())), o)
				}
			case *ast.ReturnStmt:
				if len(t.Results) == 0 {
					emit("drop", t.Pos(), t.End(), "")
				}
			case *ast.CaseClause:
				if len(t.Body) > 0 && t.List != nil {
					emit("case", t.Body[0].Pos(), t.Body[len(t.Body)-1].End(), "")
				}
			case *ast.SliceExpr:
				if t.Low != nil {
					emit("slice", t.Low.Pos(), t.Low.End(), text(t.Low)+"+1")
				}
				if t.High != nil {
					emit("slice", t.High.Pos(), t.High.End(), text(t.High)+"-1")
				}
			case *ast.CallExpr:
				if id, ok := t.Fun.(*ast.Ident); ok && id.Name == "panic" {
					return false
				}
				if len(t.Args) == 2 {
					emit("swap", t.Args[0].Pos(), t.Args[1].End(), text(t.Args[1])+", "+text(t.Args[0]))
				}
				if id, ok := t.Fun.(*ast.Ident); ok && (id.Name == "min" || id.Name == "max") {
					emit("minmax", id.Pos(), id.End(), map[string]string{"min": "max", "max": "min"}[id.Name])
				}
			}
			return true
		})
	}
}
