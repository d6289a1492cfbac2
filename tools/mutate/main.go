// Lists simple mutations of Go source files, as JSON lines: file, start, end, new text, description.
// Used to measure checks; see run.py. Not a part of any check.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
	"strings"
)

type mut struct {
	File  string `json:"file"`
	Line  int    `json:"line"`
	Start int    `json:"start"`
	End   int    `json:"end"`
	New   string `json:"new"`
	Desc  string `json:"desc"`
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	enc.SetEscapeHTML(false)
	for _, name := range os.Args[1:] {
		src, err := os.ReadFile(name)
		if err != nil {
			panic(err)
		}
		fs := token.NewFileSet()
		f, err := parser.ParseFile(fs, name, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fs.Position(p).Offset }
		emit := func(a, b token.Pos, new string) {
			s, e := off(a), off(b)
			old := string(src[s:e])
			if len(old) > 60 {
				old = old[:60] + "..."
			}
			enc.Encode(mut{name, fs.Position(a).Line, s, e, new, fmt.Sprintf("%q => %q", old, new)})
		}
		del := func(n ast.Node) { emit(n.Pos(), n.End(), "") }
		bin := map[token.Token][]string{
			token.LSS: {"<=", ">="}, token.LEQ: {"<", ">"}, token.GTR: {">=", "<="}, token.GEQ: {">", "<"},
			token.EQL: {"!="}, token.NEQ: {"=="}, token.LAND: {"||"}, token.LOR: {"&&"},
			token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"/"}, token.QUO: {"*"}, token.REM: {"/"},
			token.AND: {"|"}, token.OR: {"&"}, token.XOR: {"&"}, token.SHL: {">>"}, token.SHR: {"<<"},
		}
		asg := map[token.Token]string{token.ADD_ASSIGN: "-=", token.SUB_ASSIGN: "+=", token.MUL_ASSIGN: "/=", token.QUO_ASSIGN: "*="}
		ast.Inspect(f, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.FuncDecl:
				if n.Name.Name == "String" {
					return false
				}
			case *ast.GenDecl:
				if n.Tok == token.IMPORT {
					return false
				}
			case *ast.BinaryExpr:
				for _, o := range bin[n.Op] {
					emit(n.OpPos, n.OpPos+token.Pos(len(n.Op.String())), o)
				}
				if n.Op == token.LAND || n.Op == token.LOR {
					emit(n.Pos(), n.End(), string(src[off(n.X.Pos()):off(n.X.End())]))
					emit(n.Pos(), n.End(), string(src[off(n.Y.Pos()):off(n.Y.End())]))
				}
			case *ast.BasicLit:
				if n.Kind == token.INT {
					if v, err := strconv.ParseInt(n.Value, 0, 64); err == nil {
						emit(n.Pos(), n.End(), fmt.Sprint(v+1))
						if v > 0 {
							emit(n.Pos(), n.End(), fmt.Sprint(v-1))
						}
					}
				} else if n.Kind == token.STRING && len(n.Value) > 2 {
					emit(n.Pos(), n.End(), n.Value[:len(n.Value)-1]+"x"+n.Value[len(n.Value)-1:])
				} else if n.Kind == token.FLOAT {
					emit(n.Pos(), n.End(), "(1.01*"+n.Value+")")
				}
			case *ast.Ident:
				if n.Name == "true" {
					emit(n.Pos(), n.End(), "false")
				} else if n.Name == "false" {
					emit(n.Pos(), n.End(), "true")
				}
			case *ast.UnaryExpr:
				if n.Op == token.NOT {
					emit(n.Pos(), n.X.Pos(), "")
				} else if n.Op == token.SUB {
					emit(n.Pos(), n.X.Pos(), "")
				}
			case *ast.IncDecStmt:
				if n.Tok == token.INC {
					emit(n.TokPos, n.TokPos+2, "--")
				} else {
					emit(n.TokPos, n.TokPos+2, "++")
				}
				del(n)
			case *ast.AssignStmt:
				if o, ok := asg[n.Tok]; ok {
					emit(n.TokPos, n.TokPos+token.Pos(len(n.Tok.String())), o)
				}
				if n.Tok != token.DEFINE {
					del(n)
				}
			case *ast.ExprStmt, *ast.DeferStmt, *ast.GoStmt, *ast.SendStmt:
				del(n)
				if g, ok := n.(*ast.GoStmt); ok {
					emit(g.Pos(), g.Call.Pos(), "")
				}
			case *ast.BranchStmt:
				if n.Label == nil && n.Tok == token.BREAK {
					emit(n.Pos(), n.End(), "continue")
				} else if n.Label == nil && n.Tok == token.CONTINUE {
					emit(n.Pos(), n.End(), "break")
				}
				del(n)
			case *ast.ReturnStmt:
				del(n)
				for _, r := range n.Results {
					if id, ok := r.(*ast.Ident); ok && id.Name != "nil" && id.Name != "true" && id.Name != "false" {
						emit(r.Pos(), r.End(), "nil")
					}
				}
			case *ast.IfStmt:
				c := n.Cond
				emit(c.Pos(), c.End(), "!("+string(src[off(c.Pos()):off(c.End())])+")")
				emit(c.Pos(), c.End(), "true || ("+string(src[off(c.Pos()):off(c.End())])+")")
				emit(c.Pos(), c.End(), "false && ("+string(src[off(c.Pos()):off(c.End())])+")")
				if b, ok := n.Else.(*ast.BlockStmt); ok {
					emit(b.Lbrace+1, b.Rbrace, "")
				}
			case *ast.CaseClause:
				if len(n.Body) != 0 {
					emit(n.Body[0].Pos(), n.Body[len(n.Body)-1].End(), "")
				}
			case *ast.CallExpr:
				if id, ok := n.Fun.(*ast.Ident); ok && id.Name == "panic" {
					return false
				}
				if id, ok := n.Fun.(*ast.SelectorExpr); ok && (id.Sel.Name == "New" || id.Sel.Name == "Errorf" || strings.HasSuffix(id.Sel.Name, "w")) && len(n.Args) != 0 {
					if _, ok := n.Args[0].(*ast.BasicLit); ok {
						return false // messages
					}
				}
				if id, ok := n.Fun.(*ast.Ident); ok && (id.Name == "min" || id.Name == "max") {
					o := map[string]string{"min": "max", "max": "min"}[id.Name]
					emit(id.Pos(), id.End(), o)
				}
				if id, ok := n.Fun.(*ast.SelectorExpr); ok && id.Sel.Name == "Clone" && len(n.Args) == 1 {
					a := n.Args[0]
					emit(n.Pos(), n.End(), string(src[off(a.Pos()):off(a.End())]))
				}
			case *ast.SliceExpr:
				if n.Low != nil {
					emit(n.Low.Pos(), n.Low.End(), "")
				}
				if n.High != nil && !n.Slice3 {
					emit(n.High.Pos(), n.High.End(), "")
				}
				if n.Slice3 {
					emit(n.High.End(), n.Max.End(), "")
				}
			}
			return true
		})
	}
}
