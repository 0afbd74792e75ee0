// mutate lists small source changes ("mutants") of a gotor src directory as JSON
// lines {"id","file","off","end","new","line","op"}. It is used to find out what
// the simulations do not notice; no check depends on it.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"strings"
)

type mutant struct {
	ID   string `json:"id"`
	File string `json:"file"`
	Off  int    `json:"off"`
	End  int    `json:"end"`
	New  string `json:"new"`
	Old  string `json:"old"`
	Line int    `json:"line"`
	Op   string `json:"op"`
}

func main() {
	root := os.Args[1]
	n := 0
	enc := json.NewEncoder(os.Stdout)
	filepath.Walk(root, func(p string, fi os.FileInfo, e error) error {
		if e != nil || fi.IsDir() || !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		rel, _ := filepath.Rel(root, p)
		if strings.HasPrefix(rel, "utils/test") {
			return nil
		}
		src, _ := os.ReadFile(p)
		fs := token.NewFileSet()
		f, e := parser.ParseFile(fs, p, src, 0)
		if e != nil {
			panic(e)
		}
		pos := func(p token.Pos) int { return fs.Position(p).Offset }
		seen := map[string]bool{}
		emit := func(op string, a, b token.Pos, repl string) {
			o, en := pos(a), pos(b)
			old := string(src[o:en])
			k := fmt.Sprintf("%d-%d-%s", o, en, repl)
			if old == repl || seen[k] {
				return
			}
			seen[k] = true
			n++
			enc.Encode(mutant{fmt.Sprintf("m%04d", n), rel, o, en, repl, old, fs.Position(a).Line, op})
		}
		text := func(x ast.Node) string { return string(src[pos(x.Pos()):pos(x.End())]) }
		logish := func(x ast.Node) bool {
			t := text(x)
			return strings.HasPrefix(t, "log.") || strings.HasPrefix(t, "fmt.Print") || strings.Contains(t, "defer log.")
		}
		ast.Inspect(f, func(x ast.Node) bool {
			switch x := x.(type) {
			case *ast.FuncDecl:
				if x.Name.Name == "String" {
					return false
				}
			case *ast.ExprStmt:
				if !logish(x) {
					emit("delete call", x.Pos(), x.End(), "")
				} else {
					return false
				}
			case *ast.DeferStmt:
				if !logish(x) {
					emit("delete defer", x.Pos(), x.End(), "")
				}
			case *ast.GoStmt:
				emit("no go", x.Pos(), x.Call.Pos(), "")
			case *ast.IncDecStmt:
				emit("delete inc", x.Pos(), x.End(), "")
			case *ast.SendStmt:
				emit("delete send", x.Pos(), x.End(), "")
			case *ast.AssignStmt:
				if x.Tok != token.DEFINE {
					var blank []string
					for range x.Lhs {
						blank = append(blank, "_")
					}
					if len(x.Lhs) == len(x.Rhs) {
						emit("delete assign", x.Pos(), x.End(), "")
					}
					if x.Tok == token.ASSIGN && text(x.Lhs[0]) != "_" {
						emit("drop result", x.Pos(), x.TokPos, strings.Join(blank, ", ")+" ")
					}
					if x.Tok == token.ADD_ASSIGN {
						emit("-=", x.TokPos, x.TokPos+2, "-=")
						emit("=", x.TokPos, x.TokPos+2, "=")
					}
				}
			case *ast.IfStmt:
				emit("if true", x.Cond.Pos(), x.Cond.End(), "true || ("+text(x.Cond)+")")
				emit("if false", x.Cond.Pos(), x.Cond.End(), "false && ("+text(x.Cond)+")")
			case *ast.ForStmt:
				if x.Cond != nil {
					emit("for false", x.Cond.Pos(), x.Cond.End(), "false && ("+text(x.Cond)+")")
				}
			case *ast.BranchStmt:
				if x.Label == nil {
					if x.Tok == token.CONTINUE {
						emit("break", x.Pos(), x.End(), "break")
					} else if x.Tok == token.BREAK {
						emit("delete break", x.Pos(), x.End(), "")
					}
				}
			case *ast.ReturnStmt:
				if len(x.Results) > 0 {
					l := x.Results[len(x.Results)-1]
					if id, ok := l.(*ast.Ident); ok && (id.Name == "e" || id.Name == "err") {
						emit("return nil", l.Pos(), l.End(), "nil")
					}
					if id, ok := l.(*ast.Ident); ok && (id.Name == "true" || id.Name == "false") {
						emit("return !", l.Pos(), l.End(), map[string]string{"true": "false", "false": "true"}[id.Name])
					}
				} else {
					emit("delete return", x.Pos(), x.End(), "")
				}
			case *ast.BinaryExpr:
				r := map[token.Token][]string{
					token.LSS: {"<=", ">"}, token.LEQ: {"<"}, token.GTR: {">=", "<"}, token.GEQ: {">"},
					token.EQL: {"!="}, token.NEQ: {"=="}, token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"/"},
					token.QUO: {"*"}, token.REM: {"/"}, token.LAND: {"||"}, token.LOR: {"&&"}, token.SHL: {">>"}, token.SHR: {"<<"}, token.AND: {"|"}, token.OR: {"&"},
				}
				for _, o := range r[x.Op] {
					emit("op "+o, x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), o)
				}
			case *ast.UnaryExpr:
				if x.Op == token.NOT {
					emit("drop !", x.OpPos, x.OpPos+1, "")
				}
			case *ast.BasicLit:
				if x.Kind == token.INT {
					emit("+1", x.Pos(), x.End(), "("+x.Value+" + 1)")
					if x.Value != "0" {
						emit("-1", x.Pos(), x.End(), "("+x.Value+" - 1)")
					}
				}
			case *ast.Ident:
				if x.Name == "true" {
					emit("false", x.Pos(), x.End(), "false")
				} else if x.Name == "false" {
					emit("true", x.Pos(), x.End(), "true")
				}
			case *ast.CommClause, *ast.CaseClause:
			}
			return true
		})
		return nil
	})
}
