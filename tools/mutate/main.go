// Lists mutants of a Go file as JSON lines: {"file","line","op","start","end","new"}.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"io/ioutil"
	"os"
	"strconv"
	"strings"
)

type mutant struct {
	File  string `json:"file"`
	Line  int    `json:"line"`
	Op    string `json:"op"`
	Start int    `json:"start"`
	End   int    `json:"end"`
	New   string `json:"new"`
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	for _, file := range os.Args[1:] {
		src, err := ioutil.ReadFile(file)
		if err != nil {
			panic(err)
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, file, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fset.Position(p).Offset }
		text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		emit := func(op string, from, to token.Pos, s string) {
			enc.Encode(mutant{file, fset.Position(from).Line, op, off(from), off(to), s})
		}
		ast.Inspect(f, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.IfStmt:
				c := text(n.Cond)
				if c != "err != nil" && c != "err == nil" {
					emit("if "+c+" negated", n.Cond.Pos(), n.Cond.End(), "!("+c+")")
					emit("if "+c+" always", n.Cond.Pos(), n.Cond.End(), "("+c+") || true")
					emit("if "+c+" never", n.Cond.Pos(), n.Cond.End(), "("+c+") && false")
				} else if c == "err != nil" {
					emit("ignore err", n.Cond.Pos(), n.Cond.End(), "err != nil && false")
				}
			case *ast.BinaryExpr:
				sw := map[token.Token][]string{token.LAND: {"||"}, token.LOR: {"&&"}, token.LSS: {"<="}, token.LEQ: {"<"}, token.GTR: {">="}, token.GEQ: {">"}, token.EQL: {"!="}, token.NEQ: {"=="}, token.ADD: {"-"}, token.SUB: {"+"}}
				for _, s := range sw[n.Op] {
					if (n.Op == token.ADD) && (isStr(n.X) || isStr(n.Y)) {
						continue
					}
					if t := text(n); t == "err != nil" || t == "err == nil" {
						continue
					}
					emit(text(n)+" to "+s, n.OpPos, n.OpPos+token.Pos(len(n.Op.String())), s)
				}
				if n.Op == token.LAND || n.Op == token.LOR {
					emit("only left of "+text(n), n.Pos(), n.End(), "("+text(n.X)+")")
					emit("only right of "+text(n), n.Pos(), n.End(), "("+text(n.Y)+")")
				}
			case *ast.BlockStmt:
				for _, s := range n.List {
					del(s, text, emit)
				}
			case *ast.CaseClause:
				for _, s := range n.Body {
					del(s, text, emit)
				}
				for i, e := range n.List {
					if len(n.List) > 1 && i > 0 {
						emit("case without "+text(e), n.List[i-1].End(), e.End(), "")
					}
				}
			case *ast.BasicLit:
				switch n.Kind {
				case token.INT:
					if v, err := strconv.Atoi(n.Value); err == nil {
						emit(n.Value+" plus one", n.Pos(), n.End(), strconv.Itoa(v+1))
					}
				case token.STRING:
					if s, err := strconv.Unquote(n.Value); err == nil && len(s) > 0 && len(s) < 40 && !strings.Contains(s, "github.com") {
						emit("string "+n.Value, n.Pos(), n.End(), strconv.Quote(s[:len(s)-1]))
					}
				}
			case *ast.Ident:
				if n.Name == "true" {
					emit("true to false", n.Pos(), n.End(), "false")
				} else if n.Name == "false" {
					emit("false to true", n.Pos(), n.End(), "true")
				}
			case *ast.CompositeLit:
				if len(n.Elts) > 1 {
					for i, e := range n.Elts {
						if i > 0 {
							emit("literal without "+text(e), n.Elts[i-1].End(), e.End(), "")
						}
					}
				}
			case *ast.SliceExpr:
				if n.Low != nil {
					emit("slice low", n.Low.Pos(), n.Low.End(), "("+text(n.Low)+")+1")
				}
				if n.High != nil {
					emit("slice high", n.High.Pos(), n.High.End(), "("+text(n.High)+")-1")
				}
			}
			return true
		})
	}
}

func isStr(e ast.Expr) bool {
	b, ok := e.(*ast.BasicLit)
	return ok && b.Kind == token.STRING
}

func del(s ast.Stmt, text func(ast.Node) string, emit func(string, token.Pos, token.Pos, string)) {
	t := text(s)
	if len(t) > 60 {
		t = t[:60]
	}
	t = strings.Join(strings.Fields(t), " ")
	switch s := s.(type) {
	case *ast.ExprStmt, *ast.IncDecStmt, *ast.DeferStmt, *ast.BranchStmt, *ast.GoStmt:
		emit("drop "+t, s.Pos(), s.End(), "")
	case *ast.AssignStmt:
		if s.Tok == token.DEFINE {
			return
		}
		emit("drop "+t, s.Pos(), s.End(), "")
	case *ast.IfStmt:
		if s.Else == nil && text(s.Cond) == "err != nil" {
			emit("drop "+t, s.Pos(), s.End(), "")
		}
	case *ast.ReturnStmt:
		for i, r := range s.Results {
			if text(r) == "err" && i == len(s.Results)-1 {
				emit(fmt.Sprintf("return nil for err in %s", t), r.Pos(), r.End(), "nil")
			}
		}
	}
}
