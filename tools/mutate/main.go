// mutate FILE        lists the mutations of a source file, one per line: number, line, kind, what
// mutate FILE N      prints the source with mutation N
package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"os"
	"strconv"
	"strings"
)

type edit struct {
	from, to int
	text     string
	line     int
	kind     string
}

var src []byte
var fset = token.NewFileSet()
var edits []edit

func off(p token.Pos) int { return fset.Position(p).Offset }
func text(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
func add(n ast.Node, kind, s string) {
	edits = append(edits, edit{off(n.Pos()), off(n.End()), s, fset.Position(n.Pos()).Line, kind})
}

func logging(s string) bool {
	return strings.Contains(s, "log.") || strings.Contains(s, "Msg(") || strings.Contains(s, "Msgf(") || strings.HasPrefix(s, "ev.") || strings.HasPrefix(s, "ev =") || strings.HasPrefix(s, "scaffoldUpAttemptLog")
}

func main() {
	var err error
	src, err = os.ReadFile(os.Args[1])
	if err != nil {
		panic(err)
	}
	f, err := parser.ParseFile(fset, os.Args[1], src, 0)
	if err != nil {
		panic(err)
	}
	for _, d := range f.Decls {
		if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.IMPORT {
			continue
		}
		ast.Inspect(d, visit)
	}
	if len(os.Args) < 3 {
		for i, e := range edits {
			fmt.Printf("%d\t%d\t%s\t%.60s -> %.60s\n", i, e.line, e.kind, strings.Join(strings.Fields(string(src[e.from:e.to])), " "), strings.Join(strings.Fields(e.text), " "))
		}
		return
	}
	n, _ := strconv.Atoi(os.Args[2])
	e := edits[n]
	out := bytes.Join([][]byte{src[:e.from], []byte(e.text), src[e.to:]}, nil)
	if g, err := format.Source(out); err == nil {
		out = g
	}
	os.Stdout.Write(out)
}

func visit(n ast.Node) bool {
	switch n := n.(type) {
	case *ast.ExprStmt:
		if logging(text(n)) {
			return false
		}
		add(n, "del", "")
	case *ast.AssignStmt:
		if logging(text(n)) {
			return false
		}
		if n.Tok != token.DEFINE {
			add(n, "del", "")
		}
	case *ast.IncDecStmt, *ast.DeferStmt:
		add(n, "del", "")
	case *ast.GoStmt:
		if !strings.HasPrefix(text(n), "go func") {
			add(n, "go", text(n.Call))
		}
	case *ast.IfStmt:
		add(n.Cond, "not", "!("+text(n.Cond)+")")
		if n.Else == nil {
			add(n.Cond, "never", "false && ("+text(n.Cond)+")")
		}
	case *ast.BranchStmt:
		add(n, "del", "")
	case *ast.BinaryExpr:
		x, y := text(n.X), text(n.Y)
		op := map[token.Token]string{token.LSS: "<=", token.LEQ: "<", token.GTR: ">=", token.GEQ: ">", token.EQL: "!=", token.NEQ: "==", token.ADD: "-", token.SUB: "+", token.MUL: "/"}[n.Op]
		switch n.Op {
		case token.LAND, token.LOR:
			add(n, "left", "("+x+")")
			add(n, "right", "("+y+")")
		default:
			if op != "" {
				add(n, "op", x+" "+op+" "+y)
			}
		}
	case *ast.BasicLit:
		if n.Kind == token.INT {
			add(n, "int", "("+n.Value+" + 1)")
		}
		if n.Kind == token.STRING && len(n.Value) > 2 {
			add(n, "str", n.Value+`+"x"`)
		}
	case *ast.Ident:
		if n.Name == "true" {
			add(n, "bool", "false")
		}
		if n.Name == "false" {
			add(n, "bool", "true")
		}
	case *ast.CallExpr:
		s := text(n)
		if len(n.Args) == 1 && (strings.HasPrefix(s, "strings.To") || strings.HasPrefix(s, "strings.Trim")) {
			add(n, "arg", text(n.Args[0]))
		}
	case *ast.Field:
		return false
	}
	return true
}
