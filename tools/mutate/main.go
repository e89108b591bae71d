// mutate lists small behaviour changes of the Go files given, one JSON object per line: file, offset range, replacement.
// Development tool: tools/mutcampaign.sh tries them against the checks in a private copy of both trees.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strings"
)

type mutant struct {
	File string `json:"file"`
	Line int    `json:"line"`
	Kind string `json:"kind"`
	From int    `json:"from"`
	To   int    `json:"to"`
	Old  string `json:"old"`
	New  string `json:"new"`
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	for _, f := range os.Args[1:] {
		src, err := os.ReadFile(f)
		if err != nil {
			panic(err)
		}
		fs := token.NewFileSet()
		tree, err := parser.ParseFile(fs, f, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fs.Position(p).Offset }
		text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		emit := func(kind string, n ast.Node, to string) {
			enc.Encode(mutant{f, fs.Position(n.Pos()).Line, kind, off(n.Pos()), off(n.End()), text(n), to})
		}
		ends := func(b *ast.BlockStmt) bool {
			if len(b.List) == 0 {
				return false
			}
			switch b.List[len(b.List)-1].(type) {
			case *ast.ReturnStmt, *ast.BranchStmt:
				return true
			}
			return false
		}
		ast.Inspect(tree, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.IfStmt:
				k := "if-never"
				if text(x.Cond) == "err != nil" {
					k = "err-ignored"
				}
				emit(k, x.Cond, "false && ("+text(x.Cond)+")")
				if !ends(x.Body) {
					emit("if-always", x.Cond, "true || ("+text(x.Cond)+")")
				}
			case *ast.BinaryExpr:
				l, r := text(x.X), text(x.Y)
				switch x.Op {
				case token.LAND:
					emit("and-left", x, "("+l+" && (true || "+r+"))")
					emit("and-right", x, "((true || "+l+") && "+r+")")
				case token.LOR:
					emit("or-left", x, "("+l+" || (false && ("+r+")))")
					emit("or-right", x, "((false && ("+l+")) || "+r+")")
				case token.LSS, token.LEQ, token.GTR, token.GEQ:
					n := map[token.Token]string{token.LSS: "<=", token.LEQ: "<", token.GTR: ">=", token.GEQ: ">"}[x.Op]
					emit("bound", x, l+" "+n+" "+r)
				case token.ADD:
					if b, ok := x.Y.(*ast.BasicLit); ok && b.Kind == token.INT {
						emit("plus", x, l+" + ("+r+" + 1)")
					}
				case token.SUB:
					if b, ok := x.Y.(*ast.BasicLit); ok && b.Kind == token.INT {
						emit("minus", x, l+" - ("+r+" - 1)")
					}
				}
			case *ast.ExprStmt:
				if c, ok := x.X.(*ast.CallExpr); ok {
					name := text(c.Fun)
					if strings.HasPrefix(name, "log.") || strings.HasPrefix(name, "fmt.") || name == "panic" {
						return true
					}
					var args []string
					for _, a := range c.Args {
						args = append(args, text(a))
					}
					if len(args) > 0 {
						emit("call-dropped", x, strings.Repeat("_, ", len(args)-1)+"_ = "+strings.Join(args, ", "))
					} else {
						emit("call-dropped", x, "")
					}
				}
			case *ast.AssignStmt:
				if x.Tok == token.ASSIGN && len(x.Lhs) == 1 && len(x.Rhs) == 1 {
					if _, ok := x.Lhs[0].(*ast.Ident); !ok {
						emit("set-dropped", x, "_ = "+text(x.Rhs[0]))
					}
				}
			case *ast.CompositeLit:
				if len(text(x)) < 4000 {
					for i, e := range x.Elts {
						kv, ok := e.(*ast.KeyValueExpr)
						if !ok || len(x.Elts) < 2 || i > 12 {
							continue
						}
						if _, ok := kv.Key.(*ast.Ident); !ok {
							continue
						}
						switch kv.Value.(type) {
						case *ast.BasicLit, *ast.SelectorExpr, *ast.Ident:
							emit("field-unset", kv, "/* */")
						}
					}
				}
			}
			return true
		})
	}
	fmt.Fprintln(os.Stderr, "done")
}
