// mutate lists small changes of the Go sources under a directory, one JSON object per line.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"strings"
)

type mutant struct {
	File, Kind, Old, New, Func string
	Line, Start, End           int
}

func main() {
	root := os.Args[1]
	enc := json.NewEncoder(os.Stdout)

	_ = filepath.Walk(root, func(p string, i os.FileInfo, err error) error {
		if err != nil || i.IsDir() || !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return nil
		}

		if strings.Contains(p, "/internal/testutil") || strings.Contains(p, "mock") || strings.Contains(p, "/testdata") || strings.Contains(p, "testsupport") {
			return nil
		}

		src, _ := os.ReadFile(p)
		fs := token.NewFileSet()
		f, err := parser.ParseFile(fs, p, src, 0)
		if err != nil {
			return nil
		}

		rel, _ := filepath.Rel(root, p)
		fn := ""
		off := func(x token.Pos) int { return fs.Position(x).Offset }
		text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		emit := func(kind string, n ast.Node, repl string) {
			_ = enc.Encode(mutant{rel, kind, text(n), repl, fn, fs.Position(n.Pos()).Line, off(n.Pos()), off(n.End())})
		}

		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil {
				continue
			}

			fn = fd.Name.Name

			ast.Inspect(fd.Body, func(n ast.Node) bool {
				switch x := n.(type) {
				case *ast.IfStmt:
					c := text(x.Cond)
					leaves := false
					if len(x.Body.List) > 0 {
						switch x.Body.List[len(x.Body.List)-1].(type) {
						case *ast.ReturnStmt, *ast.BranchStmt:
							leaves = true
						}
					}

					if leaves && x.Else == nil {
						emit("never", x.Cond, "false && ("+c+")")
					} else {
						emit("never", x.Cond, "false && ("+c+")")
						emit("always", x.Cond, "true || ("+c+")")
					}
				case *ast.BinaryExpr:
					if x.Op == token.LAND || x.Op == token.LOR {
						emit("left", x, "("+text(x.X)+")")
						emit("right", x, "("+text(x.Y)+")")
					}

					if x.Op == token.LSS || x.Op == token.GTR || x.Op == token.LEQ || x.Op == token.GEQ {
						m := map[token.Token]string{token.LSS: "<=", token.LEQ: "<", token.GTR: ">=", token.GEQ: ">"}
						emit("bound", x, text(x.X)+m[x.Op]+text(x.Y))
					}
					if x.Op == token.EQL || x.Op == token.NEQ {
						not := map[token.Token]string{token.EQL: "", token.NEQ: "!"}[x.Op]
						if l, ok := x.Y.(*ast.BasicLit); !(ok && l.Kind != token.STRING) && text(x.Y) != "nil" && text(x.Y) != `""` {
							emit("fold", x, not+"strings.EqualFold("+text(x.X)+", "+text(x.Y)+")")
							emit("prefix", x, not+"strings.HasPrefix("+text(x.X)+", "+text(x.Y)+")")
						}
					}
				case *ast.RangeStmt:
					if k := len(x.Body.List); k > 0 {
						switch x.Body.List[k-1].(type) {
						case *ast.ReturnStmt, *ast.BranchStmt:
						default:
							t := text(x.Body)
							emit("loopbreak", x.Body, t[:len(t)-1]+"\nif true { break } }")
						}
					}

					emit("looptail", x.X, fmt.Sprintf("%s[min(1, len(%s)):]", text(x.X), text(x.X)))
				case *ast.BlockStmt:
					for i := 0; i+1 < len(x.List); i++ {
						a, b := x.List[i], x.List[i+1]
						if _, ok := b.(*ast.ReturnStmt); ok {
							continue
						}

						_ = enc.Encode(mutant{rel, "swapstmt", string(src[off(a.Pos()):off(b.End())]), text(b) + "\n" + text(a), fn, fs.Position(a.Pos()).Line, off(a.Pos()), off(b.End())})
					}
				case *ast.CallExpr:
					for i := 0; i+1 < len(x.Args); i++ {
						a, b := x.Args[i], x.Args[i+1]
						if text(a) != text(b) && !x.Ellipsis.IsValid() && !strings.Contains(text(x.Fun), "Errorf") {
							_ = enc.Encode(mutant{rel, "swapargs", string(src[off(a.Pos()):off(b.End())]), text(b) + ", " + text(a), fn, fs.Position(a.Pos()).Line, off(a.Pos()), off(b.End())})
						}
					}
				case *ast.ExprStmt:
					if _, ok := x.X.(*ast.CallExpr); ok {
						emit("nocall", x, "if false { "+text(x)+" }")
					}
				case *ast.AssignStmt:
					if x.Tok == token.ASSIGN {
						emit("noassign", x, "if false { "+text(x)+" }")
					}
				case *ast.BranchStmt:
					if x.Tok == token.CONTINUE {
						emit("break", x, "break")
					}
				case *ast.ReturnStmt:
					if len(x.Results) > 0 {
						if l, ok := x.Results[len(x.Results)-1].(*ast.Ident); ok && l.Name == "err" {
							emit("nilerr", l, "nil")
						} else if c, ok := x.Results[len(x.Results)-1].(*ast.CallExpr); ok && (strings.HasPrefix(text(c.Fun), "fmt.Errorf") || strings.HasPrefix(text(c.Fun), "errors.New")) {
							emit("nilerr", c, fmt.Sprintf("func() error { _ = %s; return nil }()", text(c)))
						}
					}
				case *ast.KeyValueExpr:
					if id, ok := x.Key.(*ast.Ident); ok && id.IsExported() || ok {
						_ = id
						emit("nofield", x, "")
					}
				}

				return true
			})
		}

		return nil
	})
}
