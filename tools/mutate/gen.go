// Command gen lists small mutations of Go files: one JSON object per line with
// the file, the byte range replaced, the new text and the kind.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"strconv"
	"strings"
)

type mut struct {
	File       string
	Start, End int
	New, Kind  string
	Line       int
	Func       string
}

var ops = map[token.Token][]string{
	token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"/"}, token.QUO: {"*"}, token.LSS: {"<="}, token.LEQ: {"<"}, token.GTR: {">="}, token.GEQ: {">"},
	token.EQL: {"!="}, token.NEQ: {"=="}, token.LAND: {"||"}, token.LOR: {"&&"}, token.REM: {"/"}, token.SHL: {">>"}, token.SHR: {"<<"}, token.AND: {"|"}, token.OR: {"&"},
}
var asg = map[token.Token]string{token.ADD_ASSIGN: "-=", token.SUB_ASSIGN: "+=", token.MUL_ASSIGN: "/=", token.QUO_ASSIGN: "*="}

func main() {
	enc := json.NewEncoder(os.Stdout)
	for _, root := range os.Args[1:] {
		filepath.Walk(root, func(p string, info os.FileInfo, err error) error {
			if err != nil || info.IsDir() || !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
				return err
			}
			fs := token.NewFileSet()
			f, err := parser.ParseFile(fs, p, nil, 0)
			if err != nil {
				return nil
			}
			src, _ := os.ReadFile(p)
			fn := ""
			off := func(x token.Pos) int { return fs.Position(x).Offset }
			emit := func(s, e token.Pos, new, kind string) {
				enc.Encode(mut{p, off(s), off(e), new, kind, fs.Position(s).Line, fn})
			}
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Body == nil {
					continue
				}
				fn = fd.Name.Name
				ast.Inspect(fd.Body, func(n ast.Node) bool {
					switch x := n.(type) {
					case *ast.BinaryExpr:
						for _, r := range ops[x.Op] {
							emit(x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), r, "op "+x.Op.String()+" to "+r)
						}
					case *ast.BasicLit:
						if x.Kind == token.INT {
							if v, err := strconv.ParseInt(x.Value, 0, 64); err == nil {
								emit(x.Pos(), x.End(), fmt.Sprint(v+1), fmt.Sprintf("%s to %d", x.Value, v+1))
							}
						} else if x.Kind == token.FLOAT {
							if v, err := strconv.ParseFloat(x.Value, 64); err == nil {
								w := v * 1.25
								if v == 0 {
									w = 0.25
								}
								emit(x.Pos(), x.End(), fmt.Sprintf("%v", w)+dot(w), fmt.Sprintf("%s to %v", x.Value, w))
							}
						}
					case *ast.IfStmt:
						c := string(src[off(x.Cond.Pos()):off(x.Cond.End())])
						emit(x.Cond.Pos(), x.Cond.End(), "!("+c+")", "negate if")
						emit(x.Cond.Pos(), x.Cond.End(), "("+c+") && false", "never if")
						emit(x.Cond.Pos(), x.Cond.End(), "("+c+") || true", "always if")
					case *ast.UnaryExpr:
						if x.Op == token.SUB {
							emit(x.OpPos, x.OpPos+1, "+", "unary minus")
						} else if x.Op == token.NOT {
							emit(x.OpPos, x.OpPos+1, "!!", "unary not")
						}
					case *ast.AssignStmt:
						if r, ok := asg[x.Tok]; ok {
							emit(x.TokPos, x.TokPos+2, r, "assign op")
						}
						if x.Tok != token.DEFINE {
							del := "_ = 0"
							for _, e := range x.Rhs {
								del += "; _ = " + string(src[off(e.Pos()):off(e.End())])
							}
							if len(x.Rhs) != len(x.Lhs) {
								del = ""
							}
							emit(x.Pos(), x.End(), del, "delete assignment")
						}
					case *ast.ExprStmt:
						if _, ok := x.X.(*ast.CallExpr); ok {
							emit(x.Pos(), x.End(), "_ = 0", "delete call")
						}
					case *ast.IncDecStmt:
						emit(x.Pos(), x.End(), "_ = 0", "delete incdec")
					case *ast.SelectorExpr:
						if id, ok := x.X.(*ast.Ident); ok && id.Name == "math" {
							m := map[string]string{"Max": "Min", "Min": "Max", "Sin": "Cos", "Cos": "Sin", "Floor": "Ceil", "Ceil": "Floor", "Abs": "Sqrt", "Round": "Floor"}
							if r, ok := m[x.Sel.Name]; ok {
								emit(x.Sel.Pos(), x.Sel.End(), r, "math."+x.Sel.Name+" to "+r)
							}
						}
					case *ast.BranchStmt:
						if x.Tok == token.BREAK && x.Label == nil {
							emit(x.Pos(), x.End(), "_ = 0", "delete break")
						} else if x.Tok == token.CONTINUE && x.Label == nil {
							emit(x.Pos(), x.End(), "_ = 0", "delete continue")
						}
					}
					return true
				})
			}
			return nil
		})
	}
}

func dot(v float64) string {
	if v == float64(int64(v)) {
		return ".0"
	}
	return ""
}
