// Command mutate lists small mutants of the Go files given: one JSON object per line with the file, line, byte
// span and replacement text. It is a development aid (see sweep.py); no check uses it.
package main

import (
	"encoding/json"
	"go/ast"
	"go/parser"
	"go/token"
	"io/ioutil"
	"os"
)

type mutant struct {
	File       string
	Line       int
	Off, Len   int
	Old, New   string
	Kind, Func string
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	for _, name := range os.Args[1:] {
		src, err := ioutil.ReadFile(name)
		if err != nil {
			panic(err)
		}
		fs := token.NewFileSet()
		f, err := parser.ParseFile(fs, name, src, 0)
		if err != nil {
			panic(err)
		}
		fn := ""
		emit := func(kind string, from, to token.Pos, repl string) {
			a, b := fs.Position(from).Offset, fs.Position(to).Offset
			enc.Encode(mutant{name, fs.Position(from).Line, a, b - a, string(src[a:b]), repl, kind, fn})
		}
		text := func(n ast.Node) string {
			return string(src[fs.Position(n.Pos()).Offset:fs.Position(n.End()).Offset])
		}
		ops := map[token.Token][]string{
			token.LSS: {"<=", ">"}, token.LEQ: {"<"}, token.GTR: {">=", "<"}, token.GEQ: {">"},
			token.EQL: {"!="}, token.NEQ: {"=="}, token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"/"}, token.QUO: {"*"},
			token.LAND: {"||"}, token.LOR: {"&&"}, token.REM: {"/"},
		}
		aops := map[token.Token]string{token.ADD_ASSIGN: "-=", token.SUB_ASSIGN: "+=", token.MUL_ASSIGN: "/=", token.QUO_ASSIGN: "*="}
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil {
				continue
			}
			fn = fd.Name.Name
			ast.Inspect(fd.Body, func(n ast.Node) bool {
				switch v := n.(type) {
				case *ast.CallExpr:
					if id, ok := v.Fun.(*ast.Ident); ok && id.Name == "panic" {
						return false
					}
					if se, ok := v.Fun.(*ast.SelectorExpr); ok {
						if x, ok := se.X.(*ast.Ident); ok && (x.Name == "fmt" || x.Name == "log") {
							return false
						}
					}
					if len(v.Args) == 2 && text(v.Args[0]) != text(v.Args[1]) {
						a, b := v.Args[0], v.Args[1]
						emit("swapargs", a.Pos(), b.End(), text(b)+", "+text(a))
					}
				case *ast.BinaryExpr:
					for _, r := range ops[v.Op] {
						emit("op", v.OpPos, v.OpPos+token.Pos(len(v.Op.String())), r)
					}
				case *ast.BasicLit:
					if v.Kind == token.INT {
						switch v.Value {
						case "0":
							emit("lit", v.Pos(), v.End(), "1")
						case "1":
							emit("lit", v.Pos(), v.End(), "0")
							emit("lit", v.Pos(), v.End(), "2")
						case "2":
							emit("lit", v.Pos(), v.End(), "1")
						}
					} else if v.Kind == token.FLOAT {
						emit("lit", v.Pos(), v.End(), v.Value+"*3")
					}
				case *ast.AssignStmt:
					if r, ok := aops[v.Tok]; ok {
						emit("aop", v.TokPos, v.TokPos+token.Pos(len(v.Tok.String())), r)
						emit("aset", v.TokPos, v.TokPos+token.Pos(len(v.Tok.String())), "=")
					}
					if v.Tok != token.DEFINE {
						emit("delete", v.Pos(), v.End(), "_ = 0")
					}
				case *ast.ExprStmt:
					if _, ok := v.X.(*ast.CallExpr); ok {
						emit("delete", v.Pos(), v.End(), "_ = 0")
					}
				case *ast.IncDecStmt:
					if v.Tok == token.INC {
						emit("incdec", v.TokPos, v.TokPos+2, "--")
					}
				case *ast.IfStmt:
					emit("cond", v.Cond.Pos(), v.Cond.End(), "true || "+"("+text(v.Cond)+")")
					emit("cond", v.Cond.Pos(), v.Cond.End(), "false && "+"("+text(v.Cond)+")")
				case *ast.BranchStmt:
					if v.Label == nil && v.Tok == token.CONTINUE {
						emit("branch", v.Pos(), v.End(), "break")
					}
				case *ast.SelectorExpr:
					if x, ok := v.X.(*ast.Ident); ok && x.Name == "math" {
						r := map[string]string{"Max": "Min", "Min": "Max", "Sqrt": "Abs", "Floor": "Ceil", "Ceil": "Floor", "Log": "Log1p", "Exp": "Expm1", "Abs": "Sqrt"}[v.Sel.Name]
						if r != "" {
							emit("fn", v.Sel.Pos(), v.Sel.End(), r)
						}
					}
				case *ast.IndexExpr:
					if b, ok := v.Index.(*ast.Ident); ok {
						_ = b
						// neighbouring index
						emit("index", v.Index.Pos(), v.Index.End(), "0*"+text(v.Index))
					}
				case *ast.UnaryExpr:
					if v.Op == token.SUB || v.Op == token.NOT {
						emit("unary", v.OpPos, v.OpPos+1, "")
					}
				}
				return true
			})
		}
	}
}
