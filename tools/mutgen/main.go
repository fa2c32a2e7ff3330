// mutgen FILE...: lists small changes of Go files, one JSON object a line:
// {"file","off","end","new","kind","func","line"}.
package main

import (
	"encoding/json"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type mut struct {
	File string `json:"file"`
	Off  int    `json:"off"`
	End  int    `json:"end"`
	New  string `json:"new"`
	Kind string `json:"kind"`
	Func string `json:"func"`
	Line int    `json:"line"`
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	for _, file := range os.Args[1:] {
		src, err := os.ReadFile(file)
		if err != nil {
			panic(err)
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, file, src, 0)
		if err != nil {
			panic(err)
		}
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			name := ""
			if ok {
				name = fd.Name.Name
				if fd.Recv != nil {
					t := fd.Recv.List[0].Type
					if s, ok := t.(*ast.StarExpr); ok {
						t = s.X
					}
					if id, ok := t.(*ast.Ident); ok {
						name = id.Name + "." + name
					}
				}
			} else if g, ok := d.(*ast.GenDecl); !ok || g.Tok == token.IMPORT {
				continue
			}
			text := func(n ast.Node) string {
				return string(src[fset.Position(n.Pos()).Offset:fset.Position(n.End()).Offset])
			}
			put := func(from, to token.Pos, s, kind string) {
				enc.Encode(mut{file, fset.Position(from).Offset, fset.Position(to).Offset, s, kind, name, fset.Position(from).Line})
			}
			ast.Inspect(d, func(n ast.Node) bool {
				switch n := n.(type) {
				case *ast.IfStmt:
					put(n.Cond.Pos(), n.Cond.End(), "!("+text(n.Cond)+")", "negate")
					put(n.Cond.Pos(), n.Cond.End(), "false && ("+text(n.Cond)+")", "never")
				case *ast.BinaryExpr:
					rep := map[token.Token]string{token.LAND: "||", token.LOR: "&&", token.EQL: "!=", token.NEQ: "==", token.LSS: "<=", token.LEQ: "<", token.GTR: ">=", token.GEQ: ">", token.ADD: "-", token.SUB: "+"}
					if r, ok := rep[n.Op]; ok {
						put(n.OpPos, n.OpPos+token.Pos(len(n.Op.String())), r, "operator")
					}
					if n.Op == token.LAND || n.Op == token.LOR {
						put(n.Pos(), n.End(), text(n.X), "left only")
						put(n.Pos(), n.End(), text(n.Y), "right only")
					}
				case *ast.BlockStmt:
					for i, s := range n.List {
						switch s := s.(type) {
						case *ast.ExprStmt, *ast.DeferStmt, *ast.IncDecStmt:
							put(s.Pos(), s.End(), "", "drop")
						case *ast.AssignStmt:
							if s.Tok != token.DEFINE {
								put(s.Pos(), s.End(), "", "drop")
							}
						case *ast.IfStmt, *ast.ForStmt, *ast.RangeStmt:
							put(s.Pos(), s.End(), "", "drop")
						case *ast.BranchStmt:
							put(s.Pos(), s.End(), "", "drop")
						case *ast.ReturnStmt:
							if i < len(n.List)-1 || len(s.Results) > 0 {
								_ = i
							}
						}
						if i+1 < len(n.List) {
							a, ok1 := s.(*ast.IfStmt)
							b, ok2 := n.List[i+1].(*ast.IfStmt)
							if ok1 && ok2 {
								put(a.Pos(), b.End(), text(b)+"\n"+text(a), "swap")
							}
						}
					}
				case *ast.CaseClause:
					put(n.Pos(), n.End(), "", "drop case")
				case *ast.ReturnStmt:
					for _, r := range n.Results {
						if c, ok := r.(*ast.CallExpr); ok {
							if t := text(c.Fun); t == "errors.New" || t == "fmt.Errorf" {
								put(r.Pos(), r.End(), "nil", "no error")
							}
						}
						if id, ok := r.(*ast.Ident); ok {
							switch id.Name {
							case "err":
								put(r.Pos(), r.End(), "nil", "no error")
							case "true":
								put(r.Pos(), r.End(), "false", "bool")
							case "false":
								put(r.Pos(), r.End(), "true", "bool")
							}
						}
					}
				case *ast.BasicLit:
					switch n.Kind {
					case token.INT:
						if v, err := strconv.Atoi(n.Value); err == nil {
							put(n.Pos(), n.End(), strconv.Itoa(v+1), "int")
							if v > 0 {
								put(n.Pos(), n.End(), strconv.Itoa(v-1), "int")
							}
						}
					case token.STRING:
						if v, err := strconv.Unquote(n.Value); err == nil && len(v) > 0 && n.Value[0] == '"' {
							put(n.Pos(), n.End(), strconv.Quote(v[:len(v)-1]), "string")
						} else if err == nil && n.Value[0] == '`' {
							put(n.Pos(), n.End(), "`"+v[:len(v)-2]+"`", "tag")
						}
					}
				case *ast.UnaryExpr:
					if n.Op == token.NOT {
						put(n.Pos(), n.End(), text(n.X), "not")
					}
				case *ast.SliceExpr:
					if n.Low != nil {
						put(n.Low.Pos(), n.Low.End(), "", "slice")
					}
					if n.High != nil {
						put(n.High.Pos(), n.High.End(), "", "slice")
					}
				case *ast.CallExpr:
					if len(n.Args) == 2 && text(n.Args[0]) != text(n.Args[1]) {
						put(n.Args[0].Pos(), n.Args[1].End(), text(n.Args[1])+", "+text(n.Args[0]), "swap args")
					}
				}
				return true
			})
		}
	}
}
