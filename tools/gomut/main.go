// gomut lists the mutants of Go files, one JSON object per line: file, line, what, content.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type mutant struct {
	File    string `json:"file"`
	Line    int    `json:"line"`
	What    string `json:"what"`
	Content string `json:"content"`
}

var swaps = map[token.Token][]token.Token{
	token.LSS: {token.LEQ, token.GTR}, token.LEQ: {token.LSS}, token.GTR: {token.GEQ, token.LSS}, token.GEQ: {token.GTR},
	token.EQL: {token.NEQ}, token.NEQ: {token.EQL}, token.ADD: {token.SUB}, token.SUB: {token.ADD},
	token.MUL: {token.QUO}, token.QUO: {token.MUL}, token.LAND: {token.LOR}, token.LOR: {token.LAND},
	token.SHL: {token.SHR}, token.SHR: {token.SHL}, token.AND: {token.OR}, token.REM: {token.QUO},
	token.ADD_ASSIGN: {token.SUB_ASSIGN, token.ASSIGN}, token.SUB_ASSIGN: {token.ADD_ASSIGN},
}

// integer types and the narrower ones to go through
var integer = map[string][]string{
	"int": {"int8", "uint8", "int16", "uint16", "int32"}, "int64": {"int16", "uint16", "int32"},
	"uint32": {"uint8", "int16", "uint16"}, "int32": {"int16", "uint16"}, "uint": {"uint8", "uint16"}, "uint64": {"uint16", "uint32"},
	"uint16": {"int8", "uint8"}, "int16": {"int8", "uint8"}, "rune": {"uint16", "int16", "uint8"},
	"GlyphIndex": {"uint8", "int8"}, "GID": {"uint8"}, "offset32": {"uint16", "int16"}, "offset16": {"uint8"},
}

func isLog(s ast.Stmt) bool {
	e, ok := s.(*ast.ExprStmt)
	if !ok {
		return false
	}
	c, ok := e.X.(*ast.CallExpr)
	if !ok {
		return false
	}
	sel, ok := c.Fun.(*ast.SelectorExpr)
	if !ok {
		return false
	}
	id, ok := sel.X.(*ast.Ident)
	return ok && id.Name == "logrus"
}

func main() {
	out := json.NewEncoder(os.Stdout)
	for _, name := range os.Args[1:] {
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, name, nil, parser.ParseComments)
		if err != nil {
			panic(err)
		}
		emit := func(pos token.Pos, what string) {
			var b bytes.Buffer
			if err := format.Node(&b, fset, f); err != nil {
				return
			}
			out.Encode(mutant{name, fset.Position(pos).Line, what, b.String()})
		}
		inLog := map[ast.Node]bool{}
		ast.Inspect(f, func(n ast.Node) bool {
			if s, ok := n.(ast.Stmt); ok && isLog(s) {
				return false
			}
			switch x := n.(type) {
			case *ast.GenDecl:
				if x.Tok == token.IMPORT || x.Tok == token.TYPE {
					return false
				}
			case *ast.BinaryExpr:
				for _, t := range swaps[x.Op] {
					old := x.Op
					x.Op = t
					emit(x.OpPos, fmt.Sprintf("%s -> %s", old, t))
					x.Op = old
				}
				// one side only
				if x.Op == token.LAND || x.Op == token.LOR {
					keep := *x
					x.X = ast.NewIdent(map[token.Token]string{token.LAND: "true", token.LOR: "false"}[x.Op])
					emit(x.OpPos, "drop left of "+x.Op.String())
					*x = keep
					x.Y = ast.NewIdent(map[token.Token]string{token.LAND: "true", token.LOR: "false"}[x.Op])
					emit(x.OpPos, "drop right of "+x.Op.String())
					*x = keep
				}
			case *ast.AssignStmt:
				for _, t := range swaps[x.Tok] {
					old := x.Tok
					x.Tok = t
					emit(x.TokPos, fmt.Sprintf("%s -> %s", old, t))
					x.Tok = old
				}
			case *ast.IncDecStmt:
				if x.Tok == token.INC {
					x.Tok = token.DEC
					emit(x.TokPos, "++ -> --")
					x.Tok = token.INC
				}
			case *ast.BasicLit:
				if x.Kind == token.INT && !inLog[x] {
					v, err := strconv.ParseInt(x.Value, 0, 64)
					if err == nil {
						old := x.Value
						for _, d := range []int64{1, -1} {
							x.Value = strconv.FormatInt(v+d, 10)
							emit(x.ValuePos, old+" -> "+x.Value)
						}
						x.Value = old
					}
				}
				if x.Kind == token.STRING && len(x.Value) > 2 && len(x.Value) <= 8 {
					old := x.Value
					x.Value = old[:len(old)-1] + "x\""
					emit(x.ValuePos, "string "+old)
					x.Value = old
				}
			case *ast.BranchStmt:
				if x.Label == nil && (x.Tok == token.BREAK || x.Tok == token.CONTINUE) {
					old := x.Tok
					if old == token.BREAK {
						x.Tok = token.CONTINUE
					} else {
						x.Tok = token.BREAK
					}
					emit(x.TokPos, old.String()+" swapped")
					x.Tok = old
				}
			case *ast.IfStmt:
				old := x.Cond
				x.Cond = &ast.BinaryExpr{X: &ast.ParenExpr{X: old}, Op: token.LAND, Y: ast.NewIdent("false")}
				emit(x.If, "if never")
				x.Cond = &ast.BinaryExpr{X: &ast.ParenExpr{X: old}, Op: token.LOR, Y: ast.NewIdent("true")}
				emit(x.If, "if always")
				x.Cond = old
			case *ast.CallExpr:
				if id, ok := x.Fun.(*ast.Ident); ok && id.Name == "append" && x.Ellipsis.IsValid() && len(x.Args) == 2 {
					// aliasing instead of copying
					if _, isConv := x.Args[0].(*ast.CallExpr); isConv {
						a, e := x.Args, x.Ellipsis
						x.Fun, x.Args, x.Ellipsis = ast.NewIdent(""), x.Args[1:], token.NoPos
						emit(x.Lparen, "alias instead of copy")
						x.Fun, x.Args, x.Ellipsis = id, a, e
					}
				}
				if id, ok := x.Fun.(*ast.Ident); ok && len(x.Args) == 1 && integer[id.Name] != nil {
					for _, t := range integer[id.Name] {
						a := x.Args[0]
						x.Args[0] = &ast.CallExpr{Fun: ast.NewIdent(t), Args: []ast.Expr{a}}
						emit(x.Lparen, "through "+t)
						x.Args[0] = a
					}
				}
			case *ast.ForStmt:
				// the loop gives up early
				if as, ok := x.Init.(*ast.AssignStmt); ok && len(as.Lhs) == 1 && x.Cond != nil {
					old := x.Cond
					if id, ok := as.Lhs[0].(*ast.Ident); ok {
						for _, k := range []string{"2", "12", "70", "300", "5000"} {
							x.Cond = &ast.BinaryExpr{X: &ast.ParenExpr{X: old}, Op: token.LAND, Y: &ast.BinaryExpr{
								X: ast.NewIdent(id.Name), Op: token.LSS, Y: &ast.BasicLit{Kind: token.INT, Value: k}}}
							emit(x.For, "for at most "+k)
						}
					}
					x.Cond = old
				}
			case *ast.SliceExpr:
				if old := x.High; old != nil {
					x.High = &ast.BinaryExpr{X: &ast.ParenExpr{X: old}, Op: token.SUB, Y: &ast.BasicLit{Kind: token.INT, Value: "1"}}
					emit(x.Lbrack, "high - 1")
					x.High = old
				}
				if old := x.Low; old != nil {
					x.Low = &ast.BinaryExpr{X: &ast.ParenExpr{X: old}, Op: token.ADD, Y: &ast.BasicLit{Kind: token.INT, Value: "1"}}
					emit(x.Lbrack, "low + 1")
					x.Low = old
				}
			case *ast.IndexExpr:
				old := x.Index
				if _, ok := old.(*ast.BasicLit); !ok {
					for _, op := range []token.Token{token.ADD, token.SUB} {
						x.Index = &ast.BinaryExpr{X: old, Op: op, Y: &ast.BasicLit{Kind: token.INT, Value: "1"}}
						emit(x.Lbrack, "index "+op.String()+" 1")
					}
					x.Index = old
				}
			case *ast.ReturnStmt:
				if k := len(x.Results); k > 0 {
					if id, ok := x.Results[k-1].(*ast.Ident); ok && id.Name != "nil" &&
						(id.Name == "err" || len(id.Name) > 3 && id.Name[:3] == "err") {
						old := x.Results[k-1]
						x.Results[k-1] = ast.NewIdent("nil")
						emit(x.Return, "return nil error")
						x.Results[k-1] = old
					}
				}
			case *ast.RangeStmt:
				// last element left out
				old := x.X
				if x.Key != nil && x.Value != nil {
					x.X = &ast.SliceExpr{X: old, High: &ast.BinaryExpr{X: &ast.CallExpr{Fun: ast.NewIdent("len"),
						Args: []ast.Expr{old}}, Op: token.SUB, Y: &ast.BasicLit{Kind: token.INT, Value: "1"}}}
					emit(x.For, "range without last")
					x.X = &ast.SliceExpr{X: old, Low: &ast.BasicLit{Kind: token.INT, Value: "1"}}
					emit(x.For, "range without first")
					x.X = old
				}
				if id, ok := x.Key.(*ast.Ident); ok && x.Tok == token.DEFINE {
					for _, k := range []string{"2", "12", "70", "300", "5000"} {
						name := id.Name
						if name == "_" {
							break
						}
						stop := &ast.IfStmt{Cond: &ast.BinaryExpr{X: ast.NewIdent(name), Op: token.GEQ,
							Y: &ast.BasicLit{Kind: token.INT, Value: k}},
							Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.BREAK}}}}
						body := x.Body.List
						x.Body.List = append([]ast.Stmt{stop}, body...)
						emit(x.For, "range at most "+k)
						x.Body.List = body
					}
				}
			}
			// neighbours swapped
			if b, ok := n.(*ast.BlockStmt); ok {
				for i := 0; i+1 < len(b.List); i++ {
					if isLog(b.List[i]) || isLog(b.List[i+1]) {
						continue
					}
					b.List[i], b.List[i+1] = b.List[i+1], b.List[i]
					emit(b.List[i+1].Pos(), "swapped with the next")
					b.List[i], b.List[i+1] = b.List[i+1], b.List[i]
				}
			}
			// statement deletion
			if b, ok := n.(*ast.BlockStmt); ok {
				for i, s := range b.List {
					switch y := s.(type) {
					case *ast.ExprStmt:
						if isLog(s) {
							continue
						}
					case *ast.AssignStmt:
						if y.Tok == token.DEFINE {
							continue
						}
					case *ast.IncDecStmt, *ast.ForStmt, *ast.RangeStmt, *ast.DeferStmt, *ast.BranchStmt:
					default:
						continue
					}
					b.List[i] = &ast.EmptyStmt{Semicolon: s.Pos()}
					emit(s.Pos(), "delete statement")
					b.List[i] = s
				}
			}
			return true
		})
	}
}
