// Command mutate lists simple syntactic mutants of a Go source file as JSON lines
// {"file","off","end","new","op","line"}. Development tool only; no check uses it.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"strconv"
	"strings"
)

type mut struct {
	File string `json:"file"`
	Off  int    `json:"off"`
	End  int    `json:"end"`
	New  string `json:"new"`
	Op   string `json:"op"`
	Line int    `json:"line"`
	Old  string `json:"old"`
}

func main() {
	root := os.Args[1]
	enc := json.NewEncoder(os.Stdout)
	enc.SetEscapeHTML(false)
	for _, f := range os.Args[2:] {
		src, err := os.ReadFile(filepath.Join(root, f))
		if err != nil {
			panic(err)
		}
		fset := token.NewFileSet()
		file, err := parser.ParseFile(fset, f, src, parser.ParseComments)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fset.Position(p).Offset }
		seen := map[string]bool{}
		emit := func(a, b token.Pos, nw, op string) {
			m := mut{f, off(a), off(b), nw, op, fset.Position(a).Line, string(src[off(a):off(b)])}
			k := fmt.Sprint(m.Off, m.End, m.New)
			if m.Old == m.New || seen[k] {
				return
			}
			seen[k] = true
			enc.Encode(m)
		}
		text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		var fn string
		ast.Inspect(file, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.ImportSpec:
				return false
			case *ast.FuncDecl:
				fn = n.Name.Name
				_ = fn
			case *ast.IfStmt:
				emit(n.Cond.Pos(), n.Cond.End(), "!("+text(n.Cond)+")", "negate-if")
				emit(n.Cond.Pos(), n.Cond.End(), "("+text(n.Cond)+") && false", "if-false")
				emit(n.Cond.Pos(), n.Cond.End(), "("+text(n.Cond)+") || true", "if-true")
				if n.Else != nil {
					emit(n.Body.End(), n.Else.End(), "", "drop-else")
				}
			case *ast.ForStmt:
				if n.Cond != nil {
					emit(n.Cond.Pos(), n.Cond.End(), "("+text(n.Cond)+") && false", "for-none")
				}
			case *ast.RangeStmt:
				if n.Body != nil && len(n.Body.List) > 0 {
					emit(n.Body.List[0].Pos(), n.Body.List[0].Pos(), "break;", "range-none")
					emit(n.Body.Rbrace, n.Body.Rbrace, ";break;", "range-once")
				}
			case *ast.BinaryExpr:
				rep := map[token.Token][]string{
					token.LSS: {"<=", ">"}, token.LEQ: {"<", ">"}, token.GTR: {">=", "<"}, token.GEQ: {">", "<"},
					token.EQL: {"!=", "<=", ">="}, token.NEQ: {"==", "<", ">"},
					token.LAND: {"||"}, token.LOR: {"&&"},
					token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"+", "/"}, token.QUO: {"*"}, token.REM: {"/"},
					token.AND: {"|"}, token.OR: {"&", "+"}, token.SHL: {">>"}, token.SHR: {"<<"}, token.XOR: {"|"},
				}
				for _, r := range rep[n.Op] {
					emit(n.OpPos, n.OpPos+token.Pos(len(n.Op.String())), r, "binop")
				}
				if n.Op == token.LAND || n.Op == token.LOR {
					emit(n.Pos(), n.End(), text(n.X), "left-only")
					emit(n.Pos(), n.End(), text(n.Y), "right-only")
				}
				switch n.Op {
				case token.ADD, token.SUB, token.MUL, token.QUO, token.REM, token.OR:
					emit(n.Pos(), n.End(), text(n.X), "left-only")
					emit(n.Pos(), n.End(), text(n.Y), "right-only")
				}
			case *ast.BasicLit:
				switch n.Kind {
				case token.INT:
					if v, err := strconv.ParseInt(n.Value, 0, 64); err == nil {
						emit(n.Pos(), n.End(), fmt.Sprint(v+1), "int+1")
						if v > 0 {
							emit(n.Pos(), n.End(), fmt.Sprint(v-1), "int-1")
						}
					}
				case token.FLOAT:
					if v, err := strconv.ParseFloat(n.Value, 64); err == nil {
						emit(n.Pos(), n.End(), strconv.FormatFloat(v*1.01, 'g', -1, 64), "float*1.01")
					}
				case token.STRING:
					if strings.HasPrefix(n.Value, `"`) && len(n.Value) > 2 && !strings.Contains(n.Value, "gltf: ") {
						emit(n.Pos(), n.End(), strconv.Quote(strings.Trim(n.Value, `"`)+"x"), "string+x")
						emit(n.Pos(), n.End(), `""`, "string-empty")
					}
				}
			case *ast.Field:
				if n.Tag != nil && len(n.Names) == 1 {
					t := n.Tag.Value
					if strings.Contains(t, ",omitempty") {
						emit(n.Tag.Pos(), n.Tag.End(), strings.Replace(t, ",omitempty", "", 1), "tag-no-omitempty")
					} else if strings.HasPrefix(t, "`json:\"") && !strings.Contains(t, `"-"`) {
						emit(n.Tag.Pos(), n.Tag.End(), strings.Replace(t, "\"`", ",omitempty\"`", 1), "tag-omitempty")
					}
					emit(n.Tag.Pos(), n.Tag.End(), "`json:\"-\"`", "tag-drop")
					i := strings.IndexAny(t, `,`)
					if i < 0 {
						i = strings.LastIndex(t, `"`)
					}
					if i > 8 {
						emit(n.Tag.Pos(), n.Tag.End(), strings.ToLower(t), "tag-lower")
					}
				}
				return false
			case *ast.Ident:
				if n.Name == "true" {
					emit(n.Pos(), n.End(), "false", "bool")
				} else if n.Name == "false" {
					emit(n.Pos(), n.End(), "true", "bool")
				}
			case *ast.ReturnStmt:
				for _, r := range n.Results {
					if id, ok := r.(*ast.Ident); ok && strings.HasPrefix(id.Name, "err") {
						emit(r.Pos(), r.End(), "nil", "return-nil")
					}
					if c, ok := r.(*ast.CallExpr); ok && (strings.HasPrefix(text(c.Fun), "err") || strings.HasPrefix(text(c.Fun), "fmt.Errorf")) {
						emit(r.Pos(), r.End(), "nil", "return-nil")
					}
				}
			case *ast.UnaryExpr:
				if n.Op == token.NOT || n.Op == token.SUB {
					emit(n.Pos(), n.End(), text(n.X), "drop-unary")
				}
			case *ast.SliceExpr:
				if n.Low != nil {
					emit(n.Low.Pos(), n.Low.End(), "0", "slice-low0")
				}
				if n.High != nil && !n.Slice3 {
					emit(n.High.Pos(), n.High.End(), "", "slice-nohigh")
				}
			case *ast.KeyValueExpr:
				e := n.End()
				if int(off(e)) < len(src) && src[off(e)] == ',' {
					e++
				}
				emit(n.Pos(), e, "", "drop-kv")
			}
			var list []ast.Stmt
			switch b := n.(type) {
			case *ast.BlockStmt:
				list = b.List
			case *ast.CaseClause:
				list = b.Body
				if len(b.List) > 1 {
					for i, e := range b.List {
						if i > 0 {
							emit(b.List[i-1].End(), e.End(), "", "drop-case-value")
						} else {
							emit(e.Pos(), b.List[1].Pos(), "", "drop-case-value")
						}
					}
				}
			}
			for i, s := range list {
				switch s := s.(type) {
				case *ast.ExprStmt, *ast.IncDecStmt, *ast.DeferStmt, *ast.GoStmt:
					emit(s.Pos(), s.End(), "", "delete-stmt")
				case *ast.AssignStmt:
					if s.Tok != token.DEFINE {
						emit(s.Pos(), s.End(), "", "delete-stmt")
					}
				case *ast.BranchStmt:
					emit(s.Pos(), s.End(), "", "delete-stmt")
				case *ast.IfStmt, *ast.ForStmt, *ast.RangeStmt, *ast.SwitchStmt:
					emit(s.Pos(), s.End(), "", "delete-block")
				}
				if i+1 < len(list) {
					a, b := s, list[i+1]
					_, r := b.(*ast.ReturnStmt)
					if !r {
						emit(a.Pos(), b.End(), text(b)+"\n"+text(a), "swap-stmts")
					}
				}
			}
			return true
		})
	}
}
