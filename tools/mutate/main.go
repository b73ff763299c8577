// mutate lists small changes of Go source files as JSON lines
// {"id","file","line","op","start","end","new"} (byte offsets, replacement).
// It was used to look for changes that the checks miss, see DESIGN.md.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
	"strings"
)

type mut struct {
	ID    string `json:"id"`
	File  string `json:"file"`
	Line  int    `json:"line"`
	Op    string `json:"op"`
	Start int    `json:"start"`
	End   int    `json:"end"`
	New   string `json:"new"`
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	n := 0
	for _, f := range os.Args[1:] {
		src, err := os.ReadFile(f)
		if err != nil {
			panic(err)
		}
		fset := token.NewFileSet()
		file, err := parser.ParseFile(fset, f, src, parser.ParseComments)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fset.Position(p).Offset }
		text := func(x ast.Node) string { return string(src[off(x.Pos()):off(x.End())]) }
		seen := map[string]bool{}
		emit := func(op string, a, b token.Pos, repl string) {
			k := fmt.Sprint(off(a), off(b), repl)
			if seen[k] || string(src[off(a):off(b)]) == repl {
				return
			}
			seen[k] = true
			n++
			enc.Encode(mut{fmt.Sprintf("m%04d", n), f, fset.Position(a).Line, op, off(a), off(b), repl})
		}
		rep := func(op string, x ast.Node, repl string) { emit(op, x.Pos(), x.End(), repl) }
		noLog := func(s string) bool {
			return strings.Contains(s, "Log.Print") || strings.Contains(s, "fmt.Errorf") || strings.Contains(s, "errors.New(")
		}
		var stmts func(l []ast.Stmt)
		stmts = func(l []ast.Stmt) {
			for i, s := range l {
				t := text(s)
				if noLog(t) && !strings.Contains(t, "{") {
					continue
				}
				switch x := s.(type) {
				case *ast.ExprStmt, *ast.IncDecStmt, *ast.SendStmt:
					rep("delete", s, "")
				case *ast.DeferStmt:
					rep("delete", s, "")
					rep("undefer", s, text(x.Call))
				case *ast.GoStmt:
					rep("ungo", s, text(x.Call))
				case *ast.AssignStmt:
					if x.Tok != token.DEFINE {
						rep("delete", s, "")
					}
				case *ast.ReturnStmt:
					if len(x.Results) == 0 {
						rep("delete", s, "")
					}
					if len(x.Results) > 0 {
						last := x.Results[len(x.Results)-1]
						if id, ok := last.(*ast.Ident); ok && id.Name == "err" {
							rep("nilerr", last, "nil")
						}
						if id, ok := last.(*ast.Ident); ok && (id.Name == "true" || id.Name == "false") {
							rep("flip", last, map[string]string{"true": "false", "false": "true"}[id.Name])
						}
					}
				case *ast.BranchStmt:
					rep("delete", s, "")
				case *ast.IfStmt:
					if x.Else == nil && x.Init == nil {
						rep("delete-if", s, "")
					}
				case *ast.ForStmt, *ast.RangeStmt, *ast.SwitchStmt:
					rep("delete-block", s, "")
				}
				// swap with the next simple statement
				if i+1 < len(l) && !noLog(t) {
					simple := func(s ast.Stmt) bool {
						switch x := s.(type) {
						case *ast.ExprStmt, *ast.IncDecStmt, *ast.DeferStmt, *ast.IfStmt:
							return true
						case *ast.AssignStmt:
							return x.Tok != token.DEFINE
						}
						return false
					}
					if simple(s) && simple(l[i+1]) && !noLog(text(l[i+1])) {
						emit("swap", s.Pos(), l[i+1].End(), text(l[i+1])+"\n"+t)
					}
				}
			}
		}
		ast.Inspect(file, func(nd ast.Node) bool {
			switch x := nd.(type) {
			case *ast.GenDecl:
				if x.Tok == token.IMPORT || x.Tok == token.TYPE {
					return false
				}
			case *ast.BlockStmt:
				stmts(x.List)
			case *ast.CaseClause:
				stmts(x.Body)
				if len(x.List) > 1 {
					for i, e := range x.List {
						var rest []string
						for j, o := range x.List {
							if j != i {
								rest = append(rest, text(o))
							}
						}
						_ = e
						emit("drop-case", x.List[0].Pos(), x.List[len(x.List)-1].End(), strings.Join(rest, ", "))
					}
				}
				if x.List != nil {
					rep("delete-clause", x, "")
				}
			case *ast.CommClause:
				stmts(x.Body)
				rep("delete-clause", x, "")
			case *ast.IfStmt:
				rep("negate", x.Cond, "!("+text(x.Cond)+")")
				rep("true", x.Cond, "("+text(x.Cond)+") || true")
				rep("false", x.Cond, "("+text(x.Cond)+") && false")
				if x.Else != nil {
					emit("delete-else", x.Body.End(), x.Else.End(), "")
				}
			case *ast.BinaryExpr:
				m := map[token.Token][]string{
					token.LSS: {"<=", "!="}, token.LEQ: {"<"}, token.GTR: {">="}, token.GEQ: {">"},
					token.EQL: {"!="}, token.NEQ: {"=="}, token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"+"},
					token.QUO: {"*"}, token.REM: {"/"}, token.SHL: {">>"}, token.SHR: {"<<"}, token.OR: {"&"}, token.AND: {"|"},
				}[x.Op]
				for _, r := range m {
					emit("op"+x.Op.String()+r, x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), r)
				}
				if x.Op == token.LAND || x.Op == token.LOR {
					rep("left", x, text(x.X))
					rep("right", x, text(x.Y))
					o := "||"
					if x.Op == token.LOR {
						o = "&&"
					}
					emit("logic", x.OpPos, x.OpPos+2, o)
				}
			case *ast.BasicLit:
				if x.Kind == token.INT {
					if v, err := strconv.ParseInt(x.Value, 0, 64); err == nil {
						rep("int+1", x, fmt.Sprint(v+1))
						if v > 0 {
							rep("int-1", x, fmt.Sprint(v-1))
						}
					}
				}
			case *ast.Ident:
				if (x.Name == "true" || x.Name == "false") && x.Obj == nil {
					rep("flip", x, map[string]string{"true": "false", "false": "true"}[x.Name])
				}
			case *ast.SliceExpr:
				if x.Low != nil {
					rep("low+1", x.Low, text(x.Low)+"+1")
					emit("nolow", x.Low.Pos(), x.Low.End(), "")
				}
				if x.High != nil {
					rep("high-1", x.High, text(x.High)+"-1")
				}
			case *ast.UnaryExpr:
				if x.Op == token.NOT {
					rep("unnot", x, text(x.X))
				}
			case *ast.SelectorExpr:
				switch x.Sel.Name {
				case "Lock":
					rep("rlock", x.Sel, "RLock")
				case "IsUtf8", "EncodingUtf8", "Utf8":
					rep("enc", x.Sel, strings.Replace(x.Sel.Name, "Utf8", "Binary", 1))
				case "Utf16", "EncodingUtf16":
					rep("enc", x.Sel, strings.Replace(x.Sel.Name, "Utf16", "Utf8", 1))
				case "MsgReplyShutdown":
					rep("type", x.Sel, "MsgReplyInternalError")
				case "MsgReplyInternalError":
					rep("type", x.Sel, "MsgReplySessionNotFound")
				}
			}
			return true
		})
	}
}
