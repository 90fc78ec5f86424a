// mutate lists small changes to Go source files as JSON, one per line.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
	"strings"
)

type mutant struct {
	File       string `json:"file"`
	Line       int    `json:"line"`
	Start, End int
	New        string `json:"new"`
	Old        string `json:"old"`
	Kind       string `json:"kind"`
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	root := os.Args[1]
	for _, f := range os.Args[2:] {
		src, err := os.ReadFile(root + "/" + f)
		if err != nil {
			panic(err)
		}
		fs := token.NewFileSet()
		a, err := parser.ParseFile(fs, f, src, parser.ParseComments)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fs.Position(p).Offset }
		emit := func(kind string, s, e token.Pos, n string) {
			enc.Encode(mutant{f, fs.Position(s).Line, off(s), off(e), n, string(src[off(s):off(e)]), kind})
		}
		text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		var inFunc int
		ast.Inspect(a, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.ImportSpec:
				return false
			case *ast.FuncDecl:
				inFunc++
			case *ast.BinaryExpr:
				op := func(news ...string) {
					for _, o := range news {
						emit("op", x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), o)
					}
				}
				switch x.Op {
				case token.LSS:
					op("<=", ">=")
				case token.LEQ:
					op("<", ">")
				case token.GTR:
					op(">=", "<=")
				case token.GEQ:
					op(">", "<")
				case token.EQL:
					op("!=")
				case token.NEQ:
					op("==")
				case token.ADD:
					op("-")
				case token.SUB:
					op("+")
				case token.MUL:
					op("/")
				case token.QUO:
					op("*")
				case token.REM:
					op("*")
				case token.AND:
					op("|", "&^")
				case token.OR:
					op("&")
				case token.LAND:
					op("||")
					emit("dropright", x.X.End(), x.Y.End(), "")
					emit("dropleft", x.X.Pos(), x.Y.Pos(), "")
				case token.LOR:
					op("&&")
					emit("dropright", x.X.End(), x.Y.End(), "")
					emit("dropleft", x.X.Pos(), x.Y.Pos(), "")
				}
				if x.Op == token.ADD || x.Op == token.SUB || x.Op == token.MUL || x.Op == token.QUO {
					emit("dropright", x.X.End(), x.Y.End(), "")
				}
			case *ast.UnaryExpr:
				if x.Op == token.NOT || x.Op == token.SUB {
					emit("unary", x.Pos(), x.X.Pos(), "")
				}
			case *ast.BasicLit:
				switch x.Kind {
				case token.INT:
					if v, err := strconv.ParseInt(x.Value, 0, 64); err == nil {
						emit("lit", x.Pos(), x.End(), fmt.Sprint(v+1))
						if v > 0 {
							emit("lit", x.Pos(), x.End(), fmt.Sprint(v-1))
						}
					}
				case token.FLOAT:
					if v, err := strconv.ParseFloat(x.Value, 64); err == nil {
						w := v * 1.1
						if v == 0 {
							w = 1
						}
						s := strconv.FormatFloat(w, 'g', -1, 64)
						if !strings.ContainsAny(s, ".e") {
							s += ".0"
						}
						emit("lit", x.Pos(), x.End(), s)
					}
				case token.STRING:
					if s, err := strconv.Unquote(x.Value); err == nil && inFunc > 0 {
						emit("str", x.Pos(), x.End(), strconv.Quote(s+"_"))
					}
				}
			case *ast.IfStmt:
				emit("if-true", x.Cond.Pos(), x.Cond.End(), "("+text(x.Cond)+") || true")
				emit("if-false", x.Cond.Pos(), x.Cond.End(), "("+text(x.Cond)+") && false")
			case *ast.ExprStmt:
				emit("del", x.Pos(), x.End(), "")
			case *ast.AssignStmt:
				if x.Tok != token.DEFINE {
					blank := ""
					for _, r := range x.Lhs {
						_ = r
					}
					emit("del", x.Pos(), x.End(), blank)
					// keep operands used
					if len(x.Rhs) == 1 && len(x.Lhs) == 1 {
						emit("del_", x.Pos(), x.End(), "_ = "+text(x.Rhs[0]))
					}
				}
				sw := map[token.Token]string{token.ADD_ASSIGN: "-=", token.SUB_ASSIGN: "+=", token.MUL_ASSIGN: "/=", token.QUO_ASSIGN: "*="}
				if s, ok := sw[x.Tok]; ok {
					emit("op=", x.TokPos, x.TokPos+token.Pos(len(x.Tok.String())), s)
				}
				if x.Tok == token.ADD_ASSIGN || x.Tok == token.MUL_ASSIGN {
					emit("op=", x.TokPos, x.TokPos+2, "=")
				}
			case *ast.IncDecStmt:
				emit("del", x.Pos(), x.End(), "")
			case *ast.BranchStmt:
				if x.Label == nil {
					emit("del", x.Pos(), x.End(), "")
					if x.Tok == token.CONTINUE {
						emit("branch", x.Pos(), x.End(), "break")
					}
				}
			case *ast.SelectorExpr:
				swap := map[string]string{"Min": "Max", "Max": "Min", "MinI": "MaxI", "MaxI": "MinI", "MinI64": "MaxI64", "X": "Y", "Y": "X", "Ceil": "Floor", "Floor": "Ceil", "Sin": "Cos", "Cos": "Sin",
					"StackOffset": "StackOffsetEZ", "StackOffsetEZ": "StackOffsetHR", "StackOffsetHR": "StackOffset", "StackIndex": "StackIndexEZ", "StackIndexEZ": "StackIndexHR", "StackIndexHR": "StackIndex",
					"GetStartTime": "GetEndTime", "GetEndTime": "GetStartTime", "StartTime": "EndTime", "EndTime": "StartTime", "StrainTime": "DeltaTime", "DeltaTime": "StrainTime",
					"GetStackedStartPositionMod": "GetStackedEndPositionMod", "GetStackedEndPositionMod": "GetStackedStartPositionMod", "JumpDistance": "MovementDistance", "MovementDistance": "JumpDistance", "TravelTime": "MovementTime",
					"GetStartPosition": "GetEndPosition", "GetEndPosition": "GetStartPosition", "GetStackedPositionAtMod": "", "TrimSpace": "ToLower", "countOk": "countMeh", "countMeh": "countOk", "countMiss": "effectiveMissCount", "effectiveMissCount": "countMiss",
					"totalHits": "countGreat", "countGreat": "totalHits", "ARReal": "ODReal", "ODReal": "ARReal", "Circles": "ObjectCount", "ObjectCount": "Circles", "Sliders": "Spinners", "Spinners": "Sliders",
					"DoubleTime": "Nightcore", "HalfTime": "Daycore", "Easy": "HardRock", "HardRock": "Easy", "Hidden": "Flashlight", "Flashlight": "Hidden", "Relax": "Relax2", "Perfect": "SuddenDeath", "SuddenDeath": "Perfect", "Nightcore": "DoubleTime", "Daycore": "HalfTime"}
				if s := swap[x.Sel.Name]; s != "" && inFunc > 0 {
					emit("sel", x.Sel.Pos(), x.Sel.End(), s)
				}
			case *ast.CallExpr:
				// drop a limit or a rounding around a value
				if s, ok := x.Fun.(*ast.SelectorExpr); ok && len(x.Args) > 0 {
					switch s.Sel.Name {
					case "Min", "Max", "MinI", "MaxI":
						if len(x.Args) == 2 {
							emit("unwrap", x.Pos(), x.End(), "("+text(x.Args[0])+")")
							emit("unwrap", x.Pos(), x.End(), "("+text(x.Args[1])+")")
						}
					case "ClampF64", "ClampF32", "Abs", "Floor", "Ceil", "TrimSpace":
						emit("unwrap", x.Pos(), x.End(), "("+text(x.Args[0])+")")
					}
				}
			case *ast.CaseClause:
				for _, e := range x.List {
					if id, ok := e.(*ast.Ident); ok && id.Name == "_" {
						continue
					}
				}
			}
			return true
		})
	}
}
