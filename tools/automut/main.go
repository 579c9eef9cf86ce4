// Command automut lists small changes to Go source files, one JSON object a line: file, start, end, text, description.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type mut struct {
	File       string
	Start, End int
	Text, Desc string
}

var swaps = map[token.Token][]string{
	token.LSS: {"<=", ">="}, token.LEQ: {"<"}, token.GTR: {">=", "<="}, token.GEQ: {">"},
	token.EQL: {"!="}, token.NEQ: {"=="},
	token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"/"}, token.QUO: {"*"}, token.REM: {"/"},
	token.LAND: {"||"}, token.LOR: {"&&"}, token.AND: {"|"}, token.OR: {"&"},
	token.SHL: {">>"}, token.SHR: {"<<"}, token.AND_NOT: {"&"},
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	for _, file := range os.Args[1:] {
		src, err := os.ReadFile(file)
		if err != nil {
			panic(err)
		}
		fs := token.NewFileSet()
		f, err := parser.ParseFile(fs, file, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fs.Position(p).Offset }
		put := func(s, e token.Pos, text, desc string) {
			enc.Encode(mut{file, off(s), off(e), text, fmt.Sprintf("%s:%d %s", file, fs.Position(s).Line, desc)})
		}
		txt := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		del := func(n ast.Node) { put(n.Pos(), n.End(), "", "delete "+txt(n)) }
		inCall := map[ast.Node]bool{}
		ast.Inspect(f, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.ImportSpec:
				return false
			case *ast.BinaryExpr:
				for _, t := range swaps[x.Op] {
					put(x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), t, txt(x)+" with "+t)
				}
				if x.Op == token.LAND || x.Op == token.LOR {
					put(x.Pos(), x.End(), txt(x.X), "only "+txt(x.X))
					put(x.Pos(), x.End(), txt(x.Y), "only "+txt(x.Y))
				}
			case *ast.UnaryExpr:
				if x.Op == token.NOT {
					put(x.Pos(), x.End(), txt(x.X), "without not "+txt(x))
				}
			case *ast.BasicLit:
				if x.Kind == token.INT {
					if v, err := strconv.ParseInt(x.Value, 0, 64); err == nil {
						put(x.Pos(), x.End(), fmt.Sprint(v+1), x.Value+" +1")
						if v > 0 {
							put(x.Pos(), x.End(), fmt.Sprint(v-1), x.Value+" -1")
						}
					}
				}
			case *ast.IfStmt:
				if _, ok := x.Cond.(*ast.BinaryExpr); !ok {
					put(x.Cond.Pos(), x.Cond.End(), "!("+txt(x.Cond)+")", "negated "+txt(x.Cond))
				}
				if x.Else == nil && x.Init == nil {
					del(x)
				}
				put(x.Cond.Pos(), x.Cond.End(), "("+txt(x.Cond)+") && false", "never "+txt(x.Cond))
			case *ast.AssignStmt:
				if x.Tok != token.DEFINE {
					del(x)
				} else if len(x.Rhs) == 1 {
					// evaluated only
				}
				switch x.Tok {
				case token.ADD_ASSIGN:
					put(x.TokPos, x.TokPos+2, "-=", txt(x)+" with -=")
				case token.SUB_ASSIGN:
					put(x.TokPos, x.TokPos+2, "+=", txt(x)+" with +=")
				case token.OR_ASSIGN:
					put(x.TokPos, x.TokPos+2, "&=", txt(x)+" with &=")
					put(x.TokPos, x.TokPos+2, "=", txt(x)+" with =")
				}
			case *ast.ExprStmt, *ast.DeferStmt, *ast.IncDecStmt:
				del(x)
			case *ast.BranchStmt:
				if x.Tok == token.CONTINUE || x.Tok == token.BREAK {
					del(x)
					if x.Label == nil {
						o := "break"
						if x.Tok == token.BREAK {
							o = "continue"
						}
						put(x.Pos(), x.End(), o, txt(x)+" to "+o)
					}
				}
			case *ast.ReturnStmt:
				for i, r := range x.Results {
					if id, ok := r.(*ast.Ident); ok && (id.Name == "true" || id.Name == "false") {
						o := "true"
						if id.Name == o {
							o = "false"
						}
						put(r.Pos(), r.End(), o, "return "+o)
						continue
					}
					if i == len(x.Results)-1 && txt(r) != "nil" {
						put(r.Pos(), r.End(), "nil", txt(x)+" returns nil")
					}
					if i == len(x.Results)-1 && txt(r) == "nil" && len(x.Results) > 1 {
						put(r.Pos(), r.End(), "err", txt(x)+" returns err")
					}
				}
			case *ast.SliceExpr:
				if x.Low != nil {
					put(x.Low.Pos(), x.Low.End(), "", "no low bound "+txt(x))
					put(x.Low.Pos(), x.Low.End(), txt(x.Low)+"+1", "low+1 "+txt(x))
				}
				if x.High != nil {
					put(x.High.Pos(), x.High.End(), "", "no high bound "+txt(x))
					put(x.High.Pos(), x.High.End(), txt(x.High)+"-1", "high-1 "+txt(x))
				}
			case *ast.CallExpr:
				for i := 0; i+1 < len(x.Args); i++ {
					a, b := x.Args[i], x.Args[i+1]
					if txt(a) == txt(b) {
						continue
					}
					put(a.Pos(), b.End(), txt(b)+", "+txt(a), "swapped "+txt(x))
				}
				inCall[x] = true
			case *ast.CaseClause:
				if len(x.List) > 1 {
					for i := range x.List {
						if i+1 < len(x.List) {
							put(x.List[i].Pos(), x.List[i+1].Pos(), "", "case without "+txt(x.List[i]))
						} else {
							put(x.List[i-1].End(), x.List[i].End(), "", "case without "+txt(x.List[i]))
						}
					}
				}
			case *ast.SelectorExpr:
				// constants and fields of the same kind
				for _, g := range groups {
					for i, a := range g {
						if x.Sel.Name == a {
							b := g[(i+1)%len(g)]
							put(x.Sel.Pos(), x.Sel.End(), b, txt(x)+" to "+b)
						}
					}
				}
			case *ast.CompositeLit:
				for i, e := range x.Elts {
					if _, ok := e.(*ast.KeyValueExpr); !ok {
						continue
					}
					if i+1 < len(x.Elts) {
						put(e.Pos(), x.Elts[i+1].Pos(), "", "without "+txt(e))
					} else if i > 0 {
						put(x.Elts[i-1].End(), e.End(), "", "without "+txt(e))
					} else {
						put(e.Pos(), x.Rbrace, "", "without "+txt(e))
					}
				}
			}
			return true
		})
	}
}

var groups = [][]string{
	{"MountFlagsAllowRead", "MountFlagsAllowWrite", "MountFlagsAllowInsert", "MountFlagsAllowDelete", "MountFlagsAllowAdminister"},
	{"LastAccessed", "LastModified", "CreatedAt", "LastChanged", "DeletedAt"},
	{"SeekStart", "SeekCurrent", "SeekEnd"},
	{"ErrNotFound", "ErrExists", "ErrNotPermitted", "ErrReadOnlyFileSystem", "ErrNotADirectory", "ErrIsADirectory", "ErrNotSupported", "ErrInvalidArgument", "ErrArgumentOutOfRange", "ErrFileSystemCorrupted"},
	{"Uid", "Gid"},
	{"ModeDir", "ModeSymlink", "ModeDevice", "ModeNamedPipe"},
	{"loadedBlocks", "dirtyBlocks"},
	{"EOF", "ErrUnexpectedEOF"},
	{"Stat", "Lstat"},
	{"lookUpFollowingLink", "lookUpNoFollow"},
	{"CanWrite", "CanInsert", "CanDelete", "CanAdminister", "CanRead"},
	{"Read", "Write", "Append", "Create", "Exclusive", "Truncate", "Synchronous"},
}
