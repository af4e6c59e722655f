package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
)

// The replay of a schedule needs the code under test to stop at a chosen
// point.  schedWorkspace writes copies of v1 and v2 in which a call of
// verifPoint precedes every statement, every load of a field or slice
// element and every store to one, and a go.work file that uses them.

type edit struct {
	at, end int // replaced range
	text    string
	seq     int
}

const schedHelpers = `package %s

// VerifPoint is called before every step.
var VerifPoint = func() {}

func verifPoint() { VerifPoint() }

func verifL[T any](p *T) T { VerifPoint(); return *p }

func verifS[T any](v T) T { VerifPoint(); return v }
`

func schedWorkspace(p *Prog, harness, tmp string) (gowork string, err error) {
	var uses []string
	add := func(d string) { uses = append(uses, "\t"+d) }
	add(harness)
	for _, pkg := range p.pkgs {
		if !strings.HasPrefix(pkg.PkgPath, "github.com/superwhiskers/crunch/") || len(pkg.GoFiles) == 0 {
			continue
		}
		src := filepath.Dir(pkg.GoFiles[0])
		if strings.HasSuffix(pkg.PkgPath, "/v3") {
			add(src)
			continue
		}
		dir := filepath.Join(tmp, "sched", filepath.Base(pkg.PkgPath))
		if err = os.MkdirAll(dir, 0o755); err != nil {
			return
		}
		add(dir)
		mod, e := os.ReadFile(filepath.Join(src, "go.mod"))
		if e != nil {
			return "", e
		}
		m := regexp.MustCompile(`(?m)^go .*$`).ReplaceAll(mod, nil)
		os.WriteFile(filepath.Join(dir, "go.mod"), append(m, "\ngo 1.21\n"...), 0o644)
		if sum, e := os.ReadFile(filepath.Join(src, "go.sum")); e == nil {
			os.WriteFile(filepath.Join(dir, "go.sum"), sum, 0o644)
		}
		os.WriteFile(filepath.Join(dir, "verif_sched.go"), []byte(fmt.Sprintf(schedHelpers, pkg.Name)), 0o644)
		for _, f := range pkg.Syntax {
			name := pkg.Fset.Position(f.Pos()).Filename
			b, e := os.ReadFile(name)
			if e != nil {
				return "", e
			}
			os.WriteFile(filepath.Join(dir, filepath.Base(name)), instrument(pkg, f, b), 0o644)
		}
	}
	gowork = filepath.Join(tmp, "sched", "go.work")
	err = os.WriteFile(gowork, []byte("go 1.26.0\n\nuse (\n"+strings.Join(uses, "\n")+"\n)\n"), 0o644)
	return
}

func instrument(pkg *packages.Package, f *ast.File, src []byte) []byte {
	tf := pkg.Fset.File(f.Pos())
	off := func(p token.Pos) int { return tf.Offset(p) }
	info := pkg.TypesInfo
	var es []edit
	ins := func(at int, text string) { es = append(es, edit{at, at, text, len(es)}) }
	point := func(l []ast.Stmt) {
		for _, s := range l {
			switch s.(type) {
			case *ast.EmptyStmt, *ast.CaseClause, *ast.CommClause:
			default:
				ins(off(s.Pos()), "verifPoint(); ")
			}
		}
	}
	// what can be looked at through a pointer
	cell := func(x ast.Expr) bool {
		switch y := ast.Unparen(x).(type) {
		case *ast.SelectorExpr:
			s := info.Selections[y]
			if s == nil || s.Kind() != types.FieldVal {
				return false
			}
			if _, ptr := info.TypeOf(y.X).Underlying().(*types.Pointer); !ptr {
				if id, ok := y.X.(*ast.Ident); !ok || info.Uses[id] == nil {
					return false
				}
			}
		case *ast.IndexExpr:
			if _, ok := info.TypeOf(y.X).Underlying().(*types.Slice); !ok {
				return false
			}
		default:
			return false
		}
		switch t := info.TypeOf(x).Underlying().(type) {
		case *types.Basic:
			return true
		case *types.Slice:
			_, ok := t.Elem().Underlying().(*types.Basic)
			return ok
		}
		return false
	}
	typ := func(x ast.Expr) string {
		return types.TypeString(info.TypeOf(x), func(p *types.Package) string {
			if p == pkg.Types {
				return ""
			}
			return p.Name()
		})
	}
	skip := map[ast.Expr]bool{}
	text := func(x ast.Node) string { return string(src[off(x.Pos()):off(x.End())]) }
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.GenDecl:
			return x.Tok == token.VAR || x.Tok == token.IMPORT
		case *ast.BlockStmt:
			point(x.List)
		case *ast.CaseClause:
			point(x.Body)
		case *ast.CommClause:
			point(x.Body)
		case *ast.UnaryExpr:
			if x.Op == token.AND {
				skip[ast.Unparen(x.X)] = true
			}
		case *ast.RangeStmt:
			if x.Key != nil {
				skip[ast.Unparen(x.Key)] = true
			}
			if x.Value != nil {
				skip[ast.Unparen(x.Value)] = true
			}
		case *ast.IncDecStmt:
			skip[ast.Unparen(x.X)] = true
			if cell(x.X) {
				op := x.Tok.String()[:1]
				es = append(es, edit{off(x.TokPos), off(x.TokPos) + 2, fmt.Sprintf("= verifS[%s](verifL(&%s) %s 1)", typ(x.X), text(x.X), op), len(es)})
			}
		case *ast.AssignStmt:
			for _, l := range x.Lhs {
				skip[ast.Unparen(l)] = true
			}
			if len(x.Lhs) != 1 || len(x.Rhs) != 1 || !cell(x.Lhs[0]) {
				break
			}
			switch x.Tok {
			case token.DEFINE:
			case token.ASSIGN:
				if tv := info.Types[x.Rhs[0]]; tv.Value == nil && !tv.IsNil() {
					ins(off(x.Rhs[0].Pos()), "verifS["+typ(x.Lhs[0])+"](")
					ins(off(x.Rhs[0].End()), ")")
				}
			default:
				op := strings.TrimSuffix(x.Tok.String(), "=")
				es = append(es, edit{off(x.TokPos), off(x.TokPos) + len(x.Tok.String()), fmt.Sprintf("= verifS[%s](verifL(&%s) %s (", typ(x.Lhs[0]), text(x.Lhs[0]), op), len(es)})
				ins(off(x.End()), "))")
			}
		}
		if x, ok := n.(ast.Expr); ok && !skip[x] && cell(x) {
			if _, paren := x.(*ast.ParenExpr); !paren {
				ins(off(x.Pos()), "verifL(&")
				ins(off(x.End()), ")")
			}
		}
		return true
	})
	// by position; what was recorded first (the outer node) comes first
	// among insertions before a node and last among those after one
	open := func(e edit) bool {
		return strings.HasSuffix(e.text, "(&") || strings.HasSuffix(e.text, "](") || strings.HasSuffix(e.text, "; ")
	}
	sort.SliceStable(es, func(i, j int) bool {
		a, b := es[i], es[j]
		if a.at != b.at {
			return a.at < b.at
		}
		if open(a) != open(b) {
			return !open(a)
		}
		if open(a) {
			return a.seq < b.seq
		}
		return a.seq > b.seq
	})
	var out bytes.Buffer
	at := 0
	for _, e := range es {
		out.Write(src[at:e.at])
		out.WriteString(e.text)
		at = e.end
	}
	out.Write(src[at:])
	return out.Bytes()
}
