package main

import (
	"go/ast"
	"go/parser"
	"go/token"
	"io/fs"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

const porcupineVersion = "v1.3.1"

// instrumentTree adds yield points to every non-test source file of the module
// under test, so that the simulated scheduler can switch goroutines between any
// two statements (and, at level 2, between the read and the write of one).
// Nothing here depends on what the code says; line numbers are kept.
func instrumentTree(repo, out string, level int, ov map[string]string) error {
	return filepath.WalkDir(repo, func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(repo, p)
		if d.IsDir() {
			b := d.Name()
			if rel != "." && (strings.HasPrefix(b, ".") || strings.HasPrefix(b, "_") || rel == "tests" || rel == "docs" || rel == "chart" || rel == "scripts" || b == "testdata") {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		src, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		res, ok, err := instrumentFile(p, src, level)
		if err != nil {
			return err
		}
		if !ok {
			return nil
		}
		dst := filepath.Join(out, "repo", rel)
		if err := writeFile(dst, res); err != nil {
			return err
		}
		ov[p] = dst

		return nil
	})
}

type insertion struct {
	off  int
	seq  int
	text string
	del  int // bytes removed at off
}

func instrumentFile(name string, src []byte, level int) ([]byte, bool, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, name, src, parser.ParseComments|parser.SkipObjectResolution)
	if err != nil {
		return nil, false, err
	}
	var ins []insertion
	add := func(pos token.Pos, text string, del int) {
		ins = append(ins, insertion{fset.Position(pos).Offset, len(ins), text, del})
	}
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }

	stmts := func(list []ast.Stmt) {
		for _, s := range list {
			switch s.(type) {
			case *ast.EmptyStmt:
				continue
			}
			add(s.Pos(), "simrt__.SimY(); ", 0)
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.BlockStmt:
			stmts(n.List)
		case *ast.CaseClause:
			stmts(n.Body)
		case *ast.CommClause:
			stmts(n.Body)
		}
		return true
	})
	// Clause nodes are statements of their switch's block: drop those insertions.
	bad := map[int]bool{}
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.CaseClause:
			bad[off(n.Pos())] = true
		case *ast.CommClause:
			bad[off(n.Pos())] = true
		}
		return true
	})
	kept := ins[:0]
	for _, i := range ins {
		if !bad[i.off] {
			kept = append(kept, i)
		}
	}
	ins = kept

	if level >= 2 {
		ast.Inspect(f, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.IncDecStmt:
				if shared(n.X) && pure(n.X) {
					op := " + 1"
					if n.Tok == token.DEC {
						op = " - 1"
					}
					add(n.TokPos, " = simrt__.SimV("+text(n.X)+")"+op, 2)
				}
			case *ast.AssignStmt:
				if len(n.Lhs) != 1 || len(n.Rhs) != 1 || !shared(n.Lhs[0]) || !pure(n.Lhs[0]) {
					return true
				}
				x := text(n.Lhs[0])
				switch n.Tok {
				case token.ASSIGN:
					if hasExpr(n.Rhs[0], x, text) {
						add(n.Rhs[0].Pos(), "simrt__.SimV(", 0)
						add(n.Rhs[0].End(), ")", 0)
					}
				case token.DEFINE:
				default:
					op := strings.TrimSuffix(n.Tok.String(), "=")
					add(n.TokPos, "= simrt__.SimV("+x+") "+op+" (", len(n.Tok.String()))
					add(n.Rhs[0].End(), ")", 0)
				}
			case *ast.CallExpr:
				if s, ok := n.Fun.(*ast.SelectorExpr); ok && s.Sel.Name == "Load" && len(n.Args) == 0 {
					add(n.Pos(), "simrt__.SimV(", 0)
					add(n.End(), ")", 0)
				}
			}
			return true
		})
	}
	if len(ins) == 0 {
		return nil, false, nil
	}
	add(f.Name.End(), "; import simrt__ \"runtime\"", 0)
	// Insertions at one offset: closing texts come before opening ones; a
	// statement's yield comes before an expression wrapper that starts there.
	sort.SliceStable(ins, func(a, b int) bool {
		if ins[a].off != ins[b].off {
			return ins[a].off < ins[b].off
		}
		ca, cb := ins[a].text == ")", ins[b].text == ")"
		if ca != cb {
			return ca
		}
		return ins[a].seq < ins[b].seq
	})
	var outb []byte
	last := 0
	for _, i := range ins {
		if i.off < last {
			continue
		}
		outb = append(outb, src[last:i.off]...)
		outb = append(outb, i.text...)
		last = i.off + i.del
	}
	outb = append(outb, src[last:]...)

	return outb, true, nil
}

// shared reports whether the expression may denote memory other goroutines see.
func shared(e ast.Expr) bool {
	switch e := e.(type) {
	case *ast.SelectorExpr, *ast.IndexExpr, *ast.StarExpr:
		return true
	case *ast.ParenExpr:
		return shared(e.X)
	}
	return false
}

// pure reports whether evaluating the expression twice is harmless.
func pure(e ast.Expr) bool {
	ok := true
	ast.Inspect(e, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.CallExpr, *ast.FuncLit:
			ok = false
		case *ast.UnaryExpr:
			if n.Op == token.ARROW {
				ok = false
			}
		}
		return ok
	})
	return ok
}

func hasExpr(e ast.Expr, x string, text func(ast.Node) string) bool {
	found := false
	ast.Inspect(e, func(n ast.Node) bool {
		if n, ok := n.(ast.Expr); ok && text(n) == x {
			found = true
		}
		if _, ok := n.(*ast.FuncLit); ok {
			return false
		}
		return !found
	})
	return found
}
