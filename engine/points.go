package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Delay points. With the overlay "points" every statement of the repository's package is preceded by a call of
// vfPoint; a harness that calls vfDelays lets the executor hold up a bounded number of statements for an arbitrary
// time, which covers the schedules a slow goroutine can cause. The replay program has the same points.

func hasPoints(overlays []string) bool {
	for _, o := range overlays {
		if o == "points" {
			return true
		}
	}
	return false
}

// pointSources is the repository's package with a point before every statement.
func pointSources(repo string) (map[string][]byte, error) {
	fs, err := filepath.Glob(filepath.Join(repo, "*.go"))
	if err != nil {
		return nil, err
	}
	sort.Strings(fs)
	out := map[string][]byte{}
	shared := sharedNames(fs)
	for _, f := range fs {
		if strings.HasSuffix(f, "_test.go") {
			continue
		}
		src, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		b, err := pointSource(f, src, shared)
		if err != nil {
			return nil, err
		}
		out[f] = b
	}
	return out, nil
}

// sharedNames are the package's variables.
func sharedNames(files []string) map[string]bool {
	out := map[string]bool{}
	for _, f := range files {
		if strings.HasSuffix(f, "_test.go") {
			continue
		}
		file, err := parser.ParseFile(token.NewFileSet(), f, nil, 0)
		if err != nil {
			continue
		}
		for _, d := range file.Decls {
			if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.VAR {
				for _, sp := range g.Specs {
					for _, n := range sp.(*ast.ValueSpec).Names {
						out[n.Name] = true
					}
				}
			}
		}
	}
	return out
}

// touches tells whether a statement itself, not the ones nested in it, names a package variable.
func touches(s ast.Stmt, shared map[string]bool) bool {
	found := false
	ast.Inspect(s, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.BlockStmt:
			return n == ast.Node(s)
		case *ast.SelectorExpr:
			ast.Inspect(x.X, func(m ast.Node) bool {
				if i, ok := m.(*ast.Ident); ok && shared[i.Name] {
					found = true
				}
				_, lit := m.(*ast.FuncLit)
				return !lit
			})
			return false
		case *ast.KeyValueExpr:
			if _, ok := x.Key.(*ast.Ident); ok {
				ast.Inspect(x.Value, func(m ast.Node) bool {
					if i, ok := m.(*ast.Ident); ok && shared[i.Name] {
						found = true
					}
					_, lit := m.(*ast.FuncLit)
					return !lit
				})
				return false
			}
		case *ast.Ident:
			found = found || shared[x.Name]
		}
		return true
	})
	return found
}

func pointSource(name string, src []byte, shared map[string]bool) ([]byte, error) {
	fset := token.NewFileSet()
	file, err := parser.ParseFile(fset, name, src, parser.ParseComments)
	if err != nil {
		return nil, err
	}
	base := strings.TrimSuffix(filepath.Base(name), ".go")
	type ins struct {
		off  int
		text string
	}
	var all []ins
	seen := map[string]int{}
	list := func(l []ast.Stmt) {
		for _, s := range l {
			if _, ok := s.(*ast.EmptyStmt); ok {
				continue
			}
			if isLogging(s) {
				continue
			}
			p := fset.Position(s.Pos())
			id := fmt.Sprintf("%s:%d", base, p.Line)
			seen[id]++
			if n := seen[id]; n > 1 {
				id = fmt.Sprintf("%s.%d", id, n)
			}
			if touches(s, shared) {
				id += "!"
			}
			all = append(all, ins{p.Offset, fmt.Sprintf("vfPoint(%q); ", id)})
		}
	}
	ast.Inspect(file, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.BlockStmt:
			list(x.List)
		case *ast.CaseClause:
			list(x.Body)
		case *ast.CommClause:
			list(x.Body)
		}
		return true
	})
	// clauses are no statements one can precede
	clause := map[int]bool{}
	ast.Inspect(file, func(n ast.Node) bool {
		switch n.(type) {
		case *ast.CaseClause, *ast.CommClause:
			clause[fset.Position(n.Pos()).Offset] = true
		}
		return true
	})
	sort.SliceStable(all, func(i, j int) bool { return all[i].off < all[j].off })
	var sb strings.Builder
	at := 0
	for _, x := range all {
		if clause[x.off] {
			continue
		}
		sb.Write(src[at:x.off])
		sb.WriteString(x.text)
		at = x.off
	}
	sb.Write(src[at:])
	return []byte(sb.String()), nil
}

// isLogging recognises a statement that only writes a log event; holding it up is holding up the next one.
func isLogging(s ast.Stmt) bool {
	e, ok := s.(*ast.ExprStmt)
	if !ok {
		return false
	}
	c, ok := e.X.(*ast.CallExpr)
	if !ok {
		return false
	}
	f, ok := c.Fun.(*ast.SelectorExpr)
	return ok && (f.Sel.Name == "Msg" || f.Sel.Name == "Msgf")
}

func init() {
	p := mainPkgPath + "."
	reg(p+"vfDelays", func(w *Worker, fr *frame, fn *ssa.Function, a []value) value {
		w.path.delays = int(int64(w.concretize(a[0])))
		w.path.ordered, w.path.firstOver = 0, false
		w.path.delayMax = w.concretize(a[1])
		return nil
	})
	reg(p+"vfPoint", func(w *Worker, fr *frame, fn *ssa.Function, a []value) value {
		p := w.path
		if p.delays == 0 || w.initDepth > 0 || fr == nil {
			return nil
		}
		id := "pt." + w.strArg(a[0])
		if p.pointN == nil {
			p.pointN = map[string]int{}
		}
		p.pointN[id]++
		live := 0
		for _, g := range p.gs {
			if !g.done {
				live++
			}
		}
		if live < 2 {
			// nobody to be late for
			return nil
		}
		label := fmt.Sprintf("%s.%d", id, p.pointN[id])
		if p.delays < 0 {
			// two late statements that share something: the second begins to wait first and ends last
			if !strings.HasSuffix(id, "!") || p.ordered > 1 || p.firstOver {
				return nil
			}
			if w.choose(2, "delay "+label) == 0 {
				return nil
			}
			p.ordered++
			w.assume(w.c.Eq(w.newVar(label, 2), w.c.BV(uint64(p.ordered), 2)))
			first := p.ordered == 1
			w.sleep(fr.g, uint64(p.ordered)<<29)
			p.firstOver = p.firstOver || first
			return nil
		}
		if w.choose(2, "delay "+label) == 0 {
			return nil
		}
		p.delays--
		wd := Sort(1)
		for mask(wd) < p.delayMax {
			wd++
		}
		v := w.newVar(label, wd)
		w.assume(w.c.And(w.c.Cmp(OUle, w.c.BV(1, wd), v), w.c.Cmp(OUle, v, w.c.BV(p.delayMax, wd))))
		w.sleep(fr.g, w.fromTerm(w.c.Bin(OShl, w.c.Zext(v, 64), w.c.BV(29, 64))))
		return nil
	})
}
