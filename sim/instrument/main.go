// Command instrument copies a Go module (tests excluded) from src to dst and
// inserts a scheduling point before every statement, so that the simulator can
// decide when each simulated task makes progress. It changes nothing else,
// except that package sync is replaced by the simulator's and go statements
// start simulated tasks.
package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

// consts holds the names of the package-level constants.
var consts = map[string]bool{}

type ins struct {
	off  int
	end  int // replace [off,end) when end > off
	text string
	seq  int
}

func main() {
	if len(os.Args) != 3 {
		fmt.Fprintln(os.Stderr, "usage: instrument SRC DST")
		os.Exit(2)
	}
	src, dst := os.Args[1], os.Args[2]
	points := 0
	files := 0
	// package-level constants, to leave them untyped in go statements
	if ps, err := filepath.Glob(filepath.Join(src, "*.go")); err == nil {
		for _, p := range ps {
			f, err := parser.ParseFile(token.NewFileSet(), p, nil, 0)
			if err != nil {
				continue
			}
			for _, d := range f.Decls {
				if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.CONST {
					for _, sp := range g.Specs {
						for _, nm := range sp.(*ast.ValueSpec).Names {
							consts[nm.Name] = true
						}
					}
				}
			}
		}
	}
	err := filepath.Walk(src, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(src, p)
		base := filepath.Base(p)
		if fi.IsDir() {
			if rel != "." && (strings.HasPrefix(base, ".") || base == "testdata" || base == "vendor") {
				return filepath.SkipDir
			}
			return nil
		}
		if base == "go.mod" && rel == "go.mod" {
			b, err := os.ReadFile(p)
			if err != nil {
				return err
			}
			out := string(b) + "\nrequire verifsimrt v0.0.0\n"
			return write(filepath.Join(dst, rel), []byte(out))
		}
		if base == "go.sum" {
			b, err := os.ReadFile(p)
			if err != nil {
				return err
			}
			return write(filepath.Join(dst, rel), b)
		}
		if !strings.HasSuffix(base, ".go") {
			// embedded data and the like
			if fi.Size() < 1<<20 {
				b, err := os.ReadFile(p)
				if err != nil {
					return err
				}
				return write(filepath.Join(dst, rel), b)
			}
			return nil
		}
		if strings.HasSuffix(base, "_test.go") {
			return nil
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		out, n, err := instrument(p, b)
		if err != nil {
			return err
		}
		points += n
		files++
		return write(filepath.Join(dst, rel), out)
	})
	if err != nil {
		fmt.Fprintln(os.Stderr, "instrument:", err)
		os.Exit(2)
	}
	fmt.Printf("instrumented files=%d points=%d\n", files, points)
}

func write(p string, b []byte) error {
	if err := os.MkdirAll(filepath.Dir(p), 0o755); err != nil {
		return err
	}
	return os.WriteFile(p, b, 0o644)
}

func instrument(name string, b []byte) ([]byte, int, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, name, b, parser.ParseComments)
	if err != nil {
		return nil, 0, err
	}
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	var edits []ins
	n := 0
	add := func(o, e int, t string) { edits = append(edits, ins{o, e, t, len(edits)}) }
	const y = "verifsimrt.Yield(); "
	imports := map[string]bool{}
	for _, im := range f.Imports {
		nm := strings.Trim(im.Path.Value, "\"`")
		nm = nm[strings.LastIndex(nm, "/")+1:]
		if im.Name != nil {
			nm = im.Name.Name
		}
		imports[nm] = true
	}
	var constant func(e ast.Expr) bool
	constant = func(e ast.Expr) bool {
		switch v := e.(type) {
		case *ast.BasicLit:
			return true
		case *ast.Ident:
			return v.Name == "nil" || v.Name == "true" || v.Name == "false" || v.Obj == nil && consts[v.Name] ||
				v.Obj != nil && v.Obj.Kind == ast.Con
		case *ast.ParenExpr:
			return constant(v.X)
		case *ast.UnaryExpr:
			return constant(v.X)
		case *ast.BinaryExpr:
			return constant(v.X) && constant(v.Y)
		case *ast.SelectorExpr: // math.Pi; a variable of another package, at worst, is read later
			id, ok := v.X.(*ast.Ident)
			return ok && imports[id.Name] && id.Obj == nil
		case *ast.FuncLit:
			return true
		}
		return false
	}
	list := func(l []ast.Stmt) {
		for _, s := range l {
			if _, ok := s.(*ast.EmptyStmt); ok {
				continue
			}
			add(off(s.Pos()), 0, y)
			n++
		}
	}
	ast.Inspect(f, func(nd ast.Node) bool {
		switch x := nd.(type) {
		case *ast.BlockStmt:
			if x == nil {
				return true
			}
			clauses := false
			for _, s := range x.List {
				switch s.(type) {
				case *ast.CaseClause, *ast.CommClause:
					clauses = true
				}
			}
			if !clauses {
				list(x.List)
			}
		case *ast.CaseClause:
			list(x.Body)
		case *ast.CommClause:
			list(x.Body)
		case *ast.LabeledStmt:
			// the labelled statement itself must stay directly behind its label
		case *ast.ForStmt:
			add(off(x.Body.Lbrace)+1, 0, " "+y)
			n++
		case *ast.RangeStmt:
			add(off(x.Body.Lbrace)+1, 0, " "+y)
			n++
		case *ast.FuncLit:
			if x.Body != nil && len(x.Body.List) == 0 {
				return true
			}
		case *ast.GoStmt:
			// go f(a, b)  =>  { vf := f; v0, v1 := a, b; verifsimrt.Go(func() { vf(v0, v1) }) }
			// The function value and the arguments are evaluated at the go
			// statement; constants stay where they are, to keep their types.
			call := x.Call
			text := func(nd ast.Node) string { return string(b[off(nd.Pos()):off(nd.End())]) }
			var names, vals, args []string
			keep := func(v string) string {
				nm := fmt.Sprintf("verifarg%d", len(names))
				names, vals = append(names, nm), append(vals, v)
				return nm
			}
			fn := ""
			switch g := call.Fun.(type) {
			case *ast.Ident:
				if g.Obj != nil && g.Obj.Kind == ast.Var {
					fn = keep(g.Name)
				}
			case *ast.SelectorExpr:
				if id, ok := g.X.(*ast.Ident); !ok || !imports[id.Name] || id.Obj != nil {
					fn = keep(text(g))
				}
			}
			for _, a := range call.Args {
				if constant(a) {
					args = append(args, text(a))
				} else {
					args = append(args, keep(text(a)))
				}
			}
			if call.Ellipsis.IsValid() {
				args[len(args)-1] += "..."
			}
			pre, post := "{ ", " }) }"
			if len(names) > 0 {
				pre += strings.Join(names, ", ") + " := " + strings.Join(vals, ", ") + "; "
			}
			add(off(x.Go), off(x.Go)+2, pre+"verifsimrt.Go(func() { ")
			if fn != "" {
				add(off(call.Fun.Pos()), off(call.Fun.End()), fn)
			}
			add(off(call.Lparen)+1, off(call.Rparen), strings.Join(args, ", "))
			add(off(x.End()), 0, post)
		}
		return true
	})
	for _, im := range f.Imports {
		if im.Path.Value == `"sync"` {
			t := `"verifsimrt/simsync"`
			if im.Name == nil {
				t = "sync " + t
			}
			add(off(im.Path.Pos()), off(im.Path.End()), t)
		}
	}
	add(off(f.Name.End()), 0, "; import verifsimrt \"verifsimrt\"; var _ = verifsimrt.Yield")
	// A var declaration may not precede import declarations: put it at the end.
	edits[len(edits)-1].text = "; import verifsimrt \"verifsimrt\""
	add(len(b), 0, "\nvar _ = verifsimrt.Yield\n")
	sort.SliceStable(edits, func(i, j int) bool {
		if edits[i].off != edits[j].off {
			return edits[i].off < edits[j].off
		}
		return edits[i].seq < edits[j].seq
	})
	var out []byte
	pos := 0
	for _, e := range edits {
		if e.off < pos {
			continue // inside replaced text (arguments of a go statement)
		}
		out = append(out, b[pos:e.off]...)
		out = append(out, e.text...)
		pos = e.off
		if e.end > e.off {
			pos = e.end
		}
	}
	out = append(out, b[pos:]...)
	return out, n, nil
}
