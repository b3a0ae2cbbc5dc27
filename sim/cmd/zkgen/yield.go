package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

type edit struct {
	off, end int
	text     string
	seq      int
}

func applyEdits(src []byte, es []edit) []byte {
	for i := range es {
		es[i].seq = i
	}
	sort.Slice(es, func(i, j int) bool {
		if es[i].off != es[j].off {
			return es[i].off < es[j].off
		}
		return es[i].seq < es[j].seq
	})
	var out []byte
	at := 0
	for _, e := range es {
		if e.off < at {
			die(fmt.Errorf("overlapping edits"))
		}
		out = append(out, src[at:e.off]...)
		out = append(out, e.text...)
		at = e.end
	}
	return append(out, src[at:]...)
}

// emptyImporter resolves every import to an empty package: types that come
// from elsewhere stay unknown, which is fine for finding local maps.
type emptyImporter map[string]*types.Package

func (m emptyImporter) Import(path string) (*types.Package, error) {
	if p := m[path]; p != nil {
		return p, nil
	}
	p := types.NewPackage(path, path[strings.LastIndex(path, "/")+1:])
	p.MarkComplete()
	m[path] = p
	return p, nil
}

// yieldPkg replaces the files of a package by copies with a yield point before
// every statement, simulated locks, goroutines and map iteration order.
func yieldPkg(pkg string) func() {
	files := goFiles(filepath.Join(*repo, pkg))
	var srcs [][]byte
	for _, p := range files {
		src, err := os.ReadFile(p)
		die(err)
		srcs = append(srcs, src)
	}
	out := yieldSrcs(pkg, files, srcs)
	if out == nil {
		return nil
	}
	return func() {
		for i := range out {
			emit(files[i], out[i])
		}
	}
}

// yieldSrcs instruments the sources of a package; nil if it cannot be done.
func yieldSrcs(pkg string, files []string, srcs [][]byte) [][]byte {
	fset := token.NewFileSet()
	var asts []*ast.File
	for i, p := range files {
		f, err := parser.ParseFile(fset, p, srcs[i], parser.ParseComments)
		die(err)
		asts = append(asts, f)
	}
	for _, f := range asts {
		free := true
		ast.Inspect(f, func(n ast.Node) bool {
			switch t := n.(type) {
			case *ast.ChanType, *ast.SendStmt, *ast.SelectStmt:
				free = false
			case *ast.UnaryExpr:
				if t.Op == token.ARROW {
					free = false
				}
			}
			return free
		})
		for _, im := range f.Imports {
			if im.Path.Value == `"C"` {
				free = false
			}
		}
		if !free {
			// channels are not simulated: leave the package as it is
			fmt.Fprintf(os.Stderr, "zkgen: %s uses channels, not instrumented\n", pkg)
			return nil
		}
	}
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}}
	conf := types.Config{Importer: emptyImporter{}, Error: func(error) {}}
	conf.Check(pkg, fset, asts, info)
	var out [][]byte
	for i, f := range asts {
		out = append(out, yieldFile(fset, f, srcs[i], info))
	}
	return out
}

func yieldFile(fset *token.FileSet, f *ast.File, src []byte, info *types.Info) []byte {
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
	var es []edit
	ins := func(at int, s string) { es = append(es, edit{off: at, end: at, text: s}) }
	ins(off(f.Name.End()), "; import simrt \"zkverif/simrt\"")
	for _, im := range f.Imports {
		path, _ := strconv.Unquote(im.Path.Value)
		if path == "sync" {
			name := ""
			if im.Name == nil {
				name = "sync "
			}
			es = append(es, edit{off: off(im.Path.Pos()), end: off(im.Path.End()), text: name + "\"zkverif/simrt/ssync\""})
		}
	}
	stmts := func(l []ast.Stmt) {
		for _, s := range l {
			switch s.(type) {
			case *ast.EmptyStmt, *ast.CaseClause, *ast.CommClause:
				continue
			}
			ins(off(s.Pos()), "simrt.Yield(); ")
		}
	}
	// shared reports whether an expression is a package-level variable or a
	// field, that is, something another task may see.
	shared := func(x ast.Expr) bool {
		switch t := x.(type) {
		case *ast.Ident:
			v, ok := info.Uses[t].(*types.Var)
			return ok && v.Parent() != nil && v.Pkg() != nil && v.Parent() == v.Pkg().Scope()
		case *ast.SelectorExpr:
			_, ok := t.X.(*ast.Ident)
			return ok
		}
		return false
	}
	// maps: the accesses of Go's maps are not atomic
	isMap := func(x ast.Expr) bool {
		switch x.(type) {
		case *ast.Ident, *ast.SelectorExpr:
		default:
			return false
		}
		tv, ok := info.Types[x]
		if !ok || tv.Type == nil || !tv.IsValue() {
			return false
		}
		_, ok = tv.Type.Underlying().(*types.Map)
		return ok
	}
	written := map[ast.Expr]bool{}
	mapUse := func(x ast.Expr, write bool) {
		if !isMap(x) {
			return
		}
		fn := "simrt.MapR("
		if write {
			fn = "simrt.MapW("
		}
		ins(off(x.Pos()), fn)
		ins(off(x.End()), ")")
	}
	n := 0
	var visit func(nd ast.Node) bool
	visit = func(nd ast.Node) bool {
		switch t := nd.(type) {
		case *ast.IndexExpr:
			mapUse(t.X, written[t])
		case *ast.CallExpr:
			if id, ok := t.Fun.(*ast.Ident); ok && id.Name == "delete" && len(t.Args) == 2 {
				mapUse(t.Args[0], true)
			}
			// a switch between the evaluation of an argument and the call
			for _, a := range t.Args {
				c, ok := a.(*ast.CallExpr)
				if !ok {
					continue
				}
				if len(t.Args) == 1 {
					// the inner call may have several results
					id, ok := c.Fun.(*ast.Ident)
					tv := info.Types[c]
					if _, multi := tv.Type.(*types.Tuple); !ok || tv.Type == nil || multi || info.Uses[id] == nil {
						continue
					}
				}
				if tv, ok := info.Types[c]; ok && tv.Value != nil {
					continue
				}
				ins(off(c.Pos()), "simrt.After(")
				ins(off(c.End()), ")")
			}
		case *ast.IncDecStmt:
			written[t.X] = true
			// reading and writing back are two steps
			if shared(t.X) {
				ins(off(t.Pos()), text(t.X)+" = simrt.After(")
				op := "+"
				if t.Tok == token.DEC {
					op = "-"
				}
				es = append(es, edit{off: off(t.TokPos), end: off(t.TokPos) + 2, text: ") " + op + " 1"})
			}
		case *ast.AssignStmt:
			for _, l := range t.Lhs {
				written[l] = true
			}
			if len(t.Lhs) == 1 && len(t.Rhs) == 1 && t.Tok == token.ASSIGN && shared(t.Lhs[0]) {
				// appending and storing are two steps
				if c, ok := t.Rhs[0].(*ast.CallExpr); ok && len(c.Args) > 1 && text(c.Fun) == "append" && text(c.Args[0]) == text(t.Lhs[0]) {
					ins(off(c.Pos()), "simrt.After(")
					ins(off(c.End()), ")")
				}
			}
			if len(t.Lhs) == 1 && len(t.Rhs) == 1 && t.Tok != token.ASSIGN && t.Tok != token.DEFINE && shared(t.Lhs[0]) {
				op := strings.TrimSuffix(t.Tok.String(), "=")
				ins(off(t.Pos()), text(t.Lhs[0])+" = simrt.After(")
				es = append(es, edit{off: off(t.TokPos), end: off(t.TokPos) + len(t.Tok.String()), text: ") " + op + " ("})
				ins(off(t.End()), ")")
			}
		case *ast.BlockStmt:
			stmts(t.List)
		case *ast.CaseClause:
			stmts(t.Body)
		case *ast.GoStmt:
			n++
			var pre, args []string
			for k, a := range t.Call.Args {
				tv, ok := info.Types[a]
				if ok && (tv.Value != nil || tv.IsNil()) {
					args = append(args, text(a))
					continue
				}
				v := fmt.Sprintf("zz%d_%d", n, k)
				pre = append(pre, v+" := "+text(a))
				args = append(args, v)
			}
			s := "{ "
			for _, p := range pre {
				s += p + "; "
			}
			s += "simrt.Go(func() { "
			es = append(es, edit{off: off(t.Pos()), end: off(t.Call.Pos()), text: s})
			tail := "(" + strings.Join(args, ", ")
			if t.Call.Ellipsis.IsValid() {
				tail += "..."
			}
			es = append(es, edit{off: off(t.Call.Lparen), end: off(t.Call.End()), text: tail + ") }) }"})
			ast.Inspect(t.Call.Fun, visit)
			return false
		case *ast.RangeStmt:
			tv, ok := info.Types[t.X]
			if !ok || tv.Type == nil || t.Tok != token.DEFINE {
				return true
			}
			if _, ok := tv.Type.Underlying().(*types.Map); !ok {
				return true
			}
			switch t.X.(type) {
			case *ast.Ident, *ast.SelectorExpr:
			default:
				return true
			}
			n++
			k, v := fmt.Sprintf("zzk%d", n), "_"
			if id, ok := t.Key.(*ast.Ident); ok && id.Name != "_" {
				k = id.Name
			}
			if id, ok := t.Value.(*ast.Ident); ok {
				v = id.Name
			}
			m := text(t.X)
			okn := fmt.Sprintf("zzok%d", n)
			es = append(es, edit{off: off(t.Key.Pos()), end: off(t.X.End()), text: fmt.Sprintf("_, %s := range simrt.Keys(%s)", k, m)})
			ins(off(t.Body.Lbrace)+1, fmt.Sprintf(" %s, %s := %s[%s]; if !%s { continue }; ", v, okn, m, k, okn))
			stmts(t.Body.List)
			for _, s := range t.Body.List {
				ast.Inspect(s, func(x ast.Node) bool { return true })
			}
		}
		return true
	}
	ast.Inspect(f, visit)
	// a range over a map visits its body block twice above; drop duplicates
	seen := map[string]bool{}
	var ded []edit
	for _, e := range es {
		key := fmt.Sprint(e.off, e.end, e.text)
		if e.text == "simrt.Yield(); " && seen[key] {
			continue
		}
		seen[key] = true
		ded = append(ded, e)
	}
	out := applyEdits(src, ded)
	return append(out, "\nvar _ = simrt.Yield\n"...)
}
