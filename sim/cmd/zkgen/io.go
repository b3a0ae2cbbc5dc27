package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

// shims maps an import path to the simulated package that replaces those of
// its names it defines.
var shims = map[string]string{
	"os":        "sos",
	"io/ioutil": "sioutil",
	"os/exec":   "sexec",
	"time":      "stime",
	"fmt":       "sfmt",
	"log":       "slog",
	"math/rand": "srand",
	"github.com/consensys/gnark/backend/groth16": "sgroth16",
	"github.com/consensys/gnark/backend/plonk":   "splonk",
	"github.com/consensys/gnark/test/unsafekzg":  "skzg",
}

// exported lists the exported names of a shim.
func exported(pkg string) map[string]bool {
	r := map[string]bool{}
	for _, p := range goFiles(filepath.Join(*sim, "simio", pkg)) {
		f, err := parser.ParseFile(token.NewFileSet(), p, nil, 0)
		die(err)
		for n := range f.Scope.Objects {
			if ast.IsExported(n) {
				r[n] = true
			}
		}
	}
	return r
}

// ioPkgs generates simulated copies of util and proximity under zzsim.
func ioPkgs(yield bool) {
	ioPkg(yield, "util", "util", []string{
		"ExecuteLatLngToIJK func(int, float64, float64) (int, int, int, error)",
		"BenchProof func(*testing.B, frontend.Circuit, frontend.Circuit)",
		"BenchProofToFileGroth16 func(*testing.B, frontend.Circuit, frontend.Circuit, int64, int64, string) error",
		"BenchProofToFilePlonk func(*testing.B, frontend.Circuit, frontend.Circuit, int64, int64, string) error",
		"BenchProofMemoryGroth16 func(*testing.B, frontend.Circuit, frontend.Circuit) error",
		"BenchProofMemoryPlonk func(*testing.B, frontend.Circuit, frontend.Circuit) error",
	}, `"testing"
	"github.com/consensys/gnark/frontend"`)
	ioPkg(yield, "proximity", "proximity", []string{
		"WriteHexCellsToFile func([]HexCell, string, bool) error",
		"executeLatLngToIJK func(string, int, float64, float64) (int, int, int, error)",
		"latLngToCell func(int, float64, float64) (string, error)",
		"cellToLatLng func(string) (float64, float64, error)",
		"cellToBoundary func(string) ([][2]float64, error)",
		"main func()",
	}, "")
}

func sigOf(t *ast.FuncType, text func(ast.Node) string) string {
	list := func(fl *ast.FieldList) (r []string) {
		if fl == nil {
			return
		}
		for _, f := range fl.List {
			n := len(f.Names)
			if n == 0 {
				n = 1
			}
			for ; n > 0; n-- {
				r = append(r, text(f.Type))
			}
		}
		return
	}
	s := "func(" + strings.Join(list(t.Params), ", ") + ")"
	switch r := list(t.Results); len(r) {
	case 0:
	case 1:
		s += " " + r[0]
	default:
		s += " (" + strings.Join(r, ", ") + ")"
	}
	return s
}

func ioPkg(yield bool, src, name string, wanted []string, imports string) {
	dst := filepath.Join(*repo, "zzsim", name)
	found := map[string]string{}
	var paths []string
	var copies [][]byte
	for _, p := range goFiles(filepath.Join(*repo, src)) {
		b, err := os.ReadFile(p)
		die(err)
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, p, b, parser.ParseComments)
		die(err)
		off := func(p token.Pos) int { return fset.Position(p).Offset }
		text := func(n ast.Node) string { return string(b[off(n.Pos()):off(n.End())]) }
		for _, d := range f.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok && fd.Recv == nil {
				found[fd.Name.Name] = sigOf(fd.Type, text)
			}
		}
		local := map[string]string{} // local name -> shim
		specs := map[string]*ast.ImportSpec{}
		names := map[string]map[string]bool{}
		for _, im := range f.Imports {
			path, _ := strconv.Unquote(im.Path.Value)
			sh := shims[path]
			if sh == "" {
				continue
			}
			n := path[strings.LastIndex(path, "/")+1:]
			if im.Name != nil {
				n = im.Name.Name
			}
			local[n], specs[n], names[n] = sh, im, exported(sh)
		}
		var es []edit
		used := map[string]bool{}
		left := map[string]bool{}
		ast.Inspect(f, func(nd ast.Node) bool {
			s, ok := nd.(*ast.SelectorExpr)
			if !ok {
				return true
			}
			id, ok := s.X.(*ast.Ident)
			if !ok || id.Obj != nil || local[id.Name] == "" {
				return true
			}
			if names[id.Name][s.Sel.Name] {
				used[local[id.Name]] = true
				es = append(es, edit{off: off(id.Pos()), end: off(id.End()), text: "zz" + local[id.Name]})
			} else {
				left[id.Name] = true
			}
			return true
		})
		for n, im := range specs {
			if !left[n] {
				at := off(im.Path.Pos())
				if im.Name != nil {
					at = off(im.Name.Pos())
				}
				es = append(es, edit{off: at, end: off(im.Path.End()), text: "_ " + im.Path.Value})
			}
		}
		var add []string
		for sh := range used {
			add = append(add, sh)
		}
		sort.Strings(add)
		ins := ""
		for _, sh := range add {
			ins += fmt.Sprintf("; import zz%s \"zkverif/simio/%s\"", sh, sh)
		}
		es = append(es, edit{off: off(f.Name.Pos()), end: off(f.Name.End()), text: name + ins})
		paths = append(paths, filepath.Join(dst, filepath.Base(p)))
		copies = append(copies, applyEdits(b, es))
	}
	done := false
	if yield {
		if out := yieldSrcs(name, paths, copies); out != nil {
			copies, done = out, true
		}
	}
	for i, p := range paths {
		emit(p, copies[i])
	}
	out := "package " + name + "\n\n"
	if imports != "" {
		out += "import (\n\t" + imports + "\n)\n"
	}
	for _, w := range wanted {
		n, sig, _ := strings.Cut(w, " ")
		v := "nil"
		if found[n] == sig {
			v = n
		} else {
			fmt.Fprintf(os.Stderr, "zkgen: %s.%s is missing or has another signature (%s)\n", name, n, found[n])
		}
		out += fmt.Sprintf("var Verif%s%s %s = %s\n", strings.ToUpper(n[:1]), n[1:], sig, v)
	}
	out += fmt.Sprintf("// VerifYield tells whether the copies have scheduling points.\nconst VerifYield = %v\n", done)
	emit(filepath.Join(dst, "zz_verif_export.go"), []byte(out))
}
