// zkgen derives the build overlay of a check from /repo's working tree. It
// never writes into /repo: everything goes to -work and is mapped in by
// 'go build -overlay'.
//
//	exports  export shims for unexported stages of the location circuit and the
//	         circuits that are only defined in test files
//	yield    copies of the library's packages with a scheduling point before
//	         every statement and sync replaced by its simulated counterpart
//	io       copies of the packages that touch the operating system, with os,
//	         os/exec, time and the proof systems replaced by simulated ones
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

var (
	repo = flag.String("repo", "/repo", "")
	work = flag.String("work", "", "")
	sim  = flag.String("sim", "", "")
	mode = flag.String("mode", "", "comma separated: yield, io, ioplain (io without scheduling points)")
)

var overlay = map[string]string{}

func die(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "zkgen:", err)
		os.Exit(2)
	}
}

func emit(target string, src []byte) {
	out, err := format.Source(src)
	if err != nil {
		die(fmt.Errorf("%s: %v\n%s", target, err, src))
	}
	p := filepath.Join(*work, "gen", strings.ReplaceAll(strings.TrimPrefix(target, "/"), "/", "__"))
	die(os.MkdirAll(filepath.Dir(p), 0o755))
	die(os.WriteFile(p, out, 0o644))
	overlay[target] = p
}

func main() {
	flag.Parse()
	exports("loc2index32", "32")
	exports("loc2index64", "64")
	for _, m := range strings.Split(*mode, ",") {
		switch m {
		case "yield":
			// all or none: a task that switches while a package which is left
			// as it is holds a lock would block the whole process
			var emits []func()
			all := true
			for _, p := range []string{"hint", "util", "gadget", "float", "math", "loc2index32", "loc2index64"} {
				e := yieldPkg(p)
				emits, all = append(emits, e), all && e != nil
			}
			for _, e := range emits {
				if all {
					e()
				}
			}
		case "io":
			ioPkgs(true)
		case "ioplain":
			ioPkgs(false)
		case "":
		default:
			die(fmt.Errorf("unknown mode %q", m))
		}
	}
	b, err := json.MarshalIndent(map[string]any{"Replace": overlay}, "", " ")
	die(err)
	die(os.WriteFile(filepath.Join(*work, "overlay.json"), b, 0o644))
}

// goFiles lists the non-test Go files of a directory.
func goFiles(dir string) []string {
	es, err := os.ReadDir(dir)
	die(err)
	var r []string
	for _, e := range es {
		n := e.Name()
		if strings.HasSuffix(n, ".go") && !strings.HasSuffix(n, "_test.go") && !e.IsDir() {
			r = append(r, filepath.Join(dir, n))
		}
	}
	sort.Strings(r)
	return r
}

// exports writes the shim of one location package: exported aliases of its
// stages, and the circuit its test file defines.
func exports(pkg, bits string) {
	dir := filepath.Join(*repo, pkg)
	fset := token.NewFileSet()
	es, err := os.ReadDir(dir)
	die(err)
	var out bytes.Buffer
	pkgName := ""
	circ := "loc2Index" + bits + "Circuit"
	var decls []string
	imps := map[string]string{}
	for _, e := range es {
		if !strings.HasSuffix(e.Name(), ".go") {
			continue
		}
		p := filepath.Join(dir, e.Name())
		src, err := os.ReadFile(p)
		die(err)
		f, err := parser.ParseFile(fset, p, src, parser.ParseComments)
		die(err)
		if !strings.HasSuffix(e.Name(), "_test.go") {
			pkgName = f.Name.Name
			continue
		}
		used := map[string]bool{}
		for _, d := range f.Decls {
			keep := false
			switch t := d.(type) {
			case *ast.GenDecl:
				if t.Tok == token.TYPE {
					for _, s := range t.Specs {
						if s.(*ast.TypeSpec).Name.Name == circ {
							keep = true
						}
					}
				}
			case *ast.FuncDecl:
				if t.Recv != nil && t.Name.Name == "Define" {
					if st, ok := t.Recv.List[0].Type.(*ast.StarExpr); ok {
						if id, ok := st.X.(*ast.Ident); ok && id.Name == circ {
							keep = true
						}
					}
				}
			}
			if !keep {
				continue
			}
			decls = append(decls, string(src[fset.Position(d.Pos()).Offset:fset.Position(d.End()).Offset]))
			ast.Inspect(d, func(n ast.Node) bool {
				if s, ok := n.(*ast.SelectorExpr); ok {
					if id, ok := s.X.(*ast.Ident); ok {
						used[id.Name] = true
					}
				}
				return true
			})
		}
		for _, im := range f.Imports {
			path, _ := strconv.Unquote(im.Path.Value)
			name := path[strings.LastIndex(path, "/")+1:]
			if im.Name != nil {
				name = im.Name.Name
			}
			if used[name] {
				imps[name] = path
			}
		}
	}
	imps["float"] = "github.com/tumberger/zk-Location/float"
	imps["frontend"] = "github.com/consensys/gnark/frontend"
	fmt.Fprintf(&out, "package %s\n\nimport (\n", pkgName)
	var names []string
	for n := range imps {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		fmt.Fprintf(&out, "\t%s %q\n", n, imps[n])
	}
	out.WriteString(")\n\n")
	out.WriteString(strings.ReplaceAll(strings.Join(decls, "\n\n"), circ, "verifCircuit"))
	out.WriteString(`

func VerifDefine(api frontend.API, lat, lng, res, i, j, k frontend.Variable) error {
	c := verifCircuit{Lat: lat, Lng: lng, Resolution: res, I: i, J: j, K: k}
	return c.Define(api)
}

func VerifFace(f *float.Context, x, y, z, lng float.FloatVar) [9]float.FloatVar {
	return closestFaceCalculations(f, x, y, z, lng)
}

func VerifR(f *float.Context, sqDist float.FloatVar, res frontend.Variable) float.FloatVar {
	return calculateR(f, sqDist, res)
}

func VerifHex2d(f *float.Context, sl, cl, sg, cg float.FloatVar, c [9]float.FloatVar, r float.FloatVar, res frontend.Variable) [2]float.FloatVar {
	return calculateHex2d(f, sl, cl, sg, cg, c[1], c[2], c[3], c[4], c[5], c[6], c[7], c[8], r, res)
}

func VerifIJK(f *float.Context, x, y float.FloatVar) [3]frontend.Variable {
	return hex2dToCoordIJK(f, x, y)
}
`)
	emit(filepath.Join(dir, "zz_verif_export.go"), out.Bytes())
}
