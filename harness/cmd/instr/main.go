// instr writes instrumented copies of the non-test Go files of the given
// directories and an overlay file that makes the go tool compile them
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

var site int

func instrument(path string) ([]byte, error) {
	src, err := os.ReadFile(path)
	if err != nil {
		return nil, err
	}
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, path, src, parser.ParseComments)
	if err != nil {
		return nil, err
	}
	tf := fset.File(f.Pos())
	type ins struct {
		off  int
		text string
	}
	var inserts []ins
	add := func(list []ast.Stmt) {
		for _, s := range list {
			if _, empty := s.(*ast.EmptyStmt); empty {
				continue
			}
			site++
			inserts = append(inserts, ins{
				tf.Offset(s.Pos()), fmt.Sprintf("vy__.Y(%d);", site),
			})
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.FuncDecl:
			if x.Name.Name == "init" {
				return false
			}
		case *ast.BlockStmt:
			// The bodies of switch and select statements are handled below
			if len(x.List) > 0 {
				switch x.List[0].(type) {
				case *ast.CaseClause, *ast.CommClause:
					return true
				}
			}
			add(x.List)
		case *ast.CaseClause:
			add(x.Body)
		case *ast.CommClause:
			add(x.Body)
		}
		return true
	})
	if len(inserts) == 0 {
		return nil, nil
	}
	inserts = append(inserts, ins{
		tf.Offset(f.Name.End()), "; import vy__ \"wwrverif/vy\"",
	})
	sort.SliceStable(inserts, func(i, j int) bool {
		return inserts[i].off < inserts[j].off
	})
	var out strings.Builder
	last := 0
	for _, i := range inserts {
		out.Write(src[last:i.off])
		out.WriteString(i.text)
		last = i.off
	}
	out.Write(src[last:])
	return []byte(out.String()), nil
}

func main() {
	root := flag.String("root", "", "package root as the go tool sees it")
	out := flag.String("out", "", "output directory")
	flag.Parse()
	overlay := map[string]map[string]string{"Replace": {}}
	n := 0
	for _, dir := range flag.Args() {
		pattern := filepath.Join(*root, dir, "*.go")
		if strings.HasSuffix(dir, ".go") {
			pattern = filepath.Join(*root, dir)
		}
		files, _ := filepath.Glob(pattern)
		for _, file := range files {
			if strings.HasSuffix(file, "_test.go") {
				continue
			}
			code, err := instrument(file)
			if err != nil {
				fmt.Fprintln(os.Stderr, err)
				os.Exit(1)
			}
			if code == nil {
				continue
			}
			n++
			dst := filepath.Join(*out, fmt.Sprintf("%d_%s", n, filepath.Base(file)))
			if err := os.WriteFile(dst, code, 0644); err != nil {
				fmt.Fprintln(os.Stderr, err)
				os.Exit(1)
			}
			overlay["Replace"][file] = dst
		}
	}
	b, _ := json.Marshal(overlay)
	if err := os.WriteFile(filepath.Join(*out, "overlay.json"), b, 0644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(1)
	}
	fmt.Println(site, "yield points in", n, "files")
}
