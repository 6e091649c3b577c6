// instr prepares a build overlay of the repository under test: every statement
// list in the chosen packages gets a call to the schedule-perturbation and
// coverage package zzvy in front of each statement, on the same line, so that
// line numbers in panics and race reports stay those of /repo. Nothing is
// written in /repo. The overlay also adds the harness packages and a go.mod.
//
// usage: instr -repo /repo -out DIR -harness /verif/harness -gomod FILE -gosum FILE -pkgs a,b,c [-plain]
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

type site struct {
	ID   int    `json:"id"`
	File string `json:"file"`
	Line int    `json:"line"`
	Func string `json:"func"`
}

var sites []site

func main() {
	repo := flag.String("repo", "/repo", "")
	out := flag.String("out", "", "")
	harness := flag.String("harness", "/verif/harness", "")
	gomod := flag.String("gomod", "", "")
	gosum := flag.String("gosum", "", "")
	pkgs := flag.String("pkgs", "", "")
	plain := flag.Bool("plain", false, "overlay without instrumentation")
	flag.Parse()

	rep := map[string]string{
		filepath.Join(*repo, "go.mod"): *gomod,
		filepath.Join(*repo, "go.sum"): *gosum,
	}
	must(os.MkdirAll(filepath.Join(*out, "src"), 0o755))

	for _, sub := range []string{"kit", "mon", "monu", "zzvy"} {
		fs, _ := filepath.Glob(filepath.Join(*harness, sub, "*.go"))
		for _, f := range fs {
			rep[filepath.Join(*repo, "zzverif", sub, filepath.Base(f))] = f
		}
	}

	if !*plain {
		for _, p := range strings.Split(*pkgs, ",") {
			if p == "" {
				continue
			}
			fs, _ := filepath.Glob(filepath.Join(*repo, p, "*.go"))
			sort.Strings(fs)
			for _, f := range fs {
				if strings.HasSuffix(f, "_test.go") {
					continue
				}
				src, err := os.ReadFile(f)
				must(err)
				rel, _ := filepath.Rel(*repo, f)
				ns, ok := instrument(rel, src)
				if !ok {
					continue
				}
				o := filepath.Join(*out, "src", strings.ReplaceAll(rel, "/", "__"))
				must(os.WriteFile(o, ns, 0o644))
				rep[f] = o
			}
		}
	}

	b, _ := json.MarshalIndent(map[string]any{"Replace": rep}, "", " ")
	must(os.WriteFile(filepath.Join(*out, "overlay.json"), b, 0o644))
	b, _ = json.Marshal(sites)
	must(os.WriteFile(filepath.Join(*out, "sites.json"), b, 0o644))
	fmt.Printf("instrumented %d statement sites\n", len(sites))
}

func must(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "instr:", err)
		os.Exit(3)
	}
}

type ins struct {
	off  int
	text string
}

func instrument(rel string, src []byte) ([]byte, bool) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, rel, src, parser.ParseComments)
	if err != nil {
		// the compiler will report it
		return nil, false
	}
	var list []ins
	fn := ""
	add := func(stmts []ast.Stmt) {
		for _, s := range stmts {
			pos := fset.Position(s.Pos())
			id := len(sites)
			sites = append(sites, site{id, rel, pos.Line, fn})
			list = append(list, ins{pos.Offset, fmt.Sprintf("zzvy.Y(%d);", id)})
		}
	}
	// an empty loop body may be where a program spins
	empty := func(b *ast.BlockStmt) {
		pos := fset.Position(b.Lbrace)
		id := len(sites)
		sites = append(sites, site{id, rel, pos.Line, fn})
		list = append(list, ins{pos.Offset + 1, fmt.Sprintf("zzvy.Y(%d);", id)})
	}
	for _, d := range f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if ok {
			fn = fd.Name.Name
			if fd.Recv != nil && len(fd.Recv.List) == 1 {
				fn = typeName(fd.Recv.List[0].Type) + "." + fn
			}
		} else {
			fn = "init"
		}
		ast.Inspect(d, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.BlockStmt:
				if isClauseBody(x) {
					return true
				}
				add(x.List)
			case *ast.ForStmt:
				if len(x.Body.List) == 0 {
					empty(x.Body)
				}
			case *ast.RangeStmt:
				if len(x.Body.List) == 0 {
					empty(x.Body)
				}
			case *ast.CaseClause:
				add(x.Body)
			case *ast.CommClause:
				add(x.Body)
			}
			return true
		})
	}
	if len(list) == 0 {
		return nil, false
	}
	pkgEnd := fset.Position(f.Name.End()).Offset
	list = append(list, ins{pkgEnd, `; import zzvy "github.com/WatchBeam/rtmp/zzverif/zzvy"`})
	sort.SliceStable(list, func(i, j int) bool { return list[i].off < list[j].off })
	var out []byte
	last := 0
	for _, i := range list {
		out = append(out, src[last:i.off]...)
		out = append(out, i.text...)
		last = i.off
	}
	out = append(out, src[last:]...)
	return out, true
}

// A switch or select body is a BlockStmt holding only clauses.
func isClauseBody(b *ast.BlockStmt) bool {
	if len(b.List) == 0 {
		return false
	}
	switch b.List[0].(type) {
	case *ast.CaseClause, *ast.CommClause:
		return true
	}
	return false
}

func typeName(e ast.Expr) string {
	switch x := e.(type) {
	case *ast.StarExpr:
		return typeName(x.X)
	case *ast.Ident:
		return x.Name
	case *ast.IndexExpr:
		return typeName(x.X)
	}
	return "?"
}
