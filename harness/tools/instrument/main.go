// Command instrument writes an overlay in which a yield point stands before
// every statement of the packages that tokenize.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/printer"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

const imp = "verif/harness/vsched"

func die(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "instrument:", err)
		os.Exit(2)
	}
}

func main() {
	out := os.Args[1]
	repo := os.Args[2]
	replace := map[string]string{}
	if o := os.Getenv("VERIF_OVERLAY"); o != "" {
		b, err := os.ReadFile(o)
		die(err)
		var x struct{ Replace map[string]string }
		die(json.Unmarshal(b, &x))
		for k, v := range x.Replace {
			replace[k] = v
		}
	}
	site := 0
	for _, pkg := range []string{".", "dictionary", "dartsclone", "internal/lnreader"} {
		dir := filepath.Join(repo, pkg)
		set := map[string]bool{}
		ents, err := os.ReadDir(dir)
		die(err)
		for _, e := range ents {
			set[filepath.Join(dir, e.Name())] = true
		}
		for k := range replace {
			if filepath.Dir(k) == dir {
				set[k] = true
			}
		}
		var files []string
		for f := range set {
			if strings.HasSuffix(f, ".go") && !strings.HasSuffix(f, "_test.go") {
				files = append(files, f)
			}
		}
		sort.Strings(files)
		name := ""
		var vars []string
		first := site
		var names []string
		for _, f := range files {
			src := f
			if r, ok := replace[f]; ok {
				src = r
			}
			if src == "" {
				continue
			}
			fset := token.NewFileSet()
			af, err := parser.ParseFile(fset, src, nil, parser.ParseComments)
			die(err)
			if af.Name.Name == "main" || ignored(af) {
				continue
			}
			name = af.Name.Name
			for _, d := range af.Decls {
				g, ok := d.(*ast.GenDecl)
				if !ok || g.Tok != token.VAR {
					continue
				}
				for _, sp := range g.Specs {
					for _, n := range sp.(*ast.ValueSpec).Names {
						if n.Name != "_" {
							vars = append(vars, "&"+n.Name)
						}
					}
				}
			}
			n := site
			insert(af, &site, func(p token.Pos) {
				q := fset.Position(p)
				names = append(names, fmt.Sprintf("%s:%d", filepath.Join(pkg, filepath.Base(f)), q.Line))
			})
			if site == n {
				continue
			}
			// comments would be printed in the wrong places
			af.Comments = constraints(af)
			addImport(af)
			var b bytes.Buffer
			die((&printer.Config{Mode: printer.UseSpaces | printer.TabIndent, Tabwidth: 8}).Fprint(&b, fset, af))
			dst := filepath.Join(out, strings.NewReplacer("/", "_", ".", "root").Replace(pkg)+"_"+filepath.Base(f))
			die(os.WriteFile(dst, b.Bytes(), 0644))
			replace[f] = dst
		}
		if name == "" {
			continue
		}
		extra := fmt.Sprintf("package %s\n\nimport vsched %q\n\nfunc init() {\n\tvsched.AddSites(%d%s)\n\tvsched.Globals(%s)\n}\n", name, imp, first+1, places(names), strings.Join(vars, ", "))
		dst := filepath.Join(out, strings.NewReplacer("/", "_", ".", "root").Replace(pkg)+"_zz_verif.go")
		die(os.WriteFile(dst, []byte(extra), 0644))
		replace[filepath.Join(dir, "zz_verif_sched.go")] = dst
	}
	b, _ := json.Marshal(map[string]interface{}{"Replace": replace})
	die(os.WriteFile(filepath.Join(out, "overlay.json"), b, 0644))
}

func places(names []string) string {
	var b strings.Builder
	for _, n := range names {
		fmt.Fprintf(&b, ", %q", n)
	}
	return b.String()
}

// ignored tells whether a build constraint excludes the file here.
func ignored(f *ast.File) bool {
	for _, g := range f.Comments {
		if g.Pos() >= f.Package {
			break
		}
		for _, c := range g.List {
			if strings.HasPrefix(c.Text, "//go:build ignore") || strings.HasPrefix(c.Text, "// +build ignore") {
				return true
			}
		}
	}
	return false
}

func constraints(f *ast.File) []*ast.CommentGroup {
	var out []*ast.CommentGroup
	for _, g := range f.Comments {
		if g.End() < f.Package {
			out = append(out, g)
		}
	}
	return out
}

func addImport(f *ast.File) {
	spec := &ast.ImportSpec{Name: ast.NewIdent("vsched"), Path: &ast.BasicLit{Kind: token.STRING, Value: `"` + imp + `"`}}
	d := &ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{spec}}
	f.Decls = append([]ast.Decl{d}, f.Decls...)
	f.Imports = append(f.Imports, spec)
}

func insert(f *ast.File, site *int, at func(token.Pos)) {
	y := func(p token.Pos) ast.Stmt {
		*site++
		at(p)
		return &ast.ExprStmt{X: &ast.CallExpr{
			Fun:  &ast.SelectorExpr{X: ast.NewIdent("vsched"), Sel: ast.NewIdent("Y")},
			Args: []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: fmt.Sprint(*site)}},
		}}
	}
	list := func(l []ast.Stmt) []ast.Stmt {
		var out []ast.Stmt
		for _, s := range l {
			out = append(out, y(s.Pos()), s)
		}
		return out
	}
	done := map[ast.Node]bool{}
	skip := map[ast.Node]bool{} // bodies of switch and select hold clauses, not statements
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.FuncDecl:
			if x.Name.Name == "init" && x.Recv == nil {
				return false
			}
		case *ast.SwitchStmt:
			skip[x.Body] = true
		case *ast.TypeSwitchStmt:
			skip[x.Body] = true
		case *ast.SelectStmt:
			skip[x.Body] = true
		case *ast.BlockStmt:
			if !skip[x] && !done[x] {
				done[x] = true
				x.List = list(x.List)
			}
		case *ast.CaseClause:
			if !done[x] {
				done[x] = true
				x.Body = list(x.Body)
			}
		case *ast.CommClause:
			if !done[x] {
				done[x] = true
				x.Body = list(x.Body)
			}
		}
		return true
	})
}
