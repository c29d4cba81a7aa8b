// instr writes a go build overlay which (1) adds the shim packages to the module under test
// and (2) instruments the given package directories: a yield point before every statement,
// read-modify-write statements split in two, sync and sync/atomic replaced by the shims.
//
//	instr -repo /repo -shim /verif/harness/shim -out DIR pkgdir...
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/build"
	"go/format"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"strconv"
	"strings"
)

const mod = "github.com/Aize-Public/forego/verifshim/"

func main() {
	repo := flag.String("repo", "/repo", "")
	shim := flag.String("shim", "/verif/harness/shim", "")
	out := flag.String("out", "", "")
	flag.Parse()
	replace := map[string]string{}
	for _, p := range []string{"vyield", "vsync", "vatomic"} {
		f := p + "/" + p + ".go"
		replace[filepath.Join(*repo, "verifshim", f)] = filepath.Join(*shim, f)
	}
	must(os.MkdirAll(*out, 0755))
	for _, dir := range flag.Args() {
		full := filepath.Join(*repo, dir)
		ents, err := os.ReadDir(full)
		must(err)
		for _, e := range ents {
			n := e.Name()
			if !strings.HasSuffix(n, ".go") || strings.HasSuffix(n, "_test.go") {
				continue
			}
			if ok, err := build.Default.MatchFile(full, n); err != nil || !ok {
				continue
			}
			src := filepath.Join(full, n)
			dst := filepath.Join(*out, strings.ReplaceAll(dir, "/", "_")+"_"+n)
			b, err := instrument(src)
			if err != nil {
				fmt.Fprintf(os.Stderr, "instr: %s: %v (left as is)\n", src, err)
				continue
			}
			must(os.WriteFile(dst, b, 0644))
			replace[src] = dst
		}
	}
	j, _ := json.MarshalIndent(map[string]any{"Replace": replace}, "", " ")
	must(os.WriteFile(filepath.Join(*out, "overlay.json"), j, 0644))
}

func must(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "instr:", err)
		os.Exit(2)
	}
}

func instrument(file string) ([]byte, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, file, nil, parser.SkipObjectResolution)
	if err != nil {
		return nil, err
	}
	f.Comments = nil
	for _, im := range f.Imports {
		im.Doc, im.Comment = nil, nil
		p, _ := strconv.Unquote(im.Path.Value)
		switch p {
		case "sync":
			im.Path.Value = strconv.Quote(mod + "vsync")
			if im.Name == nil {
				im.Name = ast.NewIdent("sync")
			}
		case "sync/atomic":
			im.Path.Value = strconv.Quote(mod + "vatomic")
			if im.Name == nil {
				im.Name = ast.NewIdent("atomic")
			}
		}
	}
	n := 0
	tmp := 0
	yield := func() ast.Stmt {
		n++
		return &ast.ExprStmt{X: &ast.CallExpr{Fun: &ast.SelectorExpr{X: ast.NewIdent("vyield"), Sel: ast.NewIdent("Y")}}}
	}
	var block func([]ast.Stmt) []ast.Stmt
	split := func(s ast.Stmt) ast.Stmt {
		var lhs, rhs ast.Expr
		var op token.Token
		switch s := s.(type) {
		case *ast.IncDecStmt:
			lhs, rhs = s.X, &ast.BasicLit{Kind: token.INT, Value: "1"}
			op = token.ADD
			if s.Tok == token.DEC {
				op = token.SUB
			}
		case *ast.AssignStmt:
			if len(s.Lhs) != 1 || s.Tok == token.ASSIGN || s.Tok == token.DEFINE {
				return s
			}
			lhs, rhs = s.Lhs[0], s.Rhs[0]
			op = s.Tok - token.ADD_ASSIGN + token.ADD
		default:
			return s
		}
		if !simple(lhs) {
			return s
		}
		tmp++
		v := ast.NewIdent(fmt.Sprintf("vtmp%d", tmp))
		return &ast.BlockStmt{List: []ast.Stmt{
			&ast.AssignStmt{Lhs: []ast.Expr{v}, Tok: token.DEFINE, Rhs: []ast.Expr{lhs}},
			yield(),
			&ast.AssignStmt{Lhs: []ast.Expr{lhs}, Tok: token.ASSIGN, Rhs: []ast.Expr{
				&ast.BinaryExpr{X: v, Op: op, Y: &ast.ParenExpr{X: rhs}}}},
		}}
	}
	block = func(in []ast.Stmt) (out []ast.Stmt) {
		for _, s := range in {
			if _, ok := s.(*ast.EmptyStmt); ok {
				out = append(out, s)
				continue
			}
			out = append(out, yield(), split(s))
		}
		return out
	}
	ast.Inspect(f, func(nd ast.Node) bool {
		switch nd := nd.(type) {
		case *ast.FuncDecl:
			nd.Doc = nil
			if nd.Name.Name == "init" && nd.Recv == nil {
				return false
			}
		case *ast.BlockStmt:
			defer func() { nd.List = block(nd.List) }()
			// children first: collect them before rewriting this list
			for _, s := range nd.List {
				ast.Inspect(s, walker(block))
			}
			return false
		}
		return true
	})
	if n > 0 {
		addImport(f)
	}
	// positions of the original comments are gone; printing through a fresh file set keeps it simple
	var buf bytes.Buffer
	if err := format.Node(&buf, token.NewFileSet(), f); err != nil {
		return nil, err
	}
	return buf.Bytes(), nil
}

func walker(block func([]ast.Stmt) []ast.Stmt) func(ast.Node) bool {
	var w func(ast.Node) bool
	w = func(nd ast.Node) bool {
		switch nd := nd.(type) {
		case *ast.SwitchStmt:
			if nd.Init != nil {
				ast.Inspect(nd.Init, w)
			}
			if nd.Tag != nil {
				ast.Inspect(nd.Tag, w)
			}
			for _, s := range nd.Body.List {
				ast.Inspect(s, w)
			}
			return false
		case *ast.TypeSwitchStmt:
			for _, s := range nd.Body.List {
				ast.Inspect(s, w)
			}
			return false
		case *ast.SelectStmt:
			for _, s := range nd.Body.List {
				ast.Inspect(s, w)
			}
			return false
		case *ast.CaseClause:
			for _, s := range nd.Body {
				ast.Inspect(s, w)
			}
			nd.Body = block(nd.Body)
			return false
		case *ast.CommClause:
			for _, s := range nd.Body {
				ast.Inspect(s, w)
			}
			nd.Body = block(nd.Body)
			return false
		case *ast.BlockStmt:
			for _, s := range nd.List {
				ast.Inspect(s, w)
			}
			nd.List = block(nd.List)
			return false
		}
		return true
	}
	return w
}

// an identifier or a chain of selectors: evaluating it twice is harmless
func simple(e ast.Expr) bool {
	switch e := e.(type) {
	case *ast.Ident:
		return e.Name != "_" // may be captured by several goroutines
	case *ast.SelectorExpr:
		for {
			switch x := e.X.(type) {
			case *ast.Ident:
				return true
			case *ast.SelectorExpr:
				e = x
			default:
				return false
			}
		}
	case *ast.StarExpr:
		_, ok := e.X.(*ast.Ident)
		return ok
	case *ast.IndexExpr:
		if _, ok := e.Index.(*ast.Ident); !ok {
			if _, ok := e.Index.(*ast.BasicLit); !ok {
				return false
			}
		}
		return simple(e.X)
	}
	return false
}

func addImport(f *ast.File) {
	spec := &ast.ImportSpec{Name: ast.NewIdent("vyield"), Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(mod + "vyield")}}
	f.Decls = append([]ast.Decl{&ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{spec}}}, f.Decls...)
}
