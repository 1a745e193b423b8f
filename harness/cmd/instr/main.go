// instr writes instrumented copies of Go packages and an overlay file for
// "go test -overlay": a scheduling point before every statement, and package
// sync replaced by vsync.  The code under test is otherwise unchanged, line by
// line.
//
//	instr -out DIR -overlay FILE.json -tags verif PKGDIR...
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/build"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

type edit struct {
	pos, end int
	text     string
}

func main() {
	out := flag.String("out", "", "directory for instrumented files")
	overlay := flag.String("overlay", "", "overlay file")
	tags := flag.String("tags", "verif", "build tags")
	rest := flag.String("rest", "", "root below which all other packages only get package sync replaced")
	flag.Parse()
	if err := os.MkdirAll(*out, 0o755); err != nil {
		fatal(err)
	}
	replace := map[string]string{}
	site := 0
	dirs := flag.Args()
	full := map[string]bool{}
	for _, dir := range dirs {
		full[dir] = true
	}
	if *rest != "" {
		filepath.Walk(*rest, func(path string, info os.FileInfo, err error) error {
			if err != nil || !info.IsDir() {
				return nil
			}
			if b := info.Name(); path != *rest && (strings.HasPrefix(b, ".") || strings.HasPrefix(b, "_") || b == "testdata" || b == "vendor") {
				return filepath.SkipDir
			}
			if m, _ := filepath.Glob(filepath.Join(path, "*.go")); len(m) > 0 && !full[path] {
				dirs = append(dirs, path)
			}
			return nil
		})
	}
	for _, dir := range dirs {
		ctx := build.Default
		ctx.BuildTags = strings.Split(*tags, ",")
		p, err := ctx.ImportDir(dir, 0)
		if err != nil {
			if !full[dir] {
				continue // not a package that can be built; no concern of ours
			}
			fatal(err)
		}
		for _, f := range p.GoFiles {
			path := filepath.Join(dir, f)
			src, err := os.ReadFile(path)
			if err != nil {
				fatal(err)
			}
			res, changed := instrument(path, src, &site, full[dir])
			if !changed {
				continue
			}
			dst := filepath.Join(*out, strings.ReplaceAll(strings.TrimPrefix(path, "/"), "/", "__"))
			if err := os.WriteFile(dst, res, 0o644); err != nil {
				fatal(err)
			}
			replace[path] = dst
		}
	}
	b, _ := json.MarshalIndent(map[string]interface{}{"Replace": replace}, "", " ")
	if err := os.WriteFile(*overlay, b, 0o644); err != nil {
		fatal(err)
	}
}

func fatal(err error) {
	fmt.Fprintln(os.Stderr, "instr:", err)
	os.Exit(2)
}

func pure(e ast.Expr) bool {
	switch x := e.(type) {
	case *ast.Ident:
		return true
	case *ast.SelectorExpr:
		return pure(x.X)
	case *ast.StarExpr:
		return pure(x.X)
	case *ast.ParenExpr:
		return pure(x.X)
	}
	return false
}

// shared reports whether an assignable expression may be visible to others.
func shared(e ast.Expr) bool {
	switch e.(type) {
	case *ast.SelectorExpr, *ast.StarExpr:
		return pure(e)
	}
	return false
}

func instrument(path string, src []byte, site *int, full bool) ([]byte, bool) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, path, src, parser.ParseComments)
	if err != nil {
		fatal(err)
	}
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
	var edits []edit
	points := 0
	list := func(l []ast.Stmt) {
		for _, s := range l {
			*site++
			points++
			pt := fmt.Sprintf("verifsched.Point(%d); ", *site)
			edits = append(edits, edit{off(s.Pos()), off(s.Pos()), pt})
			// split read-modify-write of shared variables
			switch x := s.(type) {
			case *ast.IncDecStmt:
				if shared(x.X) {
					op := "+"
					if x.Tok == token.DEC {
						op = "-"
					}
					l := text(x.X)
					edits = append(edits, edit{off(x.Pos()), off(x.End()), fmt.Sprintf("{ verifTmp := %s; %s%s = verifTmp %s 1 }", l, pt, l, op)})
				}
			case *ast.AssignStmt:
				if x.Tok != token.ASSIGN && x.Tok != token.DEFINE && len(x.Lhs) == 1 && shared(x.Lhs[0]) {
					hasFunc := false
					ast.Inspect(x.Rhs[0], func(n ast.Node) bool {
						if _, ok := n.(*ast.FuncLit); ok {
							hasFunc = true
						}
						return true
					})
					if hasFunc {
						continue
					}
					l := text(x.Lhs[0])
					op := strings.TrimSuffix(x.Tok.String(), "=")
					edits = append(edits, edit{off(x.Pos()), off(x.End()), fmt.Sprintf("{ verifTmp := %s; %s%s = verifTmp %s (%s) }", l, pt, l, op, text(x.Rhs[0]))})
				}
			}
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		if !full {
			return false
		}
		switch x := n.(type) {
		case *ast.ForStmt:
			if len(x.Body.List) == 0 {
				*site++
				points++
				edits = append(edits, edit{off(x.Body.Lbrace) + 1, off(x.Body.Lbrace) + 1, fmt.Sprintf(" verifsched.Point(%d) ", *site)})
			}
		case *ast.BlockStmt:
			// the body of a switch or select holds clauses, not statements
			if len(x.List) > 0 {
				switch x.List[0].(type) {
				case *ast.CaseClause, *ast.CommClause:
					return true
				}
			}
			list(x.List)
		case *ast.CaseClause:
			list(x.Body)
		case *ast.CommClause:
			list(x.Body)
		}
		return true
	})
	changed := points > 0
	if points > 0 {
		edits = append(edits, edit{off(f.Name.End()), off(f.Name.End()), `; import verifsched "verif/harness/vsched"`})
	}
	for _, im := range f.Imports {
		if im.Path.Value == `"sync"` {
			name := "sync "
			if im.Name != nil {
				name = "" // keeps its own name
			}
			edits = append(edits, edit{off(im.Path.Pos()), off(im.Path.End()), name + `"verif/harness/vsync"`})
			changed = true
		}
	}
	sort.SliceStable(edits, func(i, j int) bool {
		if edits[i].pos != edits[j].pos {
			return edits[i].pos < edits[j].pos
		}
		return edits[i].end < edits[j].end
	})
	var b strings.Builder
	at := 0
	for _, e := range edits {
		b.Write(src[at:e.pos])
		b.WriteString(e.text)
		at = e.end
	}
	b.Write(src[at:])
	return []byte(b.String()), changed
}
