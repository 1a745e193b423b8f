// extract derives the wire schema of every protocol type from the struct
// definitions and the Encode/Decode/Size bodies of message/messages.gen.go and
// insists that the three agree.  It was run ONCE, on the pinned base commit, to
// produce harness/wire/schema.json; the result was then reviewed by hand
// against the Kafka 2.4 protocol guide.  No check runs it: the checks use the
// committed schema as an oracle that is independent of the tree under test.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"math"
	"os"
	"regexp"
	"strconv"
	"strings"
)

type Field struct {
	Name string `json:"name"`
	Kind string `json:"kind"` // bool int8 int16 int32 int64 string bytes []int32 []int64 []string struct
	Type string `json:"type,omitempty"`
	Min  int    `json:"min"`
	Max  int    `json:"max"` // -1: no upper bound
}
type Type struct {
	Name   string  `json:"name"`
	Fields []Field `json:"fields"`
	API    int     `json:"api"` // -1 for nested
	Lo     int     `json:"lo"`
	Hi     int     `json:"hi"`
}

func die(f string, a ...interface{}) { fmt.Fprintf(os.Stderr, f+"\n", a...); os.Exit(1) }

type item struct {
	name, op string
	min, max int
}

var elem = regexp.MustCompile(`^t\.(\w+)`)

func src(b []byte, fs *token.FileSet, n ast.Node) string {
	return string(b[fs.Position(n.Pos()).Offset:fs.Position(n.End()).Offset])
}

func main() {
	path := os.Args[1]
	b, err := os.ReadFile(path)
	if err != nil {
		die("%v", err)
	}
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, path, b, parser.ParseComments)
	if err != nil {
		die("%v", err)
	}
	types := map[string]*Type{}
	var order []string
	kinds := map[string]map[string]string{}
	hdr := regexp.MustCompile(`(\w+); ApiKey: (\d+), Versions: (\d+)(?:-(\d+))?`)
	for _, d := range f.Decls {
		g, ok := d.(*ast.GenDecl)
		if !ok || g.Tok != token.TYPE {
			continue
		}
		ts := g.Specs[0].(*ast.TypeSpec)
		st := ts.Type.(*ast.StructType)
		t := &Type{Name: ts.Name.Name, API: -1, Lo: 0, Hi: -1, Fields: []Field{}}
		if g.Doc != nil {
			if m := hdr.FindStringSubmatch(g.Doc.Text()); m != nil {
				t.API, _ = strconv.Atoi(m[2])
				t.Lo, _ = strconv.Atoi(m[3])
				t.Hi = t.Lo
				if m[4] != "" {
					t.Hi, _ = strconv.Atoi(m[4])
				}
			}
		}
		kinds[t.Name] = map[string]string{}
		for _, fl := range st.Fields.List {
			kinds[t.Name][fl.Names[0].Name] = src(b, fs, fl.Type)
		}
		types[t.Name] = t
		order = append(order, t.Name)
	}
	got := map[string]map[string][]item{}
	guard := regexp.MustCompile(`^version >= (\d+)(?: && version <= (\d+))?$`)
	for _, d := range f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok || fd.Recv == nil {
			continue
		}
		rt := fd.Recv.List[0].Type
		if s, ok := rt.(*ast.StarExpr); ok {
			rt = s.X
		}
		name := rt.(*ast.Ident).Name
		var items []item
		add := func(n, op string, lo, hi int) {
			if k := len(items); k > 0 && items[k-1].name == n {
				if items[k-1].min != lo || items[k-1].max != hi {
					die("%s.%s: guard split", name, n)
				}
				items[k-1].op += "+" + op
				return
			}
			items = append(items, item{n, op, lo, hi})
		}
		var walk func(list []ast.Stmt, lo, hi int)
		fieldIn := regexp.MustCompile(`\bt\.(\w+)`)
		cm := ast.NewCommentMap(fs, f, f.Comments)
		_ = cm
		walk = func(list []ast.Stmt, lo, hi int) {
			for _, s := range list {
				text := src(b, fs, s)
				if is, ok := s.(*ast.IfStmt); ok && is.Init == nil {
					if m := guard.FindStringSubmatch(src(b, fs, is.Cond)); m != nil {
						l, _ := strconv.Atoi(m[1])
						h := -1
						if m[2] != "" {
							h, _ = strconv.Atoi(m[2])
						}
						walk(is.Body.List, l, h)
						continue
					}
					if src(b, fs, is.Cond) == "err != nil" {
						continue
					}
					die("odd if in %s.%s: %s", name, fd.Name.Name, text)
				}
				switch fd.Name.Name {
				case "Size":
					if m := regexp.MustCompile(`^sz \+= sizeof\.(\w+)`).FindStringSubmatch(text); m != nil {
						// name in trailing comment
						line := strings.SplitN(string(b[fs.Position(s.End()).Offset:]), "\n", 2)[0]
						n := strings.TrimSpace(strings.TrimPrefix(strings.TrimSpace(line), "//"))
						add(n, m[1], lo, hi)
						if mm := fieldIn.FindStringSubmatch(text); mm != nil && mm[1] != n {
							die("size arg mismatch %s.%s", name, n)
						}
					} else if _, ok := s.(*ast.ForStmt); ok {
						add(fieldIn.FindStringSubmatch(text)[1], "each", lo, hi)
					} else if text != "var sz int32" && text != "return sz" {
						die("odd stmt in %s.Size: %s", name, text)
					}
				case "Encode":
					if m := regexp.MustCompile(`^e\.Put(\w+)\(t\.(\w+)\)$`).FindStringSubmatch(text); m != nil {
						add(m[2], m[1], lo, hi)
					} else if m := regexp.MustCompile(`^len\d+ := len\(t\.(\w+)\)$`).FindStringSubmatch(text); m != nil {
						add(m[1], "len", lo, hi)
					} else if strings.HasPrefix(text, "e.PutArrayLength(len") {
						items[len(items)-1].op += "+ArrayLength"
					} else if _, ok := s.(*ast.ForStmt); ok {
						add(fieldIn.FindStringSubmatch(text)[1], "each", lo, hi)
					} else {
						die("odd stmt in %s.Encode: %s", name, text)
					}
				case "Decode":
					if m := regexp.MustCompile(`^t\.(\w+), err = d\.(\w+)\(\)$`).FindStringSubmatch(text); m != nil {
						add(m[1], m[2], lo, hi)
					} else if is, ok := s.(*ast.IfStmt); ok && is.Init != nil {
						add(fieldIn.FindStringSubmatch(text)[1], "array", lo, hi)
					} else if text != "var err error" && text != "return err" {
						die("odd stmt in %s.Decode: %s", name, text)
					}
				}
			}
		}
		walk(fd.Body.List, 0, -1)
		if got[name] == nil {
			got[name] = map[string][]item{}
		}
		got[name][fd.Name.Name] = items
	}
	goKind := map[string]string{"bool": "Bool", "int8": "Int8", "int16": "Int16", "int32": "Int32", "int64": "Int64", "string": "String", "[]byte": "Bytes", "[]int32": "Int32Array", "[]int64": "Int64Array", "[]string": "StringArray"}
	for _, n := range order {
		t := types[n]
		e, s, d := got[n]["Encode"], got[n]["Size"], got[n]["Decode"]
		if len(e) != len(s) || len(e) != len(d) || len(e) != len(kinds[n]) {
			die("%s: field count %d %d %d %d", n, len(e), len(s), len(d), len(kinds[n]))
		}
		for i := range e {
			if e[i].name != s[i].name || e[i].name != d[i].name || e[i].min != s[i].min || e[i].min != d[i].min || e[i].max != s[i].max || e[i].max != d[i].max {
				die("%s field %d disagree %v %v %v", n, i, e[i], s[i], d[i])
			}
			k := kinds[n][e[i].name]
			fl := Field{Name: e[i].name, Min: e[i].min, Max: e[i].max}
			if g, ok := goKind[k]; ok {
				if e[i].op != g || d[i].op != g || s[i].op != g {
					die("%s.%s: kind %s ops %s %s %s", n, e[i].name, k, e[i].op, d[i].op, s[i].op)
				}
				fl.Kind = strings.TrimPrefix(k, "x")
				if k == "[]byte" {
					fl.Kind = "bytes"
				}
			} else {
				if !strings.HasPrefix(k, "[]") || e[i].op != "len+ArrayLength+each" || s[i].op != "ArrayLength+each" || d[i].op != "array" {
					die("%s.%s: array ops %v %v %v", n, e[i].name, e[i].op, s[i].op, d[i].op)
				}
				fl.Kind, fl.Type = "struct", k[2:]
			}
			t.Fields = append(t.Fields, fl)
		}
	}
	_ = math.MaxInt16
	// propagate version ranges of nested types
	for changed := true; changed; {
		changed = false
		for _, n := range order {
			if types[n].Hi < 0 {
				continue
			}
			for _, fl := range types[n].Fields {
				if fl.Type != "" && types[fl.Type].Hi < types[n].Hi {
					types[fl.Type].Hi = types[n].Hi
					changed = true
				}
			}
		}
	}
	var out []*Type
	for _, n := range order {
		out = append(out, types[n])
	}
	j, _ := json.MarshalIndent(out, "", " ")
	os.Stdout.Write(j)
}
