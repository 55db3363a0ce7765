package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"reflect"
	"strconv"
	"strings"
	"time"

	"github.com/GannettDigital/jstransform/generate"

	. "verif/vt"
)

// build generates code and returns "" or how it failed.
func build(a generate.BuildArgs) (res, msg string) {
	return buildWith(a, generate.BuildStructsWithArgs)
}

func buildWith(a generate.BuildArgs, fn func(generate.BuildArgs) error) (res, msg string) {
	how, detail := Guard(60*time.Second, func() {
		if err := fn(a); err != nil {
			res, msg = "err", err.Error()
		}
	})
	if how != "" {
		return how, detail
	}
	return res, msg
}

// older calls the older functions for what they can do.
func older(a generate.BuildArgs) error {
	old := generate.BuildArgs{SchemaPath: a.SchemaPath, OutputDir: a.OutputDir, GenerateMessagePack: a.GenerateMessagePack, DescriptionAsStructTag: true, StructNameMap: a.StructNameMap}
	switch {
	case !reflect.DeepEqual(a, old):
		return generate.BuildStructsWithArgs(a)
	case len(a.StructNameMap) == 0:
		return generate.BuildStructs(a.SchemaPath, a.OutputDir, a.GenerateMessagePack)
	default:
		return generate.BuildStructsRename(a.SchemaPath, a.OutputDir, a.GenerateMessagePack, a.StructNameMap)
	}
}

func structsTrace(r *Rand, i int) M {
	g := newSet(r, shapeStructs)
	dir := filepath.Join(*scratch, fmt.Sprintf("g%d", i))
	defer os.RemoveAll(dir)
	spec, text := g.write(filepath.Join(dir, "in"))
	events := L{}
	for n := 0; n < 3; n++ {
		a := g.args()
		if r.P(0.15) {
			a = generate.BuildArgs{DescriptionAsStructTag: true, StructNameMap: a.StructNameMap}
		}
		a.SchemaPath = filepath.Join(dir, "in", g.root)
		a.OutputDir = filepath.Join(dir, fmt.Sprint("pkg", n))
		Must(os.Mkdir(a.OutputDir, 0o755))
		events = append(events, generated("structs", g.root, fmt.Sprint("pkg", n), a))
	}
	return M{"files": spec, "text": text, "events": events}
}

// generated generates structs or a GraphQL schema and reads what was written.
func generated(ev, root, pkg string, a generate.BuildArgs) M {
	if ev == "graphql" {
		a.GenerateGraphQL = true
	}
	e := M{"ev": ev, "root": root, "args": argsOf(a), "pkg": pkg}
	res, msg := buildWith(a, older)
	switch {
	case res != "":
		e["out"], e["msg"] = M{"k": res}, msg
	case ev == "graphql":
		e["out"] = M{"k": "ok", "files": parseGraphQLDir(a)}
	default:
		e["out"] = M{"k": "ok", "files": parseDir(a.OutputDir)}
	}
	return e
}

func parseDir(dir string) M {
	files := M{}
	es, err := os.ReadDir(dir)
	Must(err)
	for _, d := range es {
		raw, err := os.ReadFile(filepath.Join(dir, d.Name()))
		Must(err)
		files[d.Name()] = parseGo(raw)
	}
	return files
}

// parseGo is what a file of generated struct types declares.
func parseGo(src []byte) M {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, "x.go", src, parser.ParseComments)
	if err != nil {
		return M{"bad": err.Error()}
	}
	formatted, _ := format.Source(src)
	m := M{"pkg": f.Name.Name, "imports": L{}, "types": L{}, "formatted": bytes.Equal(formatted, src),
		"generated": bytes.Contains(src, []byte("\n// Code generated by ")) && bytes.Contains(src, []byte("DO NOT EDIT"))}
	for _, im := range f.Imports {
		p, _ := strconv.Unquote(im.Path.Value)
		m["imports"] = append(m["imports"].(L), p)
	}
	for _, d := range f.Decls {
		gd, ok := d.(*ast.GenDecl)
		if ok && gd.Tok == token.IMPORT {
			continue
		}
		if !ok || gd.Tok != token.TYPE || len(gd.Specs) != 1 {
			m["types"] = append(m["types"].(L), M{"bad": "declaration"})
			continue
		}
		ts := gd.Specs[0].(*ast.TypeSpec)
		st, ok := ts.Type.(*ast.StructType)
		if !ok {
			m["types"] = append(m["types"].(L), M{"bad": ts.Name.Name})
			continue
		}
		embeds, fields := fieldList(st.Fields)
		m["types"] = append(m["types"].(L), M{"name": ts.Name.Name, "embeds": embeds, "fields": fields})
	}
	return m
}

func fieldList(l *ast.FieldList) (embeds, fields L) {
	embeds, fields = L{}, L{}
	for _, f := range l.List {
		t, kids := typeOf(f.Type)
		if len(f.Names) == 0 {
			if f.Tag != nil || len(fields) > 0 {
				t = "bad " + t
			}
			embeds = append(embeds, t)
			continue
		}
		m := M{"name": f.Names[0].Name, "type": t, "fields": kids, "json": "", "desc": "", "doc": ""}
		if len(f.Names) > 1 {
			m["name"] = "bad"
		}
		if f.Tag != nil {
			v, err := strconv.Unquote(f.Tag.Value)
			if err == nil {
				tag := reflect.StructTag(v)
				m["json"], m["desc"] = tag.Get("json"), tag.Get("description")
				if want := tagText(tag); want != v {
					m["json"] = "bad " + v
				}
			}
		}
		if f.Doc != nil {
			var lines []string
			for _, c := range f.Doc.List {
				lines = append(lines, strings.TrimPrefix(strings.TrimPrefix(c.Text, "//"), " "))
			}
			m["doc"] = strings.Join(lines, "\n")
		}
		if f.Comment != nil {
			m["doc"] = "bad " + f.Comment.Text()
		}
		fields = append(fields, m)
	}
	return embeds, fields
}

// tagText is the tag with the keys there should be.
func tagText(t reflect.StructTag) string {
	s := "json:" + strconv.Quote(t.Get("json"))
	if d, ok := t.Lookup("description"); ok {
		s += " description:" + strconv.Quote(d)
	}
	return s
}

func typeOf(e ast.Expr) (string, L) {
	switch t := e.(type) {
	case *ast.Ident:
		return t.Name, L{}
	case *ast.SelectorExpr:
		s, _ := typeOf(t.X)
		return s + "." + t.Sel.Name, L{}
	case *ast.StarExpr:
		s, k := typeOf(t.X)
		return "*" + s, k
	case *ast.ArrayType:
		if t.Len != nil {
			return "bad", L{}
		}
		s, k := typeOf(t.Elt)
		return "[]" + s, k
	case *ast.MapType:
		a, _ := typeOf(t.Key)
		b, k := typeOf(t.Value)
		return "map[" + a + "]" + b, k
	case *ast.StructType:
		em, k := fieldList(t.Fields)
		if len(em) > 0 {
			return "bad", k
		}
		return "struct", k
	}
	return "bad", L{}
}
