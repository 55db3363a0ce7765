package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"time"

	"github.com/GannettDigital/jstransform/generate"

	. "verif/vt"
)

// pack is a generated package.
type pack struct {
	g     *set
	a     generate.BuildArgs
	name  string
	dir   string
	types []unit
	spec  M
	text  M
	parts []string // files structs are embedded from which are generated on their own
	fail  string   // what the compiler says
}

// unit is a struct made from a schema file.
type unit struct {
	path string // of the schema file
	name string // of the type
	goes string // file
}

// module is the Go module with generated packages.
type module struct {
	dir   string
	packs []*pack
	tries int
	why   string // the last package could not be generated
	entry func(p *pack, u unit) string
}

func newModule(dir string) *module {
	m := &module{dir: dir, entry: func(p *pack, u unit) string { return "func() any { return new(T) }" }}
	Must(os.MkdirAll(dir, 0o755))
	raw, err := os.ReadFile("/repo/go.mod")
	Must(err)
	s := regexp.MustCompile(`(?m)^module .*$`).ReplaceAllString(string(raw), "module gen")
	s += "\nrequire github.com/GannettDigital/jstransform v0.0.0-00010101000000-000000000000\nreplace github.com/GannettDigital/jstransform => /repo\n"
	Must(os.WriteFile(filepath.Join(dir, "go.mod"), []byte(s), 0o644))
	raw, err = os.ReadFile("/repo/go.sum")
	Must(err)
	Must(os.WriteFile(filepath.Join(dir, "go.sum"), raw, 0o644))
	return m
}

// add generates a package; what cannot be generated is not added.
func (m *module) add(g *set, a generate.BuildArgs, name string) *pack {
	p := &pack{g: g, a: a, name: name, dir: filepath.Join(m.dir, name)}
	m.tries++
	in := filepath.Join(m.dir, fmt.Sprintf("schema-%s-%d", name, m.tries)) // loaded files are kept by their path
	p.spec, p.text = g.write(in)
	p.a.SchemaPath = filepath.Join(in, g.root)
	p.a.OutputDir = p.dir
	p.a.ImportPath = "gen/" + name
	Must(os.MkdirAll(p.dir, 0o755))
	drop := func() *pack {
		Must(os.RemoveAll(p.dir))
		Must(os.RemoveAll(in))
		return nil
	}
	// embedded structs have to be there
	if a.EmbedAllOf {
		for _, f := range Keys(g.files) {
			if f == "part.json" || f == "extra.json" {
				p.parts = append(p.parts, f)
				b := p.a
				b.SchemaPath = filepath.Join(in, f)
				b.GenerateMessagePack = false
				if res, msg := build(b); res != "" {
					m.why = msg
					return drop()
				}
			}
		}
	}
	if res, msg := build(p.a); res != "" {
		m.why = msg
		return drop()
	}
	for _, f := range g.units() {
		u := unit{path: f, goes: stem(f) + ".go"}
		if n, ok := a.StructNameMap[stem(f)]; ok {
			u.name = strings.Title(n)
		} else {
			u.name = strings.Title(stem(f))
		}
		if declares(filepath.Join(p.dir, u.goes), u.name) {
			p.types = append(p.types, u)
		}
	}
	m.packs = append(m.packs, p)
	return p
}

func declares(file, name string) bool {
	f, err := parser.ParseFile(token.NewFileSet(), file, nil, 0)
	if err != nil {
		return false
	}
	for _, d := range f.Decls {
		if gd, ok := d.(*ast.GenDecl); ok && gd.Tok == token.TYPE && gd.Specs[0].(*ast.TypeSpec).Name.Name == name {
			return true
		}
	}
	return false
}

func (m *module) tool(args ...string) (string, error) {
	if o := os.Getenv("VERIF_OVERLAY"); o != "" { // for development
		args = append([]string{args[0], "-overlay", o}, args[1:]...)
	}
	c := exec.Command("go", args...)
	c.Dir = m.dir
	c.Env = append(os.Environ(), "GOFLAGS=-mod=mod -buildvcs=false", "GOWORK=off", "GOPROXY=off", "GOTOOLCHAIN=local")
	out, err := c.CombinedOutput()
	return string(out), err
}

// compile finds out which packages compile, with what belongs to them.
func (m *module) compile(with ...string) {
	if len(with) == 0 {
		with = []string{"build", "./..."}
	}
	out, err := m.tool(with...)
	if err == nil {
		return
	}
	found := false
	cur := ""
	fails := map[string]string{}
	for _, line := range strings.Split(out, "\n") {
		if strings.HasPrefix(line, "# gen/") {
			cur = strings.Split(strings.TrimPrefix(line, "# gen/"), "/")[0]
			continue
		}
		if mm := regexp.MustCompile(`^(?:package gen/|\.?/?)?(p\d+)/`).FindStringSubmatch(line); mm != nil && cur == "" {
			fails[mm[1]] += line + "\n"
		}
		if cur != "" {
			fails[cur] += line + "\n"
		}
	}
	for _, p := range m.packs {
		if f, ok := fails[p.name]; ok {
			p.fail, found = f, true
		}
	}
	if !found {
		fmt.Fprintln(os.Stderr, "go build: "+out)
		os.Exit(3)
	}
}

// job is something the program linked with the packages does.
type job struct {
	Type string          `json:"type"`
	Do   string          `json:"do"`
	Doc  json.RawMessage `json:"doc,omitempty"`
	Arg  interface{}     `json:"arg,omitempty"`
}

// run has a program linked with all packages that compile do the jobs.
func (m *module) run(program string, jobs []job, limit time.Duration, flags ...string) []M {
	var imports, table bytes.Buffer
	for _, p := range m.packs {
		if p.fail != "" || len(p.types) == 0 {
			continue
		}
		fmt.Fprintf(&imports, "\t%q\n", "gen/"+p.name)
		for _, u := range p.types {
			fmt.Fprintf(&table, "\t%q: %s,\n", p.name+"."+u.name, strings.ReplaceAll(m.entry(p, u), "T", p.name+"."+u.name))
		}
	}
	src := strings.Replace(strings.Replace(program, "//imports", imports.String(), 1), "//table", table.String(), 1)
	Must(os.MkdirAll(filepath.Join(m.dir, "prog"), 0o755))
	Must(os.WriteFile(filepath.Join(m.dir, "prog", "main.go"), []byte(src), 0o644))
	if out, err := m.tool(append(append([]string{"build"}, flags...), "-o", "prog/prog", "./prog")...); err != nil {
		fmt.Fprintln(os.Stderr, "go build of the program: "+out)
		os.Exit(3)
	}
	var in bytes.Buffer
	for _, j := range jobs {
		in.Write(plainJSON(j))
		in.WriteByte('\n')
	}
	c := exec.Command(filepath.Join(m.dir, "prog", "prog"))
	c.Stdin = &in
	c.Stderr = os.Stderr
	pipe, err := c.StdoutPipe()
	Must(err)
	Must(c.Start())
	t := time.AfterFunc(limit, func() { c.Process.Kill() })
	var res []M
	s := bufio.NewScanner(pipe)
	s.Buffer(nil, 64<<20)
	for s.Scan() {
		var o M
		Must(json.Unmarshal(s.Bytes(), &o))
		res = append(res, o)
	}
	c.Wait()
	t.Stop()
	for len(res) < len(jobs) {
		res = append(res, M{"died": true})
	}
	return res
}

// units are the files structs are made from.
func (g *set) units() []string {
	var l []string
	root := g.files[g.root]
	for _, k := range []string{"allOf", "oneOf"} {
		es, _ := root[k].(L)
		for _, e := range es {
			if f, ok := e.(M)["$ref"].(string); ok {
				l = append(l, f)
			}
		}
	}
	if p, _ := root["properties"].(M); len(p) > 0 || len(l) == 0 {
		l = append(l, g.root)
	}
	sort.Strings(l)
	return l
}

// resolve is the schema a node is or refers to.
func (g *set) resolve(n M) M {
	if f, ok := n["$ref"].(string); ok {
		parts := strings.SplitN(f, "#/definitions/", 2)
		if len(parts) == 2 {
			return g.resolve(g.files["defs.json"]["definitions"].(M)[parts[1]].(M))
		}
		return g.files[strings.TrimPrefix(parts[0], "../")]
	}
	return n
}

// all are the properties of a schema with those of its allOf.
func (g *set) all(n M, props M, req map[string]bool) {
	n = g.resolve(n)
	p, _ := n["properties"].(M)
	for k, v := range p {
		if _, ok := props[k]; !ok {
			props[k] = v
		}
	}
	l, _ := n["required"].(L)
	for _, k := range l {
		req[k.(string)] = true
	}
	es, _ := n["allOf"].(L)
	for _, e := range es {
		g.all(e.(M), props, req)
	}
}

// agree makes properties of the same name in files of a set alike.
func (g *set) agree() {
	seen := M{}
	var inline func(n M) M
	inline = func(n M) M {
		n = Copy(g.resolve(n)).(M)
		if it, ok := n["items"].(M); ok {
			n["items"] = inline(it)
		}
		if ps, ok := n["properties"].(M); ok {
			for k, v := range ps {
				ps[k] = inline(v.(M))
			}
		}
		return n
	}
	var visit func(n M)
	visit = func(n M) {
		ps, _ := n["properties"].(M)
		for _, k := range Keys(ps) {
			if d, ok := seen[k]; ok {
				ps[k] = Copy(d)
			} else {
				seen[k] = inline(ps[k].(M))
			}
		}
		es, _ := n["allOf"].(L)
		for _, e := range es {
			visit(e.(M))
		}
	}
	for _, f := range Keys(g.files) {
		if f != "defs.json" {
			visit(g.files[f])
		}
	}
}

// document is a document for the unit of a schema file: a variant is one of the main schema too.
func (g *set) document(u unit) M {
	props, req := M{}, map[string]bool{}
	g.all(g.files[u.path], props, req)
	isAll := false
	root := g.files[g.root]
	es, _ := root["allOf"].(L)
	for _, e := range es {
		isAll = isAll || e.(M)["$ref"] == u.path
	}
	if !isAll {
		g.all(root, props, req)
	}
	g.bare = 0
	if g.r.P(0.4) {
		g.bare = 0.6
	}
	return g.object(props, req)
}

func (g *set) object(props M, req map[string]bool) M {
	m := M{}
	for _, k := range Keys(props) {
		if req[k] || g.r.P(0.7) {
			if v := g.value(props[k].(M)); v != nil {
				m[k] = v
				if v == null {
					m[k] = nil
				}
			}
		}
	}
	if g.r.P(0.1) {
		m["undeclared"] = g.r.Pick("a", "b")
	}
	return m
}

var null = &struct{}{}

// value is a value for a schema, nil if it holds nothing and null for null.
func (g *set) value(n M) interface{} {
	r := g.r
	n = g.resolve(n)
	kind, nullable := "", false
	switch t := n["type"].(type) {
	case string:
		kind = t
	case L:
		for _, e := range t {
			if e == "null" {
				nullable = true
			} else {
				kind = e.(string)
			}
		}
	}
	if nullable && r.P(0.25) {
		return null
	}
	if r.P(g.bare) {
		switch {
		case kind == "string" && n["format"] != "date-time":
			return ""
		case kind == "number" || kind == "integer":
			return json.Number("0")
		case kind == "boolean":
			return false
		}
	}
	switch kind {
	case "string":
		if n["format"] == "date-time" {
			if !g.utc && r.P(0.2) {
				return "2024-02-29T12:00:00+02:00"
			}
			return r.Pick("2020-01-02T03:04:05Z", "1969-12-31T23:59:59.5Z", "2038-01-19T03:14:08.123456789Z", "1600-01-01T00:00:00Z", "0001-01-01T00:00:00Z")
		}
		return r.Pick("", "a", "some text", "é ü", `quote " and \`, "line\nbreak", "<b>&", "123")
	case "number":
		return json.Number(r.Pick("0", "1", "-2.5", "3.14159", "1000000", "0.1", "123456789.125"))
	case "integer":
		return json.Number(r.Pick("0", "1", "-7", "255", "70000", "9007199254740993", "-9223372036854775808"))
	case "boolean":
		return r.P(0.6)
	case "array":
		l := L{}
		items := n["items"].(M)
		for k := r.Intn(4); k > 0; k-- {
			v := g.value(items)
			for v == null {
				v = g.value(items)
			}
			if v == nil {
				return nil
			}
			l = append(l, v)
		}
		return l
	case "object":
		props, req := M{}, map[string]bool{}
		g.all(n, props, req)
		o := M{}
		for k := range props {
			if t := g.resolve(props[k].(M))["type"]; t != "graphql-hydration" {
				return g.object(props, req)
			}
		}
		for k := r.Intn(3); k > 0; k-- {
			o[r.Pick("x", "y", "Z")] = r.Pick("", "v")
		}
		return o
	}
	return nil
}

// tagDoc tags a document made by value.
func tagDoc(m M) M { return TagJSON(plainJSON(m)) }
