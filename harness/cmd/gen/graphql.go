package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strconv"
	"strings"

	"github.com/GannettDigital/jstransform/generate"

	. "verif/vt"
)

var shapeGraphQL = shape{refs: 0.1, odd: 0.003, hydration: 0.12, names: genNames, compose: 0.65, docs: 0.3, maps: 0.1, children: 0.25, nulls: 0.15, depth: 3, targets: 0.08, clash: 0.004}

func graphqlTrace(r *Rand, i int) M {
	g := newSet(r, shapeGraphQL)
	dir := filepath.Join(*scratch, fmt.Sprintf("g%d", i))
	defer os.RemoveAll(dir)
	spec, text := g.write(filepath.Join(dir, "in"))
	events := L{}
	for n := 0; n < 3; n++ {
		a := g.args()
		pkg := r.Pick("article", "models", "story", "asset")
		a.NoNestedStructs = true
		a.GenerateGraphQL = true
		a.ImportPath = r.Pick("example.com/a/b", "x")
		a.ScalarAny = r.P(0.3)
		a.InterfaceFiles = r.P(0.3)
		a.SchemaPath = filepath.Join(dir, "in", g.root)
		a.OutputDir = filepath.Join(dir, fmt.Sprint(n), pkg)
		if r.P(0.4) {
			a.GraphQLTypeNameMap = map[string]string{}
			for _, n := range []string{"article", "models", "base", "image", "video", "story", "ArticleCrops", "ImageMeta", "BaseCrops", "BaseMeta"} {
				if r.P(0.3) {
					a.GraphQLTypeNameMap[n] = "Q" + strings.Title(n)
				}
			}
		}
		Must(os.MkdirAll(a.OutputDir, 0o755))
		if r.P(0.5) {
			a.OutputDirGraphQL = filepath.Join(dir, fmt.Sprint("q", n))
			Must(os.MkdirAll(a.OutputDirGraphQL, 0o755))
		}
		events = append(events, generated("graphql", g.root, pkg, a))
	}
	return M{"files": spec, "text": text, "events": events}
}

func parseGraphQLDir(a generate.BuildArgs) M {
	dir := a.OutputDir
	if a.OutputDirGraphQL != "" {
		dir = a.OutputDirGraphQL
	}
	files := M{}
	es, err := os.ReadDir(dir)
	Must(err)
	for _, d := range es {
		if strings.HasSuffix(d.Name(), ".graphqls") || dir != a.OutputDir {
			raw, err := os.ReadFile(filepath.Join(dir, d.Name()))
			Must(err)
			files[d.Name()] = parseGraphQL(string(raw))
		}
	}
	return files
}

// gtok is a token of a GraphQL document; strings begin with a quote and hold their value.
type gparser struct {
	toks []string
	pos  int
}

type gbad string

func parseGraphQL(src string) (m M) {
	defer func() {
		if r := recover(); r != nil {
			b, ok := r.(gbad)
			if !ok {
				panic(r)
			}
			m = M{"bad": string(b), "src": src}
		}
	}()
	p := &gparser{toks: gtokens(src)}
	m = M{"generated": strings.HasPrefix(src, "# // Code generated by ") && strings.Contains(strings.SplitN(src, "\n", 2)[0], "DO NOT EDIT"), "any": false, "types": L{}}
	for p.pos < len(p.toks) {
		doc := p.doc()
		kind := p.next()
		if kind == "scalar" {
			if p.next() != "Any" || doc != "" || m["any"] == true || len(m["types"].(L)) > 0 {
				panic(gbad("scalar"))
			}
			m["any"] = true
			continue
		}
		if kind != "type" && kind != "interface" {
			panic(gbad("definition of " + kind))
		}
		t := M{"kind": kind, "name": p.name(), "implements": "", "model": "", "doc": doc, "fields": L{}}
		if p.is("implements") {
			t["implements"] = p.name()
		}
		if p.is("@") {
			p.need("goModel")
			p.need("(")
			p.need("model")
			p.need(":")
			t["model"] = strings.TrimPrefix(p.next(), `"`)
			p.need(")")
		}
		p.need("{")
		for !p.is("}") {
			f := M{"doc": p.doc(), "name": p.name(), "args": L{}, "dirs": L{}}
			if p.is("(") {
				for !p.is(")") {
					p.doc()
					a := p.name()
					p.need(":")
					f["args"] = append(f["args"].(L), a+":"+p.typ())
				}
				if len(f["args"].(L)) == 0 {
					panic(gbad("no arguments"))
				}
			}
			p.need(":")
			f["type"] = p.typ()
			for p.is("@") {
				switch d := p.next(); d {
				case "goField":
					for _, s := range []string{"(", "forceResolver", ":", "true", ")"} {
						p.need(s)
					}
					f["dirs"] = append(f["dirs"].(L), d)
				case "deprecated":
					p.need("(")
					p.need("reason")
					p.need(":")
					f["dirs"] = append(f["dirs"].(L), d+":"+strings.TrimPrefix(p.next(), `"`))
					p.need(")")
				default:
					panic(gbad("directive " + d))
				}
			}
			t["fields"] = append(t["fields"].(L), f)
		}
		m["types"] = append(m["types"].(L), t)
	}
	return m
}

func (p *gparser) next() string {
	if p.pos >= len(p.toks) {
		panic(gbad("end"))
	}
	p.pos++
	return p.toks[p.pos-1]
}

func (p *gparser) is(s string) bool {
	if p.pos < len(p.toks) && p.toks[p.pos] == s {
		p.pos++
		return true
	}
	return false
}

func (p *gparser) need(s string) {
	if got := p.next(); got != s {
		panic(gbad("want " + s + " got " + got))
	}
}

func (p *gparser) doc() string {
	if p.pos < len(p.toks) && strings.HasPrefix(p.toks[p.pos], `"`) {
		p.pos++
		return p.toks[p.pos-1][1:]
	}
	return ""
}

func (p *gparser) name() string {
	s := p.next()
	for i, c := range s {
		if !(c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || i > 0 && c >= '0' && c <= '9') {
			panic(gbad("name " + s))
		}
	}
	return s
}

func (p *gparser) typ() string {
	s := ""
	if p.is("[") {
		s = "[" + p.typ() + "]"
		p.need("]")
	} else {
		s = p.name()
	}
	if p.is("!") {
		s += "!"
	}
	return s
}

func gtokens(src string) []string {
	var toks []string
	for i := 0; i < len(src); {
		c := src[i]
		switch {
		case c == ' ' || c == '\n' || c == '\t' || c == '\r' || c == ',':
			i++
		case c == '#':
			for i < len(src) && src[i] != '\n' {
				i++
			}
		case strings.HasPrefix(src[i:], `"""`):
			end := strings.Index(src[i+3:], `"""`)
			if end < 0 {
				panic(gbad("block string"))
			}
			toks = append(toks, `"`+block(src[i+3:i+3+end]))
			i += end + 6
		case c == '"':
			j := i + 1
			for j < len(src) && src[j] != '"' && src[j] != '\n' {
				if src[j] == '\\' {
					j++
				}
				j++
			}
			if j >= len(src) || src[j] != '"' {
				panic(gbad("string"))
			}
			s, err := strconv.Unquote(src[i : j+1])
			if err != nil {
				panic(gbad("string " + src[i:j+1]))
			}
			toks = append(toks, `"`+s)
			i = j + 1
		case strings.IndexByte("!()[]{}:@=|&", c) >= 0:
			toks = append(toks, string(c))
			i++
		default:
			j := i
			for j < len(src) && (src[j] == '_' || src[j] >= '0' && src[j] <= '9' || src[j] >= 'a' && src[j] <= 'z' || src[j] >= 'A' && src[j] <= 'Z') {
				j++
			}
			if j == i {
				panic(gbad("character " + string(c)))
			}
			toks = append(toks, src[i:j])
			i = j
		}
	}
	return toks
}

// block is the value of a block string: common indentation and blank first and last lines are left out.
func block(s string) string {
	lines := strings.Split(s, "\n")
	indent := -1
	for _, l := range lines[1:] {
		if n := len(l) - len(strings.TrimLeft(l, " \t")); n < len(l) && (indent < 0 || n < indent) {
			indent = n
		}
	}
	for i, l := range lines {
		if i > 0 && indent > 0 {
			if len(l) >= indent {
				lines[i] = l[indent:]
			} else {
				lines[i] = ""
			}
		}
	}
	for len(lines) > 0 && strings.TrimSpace(lines[0]) == "" {
		lines = lines[1:]
	}
	for len(lines) > 0 && strings.TrimSpace(lines[len(lines)-1]) == "" {
		lines = lines[:len(lines)-1]
	}
	return strings.Join(lines, "\n")
}
