package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path"
	"path/filepath"
	"strings"

	"github.com/GannettDigital/jstransform/generate"

	. "verif/vt"
)

// set is a set of schema files to generate code from.
type set struct {
	r     *Rand
	o     shape
	files map[string]M
	root  string
	utc   bool   // all times are in UTC
	up    string // from the file being made to the directory of the main file

	bare    float64         // of the values which are empty
	variant bool            // the file being made is a variant
	taken   map[string]bool // the names in other files
	objects int
}

// shape says what the generated schemas are like.
type shape struct {
	refs      float64 // of the nodes that refer to a definition
	odd       float64 // of the nodes no code can be generated for
	hydration float64
	names     []string
	bad       float64 // of the names which are no Go identifier
	compose   float64 // of the sets with allOf or oneOf at the root
	docs      float64
	maps      float64 // of the objects which say nothing of their properties
	children  float64 // of the files with allOf of their own
	inline    float64 // of the elements of allOf which are no reference
	nulls     float64
	depth     int
	targets   float64 // of the nodes which a resolver replaces
	clash     float64 // of the lists of properties with names that are too alike
	apart     bool    // no two files say something of the same property, except of variants
	same      float64 // of the objects which are not the only ones of their name, if apart
}

var genNames = []string{"id", "name", "url", "pubDate", "title", "count", "isLive", "tags", "author", "crops", "meta", "headLine", "value", "type", "map", "HTML", "x1", "func", "videoURL", "a_b"}

var shapeStructs = shape{refs: 0.15, odd: 0.01, hydration: 0.06, names: genNames, bad: 0.01, compose: 0.5, docs: 0.3, maps: 0.12, children: 0.3, inline: 0.1, nulls: 0.12, depth: 3, clash: 0.015}

func newSet(r *Rand, o shape) *set {
	g := &set{r: r, o: o, files: map[string]M{}}
	g.root = r.Pick("article.json", "article.json", "story.v1.json", "asset.schema.json")
	if r.P(0.6) {
		defs := M{}
		for _, d := range []string{"d1", "d2"} {
			defs[d] = g.node(1)
		}
		g.files["defs.json"] = M{"definitions": defs}
	}
	if !r.P(o.compose) {
		g.files[g.root] = g.file(true, nil)
		return g
	}
	root := M{"$schema": "http://json-schema.org/draft-04/schema#", "type": "object"}
	files := []string{"base.json", "common.json", "links.v2.json"}
	variants := []string{"image.json", "video.json", "sub/gallery.json", "poll.v3.json"}
	if n := r.Intn(3); n > 0 {
		root["allOf"] = g.refsTo(files[:n])
	}
	g.variant = true
	if n := r.Intn(4); n > 0 || root["allOf"] == nil {
		r.Shuffle(len(variants), func(i, j int) { variants[i], variants[j] = variants[j], variants[i] })
		root["oneOf"] = g.refsTo(variants[:n+1])
	}
	g.variant = false
	if r.P(0.3) && !(o.apart && root["allOf"] != nil && r.P(0.9)) {
		p := g.top(g.props(o.depth, 3))
		root["properties"] = p
		g.require(root, p)
	}
	g.files[g.root] = root
	return g
}

func (g *set) refsTo(files []string) L {
	l := L{}
	for _, f := range files {
		l = append(l, M{"$ref": f})
		var more []string
		if g.r.P(g.o.children) {
			more = []string{g.r.Pick("part.json", "extra.json")}
		}
		g.up = strings.Repeat("../", strings.Count(f, "/"))
		g.files[f] = g.file(false, more)
		g.up = ""
	}
	return l
}

// file is a schema file with fields of its own and allOf of others.
func (g *set) file(root bool, parts []string) M {
	m := M{"type": "object"}
	if !root && g.r.P(0.05) {
		m["properties"] = M{}
	} else if len(parts) == 0 || !g.r.P(0.15) {
		p := g.top(g.props(g.o.depth, 5))
		m["properties"] = p
		g.require(m, p)
	}
	if g.r.P(g.o.docs) {
		m["description"] = g.text()
	}
	all := L{}
	for _, f := range parts {
		if g.files[f] == nil {
			up, variant := g.up, g.variant
			g.up, g.variant = "", false
			g.files[f] = g.file(false, nil)
			g.up, g.variant = up, variant
		} else if g.o.apart && !g.variant {
			continue
		}
		all = append(all, M{"$ref": g.up + f})
	}
	if g.r.P(g.o.inline) && (!root || g.r.P(0.2)) {
		p := g.top(g.props(1, 2))
		e := M{"type": "object", "properties": p}
		g.require(e, p)
		all = append(all, e)
	}
	if len(all) > 0 {
		m["allOf"] = all
	}
	return m
}

// top gives properties of a file names no other file has, if that is wanted.
func (g *set) top(props M) M {
	if !g.o.apart {
		return props
	}
	if g.taken == nil {
		g.taken = map[string]bool{}
	}
	m := M{}
	for _, k := range Keys(props) {
		name := k
		if !g.variant || !g.r.P(0.3) {
			for n := 2; g.taken[name]; n++ {
				name = fmt.Sprint(k, n)
			}
		}
		if !g.variant {
			g.taken[name] = true
		}
		m[name] = props[k]
	}
	return m
}

// tell gives an object a name of its own, if that is wanted.
func (g *set) tell(k string, n M) string {
	n = g.resolve(n)
	if it, ok := n["items"].(M); ok {
		n = g.resolve(it)
	}
	if !g.o.apart || n["type"] != "object" || g.r.P(g.o.same) {
		return k
	}
	g.objects++
	return fmt.Sprint(k, "of", g.objects)
}

func (g *set) require(m, props M) {
	l := L{}
	for _, k := range Keys(props) {
		if g.r.P(0.4) {
			l = append(l, k)
		}
	}
	if len(l) > 0 {
		m["required"] = l
	}
}

func (g *set) props(depth, max int) M {
	m := M{}
	for n := 1 + g.r.Intn(max); n > 0; n-- {
		k := g.r.Pick(g.o.names...)
		if g.r.P(g.o.bad) {
			k = g.r.Pick("x-y", "1st", "a b", "a/b")
		}
		n := g.node(depth - 1)
		m[g.tell(k, n)] = n
	}
	if g.r.P(g.o.clash) {
		if g.r.P(0.3) {
			m[g.r.Pick("Id", "URL", "Tags", "htML")] = g.node(0)
		}
		obj := func(k string) M { return M{"type": "object", "properties": M{k: g.node(depth - 1)}} }
		if g.r.P(0.3) {
			m["tags"], m["totalTags"] = M{"type": "array", "items": g.node(0)}, g.node(0)
		}
		if g.r.P(0.7) {
			m["crops"] = M{"type": "object", "properties": M{"first": obj("id")}}
			m["cropsFirst"] = obj(g.r.Pick("id", "name"))
		}
	}
	return m
}

func (g *set) text() string {
	return g.r.Pick("some text", "a longer text, with a comma", "first line\nsecond line", `it is "quoted" here`, "one: two;", "ends with a dot.", "DEPRECATED: no more", "DEPRECATED: use \"id\" now\nwhat it was", "a\n\nb", `back\slash`)
}

func (g *set) node(depth int) M {
	if g.r.P(g.o.refs) && g.files["defs.json"] != nil {
		return M{"$ref": g.up + "defs.json#/definitions/" + g.r.Pick("d1", "d2")}
	}
	m := M{}
	kind := g.r.Intn(12)
	if depth <= 0 && kind < 3 {
		kind = 9
	}
	switch {
	case g.r.P(g.o.hydration):
		m["type"] = "graphql-hydration"
		m["target"] = "Thing"
	case kind < 3:
		m["type"] = "object"
		m["properties"] = M{}
		if !g.r.P(g.o.maps) {
			p := g.props(depth, 3)
			m["properties"] = p
			g.require(m, p)
		}
	case kind < 6:
		m["type"] = "array"
		m["items"] = g.node(depth - 1)
		for m["items"].(M)["type"] == "array" && !g.r.P(g.o.odd) {
			m["items"] = g.node(0)
		}
	case g.r.P(g.o.odd):
		m["type"] = L{"string", g.r.Pick("number", "object", "boolean")}
		m["properties"] = M{"a": M{"type": "string"}}
	default:
		m["type"] = g.r.Pick("string", "string", "number", "integer", "boolean")
		if m["type"] == "string" && g.r.P(0.35) {
			m["format"] = g.r.Pick("date-time", "date-time", "date-time", "uri")
		}
	}
	if m["type"] == "graphql-hydration" && g.r.P(0.5) || g.r.P(g.o.targets) {
		m["target"] = g.r.Pick("Thing", "Other")
		if g.r.P(0.4) {
			m["graphql-arguments"] = L{"limit: Int", "", "ids: [String!]!"}
			if g.r.P(0.5) {
				m["graphql-arguments"] = L{`"how many" limit: Int`}
			}
		}
	}
	if t, ok := m["type"].(string); ok && g.r.P(g.o.nulls) && t != "graphql-hydration" {
		m["type"] = L{t, "null"}
		if g.r.P(0.5) {
			m["type"] = L{"null", t}
		}
	}
	if g.r.P(g.o.docs) {
		m["description"] = g.text()
	}
	return m
}

// args are generated arguments; the output directory is left out.
func (g *set) args() generate.BuildArgs {
	r := g.r
	a := generate.BuildArgs{
		DescriptionAsStructTag: r.P(0.5),
		NoNestedStructs:        r.P(0.5),
		Pointers:               r.P(0.4),
		EmbedAllOf:             r.P(0.5),
	}
	if r.P(0.4) {
		a.StructNameMap = map[string]string{}
		for _, n := range []string{"article", "base", "image", "video", "links", "part", "story"} {
			if r.P(0.3) {
				a.StructNameMap[n] = r.Pick("My", "Some", "X", "some", "v2_") + strings.Title(n)
			}
		}
	}
	if r.P(0.5) {
		a.FieldNameMap = map[string]string{}
		for _, n := range []string{"x-y", "1st", "a b", "a/b"} {
			if r.P(0.8) {
				a.FieldNameMap[n] = "r" + strings.Map(func(c rune) rune {
					if strings.ContainsRune("-/ ", c) {
						return '_'
					}
					return c
				}, n)
			}
		}
		for _, n := range []string{"id", "name", "url", "value", "count", "isLive"} {
			if r.P(0.35) {
				a.FieldNameMap[n] = r.Pick("the", "The") + strings.Title(n)
			}
		}
	}
	return a
}

// argsOf is the form of the arguments the specification reads.
func argsOf(a generate.BuildArgs) M {
	strs := func(m map[string]string) M {
		o := M{}
		for k, v := range m {
			o[k] = v
		}
		return o
	}
	return M{"descTag": a.DescriptionAsStructTag, "noNested": a.NoNestedStructs, "pointers": a.Pointers, "embed": a.EmbedAllOf,
		"structs": strs(a.StructNameMap), "fields": strs(a.FieldNameMap), "gqlTypes": strs(a.GraphQLTypeNameMap),
		"importPath": a.ImportPath, "scalarAny": a.ScalarAny, "interfaceFiles": a.InterfaceFiles}
}

// write stores the files below a directory and returns their tagged form and their text.
func (g *set) write(dir string) (spec, text M) {
	spec, text = M{}, M{}
	for _, name := range Keys(g.files) {
		raw := Render(g.r, g.files[name])
		spec[name] = TagJSON(raw)
		text[name] = string(raw)
		p := filepath.Join(dir, name)
		Must(os.MkdirAll(filepath.Dir(p), 0o755))
		Must(os.WriteFile(p, raw, 0o644))
	}
	return spec, text
}

func plainJSON(v interface{}) []byte {
	b, err := json.Marshal(v)
	Must(err)
	return b
}

func stem(file string) string { return strings.Split(path.Base(file), ".")[0] }
