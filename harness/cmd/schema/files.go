package main

import (
	"bytes"
	"fmt"
	"net/http"
	"net/http/httptest"
	"os"
	"path"
	"path/filepath"
	"slices"
	"strings"
	"sync"

	. "verif/vt"
)

// fileGen generates a set of schema files which refer to each other.
type fileGen struct {
	r     *Rand
	o     opts
	names []string // a file refers to later ones only
	files map[string]M
	http  []string

	// where a node is: its file and the rank of the part of the file it is in; a reference within the file leads to
	// higher ranks only
	file int
	rank int

	closed bool // with limits: objects may forbid further properties, and there is no allOf, anyOf or oneOf
}

type opts struct {
	refs    float64 // of the nodes that refer
	files   int
	allOf   float64
	oneOf   float64
	depth   int
	circle  float64 // of the sets with a reference that may lead back
	missing float64 // of the sets with a reference to nothing
	limits  bool    // keywords that restrict values
	http    float64
	odd     float64 // of the objects and arrays that say nothing of what is in them, and of the union types
}

var fileNames = []string{"main.json", "a.json", "b.v1.json", "sub/c.json", "sub/d.json", "sub/deep/e.json", "f.schema.json", "sub/a.json", "A.json", "sub/main.json", "a.jsona", "sub/c.yaml", "http.json"}
var propNames = []string{"a", "b", "c", "name", "type", "items", "properties", "x y", "required", "allOf", "value", "data", "title"}

// generate fills the files, highest first so that what they offer is known.
func (g *fileGen) generate() {
	n := 1 + g.r.Intn(g.o.files)
	idx := g.r.Perm(len(fileNames) - 1)[:n-1]
	if g.closed = g.o.limits && g.r.P(0.4); g.closed {
		g.o.allOf, g.o.oneOf = 0, 0
	}
	g.names = []string{fileNames[0]}
	for _, i := range idx {
		g.names = append(g.names, fileNames[i+1])
	}
	if g.r.P(0.3) && !slices.Contains(g.names, "sub/main.json") { // the main file need not be at the top
		g.names[0] = "sub/main.json"
	}
	g.files = map[string]M{}
	if g.r.P(g.o.http) {
		g.http = append(g.http, "h")
		g.file = len(g.names)
		g.files["h"] = g.root()
	}
	for i := len(g.names) - 1; i >= 0; i-- {
		g.file = i
		g.files[g.names[i]] = g.root()
	}
}

// top parts of a file by rank: properties, items, lists, definitions
const (
	rankItems = 100
	rankLists = 200
	rankDefs  = 300
)

func (g *fileGen) root() M {
	m := M{}
	g.files[g.name()] = m
	defs := M{}
	for j := g.r.Intn(4); j >= 1; j-- {
		g.rank = rankDefs + j
		defs[fmt.Sprint("d", j)] = g.node(g.o.depth - 1)
		m["definitions"] = defs
	}
	lists := func(k string, p float64) {
		if !g.r.P(p) {
			return
		}
		g.rank = rankLists
		var l L
		for j := 1 + g.r.Intn(3); j > 0; j-- {
			l = append(l, g.element())
		}
		m[k] = l
	}
	lists("allOf", g.o.allOf)
	lists("oneOf", g.o.oneOf)
	if !g.closed {
		lists("anyOf", 0.08)
	}
	if g.r.P(0.15) || g.r.P(0.1) && m["allOf"] != nil {
		g.rank = rankItems
		m["items"] = g.node(g.o.depth - 1)
		m["type"] = "array"
	}
	if m["items"] == nil || g.r.P(0.3) {
		if !(m["allOf"] != nil || m["oneOf"] != nil) || g.r.P(0.6) {
			props := M{}
			names := g.someNames(4)
			m["properties"] = props
			for j := len(names) - 1; j >= 0; j-- {
				g.rank = j
				props[names[j]] = g.node(g.o.depth - 1)
			}
		}
		if m["items"] == nil {
			m["type"] = "object"
		}
	}
	if props, ok := m["properties"].(M); ok && g.r.P(0.3) {
		g.required(m, props)
	}
	g.extras(m, 0.5)
	if g.o.limits && m["type"] == "array" {
		delete(m, "required")
	}
	if g.r.P(0.2) {
		m["$schema"] = "http://json-schema.org/draft-04/schema#"
	}
	if g.r.P(0.15) && !g.o.limits {
		delete(m, "type")
	}
	return m
}

func (g *fileGen) name() string {
	if g.file == len(g.names) {
		return "h"
	}
	return g.names[g.file]
}

func (g *fileGen) someNames(max int) []string {
	n := 1 + g.r.Intn(max)
	p := g.r.Perm(len(propNames))[:n]
	var s []string
	for _, i := range p {
		s = append(s, propNames[i])
	}
	return s
}

func (g *fileGen) required(m, props M) {
	var l L
	for _, k := range Keys(props) {
		if g.r.P(0.5) {
			l = append(l, k)
		}
	}
	if g.r.P(0.1) {
		l = append(l, "nowhere")
	}
	if len(l) > 0 {
		m["required"] = l
	}
}

var descriptions = []string{"some text", `a "quoted" \ text`, "{ $ref: x }", "", "tab\there", "[1] #/definitions/d1", "ümlaut", "a // b <c> & d"}

// extras adds keywords most of which the package knows.
func (g *fileGen) extras(m M, p float64) {
	if g.r.P(p) {
		m["description"] = g.r.Pick(descriptions...)
	}
	if g.r.P(p * 0.4) {
		// the validator lets schemas of allOf, anyOf and oneOf know each other's properties
		m["additionalProperties"] = g.r.P(0.5) || g.o.limits && !g.closed
	}
	if g.r.P(p * 0.2) {
		m["title"] = "T"
	}
	if g.r.P(p * 0.3) {
		m["transform"] = M{"t": M{"method": "first", "from": L{M{"jsonPath": "$.a"}}}}
	}
	if g.r.P(p * 0.2) {
		m["embed"] = g.r.P(0.7)
	}
	if g.r.P(p * 0.1) {
		m["target"] = g.r.Pick("Thing", "")
	}
	if g.r.P(p * 0.1) {
		m["graphql-arguments"] = L{"limit: Int"}
	}
}

// element is an element of allOf, anyOf or oneOf.
func (g *fileGen) element() M {
	if g.r.P(0.75) {
		if m := g.ref(); m != nil {
			if g.r.P(0.2) {
				g.siblings(m, 1)
			}
			return m
		}
	}
	m := M{}
	if g.r.P(0.8) {
		m["type"] = "object"
	}
	if g.r.P(0.85) {
		props := M{}
		for _, k := range g.someNames(3) {
			props[k] = g.node(1)
		}
		m["properties"] = props
		if g.r.P(0.3) {
			g.required(m, props)
		}
	} else if g.r.P(0.5) {
		m["items"] = g.node(1)
		m["type"] = "array"
	}
	g.extras(m, 0.3)
	if len(m) == 0 {
		m["type"] = "object"
	}
	return m
}

// node is a schema within a file.
func (g *fileGen) node(depth int) M {
	if g.r.P(g.o.refs) {
		if m := g.ref(); m != nil {
			if g.r.P(0.35) {
				g.siblings(m, depth)
			}
			return m
		}
	}
	m := M{}
	kind := g.r.Intn(10)
	if depth <= 0 {
		kind = 9
	}
	switch {
	case kind < 3:
		m["type"] = "object"
		if g.r.P(g.o.odd) {
			break
		}
		props := M{}
		if !g.r.P(0.1) {
			for _, k := range g.someNames(3) {
				props[k] = g.node(depth - 1)
			}
		}
		m["properties"] = props
		if g.r.P(0.4) {
			g.required(m, props)
		}
	case kind < 5:
		m["type"] = "array"
		if g.r.P(g.o.odd) {
			break
		}
		m["items"] = g.node(depth - 1)
		if g.o.limits && g.r.P(0.3) {
			m["minItems"] = 1 + g.r.Intn(2)
		}
		if g.o.limits && g.r.P(0.3) {
			m["maxItems"] = 2 + g.r.Intn(2)
		}
	case kind < 6 && !g.closed && g.r.P(0.5):
		k := g.r.Pick("allOf", "anyOf", "oneOf")
		var l L
		for j := 1 + g.r.Intn(2); j > 0; j-- {
			l = append(l, g.node(depth-1))
		}
		m[k] = l
		if g.r.P(0.5) {
			m["type"] = "object"
			m["properties"] = M{"z": g.node(0)}
		}
	default:
		m["type"] = g.r.Pick("string", "string", "number", "integer", "boolean")
		if m["type"] == "string" && g.r.P(0.3) {
			m["format"] = g.r.Pick("date-time", "date-time", "raw")
		}
		if g.o.limits {
			g.limits(m)
		}
	}
	if t, ok := m["type"].(string); ok {
		if g.r.P(0.12) {
			m["type"] = L{t, "null"}
			if g.r.P(0.5) {
				m["type"] = L{"null", t}
			}
		} else if g.r.P(g.o.odd) {
			m["type"] = L{t, g.r.Pick("string", "object", "array")}
			if m["type"].(L)[1] == t {
				m["type"] = L{t}
			}
			for g.r.P(0.4) {
				if e := g.r.Pick("null", "string", "number", "boolean"); !slices.Contains(m["type"].(L), interface{}(e)) {
					m["type"] = append(m["type"].(L), e)
				}
			}
			if l := m["type"].(L); g.r.P(0.5) {
				g.r.Shuffle(len(l), func(i, j int) { l[i], l[j] = l[j], l[i] })
			}
		} else if g.r.P(g.o.odd * 0.5) {
			delete(m, "type")
		}
	}
	g.extras(m, 0.15)
	if len(m) == 0 {
		m["title"] = "T"
	}
	return m
}

func (g *fileGen) limits(m M) {
	switch m["type"] {
	case "string":
		if g.r.P(0.2) {
			m["minLength"] = 1 + g.r.Intn(3)
		}
		if g.r.P(0.2) {
			m["maxLength"] = 3 + g.r.Intn(4)
		}
		if g.r.P(0.2) {
			m["enum"] = L{"x", "yes", "longer text"}
			delete(m, "format")
		}
	case "number", "integer":
		if g.r.P(0.25) {
			m["minimum"] = g.r.Intn(5) - 2
		}
		if g.r.P(0.25) {
			m["maximum"] = 3 + g.r.Intn(5)
		}
		if g.r.P(0.1) {
			m["enum"] = L{1, 2, 50}
		}
	}
}

// siblings adds keys next to a reference.
func (g *fileGen) siblings(m M, depth int) {
	for j := 1 + g.r.Intn(3); j > 0; j-- {
		switch g.r.Intn(9) {
		case 0, 1:
			m["description"] = g.r.Pick(descriptions...)
		case 2:
			m["transform"] = M{"t": M{"from": L{M{"jsonPath": `$["x"]`}}}}
		case 3:
			m["properties"] = M{g.r.Pick(propNames...): g.node(depth - 1)}
		case 4:
			m["required"] = L{g.r.Pick(propNames...)}
		case 5:
			m["additionalProperties"] = g.r.P(0.5)
		case 6:
			m["default"] = []interface{}{"d", 5, true, 2.5, nil, M{"x": L{1, "y"}}, L{}, M{}}[g.r.Intn(8)]
		case 7:
			m["embed"] = true
		case 8:
			m["title"] = g.r.Pick(descriptions...)
		}
	}
}

// ref is a reference to something that exists, nil if there is nothing.
func (g *fileGen) ref() M {
	if g.file == len(g.names) {
		return nil // what is fetched is taken as it is
	}
	type at struct {
		file int
		loc  string
	}
	var cands []at
	me := g.files[g.name()]
	for _, l := range g.locations(me, true) {
		cands = append(cands, at{g.file, l})
	}
	for f := g.file + 1; f < len(g.names); f++ {
		locs := g.locations(g.files[g.names[f]], false)
		for n := 0; n < 3; n++ {
			cands = append(cands, at{f, ""})
			if len(locs) > 0 {
				cands = append(cands, at{f, locs[g.r.Intn(len(locs))]})
			}
		}
	}
	if len(g.http) > 0 {
		cands = append(cands, at{len(g.names), ""})
		for _, l := range g.locations(g.files["h"], false) {
			cands = append(cands, at{len(g.names), l})
		}
	}
	if len(cands) == 0 {
		return nil
	}
	c := cands[g.r.Intn(len(cands))]
	return M{"$ref": g.refText(c.file, c.loc)}
}

func (g *fileGen) refText(file int, loc string) string {
	frag := "#/" + loc
	if loc == "" {
		frag = g.r.Pick("", "", "#")
	} else if g.r.P(0.05) {
		frag += "/"
		frag = strings.TrimSuffix(frag, "/") // a pointer may not end that way
	}
	if file == g.file && (g.r.P(0.85) || loc == "") {
		if frag == "" {
			frag = "#"
		}
		return frag
	}
	if file == len(g.names) {
		return "http://HOST/h.json" + frag
	}
	return relative(g.names[g.file], g.names[file], g.r.P(0.2)) + frag
}

func relative(from, to string, dot bool) string {
	rel, err := filepath.Rel(path.Dir(from), to)
	Must(err)
	if dot && !strings.HasPrefix(rel, "..") {
		rel = "./" + rel
	}
	return rel
}

// locations lists the schemas within a file which a pointer without array index leads to, those of higher rank only if
// within is set.
func (g *fileGen) locations(m M, within bool) []string {
	var out []string
	var schemaAt func(v interface{}, at string)
	schemaAt = func(v interface{}, at string) {
		s, ok := v.(M)
		if !ok {
			return
		}
		out = append(out, at)
		if props, ok := s["properties"].(M); ok {
			for _, k := range Keys(props) {
				if plainKey(k) {
					schemaAt(props[k], at+"/properties/"+k)
				}
			}
		}
		if s["items"] != nil {
			schemaAt(s["items"], at+"/items")
		}
	}
	if defs, ok := m["definitions"].(M); ok {
		for _, k := range Keys(defs) {
			var j int
			fmt.Sscanf(k, "d%d", &j)
			if !within || rankDefs+j > g.rank {
				schemaAt(defs[k], "definitions/"+k)
			}
		}
	}
	if m["items"] != nil && (!within || rankItems > g.rank) {
		schemaAt(m["items"], "items")
	}
	if props, ok := m["properties"].(M); ok {
		for _, k := range Keys(props) {
			// within a file those which exist already have a higher rank
			if plainKey(k) && (!within || g.rank < rankItems) {
				schemaAt(props[k], "properties/"+k)
			}
		}
	}
	return out
}

func plainKey(k string) bool { return !strings.ContainsAny(k, " ~/%") }

// spoil turns a reference into one that leads back, or nowhere.
func (g *fileGen) spoil(missing bool) {
	type place struct {
		file int
		m    M
	}
	var refs []place
	for i, n := range g.names {
		var walk func(v interface{})
		walk = func(v interface{}) {
			switch t := v.(type) {
			case M:
				if _, ok := t["$ref"]; ok {
					refs = append(refs, place{i, t})
				}
				for _, k := range Keys(t) {
					walk(t[k])
				}
			case L:
				for _, e := range t {
					walk(e)
				}
			}
		}
		walk(g.files[n])
	}
	if len(refs) == 0 {
		return
	}
	p := refs[g.r.Intn(len(refs))]
	if missing {
		p.m["$ref"] = g.r.Pick("nofile.json", "#/definitions/none", "#/properties/none", "sub/none.json#/definitions/d1", "nodir/a.json", "../nofile.json")
		return
	}
	g.file, g.rank = p.file, -1
	to := g.r.Intn(len(g.names))
	locs := g.locations(g.files[g.names[to]], false)
	loc := ""
	if len(locs) > 0 && g.r.P(0.8) {
		loc = locs[g.r.Intn(len(locs))]
	}
	p.m["$ref"] = g.refText(to, loc)
}

var httpOnce sync.Once
var httpHost string
var httpBodies sync.Map

// serve serves the file a set has on a server and returns the host and directory it is found at.
func serve(id string, body []byte) string {
	httpOnce.Do(func() {
		s := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
			if b, ok := httpBodies.Load(strings.TrimSuffix(strings.TrimPrefix(r.URL.Path, "/"), "/h.json")); ok {
				w.Write(b.([]byte))
				return
			}
			http.NotFound(w, r)
		}))
		httpHost = strings.TrimPrefix(s.URL, "http://")
	})
	httpBodies.Store(id, body)
	return httpHost + "/" + id
}

// finish puts the address of the server into the references.
func (g *fileGen) finish(id string) {
	if len(g.http) == 0 {
		return
	}
	body := Render(g.r, g.files["h"])
	if g.r.P(0.3) { // as large as files become
		body = append(bytes.Repeat([]byte(" "), 1000+g.r.Intn(100000)), body...)
	}
	host := serve(id, body)
	var walk func(v interface{})
	walk = func(v interface{}) {
		switch t := v.(type) {
		case M:
			if s, ok := t["$ref"].(string); ok {
				t["$ref"] = strings.Replace(s, "HOST", host, 1)
			}
			for _, k := range Keys(t) {
				walk(t[k])
			}
		case L:
			for _, e := range t {
				walk(e)
			}
		}
	}
	for _, n := range g.names {
		walk(g.files[n])
	}
	g.files["http://"+host+"/h.json"] = g.files["h"]
	delete(g.files, "h")
}

// write stores the files below a directory and returns their tagged form.
func (g *fileGen) write(dir string) (spec, text M) {
	spec, text = M{}, M{}
	for _, name := range Keys(g.files) {
		f := g.files[name]
		spec[name] = Tag(number(f))
		raw := Render(g.r, f)
		text[name] = string(raw)
		if strings.HasPrefix(name, "http:") {
			continue
		}
		p := filepath.Join(dir, name)
		Must(os.MkdirAll(filepath.Dir(p), 0o755))
		Must(os.WriteFile(p, raw, 0o644))
	}
	return spec, text
}

// number makes the values those a JSON decoder returns.
func number(v interface{}) interface{} {
	o, err := Decode(plainJSON(v))
	Must(err)
	return o
}
