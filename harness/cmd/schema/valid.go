package main

import (
	"path"
	"path/filepath"
	"strings"

	"github.com/GannettDigital/jstransform/jsonschema"

	. "verif/vt"
)

// doc makes a document for a schema which is found in a file.
func (g *fileGen) doc(file string, s M, depth int) interface{} {
	if ref, ok := s["$ref"].(string); ok {
		p, frag, _ := strings.Cut(ref, "#")
		switch {
		case strings.HasPrefix(p, "http:"):
			file = p
		case p != "":
			file = path.Join(path.Dir(file), p)
		}
		var v interface{} = g.files[file]
		for _, seg := range strings.Split(strings.Trim(frag, "/"), "/") {
			if m, ok := v.(M); ok && seg != "" {
				v = m[seg]
			}
		}
		if m, ok := v.(M); ok {
			return g.doc(file, m, depth)
		}
		return nil
	}
	if e, ok := s["enum"].(L); ok {
		return number(e[g.r.Intn(len(e))])
	}
	t, _ := s["type"].(string)
	if l, ok := s["type"].(L); ok {
		t = l[g.r.Intn(len(l))].(string)
	}
	if t == "" {
		t = g.r.Pick("object", "string")
	}
	var v interface{}
	switch t {
	case "null":
	case "boolean":
		v = g.r.P(0.5)
	case "number":
		v = []float64{0, 1, 2.5, 3, -1, 50, 7}[g.r.Intn(7)]
	case "integer":
		v = []float64{0, 1, 2, 3, -1, 50, 7, 2.5}[g.r.Intn(8)]
	case "string":
		v = g.r.Pick("x", "yes", "", "abc", "abcdef", "longer text", "2020-01-02T03:04:05Z")
		if s["format"] == "date-time" {
			v = g.r.Pick("2020-01-02T03:04:05Z", "2020-01-02T03:04:05+01:00", "2020-01-02", "now", "2020-13-02T03:04:05Z")
		}
	case "array":
		l := L{}
		items, _ := s["items"].(M)
		for n := g.r.Intn(4); n > 0; n-- {
			if items != nil {
				l = append(l, g.doc(file, items, depth-1))
			} else {
				l = append(l, "x")
			}
		}
		v = l
	case "object":
		m := M{}
		if props, ok := s["properties"].(M); ok {
			for _, k := range Keys(props) {
				if g.r.P(0.85) {
					m[k] = g.doc(file, props[k].(M), depth-1)
				}
			}
		}
		for _, req := range list(s["required"]) {
			if _, ok := m[req.(string)]; !ok && g.r.P(0.7) {
				m[req.(string)] = "x"
			}
		}
		if g.r.P(0.15) {
			m["extra"] = 1.0
		}
		v = m
	}
	for _, k := range []string{"allOf", "anyOf", "oneOf"} {
		l := list(s[k])
		for n, e := range l {
			if k != "allOf" && n != 0 && !g.r.P(0.3) {
				continue
			}
			o := g.doc(file, e.(M), depth-1)
			if m, ok := v.(M); ok {
				if more, ok := o.(M); ok {
					for _, x := range Keys(more) {
						if _, ok := m[x]; !ok {
							m[x] = more[x]
						}
					}
				}
			} else if t == "" {
				v = o
			}
		}
	}
	return v
}

func list(v interface{}) L {
	l, _ := v.(L)
	return l
}

// damage changes a value somewhere.
func (g *fileGen) damage(v interface{}) interface{} {
	switch t := v.(type) {
	case M:
		if ks := Keys(t); len(ks) > 0 && g.r.P(0.85) {
			k := ks[g.r.Intn(len(ks))]
			if g.r.P(0.25) {
				delete(t, k)
			} else {
				t[k] = g.damage(t[k])
			}
			return t
		}
	case L:
		if len(t) > 0 && g.r.P(0.8) {
			i := g.r.Intn(len(t))
			t[i] = g.damage(t[i])
			return t
		}
	}
	return []interface{}{nil, "x", 1.0, 2.5, true, L{}, M{}, L{"x"}, "yes", -5.0}[g.r.Intn(10)]
}

// validations validates documents with the schema which was loaded, and with a validator of its own.
func validations(g *fileGen, s *jsonschema.Schema, file string) L {
	events := L{}
	name := ""
	for _, n := range g.names {
		if strings.HasSuffix(file, "/"+n) && len(n) > len(name) {
			name = n
		}
	}
	v, err := jsonschema.NewValidator(filepath.Clean(file))
	Must(err)
	for n := 0; n < 5; n++ {
		d := g.doc(name, g.files[name], 4)
		if n >= 2 {
			d = g.damage(d)
		}
		raw := Render(g.r, d)
		if n == 4 && g.r.P(0.2) {
			raw = []byte(g.r.Pick("", "{", "nul", `{"a":}`, "[1", `"x`))
		}
		e := M{"ev": "valid"}
		judge(e, s, v, raw)
		events = append(events, e)
	}
	return events
}

// judge validates a document in both ways.
func judge(e M, s *jsonschema.Schema, v jsonschema.Validator, raw []byte) {
	e["in"] = TagJSON(raw)
	ok, err := s.Validate(raw)
	e["ok"], e["err"] = ok, err != nil
	ok2, err2 := v.Validate(raw)
	e["ok2"], e["err2"] = ok2, err2 != nil
	if err != nil {
		e["msg"] = err.Error()
	}
}
