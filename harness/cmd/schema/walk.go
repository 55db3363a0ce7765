package main

import (
	"encoding/json"
	"errors"

	"github.com/GannettDigital/jstransform/jsonschema"

	. "verif/vt"
)

// walks walks a schema in both ways, with and without a failing callback.
func walks(g *fileGen, s *jsonschema.Schema, _ string) L {
	events := L{}
	var paths []string
	for k := 0; k < 4; k++ {
		raw := k%2 == 1
		fail := ""
		if k >= 2 && len(paths) > 0 {
			fail = paths[g.r.Intn(len(paths))]
		}
		e := M{"ev": "walk", "raw": raw, "fail": fail}
		walk(e, s, raw, fail, func(path string) {
			if k < 2 {
				paths = append(paths, path)
			}
		})
		events = append(events, e)
	}
	return events
}

// walk walks a schema, failing at a path.
func walk(e M, s *jsonschema.Schema, raw bool, fail string, seen func(path string)) {
	visits := L{}
	visit := func(path string, v M) error {
		visits = append(visits, M{"path": path, "v": v})
		if seen != nil {
			seen(path)
		}
		if path == fail {
			return errors.New("the callback's error")
		}
		return nil
	}
	var err error
	if raw {
		err = jsonschema.WalkRaw(s, func(path string, v json.RawMessage) error { return visit(path, TagJSON(v)) })
	} else {
		err = jsonschema.Walk(s, func(path string, i jsonschema.Instance) error {
			b, err := json.Marshal(i)
			Must(err)
			return visit(path, TagJSON(b))
		})
	}
	e["visits"], e["err"] = visits, err != nil
}

// fieldTypes asks for the type of fields.
func fieldTypes(r *Rand, i int) M {
	events := L{}
	name := func() interface{} {
		return r.Pick("string", "object", "array", "number", "integer", "boolean", "null", "null", "date", "x")
	}
	for n := 0; n < 10; n++ {
		m := M{}
		for _, k := range []string{"format", "properties", "items", "description", "Type", "typ"} {
			if r.P(0.3) {
				m[k] = []interface{}{"type", M{"type": "string"}, L{"type"}, nil, 5}[r.Intn(5)]
			}
		}
		switch r.Intn(8) {
		case 0, 1:
			m["type"] = name()
		case 2, 3, 4:
			l := L{}
			for j := r.Intn(4); j > 0; j-- {
				l = append(l, name())
			}
			if r.P(0.2) {
				l = append(l, []interface{}{nil, 5, M{"type": "null"}, L{"null"}, true}[r.Intn(5)])
				r.Shuffle(len(l), func(a, b int) { l[a], l[b] = l[b], l[a] })
			}
			m["type"] = l
		case 5:
			m["type"] = []interface{}{nil, 5, true, M{"type": "string"}}[r.Intn(4)]
		case 6:
			m["type"] = L{"null", name()}
		}
		events = append(events, fieldType(Render(r, m)))
	}
	return M{"events": events}
}

func fieldType(raw []byte) M {
	t, nullable, err := jsonschema.FieldType(raw)
	return M{"ev": "fieldtype", "in": TagJSON(raw), "type": t, "nullable": nullable, "err": err != nil}
}
