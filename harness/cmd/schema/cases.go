package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"github.com/GannettDigital/jstransform/jsonschema"

	. "verif/vt"
)

var casesFile = flag.String("cases", "", "cases of the specification")

// smallCase is a set of files and what is asked of them, made by the specification.
type smallCase struct {
	Files json.RawMessage `json:"files"`
	Asks  []M             `json:"asks"`
	Alone bool            `json:"alone"` // the loads may not end
}

func readCases(path string) (cases []smallCase) {
	f, err := os.Open(path)
	Must(err)
	defer f.Close()
	s := bufio.NewScanner(f)
	s.Buffer(nil, 64<<20)
	for s.Scan() {
		var c smallCase
		Must(json.Unmarshal(s.Bytes(), &c))
		cases = append(cases, c)
	}
	Must(s.Err())
	return cases
}

// runCase asks what a case of the specification asks.
func runCase(c smallCase, r *Rand, i int) M {
	tagged, err := Decode(c.Files)
	Must(err)
	g := &fileGen{r: r, files: map[string]M{}}
	for name, f := range tagged.(M) {
		g.files[name] = untag(f.(M)).(M)
	}
	dir := filepath.Join(*scratch, fmt.Sprintf("c%d", i))
	defer os.RemoveAll(dir)
	spec, text := g.write(dir)
	events := L{}
	for _, a := range c.Asks {
		name := a["file"].(string)
		file := filepath.Join(dir, name)
		e := M{}
		for k, v := range a {
			if k != "in" {
				e[k] = v
			}
		}
		if a["ev"] == "types" {
			events = append(events, typesEvent(file, name))
			continue
		}
		if a["ev"] == "fieldtype" {
			events = append(events, fieldType(Render(r, untag(a["in"].(M)))))
			continue
		}
		one, flatten := a["one"].(string), a["flatten"].(bool)
		if a["ev"] == "load" && c.Alone {
			loadAlone(e, file, one, flatten)
			events = append(events, e)
			continue
		}
		s, out, msg := loaded(file, one, flatten)
		switch a["ev"] {
		case "load":
			e["out"], e["addl"], e["msg"] = out, s != nil && s.AdditionalProperties, msg
		case "walk":
			if s == nil {
				continue
			}
			walk(e, s, a["raw"].(bool), a["fail"].(string), nil)
		case "valid":
			v, err := jsonschema.NewValidator(file)
			if s == nil || err != nil {
				e["in"], e["ok"], e["err"], e["ok2"], e["err2"], e["msg"] = a["in"], "none", msg, "none", "none", fmt.Sprint(err)
			} else {
				judge(e, s, v, Render(r, untag(a["in"].(M))))
			}
		}
		events = append(events, e)
	}
	return M{"files": spec, "text": text, "events": events}
}

// loadAlone loads in a process of its own.
func loadAlone(e M, file, one string, flatten bool) {
	res := isolate(job{File: file, One: one, Flatten: flatten})
	if !strings.HasPrefix(res, "{") {
		e["out"], e["addl"] = M{"k": strings.Fields(res)[0]}, false
		return
	}
	d := json.NewDecoder(strings.NewReader(res))
	var m M
	Must(d.Decode(&m))
	var add bool
	Must(d.Decode(&add))
	e["out"], e["addl"] = m, add
}

// object is a function of the specification, which is an empty sequence when it is empty.
func object(v interface{}) M {
	m, _ := v.(M)
	return m
}

// untag is the value a tagged one stands for.
func untag(m M) interface{} {
	switch m["k"] {
	case "s":
		return m["s"]
	case "n":
		return json.Number(m["n"].(string))
	case "b":
		return m["b"]
	case "a":
		a := L{}
		for _, e := range list(m["a"]) {
			a = append(a, untag(e.(M)))
		}
		return a
	case "o":
		o := M{}
		for k, e := range object(m["o"]) {
			o[k] = untag(e.(M))
		}
		return o
	}
	return nil
}
