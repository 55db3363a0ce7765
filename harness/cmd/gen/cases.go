package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"

	"github.com/GannettDigital/jstransform/generate"

	. "verif/vt"
)

var casesFile = flag.String("cases", "", "cases of the specification")

// smallCase is a set of files and what is asked of them, made by the specification.
type smallCase struct {
	Files json.RawMessage `json:"files"`
	Asks  []struct {
		Ev, Root, Pkg string
		Args          M
		Fn            string
		In            json.RawMessage
	} `json:"asks"`
}

func readCases(path string) (cases []smallCase) {
	f, err := os.Open(path)
	Must(err)
	defer f.Close()
	s := bufio.NewScanner(f)
	s.Buffer(nil, 64<<20)
	for s.Scan() {
		var c smallCase
		Must(json.Unmarshal(s.Bytes(), &c))
		cases = append(cases, c)
	}
	Must(s.Err())
	return cases
}

// runCase generates what a case of the specification asks for.
func runCase(c smallCase, r *Rand, i int) M {
	if c.Files == nil {
		events := L{}
		for _, q := range c.Asks {
			events = append(events, timesOf(q.Fn, q.In))
		}
		return M{"files": M{}, "events": events}
	}
	tagged, err := Decode(c.Files)
	Must(err)
	g := &set{r: r, files: map[string]M{}}
	for name, f := range tagged.(M) {
		g.files[name] = untag(f.(M)).(M)
	}
	dir := filepath.Join(*scratch, fmt.Sprintf("c%d", i))
	defer os.RemoveAll(dir)
	spec, text := g.write(filepath.Join(dir, "in"))
	events := L{}
	for n, q := range c.Asks {
		b := func(k string) bool { return q.Args[k].(bool) }
		names := func(k string) map[string]string {
			m, ok := q.Args[k].(M)
			if !ok {
				return nil
			}
			s := map[string]string{}
			for k, v := range m {
				s[k] = v.(string)
			}
			return s
		}
		a := generate.BuildArgs{DescriptionAsStructTag: b("descTag"), NoNestedStructs: b("noNested"), Pointers: b("pointers"), EmbedAllOf: b("embed"),
			StructNameMap: names("structs"), FieldNameMap: names("fields"), GraphQLTypeNameMap: names("gqlTypes"),
			ImportPath: q.Args["importPath"].(string), ScalarAny: b("scalarAny"), InterfaceFiles: b("interfaceFiles")}
		a.SchemaPath = filepath.Join(dir, "in", q.Root)
		a.OutputDir = filepath.Join(dir, fmt.Sprint(n), q.Pkg)
		Must(os.MkdirAll(a.OutputDir, 0o755))
		events = append(events, generated(q.Ev, q.Root, q.Pkg, a))
	}
	return M{"files": spec, "text": text, "events": events}
}

// untag is the value a tagged one stands for.
func untag(m M) interface{} {
	switch m["k"] {
	case "s":
		return m["s"]
	case "n":
		return json.Number(m["n"].(string))
	case "b":
		return m["b"]
	case "a":
		a, l := L{}, L{}
		l, _ = m["a"].(L)
		for _, e := range l {
			a = append(a, untag(e.(M)))
		}
		return a
	case "o":
		o := M{}
		fields, _ := m["o"].(M)
		for k, e := range fields {
			o[k] = untag(e.(M))
		}
		return o
	}
	return nil
}
