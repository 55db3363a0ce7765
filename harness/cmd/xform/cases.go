package main

import (
	"bufio"
	"encoding/json"
	"os"
	"strings"

	. "verif/vt"
)

// case is a schema and the inputs for it, made by the specification.
type smallCase struct {
	Root json.RawMessage   `json:"root"`
	Ins  []json.RawMessage `json:"ins"`
}

// readCases reads the cases of a file.
func readCases(path string) (cases []smallCase) {
	f, err := os.Open(path)
	Must(err)
	defer f.Close()
	s := bufio.NewScanner(f)
	s.Buffer(nil, 64<<20)
	for s.Scan() {
		var c smallCase
		Must(json.Unmarshal(s.Bytes(), &c))
		cases = append(cases, c)
	}
	Must(s.Err())
	return cases
}

// runCase runs a case of the specification.
func (g *gen) runCase(c smallCase, i int) M {
	xml := g.p.XML
	root := nodeOf(decoded(c.Root))
	schema := root.JSON(xml)
	t := M{"n": i, "xml": xml, "root": root.Spec(xml), "ident": "t", "schema": string(Render(g.r, schema))}
	tr, how := g.build(t, i, 0)
	t["made"] = how
	calls := make([]call, len(c.Ins))
	for j, in := range c.Ins {
		if xml {
			x := xnodeOf(decoded(in))
			b := &strings.Builder{}
			kids := L{}
			for _, k := range x.kids {
				k.render(g.r, b)
				kids = append(kids, k.spec())
			}
			calls[j] = call{M{"k": "doc", "kids": kids}, []byte(b.String())}
			continue
		}
		text := Render(g.r, untag(decoded(in)))
		calls[j] = call{TagJSON(text), text}
	}
	events := L{}
	if tr != nil {
		events = g.calls(tr, calls, g.p)
	}
	t["events"] = events
	return t
}

func decoded(raw json.RawMessage) M {
	v, err := Decode(raw)
	Must(err)
	m, _ := v.(M)
	return m
}

// list and object are sequences and functions of the specification, which are the same when they are empty.
func list(v interface{}) L {
	l, _ := v.(L)
	return l
}

func object(v interface{}) M {
	m, _ := v.(M)
	return m
}

// untag is the value a tagged one stands for.
func untag(m M) interface{} {
	switch m["k"] {
	case "s":
		return m["s"]
	case "n":
		return json.Number(m["n"].(string))
	case "b":
		return m["b"]
	case "a":
		a := L{}
		for _, e := range list(m["a"]) {
			a = append(a, untag(e.(M)))
		}
		return a
	case "o":
		o := M{}
		for k, e := range object(m["o"]) {
			o[k] = untag(e.(M))
		}
		return o
	}
	return nil
}

// nodeOf is the node the specification describes.
func nodeOf(m M) *Node {
	n := &Node{T: m["t"].(string), Name: m["name"].(string), Free: m["free"].(bool), Nullable: m["nullable"].(bool), Keys: M{}}
	for _, p := range list(m["props"]) {
		n.Props = append(n.Props, nodeOf(p.(M)))
	}
	for _, e := range list(m["items"]) {
		n.Items = nodeOf(e.(M))
	}
	for _, e := range list(m["tr"]) {
		t := e.(M)
		tr := &Tr{ID: t["id"].(string), Method: t["method"].(string), Delim: t["delim"].(string)}
		tr.HasOpts = tr.Delim != ""
		for _, e := range list(t["from"]) {
			f := e.(M)
			from := &From{}
			from.Rel, _ = f["rel"].(bool)
			if _, xml := f["bad"]; xml {
				from.XML = &XPath{}
			}
			for _, e := range list(f["path"]) {
				if s := e.(M); from.XML != nil {
					from.XML.Steps = append(from.XML.Steps, xstepOf(s))
				} else {
					from.Steps = append(from.Steps, stepOf(s))
				}
			}
			for _, e := range list(f["ops"]) {
				o := e.(M)
				op := &Op{Name: o["name"].(string), Args: map[string]string{}, Spec: M{}}
				for k, v := range object(o["args"]) {
					op.Args[k] = v.(string)
				}
				for k, v := range o {
					if k != "name" && k != "args" {
						op.Spec[k] = v
					}
				}
				from.Ops = append(from.Ops, op)
			}
			tr.From = append(tr.From, from)
		}
		n.Tr = append(n.Tr, tr)
	}
	for _, d := range list(m["def"]) {
		n.HasDef, n.Def = true, untag(d.(M))
	}
	for k, v := range object(m["kw"]) {
		n.Keys[k] = untag(v.(M))
	}
	for _, r := range list(m["req"]) {
		n.Req = append(n.Req, r.(string))
	}
	return n
}

// xnodeOf is the node of an XML document the specification describes, for the document the one around it.
func xnodeOf(m M) *xnode {
	if m["t"] == "t" {
		return &xnode{text: m["s"].(string)}
	}
	x := &xnode{}
	x.name, _ = m["name"].(string)
	for _, e := range list(m["attrs"]) {
		a := e.(L)
		x.attrs = append(x.attrs, [2]string{a[0].(string), a[1].(string)})
	}
	for _, e := range list(m["kids"]) {
		x.kids = append(x.kids, xnodeOf(e.(M)))
	}
	return x
}

func xstepOf(m M) XStep {
	s := XStep{Axis: m["axis"].(string), Test: m["test"].(string), Name: m["name"].(string)}
	if p := m["pred"].(M); p["t"] != "none" {
		s.Pred = p
		if p["t"] == "idx" {
			p["i"] = num(p["i"])
		}
	}
	return s
}

func num(v interface{}) int {
	n, err := v.(json.Number).Int64()
	Must(err)
	return int(n)
}

func stepOf(m M) Step {
	s := Step{T: m["t"].(string)}
	switch s.T {
	case "key", "rec":
		s.Key = m["key"].(string)
	case "idx":
		s.I = num(m["i"])
	case "keys":
		for _, k := range list(m["keys"]) {
			s.Keys = append(s.Keys, k.(string))
		}
	case "idxs":
		for _, i := range list(m["is"]) {
			s.Is = append(s.Is, num(i))
		}
	case "range":
		s.From, s.To = num(m["from"]), num(m["to"])
	case "filter":
		s.Key, s.V = m["key"].(string), untag(m["v"].(M))
	}
	return s
}
