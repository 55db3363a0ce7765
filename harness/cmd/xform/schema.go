package main

import (
	"strings"

	. "verif/vt"
)

// Node is a schema node, see JsonXform.tla.
type Node struct {
	T        string
	Name     string
	Free     bool
	Nullable bool
	Props    []*Node
	Items    *Node
	Tr       []*Tr
	HasDef   bool
	Def      interface{}

	// keywords only the validation looks at
	Req  []string
	Keys M
}

// Tr is the transform of a node for one identifier.
type Tr struct {
	ID      string
	Method  string
	Delim   string
	HasOpts bool
	From    []*From
}

// From is one source of a transform. XML paths are used as they are, JSON paths are rendered from their steps.
type From struct {
	Rel   bool
	Steps []Step
	XML   *XPath
	Ops   []*Op

	target *xnode // what an XML path was made from
}

// Op is an operation: its arguments as the library gets them and in the form the specification reads.
type Op struct {
	Name   string
	Args   map[string]string
	NoArgs bool // leave "args" out
	Spec   M
}

// Step is a step of a JSON path.
type Step struct {
	T    string
	Key  string
	Keys []string
	I    int
	Is   []int
	From int
	To   int
	V    interface{}
}

func key(k string) Step { return Step{T: "key", Key: k} }
func idx(i int) Step    { return Step{T: "idx", I: i} }

var wild = Step{T: "wild"}

func identifier(k string) bool {
	for i, c := range k {
		if !(c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || i > 0 && c >= '0' && c <= '9') {
			return false
		}
	}
	return k != ""
}

func quoted(k string) string { return `"` + k + `"` }

func (s Step) text() string {
	switch s.T {
	case "key":
		if identifier(s.Key) {
			return "." + s.Key
		}
		return "[" + quoted(s.Key) + "]"
	case "idx":
		return "[" + itoa(s.I) + "]"
	case "wild":
		return "[*]"
	case "keys":
		q := make([]string, len(s.Keys))
		for i := range q {
			q[i] = quoted(s.Keys[i])
		}
		return "[" + strings.Join(q, ",") + "]"
	case "idxs":
		q := make([]string, len(s.Is))
		for i := range q {
			q[i] = itoa(s.Is[i])
		}
		return "[" + strings.Join(q, ",") + "]"
	case "range":
		return "[" + itoa(s.From) + ":" + itoa(s.To) + "]"
	case "rec":
		return ".." + s.Key
	case "filter":
		return "[?(@." + s.Key + "==" + constant(s.V) + ")]"
	}
	panic(s.T)
}

func constant(v interface{}) string {
	if s, ok := v.(string); ok {
		return quoted(s)
	}
	return Tag(v)["n"].(string)
}

func (s Step) spec() M {
	m := M{"t": s.T}
	switch s.T {
	case "key", "rec":
		m["key"] = s.Key
	case "idx":
		m["i"] = s.I
	case "keys":
		m["keys"] = s.Keys
	case "idxs":
		m["is"] = s.Is
	case "range":
		m["from"], m["to"] = s.From, s.To
	case "filter":
		m["key"], m["v"] = s.Key, Tag(s.V)
	}
	return m
}

func pathText(rel bool, steps []Step) string {
	b := "$"
	if rel {
		b = "@"
	}
	for _, s := range steps {
		b += s.text()
	}
	return b
}

func specSteps(steps []Step) L {
	l := make(L, len(steps))
	for i, s := range steps {
		l[i] = s.spec()
	}
	return l
}

// JSON returns the transform as it is written in a schema.
func (t *Tr) JSON(xml bool) M {
	from := make(L, len(t.From))
	for i, f := range t.From {
		m := M{}
		if xml {
			m["xmlPath"] = f.XML.Text()
		} else {
			m["jsonPath"] = pathText(f.Rel, f.Steps)
		}
		if len(f.Ops) > 0 {
			ops := make(L, len(f.Ops))
			for j, o := range f.Ops {
				om := M{"type": o.Name}
				if !o.NoArgs {
					args := M{}
					for k, v := range o.Args {
						args[k] = v
					}
					om["args"] = args
				}
				ops[j] = om
			}
			m["operations"] = ops
		}
		from[i] = m
	}
	m := M{"from": from}
	if t.Method != "" {
		m["method"] = t.Method
	}
	if t.HasOpts {
		m["methodOptions"] = M{"concatenateDelimiter": t.Delim}
	}
	return m
}

func (t *Tr) spec(xml bool) M {
	from := make(L, len(t.From))
	for i, f := range t.From {
		ops := make(L, len(f.Ops))
		for j, o := range f.Ops {
			m := M{"name": o.Name, "args": o.Args}
			if o.Args == nil {
				m["args"] = M{}
			}
			for k, v := range o.Spec {
				m[k] = v
			}
			ops[j] = m
		}
		if xml {
			from[i] = M{"path": f.XML.Spec(), "ops": ops, "bad": f.XML.Bad != ""}
		} else {
			from[i] = M{"rel": f.Rel, "path": specSteps(f.Steps), "ops": ops}
		}
	}
	return M{"id": t.ID, "method": t.Method, "delim": t.Delim, "from": from}
}

// JSON returns the schema of the node.
func (n *Node) JSON(xml bool) M {
	m := M{}
	typ := n.T
	if typ == "date-time" {
		typ = "string"
		m["format"] = "date-time"
	}
	m["type"] = typ
	if n.Nullable {
		m["type"] = L{typ, "null"}
	}
	if n.T == "object" {
		props := M{}
		for _, p := range n.Props {
			props[p.Name] = p.JSON(xml)
		}
		m["properties"] = props
	}
	if n.Items != nil {
		m["items"] = n.Items.JSON(xml)
	}
	if len(n.Tr) > 0 {
		tr := M{}
		for _, t := range n.Tr {
			tr[t.ID] = t.JSON(xml)
		}
		m["transform"] = tr
	}
	if n.HasDef {
		m["default"] = n.Def
	}
	if len(n.Req) > 0 {
		m["required"] = strs(n.Req)
	}
	for k, v := range n.Keys {
		m[k] = v
	}
	return m
}

// Spec returns the node as the specification reads it.
func (n *Node) Spec(xml bool) M {
	m := M{"t": n.T, "name": n.Name, "free": n.Free, "nullable": n.Nullable}
	props := make(L, len(n.Props))
	for i, p := range n.Props {
		props[i] = p.Spec(xml)
	}
	m["props"] = props
	m["items"] = L{}
	if n.Items != nil {
		m["items"] = L{n.Items.Spec(xml)}
	}
	tr := make(L, len(n.Tr))
	for i, t := range n.Tr {
		tr[i] = t.spec(xml)
	}
	m["tr"] = tr
	m["def"] = L{}
	if n.HasDef {
		m["def"] = L{Tag(n.Def)}
	}
	m["req"] = strs(n.Req)
	keys := M{}
	for k, v := range n.Keys {
		keys[k] = Tag(v)
	}
	m["kw"] = keys
	return m
}

func strs(s []string) L {
	l := make(L, len(s))
	for i := range s {
		l[i] = s[i]
	}
	return l
}

// Walk calls f for the node and all below it.
func (n *Node) Walk(f func(*Node)) {
	f(n)
	for _, p := range n.Props {
		p.Walk(f)
	}
	if n.Items != nil {
		n.Items.Walk(f)
	}
}
