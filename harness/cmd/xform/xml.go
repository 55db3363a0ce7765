package main

import (
	"strings"

	. "verif/vt"
)

// xnode is an element or, without a name, text.
type xnode struct {
	name  string
	attrs [][2]string
	kids  []*xnode
	text  string
}

// names of elements by depth, so that no element is inside one of its name
var xnames = [][]string{{"r"}, {"item", "meta", "list", "b"}, {"title", "p", "ref", "tags", "x1"}, {"x", "y", "z"}}
var xattrs = []string{"id", "n", "kind"}

func (g *gen) xtext() string {
	if g.r.P(0.15) {
		return g.r.Pick(" padded ", "a & b", "1 < 2", "two words", "Élan ñ")
	}
	s := g.str()
	if s == "" && g.r.P(0.7) {
		s = "v"
	}
	return s
}

func (g *gen) xelement(depth int) *xnode {
	r := g.r
	e := &xnode{name: r.Pick(xnames[depth]...)}
	for _, a := range xattrs {
		if r.P(0.25) {
			e.attrs = append(e.attrs, [2]string{a, g.xtext()})
		}
	}
	n := r.Intn(5)
	if depth == 0 {
		n = r.Intn(5) + 3
	}
	if depth+1 >= len(xnames) || depth > 0 && r.P(0.3) {
		n = 0
	}
	if n == 0 {
		if !r.P(0.1) {
			if s := g.xtext(); s != "" {
				e.kids = append(e.kids, &xnode{text: s})
			}
		}
		return e
	}
	for i := 0; i < n; i++ {
		if r.P(0.1) && (i == 0 || e.kids[len(e.kids)-1].name != "") {
			if s := g.xtext(); strings.TrimSpace(s) != "" {
				e.kids = append(e.kids, &xnode{text: s})
			}
		}
		k := g.xelement(depth + 1)
		e.kids = append(e.kids, k)
		if depth > 0 && r.P(0.35) { // a run of the same element
			for j := 0; j < r.Intn(3); j++ {
				c := g.xelement(depth + 1)
				c.name = k.name
				e.kids = append(e.kids, c)
			}
		}
	}
	return e
}

func (x *xnode) copy() *xnode {
	c := *x
	c.attrs = append([][2]string{}, x.attrs...)
	c.kids = nil
	for _, k := range x.kids {
		c.kids = append(c.kids, k.copy())
	}
	return &c
}

func (x *xnode) all() []*xnode {
	l := []*xnode{x}
	for _, k := range x.kids {
		l = append(l, k.all()...)
	}
	return l
}

func escape(s string) string {
	return strings.NewReplacer("&", "&amp;", "<", "&lt;", ">", "&gt;", `"`, "&quot;").Replace(s)
}

func (x *xnode) render(r *Rand, b *strings.Builder) {
	if x.name == "" {
		if r.P(0.15) && !strings.Contains(x.text, "]]>") {
			b.WriteString("<![CDATA[" + x.text + "]]>")
			return
		}
		b.WriteString(escape(x.text))
		return
	}
	b.WriteString("<" + x.name)
	for _, a := range x.attrs {
		b.WriteString(" " + a[0] + `="` + escape(a[1]) + `"`)
	}
	if len(x.kids) == 0 && r.P(0.5) {
		b.WriteString("/>")
		return
	}
	b.WriteString(">")
	for _, k := range x.kids {
		k.render(r, b)
	}
	b.WriteString("</" + x.name + ">")
}

func (x *xnode) spec() M {
	if x.name == "" {
		return M{"t": "t", "s": x.text}
	}
	kids, attrs := L{}, L{}
	for _, k := range x.kids {
		kids = append(kids, k.spec())
	}
	for _, a := range x.attrs {
		attrs = append(attrs, L{a[0], a[1]})
	}
	return M{"t": "e", "name": x.name, "attrs": attrs, "kids": kids}
}

// XPath is the path of an XML source.
type XPath struct {
	Steps []XStep
	Bad   string // an invalid path
}

// XStep is a step of an XPath.
type XStep struct {
	Axis, Test, Name string
	Pred             M
}

// Text returns the path as it is written in a schema.
func (x *XPath) Text() string {
	if x.Bad != "" {
		return x.Bad
	}
	b := ""
	for i, s := range x.Steps {
		switch {
		case s.Axis == "desc":
			b += "//"
		case s.Axis == "root" || i > 0:
			b += "/"
		}
		switch s.Test {
		case "name":
			b += s.Name
		case "any":
			b += "*"
		case "attr":
			b += "@" + s.Name
		case "text":
			b += "text()"
		case "self":
			b += "."
		}
		switch s.Pred["t"] {
		case "idx":
			b += "[" + itoa(s.Pred["i"].(int)) + "]"
		case "attr":
			b += "[@" + s.Pred["name"].(string) + "]"
		case "attreq":
			b += "[@" + s.Pred["name"].(string) + "='" + s.Pred["s"].(string) + "']"
		case "child":
			b += "[" + s.Pred["name"].(string) + "]"
		case "childeq":
			b += "[" + s.Pred["name"].(string) + "='" + s.Pred["s"].(string) + "']"
		}
	}
	return b
}

// Spec returns the path as the specification reads it.
func (x *XPath) Spec() L {
	l := L{}
	for _, s := range x.Steps {
		p := s.Pred
		if p == nil {
			p = M{"t": "none"}
		}
		l = append(l, M{"axis": s.Axis, "test": s.Test, "name": s.Name, "pred": p})
	}
	return l
}

// xctx is an example of the context a node is transformed in.
type xctx struct {
	node *xnode // element, the document's if it is the pseudo node around the root element
}

func (x *xnode) elems() []*xnode {
	var l []*xnode
	for _, k := range x.kids {
		if k.name != "" {
			l = append(l, k)
		}
	}
	return l
}

func (x *xnode) inner() string {
	if x.name == "" && x.kids == nil {
		return x.text
	}
	s := ""
	for _, k := range x.kids {
		s += k.inner()
	}
	return s
}

// xpath walks from the context to an element and returns the path and the element.
func (g *gen) xpath(c *xctx, kind string) (*XPath, *xnode) {
	r := g.r
	cur := c.node
	p := &XPath{}
	if r.P(g.p.Fail / 400) {
		p.Bad = r.Pick("/r/b[", "b[[1]", "/r[", "//")
		return p, nil
	}
	if r.P(g.p.Fail / 400) {
		return p, nil
	}
	isDoc := cur == g.xdoc
	if !isDoc && r.P(0.12) && kind != "array" && kind != "object" {
		p.Steps = append(p.Steps, XStep{Axis: "child", Test: "self"})
		return p, cur
	}
	for len(cur.elems()) > 0 {
		es := cur.elems()
		k := es[r.Intn(len(es))]
		s := XStep{Axis: "child", Test: "name", Name: k.name}
		if len(p.Steps) == 0 && (isDoc && r.P(0.85) || r.P(0.1)) {
			s.Axis = "root"
		}
		jump := 0
		if len(p.Steps) == 0 && r.P(g.p.Wide) {
			// skip levels
			s.Axis = "desc"
			for len(k.elems()) > 0 && r.P(0.6) {
				es := k.elems()
				k = es[r.Intn(len(es))]
				jump++
			}
			s.Name = k.name
		}
		if r.P(g.p.Wide/5) && s.Axis != "desc" {
			s.Test, s.Name = "any", ""
		}
		if r.P(0.25) {
			g.predicate(&s, cur, k)
		}
		if r.P(g.p.Missing) && s.Test == "name" {
			s.Name = "nope"
		}
		p.Steps = append(p.Steps, s)
		cur = k
		stop := 0.25
		if kind == "leaf" && len(cur.elems()) > 0 {
			stop = 0.04
		}
		if kind == "leaf" && len(cur.elems()) == 0 || kind != "leaf" && len(cur.elems()) > 0 && cur.name != "r" {
			stop = 0.75
		}
		if r.P(stop) {
			break
		}
	}
	if len(p.Steps) == 0 {
		p.Steps = append(p.Steps, XStep{Axis: "child", Test: "name", Name: r.Pick(xnames[3]...)})
	}
	if kind == "leaf" || r.P(0.05) {
		switch {
		case len(cur.attrs) > 0 && r.P(0.5):
			p.Steps = append(p.Steps, XStep{Axis: "child", Test: "attr", Name: cur.attrs[r.Intn(len(cur.attrs))][0]})
		case r.P(0.05):
			p.Steps = append(p.Steps, XStep{Axis: "child", Test: "attr", Name: "id"})
		case r.P(0.1):
			p.Steps = append(p.Steps, XStep{Axis: "child", Test: "text"})
		}
	}
	return p, cur
}

// matches counts the nodes a path selects in the example, simple if it is one without elements.
func (x *XPath) matches(doc, from *xnode) (n int, simple bool) {
	cur := []*xnode{from}
	for _, s := range x.Steps {
		var next []*xnode
		var visit func(c *xnode, deep bool)
		visit = func(c *xnode, deep bool) {
			i := 0
			for _, k := range c.kids {
				if s.Test == "text" && k.name == "" || k.name != "" && (s.Test == "any" || s.Test == "name" && s.Name == k.name) {
					i++
					ok := true
					switch s.Pred["t"] {
					case "idx":
						ok = s.Pred["i"].(int) == i
					case "attr", "attreq":
						ok = false
						for _, a := range k.attrs {
							ok = ok || a[0] == s.Pred["name"] && (s.Pred["t"] == "attr" || a[1] == s.Pred["s"])
						}
					case "child", "childeq":
						ok = false
						for _, e := range k.elems() {
							ok = ok || e.name == s.Pred["name"] && (s.Pred["t"] == "child" || e.inner() == s.Pred["s"])
						}
					}
					if ok {
						next = append(next, k)
					}
				}
				if deep {
					visit(k, true)
				}
			}
		}
		for _, c := range cur {
			switch {
			case s.Test == "self":
				next = append(next, c)
			case s.Test == "attr":
				for _, a := range c.attrs {
					if a[0] == s.Name {
						next = append(next, &xnode{text: a[1]})
					}
				}
			default:
				visit(c, s.Axis == "desc")
			}
		}
		cur = next
	}
	return len(cur), len(cur) == 1 && len(cur[0].elems()) == 0
}

func (g *gen) predicate(s *XStep, parent, k *xnode) {
	r := g.r
	plain := func(t string) bool { return t != "" && !strings.ContainsAny(t, `'"&<>`) }
	switch r.Intn(4) {
	case 0:
		if s.Axis != "desc" {
			s.Pred = M{"t": "idx", "i": r.Intn(3) + 1}
		}
	case 1:
		if len(k.attrs) > 0 {
			a := k.attrs[r.Intn(len(k.attrs))]
			s.Pred = M{"t": "attr", "name": a[0]}
			if plain(a[1]) && r.P(0.6) {
				s.Pred = M{"t": "attreq", "name": a[0], "s": a[1]}
			}
		}
	default:
		if es := k.elems(); len(es) > 0 {
			e := es[r.Intn(len(es))]
			s.Pred = M{"t": "child", "name": e.name}
			if plain(e.inner()) && r.P(0.6) {
				s.Pred = M{"t": "childeq", "name": e.name, "s": e.inner()}
			}
		}
	}
}

func (g *gen) xmlFrom(n *Node, c ctx) *From {
	r := g.r
	kind := "leaf"
	if n.T == "array" || n.T == "object" {
		kind = n.T
	}
	if r.P(0.05) {
		kind = r.Pick("leaf", "array")
	}
	useOps := r.P(g.p.Ops) && n.T != "object" && (n.T == "string" || n.T == "array" || r.P(0.3))
	p, at := g.xpath(c.xml, kind)
	for try := 0; try < 10 && p.Bad == "" && at != nil; try++ {
		n, simple := p.matches(g.xdoc, c.xml.node)
		good := simple || kind == "leaf" && !useOps && n > 0
		switch {
		case useOps:
		case kind == "object":
			good = n > 0 && !simple
		case kind == "array":
			good = n > 1 || n == 1 && r.P(0.2)
		}
		if good || r.P(g.p.Fail/3) {
			break
		}
		p, at = g.xpath(c.xml, kind)
	}
	f := &From{XML: p}
	if p.Bad == "" && at != nil && useOps {
		var sample interface{}
		f.Ops, sample = g.opChain(n.T, "text")
		if _, simple := p.matches(g.xdoc, c.xml.node); !simple && (n.T != "string" || f.Ops[0].Name == "split") && !r.P(g.p.Fail) {
			f.Ops, sample = nil, nil
		}
		if s, ok := sample.(string); ok && !strings.Contains(s, "\r") && len(at.elems()) == 0 && r.P(0.9) {
			if last := p.Steps[len(p.Steps)-1]; last.Test == "attr" {
				for i := range at.attrs {
					if at.attrs[i][0] == last.Name {
						at.attrs[i][1] = s
					}
				}
			} else if at != g.xdoc {
				at.kids = nil
				if s != "" {
					at.kids = []*xnode{{text: s}}
				}
			}
		}
	}
	if len(f.Ops) > 0 && f.Ops[0].Name == "max" {
		f.Ops = nil
	}
	f.target = at
	return f
}

func (g *gen) xmlNode(name string, c ctx, depth int) *Node {
	r := g.r
	n := &Node{Name: name, Nullable: r.P(0.05)}
	n.T = r.Pick("string", "string", "number", "integer", "boolean", "date-time", "array", "array", "object", "object")
	if r.P(g.p.Objects) && depth > 2 {
		n.T = "object"
	}
	if depth <= 0 && (n.T == "array" || n.T == "object") {
		n.T = "string"
	}
	switch n.T {
	case "object":
		if r.P(0.65) && (len(c.xml.node.elems()) > 0 || r.P(0.1)) {
			g.transforms(n, c, 1)
		}
		in := c
		if len(n.Tr) > 0 && n.Tr[0].ID == "t" && len(n.Tr[0].From) > 0 && n.Tr[0].From[0].target != nil {
			in.xml = &xctx{n.Tr[0].From[0].target}
			g.targets = append(g.targets, in.xml.node)
			if r.P(0.3) {
				in.xml = c.xml // would be found outside of the object
			}
		}
		for i, k := 0, r.Intn(4)+1; i < k; i++ {
			g.addXML(n, in, depth)
		}
		if r.P(0.02) {
			n.Props, n.Free = nil, true
		}
		g.objectDefault(n)
	case "array":
		g.transforms(n, c, 0.9)
		in := c
		if len(n.Tr) > 0 && n.Tr[0].ID == "t" && len(n.Tr[0].From) > 0 && n.Tr[0].From[0].target != nil {
			in.xml = &xctx{n.Tr[0].From[0].target}
		}
		n.Items = g.xmlNode("", in, depth-1)
		if r.P(g.p.Def) {
			n.HasDef, n.Def = true, g.list(1)
		}
	default:
		g.transforms(n, c, 0.85)
		if r.P(g.p.Def) {
			n.HasDef, n.Def = true, g.scalarDefault(n.T)
		}
	}
	if g.p.Validate {
		g.keywords(n)
	}
	return n
}

func (g *gen) addXML(n *Node, c ctx, depth int) {
	name := g.name()
	for _, p := range n.Props {
		if p.Name == name {
			return
		}
	}
	n.Props = append(n.Props, g.xmlNode(name, c, depth-1))
}

func (g *gen) xmutate(doc *xnode) *xnode {
	r := g.r
	var gone []int // what an object was selected from
	for i, x := range doc.all() {
		for _, t := range g.targets {
			if x == t && r.P(0.25) {
				gone = append(gone, i)
			}
		}
	}
	doc = doc.copy()
	nodes := doc.all()
	for _, i := range gone {
		if nodes[i].name != "" && nodes[i] != doc.kids[0] {
			nodes[i].name = r.Pick("gone", "item", "x")
		}
	}
	if r.P(0.3) {
		for _, x := range nodes[2:] {
			if x.name != "" && r.P(0.3) {
				x.name = "gone"
			}
		}
	}
	for i := 0; i < r.Intn(g.p.Mutate+1)+1; i++ {
		all := doc.all()
		x := all[r.Intn(len(all))]
		switch {
		case x.name == "":
			if x != doc {
				if t := g.xtext(); strings.TrimSpace(t) != "" {
					x.text = t
				}
			}
		case r.P(0.3) && len(x.attrs) > 0:
			j := r.Intn(len(x.attrs))
			if r.P(0.3) {
				x.attrs = append(x.attrs[:j], x.attrs[j+1:]...)
			} else {
				x.attrs[j][1] = g.xtext()
			}
		case len(x.elems()) > 0:
			j := r.Intn(len(x.kids))
			if x.kids[j].name == "" {
				continue
			}
			if r.P(0.5) {
				x.kids = append(x.kids[:j], x.kids[j+1:]...)
				// text on both sides would become one node
				if j > 0 && j < len(x.kids) && x.kids[j-1].name == "" && x.kids[j].name == "" {
					x.kids = append(x.kids[:j], x.kids[j+1:]...)
				}
			} else {
				x.kids = append(x.kids, x.kids[j].copy())
			}
		default:
			x.kids = nil
			if t := g.xtext(); t != "" {
				x.kids = []*xnode{{text: t}}
			}
		}
	}
	return doc
}

type xinput struct {
	spec M
	text string
}

func (g *gen) xinput(doc *xnode) xinput {
	r := g.r
	var b strings.Builder
	if r.P(0.5) {
		b.WriteString(`<?xml version="1.0" encoding="UTF-8"?>`)
	}
	if r.P(0.2) {
		b.WriteString("<!-- comment <r/> -->")
	}
	kids := L{}
	for _, k := range doc.kids {
		k.render(r, &b)
		kids = append(kids, k.spec())
	}
	return xinput{M{"k": "doc", "kids": kids}, b.String()}
}

func (g *gen) runXML(i int) M {
	r := g.r
	p := g.p
	g.xdoc = &xnode{kids: []*xnode{g.xelement(0)}}
	c := ctx{plain: true, xml: &xctx{g.xdoc}}
	root := &Node{T: "object"}
	for n := r.Intn(5) + 2; len(root.Props) < n; {
		g.addXML(root, c, 4)
	}
	if r.P(p.Bad) {
		g.spoil(root)
	}
	var inputs []xinput
	for len(inputs) < p.Calls {
		switch {
		case len(inputs) > 0 && r.P(p.Repeat):
			inputs = append(inputs, inputs[r.Intn(len(inputs))])
		case r.P(p.Odd):
			inputs = append(inputs, xinput{M{"k": "bad"}, r.Pick("", "text", "<r><b></r>", "<r>", "<r", `<r id=1/>`, "<r></q>", "{}", "<r>&nope;</r>")})
		case len(inputs) == 0:
			inputs = append(inputs, g.xinput(g.xdoc))
		default:
			inputs = append(inputs, g.xinput(g.xmutate(g.xdoc)))
		}
	}
	schema := root.JSON(true)
	decorate(r, schema)
	t := M{"n": i, "xml": true, "root": root.Spec(true), "ident": "t", "schema": string(Render(r, schema))}
	if p.Functional {
		return g.functional(t, i, func() bool { return r.P(0.3) }, func() (string, [][]byte) {
			texts := make([][]byte, len(inputs))
			for j := range inputs {
				texts[j] = []byte(inputs[j].text)
			}
			return string(Render(r, schema)), texts
		})
	}
	tr, how := g.build(t, i, 0)
	t["made"] = how
	events := L{}
	if tr != nil {
		calls := make([]call, len(inputs))
		for j := range inputs {
			calls[j] = call{inputs[j].spec, []byte(inputs[j].text)}
		}
		events = g.calls(tr, calls, p)
	}
	t["events"] = events
	return t
}
