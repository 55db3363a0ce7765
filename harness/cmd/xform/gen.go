package main

import (
	"strconv"
	"strings"
	"time"

	. "verif/vt"
)

func itoa(i int) string { return strconv.Itoa(i) }

// Profile biases the generator towards the behaviour a property is about.
type Profile struct {
	XML        bool
	Traces     int
	Calls      int     // calls per transformer
	Tr         float64 // a scalar has a transform
	TrArr      float64
	TrObj      float64
	Def        float64
	DefObj     float64 // an object has a default, as likely as others by default
	MultiFrom  float64 // a transform has more than one source
	Ops        float64 // a source has operations
	OneOp      string  // only this operation
	Chain      float64 // chance of a further operation, 0.35 by default
	Arrays     float64 // extra arrays
	Types      float64 // a field has another type than its input
	Missing    float64 // paths which select nothing
	Wide       float64 // paths which may select several values
	Mutate     int     // changes between the inputs of a history
	Repeat     float64 // an input is used again
	Bad        float64 // an instruction is invalid
	Decoy      float64 // transforms for other identifiers
	Validate   bool    // use Transform and validation keywords
	Conc       int     // concurrent callers
	Odd        float64 // odd inputs: no object, no JSON
	Fail       float64 // an operation gets a value it does not support
	RootArr    float64
	Objects    float64 // extra objects
	Depth      int
	CheckNew   bool
	Functional bool // calls are compared with the same call alone
	Equivalent bool // the same schema and input in another notation
}

type gen struct {
	r    *Rand
	p    Profile
	doc  interface{}
	xdoc *xnode
	now  bool
	// places in the document of which operations take something
	calculated []string
	targets    []*xnode
}

var names = []string{"a", "b", "c", "d", "e", "ab", "id", "k1", "name", "Url", "a_b"}
var oddNames = []string{"x-y", "1x", "a b", "@id", "$k", "z#"}
var goodNums = []string{"0", "12", "-3", "007", "3.5", "-0.25", "1e3", "1.5e2", "+5", ".5", "5.", "9007199254740993", "25e-1"}
var goodInts = []string{"0", "12", "-3", "007", "+5", "9007199254740993", "9223372036854775807", "-9007199254740993"}
var goodBools = []string{"true", "false", "True", "FALSE", "t", "F", "1", "0", "TRUE"}
var goodDurs = []string{"1:30", "01:02:03", ":30", "12:", "::5", "0:0", "00:00:59", "10:00", ":", "1::", "59:59", "100:00:00"}
var words = []string{"foo", "Bar", "lorem ipsum", "X", "hello World", "a_b c-d", "zed", "{}", "$1", "[0]", "a.b", "Élan für", "ÑÖя Жж"}
var numStrs = []string{"0", "12", "-3", "007", "3.5", "-0.25", "1e3", "1.5e2", "+5", ".5", "5.", "12abc", "1 2", " 1", "--1", "9007199254740993", "90071992547409931", "-1234567890123456789", "9223372036854775808", "25e-1", "NaN", "Inf", "-inf", "0x10", "010", "-010", "0b11", "0o17", "1e", "e1", "1.2.3", "+-1", "١"}
var boolStrs = []string{"true", "false", "True", "FALSE", "t", "F", "1", "0", "yes", "TRUE", "tRUE", "no"}
var dates = []string{"2020-01-02T03:04:05Z", "2019-12-31T23:59:59+02:00", "2021-06-15T12:00:00.250Z", "2021-06-15T12:00:00.000-05:30",
	"2020-02-29T00:00:00Z", "2021-02-29T00:00:00Z", "2020-13-01T00:00:00Z", "2020-01-02", "2020-01-02T03:04:05", "2020-01-02 03:04:05Z",
	"0001-01-01T00:00:00Z", "2020-04-31T10:00:00Z", "1999-07-04T24:00:00Z", "2020-01-02T03:04:05+00:00", "1969-12-31T23:59:59Z", "2020-01-02T03:04:60Z"}
var durs = []string{"1:30", "01:02:03", ":30", "12:", "::5", "90", "1:2:3:4", "a:b", "0:0", "00:00:59", "10:00", ":", "1::", "59:59", "-1:30", "1:30 "}
var csvs = []string{"a,b,c", "x", ",", "a,,b", "a, b", "1,2", "a-b-c", "one--two", "p|q", "é,ü", "日本"}
var htmls = []string{"<p>Hello</p>", "a<b>c</b>d", "x <br/> y", "a &amp; b", "1 < 2", "plain", "<p>a</p><p>b</p>", "t<script>bad()</script>u",
	"<a href='x'>link</a> end", "a &lt;b&gt; c", "<!-- c -->v", "&quot;q&quot;", "  <i> s </i>  ", "a<h1>T</h1>  b", "x<style>s</style>", "a   b", "</p>", "<B>bold</B>!", "&amp;lt;", "a>b", "<p>é</p>ü", "Ж<i>日</i>"}
var camels = []string{"foo-bar", "Foo_Bar", "one two three", "alreadyOne", "a--b", "-x-", "X", "UPPER-CASE", "foo-bar_baz qux", "n1-2b", "it's-o'clock", "über-élan-Яя", "éé-ö ü_ñ-x日本-é", ""}
var numbers = []float64{0, 1, 2, 5, -1, -7, 3.5, -0.25, 100, 1e6, 1577934245, 0.1, 12345.678, -1577934245, 1e21, 42, 1 << 31, 0.001, 1e22, -3e23, 2.5e-7, 123456789012345}

func (g *gen) number() float64 {
	if g.r.P(0.5) {
		return numbers[g.r.Intn(len(numbers))]
	}
	return float64(g.r.Intn(60) - 20)
}

func (g *gen) str() string {
	r := g.r
	switch r.Intn(12) {
	case 0:
		return ""
	case 1, 2:
		return r.Pick(numStrs...)
	case 3:
		return r.Pick(boolStrs...)
	case 4, 5:
		return r.Pick(dates...)
	case 6:
		return r.Pick(durs...)
	case 7:
		return r.Pick(csvs...)
	case 8:
		return r.Pick(htmls...)
	case 9:
		return r.Pick(camels...)
	}
	return r.Pick(words...)
}

func (g *gen) leaf() interface{} {
	switch n := g.r.Intn(20); {
	case n < 10:
		return g.str()
	case n < 15:
		return g.number()
	case n < 18:
		return g.r.P(0.5)
	case n < 19:
		return nil
	}
	return g.str()
}

// value returns a JSON value, an object more likely near the root.
func (g *gen) value(depth int) interface{} {
	r := g.r
	if depth <= 0 {
		return g.leaf()
	}
	switch n := r.Float64(); {
	case n < 0.4-g.p.Arrays/4:
		return g.leaf()
	case n < 0.65:
		return g.object(depth)
	default:
		return g.list(depth)
	}
}

func (g *gen) object(depth int) M {
	m := M{}
	for i, n := 0, g.r.Intn(4)+1; i < n; i++ {
		m[g.name()] = g.value(depth - 1)
	}
	return m
}

func (g *gen) name() string {
	if g.r.P(0.06) {
		return g.r.Pick(oddNames...)
	}
	return g.r.Pick(names...)
}

func (g *gen) list(depth int) L {
	r := g.r
	n := r.Intn(4)
	if r.P(0.15) {
		n = r.Intn(12) + 1
	}
	l := make(L, 0, n)
	switch r.Intn(6) {
	case 0: // of anything
		for i := 0; i < n; i++ {
			l = append(l, g.value(depth-1))
		}
	case 1, 2: // of scalars
		for i := 0; i < n; i++ {
			l = append(l, g.leaf())
		}
	case 3: // of lists
		for i := 0; i < n && depth > 1; i++ {
			l = append(l, g.list(depth-1))
		}
	default: // of objects of the same shape
		shape := []string{}
		for i := 0; i < r.Intn(3)+1; i++ {
			shape = append(shape, g.name())
		}
		sub := M{}
		for i := 0; i < n; i++ {
			m := M{}
			for _, k := range shape {
				if r.P(0.12) {
					continue
				}
				if _, ok := sub[k]; !ok {
					sub[k] = g.value(depth - 2)
				}
				switch sub[k].(type) {
				case M, L:
					m[k] = g.vary(Copy(sub[k]))
				default:
					m[k] = g.leaf()
				}
			}
			if r.P(0.05) {
				l = append(l, g.leaf())
			} else {
				l = append(l, m)
			}
		}
	}
	return l
}

// vary replaces leaves of a value.
func (g *gen) vary(v interface{}) interface{} {
	switch t := v.(type) {
	case M:
		for _, k := range Keys(t) {
			t[k] = g.vary(t[k])
		}
		return t
	case L:
		for i := range t {
			t[i] = g.vary(t[i])
		}
		if g.r.P(0.2) {
			t = append(t, g.leaf())
		}
		return t
	}
	if g.r.P(0.7) {
		return g.leaf()
	}
	return v
}

// get returns the value at single steps.
func get(v interface{}, steps []Step) (interface{}, bool) {
	for _, s := range steps {
		switch t := v.(type) {
		case M:
			e, ok := t[s.Key]
			if s.T != "key" || !ok {
				return nil, false
			}
			v = e
		case L:
			if s.T != "idx" || s.I >= len(t) {
				return nil, false
			}
			v = t[s.I]
		default:
			return nil, false
		}
	}
	return v, true
}

// set replaces the value at existing single steps.
func set(v interface{}, steps []Step, to interface{}) {
	p, ok := get(v, steps[:len(steps)-1])
	if !ok {
		return
	}
	s := steps[len(steps)-1]
	switch t := p.(type) {
	case M:
		if s.T == "key" {
			t[s.Key] = to
		}
	case L:
		if s.T == "idx" && s.I < len(t) {
			t[s.I] = to
		}
	}
}

// locate walks to a place of the value, preferring one that ok accepts.
func (g *gen) locate(v interface{}, ok func(interface{}) bool) []Step {
	var best []Step
	for try := 0; try < 12; try++ {
		var steps []Step
		cur := v
		for {
			if len(steps) > 0 && (ok(cur) && g.r.P(0.7) || g.r.P(0.05)) {
				return steps
			}
			switch t := cur.(type) {
			case M:
				if len(t) == 0 {
					goto end
				}
				ks := Keys(t)
				k := ks[g.r.Intn(len(ks))]
				steps = append(steps, key(k))
				cur = t[k]
				continue
			case L:
				if len(t) == 0 {
					goto end
				}
				i := g.r.Intn(len(t))
				steps = append(steps, idx(i))
				cur = t[i]
				continue
			}
		end:
			break
		}
		if len(steps) > 0 && ok(cur) {
			return steps
		}
		if best == nil || g.r.P(0.2) {
			best = steps
		}
	}
	return best
}

func isScalar(v interface{}) bool {
	switch v.(type) {
	case M, L:
		return false
	}
	return true
}
func isList(v interface{}) bool { _, ok := v.(L); return ok }
func isObj(v interface{}) bool  { _, ok := v.(M); return ok }

// general makes a path select more than one place, or none.
func (g *gen) general(steps []Step) []Step {
	r := g.r
	out := append([]Step{}, steps...)
	for i := range out {
		if out[i].T == "idx" && r.P(g.p.Wide) {
			switch r.Intn(6) {
			case 0:
				out[i] = Step{T: "range", From: r.Intn(2), To: r.Intn(3) + 1}
			case 1:
				out[i] = Step{T: "idxs", Is: []int{out[i].I, r.Intn(3)}}
			default:
				out[i] = wild
			}
		}
		if out[i].T == "key" && r.P(g.p.Wide/8) {
			switch r.Intn(3) {
			case 0:
				out[i] = Step{T: "keys", Keys: []string{out[i].Key, r.Pick(names...)}}
			case 1:
				out[i] = wild
			case 2:
				if identifier(out[i].Key) {
					out[i].T = "rec"
				}
			}
		}
	}
	if len(out) > 0 && r.P(g.p.Missing) {
		switch i := r.Intn(len(out)); out[i].T {
		case "key":
			out[i].Key = r.Pick("q", "zz", "aa")
		case "idx":
			out[i].I = 7
		}
	}
	return out
}

// array is an array the generated node is inside of.
type array struct {
	spath []Step
	item  interface{}
}

// ctx is the position of a generated node.
type ctx struct {
	spath  []Step
	parent interface{} // example of the input at the parent's path
	arrays []array
	plain  bool // all names so far are identifiers
	xml    *xctx
}

func (c ctx) child(name string, parent interface{}) ctx {
	d := c
	d.spath = append(append([]Step{}, c.spath...), key(name))
	d.parent = parent
	d.plain = c.plain && identifier(name)
	return d
}

func (c ctx) item(item interface{}) ctx {
	d := c
	d.spath = append(append([]Step{}, c.spath...), wild)
	d.parent = item
	d.arrays = append(append([]array{}, c.arrays...), array{d.spath, item})
	return d
}

func (c ctx) isItem() bool { return len(c.spath) > 0 && c.spath[len(c.spath)-1].T == "wild" }

// source picks the path of a from entry; where is the place in the document it was made from, if there is one.
func (g *gen) source(c ctx, want func(interface{}) bool, item bool) (f *From, where []Step, at interface{}) {
	r := g.r
	f = &From{}
	relOK := c.plain && len(c.arrays) > 0
	if relOK && r.P(0.6) && !isScalar(c.parent) && (!c.isItem() || item) {
		// relative to the parent, or to the item for an array of scalars
		steps := g.locate(c.parent, want)
		if len(steps) > 0 && (steps[0].T == "idx" || identifier(steps[0].Key)) {
			at, _ = get(c.parent, steps)
			f.Rel = true
			f.Steps = g.general(steps)
			if first := f.Steps[0]; first.T == "rec" || first.T == "keys" {
				f.Steps[0] = steps[0]
			}
			return f, nil, at
		}
	}
	if relOK && r.P(0.5) {
		// below an enclosing array, with [*] for the current item
		a := c.arrays[r.Intn(len(c.arrays))]
		if !isScalar(a.item) {
			if steps := g.locate(a.item, want); len(steps) > 0 {
				at, _ = get(a.item, steps)
				f.Steps = append(append([]Step{}, a.spath...), g.general(steps)...)
				return f, nil, at
			}
		}
	}
	if c.plain && len(c.arrays) == 0 && len(c.spath) > 1 && r.P(0.2) && isObj(c.parent) {
		if steps := g.locate(c.parent, want); len(steps) > 0 && (steps[0].T == "idx" || identifier(steps[0].Key)) {
			at, _ = get(c.parent, steps)
			f.Rel = true
			f.Steps = steps
			return f, nil, at
		}
	}
	where = g.locate(g.doc, want)
	if len(where) == 0 {
		f.Steps = []Step{key("none")}
		return f, nil, nil
	}
	at, _ = get(g.doc, where)
	f.Steps = g.general(where)
	return f, where, at
}

func numeric(s string) bool {
	_, err := strconv.ParseFloat(s, 64)
	return err == nil
}

// filterPath occasionally selects an item by a field.
func (g *gen) filterPath(f *From, where []Step) {
	for i := 0; i+1 < len(where); i++ {
		if where[i].T != "idx" || where[i+1].T != "key" {
			continue
		}
		item, _ := get(g.doc, where[:i+1])
		m, ok := item.(M)
		if !ok {
			continue
		}
		for _, k := range Keys(m) {
			v := m[k]
			s, isS := v.(string)
			_, isN := v.(float64)
			if identifier(k) && (isN && v.(float64) >= 0 && v.(float64) < 1e15 || isS && s != "" && !strings.ContainsAny(s, "\"\\'") && !numeric(s)) && g.r.P(0.5) {
				f.Steps = append([]Step{}, where...)
				f.Steps[i] = Step{T: "filter", Key: k, V: v}
				return
			}
		}
	}
}

func (g *gen) transforms(n *Node, c ctx, prob float64) {
	r := g.r
	if r.P(prob) {
		n.Tr = append(n.Tr, g.transform(n, c, "t"))
	}
	if r.P(g.p.Decoy) {
		n.Tr = append(n.Tr, g.transform(n, c, "other"))
	}
	if r.P(g.p.Decoy / 3) {
		n.Tr = append(n.Tr, g.transform(n, c, r.Pick("tt", "T", "t ", "")))
	}
}

func (g *gen) transform(n *Node, c ctx, id string) *Tr {
	r := g.r
	t := &Tr{ID: id}
	k := 1
	if r.P(g.p.MultiFrom) {
		k = r.Intn(3) + 2
	}
	switch m := r.Intn(10); {
	case m < 3:
	case m < 5:
		t.Method = "first"
	case m < 7:
		t.Method = "last"
	default:
		t.Method = "concatenate"
	}
	if t.Method == "concatenate" || r.P(0.1) {
		t.HasOpts = r.P(0.7)
		if t.HasOpts {
			t.Delim = r.Pick(", ", "-", "", " ", "::")
		}
	}
	if t.Method == "concatenate" && (n.T == "array" || n.T == "object" || n.T == "boolean" || n.T == "number" || n.T == "integer") && !r.P(g.p.Fail) {
		t.Method = "first"
	}
	for i := 0; i < k; i++ {
		f := g.from(n, c)
		if t.Method == "concatenate" || n.T == "array" {
			f.Ops = withoutNow(f.Ops)
		}
		if t.Method == "concatenate" && !r.P(g.p.Fail) && len(f.Ops) > 0 {
			switch f.Ops[len(f.Ops)-1].Name {
			case "changeCase", "replace", "toCamelCase", "removeHTML", "timeParse":
			default:
				f.Ops = nil
			}
		}
		t.From = append(t.From, f)
	}
	if r.P(0.02) {
		t.From = nil
	}
	return t
}

// a current time is only compared where it is a field's value
func withoutNow(ops []*Op) []*Op {
	for _, o := range ops {
		if o.Name == "currentTime" {
			return nil
		}
	}
	return ops
}

func (g *gen) from(n *Node, c ctx) *From {
	if g.p.XML {
		return g.xmlFrom(n, c)
	}
	r := g.r
	want := isScalar
	switch n.T {
	case "array":
		want = isList
	case "object":
		want = isObj
	}
	if r.P(0.06) {
		want = func(interface{}) bool { return true }
	}
	useOps := r.P(g.p.Ops) && n.T != "object"
	if useOps && n.T == "array" {
		want = isScalar
	}
	if useOps && r.P(0.12) && n.T != "array" {
		want = isList
	}
	f, where, at := g.source(c, want, n.T != "array" && n.T != "object")
	if where != nil && r.P(g.p.Wide/3) {
		g.filterPath(f, where)
	}
	if useOps {
		var sample interface{}
		f.Ops, sample = g.opChain(n.T, at)
		if d, ok := g.doc.(M); ok && sample != nil && (!f.Rel || len(c.arrays) == 0) && r.P(0.5) {
			// a place of its own
			k := "s" + itoa(len(d))
			d[k] = sample
			g.calculated = append(g.calculated, k)
			f.Rel, f.Steps = false, []Step{key(k)}
		} else if sample != nil && where != nil && r.P(0.85) {
			set(g.doc, where, sample)
		}
	}
	return f
}

// node generates the schema for an example of its input.
func (g *gen) node(name string, hint interface{}, c ctx, depth int) *Node {
	r := g.r
	n := &Node{Name: name, Nullable: r.P(0.05)}
	types := []string{"string", "number", "integer", "boolean", "date-time"}
	switch t := hint.(type) {
	case M:
		n.T = "object"
	case L:
		n.T = "array"
	case bool:
		n.T = "boolean"
	case float64:
		n.T = r.Pick("number", "number", "integer", "string")
	case string:
		n.T = "string"
		if strings.Contains(t, "T0") || strings.Contains(t, "T2") || strings.Contains(t, "T1") {
			n.T = r.Pick("date-time", "date-time", "string")
		}
	default:
		n.T = r.Pick(types...)
	}
	if r.P(g.p.Types) {
		n.T = r.Pick(append(types, "array", "object")...)
	}
	if depth <= 0 && n.T == "object" && !isObj(hint) {
		n.T = "string"
	}

	switch n.T {
	case "object":
		g.transforms(n, c, g.p.TrObj)
		m, _ := hint.(M)
		if len(n.Tr) > 0 && n.Tr[0].ID == "t" && m == nil {
			m = M{"a": nil, "b": nil}
		}
		g.objectProps(n, m, c, depth)
		n.Free = len(n.Props) == 0
		g.objectDefault(n)
	case "array":
		g.transforms(n, c, g.p.TrArr)
		var item interface{}
		if l, ok := hint.(L); ok && len(l) > 0 {
			item = l[r.Intn(len(l))]
		} else if !ok {
			item = hint
		}
		if len(n.Tr) > 0 && len(n.Tr[0].From) > 0 {
			if v := g.example(n.Tr[0].From[0], c); v != nil {
				item = v
			}
		}
		n.Items = g.node("", item, c.item(item), depth-1)
		if r.P(g.p.Def) {
			n.HasDef, n.Def = true, g.list(1)
		}
	default:
		g.transforms(n, c, g.p.Tr)
		if r.P(g.p.Def) {
			n.HasDef, n.Def = true, g.scalarDefault(n.T)
		}
	}
	if g.p.Validate {
		g.keywords(n)
	}
	return n
}

// example returns an item of the list a source selects, for the schema of the items.
func (g *gen) example(f *From, c ctx) interface{} {
	for _, o := range f.Ops {
		if o.Name == "split" {
			return "part"
		}
	}
	from := g.doc
	if f.Rel {
		from = c.parent
	}
	v, ok := get(from, f.Steps)
	if !ok {
		return nil
	}
	if l, ok := v.(L); ok {
		if len(l) == 0 {
			return nil
		}
		return l[g.r.Intn(len(l))]
	}
	return v
}

func (g *gen) objectDefault(n *Node) {
	prob := g.p.DefObj
	if prob == 0 {
		prob = g.p.Def
	}
	if !g.r.P(prob) {
		return
	}
	d := g.object(1)
	for _, p := range n.Props {
		if g.r.P(0.4) {
			d[p.Name] = g.value(1)
		}
	}
	n.HasDef, n.Def = true, d
}

func (g *gen) scalarDefault(t string) interface{} {
	r := g.r
	if r.P(0.1) {
		return g.leaf()
	}
	switch t {
	case "boolean":
		return r.P(0.5)
	case "number", "integer":
		return float64(r.Intn(90))
	case "date-time":
		return "2001-02-03T04:05:06Z"
	}
	return r.Pick("", "dflt", "D")
}

func (g *gen) objectProps(n *Node, m M, c ctx, depth int) {
	r := g.r
	used := map[string]bool{}
	add := func(k string, hint interface{}) {
		if used[k] {
			return
		}
		// instances with names that are no identifiers are only looked up themselves
		if !identifier(k) && !isScalar(hint) {
			return
		}
		used[k] = true
		p := g.node(k, hint, c.child(k, m), depth-1)
		if !identifier(k) && (p.T == "array" || p.T == "object") {
			p = &Node{Name: k, T: "string"}
		}
		n.Props = append(n.Props, p)
	}
	for _, k := range Keys(m) {
		if r.P(0.75) {
			add(k, m[k])
		}
	}
	for i, k := 0, r.Intn(3); i < k; i++ {
		nm := g.name()
		if _, in := m[nm]; !in {
			var hint interface{}
			if depth > 1 && r.P(0.3) {
				hint = g.value(2)
			}
			add(nm, hint)
		}
	}
	r.Shuffle(len(n.Props), func(i, j int) { n.Props[i], n.Props[j] = n.Props[j], n.Props[i] })
}

// root generates the root node for g.doc.
func (g *gen) root() *Node {
	c := ctx{plain: true, parent: g.doc}
	switch d := g.doc.(type) {
	case M:
		n := &Node{T: "object"}
		for len(n.Props) == 0 {
			g.objectProps(n, d, c, g.p.Depth)
		}
		if g.p.Functional {
			g.readTwice(n, d, c)
		}
		return n
	case L:
		var item interface{}
		if len(d) > 0 {
			item = d[g.r.Intn(len(d))]
		}
		return &Node{T: "array", Items: g.node("", item, c.item(item), g.p.Depth)}
	}
	panic("no root")
}

// readTwice adds fields which hold what others calculate with.
func (g *gen) readTwice(n *Node, d M, c ctx) {
	r := g.r
	if !g.p.XML && r.P(0.6) {
		o, sample := g.op("max")
		k := "s" + itoa(len(d))
		d[k] = sample
		g.calculated = append(g.calculated, k)
		f := &From{Steps: []Step{key(k)}, Ops: []*Op{o}}
		n.Props = append(n.Props, &Node{Name: "m" + itoa(len(d)), T: "string", Tr: []*Tr{{ID: "t", From: []*From{f}}}})
	}
	for _, k := range g.calculated {
		if r.P(0.7) {
			n.Props = append(n.Props, g.node(k, d[k], c.child(k, d), g.p.Depth-1))
		}
	}
	r.Shuffle(len(n.Props), func(i, j int) { n.Props[i], n.Props[j] = n.Props[j], n.Props[i] })
}

// mutate returns a changed copy of an input.
func (g *gen) mutate(v interface{}) interface{} {
	r := g.r
	v = Copy(v)
	for i := 0; i < r.Intn(g.p.Mutate+1)+1; i++ {
		steps := g.locate(v, func(interface{}) bool { return r.P(0.5) })
		if len(steps) == 0 {
			continue
		}
		old, _ := get(v, steps)
		var to interface{}
		switch r.Intn(9) {
		case 0:
			to = nil
		case 1:
			to = L{old}
		case 2:
			to = g.value(2)
		case 3:
			parent, _ := get(v, steps[:len(steps)-1])
			if m, ok := parent.(M); ok {
				delete(m, steps[len(steps)-1].Key)
				continue
			}
			to = L{}
		case 4:
			if l, ok := old.(L); ok && len(l) > 0 {
				l = append(L{}, l...)
				r.Shuffle(len(l), func(i, j int) { l[i], l[j] = l[j], l[i] })
				if r.P(0.5) {
					l = l[:len(l)-1]
				}
				to = l
			} else {
				to = g.leaf()
			}
		default:
			to = g.vary(Copy(old))
		}
		set(v, steps, to)
	}
	return v
}

// keywords adds what validation looks at.
func (g *gen) keywords(n *Node) {
	r := g.r
	n.Keys = M{}
	const few = 0.06
	switch n.T {
	case "string":
		if r.P(few) {
			n.Keys["enum"] = L{"foo", "Bar", r.Pick(words[2:]...), ""}
		}
		if r.P(few) {
			n.Keys["minLength"] = float64(r.Intn(3))
		}
		if r.P(few) {
			n.Keys["maxLength"] = float64(r.Intn(20) + 2)
		}
	case "number", "integer":
		if r.P(few) {
			n.Keys["minimum"] = float64(r.Intn(20) - 10)
		}
		if r.P(few) {
			n.Keys["maximum"] = float64(r.Intn(2000) + 10)
		}
	case "array":
		if r.P(few) {
			n.Keys["minItems"] = float64(r.Intn(3))
		}
		if r.P(few) {
			n.Keys["maxItems"] = float64(r.Intn(4) + 2)
		}
	case "object":
		for _, p := range n.Props {
			if r.P(few) {
				n.Req = append(n.Req, p.Name)
			}
		}
		if len(n.Props) > 0 && r.P(few) {
			n.Keys["additionalProperties"] = false
		}
	}
}

var epoch = time.Date(2000, 1, 1, 0, 0, 0, 0, time.UTC)
