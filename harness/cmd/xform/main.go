// Command xform drives the transform package through its public interface with generated schemas and inputs and
// records what it does as traces for XformTrace.tla.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"sync"
	"time"

	"github.com/GannettDigital/jstransform/jsonschema"
	"github.com/GannettDigital/jstransform/transform"

	. "verif/vt"
)

var (
	seed    = flag.Int64("seed", 1, "seed")
	profile = flag.String("profile", "all", "profile")
	scale   = flag.Float64("scale", 1, "factor of the number of traces")
	out     = flag.String("out", "", "trace file")
	scratch = flag.String("scratch", "", "directory for schema files")
	only    = flag.Int("only", -1, "only this trace")
	alone   = flag.Bool("isolated", false, "run the job on standard input")
	cases   = flag.String("cases", "", "file of cases to run instead of generated ones")
	helper  = flag.String("helper", os.Args[0], "the program for isolated jobs")
)

func main() {
	flag.Parse()
	if *alone {
		isolated()
		return
	}
	p, ok := profiles[*profile]
	if !ok {
		fmt.Fprintln(os.Stderr, "no such profile")
		os.Exit(3)
	}
	n := int(float64(p.Traces) * *scale)
	var small []smallCase
	if *cases != "" {
		small = readCases(*cases)
		n = len(small)
	}
	traces := make([]M, n)
	work := make(chan int)
	var wg sync.WaitGroup
	for w := 0; w < runtime.NumCPU(); w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range work {
				if Enough() {
					continue
				}
				if small != nil {
					traces[i] = (&gen{r: NewRand(*seed, int64(i)), p: p}).runCase(small[i], i)
				} else {
					traces[i] = runTrace(p, i)
				}
			}
		}()
	}
	for i := 0; i < n; i++ {
		if *only < 0 || *only == i {
			work <- i
		}
	}
	close(work)
	wg.Wait()

	w := Create(*out)
	stats := map[string]int{}
	for _, t := range traces {
		if t == nil {
			continue
		}
		for _, e := range t["events"].(L) {
			if ev, ok := e.(M)["ev"]; ok {
				stats[ev.(string)]++
			}
			if o, ok := e.(M)["out"].(M); ok {
				stats[o["k"].(string)]++
			}
		}
		w.Write(t)
	}
	w.Close()
	s, _ := json.Marshal(stats)
	fmt.Printf("driver: profile %s, %d traces, outcomes %s\n", *profile, w.N, s)
}

type transformer interface {
	Transform(json.RawMessage) (json.RawMessage, error)
	TransformNoValidation(json.RawMessage) (json.RawMessage, error)
}

// runTrace generates a schema and a history of inputs and runs it.
func runTrace(p Profile, i int) M {
	h := int64(0)
	for _, c := range *profile {
		h = h*131 + int64(c)
	}
	g := &gen{r: NewRand(*seed, h*1_000_000+int64(i)), p: p}
	if p.XML {
		return g.runXML(i)
	}
	g.doc = g.object(p.Depth)
	for len(g.doc.(M)) < 3 {
		g.doc.(M)[g.name()] = g.value(p.Depth - 1)
	}
	if g.r.P(p.RootArr) {
		g.doc = g.list(p.Depth)
	}
	root := g.root()
	if g.r.P(p.Bad) {
		g.spoil(root)
	}

	var inputs []interface{}
	for len(inputs) < p.Calls {
		switch {
		case len(inputs) == 0:
			inputs = append(inputs, Copy(g.doc))
		case g.r.P(p.Repeat):
			inputs = append(inputs, inputs[g.r.Intn(len(inputs))])
		case g.r.P(p.Odd):
			inputs = append(inputs, g.odd())
		default:
			inputs = append(inputs, g.mutate(g.doc))
		}
	}
	schema := root.JSON(false)
	decorate(g.r, schema)
	texts := make([][]byte, len(inputs))
	for j := range inputs {
		if b, ok := inputs[j].(badJSON); ok {
			texts[j] = []byte(b)
		} else {
			texts[j] = Render(g.r, inputs[j])
		}
	}
	t := M{"n": i, "xml": false, "root": root.Spec(false), "ident": "t", "schema": string(Render(g.r, schema))}
	if p.Functional {
		first := true
		return g.functional(t, i, func() bool { return g.r.P(0.3) }, func() (string, [][]byte) {
			for j := range inputs {
				if _, ok := inputs[j].(badJSON); !ok && !first {
					texts[j] = Render(g.r, inputs[j])
				}
			}
			first = false
			return string(Render(g.r, schema)), append([][]byte{}, texts...)
		})
	}
	tr, how := g.build(t, i, 0)
	t["made"] = how
	events := L{}
	if tr != nil {
		events = g.calls(tr, jsonCalls(texts), p)
	}
	t["events"] = events
	return t
}

type badJSON string

func (g *gen) odd() interface{} {
	switch g.r.Intn(8) {
	case 0:
		return nil
	case 1:
		return "text"
	case 2:
		return 3.0
	case 3:
		return L{}
	case 4:
		return M{}
	case 5:
		return L{g.doc}
	case 6:
		return badJSON(g.r.Pick("", "{", "nul", `{"a":}`, `{"a":1,}`, "[1", `"x`))
	}
	return g.value(2)
}

// decorate adds what the transform has no use for.
func decorate(r *Rand, m M) {
	if r.P(0.2) {
		m["description"] = r.Pick("some text", `with "quotes" {and} [brackets]`, "")
	}
	if props, ok := m["properties"].(M); ok {
		for _, k := range Keys(props) {
			decorate(r, props[k].(M))
		}
	}
	if items, ok := m["items"].(M); ok {
		decorate(r, items)
	}
}

// build makes the transformer for the schema of the trace.
func (g *gen) build(t M, i, variant int) (tr transformer, made string) {
	path := filepath.Join(*scratch, fmt.Sprintf("s%d_%d.json", i, variant))
	Must(os.WriteFile(path, []byte(t["schema"].(string)), 0o644))
	defer os.Remove(path)
	how, detail := Guard(20*time.Second, func() {
		s, err := jsonschema.SchemaFromFile(path, "")
		if err != nil {
			made = "noschema"
			return
		}
		var x *transform.Transformer
		if g.p.XML {
			x, err = transform.NewXMLTransformer(s, t["ident"].(string))
		} else {
			x, err = transform.NewTransformer(s, t["ident"].(string))
		}
		made = "error"
		if err != nil {
			t["msg"] = err.Error()
		} else {
			made = "ok"
			tr = x
		}
	})
	if how != "" {
		t["msg"] = detail
		return nil, how
	}
	return tr, made
}

var nowFormats = []string{time.RFC3339, "2006-01-02", "2006", "2006-01-02 15:04:05"}

func nows() M {
	n := time.Now()
	m := M{}
	for _, f := range nowFormats {
		k := f
		if f == time.RFC3339 {
			k = "RFC3339"
		}
		m[k] = n.Format(f)
	}
	return m
}

// call is an input: as the specification reads it and as the transformer gets it.
type call struct {
	spec M
	text []byte
}

func jsonCalls(texts [][]byte) []call {
	cs := make([]call, len(texts))
	for i, t := range texts {
		cs[i] = call{TagJSON(t), t}
	}
	return cs
}

func (g *gen) calls(tr transformer, cs []call, p Profile) L {
	events := L{}
	one := func(c call) M {
		text := c.text
		e := M{"validate": p.Validate, "in": c.spec}
		if g.p.XML {
			e["text"] = string(text)
		}
		if g.now {
			e["now0"] = nows()
		}
		in := append([]byte{}, text...)
		var res M
		how, detail := Guard(20*time.Second, func() {
			var o json.RawMessage
			var err error
			if p.Validate {
				o, err = tr.Transform(in)
			} else {
				o, err = tr.TransformNoValidation(in)
			}
			switch {
			case err != nil && o != nil:
				res = M{"k": "both"}
			case err != nil:
				res = M{"k": "err"}
				e["msg"] = err.Error()
			default:
				res = TagJSON(o)
			}
		})
		if how != "" {
			res = M{"k": how}
			e["msg"] = detail
		}
		if string(in) != string(text) {
			res = M{"k": "changed"} // the caller's bytes
		}
		if g.now {
			e["now1"] = nows()
		}
		e["out"] = res
		return e
	}
	for _, c := range cs {
		events = append(events, one(c))
	}
	return events
}

// spoil makes one instruction of the schema invalid.
func (g *gen) spoil(root *Node) {
	var trs []*Tr
	var defs []*Node
	root.Walk(func(n *Node) {
		if n == root {
			return
		}
		trs = append(trs, n.Tr...)
		if n.T == "array" || n.T == "object" && !n.Free {
			defs = append(defs, n)
		}
	})
	if len(defs) > 0 && g.r.P(0.15) {
		n := defs[g.r.Intn(len(defs))]
		n.HasDef = true
		n.Def = map[string]interface{}{"object": L{"x"}, "array": M{"x": 1.0}}[n.T]
		if g.r.P(0.4) {
			n.Def = g.r.Pick("x", "")
		}
		return
	}
	if len(trs) == 0 {
		return
	}
	t := trs[g.r.Intn(len(trs))]
	if len(t.From) == 0 || g.r.P(0.15) {
		t.Method = g.r.Pick("First", "concat", "all", "max", "last ", " first", "CONCATENATE", "concatenate,")
		return
	}
	f := t.From[g.r.Intn(len(t.From))]
	if len(f.Ops) == 0 || g.r.P(0.3) {
		o, _ := g.op(g.r.Pick("changeCase", "max", "replace", "split", "timeParse", "toCamelCase", "currentTime"))
		f.Ops = append(f.Ops, o)
	}
	o := f.Ops[g.r.Intn(len(f.Ops))]
	switch g.r.Intn(5) {
	case 0:
		o.Name = g.r.Pick("uppercase", "ChangeCase", "", "join", "maximum", "Split", "split ", "max,")
	case 1:
		for _, k := range Keys(o.Args) {
			delete(o.Args, k)
			break
		}
	case 2:
		if o.Args == nil {
			o.Args = map[string]string{}
		}
		o.NoArgs = false
		o.Args["extra"] = "x"
	case 3:
		for _, k := range Keys(o.Args) {
			v := o.Args[k]
			delete(o.Args, k)
			o.Args[g.r.Pick("To", "by2", "delim", "x")] = v
			break
		}
	case 4:
		switch o.Name {
		case "changeCase":
			o.Args["to"] = g.r.Pick("Upper", "title", "", " lower", "lowe")
		case "replace":
			o.Args["regex"] = g.r.Pick("(", "[a", "*", "a**", "(?<n", `\`)
			o.Spec["badre"] = true
		default:
			o.Name = "x" + o.Name
		}
	}
}
