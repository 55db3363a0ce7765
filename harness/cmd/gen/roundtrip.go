package main

import (
	"fmt"
	"os"
	"path/filepath"
	"time"

	"github.com/GannettDigital/jstransform/generate"

	. "verif/vt"
)

func init() {
	profiles["json"] = prof{traces: 60, batch: func(rs []*Rand, is []int) []M { return roundTrips(rs, is, "json") }}
	profiles["msgp"] = prof{traces: 40, batch: func(rs []*Rand, is []int) []M { return roundTrips(rs, is, "msgp") }}
}

var shapeCompiled = shape{refs: 0.15, hydration: 0.06, names: genNames, compose: 0.5, docs: 0.3, maps: 0.12, children: 0.3, inline: 0.1, nulls: 0.15, depth: 3}

// roundTrips generates packages, compiles them and takes documents through their types.
func roundTrips(rs []*Rand, is []int, how string) []M {
	dir := filepath.Join(*scratch, "mod-"+how)
	defer os.RemoveAll(dir)
	m := newModule(dir)
	traces := make([]M, len(rs))
	packs := make([]*pack, len(rs))
	for k, r := range rs {
		for packs[k] == nil {
			g := newSet(r, shapeCompiled)
			a := g.args()
			if is[k] == 0 {
				g, a = doubled(r)
			}
			g.agree()
			a.GenerateMessagePack = how == "msgp"
			packs[k] = m.add(g, a, fmt.Sprintf("p%d", is[k]))
		}
	}
	m.compile()
	var jobs []job
	for k, p := range packs {
		root := p.g.files[p.g.root]
		e := M{"ev": "compiles", "out": M{"k": "ok"}, "args": argsOf(p.a), "root": p.g.root}
		events := L{e}
		if p.fail != "" {
			e["out"], e["msg"] = M{"k": "err"}, p.fail
		} else {
			for _, u := range p.types {
				for n := 0; n < 6; n++ {
					p.g.utc = how == "msgp"
					doc := p.g.document(u)
					jobs = append(jobs, job{Type: p.name + "." + u.name, Do: how, Doc: plainJSON(doc)})
					events = append(events, M{"ev": "roundtrip", "how": how, "root": p.g.root, "path": u.path, "variant": isVariant(root, u.path),
						"args": argsOf(p.a), "in": tagDoc(doc)})
				}
			}
		}
		traces[k] = M{"n": is[k], "files": p.spec, "text": p.text, "events": events}
	}
	res := m.run(roundTripProgram, jobs, 120*time.Second)
	j := 0
	for _, t := range traces {
		for _, e := range t["events"].(L) {
			e := e.(M)
			if e["ev"] != "roundtrip" {
				continue
			}
			o := res[j]
			j++
			if s, ok := o["out"].(string); ok {
				e["out"] = M{"k": "ok", "v": TagJSON([]byte(s))}
			} else {
				e["out"] = M{"k": "err"}
				e["msg"] = o
			}
		}
	}
	return traces
}

// doubled is a set with a property in two embedded files, which is a known finding.
func doubled(r *Rand) (*set, generate.BuildArgs) {
	file := func(names ...string) M {
		ps := M{}
		for _, n := range names {
			ps[n] = M{"type": "string"}
		}
		return M{"type": "object", "properties": ps}
	}
	g := &set{r: r, o: shapeCompiled, root: "article.json", files: map[string]M{
		"article.json": {"type": "object", "allOf": L{M{"$ref": "base.json"}, M{"$ref": "common.json"}}, "oneOf": L{M{"$ref": "image.json"}, M{"$ref": "video.json"}}},
		"base.json":    file("id", "title"), "common.json": file("title", "url"), "image.json": file("crops"), "video.json": file("title", "value"),
	}}
	return g, generate.BuildArgs{}
}

func isVariant(root M, path string) bool {
	es, _ := root["oneOf"].(L)
	for _, e := range es {
		if e.(M)["$ref"] == path {
			return true
		}
	}
	return false
}

const roundTripProgram = `package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"os"

	"github.com/GannettDigital/msgp/msgp"
//imports
)

var types = map[string]func() any{
//table
}

type job struct {
	Type, Do string
	Doc      json.RawMessage
}

func do(j job) (out string, err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("panic: %v", r)
		}
	}()
	v := types[j.Type]()
	if err := json.Unmarshal(j.Doc, v); err != nil {
		return "", err
	}
	first, err := json.Marshal(v)
	if err != nil || j.Do == "json" {
		return string(first), err
	}
	raw, err := v.(msgp.Marshaler).MarshalMsg([]byte("before"))
	if err != nil {
		return "", err
	}
	if !bytes.HasPrefix(raw, []byte("before")) {
		return "", fmt.Errorf("MarshalMsg does not append")
	}
	raw = raw[6:]
	if size := v.(msgp.Sizer).Msgsize(); size < len(raw) {
		return "", fmt.Errorf("Msgsize %d for %d bytes", size, len(raw))
	}
	w := types[j.Type]()
	left, err := w.(msgp.Unmarshaler).UnmarshalMsg(append(raw[:len(raw):len(raw)], "after"...))
	if err != nil {
		return "", err
	}
	if string(left) != "after" {
		return "", fmt.Errorf("UnmarshalMsg leaves %q", left)
	}
	second, err := json.Marshal(w)
	if err != nil {
		return "", err
	}
	// the same as a stream
	var b bytes.Buffer
	if err := msgp.Encode(&b, v.(msgp.Encodable)); err != nil {
		return "", err
	}
	x := types[j.Type]()
	if err := msgp.Decode(&b, x.(msgp.Decodable)); err != nil {
		return "", err
	}
	third, err := json.Marshal(x)
	if err != nil {
		return "", err
	}
	if !bytes.Equal(second, third) {
		return "", fmt.Errorf("stream gives %s, bytes give %s", third, second)
	}
	return string(second), nil
}

func main() {
	s := bufio.NewScanner(os.Stdin)
	s.Buffer(nil, 64<<20)
	w := bufio.NewWriter(os.Stdout)
	_ = msgp.Encode
	for s.Scan() {
		var j job
		if err := json.Unmarshal(s.Bytes(), &j); err != nil {
			panic(err)
		}
		res := map[string]any{}
		out, err := do(j)
		if err != nil {
			res["err"] = err.Error()
		} else {
			res["out"] = out
		}
		raw, _ := json.Marshal(res)
		w.Write(raw)
		w.WriteByte('\n')
		w.Flush()
	}
}
`
