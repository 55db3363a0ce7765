package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"time"

	"github.com/GannettDigital/jstransform/generate"

	. "verif/vt"
)

func init() {
	profiles["avro"] = prof{traces: 60, batch: avroPackages}
}

var shapeAvro = shape{refs: 0.15, hydration: 0.06, names: append([]string{"avroId", "schema", "Get"}, genNames...), compose: 0.6, docs: 0.3, maps: 0.12, children: 0.4, inline: 0.07,
	depth: 3, apart: true, same: 0.02}

var methodNames = []string{"serialize", "schemaName", "marshalJSON", "unmarshalJSON", "avroCRC64Fingerprint", "setBoolean", "setInt", "setLong", "setFloat", "setDouble",
	"setBytes", "setString", "get", "setDefault", "appendMap", "appendArray", "nullField", "finalize", "SetString", "Finalize"}

// avroPackages generates packages with Avro, compiles them, and writes documents as container files which a reader that
// knows nothing but their own header reads.
func avroPackages(rs []*Rand, is []int) []M {
	dir := filepath.Join(*scratch, "mod-avro")
	defer os.RemoveAll(dir)
	m := newModule(dir)
	m.entry = func(p *pack, u unit) string { return "entryOf(func() any { return new(T) }, TBulkAvroWriter)" }
	traces := make([]M, len(rs))
	packs := make([]*pack, len(rs))
	for k, r := range rs {
		events := L{}
		for try := 0; packs[k] == nil; try++ {
			o := shapeAvro
			if r.P(0.25) { // names of methods of the code
				o.names = append(o.names[:len(o.names):len(o.names)], methodNames...)
			}
			g := newSet(r, o)
			a := g.args()
			if try > 20 { // it must be something
				g.root, g.files = "article.json", map[string]M{"article.json": {"type": "object", "properties": M{"a": M{"type": "string"}}}}
				a = generate.BuildArgs{}
			}
			g.agree()
			// what no structs can be made for has no Avro either
			if m.add(g, a, fmt.Sprintf("q%d", is[k])) == nil {
				continue
			}
			m.packs = m.packs[:len(m.packs)-1]
			Must(os.RemoveAll(filepath.Join(dir, fmt.Sprintf("q%d", is[k]))))
			a.GenerateAvro = true
			packs[k] = m.add(g, a, fmt.Sprintf("p%d", is[k]))
			if packs[k] == nil {
				in := filepath.Join(dir, "failed")
				spec, text := g.write(in)
				Must(os.RemoveAll(in))
				events = append(events, M{"ev": "avrobuild", "root": g.root, "args": argsOf(a), "out": M{"k": "err"}, "msg": m.why, "files": spec, "text": text})
			}
		}
		traces[k] = M{"n": is[k], "events": events, "files": packs[k].spec, "text": packs[k].text}
	}
	m.compile("vet", "-atomic", "./...")
	var jobs []job
	for k, p := range packs {
		root := p.g.files[p.g.root]
		e := M{"ev": "avrobuild", "out": M{"k": "ok"}, "args": argsOf(p.a), "root": p.g.root, "files": p.spec}
		events := append(traces[k]["events"].(L), e)
		if p.fail != "" {
			e["out"], e["msg"] = M{"k": "bad"}, p.fail
		} else {
			for _, u := range p.types {
				base := M{"root": p.g.root, "path": u.path, "variant": isVariant(root, u.path), "args": argsOf(p.a)}
				ev := func(ev string) M {
					o := M{"ev": ev}
					for k, v := range base {
						o[k] = v
					}
					return o
				}
				e := ev("avsc")
				raw, err := os.ReadFile(filepath.Join(p.dir, strings.ToLower(u.name)+".avsc"))
				e["out"] = M{"k": "err"}
				if err == nil && json.Valid(raw) {
					e["out"] = M{"k": "ok", "v": TagJSON(raw)}
				} else {
					e["msg"] = string(raw)
				}
				events = append(events, e)
				for _, how := range []string{"one", "one", "deleted", "bulk"} {
					n := 1
					if how == "bulk" {
						n = p.g.r.Intn(4)
					}
					docs, in := []json.RawMessage{}, L{}
					for ; n > 0; n-- {
						doc := p.g.document(u)
						docs, in = append(docs, plainJSON(doc)), append(in, tagDoc(doc))
					}
					t, when := moment(p.g.r)
					arg := M{"how": how, "time": M{"ns": t.Nanosecond(), "s": t.Unix()}}
					e := ev("container")
					e["how"], e["in"], e["time"] = how, in, when
					if t.IsZero() {
						e["time"] = M{"now": true}
					}
					jobs = append(jobs, job{Type: p.name + "." + u.name, Arg: arg, Doc: plainJSON(docs)})
					events = append(events, e)
				}
			}
		}
		traces[k]["events"] = events
	}
	res := m.run(avroProgram+avroReader, jobs, 120*time.Second)
	j := 0
	for _, t := range traces {
		for _, e := range t["events"].(L) {
			e := e.(M)
			if e["ev"] != "container" {
				continue
			}
			o := res[j]
			j++
			if s, ok := o["out"].(string); ok {
				v, err := Decode([]byte(s))
				Must(err)
				e["out"] = M{"k": "ok", "header": Tag(v.(M)["schema"]), "records": Tag(v.(M)["records"])["a"]}
			} else {
				e["out"] = M{"k": "err"}
				e["msg"] = o
			}
		}
	}
	return traces
}

const avroProgram = `package main

import (
	"bufio"
	"bytes"
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"hash/crc32"
	"io"
	"math"
	"os"
	"time"

	"github.com/GannettDigital/jstransform/generate"
	"github.com/golang/snappy"
//imports
)

type entry struct {
	make func() any
	bulk func(io.Writer, time.Time, []any) error
}

func entryOf[T any](mk func() any, bulk func(io.Writer, time.Time, <-chan *T) <-chan error) entry {
	return entry{mk, func(w io.Writer, t time.Time, items []any) error {
		c := make(chan *T)
		errs := bulk(w, t, c)
		for _, i := range items {
			select {
			case c <- i.(*T):
			case err := <-errs:
				return err
			}
		}
		close(c)
		return <-errs
	}}
}

var types = map[string]entry{
//table
}

type job struct {
	Type string
	Doc  []json.RawMessage
	Arg  struct {
		How  string
		Time struct{ S, Ns int64 }
	}
}

func do(j job) (out string, err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("panic: %v", r)
		}
	}()
	var vs []any
	for _, d := range j.Doc {
		v := types[j.Type].make()
		if err := json.Unmarshal(d, v); err != nil {
			return "", err
		}
		vs = append(vs, v)
	}
	t := time.Unix(j.Arg.Time.S, j.Arg.Time.Ns).UTC()
	zero := t.IsZero()
	var b bytes.Buffer
	before := time.Now()
	switch j.Arg.How {
	case "one":
		err = vs[0].(generate.AvroCFWriter).WriteAvroCF(&b, t)
	case "deleted":
		err = vs[0].(generate.AvroCFDeleter).WriteAvroDeletedCF(&b, t)
	default:
		err = types[j.Type].bulk(&b, t, vs)
	}
	if err != nil {
		return "", err
	}
	after := time.Now()
	schema, records, err := read(b.Bytes())
	if err != nil {
		return "", fmt.Errorf("reading the container: %v", err)
	}
	for _, r := range records {
		o := r.(map[string]any)
		if ms, ok := o["AvroWriteTime"].(int64); ok {
			o["AvroWriteTime"] = millis(ms)
			if zero && ms >= before.UnixMilli() && ms <= after.UnixMilli() {
				o["AvroWriteTime"] = map[string]any{"now": true}
			}
		}
	}
	raw, err := json.Marshal(map[string]any{"schema": schema, "records": records})
	return string(raw), err
}

func main() {
	s := bufio.NewScanner(os.Stdin)
	s.Buffer(nil, 64<<20)
	w := bufio.NewWriter(os.Stdout)
	for s.Scan() {
		var j job
		if err := json.Unmarshal(s.Bytes(), &j); err != nil {
			panic(err)
		}
		res := map[string]any{}
		out, err := do(j)
		if err != nil {
			res["err"] = err.Error()
		} else {
			res["out"] = out
		}
		raw, _ := json.Marshal(res)
		w.Write(raw)
		w.WriteByte('\n')
		w.Flush()
	}
}
`

// avroReader is the part of a program which reads container files using nothing but what is in them.
const avroReader = `
func millis(n int64) map[string]any {
	d, ms := n/86400000, n%86400000
	if ms < 0 {
		d, ms = d-1, ms+86400000
	}
	return map[string]any{"d": d, "ms": ms}
}

// read is a reader of container files which uses nothing but what is in them.
func read(raw []byte) (schema json.RawMessage, records []any, err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("%v", r)
		}
	}()
	records = []any{}
	if len(raw) == 0 {
		return json.RawMessage("null"), records, nil
	}
	d := &decoder{raw}
	if string(d.take(4)) != "Obj\x01" {
		return nil, nil, errors.New("no container file")
	}
	meta := map[string]string{}
	for n := d.long(); n != 0; n = d.long() {
		if n < 0 {
			d.long()
			n = -n
		}
		for ; n > 0; n-- {
			k := d.str()
			meta[k] = d.str()
		}
	}
	sync := string(d.take(16))
	var s any
	if err := json.Unmarshal([]byte(meta["avro.schema"]), &s); err != nil {
		return nil, nil, err
	}
	for len(d.b) > 0 {
		n := d.long()
		data := d.take(int(d.long()))
		switch meta["avro.codec"] {
		case "snappy":
			sum := binary.BigEndian.Uint32(data[len(data)-4:])
			if data, err = snappy.Decode(nil, data[:len(data)-4]); err != nil {
				return nil, nil, err
			}
			if crc32.ChecksumIEEE(data) != sum {
				return nil, nil, errors.New("wrong checksum")
			}
		case "", "null":
		default:
			return nil, nil, errors.New("codec " + meta["avro.codec"])
		}
		block := &decoder{data}
		for ; n > 0; n-- {
			records = append(records, block.value(s))
		}
		if len(block.b) > 0 {
			return nil, nil, errors.New("more in the block than records")
		}
		if string(d.take(16)) != sync {
			return nil, nil, errors.New("wrong mark after the block")
		}
	}
	return json.RawMessage(meta["avro.schema"]), records, nil
}

type decoder struct{ b []byte }

func (d *decoder) take(n int) []byte {
	if n < 0 || n > len(d.b) {
		panic("ends too early")
	}
	b := d.b[:n]
	d.b = d.b[n:]
	return b
}

func (d *decoder) long() int64 {
	var u uint64
	for shift := 0; ; shift += 7 {
		c := d.take(1)[0]
		u |= uint64(c&0x7f) << shift
		if c < 0x80 {
			return int64(u>>1) ^ -int64(u&1)
		}
	}
}

func (d *decoder) str() string { return string(d.take(int(d.long()))) }

func (d *decoder) value(s any) any {
	switch t := s.(type) {
	case []any:
		return d.value(t[d.long()])
	case map[string]any:
		switch t["type"] {
		case "record":
			m := map[string]any{}
			for _, f := range t["fields"].([]any) {
				f := f.(map[string]any)
				m[f["name"].(string)] = d.value(f["type"])
			}
			return m
		case "array":
			l := []any{}
			d.blocks(func() { l = append(l, d.value(t["items"])) })
			return l
		case "map":
			m := map[string]any{}
			d.blocks(func() { k := d.str(); m[k] = d.value(t["values"]) })
			return m
		}
		if t["logicalType"] == "timestamp-millis" {
			return millis(d.long())
		}
		return d.value(t["type"])
	}
	switch s {
	case "null":
		return nil
	case "boolean":
		return d.take(1)[0] == 1
	case "long":
		return d.long()
	case "double":
		return math.Float64frombits(binary.LittleEndian.Uint64(d.take(8)))
	case "string":
		return d.str()
	}
	panic(fmt.Sprintf("type %v", s))
}

func (d *decoder) blocks(f func()) {
	for n := d.long(); n != 0; n = d.long() {
		if n < 0 {
			d.long()
			n = -n
		}
		for ; n > 0; n-- {
			f()
		}
	}
}

`
