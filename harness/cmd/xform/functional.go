package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/GannettDigital/jstransform/jsonschema"
	"github.com/GannettDigital/jstransform/transform"

	. "verif/vt"
)

// A functional trace for Functional.tla: what every call returned, next to what the same call returns alone, first
// thing in a process of its own.

type job struct {
	Path, Ident    string
	XML, Validate  bool
	Text           []byte
	idents, inputs int
}

// A result is what a call returned, and the bytes it returned as the caller keeps them.
type result struct {
	c, id, in int
	text      string
	raw       json.RawMessage
}

// perform runs one call.  The caller uses the buffer of the input for something else afterwards.
func perform(tr transformer, validate bool, text []byte) (res result) {
	how, detail := Guard(20*time.Second, func() {
		in := append([]byte{}, text...)
		var o json.RawMessage
		var err error
		if validate {
			o, err = tr.Transform(in)
		} else {
			o, err = tr.TransformNoValidation(in)
		}
		switch {
		case err != nil:
			res.text = "error"
		default:
			res.raw = o
			res.text = res.now()
		}
		if !bytes.Equal(in, text) {
			res.text = "changed the input"
		}
		for i := range in {
			in[i] = '#'
		}
	})
	if how != "" {
		return result{text: how + " " + strings.SplitN(detail, "\n", 2)[0]}
	}
	return res
}

// now is what the bytes returned by the call say now.
func (r result) now() string { return "=" + string(ASCIIText(r.raw)) }

// ASCIIText escapes what is not ASCII.
func ASCIIText(b []byte) []byte {
	var o bytes.Buffer
	for _, r := range string(b) {
		if r < 127 {
			o.WriteRune(r)
		} else {
			fmt.Fprintf(&o, `\u{%x}`, r)
		}
	}
	return o.Bytes()
}

func transformerFor(path, ident string, xml bool) (tr transformer, made string) {
	how, detail := Guard(20*time.Second, func() {
		s, err := jsonschema.SchemaFromFile(path, "")
		if err != nil {
			made = "noschema"
			return
		}
		var x *transform.Transformer
		if xml {
			x, err = transform.NewXMLTransformer(s, ident)
		} else {
			x, err = transform.NewTransformer(s, ident)
		}
		made = "error"
		if err == nil {
			made, tr = "ok", x
		}
	})
	if how != "" {
		return nil, how + " " + detail
	}
	return tr, made
}

// isolated is the process which only runs one job.
func isolated() {
	var j job
	Must(json.NewDecoder(os.Stdin).Decode(&j))
	tr, made := transformerFor(j.Path, j.Ident, j.XML)
	if tr == nil {
		fmt.Print(made)
		return
	}
	fmt.Print(perform(tr, j.Validate, j.Text).text)
}

func isolate(j job) string {
	in, err := json.Marshal(j)
	Must(err)
	c := exec.Command(*helper, "-isolated")
	c.Stdin = bytes.NewReader(in)
	out, err := c.Output()
	if err != nil {
		return "died " + err.Error()
	}
	return string(out)
}

// functional runs the history of a trace. write returns the schema and inputs, in another notation every time.
func (g *gen) functional(t M, i int, validate func() bool, write func() (string, [][]byte)) M {
	p := g.p
	path := func(v int) string { return filepath.Join(*scratch, fmt.Sprintf("s%d_%d.json", i, v)) }
	var files []string
	save := func(schema string) string {
		f := path(len(files))
		Must(os.WriteFile(f, []byte(schema), 0o644))
		files = append(files, f)
		return f
	}
	defer func() {
		for _, f := range files {
			os.Remove(f)
		}
	}()
	schema, texts := write()
	t["schema"] = schema
	t["inputs"] = L{}
	for _, x := range texts {
		t["inputs"] = append(t["inputs"].(L), string(ASCIIText(x)))
	}
	val := validate()
	idents := []string{"t", "other"}
	if p.Equivalent {
		idents = idents[:1]
	}
	file := save(schema)
	events := L{}
	event := func(ev string, c, id, in int, out string) {
		events = append(events, M{"ev": ev, "c": c, "id": id, "in": in, "out": out})
	}
	var held []result
	called := func(ev string, c, id, in int, r result) {
		event(ev, c, id, in, r.text)
		if r.raw != nil {
			r.c, r.id, r.in = c, id, in
			held = append(held, r)
		}
	}

	// alone; an input which comes again has the number of its first appearance
	number := make([]int, len(texts))
	for n := range texts {
		number[n] = n
		for m := 0; m < n; m++ {
			if bytes.Equal(texts[m], texts[n]) {
				number[n] = m
				break
			}
		}
		if number[n] != n {
			continue
		}
		for id, ident := range idents {
			event("alone", 0, id, n, isolate(job{Path: file, Ident: ident, XML: p.XML, Validate: val, Text: texts[n]}))
		}
	}
	made := func(file, ident string, id int) transformer {
		tr, how := transformerFor(file, ident, p.XML)
		if tr == nil {
			for n := range texts {
				if number[n] == n {
					event("call", 0, id, n, how)
				}
			}
		}
		return tr
	}
	switch {
	case p.Equivalent:
		for v := 0; v < 5; v++ {
			f, in := file, texts
			if v > 0 {
				var s string
				s, in = write()
				f = save(s)
			}
			if tr := made(f, "t", 0); tr != nil {
				for n := range in {
					called("call", 0, 0, number[n], perform(tr, val, in[n]))
				}
			}
		}
	case p.Conc > 0:
		var trs []transformer
		for id, ident := range idents {
			trs = append(trs, made(file, ident, id))
		}
		// every caller has its own list, a common one with a lock would keep data races from being seen
		type moment struct {
			at time.Time
			do func()
		}
		var wg sync.WaitGroup
		start := make(chan struct{})
		lists := make([][]moment, p.Conc)
		for c := 0; c < p.Conc; c++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				for k := range texts {
					n := (k + c) % len(texts)
					id := 0
					if k%4 == 3 {
						id = 1
					}
					if trs[id] == nil {
						continue
					}
					before := time.Now()
					out := perform(trs[id], val, texts[n])
					lists[c] = append(lists[c], moment{before, func() { event("start", c, id, number[n], "") }},
						moment{time.Now(), func() { called("end", c, id, number[n], out) }})
				}
			}()
		}
		close(start)
		wg.Wait()
		var all []moment
		for _, l := range lists {
			all = append(all, l...)
		}
		sort.SliceStable(all, func(i, j int) bool { return all[i].at.Before(all[j].at) })
		for _, m := range all {
			m.do()
		}
	default:
		var trs []transformer
		for id, ident := range idents {
			trs = append(trs, made(file, ident, id))
		}
		for n := range texts {
			for id, tr := range trs {
				if tr != nil && (id == 0 || n%3 == 2) {
					called("call", 0, id, number[n], perform(tr, val, texts[n]))
				}
			}
		}
	}
	for _, r := range held {
		event("held", r.c, r.id, r.in, r.now())
	}
	t["events"] = events
	return t
}
