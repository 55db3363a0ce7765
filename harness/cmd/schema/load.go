package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"
	"syscall"
	"time"

	"github.com/GannettDigital/jstransform/jsonschema"

	. "verif/vt"
)

func plainJSON(v interface{}) []byte {
	b, err := json.Marshal(v)
	Must(err)
	return b
}

func load(file, one string, flatten bool) (*jsonschema.Schema, error) {
	if flatten {
		return jsonschema.SchemaFromFile(file, one)
	}
	return jsonschema.SchemaFromFileNoFlatten(file, one)
}

// loaded is what a load returns: the tagged instance and whether additional properties are allowed.
func loaded(file, one string, flatten bool) (s *jsonschema.Schema, out M, msg string) {
	how, detail := Guard(20*time.Second, func() {
		var err error
		s, err = load(file, one, flatten)
		switch {
		case err != nil && s != nil:
			out = M{"k": "both"}
		case err != nil:
			out, msg = M{"k": "err"}, err.Error()
		default:
			raw, err := json.Marshal(s.Instance)
			Must(err)
			out = TagJSON(raw)
		}
	})
	if how != "" {
		return nil, M{"k": how}, detail
	}
	return s, out, msg
}

// job is a load in a process of its own.
type job struct {
	File, One string
	Flatten   bool
	Docs      []string
}

func isolated() {
	debug.SetMaxStack(64 << 20)
	lim := syscall.Rlimit{Cur: 3 << 30, Max: 3 << 30}
	syscall.Setrlimit(syscall.RLIMIT_AS, &lim)
	var j job
	Must(json.NewDecoder(os.Stdin).Decode(&j))
	s, out, _ := loaded(j.File, j.One, j.Flatten)
	fmt.Print(summary(s, out, j.Docs))
}

// summary is the text of what was loaded, and of how it judges the documents.
func summary(s *jsonschema.Schema, out M, docs []string) string {
	var b bytes.Buffer
	if s == nil {
		return out["k"].(string)
	}
	b.Write(ASCII(out))
	fmt.Fprint(&b, " ", s.AdditionalProperties)
	for _, d := range docs {
		ok, err := s.Validate([]byte(d))
		fmt.Fprint(&b, " ", ok, err == nil)
	}
	return b.String()
}

func isolate(j job) string {
	c := exec.Command(*helper, "-isolated")
	c.Stdin = bytes.NewReader(plainJSON(j))
	var out bytes.Buffer
	c.Stdout = &out
	Must(c.Start())
	t := time.AfterFunc(30*time.Second, func() { c.Process.Kill() })
	err := c.Wait()
	if !t.Stop() {
		Hangs.Add(1)
		return "hang"
	}
	if err != nil {
		return "died"
	}
	if out.String() == "hang" {
		Hangs.Add(1)
	}
	return out.String()
}

// filesTrace loads generated files in several ways.
func filesTrace(o opts, what func(*fileGen, *jsonschema.Schema, string) L) func(r *Rand, i int) M {
	return func(r *Rand, i int) M {
		g := &fileGen{r: r, o: o}
		g.generate()
		if r.P(o.circle) {
			g.spoil(false)
		}
		if r.P(o.missing) {
			g.spoil(true)
		}
		dir := filepath.Join(*scratch, fmt.Sprintf("f%d", i))
		defer os.RemoveAll(dir)
		g.finish(fmt.Sprint("s", i))
		spec, text := g.write(dir)
		events := L{}
		for n := 0; n < 3; n++ {
			name := g.names[0]
			if n > 0 && r.P(0.4) {
				name = g.names[r.Intn(len(g.names))]
			}
			one := r.Pick("", "a", "A", "a", "b", "c", "d", "d1", "e", "h", "f", "none")
			flatten := r.P(0.6)
			file := filepath.Join(dir, name)
			e := M{"ev": "load", "file": name, "one": one, "flatten": flatten}
			var s *jsonschema.Schema
			if o.circle > 0 {
				loadAlone(e, file, one, flatten)
			} else {
				var msg string
				s, e["out"], msg = loaded(file, one, flatten)
				e["addl"] = s != nil && s.AdditionalProperties
				if msg != "" {
					e["msg"] = msg
				}
			}
			events = append(events, e)
			if s != nil && what != nil {
				for _, x := range what(g, s, file) {
					m := x.(M)
					m["file"], m["one"], m["flatten"] = name, one, flatten
					events = append(events, m)
				}
			}
			if r.P(0.4) {
				events = append(events, typesEvent(file, name))
			}
		}
		return M{"files": spec, "text": text, "events": events}
	}
}

func typesEvent(file, name string) M {
	strs := func(ss []string) L {
		l := L{}
		for _, s := range ss {
			l = append(l, s)
		}
		return l
	}
	e := M{"ev": "types", "file": name}
	all, one, props, err := jsonschema.SchemaTypes(file)
	e["all"], e["oneOf"], e["props"], e["err"] = strs(all), strs(one), strs(props), err != nil
	return e
}
