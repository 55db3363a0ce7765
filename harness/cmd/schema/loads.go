package main

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"sync"

	"github.com/GannettDigital/jstransform/jsonschema"

	. "verif/vt"
)

// A history of loads for Loading.tla.
type loadRun struct {
	mu     sync.Mutex
	events L
	ptrs   map[*jsonschema.Schema]int
	jobs   []job
}

func (x *loadRun) event(e M) { x.events = append(x.events, e) }

func argOf(j job) string { return fmt.Sprintf("%s|%s|%v", j.File, j.One, j.Flatten) }

// alone loads in processes of their own, until one does not end as it should.
func (x *loadRun) alone() bool {
	for _, j := range x.jobs {
		out := isolate(j)
		x.event(M{"ev": "alone", "arg": argOf(j), "out": out})
		if out == "hang" || out == "died" || out == "panic" {
			return false
		}
	}
	return true
}

func (x *loadRun) load(c int, j job) {
	x.mu.Lock()
	x.event(M{"ev": "start", "c": c, "arg": argOf(j)})
	x.mu.Unlock()
	s, out, _ := loaded(j.File, j.One, j.Flatten)
	sum := summary(s, out, j.Docs)
	x.mu.Lock()
	defer x.mu.Unlock()
	p := 0
	if s != nil {
		if x.ptrs[s] == 0 {
			x.ptrs[s] = len(x.ptrs) + 1
		}
		p = x.ptrs[s]
	}
	x.event(M{"ev": "end", "c": c, "out": sum, "ptr": p})
}

// loadsTrace loads files which share others, from several goroutines.
func loadsTrace(r *Rand, i int) M {
	g := &fileGen{r: r, o: opts{refs: 0.4, files: 5, allOf: 0.4, oneOf: 0.4, depth: 2, circle: 0.05, missing: 0.1}}
	g.generate()
	if r.P(g.o.circle) {
		g.spoil(false)
	}
	if r.P(g.o.missing) {
		g.spoil(true)
	}
	dir := filepath.Join(*scratch, fmt.Sprintf("l%d", i))
	defer os.RemoveAll(dir)
	_, text := g.write(dir)
	x := &loadRun{ptrs: map[*jsonschema.Schema]int{}}
	seen := map[string]bool{}
	for n := 0; n < 8; n++ {
		j := job{File: filepath.Join(dir, g.names[r.Intn(len(g.names))]), One: r.Pick("", "a", "A", "c", "d", "d1"), Flatten: r.P(0.5)}
		if !seen[argOf(j)] {
			seen[argOf(j)] = true
			j.Docs = docs(r)
			x.jobs = append(x.jobs, j)
			if j.One != "" && r.P(0.2) {
				// another file whose path is that of this one and the type
				k := job{File: j.File + r.Pick("", "", "|") + j.One, Flatten: j.Flatten, Docs: j.Docs}
				raw := Render(r, M{"type": "object", "properties": M{"other": M{"type": "string"}}})
				if !seen[argOf(k)] && os.WriteFile(k.File, raw, 0o644) == nil {
					seen[argOf(k)] = true
					x.jobs = append(x.jobs, k)
				}
			}
		}
	}
	if !x.alone() {
		return M{"text": text, "events": x.events}
	}
	var wg sync.WaitGroup
	start := make(chan bool)
	for c := 0; c < 6; c++ {
		wg.Add(1)
		r := NewRand(r.Int63(), int64(c))
		go func() {
			defer wg.Done()
			<-start
			for n := 0; n < 4; n++ {
				x.load(c, x.jobs[r.Intn(len(x.jobs))])
			}
		}()
	}
	close(start)
	wg.Wait()
	for _, j := range x.jobs {
		x.load(0, j)
	}
	x.event(M{"ev": "quiet"})
	return M{"text": text, "events": x.events}
}

func docs(r *Rand) []string {
	return []string{r.Pick("{}", `{"a":1}`, `{"name":"x","value":2}`), r.Pick("[]", `["x"]`, "5", `{"a":`)}
}

// rewrittenTrace loads a file again and again while it changes.
func rewrittenTrace(r *Rand, i int) M {
	dir := filepath.Join(*scratch, fmt.Sprintf("w%d", i))
	defer os.RemoveAll(dir)
	Must(os.MkdirAll(dir, 0o755))
	file := filepath.Join(dir, "main.json")
	x := &loadRun{ptrs: map[*jsonschema.Schema]int{}}
	text := L{}
	for v := 0; v < 4; v++ {
		g := &fileGen{r: r, o: opts{refs: 0.2, files: 1, allOf: 0.2, depth: 2}}
		g.generate()
		raw := Render(r, g.files["main.json"])
		if !bytes.HasPrefix([]byte(g.names[0]), []byte("main")) {
			raw = Render(r, g.files[g.names[0]])
		}
		if r.P(0.5) {
			raw = []byte(r.Pick("", "{", `{"type":5}`, `{"properties":{"a":{"$ref":"none.json"}}}`, `{"properties":{"a":{"$ref":"#/definitions/x"}}}`, "nothing", "[]"))
		}
		text = append(text, string(raw))
		os.Remove(file)
		if v > 0 || r.P(0.6) {
			Must(os.WriteFile(file, raw, 0o644))
		}
		if v == 0 {
			for _, one := range []string{"", "a", "A"} {
				x.jobs = append(x.jobs, job{File: file, One: one, Flatten: true}, job{File: file, One: one})
			}
		}
		if !x.alone() {
			return M{"text": text, "events": x.events}
		}
		for n := 0; n < 3; n++ {
			x.load(0, x.jobs[r.Intn(len(x.jobs))])
		}
	}
	x.event(M{"ev": "quiet"})
	return M{"text": text, "events": x.events}
}
