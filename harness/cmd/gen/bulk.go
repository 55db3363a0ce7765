package main

import (
	"fmt"
	"os"
	"path/filepath"
	"time"

	"github.com/GannettDigital/jstransform/generate"

	. "verif/vt"
)

func init() {
	profiles["bulk"] = prof{traces: 1500, batch: bulkWriters}
}

// bulkWriters has bulk writers of a generated package write to files that fail, are slow, or work, and records what
// happens.
func bulkWriters(rs []*Rand, is []int) []M {
	dir := filepath.Join(*scratch, "mod-bulk")
	defer os.RemoveAll(dir)
	m := newModule(dir)
	m.entry = func(p *pack, u unit) string { return "entryOf(TBulkAvroWriter)" }
	g := &set{root: "article.json", files: map[string]M{
		"article.json": {"type": "object", "oneOf": L{M{"$ref": "image.json"}, M{"$ref": "video.json"}}, "allOf": L{M{"$ref": "base.json"}}},
		"base.json":    {"type": "object", "properties": M{"id": M{"type": "integer"}}, "required": L{"id"}},
		"image.json":   {"type": "object", "properties": M{"crops": M{"type": "array", "items": M{"type": "object", "properties": M{"name": M{"type": "string"}, "width": M{"type": "number"}}}}}},
		"video.json":   {"type": "object", "properties": M{"title": M{"type": "string"}, "length": M{"type": "number"}}},
	}}
	g.r = NewRand(1, 1)
	why := ""
	var types []string
	for n, a := range []generate.BuildArgs{
		{},
		{NoNestedStructs: true, StructNameMap: map[string]string{"video": "film", "base": "basis"}},
		{Pointers: true, FieldNameMap: map[string]string{"title": "headline"}, DescriptionAsStructTag: true},
	} {
		a.GenerateAvro = true
		p := m.add(g, a, fmt.Sprint("p", n))
		if p == nil {
			why = "generating: " + m.why
			break
		}
		for _, u := range p.types {
			types = append(types, p.name+"."+u.name)
		}
	}
	if why == "" {
		m.compile()
		for _, p := range m.packs {
			if p.fail != "" {
				why = "compiling: " + p.fail
			}
		}
	}
	if why != "" {
		return []M{{"n": is[0], "items": L{}, "events": L{M{"ev": "none", "msg": why}}}}
	}
	var jobs []job
	for _, r := range rs {
		n := r.Intn(7)
		items := L{}
		for i := 1; i <= n; i++ {
			if r.P(0.08) {
				items = append(items, L{0, true})
			} else {
				items = append(items, L{i, false})
			}
		}
		arg := M{"items": items, "fail": -1, "part": r.P(0.3), "deaf": r.P(0.3), "late": r.P(0.4), "buffer": r.Pick("", "", "1", "3"),
			"slowSend": r.Intn(3) * r.Intn(300), "slowWrite": r.Intn(3) * r.Intn(200), "seconds": r.Intn(2000000000), "early": r.P(0.1), "now": r.P(0.15), "unread": r.P(0.15)}
		if r.P(0.5) {
			arg["fail"] = r.Intn(3 + 6*n)
		}
		jobs = append(jobs, job{Type: types[r.Intn(len(types))], Arg: arg})
	}
	os.Setenv("GORACE", "halt_on_error=1 exitcode=66")
	res := m.run(bulkProgram+avroReader, jobs, 200*time.Second, "-race")
	traces := make([]M, len(rs))
	for k := range rs {
		events, ok := res[k]["events"].([]any)
		if !ok {
			events = L{M{"ev": "stuck", "msg": res[k]}}
		}
		traces[k] = M{"n": is[k], "items": jobs[k].Arg.(M)["items"], "arg": jobs[k].Arg, "type": jobs[k].Type, "events": L(events)}
	}
	return traces
}

const bulkProgram = `package main

import (
	"bufio"
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"hash/crc32"
	"io"
	"math"
	"math/rand"
	"os"
	"runtime"
	"strings"
	"sync"
	"time"

	"github.com/golang/snappy"
//imports
)

type session func(w io.Writer, t time.Time, buffer int) (send func(item any, stop <-chan error, dead <-chan bool) (sent bool, err error, open bool), done func(), errs <-chan error)

func entryOf[T any](bulk func(io.Writer, time.Time, <-chan *T) <-chan error) session {
	return func(w io.Writer, t time.Time, buffer int) (func(any, <-chan error, <-chan bool) (bool, error, bool), func(), <-chan error) {
		c := make(chan *T, buffer)
		errs := bulk(w, t, c)
		send := func(doc any, stop <-chan error, dead <-chan bool) (bool, error, bool) {
			var item *T
			if doc != nil {
				item = new(T)
				raw, _ := json.Marshal(doc)
				if err := json.Unmarshal(raw, item); err != nil {
					panic(err)
				}
			}
			select {
			case c <- item:
				return true, nil, true
			case err, open := <-stop:
				return false, err, open
			case <-dead:
				return false, nil, true
			}
		}
		return send, func() { close(c) }, errs
	}
}

var types = map[string]session{
//table
}

type job struct {
	Type string
	Arg  struct {
		Items               [][2]any
		Fail                int
		Part, Deaf, Late    bool
		Early, Now, Unread  bool
		Buffer              string
		SlowSend, SlowWrite int
		Seconds             int64
	}
}

var errInjected = errors.New("the disk is full")

type file struct {
	mu     sync.Mutex
	j      job
	b      []byte
	n      int
	events []map[string]any
	ms     int64
	start  int64
}

func (f *file) log(ev string, more map[string]any) {
	f.mu.Lock()
	defer f.mu.Unlock()
	f.add(ev, more)
}

func (f *file) add(ev string, more map[string]any) {
	m := map[string]any{"ev": ev}
	for k, v := range more {
		m[k] = v
	}
	f.events = append(f.events, m)
}

func pause(micros int) {
	if micros > 0 {
		time.Sleep(time.Duration(rand.Intn(micros)) * time.Microsecond)
	}
}

func (f *file) Write(p []byte) (int, error) {
	pause(f.j.Arg.SlowWrite)
	f.mu.Lock()
	defer f.mu.Unlock()
	n, err := len(p), error(nil)
	if f.n == f.j.Arg.Fail {
		n, err = 0, errInjected
		if f.j.Arg.Part {
			n = len(p) / 2
		}
	}
	f.n++
	f.b = append(f.b, p[:n]...)
	f.add("write", map[string]any{"ok": err == nil, "got": f.records()})
	return n, err
}

// records are the complete records in the file.
func (f *file) records() []any {
	_, rs, err := read(f.b)
	l := []any{}
	if err != nil && err.Error() != "ends too early" {
		return []any{[]any{-1, err.Error()}}
	}
	for _, r := range rs {
		m := r.(map[string]any)
		if f.j.Arg.Now && f.ms < 0 {
			// the time of writing, the same for all
			if at, ok := m["AvroWriteTime"].(int64); ok && at >= f.start && at <= time.Now().UnixMilli() {
				f.ms = at
			}
		}
		if m["AvroWriteTime"] != f.ms {
			return []any{[]any{-2, true}}
		}
		l = append(l, []any{m["id"], m["AvroDeleted"]})
	}
	return l
}

// running tells whether generated code runs.
func running() bool {
	b := make([]byte, 1<<20)
	for _, l := range strings.Split(string(b[:runtime.Stack(b, true)]), "\n") {
		if strings.HasPrefix(strings.TrimPrefix(l, "created by "), "gen/p") {
			return true
		}
	}
	return false
}

func do(j job) []map[string]any {
	f := &file{j: j}
	a := j.Arg
	t := time.Unix(a.Seconds, 5e6)
	f.ms = t.UnixMilli()
	if a.Now {
		t, f.ms, f.start = time.Time{}, -1, time.Now().UnixMilli()
	}
	buffer := 0
	fmt.Sscan(a.Buffer, &buffer)
	send, done, errs := types[j.Type](f, t, buffer)
	ended := make(chan bool)
	senderDone := make(chan bool)
	stop := errs
	if a.Deaf || a.Unread {
		stop = nil
	}
	go func() {
		defer close(senderDone)
		for i, it := range a.Items {
			pause(a.SlowSend)
			var doc any
			if it[1] == false {
				doc = map[string]any{"id": it[0], "title": strings.Repeat("t", i*40), "crops": []any{map[string]any{"name": "n", "width": i}}}
			}
			f.log("sending", map[string]any{"i": i + 1})
			sent, err, open := send(doc, stop, ended)
			if !sent {
				if err != nil {
					f.log("told", map[string]any{"same": strings.Contains(err.Error(), errInjected.Error())})
				}
				_ = open
				f.log("gaveup", nil)
				if a.Early {
					f.log("closing", nil)
					done()
				}
				return
			}
			f.log("sent", map[string]any{"i": i + 1})
		}
		f.log("closing", nil)
		done()
	}()
	if a.Late {
		select {
		case <-senderDone:
		case <-time.After(30 * time.Millisecond):
		}
	}
	if a.Unread {
		// nobody reads the errors before it is gone
		for t := time.Now(); running(); time.Sleep(100 * time.Microsecond) {
			if time.Since(t) > 10*time.Second {
				f.log("stuck", nil)
				f.mu.Lock()
				defer f.mu.Unlock()
				return f.events
			}
		}
		f.log("gone", nil)
	}
	limit := time.After(10 * time.Second)
	for {
		select {
		case err, open := <-errs:
			if !open {
				// what the sender was told is in the log before the end
				close(ended)
				<-senderDone
				f.log("ended", nil)
				time.Sleep(200 * time.Microsecond)
				f.mu.Lock()
				defer f.mu.Unlock()
				_, _, err := read(f.b)
				f.add("file", map[string]any{"whole": err == nil, "got": f.records()})
				return f.events
			}
			f.log("told", map[string]any{"same": err != nil && strings.Contains(err.Error(), errInjected.Error())})
		case <-limit:
			f.mu.Lock()
			defer f.mu.Unlock()
			f.add("stuck", nil)
			return f.events
		}
	}
}

func main() {
	s := bufio.NewScanner(os.Stdin)
	s.Buffer(nil, 64<<20)
	w := bufio.NewWriter(os.Stdout)
	var jobs []job
	for s.Scan() {
		var j job
		if err := json.Unmarshal(s.Bytes(), &j); err != nil {
			panic(err)
		}
		jobs = append(jobs, j)
	}
	res := make([][]map[string]any, len(jobs))
	work := make(chan int)
	var wg sync.WaitGroup
	for k := 0; k < 12; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range work {
				res[i] = do(jobs[i])
			}
		}()
	}
	for i, j := range jobs {
		if !j.Arg.Unread {
			work <- i
		}
	}
	close(work)
	wg.Wait()
	// these one after another
	for i, j := range jobs {
		if j.Arg.Unread {
			res[i] = do(j)
		}
	}
	for _, r := range res {
		raw, _ := json.Marshal(map[string]any{"events": r})
		w.Write(raw)
		w.WriteByte('\n')
	}
	w.Flush()
}
`
