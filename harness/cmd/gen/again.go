package main

import (
	"bytes"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io/fs"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"runtime/debug"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/GannettDigital/jstransform/generate"

	. "verif/vt"
)

func init() {
	profiles["again"] = prof{traces: 160, run: againTrace}
}

// isolated builds in a process of its own.
func isolated() {
	debug.SetMaxStack(64 << 20)
	lim := syscall.Rlimit{Cur: 3 << 30, Max: 3 << 30}
	syscall.Setrlimit(syscall.RLIMIT_AS, &lim)
	var j isolatedJob
	Must(json.NewDecoder(os.Stdin).Decode(&j))
	var res string
	switch j.Fn {
	case "BuildStructs":
		res = guarded(func() error { return generate.BuildStructs(j.SchemaPath, j.OutputDir, j.GenerateMessagePack) })
	case "BuildStructsRename":
		res = guarded(func() error {
			return generate.BuildStructsRename(j.SchemaPath, j.OutputDir, j.GenerateMessagePack, j.StructNameMap)
		})
	default:
		res, _ = build(j.BuildArgs)
	}
	if res != "" {
		os.Stderr.WriteString("RESULT " + res + "\n")
		os.Exit(9)
	}
}

// isolatedJob is a build, with another function than BuildStructsWithArgs if one is named.
type isolatedJob struct {
	generate.BuildArgs
	Fn string
}

func guarded(f func() error) (res string) {
	how, _ := Guard(60*time.Second, func() {
		if f() != nil {
			res = "err"
		}
	})
	if how != "" {
		return how
	}
	return res
}

func isolate(a generate.BuildArgs) string { return isolateIn("", isolatedJob{BuildArgs: a}) }

// isolateIn does the job in a process whose working directory is dir.
func isolateIn(dir string, j isolatedJob) string {
	c := exec.Command(*helper, "-isolated")
	c.Dir = dir
	c.Stdin = bytes.NewReader(plainJSON(j))
	var out bytes.Buffer
	c.Stderr = &out
	Must(c.Start())
	t := time.AfterFunc(60*time.Second, func() { c.Process.Kill() })
	err := c.Wait()
	if !t.Stop() {
		return "hang"
	}
	if err == nil {
		return ""
	}
	if i := strings.Index(out.String(), "RESULT "); i >= 0 {
		return strings.TrimSpace(out.String()[i+7:])
	}
	return "died " + err.Error()
}

// tree are the files below a directory, by what is in them.
func tree(dir string) M {
	m := M{}
	filepath.WalkDir(dir, func(p string, d fs.DirEntry, err error) error {
		if err == nil && !d.IsDir() {
			raw, err := os.ReadFile(p)
			Must(err)
			sum := sha256.Sum256(raw)
			rel, _ := filepath.Rel(dir, p)
			m[rel] = fmt.Sprint(len(raw), " ", hex.EncodeToString(sum[:8]))
		}
		return nil
	})
	return m
}

// globals of the libraries Avro and message pack code are made with allow one build at a time
var oneBuild sync.Mutex

// againTrace generates code from the same schema again, written in other ways and with others at the same time.
func againTrace(r *Rand, i int) M {
	o := shapeStructs
	if r.P(0.6) {
		o = shapeCompiled
	}
	g := newSet(r, o)
	dir := filepath.Join(*scratch, fmt.Sprintf("again%d", i))
	defer os.RemoveAll(dir)
	a := g.args()
	a.ImportPath = "gen/pkg"
	if r.P(0.5) {
		a.GenerateGraphQL, a.NoNestedStructs = true, true
		a.InterfaceFiles, a.ScalarAny = r.P(0.5), r.P(0.3)
		if r.P(0.5) {
			a.GraphQLTypeNameMap = map[string]string{"image": "Picture", "video": "Film", "article": "Text"}
		}
	}
	a.GenerateMessagePack = r.P(0.3)
	a.GenerateAvro = r.P(0.3)
	if a.GenerateMessagePack || a.GenerateAvro {
		g.agree()
	}
	text := M{}
	var mu sync.Mutex
	events := L{}
	n := 0
	// where a build reads and writes: files written in another way in another directory
	placeOf := func(g *set) generate.BuildArgs {
		mu.Lock()
		defer mu.Unlock()
		n++
		in := filepath.Join(dir, fmt.Sprint("in", n))
		_, t := g.write(in)
		if n == 1 {
			text = t
		}
		b := a
		b.SchemaPath = filepath.Join(in, g.root)
		b.OutputDir = filepath.Join(dir, fmt.Sprint("out", n), "pkg")
		if a.GenerateGraphQL && strings.Contains(a.ImportPath, "pkg") && len(g.files)%2 == 0 {
			b.OutputDirGraphQL = filepath.Join(dir, fmt.Sprint("out", n), "graphql")
			Must(os.MkdirAll(b.OutputDirGraphQL, 0o755))
		}
		b.StructNameMap, b.FieldNameMap, b.GraphQLTypeNameMap = clone(a.StructNameMap), clone(a.FieldNameMap), clone(a.GraphQLTypeNameMap)
		Must(os.MkdirAll(b.OutputDir, 0o755))
		return b
	}
	place := func() generate.BuildArgs { return placeOf(g) }
	result := func(b generate.BuildArgs, res string, before M) M {
		o := M{"k": "ok"}
		if res != "" {
			o["k"] = res
		} else {
			o["files"] = tree(filepath.Dir(b.OutputDir))
		}
		if !reflect.DeepEqual(before, tree(filepath.Dir(b.SchemaPath))) {
			o["input"] = "changed"
		}
		if !reflect.DeepEqual(b.StructNameMap, clone(a.StructNameMap)) || !reflect.DeepEqual(b.FieldNameMap, clone(a.FieldNameMap)) || !reflect.DeepEqual(b.GraphQLTypeNameMap, clone(a.GraphQLTypeNameMap)) {
			o["args"] = "changed"
		}
		return o
	}
	here := func(b generate.BuildArgs) string {
		if a.GenerateAvro || a.GenerateMessagePack {
			oneBuild.Lock()
			defer oneBuild.Unlock()
		}
		res, _ := build(b)
		return res
	}
	arg := func(ev string) M { return M{"ev": ev, "id": "build", "in": "schema"} }
	for k := 0; k < 2; k++ {
		b := place()
		before := tree(filepath.Dir(b.SchemaPath))
		e := arg("alone")
		if k > 0 {
			e = arg("call")
		}
		e["out"] = result(b, isolate(b), before)
		events = append(events, e)
	}
	for k := 0; k < 2; k++ {
		b := place()
		before := tree(filepath.Dir(b.SchemaPath))
		// the second time over what is there
		for m := 0; m < 2; m++ {
			e := arg("call")
			e["out"] = result(b, here(b), before)
			events = append(events, e)
		}
	}
	// another schema in place of the first and back
	if g2 := g.grown(); g2 != nil && r.P(0.6) {
		b := placeOf(g2)
		events = append(events, M{"ev": "alone", "id": "build", "in": "grown", "out": result(b, isolate(b), tree(filepath.Dir(b.SchemaPath)))})
		over := place()
		alone := map[string]M{"schema": events[0].(M)["out"].(M), "grown": events[len(events)-1].(M)["out"].(M)}
		for m, k := 0, 3+r.Intn(2); m < k; m++ {
			e, s := arg("call"), g
			if m%2 == 1 {
				e["in"], s = "grown", g2
			}
			b := placeOf(s)
			b.OutputDir, b.OutputDirGraphQL = over.OutputDir, over.OutputDirGraphQL
			before := tree(filepath.Dir(b.SchemaPath))
			out := result(b, here(b), before)
			// files of types only the other schema has stay
			written, _ := alone[e["in"].(string)]["files"].(M)
			there, _ := out["files"].(M)
			for f := range there {
				if written[f] == nil && len(written) > 0 {
					delete(there, f)
				}
			}
			e["out"] = out
			events = append(events, e)
		}
	}
	var wg sync.WaitGroup
	for c := 0; c < 3; c++ {
		wg.Add(1)
		b := place()
		go func() {
			defer wg.Done()
			before := tree(filepath.Dir(b.SchemaPath))
			e := arg("start")
			e["c"] = fmt.Sprint("c", c)
			mu.Lock()
			events = append(events, e)
			mu.Unlock()
			f := M{"ev": "end", "c": e["c"], "out": result(b, here(b), before)}
			mu.Lock()
			events = append(events, f)
			mu.Unlock()
		}()
	}
	wg.Wait()
	return M{"text": text, "args": argsOf(a), "events": events}
}

// grown is the set with one more property in each file with properties.
func (g *set) grown() *set {
	var files map[string]M
	Must(json.Unmarshal(plainJSON(g.files), &files))
	some := false
	for _, name := range Keys(files) {
		if p, ok := files[name]["properties"].(map[string]interface{}); ok && len(p) > 0 {
			some = true
			p["added"+strings.Title(stem(name))] = M{"type": g.r.Pick("string", "integer", "boolean")}
		}
	}
	if !some {
		return nil
	}
	h := *g
	h.files = files
	return &h
}

func clone(m map[string]string) map[string]string {
	if m == nil {
		return nil
	}
	c := map[string]string{}
	for k, v := range m {
		c[k] = v
	}
	return c
}
