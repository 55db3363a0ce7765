package main

import (
	"bytes"
	"flag"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"time"

	"github.com/GannettDigital/jstransform/generate"

	. "verif/vt"
)

func init() {
	profiles["cli"] = prof{traces: 200, run: cliTrace}
}

var (
	cliOnce sync.Once
	cliPath string
)

// cli is the command, built from the repository.
func cli() string {
	cliOnce.Do(func() {
		m := newModule(filepath.Join(*scratch, "mod-cli"))
		cliPath = filepath.Join(m.dir, "jstransform")
		out, err := m.tool("build", "-o", cliPath, "github.com/GannettDigital/jstransform")
		if err != nil {
			fmt.Fprintln(os.Stderr, "go build of the command: "+out)
			os.Exit(3)
		}
	})
	return cliPath
}

// pairs are maps given by options; they add up.
type pairs map[string]string

func (p pairs) String() string { return "" }
func (p pairs) Set(s string) error {
	for _, kv := range strings.Split(s, ",") {
		i := strings.Index(kv, "=")
		if i < 0 {
			return fmt.Errorf("no pair")
		}
		p[kv[:i]] = kv[i+1:]
	}
	return nil
}

// meant are the build arguments a command line stands for, if any.
func meant(argv []string) (generate.BuildArgs, bool) {
	var a generate.BuildArgs
	f := flag.NewFlagSet("", flag.ContinueOnError)
	f.SetOutput(io.Discard)
	s, n, t := pairs{}, pairs{}, pairs{}
	nested := true
	f.BoolVar(&nested, "nestedStructs", true, "")
	f.BoolVar(&a.DescriptionAsStructTag, "descriptionAsStructTag", true, "")
	f.BoolVar(&a.EmbedAllOf, "embedAllOf", true, "")
	for _, o := range cliBools {
		if o.field != nil {
			f.BoolVar(o.field(&a), o.name, false, "")
		}
	}
	f.Var(s, "rename", "")
	f.Var(n, "renameFields", "")
	f.Var(t, "renameGraphQLType", "")
	f.StringVar(&a.OutputDirGraphQL, "outputPathGraphQL", "", "")
	f.StringVar(&a.ImportPath, "importPath", "", "")
	if f.Parse(argv) != nil || f.NArg() < 1 {
		return a, false
	}
	a.NoNestedStructs = !nested
	a.StructNameMap, a.FieldNameMap, a.GraphQLTypeNameMap = s, n, t
	a.SchemaPath, a.OutputDir = f.Arg(0), f.Arg(1)
	return a, !((a.GenerateAvro || a.GenerateGraphQL) && a.ImportPath == "")
}

var cliBools = []struct {
	name  string
	field func(a *generate.BuildArgs) *bool
}{
	{"interfaceFiles", func(a *generate.BuildArgs) *bool { return &a.InterfaceFiles }},
	{"pointers", func(a *generate.BuildArgs) *bool { return &a.Pointers }},
	{"avro", func(a *generate.BuildArgs) *bool { return &a.GenerateAvro }},
	{"msgp", func(a *generate.BuildArgs) *bool { return &a.GenerateMessagePack }},
	{"graphql", func(a *generate.BuildArgs) *bool { return &a.GenerateGraphQL }},
	{"scalarAny", func(a *generate.BuildArgs) *bool { return &a.ScalarAny }},
	{"nestedStructs", nil}, {"descriptionAsStructTag", nil}, {"embedAllOf", nil},
}

// commandLine is a command line; @ stands for the directory above the working directory.
func commandLine(r *Rand, g *set) []string {
	var opts [][]string
	dash := func(s string) string { return r.Pick("-", "-", "--") + s }
	str := func(name, v string) {
		if r.P(0.5) {
			opts = append(opts, []string{dash(name + "=" + v)})
		} else {
			opts = append(opts, []string{dash(name), v})
		}
	}
	heavy := r.P(0.3) // Avro and message pack take time
	for _, o := range cliBools {
		if (o.name == "avro" || o.name == "msgp") && !heavy || !r.P(0.4) {
			continue
		}
		for n := 1 + r.Intn(6)/5; n > 0; n-- {
			opts = append(opts, []string{dash(o.name + r.Pick("", "", "", "=true", "=false", "=0", "=1", "=T", "=F", "=TRUE"))})
		}
	}
	list := func(m map[string]string) string {
		var l []string
		for _, k := range Keys(m) {
			l = append(l, k+"="+m[k])
		}
		r.Shuffle(len(l), func(i, j int) { l[i], l[j] = l[j], l[i] })
		return strings.Join(l, ",")
	}
	a := g.args()
	a.GraphQLTypeNameMap = map[string]string{}
	for k, v := range map[string]string{"image": "Picture", "video": "Film", "article": "Text"} {
		if r.P(0.5) {
			a.GraphQLTypeNameMap[k] = v
		}
	}
	for _, o := range []struct {
		name string
		m    map[string]string
	}{{"rename", a.StructNameMap}, {"renameFields", a.FieldNameMap}, {"renameGraphQLType", a.GraphQLTypeNameMap}} {
		if len(o.m) == 0 {
			continue
		}
		if r.P(0.3) { // one by one
			for _, k := range Keys(o.m) {
				str(o.name, k+"="+o.m[k])
			}
		} else {
			str(o.name, list(o.m))
		}
		if r.P(0.15) {
			str(o.name, r.Pick(Keys(o.m)...)+"=Again")
		}
	}
	if r.P(0.85) {
		str("importPath", r.Pick("gen/pkg", "gen/other", "a/b"))
	}
	if r.P(0.3) {
		str("outputPathGraphQL", r.Pick("gql", "@/work/gql", "./gql/", "../work/gql"))
	}
	r.Shuffle(len(opts), func(i, j int) { opts[i], opts[j] = opts[j], opts[i] })
	var l []string
	for _, o := range opts {
		l = append(l, o...)
	}
	if r.P(0.1) {
		l = append(l, "--")
	}
	l = append(l, r.Pick("@/in/", "../in/", "./../in/")+g.root)
	if r.P(0.85) {
		l = append(l, r.Pick("out/pkg", "./out/pkg/", "@/work/out/pkg", ".", "../work/out/pkg"))
		if r.P(0.1) {
			l = append(l, r.Pick("more", "-avro", "-x", "gql"))
		}
	}
	// what people get wrong
	for r.P(0.25) {
		i := r.Intn(len(l) + 1)
		switch r.Intn(5) {
		case 0:
			if i < len(l) {
				l = append(l[:i:i], l[i+1:]...)
			}
		case 1, 2:
			l = append(l[:i:i], append([]string{r.Pick("-x", "-h", "--help", "-avro", "-avro=maybe", "-pointers=", "-rename", "-rename=a", "-rename=a=b,c", "-rename=", "-renameFields=id=a=b",
				"-importPath=", "-importPath", "---avro", "-=1", "-", "--", "", "false", "-Pointers", "-rename==b", "nosuch.json")}, l[i:]...)...)
		case 3:
			if len(l) > 0 {
				j := r.Intn(len(l))
				l[j], l[len(l)-1] = l[len(l)-1], l[j]
			}
		case 4:
			if i < len(l) {
				l = append(l, l[i])
			}
		}
	}
	return l
}

// cliTrace runs the command with command lines and builds with the arguments they stand for.
func cliTrace(r *Rand, i int) M {
	g := newSet(r, shapeCompiled)
	g.agree()
	dir := filepath.Join(*scratch, fmt.Sprintf("cli%d", i))
	defer os.RemoveAll(dir)
	_, text := g.write(filepath.Join(dir, "first"))
	n := 0
	place := func() string {
		n++
		root := filepath.Join(dir, fmt.Sprint("r", n))
		for _, f := range Keys(text) {
			p := filepath.Join(root, "in", f)
			Must(os.MkdirAll(filepath.Dir(p), 0o755))
			Must(os.WriteFile(p, []byte(text[f].(string)), 0o644))
		}
		for _, d := range []string{"work/out/pkg", "work/gql"} {
			Must(os.MkdirAll(filepath.Join(root, d), 0o755))
		}
		return root
	}
	at := func(root, s string) string { return strings.ReplaceAll(s, "@", root) }
	abs := func(root, s string) string {
		s = at(root, s)
		if !filepath.IsAbs(s) {
			s = filepath.Join(root, "work", s)
		}
		return filepath.Clean(s)
	}
	events := L{}
	record := func(a generate.BuildArgs) M {
		m := argsOf(a)
		for _, k := range []string{"structs", "fields", "gqlTypes"} {
			l := L{}
			for _, x := range Keys(m[k].(M)) {
				l = append(l, L{x, m[k].(M)[x]})
			}
			m[k] = l
		}
		m["schema"], m["out"], m["outGraphQL"] = a.SchemaPath, a.OutputDir, a.OutputDirGraphQL
		m["avro"], m["msgp"], m["graphql"] = a.GenerateAvro, a.GenerateMessagePack, a.GenerateGraphQL
		return m
	}
	library := func(a generate.BuildArgs, fn string) M {
		root := place()
		b := a
		b.SchemaPath = abs(root, a.SchemaPath)
		if a.OutputDir != "" {
			b.OutputDir = abs(root, a.OutputDir)
		}
		b.OutputDirGraphQL = at(root, a.OutputDirGraphQL)
		res := isolateIn(filepath.Join(root, "work"), isolatedJob{BuildArgs: b, Fn: fn})
		return M{"ok": res == "", "files": treeOf(root)}
	}
	for k := 0; k < 3; k++ {
		argv := commandLine(r, g)
		if a, ok := meant(argv); ok {
			events = append(events, M{"ev": "library", "args": record(a), "out": library(a, "")})
		}
		root := place()
		args := L{}
		var real []string
		for _, s := range argv {
			args = append(args, s)
			real = append(real, at(root, s))
		}
		c := exec.Command(cli(), real...)
		c.Dir = filepath.Join(root, "work")
		var said bytes.Buffer
		c.Stdout, c.Stderr = &said, &said
		Must(c.Start())
		t := time.AfterFunc(60*time.Second, func() { c.Process.Kill() })
		c.Wait()
		t.Stop()
		events = append(events, M{"ev": "command", "argv": args, "out": M{"ok": c.ProcessState.ExitCode() == 0, "files": treeOf(root)}, "exit": c.ProcessState.ExitCode(), "said": said.String()})
	}
	// the functions there were before
	a := generate.BuildArgs{SchemaPath: "@/in/" + g.root, OutputDir: "out/pkg", DescriptionAsStructTag: true, GenerateMessagePack: r.P(0.2)}
	fn := r.Pick("BuildStructs", "BuildStructsRename")
	if fn == "BuildStructsRename" {
		a.StructNameMap = g.args().StructNameMap
	}
	e := M{"ev": fn, "schema": a.SchemaPath, "dir": a.OutputDir, "msgp": a.GenerateMessagePack, "names": record(a)["structs"], "out": library(a, fn)}
	events = append(events, M{"ev": "library", "args": record(a), "out": library(a, "")}, e)
	return M{"text": text, "events": events}
}

// treeOf are the files below a root but those which are read, as a list.
func treeOf(root string) L {
	l := L{}
	t := tree(root)
	for _, f := range Keys(t) {
		if !strings.HasPrefix(f, "in/") {
			l = append(l, L{f, t[f]})
		}
	}
	return l
}
