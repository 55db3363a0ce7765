// Package vt holds what the drivers share: the tagged encoding of JSON values TLC reads, and trace files.
package vt

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"math/big"
	"math/rand"
	"os"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"
	"time"
)

// M and L are JSON objects and lists of a trace.
type M = map[string]interface{}
type L = []interface{}

// Num returns the canonical decimal notation of a JSON number.
func Num(n json.Number) string {
	s := n.String()
	if i, ok := new(big.Int).SetString(s, 10); ok && !strings.ContainsAny(s, ".eE") {
		return i.String()
	}
	f, err := strconv.ParseFloat(s, 64)
	if err != nil {
		return s
	}
	return Float(f)
}

// Float returns the canonical decimal notation of a float.
func Float(f float64) string {
	if f == 0 {
		return "0"
	}
	return strconv.FormatFloat(f, 'f', -1, 64)
}

// Tag returns the tagged encoding of a decoded JSON value.
func Tag(v interface{}) M {
	switch t := v.(type) {
	case nil:
		return M{"k": "z"}
	case bool:
		return M{"k": "b", "b": t}
	case string:
		return M{"k": "s", "s": t}
	case json.Number:
		return M{"k": "n", "n": Num(t)}
	case float64:
		return M{"k": "n", "n": Float(t)}
	case int:
		return M{"k": "n", "n": strconv.Itoa(t)}
	case []interface{}:
		a := make(L, len(t))
		for i := range t {
			a[i] = Tag(t[i])
		}
		return M{"k": "a", "a": a}
	case map[string]interface{}:
		o := make(M, len(t))
		for k, e := range t {
			o[k] = Tag(e)
		}
		return M{"k": "o", "o": o}
	}
	panic(fmt.Sprintf("no tagged encoding of %T", v))
}

// TagJSON returns the tagged encoding of JSON text, {"k":"bad"} if it is no JSON.
func TagJSON(raw []byte) M {
	v, err := Decode(raw)
	if err != nil {
		return M{"k": "bad"}
	}
	return Tag(v)
}

// Decode decodes JSON text keeping numbers as they are.
func Decode(raw []byte) (interface{}, error) {
	d := json.NewDecoder(bytes.NewReader(raw))
	d.UseNumber()
	var v interface{}
	if err := d.Decode(&v); err != nil {
		return nil, err
	}
	if d.More() {
		return nil, fmt.Errorf("more than one value")
	}
	return v, nil
}

// ASCII returns the JSON text of v with every other character escaped.
func ASCII(v interface{}) []byte {
	raw, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	var b bytes.Buffer
	for _, r := range string(raw) {
		switch {
		case r < 127:
			b.WriteRune(r)
		case r > 0xffff:
			r -= 0x10000
			fmt.Fprintf(&b, `\u%04x\u%04x`, 0xd800+r>>10, 0xdc00+r&0x3ff)
		default:
			fmt.Fprintf(&b, `\u%04x`, r)
		}
	}
	return b.Bytes()
}

// Writer writes a trace file, one JSON value per line.
type Writer struct {
	f *os.File
	w *bufio.Writer
	N int
}

// Create creates a trace file.
func Create(path string) *Writer {
	f, err := os.Create(path)
	Must(err)
	return &Writer{f: f, w: bufio.NewWriterSize(f, 1<<20)}
}

// Write appends a line.
func (w *Writer) Write(v interface{}) {
	w.w.Write(ASCII(v))
	w.w.WriteByte('\n')
	w.N++
}

// Close completes the file.
func (w *Writer) Close() {
	Must(w.w.Flush())
	Must(w.f.Close())
}

// Must ends the driver on an error of the machinery itself.
func Must(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "driver error:", err)
		os.Exit(3)
	}
}

// Hangs counts what never ended.  After a few of them there is enough to report.
var Hangs atomic.Int32

// Enough says whether a driver can stop making traces.
func Enough() bool { return Hangs.Load() >= 3 }

// Guard runs f and reports how it ended: "", "panic" or "hang".
func Guard(limit time.Duration, f func()) (how string, detail string) {
	done := make(chan [2]string, 1)
	go func() {
		var out [2]string
		defer func() {
			if r := recover(); r != nil {
				out = [2]string{"panic", fmt.Sprint(r)}
			}
			done <- out
		}()
		f()
	}()
	select {
	case r := <-done:
		return r[0], r[1]
	case <-time.After(limit):
		Hangs.Add(1)
		return "hang", limit.String()
	}
}

// Rand is a seeded source with the choices the generators make.
type Rand struct{ *rand.Rand }

// NewRand returns the source for a seed and stream.
func NewRand(seed, stream int64) *Rand {
	return &Rand{rand.New(rand.NewSource(seed*1_000_003 + stream))}
}

// P is true with probability p.
func (r *Rand) P(p float64) bool { return r.Float64() < p }

// Pick returns one of the strings.
func (r *Rand) Pick(s ...string) string { return s[r.Intn(len(s))] }

// Keys returns the sorted keys of a map.
func Keys[V any](m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// Copy returns a deep copy of a decoded JSON value.
func Copy(v interface{}) interface{} {
	switch t := v.(type) {
	case []interface{}:
		a := make(L, len(t))
		for i := range t {
			a[i] = Copy(t[i])
		}
		return a
	case map[string]interface{}:
		o := make(M, len(t))
		for k, e := range t {
			o[k] = Copy(e)
		}
		return o
	}
	return v
}

// Render writes a value as JSON text with members in random order and random white space.
func Render(r *Rand, v interface{}) []byte {
	var b bytes.Buffer
	render(r, &b, v)
	return b.Bytes()
}

func ws(r *Rand, b *bytes.Buffer) {
	if r.P(0.15) {
		b.WriteString(r.Pick(" ", "\n", "  ", "\t", "\r\n"))
	}
}

func render(r *Rand, b *bytes.Buffer, v interface{}) {
	switch t := v.(type) {
	case []interface{}:
		b.WriteByte('[')
		for i := range t {
			if i > 0 {
				b.WriteByte(',')
			}
			ws(r, b)
			render(r, b, t[i])
		}
		ws(r, b)
		b.WriteByte(']')
	case map[string]interface{}:
		ks := Keys(t)
		r.Shuffle(len(ks), func(i, j int) { ks[i], ks[j] = ks[j], ks[i] })
		b.WriteByte('{')
		for i, k := range ks {
			if i > 0 {
				b.WriteByte(',')
			}
			ws(r, b)
			b.Write(plain(k))
			ws(r, b)
			b.WriteByte(':')
			ws(r, b)
			render(r, b, t[k])
		}
		ws(r, b)
		b.WriteByte('}')
	default:
		b.Write(plain(v))
	}
}

// plain is json.Marshal without the HTML escapes.
func plain(v interface{}) []byte {
	var b bytes.Buffer
	e := json.NewEncoder(&b)
	e.SetEscapeHTML(false)
	Must(e.Encode(v))
	return bytes.TrimRight(b.Bytes(), "\n")
}
