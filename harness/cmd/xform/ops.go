package main

import (
	"strings"
	"time"

	. "verif/vt"
)

// opChain generates operations for a value found at a source and a value that suits the first of them better.
func (g *gen) opChain(fieldType string, at interface{}) ([]*Op, interface{}) {
	r := g.r
	kind := "s"
	switch at.(type) {
	case L:
		kind = "a"
	case bool:
		kind = "b"
	case float64:
		kind = "n"
	case M:
		kind = "o"
	}
	if kind != "a" && fieldType == "array" && r.P(0.8) {
		o, s := g.op("split")
		return []*Op{o}, s
	}
	if kind == "n" || kind == "b" {
		if r.P(0.6) {
			kind = "s"
		}
	}
	var ops []*Op
	var sample interface{}
	for i := 0; i < 4; i++ {
		more := 0.35
		if g.p.Chain > 0 {
			more = g.p.Chain
		}
		if i > 0 && !r.P(more) {
			break
		}
		var choices []string
		switch kind {
		case "s":
			choices = []string{"changeCase", "duration", "replace", "split", "timeParse", "toCamelCase", "removeHTML", "convertToFloat64", "convertToInt64", "convertToBool", "valueExists"}
		case "b":
			choices = []string{"inverse", "convertToBool"}
		case "a":
			choices = []string{"max", "max", "convertToBool", "duration"}
		case "n":
			choices = []string{"convertToFloat64", "convertToInt64", "convertToBool"}
		case "o":
			choices = []string{"convertToBool", "changeCase"}
		}
		name := r.Pick(choices...)
		if r.P(g.p.Fail / 4) {
			name = r.Pick("changeCase", "duration", "inverse", "max", "replace", "split", "timeParse", "toCamelCase", "removeHTML", "convertToFloat64", "convertToInt64", "convertToBool", "valueExists")
		}
		if i == 0 && g.p.OneOp != "" && r.P(0.9) {
			name = g.p.OneOp
		}
		if !g.p.XML && !g.p.Validate && i == 0 && g.p.OneOp == "" && r.P(0.015) {
			name = "currentTime"
		}
		if name == "removeHTML" && i > 0 {
			name = "changeCase" // other operations make entities of any kind
		}
		o, s := g.op(name)
		if i == 0 {
			sample = s
		}
		ops = append(ops, o)
		switch name {
		case "duration", "convertToFloat64", "convertToInt64":
			kind = "n"
		case "inverse", "convertToBool", "valueExists":
			kind = "b"
		case "split":
			kind = "a"
		case "currentTime":
			return ops, sample
		case "max":
			if r.P(0.6) {
				return ops, sample
			}
			kind = r.Pick("s", "n", "b", "a")
		default:
			kind = "s"
		}
		// what cannot be marshalled ends the model of a chain
		if name == "convertToFloat64" {
			return ops, sample
		}
	}
	return ops, sample
}

func (g *gen) op(name string) (*Op, interface{}) {
	r := g.r
	o := &Op{Name: name, Spec: M{}}
	switch name {
	case "changeCase":
		to := r.Pick("lower", "upper")
		o.Args = map[string]string{"to": to}
		o.Spec["to"] = to
		return o, r.Pick("MiXed Case 1", "ABC", "abc", "", "Zz-9_q", "ÉÏñ日 Жя-ö")
	case "currentTime":
		f := r.Pick("RFC3339", "2006-01-02", "2006", "2006-01-02 15:04:05")
		if g.p.Functional {
			f = "now" // the same at any time
		}
		o.Args = map[string]string{"format": f}
		o.Spec["format"] = f
		g.now = true
		return o, "x"
	case "duration":
		o.NoArgs = r.P(0.7)
		if !r.P(g.p.Fail) {
			return o, r.Pick(goodDurs...)
		}
		return o, r.Pick(durs...)
	case "inverse":
		o.NoArgs = r.P(0.7)
		return o, r.P(0.5)
	case "max":
		by, ret := r.Pick(names...), r.Pick(names...)
		below := r.P(0.25)
		bySteps, retSteps := []Step{key(by)}, []Step{key(ret)}
		if below {
			bySteps = []Step{key("inner"), key(by)}
		} else if r.P(0.1) {
			retSteps = nil
		}
		o.Args = map[string]string{"by": pathText(r.P(0.7), bySteps), "return": pathText(r.P(0.7), retSteps)}
		o.Spec["by"], o.Spec["ret"] = specSteps(bySteps), specSteps(retSteps)
		var l L
		neg := r.P(0.3)
		k := r.Intn(5)
		if !r.P(g.p.Fail) {
			k = r.Intn(4) + 2
		}
		for i := 0; i < k; i++ {
			m := M{}
			m[ret] = g.leaf()
			if r.P(0.08) {
				m[ret] = nil
			}
			v := g.number()
			if neg {
				v = -float64(r.Intn(30)) - 1
			}
			to := m
			if below {
				to = M{}
				m["inner"] = to
			}
			to[by] = v
			if r.P(g.p.Fail / 4) {
				delete(m, ret)
			}
			if r.P(g.p.Fail / 4) {
				to[by] = g.leaf()
			}
			l = append(l, m)
		}
		if l == nil {
			l = L{}
		}
		if r.P(0.9) && len(l) == 1 {
			l = append(l, M{by: 3.0, ret: "one", "inner": M{by: 3.0}})
		}
		return o, l
	case "replace":
		return g.replaceOp(o)
	case "split":
		on := r.Pick(",", ",", ", ", "-", "", "|", "--", " ")
		o.Args = map[string]string{"on": on}
		o.Spec["on"] = on
		s := r.Pick(csvs...)
		if r.P(0.5) {
			s = strings.Join([]string{r.Pick("x", "yy", ""), r.Pick("p", "Q"), r.Pick("1", "end", "")}, on)
		}
		return o, s
	case "timeParse":
		return g.timeOp(o)
	case "toCamelCase":
		d := r.Pick("-", "_", " ", "--", "-", "")
		o.Args = map[string]string{"delimiter": d}
		o.Spec["delimiter"] = d
		return o, r.Pick(camels...)
	case "removeHTML":
		o.NoArgs = r.P(0.7)
		s := r.Pick(htmls...)
		if r.P(0.3) {
			s += r.Pick(" ", "", "  ") + r.Pick(htmls...)
		}
		return o, s
	case "convertToFloat64", "convertToInt64":
		o.NoArgs = r.P(0.7)
		if r.P(0.25) {
			return o, []float64{0, 1.9, -1.9, 7, -0.5, 1e10, 123456789.99, -3}[r.Intn(8)]
		}
		if !r.P(g.p.Fail) {
			if name == "convertToInt64" {
				return o, r.Pick(goodInts...)
			}
			return o, r.Pick(goodNums...)
		}
		return o, r.Pick(numStrs...)
	case "convertToBool":
		o.NoArgs = r.P(0.7)
		if r.P(0.3) {
			return o, []interface{}{0.0, 0.5, -1.0, 7.0, true, false, L{}, L{nil, 1.0}, L{false, false}}[r.Intn(9)]
		}
		if !r.P(g.p.Fail) {
			return o, r.Pick(goodBools...)
		}
		if r.P(0.3) {
			return o, r.Pick("", "abc", "0", "1.5")
		}
		return o, r.Pick(boolStrs...)
	case "valueExists":
		o.NoArgs = r.P(0.7)
		return o, r.Pick("", "x", " ")
	}
	panic(name)
}

type reItem struct {
	set, q string
	g      bool
}

var reSets = []struct{ re, set string }{
	{"a", "a"}, {"b", "b"}, {"-", "-"}, {"x", "x"}, {" ", " "}, {"[0-9]", "0123456789"}, {"[a-c]", "abc"},
	{"[ab1]", "ab1"}, {`\d`, "0123456789"}, {`\.`, "."}, {"_", "_"}, {"[A-Z]", "ABCDEFGHIJKLMNOPQRSTUVWXYZ"},
	{`\s`, " \t\n\r"}, {"o", "o"}, {"é", "é"}, {"[é-ö]", "éïñö"}, {"Я", "Я"},
}

func (g *gen) replaceOp(o *Op) (*Op, interface{}) {
	r := g.r
	n := r.Intn(3) + 1
	var items []reItem
	var res []string
	for i := 0; i < n; i++ {
		s := reSets[r.Intn(len(reSets))]
		items = append(items, reItem{set: s.set, q: r.Pick("1", "1", "1", "+", "*", "?")})
		res = append(res, s.re)
	}
	items[r.Intn(n)].q = r.Pick("1", "+")
	g0, g1 := -1, -1
	if r.P(0.5) {
		g0 = r.Intn(n)
		g1 = g0 + r.Intn(n-g0)
	}
	re := ""
	start := r.P(0.15)
	if start {
		re = "^"
	}
	var spec L
	for i, it := range items {
		if i == g0 {
			re += "("
		}
		re += res[i]
		if it.q != "1" {
			re += it.q
		}
		if i == g1 {
			re += ")"
		}
		spec = append(spec, M{"set": it.set, "q": it.q, "g": i >= g0 && i <= g1 && g0 >= 0})
	}
	var parts L
	new := ""
	for i := 0; i < r.Intn(3); i++ {
		switch r.Intn(4) {
		case 0:
			if g0 >= 0 {
				new += "${1}"
				parts = append(parts, M{"t": "g", "g": 1, "s": ""})
			}
		case 1:
			new += "${0}"
			parts = append(parts, M{"t": "g", "g": 0, "s": ""})
		default:
			s := r.Pick("_", "Z", "<>", " ", "xx")
			new += s
			parts = append(parts, M{"t": "lit", "g": 0, "s": s})
		}
	}
	if parts == nil {
		parts = L{}
	}
	o.Args = map[string]string{"regex": re, "new": new}
	o.Spec["items"], o.Spec["new"], o.Spec["start"] = spec, parts, start
	sample := ""
	for i := 0; i < r.Intn(9); i++ {
		it := items[r.Intn(n)]
		if r.P(0.3) {
			sample += r.Pick("q", "a", "1", "B", " ")
		} else {
			set := []rune(it.set)
			sample += string(set[r.Intn(len(set))])
		}
	}
	return o, sample
}

var layouts = [][]string{
	{"2006", "-", "01", "-", "02"}, {"01", "/", "02", "/", "2006"}, {"Jan", " ", "2", ", ", "2006"}, {"January", " ", "02", " ", "2006"},
	{"2006", "-", "01", "-", "02", " ", "15", ":", "04", ":", "05"}, {"2006", "-", "01", "-", "02", "T", "15", ":", "04", ":", "05", "Z07:00"},
	{"Mon", ", ", "02", " ", "Jan", " ", "2006"}, {"03", ":", "04", " ", "PM"}, {"1", "/", "2", "/", "06"}, {"2006", "01", "02"},
	{"3", ":", "04", ":", "05", " ", "PM", " ", "01", "-", "02", "-", "2006"}, {"15", ":", "04"}, {"2006", "/", "1", "/", "2", " ", "15", ":", "04"},
	{"2006", "-", "01", "-", "02", "T", "15", ":", "04", ":", "05", ".000", "Z07:00"}, {"Mon", " ", "Jan", " ", "_2", " ", "15", ":", "04", ":", "05", " ", "2006"},
	{"Monday", ", ", "02", "-", "Jan", "-", "06", " ", "15", ":", "04", ":", "05", " ", "-0700"}, {"02", " ", "Jan", " ", "2006", " ", "15", ":", "04", " ", "-07:00"},
	{"Mon", ", ", "02", " ", "Jan", " ", "2006", " ", "15", ":", "04", ":", "05", " ", "-0700"}, {"15", ":", "04", ":", "05", ".000"}, {"Monday"},
}

func (g *gen) timeOp(o *Op) (*Op, interface{}) {
	r := g.r
	f, l := layouts[r.Intn(len(layouts))], layouts[r.Intn(len(layouts))]
	elements := map[string]bool{"2006": true, "06": true, "01": true, "1": true, "02": true, "2": true, "15": true, "03": true, "3": true, "04": true, "05": true, "PM": true, "Jan": true, "January": true, "Mon": true, "Z07:00": true, ".000": true, "_2": true, "Monday": true, "-0700": true, "-07:00": true}
	toks := func(l []string) (string, L) {
		var spec L
		for _, t := range l {
			if elements[t] {
				spec = append(spec, M{"t": t, "s": ""})
			} else {
				spec = append(spec, M{"t": "lit", "s": t})
			}
		}
		return strings.Join(l, ""), spec
	}
	ft, fs := toks(f)
	lt, ls := toks(l)
	o.Args = map[string]string{"format": ft, "layout": lt}
	o.Spec["format"], o.Spec["layout"] = fs, ls
	when := epoch.Add(time.Duration(r.Int63n(30*365*24*3600)) * time.Second)
	if r.P(0.2) {
		when = when.In(time.FixedZone("", []int{2 * 3600, -5*3600 - 1800, 14 * 3600}[r.Intn(3)]))
	}
	if r.P(0.4) {
		when = when.Add(time.Duration(r.Intn(1000)) * time.Millisecond)
	}
	s := when.Format(ft)
	if !r.P(g.p.Fail) {
		return o, s
	}
	switch r.Intn(10) {
	case 0:
		s = s[:len(s)-1]
	case 1:
		s += "x"
	case 2:
		s = strings.Replace(s, "1", "9", 1)
	case 3:
		s = strings.Replace(s, "0", "3", 1)
	case 4:
		s = r.Pick(dates...)
	case 5:
		s = strings.Replace(s, "+", "-", 1)
	case 6:
		s = strings.ToUpper(s)
	case 7:
		s = " " + s
	case 8:
		s = strings.Replace(s, " ", "  ", 1)
	}
	return o, s
}
