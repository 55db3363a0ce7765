package main

import (
	"encoding/json"
	"reflect"
	"time"

	"github.com/GannettDigital/jstransform/generate"

	. "verif/vt"
)

func init() {
	profiles["times"] = prof{traces: 400, run: timesTrace}
}

// millis is a count of milliseconds in numbers that the specification can hold.
func millis(n int64) M {
	d := n / 86400000
	ms := n % 86400000
	if ms < 0 {
		d, ms = d-1, ms+86400000
	}
	if d > 1<<30 || d < -(1<<30) {
		return M{"d": 0, "ms": -1}
	}
	return M{"d": d, "ms": ms}
}

func moment(r *Rand) (time.Time, M) {
	y := []int{1970, 1969, 1, 1677, 1678, 2262, 2263, 9999, 0, -400, 1600, 2024, 1900 + r.Intn(200), 1970 + r.Intn(100), r.Intn(4000), 100000 - r.Intn(200000)}[r.Intn(16)]
	ns := []int{0, 0, 1, 999999, 1000000, 999999999, 500000, r.Intn(1000000000)}[r.Intn(8)]
	off := []int{0, 0, 3600, -3600 * 5, 5*3600 + 1800, 14 * 3600, -43200, 17}[r.Intn(8)]
	loc := time.UTC
	if off != 0 {
		loc = time.FixedZone("x", off)
	}
	t := time.Date(y, time.Month(1+r.Intn(12)), 1+r.Intn(28), r.Intn(24), r.Intn(60), r.Intn(60), ns, loc)
	switch r.Intn(12) {
	case 0:
		t = time.Time{}
	case 1:
		t = time.Unix(0, 0).UTC()
	case 2:
		t = time.Date(2024, 2, 29, 23, 59, 59, 999999999, loc)
	case 3:
		t = time.Date(1969, 12, 31, 23, 59, 59, 1000000000-1-r.Intn(2000000), time.UTC)
	}
	_, off = t.Zone()
	return t, M{"y": t.Year(), "mo": int(t.Month()), "d": t.Day(), "h": t.Hour(), "mi": t.Minute(), "s": t.Second(), "ns": t.Nanosecond(), "offset": off}
}

// civil is a moment as the specification has it; with None there is none.
type civil struct {
	Y, Mo, D, H, Mi, S, Ns, Offset int
	None                           bool
}

func (c civil) time() *time.Time {
	if c.None {
		return nil
	}
	loc := time.UTC
	if c.Offset != 0 {
		loc = time.FixedZone("x", c.Offset)
	}
	t := time.Date(c.Y, time.Month(c.Mo), c.D, c.H, c.Mi, c.S, c.Ns, loc)
	return &t
}

// timesOf converts the times that a case of the specification gives.
func timesOf(fn string, in json.RawMessage) M {
	var ts []*time.Time
	if fn == "time" || fn == "optional" {
		var c civil
		Must(json.Unmarshal(in, &c))
		ts = []*time.Time{c.time()}
	} else {
		var cs []civil
		Must(json.Unmarshal(in, &cs))
		for _, c := range cs {
			ts = append(ts, c.time())
		}
	}
	return M{"ev": "times", "fn": fn, "in": in, "out": converted(fn, ts)}
}

// converted is what becomes of times.
func converted(fn string, ts []*time.Time) M {
	out := M{"kept": true, "missing": false}
	list := func(ns []int64) L {
		l := L{}
		for _, n := range ns {
			l = append(l, millis(n))
		}
		return l
	}
	switch fn {
	case "time":
		out["v"] = millis(generate.AvroTime(*ts[0]))
	case "optional":
		if ts[0] == nil {
			out["v"] = millis(generate.AvroOptionalTime(nil))
			break
		}
		before := *ts[0]
		out["v"] = millis(generate.AvroOptionalTime(ts[0]))
		out["kept"] = before == *ts[0]
	case "slice":
		var plain []time.Time
		for _, t := range ts {
			plain = append(plain, *t)
		}
		before := append([]time.Time(nil), plain...)
		res := generate.AvroTimeSlice(plain)
		out["v"], out["missing"] = list(res), res == nil
		out["kept"] = reflect.DeepEqual(before, plain)
	default:
		before := append([]*time.Time(nil), ts...)
		var values []time.Time
		for _, t := range ts {
			if t != nil {
				values = append(values, *t)
			}
		}
		res := generate.AvroOptionalTimeSlice(ts)
		out["v"], out["missing"] = list(res), res == nil
		for k := range ts {
			same := before[k] == ts[k]
			if same && ts[k] != nil {
				same, values = *ts[k] == values[0], values[1:]
			}
			out["kept"] = out["kept"].(bool) && same
		}
	}
	return out
}

// timesTrace converts times to those of Avro.
func timesTrace(r *Rand, i int) M {
	events := L{}
	none := M{"none": true}
	for n := 0; n < 6; n++ {
		fn := []string{"time", "optional", "slice", "optionals"}[r.Intn(4)]
		var ts []*time.Time
		in := L{}
		k := 1
		if fn == "slice" || fn == "optionals" {
			k = r.Intn(5)
		}
		for ; k > 0; k-- {
			t, m := moment(r)
			if (fn == "optional" || fn == "optionals") && r.P(0.33) {
				ts, in = append(ts, nil), append(in, none)
			} else {
				ts, in = append(ts, &t), append(in, m)
			}
		}
		e := M{"ev": "times", "fn": fn, "in": in, "out": converted(fn, ts)}
		if fn == "time" || fn == "optional" {
			e["in"] = in[0]
		}
		events = append(events, e)
	}
	return M{"files": M{}, "events": events}
}
