// Command gen drives the generate package through its public interface with generated schema files and records what it
// generates, and what the generated code does, as traces for the specifications.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime"
	"sync"

	. "verif/vt"
)

var (
	seed    = flag.Int64("seed", 1, "seed")
	profile = flag.String("profile", "", "profile")
	scale   = flag.Float64("scale", 1, "factor of the number of traces")
	out     = flag.String("out", "", "trace file")
	scratch = flag.String("scratch", "", "directory for what is generated")
	only    = flag.Int("only", -1, "only this trace")
	alone   = flag.Bool("isolated", false, "run the job on standard input")
	helper  = flag.String("helper", os.Args[0], "the program for isolated jobs")
)

type prof struct {
	traces int
	run    func(r *Rand, i int) M
	batch  func(rs []*Rand, is []int) []M // makes all traces at once
}

var profiles = map[string]prof{
	"structs": {traces: 500, run: structsTrace},
	"graphql": {traces: 500, run: graphqlTrace},
}

func main() {
	flag.Parse()
	if *alone {
		isolated()
		return
	}
	if *profile == "small" {
		cases := readCases(*casesFile)
		profiles["small"] = prof{traces: len(cases), run: func(r *Rand, i int) M { return runCase(cases[i], r, i) }}
	}
	p, ok := profiles[*profile]
	if !ok {
		fmt.Fprintln(os.Stderr, "no such profile")
		os.Exit(3)
	}
	n := int(float64(p.traces) * *scale)
	h := int64(0)
	for _, c := range *profile {
		h = h*131 + int64(c)
	}
	source := func(i int) *Rand { return NewRand(*seed, h*1_000_000+int64(i)) }
	var traces []M
	if p.batch != nil {
		var rs []*Rand
		var is []int
		for i := 0; i < n; i++ {
			if *only < 0 || *only == i {
				rs, is = append(rs, source(i)), append(is, i)
			}
		}
		traces = p.batch(rs, is)
	} else {
		traces = make([]M, n)
		work := make(chan int)
		var wg sync.WaitGroup
		for w := 0; w < runtime.NumCPU(); w++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := range work {
					if Enough() {
						continue
					}
					traces[i] = p.run(source(i), i)
					traces[i]["n"] = i
				}
			}()
		}
		for i := 0; i < n; i++ {
			if *only < 0 || *only == i {
				work <- i
			}
		}
		close(work)
		wg.Wait()
	}
	w := Create(*out)
	stats := map[string]int{}
	for _, t := range traces {
		if t == nil {
			continue
		}
		for _, e := range t["events"].(L) {
			stats[fmt.Sprint(e.(M)["ev"])]++
		}
		w.Write(t)
	}
	w.Close()
	s, _ := json.Marshal(stats)
	fmt.Printf("driver: profile %s, %d traces, events %s\n", *profile, w.N, s)
}
