// Command schema drives the jsonschema package through its public interface with generated files and histories and
// records what it does as traces for the specifications.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime"
	"sync"

	. "verif/vt"
)

var (
	seed    = flag.Int64("seed", 1, "seed")
	profile = flag.String("profile", "", "profile")
	scale   = flag.Float64("scale", 1, "factor of the number of traces")
	out     = flag.String("out", "", "trace file")
	scratch = flag.String("scratch", "", "directory for schema files")
	only    = flag.Int("only", -1, "only this trace")
	alone   = flag.Bool("isolated", false, "run the job on standard input")
	helper  = flag.String("helper", os.Args[0], "the program for isolated jobs")
)

type prof struct {
	traces  int
	workers int // 0: as many as there are processors
	run     func(r *Rand, i int) M
}

var profiles = map[string]prof{
	"cache":  {traces: 1200, run: cacheTrace},
	"refs":   {traces: 600, run: filesTrace(opts{refs: 0.5, files: 4, allOf: 0.15, oneOf: 0.1, depth: 3, missing: 0.04, http: 0.08}, nil)},
	"merge":  {traces: 600, run: filesTrace(opts{refs: 0.3, files: 4, allOf: 0.7, oneOf: 0.5, depth: 2, missing: 0.02}, nil)},
	"loads":  {traces: 120, run: loadsTrace},
	"again":  {traces: 120, run: rewrittenTrace},
	"walk":   {traces: 500, run: filesTrace(opts{refs: 0.25, files: 3, allOf: 0.25, oneOf: 0.15, depth: 4, odd: 0.06}, walks)},
	"types":  {traces: 400, run: fieldTypes},
	"valid":  {traces: 500, run: filesTrace(opts{refs: 0.3, files: 3, allOf: 0.25, oneOf: 0.2, depth: 3, limits: true, http: 0.05}, validations)},
	"circle": {traces: 250, run: filesTrace(opts{refs: 0.6, files: 3, allOf: 0.3, oneOf: 0.1, depth: 3, circle: 0.9}, nil)},
}

func main() {
	flag.Parse()
	if *alone {
		isolated()
		return
	}
	var cases []smallCase
	if *profile == "small" {
		cases = readCases(*casesFile)
		profiles["small"] = prof{traces: len(cases), run: func(r *Rand, i int) M { return runCase(cases[i], r, i) }}
	}
	p, ok := profiles[*profile]
	if !ok {
		fmt.Fprintln(os.Stderr, "no such profile")
		os.Exit(3)
	}
	n := int(float64(p.traces) * *scale)
	traces := make([]M, n)
	work := make(chan int)
	workers := p.workers
	if workers == 0 {
		workers = runtime.NumCPU()
	}
	h := int64(0)
	for _, c := range *profile {
		h = h*131 + int64(c)
	}
	var wg sync.WaitGroup
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range work {
				if Enough() {
					continue
				}
				traces[i] = p.run(NewRand(*seed, h*1_000_000+int64(i)), i)
				traces[i]["n"] = i
			}
		}()
	}
	for i := 0; i < n; i++ {
		if *only < 0 || *only == i {
			work <- i
		}
	}
	close(work)
	wg.Wait()
	w := Create(*out)
	stats := map[string]int{}
	for _, t := range traces {
		if t == nil {
			continue
		}
		for _, e := range t["events"].(L) {
			stats[fmt.Sprint(e.(M)["ev"])]++
		}
		w.Write(t)
	}
	w.Close()
	s, _ := json.Marshal(stats)
	fmt.Printf("driver: profile %s, %d traces, events %s\n", *profile, w.N, s)
}
