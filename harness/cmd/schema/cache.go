package main

import (
	"errors"
	"fmt"
	"runtime"
	"sync"
	"time"

	"github.com/GannettDigital/jstransform/jsonschema"

	. "verif/vt"
)

// A history of a Cache for CacheTrace.tla.
type cacheRun struct {
	mu     sync.Mutex
	events L
	calls  int
	builds int
	closed bool

	c     jsonschema.Cache[string]
	keys  int
	fail  float64
	nest  float64
	sleep time.Duration
}

func (x *cacheRun) event(e M) {
	if !x.closed {
		x.events = append(x.events, e)
	}
}

func pause(r *Rand, d time.Duration) {
	switch {
	case d == 0 || r.P(0.3):
		runtime.Gosched()
	default:
		time.Sleep(time.Duration(r.Int63n(int64(d))))
	}
}

// load loads a key, recording what happens. The builder may load further keys.
func (x *cacheRun) load(r *Rand, k int) {
	key := fmt.Sprint("k", k)
	x.mu.Lock()
	x.calls++
	q := x.calls
	x.event(M{"ev": "call", "q": q, "k": key})
	x.mu.Unlock()
	v, err := x.c.Load(key, func() (string, error) {
		x.mu.Lock()
		x.event(M{"ev": "start", "q": q})
		x.mu.Unlock()
		pause(r, x.sleep)
		for n := k + 1; n < x.keys; n++ {
			if r.P(x.nest) {
				x.load(r, n)
			}
		}
		ok := !r.P(x.fail)
		x.mu.Lock()
		defer x.mu.Unlock()
		x.builds++
		res := fmt.Sprint("v", x.builds)
		x.event(M{"ev": "end", "q": q, "ok": ok, "v": res})
		if !ok {
			return "partial", errors.New(res)
		}
		return res, nil
	})
	x.mu.Lock()
	defer x.mu.Unlock()
	switch {
	case err == nil:
		x.event(M{"ev": "ret", "q": q, "ok": true, "v": v})
	case v != "":
		x.event(M{"ev": "ret", "q": q, "ok": false, "v": "both " + v + " and " + err.Error()})
	default:
		x.event(M{"ev": "ret", "q": q, "ok": false, "v": err.Error()})
	}
}

func cacheTrace(r *Rand, i int) M {
	x := &cacheRun{keys: 1 + r.Intn(4), sleep: time.Duration(r.Intn(3)) * 300 * time.Microsecond}
	x.fail = []float64{0, 0.3, 0.6, 0.9}[r.Intn(4)]
	if r.P(0.4) {
		x.nest = 0.5
	}
	done := make(chan bool)
	var wg sync.WaitGroup
	start := make(chan bool)
	if gated := r.P(0.15); gated {
		// one load is building until a load of another key has returned
		x.keys, x.nest = 2, 0
		gate, begun := make(chan bool), make(chan bool)
		wg.Add(2)
		go func() {
			defer wg.Done()
			x.gatedLoad(begun, gate)
		}()
		go func() {
			defer wg.Done()
			<-begun
			x.load(NewRand(int64(i), 7), 0)
			close(gate)
		}()
	}
	for c := 2 + r.Intn(6); c > 0; c-- {
		wg.Add(1)
		r := NewRand(r.Int63(), int64(c))
		go func() {
			defer wg.Done()
			<-start
			for n := 1 + r.Intn(4); n > 0; n-- {
				if r.P(0.3) {
					pause(r, x.sleep)
				}
				x.load(r, r.Intn(x.keys))
			}
		}()
	}
	close(start)
	go func() {
		wg.Wait()
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(20 * time.Second):
	}
	x.mu.Lock()
	defer x.mu.Unlock()
	x.event(M{"ev": "quiet"})
	x.closed = true
	return M{"events": x.events}
}

// gatedLoad loads a key of its own, whose builder waits for the gate.
func (x *cacheRun) gatedLoad(begun, gate chan bool) {
	x.mu.Lock()
	x.calls++
	q := x.calls
	x.event(M{"ev": "call", "q": q, "k": "gated"})
	x.mu.Unlock()
	v, err := x.c.Load("gated", func() (string, error) {
		x.mu.Lock()
		x.event(M{"ev": "start", "q": q})
		x.mu.Unlock()
		close(begun)
		<-gate
		x.mu.Lock()
		defer x.mu.Unlock()
		x.event(M{"ev": "end", "q": q, "ok": true, "v": "g"})
		return "g", nil
	})
	x.mu.Lock()
	defer x.mu.Unlock()
	if err != nil {
		v = "error " + err.Error()
	}
	x.event(M{"ev": "ret", "q": q, "ok": err == nil, "v": v})
}
