// timeh runs scenarios generated from the specification (GenTimeout.tla) on timeout.Call under a virtual clock and
// random schedules, and writes the observed events as traces for TraceTimeout.tla.
package main

import (
	"encoding/json"
	"math/rand"
	"os"
	"runtime"
	"strconv"
	"sync"
	"time"

	"github.com/solarisdb/solaris/golibs/timeout"
	"github.com/solarisdb/solaris/verifharness/sched"
	. "github.com/solarisdb/solaris/verifharness/vlib"
	"github.com/solarisdb/solaris/verifharness/vtime"
)

type op struct {
	Op   string `json:"op"` // call cancel sleep
	ID   int    `json:"id"`
	D    int    `json:"d"`
	Body []op   `json:"body"`
}

type scenario struct {
	N       int    `json:"n"`
	Threads [][]op `json:"threads"`
}

var scn int

func now() int { return int(vtime.Elapsed() / time.Microsecond) }

func runOne(s scenario, seed int64, fine int, calm bool) []any {
	vtime.Set(vtime.At(0))
	c := sched.NewSim(rand.New(rand.NewSource(seed)))
	c.Fine, c.Calm = fine, calm
	if seed%5 < 2 {
		c.Late = 2 * time.Millisecond
	}
	evn := 0
	ev := func(m M) {
		if evn++; evn == 3000 {
			c.Event(M{"e": "hang"})
			b, _ := json.Marshal(M{"sc": scn, "plan": seed, "ev": c.Events()})
			Emit(json.RawMessage(b))
			Flush()
			os.Exit(0)
		}
		c.Event(m)
	}
	ev(M{"e": "cfg", "n": s.N})
	var mu sync.Mutex
	futs := map[int]timeout.Future{}
	var exec func(o op)
	exec = func(o op) {
		switch o.Op {
		case "call":
			id := o.ID
			ev(M{"e": "call", "id": id, "lo": now() + o.D*1000})
			sched.Point()
			var f timeout.Future
			cl, _ := Try(func() error {
				f = timeout.Call(func() {
					ev(M{"e": "fire", "id": id, "t": now()})
					for _, b := range o.Body {
						exec(b)
					}
					ev(M{"e": "ran", "id": id})
				}, time.Duration(o.D)*time.Millisecond)
				return nil
			})
			mu.Lock()
			futs[id] = f
			mu.Unlock()
			ev(M{"e": "called", "id": id, "hi": now() + o.D*1000 + 1, "err": cl})
		case "cancel":
			mu.Lock()
			f := futs[o.ID]
			mu.Unlock()
			if f == nil {
				return
			}
			ev(M{"e": "cancel", "id": o.ID})
			cl, _ := Try(func() error { f.Cancel(); return nil })
			ev(M{"e": "cancelled", "id": o.ID, "t": now(), "err": cl})
		case "sleep":
			vtime.Sleep(time.Duration(o.D) * time.Millisecond)
		}
	}
	for _, p := range s.Threads {
		p := p
		c.Add(func() {
			for _, o := range p {
				exec(o)
			}
		})
	}
	c.Quiet = func(at time.Duration) {
		ev(M{"e": "quiet", "t": now(), "stall": int(c.Stall / time.Microsecond)})
		if os.Getenv("DBG") != "" {
			b := make([]byte, 1<<20)
			println(now(), at, string(b[:runtime.Stack(b, true)]))
		}
	}
	if !c.Run(20*time.Minute, nil) || len(c.Blocked(len(s.Threads))) > 0 {
		ev(M{"e": "hang"})
		c.Release()
		return c.Events()
	}
	ev(M{"e": "end"})
	c.Release()
	return c.Events()
}

func main() {
	Quiet()
	runs, _ := strconv.Atoi(os.Getenv("EXTRA"))
	ReadLines(func(n int, raw []byte) {
		var s scenario
		if err := json.Unmarshal(raw, &s); err != nil {
			Fatal("bad scenario: %v", err)
		}
		scn = n
		seen := map[string]bool{}
		if p, err := strconv.ParseInt(os.Getenv("PLAN"), 10, 64); err == nil {
			for _, f := range []int{30, 80} {
				Emit(runOne(s, p, f, false))
			}
			return
		}
		for k := 0; k < runs; k++ {
			seed := Seed()*7919 + int64(n)*1000 + int64(k)
			fine, calm := 30, k%3 == 1
			if k%4 >= 2 {
				fine = 85
			}
			evs := runOne(s, seed, fine, calm)
			b, _ := json.Marshal(evs)
			if !seen[string(b)] {
				seen[string(b)] = true
				Emit(M{"sc": n, "plan": seed, "ev": evs})
			}
		}
	})
	Flush()
}
