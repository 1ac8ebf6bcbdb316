// relh runs scenarios generated from the specification (GenRel.tla) on lru.ReleasableCache under enumerated
// schedules and writes the observed events as traces for TraceRel.tla.
package main

import (
	"context"
	"encoding/json"
	"errors"
	"math/rand"
	"os"
	"strconv"
	"sync"
	"sync/atomic"
	"time"

	"github.com/solarisdb/solaris/golibs/container/lru"
	"github.com/solarisdb/solaris/verifharness/sched"
	. "github.com/solarisdb/solaris/verifharness/vlib"
)

type op struct {
	Op   string `json:"op"` // get rel cancel close
	K    int    `json:"k"`
	Fail bool   `json:"fail"`
}

type scenario struct {
	Max     int    `json:"max"`
	Threads [][]op `json:"threads"`
}

type ctxKey struct{}
type call struct {
	th   int
	fail bool
}

var errCreate = errors.New("creation failed")

func class(err error) string {
	if errors.Is(err, errCreate) {
		return "create"
	}
	return Class(err)
}

type obj struct{ v, k int }

func runOne(s scenario, plan []sched.Step) ([]any, sched.Result) {
	c := sched.New()
	ev := func(m M) { c.Event(m) }
	ev(M{"e": "cfg", "max": s.Max, "n": len(s.Threads)})
	var vs atomic.Int64
	pool, err := lru.NewReleasableCache[int, *obj](s.Max, func(ctx context.Context, k int) (*obj, error) {
		cl := ctx.Value(ctxKey{}).(call)
		ev(M{"e": "cb", "t": cl.th, "k": k})
		sched.Point()
		if cl.fail {
			ev(M{"e": "cf", "t": cl.th, "k": k})
			return nil, errCreate
		}
		o := &obj{int(vs.Add(1)), k}
		ev(M{"e": "ce", "t": cl.th, "k": k, "v": o.v})
		sched.Point()
		return o, nil
	}, func(k int, o *obj) {
		v := 0
		if o != nil {
			v = o.v
		}
		ev(M{"e": "del", "k": k, "v": v})
	})
	if err != nil {
		Fatal("%v", err)
	}
	n := len(s.Threads)
	ctxs := make([]context.Context, n)
	cancels := make([]func(), n)
	var hmu sync.Mutex
	held := make([][]lru.Releasable[*obj], n)
	for i := range s.Threads {
		ctxs[i], cancels[i] = context.WithCancel(context.Background())
		i := i
		c.Add(func() {
			for _, o := range s.Threads[i] {
				switch o.Op {
				case "get":
					ev(M{"e": "get", "t": i + 1, "k": o.K})
					var r lru.Releasable[*obj]
					cl, _ := tryc(func() (err error) {
						r, err = pool.GetOrCreate(context.WithValue(ctxs[i], ctxKey{}, call{i + 1, o.Fail}), o.K)
						return err
					})
					v := 0
					if cl == "" && r.Value() != nil {
						v = r.Value().v
						hmu.Lock()
						held[i] = append(held[i], r)
						hmu.Unlock()
					}
					ev(M{"e": "got", "t": i + 1, "v": v, "err": cl})
				case "rel":
					if len(held[i]) > 0 {
						r := held[i][0]
						hmu.Lock()
						held[i] = held[i][1:]
						hmu.Unlock()
						release(ev, pool, i+1, r)
					}
				case "cancel":
					ev(M{"e": "cancel", "t": o.K})
					cancels[o.K-1]()
				case "close":
					ev(M{"e": "close", "t": i + 1})
					cl, _ := tryc(pool.Close)
					ev(M{"e": "closed", "t": i + 1, "err": cl})
				}
			}
		})
	}
	res := c.Run(plan, nil)
	if c.Spin {
		ev(M{"e": "hang"})
		return c.Events(), res
	}
	ev(M{"e": "quiet"})
	// epilogue: everything that is held is returned, then the waiting callers give up
	rel := func() {
		for i := range held {
			for {
				hmu.Lock()
				if len(held[i]) == 0 {
					hmu.Unlock()
					break
				}
				r := held[i][0]
				held[i] = held[i][1:]
				hmu.Unlock()
				release(ev, pool, n+1, r)
			}
		}
	}
	for k := 0; k < 4; k++ {
		rel()
		r := c.Drain(nil)
		ev(M{"e": "quiet"})
		if len(r.Stuck) == 0 {
			break
		}
	}
	rel()
	for i := range cancels {
		ev(M{"e": "cancel", "t": i + 1})
		cancels[i]()
	}
	c.Drain(nil)
	rel()
	ev(M{"e": "quiet"})
	ev(M{"e": "close", "t": n + 1})
	cl, _ := tryc(pool.Close)
	ev(M{"e": "closed", "t": n + 1, "err": cl})
	if left := c.Free(3 * time.Second); len(left) > 0 {
		ev(M{"e": "hang", "left": len(left)})
	}
	rel()
	ev(M{"e": "end"})
	return c.Events(), res
}

func release(ev func(M), pool *lru.ReleasableCache[int, *obj], t int, r lru.Releasable[*obj]) {
	ev(M{"e": "rel", "t": t, "v": r.Value().v})
	cl, _ := tryc(func() error { pool.Release(&r); return nil })
	ev(M{"e": "reld", "t": t, "err": cl})
}

func tryc(f func() error) (string, string) {
	var err error
	c, d := Try(func() error { err = f(); return err })
	if c != "" && c != "panic" {
		return class(err), d
	}
	return c, d
}

func main() {
	Quiet()
	extra, _ := strconv.Atoi(os.Getenv("EXTRA"))
	single, _ := strconv.Atoi(os.Getenv("SINGLE"))
	ReadLines(func(n int, raw []byte) {
		var s scenario
		if err := json.Unmarshal(raw, &s); err != nil {
			Fatal("bad scenario: %v", err)
		}
		rnd := rand.New(rand.NewSource(Seed()*7919 + int64(n)))
		_, base := runOne(s, nil)
		seen := map[string]bool{}
		for _, p := range sched.Plans(base.Counts, extra, single, rnd) {
			evs, _ := runOne(s, p)
			b, _ := json.Marshal(evs)
			if !seen[string(b)] {
				seen[string(b)] = true
				Emit(M{"sc": n, "plan": p, "ev": evs})
			}
		}
	})
	Flush()
}
