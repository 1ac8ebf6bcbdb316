// lruh runs scenarios generated from GenLru.tla on the value caches (lru.Cache, lru.ECache, lru.ExpirableCache) under
// enumerated schedules and writes the observed events as traces for TraceLru.tla (C19).
package main

import (
	"encoding/json"
	"errors"
	"math/rand"
	"os"
	"strconv"
	"sync"
	"sync/atomic"
	"time"

	"github.com/solarisdb/solaris/golibs/container/lru"
	"github.com/solarisdb/solaris/verifharness/sched"
	. "github.com/solarisdb/solaris/verifharness/vlib"
)

type op struct {
	Op string `json:"op"` // get rem exp clear
	K  int    `json:"k"`
	F  string `json:"f"`
}

type scenario struct {
	Kind    string `json:"kind"`
	Max     int    `json:"max"`
	Threads [][]op `json:"threads"`
}

var errLoad = errors.New("load failed")

type item struct {
	v, k int
	old  atomic.Bool
}

func (i *item) GetValue() any { return i.v }
func (i *item) GetExpiresAt() time.Time {
	if i.old.Load() {
		return time.Now().Add(-time.Hour)
	}
	return time.Now().Add(time.Hour)
}

type pk struct{ k, i int }

type cache struct {
	get   func(k int) (*item, error)
	rem   func(k int) bool
	clear func() int
}

func runOne(s scenario, plan []sched.Step) ([]any, sched.Result) {
	c := sched.New()
	ev := func(m M) { c.Event(m) }
	ev(M{"e": "cfg", "max": s.Max, "kind": s.Kind, "n": len(s.Threads)})
	var vs atomic.Int64
	var mu sync.Mutex
	var all []*item
	mode := make([]string, len(s.Threads)+1) // what the load of a thread shall do
	me := func() int {
		if t := sched.Self(); t >= 0 {
			return t + 1
		}
		return len(s.Threads) + 1
	}
	load := func(k int) (*item, error) {
		t := me()
		ev(M{"e": "lb", "t": t, "k": k})
		sched.Point()
		if mode[t-1] == "fail" {
			ev(M{"e": "lf", "t": t, "k": k})
			return nil, errLoad
		}
		i := &item{v: int(vs.Add(1)), k: k}
		old := mode[t-1] == "old" && s.Kind == "exp"
		i.old.Store(old)
		mu.Lock()
		all = append(all, i)
		mu.Unlock()
		ev(M{"e": "le", "t": t, "k": k, "v": i.v, "old": old})
		sched.Point()
		return i, nil
	}
	del := func(k int, i *item) {
		v := 0
		if i != nil {
			v = i.v
		}
		ev(M{"e": "del", "t": me(), "k": k, "v": v})
	}
	var ch cache
	var err error
	switch s.Kind {
	case "cache":
		var x *lru.Cache[int, *item]
		x, err = lru.NewCache(s.Max, load, del)
		ch = cache{func(k int) (*item, error) { return x.GetOrCreate(k) }, func(k int) bool { return x.Remove(k) }, func() int { return x.Clear() }}
	case "ecache":
		var x *lru.ECache[pk, int, *item]
		x, err = lru.NewECache(s.Max, func(p pk) int { return p.k }, func(p pk) (*item, error) { return load(p.k) }, func(p pk, i *item) { del(p.k, i) })
		n := 0
		key := func(k int) pk { mu.Lock(); n++; defer mu.Unlock(); return pk{k, n} }
		ch = cache{func(k int) (*item, error) { return x.GetOrCreate(key(k)) }, func(k int) bool { return x.Remove(key(k)) }, func() int { return x.Clear() }}
	case "exp":
		var x *lru.ExpirableCache[int, *item]
		x, err = lru.NewExpirableCache(s.Max, load, del)
		ch = cache{func(k int) (*item, error) { return x.GetOrCreate(k) }, func(k int) bool { return x.Remove(k) }, func() int { return x.Clear() }}
	}
	if err != nil {
		Fatal("%v", err)
	}
	do := func(t int, o op) {
		switch o.Op {
		case "get":
			mode[t-1] = o.F
			ev(M{"e": "get", "t": t, "k": o.K})
			var i *item
			var err error
			cl, _ := Try(func() error { i, err = ch.get(o.K); return nil })
			v := 0
			if errors.Is(err, errLoad) {
				cl = "load"
			} else if err != nil {
				cl = Class(err)
			}
			if cl == "" && i != nil {
				v = i.v
			}
			ev(M{"e": "got", "t": t, "v": v, "err": cl})
		case "rem":
			ev(M{"e": "rem", "t": t, "k": o.K})
			var ok bool
			cl, _ := Try(func() error { ok = ch.rem(o.K); return nil })
			ev(M{"e": "remd", "t": t, "ok": ok, "err": cl})
		case "clear":
			ev(M{"e": "clear", "t": t})
			var n int
			cl, _ := Try(func() error { n = ch.clear(); return nil })
			ev(M{"e": "cleared", "t": t, "n": n, "err": cl})
		case "exp":
			if s.Kind == "exp" {
				mu.Lock()
				vals := []int{}
				for _, i := range all {
					if i.k == o.K {
						i.old.Store(true)
						vals = append(vals, i.v)
					}
				}
				ev(M{"e": "exp", "vs": vals})
				mu.Unlock()
			}
		}
	}
	for i := range s.Threads {
		c.Add(func() {
			for _, o := range s.Threads[i] {
				do(i+1, o)
			}
		})
	}
	res := c.Run(plan, nil)
	if c.Spin {
		ev(M{"e": "hang"})
		return c.Events(), res
	}
	c.Drain(nil)
	ev(M{"e": "quiet"})
	if left := c.Free(3 * time.Second); len(left) > 0 {
		ev(M{"e": "hang", "left": len(left)})
		return c.Events(), res
	}
	n := len(s.Threads) + 1
	do(n, op{Op: "clear"})
	ev(M{"e": "quiet"})
	ev(M{"e": "end"})
	return c.Events(), res
}

func main() {
	Quiet()
	extra, _ := strconv.Atoi(os.Getenv("EXTRA"))
	single, _ := strconv.Atoi(os.Getenv("SINGLE"))
	ReadLines(func(n int, raw []byte) {
		var s scenario
		if err := json.Unmarshal(raw, &s); err != nil {
			Fatal("bad scenario: %v", err)
		}
		if len(s.Threads) == 1 {
			evs, _ := runOne(s, nil)
			Emit(M{"sc": n, "ev": evs})
			return
		}
		rnd := rand.New(rand.NewSource(Seed()*7919 + int64(n)))
		_, base := runOne(s, nil)
		seen := map[string]bool{}
		for _, p := range sched.Plans(base.Counts, extra, single, rnd) {
			evs, _ := runOne(s, p)
			b, _ := json.Marshal(evs)
			if !seen[string(b)] {
				seen[string(b)] = true
				Emit(M{"sc": n, "plan": p, "ev": evs})
			}
		}
	})
	Flush()
}
