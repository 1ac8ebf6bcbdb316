// dlockh runs scenarios generated from the specification (GenDlock.tla) on the distributed lock under a virtual clock
// and random schedules, and writes the observed events as traces for TraceDlock.tla.
package main

import (
	"context"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"runtime"
	"strconv"
	"time"

	"github.com/solarisdb/solaris/golibs/errors"
	"github.com/solarisdb/solaris/golibs/kvs"
	dist "github.com/solarisdb/solaris/golibs/kvs/distlock"
	"github.com/solarisdb/solaris/golibs/kvs/inmem"
	gsync "github.com/solarisdb/solaris/golibs/sync"
	"github.com/solarisdb/solaris/verifharness/sched"
	. "github.com/solarisdb/solaris/verifharness/vlib"
	"github.com/solarisdb/solaris/verifharness/vtime"
)

type op struct {
	Op  string `json:"op"`
	L   int    `json:"l"`
	Ctx int    `json:"ctx"`
	D   int    `json:"d"`
	P   int    `json:"p"`
}

type locker struct {
	P    int `json:"p"`
	Name int `json:"name"`
}

type scenario struct {
	Lockers []locker `json:"lockers"`
	Threads [][]op   `json:"threads"`
}

var scn int

func now() int               { return int(vtime.Elapsed() / time.Microsecond) }
func ms(n int) time.Duration { return time.Duration(n) * time.Millisecond }

// store is how a provider sees the storage
type store struct {
	kvs.Storage
	r    *run
	p    int
	fail int
	lose bool
	slow int
	cut  time.Duration // not connected until then
	dead bool
}

type run struct {
	s  scenario
	c  *sched.Sim
	st []*store
	ev func(M)
}

var errFault = fmt.Errorf("injected: %w", errors.ErrCommunication)

func (s *store) do(f func() error) error {
	sched.Point()
	th := sched.Self() + 1
	if th > len(s.r.s.Threads) {
		th = 0
	}
	hit := func(m M) {
		x := M{"e": "hit", "p": s.p, "th": th, "fails": false, "lost": false, "long": false, "upto": -1, "t": now()}
		for k, v := range m {
			x[k] = v
		}
		s.r.ev(x)
	}
	if d := s.slow; d > 0 && (th > 0 || d < 1000) {
		s.slow = 0
		hit(M{"long": d > 1000, "upto": now() + d*1000 + 10000})
		vtime.Sleep(ms(d))
	}
	if s.dead || vtime.Elapsed() < s.cut || s.fail > 0 {
		if !s.dead && vtime.Elapsed() >= s.cut {
			s.fail--
		}
		hit(M{"fails": true})
		return errFault
	}
	l := s.lose
	s.lose = false
	if l {
		hit(M{"fails": true, "lost": true})
	}
	if err := f(); err != nil {
		return err
	}
	sched.Point()
	if l {
		return errFault
	}
	return nil
}

func (s *store) Create(ctx context.Context, rec kvs.Record) (v string, err error) {
	e := s.do(func() error { v, err = s.Storage.Create(ctx, rec); return nil })
	if e != nil {
		return "", e
	}
	return
}

func (s *store) Get(ctx context.Context, key string) (r kvs.Record, err error) {
	e := s.do(func() error { r, err = s.Storage.Get(ctx, key); return nil })
	if e != nil {
		return kvs.Record{}, e
	}
	return
}

func (s *store) Put(ctx context.Context, rec kvs.Record) (r kvs.Record, err error) {
	e := s.do(func() error { r, err = s.Storage.Put(ctx, rec); return nil })
	if e != nil {
		return kvs.Record{}, e
	}
	return
}

func (s *store) CasByVersion(ctx context.Context, rec kvs.Record) (r kvs.Record, err error) {
	e := s.do(func() error { r, err = s.Storage.CasByVersion(ctx, rec); return nil })
	if e != nil {
		return kvs.Record{}, e
	}
	return
}

func (s *store) Delete(ctx context.Context, key string) (err error) {
	e := s.do(func() error { err = s.Storage.Delete(ctx, key); return nil })
	if e != nil {
		return e
	}
	return
}

func (s *store) WaitForVersionChange(ctx context.Context, key, ver string) error {
	if s.dead || vtime.Elapsed() < s.cut {
		return s.do(func() error { return nil })
	}
	return s.Storage.WaitForVersionChange(ctx, key, ver)
}

func class(err error) string {
	if err == nil {
		return ""
	}
	if errors.Is(err, context.Canceled) {
		return "ctx"
	}
	return Class(err)
}

func runOne(s scenario, seed int64, fine int) []any {
	vtime.Set(vtime.At(0))
	rnd := rand.New(rand.NewSource(seed))
	c := sched.NewSim(rnd)
	c.Fine, c.Calm = fine, true
	if seed%5 < 2 {
		c.Late = 2 * time.Millisecond
	}
	evn, hung := 0, false
	ev := func(m M) {
		if evn++; evn == 3000 {
			c.Event(M{"e": "hang"})
			b, _ := json.Marshal(M{"sc": scn, "plan": seed, "ev": c.Events()})
			Emit(json.RawMessage(b))
			Flush()
			os.Exit(0)
		}
		c.Event(m)
		hung = hung || m["e"] == "hang"
	}
	r := &run{s: s, c: c, ev: ev}
	ev(M{"e": "cfg", "n": len(s.Threads), "lockers": s.Lockers})
	st := inmem.New()
	var ps []dist.LockProvider
	for p := 1; p <= 3; p++ {
		w := &store{Storage: st, r: r, p: p}
		r.st = append(r.st, w)
		ps = append(ps, dist.NewKvsLockProvider(w, "lock/"))
	}
	var ls []gsync.Locker
	for _, l := range s.Lockers {
		ls = append(ls, ps[l.P-1].NewLocker(fmt.Sprint("n", l.Name)))
	}
	down := map[int]bool{}
	exec := func(th int, o op) {
		switch o.Op {
		case "sleep":
			vtime.Sleep(ms(o.D))
		case "lock", "try":
			l := ls[o.L-1]
			w := r.st[s.Lockers[o.L-1].P-1]
			if w.dead {
				return
			}
			ctx, stop := context.WithCancel(context.Background())
			defer stop()
			if o.Ctx == 0 {
				stop()
			}
			ev(M{"e": "call", "th": th, "op": o.Op, "l": o.L, "t": now(), "ended": o.Ctx == 0})
			sched.Point()
			if o.Ctx > 0 {
				tm := vtime.AfterFunc(ms(o.Ctx), func() {
					ev(M{"e": "cancel", "th": th})
					stop()
				})
				defer tm.Stop()
			}
			var ok bool
			var err error
			cl, _ := Try(func() error {
				if o.Op == "try" {
					ok = l.TryLock(ctx)
				} else if err = l.LockWithCtx(ctx); err == nil {
					ok = true
				}
				return nil
			})
			if cl == "" {
				cl = class(err)
			}
			ev(M{"e": "ret", "th": th, "ok": ok, "err": cl, "t": now()})
			if !ok {
				return
			}
			if o.D > 0 {
				vtime.Sleep(ms(o.D))
			} else {
				sched.Point()
			}
			if w.dead {
				ev(M{"e": "gone", "th": th, "t": now()})
				return
			}
			ev(M{"e": "unlock", "th": th})
			sched.Point()
			cl, _ = Try(func() error { l.Unlock(); return nil })
			ev(M{"e": "unlocked", "th": th, "err": cl, "t": now()})
		case "die":
			r.st[o.P-1].dead = true
			ev(M{"e": "die", "p": o.P, "t": now()})
		case "shutdown":
			if !down[o.P] {
				down[o.P] = true
				ev(M{"e": "shutdown", "p": o.P})
				ps[o.P-1].Shutdown()
				ev(M{"e": "stopped", "p": o.P, "t": now()})
			}
		case "fail", "fail2":
			r.st[o.P-1].fail = len(o.Op) - 3
			if o.Op == "fail" {
				r.st[o.P-1].fail = 1
			}
		case "lose":
			r.st[o.P-1].lose = true
		case "slow":
			r.st[o.P-1].slow = o.D
		case "cut":
			w := r.st[o.P-1]
			if vtime.Elapsed() < w.cut {
				return
			}
			w.cut = vtime.Elapsed() + ms(o.D)
			ev(M{"e": "cut", "p": o.P, "long": o.D > 1000})
			vtime.AfterFunc(ms(o.D), func() { ev(M{"e": "cutend", "p": o.P}) })
		}
	}
	for th, p := range s.Threads {
		th, p := th, p
		c.Add(func() {
			for _, o := range p {
				exec(th+1, o)
			}
		})
	}
	c.Quiet = func(at time.Duration) {
		ev(M{"e": "quiet", "t": now(), "last": at < 0})
		if os.Getenv("DBG") != "" {
			b := make([]byte, 1<<20)
			println(now(), at, string(b[:runtime.Stack(b, true)]))
		}
	}
	if !c.Run(20*time.Minute, nil) {
		ev(M{"e": "hang"})
	} else {
		for _, b := range c.Blocked(len(s.Threads)) {
			x := false // whoever waits at a dead or stopped provider may
			for _, o := range s.Threads[b] {
				if o.L > 0 && (down[s.Lockers[o.L-1].P] || r.st[s.Lockers[o.L-1].P-1].dead) {
					x = true
				}
			}
			if !x {
				ev(M{"e": "hang"})
			}
		}
	}
	if hung { // what is left of it might disturb the others
		b, _ := json.Marshal(M{"sc": scn, "plan": seed, "ev": c.Events()})
		Emit(json.RawMessage(b))
		Flush()
		os.Exit(0)
	}
	c.Release()
	return c.Events()
}

func main() {
	Quiet()
	runs, _ := strconv.Atoi(os.Getenv("EXTRA"))
	ReadLines(func(n int, raw []byte) {
		var s scenario
		if err := json.Unmarshal(raw, &s); err != nil {
			Fatal("bad scenario: %v", err)
		}
		scn = n
		if p, err := strconv.ParseInt(os.Getenv("PLAN"), 10, 64); err == nil {
			for _, f := range []int{30, 85} {
				Emit(M{"sc": n, "plan": p, "ev": runOne(s, p, f)})
			}
			return
		}
		seen := map[string]bool{}
		for k := 0; k < runs; k++ {
			seed := Seed()*7919 + int64(n)*1000 + int64(k)
			fine := 30
			if k%4 >= 2 {
				fine = 85
			}
			evs := runOne(s, seed, fine)
			b, _ := json.Marshal(evs)
			if !seen[string(b)] {
				seen[string(b)] = true
				Emit(M{"sc": n, "plan": seed, "ev": json.RawMessage(b)})
			}
		}
	})
	Flush()
}
