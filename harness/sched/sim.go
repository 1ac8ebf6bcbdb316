package sched

import (
	"math/rand"
	"runtime"
	"sync/atomic"
	"time"

	"github.com/solarisdb/solaris/verifharness/vhook"
	"github.com/solarisdb/solaris/verifharness/vtime"
)

// Sim runs the threads of a scenario, and the goroutines that the code under test starts, one at a time under the
// virtual clock: it picks at random who runs how far, and when time passes.
type Sim struct {
	*Ctl
	rnd *rand.Rand
	// Quiet is called when nobody can go on and time is about to pass to the next timer (or nothing is left, at < 0)
	Quiet func(at time.Duration)
	// Fired is called after the clock was moved
	Fired func()
	// Calm makes time pass only when nobody can go on
	Calm bool
	// Fine is the probability, in percent, that a thread runs a few statements only
	Fine int
	// Late is how late, at most, the clock may be when timers fire
	Late time.Duration
	// Stall sums up the time that passed although somebody could have gone on
	Stall time.Duration
	// Steps counts the decisions
	Steps int
}

// NewSim creates a run. Goroutines started by instrumented code from now on belong to it.
func NewSim(rnd *rand.Rand) *Sim {
	s := &Sim{Ctl: New(), rnd: rnd, Fine: 30}
	vhook.SetAdopt(func(*vhook.Tag) *vhook.Tag {
		t := &thr{c: s.Ctl, wake: make(chan struct{}), dyn: true}
		s.tmu.Lock()
		t.no = len(s.threads)
		s.threads = append(s.threads, t)
		s.tmu.Unlock()
		return &vhook.Tag{Data: t}
	})
	return s
}

func (c *Ctl) list() []*thr {
	c.tmu.Lock()
	defer c.tmu.Unlock()
	return append([]*thr{}, c.threads...)
}

// settleDyn waits until every thread is paused, finished or blocked
func (c *Ctl) settleDyn() {
	me := goid()
	deadline := time.Now().Add(30 * time.Second)
	quiet := 0
	for spin := 0; ; spin++ {
		run := 0
		for _, t := range c.list() {
			if atomic.LoadInt32(&t.state) == running {
				run++
			}
		}
		if run == 0 {
			return
		}
		if spin < 50 {
			runtime.Gosched()
			continue
		}
		ths := c.list()
		w, busy := waiting(me)
		if !busy {
			all := true
			for _, t := range ths {
				if atomic.LoadInt32(&t.state) != running {
					continue
				}
				id := atomic.LoadInt64(&t.goid)
				if !w[id] && !t.dyn {
					all = false
				}
			}
			if all {
				if quiet++; quiet >= 2 {
					for _, t := range ths {
						if t.dyn && atomic.LoadInt32(&t.state) == running && !w[atomic.LoadInt64(&t.goid)] {
							atomic.StoreInt32(&t.state, finished)
						}
					}
					return
				}
			} else {
				quiet = 0
			}
		} else {
			quiet = 0
		}
		if time.Now().After(deadline) {
			c.Spin = true
			return
		}
		if spin > 500 {
			time.Sleep(50 * time.Microsecond)
		} else {
			runtime.Gosched()
		}
	}
}

func (c *Ctl) resumeDyn(th *thr, n int64) {
	c.cur.Store(int32(th.no))
	atomic.StoreInt64(&th.budget, n)
	atomic.StoreInt32(&th.state, running)
	th.wake <- struct{}{}
	c.settleDyn()
	atomic.StoreInt64(&th.budget, 0)
	c.cur.Store(-1)
}

// Run starts the threads and goes on until done() says so (checked when nobody can go on), nothing can happen any
// more, or the virtual time passes the limit. It tells whether it ended before that limit.
func (s *Sim) Run(limit time.Duration, done func() bool) bool {
	s.start()
	return s.Go(limit, done)
}

// Go continues a run
func (s *Sim) Go(limit time.Duration, done func() bool) bool {
	var last *thr
	for s.Steps = 0; s.Steps < 200000 && !s.Spin; s.Steps++ {
		s.settleDyn()
		var ready []*thr
		for _, t := range s.list() {
			if atomic.LoadInt32(&t.state) == paused {
				ready = append(ready, t)
			}
		}
		next, ok := vtime.Next()
		if len(ready) == 0 {
			if done != nil && done() {
				return true
			}
			if !ok {
				if s.Quiet != nil {
					s.Quiet(-1)
				}
				return true
			}
			if next > limit {
				return false
			}
			if s.Quiet != nil {
				s.Quiet(next)
			}
			if s.Late > 0 {
				d := time.Duration(s.rnd.Int63n(int64(s.Late)))
				next += d
				s.Stall += d
			}
			vtime.Advance(next)
			if s.Fired != nil {
				s.Fired()
			}
			continue
		}
		if !s.Calm && ok && next <= limit && s.rnd.Intn(12) == 0 {
			if d := next - vtime.Elapsed(); d > 0 {
				s.Stall += d
			}
			vtime.Advance(next)
			if s.Fired != nil {
				s.Fired()
			}
			continue
		}
		t := ready[s.rnd.Intn(len(ready))]
		if last != nil && s.rnd.Intn(3) == 0 {
			for _, x := range ready {
				if x == last {
					t = x
				}
			}
		}
		last = t
		n := int64(1) << 40
		if s.rnd.Intn(100) < s.Fine {
			n = int64(1 + s.rnd.Intn(25))
			if s.rnd.Intn(2) == 0 {
				n = int64(1 + s.rnd.Intn(4))
			}
		}
		s.resumeDyn(t, n)
	}
	return false
}

// Blocked tells how many of the first n threads have not ended
func (s *Sim) Blocked(n int) (res []int) {
	for _, t := range s.list()[:n] {
		if atomic.LoadInt32(&t.state) != finished {
			res = append(res, t.no)
		}
	}
	return
}

// Alive tells how many goroutines of the code under test have not ended
func (s *Sim) Alive() (n int) {
	for _, t := range s.list() {
		if t.dyn && atomic.LoadInt32(&t.state) != finished {
			n++
		}
	}
	return
}

// Release lets everything that is left run freely
func (s *Sim) Release() {
	vhook.SetAdopt(nil)
	s.free.Store(true)
	for _, t := range s.list() {
		if atomic.LoadInt32(&t.state) == paused {
			atomic.StoreInt32(&t.state, running)
			t.wake <- struct{}{}
		}
	}
}
