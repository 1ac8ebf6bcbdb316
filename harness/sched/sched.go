// Package sched runs a few threads of a scenario under a controlled schedule: in the packages built with statement
// instrumentation only one thread runs at a time, and it is preempted at the statement the plan names. A thread that
// blocks (mutex, channel, select, sleep) lets the next one go.
package sched

import (
	"bytes"
	"fmt"
	"math/rand"
	"runtime"
	"strconv"
	"sync"
	"sync/atomic"
	"time"

	"github.com/solarisdb/solaris/verifharness/vhook"
)

// Step lets the thread T execute N statement points (N < 0: until it ends or blocks)
type Step struct{ T, N int }

const (
	running = iota
	paused
	finished
)

type thr struct {
	c      *Ctl
	no     int
	f      func()
	goid   int64
	state  int32
	budget int64
	count  int64
	wake   chan struct{}
	dyn    bool // started by the code under test
}

// Ctl is one controlled run
type Ctl struct {
	threads []*thr
	cur     atomic.Int32 // the thread that may run
	free    atomic.Bool  // the schedule is over: nobody is paused any more
	mu      sync.Mutex
	events  []any
	tmu     sync.Mutex
	Spin    bool // a thread neither ended nor blocked for half a minute
}

var installed sync.Once

func install() {
	vhook.Set(func(string) {
		if t := vhook.GetTag(); t != nil {
			if th, ok := t.Data.(*thr); ok {
				th.point()
			}
		}
	})
}

// Event records an event of the run
func (c *Ctl) Event(e any) {
	c.mu.Lock()
	c.events = append(c.events, e)
	c.mu.Unlock()
}

// Events returns the recorded events
func (c *Ctl) Events() []any {
	c.mu.Lock()
	defer c.mu.Unlock()
	return append([]any{}, c.events...)
}

func (t *thr) point() {
	t.count++
	if t.dyn && atomic.LoadInt64(&t.goid) == 0 {
		atomic.StoreInt64(&t.goid, goid())
	}
	if t.c.free.Load() {
		return
	}
	if int(t.c.cur.Load()) == t.no {
		if b := atomic.LoadInt64(&t.budget); b != 0 {
			if b > 0 {
				atomic.AddInt64(&t.budget, -1)
			}
			return
		}
	}
	atomic.StoreInt32(&t.state, paused)
	<-t.wake
	// state was set by the controller
}

func goid() int64 {
	var buf [64]byte
	b := buf[:runtime.Stack(buf[:], false)]
	b = b[len("goroutine "):]
	n, _ := strconv.ParseInt(string(b[:bytes.IndexByte(b, ' ')]), 10, 64)
	return n
}

// New creates a run; Add adds threads, Run executes it
func New() *Ctl {
	installed.Do(install)
	return &Ctl{}
}

// Add adds a thread
func (c *Ctl) Add(f func()) int {
	t := &thr{c: c, no: len(c.threads), f: f, wake: make(chan struct{})}
	c.threads = append(c.threads, t)
	return t.no
}

// Point is an explicit preemption point of a harness
func Point() {
	if t := vhook.GetTag(); t != nil {
		if th, ok := t.Data.(*thr); ok {
			th.point()
		}
	}
}

// Self returns the number of the calling thread (-1: none)
func Self() int {
	if t := vhook.GetTag(); t != nil {
		if th, ok := t.Data.(*thr); ok {
			return th.no
		}
	}
	return -1
}

func (c *Ctl) start() {
	c.cur.Store(-1)
	for _, t := range c.threads {
		t := t
		ready := make(chan struct{})
		go func() {
			t.goid = goid()
			vhook.SetTag(&vhook.Tag{Data: t})
			close(ready)
			t.point() // the starting point
			t.f()
			vhook.SetTag(nil)
			atomic.StoreInt32(&t.state, finished)
		}()
		<-ready
	}
	c.settle()
}

var dump = make([]byte, 1<<20)

// waiting tells which goroutines wait for something; busy is true if a goroutine other than the controller's runs
func waiting(me int64) (w map[int64]bool, busy bool) {
	n := runtime.Stack(dump, true)
	w = map[int64]bool{}
	for _, g := range bytes.Split(dump[:n], []byte("\n\n")) {
		if !bytes.HasPrefix(g, []byte("goroutine ")) {
			continue
		}
		l := g[len("goroutine "):]
		i := bytes.IndexByte(l, ' ')
		id, _ := strconv.ParseInt(string(l[:i]), 10, 64)
		j, k := bytes.IndexByte(l, '['), bytes.IndexByte(l, ']')
		if j < 0 || k < j || id == me {
			continue
		}
		st := string(l[j+1 : k])
		if bytes.HasPrefix([]byte(st), []byte("runn")) || st == "syscall" || st == "preempted" {
			busy = true
		} else {
			w[id] = true
		}
	}
	return
}

// settle waits until every thread is paused, finished or blocked; it returns the blocked ones
func (c *Ctl) settle() map[int]bool {
	me := goid()
	deadline := time.Now().Add(30 * time.Second)
	quiet := 0
	for spin := 0; ; spin++ {
		run := 0
		for _, t := range c.threads {
			if atomic.LoadInt32(&t.state) == running {
				run++
			}
		}
		if run == 0 {
			return nil
		}
		if spin < 200 {
			runtime.Gosched()
			continue
		}
		w, busy := waiting(me)
		bl := map[int]bool{}
		all := true
		for _, t := range c.threads {
			if atomic.LoadInt32(&t.state) == running {
				if w[t.goid] {
					bl[t.no] = true
				} else {
					all = false
				}
			}
		}
		if all && !busy {
			if quiet++; quiet >= 2 {
				return bl
			}
		} else {
			quiet = 0
		}
		if time.Now().After(deadline) {
			c.Spin = true // somebody runs on and on
			return bl
		}
		if spin > 1000 {
			time.Sleep(50 * time.Microsecond)
		} else {
			runtime.Gosched()
		}
	}
}

func (c *Ctl) state(t int) int32 { return atomic.LoadInt32(&c.threads[t].state) }

func (c *Ctl) resume(t, n int) {
	th := c.threads[t]
	c.cur.Store(int32(t))
	if n < 0 {
		n = 1 << 40
	}
	atomic.StoreInt64(&th.budget, int64(n))
	if c.state(t) == paused {
		atomic.StoreInt32(&th.state, running)
		th.wake <- struct{}{}
	}
	c.settle()
	atomic.StoreInt64(&th.budget, 0)
	c.cur.Store(-1)
}

// Result of a run
type Result struct {
	Counts []int // statement points executed per thread
	Stuck  []int // threads that are blocked although every other one is finished or blocked
}

// Run executes the plan, then lets the threads end one after another in the order of `after`
// (all of them in their order when nil)
func (c *Ctl) Run(plan []Step, after []int) Result {
	c.start()
	for _, s := range plan {
		if c.state(s.T) == finished {
			continue
		}
		c.resume(s.T, s.N)
	}
	return c.Drain(after)
}

// Drain lets the threads run until all of them are finished or blocked
func (c *Ctl) Drain(after []int) Result {
	if after == nil {
		for i := range c.threads {
			after = append(after, i)
		}
	}
	for progress := true; progress; {
		progress = false
		for _, i := range after {
			if c.state(i) == paused {
				c.resume(i, -1)
				progress = true
			}
		}
		if !progress {
			// somebody may have been woken up meanwhile
			c.settle()
			for i := range c.threads {
				if c.state(i) == paused {
					progress = true
				}
			}
		}
	}
	var r Result
	for _, t := range c.threads {
		r.Counts = append(r.Counts, int(t.count))
		if atomic.LoadInt32(&t.state) != finished {
			r.Stuck = append(r.Stuck, t.no)
		}
	}
	return r
}

// Free lets all threads run freely (no more pauses) and waits for them; it returns the ones that do not end in time
func (c *Ctl) Free(timeout time.Duration) []int {
	c.free.Store(true)
	end := time.Now().Add(timeout)
	for {
		var left []int
		for _, t := range c.threads {
			if c.state(t.no) == paused {
				atomic.StoreInt32(&t.state, running)
				t.wake <- struct{}{}
			}
			if c.state(t.no) != finished {
				left = append(left, t.no)
			}
		}
		if len(left) == 0 || time.Now().After(end) {
			return left
		}
		time.Sleep(200 * time.Microsecond)
	}
}

// Plans returns schedules for threads with the given numbers of statement points: every single preemption, and
// `extra` random ones with two to four preemptions
func Plans(counts []int, extra int, maxSingle int, rnd *rand.Rand) [][]Step {
	var res [][]Step
	res = append(res, nil)
	var singles [][]Step
	for t, n := range counts {
		for p := 1; p < n; p++ {
			for u := range counts {
				if u != t {
					// t runs p points, u runs to its end, t goes on
					singles = append(singles, []Step{{t, p}, {u, -1}, {t, -1}})
				}
			}
		}
	}
	if maxSingle > 0 && len(singles) > maxSingle {
		rnd.Shuffle(len(singles), func(i, j int) { singles[i], singles[j] = singles[j], singles[i] })
		singles = singles[:maxSingle]
	}
	res = append(res, singles...)
	for i := 0; i < extra; i++ {
		var p []Step
		last := -1
		for k := 2 + rnd.Intn(4); k >= 0; k-- {
			t := rnd.Intn(len(counts))
			if t == last {
				t = (t + 1) % len(counts)
			}
			last = t
			n := counts[t]
			if n < 1 {
				n = 1
			}
			s := Step{t, 1 + rnd.Intn(n)}
			if rnd.Intn(4) == 0 {
				s.N = -1
			}
			p = append(p, s)
		}
		res = append(res, p)
	}
	return res
}

func (s Step) String() string { return fmt.Sprintf("%d:%d", s.T, s.N) }
