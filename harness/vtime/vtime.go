// Package vtime stands for the package time in code under test: a virtual clock that the harness moves. Every look at
// the clock takes a nanosecond, so that two of them never give the same time, as with a real clock.
package vtime

import (
	"sort"
	"sync"
	"time"

	"github.com/solarisdb/solaris/verifharness/vhook"
)

type (
	Time     = time.Time
	Duration = time.Duration
	Month    = time.Month
	Weekday  = time.Weekday
	Location = time.Location

	// Timer is time.Timer (with the channel of one element it had before Go 1.23)
	Timer struct {
		C <-chan Time
		r *rt
	}
	// Ticker is time.Ticker
	Ticker struct {
		C <-chan Time
		r *rt
	}

	rt struct {
		when   int64
		period int64
		c      chan Time
		f      func()
		on     bool
		seq    int64
	}
)

const (
	Nanosecond  = time.Nanosecond
	Microsecond = time.Microsecond
	Millisecond = time.Millisecond
	Second      = time.Second
	Minute      = time.Minute
	Hour        = time.Hour
	RFC3339     = time.RFC3339
	RFC3339Nano = time.RFC3339Nano
	RFC1123     = time.RFC1123
	DateTime    = time.DateTime
	DateOnly    = time.DateOnly
	TimeOnly    = time.TimeOnly
)

var (
	UTC             = time.UTC
	Local           = time.Local
	Unix            = time.Unix
	UnixMilli       = time.UnixMilli
	UnixMicro       = time.UnixMicro
	Date            = time.Date
	Parse           = time.Parse
	ParseDuration   = time.ParseDuration
	ParseInLocation = time.ParseInLocation
	LoadLocation    = time.LoadLocation
	FixedZone       = time.FixedZone
)

var (
	mu   sync.Mutex
	base = time.Date(2031, 2, 3, 4, 5, 6, 0, time.UTC)
	off  int64
	seq  int64
	tms  []*rt
)

// Now is the virtual time
func Now() Time {
	mu.Lock()
	defer mu.Unlock()
	off++
	return base.Add(Duration(off))
}

// Set sets the base of the virtual clock
func Set(t Time) {
	mu.Lock()
	defer mu.Unlock()
	base, off = t, 0
}

// Elapsed is the virtual time since the base; looking at it takes no time
func Elapsed() Duration {
	mu.Lock()
	defer mu.Unlock()
	return Duration(off)
}

// At turns an elapsed time into a time
func At(d Duration) Time { return base.Add(d) }

// Since is time.Since
func Since(t Time) Duration { return Now().Sub(t) }

// Until is time.Until
func Until(t Time) Duration { return t.Sub(Now()) }

func start(d Duration, period int64, c chan Time, f func()) *rt {
	mu.Lock()
	defer mu.Unlock()
	off++
	if d < 0 {
		d = 0
	}
	seq++
	r := &rt{when: off + int64(d), period: period, c: c, f: f, on: true, seq: seq}
	tms = append(tms, r)
	return r
}

func stop(r *rt) bool {
	mu.Lock()
	defer mu.Unlock()
	was := r.on
	if was {
		r.on = false
		for i, x := range tms {
			if x == r {
				tms = append(tms[:i:i], tms[i+1:]...)
				break
			}
		}
	}
	return was
}

func reset(r *rt, d Duration, period int64) bool {
	was := stop(r)
	mu.Lock()
	defer mu.Unlock()
	off++
	if d < 0 {
		d = 0
	}
	seq++
	r.when, r.period, r.on, r.seq = off+int64(d), period, true, seq
	tms = append(tms, r)
	return was
}

// NewTimer is time.NewTimer
func NewTimer(d Duration) *Timer {
	c := make(chan Time, 1)
	return &Timer{c, start(d, 0, c, nil)}
}

// AfterFunc is time.AfterFunc
func AfterFunc(d Duration, f func()) *Timer { return &Timer{nil, start(d, 0, nil, f)} }

// After is time.After
func After(d Duration) <-chan Time { return NewTimer(d).C }

// Stop is Timer.Stop
func (t *Timer) Stop() bool { return stop(t.r) }

// Reset is Timer.Reset
func (t *Timer) Reset(d Duration) bool { return reset(t.r, d, 0) }

// NewTicker is time.NewTicker
func NewTicker(d Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	c := make(chan Time, 1)
	return &Ticker{c, start(d, int64(d), c, nil)}
}

// Tick is time.Tick
func Tick(d Duration) <-chan Time { return NewTicker(d).C }

// Stop is Ticker.Stop
func (t *Ticker) Stop() { stop(t.r) }

// Reset is Ticker.Reset
func (t *Ticker) Reset(d Duration) { reset(t.r, d, int64(d)) }

// Sleep is time.Sleep
func Sleep(d Duration) {
	if d > 0 {
		<-NewTimer(d).C
	}
}

// Next tells the elapsed time at which the next timer fires
func Next() (Duration, bool) {
	mu.Lock()
	defer mu.Unlock()
	best := int64(-1)
	for _, r := range tms {
		if best < 0 || r.when < best {
			best = r.when
		}
	}
	return Duration(best), best >= 0
}

// Advance moves the clock to d (if that is later) and fires the timers that are due then
func Advance(d Duration) {
	mu.Lock()
	if int64(d) > off {
		off = int64(d)
	}
	var due []*rt
	rest := tms[:0:0]
	for _, r := range tms {
		if r.when <= off {
			due = append(due, r)
		} else {
			rest = append(rest, r)
		}
	}
	tms = rest
	sort.Slice(due, func(i, j int) bool {
		if due[i].when != due[j].when {
			return due[i].when < due[j].when
		}
		return due[i].seq < due[j].seq
	})
	var fs []func()
	for _, r := range due {
		if r.period > 0 {
			for r.when <= off {
				r.when += r.period
			}
			tms = append(tms, r)
		} else {
			r.on = false
		}
		if r.f != nil {
			fs = append(fs, r.f)
			continue
		}
		select {
		case r.c <- base.Add(Duration(off)):
		default:
		}
	}
	mu.Unlock()
	for _, f := range fs {
		f := f
		t := vhook.GoBegin()
		go f()
		vhook.GoEnd(t)
	}
}

// Clear forgets all timers (of code that is over)
func Clear() {
	mu.Lock()
	defer mu.Unlock()
	tms = nil
}
