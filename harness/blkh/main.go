// blkh replays histories of bytes.Blocks (C17): sequential ones on in-memory and mapped buffers, and concurrent ones
// under the controlled scheduler.
package main

import (
	"encoding/json"
	"math"
	"math/rand"
	"os"
	"path/filepath"
	"strconv"
	"sync"
	"sync/atomic"
	"time"
	"unsafe"

	"github.com/solarisdb/solaris/golibs/container/bytes"
	"github.com/solarisdb/solaris/golibs/files"
	"github.com/solarisdb/solaris/verifharness/sched"
	. "github.com/solarisdb/solaris/verifharness/vlib"
)

type op struct {
	Op string `json:"op"`
	K  int    `json:"k"`
	N  int    `json:"n"`
}
type beh struct {
	Cfg struct {
		MMap bool `json:"mmap"`
		BS   int  `json:"bs"`
		Segs int  `json:"segs"`
		Rest int  `json:"rest"`
	} `json:"cfg"`
	Ops     []op   `json:"ops"`
	Threads [][]op `json:"threads"`
}

type run struct {
	mu   sync.Mutex
	evs  []any
	buf  bytes.Buffer
	bks  *bytes.Blocks
	dir  string
	b    beh
	segs int
	held map[int][]int // user -> blocks
	ctl  *sched.Ctl
}

func (r *run) ev(m M) {
	if r.ctl != nil {
		r.ctl.Event(m)
		return
	}
	r.evs = append(r.evs, m)
}

func (r *run) segSize() int { return (r.b.Cfg.BS*8 + 1) * r.b.Cfg.BS }

func (r *run) size(segs int) int64 {
	n := int64(segs * r.segSize())
	if r.b.Cfg.MMap {
		return (n + 4095) / 4096 * 4096
	}
	return n + int64(r.b.Cfg.Rest%r.segSize())
}

func (r *run) open(first bool) bool {
	if r.b.Cfg.MMap {
		if r.buf != nil {
			r.buf.Close()
		}
		f, err := files.NewMMFile(filepath.Join(r.dir, "blocks"), -1)
		if err != nil {
			Fatal("mmap: %v", err)
		}
		r.buf = f
	} else if first {
		r.buf = bytes.NewInMemBytes(int(r.size(r.segs)))
	}
	r.segs = int(r.buf.Size()) / r.segSize()
	var bks *bytes.Blocks
	cl, d := Try(func() (err error) {
		bks, err = bytes.NewBlocks(r.b.Cfg.BS, r.buf, r.buf.Size()%int64(r.segSize()) == 0)
		return
	})
	e := M{"e": "open", "n": r.segs * r.b.Cfg.BS * 8, "err": cl, "count": 0, "avail": 0}
	if cl == "" {
		r.bks = bks
		e["count"], e["avail"] = bks.Count(), bks.Available()
	} else {
		e["detail"] = d
	}
	r.ev(e)
	return cl == ""
}

func (r *run) books() {
	c, a := r.bks.Count(), r.bks.Available()
	sound := r.bks.Segments() == r.segs && math.Abs(float64(r.bks.Completion())-float64(c-a)/float64(c)) < 0.001
	r.ev(M{"e": "books", "count": c, "avail": a, "sound": sound})
}

func (r *run) arrange(u int) bool {
	r.ev(M{"e": "arr", "u": u})
	idx := -1
	cl, _ := Try(func() (err error) { idx, err = r.bks.ArrangeBlock(); return })
	inside := false
	if cl == "" {
		b, err := r.bks.Block(idx)
		w, err2 := r.buf.Buffer(0, int(r.buf.Size()))
		if err == nil && err2 == nil && len(b) == r.b.Cfg.BS {
			off := uintptr(unsafe.Pointer(&b[0])) - uintptr(unsafe.Pointer(&w[0]))
			inside = off < uintptr(len(w)) && off+uintptr(len(b)) <= uintptr(len(w))
		}
		r.mu.Lock()
		r.held[u] = append(r.held[u], idx)
		r.mu.Unlock()
	}
	r.ev(M{"e": "arrd", "u": u, "idx": idx, "err": cl, "inside": inside})
	return cl == ""
}

func (r *run) free(u, idx int, own bool) {
	r.ev(M{"e": "free", "u": u, "idx": idx, "own": own, "shared": false})
	cl, _ := Try(func() error { return r.bks.FreeBlock(idx) })
	r.ev(M{"e": "freed", "u": u, "idx": idx, "own": own, "shared": false, "err": cl})
}

func (r *run) freeHeld(u, k int) {
	r.mu.Lock()
	h := r.held[u]
	if len(h) == 0 {
		r.mu.Unlock()
		return
	}
	j := k % len(h)
	idx := h[j]
	r.held[u] = append(h[:j:j], h[j+1:]...)
	r.mu.Unlock()
	r.free(u, idx, true)
}

func (r *run) write(u, k, v int) {
	if h := r.held[u]; len(h) > 0 {
		idx := h[k%len(h)]
		if b, err := r.bks.Block(idx); err == nil {
			for i := range b {
				b[i] = byte(v)
			}
		}
		r.ev(M{"e": "write", "idx": idx, "b": v})
	}
}

func (r *run) read(u, k int) {
	if h := r.held[u]; len(h) > 0 {
		r.readIdx(h[k%len(h)])
	}
}

func (r *run) readIdx(idx int) {
	v := -1
	cl, _ := Try(func() error {
		b, err := r.bks.Block(idx)
		if err == nil && len(b) > 0 {
			v = int(b[0])
			for _, x := range b {
				if int(x) != v {
					v = -1
				}
			}
		}
		return err
	})
	r.ev(M{"e": "read", "idx": idx, "err": cl, "b": v})
}

func (r *run) do(o op) bool {
	n := r.segs * r.b.Cfg.BS * 8
	switch o.Op {
	case "arrange":
		for i := 0; i < o.N; i++ {
			r.arrange(1)
		}
	case "free":
		for i := 0; i < o.N; i++ {
			r.freeHeld(1, o.K+3*i)
		}
	case "freebad":
		idx := -1 - o.K%20
		switch {
		case o.N == -1:
			idx = n
		case o.N == 0:
			idx = n + o.K
		case o.N > 0:
			h := map[int]bool{}
			for _, x := range r.held[1] {
				h[x] = true
			}
			for i := 0; i < n; i++ {
				if j := (i + o.K) % n; !h[j] {
					idx = j
					break
				}
			}
		}
		r.free(1, idx, false)
	case "write":
		for i := 0; i < 3; i++ {
			r.write(1, o.K+5*i, (o.N+i)%256)
		}
	case "fill":
		for i := 0; i < n+2 && r.arrange(1); i++ {
		}
	case "clear":
		for i := len(r.held[1]) * o.N / 100; i > 0; i-- {
			r.freeHeld(1, o.K*i)
		}
	case "reopen":
		if !r.open(false) {
			return false
		}
	case "grow":
		s := r.size(r.segs + 1)
		if err := r.buf.Grow(s); err != nil {
			Fatal("grow: %v", err)
		}
		if o.N == 2 && !r.open(false) {
			return false
		}
	case "bad":
		fit := o.K > 0
		size := 65536
		if bs := o.N; bs > 0 && bs <= 1024 && bs&(bs-1) == 0 {
			size = (8*bs+1)*bs + o.K
		}
		cl, _ := Try(func() error {
			_, err := bytes.NewBlocks(o.N, bytes.NewInMemBytes(size), fit)
			return err
		})
		r.ev(M{"e": "new", "bs": o.N, "size": size, "fit": fit, "err": cl})
	case "outside":
		for _, idx := range []int{-1, n, n + o.K, -o.K - 2} {
			cl, _ := Try(func() error { _, err := r.bks.Block(idx); return err })
			r.ev(M{"e": "outside", "idx": idx, "err": cl})
		}
	}
	return true
}

var (
	current atomic.Pointer[run]
	no      int
)

func newRun(b beh) *run {
	r := &run{b: b, held: map[int][]int{}, segs: b.Cfg.Segs}
	if b.Cfg.MMap {
		var err error
		if r.dir, err = os.MkdirTemp("", "blk"); err != nil {
			Fatal("%v", err)
		}
		if err := os.WriteFile(filepath.Join(r.dir, "blocks"), make([]byte, r.size(r.segs)), 0600); err != nil {
			Fatal("%v", err)
		}
	}
	return r
}

func (r *run) end() {
	if r.dir != "" {
		r.buf.Close()
		os.RemoveAll(r.dir)
	}
}

func sequential(n int, b beh) {
	r := newRun(b)
	defer r.end()
	current.Store(r)
	no = n
	if r.open(true) {
		for i, o := range append(b.Ops, op{"reopen", 0, 0}, op{"free", 3, 3}, op{"fill", 0, 0}) {
			Busy(true)
			ok := r.do(o)
			Busy(false)
			if !ok {
				break
			}
			r.books()
			r.read(1, i*7)
			r.read(1, i*3+1)
		}
		for i, idx := range r.held[1] {
			if i < 200 {
				r.readIdx(idx)
			}
		}
	}
	Emit(M{"b": n, "ev": r.evs})
}

func concurrent(b beh, plan []sched.Step) ([]any, sched.Result) {
	r := newRun(b)
	defer r.end()
	r.ctl = sched.New()
	if !r.open(true) {
		return r.ctl.Events(), sched.Result{Counts: make([]int, len(b.Threads))}
	}
	for _, o := range b.Ops {
		r.do(o)
	}
	// what was prepared is spread over the users
	h := r.held[1]
	r.held[1] = nil
	for i, idx := range h {
		u := i%len(b.Threads) + 1
		r.held[u] = append(r.held[u], idx)
	}
	for i, p := range b.Threads {
		i, p := i+1, p
		r.ctl.Add(func() {
			for _, o := range p {
				switch o.Op {
				case "arrange":
					if r.arrange(i) {
						r.write(i, len(r.held[i])-1, o.K%256)
					}
				case "free":
					r.freeHeld(i, o.K)
				case "freeshared":
					if o.K <= len(h) {
						idx := h[o.K-1]
						r.ev(M{"e": "free", "u": i, "idx": idx, "own": false, "shared": true})
						cl, _ := Try(func() error { return r.bks.FreeBlock(idx) })
						r.ev(M{"e": "freed", "u": i, "idx": idx, "own": false, "shared": true, "err": cl})
					}
				case "read":
					r.read(i, o.K)
				}
			}
		})
	}
	res := r.ctl.Run(plan, nil)
	if left := r.ctl.Free(3 * time.Second); len(left) > 0 || r.ctl.Spin {
		r.ev(M{"e": "hang"})
		return r.ctl.Events(), res
	}
	r.books()
	for u := range b.Threads {
		for _, idx := range r.held[u+1] {
			if b.Threads[0][0].Op == "freeshared" {
				break
			}
			r.readIdx(idx)
		}
	}
	if r.open(false) {
		r.books()
		for i := 0; i < r.segs*r.b.Cfg.BS*8+2 && r.arrange(1); i++ {
		}
		r.books()
	}
	return r.ctl.Events(), res
}

func main() {
	Quiet()
	Watchdog(20*time.Second, func() { Emit(M{"b": no, "ev": append(current.Load().evs, M{"e": "hang"})}) })
	extra, _ := strconv.Atoi(os.Getenv("EXTRA"))
	single, _ := strconv.Atoi(os.Getenv("SINGLE"))
	ReadLines(func(n int, raw []byte) {
		var b beh
		if err := json.Unmarshal(raw, &b); err != nil {
			Fatal("behaviour: %v", err)
		}
		if len(b.Threads) == 0 {
			sequential(n, b)
			return
		}
		rnd := rand.New(rand.NewSource(Seed()*7919 + int64(n)))
		_, base := concurrent(b, nil)
		seen := map[string]bool{}
		for _, p := range sched.Plans(base.Counts, extra, single, rnd) {
			evs, _ := concurrent(b, p)
			j, _ := json.Marshal(evs)
			if !seen[string(j)] {
				seen[string(j)] = true
				Emit(M{"b": n, "ev": evs})
			}
		}
	})
	Flush()
}
