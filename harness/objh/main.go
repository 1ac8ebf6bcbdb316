// objh runs scenarios generated from the specification (GenObjs.tla) on the in-memory object store and writes the
// observed histories as traces for TraceObjs.tla. With MODE=free the threads run freely.
package main

import (
	"bytes"
	"context"
	"encoding/binary"
	"encoding/json"
	"errors"
	"io"
	"math/rand"
	"os"
	"strconv"
	"strings"
	"sync"

	"github.com/solarisdb/solaris/golibs/sss"
	"github.com/solarisdb/solaris/golibs/sss/inmem"
	"github.com/solarisdb/solaris/verifharness/sched"
	. "github.com/solarisdb/solaris/verifharness/vlib"
)

type op struct {
	Op   string `json:"op"`
	K    []int  `json:"k"`
	Size int    `json:"size"`
	Fail int    `json:"fail"`
}

type scenario struct {
	Setup   []op   `json:"setup"`
	Threads [][]op `json:"threads"`
}

var names = []string{"", "a", "ab", "b c.x", "жa"}
var badKeys = []string{"", "a", "/", "//", "/a/", "a/b", "//a", "/a//b", "/ab/ ", "/a/ab/"}
var badPaths = []string{"", "a", "a/", "/a", "//", "/a//", "//a/", "/a/b", " ", "/a//b/"}

var errSource = errors.New("source")

func keyOf(k []int) string {
	var sb strings.Builder
	for _, n := range k {
		sb.WriteString("/" + names[n])
	}
	return sb.String()
}

// the value number n: what a put writes
func value(n, size int) []byte {
	b := make([]byte, size)
	var x [8]byte
	binary.BigEndian.PutUint64(x[:], uint64(n))
	for i := range b {
		b[i] = x[7-i%8]
	}
	return b
}

const empty = 1000000

// source gives a value piece by piece, or fails
type source struct {
	b    []byte
	fail int
	big  bool
}

func (s *source) Read(p []byte) (int, error) {
	sched.Point()
	n := len(p)
	if !s.big && n > 300 {
		n = 300
	}
	if n > len(s.b) {
		n = len(s.b)
	}
	if s.fail >= 0 && n > s.fail {
		n = s.fail
	}
	copy(p, s.b[:n])
	s.b = s.b[n:]
	if s.fail >= 0 {
		if s.fail -= n; s.fail == 0 {
			return n, errSource
		}
	}
	if len(s.b) == 0 {
		return n, io.EOF
	}
	return n, nil
}

type run struct {
	st   sss.Storage
	c    *sched.Ctl
	mu   sync.Mutex
	evs  []any
	free bool
	size map[int]int
}

func (r *run) ev(m M) {
	if !r.free {
		r.c.Event(m)
		return
	}
	r.mu.Lock()
	r.evs = append(r.evs, m)
	r.mu.Unlock()
}

func (r *run) exec(th int, o op) {
	ctx := context.Background()
	c := M{"op": o.Op, "k": o.K, "done": false, "err": "", "v": 0, "fails": false, "dup": false, "extra": false, "res": []M{}}
	if o.K == nil {
		c["k"] = []int{}
	}
	key := ""
	if strings.HasPrefix(o.Op, "bad") {
		c["op"] = "bad"
	} else {
		key = keyOf(o.K)
	}
	call := func() {
		r.ev(M{"e": "call", "th": th, "c": c})
		if !r.free {
			sched.Point()
		}
	}
	var cl string
	res := M{}
	switch o.Op {
	case "put":
		r.mu.Lock()
		n := len(r.size) + 1
		r.size[n] = o.Size
		r.mu.Unlock()
		src := &source{b: value(n, o.Size), fail: o.Fail, big: o.Size > 1000}
		if o.Fail >= 0 && o.Fail <= o.Size {
			c["fails"] = true
		} else {
			src.fail = -1
		}
		if c["v"] = n; o.Size == 0 {
			c["v"] = empty
		}
		call()
		cl, _ = Try(func() error { return r.st.Put(ctx, key, src) })
	case "get":
		call()
		var rc io.ReadCloser
		cl, _ = Try(func() (err error) { rc, err = r.st.Get(ctx, key); return })
		if cl == "" {
			if !r.free {
				sched.Point() // what was got stays what it is
			}
			b, err := io.ReadAll(rc)
			res["v"] = r.number(b)
			if err != nil || rc.Close() != nil {
				res["v"] = -1
			}
		}
	case "delete":
		call()
		cl, _ = Try(func() error { return r.st.Delete(ctx, key) })
	case "list":
		p := key + "/"
		call()
		var l []string
		cl, _ = Try(func() (err error) { l, err = r.st.List(ctx, p); return })
		seen := map[string]bool{}
		out := []M{}
		for _, s := range l {
			if seen[s] {
				res["dup"] = true
			}
			seen[s] = true
			x := strings.TrimSuffix(strings.TrimPrefix(s, p), "/")
			n := 0
			for i := 1; i < len(names); i++ {
				if names[i] == x {
					n = i
				}
			}
			if n == 0 || !strings.HasPrefix(s, p) {
				res["extra"] = true
			}
			out = append(out, M{"n": n, "dir": strings.HasSuffix(s, "/")})
		}
		res["res"] = out
	case "badput":
		call()
		cl, _ = Try(func() error { return r.st.Put(ctx, badKeys[o.K[0]-1], strings.NewReader("x")) })
	case "badget":
		call()
		cl, _ = Try(func() error { _, err := r.st.Get(ctx, badKeys[o.K[0]-1]); return err })
	case "baddelete":
		call()
		cl, _ = Try(func() error { return r.st.Delete(ctx, badKeys[o.K[0]-1]) })
	case "badlist":
		call()
		cl, _ = Try(func() error { _, err := r.st.List(ctx, badPaths[o.K[0]-1]); return err })
	}
	res["err"], res["done"] = cl, true
	r.mu.Lock()
	for k, v := range res {
		c[k] = v
	}
	r.mu.Unlock()
	r.ev(M{"e": "ret", "th": th, "op": o.Op, "err": cl})
}

func (r *run) number(b []byte) int {
	if len(b) == 0 {
		return empty
	}
	r.mu.Lock()
	defer r.mu.Unlock()
	for n, s := range r.size {
		if s == len(b) && bytes.Equal(b, value(n, s)) {
			return n
		}
	}
	return -1
}

func runOne(s scenario, plan []sched.Step, free bool) ([]any, sched.Result) {
	r := &run{st: inmem.NewStorage(), c: sched.New(), free: free, size: map[int]int{}}
	r.ev(M{"e": "cfg", "n": len(s.Threads) + 1})
	for _, o := range s.Setup {
		r.exec(len(s.Threads)+1, o)
	}
	var wg sync.WaitGroup
	for th, p := range s.Threads {
		th, p := th, p
		f := func() {
			for _, o := range p {
				r.exec(th+1, o)
			}
		}
		if free {
			wg.Add(1)
			go func() { defer wg.Done(); f() }()
		} else {
			r.c.Add(f)
		}
	}
	if free {
		wg.Wait()
		return r.evs, sched.Result{}
	}
	res := r.c.Run(plan, nil)
	if len(res.Stuck) > 0 {
		r.ev(M{"e": "hang"})
	}
	return r.c.Events(), res
}

func main() {
	Quiet()
	extra, _ := strconv.Atoi(os.Getenv("EXTRA"))
	single, _ := strconv.Atoi(os.Getenv("SINGLE"))
	free := os.Getenv("MODE") == "free"
	ReadLines(func(n int, raw []byte) {
		var s scenario
		if err := json.Unmarshal(raw, &s); err != nil {
			Fatal("bad scenario: %v", err)
		}
		if free {
			for k := 0; k < extra; k++ {
				evs, _ := runOne(s, nil, true)
				Emit(M{"sc": n, "plan": "free", "ev": evs})
			}
			return
		}
		evs, res := runOne(s, nil, false)
		Emit(M{"sc": n, "ev": evs})
		if len(s.Threads) == 1 || len(res.Stuck) > 0 {
			return
		}
		rnd := rand.New(rand.NewSource(Seed()*1000 + int64(n)))
		seen := map[string]bool{}
		for _, p := range sched.Plans(res.Counts, extra, single, rnd) {
			evs, _ := runOne(s, p, false)
			b, _ := json.Marshal(evs)
			if !seen[string(b)] {
				seen[string(b)] = true
				Emit(M{"sc": n, "plan": p, "ev": json.RawMessage(b)})
			}
		}
	})
	Flush()
}
