// kvsh runs scenarios generated from the specification (GenKvs.tla) on the key-value storages under a controlled
// schedule and a virtual clock, and writes the observed histories as traces for TraceKvs.tla.
package main

import (
	"bufio"
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"net"
	"os"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/alicebob/miniredis/v2"
	"github.com/alicebob/miniredis/v2/server"
	goredis "github.com/go-redis/redis/v8"
	"github.com/gobwas/glob"
	"github.com/solarisdb/solaris/golibs/kvs"
	"github.com/solarisdb/solaris/golibs/kvs/inmem"
	"github.com/solarisdb/solaris/golibs/kvs/redis"
	"github.com/solarisdb/solaris/verifharness/sched"
	. "github.com/solarisdb/solaris/verifharness/vlib"
	"github.com/solarisdb/solaris/verifharness/vtime"
)

type op struct {
	Op  string `json:"op"`
	K   int    `json:"k"`
	TTL int    `json:"ttl"`
	Ks  []int  `json:"ks"`
	Pat string `json:"pat"`
	V   int    `json:"v"`
}

type scenario struct {
	Kind    string `json:"kind"`
	Setup   []op   `json:"setup"`
	Threads [][]op `json:"threads"`
	Cancel  int    `json:"cancel"`
}

var keys = []string{"", "a", "ab", "b/d", "a*"}

func us(t time.Time) int { return int(t.Sub(vtime.At(0)) / time.Microsecond) }
func now() int           { return int(vtime.Elapsed() / time.Microsecond) }

// --- the server: its clock follows the virtual one, every command is a scheduling point
var (
	mini  *miniredis.Miniredis
	rcli  kvs.Storage
	mtime time.Duration
	mmu   sync.Mutex
)

// conn is a connection to the server: commands are carried out when they are sent
type conn struct {
	peer *server.Peer
	w    *bufio.Writer
	in   bytes.Buffer
	out  bytes.Buffer
	last string // where a scan goes on
}

type addr struct{}

func (addr) Network() string { return "mem" }
func (addr) String() string  { return "mem" }

func (c *conn) LocalAddr() net.Addr              { return addr{} }
func (c *conn) RemoteAddr() net.Addr             { return addr{} }
func (c *conn) SetDeadline(time.Time) error      { return nil }
func (c *conn) SetReadDeadline(time.Time) error  { return nil }
func (c *conn) SetWriteDeadline(time.Time) error { return nil }
func (c *conn) Close() error                     { c.peer.Close(); return nil }

func (c *conn) Read(b []byte) (int, error) {
	if c.out.Len() == 0 {
		return 0, io.EOF // nobody asked anything
	}
	return c.out.Read(b)
}

func (c *conn) Write(b []byte) (int, error) {
	sched.Point()
	mmu.Lock()
	defer mmu.Unlock()
	if d := vtime.Elapsed() - mtime; d > 0 {
		mini.FastForward(d)
		mtime += d
	}
	c.in.Write(b)
	rd := bufio.NewReader(bytes.NewReader(c.in.Bytes()))
	c.in = bytes.Buffer{}
	for {
		a := array(rd)
		if a == nil {
			return len(b), nil
		}
		if strings.EqualFold(a[0], "scan") {
			c.scan(a)
			continue
		}
		mini.Server().Dispatch(c.peer, a)
		c.peer.Flush()
	}
}

// scan answers in two pages, the second of which repeats a key, as servers may
func (c *conn) scan(a []string) {
	var b bytes.Buffer
	w := bufio.NewWriter(&b)
	p := server.NewPeer(w)
	cur := a[1]
	a[1] = "0"
	mini.Server().Dispatch(p, a)
	p.Flush()
	rd := bufio.NewReader(&b)
	line(rd)
	str(rd)
	ks := array(rd)
	next := "0"
	if cur == "0" {
		if len(ks) > 1 {
			ks = ks[:(len(ks)+1)/2]
			next, c.last = "7", ks[len(ks)-1]
		}
	} else {
		for len(ks) > 0 && ks[0] < c.last {
			ks = ks[1:]
		}
	}
	fmt.Fprintf(&c.out, "*2\r\n$1\r\n%s\r\n*%d\r\n", next, len(ks))
	for _, k := range ks {
		fmt.Fprintf(&c.out, "$%d\r\n%s\r\n", len(k), k)
	}
}

func line(rd *bufio.Reader) string {
	l, _ := rd.ReadString('\n')
	return strings.TrimSpace(l)
}

func str(rd *bufio.Reader) string {
	n, _ := strconv.Atoi(strings.TrimPrefix(line(rd), "$"))
	b := make([]byte, n+2)
	io.ReadFull(rd, b)
	return string(b[:n])
}

func array(rd *bufio.Reader) (res []string) {
	l := line(rd)
	if !strings.HasPrefix(l, "*") {
		return nil
	}
	n, _ := strconv.Atoi(l[1:])
	for ; n > 0; n-- {
		res = append(res, str(rd))
	}
	return
}

func connect() {
	var err error
	if mini, err = miniredis.Run(); err != nil {
		Fatal("miniredis: %v", err)
	}
	rcli = redis.New(&goredis.Options{Addr: mini.Addr(), IdleCheckFrequency: -1, IdleTimeout: -1, MaxRetries: -1, PoolSize: 50,
		Dialer: func(ctx context.Context, network, addr string) (net.Conn, error) {
			c := &conn{}
			c.w = bufio.NewWriter(&c.out)
			c.peer = server.NewPeer(c.w)
			return c, nil
		}})
}

// --- one run
type run struct {
	s     scenario
	st    kvs.Storage
	c     *sched.Sim
	mu    sync.Mutex
	ids   map[string]int
	names map[int]string
	seen  map[int][]string
	wn    int
	ctx   context.Context
	stop  context.CancelFunc
	last  int
	naps  int
	pend  int // calls other than waits that go on
}

func (r *run) ver(v string) int {
	if v == "" {
		return 0
	}
	r.mu.Lock()
	defer r.mu.Unlock()
	if _, ok := r.ids[v]; !ok {
		r.ids[v] = len(r.ids) + 1
	}
	return r.ids[v]
}

func (r *run) saw(k int, v string) int {
	if v != "" {
		r.mu.Lock()
		if n := len(r.seen[k]); n == 0 || r.seen[k][n-1] != v {
			r.seen[k] = append(r.seen[k], v)
		}
		r.mu.Unlock()
	}
	return r.ver(v)
}

func (r *run) given(o op) string {
	r.mu.Lock()
	defer r.mu.Unlock()
	vs := r.seen[o.K]
	switch {
	case len(vs) == 0 || o.V == 10:
		return "none"
	case o.V >= 9 && len(vs) > 1:
		return vs[len(vs)-2]
	}
	return vs[len(vs)-1]
}

func (r *run) record(k, ttl int) (kvs.Record, M) {
	r.mu.Lock()
	r.wn++
	n := r.wn
	r.mu.Unlock()
	rec := kvs.Record{Key: keys[k], Value: []byte(fmt.Sprintf("%06d", n))}
	p := part(k)
	p["wval"] = n
	if ttl != 0 {
		e := vtime.Now().Add(time.Duration(ttl) * time.Millisecond)
		rec.ExpiresAt = &e
		p["wexp"] = us(e) + 1000000
	}
	return rec, p
}

// expires says when what was written between t0 and t1 may expire at the earliest and must have at the latest
func (r *run) expires(p M, t0, t1 int) {
	x, _ := p["wexp"].(int)
	if x == 0 {
		return
	}
	e := x - 1000000
	lo, hi := e, e
	if r.s.Kind == "redis" {
		lo = e - 1000
		if t1 > hi {
			hi = t1
		}
		hi += 1000 + t1 - t0 + 1
	}
	if lo < 1 {
		lo = 1
	}
	if hi < 1 {
		hi = 1
	}
	p["elo"], p["ehi"] = lo, hi
}

func part(k int) M {
	return M{"k": k, "err": "", "val": 0, "ver": 0, "exp": 0, "wval": 0, "wexp": 0, "elo": 0, "ehi": 0, "given": 0}
}

func spoil(rec kvs.Record) {
	for i := range rec.Value {
		rec.Value[i] = '!'
	}
	if rec.ExpiresAt != nil {
		*rec.ExpiresAt = vtime.At(-time.Hour)
	}
}

func (r *run) read(p M, rec kvs.Record) {
	n, err := strconv.Atoi(string(rec.Value))
	if err != nil || rec.Key != keys[p["k"].(int)] {
		n = -1
	}
	p["val"], p["ver"] = n, r.saw(p["k"].(int), rec.Version)
	if rec.ExpiresAt != nil {
		p["exp"] = us(*rec.ExpiresAt) + 1000000
	}
	spoil(rec)
}

var errPanic = fmt.Errorf("panic")

func try(f func() error) (err error) {
	if c, _ := Try(func() error { err = f(); return nil }); c != "" {
		err = errPanic
	}
	return
}

func cls(err error) string {
	if err == errPanic {
		return "panic"
	}
	if c := Class(err); c != "Canceled" {
		return c
	}
	return "ctx"
}

func (r *run) exec(th int, o op) {
	if o.Op == "sleep" {
		r.nap(o.TTL)
		return
	}
	var parts []M
	c := M{"op": strings.TrimSuffix(o.Op, "c"), "t": now(), "p": &parts, "done": false}
	ret := M{"e": "ret", "th": th, "op": c["op"], "dup": false, "extra": false, "bad": false}
	var recs []kvs.Record
	ctx := context.Background()
	call := func(ps ...M) {
		parts = append([]M{}, ps...)
		if o.Op != "wait" {
			r.mu.Lock()
			r.pend++
			r.mu.Unlock()
		}
		r.c.Event(M{"e": "call", "th": th, "c": c})
		sched.Point()
	}
	t0 := now()
	var err error
	switch o.Op {
	case "create":
		rec, p := r.record(o.K, o.TTL)
		call(p)
		recs = append(recs, rec)
		var v string
		err = try(func() (err error) { v, err = r.st.Create(ctx, rec); return })
		p["ver"] = r.saw(o.K, v)
	case "put":
		rec, p := r.record(o.K, o.TTL)
		call(p)
		recs = append(recs, rec)
		var x kvs.Record
		err = try(func() (err error) { x, err = r.st.Put(ctx, rec); return })
		ret["bad"] = err == nil && (x.Key != rec.Key || string(x.Value) != string(rec.Value))
		p["ver"] = r.saw(o.K, x.Version)
		recs = append(recs, x)
	case "cas":
		rec, p := r.record(o.K, o.TTL)
		rec.Version = r.given(o)
		p["given"] = r.ver(rec.Version)
		call(p)
		recs = append(recs, rec)
		var x kvs.Record
		err = try(func() (err error) { x, err = r.st.CasByVersion(ctx, rec); return })
		if err == nil {
			ret["bad"] = x.Key != rec.Key || string(x.Value) != string(rec.Value)
			p["ver"] = r.saw(o.K, x.Version)
			recs = append(recs, x)
		}
	case "putmany":
		var ps []M
		for _, k := range o.Ks {
			rec, p := r.record(k, o.TTL)
			if k%2 == 0 {
				rec.ExpiresAt, p["wexp"] = nil, 0
			}
			rec.Version = r.given(op{K: k})
			ps = append(ps, p)
			recs = append(recs, rec)
		}
		call(ps...)
		err = try(func() error { return r.st.PutMany(ctx, recs) })
	case "get":
		p := part(o.K)
		call(p)
		var x kvs.Record
		err = try(func() (err error) { x, err = r.st.Get(ctx, keys[o.K]); return })
		if err == nil {
			r.read(p, x)
		}
	case "getmany":
		var ps []M
		var ks []string
		for _, k := range o.Ks {
			ps = append(ps, part(k))
			ks = append(ks, keys[k])
		}
		call(ps...)
		var xs []*kvs.Record
		err = try(func() (err error) { xs, err = r.st.GetMany(ctx, ks...); return })
		ret["bad"] = err == nil && len(xs) != len(ks)
		var cp []kvs.Record
		for i := range ps {
			ps[i]["err"] = "NotExist"
			if i < len(xs) && xs[i] != nil {
				cp = append(cp, xs[i].Copy())
				ps[i]["err"] = ""
				r.read(ps[i], xs[i].Copy())
			}
		}
		for _, x := range xs {
			if x != nil {
				recs = append(recs, *x)
			}
		}
	case "delete":
		call(part(o.K))
		err = try(func() error { return r.st.Delete(ctx, keys[o.K]) })
	case "wait", "waitc":
		p := part(o.K)
		v := r.given(o)
		p["given"] = r.ver(v)
		cx, stop := context.WithCancel(r.ctx)
		call(p)
		var tm *vtime.Timer
		if o.TTL > 0 {
			tm = vtime.AfterFunc(time.Duration(o.TTL)*time.Millisecond, func() {
				r.c.Event(M{"e": "cancel", "th": th})
				stop()
			})
		}
		err = try(func() error { return r.st.WaitForVersionChange(cx, keys[o.K], v) })
		if tm != nil {
			tm.Stop()
		}
		stop()
	case "list":
		g := glob.MustCompile(o.Pat)
		var ps []M
		for k := 1; k < len(keys); k++ {
			if g.Match(keys[k]) {
				ps = append(ps, part(k))
			}
		}
		call(ps...)
		got := map[string]int{}
		err = try(func() error {
			it, err := r.st.ListKeys(ctx, o.Pat)
			if err != nil {
				return err
			}
			defer it.Close()
			for it.HasNext() {
				k, ok := it.Next()
				if !ok {
					return fmt.Errorf("no next key")
				}
				got[k]++
			}
			return nil
		})
		for _, p := range ps {
			k := keys[p["k"].(int)]
			p["err"] = "NotExist"
			if got[k] > 0 {
				p["err"] = ""
			}
			if got[k] > 1 {
				ret["dup"] = true
			}
			delete(got, k)
		}
		ret["extra"] = len(got) > 0
	}
	ret["err"] = cls(err)
	t1 := now()
	for _, p := range parts {
		r.expires(p, t0, t1)
		if o.Op != "getmany" && o.Op != "list" {
			p["err"] = ret["err"]
		}
	}
	c["done"] = true
	r.mu.Lock()
	if o.Op != "wait" {
		r.pend--
	}
	r.last = t1
	r.mu.Unlock()
	ret["t"] = now()
	r.c.Event(ret)
	for _, rec := range recs { // what belongs to the caller is the caller's
		spoil(rec)
	}
}

func (r *run) nap(ms int) {
	r.mu.Lock()
	r.naps++
	r.mu.Unlock()
	vtime.Sleep(time.Duration(ms) * time.Millisecond)
	r.mu.Lock()
	r.naps--
	r.mu.Unlock()
}

func (r *run) cancel() {
	r.c.Event(M{"e": "cancel", "th": 0})
	r.stop()
}

func runOne(s scenario, seed int64, fine int, calm bool) []any {
	vtime.Set(vtime.At(0))
	mtime = 0
	c := sched.NewSim(rand.New(rand.NewSource(seed)))
	c.Fine, c.Calm = fine, calm
	r := &run{s: s, c: c, ids: map[string]int{}, seen: map[int][]string{}}
	r.ctx, r.stop = context.WithCancel(context.Background())
	if s.Kind == "mem" {
		r.st = inmem.New()
	} else {
		if mini == nil {
			connect()
		}
		mini.FlushAll()
		r.st = rcli
	}
	vtime.Advance(time.Second)
	mtime = time.Second
	n := len(s.Threads) + 1
	c.Event(M{"e": "cfg", "n": n, "kind": s.Kind})
	solo := len(s.Threads) == 1
	if solo {
		r.cancel()
	}
	for _, o := range s.Setup {
		if o.Op != "wait" && o.Op != "sleep" { // (there is nobody else yet)
			r.exec(n, o)
		}
	}
	for th, p := range s.Threads {
		th, p := th, p
		c.Add(func() {
			for _, o := range p {
				r.exec(th+1, o)
			}
		})
	}
	if s.Cancel > 0 {
		c.Add(func() {
			r.nap(s.Cancel)
			r.cancel()
		})
	}
	quiet := func() { c.Event(M{"e": "quiet", "t": now()}) }
	nq := 0
	c.Quiet = func(at time.Duration) {
		if nq++; nq < 200 {
			quiet()
		}
	}
	const over = 700 * time.Millisecond
	all := len(s.Threads)
	if s.Cancel > 0 {
		all++
	}
	hang := func() []any {
		c.Event(M{"e": "hang"})
		c.Release()
		return c.Events()
	}
	if !c.Run(time.Minute, func() bool {
		return now() > r.last+int(over/time.Microsecond) && r.pend == 0 && r.naps == 0
	}) {
		return hang()
	}
	if len(c.Blocked(all)) > 0 {
		vtime.Advance(vtime.Elapsed() + over)
		if !c.Go(vtime.Elapsed()+over, func() bool { return true }) {
			return hang()
		}
		quiet()
		r.cancel()
		if !c.Go(vtime.Elapsed()+over, nil) {
			return hang()
		}
		quiet()
	}
	if len(c.Blocked(all)) > 0 {
		return hang()
	}
	c.Release()
	return c.Events()
}

func main() {
	Quiet()
	runs, _ := strconv.Atoi(os.Getenv("EXTRA"))
	ReadLines(func(n int, raw []byte) {
		var s scenario
		if err := json.Unmarshal(raw, &s); err != nil {
			Fatal("bad scenario: %v", err)
		}
		seen := map[string]bool{}
		if p, err := strconv.ParseInt(os.Getenv("PLAN"), 10, 64); err == nil {
			for _, f := range []int{30, 85} {
				Emit(M{"sc": n, "plan": p, "ev": runOne(s, p, f, false)})
			}
			return
		}
		k0 := runs
		if len(s.Threads) == 1 {
			k0 = 1
		}
		for k := 0; k < k0; k++ {
			seed := Seed()*7919 + int64(n)*1000 + int64(k)
			fine := 30
			if k%4 >= 2 {
				fine = 85
			}
			evs := runOne(s, seed, fine, k%3 == 1)
			b, _ := json.Marshal(evs)
			if !seen[string(b)] {
				seen[string(b)] = true
				Emit(M{"sc": n, "plan": seed, "ev": json.RawMessage(b)})
			}
		}
	})
	Flush()
}
