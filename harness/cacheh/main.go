// cacheh runs scenarios generated from GenCache.tla on the real CachedStorage over a storage that numbers its changes and
// fails on request, under enumerated schedules, and writes the observed events as traces for TraceCache.tla (C09).
package main

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"math/rand"
	"os"
	"reflect"
	"strconv"
	"sync"
	"time"

	"github.com/oklog/ulid/v2"
	"github.com/solarisdb/solaris/api/gen/solaris/v1"
	lerrors "github.com/solarisdb/solaris/golibs/errors"
	"github.com/solarisdb/solaris/pkg/storage"
	"github.com/solarisdb/solaris/pkg/storage/cache"
	"github.com/solarisdb/solaris/pkg/storage/logfs"
	"github.com/solarisdb/solaris/verifharness/sched"
	. "github.com/solarisdb/solaris/verifharness/vlib"
)

type op struct {
	Op   string `json:"op"`
	K    int    `json:"k"`
	F    string `json:"f"`
	Cond bool   `json:"cond"`
}

type scenario struct {
	Logs    int    `json:"logs"`
	Warm    bool   `json:"warm"`
	Threads [][]op `json:"threads"`
}

var errIO = errors.New("the storage failed")

type entry struct {
	lv, cv  int
	deleted bool
	hist    [][]logfs.ChunkInfo // chunk lists by version
}

// store is the storage under the cache; every change of a log gives it the next version
type store struct {
	mu   sync.Mutex
	es   []*entry
	ev   func(M)
	mode func() (int, string) // the thread and how its calls fail
}

func id(k int) string { return fmt.Sprintf("log%d", k) }
func key(id string) int {
	var k int
	fmt.Sscanf(id, "log%d", &k)
	return k
}

func (s *store) read(f func() error) error {
	t, m := s.mode()
	sched.Point()
	if m == "fail" {
		s.ev(M{"e": "rf", "t": t})
		return errIO
	}
	s.mu.Lock()
	err := f()
	s.mu.Unlock()
	sched.Point()
	return err
}

func (s *store) write(f func(t int)) error {
	t, m := s.mode()
	sched.Point()
	if m == "before" {
		return errIO
	}
	s.mu.Lock()
	f(t)
	s.mu.Unlock()
	sched.Point()
	if m == "after" {
		return errIO
	}
	return nil
}

func (s *store) get(lid string) *entry {
	if k := key(lid); k > 0 && k <= len(s.es) && !s.es[k-1].deleted {
		return s.es[k-1]
	}
	return nil
}

func (s *store) CreateLog(context.Context, *solaris.Log) (*solaris.Log, error) { return nil, errIO }

func (s *store) GetLogByID(_ context.Context, lid string) (l *solaris.Log, err error) {
	err = s.read(func() error {
		e := s.get(lid)
		if e == nil {
			return lerrors.ErrNotExist
		}
		l = &solaris.Log{ID: lid, Tags: map[string]string{"v": strconv.Itoa(e.lv)}}
		return nil
	})
	return
}

func (s *store) UpdateLog(_ context.Context, l *solaris.Log) (res *solaris.Log, err error) {
	var nf bool
	err = s.write(func(t int) {
		e := s.get(l.ID)
		if nf = e == nil; nf {
			return
		}
		e.lv++
		s.ev(M{"e": "applied", "t": t, "k": key(l.ID), "kind": "l", "ver": e.lv})
		res = &solaris.Log{ID: l.ID, Tags: map[string]string{"v": strconv.Itoa(e.lv)}}
	})
	if nf {
		return nil, lerrors.ErrNotExist
	}
	if err != nil {
		return nil, err
	}
	return
}

func (s *store) QueryLogs(_ context.Context, qr storage.QueryLogsRequest) (res *solaris.QueryLogsResult, err error) {
	err = s.read(func() error {
		res = &solaris.QueryLogsResult{}
		for _, lid := range qr.IDs {
			if e := s.get(lid); e != nil {
				res.Logs = append(res.Logs, &solaris.Log{ID: lid, Tags: map[string]string{"v": strconv.Itoa(e.lv)}})
			}
		}
		return nil
	})
	return
}

func (s *store) DeleteLogs(_ context.Context, r storage.DeleteLogsRequest) (res *solaris.DeleteLogsResult, err error) {
	err = s.write(func(t int) {
		res = &solaris.DeleteLogsResult{}
		ids := r.IDs
		if len(ids) == 0 {
			for k := range s.es {
				if r.Condition == "" || r.Condition == "logID = '"+id(k+1)+"'" {
					ids = append(ids, id(k+1))
				}
			}
		}
		for _, lid := range ids {
			if e := s.get(lid); e != nil {
				e.deleted = true
				s.ev(M{"e": "applied", "t": t, "k": key(lid), "kind": "d", "ver": 1000})
				res.DeletedIDs = append(res.DeletedIDs, lid)
			}
		}
	})
	if err != nil {
		return nil, err
	}
	return
}

func (s *store) GetLastChunk(_ context.Context, lid string) (ci logfs.ChunkInfo, err error) {
	err = s.read(func() error {
		e := s.get(lid)
		if e == nil || len(e.hist[e.cv]) == 0 {
			return lerrors.ErrNotExist
		}
		ci = e.hist[e.cv][len(e.hist[e.cv])-1]
		return nil
	})
	return
}

func (s *store) GetChunks(_ context.Context, lid string) (cis []logfs.ChunkInfo, err error) {
	err = s.read(func() error {
		e := s.get(lid)
		if e == nil {
			return lerrors.ErrNotExist
		}
		cis = append(cis, e.hist[e.cv]...)
		return nil
	})
	return
}

func (s *store) UpsertChunkInfos(_ context.Context, lid string, cis []logfs.ChunkInfo) error {
	var nf bool
	err := s.write(func(t int) {
		e := s.get(lid)
		if nf = e == nil; nf {
			return
		}
		// whatever is written, the list gets the next state: its last chunk grows or a chunk is added
		e.cv++
		l := append([]logfs.ChunkInfo(nil), e.hist[e.cv-1]...)
		if len(l) == 0 || e.cv%3 == 0 {
			l = append(l, logfs.ChunkInfo{ID: ulid.MustNew(uint64(e.cv), nil).String()})
		}
		l[len(l)-1].RecordsCount = e.cv
		e.hist = append(e.hist, l)
		s.ev(M{"e": "applied", "t": t, "k": key(lid), "kind": "c", "ver": e.cv})
	})
	if nf {
		return lerrors.ErrNotExist
	}
	return err
}

func runOne(s scenario, plan []sched.Step) ([]any, sched.Result) {
	c := sched.New()
	ev := func(m M) { c.Event(m) }
	ev(M{"e": "cfg", "n": len(s.Threads), "logs": s.Logs})
	mode := make([]string, len(s.Threads)+1)
	want := make([]string, len(s.Threads)+1)
	me := func() int {
		if t := sched.Self(); t >= 0 {
			return t + 1
		}
		return len(s.Threads) + 1
	}
	st := &store{ev: ev, mode: func() (int, string) { t := me(); return t, mode[t-1] }}
	for k := 0; k < s.Logs; k++ {
		st.es = append(st.es, &entry{hist: [][]logfs.ChunkInfo{nil}})
	}
	cs := cache.NewCachedStorage(&watch{st, want})
	ctx := context.Background()
	ver := func(l *solaris.Log, k int) int {
		if l == nil || l.ID != id(k) {
			return -1
		}
		v, err := strconv.Atoi(l.Tags["v"])
		if err != nil {
			return -1
		}
		return v
	}
	do := func(t int, o op) {
		if o.Op != "del" && o.K == 0 {
			return
		}
		mode[t-1] = o.F
		want[t-1] = ""
		k := o.K
		if k == 0 {
			k = 1
		}
		ev(M{"e": "call", "t": t, "op": o.Op, "k": k})
		v := 0
		var err error
		cl, _ := Try(func() error {
			switch o.Op {
			case "get":
				var l *solaris.Log
				if l, err = cs.GetLogByID(ctx, id(k)); err == nil {
					v = ver(l, k)
				}
			case "query":
				var r *solaris.QueryLogsResult
				if r, err = cs.QueryLogs(ctx, storage.QueryLogsRequest{IDs: []string{id(k)}}); err == nil {
					if len(r.Logs) == 0 {
						err = lerrors.ErrNotExist
					} else {
						v = ver(r.Logs[0], k)
					}
				}
			case "chunks", "last":
				var l []logfs.ChunkInfo
				var ci logfs.ChunkInfo
				if o.Op == "chunks" {
					l, err = cs.GetChunks(ctx, id(k))
				} else {
					ci, err = cs.GetLastChunk(ctx, id(k))
				}
				if err != nil {
					break
				}
				v = -1
				st.mu.Lock()
				for n, h := range st.es[k-1].hist {
					if o.Op == "chunks" && len(h) == len(l) && (len(h) == 0 || reflect.DeepEqual(h, l)) {
						v = n
					}
					if o.Op == "last" && ((len(h) == 0 && ci == logfs.ChunkInfo{}) || (len(h) > 0 && h[len(h)-1] == ci)) {
						v = n
					}
				}
				st.mu.Unlock()
			case "upd":
				_, err = cs.UpdateLog(ctx, &solaris.Log{ID: id(k)})
			case "ups":
				err = cs.UpsertChunkInfos(ctx, id(k), []logfs.ChunkInfo{{}})
			case "del":
				r := storage.DeleteLogsRequest{MarkOnly: true}
				switch {
				case o.K == 0 && o.Cond:
				case o.K == 0:
					for j := 1; j <= s.Logs; j++ {
						r.IDs = append(r.IDs, id(j))
					}
				case o.Cond:
					r.Condition = "logID = '" + id(k) + "'"
				default:
					r.IDs = []string{id(k)}
				}
				_, err = cs.DeleteLogs(ctx, r)
			}
			return nil
		})
		if cl == "" && err != nil {
			if cl = Class(err); errors.Is(err, errIO) {
				cl = "io"
			}
		}
		ev(M{"e": "ret", "t": t, "v": v, "err": cl, "want": want[t-1]})
	}
	all := func(t int) {
		for k := 1; k <= s.Logs; k++ {
			for _, o := range []string{"get", "chunks", "last", "query"} {
				do(t, op{Op: o, K: k})
			}
		}
	}
	n := len(s.Threads) + 1
	if s.Warm {
		all(n)
	}
	for i := range s.Threads {
		c.Add(func() {
			for _, o := range s.Threads[i] {
				do(i+1, o)
			}
		})
	}
	res := c.Run(plan, nil)
	if c.Spin {
		ev(M{"e": "hang"})
		return c.Events(), res
	}
	c.Drain(nil)
	ev(M{"e": "quiet"})
	if left := c.Free(3 * time.Second); len(left) > 0 {
		ev(M{"e": "hang", "left": len(left)})
		return c.Events(), res
	}
	all(n)
	return c.Events(), res
}

// watch notes what the storage answers to changes
type watch struct {
	*store
	want []string
}

func (w *watch) note(err error) error {
	if t, _ := w.mode(); err != nil {
		w.want[t-1] = "err"
	}
	return err
}

func (w *watch) UpdateLog(ctx context.Context, l *solaris.Log) (*solaris.Log, error) {
	r, err := w.store.UpdateLog(ctx, l)
	return r, w.note(err)
}

func (w *watch) DeleteLogs(ctx context.Context, r storage.DeleteLogsRequest) (*solaris.DeleteLogsResult, error) {
	res, err := w.store.DeleteLogs(ctx, r)
	return res, w.note(err)
}

func (w *watch) UpsertChunkInfos(ctx context.Context, lid string, cis []logfs.ChunkInfo) error {
	return w.note(w.store.UpsertChunkInfos(ctx, lid, cis))
}

func main() {
	Quiet()
	extra, _ := strconv.Atoi(os.Getenv("EXTRA"))
	single, _ := strconv.Atoi(os.Getenv("SINGLE"))
	ReadLines(func(n int, raw []byte) {
		var s scenario
		if err := json.Unmarshal(raw, &s); err != nil {
			Fatal("bad scenario: %v", err)
		}
		evs, base := runOne(s, nil)
		if len(s.Threads) == 1 {
			Emit(M{"sc": n, "ev": evs})
			return
		}
		rnd := rand.New(rand.NewSource(Seed()*7919 + int64(n)))
		seen := map[string]bool{}
		for _, p := range sched.Plans(base.Counts, extra, single, rnd) {
			evs, _ := runOne(s, p)
			b, _ := json.Marshal(evs)
			if !seen[string(b)] {
				seen[string(b)] = true
				Emit(M{"sc": n, "plan": p, "ev": evs})
			}
		}
	})
	Flush()
}
