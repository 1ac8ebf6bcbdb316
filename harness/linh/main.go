// linh runs scenarios generated from GenLin.tla (clients appending to, reading, counting and deleting logs) on the assembled
// service under enumerated schedules and writes the observed events as traces for TraceLin.tla (C21).
package main

import (
	"bytes"
	"context"
	"encoding/binary"
	"encoding/json"
	"math/rand"
	"os"
	"sort"
	"strconv"
	"sync"
	"time"

	"github.com/solarisdb/solaris/api/gen/solaris/v1"
	"github.com/solarisdb/solaris/pkg/storage"
	"github.com/solarisdb/solaris/verifharness/env"
	"github.com/solarisdb/solaris/verifharness/sched"
	. "github.com/solarisdb/solaris/verifharness/vlib"
)

type op struct {
	Op   string `json:"op"`
	K    int    `json:"k"`
	B    []int  `json:"b"`
	Desc bool   `json:"desc"`
	Lim  int64  `json:"lim"`
}

type scenario struct {
	Logs    int    `json:"logs"`
	Cached  bool   `json:"cached"`
	Opened  int    `json:"opened"`
	Locks   int    `json:"locks"`
	Chunk   int64  `json:"chunk"`
	New     int64  `json:"new"`
	Pre     []op   `json:"pre"`
	Threads [][]op `json:"threads"`
}

func payload(r, size int) []byte {
	b := make([]byte, size)
	rand.New(rand.NewSource(int64(r))).Read(b)
	binary.LittleEndian.PutUint16(b, uint16(r))
	return b
}

func runOne(s scenario, plan []sched.Step, root string) ([]any, sched.Result) {
	c := sched.New()
	ev := func(m M) { c.Event(m) }
	dir, err := os.MkdirTemp(root, "l")
	if err != nil {
		Fatal("%v", err)
	}
	defer os.RemoveAll(dir)
	e := env.New(dir, env.Cfg{NewSize: s.New, MaxChunk: s.Chunk, MaxGrow: 4096, MaxRecs: 1000, MaxBunch: 1 << 20,
		MaxLocks: s.Locks, MaxOpened: s.Opened, Cached: s.Cached})
	if err := e.Open(); err != nil {
		Fatal("%v", err)
	}
	ctx := context.Background()
	ids := make([]string, s.Logs)
	no := map[string]int{}
	for k := range ids {
		l, err := e.Svc.CreateLog(ctx, &solaris.Log{})
		if err != nil {
			Fatal("%v", err)
		}
		ids[k] = l.ID
		no[l.ID] = k + 1
	}
	var mu sync.Mutex
	sizes := []int{}
	rids := map[string]int{} // record ID -> number
	retIDs := map[int]string{}
	logOf := map[int]int{}
	batch := func(k int, b []int) (int, []*solaris.Record) {
		mu.Lock()
		defer mu.Unlock()
		first := len(sizes) + 1
		var recs []*solaris.Record
		for _, n := range b {
			sizes = append(sizes, n)
			logOf[len(sizes)] = k
			recs = append(recs, &solaris.Record{Payload: payload(len(sizes), n)})
		}
		return first, recs
	}
	number := func(r *solaris.Record) int {
		mu.Lock()
		defer mu.Unlock()
		if len(r.Payload) < 2 {
			return -1
		}
		n := int(binary.LittleEndian.Uint16(r.Payload))
		if n < 1 || n > len(sizes) || len(r.Payload) != sizes[n-1] || !bytes.Equal(r.Payload, payload(n, sizes[n-1])) {
			return -1
		}
		if k, ok := rids[r.ID]; ok && k != n {
			return -1
		}
		rids[r.ID] = n
		return n
	}
	do := func(t int, o op) {
		first, recs := batch(o.K, o.B)
		if o.Op == "append" && len(recs) == 0 {
			return
		}
		ev(M{"e": "call", "t": t, "op": o.Op, "k": o.K, "n": len(o.B), "first": first, "desc": o.Desc, "lim": o.Lim})
		n, ids2, ord := 0, true, true
		out := []any{}
		cl, detail := Try(func() error {
			switch o.Op {
			case "append":
				r, err := e.Svc.AppendRecords(ctx, &solaris.AppendRecordsRequest{LogID: ids[o.K-1], Records: recs, ExpandIDs: true})
				if err != nil {
					return err
				}
				n = int(r.Added)
				mu.Lock()
				for i, id := range r.RecordIDs {
					retIDs[first+i] = id
					if k, ok := rids[id]; ok && k != first+i {
						ids2 = false
					}
					rids[id] = first + i
				}
				mu.Unlock()
				ids2 = ids2 && len(r.RecordIDs) == n
			case "read", "merge":
				q := &solaris.QueryRecordsRequest{Descending: o.Desc, Limit: o.Lim}
				if o.Op == "merge" {
					q.LogIDs = ids
				} else {
					q.LogIDs = []string{ids[o.K-1]}
				}
				r, err := e.Svc.QueryRecords(ctx, q)
				if err != nil {
					return err
				}
				for i, x := range r.Records {
					out = append(out, M{"k": no[x.LogID], "r": number(x)})
					if i > 0 && (r.Records[i-1].ID < x.ID) == o.Desc {
						ord = false
					}
				}
			case "count":
				r, err := e.Svc.CountRecords(ctx, &solaris.QueryRecordsRequest{LogIDs: []string{ids[o.K-1]}})
				if err != nil {
					return err
				}
				if n = int(r.Total); r.Count != r.Total {
					n = -1
				}
			case "del":
				_, err := e.Meta.DeleteLogs(ctx, storage.DeleteLogsRequest{IDs: []string{ids[o.K-1]}, MarkOnly: true})
				return err
			}
			return nil
		})
		m := M{"e": "ret", "t": t, "err": cl, "n": n, "ids": ids2, "ord": ord, "recs": out}
		if cl != "" {
			m["detail"] = detail
		}
		ev(m)
	}
	nt := len(s.Threads) + 1
	for _, o := range s.Pre {
		do(nt, o)
	}
	for i := range s.Threads {
		c.Add(func() {
			for _, o := range s.Threads[i] {
				do(i+1, o)
			}
		})
	}
	res := c.Run(plan, nil)
	fin := make([][]int, s.Logs)
	wrap := func() ([]any, sched.Result) {
		cfg := M{"e": "cfg", "n": len(s.Threads), "logs": s.Logs, "final": fin}
		return append([]any{cfg}, c.Events()...), res
	}
	for k := range fin {
		fin[k] = []int{}
	}
	if c.Spin {
		ev(M{"e": "hang"})
		return wrap()
	}
	c.Drain(nil)
	ev(M{"e": "quiet"})
	if left := c.Free(3 * time.Second); len(left) > 0 {
		ev(M{"e": "hang", "left": len(left)})
		return wrap()
	}
	if done, detail := within(func() {
		for k := range ids {
			do(nt, op{Op: "read", K: k + 1, Lim: 1000})
			do(nt, op{Op: "count", K: k + 1})
			do(nt, op{Op: "append", K: k + 1, B: []int{2}})
			do(nt, op{Op: "read", K: k + 1, Lim: 1000, Desc: true})
			if r, err := e.Svc.QueryRecords(ctx, &solaris.QueryRecordsRequest{LogIDs: []string{ids[k]}, Limit: 1000}); err == nil {
				for _, x := range r.Records {
					fin[k] = append(fin[k], number(x))
				}
			} else if Class(err) == "NotExist" {
				// deleted: all that was seen of it, in the order of the IDs
				var l []string
				for id, n := range rids {
					if logOf[n] == k+1 {
						l = append(l, id)
					}
				}
				sort.Strings(l)
				for _, id := range l {
					fin[k] = append(fin[k], rids[id])
				}
			}
		}
		e.Close()
	}); !done {
		ev(M{"e": "hang", "detail": detail})
	}
	return wrap()
}

func within(f func()) (bool, string) {
	ch := make(chan struct{})
	go func() { f(); close(ch) }()
	select {
	case <-ch:
		return true, ""
	case <-time.After(20 * time.Second):
		return false, "the calls afterwards"
	}
}

func main() {
	Quiet()
	extra, _ := strconv.Atoi(os.Getenv("EXTRA"))
	single, _ := strconv.Atoi(os.Getenv("SINGLE"))
	root, err := os.MkdirTemp("", "linh")
	if err != nil {
		Fatal("%v", err)
	}
	defer os.RemoveAll(root)
	ReadLines(func(n int, raw []byte) {
		var s scenario
		if err := json.Unmarshal(raw, &s); err != nil {
			Fatal("bad scenario: %v", err)
		}
		rnd := rand.New(rand.NewSource(Seed()*7919 + int64(n)))
		_, base := runOne(s, nil, root)
		seen := map[string]bool{}
		for _, p := range sched.Plans(base.Counts, extra, single, rnd) {
			evs, _ := runOne(s, p, root)
			b, _ := json.Marshal(evs)
			if !seen[string(b)] {
				seen[string(b)] = true
				Emit(M{"sc": n, "plan": p, "ev": evs})
			}
		}
	})
	Flush()
}
