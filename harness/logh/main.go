// logh replays histories of log operations generated from the specification (GenLog.tla) on the real stack and
// writes what happened as traces for TraceLog.tla.
package main

import (
	"context"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/oklog/ulid/v2"
	"github.com/solarisdb/solaris/api/gen/solaris/v1"
	"github.com/solarisdb/solaris/golibs/errors"
	"github.com/solarisdb/solaris/golibs/ulidutils"
	"github.com/solarisdb/solaris/pkg/storage"
	"github.com/solarisdb/solaris/pkg/storage/logfs"
	"github.com/solarisdb/solaris/verifharness/env"
	"github.com/solarisdb/solaris/verifharness/vhook"
	. "github.com/solarisdb/solaris/verifharness/vlib"
)

type ref struct {
	K string `json:"k"`
	I int    `json:"i"`
	D int    `json:"d"`
}

type cond struct {
	K string `json:"k"`
	C string `json:"c"`
	I int    `json:"i"`
	D int    `json:"d"`
	F int    `json:"f"`
	A []cond `json:"a"`
}

type op struct {
	Op     string `json:"op"`
	Log    int    `json:"log"`
	Lens   []int  `json:"lens"`
	Expand bool   `json:"expand"`
	Logs   []int  `json:"logs"`
	Sel    string `json:"sel"`
	Start  ref    `json:"start"`
	Desc   bool   `json:"desc"`
	Limit  int    `json:"limit"`
	Cond   cond   `json:"cond"`
	Cancel int    `json:"cancel"`
	Kind   string `json:"kind"`
	N      int    `json:"n"`
	Q      *op    `json:"q"`
}

type behaviour struct {
	Cfg struct {
		env.Cfg
		NLogs int `json:"nlogs"`
	} `json:"cfg"`
	Ops []op `json:"ops"`
}

// id marks a record id (or token) inside an event; replaced by its rank when the trace is complete
type id string

type sess struct {
	e      *env.Env
	b      behaviour
	rnd    *rand.Rand
	logs   []string
	known  []id            // ids of all records, in append order
	intern map[string]int  // payload -> content class
	base   int64           // ms
	ev     []any
	times  []int64 // ms of known
	fault  string  // kind of the fault that may be seen by the current operation
	left   int     // calls to go before the fault
	raised bool
	inOp   bool
}

// errors a failing component may return
var faults = []error{errors.ErrDataLoss, errors.ErrInternal, errors.ErrClosed, fmt.Errorf("io failure"), errors.ErrCommunication, errors.ErrExhausted}

// fail tells whether the call of the kind k has to fail
func (s *sess) fail(k string) error {
	if s.fault != k {
		return nil
	}
	s.left--
	if s.left >= 0 {
		return nil
	}
	s.raised = true
	return fmt.Errorf("injected: %w", faults[s.rnd.Intn(len(faults))])
}

type flog struct {
	storage.Log
	s *sess
}

func (f flog) QueryRecords(ctx context.Context, r storage.QueryRecordsRequest) ([]*solaris.Record, bool, error) {
	if err := f.s.fail("logerr"); err != nil {
		return nil, false, err
	}
	return f.Log.QueryRecords(ctx, r)
}

func (f flog) CountRecords(ctx context.Context, r storage.QueryRecordsRequest) (uint64, uint64, error) {
	if err := f.s.fail("logerr"); err != nil {
		return 0, 0, err
	}
	return f.Log.CountRecords(ctx, r)
}

type fmeta struct {
	env.Meta
	s *sess
}

func (f fmeta) GetChunks(ctx context.Context, id string) ([]logfs.ChunkInfo, error) {
	if err := f.s.fail("metaerr"); err != nil {
		return nil, err
	}
	return f.Meta.GetChunks(ctx, id)
}

type countdown struct {
	n      int
	cancel func()
}

func init() {
	vhook.Set(func(string) {
		if t := vhook.GetTag(); t != nil {
			cd := t.Data.(*countdown)
			if cd.n--; cd.n == 0 {
				cd.cancel()
			}
		}
	})
}

func main() {
	Quiet()
	if os.Getenv("NOISE") != "" {
		// other parts of the server make IDs too
		for i := 0; i < 6; i++ {
			go func() {
				for {
					ulidutils.New()
				}
			}()
		}
	}
	var wg sync.WaitGroup
	sem := make(chan struct{}, 8)
	var mu sync.Mutex
	res := map[int]any{}
	ReadLines(func(n int, raw []byte) {
		var b behaviour
		if err := json.Unmarshal(raw, &b); err != nil {
			Fatal("bad behaviour: %v", err)
		}
		wg.Add(1)
		sem <- struct{}{}
		go func() {
			defer func() { <-sem; wg.Done() }()
			r := runOne(n, b)
			mu.Lock()
			res[n] = r
			mu.Unlock()
		}()
	})
	wg.Wait()
	for i := 0; i < len(res); i++ {
		Emit(res[i])
	}
	Flush()
}

func runOne(n int, b behaviour) any {
	dir, err := os.MkdirTemp("", "logh")
	if err != nil {
		Fatal("%v", err)
	}
	defer os.RemoveAll(dir)
	s := &sess{b: b, rnd: rand.New(rand.NewSource(Seed()*1000003 + int64(n))), intern: map[string]int{}, base: time.Now().UnixMilli() - 10}
	s.e = env.New(dir, b.Cfg.Cfg)
	s.e.WrapLog = func(l storage.Log) storage.Log { return flog{l, s} }
	s.e.WrapMeta = func(m env.Meta) env.Meta { return fmeta{m, s} }
	if err := s.e.Open(); err != nil {
		Fatal("open: %v", err)
	}
	for i := 0; i < b.Cfg.NLogs; i++ {
		l, err := s.e.API.CreateLog(context.Background(), &solaris.Log{Tags: map[string]string{"n": fmt.Sprint(i + 1)}})
		if err != nil {
			Fatal("create: %v", err)
		}
		s.logs = append(s.logs, l.ID)
	}
	s.add(M{"op": "cfg", "maxchunk": b.Cfg.MaxChunk, "nlogs": b.Cfg.NLogs})
	done := make(chan struct{})
	go func() {
		defer close(done)
		for _, o := range b.Ops {
			s.do(o)
		}
		for l := range s.logs {
			s.do(op{Op: "page", Logs: []int{l + 1}, Limit: 1000, Cond: cond{K: "none"}, Start: ref{K: "none"}})
			s.do(op{Op: "catalog", Log: l + 1})
		}
		s.e.Close()
	}()
	select {
	case <-done:
	case <-time.After(60 * time.Second):
		s.add(M{"op": "hang"})
	}
	return s.finish()
}

func (s *sess) add(m M) { s.ev = append(s.ev, m) }

func (s *sess) payload(n int) []byte {
	p := make([]byte, n)
	s.rnd.Read(p)
	return p
}

func (s *sess) class(p []byte) int {
	k := string(p)
	if c, ok := s.intern[k]; ok {
		return c
	}
	s.intern[k] = len(s.intern) + 1
	return len(s.intern)
}

func (s *sess) half(ms int64) int64 { return 2 * (ms - s.base) }

func (s *sess) logNo(id string) int {
	for i, l := range s.logs {
		if l == id {
			return i + 1
		}
	}
	return 0
}

// rec renders a record read from the server
func (s *sess) rec(r *solaris.Record) []any {
	u, err := ulid.ParseStrict(r.ID)
	ms := int64(-1)
	if err == nil {
		ms = s.half(int64(u.Time()))
	}
	ct := int64(-2)
	if r.CreatedAt != nil {
		t := r.CreatedAt.AsTime()
		if t.Nanosecond()%1000000 == 0 {
			ct = s.half(t.UnixMilli())
		}
	}
	return []any{s.logNo(r.LogID), s.class(r.Payload), id(r.ID), ms, ct}
}

func (s *sess) start(r ref) string {
	switch r.K {
	case "min":
		return "00000000000000000000000000"
	case "max":
		return "7ZZZZZZZZZZZZZZZZZZZZZZZZZ"
	case "rec":
		if len(s.known) == 0 {
			return ""
		}
		x := string(s.known[r.I%len(s.known)])
		if r.D > 0 {
			return next(x, 1)
		} else if r.D < 0 {
			return next(x, -1)
		}
		return x
	}
	return ""
}

func next(x string, d int) string {
	u := ulid.MustParse(x)
	for i := 15; i >= 0; i-- {
		if d > 0 {
			u[i]++
			if u[i] != 0 {
				break
			}
		} else {
			u[i]--
			if u[i] != 255 {
				break
			}
		}
	}
	return u.String()
}

var bad = []string{"ctime", "ctime <", "ctime > > '2020-01-01'", "ctime LIKE '2020%'", "ctime IN ['2020-01-01']", "foo = 'a'", "ctime < 'not a date'",
	"(ctime > '2020-01-01'", "ctime > '2020-01-01')", "ctime = ctime", "'2020-01-01' < ctime", "ctime > '2020-01-01' and", "or", "not", "ctime < 12",
	"tag('a') = 'b'", "logID = 'x'", "ctime() < '2020-01-01'", "ctime < ['2020-01-01']", "ctime ! '2020-01-01'", "$", "ctime < '2020-01-01' xor ctime > '2020-01-01'",
	"ctime < '2020-13-45T00:00:00Z'", "()", "ctime < foo('a')", "ctime > '2020-01-01' ctime < '2021-01-01'", "\x00", "ctime <> '2020-01-01'", "ctime == '2020-01-01'", "NOT NOT", "ctime > '2020-01-01", "ctime > '2024-04-11 25:00:00'",
	"ctime < '2024-04-11T16:06'", "ctime < '2024-04-11 xyz'", "ctime > 'on 2024-04-11'", "ctime > '2020-01-01 00:00:00.000 and more'", "ctime < '-12x'", "ctime > ''",
	"ctime < '2024-02-30'", "ctime < 'yesterday'", "ctime < '2024-03-11 12:34:43.5Z'"}

var far = map[int]string{-2: "0001-01-01T00:00:00Z", -1: "1960-02-03T04:05:06Z", 1: "2085-06-07T08:09:10Z", 2: "9999-12-31T23:59:59Z"}

// cond renders a condition as query text and as the AST of the specification
func (s *sess) cond(c cond) (string, any) {
	switch c.K {
	case "none":
		return "", M{"k": "none"}
	case "bad":
		return bad[c.I%len(bad)], M{"k": "bad"}
	case "far":
		v := int64(-1000000000)
		if c.I > 0 {
			v = 1000000000
		}
		return fmt.Sprintf("ctime %s '%s'", c.C, far[c.I]), M{"k": "cmp", "c": c.C, "v": v + int64(c.I)}
	case "cmp":
		ms := s.base
		if len(s.times) > 0 {
			ms = s.times[c.I%len(s.times)]
		}
		h := s.half(ms) + int64(c.D)
		t := time.UnixMilli(s.base).Add(time.Duration(h) * 500 * time.Microsecond).UTC()
		var txt string
		switch c.F % 10 {
		case 0:
			txt = fmt.Sprint(t.UnixNano())
		case 1:
			txt = t.In(time.FixedZone("", 5*3600+1800)).Format("2006-01-02T15:04:05.999999999Z07:00")
		case 2:
			txt = t.In(time.FixedZone("", -8*3600)).Format("2006-01-02T15:04:05.999999999-07:00")
		case 3:
			txt = t.Format("2006-01-02 15:04:05.0000")
		case 4:
			txt = t.Format("2006/01/02 15:04:05.0000")
		case 5:
			txt = t.In(time.FixedZone("", 3*3600)).Format("2006-01-02 15:04:05.0000 -0700")
		case 6:
			txt = t.Format("02/01/2006 15:04:05.0000")
		default:
			txt = t.Format("2006-01-02T15:04:05.999999999Z07:00")
		}
		q := "'"
		if c.F%2 == 1 {
			q = "\""
		}
		return fmt.Sprintf("ctime %s %s%s%s", c.C, q, txt, q), M{"k": "cmp", "c": c.C, "v": h}
	case "not":
		t, a := s.cond(c.A[0])
		return "NOT (" + t + ")", M{"k": "not", "a": []any{a}}
	}
	var ts []string
	var as []any
	for _, x := range c.A {
		t, a := s.cond(x)
		if x.K == "or" || (x.K == "and" && c.I%2 == 0) {
			t = "(" + t + ")"
		}
		ts = append(ts, t)
		as = append(as, a)
	}
	w := " AND "
	if c.K == "or" {
		w = " or "
	}
	return strings.Join(ts, w), M{"k": c.K, "a": as}
}

func (s *sess) query(o op, start string) (*solaris.QueryRecordsRequest, any) {
	txt, ast := s.cond(o.Cond)
	req := &solaris.QueryRecordsRequest{Condition: txt, Descending: o.Desc, StartRecordID: start, Limit: int64(o.Limit)}
	if o.Sel == "cond" {
		var ns []string
		for _, l := range o.Logs {
			ns = append(ns, fmt.Sprintf("'%d'", l))
		}
		req.LogsCondition = "tag('n') IN [" + strings.Join(ns, ", ") + "]"
	} else {
		for i, l := range o.Logs {
			req.LogIDs = append(req.LogIDs, s.logs[l-1])
			if o.Sel == "dup" && i%2 == 0 {
				req.LogIDs = append(req.LogIDs, s.logs[o.Logs[(i*7+o.Limit+1000)%len(o.Logs)]-1])
			}
		}
		if len(req.LogIDs) > 0 && (o.Limit+len(o.Logs))%3 == 0 {
			// is ignored then
			req.LogsCondition = fmt.Sprintf("tag('n') = '%d'", o.Logs[0]%2)
		}
	}
	return req, ast
}

func (s *sess) raw(logID string) ([]*solaris.Record, string, string) {
	var res []*solaris.Record
	st := ""
	for n := 0; n < 100000; n++ {
		var r *solaris.QueryRecordsResult
		c, d := Try(func() (err error) {
			r, err = s.e.Svc.QueryRecords(context.Background(), &solaris.QueryRecordsRequest{LogIDs: []string{logID}, StartRecordID: st, Limit: 1000})
			return err
		})
		if c != "" {
			return res, c, d
		}
		if len(r.Records) == 0 {
			return res, "", ""
		}
		res = append(res, r.Records...)
		st = next(r.Records[len(r.Records)-1].ID, 1)
	}
	return res, "endless", ""
}

func (s *sess) do(o op) {
	ctx := context.Background()
	switch o.Op {
	case "tick":
		time.Sleep(2 * time.Millisecond)
	case "reopen":
		s.e.Close()
		if err := s.e.Open(); err != nil {
			s.add(M{"op": "reopen", "err": err.Error()})
		}
	case "append":
		if os.Getenv("WAY") == "rest" {
			o.Expand = false // not offered there
		}
		var recs []*solaris.Record
		var toks []int
		for _, n := range o.Lens {
			p := s.payload(n)
			toks = append(toks, s.class(p))
			recs = append(recs, &solaris.Record{Payload: append([]byte{}, p...)})
		}
		var r *solaris.AppendRecordsResult
		actx, cancel := context.WithCancel(ctx)
		if o.Cancel > 0 {
			vhook.SetTag(&vhook.Tag{Data: &countdown{o.Cancel, cancel}})
		}
		c, d := Try(func() (err error) {
			r, err = s.e.API.AppendRecords(actx, &solaris.AppendRecordsRequest{LogID: s.logs[o.Log-1], Records: recs, ExpandIDs: o.Expand})
			return err
		})
		ev := M{"op": "append", "log": o.Log, "lens": o.Lens, "toks": toks, "added": -1, "err": c, "cancel": 0, "alens": []any{}, "expand": o.Expand, "rids": []any{}, "after": []any{}, "aerr": ""}
		vhook.SetTag(nil)
		if actx.Err() != nil {
			ev["cancel"] = o.Cancel
		}
		cancel()
		if c == "" {
			ev["added"] = r.Added
			ids := []any{}
			for _, x := range r.RecordIDs {
				ids = append(ids, id(x))
			}
			ev["rids"] = ids
		} else {
			ev["detail"] = d
		}
		after, ac, _ := s.raw(s.logs[o.Log-1])
		ev["aerr"] = ac
		var as, al []any
		seen := map[id]bool{}
		for _, k := range s.known {
			seen[k] = true
		}
		for _, x := range after {
			as = append(as, s.rec(x))
			al = append(al, len(x.Payload))
			if !seen[id(x.ID)] {
				if u, err := ulid.ParseStrict(x.ID); err == nil {
					s.known = append(s.known, id(x.ID))
					s.times = append(s.times, int64(u.Time()))
				}
			}
		}
		if as != nil {
			ev["after"], ev["alens"] = as, al
		}
		s.add(ev)
	case "toomany":
		s.toomany(o)
	case "faulty":
		s.faulty(o)
	case "query":
		s.one(o, s.start(o.Start))
	case "page":
		st := s.start(o.Start)
		for n := 0; n < 3000; n++ {
			nx, ok := s.one(o, st)
			if !ok || nx == "" || o.Limit <= 0 {
				return
			}
			st = nx
			if n > 200 && o.Limit < 100 {
				o.Limit = 100 // enough small pages
			}
		}
		s.add(M{"op": "endless"})
	case "count":
		st := s.start(o.Start)
		req, ast := s.query(o, st)
		var r *solaris.CountResult
		c, d := Try(func() (err error) { r, err = s.e.API.CountRecords(ctx, req); return err })
		ev := M{"op": "count", "logs": o.Logs, "start": sid(st), "desc": o.Desc, "cond": ast, "err": c, "fault": s.fault, "raised": s.raised, "total": -1, "count": -1, "text": req.Condition}
		if c == "" {
			ev["total"], ev["count"] = r.Total, r.Count
		} else {
			ev["detail"] = d
		}
		s.add(ev)
	case "catalog":
		lid := s.logs[o.Log-1]
		cis, err := s.e.Meta.GetChunks(ctx, lid)
		ev := M{"op": "catalog", "log": o.Log, "err": Class(err), "chunks": []any{}, "sizes": []int64{}, "last": 0}
		var cs []any
		var sz []int64
		for _, ci := range cis {
			cs = append(cs, []any{id(ci.Min.String()), id(ci.Max.String()), ci.RecordsCount})
			n := int64(-1)
			if fi, err := os.Stat(s.e.Prov.GetFileNameByID(ci.ID)); err == nil {
				n = fi.Size()
			}
			sz = append(sz, n)
		}
		if cs != nil {
			ev["chunks"], ev["sizes"] = cs, sz
			lc, err := s.e.Meta.GetLastChunk(ctx, lid)
			if err == nil && lc == cis[len(cis)-1] {
				ev["last"] = 1
			}
		}
		s.add(ev)
	default:
		Fatal("unknown op %q", o.Op)
	}
}

// toomany selects o.N logs at once
func (s *sess) toomany(o op) {
	ctx := context.Background()
	var ids []string
	want := 0
	for i := 0; i < o.N; i++ {
		l, err := s.e.API.CreateLog(ctx, &solaris.Log{Tags: map[string]string{"many": "yes"}})
		if err != nil {
			Fatal("create: %v", err)
		}
		ids = append(ids, l.ID)
		if i%100 == 0 || i == o.N-1 {
			if _, err := s.e.API.AppendRecords(ctx, &solaris.AppendRecordsRequest{LogID: l.ID, Records: []*solaris.Record{{Payload: []byte{1}}}}); err != nil {
				Fatal("append: %v", err)
			}
			want++
		}
	}
	req := &solaris.QueryRecordsRequest{Limit: 1000}
	if o.Sel == "ids" {
		req.LogIDs = ids
	} else {
		req.LogsCondition = "tag('many') = 'yes'"
	}
	got := int64(-1)
	c, d := Try(func() error {
		if o.Kind == "count" {
			r, err := s.e.API.CountRecords(ctx, req)
			if err == nil {
				got = r.Count
			}
			return err
		}
		r, err := s.e.API.QueryRecords(ctx, req)
		if err == nil {
			got = int64(len(r.Records))
		}
		return err
	})
	s.add(M{"op": "toomany", "n": o.N, "what": o.Kind, "err": c, "detail": d, "got": got, "want": want})
}

// faulty runs the operation o.Q while something fails
func (s *sess) faulty(o op) {
	q := *o.Q
	s.raised = false
	switch o.Kind {
	case "hide":
		cis, _ := s.e.Meta.GetChunks(context.Background(), s.logs[q.Logs[0]-1])
		if len(cis) == 0 {
			return
		}
		s.e.Close()
		fn := s.e.Prov.GetFileNameByID(cis[o.N%len(cis)].ID)
		if err := os.Rename(fn, fn+".bak"); err != nil {
			Fatal("%v", err)
		}
		if err := s.e.Open(); err != nil {
			Fatal("open: %v", err)
		}
		s.fault = o.Kind
		s.do(q)
		s.e.Close()
		if err := os.Rename(fn+".bak", fn); err != nil {
			Fatal("%v", err)
		}
		if err := s.e.Open(); err != nil {
			s.add(M{"op": "reopen", "err": err.Error()})
		}
	default:
		s.fault, s.left = o.Kind, o.N
		s.do(q)
	}
	s.fault, s.raised = "", false
}

func sid(x string) any {
	if x == "" {
		return 0
	}
	return id(x)
}

func (s *sess) one(o op, st string) (string, bool) {
	req, ast := s.query(o, st)
	var r *solaris.QueryRecordsResult
	c, d := Try(func() (err error) { r, err = s.e.API.QueryRecords(context.Background(), req); return err })
	ev := M{"op": "query", "logs": o.Logs, "start": sid(st), "desc": o.Desc, "limit": o.Limit, "cond": ast, "err": c, "fault": s.fault, "raised": s.raised, "res": []any{}, "next": 0, "text": req.Condition}
	if c != "" {
		ev["detail"] = d
		s.add(ev)
		return "", false
	}
	var rs []any
	for _, x := range r.Records {
		rs = append(rs, s.rec(x))
	}
	if rs != nil {
		ev["res"] = rs
	}
	ev["next"] = sid(r.NextPageID)
	s.add(ev)
	if _, err := ulid.ParseStrict(r.NextPageID); r.NextPageID != "" && err != nil {
		return "", false
	}
	return r.NextPageID, true
}

// finish replaces ids by ranks
func (s *sess) finish() any {
	set := map[string]bool{}
	var walk func(v any, f func(id) any) any
	walk = func(v any, f func(id) any) any {
		switch x := v.(type) {
		case id:
			return f(x)
		case M:
			for k, y := range x {
				x[k] = walk(y, f)
			}
			return x
		case []any:
			for i, y := range x {
				x[i] = walk(y, f)
			}
			return x
		}
		return v
	}
	walk(s.ev, func(i id) any { set[string(i)] = true; return i })
	var all []string
	for k := range set {
		all = append(all, k)
	}
	sort.Strings(all)
	rank := map[string]int{}
	for i, k := range all {
		rank[k] = i + 1
	}
	walk(s.ev, func(i id) any { return rank[string(i)] })
	return s.ev
}

