// errh makes calls of the public API fail in given places with given errors and records what the caller is told (C22).
// The service is the real one; the storages behind it are stand-ins that fail where the scenario says, or the real stack
// for the failures it brings about by itself. The ways in are a direct call, the real gRPC server with a real client, and
// the REST handlers.
package main

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"net/http"
	"net/http/httptest"
	"net/url"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/gin-gonic/gin"
	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/credentials/insecure"
	"google.golang.org/grpc/status"

	solaris "github.com/solarisdb/solaris/api/gen/solaris/v1"
	gerrors "github.com/solarisdb/solaris/golibs/errors"
	"github.com/solarisdb/solaris/golibs/transport"
	"github.com/solarisdb/solaris/pkg/api"
	"github.com/solarisdb/solaris/pkg/api/rest"
	pgrpc "github.com/solarisdb/solaris/pkg/grpc"
	"github.com/solarisdb/solaris/pkg/storage"
	"github.com/solarisdb/solaris/verifharness/env"
	. "github.com/solarisdb/solaris/verifharness/vlib"
)

type term struct {
	B    string   `json:"b"`
	W    []string `json:"w"`
	With string   `json:"with"`
}

type scen struct {
	Op     string `json:"op"`
	Api    string `json:"api"`
	Ids    int    `json:"ids"`
	ByCond bool   `json:"bycond"`
	Desc   bool   `json:"desc"`
	Limit  int64  `json:"limit"`
	Recs   int    `json:"recs"`
	Cap    int    `json:"cap"`
	Site   string `json:"site"`
	Who    int    `json:"who"`
	Nth    int    `json:"nth"`
	Ctx    string `json:"ctx"`
	T      term   `json:"t"`
	Real   string `json:"real"`
}

// ---------------------------------------------------------------- errors
type ptrErr struct{ err error }

func (p *ptrErr) Error() string { return "ptr: " + p.err.Error() }
func (p *ptrErr) Unwrap() error { return p.err }

type sliceErr []error

func (s sliceErr) Error() string   { return fmt.Sprintf("%d errors: %v", len(s), []error(s)) }
func (s sliceErr) Unwrap() []error { return s }

type listErr []string

func (l listErr) Error() string { return strings.Join(l, ",") }

var sentinels = []struct {
	n string
	e error
}{{"exist", gerrors.ErrExist}, {"notexist", gerrors.ErrNotExist}, {"invalid", gerrors.ErrInvalid}, {"denied", gerrors.ErrNotAuthorized},
	{"dataloss", gerrors.ErrDataLoss}, {"comm", gerrors.ErrCommunication}, {"internal", gerrors.ErrInternal}, {"conflict", gerrors.ErrConflict},
	{"exhausted", gerrors.ErrExhausted}, {"unimpl", gerrors.ErrUnimplemented}, {"canceled", gerrors.ErrCanceled}, {"closed", gerrors.ErrClosed}}

var others = map[string]error{"enoent": &os.PathError{Op: "open", Path: "/x", Err: syscall.ENOENT}, "eexist": &os.PathError{Op: "open", Path: "/x", Err: syscall.EEXIST},
	"eacces": syscall.EACCES, "ctxcanceled": context.Canceled, "ctxdeadline": context.DeadlineExceeded,
	"plain": errors.New("something went wrong"), "slice": listErr{"a", "b"}}

var stats = map[string]codes.Code{"st_notfound": codes.NotFound, "st_exists": codes.AlreadyExists, "st_invalid": codes.InvalidArgument, "st_denied": codes.PermissionDenied,
	"st_unauth": codes.Unauthenticated, "st_dataloss": codes.DataLoss, "st_exhausted": codes.ResourceExhausted, "st_unimpl": codes.Unimplemented,
	"st_precond": codes.FailedPrecondition, "st_canceled": codes.Canceled, "st_deadline": codes.DeadlineExceeded, "st_internal": codes.Internal,
	"st_unavailable": codes.Unavailable, "st_aborted": codes.Aborted, "st_range": codes.OutOfRange, "st_unknown": codes.Unknown}

func base(b string) error {
	for _, s := range sentinels {
		if s.n == b {
			return s.e
		}
	}
	if e, ok := others[b]; ok {
		return e
	}
	if c, ok := stats[b]; ok {
		return status.Error(c, "said by another service")
	}
	Fatal("unknown error %q", b)
	return nil
}

func build(t term) error {
	e := base(t.B)
	for _, w := range t.W {
		switch w {
		case "w":
			e = fmt.Errorf("while working: %w", e)
		case "e":
			e = gerrors.EmbedObject(map[string]int{"a": 5}, e)
		case "c":
			e = &ptrErr{e}
		case "u":
			e = sliceErr{e}
		case "m":
			e = fmt.Errorf("%w and %w", errors.New("this"), e)
		case "j":
			e = errors.Join(errors.New("that"), e)
		case "p":
			e = &os.PathError{Op: "read", Path: "/some/where", Err: e}
		case "n":
			e = fmt.Errorf("\xff\xfe line\n%%d \x00 \u2028: %w", e)
		case "g":
			e = gerrors.GRPCWrap(e)
		case "v":
			e = fmt.Errorf("lost: %v", e)
		default:
			Fatal("unknown wrap %q", w)
		}
	}
	if t.With != "" {
		e = errors.Join(e, base(t.With))
	}
	return e
}

func classes(err error) []string {
	res := []string{}
	for _, s := range sentinels {
		if gerrors.Is(err, s.e) {
			res = append(res, s.n)
		}
	}
	return res
}

// ---------------------------------------------------------------- stand-ins
type trigCtx struct {
	context.Context
	ch  chan struct{}
	err error
	mu  sync.Mutex
	set bool
}

func (c *trigCtx) Done() <-chan struct{} { return c.ch }
func (c *trigCtx) Err() error {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.set {
		return c.err
	}
	return nil
}
func (c *trigCtx) fire() {
	c.mu.Lock()
	defer c.mu.Unlock()
	if !c.set {
		c.set = true
		close(c.ch)
	}
}

// run is one call
type run struct {
	sc      scen
	mu      sync.Mutex
	evs     []M
	n       map[string]int
	failed  error
	entered chan struct{}
	left    chan struct{}
}

func (r *run) emit(m M) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.evs = append(r.evs, m)
}

func logID(k int) string { return fmt.Sprintf("01HZZZZZZZZZZZZZZZZZZZ%04d", k) }

// at is called by the stand-ins: it fails in the place the scenario names, and goes on failing there
func (r *run) at(ctx context.Context, site string, id string) error {
	sc := r.sc
	if site != sc.Site {
		return nil
	}
	if strings.HasPrefix(site, "log.") && sc.Op != "append" && sc.Ids > 1 && id != logID(sc.Who%sc.Ids) {
		return nil
	}
	r.mu.Lock()
	if r.failed != nil {
		defer r.mu.Unlock()
		return r.failed
	}
	r.n[site]++
	if strings.HasPrefix(site, "log.") && r.n[site] < sc.Nth && sc.Op != "append" {
		r.mu.Unlock()
		return nil
	}
	r.mu.Unlock()
	t := sc.T
	if sc.Ctx != "" {
		// the caller may be told about its context by anybody on the way, so only the class is certain
		t = term{B: "ctx" + sc.Ctx, W: []string{}}
		r.emit(M{"e": "fail", "site": site, "t": t})
		close(r.entered)
		<-ctx.Done()
		defer close(r.left)
		e := ctx.Err()
		if sc.T.B != "plain" {
			e = fmt.Errorf("stopped: %w", e)
		}
		r.mu.Lock()
		r.failed = e
		r.mu.Unlock()
		return e
	}
	e := build(t)
	r.emit(M{"e": "fail", "site": site, "t": t})
	r.mu.Lock()
	r.failed = e
	r.mu.Unlock()
	return e
}

var cur atomic.Pointer[run]

type meta struct{}

func (meta) CreateLog(ctx context.Context, log *solaris.Log) (*solaris.Log, error) {
	if err := cur.Load().at(ctx, "meta.create", ""); err != nil {
		return nil, err
	}
	return &solaris.Log{ID: logID(0), Tags: log.Tags}, nil
}
func (meta) GetLogByID(ctx context.Context, id string) (*solaris.Log, error) {
	if err := cur.Load().at(ctx, "meta.get", ""); err != nil {
		return nil, err
	}
	return &solaris.Log{ID: id}, nil
}
func (meta) UpdateLog(ctx context.Context, log *solaris.Log) (*solaris.Log, error) {
	if err := cur.Load().at(ctx, "meta.update", ""); err != nil {
		return nil, err
	}
	return log, nil
}
func (meta) QueryLogs(ctx context.Context, qr storage.QueryLogsRequest) (*solaris.QueryLogsResult, error) {
	if err := cur.Load().at(ctx, "meta.query", ""); err != nil {
		return nil, err
	}
	res := &solaris.QueryLogsResult{}
	for k := 0; k < cur.Load().sc.Ids; k++ {
		res.Logs = append(res.Logs, &solaris.Log{ID: logID(k)})
	}
	res.Total = int64(len(res.Logs))
	return res, nil
}
func (meta) DeleteLogs(ctx context.Context, _ storage.DeleteLogsRequest) (*solaris.DeleteLogsResult, error) {
	if err := cur.Load().at(ctx, "meta.del", ""); err != nil {
		return nil, err
	}
	return &solaris.DeleteLogsResult{DeletedIDs: []string{logID(0)}}, nil
}

type recs struct{}

func (recs) AppendRecords(ctx context.Context, rq *solaris.AppendRecordsRequest) (*solaris.AppendRecordsResult, error) {
	if err := cur.Load().at(ctx, "log.append", rq.LogID); err != nil {
		return nil, err
	}
	return &solaris.AppendRecordsResult{Added: int64(len(rq.Records))}, nil
}

func recID(k, j int) string { return fmt.Sprintf("01J0000000000000%06d%04d", j*7+3, k) }

func (recs) QueryRecords(ctx context.Context, rq storage.QueryRecordsRequest) ([]*solaris.Record, bool, error) {
	r := cur.Load()
	if err := r.at(ctx, "log.query", rq.LogID); err != nil {
		return nil, false, err
	}
	k := 0
	for logID(k) != rq.LogID {
		if k++; k > 100 {
			return nil, false, nil
		}
	}
	var res []*solaris.Record
	for j := 0; j < r.sc.Recs; j++ {
		i := j
		if rq.Descending {
			i = r.sc.Recs - 1 - j
		}
		id := recID(k, i)
		if rq.StartID != "" && (!rq.Descending && id < rq.StartID || rq.Descending && id > rq.StartID) {
			continue
		}
		if len(res) >= r.sc.Cap || int64(len(res)) >= rq.Limit {
			return res, true, nil
		}
		res = append(res, &solaris.Record{ID: id, LogID: rq.LogID, Payload: []byte{byte(i)}})
	}
	return res, false, nil
}
func (recs) CountRecords(ctx context.Context, rq storage.QueryRecordsRequest) (uint64, uint64, error) {
	r := cur.Load()
	if err := r.at(ctx, "log.count", rq.LogID); err != nil {
		return 0, 0, err
	}
	return uint64(r.sc.Recs), uint64(r.sc.Recs), nil
}

// ---------------------------------------------------------------- the ways in
type door interface {
	CreateLog(ctx context.Context, log *solaris.Log) (*solaris.Log, error)
	UpdateLog(ctx context.Context, log *solaris.Log) (*solaris.Log, error)
	QueryLogs(ctx context.Context, request *solaris.QueryLogsRequest) (*solaris.QueryLogsResult, error)
	DeleteLogs(ctx context.Context, request *solaris.DeleteLogsRequest) (*solaris.DeleteLogsResult, error)
	AppendRecords(ctx context.Context, request *solaris.AppendRecordsRequest) (*solaris.AppendRecordsResult, error)
	QueryRecords(ctx context.Context, request *solaris.QueryRecordsRequest) (*solaris.QueryRecordsResult, error)
	CountRecords(ctx context.Context, request *solaris.QueryRecordsRequest) (*solaris.CountResult, error)
}

type client struct{ c solaris.ServiceClient }

func (c client) CreateLog(ctx context.Context, r *solaris.Log) (*solaris.Log, error) {
	return c.c.CreateLog(ctx, r)
}
func (c client) UpdateLog(ctx context.Context, r *solaris.Log) (*solaris.Log, error) {
	return c.c.UpdateLog(ctx, r)
}
func (c client) QueryLogs(ctx context.Context, r *solaris.QueryLogsRequest) (*solaris.QueryLogsResult, error) {
	return c.c.QueryLogs(ctx, r)
}
func (c client) DeleteLogs(ctx context.Context, r *solaris.DeleteLogsRequest) (*solaris.DeleteLogsResult, error) {
	return c.c.DeleteLogs(ctx, r)
}
func (c client) AppendRecords(ctx context.Context, r *solaris.AppendRecordsRequest) (*solaris.AppendRecordsResult, error) {
	return c.c.AppendRecords(ctx, r)
}
func (c client) QueryRecords(ctx context.Context, r *solaris.QueryRecordsRequest) (*solaris.QueryRecordsResult, error) {
	return c.c.QueryRecords(ctx, r)
}
func (c client) CountRecords(ctx context.Context, r *solaris.QueryRecordsRequest) (*solaris.CountResult, error) {
	return c.c.CountRecords(ctx, r)
}

// serve starts the gRPC server and the REST handlers for a service
func serve(dir string, n int, svc *api.Service) (client, http.Handler) {
	sock := filepath.Join(dir, fmt.Sprintf("s%d", n))
	srv := pgrpc.NewServer(pgrpc.Config{Transport: transport.Config{Network: "unix", Address: sock, Port: 1},
		RegisterEndpoints: func(gs *grpc.Server) error { solaris.RegisterServiceServer(gs, svc); return nil }})
	if err := srv.Init(context.Background()); err != nil {
		Fatal("grpc server: %v", err)
	}
	cc, err := grpc.Dial("unix:"+sock+":1", grpc.WithTransportCredentials(insecure.NewCredentials()))
	if err != nil {
		Fatal("grpc client: %v", err)
	}
	gin.SetMode(gin.ReleaseMode)
	eng := gin.New()
	if err := rest.New(svc).RegisterEPs(eng); err != nil {
		Fatal("rest: %v", err)
	}
	return client{solaris.NewServiceClient(cc)}, eng
}

// args are the arguments of a call
type args struct {
	op, lcond, rcond, start string
	id                      string
	ids                     []string
	desc                    bool
	limit                   int64
	payload                 int
}

func direct(d door, ctx context.Context, a args) (any, error) {
	q := &solaris.QueryRecordsRequest{LogsCondition: a.lcond, Condition: a.rcond, LogIDs: a.ids, Descending: a.desc, StartRecordID: a.start, Limit: a.limit}
	switch a.op {
	case "create":
		return d.CreateLog(ctx, &solaris.Log{Tags: map[string]string{"a": "b"}})
	case "update":
		return d.UpdateLog(ctx, &solaris.Log{ID: a.id, Tags: map[string]string{"a": "c"}})
	case "qlogs":
		return d.QueryLogs(ctx, &solaris.QueryLogsRequest{Condition: a.lcond, Limit: a.limit})
	case "del":
		return d.DeleteLogs(ctx, &solaris.DeleteLogsRequest{Condition: a.lcond})
	case "append":
		return d.AppendRecords(ctx, &solaris.AppendRecordsRequest{LogID: a.id, Records: []*solaris.Record{{Payload: make([]byte, a.payload)}}})
	case "qrec":
		return d.QueryRecords(ctx, q)
	case "count":
		return d.CountRecords(ctx, q)
	}
	Fatal("unknown call %q", a.op)
	return nil, nil
}

func request(a args) *http.Request {
	v := url.Values{}
	v.Set("logsCondFilter", a.lcond)
	v.Set("limit", fmt.Sprint(a.limit))
	js := func(m, u string, body any) *http.Request {
		b, _ := json.Marshal(body)
		r := httptest.NewRequest(m, u, bytes.NewReader(b))
		r.Header.Set("Content-Type", "application/json")
		return r
	}
	switch a.op {
	case "create":
		return js("POST", "/v1/logs", M{"tags": M{"a": "b"}})
	case "update":
		return js("PUT", "/v1/logs/"+a.id, M{"tags": M{"a": "c"}})
	case "qlogs":
		return httptest.NewRequest("GET", "/v1/logs?"+v.Encode(), nil)
	case "del":
		return js("DELETE", "/v1/logs", M{"filterCondition": a.lcond})
	case "append":
		return js("POST", "/v1/logs/"+a.id+"/records", M{"records": []M{{"payload": make([]byte, a.payload)}}})
	case "qrec", "count":
		v.Set("recordsCondFilter", a.rcond)
		v.Set("desc", fmt.Sprint(a.desc))
		v.Set("fromPageId", a.start)
		u := "/v1/records?" + v.Encode()
		for _, id := range a.ids {
			u += "&logIds=" + id
		}
		return httptest.NewRequest("GET", u, nil)
	}
	Fatal("unknown call %q", a.op)
	return nil
}

// serveHTTP answers a REST request
func serveHTTP(h http.Handler, rq *http.Request) M {
	ret := M{"e": "ret", "code": "", "classes": []string{}, "http": 0, "err": "", "obj": 0}
	cl, det := Try(func() error {
		w := httptest.NewRecorder()
		h.ServeHTTP(w, rq)
		ret["http"] = w.Code
		return nil
	})
	if cl == "panic" {
		ret["err"], ret["detail"] = "panic", det
	}
	return ret
}

func answer(f func() (any, error)) M {
	ret := M{"e": "ret", "code": "", "classes": []string{}, "http": 0, "err": "", "obj": 0}
	var err error
	cl, det := Try(func() error { _, err = f(); return nil })
	if cl == "panic" {
		ret["err"], ret["detail"] = "panic", det
		return ret
	}
	ret["code"], ret["classes"] = status.Code(err).String(), classes(err)
	o := map[string]int{}
	if err != nil && gerrors.ExtractObject(err, &o) {
		ret["obj"] = o["a"]
	}
	return ret
}

func (r *run) do(d door, cl client, h http.Handler) {
	sc := r.sc
	a := args{op: sc.Op, id: logID(0), desc: sc.Desc, limit: sc.Limit, payload: 3}
	if !sc.ByCond {
		for k := 0; k < sc.Ids; k++ {
			a.ids = append(a.ids, logID(k))
		}
	}
	r.emit(M{"e": "call", "op": sc.Op, "api": sc.Api})
	tc := &trigCtx{Context: context.Background(), ch: make(chan struct{}), err: context.Canceled}
	if sc.Ctx == "deadline" {
		tc.err = context.DeadlineExceeded
	}
	done := make(chan struct{})
	var ret M
	switch sc.Api {
	case "direct":
		go func() {
			select {
			case <-r.entered:
				tc.fire()
			case <-done:
			}
		}()
		ret = answer(func() (any, error) { return direct(d, tc, a) })
	case "grpc":
		ctx, cancel := context.WithCancel(context.Background())
		go func() {
			select {
			case <-r.entered:
				cancel()
			case <-done:
			}
		}()
		ret = answer(func() (any, error) { return direct(cl, ctx, a) })
		cancel()
		select {
		case <-r.entered:
			<-r.left
		default:
		}
	case "rest":
		ret = serveHTTP(h, request(a))
	}
	close(done)
	r.emit(ret)
}

// ---------------------------------------------------------------- failures of the real stack
type stack struct {
	e   *env.Env
	ids []string
	cl  client
	h   http.Handler
	dir string
	n   int
}

func newStack(dir string, n int, logs int) *stack {
	e := env.New(filepath.Join(dir, fmt.Sprintf("st%d", n)), env.Cfg{NewSize: 4096, MaxChunk: 16384, MaxGrow: 4096, MaxRecs: 100, MaxBunch: 1 << 20, MaxLocks: 10, MaxOpened: 10, Cached: n%2 == 0})
	if err := e.Open(); err != nil {
		Fatal("open: %v", err)
	}
	s := &stack{e: e, dir: dir, n: n}
	for k := 0; k < logs; k++ {
		l, err := e.Svc.CreateLog(context.Background(), &solaris.Log{Tags: map[string]string{"n": fmt.Sprint(k)}})
		if err != nil {
			Fatal("create: %v", err)
		}
		s.ids = append(s.ids, l.ID)
		if _, err := e.Svc.AppendRecords(context.Background(), &solaris.AppendRecordsRequest{LogID: l.ID, Records: []*solaris.Record{{Payload: []byte("x")}, {Payload: []byte("y")}}}); err != nil {
			Fatal("append: %v", err)
		}
	}
	s.cl, s.h = serve(dir, 100+n, e.Svc)
	return s
}

func (s *stack) do(sc scen) []M {
	ctx := context.Background()
	var evs []M
	a := args{id: s.ids[0], limit: 10, payload: 10, ids: s.ids[:1]}
	evs = append(evs, M{"e": "call", "op": sc.Real, "api": sc.Api}, M{"e": "bad", "kind": sc.Real})
	var rq *http.Request
	switch sc.Real {
	case "qlogs_cond":
		a.op, a.lcond = "qlogs", "tag('a' ="
	case "qlogs_param":
		a.op, a.lcond = "qlogs", "nosuch = 5"
	case "del_cond":
		a.op, a.lcond = "del", "tag('a') = "
	case "qrec_lcond":
		a.op, a.ids, a.lcond = "qrec", nil, "tag(5) = 'x'"
	case "qrec_rcond":
		a.op, a.rcond = "qrec", "ctime > "
	case "qrec_rparam":
		a.op, a.rcond = "qrec", "nosuch = 'x'"
	case "qrecs_rcond":
		a.op, a.ids, a.rcond = "qrec", s.ids[:3], "ctime >> 5"
	case "qrec_start":
		a.op, a.start = "qrec", "not an id"
	case "qrecs_start":
		a.op, a.ids, a.start = "qrec", s.ids[:3], "not an id"
	case "count_lcond":
		a.op, a.ids, a.lcond = "count", nil, "tag(5) = 'x'"
	case "count_rcond":
		a.op, a.rcond = "count", "ctime > "
	case "count_start":
		a.op, a.start = "count", "not an id"
	case "update_missing":
		a.op, a.id = "update", "01HZZZZZZZZZZZZZZZZZZZ9999"
	case "append_missing":
		a.op, a.id = "append", "01HZZZZZZZZZZZZZZZZZZZ9999"
	case "append_deleted":
		a.op, a.id = "append", s.ids[len(s.ids)-1]
		if _, err := s.e.Svc.DeleteLogs(context.Background(), &solaris.DeleteLogsRequest{Condition: fmt.Sprintf("logID = '%s'", a.id)}); err != nil {
			Fatal("delete: %v", err)
		}
	case "update_deleted":
		a.op, a.id = "update", s.ids[len(s.ids)-1]
		if _, err := s.e.Svc.DeleteLogs(context.Background(), &solaris.DeleteLogsRequest{Condition: fmt.Sprintf("logID = '%s'", a.id)}); err != nil {
			Fatal("delete: %v", err)
		}
	case "append_big":
		a.op, a.payload = "append", 20000
	case "qrec_many", "count_many":
		a.op = strings.Split(sc.Real, "_")[0]
		a.ids = nil
		for k := 0; k < 1001; k++ {
			a.ids = append(a.ids, logID(k))
		}
	case "rest_limit":
		rq = httptest.NewRequest("GET", "/v1/logs?limit=abc", nil)
	case "rest_json":
		rq = httptest.NewRequest("POST", "/v1/logs", strings.NewReader("{\"tags\": 5"))
		rq.Header.Set("Content-Type", "application/json")
	case "rest_type":
		rq = httptest.NewRequest("POST", "/v1/logs", strings.NewReader("<tags/>"))
		rq.Header.Set("Content-Type", "text/xml")
	case "rest_notype":
		rq = httptest.NewRequest("PUT", "/v1/logs/"+a.id, strings.NewReader("{\"tags\": {}}"))
	case "rest_path":
		rq = httptest.NewRequest("GET", "/v1/nosuch", nil)
	default:
		k, op, _ := strings.Cut(sc.Real, "_")
		a.op = strings.TrimSuffix(op, "s")
		if op == "del" {
			a.lcond = "tag('n') = '1'"
		}
		if op == "qlogs" {
			a.op = op
		} else if a.op != op {
			a.ids = s.ids[:3]
		}
		switch k {
		case "ctx":
			c, cancel := context.WithCancel(ctx)
			cancel()
			ctx = c
		case "late":
			c, cancel := context.WithDeadline(ctx, time.Now().Add(-time.Second))
			defer cancel()
			ctx = c
		case "closed":
			s.e.Log.Shutdown()
			s.e.Prov.Close()
		case "dbclosed":
			s.e.DB.Shutdown()
		case "broken", "gone":
			s.e.Log.Shutdown()
			s.e.Prov.Close()
			n := 0
			filepath.Walk(filepath.Join(s.e.Dir, "data"), func(p string, fi os.FileInfo, err error) error {
				if err == nil && !fi.IsDir() {
					n++
					if k == "gone" {
						os.Remove(p)
					} else if err := os.WriteFile(p, bytes.Repeat([]byte{0xa5}, 100), 0640); err != nil {
						Fatal("%v", err)
					}
				}
				return nil
			})
			if n == 0 {
				Fatal("no chunk files")
			}
			s.e.DB.Shutdown()
			if err := s.e.Open(); err != nil {
				Fatal("reopen: %v", err)
			}
			s.cl, s.h = serve(s.dir, 1000+s.n, s.e.Svc)
		default:
			Fatal("unknown failure %q", sc.Real)
		}
	}
	switch {
	case rq != nil:
		evs = append(evs, serveHTTP(s.h, rq))
	case sc.Api == "rest":
		evs = append(evs, serveHTTP(s.h, request(a)))
	case sc.Api == "grpc":
		evs = append(evs, answer(func() (any, error) { return direct(s.cl, ctx, a) }))
	default:
		evs = append(evs, answer(func() (any, error) { return direct(s.e.Svc, ctx, a) }))
	}
	return evs
}

// spoils tells that the stack cannot be used by other scenarios
func spoils(k string) bool {
	for _, p := range []string{"closed_", "dbclosed_", "broken_", "gone_"} {
		if strings.HasPrefix(k, p) {
			return true
		}
	}
	return strings.HasSuffix(k, "_deleted")
}

func main() {
	Quiet()
	dir, err := os.MkdirTemp(os.Getenv("SCRATCH"), "errh")
	if err != nil {
		Fatal("%v", err)
	}
	defer os.RemoveAll(dir)
	svc := api.NewService()
	svc.LogsStorage, svc.LogStorage = meta{}, recs{}
	cl, h := serve(dir, 0, svc)
	var st *stack
	nst := 0
	var evs []M
	Watchdog(60*time.Second, func() {
		r := cur.Load()
		if r == nil {
			return
		}
		r.mu.Lock()
		Emit(append(r.evs, M{"e": "ret", "code": "", "classes": []string{}, "http": 0, "err": "endless", "obj": 0}))
	})
	ReadLines(func(n int, raw []byte) {
		var sc scen
		if err := json.Unmarshal(raw, &sc); err != nil {
			Fatal("scenario: %v", err)
		}
		if sc.T.W == nil {
			sc.T.W = []string{}
		}
		if sc.Real != "" {
			if st == nil || len(st.ids) < 5 || spoils(sc.Real) {
				st = newStack(dir, nst, 5)
				nst++
			}
			evs = st.do(sc)
			if spoils(sc.Real) {
				st = nil
			}
			Emit(evs)
			return
		}
		if sc.Op == "lib" {
			e := build(sc.T)
			ret := answer(func() (any, error) { return nil, gerrors.GRPCWrap(e) })
			l := M{"e": "is", "t": sc.T, "code": "", "classes": []string{}, "err": ""}
			c, det := Try(func() error { l["code"], l["classes"] = gerrors.GRPCStatusCode(e).String(), classes(e); return nil })
			if c == "panic" {
				l["err"], l["detail"] = c, det
			}
			Emit([]M{{"e": "call", "op": "lib", "api": "direct"}, {"e": "fail", "site": "", "t": sc.T}, l, ret})
			return
		}
		if sc.Api == "rest" {
			sc.Ctx = ""
			if sc.Op == "count" {
				sc.Op = "qrec"
			}
		}
		if sc.Api == "grpc" && sc.Ctx != "" {
			sc.Ctx = "canceled"
		}
		r := &run{sc: sc, n: map[string]int{}, entered: make(chan struct{}), left: make(chan struct{})}
		cur.Store(r)
		Busy(true)
		r.do(svc, cl, h)
		Busy(false)
		r.mu.Lock()
		Emit(r.evs)
		r.mu.Unlock()
	})
	Flush()
}
