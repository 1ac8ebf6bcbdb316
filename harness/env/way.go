package env

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"io"
	"net/http"
	"net/http/httptest"
	"net/url"
	"os"
	"path/filepath"
	"time"
	"unicode/utf8"

	"github.com/gin-gonic/gin"
	"github.com/solarisdb/solaris/api/gen/solaris/v1"
	"github.com/solarisdb/solaris/golibs/errors"
	"github.com/solarisdb/solaris/golibs/transport"
	"github.com/solarisdb/solaris/pkg/api"
	"github.com/solarisdb/solaris/pkg/api/rest"
	pgrpc "github.com/solarisdb/solaris/pkg/grpc"
	"google.golang.org/grpc"
	"google.golang.org/grpc/credentials/insecure"
	"google.golang.org/protobuf/types/known/timestamppb"
)

// API is what a client can do, whatever way it takes
type API interface {
	CreateLog(ctx context.Context, log *solaris.Log) (*solaris.Log, error)
	UpdateLog(ctx context.Context, log *solaris.Log) (*solaris.Log, error)
	QueryLogs(ctx context.Context, request *solaris.QueryLogsRequest) (*solaris.QueryLogsResult, error)
	DeleteLogs(ctx context.Context, request *solaris.DeleteLogsRequest) (*solaris.DeleteLogsResult, error)
	AppendRecords(ctx context.Context, request *solaris.AppendRecordsRequest) (*solaris.AppendRecordsResult, error)
	QueryRecords(ctx context.Context, request *solaris.QueryRecordsRequest) (*solaris.QueryRecordsResult, error)
	CountRecords(ctx context.Context, request *solaris.QueryRecordsRequest) (*solaris.CountResult, error)
}

// way returns the API of the service by the way that the environment variable WAY tells, and how to end it
func way(svc *api.Service) (API, func(), error) {
	switch os.Getenv("WAY") {
	case "grpc":
		return overGRPC(svc)
	case "rest":
		a, err := overREST(svc)
		return a, func() {}, err
	}
	return svc, func() {}, nil
}

// ---------------------------------------------------------------- gRPC
type rpc struct {
	c   solaris.ServiceClient
	svc *api.Service
}

func overGRPC(svc *api.Service) (API, func(), error) {
	dir, err := os.MkdirTemp("", "way")
	if err != nil {
		return nil, nil, err
	}
	sock := filepath.Join(dir, "s")
	var gs *grpc.Server
	srv := pgrpc.NewServer(pgrpc.Config{Transport: transport.Config{Network: "unix", Address: sock, Port: 1},
		RegisterEndpoints: func(g *grpc.Server) error { gs = g; solaris.RegisterServiceServer(g, svc); return nil }})
	if err := srv.Init(context.Background()); err != nil {
		return nil, nil, err
	}
	cc, err := grpc.Dial("unix:"+sock+":1", grpc.WithTransportCredentials(insecure.NewCredentials()))
	if err != nil {
		return nil, nil, err
	}
	return rpc{solaris.NewServiceClient(cc), svc}, func() {
		cc.Close()
		gs.Stop()
		srv.Shutdown()
		os.RemoveAll(dir)
	}, nil
}

func (r rpc) CreateLog(ctx context.Context, q *solaris.Log) (*solaris.Log, error) {
	return r.c.CreateLog(ctx, q)
}
func (r rpc) UpdateLog(ctx context.Context, q *solaris.Log) (*solaris.Log, error) {
	return r.c.UpdateLog(ctx, q)
}
func (r rpc) QueryLogs(ctx context.Context, q *solaris.QueryLogsRequest) (*solaris.QueryLogsResult, error) {
	if !utf8.ValidString(q.Condition) { // no client can send this
		return r.svc.QueryLogs(ctx, q)
	}
	return r.c.QueryLogs(ctx, q)
}
func (r rpc) DeleteLogs(ctx context.Context, q *solaris.DeleteLogsRequest) (*solaris.DeleteLogsResult, error) {
	return r.c.DeleteLogs(ctx, q)
}
func (r rpc) AppendRecords(ctx context.Context, q *solaris.AppendRecordsRequest) (*solaris.AppendRecordsResult, error) {
	return r.c.AppendRecords(ctx, q)
}
func (r rpc) QueryRecords(ctx context.Context, q *solaris.QueryRecordsRequest) (*solaris.QueryRecordsResult, error) {
	return r.c.QueryRecords(ctx, q)
}
func (r rpc) CountRecords(ctx context.Context, q *solaris.QueryRecordsRequest) (*solaris.CountResult, error) {
	return r.c.CountRecords(ctx, q)
}

// ---------------------------------------------------------------- REST
type gate struct {
	h   http.Handler
	svc *api.Service
}

func overREST(svc *api.Service) (API, error) {
	gin.SetMode(gin.ReleaseMode)
	gin.DefaultWriter = io.Discard
	eng := gin.New()
	eng.UseRawPath = true // as pkg/http does
	eng.UnescapePathValues = false
	return gate{eng, svc}, rest.New(svc).RegisterEPs(eng)
}

func (g gate) call(ctx context.Context, want int, method, path string, q url.Values, body, res any) error {
	u := "http://x/v1" + path
	if q != nil {
		u += "?" + q.Encode()
	}
	var rd io.Reader
	if body != nil {
		b, err := json.Marshal(body)
		if err != nil {
			return err
		}
		rd = bytes.NewReader(b)
	}
	rq := httptest.NewRequest(method, u, rd).WithContext(ctx)
	if body != nil {
		rq.Header.Set("Content-Type", "application/json")
	}
	w := httptest.NewRecorder()
	g.h.ServeHTTP(w, rq)
	switch w.Code {
	case want:
		d := json.NewDecoder(w.Body)
		if err := d.Decode(res); err != nil {
			return fmt.Errorf("the answer cannot be decoded: %w", err)
		}
		if d.More() {
			return fmt.Errorf("the answer has several parts")
		}
		return nil
	}
	var msg struct {
		Error string `json:"error"`
	}
	d := json.NewDecoder(bytes.NewReader(w.Body.Bytes()))
	if err := d.Decode(&msg); err != nil || d.More() || msg.Error == "" {
		return fmt.Errorf("HTTP status %d with a broken answer: %q", w.Code, w.Body.String())
	}
	switch w.Code {
	case http.StatusNotFound:
		return errors.ErrNotExist
	case http.StatusBadRequest:
		return errors.ErrInvalid
	case http.StatusConflict:
		return errors.ErrConflict
	}
	return fmt.Errorf("HTTP status %d: %s", w.Code, w.Body.String())
}

// Odd sends a request that is malformed in the n-th way, for the log; it returns what was sent and the status
func (e *Env) Odd(n int, id string, tags map[string]string, cond string) (string, int) {
	g := e.API.(gate)
	js := func(v any) string {
		b, err := json.Marshal(v)
		if err != nil {
			panic(err)
		}
		return string(b)
	}
	one := "/v1/logs/" + url.PathEscape(id)
	recs := js(object{"records": []object{{"payload": []byte("1")}}})
	lg, dl := js(object{"tags": tags}), js(object{"filterCondition": cond})
	const j, p = "application/json", "text/plain"
	r := [][4]string{
		{"POST", "/v1/logs", p, lg},
		{"POST", "/v1/logs", j, lg[:len(lg)-1]},
		{"POST", "/v1/logs", j, `{"tags":["a"]}`},
		{"PUT", one, "", lg},
		{"PUT", one, j, lg[1:]},
		{"PUT", one, j, `{"tags":{"a":5}}`},
		{"DELETE", "/v1/logs", p, dl},
		{"DELETE", "/v1/logs", j, dl[:len(dl)-1]},
		{"DELETE", "/v1/logs", j, ""},
		{"POST", one + "/records", "application/xml", recs},
		{"POST", one + "/records", j, recs[:len(recs)-2]},
		{"POST", one + "/records", j, `{"records":[{"payload":"MQ=="},{"payload":"*"}]}`},
		{"GET", "/v1/logs?limit=x", "", ""},
		{"GET", "/v1/records?desc=7.5&logsCondFilter=" + url.QueryEscape(cond), "", ""},
	}[n-1]
	rq := httptest.NewRequest(r[0], "http://x"+r[1], bytes.NewReader([]byte(r[3])))
	if r[2] != "" {
		rq.Header.Set("Content-Type", r[2])
	}
	w := httptest.NewRecorder()
	g.h.ServeHTTP(w, rq)
	return fmt.Sprintf("%s %s %s %s", r[0], r[1], r[2], r[3]), w.Code
}

type jlog struct {
	ID        string            `json:"id"`
	Tags      map[string]string `json:"tags"`
	CreatedAt time.Time         `json:"createdAt"`
	UpdatedAt time.Time         `json:"updatedAt"`
}

func (l *jlog) log() *solaris.Log {
	return &solaris.Log{ID: l.ID, Tags: l.Tags, CreatedAt: timestamppb.New(l.CreatedAt), UpdatedAt: timestamppb.New(l.UpdatedAt)}
}

type object map[string]any

func (g gate) CreateLog(ctx context.Context, q *solaris.Log) (*solaris.Log, error) {
	var l jlog
	if err := g.call(ctx, http.StatusCreated, "POST", "/logs", nil, object{"tags": q.Tags}, &l); err != nil {
		return nil, err
	}
	return l.log(), nil
}

func (g gate) UpdateLog(ctx context.Context, q *solaris.Log) (*solaris.Log, error) {
	var l jlog
	if err := g.call(ctx, http.StatusOK, "PUT", "/logs/"+url.PathEscape(q.ID), nil, object{"tags": q.Tags}, &l); err != nil {
		return nil, err
	}
	return l.log(), nil
}

func set(v url.Values, k, s string) {
	if s != "" {
		v.Set(k, s)
	}
}

func (g gate) QueryLogs(ctx context.Context, q *solaris.QueryLogsRequest) (*solaris.QueryLogsResult, error) {
	v := url.Values{}
	set(v, "logsCondFilter", q.Condition)
	set(v, "fromPageId", q.PageID)
	if q.Limit != 0 {
		v.Set("limit", fmt.Sprint(q.Limit))
	}
	var r struct {
		Items      []jlog `json:"items"`
		NextPageID string `json:"nextPageId"`
		Total      int64  `json:"total"`
	}
	if err := g.call(ctx, http.StatusOK, "GET", "/logs", v, nil, &r); err != nil {
		return nil, err
	}
	res := &solaris.QueryLogsResult{NextPageID: r.NextPageID, Total: r.Total}
	for i := range r.Items {
		res.Logs = append(res.Logs, r.Items[i].log())
	}
	return res, nil
}

// all are the IDs of all logs
func (g gate) all() (map[string]bool, error) {
	res, pg := map[string]bool{}, ""
	for {
		r, err := g.svc.QueryLogs(context.Background(), &solaris.QueryLogsRequest{PageID: pg, Limit: 1000})
		if err != nil {
			return nil, err
		}
		for _, l := range r.Logs {
			res[l.ID] = true
		}
		if pg = r.NextPageID; pg == "" {
			return res, nil
		}
	}
}

// DeleteLogs: the answer has the number only, the IDs are found by comparison
func (g gate) DeleteLogs(ctx context.Context, q *solaris.DeleteLogsRequest) (*solaris.DeleteLogsResult, error) {
	before, err := g.all()
	if err != nil {
		return nil, err
	}
	var r struct {
		Deleted int `json:"deleted"`
	}
	if err := g.call(ctx, http.StatusOK, "DELETE", "/logs", nil, object{"filterCondition": q.Condition}, &r); err != nil {
		return nil, err
	}
	after, err := g.all()
	if err != nil {
		return nil, err
	}
	res := &solaris.DeleteLogsResult{}
	for id := range before {
		if !after[id] {
			res.DeletedIDs = append(res.DeletedIDs, id)
		}
	}
	if len(res.DeletedIDs) != r.Deleted {
		return nil, fmt.Errorf("%d logs are deleted, but %d are reported", len(res.DeletedIDs), r.Deleted)
	}
	return res, nil
}

// AppendRecords: the answer has no IDs
func (g gate) AppendRecords(ctx context.Context, q *solaris.AppendRecordsRequest) (*solaris.AppendRecordsResult, error) {
	type rec struct {
		Payload []byte `json:"payload"`
	}
	recs := []rec{}
	for _, r := range q.Records {
		recs = append(recs, rec{r.Payload})
	}
	var r struct {
		Added int64 `json:"added"`
	}
	if err := g.call(ctx, http.StatusCreated, "POST", "/logs/"+url.PathEscape(q.LogID)+"/records", nil, object{"records": recs}, &r); err != nil {
		return nil, err
	}
	return &solaris.AppendRecordsResult{Added: r.Added}, nil
}

func (g gate) records(ctx context.Context, q *solaris.QueryRecordsRequest) (*solaris.QueryRecordsResult, int64, error) {
	v := url.Values{}
	set(v, "logsCondFilter", q.LogsCondition)
	set(v, "recordsCondFilter", q.Condition)
	set(v, "fromPageId", q.StartRecordID)
	for _, id := range q.LogIDs {
		v.Add("logIds", id)
	}
	if q.Descending {
		v.Set("desc", "true")
	}
	if q.Limit != 0 {
		v.Set("limit", fmt.Sprint(q.Limit))
	}
	var r struct {
		Items []struct {
			ID        string    `json:"id"`
			LogID     string    `json:"logId"`
			Payload   []byte    `json:"payload"`
			CreatedAt time.Time `json:"createdAt"`
		} `json:"items"`
		NextPageID string `json:"nextPageId"`
		Total      int64  `json:"total"`
	}
	if err := g.call(ctx, http.StatusOK, "GET", "/records", v, nil, &r); err != nil {
		return nil, 0, err
	}
	res := &solaris.QueryRecordsResult{NextPageID: r.NextPageID}
	for _, x := range r.Items {
		res.Records = append(res.Records, &solaris.Record{ID: x.ID, LogID: x.LogID, Payload: x.Payload, CreatedAt: timestamppb.New(x.CreatedAt)})
	}
	return res, r.Total, nil
}

func (g gate) QueryRecords(ctx context.Context, q *solaris.QueryRecordsRequest) (*solaris.QueryRecordsResult, error) {
	r, _, err := g.records(ctx, q)
	return r, err
}

// CountRecords: the number comes with an answer to a query; how many there are in all is not told
func (g gate) CountRecords(ctx context.Context, q *solaris.QueryRecordsRequest) (*solaris.CountResult, error) {
	_, n, err := g.records(ctx, q)
	if err != nil {
		return nil, err
	}
	r, err := g.svc.CountRecords(ctx, q)
	if err != nil {
		return nil, err
	}
	return &solaris.CountResult{Total: r.Total, Count: n}, nil
}
