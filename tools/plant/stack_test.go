package api_test

import (
	"context"
	"fmt"
	"os"
	"path/filepath"
	"testing"

	"github.com/solarisdb/solaris/api/gen/solaris/v1"
	"github.com/solarisdb/solaris/golibs/sss/inmem"
	"github.com/solarisdb/solaris/pkg/api"
	"github.com/solarisdb/solaris/pkg/storage/buntdb"
	"github.com/solarisdb/solaris/pkg/storage/cache"
	"github.com/solarisdb/solaris/pkg/storage/chunkfs"
	"github.com/solarisdb/solaris/pkg/storage/logfs"
)

// stack is the server's storage stack on a scratch directory
type stack struct {
	svc *api.Service
	db  *buntdb.Storage
	p   *chunkfs.Provider
	ll  interface{ Shutdown() }
	ca  *chunkfs.ChunkAccessor
}

func open(t *testing.T, dir string, maxChunk int64, maxRecs, maxBunch, maxOpened int) *stack {
	t.Helper()
	s := &stack{}
	if err := os.MkdirAll(filepath.Join(dir, "data"), 0755); err != nil {
		t.Fatal(err)
	}
	s.db = buntdb.NewStorage(buntdb.Config{DBFilePath: filepath.Join(dir, "meta.db")})
	if err := s.db.Init(context.Background()); err != nil {
		t.Fatal(err)
	}
	meta := cache.NewCachedStorage(s.db)
	s.ca = chunkfs.NewChunkAccessor()
	s.p = chunkfs.NewProvider(filepath.Join(dir, "data"), maxOpened, chunkfs.Config{NewSize: 4096, MaxChunkSize: maxChunk, MaxGrowIncreaseSize: 4096})
	r := chunkfs.NewReplicator(s.p.GetFileNameByID)
	r.Storage = inmem.NewStorage()
	r.CA = s.ca
	s.p.CA = s.ca
	s.p.Replicator = r
	ll := logfs.NewLocalLog(logfs.Config{MaxRecordsLimit: maxRecs, MaxBunchSize: maxBunch, MaxLocks: 16})
	ll.LMStorage = meta
	ll.ChnkProvider = s.p
	s.ll = ll
	s.svc = api.NewService()
	s.svc.LogsStorage = meta
	s.svc.LogStorage = ll
	return s
}

func (s *stack) close() {
	s.ll.Shutdown()
	s.p.Close()
	s.ca.Shutdown()
	s.db.Shutdown()
}

func (s *stack) newLog(t *testing.T) string {
	t.Helper()
	l, err := s.svc.CreateLog(context.Background(), &solaris.Log{Tags: map[string]string{"a": "b"}})
	if err != nil {
		t.Fatal(err)
	}
	return l.ID
}

// add appends n records with payloads "<log position>" padded to size
func (s *stack) add(t *testing.T, log string, from, n, size int) {
	t.Helper()
	var rs []*solaris.Record
	for i := 0; i < n; i++ {
		p := make([]byte, size)
		copy(p, fmt.Sprintf("%d", from+i))
		rs = append(rs, &solaris.Record{Payload: p})
	}
	for len(rs) > 0 {
		res, err := s.svc.AppendRecords(context.Background(), &solaris.AppendRecordsRequest{LogID: log, Records: rs})
		if err != nil {
			t.Fatal(err)
		}
		rs = rs[res.Added:]
	}
}

// all follows the page tokens
func (s *stack) all(t *testing.T, q *solaris.QueryRecordsRequest) []*solaris.Record {
	t.Helper()
	var res []*solaris.Record
	for i := 0; i < 10000; i++ {
		r, err := s.svc.QueryRecords(context.Background(), q)
		if err != nil {
			t.Fatal(err)
		}
		res = append(res, r.Records...)
		if r.NextPageID == "" {
			return res
		}
		q.StartRecordID = r.NextPageID
	}
	t.Fatal("paging does not end")
	return nil
}
