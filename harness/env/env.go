// Package env assembles the storage stack of the server on a scratch directory.
package env

import (
	"context"
	"os"
	"path/filepath"

	"github.com/solarisdb/solaris/golibs/sss"
	"github.com/solarisdb/solaris/golibs/sss/inmem"
	"github.com/solarisdb/solaris/pkg/api"
	"github.com/solarisdb/solaris/pkg/storage"
	"github.com/solarisdb/solaris/pkg/storage/buntdb"
	"github.com/solarisdb/solaris/pkg/storage/cache"
	"github.com/solarisdb/solaris/pkg/storage/chunkfs"
	"github.com/solarisdb/solaris/pkg/storage/logfs"
)

// Cfg selects the sizes of the stack
type Cfg struct {
	NewSize   int64 `json:"newsize"`
	MaxChunk  int64 `json:"maxchunk"`
	MaxGrow   int64 `json:"maxgrow"`
	MaxRecs   int   `json:"maxrecs"`
	MaxBunch  int   `json:"maxbunch"`
	MaxLocks  int   `json:"maxlocks"`
	MaxOpened int   `json:"maxopened"`
	Cached    bool  `json:"cached"`
}

// Meta is the catalogue used by the stack
type Meta interface {
	storage.Logs
	logfs.LogsMetaStorage
}

// Env is the assembled stack
type Env struct {
	Dir    string
	Cfg    Cfg
	DB     *buntdb.Storage
	Meta   Meta
	CA     *chunkfs.ChunkAccessor
	Prov   *chunkfs.Provider
	Repl   *chunkfs.Replicator
	Remote sss.Storage
	Log    interface {
		storage.Log
		Shutdown()
	}
	Svc *api.Service
	// API is the service as clients see it, see way
	API    API
	endWay func()
	// WrapMeta optionally decorates the catalogue seen by the log implementation
	WrapMeta func(Meta) Meta
	// WrapLog optionally decorates the log implementation seen by the service
	WrapLog func(storage.Log) storage.Log
}

// New prepares an Env on dir; Open starts it
func New(dir string, cfg Cfg) *Env {
	return &Env{Dir: dir, Cfg: cfg, Remote: inmem.NewStorage()}
}

// Open builds the components (a server start)
func (e *Env) Open() error {
	data := filepath.Join(e.Dir, "data")
	if err := os.MkdirAll(data, 0755); err != nil {
		return err
	}
	e.DB = buntdb.NewStorage(buntdb.Config{DBFilePath: filepath.Join(e.Dir, "meta.db")})
	if err := e.DB.Init(context.Background()); err != nil {
		return err
	}
	e.Meta = e.DB
	if e.Cfg.Cached {
		e.Meta = cache.NewCachedStorage(e.DB)
	}
	if e.WrapMeta != nil {
		e.Meta = e.WrapMeta(e.Meta)
	}
	e.CA = chunkfs.NewChunkAccessor()
	e.Prov = chunkfs.NewProvider(data, e.Cfg.MaxOpened, chunkfs.Config{NewSize: e.Cfg.NewSize, MaxChunkSize: e.Cfg.MaxChunk,
		MaxGrowIncreaseSize: e.Cfg.MaxGrow})
	e.Repl = chunkfs.NewReplicator(e.Prov.GetFileNameByID)
	e.Repl.Storage = e.Remote
	e.Repl.CA = e.CA
	e.Prov.CA = e.CA
	e.Prov.Replicator = e.Repl
	ll := logfs.NewLocalLog(logfs.Config{MaxRecordsLimit: e.Cfg.MaxRecs, MaxBunchSize: e.Cfg.MaxBunch, MaxLocks: e.Cfg.MaxLocks})
	ll.LMStorage = e.Meta
	ll.ChnkProvider = e.Prov
	e.Log = ll
	e.Svc = api.NewService()
	e.Svc.LogsStorage = e.Meta
	e.Svc.LogStorage = ll
	if e.WrapLog != nil {
		e.Svc.LogStorage = e.WrapLog(ll)
	}
	var err error
	e.API, e.endWay, err = way(e.Svc)
	return err
}

// Close is a clean shutdown
func (e *Env) Close() {
	e.endWay()
	e.Log.Shutdown()
	e.Prov.Close()
	e.CA.Shutdown()
	e.DB.Shutdown()
}
