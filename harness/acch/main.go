// acch runs scenarios generated from the specification (GenAcc.tla) on the chunk files' access control under enumerated
// schedules: on chunkfs.ChunkAccessor itself, and on Provider and Replicator with real files. The observed events are
// traces for TraceAcc.tla.
package main

import (
	"archive/zip"
	"bytes"
	"context"
	"encoding/json"
	stderrors "errors"
	"fmt"
	"io"
	"io/fs"
	"math/rand"
	"os"
	"path/filepath"
	"strconv"
	"sync"
	"time"

	"github.com/solarisdb/solaris/api/gen/solaris/v1"
	"github.com/solarisdb/solaris/golibs/container/lru"
	"github.com/solarisdb/solaris/golibs/sss"
	"github.com/solarisdb/solaris/golibs/sss/inmem"
	"github.com/solarisdb/solaris/pkg/storage/chunkfs"
	"github.com/solarisdb/solaris/verifharness/sched"
	. "github.com/solarisdb/solaris/verifharness/vlib"
)

type op struct {
	Op string `json:"op"`
	C  int    `json:"c"`
	F  int    `json:"f"`
}

type scenario struct {
	Mode    string `json:"mode"`
	NC      int    `json:"nc"`
	Opened  int    `json:"opened"`
	Remote  bool   `json:"remote"`
	Threads [][]op `json:"threads"`
}

func cid(c int) string { return fmt.Sprintf("chunk%02d", c) }

var ccfg = chunkfs.Config{NewSize: 8192, MaxChunkSize: 1 << 20, MaxGrowIncreaseSize: 8192}

// template is the content of a chunk file with a few records
var template, templateZip []byte

var payloads = []string{"one", "two", "three"}

func makeTemplate(dir string) {
	fn := filepath.Join(dir, "tmpl")
	if err := os.WriteFile(fn, nil, 0644); err != nil {
		Fatal("%v", err)
	}
	c := chunkfs.NewChunk(fn, "tmpl", ccfg)
	if err := c.Open(false); err != nil {
		Fatal("%v", err)
	}
	var recs []*solaris.Record
	for _, p := range payloads {
		recs = append(recs, &solaris.Record{Payload: []byte(p)})
	}
	if _, err := c.AppendRecords(recs); err != nil {
		Fatal("%v", err)
	}
	c.Close()
	template, _ = os.ReadFile(fn)
	var b bytes.Buffer
	zw := zip.NewWriter(&b)
	w, _ := zw.Create("chunk")
	w.Write(template)
	zw.Close()
	templateZip = b.Bytes()
}

func unzip(b []byte) []byte {
	zr, err := zip.NewReader(bytes.NewReader(b), int64(len(b)))
	if err != nil || len(zr.File) == 0 {
		return nil
	}
	r, err := zr.File[0].Open()
	if err != nil {
		return nil
	}
	defer r.Close()
	d, _ := io.ReadAll(r)
	return d
}

// remote observes the calls of the replicator
type remote struct {
	sss.Storage
	ev   func(M)
	mu   sync.Mutex
	data map[int]string // by thread: what was wrong with the content
	miss map[int]bool
	kind map[int]string
	dir  string
	mx   sync.Mutex
}

func (r *remote) in(key string) func() {
	t, c := sched.Self()+1, 0
	fmt.Sscanf(filepath.Base(key), "chunk%d", &c)
	r.mu.Lock()
	k := r.kind[t]
	r.mu.Unlock()
	r.ev(M{"e": "in", "t": t, "c": c, "k": k})
	if k == "D" && mapped(cid(c), r.dir) {
		r.ev(M{"e": "bad", "t": t, "c": c, "what": "its removal has begun although the file is still mapped"})
	}
	sched.Point()
	return func() {
		sched.Point()
		r.ev(M{"e": "out", "t": t, "c": c, "k": k})
	}
}

func (r *remote) Get(ctx context.Context, key string) (io.ReadCloser, error) {
	defer r.in(key)()
	r.mx.Lock()
	defer r.mx.Unlock()
	rd, err := r.Storage.Get(ctx, key)
	if err != nil {
		r.mu.Lock()
		r.miss[sched.Self()+1] = true
		r.mu.Unlock()
	}
	return rd, err
}

func (r *remote) Put(ctx context.Context, key string, rd io.Reader) error {
	defer r.in(key)()
	b, err := io.ReadAll(rd)
	if err != nil {
		return err
	}
	if !bytes.Equal(unzip(b), template) {
		r.mu.Lock()
		r.data[sched.Self()+1] = "the uploaded copy differs from the chunk file"
		r.mu.Unlock()
	}
	r.mx.Lock()
	defer r.mx.Unlock()
	return r.Storage.Put(ctx, key, bytes.NewReader(b))
}

// mapped tells whether this process has the file of the chunk mapped
func mapped(id, dir string) bool {
	b, err := os.ReadFile("/proc/self/maps")
	if err != nil {
		return false
	}
	for _, l := range bytes.Split(b, []byte("\n")) {
		if bytes.HasSuffix(l, []byte("/"+id)) && bytes.Contains(l, []byte(dir)) {
			return true
		}
	}
	return false
}

type held struct {
	k string
	c int
	r lru.Releasable[*chunkfs.Chunk]
}

func content(c *chunkfs.Chunk) string {
	if c == nil {
		return "no chunk"
	}
	cr, err := c.OpenChunkReader(false)
	if err != nil {
		return "unreadable: " + err.Error()
	}
	defer cr.Close()
	i := 0
	for ; cr.HasNext(); i++ {
		r, ok := cr.Next()
		if !ok || i >= len(payloads) || string(r.UnsafePayload) != payloads[i] {
			return "wrong record"
		}
	}
	if i != len(payloads) {
		return "records are missing"
	}
	return ""
}

func runOne(s scenario, plan []sched.Step, root string) ([]any, sched.Result) {
	c := sched.New()
	ev := func(m M) { c.Event(m) }
	n := len(s.Threads)
	ev(M{"e": "cfg", "n": n})
	ca := chunkfs.NewChunkAccessor()
	var prov *chunkfs.Provider
	var repl *chunkfs.Replicator
	rem := &remote{ev: ev, Storage: inmem.NewStorage(), data: map[int]string{}, miss: map[int]bool{}, kind: map[int]string{}}
	if s.Mode == "stack" {
		dir, err := os.MkdirTemp(root, "r")
		if err != nil {
			Fatal("%v", err)
		}
		defer os.RemoveAll(dir)
		prov = chunkfs.NewProvider(dir, s.Opened, ccfg)
		repl = chunkfs.NewReplicator(prov.GetFileNameByID)
		rem.dir = dir
		repl.Storage, repl.CA, prov.CA, prov.Replicator = rem, ca, ca, repl
		for i := 1; i <= s.NC; i++ {
			fn := prov.GetFileNameByID(cid(i))
			os.MkdirAll(filepath.Dir(fn), 0755)
			if s.Remote && i == 1 {
				rem.Storage.Put(context.Background(), filepath.Join("/", cid(i)[len(cid(i))-2:], cid(i)), bytes.NewReader(templateZip))
			} else if err := os.WriteFile(fn, template, 0644); err != nil {
				Fatal("%v", err)
			}
		}
	}
	ctxs := make([]context.Context, n)
	cancels := make([]func(), n)
	var hmu sync.Mutex
	hs := make([][]held, n)
	give := func(t int, h held) {
		ev(M{"e": "rel", "t": t, "k": h.k, "c": h.c})
		cl, _ := tryc(func() error {
			switch h.k {
			case "H":
				if _, err := os.Stat(prov.GetFileNameByID(cid(h.c))); err != nil {
					ev(M{"e": "bad", "t": t, "c": h.c, "what": "the file was removed while it was in use"})
				}
				prov.ReleaseChunk(&h.r)
			case "O":
				return cls(ca, cid(h.c))
			default:
				ca.SetIdle(cid(h.c))
			}
			return nil
		})
		ev(M{"e": "reld", "t": t, "k": h.k, "c": h.c, "err": cl})
	}
	shut := func() {
		ev(M{"e": "shut"})
		if prov != nil {
			prov.Close()
		}
		ca.Shutdown()
		ev(M{"e": "shutd"})
	}
	for i := range s.Threads {
		ctxs[i], cancels[i] = context.WithCancel(context.Background())
		i, t := i, i+1
		c.Add(func() {
			has := func(k string, ch int) bool {
				for _, h := range hs[i] {
					if h.c == ch && (h.k == k) {
						return true
					}
				}
				return false
			}
			for _, o := range s.Threads[i] {
				switch o.Op {
				case "cancel":
					if o.C <= n {
						ev(M{"e": "cancel", "t": o.C})
						cancels[o.C-1]()
					}
					continue
				case "shut":
					shut()
					continue
				case "back":
					if k := len(hs[i]); k > 0 {
						j := min(o.F, k) - 1
						hmu.Lock()
						h := hs[i][j]
						hs[i] = append(append([]held{}, hs[i][:j]...), hs[i][j+1:]...)
						hmu.Unlock()
						give(t, h)
					}
					continue
				}
				// a thread does not ask for what would make it wait for itself
				if (has("W", o.C) || has("D", o.C)) || ((o.Op == "get" || o.Op == "new") && (s.Opened == 1 && len(hs[i]) > 0)) {
					continue
				}
				if o.Op == "open" && has("O", o.C) {
					continue
				}
				k := map[string]string{"open": "O", "write": "W", "del": "D", "get": "H", "new": "H"}[o.Op]
				rem.mu.Lock()
				rem.data[t], rem.miss[t], rem.kind[t] = "", false, "W"
				if o.Op == "sdel" {
					rem.kind[t] = "D"
				}
				rem.mu.Unlock()
				ev(M{"e": "call", "t": t, "op": o.Op, "c": o.C})
				h := held{k: k, c: o.C}
				data := ""
				cl, d := tryc(func() (err error) {
					switch o.Op {
					case "open":
						return open(ctxs[i], ca, cid(o.C))
					case "write":
						return ca.SetWriting(ctxs[i], cid(o.C))
					case "del":
						return del(ca, cid(o.C))
					case "get":
						h.r, err = prov.GetOpenedChunk(ctxs[i], cid(o.C), false)
						return err
					case "new":
						h.r, err = prov.GetOpenedChunk(ctxs[i], cid(o.C), true)
						return err
					case "emp":
						prov.DeleteFileIfEmpty(cid(o.C))
						return nil
					case "up":
						return repl.UploadChunk(ctxs[i], cid(o.C))
					case "down":
						return repl.DownloadChunk(ctxs[i], cid(o.C), o.F)
					case "sdel":
						return repl.DeleteChunk(ctxs[i], cid(o.C), o.F)
					}
					Fatal("unknown operation %s", o.Op)
					return nil
				})
				rem.mu.Lock()
				data = rem.data[t]
				if cl == "NotExist" && rem.miss[t] {
					cl = "NoRemote"
				}
				rem.mu.Unlock()
				if cl == "" && k != "" {
					hmu.Lock()
					hs[i] = append(hs[i], h)
					hmu.Unlock()
				}
				ev(M{"e": "ret", "t": t, "op": o.Op, "c": o.C, "err": cl, "data": data})
				if cl == "panic" {
					fmt.Fprintln(os.Stderr, d)
				}
				if cl == "" && o.Op == "get" {
					if x := content(h.r.Value()); x != "" {
						ev(M{"e": "bad", "t": t, "c": o.C, "what": x})
					}
				}
			}
		})
	}
	res := c.Run(plan, nil)
	if c.Spin {
		ev(M{"e": "hang"})
		return c.Events(), res
	}
	ev(M{"e": "quiet"})
	rel := func() {
		for i := range hs {
			for {
				hmu.Lock()
				if len(hs[i]) == 0 {
					hmu.Unlock()
					break
				}
				h := hs[i][0]
				hs[i] = hs[i][1:]
				hmu.Unlock()
				give(i+1, h)
			}
		}
	}
	for k := 0; k < 4; k++ {
		rel()
		r := c.Drain(nil)
		ev(M{"e": "quiet"})
		if len(r.Stuck) == 0 {
			break
		}
	}
	rel()
	for i := range cancels {
		ev(M{"e": "cancel", "t": i + 1})
		cancels[i]()
	}
	c.Drain(nil)
	ev(M{"e": "quiet"})
	rel()
	c.Drain(nil)
	shut()
	if left := c.Free(3 * time.Second); len(left) > 0 {
		ev(M{"e": "hang", "left": len(left)})
	}
	rel()
	ev(M{"e": "end"})
	return c.Events(), res
}

func tryc(f func() error) (string, string) {
	var err error
	c, d := Try(func() error { err = f(); return err })
	var pe *fs.PathError
	if c == "NotExist" && stderrors.As(err, &pe) {
		c = "NoLocal"
	}
	return c, d
}

func main() {
	Quiet()
	extra, _ := strconv.Atoi(os.Getenv("EXTRA"))
	single, _ := strconv.Atoi(os.Getenv("SINGLE"))
	root, err := os.MkdirTemp("", "acch")
	if err != nil {
		Fatal("%v", err)
	}
	defer os.RemoveAll(root)
	makeTemplate(root)
	ReadLines(func(n int, raw []byte) {
		var s scenario
		if err := json.Unmarshal(raw, &s); err != nil {
			Fatal("bad scenario: %v", err)
		}
		if s.Mode == "direct" && !direct {
			Fatal("built without access to the accessor")
		}
		rnd := rand.New(rand.NewSource(Seed()*7919 + int64(n)))
		_, base := runOne(s, nil, root)
		seen := map[string]bool{}
		for _, p := range sched.Plans(base.Counts, extra, single, rnd) {
			evs, _ := runOne(s, p, root)
			b, _ := json.Marshal(evs)
			if !seen[string(b)] {
				seen[string(b)] = true
				Emit(M{"sc": n, "plan": p, "ev": evs})
			}
		}
	})
	Flush()
}
