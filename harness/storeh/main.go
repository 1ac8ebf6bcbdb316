// storeh replays histories generated from the specification (GenRepl.tla) on the assembled stack: appends, reads,
// replication with a failing object store, restarts, and process deaths (snapshots of the files at statements of the code).
// The traces are for TraceStore.tla.
package main

import (
	"archive/zip"
	"bytes"
	"context"
	"crypto/sha1"
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"hash/crc32"
	"io"
	"io/fs"
	"math/rand"
	"os"
	"os/signal"
	"path/filepath"
	"sort"
	"strconv"
	"sync"
	"syscall"
	"time"

	"github.com/solarisdb/solaris/api/gen/solaris/v1"
	gerrors "github.com/solarisdb/solaris/golibs/errors"
	"github.com/solarisdb/solaris/pkg/storage/chunkfs"
	"github.com/solarisdb/solaris/verifharness/env"
	"github.com/solarisdb/solaris/verifharness/vhook"
	. "github.com/solarisdb/solaris/verifharness/vlib"
)

type fault struct {
	At int    `json:"at"`
	K  string `json:"k"`
}

type op struct {
	Op    string `json:"op"`
	Log   int    `json:"log"`
	C     int    `json:"c"`
	Lens  []int  `json:"lens"`
	Fault fault  `json:"fault"`
	Crash bool   `json:"crash"`
}

type behaviour struct {
	Cfg struct {
		NLogs     int   `json:"nlogs"`
		NewSize   int64 `json:"newsize"`
		MaxChunk  int64 `json:"maxchunk"`
		MaxGrow   int64 `json:"maxgrow"`
		MaxOpened int   `json:"maxopened"`
		Cached    bool  `json:"cached"`
	} `json:"cfg"`
	Ops []op `json:"ops"`
}

// store is the remote object store with planned faults
type store struct {
	mu     sync.Mutex
	m      map[string][]byte
	plan   fault
	calls  int
	fired  bool
	cancel func()
	busy   func() // another caller works at the same time
}

var errStore = errors.New("the object store failed")

func (s *store) hit(put bool) string {
	s.mu.Lock()
	s.calls++
	at := s.calls
	s.mu.Unlock()
	if s.plan.At == at {
		k := s.plan.K
		isGet := k == "break" || k == "empty" || k == "notzip" || k == "flip" || k == "nofiles"
		isPut := k == "failread" || k == "late"
		if (put && isGet) || (!put && isPut) {
			return ""
		}
		if k == "busy" {
			s.busy()
			return ""
		}
		s.fired = true
		return k
	}
	return ""
}

type cutReader struct {
	r   io.Reader
	err error
}

func (c *cutReader) Read(b []byte) (int, error) {
	n, err := c.r.Read(b)
	if err == io.EOF {
		err = c.err
	}
	return n, err
}

func (s *store) Get(ctx context.Context, key string) (io.ReadCloser, error) {
	k := s.hit(false)
	switch k {
	case "fail":
		return nil, errStore
	case "cancelfail":
		s.cancel()
		return nil, ctx.Err()
	case "cancelok":
		s.cancel()
	}
	s.mu.Lock()
	v, ok := s.m[key]
	s.mu.Unlock()
	if !ok {
		return nil, gerrors.ErrNotExist
	}
	switch k {
	case "break":
		return io.NopCloser(&cutReader{bytes.NewReader(v[:len(v)*2/3]), io.ErrUnexpectedEOF}), nil
	case "trunc":
		return io.NopCloser(bytes.NewReader(v[:len(v)/2])), nil
	case "flip":
		w := append([]byte{}, v...)
		w[len(w)/3] ^= 0x55
		return io.NopCloser(bytes.NewReader(w)), nil
	case "empty":
		return io.NopCloser(bytes.NewReader(nil)), nil
	case "nofiles": // an archive, but nothing in it
		var b bytes.Buffer
		if err := zip.NewWriter(&b).Close(); err != nil {
			return nil, err
		}
		return io.NopCloser(&b), nil
	case "notzip":
		return io.NopCloser(bytes.NewReader([]byte("<html>busy</html>"))), nil
	}
	return io.NopCloser(bytes.NewReader(v)), nil
}

func (s *store) Put(ctx context.Context, key string, r io.Reader) error {
	k := s.hit(true)
	switch k {
	case "fail":
		return errStore
	case "cancelfail":
		s.cancel()
		return ctx.Err()
	case "cancelok":
		s.cancel()
	case "failread":
		io.CopyN(io.Discard, r, 100)
		return errStore
	}
	b, err := io.ReadAll(r)
	if err != nil {
		return err
	}
	if k == "trunc" {
		b = b[:len(b)/2]
	}
	s.mu.Lock()
	s.m[key] = b
	s.mu.Unlock()
	if k == "trunc" || k == "late" {
		return errStore
	}
	return nil
}

func (s *store) List(context.Context, string) ([]string, error) { return nil, nil }

func (s *store) Delete(ctx context.Context, key string) error {
	if k := s.hit(true); k != "" {
		return errStore
	}
	s.mu.Lock()
	delete(s.m, key)
	s.mu.Unlock()
	return nil
}

func (s *store) clone() *store {
	s.mu.Lock()
	defer s.mu.Unlock()
	n := &store{m: map[string][]byte{}}
	for k, v := range s.m {
		n.m[k] = v
	}
	return n
}

func unzip(b []byte) []byte {
	zr, err := zip.NewReader(bytes.NewReader(b), int64(len(b)))
	if err != nil || len(zr.File) == 0 {
		return nil
	}
	r, err := zr.File[0].Open()
	if err != nil {
		return nil
	}
	defer r.Close()
	d, err := io.ReadAll(r)
	if err != nil {
		return nil
	}
	return d
}

// ---------------------------------------------------------------- one running server
type sess struct {
	e      *env.Env
	st     *store
	cfg    env.Cfg
	dir    string
	logs   []string
	want   map[string]string // chunk -> hash of the content it must have
	ev     []any
	serial uint32
}

func (s *sess) add(m M) { s.ev = append(s.ev, m) }

func payload(serial uint32, n int) []byte {
	n = max(n, 8)
	b := make([]byte, n)
	binary.BigEndian.PutUint32(b, serial)
	for i := 8; i < n; i++ {
		b[i] = byte(int(serial)*31 + i*7)
	}
	binary.BigEndian.PutUint32(b[4:], crc32.ChecksumIEEE(b[8:])^serial)
	return b
}

func token(b []byte) int {
	if len(b) < 8 {
		return -1
	}
	n := binary.BigEndian.Uint32(b)
	if !bytes.Equal(b, payload(n, len(b))) {
		return -1
	}
	return int(n)
}

func (s *sess) open() error {
	s.e = env.New(s.dir, s.cfg)
	s.e.Remote = s.st
	return s.e.Open()
}

// hash of a chunk file, but for the part of its header that is about a running extension of the file
func hash(b []byte) string {
	h := sha1.New()
	h.Write(b[:min(len(b), 12)])
	h.Write(b[min(len(b), 28):])
	return fmt.Sprintf("%d %x", len(b), h.Sum(nil))
}

func (s *sess) chunks() []string {
	var res []string
	for c := range s.want {
		res = append(res, c)
	}
	sort.Strings(res)
	return res
}

func (s *sess) local(c string) []byte {
	b, err := os.ReadFile(s.e.Prov.GetFileNameByID(c))
	if err != nil {
		return nil
	}
	return b
}

func (s *sess) remote(c string) []byte {
	s.st.mu.Lock()
	defer s.st.mu.Unlock()
	return s.st.m[filepath.Join("/", c[len(c)-2:], c)]
}

// refresh takes the content of the local chunk files as the right one
func (s *sess) refresh() {
	filepath.WalkDir(filepath.Join(s.dir, "data"), func(p string, d fs.DirEntry, err error) error {
		if err == nil && !d.IsDir() && len(d.Name()) == 26 {
			if b, err := os.ReadFile(p); err == nil && len(b) > 0 {
				s.want[d.Name()] = hash(b)
			}
		}
		return nil
	})
}

func (s *sess) obs() {
	for _, c := range s.chunks() {
		l, r := "absent", "absent"
		if b := s.local(c); b != nil {
			l = "differs"
			if hash(b) == s.want[c] {
				l = "same"
			}
		}
		if z := s.remote(c); z != nil {
			r = "other"
			if hash(unzip(z)) == s.want[c] {
				r = "same"
			}
		}
		s.add(M{"e": "obs", "c": len(c), "loc": l, "rem": r})
	}
}

func (s *sess) read(ctx context.Context, l int, desc bool, f func() bool) {
	ids, start := []any{}, ""
	c, d := Try(func() error {
		for n := 0; n < 1000; n++ {
			r, err := s.e.Svc.QueryRecords(ctx, &solaris.QueryRecordsRequest{LogIDs: []string{s.logs[l-1]}, StartRecordID: start, Descending: desc, Limit: 50})
			if err != nil {
				return err
			}
			for _, x := range r.Records {
				ids = append(ids, token(x.Payload))
			}
			if start = r.NextPageID; start == "" {
				return nil
			}
		}
		return errors.New("endless pages")
	})
	if c != "" {
		ids = []any{}
	}
	s.add(M{"e": "read", "l": l, "ids": ids, "desc": desc, "err": c, "f": f(), "d": cut(d)})
}

func cut(d string) string {
	if len(d) > 300 {
		d = d[:300]
	}
	return d
}

func (s *sess) count(l int) {
	var n int64 = -1
	c, d := Try(func() error {
		r, err := s.e.Svc.CountRecords(context.Background(), &solaris.QueryRecordsRequest{LogIDs: []string{s.logs[l-1]}})
		if err == nil {
			n = r.Total
		}
		return err
	})
	s.add(M{"e": "count", "l": l, "total": n, "err": c, "f": false, "d": cut(d)})
}

// diskLimit lets writes beyond the size fail, as on a full disk
func diskLimit(n uint64) func() {
	var old syscall.Rlimit
	syscall.Getrlimit(syscall.RLIMIT_FSIZE, &old)
	l := old
	l.Cur = n
	if err := syscall.Setrlimit(syscall.RLIMIT_FSIZE, &l); err != nil {
		Fatal("setrlimit: %v", err)
	}
	return func() { syscall.Setrlimit(syscall.RLIMIT_FSIZE, &old) }
}

func (s *sess) append(ctx context.Context, l int, lens []int, f func() bool) M {
	recs := make([]*solaris.Record, len(lens))
	ids := []any{}
	for i, n := range lens {
		s.serial++
		recs[i] = &solaris.Record{Payload: payload(s.serial, n)}
		ids = append(ids, int(s.serial))
	}
	var r *solaris.AppendRecordsResult
	c, d := Try(func() (err error) {
		r, err = s.e.Svc.AppendRecords(ctx, &solaris.AppendRecordsRequest{LogID: s.logs[l-1], Records: recs})
		return err
	})
	k := 0
	if c == "" {
		k = int(r.Added)
	}
	return M{"e": "append", "l": l, "ids": ids[:k], "tail": ids[k:], "err": c, "f": f(), "d": cut(d)}
}

// doOp runs an operation and returns its event
func (s *sess) doOp(o op) M {
	if o.Fault.K == "disk" {
		defer diskLimit(uint64(o.Fault.At))()
		o.Fault.At = 0
	}
	disk := o.Fault.K == "disk"
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	s.st.plan, s.st.calls, s.st.fired, s.st.cancel = o.Fault, 0, false, cancel
	if o.Fault.K == "pre" {
		cancel()
	}
	f := func() bool { return s.st.fired || disk || ctx.Err() != nil }
	defer func() { s.st.plan = fault{} }()
	if o.Fault.K == "busy" {
		// an append that is made while the operation talks to the store (it may be refused, but it must tell the truth)
		var after []M
		done := make(chan struct{})
		var once sync.Once
		s.st.busy = func() {
			once.Do(func() {
				go func() {
					defer close(done)
					for l := range s.logs { // the chunks used first are closed by the next ones if few may be opened
						after = append(after, s.append(context.Background(), l+1, []int{33, 44}, func() bool { return true }))
					}
				}()
			})
			select {
			case <-done:
			case <-time.After(20 * time.Millisecond):
			}
		}
		defer func() {
			once.Do(func() { close(done) })
			<-done
			for _, m := range after {
				s.add(m)
			}
			s.refresh()
		}()
	}
	switch o.Op {
	case "append":
		return s.append(ctx, o.Log, o.Lens, f)
	case "up", "sdel", "down":
		cs := s.chunks()
		if len(cs) == 0 {
			return nil
		}
		c := cs[o.C%len(cs)]
		flags := 0
		l := s.local(c)
		if o.Op == "sdel" {
			flags = chunkfs.RFRemoteSync
		}
		if o.Op == "down" && o.C%2 == 0 && l != nil && hash(unzip(s.remote(c))) == hash(l) {
			// a forced download replaces the file by its equal copy; nobody must have it opened
			s.e.Close()
			if err := s.open(); err != nil {
				return M{"e": "start", "err": Class(err)}
			}
			flags = chunkfs.RFRemoteSync
		}
		cl, d := Try(func() error {
			switch o.Op {
			case "up":
				return s.e.Repl.UploadChunk(ctx, c)
			case "sdel":
				return s.e.Repl.DeleteChunk(ctx, c, flags)
			}
			return s.e.Repl.DownloadChunk(ctx, c, flags)
		})
		if cl == "other" {
			d = "" // may contain paths
		}
		sync := l == nil || hash(unzip(s.remote(c))) == hash(l)
		return M{"e": "op", "k": o.Op, "err": cl, "f": f(), "sync": sync, "had": l != nil, "d": cut(d)}
	}
	Fatal("unknown operation %s", o.Op)
	return nil
}

// hurt damages a chunk file so that it cannot be opened. With a good remote copy it must be healed; without one the file
// must stay (the damage is undone then)
func (s *sess) hurt(o op) {
	cs := s.chunks()
	if len(cs) == 0 {
		return
	}
	c := cs[o.C%len(cs)]
	b := s.local(c)
	if len(b) < 4096 {
		return
	}
	n := int(binary.BigEndian.Uint32(b[8:]))
	u := unzip(s.remote(c))
	if n == 0 || hash(b) != s.want[c] || u != nil && hash(u) != hash(b) {
		// (an older remote copy is the best that is left of a damaged file)
		return
	}
	s.e.Close()
	fn := s.e.Prov.GetFileNameByID(c)
	w := append([]byte{}, b...)
	copy(w[len(w)-24*n+16:], []byte{0x7f, 0xff, 0, 0})
	good := hash(unzip(s.remote(c))) == hash(b)
	os.WriteFile(fn, w, 0644)
	cl, d := Try(s.open)
	s.add(M{"e": "start", "err": cl, "d": cut(d)})
	for l := range s.logs {
		s.read(context.Background(), l+1, l%2 == 0, func() bool { return !good })
	}
	s.e.Close()
	if l := s.local(c); hash(l) == hash(w) {
		os.WriteFile(fn, b, 0644)
	}
	cl, d = Try(s.open)
	s.add(M{"e": "start", "err": cl, "d": cut(d)})
	s.obs()
}

// ---------------------------------------------------------------- process deaths
type snap struct {
	dir string
	st  *store
	at  string
}

func copyTree(from, to string, keep bool) (string, error) {
	h := sha1.New()
	err := filepath.WalkDir(from, func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			return nil
		}
		rel, _ := filepath.Rel(from, p)
		if d.IsDir() {
			if keep {
				return os.MkdirAll(filepath.Join(to, rel), 0755)
			}
			return nil
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return nil
		}
		fmt.Fprintf(h, "%s %d ", rel, len(b))
		h.Write(b)
		if keep {
			return os.WriteFile(filepath.Join(to, rel), b, 0644)
		}
		return nil
	})
	return string(h.Sum(nil)), err
}

var root string
var nsnap int

// withSnaps runs f and takes a copy of the files and of the store whenever a statement of the code has changed them
func (s *sess) withSnaps(f func()) []snap {
	var res []snap
	last, _ := copyTree(s.dir, "", false)
	take := func(at string) {
		h, _ := copyTree(s.dir, "", false)
		rk := h
		ks := make([]string, 0)
		for k, v := range s.st.m {
			ks = append(ks, k+hash(v))
		}
		sort.Strings(ks)
		rk += fmt.Sprint(ks)
		if rk == last {
			return
		}
		last = rk
		nsnap++
		d := filepath.Join(root, fmt.Sprintf("s%d", nsnap))
		copyTree(s.dir, d, true)
		res = append(res, snap{d, s.st.clone(), at})
	}
	vhook.SetTag(&vhook.Tag{Data: take})
	f()
	vhook.SetTag(nil)
	take("end")
	return res
}

func init() {
	vhook.Set(func(id string) {
		if t := vhook.GetTag(); t != nil {
			if f, ok := t.Data.(func(string)); ok {
				f(id)
			}
		}
	})
}

// fork continues on a snapshot: the process has died there
func (s *sess) fork(sn snap, crash M) *sess {
	n := &sess{cfg: s.cfg, dir: sn.dir, st: sn.st, logs: s.logs, serial: s.serial, want: map[string]string{}}
	n.ev = append(append([]any{}, s.ev...), crash)
	c, d := Try(n.open)
	n.add(M{"e": "start", "err": c, "d": cut(d), "at": sn.at})
	if c != "" {
		n.e = nil
	}
	return n
}

func (s *sess) verify(more bool) {
	no := func() bool { return false }
	for l := range s.logs {
		s.read(context.Background(), l+1, false, no)
		s.count(l + 1)
	}
	if more {
		for l := range s.logs {
			s.add(s.doOp(op{Op: "append", Log: l + 1, Lens: []int{20, 1500}}))
			s.read(context.Background(), l+1, true, no)
			s.count(l + 1)
		}
	}
}

func run(b int, bh behaviour, maxSnaps int, rnd *rand.Rand, emit func([]any)) {
	dir, err := os.MkdirTemp(root, "b")
	if err != nil {
		Fatal("%v", err)
	}
	defer os.RemoveAll(dir)
	c := bh.Cfg
	if c.NewSize == 0 {
		c.NewSize = 4096
	}
	if c.MaxGrow == 0 {
		c.MaxGrow = 4096
	}
	s := &sess{dir: dir, st: &store{m: map[string][]byte{}}, want: map[string]string{}, cfg: env.Cfg{NewSize: c.NewSize, MaxChunk: c.MaxChunk,
		MaxGrow: c.MaxGrow, MaxRecs: 1000, MaxBunch: 1 << 20, MaxLocks: 10, MaxOpened: c.MaxOpened, Cached: c.Cached}}
	if err := s.open(); err != nil {
		Fatal("open: %v", err)
	}
	for i := 0; i < c.NLogs; i++ {
		l, err := s.e.Svc.CreateLog(context.Background(), &solaris.Log{Tags: map[string]string{"n": strconv.Itoa(i)}})
		if err != nil {
			Fatal("create: %v", err)
		}
		s.logs = append(s.logs, l.ID)
	}
	s.add(M{"e": "cfg", "n": c.NLogs})
	no := func() bool { return false }
	for _, o := range bh.Ops {
		switch {
		case o.Op == "read":
			ctx, cancel := context.WithCancel(context.Background())
			s.st.plan, s.st.calls, s.st.fired, s.st.cancel = o.Fault, 0, false, cancel
			if o.Fault.K == "pre" {
				cancel()
			}
			undo := func() {}
			if o.Fault.K == "disk" {
				s.st.plan.At = 0
				undo = diskLimit(uint64(o.Fault.At))
			}
			s.read(ctx, o.Log, o.Log%2 == 0, func() bool { return s.st.fired || o.Fault.K == "disk" || ctx.Err() != nil })
			undo()
			cancel()
			s.st.plan = fault{}
		case o.Op == "reopen":
			s.e.Close()
			cl, d := Try(s.open)
			s.add(M{"e": "start", "err": cl, "d": cut(d)})
			if cl != "" {
				emit(s.ev)
				return
			}
			s.read(context.Background(), 1, false, no)
		case o.Op == "hurt":
			s.hurt(o)
		case o.Crash:
			var m M
			before := s.ev
			serial0 := s.serial
			snaps := s.withSnaps(func() { m = s.doOp(o) })
			if m == nil {
				continue
			}
			crash := M{}
			for k, v := range m {
				crash[k] = v
			}
			crash["err"], crash["f"] = "crash", true
			if m["e"] == "append" {
				crash["tail"] = append(append([]any{}, m["ids"].([]any)...), m["tail"].([]any)...)
				crash["ids"] = []any{}
			}
			_ = serial0
			rnd.Shuffle(len(snaps), func(i, j int) { snaps[i], snaps[j] = snaps[j], snaps[i] })
			if len(snaps) == 0 {
				s.add(m)
				s.refresh()
				continue
			}
			s.ev = before
			var next *sess
			for i, sn := range snaps {
				if i >= maxSnaps {
					os.RemoveAll(sn.dir)
					continue
				}
				if next == nil && rnd.Intn(2) == 0 || i == len(snaps)-1 && next == nil {
					// the history goes on here; the same snapshot is verified on a copy
					nsnap++
					d := filepath.Join(root, fmt.Sprintf("s%d", nsnap))
					copyTree(sn.dir, d, true)
					next = s.fork(snap{d, sn.st.clone(), sn.at}, crash)
					if next.e == nil {
						emit(next.ev)
						return
					}
					next.verify(false)
				}
				f := s.fork(sn, crash)
				if f.e != nil {
					f.verify(true)
					f.e.Close()
				}
				emit(f.ev)
				os.RemoveAll(sn.dir)
			}
			s.e.Close()
			if next == nil {
				return
			}
			defer os.RemoveAll(next.dir)
			s = next
			s.refresh()
			for c := range s.st.m {
				// chunks that are only remote
				id := filepath.Base(c)
				if _, ok := s.want[id]; !ok {
					if u := unzip(s.st.m[c]); u != nil {
						s.want[id] = hash(u)
					}
				}
			}
		default:
			m := s.doOp(o)
			if m == nil {
				continue
			}
			s.add(m)
			if o.Op == "append" {
				s.refresh()
				if m["err"] != "" {
					s.read(context.Background(), o.Log, false, no)
				}
			}
			s.obs()
		}
	}
	s.verify(true)
	s.e.Close()
	s.add(M{"e": "end"})
	emit(s.ev)
}

func main() {
	Quiet()
	signal.Ignore(syscall.SIGXFSZ)
	maxSnaps, _ := strconv.Atoi(os.Getenv("SNAPS"))
	var err error
	if root, err = os.MkdirTemp("", "storeh"); err != nil {
		Fatal("%v", err)
	}
	defer os.RemoveAll(root)
	ReadLines(func(n int, raw []byte) {
		var b behaviour
		if err := json.Unmarshal(raw, &b); err != nil {
			Fatal("bad behaviour: %v", err)
		}
		run(n, b, maxSnaps, rand.New(rand.NewSource(Seed()*104729+int64(n))), func(ev []any) { Emit(M{"b": n, "ev": ev}) })
	})
	Flush()
}
