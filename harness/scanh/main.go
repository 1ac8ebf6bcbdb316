// scanh replays histories generated from the specification (GenScan.tla) on the real Scanner, Replicator, ChunkAccessor and
// Provider over a scratch directory, with a virtual clock and an object store with planned faults. The traces are for
// TraceScan.tla.
package main

import (
	"archive/zip"
	"bytes"
	"context"
	"crypto/sha1"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/oklog/ulid/v2"
	"github.com/solarisdb/solaris/api/gen/solaris/v1"
	"github.com/solarisdb/solaris/golibs/container/lru"
	gerrors "github.com/solarisdb/solaris/golibs/errors"
	"github.com/solarisdb/solaris/pkg/storage/chunkfs"
	"github.com/solarisdb/solaris/verifharness/vhook"
	. "github.com/solarisdb/solaris/verifharness/vlib"
	"github.com/solarisdb/solaris/verifharness/vtime"
)

type fault struct {
	At int    `json:"at"`
	K  string `json:"k"`
	C  int    `json:"c"`
}

type op struct {
	Op     string  `json:"op"`
	C      int     `json:"c"`
	N      int     `json:"n"`
	Faults []fault `json:"faults"`
}

type behaviour struct {
	Cfg struct {
		N       int `json:"n"`
		Dirs    int `json:"dirs"`
		Max     int `json:"max"`
		Min     int `json:"min"`
		Thr     int `json:"thr"`
		Workers int `json:"workers"`
	} `json:"cfg"`
	Ops []op `json:"ops"`
}

const page = 4096
const period = 60 * time.Second

var errStore = errors.New("the object store failed")

// store is the remote object store
type store struct {
	s  *sess
	mu sync.Mutex
	m  map[string][]byte
}

func (st *store) clone(s *sess) *store {
	st.mu.Lock()
	defer st.mu.Unlock()
	n := &store{s: s, m: map[string][]byte{}}
	for k, v := range st.m {
		n.m[k] = v
	}
	return n
}

func (st *store) Get(ctx context.Context, key string) (io.ReadCloser, error) {
	st.mu.Lock()
	defer st.mu.Unlock()
	b, ok := st.m[key]
	if !ok {
		return nil, gerrors.ErrNotExist
	}
	return io.NopCloser(bytes.NewReader(b)), nil
}

func (st *store) Put(ctx context.Context, key string, r io.Reader) error {
	s := st.s
	s.mu.Lock()
	s.puts++
	n, c := s.puts, s.num(filepath.Base(key))
	k, h := "", 0
	for _, f := range s.faults {
		if f.At == n || (f.K == "outage" && n >= f.At) {
			k, h = f.K, f.C
		}
	}
	late := s.cancelled
	if late {
		s.late++
		if s.late > 20 { // enough to see that it does not stop
			k = "cancelfail"
		}
	}
	t := vtime.Elapsed()
	gone := []int{}
	for _, f := range s.scanned {
		if _, err := os.Stat(s.fn(f)); err != nil {
			gone = append(gone, f)
		}
	}
	s.mu.Unlock()
	b, err := io.ReadAll(r)
	if err != nil {
		return err
	}
	s.cb.Lock()
	defer s.cb.Unlock()
	res := ""
	switch k {
	case "slow", "outage":
		vtime.Advance(vtime.Elapsed() + period + time.Second)
	case "cancelok", "cancelfail":
		s.stopNow()
	case "hold":
		if h != c && h != 0 && h%s.b.Cfg.Dirs == c%s.b.Cfg.Dirs {
			s.hold(h, true)
		}
	}
	if k == "outage" && n >= s.outN+2 {
		s.stopNow()
	}
	switch k {
	case "fail", "outage":
		res = "fail"
	case "late":
		res = "fail"
		fallthrough
	default:
		if k == "cancelfail" {
			res = "fail"
			break
		}
		st.mu.Lock()
		st.m[key] = b
		st.mu.Unlock()
	}
	s.add(M{"e": "put", "c": c, "t": ms(t), "late": late, "ok": res == "", "gone": gone, "k": k})
	if k == "cancelfail" {
		return ctx.Err()
	}
	if res != "" {
		return errStore
	}
	return nil
}

func (st *store) List(context.Context, string) ([]string, error) { return nil, nil }
func (st *store) Delete(ctx context.Context, key string) error {
	st.s.add(M{"e": "del", "c": st.s.num(filepath.Base(key))})
	st.mu.Lock()
	defer st.mu.Unlock()
	delete(st.m, key)
	return nil
}

func ms(d time.Duration) int { return int(d / time.Millisecond) }

type held struct {
	p *chunkfs.Provider
	r lru.Releasable[*chunkfs.Chunk]
}

type sess struct {
	mu        sync.Mutex
	cb        sync.Mutex // one caller of the store at a time
	dir       string
	b         behaviour
	st        *store
	ca        *chunkfs.ChunkAccessor
	repl      *chunkfs.Replicator
	cancel    func()
	cancelled bool
	hold_     map[int]*held
	recs      map[int][]string // what was written to a chunk
	sums      map[int]string
	ev        []any
	puts      int
	outN      int
	late      int
	faults    []fault
	scanned   []int
	serial    int
	stmts     int64 // statements of the last scan
	hung      bool
}

func (s *sess) add(m M) {
	s.mu.Lock()
	s.ev = append(s.ev, m)
	s.mu.Unlock()
}

func id(c int) string { return fmt.Sprintf("01HQZ5G7M8N9P0Q1R2S3T4%dX", c)[:23] }

// chunk c lives in the folder number c % dirs
func (s *sess) id(c int) string {
	return id(c) + "0" + []string{"AA", "BB"}[c%s.b.Cfg.Dirs]
}

func (s *sess) num(cid string) int {
	for c := 1; c <= s.b.Cfg.N; c++ {
		if s.id(c) == cid {
			return c
		}
	}
	return 0
}

func (s *sess) data() string { return filepath.Join(s.dir, "data") }
func (s *sess) fnID(cid string) string {
	return filepath.Join(s.data(), cid[len(cid)-2:], cid)
}
func (s *sess) fn(c int) string { return s.fnID(s.id(c)) }

func (s *sess) provider() *chunkfs.Provider {
	p := chunkfs.NewProvider(s.data(), 4, chunkfs.Config{NewSize: page, MaxChunkSize: 5 * page, MaxGrowIncreaseSize: page})
	p.CA, p.Replicator = s.ca, s.repl
	return p
}

func exists(fn string) bool {
	_, err := os.Stat(fn)
	return err == nil
}

// with calls f with the opened chunk
func (s *sess) with(c int, newFile bool, f func(ch *chunkfs.Chunk) error) error {
	if h := s.hold_[c]; h != nil {
		return f(h.r.Value())
	}
	had := exists(s.fn(c))
	t := vtime.Now()
	p := s.provider()
	defer p.Close()
	vtime.Advance(vtime.Elapsed() + time.Second)
	r, err := p.GetOpenedChunk(context.Background(), s.id(c), newFile)
	if err != nil {
		return err
	}
	defer p.ReleaseChunk(&r)
	if !had { // it was downloaded before now
		os.Chtimes(s.fn(c), t, t)
	}
	return f(r.Value())
}

// hold keeps a chunk opened
func (s *sess) hold(c int, local bool) {
	if s.hold_[c] != nil || len(s.recs[c]) == 0 {
		return
	}
	had := exists(s.fn(c))
	if local && !had {
		return
	}
	t := vtime.Now()
	p := s.provider()
	if !local {
		vtime.Advance(vtime.Elapsed() + time.Second)
	}
	var r lru.Releasable[*chunkfs.Chunk]
	ctx, cancel := context.WithTimeout(context.Background(), 3*time.Second)
	defer cancel()
	cl, d := Try(func() (err error) { r, err = p.GetOpenedChunk(ctx, s.id(c), false); return })
	if cl == "" {
		if !had {
			os.Chtimes(s.fn(c), t, t)
		}
		s.hold_[c] = &held{p, r}
	} else {
		p.Close()
	}
	s.add(M{"e": "hold", "c": c, "err": cl, "scan": local, "had": had, "d": cut(d)})
}

func cut(d string) string {
	if len(d) > 300 {
		d = d[:300]
	}
	return d
}

func (s *sess) release(c int) {
	if h := s.hold_[c]; h != nil {
		delete(s.hold_, c)
		h.p.ReleaseChunk(&h.r)
		h.p.Close()
		s.add(M{"e": "rel", "c": c})
	}
}

func (s *sess) append(c, n int) {
	first := len(s.recs[c]) == 0
	had := exists(s.fn(c))
	var w []string
	cl, d := Try(func() error {
		return s.with(c, first, func(ch *chunkfs.Chunk) error {
			if err := s.ca.SetWriting(context.Background(), s.id(c)); err != nil {
				return err
			}
			defer s.ca.SetIdle(s.id(c))
			var recs []*solaris.Record
			for i := 0; i < 1+n%3; i++ {
				s.serial++
				recs = append(recs, &solaris.Record{Payload: []byte(strings.Repeat(fmt.Sprintf("%d.%d,", c, s.serial), 40+n*10))})
			}
			r, err := ch.AppendRecords(recs)
			for _, x := range recs[:r.Written] {
				w = append(w, string(x.Payload))
			}
			return err
		})
	})
	if len(w) > 0 {
		s.recs[c] = append(s.recs[c], w...)
		t := vtime.Now()
		os.Chtimes(s.fn(c), t, t)
	}
	s.add(M{"e": "app", "c": c, "err": cl, "w": len(w), "had": had || first, "d": cut(d)})
}

func (s *sess) read(c int) {
	if len(s.recs[c]) == 0 {
		return
	}
	had := exists(s.fn(c))
	var got []string
	cl, d := Try(func() error {
		return s.with(c, false, func(ch *chunkfs.Chunk) error {
			cr, err := ch.OpenChunkReader(false)
			if err != nil {
				return err
			}
			defer cr.Close()
			for cr.HasNext() {
				r, ok := cr.Next()
				if !ok {
					break
				}
				got = append(got, string(r.UnsafePayload))
			}
			return nil
		})
	})
	same := len(got) == len(s.recs[c])
	for i := range got {
		same = same && got[i] == s.recs[c][i]
	}
	s.add(M{"e": "read", "c": c, "err": cl, "same": same, "had": had, "d": cut(d)})
}

func sum(b []byte) string {
	h := sha1.New()
	h.Write(b[:min(len(b), 12)])
	h.Write(b[min(len(b), 28):])
	return fmt.Sprintf("%d %x", len(b), h.Sum(nil))
}

func (s *sess) remote(c int) string {
	cid := s.id(c)
	s.st.mu.Lock()
	b := s.st.m["/"+cid[len(cid)-2:]+"/"+cid]
	s.st.mu.Unlock()
	zr, err := zip.NewReader(bytes.NewReader(b), int64(len(b)))
	if err != nil || len(zr.File) == 0 {
		return "none"
	}
	r, err := zr.File[0].Open()
	if err != nil {
		return "none"
	}
	defer r.Close()
	d, err := io.ReadAll(r)
	if err != nil {
		return "none"
	}
	return sum(d)
}

// quiet tells whether the scanner waits; gone: it is over
func quiet() (quiet, gone bool) {
	buf := make([]byte, 1<<20)
	buf = buf[:runtime.Stack(buf, true)]
	gone, quiet = true, true
	for i, g := range strings.Split(string(buf), "\n\n") {
		if i == 0 || !strings.Contains(g, "storage/chunkfs.") {
			continue
		}
		gone = false
		head := g[:strings.IndexByte(g, '\n')]
		if !strings.Contains(head, "[select") && !strings.Contains(head, "[chan receive") {
			quiet = false
		}
	}
	return quiet, gone
}

// settle waits until the scanner sleeps or is over (it must be over if it was stopped). False: it did not happen
func (s *sess) settle() bool { ok, _ := s.settled(); return ok }

func (s *sess) settled() (ok, over bool) {
	end := time.Now().Add(10 * time.Second)
	for n := 0; time.Now().Before(end); {
		q, gone := quiet()
		s.mu.Lock()
		stop := s.cancelled
		s.mu.Unlock()
		_, timer := vtime.Next()
		if gone || (q && !stop && timer) {
			if n++; n >= 2 {
				return true, gone
			}
			runtime.Gosched()
			continue
		}
		n = 0
		time.Sleep(100 * time.Microsecond)
	}
	return false, false
}

func (s *sess) stopNow() {
	s.mu.Lock()
	s.cancelled = true
	s.mu.Unlock()
	s.cancel()
}

// scan records what there is before and after a scan that is started by f
func (s *sess) scan(faults []fault, f func()) {
	s.mu.Lock()
	s.puts, s.late, s.faults, s.scanned, s.outN = 0, 0, faults, nil, 0
	for _, x := range faults {
		if x.K == "outage" {
			s.outN = x.At
		}
	}
	s.mu.Unlock()
	fl := []M{}
	for c := 1; c <= s.b.Cfg.N; c++ {
		fi, err := os.Stat(s.fn(c))
		if err != nil {
			continue
		}
		b, _ := os.ReadFile(s.fn(c))
		s.sums[c] = sum(b)
		s.scanned = append(s.scanned, c)
		fl = append(fl, M{"c": c, "dir": c % s.b.Cfg.Dirs, "size": int(fi.Size() / page), "mt": ms(fi.ModTime().Sub(vtime.At(0))), "held": s.hold_[c] != nil})
	}
	t := vtime.Elapsed()
	if n, ok := vtime.Next(); ok && n > t {
		t = n
	}
	s.add(M{"e": "scan", "t": ms(t), "files": fl})
	s.stmts = 0
	f()
	ok, over := s.settled()
	s.mu.Lock()
	late, stop := s.late, s.cancelled
	s.faults = nil
	s.mu.Unlock()
	present, rem := []int{}, []int{}
	for _, x := range fl {
		c := x["c"].(int)
		if exists(s.fn(c)) {
			present = append(present, c)
		}
		if s.remote(c) == s.sums[c] {
			rem = append(rem, c)
		}
	}
	sort.Ints(present)
	s.add(M{"e": "end", "present": present, "rem": rem, "ended": ok, "late": late, "stop": stop, "dead": over && !stop})
	if !ok || over && !stop {
		s.hung = true
	}
}

func (s *sess) start(faults []fault) {
	s.ca = chunkfs.NewChunkAccessor()
	s.repl = chunkfs.NewReplicator(s.fnID)
	s.repl.CA, s.repl.Storage = s.ca, s.st
	sc := chunkfs.NewScanner(s.repl, chunkfs.ScannerConfig{DataPath: s.data(), SweepMaxThresholdSize: int64(s.b.Cfg.Max) * page,
		SweepMinThresholdSize: int64(s.b.Cfg.Min) * page, RemoteSyncThreshold: time.Duration(s.b.Cfg.Thr) * time.Second,
		SyncWorkers: s.b.Cfg.Workers, GlobalSyncTimeout: period})
	var ctx context.Context
	ctx, s.cancel = context.WithCancel(context.Background())
	s.mu.Lock()
	s.cancelled = false
	s.mu.Unlock()
	s.scan(faults, func() { sc.Init(ctx) })
	s.restartIfStopped()
}

func (s *sess) restartIfStopped() {
	if s.cancelled && !s.hung {
		s.restart(nil)
	}
}

// restart: a clean stop and a start
func (s *sess) restart(faults []fault) {
	s.stopNow()
	if !s.settle() {
		s.hung = true
		s.add(M{"e": "stop", "ended": false})
		return
	}
	vtime.Clear()
	s.add(M{"e": "stop", "ended": true})
	for c := 1; c <= s.b.Cfg.N; c++ {
		s.release(c)
	}
	s.ca.Shutdown()
	s.start(faults)
}

// advance moves the clock, the scans on the way take place
func (s *sess) advance(d time.Duration, faults []fault) {
	to := vtime.Elapsed() + d
	for !s.hung {
		n, ok := vtime.Next()
		if !ok || n > to {
			break
		}
		s.scan(faults, func() { vtime.Advance(n) })
		faults = nil
		s.restartIfStopped()
	}
	if !s.hung {
		vtime.Advance(to)
	}
}

// tick lets some time pass, so that no scan becomes due in the next two seconds (an operation takes one)
func (s *sess) tick() {
	s.advance(3*time.Second, nil)
	if n, ok := vtime.Next(); ok && !s.hung && n <= vtime.Elapsed()+2*time.Second {
		s.advance(2*time.Second, nil)
	}
}

func (s *sess) nextScan(faults []fault) {
	if n, ok := vtime.Next(); ok {
		s.advance(max(0, n-vtime.Elapsed()), faults)
	}
}

func copyTree(from, to string) {
	filepath.WalkDir(from, func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			return nil
		}
		rel, _ := filepath.Rel(from, p)
		q := filepath.Join(to, rel)
		if d.IsDir() {
			return os.MkdirAll(q, 0755)
		}
		fi, err := d.Info()
		if err != nil {
			return nil
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return nil
		}
		os.WriteFile(q, b, 0644)
		return os.Chtimes(q, fi.ModTime(), fi.ModTime())
	})
}

var hookN, hookAt atomic.Int64
var hookF atomic.Pointer[func()]

func init() {
	vhook.Set(func(string) {
		if n := hookN.Add(1); n == hookAt.Load() {
			if f := hookF.Load(); f != nil {
				(*f)()
			}
		}
	})
}

// crash: the process dies within the next scan (x per mille of the way), or before it
func (s *sess) crash(x int, faults []fault) {
	dir := filepath.Join(root, fmt.Sprint("d", nextDir.Add(1)))
	n := &sess{dir: dir, b: s.b, hold_: map[int]*held{}, recs: map[int][]string{}, sums: map[int]string{}, serial: s.serial}
	took := false
	take := func() {
		if took {
			return
		}
		took = true
		copyTree(s.dir, dir)
		n.st = s.st.clone(n)
	}
	keep := len(s.ev)
	hookF.Store(&take)
	hookN.Store(0)
	hookAt.Store(1 + int64(x)*max(s.stmts, 40)/1000)
	if due, ok := vtime.Next(); ok {
		s.scan(faults, func() { vtime.Advance(due) })
	}
	hookAt.Store(0)
	take()
	hung := s.hung
	bad := s.ev[keep:]
	s.stopNow()
	hung = !s.settle() || hung
	vtime.Clear()
	for c := range s.hold_ {
		s.release(c)
	}
	s.ca.Shutdown()
	s.st.s = &sess{b: s.b}
	for c, r := range s.recs {
		n.recs[c] = append([]string{}, r...)
	}
	if hung { // report what was seen
		s.hung = true
		s.ev = append(s.ev[:keep:keep], bad...)
		return
	}
	n.ev = append(s.ev[:keep:keep], M{"e": "crash"})
	os.RemoveAll(s.dir)
	s.dir, s.st, s.hold_, s.ev, s.sums = n.dir, n.st, n.hold_, n.ev, n.sums
	s.st.s = s
	s.start(nil)
}

// garble damages the notes of the scanner, as a process that died while it wrote them
func (s *sess) garble(x int) {
	filepath.WalkDir(s.data(), func(p string, d fs.DirEntry, err error) error {
		if err == nil && !d.IsDir() && (strings.HasSuffix(p, ".json") || strings.HasSuffix(p, ".info")) {
			b, _ := os.ReadFile(p)
			fi, _ := os.Stat(p)
			switch x % 3 {
			case 0:
				b = nil
			case 1:
				b = b[:len(b)*2/3]
			case 2:
				b = []byte("\x00\x00\x00\x00")
			}
			os.WriteFile(p, b, 0644)
			os.Chtimes(p, fi.ModTime(), fi.ModTime())
		}
		return nil
	})
	s.add(M{"e": "garble"})
}

var root string
var nextDir atomic.Int64

func run(b behaviour) []any {
	// the clock of the host is behind the virtual one
	vtime.Clear()
	vtime.Set(time.Now().Add(time.Hour).Truncate(time.Second))
	s := &sess{dir: filepath.Join(root, fmt.Sprint("d", nextDir.Add(1))), b: b, hold_: map[int]*held{}, recs: map[int][]string{}, sums: map[int]string{}}
	s.st = &store{s: s, m: map[string][]byte{}}
	os.MkdirAll(s.data(), 0755)
	for d := 0; d < b.Cfg.Dirs; d++ {
		os.MkdirAll(filepath.Join(s.data(), []string{"AA", "BB"}[d]), 0755)
	}
	s.add(M{"e": "cfg", "max": b.Cfg.Max, "min": b.Cfg.Min, "thr": b.Cfg.Thr * 1000, "workers": b.Cfg.Workers})
	s.start(nil)
	for _, o := range b.Ops {
		if s.hung {
			break
		}
		c := 1 + (o.C-1)%b.Cfg.N
		for i := range o.Faults {
			o.Faults[i].C = 1 + (o.Faults[i].C+b.Cfg.N-1)%b.Cfg.N
		}
		if o.Op != "scan" && o.Op != "crash" {
			s.tick()
		}
		if s.hung {
			break
		}
		switch o.Op {
		case "app":
			s.append(c, o.N)
		case "read":
			s.read(c)
		case "hold":
			s.hold(c, false)
		case "rel":
			s.release(c)
		case "adv":
			s.advance(time.Duration(o.N)*time.Second, o.Faults)
		case "scan":
			s.nextScan(o.Faults)
		case "restart":
			s.restart(o.Faults)
		case "crash":
			s.crash(o.N, o.Faults)
		case "garble":
			s.garble(o.N)
		}
	}
	for c := 1; c <= b.Cfg.N && !s.hung; c++ {
		s.release(c)
	}
	if !s.hung {
		s.advance(time.Duration(b.Cfg.Thr)*time.Second, nil)
	}
	if !s.hung {
		s.nextScan(nil)
	}
	for c := 1; c <= b.Cfg.N && !s.hung; c++ {
		if s.tick(); !s.hung {
			s.read(c)
		}
	}
	if s.hung {
		Emit(s.ev)
		Flush()
		os.Exit(0)
	}
	s.stopNow()
	s.add(M{"e": "stop", "ended": s.settle()})
	s.ca.Shutdown()
	os.RemoveAll(s.dir)
	return s.ev
}

func main() {
	Quiet()
	var err error
	if root, err = os.MkdirTemp("", "scanh"); err != nil {
		Fatal("%v", err)
	}
	defer os.RemoveAll(root)
	if len(id(1)) != 23 || ulid.EncodedSize != 26 {
		Fatal("bad ids")
	}
	ReadLines(func(n int, raw []byte) {
		var b behaviour
		if err := json.Unmarshal(raw, &b); err != nil {
			Fatal("bad behaviour: %v", err)
		}
		Emit(run(b))
	})
	Flush()
}
