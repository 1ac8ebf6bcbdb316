// cath replays histories of the log catalogue (C07, C08) on the assembled stack.
package main

import (
	"context"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"slices"
	"strconv"
	"strings"
	"time"
	"unicode/utf8"

	"github.com/solarisdb/solaris/api/gen/solaris/v1"
	"github.com/solarisdb/solaris/golibs/ulidutils"
	"github.com/solarisdb/solaris/pkg/storage"
	"github.com/solarisdb/solaris/verifharness/env"
	"github.com/solarisdb/solaris/verifharness/vlib"
)

type kv struct {
	K []int `json:"k"`
	V []int `json:"v"`
}

type tok struct {
	K string          `json:"k"`
	V json.RawMessage `json:"v"`
}

type op struct {
	Op   string `json:"op"`
	L    int    `json:"l"`
	Ls   []int  `json:"ls"`
	Tags []kv   `json:"tags"`
	Toks []tok  `json:"toks"`
	Lim  int64  `json:"lim"`
	W    int    `json:"w"`
	N    int    `json:"n"`
	Mark bool   `json:"mark"`
	Gone bool   `json:"gone"`
}

type beh struct {
	Cfg struct {
		Cached bool `json:"cached"`
	} `json:"cfg"`
	Ops []op `json:"ops"`
}

type walk struct {
	on        bool
	byIDs     bool
	gone      bool
	text      string
	ids       []string
	page      string
	toks, lbl any
}

var ctx = context.Background()

type H struct {
	e     *env.Env
	rnd   *rand.Rand
	ids   []string // by label-1
	lbl   map[string]int
	base  time.Time
	ev    []vlib.M
	walks map[int]*walk
}

func cps(s string) []int {
	res := []int{}
	for _, r := range s {
		res = append(res, int(r))
	}
	return res
}

func str(c []int) string {
	var sb strings.Builder
	for _, x := range c {
		sb.WriteRune(rune(x))
	}
	return sb.String()
}

func (h *H) label(id string) int { return h.lbl[id] }

// pick returns the label for the number in the history
func (h *H) pick(l int) int {
	if l == 0 || len(h.ids) == 0 {
		return 0
	}
	return (l-1)%len(h.ids) + 1
}

func (h *H) id(l int) string {
	if l == 0 {
		return []string{ulidutils.NewID(), "abc", "00000000000000000000000000", "7ZZZZZZZZZZZZZZZZZZZZZZZZZ", "../x"}[h.rnd.Intn(5)]
	}
	return h.ids[l-1]
}

func (h *H) us(t interface{ AsTime() time.Time }) int64 { return t.AsTime().Sub(h.base).Microseconds() }

func tags(t []kv) (map[string]string, []kv) {
	m := map[string]string{}
	for _, p := range t {
		m[str(p.K)] = str(p.V)
	}
	return m, tagList(m)
}

func tagList(m map[string]string) []kv {
	res := []kv{}
	for k, v := range m {
		res = append(res, kv{cps(k), cps(v)})
	}
	slices.SortFunc(res, func(a, b kv) int { return slices.Compare(a.K, b.K) })
	return res
}

func (h *H) log(m vlib.M, l *solaris.Log) vlib.M {
	m["rl"], m["tags"], m["ct"], m["ut"] = 0, []kv{}, 0, 0
	if l != nil {
		m["rl"], m["tags"] = h.label(l.ID), tagList(l.Tags)
		if l.CreatedAt != nil && l.UpdatedAt != nil {
			m["ct"], m["ut"] = h.us(l.CreatedAt), h.us(l.UpdatedAt)
		}
	}
	return m
}

func (h *H) subst(c []int) []int {
	res := []int{}
	for _, x := range c {
		switch {
		case x <= -1000:
			if l := h.pick(-x - 1000); l > 0 {
				res = append(res, cps(h.ids[l-1][:24])...)
			}
		case x < 0:
			if l := h.pick(-x); l > 0 {
				res = append(res, cps(h.ids[l-1])...)
			}
		default:
			res = append(res, x)
		}
	}
	return res
}

func quote(r *rand.Rand, s string) string {
	q := '"'
	if r.Intn(2) == 0 {
		q = '\''
	}
	if strings.ContainsRune(s, q) && !strings.ContainsRune(s, '"'+'\''-q) && r.Intn(2) == 0 {
		q = '"' + '\'' - q
	}
	var sb strings.Builder
	sb.WriteRune(q)
	for _, c := range s {
		switch {
		case c == '\\':
			sb.WriteString(`\\`)
		case c == q:
			sb.WriteString(fmt.Sprintf(`\x%02x`, c))
		default:
			sb.WriteRune(c)
		}
	}
	sb.WriteRune(q)
	return sb.String()
}

// render makes the text of the tokens and returns the tokens with log IDs in place
func (h *H) render(ts []tok) (string, []vlib.M) {
	var sb strings.Builder
	out := []vlib.M{}
	prev := byte(0)
	for _, t := range ts {
		var s string
		kind := t.K[0]
		if t.K == "str" {
			var c []int
			if err := json.Unmarshal(t.V, &c); err != nil {
				vlib.Fatal("token %v", err)
			}
			c = h.subst(c)
			s = quote(h.rnd, str(c))
			out = append(out, vlib.M{"k": t.K, "v": c})
		} else {
			if err := json.Unmarshal(t.V, &s); err != nil {
				vlib.Fatal("token %v", err)
			}
			out = append(out, vlib.M{"k": t.K, "v": s})
			if t.K == "kw" {
				switch h.rnd.Intn(4) {
				case 0:
					s = strings.ToLower(s)
				case 1:
					s = s[:1] + strings.ToLower(s[1:])
				}
				kind = 'i'
			}
			if t.K == "num" {
				kind = 'i'
			}
		}
		need := prev == 'i' && kind == 'i' || prev == 'o' && kind == 'o' && h.lastOp(sb.String(), s) || prev == 'j' || kind == 'j'
		if sb.Len() > 0 && (need || h.rnd.Intn(3) > 0) {
			sb.WriteString([]string{" ", "  ", "\t", "\n"}[max(0, h.rnd.Intn(8)-4)])
		}
		sb.WriteString(s)
		prev = kind
	}
	txt := sb.String()
	if h.rnd.Intn(5) == 0 {
		txt = " " + txt
	}
	return txt, out
}

// lastOp: whether two operators would be read as one if written together
func (h *H) lastOp(txt, next string) bool {
	return txt != "" && strings.ContainsRune("<>!=", rune(txt[len(txt)-1])) && strings.ContainsRune("<>!=", rune(next[0]))
}

func (h *H) open() string {
	c, d := vlib.Try(func() error { return h.e.Open() })
	if c != "" {
		fmt.Fprintln(os.Stderr, "open:", d)
	}
	return c
}

func (h *H) add(m vlib.M) { h.ev = append(h.ev, m) }

func (h *H) labels(ids []string) []int {
	res := []int{}
	for _, id := range ids {
		res = append(res, h.label(id))
	}
	return res
}

func (h *H) pageWalk(w int, wk *walk, start bool, lim int64) {
	m := vlib.M{"e": "page", "w": w, "start": start, "byids": wk.byIDs, "gone": wk.gone, "toks": wk.toks, "ls": wk.lbl, "lim": lim, "text": wk.text}
	if lim > 2000000 {
		lim = 2000000
	}
	var r *solaris.QueryLogsResult
	c, d := vlib.Try(func() (err error) {
		if wk.byIDs || wk.gone {
			r, err = h.e.Meta.QueryLogs(ctx, storage.QueryLogsRequest{IDs: wk.ids, Condition: wk.text, Deleted: wk.gone, Page: wk.page, Limit: lim})
		} else {
			r, err = h.e.API.QueryLogs(ctx, &solaris.QueryLogsRequest{Condition: wk.text, PageID: wk.page, Limit: lim})
		}
		return
	})
	logs := []vlib.M{}
	m["next"], m["total"] = false, 0
	if c == "" && r != nil {
		for _, l := range r.Logs {
			logs = append(logs, h.log(vlib.M{}, l))
		}
		m["next"], m["total"] = r.NextPageID != "", r.Total
		wk.page = r.NextPageID
	}
	wk.on = c == "" && wk.page != ""
	m["logs"], m["err"] = logs, c
	if c == "panic" {
		m["detail"] = d
	}
	h.add(m)
}

func (h *H) read(m vlib.M, q *solaris.QueryRecordsRequest) {
	var r *solaris.QueryRecordsResult
	c, d := vlib.Try(func() (err error) {
		r, err = h.e.API.QueryRecords(ctx, q)
		return
	})
	cnt := make([]int, len(h.ids)+1)
	if c == "" {
		for _, x := range r.Records {
			l := h.label(x.LogID)
			if string(x.Payload) != strconv.Itoa(l) {
				l = 0
			}
			cnt[l]++
		}
	}
	m["cnt"], m["foreign"], m["err"] = cnt[1:], cnt[0], c
	if c == "panic" {
		m["detail"] = d
	}
	h.add(m)
}

func (h *H) create(t []kv) {
	mp, req := tags(t)
	var l *solaris.Log
	c, _ := vlib.Try(func() (err error) {
		l, err = h.e.API.CreateLog(ctx, &solaris.Log{Tags: mp})
		return
	})
	m := vlib.M{"e": "create", "l": len(h.ids) + 1, "req": req, "err": c, "id": []int{}, "fresh": false}
	if c == "" {
		m["fresh"] = h.lbl[l.ID] == 0 && l.ID != ""
		h.ids = append(h.ids, l.ID)
		h.lbl[l.ID] = len(h.ids)
		m["id"] = cps(l.ID)
	}
	h.add(h.log(m, l))
}

func (h *H) do(o op) {
	switch o.Op {
	case "create":
		h.create(o.Tags)
	case "bulk":
		for i := 0; i < o.N; i++ {
			h.create(o.Tags)
		}
	case "update":
		l := h.pick(o.L)
		mp, req := tags(o.Tags)
		var r *solaris.Log
		c, _ := vlib.Try(func() (err error) {
			r, err = h.e.API.UpdateLog(ctx, &solaris.Log{ID: h.id(l), Tags: mp})
			return
		})
		h.add(h.log(vlib.M{"e": "update", "l": l, "req": req, "err": c}, r))
	case "get":
		l := h.pick(o.L)
		var r *solaris.Log
		c, _ := vlib.Try(func() (err error) {
			r, err = h.e.Meta.GetLogByID(ctx, h.id(l))
			return
		})
		h.add(h.log(vlib.M{"e": "get", "l": l, "err": c}, r))
	case "list":
		txt, out := h.render(o.Toks)
		wk := &walk{text: txt, toks: out, lbl: []int{}}
		h.walks[o.W] = wk
		h.pageWalk(o.W, wk, true, o.Lim)
	case "slist":
		wk := &walk{byIDs: true, gone: o.Gone, toks: []int{}}
		ls := []int{}
		for _, l := range o.Ls {
			l = h.pick(l)
			ls = append(ls, l)
			wk.ids = append(wk.ids, h.id(l))
		}
		wk.lbl = ls
		h.walks[o.W] = wk
		h.pageWalk(o.W, wk, true, o.Lim)
	case "page":
		if wk := h.walks[o.W]; wk != nil && wk.on {
			h.pageWalk(o.W, wk, false, o.Lim)
		}
	case "del", "sdelc":
		txt, out := h.render(o.Toks)
		var r *solaris.DeleteLogsResult
		c, d := vlib.Try(func() (err error) {
			if o.Op == "del" {
				o.Mark = true
				r, err = h.e.API.DeleteLogs(ctx, &solaris.DeleteLogsRequest{Condition: txt})
			} else {
				r, err = h.e.Meta.DeleteLogs(ctx, storage.DeleteLogsRequest{Condition: txt, MarkOnly: o.Mark})
			}
			return
		})
		m := vlib.M{"e": "del", "toks": out, "text": txt, "mark": o.Mark, "ids": []int{}, "err": c, "blank": txt == ""}
		if c == "" {
			m["ids"] = h.labels(r.DeletedIDs)
		}
		if c == "panic" {
			m["detail"] = d
		}
		h.add(m)
	case "sdel":
		ls, ids := []int{}, []string{}
		for _, l := range o.Ls {
			l = h.pick(l)
			ls = append(ls, l)
			ids = append(ids, h.id(l))
		}
		var r *solaris.DeleteLogsResult
		c, _ := vlib.Try(func() (err error) {
			r, err = h.e.Meta.DeleteLogs(ctx, storage.DeleteLogsRequest{IDs: ids, MarkOnly: o.Mark})
			return
		})
		m := vlib.M{"e": "sdel", "ls": ls, "mark": o.Mark, "ids": []int{}, "err": c}
		if c == "" {
			m["ids"] = h.labels(r.DeletedIDs)
		}
		h.add(m)
	case "app":
		l := h.pick(o.L)
		var r *solaris.AppendRecordsResult
		c, _ := vlib.Try(func() (err error) {
			r, err = h.e.API.AppendRecords(ctx, &solaris.AppendRecordsRequest{LogID: h.id(l), Records: []*solaris.Record{{Payload: []byte(strconv.Itoa(l))}}})
			return
		})
		m := vlib.M{"e": "app", "l": l, "err": c, "added": 0}
		if c == "" {
			m["added"] = r.Added
		}
		h.add(m)
	case "read":
		txt, out := h.render(o.Toks)
		h.read(vlib.M{"e": "read", "toks": out, "text": txt}, &solaris.QueryRecordsRequest{LogsCondition: txt, Limit: 1000, Descending: h.rnd.Intn(2) == 0})
	case "readid":
		ls, ids := []int{}, []string{}
		for _, l := range o.Ls {
			l = h.pick(l)
			ls = append(ls, l)
			ids = append(ids, h.id(l))
		}
		h.read(vlib.M{"e": "readid", "ls": ls}, &solaris.QueryRecordsRequest{LogIDs: ids, Limit: 1000})
	case "deep":
		txt, out := h.render(o.Toks)
		txt = strings.Repeat("(", o.N) + txt + strings.Repeat(")", o.N)
		var r *solaris.QueryLogsResult
		c, d := vlib.Try(func() (err error) {
			r, err = h.e.API.QueryLogs(ctx, &solaris.QueryLogsRequest{Condition: txt, Limit: 1000})
			return
		})
		m := vlib.M{"e": "deep", "toks": out, "n": min(o.N, 1000), "ids": []int{}, "err": c}
		if c == "" {
			ids := []string{}
			for _, l := range r.Logs {
				ids = append(ids, l.ID)
			}
			m["ids"] = h.labels(ids)
		}
		if c == "panic" {
			m["detail"] = d
		}
		h.add(m)
	case "text":
		chars := []rune("tag(\"a\")='b'<>!=[],logIDANDORNOTINLIKE \t0.1e-+\\\x00\u00e9\u20ac_%;/*x")
		b := []rune{}
		for i := 0; i < o.N; i++ {
			b = append(b, chars[h.rnd.Intn(len(chars))])
		}
		txt := string(b)
		if h.rnd.Intn(4) == 0 {
			bs := []byte(txt)
			bs[h.rnd.Intn(len(bs))] = byte(h.rnd.Intn(256))
			txt = string(bs)
		}
		c, d := vlib.Try(func() error {
			_, err := h.e.API.QueryLogs(ctx, &solaris.QueryLogsRequest{Condition: txt})
			return err
		})
		m := vlib.M{"e": "text", "err": c, "utf8": utf8.ValidString(txt), "text": fmt.Sprintf("%q", txt)}
		if c == "panic" {
			m["detail"] = d
		}
		h.add(m)
	case "odd":
		l := h.pick(o.L)
		mp, _ := tags(o.Tags)
		txt, _ := h.render(o.Toks)
		m := vlib.M{"e": "odd", "status": 0, "text": ""}
		if c, d := vlib.Try(func() error { m["text"], m["status"] = h.e.Odd(o.N, h.id(l), mp, txt); return nil }); c != "" {
			m["text"] = c + ": " + d
		}
		h.add(m)
	case "reopen":
		c, _ := vlib.Try(func() error { h.e.Close(); return nil })
		if c == "" {
			c = h.open()
		}
		h.add(vlib.M{"e": "reopen", "err": c})
	default:
		vlib.Fatal("unknown operation %q", o.Op)
	}
}

func main() {
	vlib.Quiet()
	vlib.ReadLines(func(n int, raw []byte) {
		var b beh
		if err := json.Unmarshal(raw, &b); err != nil {
			vlib.Fatal("behaviour: %v", err)
		}
		dir := filepath.Join(os.TempDir(), fmt.Sprintf("cat-%d", n))
		h := &H{rnd: rand.New(rand.NewSource(vlib.Seed()*1000003 + int64(n))), lbl: map[string]int{}, base: time.Now().Add(-time.Second), walks: map[int]*walk{}}
		h.e = env.New(dir, env.Cfg{NewSize: 4096, MaxChunk: 8192, MaxGrow: 4096, MaxRecs: 1000, MaxBunch: 1 << 20, MaxLocks: 100, MaxOpened: 30, Cached: b.Cfg.Cached})
		if c := h.open(); c != "" {
			vlib.Fatal("cannot open the stack: %s", c)
		}
		for _, o := range b.Ops {
			h.do(o)
		}
		h.add(vlib.M{"e": "end"})
		if c, d := vlib.Try(func() error { h.e.Close(); return nil }); c != "" {
			vlib.Fatal("close: %s", d)
		}
		os.RemoveAll(dir)
		vlib.Emit(h.ev)
	})
	vlib.Flush()
}
