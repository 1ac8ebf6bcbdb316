// maph replays histories of iterable.Map and its iterators (C18).
package main

import (
	"encoding/json"
	"time"

	"github.com/solarisdb/solaris/golibs/container/iterable"
	. "github.com/solarisdb/solaris/verifharness/vlib"
)

type beh struct {
	Ops []struct {
		Op string `json:"op"`
		K  int    `json:"k"`
		J  int    `json:"j"`
	} `json:"ops"`
}

func main() {
	Quiet()
	var evs []M
	var cur M
	Watchdog(20*time.Second, func() {
		cur["err"] = "endless"
		Emit(append(evs, cur))
	})
	ReadLines(func(n int, raw []byte) {
		var b beh
		if err := json.Unmarshal(raw, &b); err != nil {
			Fatal("behaviour: %v", err)
		}
		m := iterable.NewMap[int, int]()
		its := map[int]iterable.Iterator[iterable.MapEntry[int, int]]{}
		evs = nil
		ser := 0
		do := func(op string, k, j int) {
			e := M{"e": op, "k": k, "j": j, "v": 0, "ok": false, "len": 0}
			cur = M{"e": op, "k": k, "j": j, "v": 0, "ok": false, "len": 0}
			Busy(true)
			// the map is not safe for concurrent use, and a broken list may make a call go on for ever
			var d string
			e["err"], d = Try(func() error {
				switch op {
				case "add":
					ser++
					e["v"] = ser
					return m.Add(k, ser)
				case "rem":
					m.Remove(k)
				case "get":
					v, ok := m.Get(k)
					e["v"], e["ok"] = v, ok
				case "first":
					k, ok := m.First()
					e["k"], e["ok"] = k, ok
				case "it":
					its[j] = m.Iterator()
				case "has":
					e["ok"] = its[j].HasNext()
				case "next":
					x, ok := its[j].Next()
					e["k"], e["v"], e["ok"] = x.Key, x.Value, ok
				case "close":
					return its[j].Close()
				case "clear": // the way the caches do it
					it := m.Iterator()
					for it.HasNext() {
						if x, ok := it.Next(); ok {
							m.Remove(x.Key)
						}
					}
					return it.Close()
				}
				return nil
			})
			if e["err"] == "panic" {
				e["detail"] = d
			}
			Busy(false)
			e["len"] = m.Len()
			evs = append(evs, e)
		}
		for _, o := range b.Ops {
			do(o.Op, o.K, o.J)
		}
		// whatever is left must still be walked completely
		do("it", 0, 1)
		for i := 0; i < 10; i++ {
			do("next", 0, 1)
		}
		Emit(evs)
	})
	Flush()
}
