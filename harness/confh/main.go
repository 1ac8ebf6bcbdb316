// confh builds configurations of the server (C25).
package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/solarisdb/solaris/pkg/server"
	. "github.com/solarisdb/solaris/verifharness/vlib"
)

type opt struct {
	O     int   `json:"o"`
	V     []int `json:"v"`
	Style int   `json:"style"`
	Form  int   `json:"form"`
}

type conf struct {
	File struct {
		Kind  string `json:"kind"`
		Opts  []opt  `json:"opts"`
		Nulls []int  `json:"nulls"`
	} `json:"file"`
	Env   []opt  `json:"env"`
	Whole []opt  `json:"whole"`
	Empty []int  `json:"empty"`
	Noise int    `json:"noise"`
	Bad   string `json:"bad"`
	N     int    `json:"n"`
}

var names = []string{"GrpcTransport.Network", "GrpcTransport.Address", "GrpcTransport.Port", "HttpPort", "LocalDBFilePath", "MaxOpenedLogFiles", "DB.Driver", "DB.Host",
	"DB.Port", "DB.Username", "DB.Password", "DB.DBName", "DB.SSLMode", "DB.MaxConnections", "DB.MaxIdleConnections", "DB.MaxConnIdleTimeSec"}
var groups = []string{"", "GrpcTransport", "DB"}

func num(o int) bool { return o == 3 || o == 4 || o == 6 || o >= 14 }

func text(o opt) string {
	if num(o.O) {
		return fmt.Sprint(o.V[0])
	}
	var sb strings.Builder
	for _, c := range o.V {
		sb.WriteRune(rune(c))
	}
	return sb.String()
}

func cps(s string) []int {
	res := []int{}
	for _, r := range s {
		res = append(res, int(r))
	}
	return res
}

func js(s string) string {
	b, err := json.Marshal(s)
	if err != nil {
		panic(err)
	}
	return strings.ReplaceAll(string(b), "\x7f", `\u007f`)
}

// name writes a name in the n-th style
func name(r *rand.Rand, s string, n int) string {
	switch n {
	case 1:
		return strings.ToUpper(s)
	case 2:
		return strings.ToLower(s)
	case 3:
		b := []byte(s)
		for i := range b {
			if r.Intn(2) == 0 {
				b[i] = strings.ToUpper(string(b[i]))[0]
			} else {
				b[i] = strings.ToLower(string(b[i]))[0]
			}
		}
		return string(b)
	}
	return s
}

// value as it stands in a file
func value(o opt) string {
	if num(o.O) {
		return text(o)
	}
	return js(text(o))
}

func plain(s string) bool {
	if s == "" || len(s) > 8 {
		return false
	}
	for _, c := range s {
		if c < 'a' || c > 'z' {
			return false
		}
	}
	return s != "true" && s != "null" && s != "yes" && s != "no" && s != "on" && s != "off" && s != "y" && s != "n"
}

func (c *conf) contents(r *rand.Rand) string {
	yaml := strings.ToLower(c.File.Kind) == "yaml"
	parts := map[string][]string{}
	opts := append([]opt(nil), c.File.Opts...)
	r.Shuffle(len(opts), func(i, j int) { opts[i], opts[j] = opts[j], opts[i] })
	order := []string{}
	put := func(g, l string) {
		if _, ok := parts[g]; !ok && g != "" {
			order = append(order, g)
		}
		parts[g] = append(parts[g], l)
	}
	for _, o := range opts {
		g, n := "", names[o.O-1]
		if i := strings.IndexByte(n, '.'); i > 0 {
			g, n = n[:i], n[i+1:]
		}
		n = name(r, n, o.Style)
		v := value(o)
		if yaml {
			if !num(o.O) && plain(text(o)) && r.Intn(2) == 0 {
				v = text(o)
			}
			put(g, n+": "+v)
		} else {
			put(g, js(n)+": "+v)
		}
	}
	var sb strings.Builder
	if yaml {
		if c.Noise&1 != 0 {
			sb.WriteString("# a comment\nother: {httpport: 5}\n")
		}
		for _, l := range parts[""] {
			sb.WriteString(l + "\n")
		}
		for _, g := range order {
			sb.WriteString(name(r, g, 1+r.Intn(4)) + ":\n")
			for _, l := range parts[g] {
				sb.WriteString("  " + l + "\n")
			}
		}
		for _, g := range c.File.Nulls {
			sb.WriteString(groups[g] + ":\n")
		}
		if c.Bad == "syntax" {
			sb.WriteString("a: [\n")
		}
		if c.Bad == "type" {
			return names[c.N-1][strings.IndexByte(names[c.N-1], '.')+1:] // a text only
		}
		if sb.Len() == 0 {
			sb.WriteString("{}\n")
		}
		return sb.String()
	}
	all := append([]string(nil), parts[""]...)
	for _, g := range order {
		all = append(all, js(name(r, g, 1+r.Intn(4)))+": {"+strings.Join(parts[g], ", ")+"}")
	}
	for _, g := range c.File.Nulls {
		all = append(all, js(groups[g])+": null")
	}
	if c.Noise&1 != 0 {
		all = append(all, `"other": {"httpport": 5}`)
	}
	if c.Bad == "type" {
		all = []string{`"httpport": "many"`}
	}
	res := "{" + strings.Join(all, ",\n") + "}"
	if c.Bad == "syntax" {
		switch c.N {
		case 3, 4:
			res = res[:len(res)-1]
		case 6:
			res += "}"
		case 14:
			res += " 5"
		case 15:
			res = strings.Replace(res, "{", "{,", 1)
		default:
			res = ""
		}
	}
	return res
}

func envName(n string) string { return "SOLARIS_" + strings.ReplaceAll(n, ".", "_") }

func (c *conf) run(r *rand.Rand, dir string) M {
	file, env := c.File.Opts, append(append([]opt(nil), c.Env...), c.Whole...)
	bad := c.Bad
	if c.File.Kind == "none" && (bad == "syntax" || bad == "type" || bad == "ext") {
		bad, c.Bad = "", ""
	}
	path := ""
	if c.File.Kind != "none" {
		path = filepath.Join(dir, "solaris."+c.File.Kind)
		if bad == "ext" {
			path = filepath.Join(dir, "solaris.conf")
		}
		if err := os.WriteFile(path, []byte(c.contents(r)), 0600); err != nil {
			Fatal("%v", err)
		}
	}
	if bad == "missing" {
		path, file = filepath.Join(dir, "none.yaml"), nil
	}
	vars := map[string]string{}
	given := map[int]bool{}
	for _, o := range env {
		given[o.O] = true
	}
	for _, o := range c.Env {
		v := text(o)
		if num(o.O) {
			if o.Form == 3 {
				v = " " + v + " "
			}
		} else if o.Form == 2 || strings.HasPrefix(strings.TrimSpace(v), `"`) {
			v = js(v)
		}
		vars[name(r, envName(names[o.O-1]), o.Style)] = v
	}
	if len(c.Whole) > 0 {
		g, ps := "", []string{}
		for _, o := range c.Whole {
			n := names[o.O-1]
			i := strings.IndexByte(n, '.')
			g = n[:i]
			ps = append(ps, js(name(r, n[i+1:], o.Style))+":"+value(o))
		}
		vars[name(r, envName(g), 1+r.Intn(4))] = "{" + strings.Join(ps, ",") + "}"
	}
	whole := len(c.Whole) > 0
	for _, o := range c.Empty {
		if !given[o] && !whole {
			vars[envName(names[o-1])] = ""
		}
	}
	if c.Noise&2 != 0 {
		for _, n := range []string{"SOLARISX_HTTPPORT", "XSOLARIS_HTTPPORT", "SOLARIS_HTTP_PORT", "HTTPPORT", "SOLARIS_NOTHING", "SOLARIS_HTTPPORT_X"} {
			vars[n] = "5"
		}
	}
	if c.Noise&4 != 0 {
		for _, n := range []string{"SOLARIS__DB_HOST", "SOLARIS_", "SOLARIS", "SOLARIS_DB_HOST_X", "SOLARIS_DB__HOST", "DB_HOST", "SOLARIS_DB_NOTHING", "SOLARIS_HOST", "SOLARISDB_HOST"} {
			vars[n] = "elsewhere"
		}
	}
	if c.Noise&8 != 0 { // parts of names, and names that go on
		for _, n := range []string{"SOLARIS_HTTP", "SOLARIS_DB_HOS", "SOLARIS_DB_PASS", "SOLARIS_LOCALDB", "SOLARIS_GRPC_ADDRESS", "SOLARIS_DB_HOSTS", "SOLARIS_DB_HOSTNAME", "SOLARIS_MAXOPENEDLOGFILESX",
			"SOLARIS_G", "SOLARIS_HTTPPORTS", "SOLARIS-DB-HOST", "SOLARIS.DB.HOST", "OLARIS_HTTPPORT"} {
			vars[n] = "5"
		}
	}
	if bad != "" && strings.HasPrefix(bad, "env") {
		if given[c.N] || whole {
			bad = ""
		} else {
			vars[envName(names[c.N-1])] = map[string]string{"envtext": "many", "envfloat": "1.5", "envlist": "[1]", "envhuge": "99999999999999999999"}[bad]
			delete(vars, strings.ToLower(envName(names[c.N-1])))
		}
	}
	for k, v := range vars {
		if err := os.Setenv(k, v); err != nil {
			Fatal("%v", err)
		}
	}
	defer func() {
		for k := range vars {
			os.Unsetenv(k)
		}
	}()
	var g *server.Config
	cls, d := Try(func() (err error) {
		g, err = server.BuildConfig(path)
		return
	})
	strip := func(os []opt) []M {
		res := []M{}
		for _, o := range os {
			v := o.V
			if v == nil {
				v = []int{}
			}
			res = append(res, M{"o": o.O, "v": v})
		}
		return res
	}
	ks := []string{}
	for k, v := range vars {
		ks = append(ks, fmt.Sprintf("%s=%q", k, v))
	}
	sort.Strings(ks)
	e := M{"e": "build", "file": strip(file), "env": strip(env), "bad": bad, "err": cls, "names": names, "vars": strings.Join(ks, " "), "res": [][]int{}}
	if cls != "" {
		e["detail"] = d
		return e
	}
	p := func(x *int) []int {
		if x == nil {
			return []int{}
		}
		return []int{*x}
	}
	res := make([][]int, len(names))
	for i := range res {
		res[i] = []int{-99}
	}
	if t := g.GrpcTransport; t != nil {
		res[0], res[1], res[2] = cps(t.Network), cps(t.Address), []int{t.Port}
	}
	res[3], res[4], res[5] = []int{g.HttpPort}, cps(g.LocalDBFilePath), []int{g.MaxOpenedLogFiles}
	if b := g.DB; b != nil {
		for i, s := range []string{b.Driver, b.Host, b.Port, b.Username, b.Password, b.DBName, b.SSLMode} {
			res[6+i] = cps(s)
		}
		res[13], res[14], res[15] = p(b.MaxConnections), p(b.MaxIdleConnections), p(b.MaxConnIdleTimeSec)
	}
	e["res"] = res
	return e
}

func main() {
	Quiet()
	ReadLines(func(n int, raw []byte) {
		var b struct {
			Confs []conf `json:"confs"`
		}
		if err := json.Unmarshal(raw, &b); err != nil {
			Fatal("behaviour: %v", err)
		}
		r := rand.New(rand.NewSource(Seed()*1000003 + int64(n)))
		dir := filepath.Join(os.TempDir(), fmt.Sprintf("conf-%d", n))
		if err := os.MkdirAll(dir, 0755); err != nil {
			Fatal("%v", err)
		}
		evs := []M{}
		for _, c := range b.Confs {
			evs = append(evs, c.run(r, dir))
		}
		os.RemoveAll(dir)
		Emit(evs)
	})
	Flush()
}
