// Driver of the relay's configuration (C21): the relay program itself is run, in
// scratch folders, with flags, variables of the environment and files.
package main

import (
	"encoding/json"
	"fmt"
	"io/ioutil"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"time"

	"github.com/icon-project/btp/common/crypto"
	"github.com/icon-project/btp/common/wallet"
	. "github.com/icon-project/btp/zzverif/vh"
)

type put struct {
	S    string `json:"s"`
	From string `json:"from"`
	V    string `json:"v"`
}
type save struct {
	O   []put  `json:"o"`
	Cwd string `json:"cwd"`
	Dir string `json:"dir"`
	Cfg string `json:"cfg"`
	Rel bool   `json:"rel"`
}

var (
	root   string // scratch
	prog   string
	stores = map[string][]byte{}
	addrs  = map[string]string{} // address -> k1, k2
	pws    = map[string]string{"p1": "first-pass-word", "p2": "2nd,pass=word ", "d": ""}
)

var texts = map[string][3]string{ // d, v1, v2
	"src.address":           {"", "btp://0x1.icon/cx0000000000000000000000000000000000000001", "btp://0x7.icon/cx0000000000000000000000000000000000000007"},
	"dst.address":           {"", "btp://0x2.eth/0x0000000000000000000000000000000000000002", "btp://0x8.eth/0x0000000000000000000000000000000000000008"},
	"src.endpoint":          {"", "http://localhost:9080/api/v3", "http://h?a=1&b=2,c"},
	"dst.endpoint":          {"", "ws://localhost:8545", "http://x:1"},
	"log_forwarder.vendor":  {"", "fluentd", "logstash"},
	"log_forwarder.address": {"", "h:1", "127.0.0.1:5000"},
	"log_forwarder.name":    {"", "n1", "a name"},
	"log_forwarder.level":   {"info", "debug", "error"},
	"direction":             {"both", "front", "reverse"},
	"offset":                {"0", "7", "5000000000"},
	"log_level":             {"debug", "info", "error"},
	"console_level":         {"trace", "info", "panic"},
	"log_writer.maxsize":    {"100", "1", "200"},
	"log_writer.maxage":     {"0", "1", "2"},
	"log_writer.maxbackups": {"0", "3", "9"},
	"src.bridge_mode":       {"false", "true", "?"},
	"dst.bridge_mode":       {"false", "true", "?"},
	"maxSizeTx":             {"false", "true", "?"},
	"log_writer.localtime":  {"false", "true", "?"},
	"log_writer.compress":   {"false", "true", "?"},
}
var maps = map[string]bool{"src.options": true, "dst.options": true, "log_forwarder.options": true}
var paths = map[string]string{"base_dir": "data", "log_writer.filename": "logs/relay.log"}

func symText(s, v string) string {
	for i, t := range texts[s] {
		if t == v {
			return []string{"d", "v1", "v2"}[i]
		}
	}
	return "?" + v
}

// place is where the value v of a path setting lies
func place(dir, s, v string) string {
	switch v {
	case "d":
		return ""
	case "A":
		return filepath.Join(dir, "w1", paths[s])
	}
	return filepath.Join(dir, "other", paths[s])
}

func (x *world) text(p put, cwd string, rel bool) string {
	if t, ok := texts[p.S]; ok {
		return t[map[string]int{"d": 0, "v1": 1, "v2": 2}[p.V]]
	}
	if maps[p.S] {
		if p.From == "env" {
			return map[string]string{"v1": `{"a":"one","b":"x"}`, "v2": `{"b":"two"}`}[p.V]
		}
		return map[string]string{"v1": "a=one,b=x", "v2": "b=two"}[p.V]
	}
	if _, ok := paths[p.S]; ok {
		t := place(x.dir, p.S, p.V)
		if t == "" || !rel {
			return t
		}
		r, err := filepath.Rel(cwd, t)
		Must(err)
		return r
	}
	switch {
	case strings.HasSuffix(p.S, "key_store"):
		return filepath.Join(root, p.V+".json")
	case strings.HasSuffix(p.S, "key_secret"):
		return filepath.Join(root, "secret."+p.V)
	}
	return pws[p.V]
}

// the folders lie at several depths: a relative path means another place in each
var deep = map[string]string{"w1": "w1", "w2": "w2/in", "d1": "d1", "d2": "d2/in/er"}

type world struct {
	dir  string
	file string // the last configuration saved
	made map[string]string
}

func (x *world) run(cwd string, env []string, args ...string) bool {
	c := exec.Command(prog, args...)
	c.Dir = cwd
	c.Env = append([]string{"HOME=" + x.dir, "PATH=/usr/bin:/bin"}, env...)
	Must(c.Start())
	done := make(chan error, 1)
	go func() { done <- c.Wait() }()
	select {
	case err := <-done:
		return err == nil
	case <-time.After(30 * time.Second):
		_ = c.Process.Kill()
		return true // it did not refuse
	}
}

func envName(s string) string { return "BTP2_" + strings.ToUpper(strings.Replace(s, ".", "_", -1)) }

func (x *world) cfgArg(cwd, how string) (args, env []string) {
	if x.file == "" {
		return
	}
	r, err := filepath.Rel(cwd, x.file)
	Must(err)
	switch how {
	case "flag":
		return []string{"-c", r}, nil
	case "env":
		return nil, []string{"BTP2_CONFIG=" + r}
	}
	return []string{"--config=" + x.file}, nil
}

func lookup(m map[string]interface{}, s string) (interface{}, bool) {
	var v interface{} = m
	for _, k := range strings.Split(s, ".") {
		o, ok := v.(map[string]interface{})
		if !ok {
			return nil, false
		}
		if v, ok = o[k]; !ok {
			return nil, false
		}
	}
	return v, true
}

func (x *world) sym(m map[string]interface{}, s, file string) string {
	v, ok := lookup(m, s)
	if !ok || v == nil {
		return "d"
	}
	if _, ok := texts[s]; ok {
		if f, ok := v.(json.Number); ok {
			return symText(s, f.String())
		}
		return symText(s, fmt.Sprint(v))
	}
	if maps[s] {
		b, _ := json.Marshal(v)
		switch string(b) {
		case "{}":
			return "d"
		case `{"a":"one","b":"x"}`:
			return "v1"
		case `{"b":"two"}`:
			return "v2"
		}
		return "?" + string(b)
	}
	t, _ := v.(string)
	if _, ok := paths[s]; ok {
		if t == "" {
			return "d"
		}
		if !filepath.IsAbs(t) {
			t = filepath.Join(filepath.Dir(file), t)
		}
		for _, p := range []string{"A", "B"} {
			if filepath.Clean(t) == place(x.dir, s, p) {
				return p
			}
		}
		return "?" + t
	}
	if strings.HasSuffix(s, "key_secret") {
		for _, p := range []string{"p1", "p2"} {
			if t == filepath.Join(root, "secret."+p) {
				return p
			}
		}
		return "?" + t
	}
	b, err := json.Marshal(v)
	Must(err)
	return x.store(s, b)
}

// store names a key store; made ones get their name from the side and the password
func (x *world) store(s string, b []byte) string {
	var d struct {
		Address string `json:"address"`
		Crypto  struct {
			Mac string `json:"mac"`
		} `json:"crypto"`
	}
	if json.Unmarshal(b, &d) != nil || d.Address == "" {
		return "?" + string(b)
	}
	id := d.Address + d.Crypto.Mac
	if n, ok := addrs[id]; ok {
		return n
	}
	if n, ok := x.made[id]; ok {
		return n
	}
	n := map[string]string{"src.key_store": "m", "dst.key_store": "n"}[s]
	for _, p := range []string{"d", "p1", "p2"} {
		w, err := wallet.DecryptKeyStore(b, []byte(pws[p]))
		if err == nil && w.Address() == d.Address {
			for _, o := range x.made {
				if o[:1] == n {
					return "?again"
				}
			}
			x.made[id] = n + p
			return n + p
		}
	}
	return "?locked"
}

func (x *world) content(p string) string {
	b, err := ioutil.ReadFile(p)
	if err != nil {
		return "none"
	}
	return string(b)
}

func (x *world) save(s save, rec *Trace) {
	cwd := filepath.Join(x.dir, deep[s.Cwd])
	target := filepath.Join(x.dir, deep[s.Dir], "conf.json")
	args, env := x.cfgArg(cwd, s.Cfg)
	for _, p := range s.O {
		if p.From == "flag" {
			args = append(args, "--"+p.S+"="+x.text(p, cwd, s.Rel))
		} else {
			env = append(env, envName(p.S)+"="+x.text(p, cwd, s.Rel))
		}
	}
	t := target
	if s.Rel {
		t, _ = filepath.Rel(cwd, target)
	}
	was := x.content(target)
	ok := x.run(cwd, env, append([]string{"save", t}, args...)...)
	now := x.content(target)
	got := map[string]string{}
	var m map[string]interface{}
	d := json.NewDecoder(strings.NewReader(now))
	d.UseNumber()
	if d.Decode(&m) == nil {
		for k := range texts {
			got[k] = x.sym(m, k, target)
		}
		for k := range maps {
			got[k] = x.sym(m, k, target)
		}
		for k := range paths {
			got[k] = x.sym(m, k, target)
		}
		for _, side := range []string{"src", "dst"} {
			got[side+".key_store"] = x.sym(m, side+".key_store", target)
			got[side+".key_secret"] = x.sym(m, side+".key_secret", target)
		}
	}
	if ok && now == "none" {
		ok = false
	}
	if len(got) == 0 {
		got["none"] = "none"
	}
	rec.Add(Ev{"op": "save", "o": s.O, "ok": ok, "written": now != was, "got": got,
		"leak": strings.Contains(now, pws["p1"]) || strings.Contains(now, pws["p2"])})
	if ok {
		x.file = target
	}
}

var bads = []string{"nofile", "badjson", "nostore", "badstore", "flagoffset", "envoffset", "envbool", "nosecret-src",
	"nosecret-dst", "fileoffset", "start-noaddr", "start-pw", "unknown", "noarg"}

func (x *world) bad(kind string, r *rand.Rand, rec *Trace) {
	cwd := filepath.Join(x.dir, "w1")
	target := filepath.Join(x.dir, "bad.json")
	args := []string{"save", target}
	env := []string{}
	other := filepath.Join(x.dir, "other.json")
	cf, _ := x.cfgArg(cwd, "abs")
	switch kind {
	case "nofile":
		cf = []string{"-c", filepath.Join(x.dir, "absent.json")}
	case "badjson":
		Must(ioutil.WriteFile(other, []byte(`{"direction":"front",`), 0600))
		cf = []string{"-c", other}
	case "fileoffset":
		Must(ioutil.WriteFile(other, []byte(`{"offset":"seven"}`), 0600))
		cf = []string{"-c", other}
	case "nostore":
		args = append(args, "--"+[]string{"src", "dst"}[r.Intn(2)]+".key_store="+filepath.Join(x.dir, "absent.json"))
	case "badstore":
		Must(ioutil.WriteFile(other, stores["k1"][:len(stores["k1"])/2], 0600))
		args = append(args, "--"+[]string{"src", "dst"}[r.Intn(2)]+".key_store="+other)
	case "flagoffset":
		args = append(args, "--offset=0x1z")
	case "envoffset":
		env = append(env, "BTP2_OFFSET=seven")
	case "envbool":
		env = append(env, "BTP2_SRC_BRIDGE_MODE=perhaps")
	case "nosecret-src", "nosecret-dst":
		args = append(args, "--"+kind[9:]+".key_secret="+filepath.Join(x.dir, "absent"))
	case "start-noaddr":
		// the four ends have to be given
		cf = nil
		args = []string{"start", "--src.key_store=" + filepath.Join(root, "k1.json"), "--dst.key_store=" + filepath.Join(root, "k1.json"),
			"--src.key_password=" + pws["p1"], "--dst.key_password=" + pws["p1"]}
		miss := r.Intn(4)
		for i, k := range []string{"src.address", "dst.address", "src.endpoint", "dst.endpoint"} {
			if i != miss {
				args = append(args, "--"+k+"="+texts[k][1])
			}
		}
	case "start-pw":
		cf = nil
		p := [][2]string{{"p1", "p2"}, {"p2", "p1"}, {"p1", "d"}, {"d", "p1"}}[r.Intn(4)]
		args = []string{"start", "--src.key_store=" + filepath.Join(root, "k1.json"), "--dst.key_store=" + filepath.Join(root, "k1.json"),
			"--src.key_password=" + pws[p[0]], "--dst.key_password=" + pws[p[1]]}
		for _, k := range []string{"src.address", "dst.address", "src.endpoint", "dst.endpoint"} {
			args = append(args, "--"+k+"="+texts[k][1])
		}
	case "unknown":
		args = append(args, "--src.adress=x")
	case "noarg":
		args = []string{"save"}
	}
	ok := x.run(cwd, env, append(args, cf...)...)
	rec.Add(Ev{"op": "bad", "kind": kind, "ok": ok, "written": x.content(target) != "none"})
	_ = os.Remove(target)
}

func main() {
	Main(map[string]func([]json.RawMessage, int64, []string) []Trace{"do": do})
}

func do(scn []json.RawMessage, seed int64, args []string) []Trace {
	var err error
	prog = args[0]
	root, err = ioutil.TempDir("", "verif-conf")
	Must(err)
	defer os.RemoveAll(root)
	for _, k := range []string{"1", "2"} {
		sk, _ := crypto.GenerateKeyPair()
		b, err := wallet.EncryptKeyAsKeyStore(sk, []byte(pws["p"+k]))
		Must(err)
		stores["k"+k] = b
		var d struct {
			Address string `json:"address"`
			Crypto  struct {
				Mac string `json:"mac"`
			} `json:"crypto"`
		}
		Must(json.Unmarshal(b, &d))
		addrs[d.Address+d.Crypto.Mac] = "k" + k
		Must(ioutil.WriteFile(filepath.Join(root, "k"+k+".json"), b, 0600))
		Must(ioutil.WriteFile(filepath.Join(root, "secret.p"+k), []byte(pws["p"+k]), 0600))
	}
	res := make([]Trace, len(scn))
	Par(len(scn), 8, func(i int) {
		var ss []save
		Un(scn[i], &ss)
		dir := filepath.Join(root, fmt.Sprint("s", i))
		for _, d := range deep {
			Must(os.MkdirAll(filepath.Join(dir, d), 0700))
		}
		x := &world{dir: dir, made: map[string]string{}}
		for _, s := range ss {
			x.save(s, &res[i])
		}
		x.bad(bads[i%len(bads)], rand.New(rand.NewSource(seed+int64(i))), &res[i])
		_ = os.RemoveAll(dir)
	})
	return res
}
