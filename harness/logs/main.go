// Driver of the log (C23).
package main

import (
	"bufio"
	"bytes"
	"compress/gzip"
	"encoding/json"
	"fmt"
	"io"
	"io/ioutil"
	"math/rand"
	"net"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/icon-project/btp/common/log"
	"github.com/icon-project/btp/zzverif/vh"
)

type op struct {
	Op, Form, M, T, Vendor string
	I, N, Nl               int
	L                      json.RawMessage
	On, Up, Scheme         bool
	F                      map[string]string
	Ws                     []int
}

func (o op) lv() log.Level { var l int; vh.Un(o.L, &l); return log.Level(l) }

// sink is a file that is read up to what was read before.
type sink struct {
	f   *os.File
	off int64
}

func (s *sink) more() []byte {
	b, err := ioutil.ReadFile(s.f.Name())
	vh.Must(err)
	b = b[s.off:]
	s.off += int64(len(b))
	return b
}

type buf struct {
	mu sync.Mutex
	b  bytes.Buffer
}

func (b *buf) Write(p []byte) (int, error) { b.mu.Lock(); defer b.mu.Unlock(); return b.b.Write(p) }
func (b *buf) more() []byte {
	b.mu.Lock()
	defer b.mu.Unlock()
	r := append([]byte{}, b.b.Bytes()...)
	b.b.Reset()
	return r
}

var src = regexp.MustCompile(`[a-z]+\.go:\d+ `)

func line(s string) vh.Ev {
	p := strings.SplitN(s, "|", 6)
	if len(p) != 6 {
		return vh.Ev{"odd": s}
	}
	if _, err := time.Parse(log.LogTimeLayout, p[1]); err != nil {
		return vh.Ev{"odd": s}
	}
	rest := p[5]
	if m := src.FindStringIndex(rest); m != nil {
		rest = rest[:m[0]] + "@ " + rest[m[1]:]
	}
	return vh.Ev{"lv": p[0], "wallet": p[2], "chain": p[3], "module": p[4], "rest": rest}
}
func lines(b []byte) []interface{} {
	r := []interface{}{}
	if len(b) == 0 {
		return r
	}
	t := string(b)
	if !strings.HasSuffix(t, "\n") {
		return []interface{}{vh.Ev{"odd": t}}
	}
	for _, l := range strings.Split(strings.TrimSuffix(t, "\n"), "\n") {
		r = append(r, line(l))
	}
	return r
}

var tag = regexp.MustCompile(`many-(\d+)-(\d+)-`)

func tagged(b []byte) []interface{} {
	r := []interface{}{}
	for _, l := range strings.Split(strings.TrimSuffix(string(b), "\n"), "\n") {
		if l == "" {
			continue
		}
		w, j := -1, -1
		if m := tag.FindStringSubmatch(l); m != nil {
			fmt.Sscan(m[1], &w)
			fmt.Sscan(m[2], &j)
		}
		r = append(r, vh.Ev{"w": w, "j": j, "x": line(tag.ReplaceAllString(l, "many"))})
	}
	return r
}

type server struct {
	l    net.Listener
	got  []interface{}
	many int
	done chan bool
}

var patience = 20 * time.Second

const sentinel = "the end of the log"

func serve() *server {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	vh.Must(err)
	s := &server{l: l, got: []interface{}{}, done: make(chan bool)}
	go func() {
		defer close(s.done)
		c, err := l.Accept()
		if err != nil {
			return
		}
		defer c.Close()
		sc := bufio.NewScanner(c)
		sc.Buffer(make([]byte, 1<<20), 1<<20)
		for sc.Scan() {
			var m map[string]interface{}
			if json.Unmarshal(sc.Bytes(), &m) != nil {
				s.got = append(s.got, vh.Ev{"odd": sc.Text()})
				continue
			}
			str := func(k string) string { v, _ := m[k].(string); return v }
			if str("message") == sentinel {
				return
			}
			if tag.MatchString(str("message")) {
				s.many++
				continue
			}
			sr := str("src")
			has := sr != ""
			if has && !src.MatchString(sr+" ") {
				sr = "odd"
			}
			if _, ok := m["logtime"].(float64); !ok || str("type") != "btp" {
				sr = "odd"
			}
			e := vh.Ev{"lv": str("level"), "msg": str("message"), "src": has}
			if sr == "odd" {
				e["odd"] = sc.Text()
			}
			for _, k := range []string{"module", "wallet", "chain", "prefix", "extra"} {
				e[k] = str(k)
			}
			s.got = append(s.got, e)
		}
	}()
	return s
}

func emit(l log.Logger, form string, lv log.Level, msg string) (panicked bool) {
	defer func() {
		if recover() != nil {
			panicked = true
		}
	}()
	switch form {
	case "Log":
		l.Log(lv, msg)
	case "Logf":
		l.Logf(lv, "%s", msg)
	case "Logln":
		l.Logln(lv, msg)
	case "print":
		l.Print(msg)
	case "printf":
		l.Printf("%s", msg)
	case "println":
		l.Println(msg)
	default:
		a := map[log.Level][]interface{}{
			log.PanicLevel: {l.Panic, l.Panicf, l.Panicln}, log.ErrorLevel: {l.Error, l.Errorf, l.Errorln}, log.WarnLevel: {l.Warn, l.Warnf, l.Warnln},
			log.InfoLevel: {l.Info, l.Infof, l.Infoln}, log.DebugLevel: {l.Debug, l.Debugf, l.Debugln}, log.TraceLevel: {l.Trace, l.Tracef, l.Traceln}}[lv]
		call(a, form, msg)
	}
	return
}
func call(a []interface{}, form, msg string) {
	switch form {
	case "plain":
		a[0].(func(...interface{}))(msg)
	case "f":
		a[1].(func(string, ...interface{}))("%s", msg)
	case "ln":
		a[2].(func(...interface{}))(msg)
	}
}
func emitGlobal(form string, lv log.Level, msg string) (panicked bool) {
	defer func() {
		if recover() != nil {
			panicked = true
		}
	}()
	switch form {
	case "print":
		log.Print(msg)
	case "printf":
		log.Printf("%s", msg)
	case "println":
		log.Println(msg)
	default:
		a := map[log.Level][]interface{}{
			log.PanicLevel: {log.Panic, log.Panicf, log.Panicln}, log.ErrorLevel: {log.Error, log.Errorf, log.Errorln}, log.WarnLevel: {log.Warn, log.Warnf, log.Warnln},
			log.InfoLevel: {log.Info, log.Infof, log.Infoln}, log.DebugLevel: {log.Debug, log.Debugf, log.Debugln}, log.TraceLevel: {log.Trace, log.Tracef, log.Traceln}}[lv]
		call(a, form, msg)
	}
	return
}

func run(b json.RawMessage, dir string) vh.Trace {
	var scn struct{ Ops []op }
	vh.Un(b, &scn)
	ops := scn.Ops
	var t vh.Trace
	f, err := ioutil.TempFile(dir, "console")
	vh.Must(err)
	con := &sink{f: f}
	defer os.Remove(f.Name())
	defer f.Close()
	old := os.Stderr
	os.Stderr = f
	loggers := []log.Logger{log.New()}
	os.Stderr = old
	log.SetGlobalLogger(loggers[0])
	glob := 1
	files := []*buf{{}, {}, {}}
	fileMore := func() []byte {
		var r []byte
		for _, x := range files {
			r = append(r, x.more()...)
		}
		return r
	}
	pick := func(i int) log.Logger {
		if i == 0 {
			return log.GlobalLogger()
		}
		return loggers[i-1]
	}
	var servers []*server
	count := 0
	for _, o := range ops {
		switch o.Op {
		case "level", "console", "mod", "caller", "file", "glob", "child":
			e := vh.Ev{"e": "set", "op": o.Op, "i": o.I, "m": o.M, "on": o.On, "n": o.N, "l": 0, "f": o.F}
			if o.F == nil {
				e["f"] = vh.Ev{"x": ""}
			}
			l := pick(o.I)
			switch o.Op {
			case "level":
				l.SetLevel(o.lv())
				e["l"] = int(o.lv())
			case "console":
				l.SetConsoleLevel(o.lv())
				e["l"] = int(o.lv())
			case "mod":
				l.SetModuleLevel(o.M, o.lv())
				e["l"] = int(o.lv())
			case "caller":
				l.SetReportCaller(o.On)
			case "file":
				var w io.Writer
				if o.N != 0 {
					w = files[o.N-1]
				}
				vh.Must(l.SetFileWriter(w))
			case "glob":
				log.SetGlobalLogger(l)
				glob = o.I
			case "child":
				fs := log.Fields{}
				for k, v := range o.F {
					if v != "" {
						fs[k] = v
					}
				}
				if o.I == 0 {
					loggers = append(loggers, log.WithFields(fs))
				} else {
					loggers = append(loggers, l.WithFields(fs))
				}
			}
			e["con"], e["file"] = lines(con.more()), lines(fileMore())
			t.Add(e)
		case "get":
			l := pick(o.I)
			ms := []interface{}{}
			for _, m := range []string{"main", "a", "ab", "log", "never"} {
				ms = append(ms, vh.Ev{"m": m, "l": int(l.GetModuleLevel(m))})
			}
			t.Add(vh.Ev{"e": "get", "lv": int(l.GetLevel()), "cl": int(l.GetConsoleLevel()), "mods": ms})
		case "parse":
			l, err := log.ParseLevel(o.T)
			t.Add(vh.Ev{"e": "parse", "t": o.T, "low": strings.ToLower(o.T), "ok": err == nil, "l": int(l), "name": l.String()})
		case "forward":
			s := serve()
			a := s.l.Addr().String()
			if !o.Up {
				s.l.Close()
			}
			if o.Scheme {
				a = "tcp://" + a
			}
			var lv string
			vh.Un(o.L, &lv)
			err := log.AddForwarder(&log.ForwarderConfig{Vendor: o.Vendor, Address: a, Level: lv})
			if err == nil {
				servers = append(servers, s)
			} else {
				s.l.Close()
			}
			t.Add(vh.Ev{"e": "forward", "l": lv, "vendor": o.Vendor, "up": o.Up, "ok": err == nil})
		case "log":
			count++
			msg := fmt.Sprintf("message %d", count)
			raw := msg + strings.Repeat("\n", o.Nl)
			var p bool
			if o.I == 0 {
				p = emitGlobal(o.Form, o.lv(), raw)
			} else {
				p = emit(loggers[o.I-1], o.Form, o.lv(), raw)
			}
			t.Add(vh.Ev{"e": "log", "i": o.I, "l": int(o.lv()), "form": o.Form, "msg": msg, "raw": raw, "panic": p, "con": lines(con.more()), "file": lines(fileMore())})
		case "many":
			var wg sync.WaitGroup
			for w, i := range o.Ws {
				wg.Add(1)
				go func(w int, l log.Logger) {
					defer wg.Done()
					for j := 1; j <= o.N; j++ {
						emit(l, "f", o.lv(), fmt.Sprintf("many-%d-%d-", w+1, j))
					}
				}(w, loggers[i-1])
			}
			wg.Wait()
			t.Add(vh.Ev{"e": "many", "l": int(o.lv()), "n": o.N, "ws": o.Ws, "con": tagged(con.more()), "file": tagged(fileMore())})
		}
	}
	_ = glob
	// an entry that every forwarder gets
	emit(loggers[0], "Log", log.PanicLevel, sentinel)
	got, many := []interface{}{}, []interface{}{}
	for _, s := range servers {
		select {
		case <-s.done:
		case <-time.After(patience):
			patience = 100 * time.Millisecond // enough to know
			s.got = append(s.got, vh.Ev{"odd": "no end"})
		}
		s.l.Close()
		got = append(got, s.got)
		many = append(many, s.many)
	}
	t.Add(vh.Ev{"e": "end", "got": got, "many": many})
	return t
}

// rotate fills the log file of the relay beyond its size several times, then reads what is there.
func rotate(dir string, seed int64) vh.Trace {
	r := rand.New(rand.NewSource(seed))
	d, err := ioutil.TempDir(dir, "files")
	vh.Must(err)
	defer os.RemoveAll(d)
	cfg := &log.WriterConfig{Filename: filepath.Join(d, "x.log"), MaxSize: 1 + r.Intn(2), MaxBackups: r.Intn(3), MaxAge: r.Intn(2), Compress: r.Intn(3) == 0, LocalTime: r.Intn(2) == 0}
	old := filepath.Join(d, "x-2020-01-01T00-00-00.000.log")
	oldGz := old + ".gz"
	vh.Must(ioutil.WriteFile(old, []byte("old\n"), 0600))
	l := log.New()
	w, err := log.NewWriter(cfg)
	vh.Must(err)
	vh.Must(l.SetFileWriter(w))
	l.SetConsoleLevel(log.PanicLevel)
	n := 60 + r.Intn(30)
	for i := 1; i <= n; i++ {
		l.Infof("entry %d %s", i, strings.Repeat("x", 50000+r.Intn(100000)))
		time.Sleep(3 * time.Millisecond)
	}
	if c, ok := w.(io.Closer); ok {
		c.Close()
	}
	there := func(f string) bool { _, err := os.Stat(f); return err == nil }
	type obs struct {
		backups, plain int
		old            bool
	}
	var fs []string
	look := func() (o obs) {
		fs, err = filepath.Glob(filepath.Join(d, "x*"))
		vh.Must(err)
		for _, f := range fs {
			if filepath.Base(f) != "x.log" {
				o.backups++
				if !strings.HasSuffix(f, ".gz") {
					o.plain++
				}
			}
		}
		o.old = there(old) || there(oldGz)
		return
	}
	// old files are removed and made smaller in the background: wait for that if it has to come
	for end := time.Now().Add(10 * time.Second); time.Now().Before(end); time.Sleep(20 * time.Millisecond) {
		o := look()
		if (cfg.MaxBackups == 0 || o.backups <= cfg.MaxBackups) && (cfg.MaxAge == 0 || !o.old) && (!cfg.Compress || o.plain == 0) {
			break
		}
	}
	o := look()
	sort.Slice(fs, func(i, j int) bool { // the current one last
		if filepath.Base(fs[i]) == "x.log" || filepath.Base(fs[j]) == "x.log" {
			return filepath.Base(fs[j]) == "x.log"
		}
		return fs[i] < fs[j]
	})
	ids, big := []int{}, 0
	for _, f := range fs {
		if f == old || f == oldGz {
			continue
		}
		b, err := ioutil.ReadFile(f)
		vh.Must(err)
		if strings.HasSuffix(f, ".gz") {
			z, err := gzip.NewReader(bytes.NewReader(b))
			vh.Must(err)
			b, err = ioutil.ReadAll(z)
			vh.Must(err)
		}
		if len(b) > big {
			big = len(b)
		}
		for _, x := range strings.Split(strings.TrimSuffix(string(b), "\n"), "\n") {
			id := -1
			if i := strings.Index(x, "entry "); i >= 0 {
				fmt.Sscanf(x[i:], "entry %d", &id)
			}
			ids = append(ids, id)
		}
	}
	return vh.Trace{vh.Ev{"e": "rotated", "n": n, "ids": ids, "max": cfg.MaxSize, "backups": cfg.MaxBackups, "age": cfg.MaxAge, "compress": cfg.Compress,
		"big": big, "files": o.backups, "plain": o.plain, "old": o.old}}
}

func main() {
	vh.Main(map[string]func([]json.RawMessage, int64, []string) []vh.Trace{
		"logs": func(scn []json.RawMessage, seed int64, args []string) []vh.Trace {
			dir, err := ioutil.TempDir("", "logs")
			vh.Must(err)
			defer os.RemoveAll(dir)
			out := make([]vh.Trace, 0, len(scn))
			for i := range scn {
				var r struct{ Rotate int64 }
				if json.Unmarshal(scn[i], &r) == nil && r.Rotate != 0 {
					out = append(out, rotate(dir, r.Rotate+seed))
				} else {
					out = append(out, run(scn[i], dir))
				}
			}
			return out
		},
	})
}
