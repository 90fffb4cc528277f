// Package vh is the common part of the conformance drivers.
package vh

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"io/ioutil"
	"os"
	"os/exec"
	"runtime/debug"
	"strconv"
	"sync"
	"sync/atomic"
	"time"
)

// Ev is one recorded event; values must stay within what TLC's Json module reads:
// strings, booleans, 32-bit integers, arrays and objects (no null).
type Ev map[string]interface{}

type Trace []Ev

func (t *Trace) Add(e Ev) { *t = append(*t, e) }

// Main runs `driver mode scenarios.json traces.json seed [args]`.
func Main(modes map[string]func(scn []json.RawMessage, seed int64, args []string) []Trace) {
	if len(os.Args) < 5 {
		fmt.Fprintln(os.Stderr, "usage: driver mode in out seed")
		os.Exit(3)
	}
	f := modes[os.Args[1]]
	if f == nil {
		fmt.Fprintln(os.Stderr, "no mode", os.Args[1])
		os.Exit(3)
	}
	b, err := ioutil.ReadFile(os.Args[2])
	Must(err)
	var scn []json.RawMessage
	Must(json.Unmarshal(b, &scn))
	seed, err := strconv.ParseInt(os.Args[4], 10, 64)
	Must(err)
	tr := f(scn, seed, os.Args[5:])
	for i := range tr {
		if tr[i] == nil {
			tr[i] = Trace{}
		}
	}
	o, err := json.Marshal(tr)
	Must(err)
	Must(ioutil.WriteFile(os.Args[3], o, 0644))
}

// Must aborts the driver: a failure of the machinery, not of the code under test.
func Must(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "driver:", err)
		debug.PrintStack()
		os.Exit(3)
	}
}

func Un(b json.RawMessage, v interface{}) { Must(json.Unmarshal(b, v)) }

// Try runs f and reports a panic of the code under test as a string.
func Try(f func()) (panicked string) {
	defer func() {
		if r := recover(); r != nil {
			panicked = fmt.Sprintf("%v", r)
			if panicked == "" {
				panicked = "panic"
			}
			if os.Getenv("VHSTACK") != "" {
				debug.PrintStack()
			}
		}
	}()
	f()
	return ""
}

// TryT is Try with a deadline; a call that does not return is "HANG".
func TryT(d time.Duration, f func()) string {
	ch := make(chan string, 1)
	go func() { ch <- Try(f) }()
	select {
	case s := <-ch:
		return s
	case <-time.After(d):
		return "HANG"
	}
}

// Par maps f over 0..n-1 with w workers.
func Par(n, w int, f func(i int)) {
	var wg sync.WaitGroup
	ch := make(chan int)
	for k := 0; k < w; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range ch {
				f(i)
			}
		}()
	}
	for i := 0; i < n; i++ {
		ch <- i
	}
	close(ch)
	wg.Wait()
}

// Ints renders bytes as a JSON array of numbers.
func Ints(b []byte) []int {
	r := make([]int, len(b))
	for i, x := range b {
		r[i] = int(x)
	}
	return r
}

func Bytes(a []int) []byte {
	r := make([]byte, len(a))
	for i, x := range a {
		r[i] = byte(x)
	}
	return r
}

func Codes(s string) []int { return Ints([]byte(s)) }

func B(e error) bool { return e == nil }

// Rec streams the events of one scenario from a child process, so that what
// happened before a crash or a hang of the code under test is not lost.
type Rec struct {
	mu   sync.Mutex
	i    int
	out  *os.File
	over bool
}

type line struct {
	I    int  `json:"i"`
	E    Ev   `json:"e,omitempty"`
	Done bool `json:"done,omitempty"`
	Slow bool `json:"slow,omitempty"`
}

func (r *Rec) put(l line) {
	b, err := json.Marshal(l)
	Must(err)
	_, err = r.out.Write(append(b, '\n'))
	Must(err)
}

func (r *Rec) Add(e Ev) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if !r.over { // what is left over of a finished scenario says nothing any more
		r.put(line{I: r.i, E: e})
	}
}

// Slow tells that the scenario waited in vain for something: after some of these the
// rest of the scenarios is left out, enough is known.
func (r *Rec) Slow() {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.put(line{I: r.i, Slow: true})
}

// End closes the record: nothing is added any more.
func (r *Rec) End() {
	r.mu.Lock()
	r.over = true
	r.mu.Unlock()
}

// Isolated replays the scenarios in child processes (the driver itself, with
// VHCHILD set).  around is called once per child and must call its argument,
// which runs the scenarios.  A scenario without any progress for `limit` of real
// time ends with the event hang, one that kills the process with crash.
func Isolated(scn []json.RawMessage, workers int, limit time.Duration,
	around func(loop func()), run func(s json.RawMessage, r *Rec)) []Trace {
	if c := os.Getenv("VHCHILD"); c != "" {
		var from, step int
		_, err := fmt.Sscanf(c, "%d/%d", &from, &step)
		Must(err)
		out := os.NewFile(3, "rec")
		wd := &Rec{out: out}
		var pmu sync.Mutex
		cur, begun := -1, time.Now()
		go func() {
			for {
				time.Sleep(200 * time.Millisecond)
				pmu.Lock()
				c, d := cur, time.Since(begun)
				pmu.Unlock()
				if c >= 0 && d > limit {
					wd.put(line{I: c, E: Ev{"op": "hang"}})
					os.Exit(9)
				}
			}
		}()
		real := realClock()
		around(func() {
			for i := from; i < len(scn); i += step {
				pmu.Lock()
				cur, begun = i, real()
				pmu.Unlock()
				r := &Rec{out: out, i: i}
				run(scn[i], r)
				r.mu.Lock()
				r.over = true
				r.put(line{I: i, Done: true})
				r.mu.Unlock()
			}
			pmu.Lock()
			cur = -1
			pmu.Unlock()
			os.Exit(0)
		})
		os.Exit(0)
	}
	res := make([]Trace, len(scn))
	if workers > len(scn) {
		workers = len(scn)
	}
	budget := 480 * time.Second
	if s := os.Getenv("VH_BUDGET"); s != "" {
		n, err := strconv.Atoi(s)
		Must(err)
		budget = time.Duration(n) * time.Second
	}
	over := make(chan struct{})
	var once sync.Once
	stop := func() { once.Do(func() { close(over) }) }
	timer := time.AfterFunc(budget, stop)
	defer timer.Stop()
	ended := func() bool {
		select {
		case <-over:
			return true
		default:
			return false
		}
	}
	var slow int32
	Par(workers, workers, func(w int) {
		next, hangs := w, 0
		for next < len(scn) && hangs < 2 && !ended() { // enough is known after a few hangs
			pr, pw, err := os.Pipe()
			Must(err)
			cmd := exec.Command(os.Args[0], os.Args[1:]...)
			cmd.Env = append(os.Environ(), fmt.Sprintf("VHCHILD=%d/%d", next, workers))
			cmd.ExtraFiles = []*os.File{pw}
			var eb bytes.Buffer
			cmd.Stderr = &eb
			Must(cmd.Start())
			Must(pw.Close())
			gone := make(chan struct{})
			go func() {
				select {
				case <-over:
					_ = cmd.Process.Kill()
				case <-gone:
				}
			}()
			last := -1
			sc := bufio.NewScanner(pr)
			sc.Buffer(make([]byte, 1<<20), 1<<28)
			hung := false
			for sc.Scan() {
				var l line
				Must(json.Unmarshal(sc.Bytes(), &l))
				if l.Done {
					last = l.I
					continue
				}
				if l.Slow {
					if atomic.AddInt32(&slow, 1) >= 8 {
						stop()
					}
					continue
				}
				res[l.I] = append(res[l.I], l.E)
				if l.E["op"] == "hang" {
					hung = true
				}
			}
			Must(sc.Err())
			_ = pr.Close()
			err = cmd.Wait()
			close(gone)
			if ended() {
				return
			}
			done := last
			if done < 0 {
				done = next - workers
			}
			if err == nil && done+workers >= len(scn) {
				return
			}
			bad := done + workers
			if bad >= len(scn) {
				return
			}
			if ee, ok := err.(*exec.ExitError); ok && ee.ExitCode() == 3 {
				fmt.Fprintln(os.Stderr, eb.String())
				os.Exit(3)
			}
			if hung {
				hangs++
			} else {
				s := eb.String()
				if len(s) > 600 {
					s = s[:600]
				}
				res[bad] = append(res[bad], Ev{"op": "crash", "msg": s})
			}
			next = bad + workers
		}
	})
	return res
}

func realClock() func() time.Time {
	// inside a synctest bubble time.Now is virtual; ask a goroutine outside of it
	req, rep := make(chan struct{}), make(chan time.Time)
	go func() {
		for range req {
			rep <- time.Now()
		}
	}()
	return func() time.Time { req <- struct{}{}; return <-rep }
}
