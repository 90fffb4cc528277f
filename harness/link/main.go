// Driver of common/link: the real Link between a source chain and a destination
// chain played by the driver, under testing/synctest so that "everything that can
// happen has happened" is observable.
package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"runtime"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/icon-project/btp/chain"
	berr "github.com/icon-project/btp/common/errors"
	"github.com/icon-project/btp/common/link"
	"github.com/icon-project/btp/common/log"
	"github.com/icon-project/btp/common/types"
	. "github.com/icon-project/btp/zzverif/vh"
)

type blockDef struct {
	N  int   `json:"n"`  // messages
	Bu int64 `json:"bu"` // size of the block update
	Sz int64 `json:"sz"` // size of each message
}
type step struct {
	Op string `json:"op"`
	K  int    `json:"k"`
	S  string `json:"s"`
}
type scenario struct {
	Blocks []blockDef `json:"blocks"`
	Limit  int64      `json:"limit"`
	Margin int64      `json:"margin"`
	B0     int        `json:"b0"`  // destination starts at block b0 (0: before the first)
	S0     int        `json:"s0"`  // undelivered messages of block b0
	Mode   string     `json:"mode"` // btp2 | bridge
	Batch  int        `json:"batch"`
	Burst  bool       `json:"burst"`
	Steps  []step     `json:"steps"`
	Fail   string     `json:"fail"` // call that fails
	FailAt int        `json:"failat"`
}

type block struct{ h, first, last, bu, sz int64 }

var errInjected = errors.New("injected")

type item struct {
	T       string `json:"t"`
	H       int64  `json:"h"`
	From    int64  `json:"from"`
	To      int64  `json:"to"`
	Sz      int64  `json:"sz"`
	typ     link.MessageItemType
	startSq int64
}

func (i *item) Type() link.MessageItemType { return i.typ }
func (i *item) Len() int64                 { return i.Sz }

type bu struct{ item }

func (b *bu) UpdateBMCLinkStatus(bls *types.BMCLinkStatus) error {
	bls.Verifier.Height = b.H
	return nil
}
func (b *bu) ProofHeight() int64  { return b.H }
func (b *bu) SrcHeight() int64    { return b.startSq }
func (b *bu) TargetHeight() int64 { return b.H }

type mp struct{ item }

func (m *mp) UpdateBMCLinkStatus(bls *types.BMCLinkStatus) error {
	bls.Verifier.Height = m.H
	bls.RxSeq = m.To
	return nil
}
func (m *mp) StartSeqNum() int64 { return m.startSq }
func (m *mp) LastSeqNum() int64  { return m.To }

type rstat struct{ h, s int64 }

func (r *rstat) Height() int64 { return r.h }
func (r *rstat) Seq() int64    { return r.s }

// world is the environment that survives a restart of the relay
type world struct {
	mu      sync.Mutex
	rec     *Rec
	s       scenario
	blocks  []block
	h, seq  int64 // destination
	pending []*tx
	nfail   int
	failed  bool
	ended   bool
}

type tx struct {
	id    int
	items []item
	own   *sender
}

func (w *world) fail(call string) bool {
	if w.s.Fail != call {
		return false
	}
	w.nfail++
	if w.nfail == w.s.FailAt {
		w.rec.Add(Ev{"op": "inject", "call": call})
		w.failed = true
		return true
	}
	return false
}

// ---------------------------------------------------------------- receiver
type receiver struct {
	w     *world
	ch    chan link.ReceiveStatus
	q     chan *rstat // announced in order
	known []block
	next  int // first block not announced yet
	kn    int // first block the receiver does not know yet
}

func newReceiver(w *world) *receiver {
	r := &receiver{w: w, ch: make(chan link.ReceiveStatus), q: make(chan *rstat, 100)}
	go func() {
		defer func() { _ = recover() }()
		for rs := range r.q {
			r.ch <- rs
		}
	}()
	return r
}
func (r *receiver) Start(bls *types.BMCLinkStatus) (<-chan link.ReceiveStatus, error) {
	r.w.mu.Lock()
	defer r.w.mu.Unlock()
	if r.w.fail("r.Start") {
		return nil, errInjected
	}
	for r.next < len(r.w.blocks) && r.w.blocks[r.next].h < bls.Verifier.Height {
		r.next++
	}
	r.kn = r.next
	return r.ch, nil
}
func (r *receiver) Stop() {}
func (r *receiver) GetStatus() (link.ReceiveStatus, error) {
	return nil, errors.New("not used")
}

func (r *receiver) BuildBlockUpdate(bls *types.BMCLinkStatus, limit int64) ([]link.BlockUpdate, error) {
	r.w.mu.Lock()
	defer r.w.mu.Unlock()
	if r.w.fail("r.BuildBlockUpdate") {
		return nil, errInjected
	}
	res := []link.BlockUpdate{}
	for _, b := range r.known {
		if b.h <= bls.Verifier.Height {
			continue
		}
		if r.w.s.Batch > 0 && len(res) == r.w.s.Batch {
			break
		}
		x := &bu{item{T: "bu", H: b.h, Sz: b.bu, typ: link.TypeBlockUpdate, startSq: bls.Verifier.Height}}
		if r.w.s.Mode == "bridge" {
			x.Sz = 0
		}
		res = append(res, x)
	}
	return res, nil
}
func (r *receiver) BuildBlockProof(bls *types.BMCLinkStatus, height int64) (link.BlockProof, error) {
	return nil, nil
}
func (r *receiver) BuildMessageProof(bls *types.BMCLinkStatus, limit int64) (link.MessageProof, error) {
	r.w.mu.Lock()
	defer r.w.mu.Unlock()
	if r.w.fail("r.BuildMessageProof") {
		return nil, errInjected
	}
	for _, b := range r.known {
		if r.w.s.Mode == "btp2" && b.h != bls.Verifier.Height {
			continue
		}
		if bls.RxSeq+1 < b.first || bls.RxSeq+1 > b.last {
			continue
		}
		to := bls.RxSeq + 1
		for to < b.last && (to+1-bls.RxSeq)*b.sz <= limit {
			to++
		}
		return &mp{item{T: "mp", H: b.h, From: bls.RxSeq + 1, To: to, Sz: (to - bls.RxSeq) * b.sz,
			typ: link.TypeMessageProof, startSq: bls.RxSeq}}, nil
	}
	return nil, nil
}
func (r *receiver) GetHeightForSeq(seq int64) int64 {
	r.w.mu.Lock()
	defer r.w.mu.Unlock()
	for _, b := range r.known {
		if b.first <= seq && seq <= b.last {
			return b.h
		}
	}
	return 0
}
func (r *receiver) FinalizedStatus(bls *types.BMCLinkStatus) {
	r.w.mu.Lock()
	defer r.w.mu.Unlock()
	k := []block{}
	for _, b := range r.known {
		if b.h > bls.Verifier.Height || b.last > bls.RxSeq {
			k = append(k, b)
		}
	}
	r.known = k
}
func (r *receiver) BuildRelayMessage(rmis []link.RelayMessageItem) ([]byte, error) {
	r.w.mu.Lock()
	defer r.w.mu.Unlock()
	if r.w.fail("r.BuildRelayMessage") {
		return nil, errInjected
	}
	its := []item{}
	for _, x := range rmis {
		switch t := x.(type) {
		case *bu:
			if r.w.s.Mode == "btp2" {
				its = append(its, t.item)
			}
		case *mp:
			if r.w.s.Mode == "bridge" {
				return json.Marshal([]item{t.item})
			}
			its = append(its, t.item)
		}
	}
	if r.w.s.Mode == "bridge" {
		return nil, nil
	}
	return json.Marshal(its)
}

// ------------------------------------------------------------------ sender
type sender struct {
	w  *world
	ch chan types.SenderMessage
}

func (s *sender) Start() (<-chan types.SenderMessage, error) {
	s.w.mu.Lock()
	defer s.w.mu.Unlock()
	if s.w.fail("s.Start") {
		return nil, errInjected
	}
	return s.ch, nil
}
func (s *sender) Stop() {}
func (w *world) status() *types.BMCLinkStatus {
	b := &types.BMCLinkStatus{RxSeq: w.seq}
	b.Verifier.Height = w.h
	return b
}
func (s *sender) GetStatus() (*types.BMCLinkStatus, error) {
	s.w.mu.Lock()
	defer s.w.mu.Unlock()
	if s.w.fail("s.GetStatus") {
		return nil, errInjected
	}
	s.w.rec.Add(Ev{"op": "getstatus", "h": s.w.h, "seq": s.w.seq})
	return s.w.status(), nil
}
func (s *sender) Relay(rm types.RelayMessage) (int, error) {
	s.w.mu.Lock()
	defer s.w.mu.Unlock()
	if s.w.fail("s.Relay") {
		return 0, errInjected
	}
	var its []item
	if len(rm.Bytes()) > 0 {
		Must(json.Unmarshal(rm.Bytes(), &its))
	}
	if its == nil {
		its = []item{}
	}
	s.w.rec.Add(Ev{"op": "relay", "items": its})
	s.w.pending = append(s.w.pending, &tx{id: rm.Id(), items: its, own: s})
	return rm.Id(), nil
}
func (s *sender) GetMarginForLimit() int64 { return s.w.s.Margin }
func (s *sender) TxSizeLimit() int         { return int(s.w.s.Limit + s.w.s.Margin) }

// ------------------------------------------------------------- destination
// exec is the BMC and BMV of the destination: all of a relay message or nothing.
func (w *world) exec(t *tx) int {
	h, seq := w.h, w.seq
	lastOf := func(h int64) int64 {
		r := int64(0)
		for _, b := range w.blocks {
			if b.h <= h {
				r = b.last
			}
		}
		return r
	}
	for _, it := range t.items {
		if it.T == "bu" {
			if it.H <= h {
				return 27
			}
			for _, b := range w.blocks {
				if b.h > h && b.h < it.H {
					return 26
				}
			}
			if seq < lastOf(h) {
				return 26
			}
			h = it.H
		} else {
			if it.From <= seq {
				return 27
			}
			if it.From != seq+1 {
				return 26
			}
			if w.s.Mode == "bridge" {
				h = it.H
			}
			if it.H != h {
				return 26
			}
			seq = it.To
		}
	}
	w.h, w.seq = h, seq
	return 0
}

type logger struct {
	log.Logger
	w *world
}

func (l *logger) WithFields(log.Fields) log.Logger { return l }
func (l *logger) stop(s string) {
	l.w.mu.Lock()
	l.w.rec.Add(Ev{"op": "panicf"})
	l.w.ended = true
	l.w.mu.Unlock()
	runtime.Goexit()
}
func (l *logger) Panicf(f string, a ...interface{}) { l.stop(fmt.Sprintf(f, a...)) }
func (l *logger) Panic(a ...interface{})            { l.stop(fmt.Sprint(a...)) }
func (l *logger) Panicln(a ...interface{})          { l.stop(fmt.Sprint(a...)) }
func (l *logger) Fatalf(f string, a ...interface{}) { l.stop(fmt.Sprintf(f, a...)) }
func (l *logger) Fatal(a ...interface{})            { l.stop(fmt.Sprint(a...)) }
func (l *logger) Fatalln(a ...interface{})          { l.stop(fmt.Sprint(a...)) }
func (l *logger) Errorf(f string, a ...interface{}) {}
func (l *logger) Debugf(f string, a ...interface{}) {}

func settle() {
	synctest.Wait()
	time.Sleep(time.Minute)
	synctest.Wait()
}

type relay struct {
	r *receiver
	s *sender
}

func (w *world) start() *relay {
	x := &relay{newReceiver(w), &sender{w, make(chan types.SenderMessage)}}
	cfg := &chain.Config{}
	cfg.Src.Address = "btp://0x1.icon/cx01"
	cfg.Dst.Address = "btp://0x2.icon/cx02"
	lg := &logger{log.New(), w}
	lg.Logger.SetLevel(log.PanicLevel)
	w.rec.Add(Ev{"op": "start"})
	lk := link.NewLink(cfg, x.r, lg)
	go func() {
		err := lk.Start(x.s)
		w.mu.Lock()
		defer w.mu.Unlock()
		w.ended = true
		w.rec.Add(Ev{"op": "end", "err": err != nil})
	}()
	return x
}

func runScenario(raw json.RawMessage, rec *Rec) {
	var s scenario
	Un(raw, &s)
	w := &world{rec: rec, s: s}
	h, seq := int64(10), int64(0)
	for i, b := range s.Blocks {
		h += 1 + int64(i%2)*2
		w.blocks = append(w.blocks, block{h, seq + 1, seq + int64(b.N), b.Bu, b.Sz})
		seq += int64(b.N)
	}
	w.h = 9
	if s.B0 > 0 {
		w.h = w.blocks[s.B0-1].h
		w.seq = w.blocks[s.B0-1].last - int64(s.S0)
	}
	bl := []Ev{}
	for _, b := range w.blocks {
		bl = append(bl, Ev{"h": b.h, "first": b.first, "last": b.last})
	}
	rec.Add(Ev{"op": "begin", "limit": s.Limit, "mode": s.Mode, "burst": s.Burst, "blocks": bl})
	x := w.start()
	done := func() bool {
		w.mu.Lock()
		defer w.mu.Unlock()
		return w.ended
	}
	quiet := func() {
		settle()
		w.mu.Lock()
		defer w.mu.Unlock()
		if !w.ended {
			rec.Add(Ev{"op": "quiet", "failed": w.failed})
		}
	}
	pause := func() {
		if !s.Burst {
			quiet()
		}
	}
	settle()
	know := func() bool {
		w.mu.Lock()
		defer w.mu.Unlock()
		if x.r.kn < len(w.blocks) {
			x.r.known = append(x.r.known, w.blocks[x.r.kn])
			x.r.kn++
			return true
		}
		return false
	}
	announce := func() bool {
		w.mu.Lock()
		if x.r.next >= len(w.blocks) {
			w.mu.Unlock()
			return false
		}
		b := w.blocks[x.r.next]
		if x.r.kn <= x.r.next {
			x.r.known = append(x.r.known, b)
			x.r.kn++
		}
		x.r.next++
		rec.Add(Ev{"op": "rs", "h": b.h, "seq": b.last})
		w.mu.Unlock()
		x.r.q <- &rstat{b.h, b.last}
		return true
	}
	execute := func(k int) bool {
		w.mu.Lock()
		if len(w.pending) == 0 {
			w.mu.Unlock()
			return false
		}
		k = k % len(w.pending)
		t := w.pending[k]
		w.pending = append(append([]*tx{}, w.pending[:k]...), w.pending[k+1:]...)
		code := w.exec(t)
		st := w.status()
		if t.own == x.s {
			if code != 0 {
				rec.Add(Ev{"op": "result", "code": code})
			}
			rec.Add(Ev{"op": "status", "h": w.h, "seq": w.seq})
		}
		w.mu.Unlock()
		if t.own == x.s {
			sd := x.s
			send(func() {
				if code != 0 {
					sd.ch <- &types.RelayResult{Id: t.id, Err: berr.Code(code)}
				}
				sd.ch <- st
			})
		}
		return true
	}
	for _, st := range s.Steps {
		st := st // the module is built with the loop variables of go 1.13
		if done() {
			break
		}
		switch st.Op {
		case "know":
			know()
		case "block":
			announce()
		case "exec":
			execute(st.K)
		case "other": // someone else relays up to the end of the next K blocks
			w.mu.Lock()
			n := 0
			for _, b := range w.blocks {
				if (b.h > w.h || b.last > w.seq) && n <= st.K {
					w.h, w.seq = b.h, b.last
					n++
				}
			}
			w.mu.Unlock()
		case "notify":
			w.mu.Lock()
			ss := w.status()
			rec.Add(Ev{"op": "status", "h": w.h, "seq": w.seq})
			w.mu.Unlock()
			sd := x.s
			send(func() { sd.ch <- ss })
		case "restart":
			if s.Burst {
				settle()
			}
			w.mu.Lock()
			if w.ended {
				w.mu.Unlock()
				break
			}
			w.mu.Unlock()
			x = w.start()
			settle()
		case "code": // the destination rejects the next transaction with this code
			w.mu.Lock()
			if len(w.pending) == 0 || w.pending[0].own != x.s {
				w.mu.Unlock()
				break
			}
			t := w.pending[0]
			w.pending = w.pending[1:]
			rec.Add(Ev{"op": "result", "code": st.K})
			w.mu.Unlock()
			sd := x.s
			send(func() { sd.ch <- &types.RelayResult{Id: t.id, Err: berr.Code(st.K)} })
		case "close":
			w.mu.Lock()
			rec.Add(Ev{"op": "inject", "call": "close-" + st.S})
			w.failed = true
			w.mu.Unlock()
			if st.S == "r" {
				close(x.r.ch)
			} else {
				close(x.s.ch)
			}
		}
		pause()
	}
	// let the environment finish everything
	for n := 0; n < 400 && !done(); n++ {
		if announce() {
			pause()
			continue
		}
		settle()
		if !execute(0) {
			break
		}
		pause()
	}
	settle()
	if !done() {
		quiet()
		w.mu.Lock()
		rec.Add(Ev{"op": "final", "h": w.h, "seq": w.seq})
		w.mu.Unlock()
	}
	w.mu.Lock()
	rec.Add(Ev{"op": "over"})
	w.mu.Unlock()
}

// send hands a value to the code under test without waiting for it
func send(f func()) {
	go func() {
		defer func() { _ = recover() }()
		f()
	}()
}

func main() {
	Main(map[string]func([]json.RawMessage, int64, []string) []Trace{
		"link": func(scn []json.RawMessage, seed int64, args []string) []Trace {
			return Isolated(scn, runtime.NumCPU(), 60*time.Second, func(loop func()) {
				testing.Main(func(a, b string) (bool, error) { return true, nil },
					[]testing.InternalTest{{Name: "x", F: func(t *testing.T) {
						synctest.Test(t, func(*testing.T) { loop() })
					}}}, nil, nil)
			}, runScenario)
		},
	})
}
