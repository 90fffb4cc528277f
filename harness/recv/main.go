// Driver of the receivers (chain/icon/btp2, chain/icon/bridge, chain/ethbr): the
// real receiver against a node played by the driver.
package main

import (
	"encoding/json"
	"fmt"
	"runtime"
	"strings"
	"sync"
	"time"

	"github.com/icon-project/btp/chain/ethbr"
	ethcl "github.com/icon-project/btp/chain/ethbr/client"
	"github.com/icon-project/btp/chain/icon/bridge"
	"github.com/icon-project/btp/chain/icon/btp2"
	"github.com/icon-project/btp/common/link"
	"github.com/icon-project/btp/common/log"
	"github.com/icon-project/btp/common/types"
	"github.com/icon-project/btp/zzverif/fakeevm"
	"github.com/icon-project/btp/zzverif/fakeicon"
	. "github.com/icon-project/btp/zzverif/vh"
)

const (
	iconAddr = types.BtpAddress("btp://0x1.icon/cx0000000000000000000000000000000000000001")
	evmAddr  = types.BtpAddress("btp://0x61.bsc/0x1000000000000000000000000000000000000001")
	netID    = 7
)

type blockDef struct {
	N   int `json:"n"`
	Sz  int `json:"sz"`
	Gap int `json:"gap"`
}
type step struct {
	Op  string `json:"op"`
	K   int    `json:"k"`
	B   int    `json:"b"`
	S   int    `json:"s"`
	Lim int64  `json:"lim"`
}
type scenario struct {
	Kind   string     `json:"kind"` // btp2 | bridge | ethbr
	Ws     bool       `json:"ws"`   // ethbr: subscription or polling
	Blocks []blockDef `json:"blocks"`
	Off    int64      `json:"off"`
	Start  int        `json:"start"` // index of the first block of the network is this much after start height
	B0     int        `json:"b0"`
	S0     int        `json:"s0"`
	Pre    int        `json:"pre"`
	Fault  string     `json:"fault"`
	At     int        `json:"at"`
	Steps  []step     `json:"steps"`
}

type blk struct{ h, first, last int64 } // first > last: no message

type world struct {
	scenario
	blocks []blk
	msgs   map[int64][]byte // by sequence
	bulen  []int
	txs    map[int64]int64
	icon   *fakeicon.Node
	evm    *fakeevm.Node
	ib     []*fakeicon.Block
	eb     []*fakeevm.Block
	npub   int
}

func msgOf(seq int64, sz int) []byte {
	s := fmt.Sprintf("m%d-", seq)
	for len(s) < sz {
		s += string(rune('a' + (int(seq)+len(s))%26))
	}
	return []byte(s)
}

func build(s scenario) *world {
	w := &world{scenario: s, msgs: map[int64][]byte{}, txs: map[int64]int64{}}
	h := int64(100)
	// block 0 opens the network and carries no message
	w.blocks = []blk{{h: h, first: s.Off + 1, last: s.Off}}
	seq := s.Off
	for _, d := range s.Blocks {
		h += int64(d.Gap)
		b := blk{h: h, first: seq + 1, last: seq + int64(d.N)}
		for i := 0; i < d.N; i++ {
			seq++
			w.msgs[seq] = msgOf(seq, d.Sz)
			// messages are spread over transactions, in order, with holes
			w.txs[seq] = int64(i/2)*3 + 1
		}
		w.blocks = append(w.blocks, b)
	}
	switch s.Kind {
	case "ethbr":
		w.evm = fakeevm.New()
		w.evm.BMC = evmAddr.ContractAddress()
		next := int64(99)
		for i, b := range w.blocks {
			for ; next < b.h; next++ { // blocks without messages of ours in between
				w.eb = append(w.eb, fakeevm.NewBlock(next))
			}
			eb := fakeevm.NewBlock(b.h)
			for q := b.first; q <= b.last; q++ {
				if q%3 == 0 { // other logs which are not ours
					eb.Logs = append(eb.Logs, fakeevm.Log{Tx: uint(w.txs[q]), Next: "btp://0x9.other/0x01", Seq: q + 1 + int64(i), Msg: []byte("other")})
					eb.Logs = append(eb.Logs, fakeevm.Log{Tx: uint(w.txs[q]), Next: string(iconAddr), Seq: q + 1, Msg: []byte("fake"), Foreign: true})
				}
				eb.Logs = append(eb.Logs, fakeevm.Log{Tx: uint(w.txs[q]), Next: string(iconAddr), Seq: q, Msg: w.msgs[q]})
			}
			w.eb = append(w.eb, eb)
			w.bulen = append(w.bulen, 0)
			next = b.h + 1
		}
	default:
		w.icon = fakeicon.New()
		w.icon.Nid, w.icon.Offset, w.icon.Start = netID, s.Off, w.blocks[0].h-1
		for i, b := range w.blocks {
			var m [][]byte
			for q := b.first; q <= b.last; q++ {
				m = append(m, w.msgs[q])
			}
			x := fakeicon.MakeBlock(b.h, netID, b.first-1-s.Off, int64(i%2), m, i%3*20)
			w.ib = append(w.ib, x)
			if s.Kind == "btp2" {
				w.bulen = append(w.bulen, len(EncList(EncBytes(x.Header), EncBytes(x.Proof))))
			} else {
				w.bulen = append(w.bulen, 0)
			}
		}
	}
	return w
}

func (w *world) publish(k int) {
	for ; k > 0 && w.npub < len(w.blocks); k-- {
		if w.icon != nil {
			w.icon.Publish(w.ib[w.npub])
		} else {
			h := w.blocks[w.npub].h
			var p []*fakeevm.Block
			for len(w.eb) > 0 && w.eb[0].Number <= h {
				p = append(p, w.eb[0])
				w.eb = w.eb[1:]
			}
			w.evm.Publish(p...)
			if w.npub%2 == 1 && w.npub > w.B0 { // the same head again
				w.evm.Announce(p[len(p)-1])
			}
		}
		w.npub++
	}
}

func (w *world) status(b, s int) *types.BMCLinkStatus {
	if b >= len(w.blocks) {
		b = len(w.blocks) - 1
	}
	x := w.blocks[b]
	q := x.first - 1 + int64(s)
	if q > x.last {
		q = x.last
	}
	st := &types.BMCLinkStatus{RxSeq: q, TxSeq: 77}
	st.Verifier.Height = x.h
	return st
}

// must tells whether block i has to be announced
func (w *world) must(i int, st *types.BMCLinkStatus) bool {
	b := w.blocks[i]
	if i == 0 || b.h < st.Verifier.Height {
		return false
	}
	if b.h == st.Verifier.Height {
		return b.last > st.RxSeq
	}
	return w.Kind == "btp2" || b.last >= b.first
}

func logger() log.Logger {
	l := log.New()
	l.SetLevel(log.PanicLevel)
	return l
}

var timeouts int // scenarios that did not come to rest

func run(raw json.RawMessage, rec *Rec) {
	var s scenario
	Un(raw, &s)
	if timeouts >= 3 {
		return // enough is known
	}
	w := build(s)
	var r link.Receiver
	ethcl.BlockRetryInterval = 2 * time.Millisecond
	ethcl.BlockRetryLimit = 100000
	l := logger()
	bs := []Ev{}
	for i, b := range w.blocks {
		bs = append(bs, Ev{"h": b.h, "first": b.first, "last": b.last, "bu": w.bulen[i]})
	}
	txs := []int64{}
	for q := s.Off + 1; q <= w.blocks[len(w.blocks)-1].last; q++ {
		txs = append(txs, w.txs[q])
	}
	st := w.status(s.B0, s.S0)
	rec.Add(Ev{"op": "begin", "kind": s.Kind, "blocks": bs, "off": s.Off, "h": st.Verifier.Height, "seq": st.RxSeq, "txs": txs})
	var rmu sync.Mutex
	switch s.Kind {
	case "ethbr":
		w.evm.Fault = func(method string, n int64) string {
			if w.deadly() && n == w.faultH() && method == s.Fault {
				return "fail"
			}
			return ""
		}
		w.evm.WSFault = func(n int64) bool { return w.deadly() && s.Fault == "drop" && n == w.faultH() }
		w.publish(s.Pre)
		url := w.evm.URL()
		if s.Ws {
			url = w.evm.WSURL()
		}
		r = ethbr.NewEthBridge(evmAddr, iconAddr, url, l)
	default:
		w.icon.OnWS = func(req map[string]string) {
			var h int64
			_, _ = fmt.Sscanf(req["height"], "0x%x", &h)
			rmu.Lock()
			rec.Add(Ev{"op": "req", "h": h, "nid": req["networkID"] == fmt.Sprintf("0x%x", netID)})
			rmu.Unlock()
		}
		w.icon.WSFault = func(i int) string {
			if i == s.At && strings.HasPrefix(s.Fault, "ws-") {
				return s.Fault[3:]
			}
			return ""
		}
		w.icon.Hook = func(method string, params json.RawMessage) (interface{}, *fakeicon.RPCError, bool) {
			p := string(params)
			fail := &fakeicon.RPCError{Code: -32000, Message: "injected"}
			switch {
			case s.Fault == "netid" && strings.Contains(p, "getBTPLinkNetworkId"),
				s.Fault == "offset" && strings.Contains(p, "getBTPLinkOffset"),
				s.Fault == "netinfo" && method == "btp_getNetworkInfo":
				return nil, fail, true
			case s.At < len(w.blocks) && strings.Contains(p, fmt.Sprintf("\"height\":\"0x%x\"", w.blocks[s.At].h)):
				switch {
				case s.Fault == "messages" && method == "btp_getMessages":
					return nil, fail, true
				case s.Fault == "badmsg" && s.At != s.B0 && method == "btp_getMessages":
					return []string{"***"}, nil, true
				case s.Fault == "gateway" && method == "btp_getMessages":
					return nil, &fakeicon.RPCError{Code: 599}, true
				case s.Fault == "header" && method == "btp_getHeader",
					s.Fault == "proof" && method == "btp_getProof":
					return nil, fail, true
				}
			}
			return nil, nil, false
		}
		w.publish(s.Pre)
		if s.Kind == "btp2" {
			r = btp2.NewBTP2(iconAddr, evmAddr, w.icon.URL(), l)
		} else {
			r = bridge.NewBridge(iconAddr, evmAddr, w.icon.URL(), l)
		}
	}
	defer func() {
		if w.icon != nil {
			w.icon.Close()
		} else {
			w.evm.Close()
		}
	}()
	rsc, err := r.Start(st)
	rec.Add(Ev{"op": "start", "ok": err == nil, "fault": w.effective(), "at": w.faultH()})
	if err != nil {
		return
	}
	if w.evm != nil {
		select {
		case <-w.evm.Ready:
		case <-time.After(5 * time.Second):
		}
	}
	var mu sync.Mutex
	top, closed, late := int64(0), false, false
	go func() {
		for rs := range rsc {
			if rs == nil {
				rec.Add(Ev{"op": "rs", "h": -1, "seq": -1})
				continue
			}
			rec.Add(Ev{"op": "rs", "h": rs.Height(), "seq": rs.Seq()})
			mu.Lock()
			if rs.Height() > top {
				top = rs.Height()
			}
			mu.Unlock()
		}
		mu.Lock()
		closed = true
		rec.Add(Ev{"op": "closed"})
		mu.Unlock()
	}()
	sync := func() {
		want := int64(0)
		for i := 0; i < w.npub; i++ {
			if w.must(i, st) {
				want = w.blocks[i].h
			}
		}
		// a fault that ends the receiver is awaited, too
		dead := w.deadly() && w.faultReached()
		end := time.Now().Add(8 * time.Second)
		if dead {
			// a request that meets the broken connection is only given up after the
			// client's own time limit (10 s)
			end = end.Add(20 * time.Second)
		}
		for !late {
			mu.Lock()
			d := closed || (!dead && top >= want)
			mu.Unlock()
			if d {
				break
			}
			if time.Now().After(end) {
				late = true
				timeouts++
				rec.Slow()
			}
			time.Sleep(300 * time.Microsecond)
		}
		rec.Add(Ev{"op": "sync", "h": w.blocks[max(w.npub-1, 0)].h, "dead": dead})
	}
	for _, x := range s.Steps {
		switch x.Op {
		case "pub":
			w.publish(x.K)
		case "q":
			sync()
			w.query(r, w.status(x.B, x.S), x.Lim, rec)
		case "hgt":
			sync()
			q := s.Off + int64(x.S)
			h := int64(-1)
			if p := Try(func() { h = r.GetHeightForSeq(q) }); p != "" {
				h = -2
			}
			rec.Add(Ev{"op": "hgt", "seq": q, "h": h})
		case "fin":
			f := w.status(x.B, x.S)
			sync()
			r.FinalizedStatus(f)
			rec.Add(Ev{"op": "fin", "h": f.Verifier.Height, "seq": f.RxSeq})
		}
	}
	w.publish(1000)
	sync()
	time.Sleep(4 * time.Millisecond)
	rec.Add(Ev{"op": "over"})
	rec.End()
}

func max(a, b int) int {
	if a > b {
		return a
	}
	return b
}

// faultH is the height of the block whose processing fails (0: none)
func (w *world) faultH() int64 {
	if w.Fault == "" || w.Fault == "offset" || w.At >= len(w.blocks) {
		return 0
	}
	return w.blocks[w.At].h
}

// effective is the fault that will be met by this receiver, if all blocks are published
func (w *world) effective() string {
	switch w.Fault {
	case "netid", "netinfo", "header", "proof", "offset":
		return w.Fault
	}
	n := w.npub
	w.npub = len(w.blocks)
	defer func() { w.npub = n }()
	if w.deadly() && w.faultReached() {
		return w.Fault
	}
	return ""
}

// deadly: the fault must end the receiver once it is reached
func (w *world) deadly() bool {
	switch w.Fault {
	case "", "header", "proof", "netid", "netinfo":
		return false
	case "eth_getBlockByNumber":
		return w.Ws && w.At < w.Pre-1 // asked for only when catching up
	case "drop":
		return w.Ws && w.At >= w.Pre
	}
	return true
}

func (w *world) faultReached() bool {
	if w.Fault == "offset" {
		return true
	}
	if w.At >= len(w.blocks) || w.At >= w.npub {
		return false
	}
	if w.Kind != "ethbr" && w.At == 0 && !strings.HasPrefix(w.Fault, "ws-") {
		return false // its messages are never asked for
	}
	if w.Fault == "drop" {
		return true
	}
	if w.Fault == "badmsg" && w.At == w.B0 {
		return false // delivered messages need not be looked at
	}
	return w.blocks[w.At].h >= w.status(w.B0, w.S0).Verifier.Height
}

type item struct {
	T    string `json:"t"`
	H    int64  `json:"h"`
	Ok   bool   `json:"ok"`
	Left int64  `json:"left"`
	Ms   []msg  `json:"ms"`
}
type msg struct {
	Seq int64 `json:"seq"`
	ID  int64 `json:"id"`
	H   int64 `json:"h"`
	Tx  int64 `json:"tx"`
	Ok  bool  `json:"ok"`
}

func (w *world) idOf(m []byte) int64 {
	for q, x := range w.msgs {
		if string(x) == string(m) {
			return q
		}
	}
	return -1
}

// decode reads a relay message as the destination would
func (w *world) decode(b []byte, at int64) (res []item, ok bool) {
	res = []item{}
	if len(b) == 0 {
		return res, true
	}
	n, err := DecAll(b)
	if err != nil || !n.List || len(n.L) != 1 || !n.L[0].List {
		return res, false
	}
	if w.Kind == "btp2" {
		cur := at
		for _, x := range n.L[0].L {
			if !x.List || len(x.L) != 2 {
				return res, false
			}
			p := x.L[1].B
			switch IntOf(x.L[0].B) {
			case 1:
				it := item{T: "bu", H: -1, Ms: []msg{}}
				u, err := DecAll(p)
				if err == nil && u.List && len(u.L) == 2 {
					for i, ib := range w.ib {
						if string(ib.Header) == string(u.L[0].B) {
							it.H = w.blocks[i].h
							it.Ok = string(ib.Proof) == string(u.L[1].B)
						}
					}
				}
				cur = it.H
				res = append(res, it)
			case 2:
				it := item{T: "mp", H: -1, Ms: []msg{}}
				for i, wb := range w.blocks {
					if wb.h == cur && len(w.ib[i].Msgs) > 0 {
						it.H = cur
						left, cs, ok := fakeicon.CheckProof(p, fakeicon.Root(w.ib[i].Msgs), len(w.ib[i].Msgs))
						it.Left, it.Ok = int64(left), ok
						for k, c := range cs {
							it.Ms = append(it.Ms, msg{Seq: wb.first + int64(left+k), ID: w.idOf(c), H: cur, Ok: true})
						}
					}
				}
				res = append(res, it)
			default:
				return res, false
			}
		}
		return res, true
	}
	it := item{T: "mp", H: -1, Ok: true, Ms: []msg{}}
	want := string(evmAddr)
	if w.Kind == "ethbr" {
		want = string(iconAddr)
	}
	for _, x := range n.L[0].L {
		rc, err := DecAll(x.B)
		if x.List || err != nil || !rc.List || len(rc.L) != 3 {
			return res, false
		}
		es, err := DecAll(rc.L[1].B)
		if err != nil || !es.List {
			return res, false
		}
		for _, e := range es.L {
			if !e.List || len(e.L) != 3 {
				return res, false
			}
			sq := IntOf(e.L[1].B)
			if w.Kind == "ethbr" {
				sq = UintOf(e.L[1].B)
			}
			it.H = IntOf(rc.L[2].B)
			it.Ms = append(it.Ms, msg{Seq: sq, ID: w.idOf(e.L[2].B), H: it.H, Tx: IntOf(rc.L[0].B), Ok: string(e.L[0].B) == want})
		}
	}
	return append(res, it), true
}

func cp(s *types.BMCLinkStatus) *types.BMCLinkStatus {
	x := *s
	return &x
}

func (w *world) query(r link.Receiver, st *types.BMCLinkStatus, lim int64, rec *Rec) {
	var all []link.RelayMessageItem
	ev := Ev{"op": "bu", "h": st.Verifier.Height, "seq": st.RxSeq, "lim": lim, "err": false, "bus": []Ev{}}
	arg := cp(st)
	bus, err := r.BuildBlockUpdate(arg, lim)
	ev["err"] = err != nil
	l := []Ev{}
	if err == nil {
		for _, bu := range bus {
			a := cp(st)
			e2 := bu.UpdateBMCLinkStatus(a)
			l = append(l, Ev{"h": bu.TargetHeight(), "len": bu.Len(), "typ": int(bu.Type()),
				"moved": e2 == nil && a.RxSeq == st.RxSeq && a.TxSeq == st.TxSeq && a.Verifier.Height == bu.TargetHeight()})
			all = append(all, bu)
		}
	}
	ev["bus"] = l
	ev["same"] = arg.RxSeq == st.RxSeq && arg.Verifier.Height == st.Verifier.Height && arg.TxSeq == st.TxSeq
	rec.Add(ev)
	bp, err := r.BuildBlockProof(cp(st), st.Verifier.Height)
	rec.Add(Ev{"op": "bp", "nil": bp == nil, "err": err != nil})
	flen, fto := int64(-1), int64(-1)
	full, err := r.BuildMessageProof(cp(st), 1<<40)
	if err == nil && !isNil(full) {
		flen, fto = full.Len(), full.LastSeqNum()
	}
	arg = cp(st)
	mp, err := r.BuildMessageProof(arg, lim)
	ev = Ev{"op": "mp", "h": st.Verifier.Height, "seq": st.RxSeq, "lim": lim, "err": err != nil, "nil": isNil(mp), "flen": flen, "fto": fto,
		"same": arg.RxSeq == st.RxSeq && arg.Verifier.Height == st.Verifier.Height && arg.TxSeq == st.TxSeq}
	if err == nil && !isNil(mp) {
		a := cp(st)
		e2 := mp.UpdateBMCLinkStatus(a)
		b, e3 := r.BuildRelayMessage([]link.RelayMessageItem{mp})
		its, ok := w.decode(b, st.Verifier.Height)
		ev["to"], ev["len"], ev["typ"] = mp.LastSeqNum(), mp.Len(), int(mp.Type())
		ev["moved"] = e2 == nil && a.RxSeq == mp.LastSeqNum() && a.TxSeq == st.TxSeq && a.Verifier.Height == st.Verifier.Height
		ev["items"], ev["ok"] = its, ok && e3 == nil
		plen := int64(0)
		if w.Kind == "btp2" {
			if n, err := DecAll(b); err == nil && len(n.L) == 1 && len(n.L[0].L) == 1 && len(n.L[0].L[0].L) == 2 {
				plen = int64(len(n.L[0].L[0].L[1].B))
			}
		} else {
			plen = int64(len(b))
		}
		ev["plen"] = plen
		ev["nlen"] = int64(0)
		if w.Kind == "btp2" {
			for i, b := range w.blocks {
				if b.h == st.Verifier.Height && mp.LastSeqNum() < b.last {
					ev["nlen"] = fakeicon.ProofLen(w.ib[i].Msgs, int(st.RxSeq-b.first+1), int(mp.LastSeqNum()-b.first+1))
				}
			}
		}
		if w.Kind == "btp2" {
			// a relay message keeps its items in order: this proof, then the blocks after it
			mix := append([]link.RelayMessageItem{mp}, all...)
			b, e3 = r.BuildRelayMessage(mix)
			its, ok = w.decode(b, st.Verifier.Height)
			rec.Add(ev)
			hs := []int64{}
			for _, it := range its {
				hs = append(hs, it.H)
			}
			rec.Add(Ev{"op": "msg", "h": st.Verifier.Height, "bus": l, "items": its, "ok": ok && e3 == nil})
			return
		}
		rec.Add(ev)
		mix := append(append([]link.RelayMessageItem{}, all...), mp)
		b2, e3 := r.BuildRelayMessage(mix)
		rec.Add(Ev{"op": "mix", "ok": e3 == nil && string(b2) == string(b)})
		b2, e3 = r.BuildRelayMessage(all)
		rec.Add(Ev{"op": "mix", "ok": e3 == nil && len(b2) == 0})
		return
	}
	rec.Add(ev)
}

func isNil(m link.MessageProof) bool { return m == nil }

func main() {
	Main(map[string]func([]json.RawMessage, int64, []string) []Trace{
		"recv": func(scn []json.RawMessage, seed int64, args []string) []Trace {
			return Isolated(scn, runtime.NumCPU(), 60*time.Second, func(loop func()) { loop() }, run)
		},
	})
}
