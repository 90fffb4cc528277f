// Driver of the senders (chain/icon, chain/ethbr): the real sender against a node
// played by the driver, which answers as the scenario says.
package main

import (
	"bytes"
	"crypto/sha3"
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/big"
	"math/rand"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/common/hexutil"
	ethtypes "github.com/ethereum/go-ethereum/core/types"
	ethcrypto "github.com/ethereum/go-ethereum/crypto"

	"github.com/icon-project/btp/chain/ethbr"
	"github.com/icon-project/btp/chain/icon"
	"github.com/icon-project/btp/common/log"
	"github.com/icon-project/btp/common/types"
	"github.com/icon-project/btp/common/wallet"
	"github.com/icon-project/btp/zzverif/fakeevm"
	"github.com/icon-project/btp/zzverif/fakeicon"
	. "github.com/icon-project/btp/zzverif/vh"
)

const (
	iconAddr = types.BtpAddress("btp://0x7.icon/cx00000000000000000000000000000000000000b1")
	evmAddr  = types.BtpAddress("btp://0x61.bsc/0x1000000000000000000000000000000000000001")
)

type ans struct {
	A string `json:"a"`
	C int    `json:"c"`
}
type msgDef struct {
	Base   int   `json:"base"` // size = base*limit + d
	D      int   `json:"d"`
	Sends  []ans `json:"sends"`
	Res    []ans `json:"res"`
	Status ans   `json:"status"`
	Wait   bool  `json:"wait"` // for the result before the next one
}
type scenario struct {
	Kind string   `json:"kind"`
	Gs   ans      `json:"gs"`
	Step int64    `json:"step"`
	Msgs []msgDef `json:"msgs"`
}

type rmsg struct {
	id int
	b  []byte
}

func (r *rmsg) Id() int       { return r.id }
func (r *rmsg) Bytes() []byte { return r.b }
func (r *rmsg) Size() int64   { return int64(len(r.b)) }

type world struct {
	sync.Mutex
	s      scenario
	rec    *Rec
	cur    int // message being relayed, from 1
	msgs   [][]byte
	sends  []int
	hashes map[string]int // tx hash -> id
	owner  map[int]int    // tx id -> message
	nres   map[int]int    // message -> answers given
	txs    map[string]*ethtypes.Transaction
	nst    int
	gs     bool
	waitSt int // statuses to be received
	waitRs int
	finals int
	stq    int // status queries
	last   map[int]int
	addr   string
	key    []byte
	limit  int
	hang   bool
}

func (w *world) hid(h string) int {
	if v, ok := w.hashes[h]; ok {
		return v
	}
	return -1
}

// serialize is the transaction serialization of ICON (join of sorted keys).
func serialize(v interface{}, top bool) string {
	switch x := v.(type) {
	case map[string]interface{}:
		ks := []string{}
		for k := range x {
			if !(top && k == "signature") {
				ks = append(ks, k)
			}
		}
		sort.Strings(ks)
		for i, k := range ks {
			ks[i] = serialize(k, false) + "." + serialize(x[k], false)
		}
		r := strings.Join(ks, ".")
		if top {
			return r
		}
		return "{" + r + "}"
	case []interface{}:
		r := []string{}
		for _, e := range x {
			r = append(r, serialize(e, false))
		}
		return "[" + strings.Join(r, ".") + "]"
	case string:
		r := strings.NewReplacer("\\", "\\\\", ".", "\\.", "{", "\\{", "}", "\\}", "[", "\\[", "]", "\\]")
		return r.Replace(x)
	case nil:
		return "\\0"
	}
	return fmt.Sprint(v)
}

func (w *world) offset(part []byte) int {
	if w.cur == 0 {
		return -1
	}
	if bytes.HasSuffix(w.msgs[w.cur-1], part) {
		return len(w.msgs[w.cur-1]) - len(part)
	}
	return bytes.Index(w.msgs[w.cur-1], part)
}

func (w *world) nextSend() ans {
	if w.cur == 0 {
		return ans{A: "err"}
	}
	d := w.s.Msgs[w.cur-1]
	i := w.sends[w.cur-1]
	w.sends[w.cur-1]++
	if i < len(d.Sends) {
		return d.Sends[i]
	}
	return ans{A: "ok"}
}

func (w *world) nextRes(m int) ans {
	d := w.s.Msgs[m-1].Res
	i := w.nres[m]
	if i < len(d) {
		w.nres[m]++
		return d[i]
	}
	return ans{A: "ok"}
}

func (w *world) peekRes(m int) ans {
	d := w.s.Msgs[m-1].Res
	if i := w.nres[m]; i < len(d) {
		return d[i]
	}
	return ans{A: "ok"}
}

func (w *world) final(coded bool) {
	w.finals++
	if coded {
		w.waitRs++
	}
}

func (w *world) statusAns() (ans, int) {
	w.nst++
	if w.gs {
		return w.s.Gs, w.nst
	}
	w.stq++
	a := ans{A: "ok"}
	if w.stq <= len(w.s.Msgs) {
		a = w.s.Msgs[w.stq-1].Status
	}
	if a.A == "ok" {
		w.waitSt++
	}
	return a, w.nst
}

func extra(k int) []byte { return []byte{0xe0, byte(k), 0x00, 0xff} }

// ------------------------------------------------------------------- ICON
func (w *world) icon(method string, params json.RawMessage) (interface{}, *fakeicon.RPCError, bool) {
	w.Lock()
	defer w.Unlock()
	fail := func(a ans) *fakeicon.RPCError {
		switch a.A {
		case "overflow":
			return &fakeicon.RPCError{Code: -31001, Message: "E2001:TxPoolOverflow"}
		case "expired":
			return &fakeicon.RPCError{Code: -31000, Message: "E2002:ExpiredTransaction"}
		case "dup":
			return &fakeicon.RPCError{Code: -31000, Message: "E2000:DuplicateTransaction"}
		case "future":
			return &fakeicon.RPCError{Code: -31000, Message: "E2003:FutureTransaction"}
		case "sys":
			return &fakeicon.RPCError{Code: -31000, Message: "x"}
		case "invalid":
			return &fakeicon.RPCError{Code: -32602, Message: "InvalidParams"}
		case "gateway":
			return &fakeicon.RPCError{Code: 599}
		case "pending":
			return &fakeicon.RPCError{Code: -31002, Message: "Pending"}
		case "executing":
			return &fakeicon.RPCError{Code: -31003, Message: "Executing"}
		case "notfound":
			return &fakeicon.RPCError{Code: -31004, Message: "NotFound"}
		}
		return &fakeicon.RPCError{Code: -32000, Message: "ServerError"}
	}
	switch method {
	case "icx_sendTransaction":
		var m map[string]interface{}
		dec := json.NewDecoder(bytes.NewReader(params))
		dec.UseNumber()
		Must(dec.Decode(&m))
		str := func(x interface{}) string { s, _ := x.(string); return s }
		sum := sha3.Sum256([]byte("icx_sendTransaction." + serialize(m, true)))
		hash := "0x" + hex.EncodeToString(sum[:])
		id, seen := w.hashes[hash]
		if !seen {
			id = len(w.hashes) + 1
			w.hashes[hash] = id
			w.owner[id] = w.cur
		}
		// the key which has signed it
		sig, _ := base64.StdEncoding.DecodeString(str(m["signature"]))
		signed := false
		if len(sig) == 65 {
			if pub, err := ethcrypto.Ecrecover(sum[:], sig); err == nil {
				a := sha3.Sum256(pub[1:])
				signed = "hx"+hex.EncodeToString(a[12:]) == str(m["from"])
			}
		}
		ts, err := strconv.ParseInt(str(m["timestamp"]), 0, 64)
		age := time.Now().UnixNano()/1000 - ts
		data, _ := m["data"].(map[string]interface{})
		ps, _ := data["params"].(map[string]interface{})
		part, e2 := base64.URLEncoding.DecodeString(str(ps["_msg"]))
		idx, e3 := int64(0), error(nil)
		if str(data["method"]) == "handleFragment" {
			idx, e3 = strconv.ParseInt(str(ps["_idx"]), 0, 64)
		}
		_, extra := ps["_idx"]
		a := w.nextSend()
		ok := str(m["version"]) == "0x3" && str(m["from"]) == w.addr && str(m["to"]) == iconAddr.Account() &&
			str(m["nid"]) == "0x7" && str(m["dataType"]) == "call" && str(ps["_prev"]) == evmAddr.String() &&
			e2 == nil && e3 == nil && (extra == (str(data["method"]) == "handleFragment"))
		step, e4 := strconv.ParseInt(str(m["stepLimit"]), 0, 64)
		want := w.s.Step
		if want <= 0 {
			want = 0x9502f900
		}
		ok = ok && e4 == nil && step == want
		w.rec.Add(Ev{"op": "send", "m": w.cur, "method": str(data["method"]), "idx": int(idx), "len": len(part),
			"off": w.offset(part), "ok": ok, "signed": signed, "fresh": err == nil && age > -2000000 && age < 60000000,
			"tx": id, "ans": a.A})
		if a.A == "ok" {
			return hash, nil, true
		}
		return nil, fail(a), true
	case "icx_getTransactionResult":
		var p struct {
			H string `json:"txHash"`
		}
		_ = json.Unmarshal(params, &p)
		id := w.hid(p.H)
		a := ans{A: "notfound"}
		if id > 0 {
			a = w.nextRes(w.owner[id])
		}
		kind := "none"
		switch a.A {
		case "pending", "executing":
			kind = "wait"
		case "ok":
			kind = "ok"
		case "code":
			if a.C >= 32 && a.C <= 99 {
				kind = "code"
			}
		}
		if kind != "wait" {
			w.final(kind == "code")
		}
		w.rec.Add(Ev{"op": "query", "tx": id, "ans": kind, "code": a.C - 32})
		r := map[string]interface{}{"to": iconAddr.Account(), "stepUsed": "0x1", "txHash": p.H, "blockHeight": "0x10",
			"blockHash": p.H, "txIndex": "0x0", "eventLogs": []interface{}{}}
		switch a.A {
		case "ok":
			r["status"] = "0x1"
			return r, nil, true
		case "code":
			r["status"] = "0x0"
			r["failure"] = map[string]string{"code": fmt.Sprintf("0x%x", a.C), "message": fmt.Sprintf("Reverted(%d)", a.C)}
			return r, nil, true
		case "nocode":
			r["status"] = "0x0"
			return r, nil, true
		}
		return nil, fail(a), true
	case "icx_call":
		var p struct {
			From, To, DataType string
			Data               struct {
				Method string
				Params map[string]string
			}
		}
		_ = json.Unmarshal(params, &p)
		if p.Data.Method == "getStatus" {
			a, k := w.statusAns()
			w.rec.Add(Ev{"op": "qs", "v": k, "ans": a.A, "ok": p.To == iconAddr.Account() && p.Data.Params["_link"] == evmAddr.String()})
			v := func(n int) string { return fmt.Sprintf("0x%x", n+k) }
			r := map[string]interface{}{"tx_seq": v(2000), "rx_seq": v(1000), "cur_height": "0x99",
				"verifier": map[string]string{"height": v(3000), "extra": "0x" + hex.EncodeToString(extra(k))}}
			switch a.A {
			case "ok":
				return r, nil, true
			case "badtx":
				r["tx_seq"] = "0xzz"
				return r, nil, true
			case "badrx":
				r["rx_seq"] = "0x11223344556677889900"
				return r, nil, true
			case "badheight":
				r["verifier"].(map[string]string)["height"] = "height"
				return r, nil, true
			case "badextra":
				r["verifier"].(map[string]string)["extra"] = "0xabc"
				return r, nil, true
			}
			return nil, fail(a), true
		}
	}
	return nil, nil, false
}

// -------------------------------------------------------------------- EVM
var selRelay = ethcrypto.Keccak256([]byte("handleRelayMessage(string,bytes)"))[:4]
var selStatus = ethcrypto.Keccak256([]byte("getStatus(string)"))[:4]

func word(b []byte, i int) int64 {
	if i < 0 || len(b) < i+32 {
		return -1
	}
	x := new(big.Int).SetBytes(b[i : i+32])
	if !x.IsInt64() {
		return -1
	}
	return x.Int64()
}

func dyn(b []byte, head int) []byte {
	o := word(b, head)
	if o < 0 || o > int64(len(b)) {
		return nil
	}
	n := word(b, int(o))
	if n < 0 || o+32+n > int64(len(b)) {
		return nil
	}
	return b[o+32 : o+32+n]
}

func w32(v int64) []byte { return common.LeftPadBytes(big.NewInt(v).Bytes(), 32) }

func (w *world) evm(method string, params []json.RawMessage) (interface{}, *fakeevm.Error, bool) {
	w.Lock()
	defer w.Unlock()
	injected := &fakeevm.Error{Code: -32000, Message: "injected"}
	peek := func() string {
		if w.cur > 0 {
			d := w.s.Msgs[w.cur-1]
			if i := w.sends[w.cur-1]; i < len(d.Sends) {
				return d.Sends[i].A
			}
		}
		return "ok"
	}
	arg := func(i int) string {
		var s string
		if i < len(params) {
			_ = json.Unmarshal(params[i], &s)
		}
		return s
	}
	switch method {
	case "eth_gasPrice":
		if peek() == "gaserr" {
			return nil, injected, true
		}
		return "0x12a05f200", nil, true
	case "eth_getTransactionCount":
		if peek() == "nonceerr" {
			return nil, injected, true
		}
		return hexutil.EncodeUint64(uint64(len(w.hashes) + 5)), nil, true
	case "eth_getBlockByNumber":
		return fakeevm.NewBlock(9).Header, nil, true
	case "eth_sendRawTransaction":
		raw, err := hexutil.Decode(arg(0))
		Must(err)
		tx := new(ethtypes.Transaction)
		a := w.nextSend()
		ev := Ev{"op": "send", "m": w.cur, "method": "", "idx": 0, "len": 0, "off": -1, "ok": false, "signed": false, "fresh": true, "tx": 0, "ans": a.A}
		if err = tx.UnmarshalBinary(raw); err == nil {
			h := tx.Hash().Hex()
			id, seen := w.hashes[h]
			if !seen {
				id = len(w.hashes) + 1
				w.hashes[h] = id
				w.owner[id] = w.cur
				w.txs[h] = tx
			}
			ev["tx"] = id
			from, e := ethtypes.Sender(ethtypes.LatestSignerForChainID(big.NewInt(0x61)), tx)
			ev["signed"] = e == nil && strings.EqualFold(from.Hex(), w.addr)
			d := tx.Data()
			if len(d) > 4 && bytes.Equal(d[:4], selRelay) {
				part := dyn(d[4:], 32)
				ev["method"] = "handleRelayMessage"
				ev["len"], ev["off"] = len(part), w.offset(part)
				ev["ok"] = string(dyn(d[4:], 0)) == iconAddr.String() && tx.To() != nil &&
					strings.EqualFold(tx.To().Hex(), evmAddr.ContractAddress()) && tx.Value().Sign() == 0 && tx.Gas() > 0
			}
			w.rec.Add(ev)
			if a.A == "ok" {
				return h, nil, true
			}
			return nil, injected, true
		}
		w.rec.Add(ev)
		return nil, injected, true
	case "eth_getTransactionByHash":
		h := arg(0)
		tx := w.txs[h]
		id := w.hid(h)
		if tx == nil {
			w.rec.Add(Ev{"op": "query", "tx": id, "ans": "none", "code": 0})
			w.final(false)
			return nil, nil, true
		}
		m := w.owner[id]
		if w.last[m] == 0 {
			switch w.peekRes(m).A {
			case "pending":
				w.nres[m]++
				w.rec.Add(Ev{"op": "query", "tx": id, "ans": "wait", "code": 0})
			case "notfound":
				w.rec.Add(Ev{"op": "query", "tx": id, "ans": "none", "code": 0})
				w.final(false)
				return nil, nil, true
			case "txerr":
				w.rec.Add(Ev{"op": "query", "tx": id, "ans": "none", "code": 0})
				w.final(false)
				return nil, injected, true
			default:
				w.last[m] = 1
			}
		}
		b, err := tx.MarshalJSON()
		Must(err)
		var o map[string]interface{}
		Must(json.Unmarshal(b, &o))
		o["from"] = w.addr
		o["blockNumber"], o["blockHash"], o["transactionIndex"] = nil, nil, nil
		if w.last[m] > 0 {
			o["blockNumber"], o["blockHash"], o["transactionIndex"] = "0x9", common.Hash{9}.Hex(), "0x0"
		}
		return o, nil, true
	case "eth_getTransactionReceipt":
		id := w.hid(arg(0))
		m := w.owner[id]
		if id < 0 || m == 0 || w.last[m] == 0 {
			return nil, nil, true // not mined
		}
		a := w.peekRes(m)
		r := &ethtypes.Receipt{Status: 1, TxHash: w.txs[arg(0)].Hash(), BlockNumber: big.NewInt(9), BlockHash: common.Hash{9},
			Logs: []*ethtypes.Log{}, GasUsed: 1, CumulativeGasUsed: 1}
		switch a.A {
		case "ok":
			w.rec.Add(Ev{"op": "query", "tx": id, "ans": "ok", "code": 0})
			w.final(false)
			return r, nil, true
		case "norcpt":
			w.rec.Add(Ev{"op": "query", "tx": id, "ans": "none", "code": 0})
			w.final(false)
			return nil, injected, true
		}
		r.Status = 0
		return r, nil, true
	case "eth_call":
		var c struct {
			From, To    string
			Data, Input string
		}
		_ = json.Unmarshal(params[0], &c)
		if c.Data == "" {
			c.Data = c.Input
		}
		d, _ := hexutil.Decode(c.Data)
		if len(d) > 4 && bytes.Equal(d[:4], selStatus) {
			a, k := w.statusAns()
			w.rec.Add(Ev{"op": "qs", "v": k, "ans": a.A, "ok": strings.EqualFold(c.To, evmAddr.ContractAddress()) && string(dyn(d[4:], 0)) == iconAddr.String()})
			if a.A != "ok" {
				return nil, injected, true
			}
			var b []byte
			b = append(b, w32(32)...)
			b = append(b, w32(int64(1000+k))...)
			b = append(b, w32(int64(2000+k))...)
			b = append(b, w32(128)...)
			b = append(b, w32(0x99)...)
			b = append(b, w32(int64(3000+k))...)
			b = append(b, w32(64)...)
			b = append(b, w32(int64(len(extra(k))))...)
			b = append(b, common.RightPadBytes(extra(k), 32)...)
			return hexutil.Encode(b), nil, true
		}
		for h, tx := range w.txs { // what would it say
			if bytes.Equal(tx.Data(), d) && strings.EqualFold(c.To, tx.To().Hex()) && strings.EqualFold(c.From, w.addr) {
				id := w.hashes[h]
				m := w.owner[id]
				if w.last[m] == 1 {
					a := w.peekRes(m)
					w.last[m] = 2
					w.final(true)
					switch a.A {
					case "code":
						w.rec.Add(Ev{"op": "query", "tx": id, "ans": "code", "code": a.C})
						return nil, &fakeevm.Error{Code: 3, Message: fmt.Sprintf("execution reverted: %d:Some:Reason", a.C)}, true
					case "code2":
						w.rec.Add(Ev{"op": "query", "tx": id, "ans": "code", "code": a.C})
						return nil, &fakeevm.Error{Code: 3, Message: fmt.Sprintf("execution reverted: %d:", a.C)}, true
					case "plain":
						w.rec.Add(Ev{"op": "query", "tx": id, "ans": "code", "code": 25})
						return nil, &fakeevm.Error{Code: 3, Message: "execution reverted"}, true
					case "noerr":
						w.rec.Add(Ev{"op": "query", "tx": id, "ans": "code", "code": 25})
						return "0x", nil, true
					}
				}
			}
		}
		return nil, injected, true
	}
	return nil, nil, false
}

func stOf(st *types.BMCLinkStatus) int {
	k := int(st.RxSeq - 1000)
	if st.TxSeq == int64(2000+k) && st.Verifier.Height == int64(3000+k) && bytes.Equal(st.Verifier.Extra, extra(k)) {
		return k
	}
	return -1
}

func run(raw json.RawMessage, rec *Rec) {
	var s scenario
	Un(raw, &s)
	w := &world{s: s, rec: rec, hashes: map[string]int{}, owner: map[int]int{}, nres: map[int]int{},
		txs: map[string]*ethtypes.Transaction{}, sends: make([]int, len(s.Msgs)), last: map[int]int{}}
	l := log.New()
	l.SetLevel(log.PanicLevel)
	var snd types.Sender
	if s.Kind == "icon" {
		n := fakeicon.New()
		defer n.Close()
		n.Hook = w.icon
		wl := wallet.New()
		w.addr = wl.Address()
		opt := map[string]interface{}{}
		if s.Step != 0 {
			opt["StepLimit"] = s.Step
		}
		snd = icon.NewSender(evmAddr, iconAddr, wl, n.URL(), opt, l)
	} else {
		n := fakeevm.New()
		defer n.Close()
		n.Hook = w.evm
		k, err := ethcrypto.GenerateKey()
		Must(err)
		wl, err := wallet.NewEvmWalletFromPrivateKey(k)
		Must(err)
		w.addr = ethcrypto.PubkeyToAddress(k.PublicKey).Hex()
		snd = ethbr.NewSender(iconAddr, evmAddr, wl, n.URL(), map[string]interface{}{}, l)
	}
	ch, err := snd.Start()
	Must(err)
	w.limit = snd.TxSizeLimit()
	rd := rand.New(rand.NewSource(int64(len(raw))))
	ids := []int{}
	for i, m := range s.Msgs {
		n := m.Base*w.limit + m.D
		if n < 1 {
			n = 1
		}
		b := make([]byte, n)
		_, _ = rd.Read(b)
		w.msgs = append(w.msgs, b)
		ids = append(ids, i*13+5)
	}
	lens := []int{}
	for _, b := range w.msgs {
		lens = append(lens, len(b))
	}
	rec.Add(Ev{"op": "begin", "kind": s.Kind, "limit": w.limit, "margin": int(snd.GetMarginForLimit()), "ids": ids, "lens": lens})
	w.Lock()
	w.gs = true
	w.Unlock()
	st, err := snd.GetStatus()
	ev := Ev{"op": "gs", "ok": err == nil, "nil": st == nil, "v": 0}
	if err == nil && st != nil {
		ev["v"] = stOf(st)
	}
	rec.Add(ev)
	w.Lock()
	w.gs = false
	w.Unlock()
	gotSt, gotRs := 0, 0
	stop := make(chan struct{})
	go func() {
		for {
			select {
			case <-stop:
				return
			case v := <-ch:
				w.Lock()
				switch x := v.(type) {
				case *types.BMCLinkStatus:
					gotSt++
					if x == nil {
						rec.Add(Ev{"op": "st", "v": -2})
					} else {
						rec.Add(Ev{"op": "st", "v": stOf(x)})
					}
				case *types.RelayResult:
					gotRs++
					if x == nil {
						rec.Add(Ev{"op": "result", "id": -1, "code": -1})
					} else {
						rec.Add(Ev{"op": "result", "id": x.Id, "code": int(x.Err)})
					}
				default:
					rec.Add(Ev{"op": "other", "t": fmt.Sprintf("%T", v)})
				}
				w.Unlock()
			}
		}
	}()
	acc := 0
	rest := func() {
		// generous: only a sender that does not finish ever waits that long
		for dl := time.Now().Add(25 * time.Second); time.Now().Before(dl); time.Sleep(2 * time.Millisecond) {
			w.Lock()
			ok := w.finals >= acc && w.stq >= acc && gotSt >= w.waitSt && gotRs >= w.waitRs
			w.Unlock()
			if ok {
				return
			}
		}
		w.Lock()
		w.hang = true
		w.Unlock()
		rec.Slow()
	}
	for i := range s.Msgs {
		w.Lock()
		w.cur = i + 1
		w.Unlock()
		id, err := snd.Relay(&rmsg{ids[i], w.msgs[i]})
		w.Lock()
		w.cur = 0
		rec.Add(Ev{"op": "ret", "m": i + 1, "ok": err == nil, "id": id})
		w.Unlock()
		if err == nil {
			acc++
			if s.Msgs[i].Wait {
				rest()
			}
		}
	}
	rest()
	time.Sleep(20 * time.Millisecond)
	w.Lock()
	rec.Add(Ev{"op": "over"})
	w.Unlock()
	rec.End()
	close(stop)
}

func main() {
	Main(map[string]func([]json.RawMessage, int64, []string) []Trace{
		"send": func(scn []json.RawMessage, seed int64, args []string) []Trace {
			return Isolated(scn, 48, 90*time.Second, func(loop func()) { loop() }, run)
		},
	})
}
