// Driver of the relay program as a whole (C24): the real binary between two chains
// played by the driver, each with a BMC which executes what it is sent.
package main

import (
	"bytes"
	"crypto/aes"
	"crypto/cipher"
	"crypto/rand"
	"crypto/sha3"
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io/ioutil"
	"math/big"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/common/hexutil"
	ethtypes "github.com/ethereum/go-ethereum/core/types"
	ethcrypto "github.com/ethereum/go-ethereum/crypto"
	"golang.org/x/crypto/scrypt"

	"github.com/icon-project/btp/zzverif/fakeevm"
	"github.com/icon-project/btp/zzverif/fakeicon"
	. "github.com/icon-project/btp/zzverif/vh"
)

type scenario struct {
	X    string `json:"x"` // kind of the source chain: btp2 | bridge | eth | hardhat
	Y    string `json:"y"`
	Dir  string `json:"dir"`
	Chan string `json:"chan"` // how it is configured
	Bx   []int  `json:"bx"`   // messages of the blocks of x
	By   []int  `json:"by"`
	Pre  int    `json:"pre"` // blocks there before the relay starts
	Ws   bool   `json:"ws"`
	Kill int    `json:"kill"` // kill and restart the relay after so many transactions (0: never)
	Dup  int    `json:"dup"`  // the so manyth transaction is overtaken by another relayer
	Rej  int    `json:"rej"`  // the so manyth transaction is rejected as not verifiable
	Bad  string `json:"bad"`
}

type blk struct{ h, first, last int64 }

type chain struct {
	name, kind string
	addr       string // BTP address
	acct       string
	link       string // BTP address of the other side
	other      *chain
	w          *world
	icon       *fakeicon.Node
	evm        *fakeevm.Node
	blocks     []blk
	msgs       map[int64][]byte
	ib         []*fakeicon.Block
	eb         []*fakeevm.Block
	npub       int
	key        []byte
	signer     string // address the transactions at this chain must have
	// the BMC
	rx, height int64
	res        map[string]int // tx hash -> 0 executed, code otherwise
	txs        map[string]*ethtypes.Transaction
	asked      map[string]int
}

type world struct {
	sync.Mutex
	s      scenario
	t      Trace
	x, y   *chain
	n      int // transactions seen
	ok     int // executed ones
	killed bool
}

func (w *world) add(e Ev) { w.t.Add(e) }

func isIcon(k string) bool { return k == "btp2" || k == "bridge" }

func (w *world) newChain(name, kind string, id int, blocks []int) *chain {
	c := &chain{name: name, kind: kind, w: w, msgs: map[int64][]byte{}, res: map[string]int{},
		txs: map[string]*ethtypes.Transaction{}, asked: map[string]int{}}
	k, err := ethcrypto.GenerateKey()
	Must(err)
	c.key = ethcrypto.FromECDSA(k)
	if isIcon(kind) {
		c.acct = fmt.Sprintf("cx%040x", id)
		c.addr = fmt.Sprintf("btp://0x%d.icon/%s", id, c.acct)
		s := sha3.Sum256(ethcrypto.FromECDSAPub(&k.PublicKey)[1:])
		c.signer = "hx" + hex.EncodeToString(s[12:])
	} else {
		c.acct = fmt.Sprintf("0x%040x", id+0x1000)
		c.addr = fmt.Sprintf("btp://0x%d.%s/%s", id, kind, c.acct)
		c.signer = strings.ToLower(ethcrypto.PubkeyToAddress(k.PublicKey).Hex())
	}
	h := int64(100 * id)
	c.blocks = []blk{{h, 1, 0}}
	seq := int64(0)
	for i, n := range blocks {
		h += int64(1 + i%3)
		b := blk{h, seq + 1, seq + int64(n)}
		for j := 0; j < n; j++ {
			seq++
			c.msgs[seq] = []byte(fmt.Sprintf("message %d of %s to the other side", seq, name))
		}
		c.blocks = append(c.blocks, b)
	}
	return c
}

func (c *chain) start() {
	if isIcon(c.kind) {
		c.icon = fakeicon.New()
		c.icon.Nid, c.icon.Start = 7, c.blocks[0].h-1
		c.icon.Hook = c.iconCall
		for i, b := range c.blocks {
			var m [][]byte
			for q := b.first; q <= b.last; q++ {
				m = append(m, c.msgs[q])
			}
			c.ib = append(c.ib, fakeicon.MakeBlock(b.h, 7, b.first-1, int64(i%2), m, 0))
		}
		return
	}
	c.evm = fakeevm.New()
	c.evm.BMC = c.acct
	c.evm.Hook = c.evmCall
	next := c.blocks[0].h
	for _, b := range c.blocks {
		for ; next < b.h; next++ {
			c.eb = append(c.eb, fakeevm.NewBlock(next))
		}
		e := fakeevm.NewBlock(b.h)
		for q := b.first; q <= b.last; q++ {
			e.Logs = append(e.Logs, fakeevm.Log{Tx: uint(q), Next: c.link, Seq: q, Msg: c.msgs[q]})
			e.Logs = append(e.Logs, fakeevm.Log{Tx: uint(q), Next: "btp://0x99.icon/cx00", Seq: q, Msg: []byte("elsewhere")})
		}
		c.eb = append(c.eb, e)
		next = b.h + 1
	}
}

func (c *chain) stop() {
	if c.icon != nil {
		c.icon.Close()
	} else {
		c.evm.Close()
	}
}

func (c *chain) publish() bool {
	if c.npub >= len(c.blocks) {
		return false
	}
	b := c.blocks[c.npub]
	if c.icon != nil {
		c.icon.Publish(c.ib[c.npub])
	} else {
		var p []*fakeevm.Block
		for len(c.eb) > 0 && c.eb[0].Number <= b.h {
			p = append(p, c.eb[0])
			c.eb = c.eb[1:]
		}
		c.evm.Publish(p...)
	}
	c.npub++
	return true
}

func (c *chain) url() string {
	if c.icon != nil {
		return c.icon.URL()
	}
	if c.w.s.Ws {
		return c.evm.WSURL()
	}
	return c.evm.URL()
}

// ---------------------------------------------------------------- the BMC
const (
	notVerifiable   = 26
	alreadyVerified = 27
)

// apply executes a relay message from the other chain.  What does not fit leaves
// everything as it was.
func (c *chain) apply(b []byte) (code int, from, to int64, ok bool) {
	rx, height := c.rx, c.height
	code = c.exec(b, &ok)
	from, to = rx+1, c.rx
	if code != 0 {
		c.rx, c.height = rx, height
		to = rx
	}
	return
}

func (c *chain) exec(b []byte, ok *bool) int {
	src := c.other
	n, err := DecAll(b)
	if err != nil || !n.List || len(n.L) != 1 || !n.L[0].List || len(n.L[0].L) == 0 {
		return 25
	}
	if src.kind == "btp2" {
		for _, it := range n.L[0].L {
			if !it.List || len(it.L) != 2 {
				return 25
			}
			cur := -1
			for i, x := range src.blocks {
				if x.h == c.height {
					cur = i
				}
			}
			p := it.L[1].B
			switch IntOf(it.L[0].B) {
			case 1:
				u, err := DecAll(p)
				if err != nil || !u.List || len(u.L) != 2 {
					return 25
				}
				at := -1
				for i, x := range src.ib {
					if bytes.Equal(x.Header, u.L[0].B) && bytes.Equal(x.Proof, u.L[1].B) {
						at = i
					}
				}
				if at < 0 {
					return 25
				}
				if at <= cur {
					*ok = true
					return alreadyVerified
				}
				if at != cur+1 || c.rx != src.blocks[cur].last {
					*ok = true
					return notVerifiable
				}
				c.height = src.blocks[at].h
			case 2:
				if cur < 0 || len(src.ib[cur].Msgs) == 0 {
					*ok = true
					return notVerifiable
				}
				left, cs, good := fakeicon.CheckProof(p, fakeicon.Root(src.ib[cur].Msgs), len(src.ib[cur].Msgs))
				if !good || len(cs) == 0 {
					*ok = true
					return notVerifiable
				}
				first := src.blocks[cur].first + int64(left)
				if first != c.rx+1 {
					*ok = true
					if first <= c.rx {
						return alreadyVerified
					}
					return notVerifiable
				}
				c.rx += int64(len(cs))
			default:
				return 25
			}
		}
		*ok = true
		return 0
	}
	for _, x := range n.L[0].L {
		rc, err := DecAll(x.B)
		if x.List || err != nil || !rc.List || len(rc.L) != 3 {
			return 25
		}
		es, err := DecAll(rc.L[1].B)
		if err != nil || !es.List {
			return 25
		}
		h := IntOf(rc.L[2].B)
		for _, e := range es.L {
			if !e.List || len(e.L) != 3 || string(e.L[0].B) != c.addr {
				return 25
			}
			q := UintOf(e.L[1].B)
			if q <= c.rx {
				*ok = true
				return alreadyVerified
			}
			if q != c.rx+1 {
				*ok = true
				return notVerifiable
			}
			good := false
			for _, sb := range src.blocks {
				good = good || (sb.h == h && sb.first <= q && q <= sb.last)
			}
			if !good || !bytes.Equal(e.L[2].B, src.msgs[q]) {
				return 25
			}
			c.rx, c.height = q, h
		}
	}
	*ok = true
	return 0
}

// transact executes a transaction which calls handleRelayMessage
func (c *chain) transact(hash, method, prev, from string, whole bool, msg []byte) {
	w := c.w
	w.n++
	ev := Ev{"op": "tx", "at": c.name, "signed": from == c.signer, "link": prev == c.other.addr && method == "handleRelayMessage",
		"whole": whole, "ok": false, "code": 0, "from": int64(0), "to": int64(0)}
	if w.s.Bad == "code" {
		ev["ok"], ev["code"], ev["from"], ev["to"] = true, 11, c.rx+1, c.rx
		c.res[hash] = 11
		w.add(ev)
		return
	}
	if w.n == w.s.Rej {
		ev["ok"], ev["code"], ev["from"], ev["to"] = true, notVerifiable, c.rx+1, c.rx
		c.res[hash] = notVerifiable
		w.add(ev)
		return
	}
	code, f, t, ok := c.apply(msg)
	ev["ok"], ev["code"], ev["from"], ev["to"] = ok, code, f, t
	c.res[hash] = code
	if code == 0 {
		w.ok++
		if w.n == w.s.Dup { // somebody else has brought the same before
			c.res[hash] = alreadyVerified
		}
	}
	w.add(ev)
}

// ------------------------------------------------------------------- ICON
func (c *chain) iconCall(method string, params json.RawMessage) (interface{}, *fakeicon.RPCError, bool) {
	c.w.Lock()
	defer c.w.Unlock()
	switch method {
	case "icx_sendTransaction":
		var m map[string]interface{}
		Must(json.Unmarshal(params, &m))
		str := func(x interface{}) string { s, _ := x.(string); return s }
		sum := sha3.Sum256([]byte("icx_sendTransaction." + Serialize(m)))
		hash := "0x" + hex.EncodeToString(sum[:])
		if _, seen := c.res[hash]; seen {
			return nil, &fakeicon.RPCError{Code: -31000, Message: "E2000:DuplicateTransaction"}, true
		}
		from := ""
		if sig, _ := base64.StdEncoding.DecodeString(str(m["signature"])); len(sig) == 65 {
			if pub, err := ethcrypto.Ecrecover(sum[:], sig); err == nil {
				a := sha3.Sum256(pub[1:])
				if from = "hx" + hex.EncodeToString(a[12:]); from != str(m["from"]) {
					from = ""
				}
			}
		}
		data, _ := m["data"].(map[string]interface{})
		ps, _ := data["params"].(map[string]interface{})
		msg, err := base64.URLEncoding.DecodeString(str(ps["_msg"]))
		nid := strings.SplitN(strings.TrimPrefix(c.addr, "btp://"), ".", 2)[0]
		c.transact(hash, str(data["method"]), str(ps["_prev"]), from,
			err == nil && str(m["to"]) == c.acct && str(m["nid"]) == nid, msg)
		return hash, nil, true
	case "icx_getTransactionResult":
		var p struct {
			H string `json:"txHash"`
		}
		_ = json.Unmarshal(params, &p)
		code, seen := c.res[p.H]
		if !seen {
			return nil, &fakeicon.RPCError{Code: -31004, Message: "NotFound"}, true
		}
		c.asked[p.H]++
		if c.asked[p.H] == 1 && len(c.asked)%2 == 0 {
			return nil, &fakeicon.RPCError{Code: -31002, Message: "Pending"}, true
		}
		r := map[string]interface{}{"to": c.acct, "stepUsed": "0x1", "txHash": p.H, "blockHeight": "0x10",
			"blockHash": p.H, "txIndex": "0x0", "eventLogs": []interface{}{}, "status": "0x1"}
		if code != 0 {
			r["status"] = "0x0"
			r["failure"] = map[string]string{"code": fmt.Sprintf("0x%x", code+32), "message": "Reverted"}
		}
		return r, nil, true
	case "icx_call":
		var p struct {
			To   string
			Data struct {
				Method string
				Params map[string]string
			}
		}
		_ = json.Unmarshal(params, &p)
		if p.Data.Method == "getStatus" {
			c.w.add(Ev{"op": "status", "at": c.name, "ok": p.To == c.acct && p.Data.Params["_link"] == c.other.addr})
			return map[string]interface{}{"tx_seq": "0x0", "rx_seq": fmt.Sprintf("0x%x", c.rx), "cur_height": "0x99",
				"verifier": map[string]string{"height": fmt.Sprintf("0x%x", c.height), "extra": "0x00"}}, nil, true
		}
	}
	return nil, nil, false
}

// -------------------------------------------------------------------- EVM
var selRelay = ethcrypto.Keccak256([]byte("handleRelayMessage(string,bytes)"))[:4]
var selStatus = ethcrypto.Keccak256([]byte("getStatus(string)"))[:4]

func word(b []byte, i int) int64 {
	if i < 0 || len(b) < i+32 {
		return -1
	}
	x := new(big.Int).SetBytes(b[i : i+32])
	if !x.IsInt64() {
		return -1
	}
	return x.Int64()
}

func dyn(b []byte, head int) []byte {
	o := word(b, head)
	if o < 0 || o > int64(len(b)) {
		return nil
	}
	n := word(b, int(o))
	if n < 0 || o+32+n > int64(len(b)) {
		return nil
	}
	return b[o+32 : o+32+n]
}

func w32(v int64) []byte { return common.LeftPadBytes(big.NewInt(v).Bytes(), 32) }

func (c *chain) evmCall(method string, params []json.RawMessage) (interface{}, *fakeevm.Error, bool) {
	arg := func(i int) string {
		var s string
		if i < len(params) {
			_ = json.Unmarshal(params[i], &s)
		}
		return s
	}
	c.w.Lock()
	defer c.w.Unlock()
	switch method {
	case "eth_gasPrice":
		return "0x12a05f200", nil, true
	case "eth_getTransactionCount":
		return hexutil.EncodeUint64(uint64(len(c.txs))), nil, true
	case "eth_getBlockByNumber":
		if a := arg(0); a == "latest" || a == "pending" {
			return fakeevm.NewBlock(c.blocks[0].h).Header, nil, true
		}
	case "eth_sendRawTransaction":
		raw, _ := hexutil.Decode(arg(0))
		tx := new(ethtypes.Transaction)
		if tx.UnmarshalBinary(raw) != nil {
			c.w.add(Ev{"op": "junk", "at": c.name})
			return nil, &fakeevm.Error{Code: -32000, Message: "junk"}, true
		}
		h := tx.Hash().Hex()
		if _, seen := c.txs[h]; seen {
			return nil, &fakeevm.Error{Code: -32000, Message: "already known"}, true
		}
		c.txs[h] = tx
		from := ""
		if f, e := ethtypes.Sender(ethtypes.LatestSignerForChainID(big.NewInt(0x61)), tx); e == nil {
			from = strings.ToLower(f.Hex())
		}
		d := tx.Data()
		m, prev := "", ""
		var msg []byte
		if len(d) > 4 && bytes.Equal(d[:4], selRelay) {
			m, prev, msg = "handleRelayMessage", string(dyn(d[4:], 0)), dyn(d[4:], 32)
		}
		c.transact(h, m, prev, from, tx.To() != nil && strings.EqualFold(tx.To().Hex(), c.acct), msg)
		return h, nil, true
	case "eth_getTransactionByHash":
		tx := c.txs[arg(0)]
		if tx == nil {
			return nil, nil, true
		}
		b, err := tx.MarshalJSON()
		Must(err)
		var o map[string]interface{}
		Must(json.Unmarshal(b, &o))
		c.asked[arg(0)]++
		o["from"] = c.signer
		o["blockNumber"], o["blockHash"], o["transactionIndex"] = "0x9", common.Hash{9}.Hex(), "0x0"
		if c.asked[arg(0)] == 1 && len(c.asked)%2 == 0 {
			o["blockNumber"], o["blockHash"], o["transactionIndex"] = nil, nil, nil
		}
		return o, nil, true
	case "eth_getTransactionReceipt":
		tx := c.txs[arg(0)]
		if tx == nil {
			return nil, nil, true
		}
		r := &ethtypes.Receipt{Status: 1, TxHash: tx.Hash(), BlockNumber: big.NewInt(9), BlockHash: common.Hash{9},
			Logs: []*ethtypes.Log{}, GasUsed: 1, CumulativeGasUsed: 1}
		if c.res[arg(0)] != 0 {
			r.Status = 0
		}
		return r, nil, true
	case "eth_call":
		var q struct{ From, To, Data, Input string }
		_ = json.Unmarshal(params[0], &q)
		if q.Data == "" {
			q.Data = q.Input
		}
		d, _ := hexutil.Decode(q.Data)
		if len(d) > 4 && bytes.Equal(d[:4], selStatus) {
			c.w.add(Ev{"op": "status", "at": c.name, "ok": strings.EqualFold(q.To, c.acct) && string(dyn(d[4:], 0)) == c.other.addr})
			var b []byte
			for _, v := range []int64{32, c.rx, 0, 128, 0x99, c.height, 64, 1} {
				b = append(b, w32(v)...)
			}
			b = append(b, make([]byte, 32)...)
			return hexutil.Encode(b), nil, true
		}
		for h, tx := range c.txs {
			if bytes.Equal(tx.Data(), d) && c.res[h] != 0 {
				return nil, &fakeevm.Error{Code: 3, Message: fmt.Sprintf("execution reverted: %d:BMV:Reason", c.res[h])}, true
			}
		}
		return "0x", nil, true
	}
	return nil, nil, false
}

// ------------------------------------------------------------ configuration
func keyStore(c *chain, pw string) []byte {
	salt, iv := make([]byte, 8), make([]byte, 16)
	_, _ = rand.Read(salt)
	_, _ = rand.Read(iv)
	dk, err := scrypt.Key([]byte(pw), salt, 1<<12, 8, 1, 32)
	Must(err)
	b, err := aes.NewCipher(dk[:16])
	Must(err)
	ct := make([]byte, 32)
	cipher.NewCTR(b, iv).XORKeyStream(ct, c.key)
	m := map[string]interface{}{"address": strings.TrimPrefix(c.signer, "0x"), "id": "6a6a0d2b-0f09-4c8e-9c4b-1d2f1f5fd001", "version": 3,
		"crypto": map[string]interface{}{"cipher": "aes-128-ctr", "cipherparams": map[string]string{"iv": hex.EncodeToString(iv)},
			"ciphertext": hex.EncodeToString(ct), "kdf": "scrypt",
			"kdfparams": map[string]interface{}{"dklen": 32, "n": 1 << 12, "r": 8, "p": 1, "salt": hex.EncodeToString(salt)},
			"mac":       hex.EncodeToString(fakeicon.Keccak(dk[16:], ct))}}
	if isIcon(c.kind) {
		m["coinType"] = "icx"
	}
	r, err := json.Marshal(m)
	Must(err)
	return r
}

type setting struct{ k, v string }

func (w *world) settings(dir string) (common, secret []setting) {
	side := func(n string, c *chain, pw string) {
		f := filepath.Join(dir, n+".ks.json")
		Must(ioutil.WriteFile(f, keyStore(c, pw), 0600))
		a, e := c.addr, c.url()
		if w.s.Bad == "chain" && n == "dst" {
			a = strings.Replace(strings.Replace(strings.Replace(a, ".icon", ".moon", 1), ".eth", ".moon", 1), ".hardhat", ".moon", 1)
		}
		common = append(common, setting{n + ".address", a})
		if !(w.s.Bad == "noend" && n == "dst") {
			common = append(common, setting{n + ".endpoint", e})
		}
		if !(w.s.Bad == "nokey" && n == "dst") {
			common = append(common, setting{n + ".key_store", f})
		}
		common = append(common, setting{n + ".bridge_mode", fmt.Sprint(c.kind == "bridge")})
		if w.s.Bad == "pw" && n == "src" {
			pw = "wrong"
		}
		if w.s.Chan == "secret" {
			sf := filepath.Join(dir, n+".secret")
			Must(ioutil.WriteFile(sf, []byte(pw), 0600))
			common = append(common, setting{n + ".key_secret", sf})
		} else {
			secret = append(secret, setting{n + ".key_password", pw})
		}
	}
	side("src", w.x, "p w-src")
	side("dst", w.y, "pw/dst")
	d := w.s.Dir
	if w.s.Bad == "dir" {
		d = "sideways"
	}
	common = append(common, setting{"direction", d}, setting{"console_level", "error"}, setting{"log_level", "error"}, setting{"base_dir", filepath.Join(dir, "base")})
	return
}

func flags(l []setting) []string {
	r := []string{}
	for _, s := range l {
		r = append(r, "--"+s.k+"="+s.v)
	}
	return r
}

// command gives the arguments and the environment to start the relay with
func (w *world) command(bin, dir string) (args, env []string) {
	c, s := w.settings(dir)
	switch w.s.Chan {
	case "env":
		for _, x := range append(c, s...) {
			env = append(env, "BTP2_"+strings.ToUpper(strings.Replace(x.k, ".", "_", -1))+"="+x.v)
		}
		return []string{"start"}, env
	case "file":
		m := map[string]interface{}{}
		for _, x := range append(c, s...) {
			var v interface{} = x.v
			if strings.HasSuffix(x.k, "bridge_mode") {
				v = x.v == "true"
			}
			if p := strings.SplitN(x.k, ".", 2); len(p) == 2 {
				if m[p[0]] == nil {
					m[p[0]] = map[string]interface{}{}
				}
				if p[1] == "key_store" && p[0] == "dst" { // inline
					b, err := ioutil.ReadFile(x.v)
					Must(err)
					v = json.RawMessage(b)
				}
				m[p[0]].(map[string]interface{})[p[1]] = v
			} else {
				m[x.k] = v
			}
		}
		b, err := json.Marshal(m)
		Must(err)
		f := filepath.Join(dir, "config.json")
		Must(ioutil.WriteFile(f, b, 0600))
		return []string{"start", "--config", f}, nil
	case "save":
		f := filepath.Join(dir, "saved.json")
		cmd := exec.Command(bin, append(append(flags(append(c, s...)), "save"), f)...)
		cmd.Dir = dir
		if out, err := cmd.CombinedOutput(); err != nil {
			w.add(Ev{"op": "nosave", "msg": string(out)})
		}
		return append([]string{"-c", f, "start"}, flags(s)...), nil
	}
	return append(flags(append(c, s...)), "start"), nil
}

type proc struct {
	cmd  *exec.Cmd
	out  bytes.Buffer
	done chan struct{}
	code int
}

func launch(bin, dir string, args, env []string) *proc {
	p := &proc{cmd: exec.Command(bin, args...), done: make(chan struct{})}
	p.cmd.Dir = dir
	p.cmd.Env = append([]string{"PATH=" + os.Getenv("PATH"), "HOME=" + dir}, env...)
	p.cmd.Stdout, p.cmd.Stderr = &p.out, &p.out
	p.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	Must(p.cmd.Start())
	go func() {
		_ = p.cmd.Wait()
		p.code = p.cmd.ProcessState.ExitCode()
		close(p.done)
	}()
	return p
}

func (p *proc) over() bool {
	select {
	case <-p.done:
		return true
	default:
		return false
	}
}

func (p *proc) kill() {
	_ = p.cmd.Process.Kill()
	<-p.done
}

func run(bin string, raw json.RawMessage) Trace {
	w := &world{}
	Un(raw, &w.s)
	s := w.s
	dir, err := ioutil.TempDir("", "relay")
	Must(err)
	defer os.RemoveAll(dir)
	w.x, w.y = w.newChain("x", s.X, 3, s.Bx), w.newChain("y", s.Y, 5, s.By)
	w.x.other, w.y.other = w.y, w.x
	w.x.link, w.y.link = w.y.addr, w.x.addr
	for _, c := range []*chain{w.x, w.y} {
		c.height = c.other.blocks[0].h
		c.start()
		defer c.stop()
		for i := 0; i < 1+s.Pre; i++ {
			c.publish()
		}
	}
	total := func(c *chain) int64 { return c.blocks[len(c.blocks)-1].last }
	front, reverse := s.Dir != "reverse", s.Dir != "front"
	w.add(Ev{"op": "begin", "front": front, "reverse": reverse, "nx": total(w.x), "ny": total(w.y), "bad": s.Bad})
	args, env := w.command(bin, dir)
	p := launch(bin, dir, args, env)
	defer func() { p.kill() }()
	all := func() bool {
		w.Lock()
		defer w.Unlock()
		return (!front || w.y.rx >= total(w.x)) && (!reverse || w.x.rx >= total(w.y))
	}
	few := func() bool {
		w.Lock()
		defer w.Unlock()
		return w.ok < s.Kill
	}
	next := time.Now()
	end := time.Now().Add(75 * time.Second)
	down := false
	for time.Now().Before(end) && !p.over() {
		time.Sleep(5 * time.Millisecond)
		if time.Now().After(next) {
			next = time.Now().Add(120 * time.Millisecond)
			w.Lock()
			n := w.ok
			w.Unlock()
			w.x.publish()
			w.y.publish()
			if s.Kill > 0 && n >= s.Kill && !w.killed {
				w.killed = true
				p.kill()
				w.Lock()
				w.add(Ev{"op": "killed"})
				w.Unlock()
				p = launch(bin, dir, args, env)
			}
			if s.Bad == "down" && n > 0 && !down {
				down = true
				if front {
					w.x.stop()
				} else {
					w.y.stop()
				}
			}
		}
		if s.Bad == "" && all() && w.x.npub == len(w.x.blocks) && w.y.npub == len(w.y.blocks) && (s.Kill == 0 || w.killed || few()) {
			break
		}
	}
	time.Sleep(150 * time.Millisecond)
	over := p.over()
	w.Lock()
	code := 0
	msg := ""
	if over {
		code = p.code
		if msg = p.out.String(); len(msg) > 300 {
			msg = msg[len(msg)-300:]
		}
	}
	w.add(Ev{"op": "over", "exited": over, "code": code, "y": w.y.rx, "x": w.x.rx, "out": msg})
	t := w.t
	w.Unlock()
	return t
}

var _ = strconv.Itoa

func main() {
	Main(map[string]func([]json.RawMessage, int64, []string) []Trace{
		"relay": func(scn []json.RawMessage, seed int64, args []string) []Trace {
			res := make([]Trace, len(scn))
			Par(len(scn), 20, func(i int) { res[i] = run(args[0], scn[i]) })
			return res
		},
	})
}
