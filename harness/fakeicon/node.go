// Package fakeicon plays an ICON node: JSON-RPC over HTTP and the /btp stream.
package fakeicon

import (
	"encoding/base64"
	"encoding/json"
	"fmt"
	"io/ioutil"
	"net"
	"net/http"
	"sync"

	"github.com/gorilla/websocket"
	"golang.org/x/crypto/sha3"

	. "github.com/icon-project/btp/zzverif/vh"
)

type Block struct {
	Height  int64
	FirstSN int64 // sequence of the first message in the network, from 0
	Msgs    [][]byte
	Header  []byte
	Proof   []byte
}

type RPCError struct {
	Code    int         `json:"code"`
	Message string      `json:"message"`
	Data    interface{} `json:"data,omitempty"`
}

type Node struct {
	sync.Mutex
	cond   *sync.Cond
	Blocks []*Block
	// Hook sees every call first; handled=false lets the node answer by itself
	Hook    func(method string, params json.RawMessage) (res interface{}, rerr *RPCError, handled bool)
	OnWS    func(req map[string]string)
	WSFault func(i int) string // "", "close", "normal", "garbage", "badheader", "badrlp"
	Nid     int64
	Offset  int64
	Start   int64
	srv     *http.Server
	ln      net.Listener
	conns   []*websocket.Conn
	stopped bool
}

func New() *Node {
	n := &Node{}
	n.cond = sync.NewCond(&n.Mutex)
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	Must(err)
	n.ln = ln
	mux := http.NewServeMux()
	mux.HandleFunc("/api/v3/x/btp", n.ws)
	mux.HandleFunc("/api/v3/x", n.rpc)
	n.srv = &http.Server{Handler: mux}
	go n.srv.Serve(ln)
	return n
}

func (n *Node) URL() string { return "http://" + n.ln.Addr().String() + "/api/v3/x" }

func (n *Node) Close() {
	n.Lock()
	n.stopped = true
	cs := n.conns
	n.cond.Broadcast()
	n.Unlock()
	for _, c := range cs {
		_ = c.Close()
	}
	_ = n.srv.Close()
}

func (n *Node) Publish(b ...*Block) {
	n.Lock()
	n.Blocks = append(n.Blocks, b...)
	n.cond.Broadcast()
	n.Unlock()
}

// MakeBlock fills in the header and the proof.
func MakeBlock(h, nid, firstSN int64, flag int64, msgs [][]byte, pad int) *Block {
	b := &Block{Height: h, FirstSN: firstSN, Msgs: msgs}
	var root []byte
	if len(msgs) > 0 {
		root = Root(msgs)
	}
	pad1 := make([]byte, pad)
	b.Header = EncList(EncInt(h), EncInt(0), EncBytes([]byte("nextproofcontexthash")), EncList(),
		EncInt(nid), EncInt(firstSN<<1|flag), EncBytes(nil), EncInt(int64(len(msgs))), EncBytes(root), EncBytes(pad1))
	b.Proof = EncList(EncBytes([]byte(fmt.Sprintf("proof-of-%d", h))))
	return b
}

func Keccak(b ...[]byte) []byte {
	h := sha3.NewLegacyKeccak256()
	for _, x := range b {
		h.Write(x)
	}
	return h.Sum(nil)
}

type part struct {
	n int
	h []byte
}

// Root of the binary merkle tree of a BTP block: the left side is the biggest
// power of two below the number of leaves.
func Root(msgs [][]byte) []byte {
	ps := []part{}
	for _, m := range msgs {
		ps = append(ps, part{1, Keccak(m)})
	}
	r, _ := fold(ps)
	return r
}

func fold(ps []part) ([]byte, bool) {
	t := 0
	for _, p := range ps {
		t += p.n
	}
	if len(ps) == 1 {
		return ps[0].h, true
	}
	if t < 2 {
		return nil, false
	}
	k := 1
	for k*2 < t {
		k *= 2
	}
	c := 0
	for i, p := range ps {
		c += p.n
		if c == k {
			l, ok1 := fold(ps[:i+1])
			r, ok2 := fold(ps[i+1:])
			return Keccak(l, r), ok1 && ok2
		}
	}
	return nil, false
}

// ProofLen is the length of the proof of messages a..b (from 0).
func ProofLen(msgs [][]byte, a, b int) int64 {
	var left, right [][]byte
	node := func(n int) []byte { return EncList(EncInt(int64(n)), EncBytes(make([]byte, 32))) }
	var walk func(lo, n int)
	walk = func(lo, n int) { // subtree of the leaves lo..lo+n-1
		switch {
		case lo+n <= a:
			left = append(left, node(n))
		case lo > b:
			right = append(right, node(n))
		case n > 1:
			k := 1
			for k*2 < n {
				k *= 2
			}
			walk(lo, k)
			walk(lo+k, n-k)
		}
	}
	walk(0, len(msgs))
	var cs [][]byte
	for _, m := range msgs[a : b+1] {
		cs = append(cs, EncBytes(m))
	}
	return int64(len(EncList(EncList(left...), EncList(cs...), EncList(right...))))
}

// CheckProof reads a merkle proof as written in a relay message: it returns the
// number of leaves on the left, the contents and whether it leads to the root.
func CheckProof(b []byte, root []byte, total int) (left int, contents [][]byte, ok bool) {
	n, err := DecAll(b)
	if err != nil || !n.List || len(n.L) != 3 {
		return 0, nil, false
	}
	ps := []part{}
	for _, x := range n.L[0].L {
		if !x.List || len(x.L) != 2 {
			return 0, nil, false
		}
		k := int(IntOf(x.L[0].B))
		left += k
		ps = append(ps, part{k, x.L[1].B})
	}
	t := left
	for _, x := range n.L[1].L {
		contents = append(contents, x.B)
		ps = append(ps, part{1, Keccak(x.B)})
		t++
	}
	for _, x := range n.L[2].L {
		if !x.List || len(x.L) != 2 {
			return 0, nil, false
		}
		k := int(IntOf(x.L[0].B))
		ps = append(ps, part{k, x.L[1].B})
		t += k
	}
	if t != total || len(ps) == 0 {
		return left, contents, false
	}
	r, o := fold(ps)
	return left, contents, o && string(r) == string(root)
}

func (n *Node) rpc(w http.ResponseWriter, r *http.Request) {
	body, _ := ioutil.ReadAll(r.Body)
	var req struct {
		Method string          `json:"method"`
		Params json.RawMessage `json:"params"`
		ID     interface{}     `json:"id"`
	}
	_ = json.Unmarshal(body, &req)
	res, rerr := n.call(req.Method, req.Params)
	out := map[string]interface{}{"jsonrpc": "2.0", "id": req.ID}
	w.Header().Set("Content-Type", "application/json")
	if rerr != nil {
		if rerr.Code == 599 { // not a JSON-RPC answer at all
			w.Header().Set("Content-Type", "text/plain")
			w.WriteHeader(http.StatusBadGateway)
			_, _ = w.Write([]byte("bad gateway"))
			return
		}
		out["error"] = rerr
		w.WriteHeader(http.StatusInternalServerError)
	} else {
		out["result"] = res
	}
	b, _ := json.Marshal(out)
	_, _ = w.Write(b)
}

func hex(v int64) string {
	if v < 0 {
		return fmt.Sprintf("-0x%x", -v)
	}
	return fmt.Sprintf("0x%x", v)
}

func (n *Node) call(method string, params json.RawMessage) (interface{}, *RPCError) {
	if n.Hook != nil {
		if res, e, ok := n.Hook(method, params); ok {
			return res, e
		}
	}
	switch method {
	case "icx_call":
		var p struct {
			Data struct {
				Method string `json:"method"`
			} `json:"data"`
		}
		_ = json.Unmarshal(params, &p)
		switch p.Data.Method {
		case "getBTPLinkNetworkId":
			return hex(n.Nid), nil
		case "getBTPLinkOffset":
			return hex(n.Offset), nil
		}
	case "btp_getNetworkInfo":
		return map[string]interface{}{"startHeight": hex(n.Start), "networkID": hex(n.Nid)}, nil
	case "btp_getHeader", "btp_getMessages", "btp_getProof":
		var p struct {
			Height    string `json:"height"`
			NetworkID string `json:"networkID"`
		}
		_ = json.Unmarshal(params, &p)
		n.Lock()
		defer n.Unlock()
		for _, b := range n.Blocks {
			if hex(b.Height) == p.Height && p.NetworkID == hex(n.Nid) {
				switch method {
				case "btp_getHeader":
					return base64.StdEncoding.EncodeToString(b.Header), nil
				case "btp_getProof":
					return base64.StdEncoding.EncodeToString(b.Proof), nil
				}
				r := []string{}
				for _, m := range b.Msgs {
					r = append(r, base64.StdEncoding.EncodeToString(m))
				}
				return r, nil
			}
		}
		return nil, &RPCError{Code: -31004, Message: "E1005:NotFound"}
	}
	return nil, &RPCError{Code: -32601, Message: "method not found " + method}
}

func (n *Node) ws(w http.ResponseWriter, r *http.Request) {
	up := websocket.Upgrader{CheckOrigin: func(*http.Request) bool { return true }}
	c, err := up.Upgrade(w, r, nil)
	if err != nil {
		return
	}
	defer c.Close()
	req := map[string]string{}
	if err = c.ReadJSON(&req); err != nil {
		return
	}
	if n.OnWS != nil {
		n.OnWS(req)
	}
	if req["networkID"] != hex(n.Nid) {
		_ = c.WriteJSON(map[string]interface{}{"code": 1, "message": "bad network"})
		return
	}
	_ = c.WriteJSON(map[string]interface{}{"code": 0})
	n.Lock()
	n.conns = append(n.conns, c)
	n.Unlock()
	var from int64
	_, _ = fmt.Sscanf(req["height"], "0x%x", &from)
	for i := 0; ; i++ {
		n.Lock()
		for i >= len(n.Blocks) && !n.stopped {
			n.cond.Wait()
		}
		if n.stopped {
			n.Unlock()
			return
		}
		b := n.Blocks[i]
		n.Unlock()
		if b.Height < from {
			continue
		}
		f := ""
		if n.WSFault != nil {
			f = n.WSFault(i)
		}
		h := base64.StdEncoding.EncodeToString(b.Header)
		switch f {
		case "close":
			return
		case "normal":
			_ = c.WriteMessage(websocket.CloseMessage, websocket.FormatCloseMessage(websocket.CloseNormalClosure, ""))
			return
		case "garbage":
			_ = c.WriteMessage(websocket.TextMessage, []byte("{\"header\":"))
			_, _, _ = c.ReadMessage()
			return
		case "badheader":
			h = "***"
		case "badrlp":
			h = base64.StdEncoding.EncodeToString(b.Header[:len(b.Header)/2])
		}
		if err := c.WriteJSON(map[string]interface{}{"header": h}); err != nil {
			return
		}
	}
}
