// Package fakeevm plays an EVM node: JSON-RPC over HTTP and over a websocket with
// the newHeads subscription.
package fakeevm

import (
	"encoding/json"
	"fmt"
	"io/ioutil"
	"math/big"
	"net"
	"net/http"
	"strings"
	"sync"

	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/common/hexutil"
	"github.com/ethereum/go-ethereum/core/types"
	"github.com/ethereum/go-ethereum/crypto"
	"github.com/gorilla/websocket"

	. "github.com/icon-project/btp/zzverif/vh"
)

type Log struct {
	Tx      uint
	Next    string
	Seq     int64
	Msg     []byte
	Foreign bool // of another contract
}

type Block struct {
	Number int64
	Header *types.Header
	Logs   []Log
}

type Error struct {
	Code    int         `json:"code"`
	Message string      `json:"message"`
	Data    interface{} `json:"data,omitempty"`
}

type Node struct {
	sync.Mutex
	cond   *sync.Cond
	Blocks []*Block
	heads  []*Block // announced to subscribers
	BMC    string
	// Hook sees every call first
	Hook func(method string, params []json.RawMessage) (res interface{}, rerr *Error, handled bool)
	// Fault makes a call about a block fail
	Fault   func(method string, number int64) string
	WSFault func(num int64) bool // drop the connection instead of announcing this head
	Ready   chan struct{}        // closed when someone follows the chain
	once    sync.Once
	ln      net.Listener
	srv     *http.Server
	conns   []*websocket.Conn
	stopped bool
}

func New() *Node {
	n := &Node{Ready: make(chan struct{})}
	n.cond = sync.NewCond(&n.Mutex)
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	Must(err)
	n.ln = ln
	n.srv = &http.Server{Handler: http.HandlerFunc(n.serve)}
	go n.srv.Serve(ln)
	return n
}

func (n *Node) URL() string   { return "http://" + n.ln.Addr().String() }
func (n *Node) WSURL() string { return "ws://" + n.ln.Addr().String() }

func (n *Node) Close() {
	n.Lock()
	n.stopped = true
	cs := n.conns
	n.cond.Broadcast()
	n.Unlock()
	for _, c := range cs {
		_ = c.Close()
	}
	_ = n.srv.Close()
}

func NewBlock(num int64) *Block {
	return &Block{Number: num, Header: &types.Header{
		Number: big.NewInt(num), Difficulty: big.NewInt(2), GasLimit: 1 << 30, Time: uint64(1000 + num),
		Extra: make([]byte, 97),
	}}
}

// Publish adds blocks; only the last one is announced as a new head, as nodes do
// after an import of several.
func (n *Node) Publish(b ...*Block) {
	if len(b) == 0 {
		return
	}
	n.Lock()
	n.Blocks = append(n.Blocks, b...)
	n.heads = append(n.heads, b[len(b)-1])
	n.cond.Broadcast()
	n.Unlock()
}

// Announce sends a head again.
func (n *Node) Announce(b *Block) {
	n.Lock()
	n.heads = append(n.heads, b)
	n.cond.Broadcast()
	n.Unlock()
}

func (n *Node) Announced(num int64) bool {
	n.Lock()
	defer n.Unlock()
	for _, b := range n.heads {
		if b.Number == num {
			return true
		}
	}
	return false
}

type request struct {
	Method string            `json:"method"`
	Params []json.RawMessage `json:"params"`
	ID     json.RawMessage   `json:"id"`
}

func (n *Node) answer(req *request) []byte {
	res, rerr := n.call(req.Method, req.Params)
	out := map[string]interface{}{"jsonrpc": "2.0", "id": req.ID}
	if rerr != nil {
		out["error"] = rerr
	} else {
		out["result"] = res
	}
	b, err := json.Marshal(out)
	Must(err)
	return b
}

func (n *Node) serve(w http.ResponseWriter, r *http.Request) {
	if strings.Contains(strings.ToLower(r.Header.Get("Upgrade")), "websocket") {
		n.ws(w, r)
		return
	}
	body, _ := ioutil.ReadAll(r.Body)
	var req request
	_ = json.Unmarshal(body, &req)
	w.Header().Set("Content-Type", "application/json")
	_, _ = w.Write(n.answer(&req))
}

func (n *Node) ws(w http.ResponseWriter, r *http.Request) {
	up := websocket.Upgrader{CheckOrigin: func(*http.Request) bool { return true }}
	c, err := up.Upgrade(w, r, nil)
	if err != nil {
		return
	}
	defer c.Close()
	n.Lock()
	n.conns = append(n.conns, c)
	n.Unlock()
	var wm sync.Mutex
	put := func(b []byte) error {
		wm.Lock()
		defer wm.Unlock()
		return c.WriteMessage(websocket.TextMessage, b)
	}
	for {
		_, b, err := c.ReadMessage()
		if err != nil {
			return
		}
		var req request
		if json.Unmarshal(b, &req) != nil {
			continue
		}
		if req.Method == "eth_subscribe" {
			b, _ := json.Marshal(map[string]interface{}{"jsonrpc": "2.0", "id": req.ID, "result": "0x1"})
			n.Lock()
			i := len(n.heads) - 1 // older heads are not repeated
			n.Unlock()
			if i < 0 {
				i = 0
			}
			_ = put(b)
			n.once.Do(func() { close(n.Ready) })
			go n.push(c, put, i)
			continue
		}
		go func() { _ = put(n.answer(&req)) }()
	}
}

func (n *Node) push(c *websocket.Conn, put func([]byte) error, i int) {
	for ; ; i++ {
		n.Lock()
		for i >= len(n.heads) && !n.stopped {
			n.cond.Wait()
		}
		if n.stopped {
			n.Unlock()
			return
		}
		h := n.heads[i]
		n.Unlock()
		if n.WSFault != nil && n.WSFault(h.Number) {
			_ = c.Close()
			return
		}
		b, err := json.Marshal(map[string]interface{}{"jsonrpc": "2.0", "method": "eth_subscription",
			"params": map[string]interface{}{"subscription": "0x1", "result": h.Header}})
		Must(err)
		if put(b) != nil {
			return
		}
	}
}

func pad(b []byte) []byte {
	for len(b)%32 != 0 {
		b = append(b, 0)
	}
	return b
}

func word(v int64) []byte { return common.LeftPadBytes(big.NewInt(v).Bytes(), 32) }

// Data is the ABI encoding of (string,uint256,bytes).
func Data(next string, seq int64, msg []byte) []byte {
	n := pad([]byte(next))
	m := pad(append([]byte{}, msg...))
	var b []byte
	b = append(b, word(96)...)
	b = append(b, word(seq)...)
	b = append(b, word(int64(96+32+len(n)))...)
	b = append(b, word(int64(len(next)))...)
	b = append(b, n...)
	b = append(b, word(int64(len(msg)))...)
	return append(b, m...)
}

var topic = crypto.Keccak256Hash([]byte("Message(string,uint256,bytes)"))

func (n *Node) fault(method string, num int64) *Error {
	if n.Fault != nil && n.Fault(method, num) != "" {
		return &Error{Code: -32000, Message: "injected"}
	}
	return nil
}

func (n *Node) call(method string, params []json.RawMessage) (interface{}, *Error) {
	if n.Hook != nil {
		if r, e, ok := n.Hook(method, params); ok {
			return r, e
		}
	}
	switch method {
	case "eth_chainId":
		return "0x61", nil
	case "eth_blockNumber":
		n.once.Do(func() { close(n.Ready) })
		n.Lock()
		defer n.Unlock()
		if len(n.Blocks) == 0 {
			return "0x0", nil
		}
		return hexutil.EncodeUint64(uint64(n.Blocks[len(n.Blocks)-1].Number)), nil
	case "eth_getBlockByNumber":
		var s string
		_ = json.Unmarshal(params[0], &s)
		n.Lock()
		defer n.Unlock()
		for _, b := range n.Blocks {
			if hexutil.EncodeUint64(uint64(b.Number)) == s {
				if e := n.fault(method, b.Number); e != nil {
					return nil, e
				}
				return b.Header, nil
			}
		}
		return nil, nil
	case "eth_getLogs":
		var q struct {
			BlockHash *common.Hash    `json:"blockHash"`
			FromBlock string          `json:"fromBlock"`
			ToBlock   string          `json:"toBlock"`
			Address   json.RawMessage `json:"address"`
			Topics    [][]common.Hash `json:"topics"`
		}
		_ = json.Unmarshal(params[0], &q)
		n.Lock()
		defer n.Unlock()
		res := []*types.Log{}
		for _, b := range n.Blocks {
			hash := b.Header.Hash()
			if q.BlockHash != nil {
				if *q.BlockHash != hash {
					continue
				}
			} else {
				num := hexutil.EncodeUint64(uint64(b.Number))
				var f, t int64
				_, e1 := fmt.Sscanf(q.FromBlock, "0x%x", &f)
				_, e2 := fmt.Sscanf(q.ToBlock, "0x%x", &t)
				if e1 != nil || e2 != nil || b.Number < f || b.Number > t {
					_ = num
					continue
				}
			}
			if e := n.fault(method, b.Number); e != nil {
				return nil, e
			}
			for i, l := range b.Logs {
				addr := common.HexToAddress(n.BMC)
				if l.Foreign {
					addr = common.HexToAddress("0x2000000000000000000000000000000000000002")
				}
				if len(q.Address) > 2 && !strings.Contains(strings.ToLower(string(q.Address)), strings.ToLower(addr.Hex()[2:])) {
					continue
				}
				if len(q.Topics) > 0 && len(q.Topics[0]) > 0 && q.Topics[0][0] != topic {
					continue
				}
				res = append(res, &types.Log{Address: addr, Topics: []common.Hash{topic}, Data: Data(l.Next, l.Seq, l.Msg),
					BlockNumber: uint64(b.Number), BlockHash: hash, TxIndex: l.Tx, Index: uint(i), TxHash: common.BigToHash(big.NewInt(int64(l.Tx)))})
			}
		}
		return res, nil
	}
	return nil, &Error{Code: -32601, Message: "method not found " + method}
}
