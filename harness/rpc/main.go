// Conformance driver for the JSON-RPC client and the subscriptions of ICON nodes.
package main

import (
	"encoding/base64"
	"encoding/json"
	"errors"
	"fmt"
	"io/ioutil"
	"math/rand"
	"net/http"
	"net/http/httptest"
	"reflect"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/gorilla/websocket"

	"github.com/icon-project/btp/chain/icon/client"
	"github.com/icon-project/btp/common"
	"github.com/icon-project/btp/common/jsonrpc"
	"github.com/icon-project/btp/common/log"
	"github.com/icon-project/btp/common/types"
	"github.com/icon-project/btp/zzverif/vh"
)

type answer struct {
	S int    `json:"s"`
	T string `json:"t"`
	B string `json:"b"`
}

var ctypes = map[string]string{"json": "application/json", "jsoncharset": "application/json; charset=utf-8", "upper": "Application/JSON",
	"list": "text/plain, application/json", "html": "text/html", "jsonrpc": "application/json-rpc", "none": ""}

type seen struct {
	mu   sync.Mutex
	reqs []*http.Request
	body [][]byte
}

func serve(f func(w http.ResponseWriter, body []byte)) (*httptest.Server, *seen) {
	s := &seen{}
	return httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		b, err := ioutil.ReadAll(r.Body)
		vh.Must(err)
		s.mu.Lock()
		s.reqs, s.body = append(s.reqs, r), append(s.body, b)
		s.mu.Unlock()
		f(w, b)
	})), s
}

func (s *seen) ok(method string, params interface{}, head map[string]string) bool {
	s.mu.Lock()
	defer s.mu.Unlock()
	if len(s.reqs) != 1 {
		return false
	}
	r := s.reqs[0]
	if r.Method != "POST" || r.URL.Path != "/api/v3" || !strings.HasPrefix(r.Header.Get("Content-Type"), "application/json") || !strings.Contains(r.Header.Get("Accept"), "application/json") {
		return false
	}
	for k, v := range head {
		if r.Header.Get(k) != v {
			return false
		}
	}
	var m map[string]interface{}
	if json.Unmarshal(s.body[0], &m) != nil || m["jsonrpc"] != "2.0" || m["method"] != method || m["id"] == nil {
		return false
	}
	if params == nil {
		_, has := m["params"]
		return !has && len(m) == 3
	}
	return len(m) == 4 && eqJSON(m["params"], params)
}

func eqJSON(a, b interface{}) bool {
	norm := func(x interface{}) (v interface{}) {
		j, err := json.Marshal(x)
		vh.Must(err)
		vh.Must(json.Unmarshal(j, &v))
		return
	}
	return reflect.DeepEqual(norm(a), norm(b))
}

type target struct {
	A string   `json:"a"`
	N int64    `json:"n"`
	L []string `json:"l"`
}

func reply(w http.ResponseWriter, a answer, body string) {
	if a.B == "drop" {
		c, _, err := w.(http.Hijacker).Hijack()
		vh.Must(err)
		_ = c.Close()
		return
	}
	if ct := ctypes[a.T]; ct != "" {
		w.Header().Set("Content-Type", ct)
	} else {
		w.Header()["Content-Type"] = nil
	}
	if a.B == "partial" {
		c, bw, err := w.(http.Hijacker).Hijack()
		vh.Must(err)
		_, _ = fmt.Fprintf(bw, "HTTP/1.1 %d X\r\nContent-Type: %s\r\nContent-Length: %d\r\n\r\n%s", a.S, ctypes[a.T], len(body), body[:len(body)/2])
		_ = bw.Flush()
		_ = c.Close()
		return
	}
	w.WriteHeader(a.S)
	_, _ = w.Write([]byte(body))
}

func word(r *rand.Rand) string {
	return []string{"", "x", "0x12", "a \"quoted\" <text>\n", "\u2028é", strings.Repeat("long", 3000)}[r.Intn(6)]
}

func do(sc json.RawMessage, r *rand.Rand) vh.Trace {
	var a answer
	vh.Un(sc, &a)
	var t vh.Trace
	var res, bad, ptr, want, keep interface{}
	switch r.Intn(3) {
	case 0:
		s, k := word(r), "kept"
		res, bad, ptr, want, keep = s, 5, &k, &s, "kept"
	case 1:
		v := target{word(r), int64(r.Intn(1 << 30)), []string{"p", word(r)}}
		res, bad, ptr, want, keep = v, "text", &target{A: "kept", N: 3}, &v, target{A: "kept", N: 3}
	case 2:
		v := []string{word(r), "q", word(r)}
		k := []string{"kept"}
		res, bad, ptr, want, keep = v, "text", &k, &v, []string{"kept"}
	}
	code := []int{-31000, -31000, -31000, -31001, -31002, -31003, -31004, -31005, -31006, -31007, -30000, -30032, -32700, -32601, -32000, 0, 2001}[r.Intn(17)]
	sub := 2000 + r.Intn(12)
	msg := fmt.Sprintf("E%04d:%s", sub, word(r))
	if r.Intn(4) == 0 {
		sub, msg = 0, []string{"", "E", "E20", "E200", "Erro", "Error", "failed for 2001", "E20O1:x", "x"}[r.Intn(9)]
	}
	data := interface{}(map[string]interface{}{"d": []interface{}{"x", 1.0}})
	o := map[string]interface{}{"jsonrpc": "2.0", "id": 1}
	switch a.B {
	case "result", "cut", "partial":
		o["result"] = res
	case "both":
		o["result"] = res
		o["error"] = map[string]interface{}{"code": code, "message": msg}
	case "nullresult":
		o["result"] = nil
	case "badtype":
		o["result"] = bad
	case "error":
		o["error"] = map[string]interface{}{"code": code, "message": msg}
	case "errordata":
		o["error"] = map[string]interface{}{"code": code, "message": msg, "data": data}
	}
	jb, err := json.Marshal(o)
	vh.Must(err)
	body := string(jb)
	switch a.B {
	case "null":
		body = "null"
	case "empty":
		body = ""
	case "cut":
		body = body[:1+r.Intn(len(body)-1)]
	case "text":
		body = "<html>busy</html>"
	case "array":
		body = "[" + body + "]"
	}
	srv, s := serve(func(w http.ResponseWriter, _ []byte) { reply(w, a, body) })
	defer srv.Close()
	e := vh.Ev{"op": "do", "s": a.S, "t": a.T, "b": a.B, "code": code, "sub": sub, "sent": false, "out": "", "same": false, "kept": false, "class": "", "err": ""}
	var params interface{}
	switch r.Intn(3) {
	case 0:
		params = map[string]interface{}{"x": word(r), "y": []int{1, 2}}
	case 1:
		params = target{A: word(r), N: -1}
	}
	e["panic"] = vh.TryT(20*time.Second, func() {
		c := jsonrpc.NewJsonRpcClient(&http.Client{Transport: &http.Transport{DisableKeepAlives: r.Intn(2) == 0}}, srv.URL+"/api/v3")
		c.CustomHeader["X-Verif"] = "v1"
		jr, err := c.Do("m_method", params, ptr)
		e["sent"] = s.ok("m_method", params, map[string]string{"X-Verif": "v1"})
		e["kept"] = reflect.DeepEqual(reflect.ValueOf(ptr).Elem().Interface(), keep)
		var m error
		switch x := err.(type) {
		case nil:
			if jr != nil && jr.Result != nil {
				e["out"], e["same"] = "result", reflect.DeepEqual(ptr, want) && jr.Error == nil
			} else {
				e["out"] = "none"
			}
		case *jsonrpc.Error:
			e["out"] = "rpcerr"
			e["same"] = int(x.Code) == code && x.Message == msg && (a.B == "errordata") == (x.Data != nil) && (x.Data == nil || reflect.DeepEqual(x.Data, data))
			m = err
		case *common.HttpError:
			e["out"], e["same"] = "http", x.StatusCode() == a.S && string(x.Response()) == body
			m = err
		default:
			e["out"], m = "fail", err
		}
		if err != nil {
			e["err"] = fmt.Sprintf("%.100q", err.Error())
		}
		e["class"] = class(m)
	})
	t.Add(e)
	if r.Intn(20) == 0 {
		// bound, but not listening: nobody else gets the port
		fd, err := syscall.Socket(syscall.AF_INET, syscall.SOCK_STREAM, 0)
		vh.Must(err)
		defer syscall.Close(fd)
		vh.Must(syscall.Bind(fd, &syscall.SockaddrInet4{Addr: [4]byte{127, 0, 0, 1}}))
		sa, err := syscall.Getsockname(fd)
		vh.Must(err)
		u := fmt.Sprintf("http://127.0.0.1:%d", sa.(*syscall.SockaddrInet4).Port)
		e = vh.Ev{"op": "refused", "out": "", "class": ""}
		e["panic"] = vh.TryT(20*time.Second, func() {
			c := jsonrpc.NewJsonRpcClient(&http.Client{}, u)
			if _, err := c.Do("m", nil, ptr); err != nil {
				e["out"], e["class"] = "fail", class(err)
			}
		})
		t.Add(e)
		e = vh.Ev{"op": "pre", "out": "", "sent": false}
		srv2, s2 := serve(func(w http.ResponseWriter, _ []byte) { reply(w, answer{200, "json", "result"}, body) })
		e["panic"] = vh.TryT(20*time.Second, func() {
			c := jsonrpc.NewJsonRpcClient(&http.Client{}, srv2.URL)
			c.Pre = func(*http.Request) error { return errors.New("no") }
			if _, err := c.Do("m", nil, ptr); err != nil {
				e["out"] = "fail"
			}
			e["sent"] = len(s2.reqs) > 0
		})
		srv2.Close()
		t.Add(e)
	}
	return t
}

func class(err error) string {
	if err == nil {
		return "same"
	}
	switch m := client.MapError(err); m {
	case client.ErrConnectFail:
		return "connect"
	case client.ErrSendFailByOverflow:
		return "overflow"
	case client.ErrSendFailByExpired:
		return "expired"
	case client.ErrSendFailByFuture:
		return "future"
	case client.ErrGetResultFailByPending:
		return "pending"
	case err:
		return "same"
	default:
		return "other"
	}
}

// the methods of the client of ICON nodes
type method struct {
	name   string
	params interface{}
	result func(r *rand.Rand) interface{}
	call   func(c *client.Client) (interface{}, error)
	want   func(res interface{}) interface{}
	bad    []interface{}
}

func hexed(r *rand.Rand) string { return fmt.Sprintf("0x%064x", r.Int63()) }
func same(x interface{}) interface{} {
	return x
}
func b64(x interface{}) interface{} { return x } // []byte is base64 text in JSON

func methods(r *rand.Rand) []method {
	h := client.HexInt(fmt.Sprintf("0x%x", r.Intn(1<<30)))
	n := client.HexInt(fmt.Sprintf("0x%x", r.Intn(100)))
	hash := client.HexBytes(hexed(r))
	src, dst := types.BtpAddress("btp://0x1.icon/cx"+strings.Repeat("11", 20)), types.BtpAddress("btp://0x2.icon/cx"+strings.Repeat("22", 20))
	str := func(r *rand.Rand) interface{} { return base64.StdEncoding.EncodeToString([]byte(word(r))) }
	call := func(to types.BtpAddress, from, m string, link types.BtpAddress) interface{} {
		return map[string]interface{}{"from": from, "to": to.Account(), "dataType": "call", "data": map[string]interface{}{"method": m, "params": map[string]interface{}{"_link": string(link)}}}
	}
	bp := &client.BTPBlockParam{Height: h, NetworkId: n}
	bpw := map[string]interface{}{"height": h, "networkID": n}
	tp := &client.TransactionParam{Version: "0x3", FromAddress: "hx00", ToAddress: "cx00", StepLimit: h, Timestamp: "0x1", NetworkID: n, Signature: "sig", DataType: "call", Data: client.CallData{Method: "m", Params: map[string]string{"a": word(r)}}}
	num := func(r *rand.Rand) interface{} { return fmt.Sprintf("0x%x", r.Int63()) }
	numw := func(x interface{}) interface{} {
		var v int64
		_, err := fmt.Sscanf(x.(string), "0x%x", &v)
		vh.Must(err)
		return v
	}
	txr := func(r *rand.Rand) interface{} {
		m := map[string]interface{}{"to": "cx00", "cumulativeStepUsed": "0x1", "stepUsed": "0x2", "stepPrice": "0x3", "logsBloom": "0x", "status": "0x1", "blockHash": hexed(r), "blockHeight": "0x5", "txIndex": "0x0", "txHash": hash,
			"eventLogs": []interface{}{map[string]interface{}{"scoreAddress": "cx00", "indexed": []string{"Ev(int)", "0x1"}, "data": []string{"0x2"}}}}
		if r.Intn(2) == 0 {
			m["status"], m["failure"] = "0x0", map[string]interface{}{"code": "0x20", "message": word(r)}
		}
		return m
	}
	return []method{
		{"icx_sendTransaction", tp, func(r *rand.Rand) interface{} { return hexed(r) }, func(c *client.Client) (interface{}, error) { v, e := c.SendTransaction(tp); return v, e }, same, []interface{}{5, []string{"x"}}},
		{"icx_sendTransactionAndWait", tp, func(r *rand.Rand) interface{} { return hexed(r) }, func(c *client.Client) (interface{}, error) { v, e := c.SendTransactionAndWait(tp); return v, e }, same, []interface{}{5}},
		{"icx_getTransactionResult", map[string]interface{}{"txHash": hash}, txr, func(c *client.Client) (interface{}, error) {
			v, e := c.GetTransactionResult(&client.TransactionHashParam{Hash: hash})
			return v, e
		}, same, []interface{}{"text", 1}},
		{"icx_waitTransactionResult", map[string]interface{}{"txHash": hash}, txr, func(c *client.Client) (interface{}, error) {
			v, e := c.WaitTransactionResult(&client.TransactionHashParam{Hash: hash})
			return v, e
		}, same, []interface{}{"text"}},
		{"btp_getHeader", bpw, str, func(c *client.Client) (interface{}, error) { return c.GetBTPHeader(bp) }, same, []interface{}{5, []string{}}},
		{"btp_getMessages", bpw, func(r *rand.Rand) interface{} { return []interface{}{str(r), str(r)} }, func(c *client.Client) (interface{}, error) { return c.GetBTPMessage(bp) }, same, []interface{}{"x", []int{1}}},
		{"btp_getProof", bpw, str, func(c *client.Client) (interface{}, error) { return c.GetBTPProof(bp) }, same, []interface{}{5}},
		{"btp_getNetworkInfo", map[string]interface{}{"height": h, "id": n}, func(r *rand.Rand) interface{} {
			return map[string]interface{}{"startHeight": "0x1", "networkTypeID": "0x2", "networkName": word(r), "open": "0x1", "owner": "cx00", "nextMessageSN": "0x5", "nextProofContextChanged": "0x0", "prevNSHash": hexed(r), "lastNSHash": hexed(r), "networkID": n, "networkTypeName": "eth"}
		}, func(c *client.Client) (interface{}, error) {
			v, e := c.GetBTPNetworkInfo(&client.BTPNetworkInfoParam{Height: h, Id: n})
			return v, e
		}, same, []interface{}{"x"}},
		{"icx_getBlockHeaderByHeight", map[string]interface{}{"height": h}, str, func(c *client.Client) (interface{}, error) {
			return c.GetBlockHeaderByHeight(&client.BlockHeightParam{Height: h})
		}, b64, []interface{}{"not base64!", 5}},
		{"icx_getVotesByHeight", map[string]interface{}{"height": h}, str, func(c *client.Client) (interface{}, error) {
			return c.GetVotesByHeight(&client.BlockHeightParam{Height: h})
		}, b64, []interface{}{"not base64!"}},
		{"icx_getDataByHash", map[string]interface{}{"hash": hash}, str, func(c *client.Client) (interface{}, error) { return c.GetDataByHash(&client.DataHashParam{Hash: hash}) }, b64, []interface{}{"*", 5}},
		{"icx_getProofForResult", map[string]interface{}{"hash": hash, "index": n}, func(r *rand.Rand) interface{} { return []interface{}{str(r), str(r)} }, func(c *client.Client) (interface{}, error) {
			return c.GetProofForResult(&client.ProofResultParam{BlockHash: hash, Index: n})
		}, b64, []interface{}{"x", []string{"*"}}},
		{"icx_getProofForEvents", map[string]interface{}{"hash": hash, "index": n, "events": []interface{}{h, n}}, func(r *rand.Rand) interface{} {
			return []interface{}{[]interface{}{str(r)}, []interface{}{str(r), str(r)}}
		}, func(c *client.Client) (interface{}, error) {
			return c.GetProofForEvents(&client.ProofEventsParam{BlockHash: hash, Index: n, Events: []client.HexInt{h, n}})
		}, b64, []interface{}{"x", []string{"aa"}}},
		{"icx_call", call(src, "", "getBTPLinkNetworkId", dst), num, func(c *client.Client) (interface{}, error) { return c.GetBTPLinkNetworkId(src, dst) }, numw, []interface{}{5, "0xzz", "0x1ffffffffffffffff"}},
		{"icx_call", call(src, "", "getBTPLinkOffset", dst), num, func(c *client.Client) (interface{}, error) { return c.GetBTPLinkOffset(src, dst) }, numw, []interface{}{5, "0xzz", "0x1ffffffffffffffff"}},
		{"icx_call", call(dst, "hx01", "getStatus", src), func(r *rand.Rand) interface{} {
			return map[string]interface{}{"tx_seq": num(r), "rx_seq": num(r), "cur_height": "0x9", "verifier": map[string]interface{}{"height": num(r), "extra": "0xc0ffee"}, "relays": []interface{}{}}
		}, func(c *client.Client) (interface{}, error) {
			v, e := c.GetStatus("hx01", src, dst)
			if v == nil {
				return nil, e
			}
			return []interface{}{v.TxSeq, v.RxSeq, v.Verifier.Height, fmt.Sprintf("0x%x", v.Verifier.Extra)}, e
		}, func(x interface{}) interface{} {
			m := x.(map[string]interface{})
			v := m["verifier"].(map[string]interface{})
			return []interface{}{numw(m["tx_seq"]), numw(m["rx_seq"]), numw(v["height"]), v["extra"]}
		}, []interface{}{5, map[string]interface{}{"tx_seq": "0xg"}, map[string]interface{}{"tx_seq": "0x1", "rx_seq": "0x1", "verifier": map[string]interface{}{"height": "0x1", "extra": "0xabc"}},
			map[string]interface{}{"tx_seq": "0x1", "rx_seq": "0x1", "verifier": map[string]interface{}{"height": "0x10000000000000000", "extra": "0xab"}}}},
	}
}

// covers: every member of want is there with the same value
func covers(got, want interface{}) bool {
	switch w := want.(type) {
	case map[string]interface{}:
		g, ok := got.(map[string]interface{})
		if !ok {
			return false
		}
		for k, v := range w {
			if !covers(g[k], v) {
				return false
			}
		}
		return true
	case []interface{}:
		g, ok := got.([]interface{})
		if !ok || len(g) != len(w) {
			return false
		}
		for i := range w {
			if !covers(g[i], w[i]) {
				return false
			}
		}
		return true
	}
	return reflect.DeepEqual(got, want)
}

func calls(sc json.RawMessage, r *rand.Rand) vh.Trace {
	var t vh.Trace
	for _, m := range methods(r) {
		b := []string{"result", "result", "error", "bad", "cut"}[r.Intn(5)]
		res := m.result(r)
		o := map[string]interface{}{"jsonrpc": "2.0", "id": 1}
		st := 200
		switch b {
		case "error":
			o["error"] = map[string]interface{}{"code": -31000, "message": "E2005"}
			st = []int{200, 400, 500}[r.Intn(3)]
		case "bad":
			o["result"] = m.bad[r.Intn(len(m.bad))]
		default:
			o["result"] = res
		}
		jb, err := json.Marshal(o)
		vh.Must(err)
		if b == "cut" {
			jb = jb[:len(jb)-2]
		}
		srv, s := serve(func(w http.ResponseWriter, _ []byte) { reply(w, answer{st, "json", "x"}, string(jb)) })
		e := vh.Ev{"op": "call", "m": m.name, "b": b, "sent": false, "out": "", "same": false, "err": ""}
		e["panic"] = vh.TryT(20*time.Second, func() {
			l := log.New()
			l.SetLevel(log.PanicLevel)
			c := client.NewClient(srv.URL+"/api/v3", l)
			v, err := m.call(c)
			e["sent"] = s.ok(m.name, m.params, map[string]string{"Icon-Options": "debug=true"})
			if err == nil {
				var g, w interface{}
				j, err := json.Marshal(v)
				vh.Must(err)
				vh.Must(json.Unmarshal(j, &g))
				j, err = json.Marshal(m.want(res))
				vh.Must(err)
				vh.Must(json.Unmarshal(j, &w))
				e["out"], e["same"] = "result", covers(g, w)
				return
			}
			e["out"], e["err"] = "fail", fmt.Sprintf("%.80q", err.Error())
			if _, ok := err.(*jsonrpc.Error); ok {
				e["out"] = "rpcerr"
			}
		})
		srv.Close()
		t.Add(e)
	}
	return t
}

// ------------------------------------------------------------------ subscriptions
type monScn struct {
	Kind string   `json:"kind"`
	Feed []string `json:"feed"`
	At   int      `json:"at"`
	Mode string   `json:"mode"` // "", "refuse", "code", "bad", "early", "close"
}

func note(kind string, i int, r *rand.Rand) (string, interface{}) {
	h := client.HexInt(fmt.Sprintf("0x%x", i))
	var v interface{}
	switch kind {
	case "btp":
		v = &client.BTPNotification{Header: base64.StdEncoding.EncodeToString([]byte(word(r)))}
		if r.Intn(2) == 0 {
			v.(*client.BTPNotification).Proof = "cHJvb2Y="
		}
	case "block":
		n := &client.BlockNotification{Hash: client.HexBytes(hexed(r)), Height: h}
		if r.Intn(2) == 0 {
			n.Indexes, n.Events = [][]client.HexInt{{"0x0", "0x2"}}, [][][]client.HexInt{{{"0x1"}, {"0x0"}}}
		}
		v = n
	case "event":
		v = &client.EventNotification{Hash: client.HexBytes(hexed(r)), Height: h, Index: "0x3", Events: []client.HexInt{"0x1", "0x4"}}
	}
	j, err := json.Marshal(v)
	vh.Must(err)
	return string(j), v
}

func mon(sc json.RawMessage, rec *vh.Rec) {
	var m monScn
	vh.Un(sc, &m)
	r := rand.New(rand.NewSource(int64(len(m.Feed)*100 + m.At)))
	rec.Add(vh.Ev{"op": "mon", "kind": m.Kind, "feed": m.Feed, "at": m.At, "panic": ""})
	var notes []string
	var vals []interface{}
	for i := range m.Feed {
		j, v := note(m.Kind, i, r)
		notes, vals = append(notes, j), append(vals, v)
	}
	str := "x"
	req := map[string]interface{}{
		"btp":   &client.BTPRequest{Height: "0x5", NetworkID: "0x2", ProofFlag: "0x1"},
		"block": &client.BlockRequest{Height: "0x7", EventFilters: []*client.EventFilter{{Addr: "cx00", Signature: "Ev(str)", Indexed: []*string{&str, nil}}}},
		"event": &client.EventRequest{EventFilter: client.EventFilter{Addr: "cx00", Signature: "Ev(str)"}, Height: "0x8"},
	}[m.Kind]
	up := websocket.Upgrader{}
	release := make(chan struct{})
	var relOnce sync.Once
	sentAll := make(chan struct{})
	srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) {
		if m.Mode == "refuse" {
			w.WriteHeader(404)
			return
		}
		c, err := up.Upgrade(w, q, nil)
		vh.Must(err)
		defer c.Close()
		var got interface{}
		err = c.ReadJSON(&got)
		rec.Add(vh.Ev{"op": "asked", "ok": err == nil && q.URL.Path == "/api/v3/"+m.Kind && eqJSON(got, req), "panic": ""})
		switch m.Mode {
		case "code":
			_ = c.WriteJSON(map[string]interface{}{"code": []int{1, -1, 10000}[m.At], "message": "no"})
			time.Sleep(20 * time.Millisecond)
			return
		case "bad":
			_ = c.WriteMessage(websocket.TextMessage, []byte("{\"code\":\"x\""))
			time.Sleep(20 * time.Millisecond)
			return
		case "early":
			return
		}
		_ = c.WriteJSON(map[string]interface{}{"code": 0})
		for i, f := range m.Feed {
			switch f {
			case "n":
				_ = c.WriteMessage(websocket.TextMessage, []byte(notes[i]))
			case "g":
				_ = c.WriteMessage(websocket.TextMessage, []byte([]string{"{", "[1]", "\"t\"", "{\"hash\":5,\"header\":5}", "", "]", "x"}[m.At%7]))
				<-release
			case "normal":
				_ = c.WriteMessage(websocket.CloseMessage, websocket.FormatCloseMessage(websocket.CloseNormalClosure, ""))
				<-release
			case "going":
				_ = c.WriteMessage(websocket.CloseMessage, websocket.FormatCloseMessage(websocket.CloseGoingAway, "bye"))
				<-release
			case "drop":
				return
			}
		}
		close(sentAll)
		<-release
	}))
	defer srv.Close()
	defer relOnce.Do(func() { close(release) })
	l := log.New()
	l.SetLevel(log.PanicLevel)
	c := client.NewClient(srv.URL+"/api/v3", l)
	n := 0
	cberr := errors.New("callback")
	gotN := make(chan int, 1000)
	seen := func(v interface{}) error {
		n++
		same := n <= len(vals) && reflect.DeepEqual(v, vals[n-1])
		rec.Add(vh.Ev{"op": "note", "i": n, "same": same, "panic": ""})
		gotN <- n
		if n == m.At {
			return cberr
		}
		return nil
	}
	calls := 0
	scb := func(*websocket.Conn) {
		calls++
		rec.Add(vh.Ev{"op": "init", "panic": ""})
	}
	ecb := func(_ *websocket.Conn, err error) {
		calls++
		if m.Mode != "close" { // closing it ends it with an error
			rec.Add(vh.Ev{"op": "error", "err": fmt.Sprintf("%.80q", err.Error()), "panic": ""})
		}
	}
	var err error
	done := make(chan string, 1)
	go func() {
		done <- vh.Try(func() {
			switch m.Kind {
			case "btp":
				err = c.MonitorBTP(req.(*client.BTPRequest), func(_ *websocket.Conn, v *client.BTPNotification) error { return seen(v) }, scb, ecb)
			case "block":
				err = c.MonitorBlock(req.(*client.BlockRequest), func(_ *websocket.Conn, v *client.BlockNotification) error { return seen(v) }, scb, ecb)
			case "event":
				err = c.MonitorEvent(req.(*client.EventRequest), func(_ *websocket.Conn, v *client.EventNotification) error { return seen(v) }, ecb)
			}
		})
	}()
	if m.Mode == "close" {
		<-sentAll
		for len(m.Feed) > 0 && <-gotN < len(m.Feed) {
		}
		time.Sleep(5 * time.Millisecond)
		c.CloseAllMonitor()
	}
	p := ""
	ended := true
	select {
	case p = <-done:
	case <-time.After(5 * time.Second):
		ended = false
	}
	out := "none"
	if err == cberr {
		out = "cb"
	} else if err != nil {
		out = "err"
	}
	switch m.Mode {
	case "":
		if !ended {
			out = "never"
		}
		rec.Add(vh.Ev{"op": "end", "out": out, "panic": p})
	case "close":
		rec.Add(vh.Ev{"op": "closed", "ended": ended, "calls": n, "sent": len(m.Feed), "panic": p})
	default:
		if !ended {
			out = "never"
		}
		rec.Add(vh.Ev{"op": "refused", "out": out, "calls": n + calls, "panic": p})
	}
	relOnce.Do(func() { close(release) })
}

// many subscriptions of one client are closed while they end by themselves
func storm(rec *vh.Rec) {
	up := websocket.Upgrader{}
	srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) {
		c, err := up.Upgrade(w, q, nil)
		if err != nil {
			return
		}
		defer c.Close()
		var got interface{}
		if c.ReadJSON(&got) != nil {
			return
		}
		_ = c.WriteJSON(map[string]interface{}{"code": 0})
		for i := 0; i < 30; i++ {
			if c.WriteMessage(websocket.TextMessage, []byte("{\"header\":\"\"}")) != nil {
				return
			}
		}
	}))
	defer srv.Close()
	l := log.New()
	l.SetLevel(log.PanicLevel)
	c := client.NewClient(srv.URL, l)
	var wg sync.WaitGroup
	var mu sync.Mutex
	p := ""
	for i := 0; i < 24; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := 0; k < 6; k++ {
				x := vh.Try(func() {
					_ = c.MonitorBTP(&client.BTPRequest{Height: "0x1"}, func(*websocket.Conn, *client.BTPNotification) error { return nil }, nil, func(*websocket.Conn, error) {})
				})
				mu.Lock()
				p += x
				mu.Unlock()
			}
		}()
	}
	stop := make(chan struct{})
	fin := make(chan struct{})
	go func() {
		defer close(fin)
		for {
			select {
			case <-stop:
				return
			default:
				x := vh.Try(c.CloseAllMonitor)
				mu.Lock()
				p += x
				mu.Unlock()
				time.Sleep(200 * time.Microsecond)
			}
		}
	}()
	wg.Wait()
	close(stop)
	<-fin
	rec.Add(vh.Ev{"op": "closed", "ended": true, "calls": 0, "sent": 0, "panic": p})
}

func par(f func(json.RawMessage, *rand.Rand) vh.Trace) func([]json.RawMessage, int64, []string) []vh.Trace {
	return func(scn []json.RawMessage, seed int64, args []string) []vh.Trace {
		out := make([]vh.Trace, len(scn))
		vh.Par(len(scn), 8, func(i int) { out[i] = f(scn[i], rand.New(rand.NewSource(seed*1000003+int64(i)))) })
		return out
	}
}

func main() {
	vh.Main(map[string]func([]json.RawMessage, int64, []string) []vh.Trace{
		"do":    par(do),
		"calls": par(calls),
		"mon": func(scn []json.RawMessage, seed int64, args []string) []vh.Trace {
			return vh.Isolated(scn, 8, 30*time.Second, func(loop func()) { loop() }, func(s json.RawMessage, r *vh.Rec) {
				var m monScn
				vh.Un(s, &m)
				if m.Mode == "storm" {
					storm(r)
				} else {
					mon(s, r)
				}
			})
		},
	})
}
