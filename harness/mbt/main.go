// Driver for common/mbt: the tree is given a symbolic hash function (an interning
// table), so every digest the code produces is read back as a term.
package main

import (
	"encoding/hex"
	"encoding/json"
	"fmt"

	"github.com/icon-project/btp/common/mbt"
	"github.com/icon-project/btp/zzverif/vh"
)

type sym struct {
	real  mbt.HashFunc
	terms map[string]interface{} // digest -> term
	pair  map[string]interface{} // preimage -> term
}

func newSym(real mbt.HashFunc) *sym {
	return &sym{real: real, terms: map[string]interface{}{}, pair: map[string]interface{}{}}
}

func content(i int) []byte { return []byte(fmt.Sprintf("content-%d", i)) }

func (s *sym) hash(l ...[]byte) []byte {
	var c []byte
	for _, b := range l {
		c = append(c, b...)
	}
	d := s.real(l...)
	k := string(d)
	if _, ok := s.terms[k]; !ok {
		s.terms[k] = s.read(c)
	}
	return d
}

// read the preimage: a content, or two digests
func (s *sym) read(c []byte) interface{} {
	var i int
	if n, _ := fmt.Sscanf(string(c), "content-%d", &i); n == 1 && string(content(i)) == string(c) {
		return []interface{}{i}
	}
	if len(c) == 64 {
		a, ok1 := s.terms[string(c[:32])]
		b, ok2 := s.terms[string(c[32:])]
		if ok1 && ok2 {
			return []interface{}{a, b}
		}
	}
	return []interface{}{0}
}

func (s *sym) term(d []byte) interface{} {
	if t, ok := s.terms[string(d)]; ok {
		return t
	}
	return []interface{}{0}
}

// eval a term to a digest (independent evaluation, used to forge proofs)
func (s *sym) eval(t interface{}) []byte {
	a := t.([]interface{})
	if len(a) == 1 {
		return s.hash(content(int(a[0].(float64))))
	}
	return s.hash(s.eval(a[0]), s.eval(a[1]))
}

func (s *sym) preimage(t interface{}) []byte {
	a := t.([]interface{})
	if len(a) == 1 {
		return content(int(a[0].(float64)))
	}
	return append(append([]byte{}, s.eval(a[0])...), s.eval(a[1])...)
}

type pn struct {
	N int         `json:"n"`
	V interface{} `json:"v"`
}

func (s *sym) pns(l []mbt.ProofNode) []vh.Ev {
	r := make([]vh.Ev, 0)
	for _, n := range l {
		r = append(r, vh.Ev{"n": n.NumOfLeaf, "v": s.term(n.Value)})
	}
	return r
}

func (s *sym) contents(l [][]byte) []interface{} {
	r := make([]interface{}, 0)
	for _, c := range l {
		var i int
		if k, _ := fmt.Sscanf(string(c), "content-%d", &i); k == 1 && string(content(i)) == string(c) {
			r = append(r, i)
		} else {
			r = append(r, 0)
		}
	}
	return r
}

func (s *sym) root(e vh.Ev, p *mbt.MerkleBinaryTreeProof) vh.Ev {
	var h []byte
	var left, total int
	var err error
	e["panic"] = vh.Try(func() { h, left, total, err = p.Root() })
	e["ok"] = err == nil && e["panic"] == ""
	e["h"] = s.term(h)
	e["rleft"] = left
	e["rtotal"] = total
	return e
}

func examine(s *sym, tr *vh.Trace, m *mbt.MerkleBinaryTree, n int, ranges bool) {
	e := vh.Ev{"op": "root", "n": n}
	var h []byte
	e["panic"] = vh.Try(func() { h = m.Root(); e["len"] = m.Len() })
	e["h"] = s.term(h)
	if n == 0 {
		e["h"] = []interface{}{len(h)}
	}
	tr.Add(e)
	for i := -1; i <= n+1; i++ {
		var c []byte
		var err error
		e := vh.Ev{"op": "get", "n": n, "i": i}
		e["panic"] = vh.Try(func() { c, err = m.Get(i) })
		e["ok"] = err == nil
		e["c"] = s.contents([][]byte{c})[0]
		tr.Add(e)
		var p *mbt.MerkleBinaryTreePath
		e = vh.Ev{"op": "path", "n": n, "i": i, "path": []vh.Ev{}, "h": []interface{}{0}, "c": 0}
		e["panic"] = vh.Try(func() {
			p, err = m.Path(i)
			if err == nil {
				ps := []vh.Ev{}
				for _, x := range p.Path {
					ps = append(ps, vh.Ev{"right": x.Right, "v": s.term(x.Value)})
				}
				e["path"] = ps
				e["c"] = s.contents([][]byte{p.Content})[0]
				e["h"] = s.term(p.Root())
			}
		})
		e["ok"] = err == nil
		tr.Add(e)
	}
	if !ranges {
		return
	}
	for b := -1; b <= n+1; b++ {
		for en := -1; en <= n+1; en++ {
			var p *mbt.MerkleBinaryTreeProof
			var err error
			e := vh.Ev{"op": "proof", "n": n, "b": b, "e": en}
			e["panic"] = vh.Try(func() { p, err = m.Proof(b, en) })
			e["ok"] = err == nil && p != nil
			e["left"], e["right"], e["cont"] = []vh.Ev{}, []vh.Ev{}, []interface{}{}
			if e["ok"].(bool) && e["panic"] == "" {
				e["left"], e["right"], e["cont"] = s.pns(p.ProofInLeft), s.pns(p.ProofInRight), s.contents(p.Contents)
				tr.Add(e)
				tr.Add(s.root(vh.Ev{"op": "verify", "n": n, "b": b, "e": en}, p))
				// a proof travels without its hash function
				q := &mbt.MerkleBinaryTreeProof{ProofInLeft: p.ProofInLeft, Contents: p.Contents, ProofInRight: p.ProofInRight}
				q.SetHashFunc(s.hash)
				tr.Add(s.root(vh.Ev{"op": "verify", "n": n, "b": b, "e": en}, q))
			} else {
				tr.Add(e)
			}
		}
	}
}

func tree(scn []json.RawMessage, seed int64, args []string) []vh.Trace {
	out := make([]vh.Trace, len(scn))
	vh.Par(len(scn), 8, func(k int) {
		var sc struct {
			N    int    `json:"n"`
			Base int    `json:"base"`
			Hash string `json:"hash"`
		}
		vh.Un(scn[k], &sc)
		s := newSym(mbt.HashFuncByUID(sc.Hash))
		var tr vh.Trace
		cs := [][]byte{}
		for i := 1; i <= sc.Base; i++ {
			cs = append(cs, content(i))
		}
		m, err := mbt.NewMerkleBinaryTree(s.hash, cs)
		tr.Add(vh.Ev{"op": "new", "n": sc.Base, "ok": err == nil})
		examine(s, &tr, m, sc.Base, sc.Base == sc.N)
		for i := sc.Base + 1; i <= sc.N; i++ {
			var err error
			p := vh.Try(func() { err = m.Add(content(i)) })
			tr.Add(vh.Ev{"op": "add", "n": i, "ok": err == nil, "panic": p})
			examine(s, &tr, m, i, i == sc.N)
		}
		err = m.Add(nil)
		tr.Add(vh.Ev{"op": "addnil", "ok": err == nil})
		_, err = mbt.NewMerkleBinaryTree(s.hash, [][]byte{content(1), nil})
		tr.Add(vh.Ev{"op": "addnil", "ok": err == nil})
		_, err = mbt.NewMerkleBinaryTree(nil, nil)
		tr.Add(vh.Ev{"op": "addnil", "ok": err == nil})
		out[k] = tr
	})
	return out
}

func forge(scn []json.RawMessage, seed int64, args []string) []vh.Trace {
	out := make([]vh.Trace, len(scn))
	vh.Par(len(scn), 8, func(k int) {
		var sc struct {
			N     int           `json:"n"`
			Left  []pn          `json:"left"`
			Cont  []interface{} `json:"cont"`
			Right []pn          `json:"right"`
		}
		vh.Un(scn[k], &sc)
		s := newSym(mbt.Sha3FIPS256)
		p := &mbt.MerkleBinaryTreeProof{}
		for _, x := range sc.Left {
			p.ProofInLeft = append(p.ProofInLeft, mbt.ProofNode{NumOfLeaf: x.N, Value: s.eval(x.V)})
		}
		for _, x := range sc.Cont {
			p.Contents = append(p.Contents, s.preimage(x))
		}
		for _, x := range sc.Right {
			p.ProofInRight = append(p.ProofInRight, mbt.ProofNode{NumOfLeaf: x.N, Value: s.eval(x.V)})
		}
		p.SetHashFunc(s.hash)
		var raw map[string]interface{}
		vh.Un(scn[k], &raw)
		e := vh.Ev{"op": "forged", "n": sc.N, "left": raw["left"], "cont": raw["cont"], "right": raw["right"]}
		out[k] = vh.Trace{s.root(e, p)}
	})
	return out
}

func hashes(scn []json.RawMessage, seed int64, args []string) []vh.Trace {
	var tr vh.Trace
	for _, uid := range []string{"icon", "eth", "none"} {
		f := mbt.HashFuncByUID(uid)
		e := vh.Ev{"op": "uid", "uid": uid, "known": f != nil, "d1": "", "d2": ""}
		if f != nil {
			e["d1"] = hex.EncodeToString(f([]byte("abc")))
			e["d2"] = hex.EncodeToString(f([]byte("a"), []byte(""), []byte("bc")))
		}
		tr.Add(e)
	}
	return []vh.Trace{tr}
}

func main() {
	vh.Main(map[string]func([]json.RawMessage, int64, []string) []vh.Trace{"tree": tree, "forge": forge, "hashes": hashes})
}
