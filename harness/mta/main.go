// Driver for common/mta. Digests are read back as the block of leaves they cover.
package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"syscall"

	"golang.org/x/crypto/sha3"

	"github.com/icon-project/btp/common/db"
	"github.com/icon-project/btp/common/mta"
	"github.com/icon-project/btp/zzverif/vh"
)

const maxLeaf = 256

var label = map[string][2]int{}
var value = map[[2]int][]byte{}

func data(i int) []byte { return []byte(fmt.Sprintf("leaf-%d", i)) }

func sum(b []byte) []byte { h := sha3.Sum256(b); return h[:] }

func init() {
	for i := 0; i < maxLeaf; i++ {
		put([2]int{i, 1}, sum(data(i)))
	}
	for s := 2; s <= maxLeaf; s *= 2 {
		for lo := 0; lo < maxLeaf; lo += s {
			put([2]int{lo, s}, sum(append(append([]byte{}, value[[2]int{lo, s / 2}]...), value[[2]int{lo + s/2, s / 2}]...)))
		}
	}
}
func put(k [2]int, v []byte) { value[k] = v; label[string(v)] = k }
func lab(b []byte) []int {
	if k, ok := label[string(b)]; ok {
		return []int{k[0], k[1]}
	}
	return []int{-1, 0}
}

// bucket wrapper: fails, or dies silently (crash), at the k-th write
type faulty struct {
	db.Bucket
	failAt, crashAt, n int
	hit                bool
}

func (f *faulty) Set(k, v []byte) error {
	i := f.n
	f.n++
	if f.failAt >= 0 && i >= f.failAt {
		f.hit = true
		return errors.New("injected")
	}
	if f.crashAt >= 0 && i >= f.crashAt {
		f.hit = true
		return nil
	}
	return f.Bucket.Set(k, v)
}
func (f *faulty) arm(fail, crash int) { f.failAt, f.crashAt, f.n, f.hit = fail, crash, 0, false }

type acc interface {
	Len() int64
	Flush() error
	Recover() error
	AddData([]byte) []mta.Witness
	AddHash([]byte) []mta.Witness
	WitnessFor(int64) ([]mta.Witness, error)
	WitnessForWithAccLength(int64, int64) ([]mta.Witness, error)
	Verify([]mta.Witness, []byte) error
	VerifyWithAccLength([]mta.Witness, []byte, int64) error
	GetNode(int64) (mta.Node, error)
}

func wl(ws []mta.Witness) []vh.Ev {
	r := []vh.Ev{}
	for _, w := range ws {
		d := "L"
		if w.Direction == mta.Right {
			d = "R"
		}
		r = append(r, vh.Ev{"d": d, "v": lab(w.HashValue)})
	}
	return r
}

type op struct {
	Op   string `json:"op"`
	Kind string `json:"kind"`
	K    int    `json:"k"`
}

func open(bk db.Bucket, ext bool, off int64) acc {
	if ext {
		return mta.NewExtAccumulator([]byte("state"), bk, off)
	}
	return &mta.Accumulator{KeyForState: []byte("state"), Bucket: bk}
}

func history(scn []json.RawMessage, seed int64, args []string) []vh.Trace {
	out := make([]vh.Trace, len(scn))
	vh.Par(len(scn), 8, func(k int) {
		var ops []op
		vh.Un(scn[k], &ops)
		ext := (int64(k)+seed)%2 == 0
		off := int64(0)
		if ext {
			off = (int64(k) / 2) % 3 * 100
		}
		mdb := db.NewMapDB()
		bk0, err := mdb.GetBucket(db.BucketID("M"))
		vh.Must(err)
		bk := &faulty{Bucket: bk0, failAt: -1, crashAt: -1}
		var tr vh.Trace
		a := open(bk, ext, off)
		tr.Add(vh.Ev{"op": "new", "len": a.Len(), "ext": ext})
		kinds := map[int]string{}
		for oi, o := range ops {
			e := vh.Ev{"op": o.Op}
			var err error
			switch o.Op {
			case "add":
				var w []mta.Witness
				i := int(a.Len())
				e["panic"] = vh.Try(func() {
					if o.Kind == "data" {
						w = a.AddData(data(i))
					} else {
						w = a.AddHash(sum(data(i)))
					}
				})
				kinds[i] = o.Kind
				e["w"] = wl(w)
			case "flush", "flusherr", "crash":
				bk.arm(-1, -1)
				if o.Op == "flusherr" {
					bk.arm(o.K, -1)
				} else if o.Op == "crash" {
					bk.arm(-1, o.K)
				}
				e["panic"] = vh.Try(func() { err = a.Flush() })
				e["injected"] = bk.hit
				bk.arm(-1, -1)
				if o.Op == "crash" {
					a = open(bk, ext, off)
					e["panic"] = vh.Try(func() { err = a.Recover() })
				}
			case "reopen":
				a = open(bk, ext, off)
				e["panic"] = vh.Try(func() { err = a.Recover() })
			}
			e["ok"] = err == nil
			e["len"] = a.Len()
			tr.Add(e)
			if o.Op == "add" && oi+1 < len(ops) && ops[oi+1].Op == "add" {
				continue // observe at the end of a run of additions
			}
			observe(&tr, a, bk0, kinds, ext, off)
		}
		out[k] = tr
	})
	return out
}

func observe(tr *vh.Trace, a acc, bk db.Bucket, kinds map[int]string, ext bool, off int64) {
	n := a.Len()
	for i := int64(-1); i <= n; i++ {
		var w []mta.Witness
		var err error
		p := vh.Try(func() { w, err = a.WitnessFor(i) })
		tr.Add(vh.Ev{"op": "wit", "i": i, "ok": err == nil, "w": wl(w), "panic": p})
		if err == nil && p == "" {
			var verr error
			p = vh.Try(func() { verr = a.Verify(w, sum(data(int(i)))) })
			tr.Add(vh.Ev{"op": "verify", "n": n, "wl": n, "ws": wl(w), "h": lab(sum(data(int(i)))), "ok": verr == nil, "panic": p})
			var hs [][]byte
			var w2 []mta.Witness
			p = vh.Try(func() { hs = mta.WitnessesToHashes(w); w2 = mta.HashesToWitness(hs, i) })
			tr.Add(vh.Ev{"op": "conv", "i": i, "w": wl(w2), "panic": p})
		}
		for at := i; at <= n+1; at++ {
			var w []mta.Witness
			var err error
			p := vh.Try(func() { w, err = a.WitnessForWithAccLength(i, at) })
			tr.Add(vh.Ev{"op": "witat", "i": i, "at": at, "ok": err == nil, "w": wl(w), "panic": p})
			if err == nil && p == "" && at > i && i >= 0 {
				var verr error
				p = vh.Try(func() { verr = a.VerifyWithAccLength(w, sum(data(int(i))), at) })
				tr.Add(vh.Ev{"op": "verify", "n": n, "wl": at, "ws": wl(w), "h": lab(sum(data(int(i)))), "ok": verr == nil, "panic": p})
				var pos int64
				var d int
				p = vh.Try(func() { pos = mta.GetHeightFromWitness(w, at); d = mta.GetDepthByHeightAndAccLength(i, at) })
				tr.Add(vh.Ev{"op": "pos", "i": i, "at": at, "pos": pos, "depth": d, "panic": p})
			}
			if x, ok := a.(*mta.ExtAccumulator); ok {
				var rat int64
				p := vh.Try(func() { rat, w, err = x.WitnessForAt(i+1+off, at+off, off) })
				tr.Add(vh.Ev{"op": "extwit", "i": i, "at": at, "rat": rat - off, "ok": err == nil, "w": wl(w), "panic": p, "sameoff": true})
				if err == nil && p == "" {
					var verr error
					p = vh.Try(func() { verr = x.VerifyAt(w, sum(data(int(i))), rat, off) })
					tr.Add(vh.Ev{"op": "verify", "n": n, "wl": rat - off, "ws": wl(w), "h": lab(sum(data(int(i)))), "ok": verr == nil, "panic": p})
				}
			}
		}
		var nd mta.Node
		err = nil
		v := []int{-1, 0}
		p = vh.Try(func() {
			if x, ok := a.(*mta.ExtAccumulator); ok {
				nd, err = x.GetNode(i + 1 + off)
			} else {
				nd, err = a.GetNode(i)
			}
			if err == nil {
				v = lab(nd.Hash())
			}
		})
		tr.Add(vh.Ev{"op": "node", "i": i, "ok": err == nil, "v": v, "panic": p})
		if kinds[int(i)] == "data" && i >= 0 && i < n {
			b, err := bk.Get(sum(data(int(i))))
			tr.Add(vh.Ev{"op": "data", "i": i, "found": err == nil && string(b) == string(data(int(i)))})
		}
	}
	if x, ok := a.(*mta.ExtAccumulator); ok {
		tr.Add(vh.Ev{"op": "height", "height": x.Height(), "off": x.Offset()})
		for _, d := range []int64{-1, 1} {
			var err error
			var w []mta.Witness
			p := vh.Try(func() { _, w, err = x.WitnessForAt(1+off, off+1, off+d) })
			tr.Add(vh.Ev{"op": "extwit", "i": 0, "at": 1, "rat": 0, "ok": err == nil, "w": wl(w), "panic": p, "sameoff": false})
		}
	}
}

func attack(scn []json.RawMessage, seed int64, args []string) []vh.Trace {
	out := make([]vh.Trace, len(scn))
	vh.Par(len(scn), 8, func(k int) {
		var sc struct {
			N  int `json:"n"`
			WL int `json:"wl"`
			WS []struct {
				D string `json:"d"`
				V [2]int `json:"v"`
			} `json:"ws"`
			H [2]int `json:"h"`
		}
		vh.Un(scn[k], &sc)
		mdb := db.NewMapDB()
		bk, err := mdb.GetBucket("")
		vh.Must(err)
		a := open(bk, false, 0)
		for i := 0; i < sc.N; i++ {
			a.AddData(data(i))
		}
		ws := []mta.Witness{}
		for _, w := range sc.WS {
			d := mta.Left
			if w.D == "R" {
				d = mta.Right
			}
			ws = append(ws, mta.Witness{Direction: d, HashValue: value[w.V]})
		}
		var verr error
		e := vh.Ev{"op": "verify", "n": sc.N, "wl": sc.WL, "ws": wl(ws), "h": []int{sc.H[0], sc.H[1]}}
		e["panic"] = vh.Try(func() { verr = a.VerifyWithAccLength(ws, value[sc.H], int64(sc.WL)) })
		e["ok"] = verr == nil && e["panic"] == ""
		out[k] = vh.Trace{e}
	})
	return out
}

// every pair of lengths: a witness made at wl by an accumulator of n1 leaves is
// verified by an accumulator of n2 leaves
func cross(scn []json.RawMessage, seed int64, args []string) []vh.Trace {
	out := make([]vh.Trace, len(scn))
	vh.Par(len(scn), 8, func(k int) {
		var sc struct{ N1, N2 int }
		vh.Un(scn[k], &sc)
		mk := func(n int) acc {
			bk, err := db.NewMapDB().GetBucket("")
			vh.Must(err)
			a := open(bk, false, 0)
			for i := 0; i < n; i++ {
				a.AddData(data(i))
			}
			return a
		}
		a1, a2 := mk(sc.N1), mk(sc.N2)
		var tr vh.Trace
		for at := 1; at <= sc.N1; at++ {
			for i := 0; i < at; i++ {
				w, err := a1.WitnessForWithAccLength(int64(i), int64(at))
				var verr error
				p := ""
				if err == nil {
					p = vh.Try(func() { verr = a2.VerifyWithAccLength(w, sum(data(i)), int64(at)) })
				}
				tr.Add(vh.Ev{"op": "verify", "n": sc.N2, "wl": at, "ws": wl(w), "h": []int{i, 1},
					"ok": err == nil && verr == nil && p == "", "panic": p})
			}
		}
		out[k] = tr
	})
	return out
}

func main() {
	// the code under test prints on stdout
	if null, err := os.OpenFile("/dev/null", os.O_WRONLY, 0); err == nil {
		syscall.Dup2(int(null.Fd()), 1)
	}
	vh.Main(map[string]func([]json.RawMessage, int64, []string) []vh.Trace{"history": history, "attack": attack, "cross": cross})
}
