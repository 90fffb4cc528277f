// Driver for common/db.
package main

import (
	"encoding/json"
	"errors"
	"io/ioutil"
	"os"

	"github.com/icon-project/btp/common/db"
	"github.com/icon-project/btp/zzverif/vh"
)

type op struct {
	Op string `json:"op"`
	I  int    `json:"i"`
	B  string `json:"b"`
	K  string `json:"k"`
	V  string `json:"v"`
}

// fault-injecting pass-through between the levels
type fdb struct {
	db.Database
	left *int // writes until failure, <0: never
	hit  *bool
}

type fbk struct {
	db.Bucket
	f *fdb
}

func (f *fdb) GetBucket(id db.BucketID) (db.Bucket, error) {
	b, err := f.Database.GetBucket(id)
	if err != nil {
		return nil, err
	}
	return &fbk{b, f}, nil
}
func (b *fbk) fail() bool {
	if *b.f.left < 0 {
		return false
	}
	if *b.f.left == 0 {
		*b.f.hit = true
		return true
	}
	*b.f.left--
	return false
}
func (b *fbk) Set(k, v []byte) error {
	if b.fail() {
		return errors.New("injected")
	}
	return b.Bucket.Set(k, v)
}
func (b *fbk) Delete(k []byte) error {
	if b.fail() {
		return errors.New("injected")
	}
	return b.Bucket.Delete(k)
}

type stack struct {
	lv   []db.Database
	left int
	hit  bool
	bks  map[[2]interface{}]db.Bucket
}

func (s *stack) layer(real db.Database) {
	s.bks = map[[2]interface{}]db.Bucket{}
	s.lv = []db.Database{real}
	for i := 0; i < 2; i++ {
		s.lv = append(s.lv, db.NewLayerDB(&fdb{s.lv[i], &s.left, &s.hit}))
	}
	s.left = -1
}

// half of the time through a bucket obtained earlier, half through a new one
func (s *stack) bk(i int, id string, again bool) db.Bucket {
	k := [2]interface{}{i, id}
	if b, ok := s.bks[k]; ok && !again {
		return b
	}
	b, err := s.lv[i].GetBucket(db.BucketID(id))
	vh.Must(err)
	s.bks[k] = b
	return b
}

var ids = []string{"", "S", "SS"}
var keys = []string{"kx", "ky"}

func run(scn []json.RawMessage, seed int64, args []string) []vh.Trace {
	backend := args[0]
	top := 2
	if args[1] == "0" {
		top = 0
	}
	out := make([]vh.Trace, len(scn))
	w := 8
	if backend == "badgerdb" {
		w = 3
	}
	vh.Par(len(scn), w, func(n int) {
		var ops []op
		vh.Un(scn[n], &ops)
		dir, err := ioutil.TempDir("", "verif-db")
		vh.Must(err)
		defer os.RemoveAll(dir)
		open := func() db.Database {
			d, err := db.Open(dir, backend, "t")
			vh.Must(err)
			return d
		}
		real := open()
		s := &stack{}
		s.layer(real)
		var tr vh.Trace
		r := uint64(seed)*2654435761 + uint64(n)*40503
		rnd := func() uint64 { r ^= r << 13; r ^= r >> 7; r ^= r << 17; return r }
		for _, o := range ops {
			e := vh.Ev{"op": o.Op, "i": o.I, "b": o.B, "k": o.K, "v": o.V, "panic": ""}
			var err error
			again := rnd()%2 == 0
			switch o.Op {
			case "set":
				k, v := []byte(o.K), []byte(o.V)
				e["panic"] = vh.Try(func() { err = s.bk(o.I, o.B, again).Set(k, v) })
				for i := range k {
					k[i] = '!'
				}
				for i := range v {
					v[i] = '!'
				}
			case "del":
				e["panic"] = vh.Try(func() { err = s.bk(o.I, o.B, again).Delete([]byte(o.K)) })
			case "flush", "discard", "flusherr":
				if o.Op == "flusherr" {
					s.left, s.hit = int(rnd()%3), false
				}
				e["panic"] = vh.Try(func() { err = s.lv[o.I].(db.LayerDB).Flush(o.Op != "discard") })
				e["injected"] = s.hit
				s.left, s.hit = -1, false
			case "reopen":
				if backend != "mapdb" {
					e["panic"] = vh.Try(func() { err = real.Close() })
					real = open()
				}
				s.layer(real)
			}
			e["ok"] = err == nil
			tr.Add(e)
			for i := 0; i <= top; i++ {
				for _, b := range ids {
					for _, k := range keys {
						if o.Op == "set" || o.Op == "del" {
							if b != o.B && rnd()%4 != 0 { // sample the rest
								continue
							}
						}
						e := vh.Ev{"op": "get", "i": i, "b": b, "k": k, "v": "_"}
						var v []byte
						var err error
						again := rnd()%2 == 0
						has := false
						e["panic"] = vh.Try(func() { v, err = s.bk(i, b, again).Get([]byte(k)); has = s.bk(i, b, again).Has([]byte(k)) })
						if v != nil || has {
							e["v"] = string(v)
						}
						e["ok"] = err == nil
						tr.Add(e)
						tr.Add(vh.Ev{"op": "has", "i": i, "b": b, "k": k, "has": has, "panic": ""})
					}
				}
			}
		}
		// a layer refuses nil, which it uses for "deleted"
		if top > 0 {
			l := db.NewLayerDB(real)
			b, _ := l.GetBucket("S")
			err = b.Set([]byte("kx"), nil)
			tr.Add(vh.Ev{"op": "nilset", "ok": err == nil, "panic": ""})
		}
		real.Close()
		out[n] = tr
	})
	return out
}

func main() {
	vh.Main(map[string]func([]json.RawMessage, int64, []string) []vh.Trace{"run": run})
}
