// Driver of the codecs (C14): values of generated types are encoded and decoded,
// and damaged encodings are decoded.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/big"
	"math/rand"
	"reflect"
	"sort"

	"github.com/icon-project/btp/common"
	"github.com/icon-project/btp/common/codec"
	"github.com/icon-project/btp/zzverif/vh"
)

type schema struct {
	K   string   `json:"k"`
	W   int      `json:"w"`
	N   int      `json:"n"`
	E   *schema  `json:"e"`
	Key *schema  `json:"key"`
	F   []schema `json:"f"`
	Go  string   `json:"go"`
}

type Pair struct {
	A int64
	B []byte
}

func (p *Pair) RLPEncodeSelf(e codec.Encoder) error { return e.EncodeListOf(p.A, p.B) }
func (p *Pair) RLPDecodeSelf(d codec.Decoder) error { return d.DecodeListOf(&p.A, &p.B) }

type Trip struct {
	A string
	B uint16
	C []byte
}

func (p *Trip) RLPEncodeSelf(e codec.Encoder) error {
	e2, err := e.EncodeList()
	if err != nil {
		return err
	}
	return e2.EncodeMulti(p.A, p.B, p.C)
}

func (p *Trip) RLPDecodeSelf(d codec.Decoder) error {
	d2, err := d.DecodeList()
	if err != nil {
		return err
	}
	n, err := d2.DecodeMulti(&p.A, &p.B, &p.C)
	if n != 3 || err != nil {
		return fmt.Errorf("%d fields", n)
	}
	return nil
}

// Nest is written and read through nested lists: [[A], [B], C]
type Nest struct {
	A int64
	B []byte
	C string
}

func (p *Nest) RLPEncodeSelf(e codec.Encoder) error {
	e2, err := e.EncodeList()
	if err != nil {
		return err
	}
	e3, err := e2.EncodeList()
	if err != nil {
		return err
	}
	if err = e3.Encode(p.A); err != nil {
		return err
	}
	e4, err := e2.EncodeList()
	if err != nil {
		return err
	}
	if err = e4.Encode(p.B); err != nil {
		return err
	}
	return e2.Encode(p.C)
}

func (p *Nest) RLPDecodeSelf(d codec.Decoder) error {
	d2, err := d.DecodeList()
	if err != nil {
		return err
	}
	p.A, p.B = 0, nil
	for _, o := range []interface{}{&p.A, &p.B} {
		d3, err := d2.DecodeList()
		if err == codec.ErrNilValue {
			continue
		}
		if err != nil {
			return fmt.Errorf("no list")
		}
		if n, _ := d3.DecodeMulti(o); n != 1 {
			return fmt.Errorf("no value")
		}
	}
	if err := d2.Decode(&p.C); err == codec.ErrNilValue {
		p.C = ""
	} else if err != nil {
		return fmt.Errorf("no C")
	}
	return nil
}

type emb struct {
	A int8
	B []byte
}
type Emb struct {
	emb
	C string
}

var intT = map[int]reflect.Type{1: reflect.TypeOf(int8(0)), 2: reflect.TypeOf(int16(0)), 4: reflect.TypeOf(int32(0)), 8: reflect.TypeOf(int64(0))}
var uintT = map[int]reflect.Type{1: reflect.TypeOf(uint8(0)), 2: reflect.TypeOf(uint16(0)), 4: reflect.TypeOf(uint32(0)), 8: reflect.TypeOf(uint64(0))}
var hexT = map[string]reflect.Type{
	"int2": reflect.TypeOf(common.HexInt16{}), "int4": reflect.TypeOf(common.HexInt32{}), "int8": reflect.TypeOf(common.HexInt64{}),
	"uint2": reflect.TypeOf(common.HexUint16{}), "uint4": reflect.TypeOf(common.HexUint32{}), "uint8": reflect.TypeOf(common.HexUint64{})}
var goT = map[string]reflect.Type{"pair": reflect.TypeOf(Pair{}), "trip": reflect.TypeOf(Trip{}), "emb": reflect.TypeOf(Emb{}), "nest": reflect.TypeOf(Nest{})}

func (s *schema) typ() reflect.Type {
	if s.Go == "hex" {
		return hexT[fmt.Sprint(s.K, s.W)]
	}
	if s.Go != "" {
		return goT[s.Go]
	}
	switch s.K {
	case "int":
		return intT[s.W]
	case "uint":
		return uintT[s.W]
	case "bool":
		return reflect.TypeOf(false)
	case "str":
		return reflect.TypeOf("")
	case "b":
		return reflect.TypeOf([]byte{})
	case "arr":
		return reflect.ArrayOf(s.N, uintT[1])
	case "big":
		return reflect.TypeOf(common.HexInt{})
	case "addr":
		return reflect.TypeOf(common.Address{})
	case "list":
		return reflect.SliceOf(s.E.typ())
	case "larr":
		return reflect.ArrayOf(s.N, s.E.typ())
	case "ptr":
		return reflect.PtrTo(s.E.typ())
	case "map":
		return reflect.MapOf(s.Key.typ(), s.E.typ())
	case "struct":
		var f []reflect.StructField
		for i := range s.F {
			f = append(f, reflect.StructField{Name: fmt.Sprintf("F%d", i), Type: s.F[i].typ()})
		}
		return reflect.StructOf(f)
	}
	panic("schema " + s.K)
}

// fields of a structured Go value in the order of the schema
func (s *schema) fields(v reflect.Value) []reflect.Value {
	var r []reflect.Value
	if s.Go == "emb" {
		return []reflect.Value{v.Field(0).Field(0), v.Field(0).Field(1), v.Field(1)}
	}
	for i := range s.F {
		r = append(r, v.Field(i))
	}
	return r
}

func bigv(x *big.Int) vh.Ev {
	return vh.Ev{"t": "int", "v": vh.Ev{"neg": x.Sign() < 0, "mag": vh.Ints(new(big.Int).Abs(x).Bytes())}}
}

var nilv = vh.Ev{"t": "nil"}

func bytesv(b []byte) vh.Ev { return vh.Ev{"t": "b", "b": vh.Ints(b)} }

// dump renders a Go value in the domain of the specification
func (s *schema) dump(v reflect.Value) vh.Ev {
	if s.Go == "hex" {
		v = v.Field(0)
	}
	lst := func(l []vh.Ev) vh.Ev {
		if l == nil {
			l = []vh.Ev{}
		}
		return vh.Ev{"t": "l", "l": l}
	}
	switch s.K {
	case "int":
		return bigv(big.NewInt(v.Int()))
	case "uint":
		return bigv(new(big.Int).SetUint64(v.Uint()))
	case "big":
		h := v.Addr().Interface().(*common.HexInt)
		return bigv(&h.Int)
	case "bool":
		return vh.Ev{"t": "bool", "x": v.Bool()}
	case "str":
		return bytesv([]byte(v.String()))
	case "b":
		if v.IsNil() {
			return nilv
		}
		return bytesv(v.Bytes())
	case "arr", "addr":
		b := make([]byte, v.Len())
		reflect.Copy(reflect.ValueOf(b), v)
		return bytesv(b)
	case "ptr":
		if v.IsNil() {
			return nilv
		}
		return s.E.dump(v.Elem())
	case "list", "larr":
		if s.K == "list" && v.IsNil() {
			return nilv
		}
		var l []vh.Ev
		for i := 0; i < v.Len(); i++ {
			l = append(l, s.E.dump(v.Index(i)))
		}
		return lst(l)
	case "map":
		if v.IsNil() {
			return nilv
		}
		ks := v.MapKeys()
		sort.Slice(ks, func(i, j int) bool {
			switch s.Key.K {
			case "str":
				return ks[i].String() < ks[j].String()
			case "int":
				return ks[i].Int() < ks[j].Int()
			}
			return ks[i].Uint() < ks[j].Uint()
		})
		var l []vh.Ev
		for _, k := range ks {
			l = append(l, lst([]vh.Ev{s.Key.dump(k), s.E.dump(addressable(v.MapIndex(k)))}))
		}
		return vh.Ev{"t": "m", "m": lst(l)["l"]}
	}
	if s.Go == "nest" {
		return lst([]vh.Ev{lst([]vh.Ev{s.F[0].F[0].dump(v.Field(0))}), lst([]vh.Ev{s.F[1].F[0].dump(v.Field(1))}), s.F[2].dump(v.Field(2))})
	}
	var l []vh.Ev
	for i, f := range s.fields(v) {
		l = append(l, s.F[i].dump(f))
	}
	return lst(l)
}

func addressable(v reflect.Value) reflect.Value {
	p := reflect.New(v.Type())
	p.Elem().Set(v)
	return p.Elem()
}

var lens = []int{0, 1, 1, 2, 3, 5, 20, 54, 55, 56, 57, 100, 255, 256, 257}

func rbytes(r *rand.Rand, budget *int) []byte {
	n := lens[r.Intn(len(lens))]
	if n > *budget {
		n = r.Intn(3)
	}
	*budget -= n
	b := make([]byte, n)
	for i := range b {
		b[i] = []byte{0, 1, 0x7f, 0x80, 0x81, 0xb8, 0xc0, 0xf8, 0xff, byte(r.Intn(256))}[r.Intn(10)]
	}
	return b
}

func rint(r *rand.Rand, w int) *big.Int {
	b := make([]byte, r.Intn(w+1))
	for i := range b {
		b[i] = []byte{0, 1, 0x7f, 0x80, 0xff, byte(r.Intn(256))}[r.Intn(6)]
	}
	x := new(big.Int).SetBytes(b)
	if len(b) > 0 && b[0] > 127 {
		x.Sub(x, new(big.Int).Lsh(big.NewInt(1), uint(8*len(b))))
	}
	return x
}

// fill sets v to an arbitrary value of the schema
func (s *schema) fill(v reflect.Value, r *rand.Rand, budget *int) {
	*budget -= 2
	if s.Go == "hex" {
		v = v.Field(0)
	}
	switch s.K {
	case "int":
		v.SetInt(rint(r, s.W).Int64())
	case "uint":
		var x uint64
		for n := r.Intn(s.W + 1); n > 0; n-- {
			x = x<<8 | uint64([]byte{0, 1, 0x7f, 0x80, 0xff, byte(r.Intn(256))}[r.Intn(6)])
		}
		v.SetUint(x)
	case "big":
		v.Addr().Interface().(*common.HexInt).Set(rint(r, []int{1, 2, 8, 9, 32, 60}[r.Intn(6)]))
	case "bool":
		v.SetBool(r.Intn(2) == 0)
	case "str":
		v.SetString(string(rbytes(r, budget)))
	case "b":
		if r.Intn(5) > 0 {
			v.SetBytes(rbytes(r, budget))
		}
	case "arr":
		for i := 0; i < s.N; i++ {
			v.Index(i).SetUint(uint64(r.Intn(256)))
		}
	case "addr":
		for i := 1; i < 21; i++ {
			v.Index(i).SetUint(uint64(r.Intn(256)))
		}
		v.Index(0).SetUint(uint64(r.Intn(2)))
	case "ptr":
		if r.Intn(4) > 0 {
			p := reflect.New(s.E.typ())
			s.E.fill(p.Elem(), r, budget)
			v.Set(p)
		}
	case "list":
		if r.Intn(6) == 0 {
			return
		}
		n := []int{0, 1, 2, 3, 15, 16, 17, 33}[r.Intn(8)]
		if n > 3 && n*4 > *budget {
			n = 1
		}
		v.Set(reflect.MakeSlice(v.Type(), n, n))
		for i := 0; i < n; i++ {
			s.E.fill(v.Index(i), r, budget)
		}
	case "larr":
		for i := 0; i < s.N; i++ {
			s.E.fill(v.Index(i), r, budget)
		}
	case "map":
		if r.Intn(6) == 0 {
			return
		}
		v.Set(reflect.MakeMap(v.Type()))
		for n := r.Intn(5); n > 0; n-- {
			k, e := reflect.New(s.Key.typ()).Elem(), reflect.New(s.E.typ()).Elem()
			s.Key.fill(k, r, budget)
			s.E.fill(e, r, budget)
			v.SetMapIndex(k, e)
		}
	default:
		if s.Go == "nest" {
			s.F[0].F[0].fill(v.Field(0), r, budget)
			s.F[1].F[0].fill(v.Field(1), r, budget)
			s.F[2].fill(v.Field(2), r, budget)
			return
		}
		for i, f := range s.fields(v) {
			s.F[i].fill(f, r, budget)
		}
	}
}

var interesting = []byte{0, 1, 2, 0x37, 0x38, 0x7f, 0x80, 0x81, 0x82, 0xb7, 0xb8, 0xb9, 0xbb, 0xbf, 0xc0, 0xc1, 0xc2, 0xf7, 0xf8, 0xf9, 0xff}

// alter changes the structure: an element of some list goes, comes, or is replaced
func alter(b []byte, r *rand.Rand) []byte {
	var nodes []vh.RNode
	for rest := b; len(rest) > 0; {
		n, r, err := vh.Dec(rest)
		if err != nil {
			return b
		}
		nodes, rest = append(nodes, n), r
	}
	var lists []*[]vh.RNode
	var walk func(l *[]vh.RNode)
	walk = func(l *[]vh.RNode) {
		for i := range *l {
			if (*l)[i].List {
				lists = append(lists, &(*l)[i].L)
				walk(&(*l)[i].L)
			}
		}
	}
	walk(&nodes)
	if len(lists) == 0 {
		return b
	}
	l := lists[r.Intn(len(lists))]
	if r.Intn(3) == 0 {
		l = lists[0]
	}
	other := []vh.RNode{{Nil: true}, {B: []byte{5}}, {B: []byte{}}, {List: true}, {B: []byte{0, 0x81}}}[r.Intn(5)]
	switch i := r.Intn(len(*l) + 1); {
	case r.Intn(3) == 0 || i == len(*l):
		*l = append(append([]vh.RNode{}, *l...), other)
	case r.Intn(2) == 0:
		if r.Intn(2) == 0 {
			i = len(*l) - 1
		}
		*l = append(append([]vh.RNode{}, (*l)[:i]...), (*l)[i+1:]...)
	default:
		(*l)[i] = other
	}
	var out []byte
	for i := range nodes {
		out = append(out, enc(&nodes[i])...)
	}
	return out
}

func enc(n *vh.RNode) []byte {
	if n.Nil {
		return []byte{0xf8, 0}
	}
	if !n.List {
		return vh.EncBytes(n.B)
	}
	var c [][]byte
	for i := range n.L {
		c = append(c, enc(&n.L[i]))
	}
	return vh.EncList(c...)
}

func damage(b []byte, r *rand.Rand) []byte {
	if r.Intn(3) == 0 {
		return alter(b, r)
	}
	c := append([]byte{}, b...)
	for n := 1 + r.Intn(2); n > 0; n-- {
		if len(c) == 0 {
			c = append(c, interesting[r.Intn(len(interesting))])
			continue
		}
		i := r.Intn(len(c))
		if r.Intn(2) == 0 && len(c) > 6 {
			i = r.Intn(6)
		}
		switch r.Intn(6) {
		case 0:
			c = c[:i]
		case 1:
			c[i] = interesting[r.Intn(len(interesting))]
		case 2:
			c[i] += byte([]int{1, 255, 128, 32}[r.Intn(4)])
		case 3:
			c = append(c[:i], c[i+1:]...)
		case 4:
			c = append(c[:i], append([]byte{interesting[r.Intn(len(interesting))]}, c[i:]...)...)
		case 5:
			c = append(c, interesting[r.Intn(len(interesting))])
		}
	}
	return c
}

func one(s *schema, r *rand.Rand, vals, mut, budget int) vh.Trace {
	var t vh.Trace
	var raw interface{}
	jb, _ := json.Marshal(strip(s))
	vh.Must(json.Unmarshal(jb, &raw))
	T := s.typ()
	vs := []vh.Ev{}
	var gv []reflect.Value
	for i := 0; i < vals; i++ {
		p := reflect.New(T)
		bg := budget
		s.fill(p.Elem(), r, &bg)
		d := s.dump(p.Elem())
		if d["t"] == "nil" && (s.K == "ptr") {
			continue // nothing to be given back for a top-level nil pointer
		}
		vs = append(vs, d)
		gv = append(gv, p)
	}
	var out []byte
	e := vh.Ev{"op": "enc", "vs": vs, "ok": true, "out": []int{}}
	e["panic"] = vh.Try(func() {
		switch r.Intn(3) {
		case 0:
			for _, v := range gv {
				b, err := codec.RLP.MarshalToBytes(v.Interface())
				if err != nil {
					e["ok"] = false
				}
				out = append(out, b...)
			}
		case 1:
			out = []byte{1, 2, 3}
			enc := codec.RLP.NewEncoderBytes(&out)
			for _, v := range gv {
				if enc.Encode(v.Interface()) != nil {
					e["ok"] = false
				}
			}
		default:
			var w bytes.Buffer
			for _, v := range gv {
				if codec.RLP.Marshal(&w, v.Interface()) != nil {
					e["ok"] = false
				}
			}
			out = w.Bytes()
		}
	})
	e["out"] = vh.Ints(out)
	t.Add(e)
	if e["panic"] != "" || e["ok"] == false {
		return t
	}
	extra := r.Intn(3)
	in := append(append([]byte{}, out...), bytes.Repeat([]byte{0xc1}, extra)...)
	b := vh.Ev{"op": "back", "vs": vs, "ok": true, "extra": extra, "rest": 0}
	got := []vh.Ev{}
	target := func() reflect.Value { // what the destination held before must not matter
		p := reflect.New(T)
		if r.Intn(2) == 0 {
			bg := 100
			s.fill(p.Elem(), r, &bg)
		}
		return p
	}
	b["panic"] = vh.Try(func() {
		if r.Intn(2) == 0 {
			rest := in
			for range gv {
				p := target()
				var err error
				if rest, err = codec.RLP.UnmarshalFromBytes(rest, p.Interface()); err != nil {
					b["ok"] = false
					return
				}
				got = append(got, s.dump(p.Elem()))
			}
			b["rest"] = len(rest)
		} else {
			rd := bytes.NewBuffer(in)
			dec := codec.RLP.NewDecoder(rd)
			for range gv {
				p := target()
				if dec.Decode(p.Interface()) != nil {
					b["ok"] = false
					return
				}
				got = append(got, s.dump(p.Elem()))
			}
			b["rest"] = rd.Len()
		}
	})
	b["got"] = got
	t.Add(b)

	m := vh.Ev{"op": "mp", "vs": vs, "ok": true}
	got = []vh.Ev{}
	m["panic"] = vh.Try(func() {
		for _, v := range gv {
			o, err := codec.MP.MarshalToBytes(v.Interface())
			if err != nil {
				m["ok"] = false
				return
			}
			p := reflect.New(T)
			if _, err := codec.MP.UnmarshalFromBytes(o, p.Interface()); err != nil {
				m["ok"] = false
				return
			}
			got = append(got, s.dump(p.Elem()))
		}
	})
	m["got"] = got
	t.Add(m)

	for i := 0; i < mut; i++ {
		in := damage(out, r)
		d := vh.Ev{"op": "dec", "s": raw, "in": vh.Ints(in), "ok": false, "v": nilv, "rest": 0}
		d["panic"] = vh.Try(func() {
			p := reflect.New(T)
			rest, err := codec.RLP.UnmarshalFromBytes(append([]byte{}, in...), p.Interface())
			if err == nil {
				d["ok"], d["rest"], d["v"] = true, len(rest), s.dump(p.Elem())
			}
		})
		t.Add(d)
	}
	return t
}

// strip removes what the specification must not see twice (no null, no zero fields)
func strip(s *schema) map[string]interface{} {
	m := map[string]interface{}{"k": s.K, "w": s.W, "n": s.N}
	if s.E != nil {
		m["e"] = strip(s.E)
	}
	if s.Key != nil {
		m["key"] = strip(s.Key)
	}
	if s.F != nil {
		f := []interface{}{}
		for i := range s.F {
			f = append(f, strip(&s.F[i]))
		}
		m["f"] = f
	}
	return m
}

func run(sc []json.RawMessage, seed int64, args []string) []vh.Trace {
	var vals, mut, budget int
	_, err := fmt.Sscan(args[0]+" "+args[1]+" "+args[2], &vals, &mut, &budget)
	vh.Must(err)
	res := make([]vh.Trace, len(sc))
	vh.Par(len(sc), 8, func(i int) {
		var s schema
		vh.Un(sc[i], &s)
		res[i] = one(&s, rand.New(rand.NewSource(seed*1000003+int64(i))), vals, mut, budget)
	})
	return res
}

// large: sizes around the powers of 256
func large(sc []json.RawMessage, seed int64, args []string) []vh.Trace {
	var res []vh.Trace
	for _, n := range []int{65535, 65536, 65537} {
		for k := 0; k < 3; k++ {
			b := bytes.Repeat([]byte{byte(n), 0x80, 7}, n/3+1)[:n]
			var v, p interface{}
			var d func(interface{}) vh.Ev
			switch k {
			case 0:
				v, p = b, new([]byte)
				d = func(x interface{}) vh.Ev { return bytesv(*x.(*[]byte)) }
			case 1:
				v, p = &struct{ A string }{string(b)}, &struct{ A string }{}
				d = func(x interface{}) vh.Ev {
					return vh.Ev{"t": "l", "l": []vh.Ev{bytesv([]byte(x.(*struct{ A string }).A))}}
				}
			case 2:
				l := make([][]byte, 300)
				m := n - 3
				for i := range l {
					l[i] = b[i*m/300 : (i+1)*m/300]
				}
				v, p = l, new([][]byte)
				d = func(x interface{}) vh.Ev {
					r := []vh.Ev{}
					for _, b := range *x.(*[][]byte) {
						r = append(r, bytesv(b))
					}
					return vh.Ev{"t": "l", "l": r}
				}
			}
			px := v
			switch x := v.(type) {
			case []byte:
				px = &x
			case [][]byte:
				px = &x
			}
			e := vh.Ev{"op": "enc", "vs": []vh.Ev{d(px)}, "ok": false, "out": []int{}}
			var out []byte
			e["panic"] = vh.Try(func() {
				o, err := codec.RLP.MarshalToBytes(v)
				out = o
				e["ok"], e["out"] = err == nil, vh.Ints(out)
			})
			g := vh.Ev{"op": "back", "vs": []vh.Ev{d(px)}, "ok": false, "extra": 0, "rest": 0, "got": []vh.Ev{}}
			g["panic"] = vh.Try(func() {
				rest, err := codec.RLP.UnmarshalFromBytes(out, p)
				if err == nil {
					g["ok"], g["rest"], g["got"] = true, len(rest), []vh.Ev{d(p)}
				}
			})
			res = append(res, vh.Trace{e, g})
		}
	}
	return res
}

func main() {
	vh.Main(map[string]func([]json.RawMessage, int64, []string) []vh.Trace{"run": run, "large": large})
}
