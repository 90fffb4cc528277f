// Driver of the integer and hexadecimal conversions (C15).
package main

import (
	"encoding/json"
	"math/big"

	"github.com/icon-project/btp/chain/icon/client"
	"github.com/icon-project/btp/common"
	"github.com/icon-project/btp/common/intconv"
	"github.com/icon-project/btp/zzverif/vh"
)

type scn struct {
	B []int `json:"b"`
	S []int `json:"s"`
}

func val(x *big.Int) vh.Ev {
	return vh.Ev{"neg": x.Sign() < 0, "mag": vh.Ints(new(big.Int).Abs(x).Bytes())}
}
func i64(v int64) vh.Ev  { return val(big.NewInt(v)) }
func u64(v uint64) vh.Ev { return val(new(big.Int).SetUint64(v)) }

var zero = vh.Ev{"neg": false, "mag": []int{}}

func twos(b []byte) *big.Int {
	x := new(big.Int).SetBytes(b)
	if len(b) > 0 && b[0] > 127 {
		x.Sub(x, new(big.Int).Lsh(big.NewInt(1), uint(8*len(b))))
	}
	return x
}

func js(s string) []byte {
	b, err := json.Marshal(s)
	vh.Must(err)
	return b
}

func unq(b []byte) string {
	var s string
	if json.Unmarshal(b, &s) != nil {
		return "NOT A STRING " + string(b)
	}
	return s
}

func values(b []byte) vh.Trace {
	var t vh.Trace
	add := func(e vh.Ev, f func()) {
		e["panic"] = vh.Try(f)
		t.Add(e)
	}
	to := func(fn string, v vh.Ev, f func() []byte) {
		e := vh.Ev{"op": "tobytes", "fn": fn, "v": v, "out": []int{}}
		add(e, func() { e["out"] = vh.Ints(f()) })
	}
	text := func(fn string, v vh.Ev, f func() string) {
		e := vh.Ev{"op": "text", "fn": fn, "v": v, "out": []int{}}
		add(e, func() { e["out"] = vh.Codes(f()) })
	}
	from := func(fn string, w int, uns bool, f func() vh.Ev) {
		e := vh.Ev{"op": "frombytes", "fn": fn, "w": w, "uns": uns, "in": vh.Ints(b), "v": zero}
		add(e, func() { e["v"] = f() })
	}
	mj := func(v json.Marshaler) func() string {
		return func() string {
			o, err := v.MarshalJSON()
			if err != nil {
				return "ERROR"
			}
			return unq(o)
		}
	}
	cp := func() []byte { return append([]byte(nil), b...) }
	for _, x := range []*big.Int{twos(b), new(big.Int).SetBytes(b), new(big.Int).Neg(new(big.Int).SetBytes(b))} {
		x := x
		fresh := func() *big.Int { return new(big.Int).Set(x) }
		to("big", val(x), func() []byte { return intconv.BigIntToBytes(fresh()) })
		to("HexInt.Bytes", val(x), func() []byte { return (&common.HexInt{Int: *fresh()}).Bytes() })
		text("big", val(x), func() string { return intconv.FormatBigInt(fresh()) })
		text("HexInt", val(x), func() string { return common.HexInt{Int: *fresh()}.String() })
		text("HexInt.json", val(x), mj(common.HexInt{Int: *fresh()}))
		if x.IsInt64() {
			v := x.Int64()
			to("int64", val(x), func() []byte { return intconv.Int64ToBytes(v) })
			text("int64", val(x), func() string { return intconv.FormatInt(v) })
			text("client.HexInt", val(x), func() string { return string(client.NewHexInt(v)) })
			text("HexInt64", val(x), mj(common.HexInt64{Value: v}))
			text("NewHexInt", val(x), func() string { return common.NewHexInt(v).String() })
			if int64(int32(v)) == v {
				text("HexInt32", val(x), mj(common.HexInt32{Value: int32(v)}))
			}
			if int64(int16(v)) == v {
				text("HexInt16", val(x), mj(common.HexInt16{Value: int16(v)}))
				to("HexInt16", val(x), func() []byte { return common.HexInt16{Value: int16(v)}.Bytes() })
			}
		}
		if x.IsUint64() {
			v := x.Uint64()
			to("uint64", val(x), func() []byte { return intconv.Uint64ToBytes(v) })
			to("size", val(x), func() []byte { return intconv.SizeToBytes(v) })
			text("uint64", val(x), func() string { return intconv.FormatUint(v) })
			text("HexUint64", val(x), mj(common.HexUint64{Value: v}))
			if uint64(uint32(v)) == v {
				text("HexUint32", val(x), mj(common.HexUint32{Value: uint32(v)}))
			}
			if uint64(uint16(v)) == v {
				text("HexUint16", val(x), mj(common.HexUint16{Value: uint16(v)}))
				to("HexUint16", val(x), func() []byte { return common.HexUint16{Value: uint16(v)}.Bytes() })
			}
		}
	}
	from("big", 0, false, func() vh.Ev {
		x := new(big.Int).SetInt64(int64(len(b)) - 3)
		r := intconv.BigIntSetBytes(x, cp())
		if r.Cmp(x) != 0 {
			panic("result differs")
		}
		return val(x)
	})
	from("HexInt", 0, false, func() vh.Ev {
		var x common.HexInt
		x.SetBytes(cp())
		return val(&x.Int)
	})
	if len(b) <= 8 {
		from("int64", 8, false, func() vh.Ev { return i64(intconv.BytesToInt64(cp())) })
		from("size", 8, true, func() vh.Ev { return u64(intconv.BytesToSize(cp())) })
		from("uint64", 8, true, func() vh.Ev { return u64(intconv.BytesToUint64(cp())) })
	} else if len(b) == 9 && b[0] == 0 {
		from("uint64", 8, true, func() vh.Ev { return u64(intconv.BytesToUint64(cp())) })
	}
	hx := func(kind string, f func() string) {
		e := vh.Ev{"op": "hex", "kind": kind, "b": vh.Ints(b), "out": []int{}}
		add(e, func() { e["out"] = vh.Codes(f()) })
	}
	if b != nil {
		hx("opt", mj(common.HexBytes(cp())))
		hx("opt", func() string { return common.HexBytes(cp()).String() })
		hx("raw", mj(common.RawHexBytes(cp())))
		hx("raw", func() string { return common.RawHexBytes(cp()).String() })
		hx("req", func() string { return string(client.NewHexBytes(cp())) })
	}
	return t
}

func texts(s string) vh.Trace {
	var t vh.Trace
	parse := func(fn string, w int, uns bool, f func() (vh.Ev, error)) {
		e := vh.Ev{"op": "parse", "fn": fn, "w": w, "uns": uns, "in": vh.Codes(s), "ok": false, "v": zero}
		e["panic"] = vh.Try(func() {
			v, err := f()
			if err == nil {
				e["ok"], e["v"] = true, v
			}
		})
		t.Add(e)
	}
	for _, w := range []int{2, 4, 8} {
		w := w
		parse("int", w, false, func() (vh.Ev, error) { v, err := intconv.ParseInt(s, 8*w); return i64(v), err })
		parse("uint", w, true, func() (vh.Ev, error) { v, err := intconv.ParseUint(s, 8*w); return u64(v), err })
	}
	parse("big", 0, false, func() (vh.Ev, error) {
		x := big.NewInt(77)
		err := intconv.ParseBigInt(x, s)
		return val(x), err
	})
	parse("client.HexInt", 8, false, func() (vh.Ev, error) { v, err := client.HexInt(s).Value(); return i64(v), err })
	parse("client.HexInt.Int", 4, false, func() (vh.Ev, error) { v, err := client.HexInt(s).Int(); return i64(int64(v)), err })
	parse("client.HexInt.BigInt", 0, false, func() (vh.Ev, error) {
		v, err := client.HexInt(s).BigInt()
		if err != nil {
			return nil, err
		}
		return val(v), err
	})
	j := js(s)
	parse("HexInt", 0, false, func() (vh.Ev, error) {
		var x common.HexInt
		err := json.Unmarshal(j, &x)
		return val(&x.Int), err
	})
	parse("HexInt16", 2, false, func() (vh.Ev, error) {
		var x common.HexInt16
		err := json.Unmarshal(j, &x)
		return i64(int64(x.Value)), err
	})
	parse("HexInt32", 4, false, func() (vh.Ev, error) {
		var x common.HexInt32
		err := json.Unmarshal(j, &x)
		return i64(int64(x.Value)), err
	})
	parse("HexInt64", 8, false, func() (vh.Ev, error) {
		var x common.HexInt64
		err := json.Unmarshal(j, &x)
		return i64(x.Value), err
	})
	parse("HexUint16", 2, true, func() (vh.Ev, error) {
		var x common.HexUint16
		err := json.Unmarshal(j, &x)
		return u64(uint64(x.Value)), err
	})
	parse("HexUint32", 4, true, func() (vh.Ev, error) {
		var x common.HexUint32
		err := json.Unmarshal(j, &x)
		return u64(uint64(x.Value)), err
	})
	parse("HexUint64", 8, true, func() (vh.Ev, error) {
		var x common.HexUint64
		err := json.Unmarshal(j, &x)
		return u64(x.Value), err
	})
	un := func(fn, kind string, f func() ([]byte, error)) {
		e := vh.Ev{"op": "unhex", "fn": fn, "kind": kind, "in": vh.Codes(s), "ok": false, "b": []int{}}
		e["panic"] = vh.Try(func() {
			v, err := f()
			if err == nil {
				e["ok"], e["b"] = true, vh.Ints(v)
			}
		})
		t.Add(e)
	}
	un("HexBytes", "opt", func() ([]byte, error) {
		var x common.HexBytes
		err := json.Unmarshal(j, &x)
		return x.Bytes(), err
	})
	un("RawHexBytes", "raw", func() ([]byte, error) {
		var x common.RawHexBytes
		err := json.Unmarshal(j, &x)
		return x.Bytes(), err
	})
	un("client.HexBytes", "req", func() ([]byte, error) { return client.HexBytes(s).Value() })
	return t
}

func main() {
	run := func(sc []json.RawMessage, seed int64, args []string) []vh.Trace {
		res := make([]vh.Trace, len(sc))
		vh.Par(len(sc), 8, func(i int) {
			var s scn
			vh.Un(sc[i], &s)
			if s.S != nil {
				res[i] = texts(string(vh.Bytes(s.S)))
			} else {
				b := vh.Bytes(s.B)
				res[i] = append(values(b), texts("0x"+hexs(b))...)
			}
		})
		return res
	}
	vh.Main(map[string]func([]json.RawMessage, int64, []string) []vh.Trace{"run": run})
}

func hexs(b []byte) string {
	const d = "0123456789abcdef"
	s := ""
	for _, x := range b {
		s += string(d[x>>4]) + string(d[x&15])
	}
	return s
}
