// Driver of the addresses (C16).
package main

import (
	"bytes"
	"encoding/json"
	"math/rand"

	"golang.org/x/crypto/sha3"

	"github.com/icon-project/btp/chain/icon/client"
	"github.com/icon-project/btp/common"
	"github.com/icon-project/btp/common/codec"
	"github.com/icon-project/btp/common/crypto"
	"github.com/icon-project/btp/common/types"
	"github.com/icon-project/btp/zzverif/vh"
)

func btp(s string) vh.Trace {
	e := vh.Ev{"op": "btp", "in": vh.Codes(s)}
	e["panic"] = vh.Try(func() {
		var a types.BtpAddress
		vh.Must(a.Set(s))
		e["str"] = vh.Codes(a.String())
		e["proto"] = vh.Codes(a.Protocol())
		e["net"] = vh.Codes(a.NetworkAddress())
		e["nid"] = vh.Codes(a.NetworkID())
		e["chain"] = vh.Codes(a.BlockChain())
		e["acct"] = vh.Codes(a.Account())
		e["contract"] = vh.Codes(a.ContractAddress())
		e["valid"] = types.ValidateBtpAddress(a) == nil
	})
	return vh.Trace{e}
}

func junk(r *rand.Rand) *common.Address {
	a := new(common.Address)
	for i := range a {
		a[i] = byte(r.Intn(2))
		if i > 0 {
			a[i] = byte(r.Intn(256))
		}
	}
	return a
}

func addrs(r *rand.Rand) vh.Trace {
	var t vh.Trace
	n := []int{0, 1, 2, 3, 19, 20, 20, 21, 21, 21, 21, 21, 22}[r.Intn(13)]
	b := make([]byte, n)
	_, _ = r.Read(b)
	if n > 0 {
		b[0] = []byte{0, 1, 0, 1, 0, 1, 2, 255}[r.Intn(8)]
		if n > 1 && r.Intn(2) == 0 {
			b[1] = 0
		}
	}
	e := vh.Ev{"op": "bytes", "in": vh.Ints(b), "ok": false}
	text := ""
	e["panic"] = vh.Try(func() {
		a := junk(r)
		if a.SetBytes(append([]byte{}, b...)) != nil {
			return
		}
		text = a.String()
		e["ok"] = true
		e["b"], e["id"], e["text"], e["isc"] = vh.Ints(a.Bytes()), vh.Ints(a.ID()), vh.Codes(text), a.IsContract()
		a2, a3 := junk(r), junk(r)
		j, err := json.Marshal(a)
		e["json"] = []int{}
		if err == nil && json.Unmarshal(j, a2) == nil {
			e["json"] = vh.Ints(a2[:])
		}
		e["rlp"] = []int{}
		if _, err := codec.RLP.UnmarshalFromBytes(codec.RLP.MustMarshalToBytes(a), a3); err == nil {
			e["rlp"] = vh.Ints(a3[:])
		}
		o := new(common.Address)
		*o = *a
		o[20] ^= 1
		e["eq"] = a.Equal(common.NewAddress(a.Bytes())) && !a.Equal(o) && !a.Equal(nil) && !o.Equal(a) &&
			common.NewAddressFromString(text).Equal(a)
		if a.IsContract() {
			e["eq"] = e["eq"].(bool) && common.NewContractAddress(a.ID()).Equal(a) && !common.NewAccountAddress(a.ID()).Equal(a)
		} else {
			e["eq"] = e["eq"].(bool) && common.NewAccountAddress(a.ID()).Equal(a) && !common.NewContractAddress(a.ID()).Equal(a)
		}
	})
	t.Add(e)
	c := vh.Ev{"op": "cbytes", "in": vh.Ints(b), "text": []int{}}
	c["panic"] = vh.Try(func() { c["text"] = vh.Codes(string(client.NewAddress(append([]byte{}, b...)))) })
	t.Add(c)
	// texts: of the address, damaged, of other lengths
	s := text
	if s == "" {
		s = "hx0123456789abcdef0123456789ABCDEF01234567"
	}
	set := func(s string) {
		e := vh.Ev{"op": "text", "in": vh.Codes(s), "strict": false, "ok": false, "b": []int{}}
		e["panic"] = vh.Try(func() {
			a := junk(r)
			if a.SetString(s) == nil {
				e["ok"], e["b"] = true, vh.Ints(a[:])
			}
		})
		t.Add(e)
		e = vh.Ev{"op": "text", "in": vh.Codes(s), "strict": true, "ok": false, "b": []int{}}
		e["panic"] = vh.Try(func() {
			if b, err := client.Address(s).Value(); err == nil {
				e["ok"], e["b"] = true, vh.Ints(b)
			}
		})
		t.Add(e)
	}
	set(s)
	set(s[2:])
	set("0c" + s[4:])
	set("0x" + s[2:])
	set(s[:2] + s[3:])
	set(s[:2+r.Intn(40)])
	set(s[2:][r.Intn(40):])
	set(string(bytes.ToUpper([]byte(s))))
	set(s[:2] + string(bytes.ToUpper([]byte(s[2:]))))
	for k := 0; k < 6; k++ {
		d := []byte(s)
		i := r.Intn(len(d))
		if r.Intn(3) == 0 {
			i = r.Intn(3)
		}
		switch r.Intn(4) {
		case 0:
			d[i] = "0xghc/:@` -"[r.Intn(11)]
		case 1:
			d = append(d[:i], d[i+1:]...)
		case 2:
			d = append(d[:i], append([]byte{"0fxh"[r.Intn(4)]}, d[i:]...)...)
		case 3:
			d = d[:i]
		}
		set(string(d))
	}
	return t
}

func key(r *rand.Rand) vh.Trace {
	b := make([]byte, 32)
	_, _ = r.Read(b)
	b[0] = byte(r.Intn(3) * 60)
	e := vh.Ev{"op": "key", "ok": false, "b": []int{}}
	e["panic"] = vh.Try(func() {
		k, err := crypto.ParsePrivateKey(b)
		vh.Must(err)
		pk := k.PublicKey()
		d := sha3.Sum256(pk.SerializeUncompressed()[1:])
		e["want"] = vh.Ints(d[12:])
		e["b"], e["ok"] = vh.Ints(common.NewAccountAddressFromPublicKey(pk).Bytes()), true
	})
	return vh.Trace{e}
}

func main() {
	vh.Main(map[string]func([]json.RawMessage, int64, []string) []vh.Trace{
		"btp": func(sc []json.RawMessage, seed int64, args []string) []vh.Trace {
			res := make([]vh.Trace, len(sc))
			for i := range sc {
				var s struct{ S []int }
				vh.Un(sc[i], &s)
				res[i] = btp(string(vh.Bytes(s.S)))
			}
			return res
		},
		"icon": func(sc []json.RawMessage, seed int64, args []string) []vh.Trace {
			res := make([]vh.Trace, len(sc))
			for i := range sc {
				r := rand.New(rand.NewSource(seed*7919 + int64(i)))
				res[i] = append(addrs(r), key(r)...)
			}
			return res
		},
	})
}
