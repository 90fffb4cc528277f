// Driver of keys, signatures (C18) and key stores (C17).
package main

import (
	"bytes"
	"crypto/aes"
	"crypto/cipher"
	"crypto/ecdsa"
	"crypto/rand"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"io/ioutil"
	"log"
	"math/big"
	mrand "math/rand"
	"strings"
	"sync"

	"github.com/ethereum/go-ethereum/accounts/keystore"
	eth "github.com/ethereum/go-ethereum/crypto"
	"github.com/google/uuid"
	"golang.org/x/crypto/pbkdf2"
	"golang.org/x/crypto/scrypt"
	"golang.org/x/crypto/sha3"

	"github.com/icon-project/btp/common/crypto"
	"github.com/icon-project/btp/common/wallet"
	"github.com/icon-project/btp/zzverif/vh"
)

type key struct {
	name   string
	b      []byte
	sk     *ecdsa.PrivateKey
	pub    []byte // 65 bytes
	cpub   []byte // 33 bytes
	icx    string
	evm    string
	kwrong bool
}

var keys = map[string]*key{}
var names = []string{"k1", "k2", "k3", "kz"}
var order, _ = new(big.Int).SetString("fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141", 16)

func mkKeys(r *mrand.Rand) {
	for _, n := range names {
		b := make([]byte, 32)
		for {
			_, _ = r.Read(b)
			if n == "kz" {
				for i := 0; i < 29+r.Intn(3); i++ {
					b[i] = 0
				}
				b[31] |= 1
			}
			if x := new(big.Int).SetBytes(b); x.Sign() > 0 && x.Cmp(order) < 0 {
				break
			}
		}
		sk, err := eth.ToECDSA(b)
		vh.Must(err)
		k := &key{name: n, b: b, sk: sk, pub: eth.FromECDSAPub(&sk.PublicKey), cpub: eth.CompressPubkey(&sk.PublicKey)}
		h := sha3.Sum256(k.pub[1:])
		k.icx = "hx" + hex.EncodeToString(h[12:])
		k.evm = eth.PubkeyToAddress(sk.PublicKey).Hex()
		keys[n] = k
	}
}

func keyOf(pub []byte) string {
	for _, n := range names {
		if bytes.Equal(pub, keys[n].cpub) || bytes.Equal(pub, keys[n].pub) {
			return n
		}
	}
	return "other"
}

var msgs map[string][]byte
var mnames = []string{"h32", "h1", "h20", "hz", "hff"}

func mkMsgs(r *mrand.Rand) {
	h := make([]byte, 32)
	_, _ = r.Read(h)
	h2 := make([]byte, 20)
	_, _ = r.Read(h2)
	h2[0] |= 1
	z := make([]byte, 32)
	z[31] = byte(1 + r.Intn(9))
	ff := bytes.Repeat([]byte{0x77}, 32)
	msgs = map[string][]byte{"h32": h, "h1": {byte(100 + r.Intn(100))}, "h20": h2, "hz": z, "hff": ff}
}

func priv(k *key) *crypto.PrivateKey {
	p, err := crypto.ParsePrivateKey(append([]byte{}, k.b...))
	vh.Must(err)
	return p
}

func pad(m []byte) []byte { return append(make([]byte, 32-len(m)), m...) }

type sscn struct {
	K string `json:"k"`
	M string `json:"m"`
	H []struct {
		Op string `json:"op"`
		X  string `json:"x"`
	} `json:"h"`
}

func sign(s *sscn, r *mrand.Rand) vh.Trace {
	var t vh.Trace
	k, m := keys[s.K], msgs[s.M]
	var g *crypto.Signature
	keep := append([]byte{}, m...)
	for _, h := range s.H {
		e := vh.Ev{"op": h.Op, "x": h.X, "ok": true}
		switch h.Op {
		case "sign":
			e["k"], e["m"] = s.K, s.M
			e["panic"] = vh.Try(func() {
				var err error
				switch h.X {
				case "lib":
					g, err = crypto.NewSignature(m, priv(k))
				case "wallet":
					w, err2 := wallet.NewIcxWalletFromPrivateKey(priv(k))
					vh.Must(err2)
					var b []byte
					if b, err = w.Sign(m); err == nil {
						g, err = crypto.ParseSignature(b)
					}
				default:
					b, err2 := eth.Sign(pad(m), k.sk)
					vh.Must(err2)
					g, err = crypto.ParseSignature(b)
				}
				e["ok"] = err == nil && g != nil && g.HasV()
			})
		case "conv":
			e["hasv"] = false
			e["panic"] = vh.Try(func() {
				var b []byte
				var err error
				var g2 *crypto.Signature
				switch h.X {
				case "rs":
					if b, err = g.SerializeRS(); err == nil {
						b = append([]byte{}, b...)
						g2, err = crypto.ParseSignature(b)
					}
				case "rsv":
					if b, err = g.SerializeRSV(); err == nil {
						b = append([]byte{}, b...)
						g2, err = crypto.ParseSignature(b)
					}
				default:
					if b, err = g.SerializeVRS(); err == nil {
						b = append([]byte{}, b...)
						g2, err = crypto.ParseSignatureVRS(b)
					}
				}
				e["ok"] = err == nil
				if err == nil {
					g = g2
					e["hasv"] = g.HasV()
				}
			})
		case "hurt":
			e["panic"] = vh.Try(func() { g = hurt(g, h.X, r) })
		}
		t.Add(e)
		if e["panic"] != "" || g == nil {
			return t
		}
	}
	vm := []string{s.M, mnames[r.Intn(len(mnames))]}
	vk := []string{s.K, names[r.Intn(len(names))]}
	for _, mn := range vm {
		for _, kn := range vk {
			e := vh.Ev{"op": "verify", "m": mn, "k": kn}
			e["panic"] = vh.Try(func() {
				p, err := crypto.ParsePublicKey(keys[kn].cpub)
				if r.Intn(2) == 0 {
					p, err = crypto.ParsePublicKey(keys[kn].pub)
				}
				e["ok"] = err == nil && g.Verify(msgs[mn], p)
			})
			t.Add(e)
		}
		e := vh.Ev{"op": "recover", "m": mn, "res": "err"}
		e["panic"] = vh.Try(func() {
			if p, err := g.RecoverPublicKey(msgs[mn]); err == nil {
				e["res"] = keyOf(p.SerializeCompressed())
				if u := keyOf(p.SerializeUncompressed()); u != e["res"] {
					e["res"] = "mixed " + u
				}
			}
		})
		t.Add(e)
		e = vh.Ev{"op": "eth", "m": mn, "res": "err", "panic": ""}
		if b, err := g.SerializeRSV(); err == nil && len(b) == 65 {
			if p, err := eth.Ecrecover(pad(msgs[mn]), b); err == nil {
				e["res"] = keyOf(p)
			}
		}
		t.Add(e)
	}
	for _, bad := range [][]byte{nil, {}, make([]byte, 33), bytes.Repeat([]byte{9}, 64)} {
		e := vh.Ev{"op": "badsign", "ok": false}
		e["panic"] = vh.Try(func() {
			_, err := crypto.NewSignature(bad, priv(k))
			_, err2 := g.RecoverPublicKey(bad)
			p, _ := crypto.ParsePublicKey(k.cpub)
			e["ok"] = err == nil || err2 == nil || g.Verify(bad, p)
		})
		t.Add(e)
	}
	e := vh.Ev{"op": "badsign", "ok": false}
	e["panic"] = vh.Try(func() {
		_, err := crypto.NewSignature(m, nil)
		b := make([]byte, []int{0, 1, 32, 63, 66, 132}[r.Intn(6)])
		_, err2 := crypto.ParseSignature(b)
		_, err3 := crypto.ParseSignatureVRS(b)
		_, err4 := crypto.ParseSignatureVRS(b[:len(b)/2])
		e["ok"] = err == nil || err2 == nil || err3 == nil || err4 == nil || g.Verify(m, nil) || !bytes.Equal(m, keep)
	})
	t.Add(e)
	return t
}

func scramble(b []byte, r *mrand.Rand) {
	for i := range b {
		b[i] ^= byte(r.Intn(256))
	}
}

// hurt rebuilds the signature from changed bytes
func hurt(g *crypto.Signature, p string, r *mrand.Rand) *crypto.Signature {
	rs, err := g.SerializeRS()
	vh.Must(err)
	b := append([]byte{}, rs...)
	if v, err := g.SerializeRSV(); err == nil {
		b = append(b, v[64])
	}
	switch p {
	case "v":
		if len(b) == 65 {
			b[64] ^= 1
		}
	case "big":
		if len(b) == 65 {
			b[64] = []byte{4, 5, 27, 28, 255}[r.Intn(5)]
		}
	case "r":
		scramble(b[16:32], r)
	case "s":
		scramble(b[48:64], r)
	case "neg":
		x := new(big.Int).SetBytes(b[32:64])
		x.Sub(order, x).Mod(x, order)
		copy(b[32:64], pad(x.Bytes()))
	}
	n, err := crypto.ParseSignature(b)
	vh.Must(err)
	return n
}

func randKeys(r *mrand.Rand) vh.Trace {
	var t vh.Trace
	k := keys[names[r.Intn(len(names))]]
	e := vh.Ev{"op": "pub", "same": false}
	e["panic"] = vh.Try(func() {
		p := priv(k)
		a, err := crypto.ParsePublicKey(append([]byte{}, k.cpub...))
		b, err2 := crypto.ParsePublicKey(append([]byte{}, k.pub...))
		c := p.PublicKey()
		o, _ := crypto.ParsePublicKey(keys[map[bool]string{true: "k1", false: "k2"}[k.name == "k2"]].pub)
		e["same"] = err == nil && err2 == nil && a.Equal(b) && b.Equal(c) && c.Equal(a) && bytes.Equal(c.SerializeCompressed(), k.cpub) &&
			bytes.Equal(b.SerializeUncompressed(), k.pub) && bytes.Equal(a.SerializeUncompressed(), k.pub) &&
			bytes.Equal(p.Bytes(), k.b) && p.String() == "0x"+hex.EncodeToString(k.b) && a.String() == b.String() &&
			(k.name == "k1" || !a.Equal(o))
		p.Bytes()[0] ^= 255
		e["same"] = e["same"].(bool) && bytes.Equal(p.Bytes(), k.b)
	})
	t.Add(e)
	// a random key and the one with the other y
	e = vh.Ev{"op": "pub", "same": false}
	e["panic"] = vh.Try(func() {
		d := make([]byte, 32)
		_, _ = r.Read(d)
		d[0] &= 127
		x := new(big.Int).SetBytes(d)
		in := append([]byte{}, d...)
		p, err := crypto.ParsePrivateKey(in)
		vh.Must(err)
		in[5] ^= 1 // the caller may use its bytes again
		q, err := crypto.ParsePrivateKey(pad(new(big.Int).Sub(order, x).Bytes()))
		vh.Must(err)
		sk, err := eth.ToECDSA(d)
		vh.Must(err)
		u := eth.FromECDSAPub(&sk.PublicKey)
		a, err := crypto.ParsePublicKey(u)
		e["same"] = err == nil && bytes.Equal(p.Bytes(), d) && p.PublicKey().Equal(a) && bytes.Equal(a.SerializeUncompressed(), u) &&
			!q.PublicKey().Equal(a) && bytes.Equal(a.SerializeCompressed(), eth.CompressPubkey(&sk.PublicKey)) &&
			bytes.Equal(q.PublicKey().SerializeCompressed()[1:], a.SerializeCompressed()[1:])
	})
	t.Add(e)
	// several links sign at the same time
	if r.Intn(20) == 0 {
		e = vh.Ev{"op": "race", "ok": false}
		bad := make([]string, 8)
		var wg sync.WaitGroup
		for j := range bad {
			j := j
			wg.Add(1)
			go func() {
				defer wg.Done()
				k := keys[names[j%len(names)]]
				pk, err := crypto.ParsePublicKey(k.cpub)
				vh.Must(err)
				m := bytes.Repeat([]byte{byte(j + 1)}, 32)
				for n := 0; n < 40 && bad[j] == ""; n++ {
					wrong := ""
					bad[j] = vh.Try(func() {
						g, err := crypto.NewSignature(m, priv(k))
						if err != nil || !g.Verify(m, pk) {
							wrong = "invalid"
						}
						if n%4 == 0 {
							a, b := crypto.GenerateKeyPair()
							if !a.PublicKey().Equal(b) {
								wrong = "pair"
							}
						}
					})
					bad[j] += wrong
				}
			}()
		}
		wg.Wait()
		e["panic"] = strings.Join(bad, "")
		e["ok"] = e["panic"] == ""
		t.Add(e)
	}
	// a new pair fits together
	e = vh.Ev{"op": "pub", "same": false}
	e["panic"] = vh.Try(func() {
		p, q := crypto.GenerateKeyPair()
		sk, err := eth.ToECDSA(p.Bytes())
		p2, q2 := crypto.GenerateKeyPair()
		e["same"] = err == nil && bytes.Equal(eth.CompressPubkey(&sk.PublicKey), q.SerializeCompressed()) && !q.Equal(q2) && !bytes.Equal(p.Bytes(), p2.Bytes())
	})
	t.Add(e)
	// what is not a key
	var bp []byte
	short := false
	switch r.Intn(3) {
	case 0:
		bp = make([]byte, []int{0, 1, 32, 34, 64, 66}[r.Intn(6)])
		_, _ = r.Read(bp)
		short = true
	case 1:
		bp = make([]byte, 33)
		bp[0] = 2
	case 2: // no point with this x
		for {
			bp = make([]byte, 33)
			_, _ = r.Read(bp)
			bp[0], bp[1] = byte(2+r.Intn(2)), byte(r.Intn(255))
			if _, err := eth.DecompressPubkey(bp); err != nil {
				break
			}
		}
	}
	e = vh.Ev{"op": "badpub", "ok": false, "in": hex.EncodeToString(bp)}
	e["panic"] = vh.Try(func() {
		_, err := crypto.ParsePublicKey(bp)
		w, err2 := wallet.NewIcxWalletFromPrivateKey(priv(k))
		vh.Must(err2)
		_, err2 = w.ECDH(bp)
		_, err3 := wallet.NewEncrypted(w, bp, []byte("text"))
		e["ok"] = (short && err == nil) || err2 == nil || err3 == nil
	})
	t.Add(e)
	var bs []byte
	switch r.Intn(5) {
	case 0:
		bs = make([]byte, []int{0, 1, 31, 33, 64}[r.Intn(5)])
	case 1:
		bs = make([]byte, 32)
	case 2:
		bs = bytes.Repeat([]byte{255}, 32)
	case 3:
		bs = order.Bytes()
	case 4:
		bs = new(big.Int).Add(order, big.NewInt(int64(1+r.Intn(100)))).Bytes()
	}
	e = vh.Ev{"op": "badpriv", "ok": false, "in": hex.EncodeToString(bs)}
	e["panic"] = vh.Try(func() {
		p, err := crypto.ParsePrivateKey(bs)
		e["ok"] = err == nil
		if err == nil {
			_ = p.PublicKey()
		}
	})
	t.Add(e)
	// secrets shared by two wallets and texts sealed for one of them
	ws := map[string]wallet.Wallet{}
	for _, n := range names {
		w, err := wallet.NewIcxWalletFromPrivateKey(priv(keys[n]))
		vh.Must(err)
		ws[n] = w
	}
	from, to := names[r.Intn(4)], names[r.Intn(4)]
	tp := keys[to].cpub
	if r.Intn(2) == 0 {
		tp = keys[to].pub
	}
	e = vh.Ev{"op": "ecdh", "ok": false, "same": false}
	e["panic"] = vh.Try(func() {
		a, err := ws[from].ECDH(tp)
		b, err2 := ws[to].ECDH(keys[from].cpub)
		x, y := eth.S256().ScalarMult(keys[to].sk.X, keys[to].sk.Y, keys[from].b)
		e["ok"] = err == nil && err2 == nil
		e["same"] = bytes.Equal(a, b) && bytes.Equal(a, eth.CompressPubkey(&ecdsa.PublicKey{Curve: eth.S256(), X: x, Y: y})) &&
			bytes.Equal(ws[from].PublicKey(), keys[from].cpub) && ws[from].Address() == keys[from].icx
	})
	t.Add(e)
	text := make([]byte, 16+r.Intn(64))
	_, _ = r.Read(text)
	keep := append([]byte{}, text...)
	var sealed *wallet.Encrypted
	e = vh.Ev{"op": "seal", "ok": false, "fresh": false}
	e["panic"] = vh.Try(func() {
		var err error
		sealed, err = wallet.NewEncrypted(ws[from], append([]byte{}, tp...), text)
		s2, err2 := wallet.NewEncrypted(ws[from], append([]byte{}, tp...), text)
		e["ok"] = err == nil && err2 == nil && bytes.Equal(keep, text)
		e["fresh"] = err == nil && err2 == nil && !bytes.Equal(sealed.CipherText, s2.CipherText) && !bytes.Equal(sealed.CipherText, text)
	})
	t.Add(e)
	if sealed == nil {
		return t
	}
	for _, d := range []string{"none", "salt", "key", "text", "short", "json"} {
		for _, who := range names {
			if who == from && from != to {
				continue // the sender could as well
			}
			if d != "none" && d != "json" && who != to {
				continue
			}
			x := &wallet.Encrypted{Param: append([]byte{}, sealed.Param...), CipherText: append([]byte{}, sealed.CipherText...)}
			dd := d
			switch d {
			case "salt":
				x.Param[r.Intn(4)] ^= 1
			case "key":
				copy(x.Param[4:], keys[map[bool]string{true: "k3", false: "k1"}[from == "k1"]].cpub)
			case "text":
				x.CipherText[r.Intn(len(x.CipherText))] ^= 4
			case "short":
				x.Param = x.Param[:r.Intn(len(x.Param)-1)]
			case "json":
				b, err := json.Marshal(x)
				vh.Must(err)
				x = &wallet.Encrypted{}
				vh.Must(json.Unmarshal(b, x))
				dd = "none"
			}
			e = vh.Ev{"op": "unseal", "who": who, "to": to, "damage": dd, "ok": false, "same": false}
			e["panic"] = vh.Try(func() {
				b, err := x.Decrypt(ws[who])
				e["ok"], e["same"] = err == nil, bytes.Equal(b, text)
			})
			t.Add(e)
		}
	}
	// a wallet that cannot agree on a secret must not pretend to
	e = vh.Ev{"op": "badpub", "ok": false, "in": "evm"}
	e["panic"] = vh.Try(func() {
		w, err := wallet.NewEvmWalletFromPrivateKey(k.sk)
		vh.Must(err)
		_, err = wallet.NewEncrypted(w, keys[to].cpub, text)
		e["ok"] = err == nil
	})
	t.Add(e)
	return t
}

type kscn struct {
	K  string   `json:"k"`
	Pw string   `json:"pw"`
	W  string   `json:"w"`
	D  []string `json:"d"`
}

var pws = map[string]string{"p": "gochain", "": "", "sp": "  two words\n", "uni": "päss-열쇠-🔑", "long": strings.Repeat("0123456789", 20), "nul": "a\x00b"}

func store(w string, k *key, pw string) []byte {
	salt, iv := make([]byte, 8+8*(int(k.b[31])%4)), make([]byte, 16)
	_, _ = rand.Read(salt)
	_, _ = rand.Read(iv)
	var dk []byte
	var err error
	var params map[string]interface{}
	kdf := "scrypt"
	if w == "pbkdf2" {
		kdf = "pbkdf2"
		dk = pbkdf2.Key([]byte(pw), salt, 16, 32, sha256.New)
		params = map[string]interface{}{"dklen": 32, "c": 16, "prf": "hmac-sha256", "salt": hex.EncodeToString(salt)}
	} else {
		dk, err = scrypt.Key([]byte(pw), salt, 16, 8, 1, 32)
		vh.Must(err)
		params = map[string]interface{}{"dklen": 32, "n": 16, "r": 8, "p": 1, "salt": hex.EncodeToString(salt)}
	}
	b, err := aes.NewCipher(dk[:16])
	vh.Must(err)
	ct := make([]byte, 32)
	cipher.NewCTR(b, iv).XORKeyStream(ct, k.b)
	a := strings.ToLower(k.evm[2:])
	if w == "icx" {
		a = k.icx
	}
	m := map[string]interface{}{"address": a, "id": uuid.New().String(), "version": 3,
		"crypto": map[string]interface{}{"cipher": "aes-128-ctr", "cipherparams": map[string]interface{}{"iv": hex.EncodeToString(iv)},
			"ciphertext": hex.EncodeToString(ct), "kdf": kdf, "kdfparams": params,
			"mac": hex.EncodeToString(eth.Keccak256(dk[16:], ct))}}
	if w == "icx" || w == "evm" {
		m["coinType"] = w
	}
	r, err := json.Marshal(m)
	vh.Must(err)
	return r
}

func flip(s string, r *mrand.Rand) string {
	b := []byte(s)
	i := len(b) - 1 - r.Intn(min(16, len(b)))
	n := "0123456789abcdef"[r.Intn(16)]
	for n == b[i] || n == b[i]+'a'-'A' {
		n = "0123456789abcdef"[r.Intn(16)]
	}
	b[i] = n
	return string(b)
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}

func damage(js []byte, d string, r *mrand.Rand) []byte {
	if d == "cut" {
		return js[:1+r.Intn(len(js)-1)]
	}
	if d == "empty" {
		return []byte{}
	}
	var m map[string]interface{}
	if json.Unmarshal(js, &m) != nil {
		return js
	}
	c, _ := m["crypto"].(map[string]interface{})
	if c == nil {
		c = map[string]interface{}{}
	}
	cp, _ := c["cipherparams"].(map[string]interface{})
	if cp == nil {
		cp = map[string]interface{}{}
	}
	kp, _ := c["kdfparams"].(map[string]interface{})
	if kp == nil {
		kp = map[string]interface{}{}
	}
	str := func(x map[string]interface{}, k string, f func(string) string) {
		if s, ok := x[k].(string); ok && s != "" {
			x[k] = f(s)
		}
	}
	fl := func(s string) string { return flip(s, r) }
	cutf := func(s string) string { return s[:len(s)-2*(1+r.Intn(len(s)/2))] }
	longf := func(s string) string { return s + "00" }
	switch d {
	case "cipher":
		c["cipher"] = []string{"aes-256-ctr", "aes-128-cbc", "", "AES-128-CTR"}[r.Intn(4)]
	case "kdf":
		c["kdf"] = []string{"bcrypt", "", "Scrypt"}[r.Intn(3)]
	case "iv":
		str(cp, "iv", fl)
	case "ivshort":
		str(cp, "iv", cutf)
	case "ivlong":
		str(cp, "iv", longf)
	case "noiv":
		delete(cp, "iv")
	case "ct":
		str(c, "ciphertext", fl)
	case "ctshort":
		str(c, "ciphertext", cutf)
	case "ctlong":
		str(c, "ciphertext", longf)
	case "noct":
		delete(c, "ciphertext")
	case "mac":
		str(c, "mac", fl)
	case "macshort":
		str(c, "mac", cutf)
	case "nomac":
		delete(c, "mac")
	case "salt":
		str(kp, "salt", fl)
	case "nosalt":
		delete(kp, "salt")
	case "n":
		if c["kdf"] == "pbkdf2" {
			kp["c"] = 17
		} else {
			kp["n"] = 32
		}
	case "nodd":
		if c["kdf"] == "pbkdf2" {
			kp["prf"] = "hmac-sha512"
		} else {
			kp["n"] = 17
		}
	case "nzero":
		if c["kdf"] == "pbkdf2" {
			kp["prf"] = ""
		} else {
			kp["n"] = []int{0, -16, 1}[r.Intn(3)]
		}
	case "r":
		kp["r"] = []int{7, 0, -8}[r.Intn(3)]
	case "p":
		kp["p"] = []int{2, 0, -1}[r.Intn(3)]
	case "dkshort":
		kp["dklen"] = 1 + r.Intn(31)
	case "dkzero":
		kp["dklen"] = 0
	case "dkneg":
		kp["dklen"] = -1 - r.Intn(64)
	case "dklong":
		kp["dklen"] = 33 + r.Intn(64)
	case "addr":
		str(m, "address", fl)
	case "noaddr":
		delete(m, "address")
	case "kind":
		str(m, "address", func(s string) string { return "cx" + s[2:] })
	case "coin":
		m["coinType"] = []string{"moon", "icxx", "ICX", "eth"}[r.Intn(4)]
	case "nocrypto":
		delete(m, "crypto")
	case "noparams":
		delete(c, []string{"cipherparams", "kdfparams"}[r.Intn(2)])
	case "type":
		switch r.Intn(3) {
		case 0:
			c["mac"] = 7
		case 1:
			c["ciphertext"] = "zz" + c["ciphertext"].(string)
		case 2:
			m["crypto"] = "text"
		}
	case "id":
		m["id"] = "anything"
	case "idnew":
		m["id"] = uuid.New().String()
	case "extra":
		m["more"], c["more"] = 1, []int{1}
	case "upper":
		up := strings.ToUpper
		str(c, "ciphertext", up)
		str(c, "mac", up)
		str(cp, "iv", up)
		str(kp, "salt", up)
	case "order":
		b, err := json.MarshalIndent(m, " ", "\t")
		vh.Must(err)
		return b
	default:
		log.SetOutput(vhErr{})
		log.Fatal("damage " + d)
	}
	b, err := json.Marshal(m)
	vh.Must(err)
	return b
}

type vhErr struct{}

func (vhErr) Write(b []byte) (int, error) { println(string(b)); return len(b), nil }

func storeScn(s *kscn, r *mrand.Rand) vh.Trace {
	var t vh.Trace
	k := keys[s.K]
	coin := "evm"
	if s.W == "icx" || s.W == "own" {
		coin = "icx"
	}
	var js []byte
	e := vh.Ev{"op": "make", "k": s.K, "pw": s.Pw, "coin": coin, "w": s.W}
	e["panic"] = vh.Try(func() {
		var err error
		switch {
		case s.W == "own" && r.Intn(2) == 0:
			js, err = wallet.EncryptKeyAsKeyStore(priv(k), []byte(pws[s.Pw]))
		case s.W == "own":
			w, err2 := wallet.NewIcxWalletFromPrivateKey(priv(k))
			vh.Must(err2)
			js, err = wallet.KeyStoreFromWallet(w, []byte(pws[s.Pw]))
		case s.W == "geth":
			js, err = keystore.EncryptKey(&keystore.Key{Id: uuid.New(), Address: eth.PubkeyToAddress(k.sk.PublicKey), PrivateKey: k.sk}, pws[s.Pw], 16, 1)
			vh.Must(err)
		default:
			js = store(s.W, k, pws[s.Pw])
		}
		e["ok"] = err == nil && len(js) > 0
	})
	t.Add(e)
	if e["ok"] != true {
		return t
	}
	if s.W == "own" {
		for _, pw := range []string{s.Pw, "p", "sp"} {
			e := vh.Ev{"op": "peer", "pw": pw, "ok": false, "panic": ""}
			var d struct {
				Crypto  keystore.CryptoJSON `json:"crypto"`
				Address string              `json:"address"`
				Coin    string              `json:"coinType"`
				Version int                 `json:"version"`
				ID      string              `json:"id"`
			}
			if json.Unmarshal(js, &d) == nil && d.Address == k.icx && d.Coin == "icx" && d.Version == 3 {
				if _, err := uuid.Parse(d.ID); err == nil {
					if b, err := keystore.DecryptDataV3(d.Crypto, pws[pw]); err == nil {
						e["ok"], e["k"] = true, "other"
						if bytes.Equal(b, k.b) {
							e["k"] = s.K
						}
					}
				}
			}
			t.Add(e)
		}
	}
	for _, d := range s.D {
		js = damage(js, d, r)
		t.Add(vh.Ev{"op": "hurt", "d": d, "panic": ""})
	}
	try := []string{s.Pw}
	if len(s.D) == 0 && s.W != "own" {
		try = []string{"p", "", "sp", "uni", "long", "nul"}
	} else {
		for _, n := range []string{"uni", "p", "", "long"} {
			if n != s.Pw && len(try) < 3 && r.Intn(2) == 0 {
				try = append(try, n)
			}
		}
	}
	for _, pw := range try {
		e := vh.Ev{"op": "open", "pw": pw, "ok": false, "k": "", "addr": false, "pub": false, "sig": false}
		keep, p := append([]byte{}, js...), []byte(pws[pw])
		e["panic"] = vh.Try(func() {
			w, err := wallet.DecryptKeyStore(js, p)
			if err != nil {
				return
			}
			e["ok"] = true
			e["k"] = keyOf(w.PublicKey())
			a := k.evm
			want := k.pub
			if coin == "icx" {
				a, want = k.icx, k.cpub
			}
			e["addr"], e["pub"] = w.Address() == a, bytes.Equal(w.PublicKey(), want) && bytes.Equal(keep, js) && string(p) == pws[pw]
			if ew, ok := w.(*wallet.EvmWallet); ok {
				e["pub"] = e["pub"].(bool) && bytes.Equal(eth.FromECDSA(ew.Skey), k.b)
			}
			if g, err := w.Sign(msgs["h32"]); err == nil {
				q, err := eth.Ecrecover(msgs["h32"], g)
				e["sig"] = err == nil && bytes.Equal(q, k.pub)
			}
		})
		t.Add(e)
	}
	e = vh.Ev{"op": "addr", "ok": false, "same": false}
	e["panic"] = vh.Try(func() {
		if a, err := wallet.ReadAddressFromKeyStore(js); err == nil {
			e["ok"], e["same"] = true, a.String() == k.icx
		}
	})
	t.Add(e)
	return t
}

func main() {
	log.SetOutput(ioutil.Discard)
	run := func(f func(b json.RawMessage, r *mrand.Rand) vh.Trace) func([]json.RawMessage, int64, []string) []vh.Trace {
		return func(scn []json.RawMessage, seed int64, args []string) []vh.Trace {
			mkKeys(mrand.New(mrand.NewSource(seed)))
			mkMsgs(mrand.New(mrand.NewSource(seed)))
			out := make([]vh.Trace, len(scn))
			vh.Par(len(scn), 8, func(i int) {
				out[i] = f(scn[i], mrand.New(mrand.NewSource(seed*1000003+int64(i))))
			})
			return out
		}
	}
	vh.Main(map[string]func([]json.RawMessage, int64, []string) []vh.Trace{
		"sign": run(func(b json.RawMessage, r *mrand.Rand) vh.Trace { var s sscn; vh.Un(b, &s); return sign(&s, r) }),
		"keys": run(func(b json.RawMessage, r *mrand.Rand) vh.Trace { return randKeys(r) }),
		"store": run(func(b json.RawMessage, r *mrand.Rand) vh.Trace { var s kscn; vh.Un(b, &s); return storeScn(&s, r) }),
	})
}
