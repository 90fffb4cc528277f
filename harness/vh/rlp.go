package vh

import (
	"errors"
	"math/big"
)

// An RLP reader and writer of its own (ICON flavour: 0xf800 is null, integers are
// two's complement), so that what the code under test wrote is read by something else.

type RNode struct {
	Nil  bool
	List bool
	B    []byte
	L    []RNode
}

func hdr(base byte, n int) []byte {
	if n <= 55 {
		return []byte{base + byte(n)}
	}
	l := big.NewInt(int64(n)).Bytes()
	return append([]byte{base + 55 + byte(len(l))}, l...)
}

func EncBytes(b []byte) []byte {
	if b == nil {
		return []byte{0xf8, 0}
	}
	if len(b) == 1 && b[0] < 0x80 {
		return []byte{b[0]}
	}
	return append(hdr(0x80, len(b)), b...)
}

func EncInt(v int64) []byte { return EncBytes(IntBytes(v)) }

// IntBytes is the shortest two's complement form.
func IntBytes(v int64) []byte {
	r := []byte{}
	for {
		r = append([]byte{byte(v)}, r...)
		if v >= -128 && v <= 127 {
			return r
		}
		v >>= 8
	}
}

func IntOf(b []byte) int64 {
	if len(b) == 0 {
		return 0
	}
	v := int64(int8(b[0]))
	for _, x := range b[1:] {
		v = v<<8 | int64(x)
	}
	return v
}

func UintOf(b []byte) int64 {
	v := int64(0)
	for _, x := range b {
		v = v<<8 | int64(x)
	}
	return v
}

func EncList(items ...[]byte) []byte {
	var b []byte
	for _, i := range items {
		b = append(b, i...)
	}
	return append(hdr(0xc0, len(b)), b...)
}

var errRLP = errors.New("malformed rlp")

func Dec(b []byte) (n RNode, rest []byte, err error) {
	if len(b) == 0 {
		return n, nil, errRLP
	}
	t := b[0]
	body := func(off, base byte) ([]byte, []byte, error) {
		var sz, hl int
		if off <= 55 {
			sz, hl = int(off), 1
		} else {
			k := int(off - 55)
			if len(b) < 1+k || k > 4 {
				return nil, nil, errRLP
			}
			sz, hl = int(UintOf(b[1:1+k])), 1+k
		}
		if len(b) < hl+sz {
			return nil, nil, errRLP
		}
		return b[hl : hl+sz], b[hl+sz:], nil
	}
	switch {
	case t < 0x80:
		return RNode{B: b[:1]}, b[1:], nil
	case t < 0xc0:
		d, r, e := body(t-0x80, 0x80)
		return RNode{B: d}, r, e
	default:
		if t == 0xf8 && len(b) > 1 && b[1] == 0 {
			return RNode{Nil: true}, b[2:], nil
		}
		d, r, e := body(t-0xc0, 0xc0)
		if e != nil {
			return n, nil, e
		}
		n.List = true
		for len(d) > 0 {
			var c RNode
			if c, d, e = Dec(d); e != nil {
				return n, nil, e
			}
			n.L = append(n.L, c)
		}
		return n, r, nil
	}
}

func DecAll(b []byte) (RNode, error) {
	n, r, err := Dec(b)
	if err == nil && len(r) > 0 {
		err = errRLP
	}
	return n, err
}
