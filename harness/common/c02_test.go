package common

import "testing"

func TestGvcC02(t *testing.T) {
	g := gvcStart(t)
	for n := 0; n < 256; n++ {
		for b := 0; b < 256; b++ {
			n, b := uint8(n), PrefixBits(b)
			bad := n > 8 || int(b) >= 1<<n
			g.do(gvcS("header bits=", b, " length=", n), func() (bool, string) {
				var r BitHeader
				if gvcPanics(func() { r = MakeBitHeader(b, n) }) != bad {
					return false, "MakeBitHeader: panic or absence of panic is wrong"
				}
				if !bad && (r.PrefixBits() != b || r.PrefixLen() != n) {
					return false, "MakeBitHeader: value not kept"
				}
				x := BitHeader{prefixBits: 5, prefixLen: 3}
				if gvcPanics(func() { x.SetBitHeader(b, n) }) != bad {
					return false, "SetBitHeader: panic or absence of panic is wrong"
				}
				if !bad && (x.PrefixBits() != b || x.PrefixLen() != n || x.GetBitHeader() != r) {
					return false, "SetBitHeader: value not kept"
				}
				y := BitHeader{prefixBits: b, prefixLen: n}
				if gvcPanics(func() { y.Validate() }) != bad {
					return false, "Validate: panic or absence of panic is wrong"
				}
				z := BitHeader{prefixBits: 5, prefixLen: 3}
				if gvcPanics(func() { z.SetBitHeaderFromBitHeader(y) }) != bad {
					return false, "SetBitHeaderFromBitHeader: panic or absence of panic is wrong"
				}
				if !bad && z != y {
					return false, "SetBitHeaderFromBitHeader: value not kept"
				}
				return y == BitHeader{prefixBits: b, prefixLen: n}, "argument changed"
			})
		}
	}
}
