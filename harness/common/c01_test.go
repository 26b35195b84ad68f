package common

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math/big"
	"testing"
)

func TestGvcC01(t *testing.T) {
	g := gvcStart(t)
	enc := func(w []uint64, big bool) []byte {
		r := make([]byte, 8*len(w))
		for i := range r {
			b := byte(w[i/8] >> (8 * uint(i%8)))
			if big {
				r[len(r)-1-i] = b
			} else {
				r[i] = b
			}
		}
		return r
	}
	val := func(b []byte, msb bool) *big.Int {
		r := new(big.Int)
		for i := range b {
			k := len(b) - 1 - i
			if msb {
				k = i
			}
			r.Lsh(r, 8)
			r.Or(r, big.NewInt(int64(b[k])))
		}
		return r
	}
	var sets [][]uint64
	for _, m := range g.models() {
		for _, n := range []string{"w[%d]", "*w[%d]"} {
			if w, ok := m.words(4, n); ok {
				sets = append(sets, w)
			}
		}
	}
	for i := 0; i < 32; i++ { // one non-zero byte each
		w := make([]uint64, 4)
		w[i/8] = uint64(i+1) << (8 * uint(i%8))
		sets = append(sets, w)
	}
	for i := 0; i < g.iters(400, 20000); i++ {
		sets = append(sets, []uint64{g.word(), g.word(), g.word(), g.word()})
	}
	for _, msb := range []bool{false, true} {
		var e FieldElementEndianness
		var bo binary.ByteOrder = binary.LittleEndian
		if msb {
			bo = binary.BigEndian
		}
		msb := msb
		g.do(gvcS("SetEndianness/GetEndianness/StartsWithMSB most significant first=", msb), func() (bool, string) {
			for _, before := range []binary.ByteOrder{binary.LittleEndian, binary.BigEndian} {
				e.SetEndianness(before)
				e.SetEndianness(bo)
				var f FieldElementEndianness
				f.SetEndianness(before)
				f.SetEndianness(e)
				if e.StartsWithMSB() != msb || f.StartsWithMSB() != msb || e.GetEndianness().StartsWithMSB() != msb || f != e {
					return false, "setting not kept"
				}
			}
			return true, ""
		})
		for si, w := range sets {
			if si%3 != 0 && !g.deep && si > 60 {
				continue
			}
			w4 := [4]uint64{w[0], w[1], w[2], w[3]}
			want := enc(w, msb)
			for _, extra := range []int{0, 1, 9} {
				extra := extra
				g.do(gvcS("writing/reading 256 bits ", w4, " most significant first=", msb, " slice length ", 32+extra), func() (bool, string) {
					mk := func() []byte {
						b := make([]byte, 32+extra, 50+extra)
						for i := range b {
							b[i] = 0xA5
						}
						return b
					}
					okb := func(b []byte) bool {
						for _, x := range b[32:] {
							if x != 0xA5 {
								return false
							}
						}
						return bytes.Equal(b[:32], want)
					}
					b := mk()
					e.PutUint256(b, w4)
					if !okb(b) {
						return false, fmt.Sprintf("PutUint256 wrote %x", b)
					}
					b = mk()
					c4 := w4
					e.PutUint256_ptr(b, &c4)
					if !okb(b) || c4 != w4 {
						return false, fmt.Sprintf("PutUint256_ptr wrote %x", b)
					}
					var a [32]byte
					e.PutUint256_array(&a, &c4)
					if !bytes.Equal(a[:], want) || c4 != w4 {
						return false, fmt.Sprintf("PutUint256_array wrote %x", a)
					}
					if r := e.Uint256(b); r != w4 {
						return false, fmt.Sprintf("Uint256 read %v", r)
					}
					var r [4]uint64
					e.Uint256_indirect(b, &r)
					if r != w4 {
						return false, fmt.Sprintf("Uint256_indirect read %v", r)
					}
					r = [4]uint64{7, 7, 7, 7}
					e.Uint256_array(&a, &r)
					if r != w4 || !okb(b) {
						return false, fmt.Sprintf("Uint256_array read %v", r)
					}
					return true, ""
				})
			}
			g.do(gvcS("16/32/64 bits of ", w4, " most significant first=", msb), func() (bool, string) {
				for n, put := range map[int]func(b []byte){2: func(b []byte) { e.PutUint16(b, uint16(w[0])) }, 4: func(b []byte) { e.PutUint32(b, uint32(w[0])) }, 8: func(b []byte) { e.PutUint64(b, w[0]) }} {
					b := bytes.Repeat([]byte{0x5A}, n+3)
					put(b)
					m := new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), uint(8*n)), big.NewInt(1))
					wv := new(big.Int).And(gvcBig(w[0]), m)
					if val(b[:n], msb).Cmp(wv) != 0 || !bytes.Equal(b[n:], []byte{0x5A, 0x5A, 0x5A}) {
						return false, fmt.Sprintf("wrote %x for %d bytes", b, n)
					}
					var back uint64
					switch n {
					case 2:
						back = uint64(e.Uint16(b))
					case 4:
						back = uint64(e.Uint32(b))
					case 8:
						back = e.Uint64(b)
					}
					if gvcBig(back).Cmp(wv) != 0 {
						return false, fmt.Sprintf("read back %v for %d bytes", back, n)
					}
				}
				return true, ""
			})
		}
		for n := 0; n < 34; n++ {
			n := n
			g.do(gvcS("too short slices, length ", n, " most significant first=", msb), func() (bool, string) {
				b := make([]byte, n, 64)
				var r [4]uint64
				for nm, f := range map[string]func(){"PutUint256": func() { e.PutUint256(b, r) }, "PutUint256_ptr": func() { e.PutUint256_ptr(b, &r) }, "Uint256": func() { e.Uint256(b) },
					"Uint256_indirect": func() { e.Uint256_indirect(b, &r) }} {
					if gvcPanics(f) != (n < 32) {
						return false, nm + ": panic or absence of panic is wrong"
					}
				}
				for k, fs := range map[int][]func(){2: {func() { e.Uint16(b) }, func() { e.PutUint16(b, 1) }}, 4: {func() { e.Uint32(b) }, func() { e.PutUint32(b, 1) }}, 8: {func() { e.Uint64(b) }, func() { e.PutUint64(b, 1) }}} {
					for _, f := range fs {
						if gvcPanics(f) != (n < k) {
							return false, fmt.Sprintf("%d byte function: panic or absence of panic is wrong", k)
						}
					}
				}
				return true, ""
			})
		}
	}
	g.do(gvcS("SetEndianness(native byte order)"), func() (bool, string) {
		var e FieldElementEndianness
		return gvcPanics(func() { e.SetEndianness(binary.NativeEndian) }), "no panic"
	})
}
