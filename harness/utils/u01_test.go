package utils

import (
	"fmt"
	"math/big"
	"testing"
)

func TestGvcU01(t *testing.T) {
	g := gvcStart(t)
	var xs []*big.Int
	for _, m := range g.models() {
		if w, ok := m.words(4, "z[%d]", "*z[%d]"); ok {
			xs = append(xs, gvcBig(w...))
		}
		if x, ok := m.int("x"); ok {
			xs = append(xs, x)
		}
	}
	for k := uint(0); k <= 260; k++ {
		for d := int64(-2); d <= 2; d++ {
			x := new(big.Int).Lsh(big.NewInt(1), k)
			x.Add(x, big.NewInt(d))
			xs = append(xs, x, new(big.Int).Neg(x))
		}
	}
	for i := 0; i < g.iters(2000, 100000); i++ {
		xs = append(xs, g.bits(256))
	}
	for i := 0; i < 50; i++ {
		xs = append(xs, g.bits(600), new(big.Int).Lsh(g.bits(100), 256), new(big.Int).Neg(g.bits(256)))
	}
	for _, x := range xs {
		x := x
		g.do(gvcS(x), func() (bool, string) {
			in := new(big.Int).Set(x)
			bad := x.Sign() < 0 || x.BitLen() > 256
			var r [4]uint64
			if gvcPanics(func() { r = BigIntToUIntArray(in) }) != bad {
				return false, "BigIntToUIntArray: panic or absence of panic is wrong"
			}
			if in.Cmp(x) != 0 {
				return false, fmt.Sprintf("argument changed to %v", in)
			}
			if bad {
				return true, ""
			}
			if gvcBig(r[:]...).Cmp(x) != 0 {
				return false, fmt.Sprintf("BigIntToUIntArray gives %v", r)
			}
			w := r
			b := UIntarrayToInt(&w)
			b2 := UIntarrayToInt(&w)
			if b.Cmp(x) != 0 || w != r {
				return false, fmt.Sprintf("UIntarrayToInt gives %v", b)
			}
			b.Add(b, big.NewInt(1))
			if b2.Cmp(x) != 0 {
				return false, "results of UIntarrayToInt are not independent"
			}
			return true, ""
		})
	}
	str := func(in string) {
		g.do(gvcS("InitIntFromString(", in, ")"), func() (bool, string) {
			want, ok := new(big.Int).SetString(in, 0)
			var r, r2 *big.Int
			if gvcPanics(func() { r = InitIntFromString(in); r2 = InitIntFromString(in) }) == ok {
				return false, "panic or absence of panic is wrong"
			}
			if ok && (r.Cmp(want) != 0 || r == r2) {
				return false, r.String()
			}
			return true, ""
		})
	}
	for _, in := range []string{"", "0", "1", "-1", "+5", "0x1f", "0X1F", "0b101", "0o17", "017", "1_000", "_1", "1_", "0x", "08", "ff", " 1", "1 ", "-0x10", "--1", "1e5", "0x1_00000000_00000000"} {
		str(in)
	}
	for i := 0; i < g.iters(500, 50000); i++ {
		v := g.bits(1 + g.rng.Intn(600))
		str(v.String())
		str(fmt.Sprintf("-%#x", v))
		w := new(big.Int).Set(v)
		if i%2 == 0 {
			w.Add(w, big.NewInt(int64(g.rng.Intn(5)-2)))
		}
		g.do(gvcS("IsEqualAsBigInt ", v, " ", w), func() (bool, string) {
			return IsEqualAsBigInt(gvcConv{v}, gvcConv{w}) == (v.Cmp(w) == 0), ""
		})
	}
}

type gvcConv struct{ x *big.Int }

func (c gvcConv) ToBigInt() *big.Int { return new(big.Int).Set(c.x) }
