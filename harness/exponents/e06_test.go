package exponents

import (
	"fmt"
	"math/big"
	"testing"
)

func TestGvcE06(t *testing.T) {
	g := gvcStart(t)
	m128 := new(big.Int).Lsh(big.NewInt(1), 128)
	u := func(x *big.Int) uint128 { w := gvcWords(x, 2); return uint128{w[0], w[1]} }
	val := func(x uint128) *big.Int { return gvcBig(x[0], x[1]) }
	one := func(x, y *big.Int) {
		g.do(gvcS("128-bit operations on ", x, ", ", y), func() (bool, string) {
			if r := val(add128(u(x), u(y))); r.Cmp(gvcMod(new(big.Int).Add(x, y), m128)) != 0 {
				return false, fmt.Sprintf("add128 %v", r)
			}
			if r := val(mul128(u(x), u(y))); r.Cmp(gvcMod(new(big.Int).Mul(x, y), m128)) != 0 {
				return false, fmt.Sprintf("mul128 %v", r)
			}
			if r := u(x).ToBigInt(); r.Cmp(x) != 0 {
				return false, fmt.Sprintf("ToBigInt %v", r)
			}
			for i := 0; i < 140; i++ {
				e := glvExponent{u(x), 1}
				if u(x).Bit(uint(i)) != x.Bit(i) || e.Bit(uint(i)) != x.Bit(i) {
					return false, fmt.Sprintf("Bit(%d)", i)
				}
			}
			return true, ""
		})
	}
	sgn := func(x *big.Int, s int) {
		g.do(gvcS("signed 128-bit value |v|=", x, " sign ", s), func() (bool, string) {
			e := glvExponent{u(x), s}
			ws, wv := s, new(big.Int).Set(x)
			if s < 0 {
				wv.Neg(wv)
			}
			if x.Sign() == 0 {
				ws = 0
			}
			if e.Sign() != ws || e.ToBigInt().Cmp(wv) != 0 || e.IsNegative() != (s < 0) {
				return false, fmt.Sprintf("Sign %d ToBigInt %v IsNegative %v", e.Sign(), e.ToBigInt(), e.IsNegative())
			}
			return true, ""
		})
	}
	set := func(x *big.Int) {
		g.do(gvcS("SetBigInt ", x), func() (bool, string) {
			var z uint128
			z.SetBigInt(x)
			if val(z).Cmp(gvcMod(x, m128)) != 0 {
				return false, fmt.Sprintf("uint128 %v", val(z))
			}
			e := glvExponent{uint128{3, 4}, -1}
			if p := gvcPanics(func() { e.SetBigInt(x) }); p != (x.CmpAbs(m128) >= 0) {
				return false, fmt.Sprintf("panics %v", p)
			} else if !p && (val(e.value).CmpAbs(x) != 0 || e.sign != x.Sign() && x.Sign() != 0) {
				return false, fmt.Sprintf("glvExponent %v", e)
			}
			return true, ""
		})
	}
	for _, m := range g.models() {
		x, ok1 := m.words(2, "x[%d]", "z[%d]", "z.value[%d]")
		y, _ := m.words(2, "y[%d]")
		if ok1 {
			one(gvcBig(x...), gvcBig(y...))
			sgn(gvcBig(x...), 1)
			sgn(gvcBig(x...), -1)
		}
		for _, n := range []string{"x", "input"} {
			if v, ok := m.int(n); ok {
				set(v)
			}
		}
	}
	for i := 0; i < g.iters(3000, 60000); i++ {
		one(g.bits(128), g.bits(128))
		sgn(g.bits(128), 1-2*g.rng.Intn(2))
		x := g.bits(1 + g.rng.Intn(140))
		if i%2 == 0 {
			x.Neg(x)
		}
		set(x)
		y := new(big.Int).Add(m128, big.NewInt(int64(g.rng.Intn(5)-2)))
		set(y)
		set(y.Neg(y))
	}
}
