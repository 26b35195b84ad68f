package exponents

import (
	"fmt"
	"math/big"
	"testing"
)

func TestGvcE05(t *testing.T) {
	g := gvcStart(t)
	one := func(v *big.Int, sign int, maxbits uint) {
		g.do(func() string {
			return fmt.Sprintf("signed-digit decomposition of |v|=%v sign=%d maxbits=%d", v, sign, maxbits)
		}, func() (bool, string) {
			var in glvExponent
			w := gvcWords(v, 2)
			in.value[0], in.value[1] = w[0], w[1]
			in.sign = sign
			if sign == 0 {
				v = big.NewInt(0)
				in.value = uint128{}
			}
			d := decomposeUnalignedSignedAdic(in, maxbits)
			s := new(big.Int)
			for _, c := range d {
				if c.coeff%2 == 0 || c.coeff >= 1<<maxbits || c.sign*c.sign != 1 {
					return false, fmt.Sprintf("digit %+v", c)
				}
				t := new(big.Int).Lsh(new(big.Int).SetUint64(uint64(c.coeff)), c.position)
				if c.sign < 0 {
					t.Neg(t)
				}
				s.Add(s, t)
			}
			want := new(big.Int).Mul(v, big.NewInt(int64(sign)))
			if s.Cmp(want) != 0 {
				return false, fmt.Sprintf("sum %v want %v", s, want)
			}
			return true, ""
		})
	}
	for _, m := range g.models() {
		if w, ok := m.words(2, "input.value[%d]"); ok {
			for mb := uint(1); mb <= 8; mb++ {
				one(gvcBig(w...), 1, mb)
				one(gvcBig(w...), -1, mb)
			}
		}
	}
	all := new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 128), big.NewInt(1))
	for mb := uint(1); mb <= 8; mb++ {
		one(big.NewInt(0), 0, mb)
		one(big.NewInt(0), 1, mb)
		one(all, 1, mb)
		one(all, -1, mb)
		for i := uint(0); i <= 128; i++ {
			x := new(big.Int).Rsh(all, i)
			one(x, 1, mb)
			one(new(big.Int).Sub(all, x), -1, mb)
			if i < 128 {
				one(new(big.Int).Lsh(big.NewInt(1), i), 1, mb)
			}
		}
		for i := 0; i < g.iters(400, 20000); i++ {
			one(g.bits(128), 1-2*g.rng.Intn(2), mb)
		}
	}
}
