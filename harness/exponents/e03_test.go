package exponents

import (
	"fmt"
	"math/big"
	"testing"
)

func TestGvcE03(t *testing.T) {
	g := gvcStart(t)
	one := func(xv *big.Int) {
		g.do(gvcS("predicates on exponent ", xv), func() (bool, string) {
			x := gvcExp(xv)
			m := gvcMod(xv, gvcP253)
			got := []bool{x.IsZero_Full(), x.IsZero_Subgroup(), x.IsOne_Full(), x.IsOne_Subgroup()}
			want := []bool{xv.Sign() == 0, m.Sign() == 0, xv.Cmp(big.NewInt(1)) == 0, m.Cmp(big.NewInt(1)) == 0}
			if fmt.Sprint(got) != fmt.Sprint(want) || gvcVal(x).Cmp(xv) != 0 {
				return false, fmt.Sprintf("IsZero_Full, IsZero_Subgroup, IsOne_Full, IsOne_Subgroup: got %v want %v", got, want)
			}
			return true, ""
		})
	}
	norm := func(v *big.Int) {
		g.do(gvcS("normalisation predicates on stored value ", v), func() (bool, string) {
			x := gvcExp(v)
			if x.isNormalized_Full() != (v.Cmp(gvcEXP) < 0) || x.isNormalized_Subgroup() != (v.Cmp(gvcP253) < 0) {
				return false, fmt.Sprint(x.isNormalized_Full(), x.isNormalized_Subgroup())
			}
			return true, ""
		})
	}
	for _, m := range g.models() {
		if w, ok := m.words(4, "z.value[%d]"); ok {
			norm(gvcBig(w...))
		}
	}
	for _, x := range g.exps() {
		one(x)
		norm(x)
		norm(new(big.Int).Add(x, gvcP253))
	}
	// values sharing some words with the interesting ones
	base := []*big.Int{big.NewInt(0), big.NewInt(1), gvcP253, new(big.Int).Add(gvcP253, big.NewInt(1)), gvcEXP}
	for _, b := range base {
		for mask := 0; mask < 16; mask++ {
			for k := 0; k < 20; k++ {
				w := gvcWords(b, 4)
				for i := range w {
					if mask>>uint(i)&1 == 1 {
						if k < 4 {
							w[i] += uint64(k) - 2
						} else {
							w[i] = g.word()
						}
					}
				}
				norm(gvcBig(w...))
				one(gvcMod(gvcBig(w...), gvcEXP))
			}
		}
	}
	for i := 0; i < g.iters(3000, 100000); i++ {
		one(g.below(gvcEXP))
		norm(g.bits(256))
	}
}
