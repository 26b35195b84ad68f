package exponents

import (
	"fmt"
	"math/big"
)

var (
	gvcP253   = gvcDec("13108968793781547619861935127046491459309155893440570251786403306729687672801")
	gvcEXP    = new(big.Int).Lsh(gvcP253, 1)
	gvcLambda = gvcDec("8913659658109529928382530854484400854125314752504019737736543920008458395397")
)

func gvcExp(x *big.Int) (z Exponent) {
	w := gvcWords(x, 4)
	copy(z.value[:], w)
	return
}

func gvcVal(z Exponent) *big.Int { return gvcBig(z.value[:]...) }

func (g *gvcG) exps() (r []*big.Int) {
	for _, m := range g.models() {
		for _, n := range []string{"z", "x", "y", "exponent"} {
			if w, ok := m.words(4, n+".value[%d]"); ok {
				r = append(r, gvcMod(gvcBig(w...), gvcEXP))
			}
		}
	}
	for i := int64(-3); i <= 3; i++ {
		for _, b := range []*big.Int{big.NewInt(0), gvcP253, new(big.Int).Rsh(gvcP253, 1), new(big.Int).Lsh(big.NewInt(1), 64), new(big.Int).Lsh(big.NewInt(1), 128),
			new(big.Int).Lsh(big.NewInt(1), 192), new(big.Int).Lsh(big.NewInt(1), 253), gvcLambda} {
			r = append(r, gvcMod(new(big.Int).Add(b, big.NewInt(i)), gvcEXP))
		}
	}
	return
}

func gvcS(x ...any) func() string {
	return func() string { return fmt.Sprint(x...) }
}
