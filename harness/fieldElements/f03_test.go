package fieldElements

import (
	"math/big"
	"testing"
)

func TestGvcF03(t *testing.T) {
	g := gvcStart(t)
	mont := func(z, x, y *big.Int) bool {
		return gvcCong(new(big.Int).Mul(z, gvc256), new(big.Int).Mul(x, y), gvcP) && z.Cmp(gvcC) < 0
	}
	pair := func(x, y *big.Int) {
		if x.Cmp(gvcC) >= 0 {
			return
		}
		g.op2("MulMontgomery_c", func(z, x, y *Uint256) { z.MulMontgomery_c(x, y) }, mont, x, y)
		g.op1("SquareMontgomery_c", func(z, x *Uint256) { z.SquareMontgomery_c(x) }, func(z, x *big.Int) bool { return mont(z, x, x) }, x)
		g.op1("FromMontgomeryRepresentation_fc", func(z, x *Uint256) { z.FromMontgomeryRepresentation_fc(x) },
			func(z, x *big.Int) bool { return mont(z, x, gvcN(1)) && z.Cmp(gvcP) < 0 }, x)
		g.op1("ConvertToMontgomeryRepresentation_c", func(z, x *Uint256) { z.ConvertToMontgomeryRepresentation_c(x) },
			func(z, x *big.Int) bool { return gvcCong(z, new(big.Int).Mul(x, gvc256), gvcP) && z.Cmp(gvcC) < 0 }, x)
		g.op1("ToNonMontgomery_fc", func(z, x *Uint256) { *z = x.ToNonMontgomery_fc() },
			func(z, x *big.Int) bool { return mont(z, x, gvcN(1)) && z.Cmp(gvcP) < 0 }, x)
	}
	vs := g.vals()
	for _, x := range vs {
		for _, y := range vs {
			pair(x, y)
		}
	}
	for i := 0; i < g.iters(3000, 100000); i++ {
		pair(g.val(), g.val())
	}
}
