package fieldElements

import (
	"math/big"
	"testing"
)

func TestGvcF02(t *testing.T) {
	g := gvcStart(t)
	b2 := new(big.Int).Lsh(gvcP, 1)
	cong := func(f func(x, y *big.Int) *big.Int, bound *big.Int) func(z, x, y *big.Int) bool {
		return func(z, x, y *big.Int) bool { return gvcCong(z, f(x, y), gvcP) && (bound == nil || z.Cmp(bound) < 0) }
	}
	add := func(x, y *big.Int) *big.Int { return new(big.Int).Add(x, y) }
	sub := func(x, y *big.Int) *big.Int { return new(big.Int).Sub(x, y) }
	mul := func(x, y *big.Int) *big.Int { return new(big.Int).Mul(x, y) }
	pair := func(x, y *big.Int) {
		if x.Cmp(b2) < 0 && y.Cmp(b2) < 0 {
			g.op2("AddAndReduce_b", func(z, x, y *Uint256) { z.AddAndReduce_b(x, y) }, cong(add, b2), x, y)
			g.op2("SubAndReduce_b", func(z, x, y *Uint256) { z.SubAndReduce_b(x, y) }, cong(sub, b2), x, y)
		}
		if x.Cmp(gvcC) < 0 && y.Cmp(gvcC) < 0 {
			g.op2("AddAndReduce_c", func(z, x, y *Uint256) { z.AddAndReduce_c(x, y) }, cong(add, gvcC), x, y)
			g.op2("SubAndReduce_c", func(z, x, y *Uint256) { z.SubAndReduce_c(x, y) }, cong(sub, gvcC), x, y)
		}
		g.op2("MulAndReduce_a", func(z, x, y *Uint256) { z.MulAndReduce_a(x, y) }, cong(mul, nil), x, y)
		g.op1("SquareAndReduce_a", func(z, x *Uint256) { z.SquareAndReduce_a(x) }, func(z, x *big.Int) bool { return gvcCong(z, mul(x, x), gvcP) }, x)
		g.do(gvcS("in-place operations and predicates on x=", x, " y=", y), func() (bool, string) {
			a, b := gvcU(x), gvcU(y)
			if !a.IsReduced_a() || a.IsReduced_b() != (x.Cmp(b2) < 0) || a.IsReduced_c() != (x.Cmp(gvcC) < 0) || a.IsReduced_f() != (x.Cmp(gvcP) < 0) {
				return false, "IsReduced wrong"
			}
			z := a
			z.AddEqAndReduce_a(&b)
			if !gvcCong(gvcV(&z), add(x, y), gvcP) {
				return false, "AddEqAndReduce_a wrong"
			}
			z = a
			z.SubEqAndReduce_a(&b)
			if !gvcCong(gvcV(&z), sub(x, y), gvcP) {
				return false, "SubEqAndReduce_a wrong"
			}
			z = a
			z.MulEqAndReduce_a(&b)
			if !gvcCong(gvcV(&z), mul(x, y), gvcP) {
				return false, "MulEqAndReduce_a wrong"
			}
			z = a
			z.SquareEqAndReduce_a()
			if !gvcCong(gvcV(&z), mul(x, x), gvcP) {
				return false, "SquareEqAndReduce_a wrong"
			}
			z = a
			z.DoubleEqAndReduce_a()
			if !gvcCong(gvcV(&z), add(x, x), gvcP) {
				return false, "DoubleEqAndReduce_a wrong"
			}
			z = a.ComputeModularNegative_Weak_a()
			if !gvcCong(gvcV(&z), new(big.Int).Neg(x), gvcP) {
				return false, "ComputeModularNegative_Weak_a wrong"
			}
			want := gvcMod(x, gvcP)
			z = a
			z.Reduce()
			z2 := a
			z2.Reduce_fa()
			if gvcV(&z).Cmp(want) != 0 || gvcV(&z2).Cmp(want) != 0 {
				return false, "Reduce wrong"
			}
			z = a
			z.Reduce_ca()
			if v := gvcV(&z); !gvcCong(v, x, gvcP) || v.Cmp(gvcC) >= 0 {
				return false, "Reduce_ca wrong"
			}
			if x.Cmp(b2) < 0 {
				z = a
				z.Reduce_fb()
				if gvcV(&z).Cmp(want) != 0 {
					return false, "Reduce_fb wrong"
				}
			}
			var l Uint512
			copy(l[:4], a[:])
			copy(l[4:], b[:])
			z.ReduceUint512ToUint256_a(l)
			if !gvcCong(gvcV(&z), gvcBig(l[:]...), gvcP) {
				return false, "ReduceUint512ToUint256_a wrong"
			}
			return true, ""
		})
	}
	vs := g.vals()
	for _, x := range vs {
		for _, y := range vs {
			pair(x, y)
		}
	}
	for i := 0; i < g.iters(2000, 80000); i++ {
		pair(g.val(), g.val())
	}
	for i := 0; i < g.iters(60, 2000); i++ {
		x, e := g.val(), g.val()
		g.do(gvcS("ModularExponentiation_fa basis=", x, " exponent=", e), func() (bool, string) {
			a, b := gvcU(x), gvcU(e)
			var z Uint256
			z.ModularExponentiation_fa(&a, &b)
			return gvcV(&z).Cmp(new(big.Int).Exp(x, e, gvcP)) == 0, "got " + gvcV(&z).String()
		})
	}
}
