package exponents

import (
	"fmt"
	"math/big"
	"testing"
)

func TestGvcE04(t *testing.T) {
	g := gvcStart(t)
	max := gvcDec("62111775536698671376125354107412126641")
	val := func(e glvExponent) *big.Int {
		v := gvcBig(e.value[0], e.value[1])
		if e.sign < 0 {
			v.Neg(v)
		}
		return v
	}
	one := func(xv *big.Int) {
		g.do(gvcS("GLV_representation of ", xv), func() (bool, string) {
			x := gvcExp(xv)
			r := GLV_representation(&x)
			u, v := val(r.U), val(r.V)
			s := new(big.Int).Mul(v, gvcLambda)
			s.Add(s, u).Sub(s, xv)
			if gvcMod(s, gvcP253).Sign() != 0 || u.CmpAbs(max) > 0 || v.CmpAbs(max) > 0 || gvcVal(x).Cmp(xv) != 0 {
				return false, fmt.Sprintf("u=%v v=%v", u, v)
			}
			if u.Sign() != 0 && r.U.sign*r.U.sign != 1 || v.Sign() != 0 && r.V.sign*r.V.sign != 1 {
				return false, fmt.Sprintf("signs %d %d for u=%v v=%v", r.U.sign, r.V.sign, u, v)
			}
			return true, ""
		})
	}
	for _, x := range g.exps() {
		one(x)
	}
	l := []*big.Int{gvcDec(lBasis_11_string), gvcDec(lBasis_12_string), gvcDec(lBasis_21_string), gvcDec(lBasis_22_string)}
	for i := 0; i < g.iters(4000, 100000); i++ {
		one(g.below(gvcEXP))
		// small u and/or v, and points near cell boundaries
		u, v := g.bits(1+g.rng.Intn(127)), g.bits(1+g.rng.Intn(127))
		if i%2 == 0 {
			u.Neg(u)
		}
		if i%3 == 0 {
			v.Neg(v)
		}
		if i%5 == 0 {
			u.SetInt64(int64(g.rng.Intn(5) - 2))
		}
		if i%7 == 0 {
			v.SetInt64(int64(g.rng.Intn(5) - 2))
		}
		if i%4 == 0 {
			k := g.rng.Intn(2)
			u.Rsh(l[2*k], 1)
			v.Rsh(l[2*k+1], 1)
			u.Add(u, big.NewInt(int64(g.rng.Intn(5)-2)))
			v.Add(v, big.NewInt(int64(g.rng.Intn(5)-2)))
		}
		s := new(big.Int).Mul(v, gvcLambda)
		one(gvcMod(s.Add(s, u), gvcEXP))
	}
}
