package exponents

import (
	"fmt"
	"math/big"
	"testing"
)

func TestGvcE02(t *testing.T) {
	g := gvcStart(t)
	conv := func(xv *big.Int) {
		g.do(gvcS("conversions of exponent ", xv), func() (bool, string) {
			x := gvcExp(xv)
			if r := x.ToBigInt_Full(); r.Cmp(xv) != 0 {
				return false, fmt.Sprintf("ToBigInt_Full %v", r)
			}
			w := gvcMod(xv, gvcP253)
			if r := x.ToBigInt_Subgroup(); r.Cmp(w) != 0 {
				return false, fmt.Sprintf("ToBigInt_Subgroup %v want %v", r, w)
			}
			if r := x.ModuloP253(); gvcVal(r).Cmp(w) != 0 {
				return false, fmt.Sprintf("ModuloP253 %v want %v", gvcVal(r), w)
			}
			if gvcVal(x).Cmp(xv) != 0 {
				return false, "receiver modified"
			}
			if s := x.String(); s != xv.String() {
				return false, "String " + s
			}
			if s, w := fmt.Sprintf("%v %d %s %x", x, x, &x, x), fmt.Sprintf("%v %d %s %x", xv, xv, xv, xv); s != w {
				return false, "printed as " + s
			}
			z := gvcExp(xv)
			z.SetZero()
			o := gvcExp(xv)
			o.SetOne()
			if gvcVal(z).Sign() != 0 || gvcVal(o).Cmp(big.NewInt(1)) != 0 {
				return false, "SetZero/SetOne"
			}
			return true, ""
		})
	}
	set := func(xv, before *big.Int) {
		g.do(func() string { return fmt.Sprintf("SetBigInt(%v)", xv) }, func() (bool, string) {
			z := gvcExp(before)
			arg := new(big.Int).Set(xv)
			z.SetBigInt(arg)
			if w := gvcMod(xv, gvcEXP); gvcVal(z).Cmp(w) != 0 || arg.Cmp(xv) != 0 {
				return false, fmt.Sprintf("got %v want %v, argument after %v", gvcVal(z), w, arg)
			}
			return true, ""
		})
	}
	setw := func(u uint64, before *big.Int) {
		g.do(func() string { return fmt.Sprintf("SetUInt/SetInt(%d)", u) }, func() (bool, string) {
			z := gvcExp(before)
			z.SetUInt(u)
			if gvcVal(z).Cmp(new(big.Int).SetUint64(u)) != 0 {
				return false, "SetUInt"
			}
			z = gvcExp(before)
			z.SetInt(int64(u))
			if w := gvcMod(big.NewInt(int64(u)), gvcEXP); gvcVal(z).Cmp(w) != 0 {
				return false, fmt.Sprintf("SetInt got %v want %v", gvcVal(z), w)
			}
			return true, ""
		})
	}
	for _, x := range g.exps() {
		conv(x)
		for k := int64(-2); k <= 2; k++ {
			set(new(big.Int).Add(x, new(big.Int).Mul(big.NewInt(k), gvcEXP)), gvcP253)
		}
	}
	for _, m := range g.models() {
		if v, ok := m.int("x"); ok {
			set(v, gvcLambda)
			if v.IsUint64() {
				setw(v.Uint64(), gvcLambda)
			}
			if v.IsInt64() {
				setw(uint64(v.Int64()), gvcLambda)
			}
		}
	}
	for i := 0; i < g.iters(5000, 200000); i++ {
		conv(g.below(gvcEXP))
		v := g.bits(1 + g.rng.Intn(600))
		if i%2 == 0 {
			v.Neg(v)
		}
		set(v, g.below(gvcEXP))
		setw(g.word(), g.below(gvcEXP))
	}
}
