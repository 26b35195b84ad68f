package exponents

import (
	"fmt"
	"math/big"
	"testing"
)

func TestGvcE01(t *testing.T) {
	g := gvcStart(t)
	ops := []struct {
		name string
		f    func(z, x, y *Exponent)
		ref  func(x, y *big.Int) *big.Int
	}{
		{"Add", func(z, x, y *Exponent) { z.Add(x, y) }, func(x, y *big.Int) *big.Int { return new(big.Int).Add(x, y) }},
		{"Sub", func(z, x, y *Exponent) { z.Sub(x, y) }, func(x, y *big.Int) *big.Int { return new(big.Int).Sub(x, y) }},
		{"Mul", func(z, x, y *Exponent) { z.Mul(x, y) }, func(x, y *big.Int) *big.Int { return new(big.Int).Mul(x, y) }},
		{"Neg", func(z, x, y *Exponent) { z.Neg(x) }, func(x, y *big.Int) *big.Int { return new(big.Int).Neg(x) }},
	}
	one := func(xv, yv, zv *big.Int) {
		for _, op := range ops {
			want := gvcMod(op.ref(xv, yv), gvcEXP)
			for al := 0; al < 5; al++ {
				op, al := op, al
				g.do(func() string { return fmt.Sprintf("%s x=%v y=%v z(before)=%v alias=%d", op.name, xv, yv, zv, al) }, func() (bool, string) {
					x, y, z := gvcExp(xv), gvcExp(yv), gvcExp(zv)
					zp, yp := &z, &y
					w := want
					switch al {
					case 1:
						zp = &x
					case 2:
						zp = &y
					case 3:
						yp = &x
						w = gvcMod(op.ref(xv, xv), gvcEXP)
					case 4:
						yp, zp = &x, &x
						w = gvcMod(op.ref(xv, xv), gvcEXP)
					}
					op.f(zp, &x, yp)
					if gvcVal(*zp).Cmp(w) != 0 {
						return false, fmt.Sprintf("got %v want %v", gvcVal(*zp), w)
					}
					if zp != &x && gvcVal(x).Cmp(xv) != 0 || zp != &y && gvcVal(y).Cmp(yv) != 0 {
						return false, "argument modified"
					}
					return true, ""
				})
			}
		}
	}
	es := g.exps()
	for i, x := range es {
		for j, y := range es {
			if g.deep || (i+j)%5 == 0 || i < 4 || j < 4 {
				one(x, y, es[(i+j)%len(es)])
			}
		}
	}
	for i := 0; i < g.iters(1000, 50000); i++ {
		x, y := g.below(gvcEXP), g.below(gvcEXP)
		if i%4 == 0 { // x+y near multiples of the modulus, x-y near 0
			y = gvcMod(new(big.Int).Sub(big.NewInt(int64(g.rng.Intn(5)-2)), x), gvcEXP)
		}
		if i%4 == 1 {
			y = gvcMod(new(big.Int).Add(big.NewInt(int64(g.rng.Intn(5)-2)), x), gvcEXP)
		}
		one(x, y, g.below(gvcEXP))
	}
}
