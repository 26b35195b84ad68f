package fieldElements

import (
	"fmt"
	"math/big"
)

var (
	gvcP   = gvcDec("52435875175126190479447740508185965837690552500527637822603658699938581184513")
	gvc256 = new(big.Int).Lsh(big.NewInt(1), 256)
	gvcC   = new(big.Int).Sub(gvc256, gvcP) // bound of c-reduced values
	gvcR   = new(big.Int).Mod(gvc256, gvcP)
)

func gvcU(x *big.Int) (z Uint256) {
	copy(z[:], gvcWords(x, 4))
	return
}

func gvcV(z *Uint256) *big.Int { return gvcBig(z[:]...) }

func gvcS(x ...any) func() string {
	return func() string { return fmt.Sprint(x...) }
}

func gvcN(i int64) *big.Int { return big.NewInt(i) }

// vals: 256-bit values around all relevant bounds, and those of the verifier's models.
func (g *gvcG) vals() (r []*big.Int) {
	for _, m := range g.models() {
		for _, n := range []string{"z", "x", "y", "t", "base", "exponent"} {
			for _, f := range []string{n + "[%d]", n + ".words[%d]"} {
				if w, ok := m.words(4, f); ok {
					r = append(r, gvcBig(w...))
				}
			}
		}
	}
	for i := int64(-2); i <= 2; i++ {
		for _, b := range []*big.Int{gvcN(0), gvcP, new(big.Int).Lsh(gvcP, 1), gvcC, gvc256, new(big.Int).Lsh(gvcN(1), 64), new(big.Int).Lsh(gvcN(1), 128),
			new(big.Int).Lsh(gvcN(1), 192), new(big.Int).Lsh(gvcN(1), 255), gvcR} {
			r = append(r, gvcMod(new(big.Int).Add(b, gvcN(i)), gvc256))
		}
	}
	return
}

// val: random 256-bit value, biased towards the bounds.
func (g *gvcG) val() *big.Int {
	switch g.rng.Intn(5) {
	case 0:
		v := g.vals0()
		return gvcMod(new(big.Int).Add(v, gvcN(int64(g.rng.Intn(9)-4))), gvc256)
	case 1: // some words of a bound replaced
		w := gvcWords(g.vals0(), 4)
		for i := range w {
			if g.rng.Intn(2) == 0 {
				w[i] = g.word()
			}
		}
		return gvcBig(w...)
	}
	return g.bits(256)
}

func (g *gvcG) vals0() *big.Int {
	b := []*big.Int{gvcN(0), gvcP, new(big.Int).Lsh(gvcP, 1), gvcC, gvcR, new(big.Int).Sub(gvc256, gvcN(1))}
	return b[g.rng.Intn(len(b))]
}

// op2 runs a binary operation under all aliasing patterns.
func (g *gvcG) op2(name string, f func(z, x, y *Uint256), ok func(z, x, y *big.Int) bool, x, y *big.Int) {
	for al := 0; al < 5; al++ {
		al := al
		if (al == 3 || al == 4) && x.Cmp(y) != 0 {
			continue
		}
		g.do(gvcS(name, " x=", x, " y=", y, " aliasing=", al), func() (bool, string) {
			z, a, b := gvcU(g.bits(256)), gvcU(x), gvcU(y)
			pz, px, py := &z, &a, &b
			switch al {
			case 1:
				pz = px
			case 2:
				pz = py
			case 3:
				py = px
			case 4:
				py = px
				pz = px
			}
			f(pz, px, py)
			if !ok(gvcV(pz), x, y) {
				return false, "got " + gvcV(pz).String()
			}
			if pz != px && gvcV(px).Cmp(x) != 0 || pz != py && gvcV(py).Cmp(y) != 0 {
				return false, "operand changed"
			}
			return true, ""
		})
	}
}

// op1 runs a unary operation, in place too.
func (g *gvcG) op1(name string, f func(z, x *Uint256), ok func(z, x *big.Int) bool, x *big.Int) {
	g.op2(name, func(z, x, y *Uint256) { f(z, x) }, func(z, x, y *big.Int) bool { return ok(z, x) }, x, x)
}

func gvcCong(a, b, m *big.Int) bool {
	return new(big.Int).Mod(new(big.Int).Sub(a, b), m).Sign() == 0
}
