package fieldElements

import (
	"math/big"
	"testing"
)

type gvcFE = bsFieldElement_MontgomeryNonUnique

var gvcRInv = new(big.Int).ModInverse(gvc256, gvcP)

// gvcFEval: the field element with the given words (bounded by the invariant).
func gvcFEw(words *big.Int) (z gvcFE) {
	z.words = gvcU(words)
	return
}

func gvcFEv(z *gvcFE) *big.Int {
	return new(big.Int).Mod(new(big.Int).Mul(gvcV(&z.words), gvcRInv), gvcP)
}

func gvcFEok(z *gvcFE) bool { return gvcV(&z.words).Cmp(gvcC) < 0 }

// fe2 runs an operation z.f(x, y) under all aliasing patterns and compares values; want==nil: must panic.
func (g *gvcG) fe2(name string, f func(z, x, y *gvcFE), want func(x, y *big.Int) *big.Int, xw, yw *big.Int) {
	for al := 0; al < 5; al++ {
		al := al
		if (al == 3 || al == 4) && xw.Cmp(yw) != 0 {
			continue
		}
		g.do(gvcS(name, " internal words x=", xw, " y=", yw, " aliasing=", al), func() (bool, string) {
			z, a, b := gvcFEw(new(big.Int).Mod(g.bits(256), gvcC)), gvcFEw(xw), gvcFEw(yw)
			pz, px, py := &z, &a, &b
			switch al {
			case 1:
				pz = px
			case 2:
				pz = py
			case 3:
				py = px
			case 4:
				py = px
				pz = px
			}
			vx, vy := gvcFEv(px), gvcFEv(py)
			w := want(vx, vy)
			if p := gvcPanics(func() { f(pz, px, py) }); p != (w == nil) {
				return false, "panic behaviour"
			}
			if w == nil {
				return true, ""
			}
			if gvcFEv(pz).Cmp(new(big.Int).Mod(w, gvcP)) != 0 {
				return false, "got " + gvcFEv(pz).String() + " want " + new(big.Int).Mod(w, gvcP).String()
			}
			if !gvcFEok(pz) {
				return false, "result violates the invariant: " + gvcV(&pz.words).String()
			}
			if pz != px && gvcFEv(px).Cmp(vx) != 0 || pz != py && gvcFEv(py).Cmp(vy) != 0 {
				return false, "operand changed"
			}
			return true, ""
		})
	}
}

func TestGvcF04(t *testing.T) {
	g := gvcStart(t)
	B := func() *big.Int { return new(big.Int) }
	inv := func(y *big.Int) *big.Int {
		if y.Sign() == 0 {
			return nil
		}
		return B().ModInverse(y, gvcP)
	}
	mulInv := func(x, y *big.Int) *big.Int {
		i := inv(new(big.Int).Mod(y, gvcP))
		if i == nil {
			return nil
		}
		return B().Mul(x, i)
	}
	k64 := func(w *big.Int) uint64 { return gvcU(w)[0] }
	pair := func(x, y *big.Int) {
		x, y = B().Mod(x, gvcC), B().Mod(y, gvcC)
		g.fe2("Add", func(z, x, y *gvcFE) { z.Add(x, y) }, func(x, y *big.Int) *big.Int { return B().Add(x, y) }, x, y)
		g.fe2("Sub", func(z, x, y *gvcFE) { z.Sub(x, y) }, func(x, y *big.Int) *big.Int { return B().Sub(x, y) }, x, y)
		g.fe2("Mul", func(z, x, y *gvcFE) { z.Mul(x, y) }, func(x, y *big.Int) *big.Int { return B().Mul(x, y) }, x, y)
		g.fe2("Divide", func(z, x, y *gvcFE) { z.Divide(x, y) }, mulInv, x, y)
		g.fe2("CmpAbs", func(z, x, y *gvcFE) {
			vx, vy := gvcFEv(x), gvcFEv(y)
			a, e := x.CmpAbs(y)
			s := B().Mod(B().Add(vx, vy), gvcP).Sign() == 0
			if e != (vx.Cmp(vy) == 0) || a != (e || s) || gvcFEv(x).Cmp(vx) != 0 || gvcFEv(y).Cmp(vy) != 0 {
				panic("CmpAbs")
			}
			*z = *x
		}, func(x, y *big.Int) *big.Int { return x }, x, y)
		g.fe2("IsEqual", func(z, x, y *gvcFE) {
			vx, vy := gvcFEv(x), gvcFEv(y)
			if x.IsEqual(y) != (vx.Cmp(vy) == 0) {
				panic("IsEqual")
			}
			*z = *x
		}, func(x, y *big.Int) *big.Int { return x }, x, y)
		k := k64(y)
		kb, ki := B().SetUint64(k), gvcN(int64(k))
		un := func(name string, f func(z, x *gvcFE), want func(x *big.Int) *big.Int) {
			g.fe2(name, func(z, x, y *gvcFE) { f(z, x) }, func(x, y *big.Int) *big.Int { return want(x) }, x, x)
		}
		un("Neg", func(z, x *gvcFE) { z.Neg(x) }, func(x *big.Int) *big.Int { return B().Neg(x) })
		un("Square", func(z, x *gvcFE) { z.Square(x) }, func(x *big.Int) *big.Int { return B().Mul(x, x) })
		un("Double", func(z, x *gvcFE) { z.Double(x) }, func(x *big.Int) *big.Int { return B().Add(x, x) })
		un("MulFive", func(z, x *gvcFE) { z.MulFive(x) }, func(x *big.Int) *big.Int { return B().Mul(gvcN(5), x) })
		un("Inv", func(z, x *gvcFE) { z.Inv(x) }, inv)
		un("AddEq", func(z, x *gvcFE) { t := *x; t.AddEq(x); *z = t }, func(x *big.Int) *big.Int { return B().Add(x, x) })
		un("SubEq", func(z, x *gvcFE) { t := *x; t.SubEq(x); *z = t }, func(x *big.Int) *big.Int { return B() })
		un("MulEq", func(z, x *gvcFE) { t := *x; t.MulEq(x); *z = t }, func(x *big.Int) *big.Int { return B().Mul(x, x) })
		un("SquareEq", func(z, x *gvcFE) { t := *x; t.SquareEq(); *z = t }, func(x *big.Int) *big.Int { return B().Mul(x, x) })
		un("DoubleEq", func(z, x *gvcFE) { t := *x; t.DoubleEq(); *z = t }, func(x *big.Int) *big.Int { return B().Add(x, x) })
		un("NegEq", func(z, x *gvcFE) { t := *x; t.NegEq(); *z = t }, func(x *big.Int) *big.Int { return B().Neg(x) })
		un("InvEq", func(z, x *gvcFE) { t := *x; t.InvEq(); *z = t }, inv)
		un("DivideEq", func(z, x *gvcFE) { t := *x; t.DivideEq(x); *z = t }, func(x *big.Int) *big.Int { return mulInv(x, x) })
		un("Normalize", func(z, x *gvcFE) {
			t := *x
			t.Normalize()
			if gvcV(&t.words).Cmp(gvcP) >= 0 || !t.isNormalized() {
				panic("not normalized")
			}
			*z = t
		}, func(x *big.Int) *big.Int { return x })
		un("RerandomizeRepresentation", func(z, x *gvcFE) { t := *x; t.RerandomizeRepresentation(k); *z = t }, func(x *big.Int) *big.Int { return x })
		un("SetZero", func(z, x *gvcFE) { z.SetZero() }, func(x *big.Int) *big.Int { return B() })
		un("SetOne", func(z, x *gvcFE) { z.SetOne() }, func(x *big.Int) *big.Int { return gvcN(1) })
		un("SetUint64", func(z, x *gvcFE) { z.SetUint64(k) }, func(x *big.Int) *big.Int { return kb })
		un("SetInt64", func(z, x *gvcFE) { z.SetInt64(int64(k)) }, func(x *big.Int) *big.Int { return ki })
		un("SetUint256", func(z, x *gvcFE) { u := gvcU(y); z.SetUint256(&u) }, func(x *big.Int) *big.Int { return y })
		un("SetBigInt", func(z, x *gvcFE) { z.SetBigInt(B().Neg(y)) }, func(x *big.Int) *big.Int { return B().Neg(y) })
		un("ToBytes/SetBytes", func(z, x *gvcFE) { var b [32]byte; x.ToBytes(b[:]); z.SetBytes(b[:]) }, func(x *big.Int) *big.Int { return x })
		un("AddUint64", func(z, x *gvcFE) { z.AddUint64(x, k) }, func(x *big.Int) *big.Int { return B().Add(x, kb) })
		un("SubUint64", func(z, x *gvcFE) { z.SubUint64(x, k) }, func(x *big.Int) *big.Int { return B().Sub(x, kb) })
		un("MulUint64", func(z, x *gvcFE) { z.MulUint64(x, k) }, func(x *big.Int) *big.Int { return B().Mul(x, kb) })
		un("DivideUint64", func(z, x *gvcFE) { z.DivideUint64(x, k) }, func(x *big.Int) *big.Int { return mulInv(x, kb) })
		un("AddInt64", func(z, x *gvcFE) { z.AddInt64(x, int64(k)) }, func(x *big.Int) *big.Int { return B().Add(x, ki) })
		un("SubInt64", func(z, x *gvcFE) { z.SubInt64(x, int64(k)) }, func(x *big.Int) *big.Int { return B().Sub(x, ki) })
		un("MulInt64", func(z, x *gvcFE) { z.MulInt64(x, int64(k)) }, func(x *big.Int) *big.Int { return B().Mul(x, ki) })
		un("DivideInt64", func(z, x *gvcFE) { z.DivideInt64(x, int64(k)) }, func(x *big.Int) *big.Int { return mulInv(x, ki) })
		g.do(gvcS("readers, internal words x=", x), func() (bool, string) {
			a := gvcFEw(x)
			v := gvcFEv(&a)
			sign := 0
			if v.Sign() > 0 {
				sign = 1
				if B().Lsh(v, 1).Cmp(gvcP) > 0 {
					sign = -1
				}
			}
			var u Uint256
			a.ToUint256(&u)
			ok := a.IsZero() == (v.Sign() == 0) && a.IsOne() == (v.Cmp(gvcN(1)) == 0) && a.Sign() == sign && a.ToBigInt().Cmp(v) == 0 && gvcV(&u).Cmp(v) == 0
			return ok, "IsZero, IsOne, Sign, ToBigInt or ToUint256"
		})
	}
	// powers, square roots, the quadratic character and conversions that may fail
	more := func(x, y *big.Int) {
		x = B().Mod(x, gvcC)
		g.do(gvcS("Exp, internal words base=", x, " exponent=", y), func() (bool, string) {
			a := gvcFEw(x)
			v := gvcFEv(&a)
			want := B().Exp(v, y, gvcP)
			e := gvcU(y)
			var z gvcFE
			z.Exp(&a, &e)
			if gvcFEv(&z).Cmp(want) != 0 || !gvcFEok(&z) || gvcFEv(&a).Cmp(v) != 0 || gvcV(&e).Cmp(y) != 0 {
				return false, "got " + gvcFEv(&z).String() + " want " + want.String()
			}
			a.Exp(&a, &e)
			return gvcFEv(&a).Cmp(want) == 0 && gvcFEok(&a), "aliased receiver: got " + gvcFEv(&a).String() + " want " + want.String()
		})
		g.do(gvcS("Jacobi, SquareRoot, internal words x=", x), func() (bool, string) {
			a := gvcFEw(x)
			v := gvcFEv(&a)
			j := big.Jacobi(v, gvcP)
			if r := a.Jacobi(); r != j {
				return false, gvcS("Jacobi ", r, " want ", j)()
			}
			z := gvcFEw(gvcN(12345))
			zv := gvcFEv(&z)
			ok := z.SquareRoot(&a)
			if ok != (j >= 0) || gvcFEv(&a).Cmp(v) != 0 {
				return false, gvcS("SquareRoot reports ", ok, ", Jacobi symbol ", j)()
			}
			if r := gvcFEv(&z); !ok && r.Cmp(zv) != 0 || ok && B().Mod(B().Mul(r, r), gvcP).Cmp(v) != 0 || !gvcFEok(&z) {
				return false, gvcS("SquareRoot (", ok, ") gives ", r)()
			}
			if ok {
				a.SquareRoot(&a)
				if r := gvcFEv(&a); B().Mod(B().Mul(r, r), gvcP).Cmp(v) != 0 {
					return false, gvcS("SquareRoot into its argument gives ", r)()
				}
			}
			return true, ""
		})
		g.do(gvcS("ToUint64, ToInt64, internal words x=", x), func() (bool, string) {
			a := gvcFEw(x)
			v := gvcFEv(&a)
			s := B().Set(v)
			if B().Lsh(v, 1).Cmp(gvcP) > 0 {
				s.Sub(s, gvcP)
			}
			u, e1 := a.ToUint64()
			i, e2 := a.ToInt64()
			if (e1 == nil) != v.IsUint64() || (e2 == nil) != s.IsInt64() {
				return false, gvcS("errors ", e1, ", ", e2)()
			}
			return (e1 != nil || u == v.Uint64()) && (e2 != nil || i == s.Int64()) && gvcFEv(&a).Cmp(v) == 0, gvcS("got ", u, ", ", i)()
		})
	}
	mont := func(v *big.Int) *big.Int { return B().Mod(B().Mul(v, gvc256), gvcP) }
	for sh := uint(0); sh <= 64; sh++ {
		for d := int64(-2); d <= 2; d++ {
			v := B().Add(B().Lsh(gvcN(1), sh), gvcN(d))
			for _, s := range []*big.Int{v, B().Neg(v)} {
				w := mont(s)
				more(w, B().Mod(v, gvc256))
				more(B().Add(w, gvcP), B().Mod(s, gvc256))
			}
		}
	}
	for i := 0; i < g.iters(200, 5000); i++ {
		x := g.val()
		more(x, g.val())
		// a root of unity of order 2^k times a square
		r := B().Exp(gvcN(5), B().Rsh(B().Sub(gvcP, gvcN(1)), uint(g.rng.Intn(33))), gvcP)
		more(mont(r), g.bits(256))
		more(mont(B().Mul(r, B().Mul(x, x))), g.bits(g.rng.Intn(257)))
	}
	vs := g.vals()
	for _, x := range vs {
		for i := 0; i < 3; i++ {
			pair(x, vs[g.rng.Intn(len(vs))])
		}
		pair(x, x)
		pair(x, B().Sub(gvcP, B().Mod(x, gvcP)))
		pair(x, B().Add(gvcP, B().Mod(x, gvcP)))
	}
	for i := 0; i < g.iters(300, 10000); i++ {
		pair(g.val(), g.val())
	}
}
