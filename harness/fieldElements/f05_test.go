package fieldElements

import (
	"math/big"
	"testing"
)

// TestGvcF05 replays the operations on many field elements for lists of up to 13 elements with zeros and ones
// at arbitrary positions, in all internal representations, the receiver also being one of the elements.
func TestGvcF05(t *testing.T) {
	g := gvcStart(t)
	B := func() *big.Int { return new(big.Int) }
	words := func(v *big.Int, alt bool) *big.Int { // the internal words for the value v
		w := B().Mod(B().Mul(v, gvc256), gvcP)
		if alt && B().Add(w, gvcP).Cmp(gvcC) < 0 {
			w.Add(w, gvcP)
		}
		return w
	}
	one := func(ws []*big.Int, what string) {
		mk := func() []gvcFE {
			r := make([]gvcFE, len(ws))
			for i := range ws {
				r[i] = gvcFEw(ws[i])
			}
			return r
		}
		ptrs := func(s []gvcFE) []*gvcFE {
			r := make([]*gvcFE, len(s))
			for i := range s {
				r[i] = &s[i]
			}
			return r
		}
		vals, zeros := []*big.Int{}, []int{}
		prod, sum := gvcN(1), gvcN(0)
		for i, a := range mk() {
			v := gvcFEv(&a)
			vals = append(vals, v)
			prod.Mod(B().Mul(prod, v), gvcP)
			sum.Mod(B().Add(sum, v), gvcP)
			if v.Sign() == 0 {
				zeros = append(zeros, i)
			}
		}
		show := gvcS(what, " internal words ", ws)()
		fold := func(name string, want *big.Int, f func(z *gvcFE, s []gvcFE)) {
			for al := -1; al < len(ws); al++ {
				al := al
				g.do(gvcS(name, " receiver=", al, " of ", show), func() (bool, string) {
					s := mk()
					z := gvcFEw(B().Mod(g.bits(256), gvcC))
					pz := &z
					if al >= 0 {
						pz = &s[al]
					}
					f(pz, s)
					if gvcFEv(pz).Cmp(want) != 0 || !gvcFEok(pz) {
						return false, "got " + gvcFEv(pz).String() + " want " + want.String()
					}
					for i := range s {
						if i != al && gvcFEv(&s[i]).Cmp(vals[i]) != 0 {
							return false, gvcS("element ", i, " changed")()
						}
					}
					return true, ""
				})
			}
		}
		fold("MultiplySlice", prod, func(z *gvcFE, s []gvcFE) { z.MultiplySlice(s) })
		fold("MultiplyMany", prod, func(z *gvcFE, s []gvcFE) { z.MultiplyMany(ptrs(s)...) })
		fold("SummationSlice", sum, func(z *gvcFE, s []gvcFE) { z.SummationSlice(s) })
		fold("SummationMany", sum, func(z *gvcFE, s []gvcFE) { z.SummationMany(ptrs(s)...) })
		check := func(s []gvcFE, inverted bool) (bool, string) {
			for i := range s {
				want := vals[i]
				if inverted && want.Sign() != 0 {
					want = B().ModInverse(want, gvcP)
				}
				if gvcFEv(&s[i]).Cmp(want) != 0 || !gvcFEok(&s[i]) {
					return false, gvcS("element ", i, ": got ", gvcFEv(&s[i]), " want ", want)()
				}
			}
			return true, ""
		}
		inv := func(name string, f func(s []gvcFE) bool) {
			g.do(gvcS(name, " of ", show), func() (bool, string) {
				s := mk()
				if bad := f(s); bad != (len(zeros) > 0) {
					return false, gvcS("error reported: ", bad, ", number of zeros: ", len(zeros))()
				}
				return check(s, len(zeros) == 0)
			})
		}
		inv("MultiInvertEqSlice", func(s []gvcFE) bool { return MultiInvertEqSlice(s) != nil })
		inv("MultiInvertEq", func(s []gvcFE) bool { return MultiInvertEq(ptrs(s)...) != nil })
		skip := func(name string, f func(s []gvcFE) []int) {
			g.do(gvcS(name, " of ", show), func() (bool, string) {
				s := mk()
				z := f(s)
				if (z == nil) != (len(zeros) == 0) || len(z) != len(zeros) {
					return false, gvcS("reported zeros ", z, " want ", zeros)()
				}
				for i := range z {
					if z[i] != zeros[i] {
						return false, gvcS("reported zeros ", z, " want ", zeros)()
					}
				}
				return check(s, true)
			})
		}
		skip("MultiInvertEqSliceSkipZeros", func(s []gvcFE) []int { return MultiInvertEqSliceSkipZeros(s) })
		skip("MultiInvertEqSkipZeros", func(s []gvcFE) []int { return MultiInvertEqSkipZeros(ptrs(s)...) })
	}
	special := []*big.Int{gvcN(0), gvcN(1), gvcN(2), gvcN(-1)}
	// all lists of up to four special values, in both representations
	var rec func(n int, ws []*big.Int)
	rec = func(n int, ws []*big.Int) {
		one(ws, "special")
		if n == 0 {
			return
		}
		for i, v := range special {
			rec(n-1, append(ws[:len(ws):len(ws)], words(B().Mod(v, gvcP), (len(ws)+i)%2 == 1)))
		}
	}
	rec(4, nil)
	for it := 0; it < g.iters(300, 10000); it++ {
		n := g.rng.Intn(14)
		var ws []*big.Int
		for i := 0; i < n; i++ {
			v := B().Mod(g.bits(256), gvcP)
			if k := g.rng.Intn(12); k < len(special) {
				v = B().Mod(special[k], gvcP)
			}
			ws = append(ws, words(v, g.rng.Intn(2) == 0))
		}
		one(ws, "random")
	}
}
