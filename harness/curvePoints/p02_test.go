package curvePoints

import (
	"fmt"
	"math/big"
	"testing"
)

func TestGvcP02(t *testing.T) {
	g := gvcStart(t)
	psi := func(p gvcPt, k int) gvcPt {
		var z Point_efgh_full
		z.Endo(g.form(k, p))
		return gvcOf(&z)
	}
	for round := 0; round < g.iters(6, 80); round++ {
		g.api(gvcEndo, false)
		pts := g.pts()
		for _, p := range pts {
			for k := 0; k < 3; k++ {
				if k == 1 && !p.finite() {
					continue
				}
				for _, tor := range []struct {
					name string
					f    func(p torsionAdder)
					pt   gvcPt
				}{
					{"torsionAddA", func(p torsionAdder) { p.torsionAddA() }, gvcTwoA},
					{"torsionAddE1", func(p torsionAdder) { p.torsionAddE1() }, gvcE1},
					{"torsionAddE2", func(p torsionAdder) { p.torsionAddE2() }, gvcE2}} {
					want := p.add(tor.pt)
					if k == 1 && !want.finite() {
						continue
					}
					a, ok := g.form(k, p).(torsionAdder)
					if !ok {
						continue
					}
					g.do(gvcS(tor.name, " ", gvcForms[k], p), func() (bool, string) {
						tor.f(a)
						return gvcExpect(gvcOf(a), want)
					})
				}
			}
			// the endomorphism: a homomorphism with the kernel {N, A}, and multiplication by the eigenvalue on the subgroup
			k := g.rng.Intn(3)
			if !p.finite() {
				k = 2 * g.rng.Intn(2)
			}
			var want gvcPt
			in := p.mul(gvcQ).eq(gvcNeutral)
			if in {
				want = p.mul(gvcL)
			} else {
				q := g.rpt().mul(big.NewInt(4))
				want = psi(p.add(q), 0).add(q.mul(gvcL).neg())
			}
			g.do(gvcS("Endo ", gvcForms[k], p, " in the subgroup: ", in), func() (bool, string) {
				a := g.form(k, p)
				var z Point_efgh_full
				z.Endo(a)
				if !gvcOf(a).eq(p) {
					return false, "operand changed"
				}
				if ok, s := gvcExpect(gvcOf(&z), want); !ok {
					return ok, s
				}
				var x Point_xtw_full
				x.Endo(a)
				if ok, s := gvcExpect(gvcOf(&x), want); !ok {
					return ok, s
				}
				if ok, s := gvcExpect(psi(p, k), psi(p.add(gvcTwoA), 2)); !ok {
					return ok, "not the same after adding (0,-1): " + s
				}
				var e point_efgh_base
				b := g.xt(p)
				if e.computeEndomorphism_st(&b); gvcOfS(&e).ok() && !gvcOfS(&e).eq(want) {
					return false, "computeEndomorphism_st: " + gvcOfS(&e).String()
				}
				c := g.xs(p)
				if e.computeEndomorphism_ss(&c); gvcOfS(&e).ok() && !gvcOfS(&e).eq(want) {
					return false, "computeEndomorphism_ss: " + gvcOfS(&e).String()
				}
				return true, ""
			})
		}
	}
	for i, c := range []struct {
		f  func() any
		pt gvcPt
	}{
		{func() any { var p Point_xtw_full; p.SetE1(); return &p }, gvcE1},
		{func() any { var p Point_xtw_full; p.SetE2(); return &p }, gvcE2},
		{func() any { var p Point_xtw_full; p.SetAffineTwoTorsion(); return &p }, gvcTwoA},
		{func() any { var p Point_axtw_full; p.SetAffineTwoTorsion(); return &p }, gvcTwoA},
		{func() any { var p Point_efgh_full; p.SetE1(); return &p }, gvcE1},
		{func() any { var p Point_efgh_full; p.SetE2(); return &p }, gvcE2},
		{func() any { var p Point_efgh_full; p.SetAffineTwoTorsion(); return &p }, gvcTwoA}} {
		g.do(gvcS("setting a point of order two, case ", i), func() (bool, string) {
			p := c.f()
			ok, s := gvcExpect(gvcOf(p), c.pt)
			return ok, fmt.Sprintf("%T %s", p, s)
		})
	}
}
