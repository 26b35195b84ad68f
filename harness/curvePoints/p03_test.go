package curvePoints

import (
	"fmt"
	"math/big"
	"testing"
)

func TestGvcP03(t *testing.T) {
	g := gvcStart(t)
	b := func(got, want bool) (bool, string) { return got == want, fmt.Sprint("got ", got) }
	for round := 0; round < g.iters(6, 80); round++ {
		// all types: equality, the neutral element, the subgroup
		sp := g.rpt().mul(big.NewInt(4))
		subs := []gvcPt{gvcNeutral, sp, sp.neg(), g.rpt().mul(big.NewInt(4))}
		others := []gvcPt{gvcTwoA, gvcE1, gvcE2, sp.add(gvcTwoA), sp.add(gvcE1), sp.add(gvcE2), g.rpt()}
		for k := 0; k < 36; k++ {
			for i, p := range append(subs, others...) {
				if k/6 > 2 && i >= len(subs) {
					continue
				}
				for j, q := range append(subs, others...) {
					if k%6 > 2 && j >= len(subs) {
						continue
					}
					x, y := g.any(k/6, p), g.any(k%6, q)
					if x == nil || y == nil {
						continue
					}
					keep := func(r, want bool) (bool, string) {
						if ok, s := gvcIs(x, p); !ok {
							return false, "point changed: " + s
						}
						if ok, s := gvcIs(y, q); !ok {
							return false, "argument changed: " + s
						}
						return b(r, want)
					}
					n := gvcS(gvcTypes[k/6], p, " IsEqual ", gvcTypes[k%6], q)
					g.do(n, func() (bool, string) { return keep(x.IsEqual(y), p.eq(q)) })
					if j == 0 && k%6 == 0 {
						n := func(s string) func() string { return gvcS(gvcTypes[k/6], p, " ", s) }
						g.do(n("IsNeutralElement"), func() (bool, string) { return keep(x.IsNeutralElement(), p.eq(gvcNeutral)) })
						g.do(n("IsAtInfinity"), func() (bool, string) { return keep(x.IsAtInfinity(), !p.finite()) })
						g.do(n("IsNaP"), func() (bool, string) { return keep(x.IsNaP(), false) })
						in := i < len(subs) || p.mul(gvcQ).eq(gvcNeutral)
						g.do(n("IsInSubgroup"), func() (bool, string) { return keep(x.IsInSubgroup(), in) })
						for m := 0; m < 6; m++ {
							z := g.blank(m)
							if m%3 == 1 && !p.finite() {
								continue
							}
							g.do(n("SetFromSubgroupPoint into "+gvcTypes[m]), func() (bool, string) {
								ok := z.SetFromSubgroupPoint(x, untrustedInput)
								if r, s := keep(ok, in); !r {
									return r, s
								}
								if !ok {
									return true, ""
								}
								return gvcIs(z, p)
							})
						}
						if nz, ok := x.(NormalizerForZ); ok {
							g.do(n("NormalizeForZ"), func() (bool, string) {
								if r := nz.NormalizeForZ(); r != p.finite() {
									return false, fmt.Sprint("got ", r)
								}
								z := x.Z_decaf_projective()
								if p.finite() && gvcV(&z).Cmp(big.NewInt(1)) != 0 {
									return false, "z is not one"
								}
								return keep(true, true)
							})
						}
						if ny, ok := x.(NormalizerForY); ok {
							g.do(n("NormalizeForY"), func() (bool, string) {
								fin := p.finite() && p.Y.Sign() != 0
								if r := ny.NormalizeForY(); r != fin {
									return false, fmt.Sprint("got ", r)
								}
								y := x.Y_decaf_projective()
								if fin && gvcV(&y).Cmp(big.NewInt(1)) != 0 {
									return false, "y is not one"
								}
								return keep(true, true)
							})
						}
					}
				}
			}
		}
		pts := g.pts()
		for _, p := range pts {
			for k := 0; k < 3; k++ {
				a := g.form(k, p)
				if a == nil {
					continue
				}
				is := func(name string, got func() bool, want bool) {
					g.do(gvcS(name, " ", gvcForms[k], p), func() (bool, string) {
						r := got()
						if !gvcOf(a).eq(p) {
							return false, "point changed"
						}
						return b(r, want)
					})
				}
				is("IsNeutralElement", a.IsNeutralElement, p.eq(gvcNeutral))
				is("IsNaP", a.IsNaP, false)
				is("IsAtInfinity", a.IsAtInfinity, !p.finite())
				is("Validate", func() bool { return a.(validateable).Validate() }, true)
				if d, ok := a.(CurvePointPtrInterfaceDistinguishInfinity); ok {
					is("IsE1", d.IsE1, p.eq(gvcE1))
					is("IsE2", d.IsE2, p.eq(gvcE2))
				}
				if n, ok := a.(NormalizerForZ); ok {
					is("NormalizeForZ", n.NormalizeForZ, p.finite())
					if x, ok := a.(*Point_xtw_full); ok && p.finite() {
						is("z == 1 after NormalizeForZ", func() bool { return gvcV(&x.z).Cmp(big.NewInt(1)) == 0 }, true)
					}
				}
				if x, ok := a.(*Point_xtw_full); ok {
					is("NormalizeForY", x.NormalizeForY, p.Y.Sign() != 0 && p.finite())
					if p.Y.Sign() != 0 && p.finite() {
						is("y == 1 after NormalizeForY", func() bool { return gvcV(&x.y).Cmp(big.NewInt(1)) == 0 }, true)
					}
				}
				for _, q := range pts {
					for m := 0; m < 3; m++ {
						if c := g.form(m, q); c != nil {
							is("IsEqual to "+gvcForms[m]+q.String(), func() bool { return a.IsEqual(c) }, p.eq(q))
						}
					}
				}
			}
			// the tests on coordinates: on the curve exactly if both equations hold
			for c := 0; c < 5; c++ {
				x, s := g.xt(p), g.xs(p)
				for i, f := range []*FieldElement{&x.x, &x.y, &x.t, &x.z} {
					if c == i {
						*f = g.fe(g.rnd())
					}
				}
				for i, f := range []*FieldElement{&s.e, &s.f, &s.g, &s.h} {
					if c == i {
						*f = g.fe(g.rnd())
					}
				}
				X, Y, T, Z := gvcV(&x.x), gvcV(&x.y), gvcV(&x.t), gvcV(&x.z)
				on := gvcMul(X, Y).Cmp(gvcMul(T, Z)) == 0 && gvcAdd(gvcMul(gvcA, X, X), gvcMul(Y, Y)).Cmp(gvcAdd(gvcMul(Z, Z), gvcMul(gvcD, T, T))) == 0
				g.do(gvcS("isPointOnCurve x,y,t,z=", X, Y, T, Z), func() (bool, string) { return b(x.isPointOnCurve(), on) })
				ps := gvcOfS(&s)
				g.do(gvcS("isPointOnCurve e,f,g,h=", gvcV(&s.e), gvcV(&s.f), gvcV(&s.g), gvcV(&s.h)), func() (bool, string) { return b(s.isPointOnCurve(), ps.ok()) })
				if p.finite() {
					a := g.xa(p)
					for i, f := range []*FieldElement{&a.x, &a.y, &a.t} {
						if c == i {
							*f = g.fe(g.rnd())
						}
					}
					on := gvcMul(gvcV(&a.x), gvcV(&a.y)).Cmp(gvcV(&a.t)) == 0 && gvcAff(gvcV(&a.x), gvcV(&a.y)).ok()
					g.do(gvcS("isPointOnCurve x,y,t=", gvcV(&a.x), gvcV(&a.y), gvcV(&a.t)), func() (bool, string) { return b(a.isPointOnCurve(), on) })
				}
			}
			// modulo (0,-1)
			for _, q := range pts {
				s1, s2 := g.xs(p), g.xs(q)
				eq := p.eq(q)
				g.do(gvcS("isEqual_exact_ss ", p, q), func() (bool, string) { return b(s1.isEqual_exact_ss(&s2), eq) })
				g.do(gvcS("isEqual_moduloA_ss ", p, q), func() (bool, string) {
					return b(s1.isEqual_moduloA_ss(&s2), eq || p.eq(q.add(gvcTwoA)))
				})
			}
		}
	}
}
