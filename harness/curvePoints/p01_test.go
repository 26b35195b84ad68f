package curvePoints

import (
	"fmt"
	"testing"
)

func TestGvcP01(t *testing.T) {
	g := gvcStart(t)
	type TT = point_xtw_base
	type SS = point_efgh_base
	type AA = point_axtw_base
	for round := 0; round < g.iters(3, 40); round++ {
		g.api(gvcArith, true)
		pts := g.pts()
		for _, p := range pts {
			for k := 0; k < 3; k++ {
				a := g.form(k, p)
				if a == nil {
					continue
				}
				g.do(gvcS("double ", gvcForms[k], " ", p), func() (bool, string) {
					var z Point_efgh_full
					z.Double(a)
					if ok, s := gvcExpect(gvcOf(&z), p.add(p)); !ok {
						return ok, s
					}
					if !gvcOf(a).eq(p) {
						return false, "operand changed"
					}
					var x Point_xtw_full
					x.Double(a)
					return gvcExpect(gvcOf(&x), p.add(p))
				})
				g.do(gvcS("negate ", gvcForms[k], " ", p), func() (bool, string) {
					var z Point_efgh_full
					z.Neg(a)
					if ok, s := gvcExpect(gvcOf(&z), p.neg()); !ok {
						return ok, s
					}
					var x Point_xtw_full
					x.Neg(a)
					if ok, s := gvcExpect(gvcOf(&x), p.neg()); !ok {
						return ok, s
					}
					if !gvcOf(a).eq(p) {
						return false, "operand changed"
					}
					a.NegEq()
					return gvcExpect(gvcOf(a), p.neg())
				})
			}
		}
		for i, p := range pts {
			for j, q := range pts {
				for k := 0; k < 9; k++ {
					if !g.deep && (i*7+j*3+k+round)%3 != 0 {
						continue
					}
					for al := 0; al < 4; al++ {
						for op := 0; op < 2; op++ {
							a, b := g.form(k/3, p), g.form(k%3, q)
							if a == nil || b == nil {
								continue
							}
							want := p.add(q)
							name := "+"
							if op == 1 {
								want, name = p.add(q.neg()), "-"
							}
							var z CurvePointPtrInterface = new(Point_efgh_full)
							switch al {
							case 1:
								z = a
							case 2:
								z = b
							case 3:
								z = new(Point_xtw_full)
							}
							if _, aff := z.(*Point_axtw_full); aff && !want.finite() {
								continue
							}
							g.do(gvcS(gvcForms[k/3], p, " ", name, " ", gvcForms[k%3], q, " into ", fmt.Sprintf("%T", z), " aliasing=", al), func() (bool, string) {
								if op == 0 {
									z.Add(a, b)
								} else {
									z.Sub(a, b)
								}
								if al != 1 && !gvcOf(a).eq(p) || al != 2 && !gvcOf(b).eq(q) {
									return false, "operand changed"
								}
								return gvcExpect(gvcOf(z), want)
							})
						}
					}
				}
				// the formulas on coordinates, those with exceptions included
				in := p.finite() && q.finite()
				sum, diff := p.add(q), p.add(q.neg())
				x1, x2 := g.xt(p), g.xt(q)
				base := func(name string, f func() (gvcPt, bool), want gvcPt, safe bool) {
					g.do(gvcS(name, " ", p, " ", q), func() (bool, string) {
						got, nap := f()
						if nap {
							return !safe, "no point as the result"
						}
						return gvcExpect(got, want)
					})
				}
				T := func(f func(o *TT)) func() (gvcPt, bool) {
					return func() (gvcPt, bool) {
						var o TT
						f(&o)
						return gvcOfT(&o), o.x.IsZero() && o.y.IsZero() && o.t.IsZero() && o.z.IsZero()
					}
				}
				S := func(f func(o *SS)) func() (gvcPt, bool) {
					return func() (gvcPt, bool) {
						var o SS
						f(&o)
						return gvcOfS(&o), o.e.IsZero() && o.g.IsZero() || o.f.IsZero() && o.h.IsZero()
					}
				}
				base("add_ttt", T(func(o *TT) { o.add_ttt(&x1, &x2) }), sum, false)
				base("add_safe_ttt", T(func(o *TT) { o.add_safe_ttt(&x1, &x2) }), sum, true)
				base("sub_ttt", T(func(o *TT) { o.sub_ttt(&x1, &x2) }), diff, false)
				base("sub_safe_ttt", T(func(o *TT) { o.sub_safe_ttt(&x1, &x2) }), diff, true)
				base("add_stt", S(func(o *SS) { o.add_stt(&x1, &x2) }), sum, false)
				base("add_safe_stt", S(func(o *SS) { o.add_safe_stt(&x1, &x2) }), sum, true)
				base("sub_stt", S(func(o *SS) { o.sub_stt(&x1, &x2) }), diff, false)
				base("sub_safe_stt", S(func(o *SS) { o.sub_safe_stt(&x1, &x2) }), diff, true)
				if q.finite() {
					a2 := g.xa(q)
					base("add_tta", T(func(o *TT) { o.add_tta(&x1, &a2) }), sum, false)
					base("sub_tta", T(func(o *TT) { o.sub_tta(&x1, &a2) }), diff, false)
					base("sub_tat", T(func(o *TT) { o.sub_tat(&a2, &x1) }), q.add(p.neg()), false)
					base("add_sta", S(func(o *SS) { o.add_sta(&x1, &a2) }), sum, false)
					base("sub_sta", S(func(o *SS) { o.sub_sta(&x1, &a2) }), diff, false)
					base("sub_sat", S(func(o *SS) { o.sub_sat(&a2, &x1) }), q.add(p.neg()), false)
				}
				if in {
					a1, a2 := g.xa(p), g.xa(q)
					base("add_taa", T(func(o *TT) { o.add_taa(&a1, &a2) }), sum, false)
					base("sub_taa", T(func(o *TT) { o.sub_taa(&a1, &a2) }), diff, false)
					base("add_saa", S(func(o *SS) { o.add_saa(&a1, &a2) }), sum, false)
					base("sub_saa", S(func(o *SS) { o.sub_saa(&a1, &a2) }), diff, false)
					if i == 4 && j == 5 { // in the subgroup: never exceptional
						p4, q4 := g.rpt().mul(gvcDec("4")), g.rpt().mul(gvcDec("4"))
						y1, y2 := g.xt(p4), g.xt(q4)
						base("add_ttt in the subgroup", T(func(o *TT) { o.add_ttt(&y1, &y2) }), p4.add(q4), true)
						base("add_stt in the subgroup", S(func(o *SS) { o.add_stt(&y1, &y2) }), p4.add(q4), true)
					}
				}
			}
		}
	}
	g.do(gvcS("SetNeutral"), func() (bool, string) {
		var x TT
		var a AA
		var s SS
		x.SetNeutral()
		a.SetNeutral()
		s.SetNeutral()
		return gvcOfT(&x).eq(gvcNeutral) && gvcOfA(&a).eq(gvcNeutral) && gvcOfS(&s).eq(gvcNeutral), "not the neutral element"
	})
}
