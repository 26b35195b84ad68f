package curvePoints

import (
	"fmt"
	"math/big"
	"testing"
)

func TestGvcP04(t *testing.T) {
	g := gvcStart(t)
	one := big.NewInt(1)
	v := func(x FieldElement) *big.Int { return gvcV(&x) }
	// the point with the coordinates given; t may be missing
	pt := func(x, y, t, z *big.Int) gvcPt {
		if t == nil {
			return gvcPt{x, z, y, z}
		}
		var r point_xtw_base
		r.x, r.y, r.t, r.z = g.fe(x), g.fe(y), g.fe(t), g.fe(z)
		return gvcOfT(&r)
	}
	for round := 0; round < g.iters(12, 200); round++ {
		q := g.rpt().mul(gvcDec("4"))
		pts := []gvcPt{gvcNeutral, q, q.neg(), g.rpt().mul(gvcDec("4"))}
		ins := len(pts)
		pts = append(pts, gvcE1, gvcE2, gvcTwoA, g.rpt(), q.add(gvcTwoA), q.add(gvcE1), q.add(gvcE2))
		for i, p := range pts {
			for k := 0; k < 6; k++ {
				if k > 2 && i >= ins {
					continue
				}
				is := func(name string, modA bool, f func(a CurvePointPtrInterface) gvcPt) {
					a := g.any(k, p)
					if a == nil {
						return
					}
					g.do(gvcS(name, " of ", gvcTypes[k], p), func() (bool, string) {
						r := f(a)
						if ok, s := gvcIs(a, p); !ok {
							return false, "point changed: " + s
						}
						if modA && r.eq(p.add(gvcTwoA)) {
							return true, ""
						}
						return gvcExpect(r, p)
					})
				}
				is("XYZ_projective", false, func(a CurvePointPtrInterface) gvcPt {
					x, y, z := a.XYZ_projective()
					if !p.finite() { // x and y decide: x = 1/0 has y = 0
						if v(z).Sign() != 0 || v(y).Sign() != 0 {
							return gvcPt{one, one, one, one}
						}
						return p
					}
					return pt(v(x), v(y), nil, v(z))
				})
				is("X_decaf_projective, Y_decaf_projective, T_decaf_projective, Z_decaf_projective", k > 2, func(a CurvePointPtrInterface) gvcPt {
					x, y, t, z := a.X_decaf_projective(), a.Y_decaf_projective(), a.T_decaf_projective(), a.Z_decaf_projective()
					return pt(v(x), v(y), v(t), v(z))
				})
				ext := func(a CurvePointPtrInterface) CurvePointPtrInterfaceCooReadExtended {
					return a.(CurvePointPtrInterfaceCooReadExtended)
				}
				is("XYTZ_projective", false, func(a CurvePointPtrInterface) gvcPt {
					x, y, t, z := ext(a).XYTZ_projective()
					return pt(v(x), v(y), v(t), v(z))
				})
				is("X_projective, Y_projective, T_projective, Z_projective", false, func(a CurvePointPtrInterface) gvcPt {
					x, y, t, z := a.X_projective(), a.Y_projective(), ext(a).T_projective(), a.Z_projective()
					return pt(v(x), v(y), v(t), v(z))
				})
				if !p.finite() {
					continue
				}
				is("XY_affine", false, func(a CurvePointPtrInterface) gvcPt {
					x, y := a.XY_affine()
					return pt(v(x), v(y), nil, one)
				})
				is("XYT_affine", false, func(a CurvePointPtrInterface) gvcPt {
					x, y, t := ext(a).XYT_affine()
					return pt(v(x), v(y), v(t), one)
				})
				for m := 0; m < 3; m++ {
					is(fmt.Sprint("X_affine, Y_affine, T_affine, order ", m), false, func(a CurvePointPtrInterface) gvcPt {
						var x, y, t FieldElement
						for n := 0; n < 3; n++ {
							switch (m + n) % 3 {
							case 0:
								x = a.X_affine()
							case 1:
								y = a.Y_affine()
							case 2:
								t = ext(a).T_affine()
							}
						}
						return pt(v(x), v(y), v(t), one)
					})
				}
				is("X_decaf_affine, Y_decaf_affine, T_decaf_affine", k > 2, func(a CurvePointPtrInterface) gvcPt {
					x, y, t := a.X_decaf_affine(), a.Y_decaf_affine(), a.T_decaf_affine()
					return pt(v(x), v(y), v(t), one)
				})
			}
		}
	}
}
