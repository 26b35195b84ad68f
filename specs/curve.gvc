// Point formulas of the twisted Edwards curve -5x^2 + y^2 = 1 + d x^2 y^2, coordinates (x : y : t : z) with x y = t z.
package bandersnatch/curvePoints
layer default 2

const DD = 0x6389c12633c267cbc66e3bf86be3b6d8cb66677177e54f92b369f2f5188d58e7

// the point is on the curve (for coordinates x,y,t,z / with z == 1 / x=ef, y=gh, t=eh, z=fg)
pred onT(p) = fe(p.x) * fe(p.y) == fe(p.t) * fe(p.z) && fe(p.y)*fe(p.y) - 5*fe(p.x)*fe(p.x) == fe(p.z)*fe(p.z) + DD*fe(p.t)*fe(p.t)
pred onA(p) = fe(p.x) * fe(p.y) == fe(p.t) && fe(p.y)*fe(p.y) - 5*fe(p.x)*fe(p.x) == 1 + DD*fe(p.t)*fe(p.t)
pred onS(p) = fe(p.g)*fe(p.h)*fe(p.g)*fe(p.h) - 5*fe(p.e)*fe(p.f)*fe(p.e)*fe(p.f) == fe(p.f)*fe(p.g)*fe(p.f)*fe(p.g) + DD*fe(p.e)*fe(p.h)*fe(p.e)*fe(p.h)
pred zeroT(p) = fe(p.x) == 0 && fe(p.y) == 0 && fe(p.t) == 0 && fe(p.z) == 0

pred napS(p) = fe(p.h) == 0 || fe(p.e) == 0 && fe(p.g) == 0
// the two quotients of the addition law: x/z = E/G, y/z = H/F
pred lE(a, b) = fe(a.x)*fe(b.y) + fe(a.y)*fe(b.x)
pred lH(a, b) = fe(a.y)*fe(b.y) + 5*fe(a.x)*fe(b.x)
pred lF(zz, a, b) = zz - DD*fe(a.t)*fe(b.t)
pred lG(zz, a, b) = zz + DD*fe(a.t)*fe(b.t)
pred sumT(out, E, F, G, H) = fe(out.x)*G == fe(out.z)*E && fe(out.t)*G == fe(out.y)*E && fe(out.y)*F == fe(out.z)*H && fe(out.t)*F == fe(out.x)*H
pred sumS(out, E, F, G, H) = fe(out.e)*G == fe(out.g)*E && fe(out.h)*F == fe(out.f)*H

// the same for a - b
pred lmE(a, b) = fe(a.x)*fe(b.y) - fe(a.y)*fe(b.x)
pred lmH(a, b) = fe(a.y)*fe(b.y) - 5*fe(a.x)*fe(b.x)
pred lmF(zz, a, b) = zz + DD*fe(a.t)*fe(b.t)
pred lmG(zz, a, b) = zz - DD*fe(a.t)*fe(b.t)
// the dual addition law: other fractions for the same quotients, 0/0 in other cases
pred dE(z1, z2, a, b) = fe(a.t)*z2 + z1*fe(b.t)
pred dG(z1, z2, a, b) = fe(a.y)*fe(b.y) - 5*fe(a.x)*fe(b.x)
pred dF(z1, z2, a, b) = fe(a.y)*fe(b.x) - fe(a.x)*fe(b.y)
pred dH(z1, z2, a, b) = z1*fe(b.t) - fe(a.t)*z2
pred dmE(z1, z2, a, b) = fe(a.t)*z2 - z1*fe(b.t)
pred dmG(z1, z2, a, b) = fe(a.y)*fe(b.y) + 5*fe(a.x)*fe(b.x)
pred dmF(z1, z2, a, b) = -(fe(a.y)*fe(b.x)) - fe(a.x)*fe(b.y)
pred dmH(z1, z2, a, b) = -(z1*fe(b.t)) - fe(a.t)*z2

func (out *point_xtw_base) add_ttt(input1, input2)
  requires onT(input1) && onT(input2)
  ensures sumT(out, old(lE(input1, input2)), old(lF(fe(input1.z)*fe(input2.z), input1, input2)), old(lG(fe(input1.z)*fe(input2.z), input1, input2)), old(lH(input1, input2)))
  ensures implies(zeroT(out), old(lE(input1, input2) == 0 && lG(fe(input1.z)*fe(input2.z), input1, input2) == 0) || old(lF(fe(input1.z)*fe(input2.z), input1, input2) == 0 && lH(input1, input2) == 0))
  ensures onT(out)
  modifies *out
  property P01
func (out *point_xtw_base) add_safe_ttt(input1, input2)
  requires onT(input1) && onT(input2)
  ensures sumT(out, old(lE(input1, input2)), old(lF(fe(input1.z)*fe(input2.z), input1, input2)), old(lG(fe(input1.z)*fe(input2.z), input1, input2)), old(lH(input1, input2)))
  ensures sumT(out, old(dE(fe(input1.z), fe(input2.z), input1, input2)), old(dF(fe(input1.z), fe(input2.z), input1, input2)), old(dG(fe(input1.z), fe(input2.z), input1, input2)), old(dH(fe(input1.z), fe(input2.z), input1, input2)))
  ensures implies(zeroT(out), old(lE(input1, input2) == 0 && lG(fe(input1.z)*fe(input2.z), input1, input2) == 0) || old(lF(fe(input1.z)*fe(input2.z), input1, input2) == 0 && dF(fe(input1.z), fe(input2.z), input1, input2) == 0 && dH(fe(input1.z), fe(input2.z), input1, input2) == 0) || old(lF(fe(input1.z)*fe(input2.z), input1, input2) == 0 && (zeroT(input1) || zeroT(input2))))
  ensures onT(out)
  ensures implies(old(okT(input1) && okT(input2)), !zeroT(out))
  use nonsquare(-5, old(fe(input1.x)), old(fe(input1.z)))
  use nonsquare(DD, old(fe(input1.t)), old(fe(input1.y)))
  use nonsquare(-5, old(fe(input2.x)), old(fe(input2.z)))
  use nonsquare(DD, old(fe(input2.t)), old(fe(input2.y)))
  use nonsquare(DD, old(fe(input1.x))*old(fe(input2.y)), old(fe(input1.z))*old(fe(input2.z)))
  use nonsquare(DD, old(fe(input1.t)), old(fe(input1.z)))
  use nonsquare(DD, old(fe(input2.t)), old(fe(input2.z)))
  modifies *out
  chain
  property P01
func (out *point_xtw_base) sub_ttt(input1, input2)
  requires onT(input1) && onT(input2)
  inlinecall bandersnatch/curvePoints.(*point_xtw_base).neg_tt
  ensures sumT(out, old(lmE(input1, input2)), old(lmF(fe(input1.z)*fe(input2.z), input1, input2)), old(lmG(fe(input1.z)*fe(input2.z), input1, input2)), old(lmH(input1, input2)))
  ensures implies(zeroT(out), old(lmE(input1, input2) == 0 && lmG(fe(input1.z)*fe(input2.z), input1, input2) == 0) || old(lmF(fe(input1.z)*fe(input2.z), input1, input2) == 0 && lmH(input1, input2) == 0))
  ensures onT(out)
  modifies *out
  property P01
func (out *point_xtw_base) sub_safe_ttt(input1, input2)
  requires onT(input1) && onT(input2)
  inlinecall bandersnatch/curvePoints.(*point_xtw_base).neg_tt
  ensures sumT(out, old(lmE(input1, input2)), old(lmF(fe(input1.z)*fe(input2.z), input1, input2)), old(lmG(fe(input1.z)*fe(input2.z), input1, input2)), old(lmH(input1, input2)))
  ensures sumT(out, old(dmE(fe(input1.z), fe(input2.z), input1, input2)), old(dmF(fe(input1.z), fe(input2.z), input1, input2)), old(dmG(fe(input1.z), fe(input2.z), input1, input2)), old(dmH(fe(input1.z), fe(input2.z), input1, input2)))
  ensures implies(zeroT(out), old(lmE(input1, input2) == 0 && lmG(fe(input1.z)*fe(input2.z), input1, input2) == 0) || old(lmF(fe(input1.z)*fe(input2.z), input1, input2) == 0 && dmF(fe(input1.z), fe(input2.z), input1, input2) == 0 && dmH(fe(input1.z), fe(input2.z), input1, input2) == 0) || old(lmF(fe(input1.z)*fe(input2.z), input1, input2) == 0 && (zeroT(input1) || zeroT(input2))))
  ensures onT(out)
  ensures implies(old(okT(input1) && okT(input2)), !zeroT(out))
  use nonsquare(-5, old(fe(input1.x)), old(fe(input1.z)))
  use nonsquare(DD, old(fe(input1.t)), old(fe(input1.y)))
  use nonsquare(-5, old(fe(input2.x)), old(fe(input2.z)))
  use nonsquare(DD, old(fe(input2.t)), old(fe(input2.y)))
  use nonsquare(DD, old(fe(input1.x))*old(fe(input2.y)), old(fe(input1.z))*old(fe(input2.z)))
  use nonsquare(DD, old(fe(input1.t)), old(fe(input1.z)))
  use nonsquare(DD, old(fe(input2.t)), old(fe(input2.z)))
  modifies *out
  chain
  property P01
func (out *point_efgh_base) add_stt(input1, input2)
  requires onT(input1) && onT(input2)
  ensures sumS(out, old(lE(input1, input2)), old(lF(fe(input1.z)*fe(input2.z), input1, input2)), old(lG(fe(input1.z)*fe(input2.z), input1, input2)), old(lH(input1, input2)))
  ensures implies(fe(out.e) == 0 && fe(out.g) == 0, old(lE(input1, input2) == 0 && lG(fe(input1.z)*fe(input2.z), input1, input2) == 0))
  ensures implies(fe(out.f) == 0 && fe(out.h) == 0, old(lF(fe(input1.z)*fe(input2.z), input1, input2) == 0 && lH(input1, input2) == 0))
  ensures onS(out)
  ensures implies((fe(out.e) != 0 || fe(out.g) != 0) && (fe(out.f) != 0 || fe(out.h) != 0), okS(out))
  use nonsquare(-5, fe(out.e), fe(out.g))
  use nonsquare(DD, fe(out.e), fe(out.g))
  modifies *out
  property P01
func (out *point_efgh_base) add_safe_stt(input1, input2)
  requires onT(input1) && onT(input2)
  ensures sumS(out, old(lE(input1, input2)), old(lF(fe(input1.z)*fe(input2.z), input1, input2)), old(lG(fe(input1.z)*fe(input2.z), input1, input2)), old(lH(input1, input2)))
  ensures sumS(out, old(dE(fe(input1.z), fe(input2.z), input1, input2)), old(dF(fe(input1.z), fe(input2.z), input1, input2)), old(dG(fe(input1.z), fe(input2.z), input1, input2)), old(dH(fe(input1.z), fe(input2.z), input1, input2)))
  ensures implies(fe(out.e) == 0 && fe(out.g) == 0, old(lE(input1, input2) == 0 && lG(fe(input1.z)*fe(input2.z), input1, input2) == 0) || old(lF(fe(input1.z)*fe(input2.z), input1, input2) == 0 && (zeroT(input1) || zeroT(input2))))
  ensures implies(fe(out.f) == 0 && fe(out.h) == 0, old(lF(fe(input1.z)*fe(input2.z), input1, input2) == 0 && dF(fe(input1.z), fe(input2.z), input1, input2) == 0 && dH(fe(input1.z), fe(input2.z), input1, input2) == 0) || old(lF(fe(input1.z)*fe(input2.z), input1, input2) == 0 && (zeroT(input1) || zeroT(input2))))
  ensures onS(out)
  ensures implies(old(okT(input1) && okT(input2)), okS(out))
  use nonsquare(-5, old(fe(input1.x)), old(fe(input1.z)))
  use nonsquare(DD, old(fe(input1.t)), old(fe(input1.y)))
  use nonsquare(-5, old(fe(input2.x)), old(fe(input2.z)))
  use nonsquare(DD, old(fe(input2.t)), old(fe(input2.y)))
  use nonsquare(DD, old(fe(input1.x))*old(fe(input2.y)), old(fe(input1.z))*old(fe(input2.z)))
  use nonsquare(DD, old(fe(input1.t)), old(fe(input1.z)))
  use nonsquare(DD, old(fe(input2.t)), old(fe(input2.z)))
  use nonsquare(-5, fe(out.e), fe(out.g))
  use nonsquare(DD, fe(out.e), fe(out.g))
  modifies *out
  property P01
func (out *point_efgh_base) sub_stt(input1, input2)
  requires onT(input1) && onT(input2)
  inlinecall bandersnatch/curvePoints.(*point_xtw_base).neg_tt
  ensures sumS(out, old(lmE(input1, input2)), old(lmF(fe(input1.z)*fe(input2.z), input1, input2)), old(lmG(fe(input1.z)*fe(input2.z), input1, input2)), old(lmH(input1, input2)))
  ensures implies(fe(out.e) == 0 && fe(out.g) == 0, old(lmE(input1, input2) == 0 && lmG(fe(input1.z)*fe(input2.z), input1, input2) == 0))
  ensures implies(fe(out.f) == 0 && fe(out.h) == 0, old(lmF(fe(input1.z)*fe(input2.z), input1, input2) == 0 && lmH(input1, input2) == 0))
  ensures onS(out)
  ensures implies((fe(out.e) != 0 || fe(out.g) != 0) && (fe(out.f) != 0 || fe(out.h) != 0), okS(out))
  use nonsquare(-5, fe(out.e), fe(out.g))
  use nonsquare(DD, fe(out.e), fe(out.g))
  modifies *out
  property P01
func (out *point_efgh_base) sub_safe_stt(input1, input2)
  requires onT(input1) && onT(input2)
  inlinecall bandersnatch/curvePoints.(*point_xtw_base).neg_tt
  ensures sumS(out, old(lmE(input1, input2)), old(lmF(fe(input1.z)*fe(input2.z), input1, input2)), old(lmG(fe(input1.z)*fe(input2.z), input1, input2)), old(lmH(input1, input2)))
  ensures sumS(out, old(dmE(fe(input1.z), fe(input2.z), input1, input2)), old(dmF(fe(input1.z), fe(input2.z), input1, input2)), old(dmG(fe(input1.z), fe(input2.z), input1, input2)), old(dmH(fe(input1.z), fe(input2.z), input1, input2)))
  ensures implies(fe(out.e) == 0 && fe(out.g) == 0, old(lmE(input1, input2) == 0 && lmG(fe(input1.z)*fe(input2.z), input1, input2) == 0) || old(lmF(fe(input1.z)*fe(input2.z), input1, input2) == 0 && (zeroT(input1) || zeroT(input2))))
  ensures implies(fe(out.f) == 0 && fe(out.h) == 0, old(lmF(fe(input1.z)*fe(input2.z), input1, input2) == 0 && dmF(fe(input1.z), fe(input2.z), input1, input2) == 0 && dmH(fe(input1.z), fe(input2.z), input1, input2) == 0) || old(lmF(fe(input1.z)*fe(input2.z), input1, input2) == 0 && (zeroT(input1) || zeroT(input2))))
  ensures onS(out)
  ensures implies(old(okT(input1) && okT(input2)), okS(out))
  use nonsquare(-5, old(fe(input1.x)), old(fe(input1.z)))
  use nonsquare(DD, old(fe(input1.t)), old(fe(input1.y)))
  use nonsquare(-5, old(fe(input2.x)), old(fe(input2.z)))
  use nonsquare(DD, old(fe(input2.t)), old(fe(input2.y)))
  use nonsquare(DD, old(fe(input1.x))*old(fe(input2.y)), old(fe(input1.z))*old(fe(input2.z)))
  use nonsquare(DD, old(fe(input1.t)), old(fe(input1.z)))
  use nonsquare(DD, old(fe(input2.t)), old(fe(input2.z)))
  use nonsquare(-5, fe(out.e), fe(out.g))
  use nonsquare(DD, fe(out.e), fe(out.g))
  modifies *out
  property P01
func (out *point_xtw_base) add_tta(input1, input2)
  requires onT(input1) && onA(input2)
  ensures sumT(out, old(lE(input1, input2)), old(lF(fe(input1.z), input1, input2)), old(lG(fe(input1.z), input1, input2)), old(lH(input1, input2)))
  ensures implies(zeroT(out), old(lE(input1, input2) == 0 && lG(fe(input1.z), input1, input2) == 0) || old(lF(fe(input1.z), input1, input2) == 0 && lH(input1, input2) == 0))
  ensures onT(out)
  modifies *out
  property P01
func (out *point_xtw_base) sub_tta(input1, input2)
  requires onT(input1) && onA(input2)
  inlinecall bandersnatch/curvePoints.(*point_axtw_base).neg_aa
  ensures sumT(out, old(lmE(input1, input2)), old(lmF(fe(input1.z), input1, input2)), old(lmG(fe(input1.z), input1, input2)), old(lmH(input1, input2)))
  ensures implies(zeroT(out), old(lmE(input1, input2) == 0 && lmG(fe(input1.z), input1, input2) == 0) || old(lmF(fe(input1.z), input1, input2) == 0 && lmH(input1, input2) == 0))
  ensures onT(out)
  modifies *out
  property P01
func (out *point_xtw_base) sub_tat(input1, input2)
  requires onA(input1) && onT(input2)
  inlinecall bandersnatch/curvePoints.(*point_xtw_base).neg_tt
  ensures sumT(out, old(lmE(input1, input2)), old(lmF(fe(input2.z), input1, input2)), old(lmG(fe(input2.z), input1, input2)), old(lmH(input1, input2)))
  ensures implies(zeroT(out), old(lmE(input1, input2) == 0 && lmG(fe(input2.z), input1, input2) == 0) || old(lmF(fe(input2.z), input1, input2) == 0 && lmH(input1, input2) == 0))
  ensures onT(out)
  modifies *out
  property P01
func (out *point_efgh_base) add_sta(input1, input2)
  requires onT(input1) && onA(input2)
  ensures sumS(out, old(lE(input1, input2)), old(lF(fe(input1.z), input1, input2)), old(lG(fe(input1.z), input1, input2)), old(lH(input1, input2)))
  ensures implies(fe(out.e) == 0 && fe(out.g) == 0, old(lE(input1, input2) == 0 && lG(fe(input1.z), input1, input2) == 0))
  ensures implies(fe(out.f) == 0 && fe(out.h) == 0, old(lF(fe(input1.z), input1, input2) == 0 && lH(input1, input2) == 0))
  ensures onS(out)
  ensures implies((fe(out.e) != 0 || fe(out.g) != 0) && (fe(out.f) != 0 || fe(out.h) != 0), okS(out))
  use nonsquare(-5, fe(out.e), fe(out.g))
  use nonsquare(DD, fe(out.e), fe(out.g))
  modifies *out
  property P01
func (out *point_efgh_base) sub_sta(input1, input2)
  requires onT(input1) && onA(input2)
  inlinecall bandersnatch/curvePoints.(*point_axtw_base).neg_aa
  ensures sumS(out, old(lmE(input1, input2)), old(lmF(fe(input1.z), input1, input2)), old(lmG(fe(input1.z), input1, input2)), old(lmH(input1, input2)))
  ensures implies(fe(out.e) == 0 && fe(out.g) == 0, old(lmE(input1, input2) == 0 && lmG(fe(input1.z), input1, input2) == 0))
  ensures implies(fe(out.f) == 0 && fe(out.h) == 0, old(lmF(fe(input1.z), input1, input2) == 0 && lmH(input1, input2) == 0))
  ensures onS(out)
  ensures implies((fe(out.e) != 0 || fe(out.g) != 0) && (fe(out.f) != 0 || fe(out.h) != 0), okS(out))
  use nonsquare(-5, fe(out.e), fe(out.g))
  use nonsquare(DD, fe(out.e), fe(out.g))
  modifies *out
  property P01
func (out *point_efgh_base) sub_sat(input1, input2)
  requires onA(input1) && onT(input2)
  inlinecall bandersnatch/curvePoints.(*point_xtw_base).neg_tt
  ensures sumS(out, old(lmE(input1, input2)), old(lmF(fe(input2.z), input1, input2)), old(lmG(fe(input2.z), input1, input2)), old(lmH(input1, input2)))
  ensures implies(fe(out.e) == 0 && fe(out.g) == 0, old(lmE(input1, input2) == 0 && lmG(fe(input2.z), input1, input2) == 0))
  ensures implies(fe(out.f) == 0 && fe(out.h) == 0, old(lmF(fe(input2.z), input1, input2) == 0 && lmH(input1, input2) == 0))
  ensures onS(out)
  ensures implies((fe(out.e) != 0 || fe(out.g) != 0) && (fe(out.f) != 0 || fe(out.h) != 0), okS(out))
  use nonsquare(-5, fe(out.e), fe(out.g))
  use nonsquare(DD, fe(out.e), fe(out.g))
  modifies *out
  property P01
func (out *point_xtw_base) add_taa(input1, input2)
  requires onA(input1) && onA(input2)
  ensures sumT(out, old(lE(input1, input2)), old(lF(1, input1, input2)), old(lG(1, input1, input2)), old(lH(input1, input2)))
  ensures implies(zeroT(out), old(lE(input1, input2) == 0 && lG(1, input1, input2) == 0) || old(lF(1, input1, input2) == 0 && lH(input1, input2) == 0))
  ensures onT(out)
  modifies *out
  property P01
func (out *point_xtw_base) sub_taa(input1, input2)
  requires onA(input1) && onA(input2)
  inlinecall bandersnatch/curvePoints.(*point_axtw_base).neg_aa
  ensures sumT(out, old(lmE(input1, input2)), old(lmF(1, input1, input2)), old(lmG(1, input1, input2)), old(lmH(input1, input2)))
  ensures implies(zeroT(out), old(lmE(input1, input2) == 0 && lmG(1, input1, input2) == 0) || old(lmF(1, input1, input2) == 0 && lmH(input1, input2) == 0))
  ensures onT(out)
  modifies *out
  property P01
func (out *point_efgh_base) add_saa(input1, input2)
  requires onA(input1) && onA(input2)
  ensures sumS(out, old(lE(input1, input2)), old(lF(1, input1, input2)), old(lG(1, input1, input2)), old(lH(input1, input2)))
  ensures implies(fe(out.e) == 0 && fe(out.g) == 0, old(lE(input1, input2) == 0 && lG(1, input1, input2) == 0))
  ensures implies(fe(out.f) == 0 && fe(out.h) == 0, old(lF(1, input1, input2) == 0 && lH(input1, input2) == 0))
  ensures onS(out)
  ensures implies((fe(out.e) != 0 || fe(out.g) != 0) && (fe(out.f) != 0 || fe(out.h) != 0), okS(out))
  use nonsquare(-5, fe(out.e), fe(out.g))
  use nonsquare(DD, fe(out.e), fe(out.g))
  modifies *out
  property P01
func (out *point_efgh_base) sub_saa(input1, input2)
  requires onA(input1) && onA(input2)
  inlinecall bandersnatch/curvePoints.(*point_axtw_base).neg_aa
  ensures sumS(out, old(lmE(input1, input2)), old(lmF(1, input1, input2)), old(lmG(1, input1, input2)), old(lmH(input1, input2)))
  ensures implies(fe(out.e) == 0 && fe(out.g) == 0, old(lmE(input1, input2) == 0 && lmG(1, input1, input2) == 0))
  ensures implies(fe(out.f) == 0 && fe(out.h) == 0, old(lmF(1, input1, input2) == 0 && lmH(input1, input2) == 0))
  ensures onS(out)
  ensures implies((fe(out.e) != 0 || fe(out.g) != 0) && (fe(out.f) != 0 || fe(out.h) != 0), okS(out))
  use nonsquare(-5, fe(out.e), fe(out.g))
  use nonsquare(DD, fe(out.e), fe(out.g))
  modifies *out
  property P01

// ---- doubling
pred xS(p) = fe(p.e) * fe(p.f)
pred yS(p) = fe(p.g) * fe(p.h)
pred tS(p) = fe(p.e) * fe(p.h)
pred zS(p) = fe(p.f) * fe(p.g)
func (out *point_efgh_base) double_st(input)
  requires onT(input)
  ensures sumS(out, old(lE(input, input)), old(lF(fe(input.z)*fe(input.z), input, input)), old(lG(fe(input.z)*fe(input.z), input, input)), old(lH(input, input)))
  ensures implies(fe(out.e) == 0 && fe(out.g) == 0, old(lE(input, input) == 0 && lG(fe(input.z)*fe(input.z), input, input) == 0))
  ensures implies(fe(out.f) == 0 && fe(out.h) == 0, old(lF(fe(input.z)*fe(input.z), input, input) == 0 && lH(input, input) == 0))
  ensures onS(out)
  modifies *out
  property P01
func (out *point_efgh_base) double_sa(input)
  requires onA(input)
  ensures sumS(out, old(lE(input, input)), old(lF(1, input, input)), old(lG(1, input, input)), old(lH(input, input)))
  ensures implies(fe(out.e) == 0 && fe(out.g) == 0, old(lE(input, input) == 0 && lG(1, input, input) == 0))
  ensures implies(fe(out.f) == 0 && fe(out.h) == 0, old(lF(1, input, input) == 0 && lH(input, input) == 0))
  ensures onS(out)
  modifies *out
  property P01
func (out *point_efgh_base) double_ss(input)
  requires onS(input)
  ensures sumS(out, old(2*xS(input)*yS(input)), old(zS(input)*zS(input) - DD*tS(input)*tS(input)), old(zS(input)*zS(input) + DD*tS(input)*tS(input)), old(yS(input)*yS(input) + 5*xS(input)*xS(input)))
  ensures implies(fe(out.e) == 0 && fe(out.g) == 0, old(2*xS(input)*yS(input) == 0 && zS(input)*zS(input) + DD*tS(input)*tS(input) == 0))
  ensures implies(fe(out.f) == 0 && fe(out.h) == 0, old(zS(input)*zS(input) - DD*tS(input)*tS(input) == 0 && yS(input)*yS(input) + 5*xS(input)*xS(input) == 0))
  ensures onS(out)
  modifies *out
  property P01

// ---- negation: (x : y : t : z) -> (-x : y : -t : z)
pred projT(p, X, Y, T, Z) = fe(p.x)*Y == fe(p.y)*X && fe(p.x)*T == fe(p.t)*X && fe(p.x)*Z == fe(p.z)*X && fe(p.y)*T == fe(p.t)*Y && fe(p.y)*Z == fe(p.z)*Y && fe(p.t)*Z == fe(p.z)*T && iff(zeroT(p), X == 0 && Y == 0 && T == 0 && Z == 0)
// the fractions e/g and f/h
pred projS(p, E, F, G, H) = fe(p.e)*G == fe(p.g)*E && fe(p.f)*H == fe(p.h)*F && iff(fe(p.e) == 0 && fe(p.g) == 0, E == 0 && G == 0) && iff(fe(p.f) == 0 && fe(p.h) == 0, F == 0 && H == 0)
// the same, but 0/0 may have been replaced by the right value
pred projSw(p, E, F, G, H) = fe(p.e)*G == fe(p.g)*E && fe(p.f)*H == fe(p.h)*F && implies(fe(p.e) == 0 && fe(p.g) == 0, E == 0 && G == 0) && implies(fe(p.f) == 0 && fe(p.h) == 0, F == 0 && H == 0)
func (out *point_xtw_base) neg_tt(input)
  ensures projT(out, -old(fe(input.x)), old(fe(input.y)), -old(fe(input.t)), old(fe(input.z)))
  ensures implies(old(onT(input)), onT(out))
  modifies *out
  property P01
func (out *point_axtw_base) neg_aa(input)
  ensures fe(out.x) == -old(fe(input.x)) && fe(out.y) == old(fe(input.y)) && fe(out.t) == -old(fe(input.t))
  modifies *out
  property P01
func (out *point_efgh_base) neg_ss(input)
  ensures projS(out, -old(fe(input.e)), old(fe(input.f)), old(fe(input.g)), old(fe(input.h)))
  ensures implies(old(onS(input)), onS(out))
  modifies *out
  property P01
func (out *point_xtw_base) neg_ta(input)
  ensures projT(out, -old(fe(input.x)), old(fe(input.y)), -old(fe(input.t)), 1)
  ensures implies(old(onA(input)), onT(out))
  modifies *out
  property P01
func (p *point_xtw_base) NegEq()
  ensures projT(p, -old(fe(p.x)), old(fe(p.y)), -old(fe(p.t)), old(fe(p.z)))
  ensures implies(old(onT(p)), onT(p))
  modifies *p
  property P01
func (p *point_axtw_base) NegEq()
  ensures fe(p.x) == -old(fe(p.x)) && fe(p.y) == old(fe(p.y)) && fe(p.t) == -old(fe(p.t))
  modifies *p
  property P01
func (p *point_efgh_base) NegEq()
  ensures projS(p, -old(fe(p.e)), old(fe(p.f)), old(fe(p.g)), old(fe(p.h)))
  ensures implies(old(onS(p)), onS(p))
  modifies *p
  property P01

// ---- adding the points of order two: A = (0 : -1 : 0 : 1), E1 = (RR : 0 : 1 : 0), E2 = E1 + A, with RR^2 = d/a
const RR = 37446463827641770816307242315180085052603635617490163568005256780843403514038
func (p *point_xtw_base) torsionAddA()
  ensures projT(p, -old(fe(p.x)), -old(fe(p.y)), old(fe(p.t)), old(fe(p.z)))
  ensures implies(old(onT(p)), onT(p))
  modifies *p
  property P02
func (p *point_axtw_base) torsionAddA()
  ensures fe(p.x) == -old(fe(p.x)) && fe(p.y) == -old(fe(p.y)) && fe(p.t) == old(fe(p.t))
  modifies *p
  property P02
func (p *point_efgh_base) torsionAddA()
  ensures projS(p, -old(fe(p.e)), old(fe(p.f)), old(fe(p.g)), -old(fe(p.h)))
  ensures implies(old(onS(p)), onS(p))
  modifies *p
  property P02
// both addition laws for p + E1; they define the result
func (p *point_xtw_base) torsionAddE1()
  requires onT(p)
  ensures projT(p, RR*old(fe(p.y)), -5*RR*old(fe(p.x)), old(fe(p.z)), DD*old(fe(p.t)))
  ensures sumT(p, RR*old(fe(p.y)), -DD*old(fe(p.t)), DD*old(fe(p.t)), 5*RR*old(fe(p.x)))
  ensures sumT(p, old(fe(p.z)), RR*old(fe(p.y)), -5*RR*old(fe(p.x)), old(fe(p.z)))
  ensures onT(p)
  modifies *p
  property P02
func (p *point_xtw_base) torsionAddE2()
  requires onT(p)
  ensures projT(p, -RR*old(fe(p.y)), 5*RR*old(fe(p.x)), old(fe(p.z)), DD*old(fe(p.t)))
  ensures onT(p)
  modifies *p
  property P02
func (p *point_efgh_base) torsionAddE1()
  requires onS(p)
  use nonsquare(-5, fe(p.e), fe(p.g))
  use nonsquare(DD, fe(p.e), fe(p.g))
  ensures implies(!old(napS(p)), projS(p, old(fe(p.g)), RR*old(fe(p.h)), -5*RR*old(fe(p.e)), old(fe(p.f))))
  ensures implies(old(napS(p)), napS(p))
  ensures onS(p)
  modifies *p
  property P02
func (p *point_efgh_base) torsionAddE2()
  requires onS(p)
  inlinecall bandersnatch/curvePoints.(*point_efgh_base).torsionAddE1
  use nonsquare(-5, fe(p.e), fe(p.g))
  use nonsquare(DD, fe(p.e), fe(p.g))
  ensures implies(!old(napS(p)), projS(p, -old(fe(p.g)), RR*old(fe(p.h)), -5*RR*old(fe(p.e)), -old(fe(p.f))))
  ensures implies(old(napS(p)), napS(p))
  ensures onS(p)
  modifies *p
  property P02
// the neutral element and A have no sum with E1 in affine coordinates
func (p *point_axtw_base) torsionAddE1()
  requires onA(p)
  use nonsquare(-5, fe(p.x), 1)
  panics fe(p.x) == 0 && fe(p.y) != 0
  ensures implies(old(fe(p.x)) == 0, fe(p.x) == 0 && fe(p.y) == 0)
  ensures implies(old(fe(p.x)) != 0, fe(p.x)*DD*old(fe(p.t)) == RR*old(fe(p.y)) && fe(p.y)*DD*old(fe(p.t)) == -5*RR*old(fe(p.x)) && fe(p.t)*DD*old(fe(p.t)) == 1)
  ensures implies(old(fe(p.x)) != 0, onA(p))
  modifies *p
  property P02
func (p *point_axtw_base) torsionAddE2()
  requires onA(p)
  use nonsquare(-5, fe(p.x), 1)
  panics fe(p.x) == 0 && fe(p.y) != 0
  ensures implies(old(fe(p.x)) == 0, fe(p.x) == 0 && fe(p.y) == 0)
  ensures implies(old(fe(p.x)) != 0, fe(p.x)*DD*old(fe(p.t)) == -RR*old(fe(p.y)) && fe(p.y)*DD*old(fe(p.t)) == 5*RR*old(fe(p.x)) && fe(p.t)*DD*old(fe(p.t)) == 1)
  ensures implies(old(fe(p.x)) != 0, onA(p))
  modifies *p
  property P02

// ---- the endomorphism (x, y) -> (c(1-y^2)/(xy), b(y^2+b)/(y^2-b))
const EB = 0x52c9f28b828426a561f00d3a63511a882ea712770d9af4d6ee0f014d172510b4
const EC = 0x6cc624cf865457c3a97c6efd6c17d1078456abcfff36f4e9515c806cdf650b3d
pred endoE(y, z) = EC*(z*z - y*y)
pred endoF(y, z) = y*y - EB*z*z
pred endoH(y, z) = EB*(y*y + EB*z*z)
func (output *point_efgh_base) computeEndomorphism_st(input)
  requires onT(input)
  ensures projSw(output, old(endoE(fe(input.y), fe(input.z))), old(endoF(fe(input.y), fe(input.z))), old(fe(input.x)*fe(input.y)), old(endoH(fe(input.y), fe(input.z))))
  ensures onS(output)
  modifies *output
  property P02
func (output *point_efgh_base) computeEndomorphism_sa(input)
  requires onA(input)
  ensures projSw(output, old(endoE(fe(input.y), 1)), old(endoF(fe(input.y), 1)), old(fe(input.x)*fe(input.y)), old(endoH(fe(input.y), 1)))
  ensures onS(output)
  modifies *output
  property P02
func (output *point_efgh_base) computeEndomorphism_ss(input)
  requires onS(input)
  ensures sumS(output, old(endoE(yS(input), zS(input))), old(endoF(yS(input), zS(input))), old(xS(input)*yS(input)), old(endoH(yS(input), zS(input))))
  ensures implies(fe(output.f) == 0 && fe(output.h) == 0, old(fe(input.f) == 0 && fe(input.h) == 0))
  ensures implies(fe(output.e) == 0 && fe(output.g) == 0, old(fe(input.f) == 0 || fe(input.g) == 0 || fe(input.h) == 0))
  ensures implies(old(fe(input.e) == 0 && fe(input.g) != 0 && fe(input.f) != 0), fe(output.e) == 0 && fe(output.g) != 0 && fe(output.f) == fe(output.h) && fe(output.f) != 0)
  ensures onS(output)
  modifies *output
  property P02

// ---- queries
func (p *point_xtw_base) IsNaP() (r)
  ensures iff(r, fe(p.x) == 0 && fe(p.y) == 0)
  modifies nothing
  property P03
func (p *point_axtw_base) IsNaP() (r)
  ensures iff(r, fe(p.x) == 0 && fe(p.y) == 0)
  modifies nothing
  property P03
func (p *point_efgh_base) IsNaP() (r)
  panics fe(p.h) == 0 && fe(p.f) != 0 && fe(p.e) != 0 || fe(p.h) != 0 && fe(p.f) == 0 && (fe(p.e) != 0 || fe(p.g) != 0)
  ensures iff(r, napS(p))
  modifies nothing
  property P03
func (p *point_efgh_base) toDecaf_xtw() (ret)
  ensures fe(ret.x) == xS(p) && fe(ret.y) == yS(p) && fe(ret.t) == tS(p) && fe(ret.z) == zS(p)
  ensures implies(okS(p), okT(ret))
  use nonsquare(DD, fe(p.e), fe(p.g))
  use nonsquare(-5, fe(p.e), fe(p.g))
  modifies nothing
  property P03
func (p *point_xtw_base) isPointOnCurve() (r)
  ensures iff(r, !old(fe(p.x) == 0 && fe(p.y) == 0) && old(onT(p)))
  modifies nothing
  property P03
func (p *point_axtw_base) isPointOnCurve() (r)
  ensures iff(r, !old(fe(p.x) == 0 && fe(p.y) == 0) && old(onA(p)))
  ensures fe(p.t) == old(fe(p.t))
  modifies p.t
  property P03
func (p *point_efgh_base) isPointOnCurve() (r)
  panics fe(p.h) == 0 && fe(p.f) != 0 && fe(p.e) != 0 || fe(p.h) != 0 && fe(p.f) == 0 && (fe(p.e) != 0 || fe(p.g) != 0)
  ensures iff(r, !old(napS(p)) && old(onS(p)))
  modifies nothing
  property P03
func checkEqualityOfQuotients(x1, y1, x2, y2) (result, zero)
  ensures iff(result, fe(x1)*fe(y2) == fe(y1)*fe(x2))
  ensures iff(zero, fe(x1)*fe(y2) == 0 && fe(y1)*fe(x2) == 0)
  modifies nothing
  property P03
pred okT(p) = onT(p) && (fe(p.x) != 0 || fe(p.y) != 0)
pred okA(p) = onA(p) && (fe(p.x) != 0 || fe(p.y) != 0)
pred okS(p) = onS(p) && !napS(p)
pred sameT(p, q) = fe(p.x)*fe(q.y) == fe(p.y)*fe(q.x) && fe(p.x)*fe(q.t) == fe(p.t)*fe(q.x) && fe(p.x)*fe(q.z) == fe(p.z)*fe(q.x) && fe(p.y)*fe(q.t) == fe(p.t)*fe(q.y) && fe(p.y)*fe(q.z) == fe(p.z)*fe(q.y) && fe(p.t)*fe(q.z) == fe(p.z)*fe(q.t)
func (p1 *point_xtw_base) isEqual_exact_tt(p2) (ret, potentialNaP)
  requires okT(p1) && okT(p2)
  use nonsquare(-5, fe(p1.x), fe(p1.z))
  use nonsquare(-5, fe(p2.x), fe(p2.z))
  use nonsquare(DD, fe(p1.t), fe(p1.y))
  use nonsquare(DD, fe(p2.t), fe(p2.y))
  ensures iff(ret, sameT(p1, p2))
  modifies nothing
  property P03
func (p1 *point_xtw_base) isEqual_exact_ta(p2) (ret)
  requires okT(p1) && okA(p2)
  use nonsquare(-5, fe(p1.x), fe(p1.z))
  use nonsquare(DD, fe(p1.t), fe(p1.y))
  ensures iff(ret, old(fe(p1.x) == fe(p1.z)*fe(p2.x) && fe(p1.y) == fe(p1.z)*fe(p2.y) && fe(p1.t) == fe(p1.z)*fe(p2.t)))
  modifies p1.x, p1.y
  property P03
func (p1 *point_axtw_base) isEqual_exact_at(p2) (ret)
  requires okA(p1) && okT(p2)
  use nonsquare(-5, fe(p2.x), fe(p2.z))
  use nonsquare(DD, fe(p2.t), fe(p2.y))
  ensures iff(ret, old(fe(p2.x) == fe(p2.z)*fe(p1.x) && fe(p2.y) == fe(p2.z)*fe(p1.y) && fe(p2.t) == fe(p2.z)*fe(p1.t)))
  modifies p2.x, p2.y
  property P03
func (p1 *point_axtw_base) isEqual_exact_aa(p2) (ret)
  requires okA(p1) && okA(p2)
  ensures iff(ret, old(fe(p1.x) == fe(p2.x) && fe(p1.y) == fe(p2.y) && fe(p1.t) == fe(p2.t)))
  modifies p1.x, p1.y, p2.x, p2.y
  property P03
func (p *point_efgh_base) isEqual_exact_ss(other) (ret)
  requires okS(p) && okS(other)
  ensures iff(ret, old(fe(p.e)*fe(other.g) == fe(p.g)*fe(other.e) && fe(p.h)*fe(other.f) == fe(p.f)*fe(other.h)))
  modifies nothing
  property P03
// modulo the point A: equal or equal to the other point plus A
func (p *point_efgh_base) isEqual_moduloA_ss(other) (ret)
  requires okS(p) && okS(other)
  use nonsquare(DD, fe(p.e), fe(p.g))
  use nonsquare(DD, fe(other.e), fe(other.g))
  ensures iff(ret, old(fe(p.e)*fe(other.g) == fe(p.g)*fe(other.e) && fe(p.h)*fe(other.f) == fe(p.f)*fe(other.h)) || old(fe(p.e)*fe(other.g) == -fe(p.g)*fe(other.e) && fe(p.h)*fe(other.f) == -fe(p.f)*fe(other.h)))
  modifies nothing
  property P03
func (p1 *point_axtw_base) isEqual_moduloA_aa(p2) (ret)
  requires okA(p1) && okA(p2)
  use nonsquare(-5, fe(p1.x), 1)
  use nonsquare(-5, fe(p2.x), 1)
  ensures iff(ret, old(fe(p1.x) == fe(p2.x) && fe(p1.y) == fe(p2.y)) || old(fe(p1.x) == -fe(p2.x) && fe(p1.y) == -fe(p2.y)))
  modifies p1.x, p1.y, p2.x, p2.y
  property P03
pred unchT(p) = fe(p.x) == old(fe(p.x)) && fe(p.y) == old(fe(p.y)) && fe(p.t) == old(fe(p.t)) && fe(p.z) == old(fe(p.z))
func (p *point_xtw_base) SetNeutral()
  ensures projT(p, 0, 1, 0, 1)
  modifies *p
  property P01
func (p *point_axtw_base) SetNeutral()
  ensures fe(p.x) == 0 && fe(p.y) == 1 && fe(p.t) == 0
  modifies *p
  property P01
func (p *point_efgh_base) SetNeutral()
  ensures projS(p, 0, 1, 1, 1)
  modifies *p
  property P01
func (p *Point_xtw_full) SetE1()
  ensures projT(p, RR, 0, 1, 0)
  modifies *p
  property P02
func (p *Point_xtw_full) SetE2()
  ensures projT(p, -RR, 0, 1, 0)
  modifies *p
  property P02
func (p *Point_xtw_full) SetAffineTwoTorsion()
  ensures projT(p, 0, -1, 0, 1)
  modifies *p
  property P02
func (p *Point_axtw_full) SetAffineTwoTorsion()
  ensures fe(p.x) == 0 && fe(p.y) == -1 && fe(p.t) == 0
  modifies *p
  property P02
func (p *Point_efgh_full) SetE1()
  ensures projS(p, 1, RR, 0, 1)
  modifies *p
  property P02
func (p *Point_efgh_full) SetE2()
  ensures projS(p, 1, RR, 0, -1)
  modifies *p
  property P02
func (p *Point_efgh_full) SetAffineTwoTorsion()
  ensures projS(p, 0, 1, 1, -1)
  modifies *p
  property P02
func (p *Point_xtw_full) IsNeutralElement() (r)
  requires okT(p)
  use nonsquare(DD, fe(p.t), fe(p.y))
  ensures iff(r, old(fe(p.x) == 0 && fe(p.y) == fe(p.z)))
  ensures unchT(p)
  modifies p.y, p.z
  property P03
func (p *Point_xtw_subgroup) IsNeutralElement() (r)
  requires okT(p) && fe(p.z) != 0
  use nonsquare(-5, fe(p.x), fe(p.z))
  ensures iff(r, fe(p.x) == 0)
  modifies nothing
  property P03
func (p *point_xtw_base) IsAtInfinity() (r)
  requires okT(p)
  use nonsquare(-5, fe(p.x), fe(p.z))
  use nonsquare(DD, fe(p.t), fe(p.y))
  ensures iff(r, fe(p.z) == 0)
  modifies nothing
  property P03
func (p *point_xtw_base) IsE1() (r)
  requires okT(p)
  use nonsquare(-5, fe(p.x), fe(p.z))
  use nonsquare(DD, fe(p.t), fe(p.y))
  ensures iff(r, old(fe(p.z) == 0 && fe(p.y) == 0 && fe(p.x) == RR*fe(p.t)))
  ensures r || old(fe(p.z) != 0 || fe(p.y) == 0 && fe(p.x) == -RR*fe(p.t))
  use nozerodivisor(old(fe(p.x) - RR*fe(p.t)), old(fe(p.x) + RR*fe(p.t)))
  ensures unchT(p)
  modifies p.x
  property P03
func (p *point_xtw_base) IsE2() (r)
  requires okT(p)
  use nonsquare(-5, fe(p.x), fe(p.z))
  use nonsquare(DD, fe(p.t), fe(p.y))
  ensures iff(r, old(fe(p.z) == 0 && fe(p.y) == 0 && fe(p.x) == -RR*fe(p.t)))
  ensures unchT(p)
  modifies p.x
  property P03
func (p *Point_efgh_full) IsNeutralElement() (r)
  requires okS(p)
  use nonsquare(DD, fe(p.e), fe(p.g))
  ensures iff(r, old(fe(p.e) == 0 && fe(p.f) == fe(p.h)))
  modifies p.f, p.h
  property P03
func (p *Point_efgh_full) IsAtInfinity() (r)
  requires okS(p)
  use nonsquare(DD, fe(p.e), fe(p.g))
  ensures iff(r, fe(p.g) == 0)
  modifies nothing
  property P03
func (p *point_efgh_base) IsAtInfinity() (r)
  requires okS(p)
  use nonsquare(DD, fe(p.e), fe(p.g))
  ensures iff(r, fe(p.g) == 0)
  modifies nothing
  property P03
func (p *point_efgh_base) IsE1() (r)
  requires okS(p)
  use nonsquare(DD, fe(p.e), fe(p.g))
  ensures iff(r, old(fe(p.g) == 0 && fe(p.f) == RR*fe(p.h)))
  ensures r || old(fe(p.g) != 0 || fe(p.f) == -RR*fe(p.h))
  use nozerodivisor(old(fe(p.f) - RR*fe(p.h)), old(fe(p.f) + RR*fe(p.h)))
  ensures fe(p.f) == old(fe(p.f))
  modifies p.f
  property P03
func (p *point_efgh_base) IsE2() (r)
  requires okS(p)
  use nonsquare(DD, fe(p.e), fe(p.g))
  ensures iff(r, old(fe(p.g) == 0 && fe(p.f) == -RR*fe(p.h)))
  ensures fe(p.f) == old(fe(p.f))
  modifies p.f
  property P03
func (p *point_xtw_base) normalizeAffineZ()
  requires okT(p)
  panics fe(p.z) == 0
  ensures fe(p.z) == 1 && fe(p.x)*old(fe(p.z)) == old(fe(p.x)) && fe(p.y)*old(fe(p.z)) == old(fe(p.y)) && fe(p.t)*old(fe(p.z)) == old(fe(p.t))
  ensures okT(p)
  modifies *p
  property P03
func (p *Point_xtw_full) NormalizeForZ() (ok)
  requires okT(p)
  use nonsquare(-5, fe(p.x), fe(p.z))
  use nonsquare(DD, fe(p.t), fe(p.y))
  ensures iff(ok, old(fe(p.z)) != 0)
  ensures implies(ok, fe(p.z) == 1)
  ensures projT(p, old(fe(p.x)), old(fe(p.y)), old(fe(p.t)), old(fe(p.z)))
  modifies *p
  property P03
func (p *Point_xtw_full) NormalizeForY() (ok)
  requires okT(p)
  use nonsquare(-5, fe(p.x), fe(p.z))
  use nonsquare(DD, fe(p.t), fe(p.y))
  ensures iff(ok, old(fe(p.z)) != 0)
  ensures implies(ok, fe(p.y) == 1)
  ensures projT(p, old(fe(p.x)), old(fe(p.y)), old(fe(p.t)), old(fe(p.z)))
  modifies *p
  property P03
func (p *point_efgh_base) normalize_affine()
  requires okS(p)
  panics fe(p.g) == 0
  use nonsquare(DD, fe(p.e), fe(p.g))
  ensures fe(p.f) == 1 && fe(p.g) == 1 && fe(p.e)*old(fe(p.g)) == old(fe(p.e)) && fe(p.h)*old(fe(p.f)) == old(fe(p.h))
  ensures okS(p)
  modifies *p
  property P03
