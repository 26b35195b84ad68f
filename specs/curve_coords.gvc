package bandersnatch/curvePoints
layer default 2
// ---- coordinates handed out: those of the point (for the types for the subgroup: of the point or of the point plus (0,-1), consistently)
func (p *Point_xtw_full) X_projective() (r)
  requires okT(p)
  use nonsquare(-5, fe(p.x), fe(p.z))
  use nonsquare(DD, fe(p.t), fe(p.y))
  ensures fe(r) == fe(p.x)
  ensures fe(p.x)*old(fe(p.z)) == (fe(p.z)*old(fe(p.x))) && fe(p.y)*old(fe(p.z)) == (fe(p.z)*old(fe(p.y))) && fe(p.t)*old(fe(p.z)) == fe(p.z)*old(fe(p.t)) && fe(p.x)*old(fe(p.t)) == (fe(p.t)*old(fe(p.x)))
  ensures okT(p)
  modifies *p
  inline
  property P04
func (p *Point_xtw_full) Y_projective() (r)
  requires okT(p)
  use nonsquare(-5, fe(p.x), fe(p.z))
  use nonsquare(DD, fe(p.t), fe(p.y))
  ensures fe(r) == fe(p.y)
  ensures fe(p.x)*old(fe(p.z)) == (fe(p.z)*old(fe(p.x))) && fe(p.y)*old(fe(p.z)) == (fe(p.z)*old(fe(p.y))) && fe(p.t)*old(fe(p.z)) == fe(p.z)*old(fe(p.t)) && fe(p.x)*old(fe(p.t)) == (fe(p.t)*old(fe(p.x)))
  ensures okT(p)
  modifies *p
  inline
  property P04
func (p *Point_xtw_full) T_projective() (r)
  requires okT(p)
  use nonsquare(-5, fe(p.x), fe(p.z))
  use nonsquare(DD, fe(p.t), fe(p.y))
  ensures fe(r) == fe(p.t)
  ensures fe(p.x)*old(fe(p.z)) == (fe(p.z)*old(fe(p.x))) && fe(p.y)*old(fe(p.z)) == (fe(p.z)*old(fe(p.y))) && fe(p.t)*old(fe(p.z)) == fe(p.z)*old(fe(p.t)) && fe(p.x)*old(fe(p.t)) == (fe(p.t)*old(fe(p.x)))
  ensures okT(p)
  modifies *p
  inline
  property P04
func (p *Point_xtw_full) Z_projective() (r)
  requires okT(p)
  use nonsquare(-5, fe(p.x), fe(p.z))
  use nonsquare(DD, fe(p.t), fe(p.y))
  ensures fe(r) == fe(p.z)
  ensures fe(p.x)*old(fe(p.z)) == (fe(p.z)*old(fe(p.x))) && fe(p.y)*old(fe(p.z)) == (fe(p.z)*old(fe(p.y))) && fe(p.t)*old(fe(p.z)) == fe(p.z)*old(fe(p.t)) && fe(p.x)*old(fe(p.t)) == (fe(p.t)*old(fe(p.x)))
  ensures okT(p)
  modifies *p
  inline
  property P04
func (p *Point_xtw_full) XYZ_projective() (X, Y, Z)
  requires okT(p)
  use nonsquare(-5, fe(p.x), fe(p.z))
  use nonsquare(DD, fe(p.t), fe(p.y))
  ensures fe(X)*old(fe(p.y)) == (fe(Y)*old(fe(p.x))) && fe(X)*old(fe(p.z)) == (fe(Z)*old(fe(p.x))) && fe(Y)*old(fe(p.z)) == (fe(Z)*old(fe(p.y)))
  ensures fe(X) != 0 || fe(Y) != 0 || fe(Z) != 0
  ensures okT(p)
  modifies *p
  inline
  property P04
func (p *Point_xtw_full) XYTZ_projective() (X, Y, T, Z)
  requires okT(p)
  use nonsquare(-5, fe(p.x), fe(p.z))
  use nonsquare(DD, fe(p.t), fe(p.y))
  ensures fe(X)*old(fe(p.y)) == (fe(Y)*old(fe(p.x))) && fe(X)*old(fe(p.t)) == (fe(T)*old(fe(p.x))) && fe(X)*old(fe(p.z)) == (fe(Z)*old(fe(p.x))) && fe(Y)*old(fe(p.t)) == (fe(T)*old(fe(p.y))) && fe(Y)*old(fe(p.z)) == (fe(Z)*old(fe(p.y))) && fe(T)*old(fe(p.z)) == (fe(Z)*old(fe(p.t)))
  ensures fe(X) != 0 || fe(Y) != 0
  ensures okT(p)
  modifies *p
  inline
  property P04
func (p *Point_xtw_full) X_affine() (X)
  requires okT(p)
  requires fe(p.z) != 0
  use nonsquare(-5, fe(p.x), fe(p.z))
  use nonsquare(DD, fe(p.t), fe(p.y))
  ensures fe(X)*old(fe(p.z)) == old(fe(p.x))
  ensures okT(p)
  modifies *p
  inline
  property P04
func (p *Point_xtw_full) Y_affine() (Y)
  requires okT(p)
  requires fe(p.z) != 0
  use nonsquare(-5, fe(p.x), fe(p.z))
  use nonsquare(DD, fe(p.t), fe(p.y))
  ensures fe(Y)*old(fe(p.z)) == old(fe(p.y))
  ensures okT(p)
  modifies *p
  inline
  property P04
func (p *Point_xtw_full) T_affine() (T)
  requires okT(p)
  requires fe(p.z) != 0
  use nonsquare(-5, fe(p.x), fe(p.z))
  use nonsquare(DD, fe(p.t), fe(p.y))
  ensures fe(T)*old(fe(p.z)) == old(fe(p.t))
  ensures okT(p)
  modifies *p
  inline
  property P04
func (p *Point_xtw_full) XY_affine() (X, Y)
  requires okT(p)
  requires fe(p.z) != 0
  use nonsquare(-5, fe(p.x), fe(p.z))
  use nonsquare(DD, fe(p.t), fe(p.y))
  ensures fe(X)*old(fe(p.z)) == old(fe(p.x)) && fe(Y)*old(fe(p.z)) == old(fe(p.y))
  ensures okT(p)
  modifies *p
  inline
  property P04
func (p *Point_xtw_full) XYT_affine() (X, Y, T)
  requires okT(p)
  requires fe(p.z) != 0
  use nonsquare(-5, fe(p.x), fe(p.z))
  use nonsquare(DD, fe(p.t), fe(p.y))
  ensures fe(X)*old(fe(p.z)) == old(fe(p.x)) && fe(Y)*old(fe(p.z)) == old(fe(p.y)) && fe(T)*old(fe(p.z)) == old(fe(p.t))
  ensures okT(p)
  modifies *p
  inline
  property P04
func (p *Point_axtw_full) X_projective() (r)
  requires okA(p)
  use nonsquare(-5, fe(p.x), 1)
  ensures fe(r) == fe(p.x)
  ensures fe(p.x) == old(fe(p.x)) && fe(p.y) == old(fe(p.y)) && fe(p.t) == old(fe(p.t))
  ensures okA(p)
  modifies *p
  inline
  property P04
func (p *Point_axtw_full) Y_projective() (r)
  requires okA(p)
  use nonsquare(-5, fe(p.x), 1)
  ensures fe(r) == fe(p.y)
  ensures fe(p.x) == old(fe(p.x)) && fe(p.y) == old(fe(p.y)) && fe(p.t) == old(fe(p.t))
  ensures okA(p)
  modifies *p
  inline
  property P04
func (p *Point_axtw_full) T_projective() (r)
  requires okA(p)
  use nonsquare(-5, fe(p.x), 1)
  ensures fe(r) == fe(p.t)
  ensures fe(p.x) == old(fe(p.x)) && fe(p.y) == old(fe(p.y)) && fe(p.t) == old(fe(p.t))
  ensures okA(p)
  modifies *p
  inline
  property P04
func (p *point_axtw_base) Z_projective() (r)
  requires okA(p)
  use nonsquare(-5, fe(p.x), 1)
  ensures fe(r) == 1
  ensures fe(p.x) == old(fe(p.x)) && fe(p.y) == old(fe(p.y)) && fe(p.t) == old(fe(p.t))
  ensures okA(p)
  modifies *p
  inline
  property P04
func (p *Point_axtw_full) XYZ_projective() (X, Y, Z)
  requires okA(p)
  use nonsquare(-5, fe(p.x), 1)
  ensures fe(X)*old(fe(p.y)) == (fe(Y)*old(fe(p.x))) && fe(X)*old(1) == (fe(Z)*old(fe(p.x))) && fe(Y)*old(1) == (fe(Z)*old(fe(p.y)))
  ensures fe(X) != 0 || fe(Y) != 0 || fe(Z) != 0
  ensures okA(p)
  modifies *p
  inline
  property P04
func (p *Point_axtw_full) XYTZ_projective() (X, Y, T, Z)
  requires okA(p)
  use nonsquare(-5, fe(p.x), 1)
  ensures fe(X)*old(fe(p.y)) == (fe(Y)*old(fe(p.x))) && fe(X)*old(fe(p.t)) == (fe(T)*old(fe(p.x))) && fe(X)*old(1) == (fe(Z)*old(fe(p.x))) && fe(Y)*old(fe(p.t)) == (fe(T)*old(fe(p.y))) && fe(Y)*old(1) == (fe(Z)*old(fe(p.y))) && fe(T)*old(1) == (fe(Z)*old(fe(p.t)))
  ensures fe(X) != 0 || fe(Y) != 0
  ensures okA(p)
  modifies *p
  inline
  property P04
func (p *Point_axtw_full) X_affine() (X)
  requires okA(p)
  requires 1 != 0
  use nonsquare(-5, fe(p.x), 1)
  ensures fe(X)*old(1) == old(fe(p.x))
  ensures okA(p)
  modifies *p
  inline
  property P04
func (p *Point_axtw_full) Y_affine() (Y)
  requires okA(p)
  requires 1 != 0
  use nonsquare(-5, fe(p.x), 1)
  ensures fe(Y)*old(1) == old(fe(p.y))
  ensures okA(p)
  modifies *p
  inline
  property P04
func (p *Point_axtw_full) T_affine() (T)
  requires okA(p)
  requires 1 != 0
  use nonsquare(-5, fe(p.x), 1)
  ensures fe(T)*old(1) == old(fe(p.t))
  ensures okA(p)
  modifies *p
  inline
  property P04
func (p *Point_axtw_full) XY_affine() (X, Y)
  requires okA(p)
  requires 1 != 0
  use nonsquare(-5, fe(p.x), 1)
  ensures fe(X)*old(1) == old(fe(p.x)) && fe(Y)*old(1) == old(fe(p.y))
  ensures okA(p)
  modifies *p
  inline
  property P04
func (p *Point_axtw_full) XYT_affine() (X, Y, T)
  requires okA(p)
  requires 1 != 0
  use nonsquare(-5, fe(p.x), 1)
  ensures fe(X)*old(1) == old(fe(p.x)) && fe(Y)*old(1) == old(fe(p.y)) && fe(T)*old(1) == old(fe(p.t))
  ensures okA(p)
  modifies *p
  inline
  property P04
func (p *Point_efgh_full) X_projective() (r)
  requires okS(p)
  use nonsquare(DD, fe(p.e), fe(p.g))
  use nonsquare(-5, fe(p.e), fe(p.g))
  ensures fe(r) == xS(p)
  ensures fe(p.e)*old(fe(p.g)) == (fe(p.g)*old(fe(p.e))) && fe(p.h)*old(fe(p.f)) == (fe(p.f)*old(fe(p.h)))
  ensures okS(p)
  modifies *p
  inline
  property P04
func (p *Point_efgh_full) Y_projective() (r)
  requires okS(p)
  use nonsquare(DD, fe(p.e), fe(p.g))
  use nonsquare(-5, fe(p.e), fe(p.g))
  ensures fe(r) == yS(p)
  ensures fe(p.e)*old(fe(p.g)) == (fe(p.g)*old(fe(p.e))) && fe(p.h)*old(fe(p.f)) == (fe(p.f)*old(fe(p.h)))
  ensures okS(p)
  modifies *p
  inline
  property P04
func (p *Point_efgh_full) T_projective() (r)
  requires okS(p)
  use nonsquare(DD, fe(p.e), fe(p.g))
  use nonsquare(-5, fe(p.e), fe(p.g))
  ensures fe(r) == tS(p)
  ensures fe(p.e)*old(fe(p.g)) == (fe(p.g)*old(fe(p.e))) && fe(p.h)*old(fe(p.f)) == (fe(p.f)*old(fe(p.h)))
  ensures okS(p)
  modifies *p
  inline
  property P04
func (p *Point_efgh_full) Z_projective() (r)
  requires okS(p)
  use nonsquare(DD, fe(p.e), fe(p.g))
  use nonsquare(-5, fe(p.e), fe(p.g))
  ensures fe(r) == zS(p)
  ensures fe(p.e)*old(fe(p.g)) == (fe(p.g)*old(fe(p.e))) && fe(p.h)*old(fe(p.f)) == (fe(p.f)*old(fe(p.h)))
  ensures okS(p)
  modifies *p
  inline
  property P04
func (p *Point_efgh_full) XYZ_projective() (X, Y, Z)
  requires okS(p)
  use nonsquare(DD, fe(p.e), fe(p.g))
  use nonsquare(-5, fe(p.e), fe(p.g))
  ensures fe(X)*old(yS(p)) == (fe(Y)*old(xS(p))) && fe(X)*old(zS(p)) == (fe(Z)*old(xS(p))) && fe(Y)*old(zS(p)) == (fe(Z)*old(yS(p)))
  ensures fe(X) != 0 || fe(Y) != 0 || fe(Z) != 0 || old(fe(p.g) == 0)
  ensures okS(p)
  modifies *p
  inline
  property P04
func (p *Point_efgh_full) XYTZ_projective() (X, Y, T, Z)
  requires okS(p)
  use nonsquare(DD, fe(p.e), fe(p.g))
  use nonsquare(-5, fe(p.e), fe(p.g))
  ensures fe(X)*old(yS(p)) == (fe(Y)*old(xS(p))) && fe(X)*old(tS(p)) == (fe(T)*old(xS(p))) && fe(X)*old(zS(p)) == (fe(Z)*old(xS(p))) && fe(Y)*old(tS(p)) == (fe(T)*old(yS(p))) && fe(Y)*old(zS(p)) == (fe(Z)*old(yS(p))) && fe(T)*old(zS(p)) == (fe(Z)*old(tS(p)))
  ensures fe(X) != 0 || fe(Y) != 0
  ensures okS(p)
  modifies *p
  inline
  property P04
func (p *Point_efgh_full) X_affine() (X)
  requires okS(p)
  requires zS(p) != 0
  use nonsquare(DD, fe(p.e), fe(p.g))
  use nonsquare(-5, fe(p.e), fe(p.g))
  ensures fe(X)*old(zS(p)) == old(xS(p))
  ensures okS(p)
  modifies *p
  inline
  property P04
func (p *Point_efgh_full) Y_affine() (Y)
  requires okS(p)
  requires zS(p) != 0
  use nonsquare(DD, fe(p.e), fe(p.g))
  use nonsquare(-5, fe(p.e), fe(p.g))
  ensures fe(Y)*old(zS(p)) == old(yS(p))
  ensures okS(p)
  modifies *p
  inline
  property P04
func (p *Point_efgh_full) T_affine() (T)
  requires okS(p)
  requires zS(p) != 0
  use nonsquare(DD, fe(p.e), fe(p.g))
  use nonsquare(-5, fe(p.e), fe(p.g))
  ensures fe(T)*old(zS(p)) == old(tS(p))
  ensures okS(p)
  modifies *p
  inline
  property P04
func (p *Point_efgh_full) XY_affine() (X, Y)
  requires okS(p)
  requires zS(p) != 0
  use nonsquare(DD, fe(p.e), fe(p.g))
  use nonsquare(-5, fe(p.e), fe(p.g))
  ensures fe(X)*old(zS(p)) == old(xS(p)) && fe(Y)*old(zS(p)) == old(yS(p))
  ensures okS(p)
  modifies *p
  inline
  property P04
func (p *Point_efgh_full) XYT_affine() (X, Y, T)
  requires okS(p)
  requires zS(p) != 0
  use nonsquare(DD, fe(p.e), fe(p.g))
  use nonsquare(-5, fe(p.e), fe(p.g))
  ensures fe(X)*old(zS(p)) == old(xS(p)) && fe(Y)*old(zS(p)) == old(yS(p)) && fe(T)*old(zS(p)) == old(tS(p))
  ensures okS(p)
  modifies *p
  inline
  property P04
func (p *Point_xtw_subgroup) X_projective() (r)
  requires okT(p)
  requires fe(p.z) != 0
  use nonsquare(-5, fe(p.x), fe(p.z))
  use nonsquare(DD, fe(p.t), fe(p.y))
  ensures fe(r) == fe(p.x)
  ensures (fe(p.x)*old(fe(p.z)) == (fe(p.z)*old(fe(p.x))) && fe(p.y)*old(fe(p.z)) == (fe(p.z)*old(fe(p.y))) && fe(p.t)*old(fe(p.z)) == fe(p.z)*old(fe(p.t)) && fe(p.x)*old(fe(p.t)) == (fe(p.t)*old(fe(p.x)))) || (fe(p.x)*old(fe(p.z)) == -(fe(p.z)*old(fe(p.x))) && fe(p.y)*old(fe(p.z)) == -(fe(p.z)*old(fe(p.y))) && fe(p.t)*old(fe(p.z)) == fe(p.z)*old(fe(p.t)) && fe(p.x)*old(fe(p.t)) == -(fe(p.t)*old(fe(p.x))))
  ensures okT(p)
  modifies *p
  inline
  property P04
func (p *Point_xtw_subgroup) Y_projective() (r)
  requires okT(p)
  requires fe(p.z) != 0
  use nonsquare(-5, fe(p.x), fe(p.z))
  use nonsquare(DD, fe(p.t), fe(p.y))
  ensures fe(r) == fe(p.y)
  ensures (fe(p.x)*old(fe(p.z)) == (fe(p.z)*old(fe(p.x))) && fe(p.y)*old(fe(p.z)) == (fe(p.z)*old(fe(p.y))) && fe(p.t)*old(fe(p.z)) == fe(p.z)*old(fe(p.t)) && fe(p.x)*old(fe(p.t)) == (fe(p.t)*old(fe(p.x)))) || (fe(p.x)*old(fe(p.z)) == -(fe(p.z)*old(fe(p.x))) && fe(p.y)*old(fe(p.z)) == -(fe(p.z)*old(fe(p.y))) && fe(p.t)*old(fe(p.z)) == fe(p.z)*old(fe(p.t)) && fe(p.x)*old(fe(p.t)) == -(fe(p.t)*old(fe(p.x))))
  ensures okT(p)
  modifies *p
  inline
  property P04
func (p *Point_xtw_subgroup) T_projective() (r)
  requires okT(p)
  requires fe(p.z) != 0
  use nonsquare(-5, fe(p.x), fe(p.z))
  use nonsquare(DD, fe(p.t), fe(p.y))
  ensures fe(r) == fe(p.t)
  ensures (fe(p.x)*old(fe(p.z)) == (fe(p.z)*old(fe(p.x))) && fe(p.y)*old(fe(p.z)) == (fe(p.z)*old(fe(p.y))) && fe(p.t)*old(fe(p.z)) == fe(p.z)*old(fe(p.t)) && fe(p.x)*old(fe(p.t)) == (fe(p.t)*old(fe(p.x)))) || (fe(p.x)*old(fe(p.z)) == -(fe(p.z)*old(fe(p.x))) && fe(p.y)*old(fe(p.z)) == -(fe(p.z)*old(fe(p.y))) && fe(p.t)*old(fe(p.z)) == fe(p.z)*old(fe(p.t)) && fe(p.x)*old(fe(p.t)) == -(fe(p.t)*old(fe(p.x))))
  ensures okT(p)
  modifies *p
  inline
  property P04
func (p *Point_xtw_subgroup) Z_projective() (r)
  requires okT(p)
  requires fe(p.z) != 0
  use nonsquare(-5, fe(p.x), fe(p.z))
  use nonsquare(DD, fe(p.t), fe(p.y))
  ensures fe(r) == fe(p.z)
  ensures (fe(p.x)*old(fe(p.z)) == (fe(p.z)*old(fe(p.x))) && fe(p.y)*old(fe(p.z)) == (fe(p.z)*old(fe(p.y))) && fe(p.t)*old(fe(p.z)) == fe(p.z)*old(fe(p.t)) && fe(p.x)*old(fe(p.t)) == (fe(p.t)*old(fe(p.x)))) || (fe(p.x)*old(fe(p.z)) == -(fe(p.z)*old(fe(p.x))) && fe(p.y)*old(fe(p.z)) == -(fe(p.z)*old(fe(p.y))) && fe(p.t)*old(fe(p.z)) == fe(p.z)*old(fe(p.t)) && fe(p.x)*old(fe(p.t)) == -(fe(p.t)*old(fe(p.x))))
  ensures okT(p)
  modifies *p
  inline
  property P04
func (p *Point_xtw_subgroup) XYZ_projective() (X, Y, Z)
  requires okT(p)
  requires fe(p.z) != 0
  use nonsquare(-5, fe(p.x), fe(p.z))
  use nonsquare(DD, fe(p.t), fe(p.y))
  ensures (fe(X)*old(fe(p.y)) == (fe(Y)*old(fe(p.x))) && fe(X)*old(fe(p.z)) == (fe(Z)*old(fe(p.x))) && fe(Y)*old(fe(p.z)) == (fe(Z)*old(fe(p.y)))) || (fe(X)*old(fe(p.y)) == (fe(Y)*old(fe(p.x))) && fe(X)*old(fe(p.z)) == -(fe(Z)*old(fe(p.x))) && fe(Y)*old(fe(p.z)) == -(fe(Z)*old(fe(p.y))))
  ensures fe(X) != 0 || fe(Y) != 0 || fe(Z) != 0
  ensures okT(p)
  modifies *p
  inline
  property P04
func (p *Point_xtw_subgroup) XYTZ_projective() (X, Y, T, Z)
  requires okT(p)
  requires fe(p.z) != 0
  use nonsquare(-5, fe(p.x), fe(p.z))
  use nonsquare(DD, fe(p.t), fe(p.y))
  ensures (fe(X)*old(fe(p.y)) == (fe(Y)*old(fe(p.x))) && fe(X)*old(fe(p.t)) == (fe(T)*old(fe(p.x))) && fe(X)*old(fe(p.z)) == (fe(Z)*old(fe(p.x))) && fe(Y)*old(fe(p.t)) == (fe(T)*old(fe(p.y))) && fe(Y)*old(fe(p.z)) == (fe(Z)*old(fe(p.y))) && fe(T)*old(fe(p.z)) == (fe(Z)*old(fe(p.t)))) || (fe(X)*old(fe(p.y)) == (fe(Y)*old(fe(p.x))) && fe(X)*old(fe(p.t)) == -(fe(T)*old(fe(p.x))) && fe(X)*old(fe(p.z)) == -(fe(Z)*old(fe(p.x))) && fe(Y)*old(fe(p.t)) == -(fe(T)*old(fe(p.y))) && fe(Y)*old(fe(p.z)) == -(fe(Z)*old(fe(p.y))) && fe(T)*old(fe(p.z)) == (fe(Z)*old(fe(p.t))))
  ensures fe(X) != 0 || fe(Y) != 0
  ensures okT(p)
  modifies *p
  inline
  property P04
func (p *Point_xtw_subgroup) X_affine() (X)
  requires okT(p)
  requires fe(p.z) != 0
  use nonsquare(-5, fe(p.x), fe(p.z))
  use nonsquare(DD, fe(p.t), fe(p.y))
  ensures (fe(X)*old(fe(p.z)) == old(fe(p.x))) || (fe(X)*old(fe(p.z)) == -old(fe(p.x)))
  ensures okT(p)
  modifies *p
  inline
  property P04
func (p *Point_xtw_subgroup) Y_affine() (Y)
  requires okT(p)
  requires fe(p.z) != 0
  use nonsquare(-5, fe(p.x), fe(p.z))
  use nonsquare(DD, fe(p.t), fe(p.y))
  ensures (fe(Y)*old(fe(p.z)) == old(fe(p.y))) || (fe(Y)*old(fe(p.z)) == -old(fe(p.y)))
  ensures okT(p)
  modifies *p
  inline
  property P04
func (p *Point_xtw_subgroup) T_affine() (T)
  requires okT(p)
  requires fe(p.z) != 0
  use nonsquare(-5, fe(p.x), fe(p.z))
  use nonsquare(DD, fe(p.t), fe(p.y))
  ensures (fe(T)*old(fe(p.z)) == old(fe(p.t))) || (fe(T)*old(fe(p.z)) == old(fe(p.t)))
  ensures okT(p)
  modifies *p
  inline
  property P04
func (p *Point_xtw_subgroup) XY_affine() (X, Y)
  requires okT(p)
  requires fe(p.z) != 0
  use nonsquare(-5, fe(p.x), fe(p.z))
  use nonsquare(DD, fe(p.t), fe(p.y))
  ensures (fe(X)*old(fe(p.z)) == old(fe(p.x)) && fe(Y)*old(fe(p.z)) == old(fe(p.y))) || (fe(X)*old(fe(p.z)) == -old(fe(p.x)) && fe(Y)*old(fe(p.z)) == -old(fe(p.y)))
  ensures okT(p)
  modifies *p
  inline
  property P04
func (p *Point_xtw_subgroup) XYT_affine() (X, Y, T)
  requires okT(p)
  requires fe(p.z) != 0
  use nonsquare(-5, fe(p.x), fe(p.z))
  use nonsquare(DD, fe(p.t), fe(p.y))
  ensures (fe(X)*old(fe(p.z)) == old(fe(p.x)) && fe(Y)*old(fe(p.z)) == old(fe(p.y)) && fe(T)*old(fe(p.z)) == old(fe(p.t))) || (fe(X)*old(fe(p.z)) == -old(fe(p.x)) && fe(Y)*old(fe(p.z)) == -old(fe(p.y)) && fe(T)*old(fe(p.z)) == old(fe(p.t)))
  ensures okT(p)
  modifies *p
  inline
  property P04
func (p *Point_axtw_subgroup) X_projective() (r)
  requires okA(p)
  requires 1 != 0
  use nonsquare(-5, fe(p.x), 1)
  ensures fe(r) == fe(p.x)
  ensures (fe(p.x) == old(fe(p.x)) && fe(p.y) == old(fe(p.y)) && fe(p.t) == old(fe(p.t))) || (fe(p.x) == -old(fe(p.x)) && fe(p.y) == -old(fe(p.y)) && fe(p.t) == old(fe(p.t)))
  ensures okA(p)
  modifies *p
  inline
  property P04
func (p *Point_axtw_subgroup) Y_projective() (r)
  requires okA(p)
  requires 1 != 0
  use nonsquare(-5, fe(p.x), 1)
  ensures fe(r) == fe(p.y)
  ensures (fe(p.x) == old(fe(p.x)) && fe(p.y) == old(fe(p.y)) && fe(p.t) == old(fe(p.t))) || (fe(p.x) == -old(fe(p.x)) && fe(p.y) == -old(fe(p.y)) && fe(p.t) == old(fe(p.t)))
  ensures okA(p)
  modifies *p
  inline
  property P04
func (p *Point_axtw_subgroup) T_projective() (r)
  requires okA(p)
  requires 1 != 0
  use nonsquare(-5, fe(p.x), 1)
  ensures fe(r) == fe(p.t)
  ensures (fe(p.x) == old(fe(p.x)) && fe(p.y) == old(fe(p.y)) && fe(p.t) == old(fe(p.t))) || (fe(p.x) == -old(fe(p.x)) && fe(p.y) == -old(fe(p.y)) && fe(p.t) == old(fe(p.t)))
  ensures okA(p)
  modifies *p
  inline
  property P04
func (p *Point_axtw_subgroup) XYZ_projective() (X, Y, Z)
  requires okA(p)
  requires 1 != 0
  use nonsquare(-5, fe(p.x), 1)
  ensures (fe(X)*old(fe(p.y)) == (fe(Y)*old(fe(p.x))) && fe(X)*old(1) == (fe(Z)*old(fe(p.x))) && fe(Y)*old(1) == (fe(Z)*old(fe(p.y)))) || (fe(X)*old(fe(p.y)) == (fe(Y)*old(fe(p.x))) && fe(X)*old(1) == -(fe(Z)*old(fe(p.x))) && fe(Y)*old(1) == -(fe(Z)*old(fe(p.y))))
  ensures fe(X) != 0 || fe(Y) != 0 || fe(Z) != 0
  ensures okA(p)
  modifies *p
  inline
  property P04
func (p *Point_axtw_subgroup) XYTZ_projective() (X, Y, T, Z)
  requires okA(p)
  requires 1 != 0
  use nonsquare(-5, fe(p.x), 1)
  ensures (fe(X)*old(fe(p.y)) == (fe(Y)*old(fe(p.x))) && fe(X)*old(fe(p.t)) == (fe(T)*old(fe(p.x))) && fe(X)*old(1) == (fe(Z)*old(fe(p.x))) && fe(Y)*old(fe(p.t)) == (fe(T)*old(fe(p.y))) && fe(Y)*old(1) == (fe(Z)*old(fe(p.y))) && fe(T)*old(1) == (fe(Z)*old(fe(p.t)))) || (fe(X)*old(fe(p.y)) == (fe(Y)*old(fe(p.x))) && fe(X)*old(fe(p.t)) == -(fe(T)*old(fe(p.x))) && fe(X)*old(1) == -(fe(Z)*old(fe(p.x))) && fe(Y)*old(fe(p.t)) == -(fe(T)*old(fe(p.y))) && fe(Y)*old(1) == -(fe(Z)*old(fe(p.y))) && fe(T)*old(1) == (fe(Z)*old(fe(p.t))))
  ensures fe(X) != 0 || fe(Y) != 0
  ensures okA(p)
  modifies *p
  inline
  property P04
func (p *Point_axtw_subgroup) X_affine() (X)
  requires okA(p)
  requires 1 != 0
  use nonsquare(-5, fe(p.x), 1)
  ensures (fe(X)*old(1) == old(fe(p.x))) || (fe(X)*old(1) == -old(fe(p.x)))
  ensures okA(p)
  modifies *p
  inline
  property P04
func (p *Point_axtw_subgroup) Y_affine() (Y)
  requires okA(p)
  requires 1 != 0
  use nonsquare(-5, fe(p.x), 1)
  ensures (fe(Y)*old(1) == old(fe(p.y))) || (fe(Y)*old(1) == -old(fe(p.y)))
  ensures okA(p)
  modifies *p
  inline
  property P04
func (p *Point_axtw_subgroup) T_affine() (T)
  requires okA(p)
  requires 1 != 0
  use nonsquare(-5, fe(p.x), 1)
  ensures (fe(T)*old(1) == old(fe(p.t))) || (fe(T)*old(1) == old(fe(p.t)))
  ensures okA(p)
  modifies *p
  inline
  property P04
func (p *Point_axtw_subgroup) XY_affine() (X, Y)
  requires okA(p)
  requires 1 != 0
  use nonsquare(-5, fe(p.x), 1)
  ensures (fe(X)*old(1) == old(fe(p.x)) && fe(Y)*old(1) == old(fe(p.y))) || (fe(X)*old(1) == -old(fe(p.x)) && fe(Y)*old(1) == -old(fe(p.y)))
  ensures okA(p)
  modifies *p
  inline
  property P04
func (p *Point_axtw_subgroup) XYT_affine() (X, Y, T)
  requires okA(p)
  requires 1 != 0
  use nonsquare(-5, fe(p.x), 1)
  ensures (fe(X)*old(1) == old(fe(p.x)) && fe(Y)*old(1) == old(fe(p.y)) && fe(T)*old(1) == old(fe(p.t))) || (fe(X)*old(1) == -old(fe(p.x)) && fe(Y)*old(1) == -old(fe(p.y)) && fe(T)*old(1) == old(fe(p.t)))
  ensures okA(p)
  modifies *p
  inline
  property P04
func (p *Point_efgh_subgroup) X_projective() (r)
  requires okS(p)
  requires zS(p) != 0
  use nonsquare(DD, fe(p.e), fe(p.g))
  use nonsquare(-5, fe(p.e), fe(p.g))
  ensures fe(r) == xS(p)
  ensures (fe(p.e)*old(fe(p.g)) == (fe(p.g)*old(fe(p.e))) && fe(p.h)*old(fe(p.f)) == (fe(p.f)*old(fe(p.h)))) || (fe(p.e)*old(fe(p.g)) == -(fe(p.g)*old(fe(p.e))) && fe(p.h)*old(fe(p.f)) == -(fe(p.f)*old(fe(p.h))))
  ensures okS(p)
  modifies *p
  inline
  property P04
func (p *Point_efgh_subgroup) Y_projective() (r)
  requires okS(p)
  requires zS(p) != 0
  use nonsquare(DD, fe(p.e), fe(p.g))
  use nonsquare(-5, fe(p.e), fe(p.g))
  ensures fe(r) == yS(p)
  ensures (fe(p.e)*old(fe(p.g)) == (fe(p.g)*old(fe(p.e))) && fe(p.h)*old(fe(p.f)) == (fe(p.f)*old(fe(p.h)))) || (fe(p.e)*old(fe(p.g)) == -(fe(p.g)*old(fe(p.e))) && fe(p.h)*old(fe(p.f)) == -(fe(p.f)*old(fe(p.h))))
  ensures okS(p)
  modifies *p
  inline
  property P04
func (p *Point_efgh_subgroup) T_projective() (r)
  requires okS(p)
  requires zS(p) != 0
  use nonsquare(DD, fe(p.e), fe(p.g))
  use nonsquare(-5, fe(p.e), fe(p.g))
  ensures fe(r) == tS(p)
  ensures (fe(p.e)*old(fe(p.g)) == (fe(p.g)*old(fe(p.e))) && fe(p.h)*old(fe(p.f)) == (fe(p.f)*old(fe(p.h)))) || (fe(p.e)*old(fe(p.g)) == -(fe(p.g)*old(fe(p.e))) && fe(p.h)*old(fe(p.f)) == -(fe(p.f)*old(fe(p.h))))
  ensures okS(p)
  modifies *p
  inline
  property P04
func (p *Point_efgh_subgroup) Z_projective() (r)
  requires okS(p)
  requires zS(p) != 0
  use nonsquare(DD, fe(p.e), fe(p.g))
  use nonsquare(-5, fe(p.e), fe(p.g))
  ensures fe(r) == zS(p)
  ensures (fe(p.e)*old(fe(p.g)) == (fe(p.g)*old(fe(p.e))) && fe(p.h)*old(fe(p.f)) == (fe(p.f)*old(fe(p.h)))) || (fe(p.e)*old(fe(p.g)) == -(fe(p.g)*old(fe(p.e))) && fe(p.h)*old(fe(p.f)) == -(fe(p.f)*old(fe(p.h))))
  ensures okS(p)
  modifies *p
  inline
  property P04
func (p *Point_efgh_subgroup) XYZ_projective() (X, Y, Z)
  requires okS(p)
  requires zS(p) != 0
  use nonsquare(DD, fe(p.e), fe(p.g))
  use nonsquare(-5, fe(p.e), fe(p.g))
  ensures (fe(X)*old(yS(p)) == (fe(Y)*old(xS(p))) && fe(X)*old(zS(p)) == (fe(Z)*old(xS(p))) && fe(Y)*old(zS(p)) == (fe(Z)*old(yS(p)))) || (fe(X)*old(yS(p)) == (fe(Y)*old(xS(p))) && fe(X)*old(zS(p)) == -(fe(Z)*old(xS(p))) && fe(Y)*old(zS(p)) == -(fe(Z)*old(yS(p))))
  ensures fe(X) != 0 || fe(Y) != 0 || fe(Z) != 0
  ensures okS(p)
  modifies *p
  inline
  property P04
func (p *Point_efgh_subgroup) XYTZ_projective() (X, Y, T, Z)
  requires okS(p)
  requires zS(p) != 0
  use nonsquare(DD, fe(p.e), fe(p.g))
  use nonsquare(-5, fe(p.e), fe(p.g))
  ensures (fe(X)*old(yS(p)) == (fe(Y)*old(xS(p))) && fe(X)*old(tS(p)) == (fe(T)*old(xS(p))) && fe(X)*old(zS(p)) == (fe(Z)*old(xS(p))) && fe(Y)*old(tS(p)) == (fe(T)*old(yS(p))) && fe(Y)*old(zS(p)) == (fe(Z)*old(yS(p))) && fe(T)*old(zS(p)) == (fe(Z)*old(tS(p)))) || (fe(X)*old(yS(p)) == (fe(Y)*old(xS(p))) && fe(X)*old(tS(p)) == -(fe(T)*old(xS(p))) && fe(X)*old(zS(p)) == -(fe(Z)*old(xS(p))) && fe(Y)*old(tS(p)) == -(fe(T)*old(yS(p))) && fe(Y)*old(zS(p)) == -(fe(Z)*old(yS(p))) && fe(T)*old(zS(p)) == (fe(Z)*old(tS(p))))
  ensures fe(X) != 0 || fe(Y) != 0
  ensures okS(p)
  modifies *p
  inline
  property P04
func (p *Point_efgh_subgroup) X_affine() (X)
  requires okS(p)
  requires zS(p) != 0
  use nonsquare(DD, fe(p.e), fe(p.g))
  use nonsquare(-5, fe(p.e), fe(p.g))
  ensures (fe(X)*old(zS(p)) == old(xS(p))) || (fe(X)*old(zS(p)) == -old(xS(p)))
  ensures okS(p)
  modifies *p
  inline
  property P04
func (p *Point_efgh_subgroup) Y_affine() (Y)
  requires okS(p)
  requires zS(p) != 0
  use nonsquare(DD, fe(p.e), fe(p.g))
  use nonsquare(-5, fe(p.e), fe(p.g))
  ensures (fe(Y)*old(zS(p)) == old(yS(p))) || (fe(Y)*old(zS(p)) == -old(yS(p)))
  ensures okS(p)
  modifies *p
  inline
  property P04
func (p *Point_efgh_subgroup) T_affine() (T)
  requires okS(p)
  requires zS(p) != 0
  use nonsquare(DD, fe(p.e), fe(p.g))
  use nonsquare(-5, fe(p.e), fe(p.g))
  ensures (fe(T)*old(zS(p)) == old(tS(p))) || (fe(T)*old(zS(p)) == old(tS(p)))
  ensures okS(p)
  modifies *p
  inline
  property P04
func (p *Point_efgh_subgroup) XY_affine() (X, Y)
  requires okS(p)
  requires zS(p) != 0
  use nonsquare(DD, fe(p.e), fe(p.g))
  use nonsquare(-5, fe(p.e), fe(p.g))
  ensures (fe(X)*old(zS(p)) == old(xS(p)) && fe(Y)*old(zS(p)) == old(yS(p))) || (fe(X)*old(zS(p)) == -old(xS(p)) && fe(Y)*old(zS(p)) == -old(yS(p)))
  ensures okS(p)
  modifies *p
  inline
  property P04
func (p *Point_efgh_subgroup) XYT_affine() (X, Y, T)
  requires okS(p)
  requires zS(p) != 0
  use nonsquare(DD, fe(p.e), fe(p.g))
  use nonsquare(-5, fe(p.e), fe(p.g))
  ensures (fe(X)*old(zS(p)) == old(xS(p)) && fe(Y)*old(zS(p)) == old(yS(p)) && fe(T)*old(zS(p)) == old(tS(p))) || (fe(X)*old(zS(p)) == -old(xS(p)) && fe(Y)*old(zS(p)) == -old(yS(p)) && fe(T)*old(zS(p)) == old(tS(p)))
  ensures okS(p)
  modifies *p
  inline
  property P04
func (p *point_xtw_base) X_decaf_projective() (r)
  requires okT(p)
  use nonsquare(-5, fe(p.x), fe(p.z))
  use nonsquare(DD, fe(p.t), fe(p.y))
  ensures fe(r) == fe(p.x)
  ensures fe(p.x)*old(fe(p.z)) == (fe(p.z)*old(fe(p.x))) && fe(p.y)*old(fe(p.z)) == (fe(p.z)*old(fe(p.y))) && fe(p.t)*old(fe(p.z)) == fe(p.z)*old(fe(p.t)) && fe(p.x)*old(fe(p.t)) == (fe(p.t)*old(fe(p.x)))
  ensures okT(p)
  modifies *p
  inline
  property P04
func (p *point_xtw_base) Y_decaf_projective() (r)
  requires okT(p)
  use nonsquare(-5, fe(p.x), fe(p.z))
  use nonsquare(DD, fe(p.t), fe(p.y))
  ensures fe(r) == fe(p.y)
  ensures fe(p.x)*old(fe(p.z)) == (fe(p.z)*old(fe(p.x))) && fe(p.y)*old(fe(p.z)) == (fe(p.z)*old(fe(p.y))) && fe(p.t)*old(fe(p.z)) == fe(p.z)*old(fe(p.t)) && fe(p.x)*old(fe(p.t)) == (fe(p.t)*old(fe(p.x)))
  ensures okT(p)
  modifies *p
  inline
  property P04
func (p *point_xtw_base) T_decaf_projective() (r)
  requires okT(p)
  use nonsquare(-5, fe(p.x), fe(p.z))
  use nonsquare(DD, fe(p.t), fe(p.y))
  ensures fe(r) == fe(p.t)
  ensures fe(p.x)*old(fe(p.z)) == (fe(p.z)*old(fe(p.x))) && fe(p.y)*old(fe(p.z)) == (fe(p.z)*old(fe(p.y))) && fe(p.t)*old(fe(p.z)) == fe(p.z)*old(fe(p.t)) && fe(p.x)*old(fe(p.t)) == (fe(p.t)*old(fe(p.x)))
  ensures okT(p)
  modifies *p
  inline
  property P04
func (p *point_xtw_base) Z_decaf_projective() (r)
  requires okT(p)
  use nonsquare(-5, fe(p.x), fe(p.z))
  use nonsquare(DD, fe(p.t), fe(p.y))
  ensures fe(r) == fe(p.z)
  ensures fe(p.x)*old(fe(p.z)) == (fe(p.z)*old(fe(p.x))) && fe(p.y)*old(fe(p.z)) == (fe(p.z)*old(fe(p.y))) && fe(p.t)*old(fe(p.z)) == fe(p.z)*old(fe(p.t)) && fe(p.x)*old(fe(p.t)) == (fe(p.t)*old(fe(p.x)))
  ensures okT(p)
  modifies *p
  inline
  property P04
func (p *point_xtw_base) X_decaf_affine() (r)
  requires okT(p)
  requires fe(p.z) != 0
  use nonsquare(-5, fe(p.x), fe(p.z))
  use nonsquare(DD, fe(p.t), fe(p.y))
  ensures fe(r)*old(fe(p.z)) == old(fe(p.x))
  ensures fe(p.x)*old(fe(p.z)) == (fe(p.z)*old(fe(p.x))) && fe(p.y)*old(fe(p.z)) == (fe(p.z)*old(fe(p.y))) && fe(p.t)*old(fe(p.z)) == fe(p.z)*old(fe(p.t)) && fe(p.x)*old(fe(p.t)) == (fe(p.t)*old(fe(p.x)))
  ensures okT(p)
  modifies *p
  inline
  property P04
func (p *point_xtw_base) Y_decaf_affine() (r)
  requires okT(p)
  requires fe(p.z) != 0
  use nonsquare(-5, fe(p.x), fe(p.z))
  use nonsquare(DD, fe(p.t), fe(p.y))
  ensures fe(r)*old(fe(p.z)) == old(fe(p.y))
  ensures fe(p.x)*old(fe(p.z)) == (fe(p.z)*old(fe(p.x))) && fe(p.y)*old(fe(p.z)) == (fe(p.z)*old(fe(p.y))) && fe(p.t)*old(fe(p.z)) == fe(p.z)*old(fe(p.t)) && fe(p.x)*old(fe(p.t)) == (fe(p.t)*old(fe(p.x)))
  ensures okT(p)
  modifies *p
  inline
  property P04
func (p *point_xtw_base) T_decaf_affine() (r)
  requires okT(p)
  requires fe(p.z) != 0
  use nonsquare(-5, fe(p.x), fe(p.z))
  use nonsquare(DD, fe(p.t), fe(p.y))
  ensures fe(r)*old(fe(p.z)) == old(fe(p.t))
  ensures fe(p.x)*old(fe(p.z)) == (fe(p.z)*old(fe(p.x))) && fe(p.y)*old(fe(p.z)) == (fe(p.z)*old(fe(p.y))) && fe(p.t)*old(fe(p.z)) == fe(p.z)*old(fe(p.t)) && fe(p.x)*old(fe(p.t)) == (fe(p.t)*old(fe(p.x)))
  ensures okT(p)
  modifies *p
  inline
  property P04
func (p *point_axtw_base) X_decaf_projective() (r)
  requires okA(p)
  use nonsquare(-5, fe(p.x), 1)
  ensures fe(r) == fe(p.x)
  ensures fe(p.x) == old(fe(p.x)) && fe(p.y) == old(fe(p.y)) && fe(p.t) == old(fe(p.t))
  ensures okA(p)
  modifies *p
  inline
  property P04
func (p *point_axtw_base) Y_decaf_projective() (r)
  requires okA(p)
  use nonsquare(-5, fe(p.x), 1)
  ensures fe(r) == fe(p.y)
  ensures fe(p.x) == old(fe(p.x)) && fe(p.y) == old(fe(p.y)) && fe(p.t) == old(fe(p.t))
  ensures okA(p)
  modifies *p
  inline
  property P04
func (p *point_axtw_base) T_decaf_projective() (r)
  requires okA(p)
  use nonsquare(-5, fe(p.x), 1)
  ensures fe(r) == fe(p.t)
  ensures fe(p.x) == old(fe(p.x)) && fe(p.y) == old(fe(p.y)) && fe(p.t) == old(fe(p.t))
  ensures okA(p)
  modifies *p
  inline
  property P04
func (p *point_axtw_base) Z_decaf_projective() (r)
  requires okA(p)
  use nonsquare(-5, fe(p.x), 1)
  ensures fe(r) == 1
  ensures fe(p.x) == old(fe(p.x)) && fe(p.y) == old(fe(p.y)) && fe(p.t) == old(fe(p.t))
  ensures okA(p)
  modifies *p
  inline
  property P04
func (p *point_axtw_base) X_decaf_affine() (r)
  requires okA(p)
  requires 1 != 0
  use nonsquare(-5, fe(p.x), 1)
  ensures fe(r)*old(1) == old(fe(p.x))
  ensures fe(p.x) == old(fe(p.x)) && fe(p.y) == old(fe(p.y)) && fe(p.t) == old(fe(p.t))
  ensures okA(p)
  modifies *p
  inline
  property P04
func (p *point_axtw_base) Y_decaf_affine() (r)
  requires okA(p)
  requires 1 != 0
  use nonsquare(-5, fe(p.x), 1)
  ensures fe(r)*old(1) == old(fe(p.y))
  ensures fe(p.x) == old(fe(p.x)) && fe(p.y) == old(fe(p.y)) && fe(p.t) == old(fe(p.t))
  ensures okA(p)
  modifies *p
  inline
  property P04
func (p *point_axtw_base) T_decaf_affine() (r)
  requires okA(p)
  requires 1 != 0
  use nonsquare(-5, fe(p.x), 1)
  ensures fe(r)*old(1) == old(fe(p.t))
  ensures fe(p.x) == old(fe(p.x)) && fe(p.y) == old(fe(p.y)) && fe(p.t) == old(fe(p.t))
  ensures okA(p)
  modifies *p
  inline
  property P04
func (p *point_efgh_base) X_decaf_projective() (r)
  requires okS(p)
  use nonsquare(DD, fe(p.e), fe(p.g))
  use nonsquare(-5, fe(p.e), fe(p.g))
  ensures fe(r) == xS(p)
  ensures fe(p.e)*old(fe(p.g)) == (fe(p.g)*old(fe(p.e))) && fe(p.h)*old(fe(p.f)) == (fe(p.f)*old(fe(p.h)))
  ensures okS(p)
  modifies *p
  inline
  property P04
func (p *point_efgh_base) Y_decaf_projective() (r)
  requires okS(p)
  use nonsquare(DD, fe(p.e), fe(p.g))
  use nonsquare(-5, fe(p.e), fe(p.g))
  ensures fe(r) == yS(p)
  ensures fe(p.e)*old(fe(p.g)) == (fe(p.g)*old(fe(p.e))) && fe(p.h)*old(fe(p.f)) == (fe(p.f)*old(fe(p.h)))
  ensures okS(p)
  modifies *p
  inline
  property P04
func (p *point_efgh_base) T_decaf_projective() (r)
  requires okS(p)
  use nonsquare(DD, fe(p.e), fe(p.g))
  use nonsquare(-5, fe(p.e), fe(p.g))
  ensures fe(r) == tS(p)
  ensures fe(p.e)*old(fe(p.g)) == (fe(p.g)*old(fe(p.e))) && fe(p.h)*old(fe(p.f)) == (fe(p.f)*old(fe(p.h)))
  ensures okS(p)
  modifies *p
  inline
  property P04
func (p *point_efgh_base) Z_decaf_projective() (r)
  requires okS(p)
  use nonsquare(DD, fe(p.e), fe(p.g))
  use nonsquare(-5, fe(p.e), fe(p.g))
  ensures fe(r) == zS(p)
  ensures fe(p.e)*old(fe(p.g)) == (fe(p.g)*old(fe(p.e))) && fe(p.h)*old(fe(p.f)) == (fe(p.f)*old(fe(p.h)))
  ensures okS(p)
  modifies *p
  inline
  property P04
func (p *point_efgh_base) X_decaf_affine() (r)
  requires okS(p)
  requires zS(p) != 0
  use nonsquare(DD, fe(p.e), fe(p.g))
  use nonsquare(-5, fe(p.e), fe(p.g))
  ensures fe(r)*old(zS(p)) == old(xS(p))
  ensures fe(p.e)*old(fe(p.g)) == (fe(p.g)*old(fe(p.e))) && fe(p.h)*old(fe(p.f)) == (fe(p.f)*old(fe(p.h)))
  ensures okS(p)
  modifies *p
  inline
  property P04
func (p *point_efgh_base) Y_decaf_affine() (r)
  requires okS(p)
  requires zS(p) != 0
  use nonsquare(DD, fe(p.e), fe(p.g))
  use nonsquare(-5, fe(p.e), fe(p.g))
  ensures fe(r)*old(zS(p)) == old(yS(p))
  ensures fe(p.e)*old(fe(p.g)) == (fe(p.g)*old(fe(p.e))) && fe(p.h)*old(fe(p.f)) == (fe(p.f)*old(fe(p.h)))
  ensures okS(p)
  modifies *p
  inline
  property P04
func (p *point_efgh_base) T_decaf_affine() (r)
  requires okS(p)
  requires zS(p) != 0
  use nonsquare(DD, fe(p.e), fe(p.g))
  use nonsquare(-5, fe(p.e), fe(p.g))
  ensures fe(r)*old(zS(p)) == old(tS(p))
  ensures fe(p.e)*old(fe(p.g)) == (fe(p.g)*old(fe(p.e))) && fe(p.h)*old(fe(p.f)) == (fe(p.f)*old(fe(p.h)))
  ensures okS(p)
  modifies *p
  inline
  property P04
