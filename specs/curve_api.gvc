package bandersnatch/curvePoints
layer default 2
pred projX(p, X, Y, T, Z) = xS(p)*Y == yS(p)*X && xS(p)*T == tS(p)*X && xS(p)*Z == zS(p)*X && yS(p)*T == tS(p)*Y && yS(p)*Z == zS(p)*Y && tS(p)*Z == zS(p)*T

// ---- the operations of the exported types, per combination of argument types
func (p *Point_efgh_full) Add(x, y)
  instance x *Point_xtw_full
  instance y *Point_xtw_full
  requires okT(x) && okT(y)
  use nonsquare(-5, fe(x.x), fe(x.z))
  use nonsquare(DD, fe(x.t), fe(x.y))
  use nonsquare(-5, fe(y.x), fe(y.z))
  use nonsquare(DD, fe(y.t), fe(y.y))
  ensures sumS(p, old(fe(x.x)*fe(y.y) + fe(x.y)*fe(y.x)), old(fe(x.z)*fe(y.z) - DD*fe(x.t)*fe(y.t)), old(fe(x.z)*fe(y.z) + DD*fe(x.t)*fe(y.t)), old(fe(x.y)*fe(y.y) + 5*fe(x.x)*fe(y.x)))
  ensures sumS(p, old(fe(x.t)*fe(y.z) + fe(x.z)*fe(y.t)), old(fe(x.y)*fe(y.x) - fe(x.x)*fe(y.y)), old(fe(x.y)*fe(y.y) - 5*fe(x.x)*fe(y.x)), old(fe(x.z)*fe(y.t) - fe(x.t)*fe(y.z)))
  ensures okS(p)
  modifies *p
  property P01
func (p *Point_efgh_full) Add(x, y)
  instance x *Point_xtw_full
  instance y *Point_axtw_full
  requires okT(x) && okA(y)
  use nonsquare(-5, fe(x.x), fe(x.z))
  use nonsquare(DD, fe(x.t), fe(x.y))
  use nonsquare(-5, fe(y.x), 1)
  ensures sumS(p, old(fe(x.x)*fe(y.y) + fe(x.y)*fe(y.x)), old(fe(x.z)*1 - DD*fe(x.t)*fe(y.t)), old(fe(x.z)*1 + DD*fe(x.t)*fe(y.t)), old(fe(x.y)*fe(y.y) + 5*fe(x.x)*fe(y.x)))
  ensures sumS(p, old(fe(x.t)*1 + fe(x.z)*fe(y.t)), old(fe(x.y)*fe(y.x) - fe(x.x)*fe(y.y)), old(fe(x.y)*fe(y.y) - 5*fe(x.x)*fe(y.x)), old(fe(x.z)*fe(y.t) - fe(x.t)*1))
  ensures okS(p)
  modifies *p
  property P01
func (p *Point_efgh_full) Add(x, y)
  instance x *Point_xtw_full
  instance y *Point_efgh_full
  requires okT(x) && okS(y)
  use nonsquare(-5, fe(x.x), fe(x.z))
  use nonsquare(DD, fe(x.t), fe(x.y))
  use nonsquare(DD, fe(y.e), fe(y.g))
  use nonsquare(-5, fe(y.e), fe(y.g))
  ensures sumS(p, old(fe(x.x)*yS(y) + fe(x.y)*xS(y)), old(fe(x.z)*zS(y) - DD*fe(x.t)*tS(y)), old(fe(x.z)*zS(y) + DD*fe(x.t)*tS(y)), old(fe(x.y)*yS(y) + 5*fe(x.x)*xS(y)))
  ensures sumS(p, old(fe(x.t)*zS(y) + fe(x.z)*tS(y)), old(fe(x.y)*xS(y) - fe(x.x)*yS(y)), old(fe(x.y)*yS(y) - 5*fe(x.x)*xS(y)), old(fe(x.z)*tS(y) - fe(x.t)*zS(y)))
  ensures okS(p)
  modifies *p
  property P01
func (p *Point_efgh_full) Add(x, y)
  instance x *Point_axtw_full
  instance y *Point_xtw_full
  requires okA(x) && okT(y)
  use nonsquare(-5, fe(x.x), 1)
  use nonsquare(-5, fe(y.x), fe(y.z))
  use nonsquare(DD, fe(y.t), fe(y.y))
  ensures sumS(p, old(fe(x.x)*fe(y.y) + fe(x.y)*fe(y.x)), old(1*fe(y.z) - DD*fe(x.t)*fe(y.t)), old(1*fe(y.z) + DD*fe(x.t)*fe(y.t)), old(fe(x.y)*fe(y.y) + 5*fe(x.x)*fe(y.x)))
  ensures sumS(p, old(fe(x.t)*fe(y.z) + 1*fe(y.t)), old(fe(x.y)*fe(y.x) - fe(x.x)*fe(y.y)), old(fe(x.y)*fe(y.y) - 5*fe(x.x)*fe(y.x)), old(1*fe(y.t) - fe(x.t)*fe(y.z)))
  ensures okS(p)
  modifies *p
  property P01
func (p *Point_efgh_full) Add(x, y)
  instance x *Point_axtw_full
  instance y *Point_axtw_full
  requires okA(x) && okA(y)
  use nonsquare(-5, fe(x.x), 1)
  use nonsquare(-5, fe(y.x), 1)
  ensures sumS(p, old(fe(x.x)*fe(y.y) + fe(x.y)*fe(y.x)), old(1*1 - DD*fe(x.t)*fe(y.t)), old(1*1 + DD*fe(x.t)*fe(y.t)), old(fe(x.y)*fe(y.y) + 5*fe(x.x)*fe(y.x)))
  ensures sumS(p, old(fe(x.t)*1 + 1*fe(y.t)), old(fe(x.y)*fe(y.x) - fe(x.x)*fe(y.y)), old(fe(x.y)*fe(y.y) - 5*fe(x.x)*fe(y.x)), old(1*fe(y.t) - fe(x.t)*1))
  ensures okS(p)
  modifies *p
  property P01
func (p *Point_efgh_full) Add(x, y)
  instance x *Point_axtw_full
  instance y *Point_efgh_full
  requires okA(x) && okS(y)
  use nonsquare(-5, fe(x.x), 1)
  use nonsquare(DD, fe(y.e), fe(y.g))
  use nonsquare(-5, fe(y.e), fe(y.g))
  ensures sumS(p, old(fe(x.x)*yS(y) + fe(x.y)*xS(y)), old(1*zS(y) - DD*fe(x.t)*tS(y)), old(1*zS(y) + DD*fe(x.t)*tS(y)), old(fe(x.y)*yS(y) + 5*fe(x.x)*xS(y)))
  ensures sumS(p, old(fe(x.t)*zS(y) + 1*tS(y)), old(fe(x.y)*xS(y) - fe(x.x)*yS(y)), old(fe(x.y)*yS(y) - 5*fe(x.x)*xS(y)), old(1*tS(y) - fe(x.t)*zS(y)))
  ensures okS(p)
  modifies *p
  property P01
func (p *Point_efgh_full) Add(x, y)
  instance x *Point_efgh_full
  instance y *Point_xtw_full
  requires okS(x) && okT(y)
  use nonsquare(DD, fe(x.e), fe(x.g))
  use nonsquare(-5, fe(x.e), fe(x.g))
  use nonsquare(-5, fe(y.x), fe(y.z))
  use nonsquare(DD, fe(y.t), fe(y.y))
  ensures sumS(p, old(xS(x)*fe(y.y) + yS(x)*fe(y.x)), old(zS(x)*fe(y.z) - DD*tS(x)*fe(y.t)), old(zS(x)*fe(y.z) + DD*tS(x)*fe(y.t)), old(yS(x)*fe(y.y) + 5*xS(x)*fe(y.x)))
  ensures sumS(p, old(tS(x)*fe(y.z) + zS(x)*fe(y.t)), old(yS(x)*fe(y.x) - xS(x)*fe(y.y)), old(yS(x)*fe(y.y) - 5*xS(x)*fe(y.x)), old(zS(x)*fe(y.t) - tS(x)*fe(y.z)))
  ensures okS(p)
  modifies *p
  property P01
func (p *Point_efgh_full) Add(x, y)
  instance x *Point_efgh_full
  instance y *Point_axtw_full
  requires okS(x) && okA(y)
  use nonsquare(DD, fe(x.e), fe(x.g))
  use nonsquare(-5, fe(x.e), fe(x.g))
  use nonsquare(-5, fe(y.x), 1)
  ensures sumS(p, old(xS(x)*fe(y.y) + yS(x)*fe(y.x)), old(zS(x)*1 - DD*tS(x)*fe(y.t)), old(zS(x)*1 + DD*tS(x)*fe(y.t)), old(yS(x)*fe(y.y) + 5*xS(x)*fe(y.x)))
  ensures sumS(p, old(tS(x)*1 + zS(x)*fe(y.t)), old(yS(x)*fe(y.x) - xS(x)*fe(y.y)), old(yS(x)*fe(y.y) - 5*xS(x)*fe(y.x)), old(zS(x)*fe(y.t) - tS(x)*1))
  ensures okS(p)
  modifies *p
  property P01
func (p *Point_efgh_full) Add(x, y)
  instance x *Point_efgh_full
  instance y *Point_efgh_full
  requires okS(x) && okS(y)
  use nonsquare(DD, fe(x.e), fe(x.g))
  use nonsquare(-5, fe(x.e), fe(x.g))
  use nonsquare(DD, fe(y.e), fe(y.g))
  use nonsquare(-5, fe(y.e), fe(y.g))
  ensures sumS(p, old(xS(x)*yS(y) + yS(x)*xS(y)), old(zS(x)*zS(y) - DD*tS(x)*tS(y)), old(zS(x)*zS(y) + DD*tS(x)*tS(y)), old(yS(x)*yS(y) + 5*xS(x)*xS(y)))
  ensures sumS(p, old(tS(x)*zS(y) + zS(x)*tS(y)), old(yS(x)*xS(y) - xS(x)*yS(y)), old(yS(x)*yS(y) - 5*xS(x)*xS(y)), old(zS(x)*tS(y) - tS(x)*zS(y)))
  ensures okS(p)
  modifies *p
  property P01
func (p *Point_efgh_full) Sub(x, y)
  instance x *Point_xtw_full
  instance y *Point_xtw_full
  requires okT(x) && okT(y)
  use nonsquare(-5, fe(x.x), fe(x.z))
  use nonsquare(DD, fe(x.t), fe(x.y))
  use nonsquare(-5, fe(y.x), fe(y.z))
  use nonsquare(DD, fe(y.t), fe(y.y))
  ensures sumS(p, old(fe(x.x)*fe(y.y) - fe(x.y)*fe(y.x)), old(fe(x.z)*fe(y.z) + DD*fe(x.t)*fe(y.t)), old(fe(x.z)*fe(y.z) - DD*fe(x.t)*fe(y.t)), old(fe(x.y)*fe(y.y) - 5*fe(x.x)*fe(y.x)))
  ensures sumS(p, old(fe(x.t)*fe(y.z) - fe(x.z)*fe(y.t)), old(-(fe(x.y)*fe(y.x)) - fe(x.x)*fe(y.y)), old(fe(x.y)*fe(y.y) + 5*fe(x.x)*fe(y.x)), old(-(fe(x.z)*fe(y.t)) - fe(x.t)*fe(y.z)))
  ensures okS(p)
  modifies *p
  property P01
func (p *Point_efgh_full) Sub(x, y)
  instance x *Point_xtw_full
  instance y *Point_axtw_full
  requires okT(x) && okA(y)
  use nonsquare(-5, fe(x.x), fe(x.z))
  use nonsquare(DD, fe(x.t), fe(x.y))
  use nonsquare(-5, fe(y.x), 1)
  ensures sumS(p, old(fe(x.x)*fe(y.y) - fe(x.y)*fe(y.x)), old(fe(x.z)*1 + DD*fe(x.t)*fe(y.t)), old(fe(x.z)*1 - DD*fe(x.t)*fe(y.t)), old(fe(x.y)*fe(y.y) - 5*fe(x.x)*fe(y.x)))
  ensures sumS(p, old(fe(x.t)*1 - fe(x.z)*fe(y.t)), old(-(fe(x.y)*fe(y.x)) - fe(x.x)*fe(y.y)), old(fe(x.y)*fe(y.y) + 5*fe(x.x)*fe(y.x)), old(-(fe(x.z)*fe(y.t)) - fe(x.t)*1))
  ensures okS(p)
  modifies *p
  property P01
func (p *Point_efgh_full) Sub(x, y)
  instance x *Point_xtw_full
  instance y *Point_efgh_full
  requires okT(x) && okS(y)
  use nonsquare(-5, fe(x.x), fe(x.z))
  use nonsquare(DD, fe(x.t), fe(x.y))
  use nonsquare(DD, fe(y.e), fe(y.g))
  use nonsquare(-5, fe(y.e), fe(y.g))
  ensures sumS(p, old(fe(x.x)*yS(y) - fe(x.y)*xS(y)), old(fe(x.z)*zS(y) + DD*fe(x.t)*tS(y)), old(fe(x.z)*zS(y) - DD*fe(x.t)*tS(y)), old(fe(x.y)*yS(y) - 5*fe(x.x)*xS(y)))
  ensures sumS(p, old(fe(x.t)*zS(y) - fe(x.z)*tS(y)), old(-(fe(x.y)*xS(y)) - fe(x.x)*yS(y)), old(fe(x.y)*yS(y) + 5*fe(x.x)*xS(y)), old(-(fe(x.z)*tS(y)) - fe(x.t)*zS(y)))
  ensures okS(p)
  modifies *p
  property P01
func (p *Point_efgh_full) Sub(x, y)
  instance x *Point_axtw_full
  instance y *Point_xtw_full
  requires okA(x) && okT(y)
  use nonsquare(-5, fe(x.x), 1)
  use nonsquare(-5, fe(y.x), fe(y.z))
  use nonsquare(DD, fe(y.t), fe(y.y))
  ensures sumS(p, old(fe(x.x)*fe(y.y) - fe(x.y)*fe(y.x)), old(1*fe(y.z) + DD*fe(x.t)*fe(y.t)), old(1*fe(y.z) - DD*fe(x.t)*fe(y.t)), old(fe(x.y)*fe(y.y) - 5*fe(x.x)*fe(y.x)))
  ensures sumS(p, old(fe(x.t)*fe(y.z) - 1*fe(y.t)), old(-(fe(x.y)*fe(y.x)) - fe(x.x)*fe(y.y)), old(fe(x.y)*fe(y.y) + 5*fe(x.x)*fe(y.x)), old(-(1*fe(y.t)) - fe(x.t)*fe(y.z)))
  ensures okS(p)
  modifies *p
  property P01
func (p *Point_efgh_full) Sub(x, y)
  instance x *Point_axtw_full
  instance y *Point_axtw_full
  requires okA(x) && okA(y)
  use nonsquare(-5, fe(x.x), 1)
  use nonsquare(-5, fe(y.x), 1)
  ensures sumS(p, old(fe(x.x)*fe(y.y) - fe(x.y)*fe(y.x)), old(1*1 + DD*fe(x.t)*fe(y.t)), old(1*1 - DD*fe(x.t)*fe(y.t)), old(fe(x.y)*fe(y.y) - 5*fe(x.x)*fe(y.x)))
  ensures sumS(p, old(fe(x.t)*1 - 1*fe(y.t)), old(-(fe(x.y)*fe(y.x)) - fe(x.x)*fe(y.y)), old(fe(x.y)*fe(y.y) + 5*fe(x.x)*fe(y.x)), old(-(1*fe(y.t)) - fe(x.t)*1))
  ensures okS(p)
  modifies *p
  property P01
func (p *Point_efgh_full) Sub(x, y)
  instance x *Point_axtw_full
  instance y *Point_efgh_full
  requires okA(x) && okS(y)
  use nonsquare(-5, fe(x.x), 1)
  use nonsquare(DD, fe(y.e), fe(y.g))
  use nonsquare(-5, fe(y.e), fe(y.g))
  ensures sumS(p, old(fe(x.x)*yS(y) - fe(x.y)*xS(y)), old(1*zS(y) + DD*fe(x.t)*tS(y)), old(1*zS(y) - DD*fe(x.t)*tS(y)), old(fe(x.y)*yS(y) - 5*fe(x.x)*xS(y)))
  ensures sumS(p, old(fe(x.t)*zS(y) - 1*tS(y)), old(-(fe(x.y)*xS(y)) - fe(x.x)*yS(y)), old(fe(x.y)*yS(y) + 5*fe(x.x)*xS(y)), old(-(1*tS(y)) - fe(x.t)*zS(y)))
  ensures okS(p)
  modifies *p
  property P01
func (p *Point_efgh_full) Sub(x, y)
  instance x *Point_efgh_full
  instance y *Point_xtw_full
  requires okS(x) && okT(y)
  use nonsquare(DD, fe(x.e), fe(x.g))
  use nonsquare(-5, fe(x.e), fe(x.g))
  use nonsquare(-5, fe(y.x), fe(y.z))
  use nonsquare(DD, fe(y.t), fe(y.y))
  ensures sumS(p, old(xS(x)*fe(y.y) - yS(x)*fe(y.x)), old(zS(x)*fe(y.z) + DD*tS(x)*fe(y.t)), old(zS(x)*fe(y.z) - DD*tS(x)*fe(y.t)), old(yS(x)*fe(y.y) - 5*xS(x)*fe(y.x)))
  ensures sumS(p, old(tS(x)*fe(y.z) - zS(x)*fe(y.t)), old(-(yS(x)*fe(y.x)) - xS(x)*fe(y.y)), old(yS(x)*fe(y.y) + 5*xS(x)*fe(y.x)), old(-(zS(x)*fe(y.t)) - tS(x)*fe(y.z)))
  ensures okS(p)
  modifies *p
  property P01
func (p *Point_efgh_full) Sub(x, y)
  instance x *Point_efgh_full
  instance y *Point_axtw_full
  requires okS(x) && okA(y)
  use nonsquare(DD, fe(x.e), fe(x.g))
  use nonsquare(-5, fe(x.e), fe(x.g))
  use nonsquare(-5, fe(y.x), 1)
  ensures sumS(p, old(xS(x)*fe(y.y) - yS(x)*fe(y.x)), old(zS(x)*1 + DD*tS(x)*fe(y.t)), old(zS(x)*1 - DD*tS(x)*fe(y.t)), old(yS(x)*fe(y.y) - 5*xS(x)*fe(y.x)))
  ensures sumS(p, old(tS(x)*1 - zS(x)*fe(y.t)), old(-(yS(x)*fe(y.x)) - xS(x)*fe(y.y)), old(yS(x)*fe(y.y) + 5*xS(x)*fe(y.x)), old(-(zS(x)*fe(y.t)) - tS(x)*1))
  ensures okS(p)
  modifies *p
  property P01
func (p *Point_efgh_full) Sub(x, y)
  instance x *Point_efgh_full
  instance y *Point_efgh_full
  requires okS(x) && okS(y)
  use nonsquare(DD, fe(x.e), fe(x.g))
  use nonsquare(-5, fe(x.e), fe(x.g))
  use nonsquare(DD, fe(y.e), fe(y.g))
  use nonsquare(-5, fe(y.e), fe(y.g))
  ensures sumS(p, old(xS(x)*yS(y) - yS(x)*xS(y)), old(zS(x)*zS(y) + DD*tS(x)*tS(y)), old(zS(x)*zS(y) - DD*tS(x)*tS(y)), old(yS(x)*yS(y) - 5*xS(x)*xS(y)))
  ensures sumS(p, old(tS(x)*zS(y) - zS(x)*tS(y)), old(-(yS(x)*xS(y)) - xS(x)*yS(y)), old(yS(x)*yS(y) + 5*xS(x)*xS(y)), old(-(zS(x)*tS(y)) - tS(x)*zS(y)))
  ensures okS(p)
  modifies *p
  property P01
func (p *point_efgh_base) Double(x)
  instance x *Point_xtw_full
  requires okT(x)
  use nonsquare(-5, fe(x.x), fe(x.z))
  use nonsquare(DD, fe(x.t), fe(x.y))
  use nonsquare(DD, fe(x.t), fe(x.z))
  use nonsquare(-DD, fe(x.t), fe(x.z))
  use nonsquare(-5, fe(x.x), fe(x.y))
  ensures sumS(p, old(2*fe(x.x)*fe(x.y)), old(fe(x.z)*fe(x.z) - DD*fe(x.t)*fe(x.t)), old(fe(x.z)*fe(x.z) + DD*fe(x.t)*fe(x.t)), old(fe(x.y)*fe(x.y) + 5*fe(x.x)*fe(x.x)))
  ensures okS(p)
  modifies *p
  property P01
func (p *Point_efgh_full) Neg(input)
  instance input *Point_xtw_full
  requires okT(input)
  use nonsquare(-5, fe(input.x), fe(input.z))
  use nonsquare(DD, fe(input.t), fe(input.y))
  ensures projX(p, -old(fe(input.x)), old(fe(input.y)), -old(fe(input.t)), old(fe(input.z)))
  ensures okS(p)
  modifies *p
  property P01
func (p *Point_efgh_full) Endo(input)
  instance input *Point_xtw_full
  requires okT(input)
  use nonsquare(-5, fe(input.x), fe(input.z))
  use nonsquare(DD, fe(input.t), fe(input.y))
  use nonsquare(DD, fe(p.e), fe(p.g))
  use nonsquare(-5, fe(p.e), fe(p.g))
  ensures sumS(p, old(endoE(fe(input.y), fe(input.z))), old(endoF(fe(input.y), fe(input.z))), old(fe(input.x)*fe(input.y)), old(endoH(fe(input.y), fe(input.z))))
  ensures implies(old(fe(input.x) == 0), fe(p.e) == 0 && fe(p.f) == fe(p.h))
  ensures implies(old(fe(input.z) == 0), fe(p.e) == 0 && fe(p.f) == -fe(p.h))
  ensures okS(p)
  modifies *p
  property P02
func (p *point_efgh_base) Double(x)
  instance x *Point_axtw_full
  requires okA(x)
  use nonsquare(-5, fe(x.x), 1)
  use nonsquare(DD, fe(x.t), 1)
  use nonsquare(-DD, fe(x.t), 1)
  use nonsquare(-5, fe(x.x), fe(x.y))
  ensures sumS(p, old(2*fe(x.x)*fe(x.y)), old(1*1 - DD*fe(x.t)*fe(x.t)), old(1*1 + DD*fe(x.t)*fe(x.t)), old(fe(x.y)*fe(x.y) + 5*fe(x.x)*fe(x.x)))
  ensures okS(p)
  modifies *p
  property P01
func (p *Point_efgh_full) Neg(input)
  instance input *Point_axtw_full
  requires okA(input)
  use nonsquare(-5, fe(input.x), 1)
  ensures projX(p, -old(fe(input.x)), old(fe(input.y)), -old(fe(input.t)), old(1))
  ensures okS(p)
  modifies *p
  property P01
func (p *Point_efgh_full) Endo(input)
  instance input *Point_axtw_full
  requires okA(input)
  use nonsquare(-5, fe(input.x), 1)
  use nonsquare(DD, fe(p.e), fe(p.g))
  use nonsquare(-5, fe(p.e), fe(p.g))
  ensures sumS(p, old(endoE(fe(input.y), 1)), old(endoF(fe(input.y), 1)), old(fe(input.x)*fe(input.y)), old(endoH(fe(input.y), 1)))
  ensures implies(old(fe(input.x) == 0), fe(p.e) == 0 && fe(p.f) == fe(p.h))
  ensures implies(old(1 == 0), fe(p.e) == 0 && fe(p.f) == -fe(p.h))
  ensures okS(p)
  modifies *p
  property P02
func (p *point_efgh_base) Double(x)
  instance x *Point_efgh_full
  requires okS(x)
  use nonsquare(DD, fe(x.e), fe(x.g))
  use nonsquare(-5, fe(x.e), fe(x.g))
  use nonsquare(DD, tS(x), zS(x))
  use nonsquare(-DD, tS(x), zS(x))
  use nonsquare(-5, xS(x), yS(x))
  ensures sumS(p, old(2*xS(x)*yS(x)), old(zS(x)*zS(x) - DD*tS(x)*tS(x)), old(zS(x)*zS(x) + DD*tS(x)*tS(x)), old(yS(x)*yS(x) + 5*xS(x)*xS(x)))
  ensures okS(p)
  modifies *p
  property P01
func (p *Point_efgh_full) Neg(input)
  instance input *Point_efgh_full
  requires okS(input)
  use nonsquare(DD, fe(input.e), fe(input.g))
  use nonsquare(-5, fe(input.e), fe(input.g))
  ensures projX(p, -old(xS(input)), old(yS(input)), -old(tS(input)), old(zS(input)))
  ensures okS(p)
  modifies *p
  property P01
func (p *Point_efgh_full) Endo(input)
  instance input *Point_efgh_full
  requires okS(input)
  use nonsquare(DD, fe(input.e), fe(input.g))
  use nonsquare(-5, fe(input.e), fe(input.g))
  use nonsquare(DD, fe(p.e), fe(p.g))
  use nonsquare(-5, fe(p.e), fe(p.g))
  ensures sumS(p, old(endoE(yS(input), zS(input))), old(endoF(yS(input), zS(input))), old(xS(input)*yS(input)), old(endoH(yS(input), zS(input))))
  ensures implies(old(xS(input) == 0), fe(p.e) == 0 && fe(p.f) == fe(p.h))
  ensures implies(old(zS(input) == 0), fe(p.e) == 0 && fe(p.f) == -fe(p.h))
  ensures okS(p)
  modifies *p
  property P02
func (p *Point_xtw_full) IsEqual(other) (r)
  instance other *Point_xtw_full
  requires okT(p) && okT(other)
  use nonsquare(-5, fe(p.x), fe(p.z))
  use nonsquare(DD, fe(p.t), fe(p.y))
  use nonsquare(-5, fe(other.x), fe(other.z))
  use nonsquare(DD, fe(other.t), fe(other.y))
  ensures iff(r, old(fe(p.x)*fe(other.y) == fe(p.y)*fe(other.x) && fe(p.x)*fe(other.t) == fe(p.t)*fe(other.x) && fe(p.x)*fe(other.z) == fe(p.z)*fe(other.x) && fe(p.y)*fe(other.t) == fe(p.t)*fe(other.y) && fe(p.y)*fe(other.z) == fe(p.z)*fe(other.y) && fe(p.t)*fe(other.z) == fe(p.z)*fe(other.t)))
  modifies *p, *other
  property P03
func (p *Point_xtw_full) IsEqual(other) (r)
  instance other *Point_axtw_full
  requires okT(p) && okA(other)
  use nonsquare(-5, fe(p.x), fe(p.z))
  use nonsquare(DD, fe(p.t), fe(p.y))
  use nonsquare(-5, fe(other.x), 1)
  ensures iff(r, old(fe(p.x)*fe(other.y) == fe(p.y)*fe(other.x) && fe(p.x)*fe(other.t) == fe(p.t)*fe(other.x) && fe(p.x)*1 == fe(p.z)*fe(other.x) && fe(p.y)*fe(other.t) == fe(p.t)*fe(other.y) && fe(p.y)*1 == fe(p.z)*fe(other.y) && fe(p.t)*1 == fe(p.z)*fe(other.t)))
  modifies *p, *other
  property P03
func (p *Point_xtw_full) IsEqual(other) (r)
  instance other *Point_efgh_full
  requires okT(p) && okS(other)
  use nonsquare(-5, fe(p.x), fe(p.z))
  use nonsquare(DD, fe(p.t), fe(p.y))
  use nonsquare(DD, fe(other.e), fe(other.g))
  use nonsquare(-5, fe(other.e), fe(other.g))
  ensures !r || old(fe(p.x)*yS(other) == fe(p.y)*xS(other))
  ensures !r || old(fe(p.x)*tS(other) == fe(p.t)*xS(other))
  ensures !r || old(fe(p.x)*zS(other) == fe(p.z)*xS(other))
  ensures !r || old(fe(p.y)*tS(other) == fe(p.t)*yS(other))
  ensures !r || old(fe(p.y)*zS(other) == fe(p.z)*yS(other))
  ensures !r || old(fe(p.t)*zS(other) == fe(p.z)*tS(other))
  ensures r || old(fe(p.z) == 0) || !old(fe(p.x)*yS(other) == fe(p.y)*xS(other) && fe(p.y)*zS(other) == fe(p.z)*yS(other))
  ensures r || old(fe(p.z) != 0) || old(fe(other.g) != 0) || !old(fe(p.x)*fe(other.h) == fe(p.t)*fe(other.f))
  modifies *p, *other
  property P03
func (p *Point_axtw_full) IsEqual(other) (r)
  instance other *Point_xtw_full
  requires okA(p) && okT(other)
  use nonsquare(-5, fe(p.x), 1)
  use nonsquare(-5, fe(other.x), fe(other.z))
  use nonsquare(DD, fe(other.t), fe(other.y))
  ensures iff(r, old(fe(p.x)*fe(other.y) == fe(p.y)*fe(other.x) && fe(p.x)*fe(other.t) == fe(p.t)*fe(other.x) && fe(p.x)*fe(other.z) == 1*fe(other.x) && fe(p.y)*fe(other.t) == fe(p.t)*fe(other.y) && fe(p.y)*fe(other.z) == 1*fe(other.y) && fe(p.t)*fe(other.z) == 1*fe(other.t)))
  modifies *p, *other
  property P03
func (p *Point_axtw_full) IsEqual(other) (r)
  instance other *Point_axtw_full
  requires okA(p) && okA(other)
  use nonsquare(-5, fe(p.x), 1)
  use nonsquare(-5, fe(other.x), 1)
  ensures iff(r, old(fe(p.x)*fe(other.y) == fe(p.y)*fe(other.x) && fe(p.x)*fe(other.t) == fe(p.t)*fe(other.x) && fe(p.x)*1 == 1*fe(other.x) && fe(p.y)*fe(other.t) == fe(p.t)*fe(other.y) && fe(p.y)*1 == 1*fe(other.y) && fe(p.t)*1 == 1*fe(other.t)))
  modifies *p, *other
  property P03
func (p *Point_axtw_full) IsEqual(other) (r)
  instance other *Point_efgh_full
  requires okA(p) && okS(other)
  use nonsquare(-5, fe(p.x), 1)
  use nonsquare(DD, fe(other.e), fe(other.g))
  use nonsquare(-5, fe(other.e), fe(other.g))
  ensures iff(r, old(fe(p.x)*yS(other) == fe(p.y)*xS(other) && fe(p.x)*tS(other) == fe(p.t)*xS(other) && fe(p.x)*zS(other) == 1*xS(other) && fe(p.y)*tS(other) == fe(p.t)*yS(other) && fe(p.y)*zS(other) == 1*yS(other) && fe(p.t)*zS(other) == 1*tS(other)))
  modifies *p, *other
  property P03
func (p *Point_efgh_full) IsEqual(other) (r)
  instance other *Point_xtw_full
  requires okS(p) && okT(other)
  use nonsquare(DD, fe(p.e), fe(p.g))
  use nonsquare(-5, fe(p.e), fe(p.g))
  use nonsquare(-5, fe(other.x), fe(other.z))
  use nonsquare(DD, fe(other.t), fe(other.y))
  ensures !r || old(xS(p)*fe(other.y) == yS(p)*fe(other.x))
  ensures !r || old(xS(p)*fe(other.t) == tS(p)*fe(other.x))
  ensures !r || old(xS(p)*fe(other.z) == zS(p)*fe(other.x))
  ensures !r || old(yS(p)*fe(other.t) == tS(p)*fe(other.y))
  ensures !r || old(yS(p)*fe(other.z) == zS(p)*fe(other.y))
  ensures !r || old(tS(p)*fe(other.z) == zS(p)*fe(other.t))
  ensures r || old(fe(other.z) == 0) || !old(xS(p)*fe(other.y) == yS(p)*fe(other.x) && yS(p)*fe(other.z) == zS(p)*fe(other.y))
  ensures r || old(fe(other.z) != 0) || old(fe(p.g) != 0) || !old(fe(p.f)*fe(other.t) == fe(p.h)*fe(other.x))
  modifies *p, *other
  property P03
func (p *Point_efgh_full) IsEqual(other) (r)
  instance other *Point_axtw_full
  requires okS(p) && okA(other)
  use nonsquare(DD, fe(p.e), fe(p.g))
  use nonsquare(-5, fe(p.e), fe(p.g))
  use nonsquare(-5, fe(other.x), 1)
  ensures iff(r, old(xS(p)*fe(other.y) == yS(p)*fe(other.x) && xS(p)*fe(other.t) == tS(p)*fe(other.x) && xS(p)*1 == zS(p)*fe(other.x) && yS(p)*fe(other.t) == tS(p)*fe(other.y) && yS(p)*1 == zS(p)*fe(other.y) && tS(p)*1 == zS(p)*fe(other.t)))
  modifies *p, *other
  property P03
func (p *Point_efgh_full) IsEqual(other) (r)
  instance other *Point_efgh_full
  requires okS(p) && okS(other)
  use nonsquare(DD, fe(p.e), fe(p.g))
  use nonsquare(-5, fe(p.e), fe(p.g))
  use nonsquare(DD, fe(other.e), fe(other.g))
  use nonsquare(-5, fe(other.e), fe(other.g))
  ensures iff(r, old(xS(p)*yS(other) == yS(p)*xS(other) && xS(p)*tS(other) == tS(p)*xS(other) && xS(p)*zS(other) == zS(p)*xS(other) && yS(p)*tS(other) == tS(p)*yS(other) && yS(p)*zS(other) == zS(p)*yS(other) && tS(p)*zS(other) == zS(p)*tS(other)))
  modifies *p, *other
  property P03
