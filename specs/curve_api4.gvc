package bandersnatch/curvePoints
layer default 2

// ---- the types for the subgroup: the same formulas on the coordinates, without provisions for the cases outside the subgroup
func (p *Point_xtw_subgroup) Add(x, y)
  instance x *Point_xtw_subgroup
  instance y *Point_xtw_subgroup
  requires okT(x) && okT(y)
  requires !(fe(x.x)*fe(y.y) + fe(x.y)*fe(y.x) == 0 && fe(x.z)*fe(y.z) + DD*fe(x.t)*fe(y.t) == 0) && !(fe(x.z)*fe(y.z) - DD*fe(x.t)*fe(y.t) == 0 && fe(x.y)*fe(y.y) + 5*fe(x.x)*fe(y.x) == 0)
  use nonsquare(-5, fe(x.x), fe(x.z))
  use nonsquare(DD, fe(x.t), fe(x.y))
  use nonsquare(-5, fe(y.x), fe(y.z))
  use nonsquare(DD, fe(y.t), fe(y.y))
  ensures sumT(p, old(fe(x.x)*fe(y.y) + fe(x.y)*fe(y.x)), old(fe(x.z)*fe(y.z) - DD*fe(x.t)*fe(y.t)), old(fe(x.z)*fe(y.z) + DD*fe(x.t)*fe(y.t)), old(fe(x.y)*fe(y.y) + 5*fe(x.x)*fe(y.x)))
  ensures okT(p)
  modifies *p
  property P01
func (p *Point_xtw_subgroup) Add(x, y)
  instance x *Point_xtw_subgroup
  instance y *Point_axtw_subgroup
  requires okT(x) && okA(y)
  requires !(fe(x.x)*fe(y.y) + fe(x.y)*fe(y.x) == 0 && fe(x.z)*1 + DD*fe(x.t)*fe(y.t) == 0) && !(fe(x.z)*1 - DD*fe(x.t)*fe(y.t) == 0 && fe(x.y)*fe(y.y) + 5*fe(x.x)*fe(y.x) == 0)
  use nonsquare(-5, fe(x.x), fe(x.z))
  use nonsquare(DD, fe(x.t), fe(x.y))
  use nonsquare(-5, fe(y.x), 1)
  ensures sumT(p, old(fe(x.x)*fe(y.y) + fe(x.y)*fe(y.x)), old(fe(x.z)*1 - DD*fe(x.t)*fe(y.t)), old(fe(x.z)*1 + DD*fe(x.t)*fe(y.t)), old(fe(x.y)*fe(y.y) + 5*fe(x.x)*fe(y.x)))
  ensures okT(p)
  modifies *p
  property P01
func (p *Point_xtw_subgroup) Add(x, y)
  instance x *Point_xtw_subgroup
  instance y *Point_efgh_subgroup
  requires okT(x) && okS(y)
  requires !(fe(x.x)*yS(y) + fe(x.y)*xS(y) == 0 && fe(x.z)*zS(y) + DD*fe(x.t)*tS(y) == 0) && !(fe(x.z)*zS(y) - DD*fe(x.t)*tS(y) == 0 && fe(x.y)*yS(y) + 5*fe(x.x)*xS(y) == 0)
  use nonsquare(-5, fe(x.x), fe(x.z))
  use nonsquare(DD, fe(x.t), fe(x.y))
  use nonsquare(DD, fe(y.e), fe(y.g))
  use nonsquare(-5, fe(y.e), fe(y.g))
  inlinecall bandersnatch/curvePoints.(*point_efgh_base).toDecaf_xtw
  ensures sumT(p, old(fe(x.x)*yS(y) + fe(x.y)*xS(y)), old(fe(x.z)*zS(y) - DD*fe(x.t)*tS(y)), old(fe(x.z)*zS(y) + DD*fe(x.t)*tS(y)), old(fe(x.y)*yS(y) + 5*fe(x.x)*xS(y)))
  ensures fe(p.x)*fe(p.y) == fe(p.t)*fe(p.z)
  modifies *p
  property P01
func (p *Point_xtw_subgroup) AddEq(x)
  instance x *Point_xtw_subgroup
  requires okT(p) && okT(x)
  requires !(fe(p.x)*fe(x.y) + fe(p.y)*fe(x.x) == 0 && fe(p.z)*fe(x.z) + DD*fe(p.t)*fe(x.t) == 0) && !(fe(p.z)*fe(x.z) - DD*fe(p.t)*fe(x.t) == 0 && fe(p.y)*fe(x.y) + 5*fe(p.x)*fe(x.x) == 0)
  use nonsquare(-5, fe(p.x), fe(p.z))
  use nonsquare(DD, fe(p.t), fe(p.y))
  use nonsquare(-5, fe(x.x), fe(x.z))
  use nonsquare(DD, fe(x.t), fe(x.y))
  ensures sumT(p, old(fe(p.x)*fe(x.y) + fe(p.y)*fe(x.x)), old(fe(p.z)*fe(x.z) - DD*fe(p.t)*fe(x.t)), old(fe(p.z)*fe(x.z) + DD*fe(p.t)*fe(x.t)), old(fe(p.y)*fe(x.y) + 5*fe(p.x)*fe(x.x)))
  ensures okT(p)
  modifies *p
  property P01
func (p *Point_xtw_subgroup) Add(x, y)
  instance x *Point_axtw_subgroup
  instance y *Point_xtw_subgroup
  requires okA(x) && okT(y)
  requires !(fe(x.x)*fe(y.y) + fe(x.y)*fe(y.x) == 0 && 1*fe(y.z) + DD*fe(x.t)*fe(y.t) == 0) && !(1*fe(y.z) - DD*fe(x.t)*fe(y.t) == 0 && fe(x.y)*fe(y.y) + 5*fe(x.x)*fe(y.x) == 0)
  use nonsquare(-5, fe(x.x), 1)
  use nonsquare(-5, fe(y.x), fe(y.z))
  use nonsquare(DD, fe(y.t), fe(y.y))
  ensures sumT(p, old(fe(x.x)*fe(y.y) + fe(x.y)*fe(y.x)), old(1*fe(y.z) - DD*fe(x.t)*fe(y.t)), old(1*fe(y.z) + DD*fe(x.t)*fe(y.t)), old(fe(x.y)*fe(y.y) + 5*fe(x.x)*fe(y.x)))
  ensures okT(p)
  modifies *p
  property P01
func (p *Point_xtw_subgroup) Add(x, y)
  instance x *Point_axtw_subgroup
  instance y *Point_axtw_subgroup
  requires okA(x) && okA(y)
  requires !(fe(x.x)*fe(y.y) + fe(x.y)*fe(y.x) == 0 && 1*1 + DD*fe(x.t)*fe(y.t) == 0) && !(1*1 - DD*fe(x.t)*fe(y.t) == 0 && fe(x.y)*fe(y.y) + 5*fe(x.x)*fe(y.x) == 0)
  use nonsquare(-5, fe(x.x), 1)
  use nonsquare(-5, fe(y.x), 1)
  ensures sumT(p, old(fe(x.x)*fe(y.y) + fe(x.y)*fe(y.x)), old(1*1 - DD*fe(x.t)*fe(y.t)), old(1*1 + DD*fe(x.t)*fe(y.t)), old(fe(x.y)*fe(y.y) + 5*fe(x.x)*fe(y.x)))
  ensures okT(p)
  modifies *p
  property P01
func (p *Point_xtw_subgroup) Add(x, y)
  instance x *Point_axtw_subgroup
  instance y *Point_efgh_subgroup
  requires okA(x) && okS(y)
  requires !(fe(x.x)*yS(y) + fe(x.y)*xS(y) == 0 && 1*zS(y) + DD*fe(x.t)*tS(y) == 0) && !(1*zS(y) - DD*fe(x.t)*tS(y) == 0 && fe(x.y)*yS(y) + 5*fe(x.x)*xS(y) == 0)
  use nonsquare(-5, fe(x.x), 1)
  use nonsquare(DD, fe(y.e), fe(y.g))
  use nonsquare(-5, fe(y.e), fe(y.g))
  inlinecall bandersnatch/curvePoints.(*point_efgh_base).toDecaf_xtw
  ensures sumT(p, old(fe(x.x)*yS(y) + fe(x.y)*xS(y)), old(1*zS(y) - DD*fe(x.t)*tS(y)), old(1*zS(y) + DD*fe(x.t)*tS(y)), old(fe(x.y)*yS(y) + 5*fe(x.x)*xS(y)))
  ensures fe(p.x)*fe(p.y) == fe(p.t)*fe(p.z)
  modifies *p
  property P01
func (p *Point_xtw_subgroup) AddEq(x)
  instance x *Point_axtw_subgroup
  requires okT(p) && okA(x)
  requires !(fe(p.x)*fe(x.y) + fe(p.y)*fe(x.x) == 0 && fe(p.z)*1 + DD*fe(p.t)*fe(x.t) == 0) && !(fe(p.z)*1 - DD*fe(p.t)*fe(x.t) == 0 && fe(p.y)*fe(x.y) + 5*fe(p.x)*fe(x.x) == 0)
  use nonsquare(-5, fe(p.x), fe(p.z))
  use nonsquare(DD, fe(p.t), fe(p.y))
  use nonsquare(-5, fe(x.x), 1)
  ensures sumT(p, old(fe(p.x)*fe(x.y) + fe(p.y)*fe(x.x)), old(fe(p.z)*1 - DD*fe(p.t)*fe(x.t)), old(fe(p.z)*1 + DD*fe(p.t)*fe(x.t)), old(fe(p.y)*fe(x.y) + 5*fe(p.x)*fe(x.x)))
  ensures okT(p)
  modifies *p
  property P01
func (p *Point_xtw_subgroup) Add(x, y)
  instance x *Point_efgh_subgroup
  instance y *Point_xtw_subgroup
  requires okS(x) && okT(y)
  requires !(xS(x)*fe(y.y) + yS(x)*fe(y.x) == 0 && zS(x)*fe(y.z) + DD*tS(x)*fe(y.t) == 0) && !(zS(x)*fe(y.z) - DD*tS(x)*fe(y.t) == 0 && yS(x)*fe(y.y) + 5*xS(x)*fe(y.x) == 0)
  use nonsquare(DD, fe(x.e), fe(x.g))
  use nonsquare(-5, fe(x.e), fe(x.g))
  use nonsquare(-5, fe(y.x), fe(y.z))
  use nonsquare(DD, fe(y.t), fe(y.y))
  inlinecall bandersnatch/curvePoints.(*point_efgh_base).toDecaf_xtw
  ensures sumT(p, old(xS(x)*fe(y.y) + yS(x)*fe(y.x)), old(zS(x)*fe(y.z) - DD*tS(x)*fe(y.t)), old(zS(x)*fe(y.z) + DD*tS(x)*fe(y.t)), old(yS(x)*fe(y.y) + 5*xS(x)*fe(y.x)))
  ensures fe(p.x)*fe(p.y) == fe(p.t)*fe(p.z)
  modifies *p
  property P01
func (p *Point_xtw_subgroup) Add(x, y)
  instance x *Point_efgh_subgroup
  instance y *Point_axtw_subgroup
  requires okS(x) && okA(y)
  requires !(xS(x)*fe(y.y) + yS(x)*fe(y.x) == 0 && zS(x)*1 + DD*tS(x)*fe(y.t) == 0) && !(zS(x)*1 - DD*tS(x)*fe(y.t) == 0 && yS(x)*fe(y.y) + 5*xS(x)*fe(y.x) == 0)
  use nonsquare(DD, fe(x.e), fe(x.g))
  use nonsquare(-5, fe(x.e), fe(x.g))
  use nonsquare(-5, fe(y.x), 1)
  inlinecall bandersnatch/curvePoints.(*point_efgh_base).toDecaf_xtw
  ensures sumT(p, old(xS(x)*fe(y.y) + yS(x)*fe(y.x)), old(zS(x)*1 - DD*tS(x)*fe(y.t)), old(zS(x)*1 + DD*tS(x)*fe(y.t)), old(yS(x)*fe(y.y) + 5*xS(x)*fe(y.x)))
  ensures fe(p.x)*fe(p.y) == fe(p.t)*fe(p.z)
  modifies *p
  property P01
func (p *Point_xtw_subgroup) Add(x, y)
  instance x *Point_efgh_subgroup
  instance y *Point_efgh_subgroup
  requires okS(x) && okS(y)
  requires !(xS(x)*yS(y) + yS(x)*xS(y) == 0 && zS(x)*zS(y) + DD*tS(x)*tS(y) == 0) && !(zS(x)*zS(y) - DD*tS(x)*tS(y) == 0 && yS(x)*yS(y) + 5*xS(x)*xS(y) == 0)
  use nonsquare(DD, fe(x.e), fe(x.g))
  use nonsquare(-5, fe(x.e), fe(x.g))
  use nonsquare(DD, fe(y.e), fe(y.g))
  use nonsquare(-5, fe(y.e), fe(y.g))
  inlinecall bandersnatch/curvePoints.(*point_efgh_base).toDecaf_xtw
  ensures sumT(p, old(xS(x)*yS(y) + yS(x)*xS(y)), old(zS(x)*zS(y) - DD*tS(x)*tS(y)), old(zS(x)*zS(y) + DD*tS(x)*tS(y)), old(yS(x)*yS(y) + 5*xS(x)*xS(y)))
  ensures fe(p.x)*fe(p.y) == fe(p.t)*fe(p.z)
  modifies *p
  property P01
func (p *Point_xtw_subgroup) AddEq(x)
  instance x *Point_efgh_subgroup
  requires okT(p) && okS(x)
  requires !(fe(p.x)*yS(x) + fe(p.y)*xS(x) == 0 && fe(p.z)*zS(x) + DD*fe(p.t)*tS(x) == 0) && !(fe(p.z)*zS(x) - DD*fe(p.t)*tS(x) == 0 && fe(p.y)*yS(x) + 5*fe(p.x)*xS(x) == 0)
  use nonsquare(-5, fe(p.x), fe(p.z))
  use nonsquare(DD, fe(p.t), fe(p.y))
  use nonsquare(DD, fe(x.e), fe(x.g))
  use nonsquare(-5, fe(x.e), fe(x.g))
  inlinecall bandersnatch/curvePoints.(*point_efgh_base).toDecaf_xtw
  ensures sumT(p, old(fe(p.x)*yS(x) + fe(p.y)*xS(x)), old(fe(p.z)*zS(x) - DD*fe(p.t)*tS(x)), old(fe(p.z)*zS(x) + DD*fe(p.t)*tS(x)), old(fe(p.y)*yS(x) + 5*fe(p.x)*xS(x)))
  ensures fe(p.x)*fe(p.y) == fe(p.t)*fe(p.z)
  modifies *p
  property P01
func (p *Point_xtw_subgroup) Sub(x, y)
  instance x *Point_xtw_subgroup
  instance y *Point_xtw_subgroup
  requires okT(x) && okT(y)
  requires !(fe(x.x)*fe(y.y) - fe(x.y)*fe(y.x) == 0 && fe(x.z)*fe(y.z) - DD*fe(x.t)*fe(y.t) == 0) && !(fe(x.z)*fe(y.z) + DD*fe(x.t)*fe(y.t) == 0 && fe(x.y)*fe(y.y) - 5*fe(x.x)*fe(y.x) == 0)
  use nonsquare(-5, fe(x.x), fe(x.z))
  use nonsquare(DD, fe(x.t), fe(x.y))
  use nonsquare(-5, fe(y.x), fe(y.z))
  use nonsquare(DD, fe(y.t), fe(y.y))
  ensures sumT(p, old(fe(x.x)*fe(y.y) - fe(x.y)*fe(y.x)), old(fe(x.z)*fe(y.z) + DD*fe(x.t)*fe(y.t)), old(fe(x.z)*fe(y.z) - DD*fe(x.t)*fe(y.t)), old(fe(x.y)*fe(y.y) - 5*fe(x.x)*fe(y.x)))
  ensures okT(p)
  modifies *p
  property P01
func (p *Point_xtw_subgroup) Sub(x, y)
  instance x *Point_xtw_subgroup
  instance y *Point_axtw_subgroup
  requires okT(x) && okA(y)
  requires !(fe(x.x)*fe(y.y) - fe(x.y)*fe(y.x) == 0 && fe(x.z)*1 - DD*fe(x.t)*fe(y.t) == 0) && !(fe(x.z)*1 + DD*fe(x.t)*fe(y.t) == 0 && fe(x.y)*fe(y.y) - 5*fe(x.x)*fe(y.x) == 0)
  use nonsquare(-5, fe(x.x), fe(x.z))
  use nonsquare(DD, fe(x.t), fe(x.y))
  use nonsquare(-5, fe(y.x), 1)
  ensures sumT(p, old(fe(x.x)*fe(y.y) - fe(x.y)*fe(y.x)), old(fe(x.z)*1 + DD*fe(x.t)*fe(y.t)), old(fe(x.z)*1 - DD*fe(x.t)*fe(y.t)), old(fe(x.y)*fe(y.y) - 5*fe(x.x)*fe(y.x)))
  ensures okT(p)
  modifies *p
  property P01
func (p *Point_xtw_subgroup) Sub(x, y)
  instance x *Point_xtw_subgroup
  instance y *Point_efgh_subgroup
  requires okT(x) && okS(y)
  requires !(fe(x.x)*yS(y) - fe(x.y)*xS(y) == 0 && fe(x.z)*zS(y) - DD*fe(x.t)*tS(y) == 0) && !(fe(x.z)*zS(y) + DD*fe(x.t)*tS(y) == 0 && fe(x.y)*yS(y) - 5*fe(x.x)*xS(y) == 0)
  use nonsquare(-5, fe(x.x), fe(x.z))
  use nonsquare(DD, fe(x.t), fe(x.y))
  use nonsquare(DD, fe(y.e), fe(y.g))
  use nonsquare(-5, fe(y.e), fe(y.g))
  inlinecall bandersnatch/curvePoints.(*point_efgh_base).toDecaf_xtw
  ensures sumT(p, old(fe(x.x)*yS(y) - fe(x.y)*xS(y)), old(fe(x.z)*zS(y) + DD*fe(x.t)*tS(y)), old(fe(x.z)*zS(y) - DD*fe(x.t)*tS(y)), old(fe(x.y)*yS(y) - 5*fe(x.x)*xS(y)))
  ensures fe(p.x)*fe(p.y) == fe(p.t)*fe(p.z)
  modifies *p
  property P01
func (p *Point_xtw_subgroup) SubEq(x)
  instance x *Point_xtw_subgroup
  requires okT(p) && okT(x)
  requires !(fe(p.x)*fe(x.y) - fe(p.y)*fe(x.x) == 0 && fe(p.z)*fe(x.z) - DD*fe(p.t)*fe(x.t) == 0) && !(fe(p.z)*fe(x.z) + DD*fe(p.t)*fe(x.t) == 0 && fe(p.y)*fe(x.y) - 5*fe(p.x)*fe(x.x) == 0)
  use nonsquare(-5, fe(p.x), fe(p.z))
  use nonsquare(DD, fe(p.t), fe(p.y))
  use nonsquare(-5, fe(x.x), fe(x.z))
  use nonsquare(DD, fe(x.t), fe(x.y))
  ensures sumT(p, old(fe(p.x)*fe(x.y) - fe(p.y)*fe(x.x)), old(fe(p.z)*fe(x.z) + DD*fe(p.t)*fe(x.t)), old(fe(p.z)*fe(x.z) - DD*fe(p.t)*fe(x.t)), old(fe(p.y)*fe(x.y) - 5*fe(p.x)*fe(x.x)))
  ensures okT(p)
  modifies *p
  property P01
func (p *Point_xtw_subgroup) Sub(x, y)
  instance x *Point_axtw_subgroup
  instance y *Point_xtw_subgroup
  requires okA(x) && okT(y)
  requires !(fe(x.x)*fe(y.y) - fe(x.y)*fe(y.x) == 0 && 1*fe(y.z) - DD*fe(x.t)*fe(y.t) == 0) && !(1*fe(y.z) + DD*fe(x.t)*fe(y.t) == 0 && fe(x.y)*fe(y.y) - 5*fe(x.x)*fe(y.x) == 0)
  use nonsquare(-5, fe(x.x), 1)
  use nonsquare(-5, fe(y.x), fe(y.z))
  use nonsquare(DD, fe(y.t), fe(y.y))
  ensures sumT(p, old(fe(x.x)*fe(y.y) - fe(x.y)*fe(y.x)), old(1*fe(y.z) + DD*fe(x.t)*fe(y.t)), old(1*fe(y.z) - DD*fe(x.t)*fe(y.t)), old(fe(x.y)*fe(y.y) - 5*fe(x.x)*fe(y.x)))
  ensures okT(p)
  modifies *p
  property P01
func (p *Point_xtw_subgroup) Sub(x, y)
  instance x *Point_axtw_subgroup
  instance y *Point_axtw_subgroup
  requires okA(x) && okA(y)
  requires !(fe(x.x)*fe(y.y) - fe(x.y)*fe(y.x) == 0 && 1*1 - DD*fe(x.t)*fe(y.t) == 0) && !(1*1 + DD*fe(x.t)*fe(y.t) == 0 && fe(x.y)*fe(y.y) - 5*fe(x.x)*fe(y.x) == 0)
  use nonsquare(-5, fe(x.x), 1)
  use nonsquare(-5, fe(y.x), 1)
  ensures sumT(p, old(fe(x.x)*fe(y.y) - fe(x.y)*fe(y.x)), old(1*1 + DD*fe(x.t)*fe(y.t)), old(1*1 - DD*fe(x.t)*fe(y.t)), old(fe(x.y)*fe(y.y) - 5*fe(x.x)*fe(y.x)))
  ensures okT(p)
  modifies *p
  property P01
func (p *Point_xtw_subgroup) Sub(x, y)
  instance x *Point_axtw_subgroup
  instance y *Point_efgh_subgroup
  requires okA(x) && okS(y)
  requires !(fe(x.x)*yS(y) - fe(x.y)*xS(y) == 0 && 1*zS(y) - DD*fe(x.t)*tS(y) == 0) && !(1*zS(y) + DD*fe(x.t)*tS(y) == 0 && fe(x.y)*yS(y) - 5*fe(x.x)*xS(y) == 0)
  use nonsquare(-5, fe(x.x), 1)
  use nonsquare(DD, fe(y.e), fe(y.g))
  use nonsquare(-5, fe(y.e), fe(y.g))
  inlinecall bandersnatch/curvePoints.(*point_efgh_base).toDecaf_xtw
  ensures sumT(p, old(fe(x.x)*yS(y) - fe(x.y)*xS(y)), old(1*zS(y) + DD*fe(x.t)*tS(y)), old(1*zS(y) - DD*fe(x.t)*tS(y)), old(fe(x.y)*yS(y) - 5*fe(x.x)*xS(y)))
  ensures fe(p.x)*fe(p.y) == fe(p.t)*fe(p.z)
  modifies *p
  property P01
func (p *Point_xtw_subgroup) SubEq(x)
  instance x *Point_axtw_subgroup
  requires okT(p) && okA(x)
  requires !(fe(p.x)*fe(x.y) - fe(p.y)*fe(x.x) == 0 && fe(p.z)*1 - DD*fe(p.t)*fe(x.t) == 0) && !(fe(p.z)*1 + DD*fe(p.t)*fe(x.t) == 0 && fe(p.y)*fe(x.y) - 5*fe(p.x)*fe(x.x) == 0)
  use nonsquare(-5, fe(p.x), fe(p.z))
  use nonsquare(DD, fe(p.t), fe(p.y))
  use nonsquare(-5, fe(x.x), 1)
  ensures sumT(p, old(fe(p.x)*fe(x.y) - fe(p.y)*fe(x.x)), old(fe(p.z)*1 + DD*fe(p.t)*fe(x.t)), old(fe(p.z)*1 - DD*fe(p.t)*fe(x.t)), old(fe(p.y)*fe(x.y) - 5*fe(p.x)*fe(x.x)))
  ensures okT(p)
  modifies *p
  property P01
func (p *Point_xtw_subgroup) Sub(x, y)
  instance x *Point_efgh_subgroup
  instance y *Point_xtw_subgroup
  requires okS(x) && okT(y)
  requires !(xS(x)*fe(y.y) - yS(x)*fe(y.x) == 0 && zS(x)*fe(y.z) - DD*tS(x)*fe(y.t) == 0) && !(zS(x)*fe(y.z) + DD*tS(x)*fe(y.t) == 0 && yS(x)*fe(y.y) - 5*xS(x)*fe(y.x) == 0)
  use nonsquare(DD, fe(x.e), fe(x.g))
  use nonsquare(-5, fe(x.e), fe(x.g))
  use nonsquare(-5, fe(y.x), fe(y.z))
  use nonsquare(DD, fe(y.t), fe(y.y))
  inlinecall bandersnatch/curvePoints.(*point_efgh_base).toDecaf_xtw
  ensures sumT(p, old(xS(x)*fe(y.y) - yS(x)*fe(y.x)), old(zS(x)*fe(y.z) + DD*tS(x)*fe(y.t)), old(zS(x)*fe(y.z) - DD*tS(x)*fe(y.t)), old(yS(x)*fe(y.y) - 5*xS(x)*fe(y.x)))
  ensures fe(p.x)*fe(p.y) == fe(p.t)*fe(p.z)
  modifies *p
  property P01
func (p *Point_xtw_subgroup) Sub(x, y)
  instance x *Point_efgh_subgroup
  instance y *Point_axtw_subgroup
  requires okS(x) && okA(y)
  requires !(xS(x)*fe(y.y) - yS(x)*fe(y.x) == 0 && zS(x)*1 - DD*tS(x)*fe(y.t) == 0) && !(zS(x)*1 + DD*tS(x)*fe(y.t) == 0 && yS(x)*fe(y.y) - 5*xS(x)*fe(y.x) == 0)
  use nonsquare(DD, fe(x.e), fe(x.g))
  use nonsquare(-5, fe(x.e), fe(x.g))
  use nonsquare(-5, fe(y.x), 1)
  inlinecall bandersnatch/curvePoints.(*point_efgh_base).toDecaf_xtw
  ensures sumT(p, old(xS(x)*fe(y.y) - yS(x)*fe(y.x)), old(zS(x)*1 + DD*tS(x)*fe(y.t)), old(zS(x)*1 - DD*tS(x)*fe(y.t)), old(yS(x)*fe(y.y) - 5*xS(x)*fe(y.x)))
  ensures fe(p.x)*fe(p.y) == fe(p.t)*fe(p.z)
  modifies *p
  property P01
func (p *Point_xtw_subgroup) Sub(x, y)
  instance x *Point_efgh_subgroup
  instance y *Point_efgh_subgroup
  requires okS(x) && okS(y)
  requires !(xS(x)*yS(y) - yS(x)*xS(y) == 0 && zS(x)*zS(y) - DD*tS(x)*tS(y) == 0) && !(zS(x)*zS(y) + DD*tS(x)*tS(y) == 0 && yS(x)*yS(y) - 5*xS(x)*xS(y) == 0)
  use nonsquare(DD, fe(x.e), fe(x.g))
  use nonsquare(-5, fe(x.e), fe(x.g))
  use nonsquare(DD, fe(y.e), fe(y.g))
  use nonsquare(-5, fe(y.e), fe(y.g))
  inlinecall bandersnatch/curvePoints.(*point_efgh_base).toDecaf_xtw
  ensures sumT(p, old(xS(x)*yS(y) - yS(x)*xS(y)), old(zS(x)*zS(y) + DD*tS(x)*tS(y)), old(zS(x)*zS(y) - DD*tS(x)*tS(y)), old(yS(x)*yS(y) - 5*xS(x)*xS(y)))
  ensures fe(p.x)*fe(p.y) == fe(p.t)*fe(p.z)
  modifies *p
  property P01
func (p *Point_xtw_subgroup) SubEq(x)
  instance x *Point_efgh_subgroup
  requires okT(p) && okS(x)
  requires !(fe(p.x)*yS(x) - fe(p.y)*xS(x) == 0 && fe(p.z)*zS(x) - DD*fe(p.t)*tS(x) == 0) && !(fe(p.z)*zS(x) + DD*fe(p.t)*tS(x) == 0 && fe(p.y)*yS(x) - 5*fe(p.x)*xS(x) == 0)
  use nonsquare(-5, fe(p.x), fe(p.z))
  use nonsquare(DD, fe(p.t), fe(p.y))
  use nonsquare(DD, fe(x.e), fe(x.g))
  use nonsquare(-5, fe(x.e), fe(x.g))
  inlinecall bandersnatch/curvePoints.(*point_efgh_base).toDecaf_xtw
  ensures sumT(p, old(fe(p.x)*yS(x) - fe(p.y)*xS(x)), old(fe(p.z)*zS(x) + DD*fe(p.t)*tS(x)), old(fe(p.z)*zS(x) - DD*fe(p.t)*tS(x)), old(fe(p.y)*yS(x) - 5*fe(p.x)*xS(x)))
  ensures fe(p.x)*fe(p.y) == fe(p.t)*fe(p.z)
  modifies *p
  property P01
func (p *point_xtw_base) Double(input)
  instance input *Point_xtw_subgroup
  requires okT(input)
  use nonsquare(-5, fe(input.x), fe(input.z))
  use nonsquare(DD, fe(input.t), fe(input.y))
  use nonsquare(DD, fe(input.t), fe(input.z))
  use nonsquare(-DD, fe(input.t), fe(input.z))
  use nonsquare(-5, fe(input.x), fe(input.y))
  ensures sumT(p, old(2*fe(input.x)*fe(input.y)), old(fe(input.z)*fe(input.z) - DD*fe(input.t)*fe(input.t)), old(fe(input.z)*fe(input.z) + DD*fe(input.t)*fe(input.t)), old(fe(input.y)*fe(input.y) + 5*fe(input.x)*fe(input.x)))
  ensures okT(p)
  modifies *p
  property P01
func (p *Point_xtw_subgroup) SetFrom(input)
  instance input *Point_xtw_subgroup
  requires okT(input)
  requires fe(input.z) != 0
  use nonsquare(-5, fe(input.x), fe(input.z))
  use nonsquare(DD, fe(input.t), fe(input.y))
  ensures fe(p.x)*old(fe(input.y)) == fe(p.y)*old(fe(input.x)) && fe(p.x)*old(fe(input.t)) == fe(p.t)*old(fe(input.x)) && fe(p.x)*old(fe(input.z)) == fe(p.z)*old(fe(input.x)) && fe(p.y)*old(fe(input.t)) == fe(p.t)*old(fe(input.y)) && fe(p.y)*old(fe(input.z)) == fe(p.z)*old(fe(input.y)) && fe(p.t)*old(fe(input.z)) == fe(p.z)*old(fe(input.t))
  ensures okT(p)
  modifies *p, *input
  property P01
func (p *Point_xtw_subgroup) Neg(input)
  instance input *Point_xtw_subgroup
  requires okT(input)
  requires fe(input.z) != 0
  use nonsquare(-5, fe(input.x), fe(input.z))
  use nonsquare(DD, fe(input.t), fe(input.y))
  ensures fe(p.x)*old(fe(input.y)) == fe(p.y)*old(-fe(input.x)) && fe(p.x)*old(-fe(input.t)) == fe(p.t)*old(-fe(input.x)) && fe(p.x)*old(fe(input.z)) == fe(p.z)*old(-fe(input.x)) && fe(p.y)*old(-fe(input.t)) == fe(p.t)*old(fe(input.y)) && fe(p.y)*old(fe(input.z)) == fe(p.z)*old(fe(input.y)) && fe(p.t)*old(fe(input.z)) == fe(p.z)*old(-fe(input.t))
  ensures okT(p)
  modifies *p, *input
  property P01
func (p *Point_xtw_subgroup) Endo(input)
  instance input *Point_xtw_subgroup
  requires okT(input)
  requires fe(input.z) != 0
  use nonsquare(-5, fe(input.x), fe(input.z))
  use nonsquare(DD, fe(input.t), fe(input.y))
  use nonsquare(DD, old(endoE(fe(input.y), fe(input.z))), old(fe(input.x)*fe(input.y)))
  use nonsquare(-5, old(endoE(fe(input.y), fe(input.z))), old(fe(input.x)*fe(input.y)))
  ensures sumT(p, old(endoE(fe(input.y), fe(input.z))), old(endoF(fe(input.y), fe(input.z))), old(fe(input.x)*fe(input.y)), old(endoH(fe(input.y), fe(input.z))))
  ensures implies(old(fe(input.x) == 0), fe(p.x) == 0 && fe(p.y) == fe(p.z))
  ensures okT(p)
  modifies *p, *input
  property P02
func (p *Point_xtw_subgroup) EndoEq()
  requires okT(p)
  requires fe(p.z) != 0
  use nonsquare(-5, fe(p.x), fe(p.z))
  use nonsquare(DD, fe(p.t), fe(p.y))
  use nonsquare(DD, old(endoE(fe(p.y), fe(p.z))), old(fe(p.x)*fe(p.y)))
  use nonsquare(-5, old(endoE(fe(p.y), fe(p.z))), old(fe(p.x)*fe(p.y)))
  ensures sumT(p, old(endoE(fe(p.y), fe(p.z))), old(endoF(fe(p.y), fe(p.z))), old(fe(p.x)*fe(p.y)), old(endoH(fe(p.y), fe(p.z))))
  ensures implies(old(fe(p.x) == 0), fe(p.x) == 0 && fe(p.y) == fe(p.z))
  ensures okT(p)
  modifies *p
  property P02
func (p *point_xtw_base) Double(input)
  instance input *Point_axtw_subgroup
  requires okA(input)
  use nonsquare(-5, fe(input.x), 1)
  use nonsquare(DD, fe(input.t), 1)
  use nonsquare(-DD, fe(input.t), 1)
  use nonsquare(-5, fe(input.x), fe(input.y))
  ensures sumT(p, old(2*fe(input.x)*fe(input.y)), old(1*1 - DD*fe(input.t)*fe(input.t)), old(1*1 + DD*fe(input.t)*fe(input.t)), old(fe(input.y)*fe(input.y) + 5*fe(input.x)*fe(input.x)))
  ensures okT(p)
  modifies *p
  property P01
func (p *Point_xtw_subgroup) SetFrom(input)
  instance input *Point_axtw_subgroup
  requires okA(input)
  requires 1 != 0
  use nonsquare(-5, fe(input.x), 1)
  ensures fe(p.x)*old(fe(input.y)) == fe(p.y)*old(fe(input.x)) && fe(p.x)*old(fe(input.t)) == fe(p.t)*old(fe(input.x)) && fe(p.x)*old(1) == fe(p.z)*old(fe(input.x)) && fe(p.y)*old(fe(input.t)) == fe(p.t)*old(fe(input.y)) && fe(p.y)*old(1) == fe(p.z)*old(fe(input.y)) && fe(p.t)*old(1) == fe(p.z)*old(fe(input.t))
  ensures okT(p)
  modifies *p, *input
  property P01
func (p *Point_xtw_subgroup) Neg(input)
  instance input *Point_axtw_subgroup
  requires okA(input)
  requires 1 != 0
  use nonsquare(-5, fe(input.x), 1)
  ensures fe(p.x)*old(fe(input.y)) == fe(p.y)*old(-fe(input.x)) && fe(p.x)*old(-fe(input.t)) == fe(p.t)*old(-fe(input.x)) && fe(p.x)*old(1) == fe(p.z)*old(-fe(input.x)) && fe(p.y)*old(-fe(input.t)) == fe(p.t)*old(fe(input.y)) && fe(p.y)*old(1) == fe(p.z)*old(fe(input.y)) && fe(p.t)*old(1) == fe(p.z)*old(-fe(input.t))
  ensures okT(p)
  modifies *p, *input
  property P01
func (p *Point_xtw_subgroup) Endo(input)
  instance input *Point_axtw_subgroup
  requires okA(input)
  requires 1 != 0
  use nonsquare(-5, fe(input.x), 1)
  use nonsquare(DD, old(endoE(fe(input.y), 1)), old(fe(input.x)*fe(input.y)))
  use nonsquare(-5, old(endoE(fe(input.y), 1)), old(fe(input.x)*fe(input.y)))
  ensures sumT(p, old(endoE(fe(input.y), 1)), old(endoF(fe(input.y), 1)), old(fe(input.x)*fe(input.y)), old(endoH(fe(input.y), 1)))
  ensures implies(old(fe(input.x) == 0), fe(p.x) == 0 && fe(p.y) == fe(p.z))
  ensures okT(p)
  modifies *p, *input
  property P02
func (p *point_xtw_base) Double(input)
  instance input *Point_efgh_subgroup
  requires okS(input)
  use nonsquare(DD, fe(input.e), fe(input.g))
  use nonsquare(-5, fe(input.e), fe(input.g))
  use nonsquare(DD, tS(input), zS(input))
  use nonsquare(-DD, tS(input), zS(input))
  use nonsquare(-5, xS(input), yS(input))
  ensures sumT(p, old(2*xS(input)*yS(input)), old(zS(input)*zS(input) - DD*tS(input)*tS(input)), old(zS(input)*zS(input) + DD*tS(input)*tS(input)), old(yS(input)*yS(input) + 5*xS(input)*xS(input)))
  ensures okT(p)
  modifies *p
  property P01
func (p *Point_xtw_subgroup) SetFrom(input)
  instance input *Point_efgh_subgroup
  requires okS(input)
  requires zS(input) != 0
  use nonsquare(DD, fe(input.e), fe(input.g))
  use nonsquare(-5, fe(input.e), fe(input.g))
  ensures fe(p.x)*old(yS(input)) == fe(p.y)*old(xS(input)) && fe(p.x)*old(tS(input)) == fe(p.t)*old(xS(input)) && fe(p.x)*old(zS(input)) == fe(p.z)*old(xS(input)) && fe(p.y)*old(tS(input)) == fe(p.t)*old(yS(input)) && fe(p.y)*old(zS(input)) == fe(p.z)*old(yS(input)) && fe(p.t)*old(zS(input)) == fe(p.z)*old(tS(input))
  ensures okT(p)
  modifies *p, *input
  property P01
func (p *Point_xtw_subgroup) Neg(input)
  instance input *Point_efgh_subgroup
  requires okS(input)
  requires zS(input) != 0
  use nonsquare(DD, fe(input.e), fe(input.g))
  use nonsquare(-5, fe(input.e), fe(input.g))
  ensures fe(p.x)*old(yS(input)) == fe(p.y)*old(-xS(input)) && fe(p.x)*old(-tS(input)) == fe(p.t)*old(-xS(input)) && fe(p.x)*old(zS(input)) == fe(p.z)*old(-xS(input)) && fe(p.y)*old(-tS(input)) == fe(p.t)*old(yS(input)) && fe(p.y)*old(zS(input)) == fe(p.z)*old(yS(input)) && fe(p.t)*old(zS(input)) == fe(p.z)*old(-tS(input))
  ensures okT(p)
  modifies *p, *input
  property P01
func (p *Point_xtw_subgroup) Endo(input)
  instance input *Point_efgh_subgroup
  requires okS(input)
  requires zS(input) != 0
  use nonsquare(DD, fe(input.e), fe(input.g))
  use nonsquare(-5, fe(input.e), fe(input.g))
  use nonsquare(DD, old(endoE(yS(input), zS(input))), old(xS(input)*yS(input)))
  use nonsquare(-5, old(endoE(yS(input), zS(input))), old(xS(input)*yS(input)))
  ensures sumT(p, old(endoE(yS(input), zS(input))), old(endoF(yS(input), zS(input))), old(xS(input)*yS(input)), old(endoH(yS(input), zS(input))))
  ensures implies(old(xS(input) == 0), fe(p.x) == 0 && fe(p.y) == fe(p.z))
  ensures okT(p)
  modifies *p, *input
  property P02
func (p *Point_xtw_subgroup) IsEqual(other) (r)
  instance other *Point_xtw_subgroup
  requires okT(p) && okT(other)
  requires fe(p.z) != 0 && fe(other.z) != 0
  use nonsquare(-5, fe(p.x), fe(p.z))
  use nonsquare(DD, fe(p.t), fe(p.y))
  use nonsquare(-5, fe(other.x), fe(other.z))
  use nonsquare(DD, fe(other.t), fe(other.y))
  ensures iff(r, old(fe(p.x)*fe(other.y) == fe(p.y)*fe(other.x)))
  modifies *p, *other
  property P03
func (p *Point_xtw_subgroup) IsEqual(other) (r)
  instance other *Point_axtw_subgroup
  requires okT(p) && okA(other)
  requires fe(p.z) != 0 && 1 != 0
  use nonsquare(-5, fe(p.x), fe(p.z))
  use nonsquare(DD, fe(p.t), fe(p.y))
  use nonsquare(-5, fe(other.x), 1)
  ensures iff(r, old(fe(p.x)*fe(other.y) == fe(p.y)*fe(other.x)))
  modifies *p, *other
  property P03
func (p *Point_xtw_subgroup) IsEqual(other) (r)
  instance other *Point_efgh_subgroup
  requires okT(p) && okS(other)
  requires fe(p.z) != 0 && zS(other) != 0
  use nonsquare(-5, fe(p.x), fe(p.z))
  use nonsquare(DD, fe(p.t), fe(p.y))
  use nonsquare(DD, fe(other.e), fe(other.g))
  use nonsquare(-5, fe(other.e), fe(other.g))
  ensures iff(r, old(fe(p.x)*yS(other) == fe(p.y)*xS(other)))
  modifies *p, *other
  property P03
func (p *Point_axtw_subgroup) Add(x, y)
  instance x *Point_xtw_subgroup
  instance y *Point_xtw_subgroup
  requires okT(x) && okT(y)
  requires fe(x.z)*fe(y.z) + DD*fe(x.t)*fe(y.t) != 0 && fe(x.z)*fe(y.z) - DD*fe(x.t)*fe(y.t) != 0
  use nonsquare(-5, fe(x.x), fe(x.z))
  use nonsquare(DD, fe(x.t), fe(x.y))
  use nonsquare(-5, fe(y.x), fe(y.z))
  use nonsquare(DD, fe(y.t), fe(y.y))
  ensures sumA(p, old(fe(x.x)*fe(y.y) + fe(x.y)*fe(y.x)), old(fe(x.z)*fe(y.z) - DD*fe(x.t)*fe(y.t)), old(fe(x.z)*fe(y.z) + DD*fe(x.t)*fe(y.t)), old(fe(x.y)*fe(y.y) + 5*fe(x.x)*fe(y.x)))
  ensures okA(p)
  modifies *p
  property P01
func (p *Point_axtw_subgroup) Add(x, y)
  instance x *Point_xtw_subgroup
  instance y *Point_axtw_subgroup
  requires okT(x) && okA(y)
  requires fe(x.z)*1 + DD*fe(x.t)*fe(y.t) != 0 && fe(x.z)*1 - DD*fe(x.t)*fe(y.t) != 0
  use nonsquare(-5, fe(x.x), fe(x.z))
  use nonsquare(DD, fe(x.t), fe(x.y))
  use nonsquare(-5, fe(y.x), 1)
  ensures sumA(p, old(fe(x.x)*fe(y.y) + fe(x.y)*fe(y.x)), old(fe(x.z)*1 - DD*fe(x.t)*fe(y.t)), old(fe(x.z)*1 + DD*fe(x.t)*fe(y.t)), old(fe(x.y)*fe(y.y) + 5*fe(x.x)*fe(y.x)))
  ensures okA(p)
  modifies *p
  property P01
func (p *Point_axtw_subgroup) Add(x, y)
  instance x *Point_xtw_subgroup
  instance y *Point_efgh_subgroup
  requires okT(x) && okS(y)
  requires fe(x.z)*zS(y) + DD*fe(x.t)*tS(y) != 0 && fe(x.z)*zS(y) - DD*fe(x.t)*tS(y) != 0
  use nonsquare(-5, fe(x.x), fe(x.z))
  use nonsquare(DD, fe(x.t), fe(x.y))
  use nonsquare(DD, fe(y.e), fe(y.g))
  use nonsquare(-5, fe(y.e), fe(y.g))
  inlinecall bandersnatch/curvePoints.(*point_efgh_base).toDecaf_xtw
  ensures sumA(p, old(fe(x.x)*yS(y) + fe(x.y)*xS(y)), old(fe(x.z)*zS(y) - DD*fe(x.t)*tS(y)), old(fe(x.z)*zS(y) + DD*fe(x.t)*tS(y)), old(fe(x.y)*yS(y) + 5*fe(x.x)*xS(y)))
  ensures okA(p)
  modifies *p
  property P01
func (p *Point_axtw_subgroup) AddEq(x)
  instance x *Point_xtw_subgroup
  requires okA(p) && okT(x)
  requires 1*fe(x.z) + DD*fe(p.t)*fe(x.t) != 0 && 1*fe(x.z) - DD*fe(p.t)*fe(x.t) != 0
  use nonsquare(-5, fe(p.x), 1)
  use nonsquare(-5, fe(x.x), fe(x.z))
  use nonsquare(DD, fe(x.t), fe(x.y))
  ensures sumA(p, old(fe(p.x)*fe(x.y) + fe(p.y)*fe(x.x)), old(1*fe(x.z) - DD*fe(p.t)*fe(x.t)), old(1*fe(x.z) + DD*fe(p.t)*fe(x.t)), old(fe(p.y)*fe(x.y) + 5*fe(p.x)*fe(x.x)))
  ensures okA(p)
  modifies *p
  property P01
func (p *Point_axtw_subgroup) Add(x, y)
  instance x *Point_axtw_subgroup
  instance y *Point_xtw_subgroup
  requires okA(x) && okT(y)
  requires 1*fe(y.z) + DD*fe(x.t)*fe(y.t) != 0 && 1*fe(y.z) - DD*fe(x.t)*fe(y.t) != 0
  use nonsquare(-5, fe(x.x), 1)
  use nonsquare(-5, fe(y.x), fe(y.z))
  use nonsquare(DD, fe(y.t), fe(y.y))
  ensures sumA(p, old(fe(x.x)*fe(y.y) + fe(x.y)*fe(y.x)), old(1*fe(y.z) - DD*fe(x.t)*fe(y.t)), old(1*fe(y.z) + DD*fe(x.t)*fe(y.t)), old(fe(x.y)*fe(y.y) + 5*fe(x.x)*fe(y.x)))
  ensures okA(p)
  modifies *p
  property P01
func (p *Point_axtw_subgroup) Add(x, y)
  instance x *Point_axtw_subgroup
  instance y *Point_axtw_subgroup
  requires okA(x) && okA(y)
  requires 1*1 + DD*fe(x.t)*fe(y.t) != 0 && 1*1 - DD*fe(x.t)*fe(y.t) != 0
  use nonsquare(-5, fe(x.x), 1)
  use nonsquare(-5, fe(y.x), 1)
  ensures sumA(p, old(fe(x.x)*fe(y.y) + fe(x.y)*fe(y.x)), old(1*1 - DD*fe(x.t)*fe(y.t)), old(1*1 + DD*fe(x.t)*fe(y.t)), old(fe(x.y)*fe(y.y) + 5*fe(x.x)*fe(y.x)))
  ensures okA(p)
  modifies *p
  property P01
func (p *Point_axtw_subgroup) Add(x, y)
  instance x *Point_axtw_subgroup
  instance y *Point_efgh_subgroup
  requires okA(x) && okS(y)
  requires 1*zS(y) + DD*fe(x.t)*tS(y) != 0 && 1*zS(y) - DD*fe(x.t)*tS(y) != 0
  use nonsquare(-5, fe(x.x), 1)
  use nonsquare(DD, fe(y.e), fe(y.g))
  use nonsquare(-5, fe(y.e), fe(y.g))
  inlinecall bandersnatch/curvePoints.(*point_efgh_base).toDecaf_xtw
  ensures sumA(p, old(fe(x.x)*yS(y) + fe(x.y)*xS(y)), old(1*zS(y) - DD*fe(x.t)*tS(y)), old(1*zS(y) + DD*fe(x.t)*tS(y)), old(fe(x.y)*yS(y) + 5*fe(x.x)*xS(y)))
  ensures okA(p)
  modifies *p
  property P01
func (p *Point_axtw_subgroup) AddEq(x)
  instance x *Point_axtw_subgroup
  requires okA(p) && okA(x)
  requires 1*1 + DD*fe(p.t)*fe(x.t) != 0 && 1*1 - DD*fe(p.t)*fe(x.t) != 0
  use nonsquare(-5, fe(p.x), 1)
  use nonsquare(-5, fe(x.x), 1)
  ensures sumA(p, old(fe(p.x)*fe(x.y) + fe(p.y)*fe(x.x)), old(1*1 - DD*fe(p.t)*fe(x.t)), old(1*1 + DD*fe(p.t)*fe(x.t)), old(fe(p.y)*fe(x.y) + 5*fe(p.x)*fe(x.x)))
  ensures okA(p)
  modifies *p
  property P01
func (p *Point_axtw_subgroup) Add(x, y)
  instance x *Point_efgh_subgroup
  instance y *Point_xtw_subgroup
  requires okS(x) && okT(y)
  requires zS(x)*fe(y.z) + DD*tS(x)*fe(y.t) != 0 && zS(x)*fe(y.z) - DD*tS(x)*fe(y.t) != 0
  use nonsquare(DD, fe(x.e), fe(x.g))
  use nonsquare(-5, fe(x.e), fe(x.g))
  use nonsquare(-5, fe(y.x), fe(y.z))
  use nonsquare(DD, fe(y.t), fe(y.y))
  inlinecall bandersnatch/curvePoints.(*point_efgh_base).toDecaf_xtw
  ensures sumA(p, old(xS(x)*fe(y.y) + yS(x)*fe(y.x)), old(zS(x)*fe(y.z) - DD*tS(x)*fe(y.t)), old(zS(x)*fe(y.z) + DD*tS(x)*fe(y.t)), old(yS(x)*fe(y.y) + 5*xS(x)*fe(y.x)))
  ensures okA(p)
  modifies *p
  property P01
func (p *Point_axtw_subgroup) Add(x, y)
  instance x *Point_efgh_subgroup
  instance y *Point_axtw_subgroup
  requires okS(x) && okA(y)
  requires zS(x)*1 + DD*tS(x)*fe(y.t) != 0 && zS(x)*1 - DD*tS(x)*fe(y.t) != 0
  use nonsquare(DD, fe(x.e), fe(x.g))
  use nonsquare(-5, fe(x.e), fe(x.g))
  use nonsquare(-5, fe(y.x), 1)
  inlinecall bandersnatch/curvePoints.(*point_efgh_base).toDecaf_xtw
  ensures sumA(p, old(xS(x)*fe(y.y) + yS(x)*fe(y.x)), old(zS(x)*1 - DD*tS(x)*fe(y.t)), old(zS(x)*1 + DD*tS(x)*fe(y.t)), old(yS(x)*fe(y.y) + 5*xS(x)*fe(y.x)))
  ensures okA(p)
  modifies *p
  property P01
func (p *Point_axtw_subgroup) Add(x, y)
  instance x *Point_efgh_subgroup
  instance y *Point_efgh_subgroup
  requires okS(x) && okS(y)
  requires zS(x)*zS(y) + DD*tS(x)*tS(y) != 0 && zS(x)*zS(y) - DD*tS(x)*tS(y) != 0
  use nonsquare(DD, fe(x.e), fe(x.g))
  use nonsquare(-5, fe(x.e), fe(x.g))
  use nonsquare(DD, fe(y.e), fe(y.g))
  use nonsquare(-5, fe(y.e), fe(y.g))
  inlinecall bandersnatch/curvePoints.(*point_efgh_base).toDecaf_xtw
  ensures sumA(p, old(xS(x)*yS(y) + yS(x)*xS(y)), old(zS(x)*zS(y) - DD*tS(x)*tS(y)), old(zS(x)*zS(y) + DD*tS(x)*tS(y)), old(yS(x)*yS(y) + 5*xS(x)*xS(y)))
  ensures okA(p)
  modifies *p
  property P01
func (p *Point_axtw_subgroup) AddEq(x)
  instance x *Point_efgh_subgroup
  requires okA(p) && okS(x)
  requires 1*zS(x) + DD*fe(p.t)*tS(x) != 0 && 1*zS(x) - DD*fe(p.t)*tS(x) != 0
  use nonsquare(-5, fe(p.x), 1)
  use nonsquare(DD, fe(x.e), fe(x.g))
  use nonsquare(-5, fe(x.e), fe(x.g))
  inlinecall bandersnatch/curvePoints.(*point_efgh_base).toDecaf_xtw
  ensures sumA(p, old(fe(p.x)*yS(x) + fe(p.y)*xS(x)), old(1*zS(x) - DD*fe(p.t)*tS(x)), old(1*zS(x) + DD*fe(p.t)*tS(x)), old(fe(p.y)*yS(x) + 5*fe(p.x)*xS(x)))
  ensures okA(p)
  modifies *p
  property P01
func (p *Point_axtw_subgroup) Sub(x, y)
  instance x *Point_xtw_subgroup
  instance y *Point_xtw_subgroup
  requires okT(x) && okT(y)
  requires fe(x.z)*fe(y.z) - DD*fe(x.t)*fe(y.t) != 0 && fe(x.z)*fe(y.z) + DD*fe(x.t)*fe(y.t) != 0
  use nonsquare(-5, fe(x.x), fe(x.z))
  use nonsquare(DD, fe(x.t), fe(x.y))
  use nonsquare(-5, fe(y.x), fe(y.z))
  use nonsquare(DD, fe(y.t), fe(y.y))
  ensures sumA(p, old(fe(x.x)*fe(y.y) - fe(x.y)*fe(y.x)), old(fe(x.z)*fe(y.z) + DD*fe(x.t)*fe(y.t)), old(fe(x.z)*fe(y.z) - DD*fe(x.t)*fe(y.t)), old(fe(x.y)*fe(y.y) - 5*fe(x.x)*fe(y.x)))
  ensures okA(p)
  modifies *p
  property P01
func (p *Point_axtw_subgroup) Sub(x, y)
  instance x *Point_xtw_subgroup
  instance y *Point_axtw_subgroup
  requires okT(x) && okA(y)
  requires fe(x.z)*1 - DD*fe(x.t)*fe(y.t) != 0 && fe(x.z)*1 + DD*fe(x.t)*fe(y.t) != 0
  use nonsquare(-5, fe(x.x), fe(x.z))
  use nonsquare(DD, fe(x.t), fe(x.y))
  use nonsquare(-5, fe(y.x), 1)
  ensures sumA(p, old(fe(x.x)*fe(y.y) - fe(x.y)*fe(y.x)), old(fe(x.z)*1 + DD*fe(x.t)*fe(y.t)), old(fe(x.z)*1 - DD*fe(x.t)*fe(y.t)), old(fe(x.y)*fe(y.y) - 5*fe(x.x)*fe(y.x)))
  ensures okA(p)
  modifies *p
  property P01
func (p *Point_axtw_subgroup) Sub(x, y)
  instance x *Point_xtw_subgroup
  instance y *Point_efgh_subgroup
  requires okT(x) && okS(y)
  requires fe(x.z)*zS(y) - DD*fe(x.t)*tS(y) != 0 && fe(x.z)*zS(y) + DD*fe(x.t)*tS(y) != 0
  use nonsquare(-5, fe(x.x), fe(x.z))
  use nonsquare(DD, fe(x.t), fe(x.y))
  use nonsquare(DD, fe(y.e), fe(y.g))
  use nonsquare(-5, fe(y.e), fe(y.g))
  inlinecall bandersnatch/curvePoints.(*point_efgh_base).toDecaf_xtw
  ensures sumA(p, old(fe(x.x)*yS(y) - fe(x.y)*xS(y)), old(fe(x.z)*zS(y) + DD*fe(x.t)*tS(y)), old(fe(x.z)*zS(y) - DD*fe(x.t)*tS(y)), old(fe(x.y)*yS(y) - 5*fe(x.x)*xS(y)))
  ensures okA(p)
  modifies *p
  property P01
func (p *Point_axtw_subgroup) SubEq(x)
  instance x *Point_xtw_subgroup
  requires okA(p) && okT(x)
  requires 1*fe(x.z) - DD*fe(p.t)*fe(x.t) != 0 && 1*fe(x.z) + DD*fe(p.t)*fe(x.t) != 0
  use nonsquare(-5, fe(p.x), 1)
  use nonsquare(-5, fe(x.x), fe(x.z))
  use nonsquare(DD, fe(x.t), fe(x.y))
  ensures sumA(p, old(fe(p.x)*fe(x.y) - fe(p.y)*fe(x.x)), old(1*fe(x.z) + DD*fe(p.t)*fe(x.t)), old(1*fe(x.z) - DD*fe(p.t)*fe(x.t)), old(fe(p.y)*fe(x.y) - 5*fe(p.x)*fe(x.x)))
  ensures okA(p)
  modifies *p
  property P01
func (p *Point_axtw_subgroup) Sub(x, y)
  instance x *Point_axtw_subgroup
  instance y *Point_xtw_subgroup
  requires okA(x) && okT(y)
  requires 1*fe(y.z) - DD*fe(x.t)*fe(y.t) != 0 && 1*fe(y.z) + DD*fe(x.t)*fe(y.t) != 0
  use nonsquare(-5, fe(x.x), 1)
  use nonsquare(-5, fe(y.x), fe(y.z))
  use nonsquare(DD, fe(y.t), fe(y.y))
  ensures sumA(p, old(fe(x.x)*fe(y.y) - fe(x.y)*fe(y.x)), old(1*fe(y.z) + DD*fe(x.t)*fe(y.t)), old(1*fe(y.z) - DD*fe(x.t)*fe(y.t)), old(fe(x.y)*fe(y.y) - 5*fe(x.x)*fe(y.x)))
  ensures okA(p)
  modifies *p
  property P01
func (p *Point_axtw_subgroup) Sub(x, y)
  instance x *Point_axtw_subgroup
  instance y *Point_axtw_subgroup
  requires okA(x) && okA(y)
  requires 1*1 - DD*fe(x.t)*fe(y.t) != 0 && 1*1 + DD*fe(x.t)*fe(y.t) != 0
  use nonsquare(-5, fe(x.x), 1)
  use nonsquare(-5, fe(y.x), 1)
  ensures sumA(p, old(fe(x.x)*fe(y.y) - fe(x.y)*fe(y.x)), old(1*1 + DD*fe(x.t)*fe(y.t)), old(1*1 - DD*fe(x.t)*fe(y.t)), old(fe(x.y)*fe(y.y) - 5*fe(x.x)*fe(y.x)))
  ensures okA(p)
  modifies *p
  property P01
func (p *Point_axtw_subgroup) Sub(x, y)
  instance x *Point_axtw_subgroup
  instance y *Point_efgh_subgroup
  requires okA(x) && okS(y)
  requires 1*zS(y) - DD*fe(x.t)*tS(y) != 0 && 1*zS(y) + DD*fe(x.t)*tS(y) != 0
  use nonsquare(-5, fe(x.x), 1)
  use nonsquare(DD, fe(y.e), fe(y.g))
  use nonsquare(-5, fe(y.e), fe(y.g))
  inlinecall bandersnatch/curvePoints.(*point_efgh_base).toDecaf_xtw
  ensures sumA(p, old(fe(x.x)*yS(y) - fe(x.y)*xS(y)), old(1*zS(y) + DD*fe(x.t)*tS(y)), old(1*zS(y) - DD*fe(x.t)*tS(y)), old(fe(x.y)*yS(y) - 5*fe(x.x)*xS(y)))
  ensures okA(p)
  modifies *p
  property P01
func (p *Point_axtw_subgroup) SubEq(x)
  instance x *Point_axtw_subgroup
  requires okA(p) && okA(x)
  requires 1*1 - DD*fe(p.t)*fe(x.t) != 0 && 1*1 + DD*fe(p.t)*fe(x.t) != 0
  use nonsquare(-5, fe(p.x), 1)
  use nonsquare(-5, fe(x.x), 1)
  ensures sumA(p, old(fe(p.x)*fe(x.y) - fe(p.y)*fe(x.x)), old(1*1 + DD*fe(p.t)*fe(x.t)), old(1*1 - DD*fe(p.t)*fe(x.t)), old(fe(p.y)*fe(x.y) - 5*fe(p.x)*fe(x.x)))
  ensures okA(p)
  modifies *p
  property P01
func (p *Point_axtw_subgroup) Sub(x, y)
  instance x *Point_efgh_subgroup
  instance y *Point_xtw_subgroup
  requires okS(x) && okT(y)
  requires zS(x)*fe(y.z) - DD*tS(x)*fe(y.t) != 0 && zS(x)*fe(y.z) + DD*tS(x)*fe(y.t) != 0
  use nonsquare(DD, fe(x.e), fe(x.g))
  use nonsquare(-5, fe(x.e), fe(x.g))
  use nonsquare(-5, fe(y.x), fe(y.z))
  use nonsquare(DD, fe(y.t), fe(y.y))
  inlinecall bandersnatch/curvePoints.(*point_efgh_base).toDecaf_xtw
  ensures sumA(p, old(xS(x)*fe(y.y) - yS(x)*fe(y.x)), old(zS(x)*fe(y.z) + DD*tS(x)*fe(y.t)), old(zS(x)*fe(y.z) - DD*tS(x)*fe(y.t)), old(yS(x)*fe(y.y) - 5*xS(x)*fe(y.x)))
  ensures okA(p)
  modifies *p
  property P01
func (p *Point_axtw_subgroup) Sub(x, y)
  instance x *Point_efgh_subgroup
  instance y *Point_axtw_subgroup
  requires okS(x) && okA(y)
  requires zS(x)*1 - DD*tS(x)*fe(y.t) != 0 && zS(x)*1 + DD*tS(x)*fe(y.t) != 0
  use nonsquare(DD, fe(x.e), fe(x.g))
  use nonsquare(-5, fe(x.e), fe(x.g))
  use nonsquare(-5, fe(y.x), 1)
  inlinecall bandersnatch/curvePoints.(*point_efgh_base).toDecaf_xtw
  ensures sumA(p, old(xS(x)*fe(y.y) - yS(x)*fe(y.x)), old(zS(x)*1 + DD*tS(x)*fe(y.t)), old(zS(x)*1 - DD*tS(x)*fe(y.t)), old(yS(x)*fe(y.y) - 5*xS(x)*fe(y.x)))
  ensures okA(p)
  modifies *p
  property P01
func (p *Point_axtw_subgroup) Sub(x, y)
  instance x *Point_efgh_subgroup
  instance y *Point_efgh_subgroup
  requires okS(x) && okS(y)
  requires zS(x)*zS(y) - DD*tS(x)*tS(y) != 0 && zS(x)*zS(y) + DD*tS(x)*tS(y) != 0
  use nonsquare(DD, fe(x.e), fe(x.g))
  use nonsquare(-5, fe(x.e), fe(x.g))
  use nonsquare(DD, fe(y.e), fe(y.g))
  use nonsquare(-5, fe(y.e), fe(y.g))
  inlinecall bandersnatch/curvePoints.(*point_efgh_base).toDecaf_xtw
  ensures sumA(p, old(xS(x)*yS(y) - yS(x)*xS(y)), old(zS(x)*zS(y) + DD*tS(x)*tS(y)), old(zS(x)*zS(y) - DD*tS(x)*tS(y)), old(yS(x)*yS(y) - 5*xS(x)*xS(y)))
  ensures okA(p)
  modifies *p
  property P01
func (p *Point_axtw_subgroup) SubEq(x)
  instance x *Point_efgh_subgroup
  requires okA(p) && okS(x)
  requires 1*zS(x) - DD*fe(p.t)*tS(x) != 0 && 1*zS(x) + DD*fe(p.t)*tS(x) != 0
  use nonsquare(-5, fe(p.x), 1)
  use nonsquare(DD, fe(x.e), fe(x.g))
  use nonsquare(-5, fe(x.e), fe(x.g))
  inlinecall bandersnatch/curvePoints.(*point_efgh_base).toDecaf_xtw
  ensures sumA(p, old(fe(p.x)*yS(x) - fe(p.y)*xS(x)), old(1*zS(x) + DD*fe(p.t)*tS(x)), old(1*zS(x) - DD*fe(p.t)*tS(x)), old(fe(p.y)*yS(x) - 5*fe(p.x)*xS(x)))
  ensures okA(p)
  modifies *p
  property P01
func (p *point_axtw_base) Double(in)
  instance in *Point_xtw_subgroup
  requires okT(in)
  use nonsquare(-5, fe(in.x), fe(in.z))
  use nonsquare(DD, fe(in.t), fe(in.y))
  use nonsquare(DD, fe(in.t), fe(in.z))
  use nonsquare(-DD, fe(in.t), fe(in.z))
  use nonsquare(-5, fe(in.x), fe(in.y))
  ensures sumA(p, old(2*fe(in.x)*fe(in.y)), old(fe(in.z)*fe(in.z) - DD*fe(in.t)*fe(in.t)), old(fe(in.z)*fe(in.z) + DD*fe(in.t)*fe(in.t)), old(fe(in.y)*fe(in.y) + 5*fe(in.x)*fe(in.x)))
  ensures okA(p)
  modifies *p
  property P01
func (p *Point_axtw_subgroup) SetFrom(input)
  instance input *Point_xtw_subgroup
  requires okT(input)
  requires fe(input.z) != 0
  use nonsquare(-5, fe(input.x), fe(input.z))
  use nonsquare(DD, fe(input.t), fe(input.y))
  ensures fe(p.x)*old(fe(input.y)) == fe(p.y)*old(fe(input.x)) && fe(p.x)*old(fe(input.t)) == fe(p.t)*old(fe(input.x)) && fe(p.x)*old(fe(input.z)) == 1*old(fe(input.x)) && fe(p.y)*old(fe(input.t)) == fe(p.t)*old(fe(input.y)) && fe(p.y)*old(fe(input.z)) == 1*old(fe(input.y)) && fe(p.t)*old(fe(input.z)) == 1*old(fe(input.t))
  ensures okA(p)
  modifies *p, *input
  property P01
func (p *Point_axtw_subgroup) Neg(input)
  instance input *Point_xtw_subgroup
  requires okT(input)
  requires fe(input.z) != 0
  use nonsquare(-5, fe(input.x), fe(input.z))
  use nonsquare(DD, fe(input.t), fe(input.y))
  ensures fe(p.x)*old(fe(input.y)) == fe(p.y)*old(-fe(input.x)) && fe(p.x)*old(-fe(input.t)) == fe(p.t)*old(-fe(input.x)) && fe(p.x)*old(fe(input.z)) == 1*old(-fe(input.x)) && fe(p.y)*old(-fe(input.t)) == fe(p.t)*old(fe(input.y)) && fe(p.y)*old(fe(input.z)) == 1*old(fe(input.y)) && fe(p.t)*old(fe(input.z)) == 1*old(-fe(input.t))
  ensures okA(p)
  modifies *p, *input
  property P01
func (p *Point_axtw_subgroup) Endo(input)
  instance input *Point_xtw_subgroup
  requires okT(input)
  requires fe(input.z) != 0
  use nonsquare(-5, fe(input.x), fe(input.z))
  use nonsquare(DD, fe(input.t), fe(input.y))
  use nonsquare(DD, old(endoE(fe(input.y), fe(input.z))), old(fe(input.x)*fe(input.y)))
  use nonsquare(-5, old(endoE(fe(input.y), fe(input.z))), old(fe(input.x)*fe(input.y)))
  ensures sumA(p, old(endoE(fe(input.y), fe(input.z))), old(endoF(fe(input.y), fe(input.z))), old(fe(input.x)*fe(input.y)), old(endoH(fe(input.y), fe(input.z))))
  ensures implies(old(fe(input.x) == 0), fe(p.x) == 0 && fe(p.y) == 1)
  ensures okA(p)
  modifies *p, *input
  property P02
func (p *point_axtw_base) Double(in)
  instance in *Point_axtw_subgroup
  requires okA(in)
  use nonsquare(-5, fe(in.x), 1)
  use nonsquare(DD, fe(in.t), 1)
  use nonsquare(-DD, fe(in.t), 1)
  use nonsquare(-5, fe(in.x), fe(in.y))
  ensures sumA(p, old(2*fe(in.x)*fe(in.y)), old(1*1 - DD*fe(in.t)*fe(in.t)), old(1*1 + DD*fe(in.t)*fe(in.t)), old(fe(in.y)*fe(in.y) + 5*fe(in.x)*fe(in.x)))
  ensures okA(p)
  modifies *p
  property P01
func (p *Point_axtw_subgroup) SetFrom(input)
  instance input *Point_axtw_subgroup
  requires okA(input)
  requires 1 != 0
  use nonsquare(-5, fe(input.x), 1)
  ensures fe(p.x)*old(fe(input.y)) == fe(p.y)*old(fe(input.x)) && fe(p.x)*old(fe(input.t)) == fe(p.t)*old(fe(input.x)) && fe(p.x)*old(1) == 1*old(fe(input.x)) && fe(p.y)*old(fe(input.t)) == fe(p.t)*old(fe(input.y)) && fe(p.y)*old(1) == 1*old(fe(input.y)) && fe(p.t)*old(1) == 1*old(fe(input.t))
  ensures okA(p)
  modifies *p, *input
  property P01
func (p *Point_axtw_subgroup) Neg(input)
  instance input *Point_axtw_subgroup
  requires okA(input)
  requires 1 != 0
  use nonsquare(-5, fe(input.x), 1)
  ensures fe(p.x)*old(fe(input.y)) == fe(p.y)*old(-fe(input.x)) && fe(p.x)*old(-fe(input.t)) == fe(p.t)*old(-fe(input.x)) && fe(p.x)*old(1) == 1*old(-fe(input.x)) && fe(p.y)*old(-fe(input.t)) == fe(p.t)*old(fe(input.y)) && fe(p.y)*old(1) == 1*old(fe(input.y)) && fe(p.t)*old(1) == 1*old(-fe(input.t))
  ensures okA(p)
  modifies *p, *input
  property P01
func (p *Point_axtw_subgroup) Endo(input)
  instance input *Point_axtw_subgroup
  requires okA(input)
  requires 1 != 0
  use nonsquare(-5, fe(input.x), 1)
  use nonsquare(DD, old(endoE(fe(input.y), 1)), old(fe(input.x)*fe(input.y)))
  use nonsquare(-5, old(endoE(fe(input.y), 1)), old(fe(input.x)*fe(input.y)))
  ensures sumA(p, old(endoE(fe(input.y), 1)), old(endoF(fe(input.y), 1)), old(fe(input.x)*fe(input.y)), old(endoH(fe(input.y), 1)))
  ensures implies(old(fe(input.x) == 0), fe(p.x) == 0 && fe(p.y) == 1)
  ensures okA(p)
  modifies *p, *input
  property P02
func (p *Point_axtw_subgroup) EndoEq()
  requires okA(p)
  requires 1 != 0
  use nonsquare(-5, fe(p.x), 1)
  use nonsquare(DD, old(endoE(fe(p.y), 1)), old(fe(p.x)*fe(p.y)))
  use nonsquare(-5, old(endoE(fe(p.y), 1)), old(fe(p.x)*fe(p.y)))
  ensures sumA(p, old(endoE(fe(p.y), 1)), old(endoF(fe(p.y), 1)), old(fe(p.x)*fe(p.y)), old(endoH(fe(p.y), 1)))
  ensures implies(old(fe(p.x) == 0), fe(p.x) == 0 && fe(p.y) == 1)
  ensures okA(p)
  modifies *p
  property P02
func (p *point_axtw_base) Double(in)
  instance in *Point_efgh_subgroup
  requires okS(in)
  use nonsquare(DD, fe(in.e), fe(in.g))
  use nonsquare(-5, fe(in.e), fe(in.g))
  use nonsquare(DD, tS(in), zS(in))
  use nonsquare(-DD, tS(in), zS(in))
  use nonsquare(-5, xS(in), yS(in))
  ensures sumA(p, old(2*xS(in)*yS(in)), old(zS(in)*zS(in) - DD*tS(in)*tS(in)), old(zS(in)*zS(in) + DD*tS(in)*tS(in)), old(yS(in)*yS(in) + 5*xS(in)*xS(in)))
  ensures okA(p)
  modifies *p
  property P01
func (p *Point_axtw_subgroup) SetFrom(input)
  instance input *Point_efgh_subgroup
  requires okS(input)
  requires zS(input) != 0
  use nonsquare(DD, fe(input.e), fe(input.g))
  use nonsquare(-5, fe(input.e), fe(input.g))
  ensures fe(p.x)*old(yS(input)) == fe(p.y)*old(xS(input)) && fe(p.x)*old(tS(input)) == fe(p.t)*old(xS(input)) && fe(p.x)*old(zS(input)) == 1*old(xS(input)) && fe(p.y)*old(tS(input)) == fe(p.t)*old(yS(input)) && fe(p.y)*old(zS(input)) == 1*old(yS(input)) && fe(p.t)*old(zS(input)) == 1*old(tS(input))
  ensures okA(p)
  modifies *p, *input
  property P01
func (p *Point_axtw_subgroup) Neg(input)
  instance input *Point_efgh_subgroup
  requires okS(input)
  requires zS(input) != 0
  use nonsquare(DD, fe(input.e), fe(input.g))
  use nonsquare(-5, fe(input.e), fe(input.g))
  ensures fe(p.x)*old(yS(input)) == fe(p.y)*old(-xS(input)) && fe(p.x)*old(-tS(input)) == fe(p.t)*old(-xS(input)) && fe(p.x)*old(zS(input)) == 1*old(-xS(input)) && fe(p.y)*old(-tS(input)) == fe(p.t)*old(yS(input)) && fe(p.y)*old(zS(input)) == 1*old(yS(input)) && fe(p.t)*old(zS(input)) == 1*old(-tS(input))
  ensures okA(p)
  modifies *p, *input
  property P01
func (p *Point_axtw_subgroup) Endo(input)
  instance input *Point_efgh_subgroup
  requires okS(input)
  requires zS(input) != 0
  use nonsquare(DD, fe(input.e), fe(input.g))
  use nonsquare(-5, fe(input.e), fe(input.g))
  use nonsquare(DD, old(endoE(yS(input), zS(input))), old(xS(input)*yS(input)))
  use nonsquare(-5, old(endoE(yS(input), zS(input))), old(xS(input)*yS(input)))
  ensures sumA(p, old(endoE(yS(input), zS(input))), old(endoF(yS(input), zS(input))), old(xS(input)*yS(input)), old(endoH(yS(input), zS(input))))
  ensures implies(old(xS(input) == 0), fe(p.x) == 0 && fe(p.y) == 1)
  ensures okA(p)
  modifies *p, *input
  property P02
func (p *Point_axtw_subgroup) IsEqual(other) (r)
  instance other *Point_xtw_subgroup
  requires okA(p) && okT(other)
  requires 1 != 0 && fe(other.z) != 0
  use nonsquare(-5, fe(p.x), 1)
  use nonsquare(-5, fe(other.x), fe(other.z))
  use nonsquare(DD, fe(other.t), fe(other.y))
  ensures iff(r, old(fe(p.x)*fe(other.y) == fe(p.y)*fe(other.x)))
  modifies *p, *other
  property P03
func (p *Point_axtw_subgroup) IsEqual(other) (r)
  instance other *Point_axtw_subgroup
  requires okA(p) && okA(other)
  requires 1 != 0 && 1 != 0
  use nonsquare(-5, fe(p.x), 1)
  use nonsquare(-5, fe(other.x), 1)
  ensures iff(r, old(fe(p.x)*1 == 1*fe(other.x) && fe(p.y)*1 == 1*fe(other.y) || fe(p.x)*1 == -(1*fe(other.x)) && fe(p.y)*1 == -(1*fe(other.y))))
  modifies *p, *other
  property P03
func (p *Point_axtw_subgroup) IsEqual(other) (r)
  instance other *Point_efgh_subgroup
  requires okA(p) && okS(other)
  requires 1 != 0 && zS(other) != 0
  use nonsquare(-5, fe(p.x), 1)
  use nonsquare(DD, fe(other.e), fe(other.g))
  use nonsquare(-5, fe(other.e), fe(other.g))
  ensures iff(r, old(fe(p.x)*zS(other) == 1*xS(other) && fe(p.y)*zS(other) == 1*yS(other) || fe(p.x)*zS(other) == -(1*xS(other)) && fe(p.y)*zS(other) == -(1*yS(other))))
  modifies *p, *other
  property P03
func (p *Point_efgh_subgroup) Add(x, y)
  instance x *Point_xtw_subgroup
  instance y *Point_xtw_subgroup
  requires okT(x) && okT(y)
  requires !(fe(x.x)*fe(y.y) + fe(x.y)*fe(y.x) == 0 && fe(x.z)*fe(y.z) + DD*fe(x.t)*fe(y.t) == 0) && !(fe(x.z)*fe(y.z) - DD*fe(x.t)*fe(y.t) == 0 && fe(x.y)*fe(y.y) + 5*fe(x.x)*fe(y.x) == 0)
  use nonsquare(-5, fe(x.x), fe(x.z))
  use nonsquare(DD, fe(x.t), fe(x.y))
  use nonsquare(-5, fe(y.x), fe(y.z))
  use nonsquare(DD, fe(y.t), fe(y.y))
  ensures sumS(p, old(fe(x.x)*fe(y.y) + fe(x.y)*fe(y.x)), old(fe(x.z)*fe(y.z) - DD*fe(x.t)*fe(y.t)), old(fe(x.z)*fe(y.z) + DD*fe(x.t)*fe(y.t)), old(fe(x.y)*fe(y.y) + 5*fe(x.x)*fe(y.x)))
  ensures okS(p)
  modifies *p
  property P01
func (p *Point_efgh_subgroup) Add(x, y)
  instance x *Point_xtw_subgroup
  instance y *Point_axtw_subgroup
  requires okT(x) && okA(y)
  requires !(fe(x.x)*fe(y.y) + fe(x.y)*fe(y.x) == 0 && fe(x.z)*1 + DD*fe(x.t)*fe(y.t) == 0) && !(fe(x.z)*1 - DD*fe(x.t)*fe(y.t) == 0 && fe(x.y)*fe(y.y) + 5*fe(x.x)*fe(y.x) == 0)
  use nonsquare(-5, fe(x.x), fe(x.z))
  use nonsquare(DD, fe(x.t), fe(x.y))
  use nonsquare(-5, fe(y.x), 1)
  ensures sumS(p, old(fe(x.x)*fe(y.y) + fe(x.y)*fe(y.x)), old(fe(x.z)*1 - DD*fe(x.t)*fe(y.t)), old(fe(x.z)*1 + DD*fe(x.t)*fe(y.t)), old(fe(x.y)*fe(y.y) + 5*fe(x.x)*fe(y.x)))
  ensures okS(p)
  modifies *p
  property P01
func (p *Point_efgh_subgroup) Add(x, y)
  instance x *Point_xtw_subgroup
  instance y *Point_efgh_subgroup
  requires okT(x) && okS(y)
  requires !(fe(x.x)*yS(y) + fe(x.y)*xS(y) == 0 && fe(x.z)*zS(y) + DD*fe(x.t)*tS(y) == 0) && !(fe(x.z)*zS(y) - DD*fe(x.t)*tS(y) == 0 && fe(x.y)*yS(y) + 5*fe(x.x)*xS(y) == 0)
  use nonsquare(-5, fe(x.x), fe(x.z))
  use nonsquare(DD, fe(x.t), fe(x.y))
  use nonsquare(DD, fe(y.e), fe(y.g))
  use nonsquare(-5, fe(y.e), fe(y.g))
  inlinecall bandersnatch/curvePoints.(*point_efgh_base).toDecaf_xtw
  ensures sumS(p, old(fe(x.x)*yS(y) + fe(x.y)*xS(y)), old(fe(x.z)*zS(y) - DD*fe(x.t)*tS(y)), old(fe(x.z)*zS(y) + DD*fe(x.t)*tS(y)), old(fe(x.y)*yS(y) + 5*fe(x.x)*xS(y)))
  ensures okS(p)
  modifies *p
  property P01
func (p *Point_efgh_subgroup) AddEq(input)
  instance input *Point_xtw_subgroup
  requires okS(p) && okT(input)
  requires !(xS(p)*fe(input.y) + yS(p)*fe(input.x) == 0 && zS(p)*fe(input.z) + DD*tS(p)*fe(input.t) == 0) && !(zS(p)*fe(input.z) - DD*tS(p)*fe(input.t) == 0 && yS(p)*fe(input.y) + 5*xS(p)*fe(input.x) == 0)
  use nonsquare(DD, fe(p.e), fe(p.g))
  use nonsquare(-5, fe(p.e), fe(p.g))
  use nonsquare(-5, fe(input.x), fe(input.z))
  use nonsquare(DD, fe(input.t), fe(input.y))
  inlinecall bandersnatch/curvePoints.(*point_efgh_base).toDecaf_xtw
  ensures sumS(p, old(xS(p)*fe(input.y) + yS(p)*fe(input.x)), old(zS(p)*fe(input.z) - DD*tS(p)*fe(input.t)), old(zS(p)*fe(input.z) + DD*tS(p)*fe(input.t)), old(yS(p)*fe(input.y) + 5*xS(p)*fe(input.x)))
  ensures okS(p)
  modifies *p
  property P01
func (p *Point_efgh_subgroup) Add(x, y)
  instance x *Point_axtw_subgroup
  instance y *Point_xtw_subgroup
  requires okA(x) && okT(y)
  requires !(fe(x.x)*fe(y.y) + fe(x.y)*fe(y.x) == 0 && 1*fe(y.z) + DD*fe(x.t)*fe(y.t) == 0) && !(1*fe(y.z) - DD*fe(x.t)*fe(y.t) == 0 && fe(x.y)*fe(y.y) + 5*fe(x.x)*fe(y.x) == 0)
  use nonsquare(-5, fe(x.x), 1)
  use nonsquare(-5, fe(y.x), fe(y.z))
  use nonsquare(DD, fe(y.t), fe(y.y))
  ensures sumS(p, old(fe(x.x)*fe(y.y) + fe(x.y)*fe(y.x)), old(1*fe(y.z) - DD*fe(x.t)*fe(y.t)), old(1*fe(y.z) + DD*fe(x.t)*fe(y.t)), old(fe(x.y)*fe(y.y) + 5*fe(x.x)*fe(y.x)))
  ensures okS(p)
  modifies *p
  property P01
func (p *Point_efgh_subgroup) Add(x, y)
  instance x *Point_axtw_subgroup
  instance y *Point_axtw_subgroup
  requires okA(x) && okA(y)
  requires !(fe(x.x)*fe(y.y) + fe(x.y)*fe(y.x) == 0 && 1*1 + DD*fe(x.t)*fe(y.t) == 0) && !(1*1 - DD*fe(x.t)*fe(y.t) == 0 && fe(x.y)*fe(y.y) + 5*fe(x.x)*fe(y.x) == 0)
  use nonsquare(-5, fe(x.x), 1)
  use nonsquare(-5, fe(y.x), 1)
  ensures sumS(p, old(fe(x.x)*fe(y.y) + fe(x.y)*fe(y.x)), old(1*1 - DD*fe(x.t)*fe(y.t)), old(1*1 + DD*fe(x.t)*fe(y.t)), old(fe(x.y)*fe(y.y) + 5*fe(x.x)*fe(y.x)))
  ensures okS(p)
  modifies *p
  property P01
func (p *Point_efgh_subgroup) Add(x, y)
  instance x *Point_axtw_subgroup
  instance y *Point_efgh_subgroup
  requires okA(x) && okS(y)
  requires !(fe(x.x)*yS(y) + fe(x.y)*xS(y) == 0 && 1*zS(y) + DD*fe(x.t)*tS(y) == 0) && !(1*zS(y) - DD*fe(x.t)*tS(y) == 0 && fe(x.y)*yS(y) + 5*fe(x.x)*xS(y) == 0)
  use nonsquare(-5, fe(x.x), 1)
  use nonsquare(DD, fe(y.e), fe(y.g))
  use nonsquare(-5, fe(y.e), fe(y.g))
  inlinecall bandersnatch/curvePoints.(*point_efgh_base).toDecaf_xtw
  ensures sumS(p, old(fe(x.x)*yS(y) + fe(x.y)*xS(y)), old(1*zS(y) - DD*fe(x.t)*tS(y)), old(1*zS(y) + DD*fe(x.t)*tS(y)), old(fe(x.y)*yS(y) + 5*fe(x.x)*xS(y)))
  ensures okS(p)
  modifies *p
  property P01
func (p *Point_efgh_subgroup) AddEq(input)
  instance input *Point_axtw_subgroup
  requires okS(p) && okA(input)
  requires !(xS(p)*fe(input.y) + yS(p)*fe(input.x) == 0 && zS(p)*1 + DD*tS(p)*fe(input.t) == 0) && !(zS(p)*1 - DD*tS(p)*fe(input.t) == 0 && yS(p)*fe(input.y) + 5*xS(p)*fe(input.x) == 0)
  use nonsquare(DD, fe(p.e), fe(p.g))
  use nonsquare(-5, fe(p.e), fe(p.g))
  use nonsquare(-5, fe(input.x), 1)
  inlinecall bandersnatch/curvePoints.(*point_efgh_base).toDecaf_xtw
  ensures sumS(p, old(xS(p)*fe(input.y) + yS(p)*fe(input.x)), old(zS(p)*1 - DD*tS(p)*fe(input.t)), old(zS(p)*1 + DD*tS(p)*fe(input.t)), old(yS(p)*fe(input.y) + 5*xS(p)*fe(input.x)))
  ensures okS(p)
  modifies *p
  property P01
func (p *Point_efgh_subgroup) Add(x, y)
  instance x *Point_efgh_subgroup
  instance y *Point_xtw_subgroup
  requires okS(x) && okT(y)
  requires !(xS(x)*fe(y.y) + yS(x)*fe(y.x) == 0 && zS(x)*fe(y.z) + DD*tS(x)*fe(y.t) == 0) && !(zS(x)*fe(y.z) - DD*tS(x)*fe(y.t) == 0 && yS(x)*fe(y.y) + 5*xS(x)*fe(y.x) == 0)
  use nonsquare(DD, fe(x.e), fe(x.g))
  use nonsquare(-5, fe(x.e), fe(x.g))
  use nonsquare(-5, fe(y.x), fe(y.z))
  use nonsquare(DD, fe(y.t), fe(y.y))
  inlinecall bandersnatch/curvePoints.(*point_efgh_base).toDecaf_xtw
  ensures sumS(p, old(xS(x)*fe(y.y) + yS(x)*fe(y.x)), old(zS(x)*fe(y.z) - DD*tS(x)*fe(y.t)), old(zS(x)*fe(y.z) + DD*tS(x)*fe(y.t)), old(yS(x)*fe(y.y) + 5*xS(x)*fe(y.x)))
  ensures okS(p)
  modifies *p
  property P01
func (p *Point_efgh_subgroup) Add(x, y)
  instance x *Point_efgh_subgroup
  instance y *Point_axtw_subgroup
  requires okS(x) && okA(y)
  requires !(xS(x)*fe(y.y) + yS(x)*fe(y.x) == 0 && zS(x)*1 + DD*tS(x)*fe(y.t) == 0) && !(zS(x)*1 - DD*tS(x)*fe(y.t) == 0 && yS(x)*fe(y.y) + 5*xS(x)*fe(y.x) == 0)
  use nonsquare(DD, fe(x.e), fe(x.g))
  use nonsquare(-5, fe(x.e), fe(x.g))
  use nonsquare(-5, fe(y.x), 1)
  inlinecall bandersnatch/curvePoints.(*point_efgh_base).toDecaf_xtw
  ensures sumS(p, old(xS(x)*fe(y.y) + yS(x)*fe(y.x)), old(zS(x)*1 - DD*tS(x)*fe(y.t)), old(zS(x)*1 + DD*tS(x)*fe(y.t)), old(yS(x)*fe(y.y) + 5*xS(x)*fe(y.x)))
  ensures okS(p)
  modifies *p
  property P01
func (p *Point_efgh_subgroup) Add(x, y)
  instance x *Point_efgh_subgroup
  instance y *Point_efgh_subgroup
  requires okS(x) && okS(y)
  requires !(xS(x)*yS(y) + yS(x)*xS(y) == 0 && zS(x)*zS(y) + DD*tS(x)*tS(y) == 0) && !(zS(x)*zS(y) - DD*tS(x)*tS(y) == 0 && yS(x)*yS(y) + 5*xS(x)*xS(y) == 0)
  use nonsquare(DD, fe(x.e), fe(x.g))
  use nonsquare(-5, fe(x.e), fe(x.g))
  use nonsquare(DD, fe(y.e), fe(y.g))
  use nonsquare(-5, fe(y.e), fe(y.g))
  inlinecall bandersnatch/curvePoints.(*point_efgh_base).toDecaf_xtw
  ensures sumS(p, old(xS(x)*yS(y) + yS(x)*xS(y)), old(zS(x)*zS(y) - DD*tS(x)*tS(y)), old(zS(x)*zS(y) + DD*tS(x)*tS(y)), old(yS(x)*yS(y) + 5*xS(x)*xS(y)))
  ensures okS(p)
  modifies *p
  property P01
func (p *Point_efgh_subgroup) AddEq(input)
  instance input *Point_efgh_subgroup
  requires okS(p) && okS(input)
  requires !(xS(p)*yS(input) + yS(p)*xS(input) == 0 && zS(p)*zS(input) + DD*tS(p)*tS(input) == 0) && !(zS(p)*zS(input) - DD*tS(p)*tS(input) == 0 && yS(p)*yS(input) + 5*xS(p)*xS(input) == 0)
  use nonsquare(DD, fe(p.e), fe(p.g))
  use nonsquare(-5, fe(p.e), fe(p.g))
  use nonsquare(DD, fe(input.e), fe(input.g))
  use nonsquare(-5, fe(input.e), fe(input.g))
  inlinecall bandersnatch/curvePoints.(*point_efgh_base).toDecaf_xtw
  ensures sumS(p, old(xS(p)*yS(input) + yS(p)*xS(input)), old(zS(p)*zS(input) - DD*tS(p)*tS(input)), old(zS(p)*zS(input) + DD*tS(p)*tS(input)), old(yS(p)*yS(input) + 5*xS(p)*xS(input)))
  ensures okS(p)
  modifies *p
  property P01
func (p *Point_efgh_subgroup) Sub(x, y)
  instance x *Point_xtw_subgroup
  instance y *Point_xtw_subgroup
  requires okT(x) && okT(y)
  requires !(fe(x.x)*fe(y.y) - fe(x.y)*fe(y.x) == 0 && fe(x.z)*fe(y.z) - DD*fe(x.t)*fe(y.t) == 0) && !(fe(x.z)*fe(y.z) + DD*fe(x.t)*fe(y.t) == 0 && fe(x.y)*fe(y.y) - 5*fe(x.x)*fe(y.x) == 0)
  use nonsquare(-5, fe(x.x), fe(x.z))
  use nonsquare(DD, fe(x.t), fe(x.y))
  use nonsquare(-5, fe(y.x), fe(y.z))
  use nonsquare(DD, fe(y.t), fe(y.y))
  ensures sumS(p, old(fe(x.x)*fe(y.y) - fe(x.y)*fe(y.x)), old(fe(x.z)*fe(y.z) + DD*fe(x.t)*fe(y.t)), old(fe(x.z)*fe(y.z) - DD*fe(x.t)*fe(y.t)), old(fe(x.y)*fe(y.y) - 5*fe(x.x)*fe(y.x)))
  ensures okS(p)
  modifies *p
  property P01
func (p *Point_efgh_subgroup) Sub(x, y)
  instance x *Point_xtw_subgroup
  instance y *Point_axtw_subgroup
  requires okT(x) && okA(y)
  requires !(fe(x.x)*fe(y.y) - fe(x.y)*fe(y.x) == 0 && fe(x.z)*1 - DD*fe(x.t)*fe(y.t) == 0) && !(fe(x.z)*1 + DD*fe(x.t)*fe(y.t) == 0 && fe(x.y)*fe(y.y) - 5*fe(x.x)*fe(y.x) == 0)
  use nonsquare(-5, fe(x.x), fe(x.z))
  use nonsquare(DD, fe(x.t), fe(x.y))
  use nonsquare(-5, fe(y.x), 1)
  ensures sumS(p, old(fe(x.x)*fe(y.y) - fe(x.y)*fe(y.x)), old(fe(x.z)*1 + DD*fe(x.t)*fe(y.t)), old(fe(x.z)*1 - DD*fe(x.t)*fe(y.t)), old(fe(x.y)*fe(y.y) - 5*fe(x.x)*fe(y.x)))
  ensures okS(p)
  modifies *p
  property P01
func (p *Point_efgh_subgroup) Sub(x, y)
  instance x *Point_xtw_subgroup
  instance y *Point_efgh_subgroup
  requires okT(x) && okS(y)
  requires !(fe(x.x)*yS(y) - fe(x.y)*xS(y) == 0 && fe(x.z)*zS(y) - DD*fe(x.t)*tS(y) == 0) && !(fe(x.z)*zS(y) + DD*fe(x.t)*tS(y) == 0 && fe(x.y)*yS(y) - 5*fe(x.x)*xS(y) == 0)
  use nonsquare(-5, fe(x.x), fe(x.z))
  use nonsquare(DD, fe(x.t), fe(x.y))
  use nonsquare(DD, fe(y.e), fe(y.g))
  use nonsquare(-5, fe(y.e), fe(y.g))
  inlinecall bandersnatch/curvePoints.(*point_efgh_base).toDecaf_xtw
  ensures sumS(p, old(fe(x.x)*yS(y) - fe(x.y)*xS(y)), old(fe(x.z)*zS(y) + DD*fe(x.t)*tS(y)), old(fe(x.z)*zS(y) - DD*fe(x.t)*tS(y)), old(fe(x.y)*yS(y) - 5*fe(x.x)*xS(y)))
  ensures okS(p)
  modifies *p
  property P01
func (p *Point_efgh_subgroup) SubEq(input)
  instance input *Point_xtw_subgroup
  requires okS(p) && okT(input)
  requires !(xS(p)*fe(input.y) - yS(p)*fe(input.x) == 0 && zS(p)*fe(input.z) - DD*tS(p)*fe(input.t) == 0) && !(zS(p)*fe(input.z) + DD*tS(p)*fe(input.t) == 0 && yS(p)*fe(input.y) - 5*xS(p)*fe(input.x) == 0)
  use nonsquare(DD, fe(p.e), fe(p.g))
  use nonsquare(-5, fe(p.e), fe(p.g))
  use nonsquare(-5, fe(input.x), fe(input.z))
  use nonsquare(DD, fe(input.t), fe(input.y))
  inlinecall bandersnatch/curvePoints.(*point_efgh_base).toDecaf_xtw
  ensures sumS(p, old(xS(p)*fe(input.y) - yS(p)*fe(input.x)), old(zS(p)*fe(input.z) + DD*tS(p)*fe(input.t)), old(zS(p)*fe(input.z) - DD*tS(p)*fe(input.t)), old(yS(p)*fe(input.y) - 5*xS(p)*fe(input.x)))
  ensures okS(p)
  modifies *p
  property P01
func (p *Point_efgh_subgroup) Sub(x, y)
  instance x *Point_axtw_subgroup
  instance y *Point_xtw_subgroup
  requires okA(x) && okT(y)
  requires !(fe(x.x)*fe(y.y) - fe(x.y)*fe(y.x) == 0 && 1*fe(y.z) - DD*fe(x.t)*fe(y.t) == 0) && !(1*fe(y.z) + DD*fe(x.t)*fe(y.t) == 0 && fe(x.y)*fe(y.y) - 5*fe(x.x)*fe(y.x) == 0)
  use nonsquare(-5, fe(x.x), 1)
  use nonsquare(-5, fe(y.x), fe(y.z))
  use nonsquare(DD, fe(y.t), fe(y.y))
  ensures sumS(p, old(fe(x.x)*fe(y.y) - fe(x.y)*fe(y.x)), old(1*fe(y.z) + DD*fe(x.t)*fe(y.t)), old(1*fe(y.z) - DD*fe(x.t)*fe(y.t)), old(fe(x.y)*fe(y.y) - 5*fe(x.x)*fe(y.x)))
  ensures okS(p)
  modifies *p
  property P01
func (p *Point_efgh_subgroup) Sub(x, y)
  instance x *Point_axtw_subgroup
  instance y *Point_axtw_subgroup
  requires okA(x) && okA(y)
  requires !(fe(x.x)*fe(y.y) - fe(x.y)*fe(y.x) == 0 && 1*1 - DD*fe(x.t)*fe(y.t) == 0) && !(1*1 + DD*fe(x.t)*fe(y.t) == 0 && fe(x.y)*fe(y.y) - 5*fe(x.x)*fe(y.x) == 0)
  use nonsquare(-5, fe(x.x), 1)
  use nonsquare(-5, fe(y.x), 1)
  ensures sumS(p, old(fe(x.x)*fe(y.y) - fe(x.y)*fe(y.x)), old(1*1 + DD*fe(x.t)*fe(y.t)), old(1*1 - DD*fe(x.t)*fe(y.t)), old(fe(x.y)*fe(y.y) - 5*fe(x.x)*fe(y.x)))
  ensures okS(p)
  modifies *p
  property P01
func (p *Point_efgh_subgroup) Sub(x, y)
  instance x *Point_axtw_subgroup
  instance y *Point_efgh_subgroup
  requires okA(x) && okS(y)
  requires !(fe(x.x)*yS(y) - fe(x.y)*xS(y) == 0 && 1*zS(y) - DD*fe(x.t)*tS(y) == 0) && !(1*zS(y) + DD*fe(x.t)*tS(y) == 0 && fe(x.y)*yS(y) - 5*fe(x.x)*xS(y) == 0)
  use nonsquare(-5, fe(x.x), 1)
  use nonsquare(DD, fe(y.e), fe(y.g))
  use nonsquare(-5, fe(y.e), fe(y.g))
  inlinecall bandersnatch/curvePoints.(*point_efgh_base).toDecaf_xtw
  ensures sumS(p, old(fe(x.x)*yS(y) - fe(x.y)*xS(y)), old(1*zS(y) + DD*fe(x.t)*tS(y)), old(1*zS(y) - DD*fe(x.t)*tS(y)), old(fe(x.y)*yS(y) - 5*fe(x.x)*xS(y)))
  ensures okS(p)
  modifies *p
  property P01
func (p *Point_efgh_subgroup) SubEq(input)
  instance input *Point_axtw_subgroup
  requires okS(p) && okA(input)
  requires !(xS(p)*fe(input.y) - yS(p)*fe(input.x) == 0 && zS(p)*1 - DD*tS(p)*fe(input.t) == 0) && !(zS(p)*1 + DD*tS(p)*fe(input.t) == 0 && yS(p)*fe(input.y) - 5*xS(p)*fe(input.x) == 0)
  use nonsquare(DD, fe(p.e), fe(p.g))
  use nonsquare(-5, fe(p.e), fe(p.g))
  use nonsquare(-5, fe(input.x), 1)
  inlinecall bandersnatch/curvePoints.(*point_efgh_base).toDecaf_xtw
  ensures sumS(p, old(xS(p)*fe(input.y) - yS(p)*fe(input.x)), old(zS(p)*1 + DD*tS(p)*fe(input.t)), old(zS(p)*1 - DD*tS(p)*fe(input.t)), old(yS(p)*fe(input.y) - 5*xS(p)*fe(input.x)))
  ensures okS(p)
  modifies *p
  property P01
func (p *Point_efgh_subgroup) Sub(x, y)
  instance x *Point_efgh_subgroup
  instance y *Point_xtw_subgroup
  requires okS(x) && okT(y)
  requires !(xS(x)*fe(y.y) - yS(x)*fe(y.x) == 0 && zS(x)*fe(y.z) - DD*tS(x)*fe(y.t) == 0) && !(zS(x)*fe(y.z) + DD*tS(x)*fe(y.t) == 0 && yS(x)*fe(y.y) - 5*xS(x)*fe(y.x) == 0)
  use nonsquare(DD, fe(x.e), fe(x.g))
  use nonsquare(-5, fe(x.e), fe(x.g))
  use nonsquare(-5, fe(y.x), fe(y.z))
  use nonsquare(DD, fe(y.t), fe(y.y))
  inlinecall bandersnatch/curvePoints.(*point_efgh_base).toDecaf_xtw
  ensures sumS(p, old(xS(x)*fe(y.y) - yS(x)*fe(y.x)), old(zS(x)*fe(y.z) + DD*tS(x)*fe(y.t)), old(zS(x)*fe(y.z) - DD*tS(x)*fe(y.t)), old(yS(x)*fe(y.y) - 5*xS(x)*fe(y.x)))
  ensures okS(p)
  modifies *p
  property P01
func (p *Point_efgh_subgroup) Sub(x, y)
  instance x *Point_efgh_subgroup
  instance y *Point_axtw_subgroup
  requires okS(x) && okA(y)
  requires !(xS(x)*fe(y.y) - yS(x)*fe(y.x) == 0 && zS(x)*1 - DD*tS(x)*fe(y.t) == 0) && !(zS(x)*1 + DD*tS(x)*fe(y.t) == 0 && yS(x)*fe(y.y) - 5*xS(x)*fe(y.x) == 0)
  use nonsquare(DD, fe(x.e), fe(x.g))
  use nonsquare(-5, fe(x.e), fe(x.g))
  use nonsquare(-5, fe(y.x), 1)
  inlinecall bandersnatch/curvePoints.(*point_efgh_base).toDecaf_xtw
  ensures sumS(p, old(xS(x)*fe(y.y) - yS(x)*fe(y.x)), old(zS(x)*1 + DD*tS(x)*fe(y.t)), old(zS(x)*1 - DD*tS(x)*fe(y.t)), old(yS(x)*fe(y.y) - 5*xS(x)*fe(y.x)))
  ensures okS(p)
  modifies *p
  property P01
func (p *Point_efgh_subgroup) Sub(x, y)
  instance x *Point_efgh_subgroup
  instance y *Point_efgh_subgroup
  requires okS(x) && okS(y)
  requires !(xS(x)*yS(y) - yS(x)*xS(y) == 0 && zS(x)*zS(y) - DD*tS(x)*tS(y) == 0) && !(zS(x)*zS(y) + DD*tS(x)*tS(y) == 0 && yS(x)*yS(y) - 5*xS(x)*xS(y) == 0)
  use nonsquare(DD, fe(x.e), fe(x.g))
  use nonsquare(-5, fe(x.e), fe(x.g))
  use nonsquare(DD, fe(y.e), fe(y.g))
  use nonsquare(-5, fe(y.e), fe(y.g))
  inlinecall bandersnatch/curvePoints.(*point_efgh_base).toDecaf_xtw
  ensures sumS(p, old(xS(x)*yS(y) - yS(x)*xS(y)), old(zS(x)*zS(y) + DD*tS(x)*tS(y)), old(zS(x)*zS(y) - DD*tS(x)*tS(y)), old(yS(x)*yS(y) - 5*xS(x)*xS(y)))
  ensures okS(p)
  modifies *p
  property P01
func (p *Point_efgh_subgroup) SubEq(input)
  instance input *Point_efgh_subgroup
  requires okS(p) && okS(input)
  requires !(xS(p)*yS(input) - yS(p)*xS(input) == 0 && zS(p)*zS(input) - DD*tS(p)*tS(input) == 0) && !(zS(p)*zS(input) + DD*tS(p)*tS(input) == 0 && yS(p)*yS(input) - 5*xS(p)*xS(input) == 0)
  use nonsquare(DD, fe(p.e), fe(p.g))
  use nonsquare(-5, fe(p.e), fe(p.g))
  use nonsquare(DD, fe(input.e), fe(input.g))
  use nonsquare(-5, fe(input.e), fe(input.g))
  inlinecall bandersnatch/curvePoints.(*point_efgh_base).toDecaf_xtw
  ensures sumS(p, old(xS(p)*yS(input) - yS(p)*xS(input)), old(zS(p)*zS(input) + DD*tS(p)*tS(input)), old(zS(p)*zS(input) - DD*tS(p)*tS(input)), old(yS(p)*yS(input) - 5*xS(p)*xS(input)))
  ensures okS(p)
  modifies *p
  property P01
func (p *point_efgh_base) Double(x)
  instance x *Point_xtw_subgroup
  requires okT(x)
  use nonsquare(-5, fe(x.x), fe(x.z))
  use nonsquare(DD, fe(x.t), fe(x.y))
  use nonsquare(DD, fe(x.t), fe(x.z))
  use nonsquare(-DD, fe(x.t), fe(x.z))
  use nonsquare(-5, fe(x.x), fe(x.y))
  ensures sumS(p, old(2*fe(x.x)*fe(x.y)), old(fe(x.z)*fe(x.z) - DD*fe(x.t)*fe(x.t)), old(fe(x.z)*fe(x.z) + DD*fe(x.t)*fe(x.t)), old(fe(x.y)*fe(x.y) + 5*fe(x.x)*fe(x.x)))
  ensures okS(p)
  modifies *p
  property P01
func (p *Point_efgh_subgroup) SetFrom(input)
  instance input *Point_xtw_subgroup
  requires okT(input)
  requires fe(input.z) != 0
  use nonsquare(-5, fe(input.x), fe(input.z))
  use nonsquare(DD, fe(input.t), fe(input.y))
  ensures xS(p)*old(fe(input.y)) == yS(p)*old(fe(input.x)) && xS(p)*old(fe(input.t)) == tS(p)*old(fe(input.x)) && xS(p)*old(fe(input.z)) == zS(p)*old(fe(input.x)) && yS(p)*old(fe(input.t)) == tS(p)*old(fe(input.y)) && yS(p)*old(fe(input.z)) == zS(p)*old(fe(input.y)) && tS(p)*old(fe(input.z)) == zS(p)*old(fe(input.t))
  ensures okS(p)
  modifies *p, *input
  property P01
func (p *Point_efgh_subgroup) Neg(input)
  instance input *Point_xtw_subgroup
  requires okT(input)
  requires fe(input.z) != 0
  use nonsquare(-5, fe(input.x), fe(input.z))
  use nonsquare(DD, fe(input.t), fe(input.y))
  ensures xS(p)*old(fe(input.y)) == yS(p)*old(-fe(input.x)) && xS(p)*old(-fe(input.t)) == tS(p)*old(-fe(input.x)) && xS(p)*old(fe(input.z)) == zS(p)*old(-fe(input.x)) && yS(p)*old(-fe(input.t)) == tS(p)*old(fe(input.y)) && yS(p)*old(fe(input.z)) == zS(p)*old(fe(input.y)) && tS(p)*old(fe(input.z)) == zS(p)*old(-fe(input.t))
  ensures okS(p)
  modifies *p, *input
  property P01
func (p *Point_efgh_subgroup) Endo(input)
  instance input *Point_xtw_subgroup
  requires okT(input)
  requires fe(input.z) != 0
  use nonsquare(-5, fe(input.x), fe(input.z))
  use nonsquare(DD, fe(input.t), fe(input.y))
  use nonsquare(DD, old(endoE(fe(input.y), fe(input.z))), old(fe(input.x)*fe(input.y)))
  use nonsquare(-5, old(endoE(fe(input.y), fe(input.z))), old(fe(input.x)*fe(input.y)))
  ensures sumS(p, old(endoE(fe(input.y), fe(input.z))), old(endoF(fe(input.y), fe(input.z))), old(fe(input.x)*fe(input.y)), old(endoH(fe(input.y), fe(input.z))))
  ensures implies(old(fe(input.x) == 0), fe(p.e) == 0 && fe(p.f) == fe(p.h))
  ensures okS(p)
  modifies *p, *input
  property P02
func (p *point_efgh_base) Double(x)
  instance x *Point_axtw_subgroup
  requires okA(x)
  use nonsquare(-5, fe(x.x), 1)
  use nonsquare(DD, fe(x.t), 1)
  use nonsquare(-DD, fe(x.t), 1)
  use nonsquare(-5, fe(x.x), fe(x.y))
  ensures sumS(p, old(2*fe(x.x)*fe(x.y)), old(1*1 - DD*fe(x.t)*fe(x.t)), old(1*1 + DD*fe(x.t)*fe(x.t)), old(fe(x.y)*fe(x.y) + 5*fe(x.x)*fe(x.x)))
  ensures okS(p)
  modifies *p
  property P01
func (p *Point_efgh_subgroup) SetFrom(input)
  instance input *Point_axtw_subgroup
  requires okA(input)
  requires 1 != 0
  use nonsquare(-5, fe(input.x), 1)
  ensures xS(p)*old(fe(input.y)) == yS(p)*old(fe(input.x)) && xS(p)*old(fe(input.t)) == tS(p)*old(fe(input.x)) && xS(p)*old(1) == zS(p)*old(fe(input.x)) && yS(p)*old(fe(input.t)) == tS(p)*old(fe(input.y)) && yS(p)*old(1) == zS(p)*old(fe(input.y)) && tS(p)*old(1) == zS(p)*old(fe(input.t))
  ensures okS(p)
  modifies *p, *input
  property P01
func (p *Point_efgh_subgroup) Neg(input)
  instance input *Point_axtw_subgroup
  requires okA(input)
  requires 1 != 0
  use nonsquare(-5, fe(input.x), 1)
  ensures xS(p)*old(fe(input.y)) == yS(p)*old(-fe(input.x)) && xS(p)*old(-fe(input.t)) == tS(p)*old(-fe(input.x)) && xS(p)*old(1) == zS(p)*old(-fe(input.x)) && yS(p)*old(-fe(input.t)) == tS(p)*old(fe(input.y)) && yS(p)*old(1) == zS(p)*old(fe(input.y)) && tS(p)*old(1) == zS(p)*old(-fe(input.t))
  ensures okS(p)
  modifies *p, *input
  property P01
func (p *Point_efgh_subgroup) Endo(input)
  instance input *Point_axtw_subgroup
  requires okA(input)
  requires 1 != 0
  use nonsquare(-5, fe(input.x), 1)
  use nonsquare(DD, old(endoE(fe(input.y), 1)), old(fe(input.x)*fe(input.y)))
  use nonsquare(-5, old(endoE(fe(input.y), 1)), old(fe(input.x)*fe(input.y)))
  ensures sumS(p, old(endoE(fe(input.y), 1)), old(endoF(fe(input.y), 1)), old(fe(input.x)*fe(input.y)), old(endoH(fe(input.y), 1)))
  ensures implies(old(fe(input.x) == 0), fe(p.e) == 0 && fe(p.f) == fe(p.h))
  ensures okS(p)
  modifies *p, *input
  property P02
func (p *point_efgh_base) Double(x)
  instance x *Point_efgh_subgroup
  requires okS(x)
  use nonsquare(DD, fe(x.e), fe(x.g))
  use nonsquare(-5, fe(x.e), fe(x.g))
  use nonsquare(DD, tS(x), zS(x))
  use nonsquare(-DD, tS(x), zS(x))
  use nonsquare(-5, xS(x), yS(x))
  ensures sumS(p, old(2*xS(x)*yS(x)), old(zS(x)*zS(x) - DD*tS(x)*tS(x)), old(zS(x)*zS(x) + DD*tS(x)*tS(x)), old(yS(x)*yS(x) + 5*xS(x)*xS(x)))
  ensures okS(p)
  modifies *p
  property P01
func (p *Point_efgh_subgroup) SetFrom(input)
  instance input *Point_efgh_subgroup
  requires okS(input)
  requires zS(input) != 0
  use nonsquare(DD, fe(input.e), fe(input.g))
  use nonsquare(-5, fe(input.e), fe(input.g))
  ensures xS(p)*old(yS(input)) == yS(p)*old(xS(input)) && xS(p)*old(tS(input)) == tS(p)*old(xS(input)) && xS(p)*old(zS(input)) == zS(p)*old(xS(input)) && yS(p)*old(tS(input)) == tS(p)*old(yS(input)) && yS(p)*old(zS(input)) == zS(p)*old(yS(input)) && tS(p)*old(zS(input)) == zS(p)*old(tS(input))
  ensures okS(p)
  modifies *p, *input
  property P01
func (p *Point_efgh_subgroup) Neg(input)
  instance input *Point_efgh_subgroup
  requires okS(input)
  requires zS(input) != 0
  use nonsquare(DD, fe(input.e), fe(input.g))
  use nonsquare(-5, fe(input.e), fe(input.g))
  ensures xS(p)*old(yS(input)) == yS(p)*old(-xS(input)) && xS(p)*old(-tS(input)) == tS(p)*old(-xS(input)) && xS(p)*old(zS(input)) == zS(p)*old(-xS(input)) && yS(p)*old(-tS(input)) == tS(p)*old(yS(input)) && yS(p)*old(zS(input)) == zS(p)*old(yS(input)) && tS(p)*old(zS(input)) == zS(p)*old(-tS(input))
  ensures okS(p)
  modifies *p, *input
  property P01
func (p *Point_efgh_subgroup) Endo(input)
  instance input *Point_efgh_subgroup
  requires okS(input)
  requires zS(input) != 0
  use nonsquare(DD, fe(input.e), fe(input.g))
  use nonsquare(-5, fe(input.e), fe(input.g))
  use nonsquare(DD, old(endoE(yS(input), zS(input))), old(xS(input)*yS(input)))
  use nonsquare(-5, old(endoE(yS(input), zS(input))), old(xS(input)*yS(input)))
  ensures sumS(p, old(endoE(yS(input), zS(input))), old(endoF(yS(input), zS(input))), old(xS(input)*yS(input)), old(endoH(yS(input), zS(input))))
  ensures implies(old(xS(input) == 0), fe(p.e) == 0 && fe(p.f) == fe(p.h))
  ensures okS(p)
  modifies *p, *input
  property P02
func (p *Point_efgh_subgroup) EndoEq()
  requires okS(p)
  requires zS(p) != 0
  use nonsquare(DD, fe(p.e), fe(p.g))
  use nonsquare(-5, fe(p.e), fe(p.g))
  use nonsquare(DD, old(endoE(yS(p), zS(p))), old(xS(p)*yS(p)))
  use nonsquare(-5, old(endoE(yS(p), zS(p))), old(xS(p)*yS(p)))
  ensures sumS(p, old(endoE(yS(p), zS(p))), old(endoF(yS(p), zS(p))), old(xS(p)*yS(p)), old(endoH(yS(p), zS(p))))
  ensures implies(old(xS(p) == 0), fe(p.e) == 0 && fe(p.f) == fe(p.h))
  ensures okS(p)
  modifies *p
  property P02
func (p *Point_efgh_subgroup) IsEqual(other) (r)
  instance other *Point_xtw_subgroup
  requires okS(p) && okT(other)
  requires zS(p) != 0 && fe(other.z) != 0
  use nonsquare(DD, fe(p.e), fe(p.g))
  use nonsquare(-5, fe(p.e), fe(p.g))
  use nonsquare(-5, fe(other.x), fe(other.z))
  use nonsquare(DD, fe(other.t), fe(other.y))
  ensures iff(r, old(xS(p)*fe(other.y) == yS(p)*fe(other.x)))
  modifies *p, *other
  property P03
func (p *Point_efgh_subgroup) IsEqual(other) (r)
  instance other *Point_axtw_subgroup
  requires okS(p) && okA(other)
  requires zS(p) != 0 && 1 != 0
  use nonsquare(DD, fe(p.e), fe(p.g))
  use nonsquare(-5, fe(p.e), fe(p.g))
  use nonsquare(-5, fe(other.x), 1)
  ensures iff(r, old(xS(p)*fe(other.y) == yS(p)*fe(other.x)))
  modifies *p, *other
  property P03
func (p *Point_efgh_subgroup) IsEqual(other) (r)
  instance other *Point_efgh_subgroup
  requires okS(p) && okS(other)
  requires zS(p) != 0 && zS(other) != 0
  use nonsquare(DD, fe(p.e), fe(p.g))
  use nonsquare(-5, fe(p.e), fe(p.g))
  use nonsquare(DD, fe(other.e), fe(other.g))
  use nonsquare(-5, fe(other.e), fe(other.g))
  ensures iff(r, old(xS(p)*zS(other) == zS(p)*xS(other) && yS(p)*zS(other) == zS(p)*yS(other) || xS(p)*zS(other) == -(zS(p)*xS(other)) && yS(p)*zS(other) == -(zS(p)*yS(other))))
  modifies *p, *other
  property P03
