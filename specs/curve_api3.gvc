package bandersnatch/curvePoints
layer default 2

// ---- in-place operations
func (p *Point_xtw_full) AddEq(x)
  instance x *Point_xtw_full
  requires okT(p) && okT(x)
  use nonsquare(-5, fe(p.x), fe(p.z))
  use nonsquare(DD, fe(p.t), fe(p.y))
  use nonsquare(-5, fe(x.x), fe(x.z))
  use nonsquare(DD, fe(x.t), fe(x.y))
  ensures sumT(p, old(fe(p.x)*fe(x.y) + fe(p.y)*fe(x.x)), old(fe(p.z)*fe(x.z) - DD*fe(p.t)*fe(x.t)), old(fe(p.z)*fe(x.z) + DD*fe(p.t)*fe(x.t)), old(fe(p.y)*fe(x.y) + 5*fe(p.x)*fe(x.x)))
  ensures sumT(p, old(fe(p.t)*fe(x.z) + fe(p.z)*fe(x.t)), old(fe(p.y)*fe(x.x) - fe(p.x)*fe(x.y)), old(fe(p.y)*fe(x.y) - 5*fe(p.x)*fe(x.x)), old(fe(p.z)*fe(x.t) - fe(p.t)*fe(x.z)))
  ensures okT(p)
  modifies *p
  property P01
func (p *Point_xtw_full) AddEq(x)
  instance x *Point_axtw_full
  requires okT(p) && okA(x)
  use nonsquare(-5, fe(p.x), fe(p.z))
  use nonsquare(DD, fe(p.t), fe(p.y))
  use nonsquare(-5, fe(x.x), 1)
  ensures sumT(p, old(fe(p.x)*fe(x.y) + fe(p.y)*fe(x.x)), old(fe(p.z)*1 - DD*fe(p.t)*fe(x.t)), old(fe(p.z)*1 + DD*fe(p.t)*fe(x.t)), old(fe(p.y)*fe(x.y) + 5*fe(p.x)*fe(x.x)))
  ensures sumT(p, old(fe(p.t)*1 + fe(p.z)*fe(x.t)), old(fe(p.y)*fe(x.x) - fe(p.x)*fe(x.y)), old(fe(p.y)*fe(x.y) - 5*fe(p.x)*fe(x.x)), old(fe(p.z)*fe(x.t) - fe(p.t)*1))
  ensures okT(p)
  modifies *p
  property P01
func (p *Point_xtw_full) AddEq(x)
  instance x *Point_efgh_full
  requires okT(p) && okS(x)
  use nonsquare(-5, fe(p.x), fe(p.z))
  use nonsquare(DD, fe(p.t), fe(p.y))
  use nonsquare(DD, fe(x.e), fe(x.g))
  use nonsquare(-5, fe(x.e), fe(x.g))
  ensures sumT(p, old(fe(p.x)*yS(x) + fe(p.y)*xS(x)), old(fe(p.z)*zS(x) - DD*fe(p.t)*tS(x)), old(fe(p.z)*zS(x) + DD*fe(p.t)*tS(x)), old(fe(p.y)*yS(x) + 5*fe(p.x)*xS(x)))
  ensures sumT(p, old(fe(p.t)*zS(x) + fe(p.z)*tS(x)), old(fe(p.y)*xS(x) - fe(p.x)*yS(x)), old(fe(p.y)*yS(x) - 5*fe(p.x)*xS(x)), old(fe(p.z)*tS(x) - fe(p.t)*zS(x)))
  ensures okT(p)
  modifies *p
  property P01
func (p *Point_xtw_full) SubEq(x)
  instance x *Point_xtw_full
  requires okT(p) && okT(x)
  use nonsquare(-5, fe(p.x), fe(p.z))
  use nonsquare(DD, fe(p.t), fe(p.y))
  use nonsquare(-5, fe(x.x), fe(x.z))
  use nonsquare(DD, fe(x.t), fe(x.y))
  ensures sumT(p, old(fe(p.x)*fe(x.y) - fe(p.y)*fe(x.x)), old(fe(p.z)*fe(x.z) + DD*fe(p.t)*fe(x.t)), old(fe(p.z)*fe(x.z) - DD*fe(p.t)*fe(x.t)), old(fe(p.y)*fe(x.y) - 5*fe(p.x)*fe(x.x)))
  ensures sumT(p, old(fe(p.t)*fe(x.z) - fe(p.z)*fe(x.t)), old(-(fe(p.y)*fe(x.x)) - fe(p.x)*fe(x.y)), old(fe(p.y)*fe(x.y) + 5*fe(p.x)*fe(x.x)), old(-(fe(p.z)*fe(x.t)) - fe(p.t)*fe(x.z)))
  ensures okT(p)
  modifies *p
  property P01
func (p *Point_xtw_full) SubEq(x)
  instance x *Point_axtw_full
  requires okT(p) && okA(x)
  use nonsquare(-5, fe(p.x), fe(p.z))
  use nonsquare(DD, fe(p.t), fe(p.y))
  use nonsquare(-5, fe(x.x), 1)
  ensures sumT(p, old(fe(p.x)*fe(x.y) - fe(p.y)*fe(x.x)), old(fe(p.z)*1 + DD*fe(p.t)*fe(x.t)), old(fe(p.z)*1 - DD*fe(p.t)*fe(x.t)), old(fe(p.y)*fe(x.y) - 5*fe(p.x)*fe(x.x)))
  ensures sumT(p, old(fe(p.t)*1 - fe(p.z)*fe(x.t)), old(-(fe(p.y)*fe(x.x)) - fe(p.x)*fe(x.y)), old(fe(p.y)*fe(x.y) + 5*fe(p.x)*fe(x.x)), old(-(fe(p.z)*fe(x.t)) - fe(p.t)*1))
  ensures okT(p)
  modifies *p
  property P01
func (p *Point_xtw_full) SubEq(x)
  instance x *Point_efgh_full
  requires okT(p) && okS(x)
  use nonsquare(-5, fe(p.x), fe(p.z))
  use nonsquare(DD, fe(p.t), fe(p.y))
  use nonsquare(DD, fe(x.e), fe(x.g))
  use nonsquare(-5, fe(x.e), fe(x.g))
  ensures sumT(p, old(fe(p.x)*yS(x) - fe(p.y)*xS(x)), old(fe(p.z)*zS(x) + DD*fe(p.t)*tS(x)), old(fe(p.z)*zS(x) - DD*fe(p.t)*tS(x)), old(fe(p.y)*yS(x) - 5*fe(p.x)*xS(x)))
  ensures sumT(p, old(fe(p.t)*zS(x) - fe(p.z)*tS(x)), old(-(fe(p.y)*xS(x)) - fe(p.x)*yS(x)), old(fe(p.y)*yS(x) + 5*fe(p.x)*xS(x)), old(-(fe(p.z)*tS(x)) - fe(p.t)*zS(x)))
  ensures okT(p)
  modifies *p
  property P01
func (p *point_xtw_base) DoubleEq()
  requires okT(p)
  use nonsquare(-5, fe(p.x), fe(p.z))
  use nonsquare(DD, fe(p.t), fe(p.y))
  use nonsquare(DD, fe(p.t), fe(p.z))
  use nonsquare(-DD, fe(p.t), fe(p.z))
  use nonsquare(-5, fe(p.x), fe(p.y))
  use nonsquare(DD, old(fe(p.t)), old(fe(p.z)))
  use nonsquare(-DD, old(fe(p.t)), old(fe(p.z)))
  use nonsquare(-5, old(fe(p.x)), old(fe(p.y)))
  ensures sumT(p, old(2*fe(p.x)*fe(p.y)), old(fe(p.z)*fe(p.z) - DD*fe(p.t)*fe(p.t)), old(fe(p.z)*fe(p.z) + DD*fe(p.t)*fe(p.t)), old(fe(p.y)*fe(p.y) + 5*fe(p.x)*fe(p.x)))
  ensures okT(p)
  modifies *p
  property P01
func (p *Point_xtw_full) EndoEq()
  requires okT(p)
  use nonsquare(-5, fe(p.x), fe(p.z))
  use nonsquare(DD, fe(p.t), fe(p.y))
  use nonsquare(DD, old(endoE(fe(p.y), fe(p.z))), old(fe(p.x)*fe(p.y)))
  use nonsquare(-5, old(endoE(fe(p.y), fe(p.z))), old(fe(p.x)*fe(p.y)))
  ensures sumT(p, old(endoE(fe(p.y), fe(p.z))), old(endoF(fe(p.y), fe(p.z))), old(fe(p.x)*fe(p.y)), old(endoH(fe(p.y), fe(p.z))))
  ensures implies(old(fe(p.x) == 0), fe(p.x) == 0 && fe(p.y) == fe(p.z))
  ensures implies(old(fe(p.z) == 0), fe(p.x) == 0 && fe(p.y) == -fe(p.z))
  ensures okT(p)
  modifies *p
  property P02
func (p *Point_axtw_full) AddEq(x)
  instance x *Point_xtw_full
  requires okA(p) && okT(x)
  requires !(1*fe(x.z) + DD*fe(p.t)*fe(x.t) == 0 && fe(p.x)*fe(x.y) + fe(p.y)*fe(x.x) != 0) && !(fe(p.y)*fe(x.y) - 5*fe(p.x)*fe(x.x) == 0 && fe(p.t)*fe(x.z) + 1*fe(x.t) != 0)
  use nonsquare(-5, fe(p.x), 1)
  use nonsquare(-5, fe(x.x), fe(x.z))
  use nonsquare(DD, fe(x.t), fe(x.y))
  ensures sumA(p, old(fe(p.x)*fe(x.y) + fe(p.y)*fe(x.x)), old(1*fe(x.z) - DD*fe(p.t)*fe(x.t)), old(1*fe(x.z) + DD*fe(p.t)*fe(x.t)), old(fe(p.y)*fe(x.y) + 5*fe(p.x)*fe(x.x)))
  ensures sumA(p, old(fe(p.t)*fe(x.z) + 1*fe(x.t)), old(fe(p.y)*fe(x.x) - fe(p.x)*fe(x.y)), old(fe(p.y)*fe(x.y) - 5*fe(p.x)*fe(x.x)), old(1*fe(x.t) - fe(p.t)*fe(x.z)))
  ensures okA(p)
  modifies *p
  property P01
func (p *Point_axtw_full) AddEq(x)
  instance x *Point_axtw_full
  requires okA(p) && okA(x)
  requires !(1*1 + DD*fe(p.t)*fe(x.t) == 0 && fe(p.x)*fe(x.y) + fe(p.y)*fe(x.x) != 0) && !(fe(p.y)*fe(x.y) - 5*fe(p.x)*fe(x.x) == 0 && fe(p.t)*1 + 1*fe(x.t) != 0)
  use nonsquare(-5, fe(p.x), 1)
  use nonsquare(-5, fe(x.x), 1)
  ensures sumA(p, old(fe(p.x)*fe(x.y) + fe(p.y)*fe(x.x)), old(1*1 - DD*fe(p.t)*fe(x.t)), old(1*1 + DD*fe(p.t)*fe(x.t)), old(fe(p.y)*fe(x.y) + 5*fe(p.x)*fe(x.x)))
  ensures sumA(p, old(fe(p.t)*1 + 1*fe(x.t)), old(fe(p.y)*fe(x.x) - fe(p.x)*fe(x.y)), old(fe(p.y)*fe(x.y) - 5*fe(p.x)*fe(x.x)), old(1*fe(x.t) - fe(p.t)*1))
  ensures okA(p)
  modifies *p
  property P01
func (p *Point_axtw_full) AddEq(x)
  instance x *Point_efgh_full
  requires okA(p) && okS(x)
  requires !(1*zS(x) + DD*fe(p.t)*tS(x) == 0 && fe(p.x)*yS(x) + fe(p.y)*xS(x) != 0) && !(fe(p.y)*yS(x) - 5*fe(p.x)*xS(x) == 0 && fe(p.t)*zS(x) + 1*tS(x) != 0)
  use nonsquare(-5, fe(p.x), 1)
  use nonsquare(DD, fe(x.e), fe(x.g))
  use nonsquare(-5, fe(x.e), fe(x.g))
  ensures sumA(p, old(fe(p.x)*yS(x) + fe(p.y)*xS(x)), old(1*zS(x) - DD*fe(p.t)*tS(x)), old(1*zS(x) + DD*fe(p.t)*tS(x)), old(fe(p.y)*yS(x) + 5*fe(p.x)*xS(x)))
  ensures sumA(p, old(fe(p.t)*zS(x) + 1*tS(x)), old(fe(p.y)*xS(x) - fe(p.x)*yS(x)), old(fe(p.y)*yS(x) - 5*fe(p.x)*xS(x)), old(1*tS(x) - fe(p.t)*zS(x)))
  ensures okA(p)
  modifies *p
  property P01
func (p *Point_axtw_full) SubEq(x)
  instance x *Point_xtw_full
  requires okA(p) && okT(x)
  requires !(1*fe(x.z) - DD*fe(p.t)*fe(x.t) == 0 && fe(p.x)*fe(x.y) - fe(p.y)*fe(x.x) != 0) && !(fe(p.y)*fe(x.y) + 5*fe(p.x)*fe(x.x) == 0 && fe(p.t)*fe(x.z) - 1*fe(x.t) != 0)
  use nonsquare(-5, fe(p.x), 1)
  use nonsquare(-5, fe(x.x), fe(x.z))
  use nonsquare(DD, fe(x.t), fe(x.y))
  ensures sumA(p, old(fe(p.x)*fe(x.y) - fe(p.y)*fe(x.x)), old(1*fe(x.z) + DD*fe(p.t)*fe(x.t)), old(1*fe(x.z) - DD*fe(p.t)*fe(x.t)), old(fe(p.y)*fe(x.y) - 5*fe(p.x)*fe(x.x)))
  ensures sumA(p, old(fe(p.t)*fe(x.z) - 1*fe(x.t)), old(-(fe(p.y)*fe(x.x)) - fe(p.x)*fe(x.y)), old(fe(p.y)*fe(x.y) + 5*fe(p.x)*fe(x.x)), old(-(1*fe(x.t)) - fe(p.t)*fe(x.z)))
  ensures okA(p)
  modifies *p
  property P01
func (p *Point_axtw_full) SubEq(x)
  instance x *Point_axtw_full
  requires okA(p) && okA(x)
  requires !(1*1 - DD*fe(p.t)*fe(x.t) == 0 && fe(p.x)*fe(x.y) - fe(p.y)*fe(x.x) != 0) && !(fe(p.y)*fe(x.y) + 5*fe(p.x)*fe(x.x) == 0 && fe(p.t)*1 - 1*fe(x.t) != 0)
  use nonsquare(-5, fe(p.x), 1)
  use nonsquare(-5, fe(x.x), 1)
  ensures sumA(p, old(fe(p.x)*fe(x.y) - fe(p.y)*fe(x.x)), old(1*1 + DD*fe(p.t)*fe(x.t)), old(1*1 - DD*fe(p.t)*fe(x.t)), old(fe(p.y)*fe(x.y) - 5*fe(p.x)*fe(x.x)))
  ensures sumA(p, old(fe(p.t)*1 - 1*fe(x.t)), old(-(fe(p.y)*fe(x.x)) - fe(p.x)*fe(x.y)), old(fe(p.y)*fe(x.y) + 5*fe(p.x)*fe(x.x)), old(-(1*fe(x.t)) - fe(p.t)*1))
  ensures okA(p)
  modifies *p
  property P01
func (p *Point_axtw_full) SubEq(x)
  instance x *Point_efgh_full
  requires okA(p) && okS(x)
  requires !(1*zS(x) - DD*fe(p.t)*tS(x) == 0 && fe(p.x)*yS(x) - fe(p.y)*xS(x) != 0) && !(fe(p.y)*yS(x) + 5*fe(p.x)*xS(x) == 0 && fe(p.t)*zS(x) - 1*tS(x) != 0)
  use nonsquare(-5, fe(p.x), 1)
  use nonsquare(DD, fe(x.e), fe(x.g))
  use nonsquare(-5, fe(x.e), fe(x.g))
  ensures sumA(p, old(fe(p.x)*yS(x) - fe(p.y)*xS(x)), old(1*zS(x) + DD*fe(p.t)*tS(x)), old(1*zS(x) - DD*fe(p.t)*tS(x)), old(fe(p.y)*yS(x) - 5*fe(p.x)*xS(x)))
  ensures sumA(p, old(fe(p.t)*zS(x) - 1*tS(x)), old(-(fe(p.y)*xS(x)) - fe(p.x)*yS(x)), old(fe(p.y)*yS(x) + 5*fe(p.x)*xS(x)), old(-(1*tS(x)) - fe(p.t)*zS(x)))
  ensures okA(p)
  modifies *p
  property P01
func (p *point_axtw_base) DoubleEq()
  requires okA(p)
  use nonsquare(-5, fe(p.x), 1)
  use nonsquare(DD, fe(p.t), 1)
  use nonsquare(-DD, fe(p.t), 1)
  use nonsquare(-5, fe(p.x), fe(p.y))
  use nonsquare(DD, old(fe(p.t)), old(1))
  use nonsquare(-DD, old(fe(p.t)), old(1))
  use nonsquare(-5, old(fe(p.x)), old(fe(p.y)))
  ensures sumA(p, old(2*fe(p.x)*fe(p.y)), old(1*1 - DD*fe(p.t)*fe(p.t)), old(1*1 + DD*fe(p.t)*fe(p.t)), old(fe(p.y)*fe(p.y) + 5*fe(p.x)*fe(p.x)))
  ensures okA(p)
  modifies *p
  property P01
func (p *Point_axtw_full) EndoEq()
  requires okA(p)
  use nonsquare(-5, fe(p.x), 1)
  use nonsquare(DD, old(endoE(fe(p.y), 1)), old(fe(p.x)*fe(p.y)))
  use nonsquare(-5, old(endoE(fe(p.y), 1)), old(fe(p.x)*fe(p.y)))
  ensures sumA(p, old(endoE(fe(p.y), 1)), old(endoF(fe(p.y), 1)), old(fe(p.x)*fe(p.y)), old(endoH(fe(p.y), 1)))
  ensures implies(old(fe(p.x) == 0), fe(p.x) == 0 && fe(p.y) == 1)
  ensures implies(old(1 == 0), fe(p.x) == 0 && fe(p.y) == -1)
  ensures okA(p)
  modifies *p
  property P02
func (p *Point_efgh_full) AddEq(input)
  instance input *Point_xtw_full
  requires okS(p) && okT(input)
  use nonsquare(DD, fe(p.e), fe(p.g))
  use nonsquare(-5, fe(p.e), fe(p.g))
  use nonsquare(-5, fe(input.x), fe(input.z))
  use nonsquare(DD, fe(input.t), fe(input.y))
  ensures sumS(p, old(xS(p)*fe(input.y) + yS(p)*fe(input.x)), old(zS(p)*fe(input.z) - DD*tS(p)*fe(input.t)), old(zS(p)*fe(input.z) + DD*tS(p)*fe(input.t)), old(yS(p)*fe(input.y) + 5*xS(p)*fe(input.x)))
  ensures sumS(p, old(tS(p)*fe(input.z) + zS(p)*fe(input.t)), old(yS(p)*fe(input.x) - xS(p)*fe(input.y)), old(yS(p)*fe(input.y) - 5*xS(p)*fe(input.x)), old(zS(p)*fe(input.t) - tS(p)*fe(input.z)))
  ensures okS(p)
  modifies *p
  property P01
func (p *Point_efgh_full) AddEq(input)
  instance input *Point_axtw_full
  requires okS(p) && okA(input)
  use nonsquare(DD, fe(p.e), fe(p.g))
  use nonsquare(-5, fe(p.e), fe(p.g))
  use nonsquare(-5, fe(input.x), 1)
  ensures sumS(p, old(xS(p)*fe(input.y) + yS(p)*fe(input.x)), old(zS(p)*1 - DD*tS(p)*fe(input.t)), old(zS(p)*1 + DD*tS(p)*fe(input.t)), old(yS(p)*fe(input.y) + 5*xS(p)*fe(input.x)))
  ensures sumS(p, old(tS(p)*1 + zS(p)*fe(input.t)), old(yS(p)*fe(input.x) - xS(p)*fe(input.y)), old(yS(p)*fe(input.y) - 5*xS(p)*fe(input.x)), old(zS(p)*fe(input.t) - tS(p)*1))
  ensures okS(p)
  modifies *p
  property P01
func (p *Point_efgh_full) AddEq(input)
  instance input *Point_efgh_full
  requires okS(p) && okS(input)
  use nonsquare(DD, fe(p.e), fe(p.g))
  use nonsquare(-5, fe(p.e), fe(p.g))
  use nonsquare(DD, fe(input.e), fe(input.g))
  use nonsquare(-5, fe(input.e), fe(input.g))
  ensures sumS(p, old(xS(p)*yS(input) + yS(p)*xS(input)), old(zS(p)*zS(input) - DD*tS(p)*tS(input)), old(zS(p)*zS(input) + DD*tS(p)*tS(input)), old(yS(p)*yS(input) + 5*xS(p)*xS(input)))
  ensures sumS(p, old(tS(p)*zS(input) + zS(p)*tS(input)), old(yS(p)*xS(input) - xS(p)*yS(input)), old(yS(p)*yS(input) - 5*xS(p)*xS(input)), old(zS(p)*tS(input) - tS(p)*zS(input)))
  ensures okS(p)
  modifies *p
  property P01
func (p *Point_efgh_full) SubEq(input)
  instance input *Point_xtw_full
  requires okS(p) && okT(input)
  use nonsquare(DD, fe(p.e), fe(p.g))
  use nonsquare(-5, fe(p.e), fe(p.g))
  use nonsquare(-5, fe(input.x), fe(input.z))
  use nonsquare(DD, fe(input.t), fe(input.y))
  ensures sumS(p, old(xS(p)*fe(input.y) - yS(p)*fe(input.x)), old(zS(p)*fe(input.z) + DD*tS(p)*fe(input.t)), old(zS(p)*fe(input.z) - DD*tS(p)*fe(input.t)), old(yS(p)*fe(input.y) - 5*xS(p)*fe(input.x)))
  ensures sumS(p, old(tS(p)*fe(input.z) - zS(p)*fe(input.t)), old(-(yS(p)*fe(input.x)) - xS(p)*fe(input.y)), old(yS(p)*fe(input.y) + 5*xS(p)*fe(input.x)), old(-(zS(p)*fe(input.t)) - tS(p)*fe(input.z)))
  ensures okS(p)
  modifies *p
  property P01
func (p *Point_efgh_full) SubEq(input)
  instance input *Point_axtw_full
  requires okS(p) && okA(input)
  use nonsquare(DD, fe(p.e), fe(p.g))
  use nonsquare(-5, fe(p.e), fe(p.g))
  use nonsquare(-5, fe(input.x), 1)
  ensures sumS(p, old(xS(p)*fe(input.y) - yS(p)*fe(input.x)), old(zS(p)*1 + DD*tS(p)*fe(input.t)), old(zS(p)*1 - DD*tS(p)*fe(input.t)), old(yS(p)*fe(input.y) - 5*xS(p)*fe(input.x)))
  ensures sumS(p, old(tS(p)*1 - zS(p)*fe(input.t)), old(-(yS(p)*fe(input.x)) - xS(p)*fe(input.y)), old(yS(p)*fe(input.y) + 5*xS(p)*fe(input.x)), old(-(zS(p)*fe(input.t)) - tS(p)*1))
  ensures okS(p)
  modifies *p
  property P01
func (p *Point_efgh_full) SubEq(input)
  instance input *Point_efgh_full
  requires okS(p) && okS(input)
  use nonsquare(DD, fe(p.e), fe(p.g))
  use nonsquare(-5, fe(p.e), fe(p.g))
  use nonsquare(DD, fe(input.e), fe(input.g))
  use nonsquare(-5, fe(input.e), fe(input.g))
  ensures sumS(p, old(xS(p)*yS(input) - yS(p)*xS(input)), old(zS(p)*zS(input) + DD*tS(p)*tS(input)), old(zS(p)*zS(input) - DD*tS(p)*tS(input)), old(yS(p)*yS(input) - 5*xS(p)*xS(input)))
  ensures sumS(p, old(tS(p)*zS(input) - zS(p)*tS(input)), old(-(yS(p)*xS(input)) - xS(p)*yS(input)), old(yS(p)*yS(input) + 5*xS(p)*xS(input)), old(-(zS(p)*tS(input)) - tS(p)*zS(input)))
  ensures okS(p)
  modifies *p
  property P01
func (p *point_efgh_base) DoubleEq()
  requires okS(p)
  use nonsquare(DD, fe(p.e), fe(p.g))
  use nonsquare(-5, fe(p.e), fe(p.g))
  use nonsquare(DD, tS(p), zS(p))
  use nonsquare(-DD, tS(p), zS(p))
  use nonsquare(-5, xS(p), yS(p))
  use nonsquare(DD, old(tS(p)), old(zS(p)))
  use nonsquare(-DD, old(tS(p)), old(zS(p)))
  use nonsquare(-5, old(xS(p)), old(yS(p)))
  ensures sumS(p, old(2*xS(p)*yS(p)), old(zS(p)*zS(p) - DD*tS(p)*tS(p)), old(zS(p)*zS(p) + DD*tS(p)*tS(p)), old(yS(p)*yS(p) + 5*xS(p)*xS(p)))
  ensures okS(p)
  modifies *p
  property P01
func (p *Point_efgh_full) EndoEq()
  requires okS(p)
  use nonsquare(DD, fe(p.e), fe(p.g))
  use nonsquare(-5, fe(p.e), fe(p.g))
  use nonsquare(DD, old(endoE(yS(p), zS(p))), old(xS(p)*yS(p)))
  use nonsquare(-5, old(endoE(yS(p), zS(p))), old(xS(p)*yS(p)))
  ensures sumS(p, old(endoE(yS(p), zS(p))), old(endoF(yS(p), zS(p))), old(xS(p)*yS(p)), old(endoH(yS(p), zS(p))))
  ensures implies(old(xS(p) == 0 && zS(p) != 0), fe(p.e) == 0 && fe(p.f) == fe(p.h))
  ensures implies(old(zS(p) == 0), fe(p.e) == 0 && fe(p.f) == -fe(p.h))
  ensures okS(p)
  modifies *p
  property P02
func (p *Point_efgh_full) SetFrom(input)
  instance input *Point_xtw_full
  requires okT(input)
  use nonsquare(-5, fe(input.x), fe(input.z))
  use nonsquare(DD, fe(input.t), fe(input.y))
  ensures xS(p)*old(fe(input.y)) == yS(p)*old(fe(input.x)) && xS(p)*old(fe(input.t)) == tS(p)*old(fe(input.x)) && xS(p)*old(fe(input.z)) == zS(p)*old(fe(input.x)) && yS(p)*old(fe(input.t)) == tS(p)*old(fe(input.y)) && yS(p)*old(fe(input.z)) == zS(p)*old(fe(input.y)) && tS(p)*old(fe(input.z)) == zS(p)*old(fe(input.t))
  ensures okS(p)
  modifies *p, *input
  property P01
func (p *Point_efgh_full) SetFrom(input)
  instance input *Point_axtw_full
  requires okA(input)
  use nonsquare(-5, fe(input.x), 1)
  ensures xS(p)*old(fe(input.y)) == yS(p)*old(fe(input.x)) && xS(p)*old(fe(input.t)) == tS(p)*old(fe(input.x)) && xS(p)*old(1) == zS(p)*old(fe(input.x)) && yS(p)*old(fe(input.t)) == tS(p)*old(fe(input.y)) && yS(p)*old(1) == zS(p)*old(fe(input.y)) && tS(p)*old(1) == zS(p)*old(fe(input.t))
  ensures okS(p)
  modifies *p, *input
  property P01
func (p *Point_efgh_full) SetFrom(input)
  instance input *Point_efgh_full
  requires okS(input)
  use nonsquare(DD, fe(input.e), fe(input.g))
  use nonsquare(-5, fe(input.e), fe(input.g))
  ensures xS(p)*old(yS(input)) == yS(p)*old(xS(input)) && xS(p)*old(tS(input)) == tS(p)*old(xS(input)) && xS(p)*old(zS(input)) == zS(p)*old(xS(input)) && yS(p)*old(tS(input)) == tS(p)*old(yS(input)) && yS(p)*old(zS(input)) == zS(p)*old(yS(input)) && tS(p)*old(zS(input)) == zS(p)*old(tS(input))
  ensures okS(p)
  modifies *p, *input
  property P01
