package bandersnatch/curvePoints
layer default 2
pred sumA(out, E, F, G, H) = fe(out.x)*G == E && fe(out.t)*G == fe(out.y)*E && fe(out.y)*F == H && fe(out.t)*F == fe(out.x)*H

// ---- the same for the other receivers; affine coordinates need a finite result
func (p *Point_xtw_full) Add(x, y)
  instance x *Point_xtw_full
  instance y *Point_xtw_full
  requires okT(x) && okT(y)
  use nonsquare(-5, fe(x.x), fe(x.z))
  use nonsquare(DD, fe(x.t), fe(x.y))
  use nonsquare(-5, fe(y.x), fe(y.z))
  use nonsquare(DD, fe(y.t), fe(y.y))
  ensures sumT(p, old(fe(x.x)*fe(y.y) + fe(x.y)*fe(y.x)), old(fe(x.z)*fe(y.z) - DD*fe(x.t)*fe(y.t)), old(fe(x.z)*fe(y.z) + DD*fe(x.t)*fe(y.t)), old(fe(x.y)*fe(y.y) + 5*fe(x.x)*fe(y.x)))
  ensures sumT(p, old(fe(x.t)*fe(y.z) + fe(x.z)*fe(y.t)), old(fe(x.y)*fe(y.x) - fe(x.x)*fe(y.y)), old(fe(x.y)*fe(y.y) - 5*fe(x.x)*fe(y.x)), old(fe(x.z)*fe(y.t) - fe(x.t)*fe(y.z)))
  ensures okT(p)
  modifies *p
  property P01
func (p *Point_xtw_full) Add(x, y)
  instance x *Point_xtw_full
  instance y *Point_axtw_full
  requires okT(x) && okA(y)
  use nonsquare(-5, fe(x.x), fe(x.z))
  use nonsquare(DD, fe(x.t), fe(x.y))
  use nonsquare(-5, fe(y.x), 1)
  ensures sumT(p, old(fe(x.x)*fe(y.y) + fe(x.y)*fe(y.x)), old(fe(x.z)*1 - DD*fe(x.t)*fe(y.t)), old(fe(x.z)*1 + DD*fe(x.t)*fe(y.t)), old(fe(x.y)*fe(y.y) + 5*fe(x.x)*fe(y.x)))
  ensures sumT(p, old(fe(x.t)*1 + fe(x.z)*fe(y.t)), old(fe(x.y)*fe(y.x) - fe(x.x)*fe(y.y)), old(fe(x.y)*fe(y.y) - 5*fe(x.x)*fe(y.x)), old(fe(x.z)*fe(y.t) - fe(x.t)*1))
  ensures okT(p)
  modifies *p
  property P01
func (p *Point_xtw_full) Add(x, y)
  instance x *Point_xtw_full
  instance y *Point_efgh_full
  requires okT(x) && okS(y)
  use nonsquare(-5, fe(x.x), fe(x.z))
  use nonsquare(DD, fe(x.t), fe(x.y))
  use nonsquare(DD, fe(y.e), fe(y.g))
  use nonsquare(-5, fe(y.e), fe(y.g))
  ensures sumT(p, old(fe(x.x)*yS(y) + fe(x.y)*xS(y)), old(fe(x.z)*zS(y) - DD*fe(x.t)*tS(y)), old(fe(x.z)*zS(y) + DD*fe(x.t)*tS(y)), old(fe(x.y)*yS(y) + 5*fe(x.x)*xS(y)))
  ensures sumT(p, old(fe(x.t)*zS(y) + fe(x.z)*tS(y)), old(fe(x.y)*xS(y) - fe(x.x)*yS(y)), old(fe(x.y)*yS(y) - 5*fe(x.x)*xS(y)), old(fe(x.z)*tS(y) - fe(x.t)*zS(y)))
  ensures okT(p)
  modifies *p
  property P01
func (p *Point_xtw_full) Add(x, y)
  instance x *Point_axtw_full
  instance y *Point_xtw_full
  requires okA(x) && okT(y)
  use nonsquare(-5, fe(x.x), 1)
  use nonsquare(-5, fe(y.x), fe(y.z))
  use nonsquare(DD, fe(y.t), fe(y.y))
  ensures sumT(p, old(fe(x.x)*fe(y.y) + fe(x.y)*fe(y.x)), old(1*fe(y.z) - DD*fe(x.t)*fe(y.t)), old(1*fe(y.z) + DD*fe(x.t)*fe(y.t)), old(fe(x.y)*fe(y.y) + 5*fe(x.x)*fe(y.x)))
  ensures sumT(p, old(fe(x.t)*fe(y.z) + 1*fe(y.t)), old(fe(x.y)*fe(y.x) - fe(x.x)*fe(y.y)), old(fe(x.y)*fe(y.y) - 5*fe(x.x)*fe(y.x)), old(1*fe(y.t) - fe(x.t)*fe(y.z)))
  ensures okT(p)
  modifies *p
  property P01
func (p *Point_xtw_full) Add(x, y)
  instance x *Point_axtw_full
  instance y *Point_axtw_full
  requires okA(x) && okA(y)
  use nonsquare(-5, fe(x.x), 1)
  use nonsquare(-5, fe(y.x), 1)
  ensures sumT(p, old(fe(x.x)*fe(y.y) + fe(x.y)*fe(y.x)), old(1*1 - DD*fe(x.t)*fe(y.t)), old(1*1 + DD*fe(x.t)*fe(y.t)), old(fe(x.y)*fe(y.y) + 5*fe(x.x)*fe(y.x)))
  ensures sumT(p, old(fe(x.t)*1 + 1*fe(y.t)), old(fe(x.y)*fe(y.x) - fe(x.x)*fe(y.y)), old(fe(x.y)*fe(y.y) - 5*fe(x.x)*fe(y.x)), old(1*fe(y.t) - fe(x.t)*1))
  ensures okT(p)
  modifies *p
  property P01
func (p *Point_xtw_full) Add(x, y)
  instance x *Point_axtw_full
  instance y *Point_efgh_full
  requires okA(x) && okS(y)
  use nonsquare(-5, fe(x.x), 1)
  use nonsquare(DD, fe(y.e), fe(y.g))
  use nonsquare(-5, fe(y.e), fe(y.g))
  ensures sumT(p, old(fe(x.x)*yS(y) + fe(x.y)*xS(y)), old(1*zS(y) - DD*fe(x.t)*tS(y)), old(1*zS(y) + DD*fe(x.t)*tS(y)), old(fe(x.y)*yS(y) + 5*fe(x.x)*xS(y)))
  ensures sumT(p, old(fe(x.t)*zS(y) + 1*tS(y)), old(fe(x.y)*xS(y) - fe(x.x)*yS(y)), old(fe(x.y)*yS(y) - 5*fe(x.x)*xS(y)), old(1*tS(y) - fe(x.t)*zS(y)))
  ensures okT(p)
  modifies *p
  property P01
func (p *Point_xtw_full) Add(x, y)
  instance x *Point_efgh_full
  instance y *Point_xtw_full
  requires okS(x) && okT(y)
  use nonsquare(DD, fe(x.e), fe(x.g))
  use nonsquare(-5, fe(x.e), fe(x.g))
  use nonsquare(-5, fe(y.x), fe(y.z))
  use nonsquare(DD, fe(y.t), fe(y.y))
  ensures sumT(p, old(xS(x)*fe(y.y) + yS(x)*fe(y.x)), old(zS(x)*fe(y.z) - DD*tS(x)*fe(y.t)), old(zS(x)*fe(y.z) + DD*tS(x)*fe(y.t)), old(yS(x)*fe(y.y) + 5*xS(x)*fe(y.x)))
  ensures sumT(p, old(tS(x)*fe(y.z) + zS(x)*fe(y.t)), old(yS(x)*fe(y.x) - xS(x)*fe(y.y)), old(yS(x)*fe(y.y) - 5*xS(x)*fe(y.x)), old(zS(x)*fe(y.t) - tS(x)*fe(y.z)))
  ensures okT(p)
  modifies *p
  property P01
func (p *Point_xtw_full) Add(x, y)
  instance x *Point_efgh_full
  instance y *Point_axtw_full
  requires okS(x) && okA(y)
  use nonsquare(DD, fe(x.e), fe(x.g))
  use nonsquare(-5, fe(x.e), fe(x.g))
  use nonsquare(-5, fe(y.x), 1)
  ensures sumT(p, old(xS(x)*fe(y.y) + yS(x)*fe(y.x)), old(zS(x)*1 - DD*tS(x)*fe(y.t)), old(zS(x)*1 + DD*tS(x)*fe(y.t)), old(yS(x)*fe(y.y) + 5*xS(x)*fe(y.x)))
  ensures sumT(p, old(tS(x)*1 + zS(x)*fe(y.t)), old(yS(x)*fe(y.x) - xS(x)*fe(y.y)), old(yS(x)*fe(y.y) - 5*xS(x)*fe(y.x)), old(zS(x)*fe(y.t) - tS(x)*1))
  ensures okT(p)
  modifies *p
  property P01
func (p *Point_xtw_full) Add(x, y)
  instance x *Point_efgh_full
  instance y *Point_efgh_full
  requires okS(x) && okS(y)
  use nonsquare(DD, fe(x.e), fe(x.g))
  use nonsquare(-5, fe(x.e), fe(x.g))
  use nonsquare(DD, fe(y.e), fe(y.g))
  use nonsquare(-5, fe(y.e), fe(y.g))
  ensures sumT(p, old(xS(x)*yS(y) + yS(x)*xS(y)), old(zS(x)*zS(y) - DD*tS(x)*tS(y)), old(zS(x)*zS(y) + DD*tS(x)*tS(y)), old(yS(x)*yS(y) + 5*xS(x)*xS(y)))
  ensures sumT(p, old(tS(x)*zS(y) + zS(x)*tS(y)), old(yS(x)*xS(y) - xS(x)*yS(y)), old(yS(x)*yS(y) - 5*xS(x)*xS(y)), old(zS(x)*tS(y) - tS(x)*zS(y)))
  ensures okT(p)
  modifies *p
  property P01
func (p *Point_xtw_full) Sub(x, y)
  instance x *Point_xtw_full
  instance y *Point_xtw_full
  requires okT(x) && okT(y)
  use nonsquare(-5, fe(x.x), fe(x.z))
  use nonsquare(DD, fe(x.t), fe(x.y))
  use nonsquare(-5, fe(y.x), fe(y.z))
  use nonsquare(DD, fe(y.t), fe(y.y))
  ensures sumT(p, old(fe(x.x)*fe(y.y) - fe(x.y)*fe(y.x)), old(fe(x.z)*fe(y.z) + DD*fe(x.t)*fe(y.t)), old(fe(x.z)*fe(y.z) - DD*fe(x.t)*fe(y.t)), old(fe(x.y)*fe(y.y) - 5*fe(x.x)*fe(y.x)))
  ensures sumT(p, old(fe(x.t)*fe(y.z) - fe(x.z)*fe(y.t)), old(-(fe(x.y)*fe(y.x)) - fe(x.x)*fe(y.y)), old(fe(x.y)*fe(y.y) + 5*fe(x.x)*fe(y.x)), old(-(fe(x.z)*fe(y.t)) - fe(x.t)*fe(y.z)))
  ensures okT(p)
  modifies *p
  property P01
func (p *Point_xtw_full) Sub(x, y)
  instance x *Point_xtw_full
  instance y *Point_axtw_full
  requires okT(x) && okA(y)
  use nonsquare(-5, fe(x.x), fe(x.z))
  use nonsquare(DD, fe(x.t), fe(x.y))
  use nonsquare(-5, fe(y.x), 1)
  ensures sumT(p, old(fe(x.x)*fe(y.y) - fe(x.y)*fe(y.x)), old(fe(x.z)*1 + DD*fe(x.t)*fe(y.t)), old(fe(x.z)*1 - DD*fe(x.t)*fe(y.t)), old(fe(x.y)*fe(y.y) - 5*fe(x.x)*fe(y.x)))
  ensures sumT(p, old(fe(x.t)*1 - fe(x.z)*fe(y.t)), old(-(fe(x.y)*fe(y.x)) - fe(x.x)*fe(y.y)), old(fe(x.y)*fe(y.y) + 5*fe(x.x)*fe(y.x)), old(-(fe(x.z)*fe(y.t)) - fe(x.t)*1))
  ensures okT(p)
  modifies *p
  property P01
func (p *Point_xtw_full) Sub(x, y)
  instance x *Point_xtw_full
  instance y *Point_efgh_full
  requires okT(x) && okS(y)
  use nonsquare(-5, fe(x.x), fe(x.z))
  use nonsquare(DD, fe(x.t), fe(x.y))
  use nonsquare(DD, fe(y.e), fe(y.g))
  use nonsquare(-5, fe(y.e), fe(y.g))
  ensures sumT(p, old(fe(x.x)*yS(y) - fe(x.y)*xS(y)), old(fe(x.z)*zS(y) + DD*fe(x.t)*tS(y)), old(fe(x.z)*zS(y) - DD*fe(x.t)*tS(y)), old(fe(x.y)*yS(y) - 5*fe(x.x)*xS(y)))
  ensures sumT(p, old(fe(x.t)*zS(y) - fe(x.z)*tS(y)), old(-(fe(x.y)*xS(y)) - fe(x.x)*yS(y)), old(fe(x.y)*yS(y) + 5*fe(x.x)*xS(y)), old(-(fe(x.z)*tS(y)) - fe(x.t)*zS(y)))
  ensures okT(p)
  modifies *p
  property P01
func (p *Point_xtw_full) Sub(x, y)
  instance x *Point_axtw_full
  instance y *Point_xtw_full
  requires okA(x) && okT(y)
  use nonsquare(-5, fe(x.x), 1)
  use nonsquare(-5, fe(y.x), fe(y.z))
  use nonsquare(DD, fe(y.t), fe(y.y))
  ensures sumT(p, old(fe(x.x)*fe(y.y) - fe(x.y)*fe(y.x)), old(1*fe(y.z) + DD*fe(x.t)*fe(y.t)), old(1*fe(y.z) - DD*fe(x.t)*fe(y.t)), old(fe(x.y)*fe(y.y) - 5*fe(x.x)*fe(y.x)))
  ensures sumT(p, old(fe(x.t)*fe(y.z) - 1*fe(y.t)), old(-(fe(x.y)*fe(y.x)) - fe(x.x)*fe(y.y)), old(fe(x.y)*fe(y.y) + 5*fe(x.x)*fe(y.x)), old(-(1*fe(y.t)) - fe(x.t)*fe(y.z)))
  ensures okT(p)
  modifies *p
  property P01
func (p *Point_xtw_full) Sub(x, y)
  instance x *Point_axtw_full
  instance y *Point_axtw_full
  requires okA(x) && okA(y)
  use nonsquare(-5, fe(x.x), 1)
  use nonsquare(-5, fe(y.x), 1)
  ensures sumT(p, old(fe(x.x)*fe(y.y) - fe(x.y)*fe(y.x)), old(1*1 + DD*fe(x.t)*fe(y.t)), old(1*1 - DD*fe(x.t)*fe(y.t)), old(fe(x.y)*fe(y.y) - 5*fe(x.x)*fe(y.x)))
  ensures sumT(p, old(fe(x.t)*1 - 1*fe(y.t)), old(-(fe(x.y)*fe(y.x)) - fe(x.x)*fe(y.y)), old(fe(x.y)*fe(y.y) + 5*fe(x.x)*fe(y.x)), old(-(1*fe(y.t)) - fe(x.t)*1))
  ensures okT(p)
  modifies *p
  property P01
func (p *Point_xtw_full) Sub(x, y)
  instance x *Point_axtw_full
  instance y *Point_efgh_full
  requires okA(x) && okS(y)
  use nonsquare(-5, fe(x.x), 1)
  use nonsquare(DD, fe(y.e), fe(y.g))
  use nonsquare(-5, fe(y.e), fe(y.g))
  ensures sumT(p, old(fe(x.x)*yS(y) - fe(x.y)*xS(y)), old(1*zS(y) + DD*fe(x.t)*tS(y)), old(1*zS(y) - DD*fe(x.t)*tS(y)), old(fe(x.y)*yS(y) - 5*fe(x.x)*xS(y)))
  ensures sumT(p, old(fe(x.t)*zS(y) - 1*tS(y)), old(-(fe(x.y)*xS(y)) - fe(x.x)*yS(y)), old(fe(x.y)*yS(y) + 5*fe(x.x)*xS(y)), old(-(1*tS(y)) - fe(x.t)*zS(y)))
  ensures okT(p)
  modifies *p
  property P01
func (p *Point_xtw_full) Sub(x, y)
  instance x *Point_efgh_full
  instance y *Point_xtw_full
  requires okS(x) && okT(y)
  use nonsquare(DD, fe(x.e), fe(x.g))
  use nonsquare(-5, fe(x.e), fe(x.g))
  use nonsquare(-5, fe(y.x), fe(y.z))
  use nonsquare(DD, fe(y.t), fe(y.y))
  ensures sumT(p, old(xS(x)*fe(y.y) - yS(x)*fe(y.x)), old(zS(x)*fe(y.z) + DD*tS(x)*fe(y.t)), old(zS(x)*fe(y.z) - DD*tS(x)*fe(y.t)), old(yS(x)*fe(y.y) - 5*xS(x)*fe(y.x)))
  ensures sumT(p, old(tS(x)*fe(y.z) - zS(x)*fe(y.t)), old(-(yS(x)*fe(y.x)) - xS(x)*fe(y.y)), old(yS(x)*fe(y.y) + 5*xS(x)*fe(y.x)), old(-(zS(x)*fe(y.t)) - tS(x)*fe(y.z)))
  ensures okT(p)
  modifies *p
  property P01
func (p *Point_xtw_full) Sub(x, y)
  instance x *Point_efgh_full
  instance y *Point_axtw_full
  requires okS(x) && okA(y)
  use nonsquare(DD, fe(x.e), fe(x.g))
  use nonsquare(-5, fe(x.e), fe(x.g))
  use nonsquare(-5, fe(y.x), 1)
  ensures sumT(p, old(xS(x)*fe(y.y) - yS(x)*fe(y.x)), old(zS(x)*1 + DD*tS(x)*fe(y.t)), old(zS(x)*1 - DD*tS(x)*fe(y.t)), old(yS(x)*fe(y.y) - 5*xS(x)*fe(y.x)))
  ensures sumT(p, old(tS(x)*1 - zS(x)*fe(y.t)), old(-(yS(x)*fe(y.x)) - xS(x)*fe(y.y)), old(yS(x)*fe(y.y) + 5*xS(x)*fe(y.x)), old(-(zS(x)*fe(y.t)) - tS(x)*1))
  ensures okT(p)
  modifies *p
  property P01
func (p *Point_xtw_full) Sub(x, y)
  instance x *Point_efgh_full
  instance y *Point_efgh_full
  requires okS(x) && okS(y)
  use nonsquare(DD, fe(x.e), fe(x.g))
  use nonsquare(-5, fe(x.e), fe(x.g))
  use nonsquare(DD, fe(y.e), fe(y.g))
  use nonsquare(-5, fe(y.e), fe(y.g))
  ensures sumT(p, old(xS(x)*yS(y) - yS(x)*xS(y)), old(zS(x)*zS(y) + DD*tS(x)*tS(y)), old(zS(x)*zS(y) - DD*tS(x)*tS(y)), old(yS(x)*yS(y) - 5*xS(x)*xS(y)))
  ensures sumT(p, old(tS(x)*zS(y) - zS(x)*tS(y)), old(-(yS(x)*xS(y)) - xS(x)*yS(y)), old(yS(x)*yS(y) + 5*xS(x)*xS(y)), old(-(zS(x)*tS(y)) - tS(x)*zS(y)))
  ensures okT(p)
  modifies *p
  property P01
func (p *point_xtw_base) Double(x)
  instance x *Point_xtw_full
  requires okT(x)
  use nonsquare(-5, fe(x.x), fe(x.z))
  use nonsquare(DD, fe(x.t), fe(x.y))
  use nonsquare(DD, fe(x.t), fe(x.z))
  use nonsquare(-DD, fe(x.t), fe(x.z))
  use nonsquare(-5, fe(x.x), fe(x.y))
  ensures sumT(p, old(2*fe(x.x)*fe(x.y)), old(fe(x.z)*fe(x.z) - DD*fe(x.t)*fe(x.t)), old(fe(x.z)*fe(x.z) + DD*fe(x.t)*fe(x.t)), old(fe(x.y)*fe(x.y) + 5*fe(x.x)*fe(x.x)))
  ensures okT(p)
  modifies *p
  property P01
func (p *Point_xtw_full) SetFrom(input)
  instance input *Point_xtw_full
  requires okT(input)
  use nonsquare(-5, fe(input.x), fe(input.z))
  use nonsquare(DD, fe(input.t), fe(input.y))
  ensures fe(p.x)*old(fe(input.y)) == fe(p.y)*old(fe(input.x)) && fe(p.x)*old(fe(input.t)) == fe(p.t)*old(fe(input.x)) && fe(p.x)*old(fe(input.z)) == fe(p.z)*old(fe(input.x)) && fe(p.y)*old(fe(input.t)) == fe(p.t)*old(fe(input.y)) && fe(p.y)*old(fe(input.z)) == fe(p.z)*old(fe(input.y)) && fe(p.t)*old(fe(input.z)) == fe(p.z)*old(fe(input.t))
  ensures okT(p)
  modifies *p, *input
  property P01
func (p *Point_xtw_full) Neg(input)
  instance input *Point_xtw_full
  requires okT(input)
  use nonsquare(-5, fe(input.x), fe(input.z))
  use nonsquare(DD, fe(input.t), fe(input.y))
  ensures fe(p.x)*old(fe(input.y)) == fe(p.y)*old(-fe(input.x)) && fe(p.x)*old(-fe(input.t)) == fe(p.t)*old(-fe(input.x)) && fe(p.x)*old(fe(input.z)) == fe(p.z)*old(-fe(input.x)) && fe(p.y)*old(-fe(input.t)) == fe(p.t)*old(fe(input.y)) && fe(p.y)*old(fe(input.z)) == fe(p.z)*old(fe(input.y)) && fe(p.t)*old(fe(input.z)) == fe(p.z)*old(-fe(input.t))
  ensures okT(p)
  modifies *p, *input
  property P01
func (p *Point_xtw_full) Endo(input)
  instance input *Point_xtw_full
  requires okT(input)
  use nonsquare(-5, fe(input.x), fe(input.z))
  use nonsquare(DD, fe(input.t), fe(input.y))
  use nonsquare(DD, endoE(fe(input.y), fe(input.z)), fe(input.x)*fe(input.y))
  use nonsquare(-5, endoE(fe(input.y), fe(input.z)), fe(input.x)*fe(input.y))
  ensures sumT(p, old(endoE(fe(input.y), fe(input.z))), old(endoF(fe(input.y), fe(input.z))), old(fe(input.x)*fe(input.y)), old(endoH(fe(input.y), fe(input.z))))
  ensures implies(old(fe(input.x) == 0), fe(p.x) == 0 && fe(p.y) == fe(p.z))
  ensures implies(old(fe(input.z) == 0), fe(p.x) == 0 && fe(p.y) == -fe(p.z))
  ensures okT(p)
  modifies *p, *input
  property P02
func (p *point_xtw_base) Double(x)
  instance x *Point_axtw_full
  requires okA(x)
  use nonsquare(-5, fe(x.x), 1)
  use nonsquare(DD, fe(x.t), 1)
  use nonsquare(-DD, fe(x.t), 1)
  use nonsquare(-5, fe(x.x), fe(x.y))
  ensures sumT(p, old(2*fe(x.x)*fe(x.y)), old(1*1 - DD*fe(x.t)*fe(x.t)), old(1*1 + DD*fe(x.t)*fe(x.t)), old(fe(x.y)*fe(x.y) + 5*fe(x.x)*fe(x.x)))
  ensures okT(p)
  modifies *p
  property P01
func (p *Point_xtw_full) SetFrom(input)
  instance input *Point_axtw_full
  requires okA(input)
  use nonsquare(-5, fe(input.x), 1)
  ensures fe(p.x)*old(fe(input.y)) == fe(p.y)*old(fe(input.x)) && fe(p.x)*old(fe(input.t)) == fe(p.t)*old(fe(input.x)) && fe(p.x)*old(1) == fe(p.z)*old(fe(input.x)) && fe(p.y)*old(fe(input.t)) == fe(p.t)*old(fe(input.y)) && fe(p.y)*old(1) == fe(p.z)*old(fe(input.y)) && fe(p.t)*old(1) == fe(p.z)*old(fe(input.t))
  ensures okT(p)
  modifies *p, *input
  property P01
func (p *Point_xtw_full) Neg(input)
  instance input *Point_axtw_full
  requires okA(input)
  use nonsquare(-5, fe(input.x), 1)
  ensures fe(p.x)*old(fe(input.y)) == fe(p.y)*old(-fe(input.x)) && fe(p.x)*old(-fe(input.t)) == fe(p.t)*old(-fe(input.x)) && fe(p.x)*old(1) == fe(p.z)*old(-fe(input.x)) && fe(p.y)*old(-fe(input.t)) == fe(p.t)*old(fe(input.y)) && fe(p.y)*old(1) == fe(p.z)*old(fe(input.y)) && fe(p.t)*old(1) == fe(p.z)*old(-fe(input.t))
  ensures okT(p)
  modifies *p, *input
  property P01
func (p *Point_xtw_full) Endo(input)
  instance input *Point_axtw_full
  requires okA(input)
  use nonsquare(-5, fe(input.x), 1)
  use nonsquare(DD, endoE(fe(input.y), 1), fe(input.x)*fe(input.y))
  use nonsquare(-5, endoE(fe(input.y), 1), fe(input.x)*fe(input.y))
  ensures sumT(p, old(endoE(fe(input.y), 1)), old(endoF(fe(input.y), 1)), old(fe(input.x)*fe(input.y)), old(endoH(fe(input.y), 1)))
  ensures implies(old(fe(input.x) == 0), fe(p.x) == 0 && fe(p.y) == fe(p.z))
  ensures implies(old(1 == 0), fe(p.x) == 0 && fe(p.y) == -fe(p.z))
  ensures okT(p)
  modifies *p, *input
  property P02
func (p *point_xtw_base) Double(x)
  instance x *Point_efgh_full
  requires okS(x)
  use nonsquare(DD, fe(x.e), fe(x.g))
  use nonsquare(-5, fe(x.e), fe(x.g))
  use nonsquare(DD, tS(x), zS(x))
  use nonsquare(-DD, tS(x), zS(x))
  use nonsquare(-5, xS(x), yS(x))
  ensures sumT(p, old(2*xS(x)*yS(x)), old(zS(x)*zS(x) - DD*tS(x)*tS(x)), old(zS(x)*zS(x) + DD*tS(x)*tS(x)), old(yS(x)*yS(x) + 5*xS(x)*xS(x)))
  ensures okT(p)
  modifies *p
  property P01
func (p *Point_xtw_full) SetFrom(input)
  instance input *Point_efgh_full
  requires okS(input)
  use nonsquare(DD, fe(input.e), fe(input.g))
  use nonsquare(-5, fe(input.e), fe(input.g))
  ensures fe(p.x)*old(yS(input)) == fe(p.y)*old(xS(input)) && fe(p.x)*old(tS(input)) == fe(p.t)*old(xS(input)) && fe(p.x)*old(zS(input)) == fe(p.z)*old(xS(input)) && fe(p.y)*old(tS(input)) == fe(p.t)*old(yS(input)) && fe(p.y)*old(zS(input)) == fe(p.z)*old(yS(input)) && fe(p.t)*old(zS(input)) == fe(p.z)*old(tS(input))
  ensures okT(p)
  modifies *p, *input
  property P01
func (p *Point_xtw_full) Neg(input)
  instance input *Point_efgh_full
  requires okS(input)
  use nonsquare(DD, fe(input.e), fe(input.g))
  use nonsquare(-5, fe(input.e), fe(input.g))
  ensures fe(p.x)*old(yS(input)) == fe(p.y)*old(-xS(input)) && fe(p.x)*old(-tS(input)) == fe(p.t)*old(-xS(input)) && fe(p.x)*old(zS(input)) == fe(p.z)*old(-xS(input)) && fe(p.y)*old(-tS(input)) == fe(p.t)*old(yS(input)) && fe(p.y)*old(zS(input)) == fe(p.z)*old(yS(input)) && fe(p.t)*old(zS(input)) == fe(p.z)*old(-tS(input))
  ensures okT(p)
  modifies *p, *input
  property P01
func (p *Point_xtw_full) Endo(input)
  instance input *Point_efgh_full
  requires okS(input)
  use nonsquare(DD, fe(input.e), fe(input.g))
  use nonsquare(-5, fe(input.e), fe(input.g))
  use nonsquare(DD, endoE(yS(input), zS(input)), xS(input)*yS(input))
  use nonsquare(-5, endoE(yS(input), zS(input)), xS(input)*yS(input))
  ensures sumT(p, old(endoE(yS(input), zS(input))), old(endoF(yS(input), zS(input))), old(xS(input)*yS(input)), old(endoH(yS(input), zS(input))))
  ensures implies(old(xS(input) == 0), fe(p.x) == 0 && fe(p.y) == fe(p.z))
  ensures implies(old(zS(input) == 0), fe(p.x) == 0 && fe(p.y) == -fe(p.z))
  ensures okT(p)
  modifies *p, *input
  property P02
func (p *Point_axtw_full) Add(x, y)
  instance x *Point_xtw_full
  instance y *Point_xtw_full
  requires okT(x) && okT(y)
  requires !(fe(x.z)*fe(y.z) + DD*fe(x.t)*fe(y.t) == 0 && fe(x.x)*fe(y.y) + fe(x.y)*fe(y.x) != 0) && !(fe(x.y)*fe(y.y) - 5*fe(x.x)*fe(y.x) == 0 && fe(x.t)*fe(y.z) + fe(x.z)*fe(y.t) != 0)
  use nonsquare(-5, fe(x.x), fe(x.z))
  use nonsquare(DD, fe(x.t), fe(x.y))
  use nonsquare(-5, fe(y.x), fe(y.z))
  use nonsquare(DD, fe(y.t), fe(y.y))
  ensures sumA(p, old(fe(x.x)*fe(y.y) + fe(x.y)*fe(y.x)), old(fe(x.z)*fe(y.z) - DD*fe(x.t)*fe(y.t)), old(fe(x.z)*fe(y.z) + DD*fe(x.t)*fe(y.t)), old(fe(x.y)*fe(y.y) + 5*fe(x.x)*fe(y.x)))
  ensures sumA(p, old(fe(x.t)*fe(y.z) + fe(x.z)*fe(y.t)), old(fe(x.y)*fe(y.x) - fe(x.x)*fe(y.y)), old(fe(x.y)*fe(y.y) - 5*fe(x.x)*fe(y.x)), old(fe(x.z)*fe(y.t) - fe(x.t)*fe(y.z)))
  ensures okA(p)
  modifies *p
  property P01
func (p *Point_axtw_full) Add(x, y)
  instance x *Point_xtw_full
  instance y *Point_axtw_full
  requires okT(x) && okA(y)
  requires !(fe(x.z)*1 + DD*fe(x.t)*fe(y.t) == 0 && fe(x.x)*fe(y.y) + fe(x.y)*fe(y.x) != 0) && !(fe(x.y)*fe(y.y) - 5*fe(x.x)*fe(y.x) == 0 && fe(x.t)*1 + fe(x.z)*fe(y.t) != 0)
  use nonsquare(-5, fe(x.x), fe(x.z))
  use nonsquare(DD, fe(x.t), fe(x.y))
  use nonsquare(-5, fe(y.x), 1)
  ensures sumA(p, old(fe(x.x)*fe(y.y) + fe(x.y)*fe(y.x)), old(fe(x.z)*1 - DD*fe(x.t)*fe(y.t)), old(fe(x.z)*1 + DD*fe(x.t)*fe(y.t)), old(fe(x.y)*fe(y.y) + 5*fe(x.x)*fe(y.x)))
  ensures sumA(p, old(fe(x.t)*1 + fe(x.z)*fe(y.t)), old(fe(x.y)*fe(y.x) - fe(x.x)*fe(y.y)), old(fe(x.y)*fe(y.y) - 5*fe(x.x)*fe(y.x)), old(fe(x.z)*fe(y.t) - fe(x.t)*1))
  ensures okA(p)
  modifies *p
  property P01
func (p *Point_axtw_full) Add(x, y)
  instance x *Point_xtw_full
  instance y *Point_efgh_full
  requires okT(x) && okS(y)
  requires !(fe(x.z)*zS(y) + DD*fe(x.t)*tS(y) == 0 && fe(x.x)*yS(y) + fe(x.y)*xS(y) != 0) && !(fe(x.y)*yS(y) - 5*fe(x.x)*xS(y) == 0 && fe(x.t)*zS(y) + fe(x.z)*tS(y) != 0)
  use nonsquare(-5, fe(x.x), fe(x.z))
  use nonsquare(DD, fe(x.t), fe(x.y))
  use nonsquare(DD, fe(y.e), fe(y.g))
  use nonsquare(-5, fe(y.e), fe(y.g))
  ensures sumA(p, old(fe(x.x)*yS(y) + fe(x.y)*xS(y)), old(fe(x.z)*zS(y) - DD*fe(x.t)*tS(y)), old(fe(x.z)*zS(y) + DD*fe(x.t)*tS(y)), old(fe(x.y)*yS(y) + 5*fe(x.x)*xS(y)))
  ensures sumA(p, old(fe(x.t)*zS(y) + fe(x.z)*tS(y)), old(fe(x.y)*xS(y) - fe(x.x)*yS(y)), old(fe(x.y)*yS(y) - 5*fe(x.x)*xS(y)), old(fe(x.z)*tS(y) - fe(x.t)*zS(y)))
  ensures okA(p)
  modifies *p
  property P01
func (p *Point_axtw_full) Add(x, y)
  instance x *Point_axtw_full
  instance y *Point_xtw_full
  requires okA(x) && okT(y)
  requires !(1*fe(y.z) + DD*fe(x.t)*fe(y.t) == 0 && fe(x.x)*fe(y.y) + fe(x.y)*fe(y.x) != 0) && !(fe(x.y)*fe(y.y) - 5*fe(x.x)*fe(y.x) == 0 && fe(x.t)*fe(y.z) + 1*fe(y.t) != 0)
  use nonsquare(-5, fe(x.x), 1)
  use nonsquare(-5, fe(y.x), fe(y.z))
  use nonsquare(DD, fe(y.t), fe(y.y))
  ensures sumA(p, old(fe(x.x)*fe(y.y) + fe(x.y)*fe(y.x)), old(1*fe(y.z) - DD*fe(x.t)*fe(y.t)), old(1*fe(y.z) + DD*fe(x.t)*fe(y.t)), old(fe(x.y)*fe(y.y) + 5*fe(x.x)*fe(y.x)))
  ensures sumA(p, old(fe(x.t)*fe(y.z) + 1*fe(y.t)), old(fe(x.y)*fe(y.x) - fe(x.x)*fe(y.y)), old(fe(x.y)*fe(y.y) - 5*fe(x.x)*fe(y.x)), old(1*fe(y.t) - fe(x.t)*fe(y.z)))
  ensures okA(p)
  modifies *p
  property P01
func (p *Point_axtw_full) Add(x, y)
  instance x *Point_axtw_full
  instance y *Point_axtw_full
  requires okA(x) && okA(y)
  requires !(1*1 + DD*fe(x.t)*fe(y.t) == 0 && fe(x.x)*fe(y.y) + fe(x.y)*fe(y.x) != 0) && !(fe(x.y)*fe(y.y) - 5*fe(x.x)*fe(y.x) == 0 && fe(x.t)*1 + 1*fe(y.t) != 0)
  use nonsquare(-5, fe(x.x), 1)
  use nonsquare(-5, fe(y.x), 1)
  ensures sumA(p, old(fe(x.x)*fe(y.y) + fe(x.y)*fe(y.x)), old(1*1 - DD*fe(x.t)*fe(y.t)), old(1*1 + DD*fe(x.t)*fe(y.t)), old(fe(x.y)*fe(y.y) + 5*fe(x.x)*fe(y.x)))
  ensures sumA(p, old(fe(x.t)*1 + 1*fe(y.t)), old(fe(x.y)*fe(y.x) - fe(x.x)*fe(y.y)), old(fe(x.y)*fe(y.y) - 5*fe(x.x)*fe(y.x)), old(1*fe(y.t) - fe(x.t)*1))
  ensures okA(p)
  modifies *p
  property P01
func (p *Point_axtw_full) Add(x, y)
  instance x *Point_axtw_full
  instance y *Point_efgh_full
  requires okA(x) && okS(y)
  requires !(1*zS(y) + DD*fe(x.t)*tS(y) == 0 && fe(x.x)*yS(y) + fe(x.y)*xS(y) != 0) && !(fe(x.y)*yS(y) - 5*fe(x.x)*xS(y) == 0 && fe(x.t)*zS(y) + 1*tS(y) != 0)
  use nonsquare(-5, fe(x.x), 1)
  use nonsquare(DD, fe(y.e), fe(y.g))
  use nonsquare(-5, fe(y.e), fe(y.g))
  ensures sumA(p, old(fe(x.x)*yS(y) + fe(x.y)*xS(y)), old(1*zS(y) - DD*fe(x.t)*tS(y)), old(1*zS(y) + DD*fe(x.t)*tS(y)), old(fe(x.y)*yS(y) + 5*fe(x.x)*xS(y)))
  ensures sumA(p, old(fe(x.t)*zS(y) + 1*tS(y)), old(fe(x.y)*xS(y) - fe(x.x)*yS(y)), old(fe(x.y)*yS(y) - 5*fe(x.x)*xS(y)), old(1*tS(y) - fe(x.t)*zS(y)))
  ensures okA(p)
  modifies *p
  property P01
func (p *Point_axtw_full) Add(x, y)
  instance x *Point_efgh_full
  instance y *Point_xtw_full
  requires okS(x) && okT(y)
  requires !(zS(x)*fe(y.z) + DD*tS(x)*fe(y.t) == 0 && xS(x)*fe(y.y) + yS(x)*fe(y.x) != 0) && !(yS(x)*fe(y.y) - 5*xS(x)*fe(y.x) == 0 && tS(x)*fe(y.z) + zS(x)*fe(y.t) != 0)
  use nonsquare(DD, fe(x.e), fe(x.g))
  use nonsquare(-5, fe(x.e), fe(x.g))
  use nonsquare(-5, fe(y.x), fe(y.z))
  use nonsquare(DD, fe(y.t), fe(y.y))
  ensures sumA(p, old(xS(x)*fe(y.y) + yS(x)*fe(y.x)), old(zS(x)*fe(y.z) - DD*tS(x)*fe(y.t)), old(zS(x)*fe(y.z) + DD*tS(x)*fe(y.t)), old(yS(x)*fe(y.y) + 5*xS(x)*fe(y.x)))
  ensures sumA(p, old(tS(x)*fe(y.z) + zS(x)*fe(y.t)), old(yS(x)*fe(y.x) - xS(x)*fe(y.y)), old(yS(x)*fe(y.y) - 5*xS(x)*fe(y.x)), old(zS(x)*fe(y.t) - tS(x)*fe(y.z)))
  ensures okA(p)
  modifies *p
  property P01
func (p *Point_axtw_full) Add(x, y)
  instance x *Point_efgh_full
  instance y *Point_axtw_full
  requires okS(x) && okA(y)
  requires !(zS(x)*1 + DD*tS(x)*fe(y.t) == 0 && xS(x)*fe(y.y) + yS(x)*fe(y.x) != 0) && !(yS(x)*fe(y.y) - 5*xS(x)*fe(y.x) == 0 && tS(x)*1 + zS(x)*fe(y.t) != 0)
  use nonsquare(DD, fe(x.e), fe(x.g))
  use nonsquare(-5, fe(x.e), fe(x.g))
  use nonsquare(-5, fe(y.x), 1)
  ensures sumA(p, old(xS(x)*fe(y.y) + yS(x)*fe(y.x)), old(zS(x)*1 - DD*tS(x)*fe(y.t)), old(zS(x)*1 + DD*tS(x)*fe(y.t)), old(yS(x)*fe(y.y) + 5*xS(x)*fe(y.x)))
  ensures sumA(p, old(tS(x)*1 + zS(x)*fe(y.t)), old(yS(x)*fe(y.x) - xS(x)*fe(y.y)), old(yS(x)*fe(y.y) - 5*xS(x)*fe(y.x)), old(zS(x)*fe(y.t) - tS(x)*1))
  ensures okA(p)
  modifies *p
  property P01
func (p *Point_axtw_full) Add(x, y)
  instance x *Point_efgh_full
  instance y *Point_efgh_full
  requires okS(x) && okS(y)
  requires !(zS(x)*zS(y) + DD*tS(x)*tS(y) == 0 && xS(x)*yS(y) + yS(x)*xS(y) != 0) && !(yS(x)*yS(y) - 5*xS(x)*xS(y) == 0 && tS(x)*zS(y) + zS(x)*tS(y) != 0)
  use nonsquare(DD, fe(x.e), fe(x.g))
  use nonsquare(-5, fe(x.e), fe(x.g))
  use nonsquare(DD, fe(y.e), fe(y.g))
  use nonsquare(-5, fe(y.e), fe(y.g))
  ensures sumA(p, old(xS(x)*yS(y) + yS(x)*xS(y)), old(zS(x)*zS(y) - DD*tS(x)*tS(y)), old(zS(x)*zS(y) + DD*tS(x)*tS(y)), old(yS(x)*yS(y) + 5*xS(x)*xS(y)))
  ensures sumA(p, old(tS(x)*zS(y) + zS(x)*tS(y)), old(yS(x)*xS(y) - xS(x)*yS(y)), old(yS(x)*yS(y) - 5*xS(x)*xS(y)), old(zS(x)*tS(y) - tS(x)*zS(y)))
  ensures okA(p)
  modifies *p
  property P01
func (p *Point_axtw_full) Sub(x, y)
  instance x *Point_xtw_full
  instance y *Point_xtw_full
  requires okT(x) && okT(y)
  requires !(fe(x.z)*fe(y.z) - DD*fe(x.t)*fe(y.t) == 0 && fe(x.x)*fe(y.y) - fe(x.y)*fe(y.x) != 0) && !(fe(x.y)*fe(y.y) + 5*fe(x.x)*fe(y.x) == 0 && fe(x.t)*fe(y.z) - fe(x.z)*fe(y.t) != 0)
  use nonsquare(-5, fe(x.x), fe(x.z))
  use nonsquare(DD, fe(x.t), fe(x.y))
  use nonsquare(-5, fe(y.x), fe(y.z))
  use nonsquare(DD, fe(y.t), fe(y.y))
  ensures sumA(p, old(fe(x.x)*fe(y.y) - fe(x.y)*fe(y.x)), old(fe(x.z)*fe(y.z) + DD*fe(x.t)*fe(y.t)), old(fe(x.z)*fe(y.z) - DD*fe(x.t)*fe(y.t)), old(fe(x.y)*fe(y.y) - 5*fe(x.x)*fe(y.x)))
  ensures sumA(p, old(fe(x.t)*fe(y.z) - fe(x.z)*fe(y.t)), old(-(fe(x.y)*fe(y.x)) - fe(x.x)*fe(y.y)), old(fe(x.y)*fe(y.y) + 5*fe(x.x)*fe(y.x)), old(-(fe(x.z)*fe(y.t)) - fe(x.t)*fe(y.z)))
  ensures okA(p)
  modifies *p
  property P01
func (p *Point_axtw_full) Sub(x, y)
  instance x *Point_xtw_full
  instance y *Point_axtw_full
  requires okT(x) && okA(y)
  requires !(fe(x.z)*1 - DD*fe(x.t)*fe(y.t) == 0 && fe(x.x)*fe(y.y) - fe(x.y)*fe(y.x) != 0) && !(fe(x.y)*fe(y.y) + 5*fe(x.x)*fe(y.x) == 0 && fe(x.t)*1 - fe(x.z)*fe(y.t) != 0)
  use nonsquare(-5, fe(x.x), fe(x.z))
  use nonsquare(DD, fe(x.t), fe(x.y))
  use nonsquare(-5, fe(y.x), 1)
  ensures sumA(p, old(fe(x.x)*fe(y.y) - fe(x.y)*fe(y.x)), old(fe(x.z)*1 + DD*fe(x.t)*fe(y.t)), old(fe(x.z)*1 - DD*fe(x.t)*fe(y.t)), old(fe(x.y)*fe(y.y) - 5*fe(x.x)*fe(y.x)))
  ensures sumA(p, old(fe(x.t)*1 - fe(x.z)*fe(y.t)), old(-(fe(x.y)*fe(y.x)) - fe(x.x)*fe(y.y)), old(fe(x.y)*fe(y.y) + 5*fe(x.x)*fe(y.x)), old(-(fe(x.z)*fe(y.t)) - fe(x.t)*1))
  ensures okA(p)
  modifies *p
  property P01
func (p *Point_axtw_full) Sub(x, y)
  instance x *Point_xtw_full
  instance y *Point_efgh_full
  requires okT(x) && okS(y)
  requires !(fe(x.z)*zS(y) - DD*fe(x.t)*tS(y) == 0 && fe(x.x)*yS(y) - fe(x.y)*xS(y) != 0) && !(fe(x.y)*yS(y) + 5*fe(x.x)*xS(y) == 0 && fe(x.t)*zS(y) - fe(x.z)*tS(y) != 0)
  use nonsquare(-5, fe(x.x), fe(x.z))
  use nonsquare(DD, fe(x.t), fe(x.y))
  use nonsquare(DD, fe(y.e), fe(y.g))
  use nonsquare(-5, fe(y.e), fe(y.g))
  ensures sumA(p, old(fe(x.x)*yS(y) - fe(x.y)*xS(y)), old(fe(x.z)*zS(y) + DD*fe(x.t)*tS(y)), old(fe(x.z)*zS(y) - DD*fe(x.t)*tS(y)), old(fe(x.y)*yS(y) - 5*fe(x.x)*xS(y)))
  ensures sumA(p, old(fe(x.t)*zS(y) - fe(x.z)*tS(y)), old(-(fe(x.y)*xS(y)) - fe(x.x)*yS(y)), old(fe(x.y)*yS(y) + 5*fe(x.x)*xS(y)), old(-(fe(x.z)*tS(y)) - fe(x.t)*zS(y)))
  ensures okA(p)
  modifies *p
  property P01
func (p *Point_axtw_full) Sub(x, y)
  instance x *Point_axtw_full
  instance y *Point_xtw_full
  requires okA(x) && okT(y)
  requires !(1*fe(y.z) - DD*fe(x.t)*fe(y.t) == 0 && fe(x.x)*fe(y.y) - fe(x.y)*fe(y.x) != 0) && !(fe(x.y)*fe(y.y) + 5*fe(x.x)*fe(y.x) == 0 && fe(x.t)*fe(y.z) - 1*fe(y.t) != 0)
  use nonsquare(-5, fe(x.x), 1)
  use nonsquare(-5, fe(y.x), fe(y.z))
  use nonsquare(DD, fe(y.t), fe(y.y))
  ensures sumA(p, old(fe(x.x)*fe(y.y) - fe(x.y)*fe(y.x)), old(1*fe(y.z) + DD*fe(x.t)*fe(y.t)), old(1*fe(y.z) - DD*fe(x.t)*fe(y.t)), old(fe(x.y)*fe(y.y) - 5*fe(x.x)*fe(y.x)))
  ensures sumA(p, old(fe(x.t)*fe(y.z) - 1*fe(y.t)), old(-(fe(x.y)*fe(y.x)) - fe(x.x)*fe(y.y)), old(fe(x.y)*fe(y.y) + 5*fe(x.x)*fe(y.x)), old(-(1*fe(y.t)) - fe(x.t)*fe(y.z)))
  ensures okA(p)
  modifies *p
  property P01
func (p *Point_axtw_full) Sub(x, y)
  instance x *Point_axtw_full
  instance y *Point_axtw_full
  requires okA(x) && okA(y)
  requires !(1*1 - DD*fe(x.t)*fe(y.t) == 0 && fe(x.x)*fe(y.y) - fe(x.y)*fe(y.x) != 0) && !(fe(x.y)*fe(y.y) + 5*fe(x.x)*fe(y.x) == 0 && fe(x.t)*1 - 1*fe(y.t) != 0)
  use nonsquare(-5, fe(x.x), 1)
  use nonsquare(-5, fe(y.x), 1)
  ensures sumA(p, old(fe(x.x)*fe(y.y) - fe(x.y)*fe(y.x)), old(1*1 + DD*fe(x.t)*fe(y.t)), old(1*1 - DD*fe(x.t)*fe(y.t)), old(fe(x.y)*fe(y.y) - 5*fe(x.x)*fe(y.x)))
  ensures sumA(p, old(fe(x.t)*1 - 1*fe(y.t)), old(-(fe(x.y)*fe(y.x)) - fe(x.x)*fe(y.y)), old(fe(x.y)*fe(y.y) + 5*fe(x.x)*fe(y.x)), old(-(1*fe(y.t)) - fe(x.t)*1))
  ensures okA(p)
  modifies *p
  property P01
func (p *Point_axtw_full) Sub(x, y)
  instance x *Point_axtw_full
  instance y *Point_efgh_full
  requires okA(x) && okS(y)
  requires !(1*zS(y) - DD*fe(x.t)*tS(y) == 0 && fe(x.x)*yS(y) - fe(x.y)*xS(y) != 0) && !(fe(x.y)*yS(y) + 5*fe(x.x)*xS(y) == 0 && fe(x.t)*zS(y) - 1*tS(y) != 0)
  use nonsquare(-5, fe(x.x), 1)
  use nonsquare(DD, fe(y.e), fe(y.g))
  use nonsquare(-5, fe(y.e), fe(y.g))
  ensures sumA(p, old(fe(x.x)*yS(y) - fe(x.y)*xS(y)), old(1*zS(y) + DD*fe(x.t)*tS(y)), old(1*zS(y) - DD*fe(x.t)*tS(y)), old(fe(x.y)*yS(y) - 5*fe(x.x)*xS(y)))
  ensures sumA(p, old(fe(x.t)*zS(y) - 1*tS(y)), old(-(fe(x.y)*xS(y)) - fe(x.x)*yS(y)), old(fe(x.y)*yS(y) + 5*fe(x.x)*xS(y)), old(-(1*tS(y)) - fe(x.t)*zS(y)))
  ensures okA(p)
  modifies *p
  property P01
func (p *Point_axtw_full) Sub(x, y)
  instance x *Point_efgh_full
  instance y *Point_xtw_full
  requires okS(x) && okT(y)
  requires !(zS(x)*fe(y.z) - DD*tS(x)*fe(y.t) == 0 && xS(x)*fe(y.y) - yS(x)*fe(y.x) != 0) && !(yS(x)*fe(y.y) + 5*xS(x)*fe(y.x) == 0 && tS(x)*fe(y.z) - zS(x)*fe(y.t) != 0)
  use nonsquare(DD, fe(x.e), fe(x.g))
  use nonsquare(-5, fe(x.e), fe(x.g))
  use nonsquare(-5, fe(y.x), fe(y.z))
  use nonsquare(DD, fe(y.t), fe(y.y))
  ensures sumA(p, old(xS(x)*fe(y.y) - yS(x)*fe(y.x)), old(zS(x)*fe(y.z) + DD*tS(x)*fe(y.t)), old(zS(x)*fe(y.z) - DD*tS(x)*fe(y.t)), old(yS(x)*fe(y.y) - 5*xS(x)*fe(y.x)))
  ensures sumA(p, old(tS(x)*fe(y.z) - zS(x)*fe(y.t)), old(-(yS(x)*fe(y.x)) - xS(x)*fe(y.y)), old(yS(x)*fe(y.y) + 5*xS(x)*fe(y.x)), old(-(zS(x)*fe(y.t)) - tS(x)*fe(y.z)))
  ensures okA(p)
  modifies *p
  property P01
func (p *Point_axtw_full) Sub(x, y)
  instance x *Point_efgh_full
  instance y *Point_axtw_full
  requires okS(x) && okA(y)
  requires !(zS(x)*1 - DD*tS(x)*fe(y.t) == 0 && xS(x)*fe(y.y) - yS(x)*fe(y.x) != 0) && !(yS(x)*fe(y.y) + 5*xS(x)*fe(y.x) == 0 && tS(x)*1 - zS(x)*fe(y.t) != 0)
  use nonsquare(DD, fe(x.e), fe(x.g))
  use nonsquare(-5, fe(x.e), fe(x.g))
  use nonsquare(-5, fe(y.x), 1)
  ensures sumA(p, old(xS(x)*fe(y.y) - yS(x)*fe(y.x)), old(zS(x)*1 + DD*tS(x)*fe(y.t)), old(zS(x)*1 - DD*tS(x)*fe(y.t)), old(yS(x)*fe(y.y) - 5*xS(x)*fe(y.x)))
  ensures sumA(p, old(tS(x)*1 - zS(x)*fe(y.t)), old(-(yS(x)*fe(y.x)) - xS(x)*fe(y.y)), old(yS(x)*fe(y.y) + 5*xS(x)*fe(y.x)), old(-(zS(x)*fe(y.t)) - tS(x)*1))
  ensures okA(p)
  modifies *p
  property P01
func (p *Point_axtw_full) Sub(x, y)
  instance x *Point_efgh_full
  instance y *Point_efgh_full
  requires okS(x) && okS(y)
  requires !(zS(x)*zS(y) - DD*tS(x)*tS(y) == 0 && xS(x)*yS(y) - yS(x)*xS(y) != 0) && !(yS(x)*yS(y) + 5*xS(x)*xS(y) == 0 && tS(x)*zS(y) - zS(x)*tS(y) != 0)
  use nonsquare(DD, fe(x.e), fe(x.g))
  use nonsquare(-5, fe(x.e), fe(x.g))
  use nonsquare(DD, fe(y.e), fe(y.g))
  use nonsquare(-5, fe(y.e), fe(y.g))
  ensures sumA(p, old(xS(x)*yS(y) - yS(x)*xS(y)), old(zS(x)*zS(y) + DD*tS(x)*tS(y)), old(zS(x)*zS(y) - DD*tS(x)*tS(y)), old(yS(x)*yS(y) - 5*xS(x)*xS(y)))
  ensures sumA(p, old(tS(x)*zS(y) - zS(x)*tS(y)), old(-(yS(x)*xS(y)) - xS(x)*yS(y)), old(yS(x)*yS(y) + 5*xS(x)*xS(y)), old(-(zS(x)*tS(y)) - tS(x)*zS(y)))
  ensures okA(p)
  modifies *p
  property P01
func (p *point_axtw_base) Double(x)
  instance x *Point_xtw_full
  requires okT(x)
  use nonsquare(-5, fe(x.x), fe(x.z))
  use nonsquare(DD, fe(x.t), fe(x.y))
  use nonsquare(DD, fe(x.t), fe(x.z))
  use nonsquare(-DD, fe(x.t), fe(x.z))
  use nonsquare(-5, fe(x.x), fe(x.y))
  ensures sumA(p, old(2*fe(x.x)*fe(x.y)), old(fe(x.z)*fe(x.z) - DD*fe(x.t)*fe(x.t)), old(fe(x.z)*fe(x.z) + DD*fe(x.t)*fe(x.t)), old(fe(x.y)*fe(x.y) + 5*fe(x.x)*fe(x.x)))
  ensures okA(p)
  modifies *p
  property P01
func (p *Point_axtw_full) SetFrom(input)
  instance input *Point_xtw_full
  requires okT(input)
  requires fe(input.z) != 0
  use nonsquare(-5, fe(input.x), fe(input.z))
  use nonsquare(DD, fe(input.t), fe(input.y))
  ensures fe(p.x)*old(fe(input.y)) == fe(p.y)*old(fe(input.x)) && fe(p.x)*old(fe(input.t)) == fe(p.t)*old(fe(input.x)) && fe(p.x)*old(fe(input.z)) == 1*old(fe(input.x)) && fe(p.y)*old(fe(input.t)) == fe(p.t)*old(fe(input.y)) && fe(p.y)*old(fe(input.z)) == 1*old(fe(input.y)) && fe(p.t)*old(fe(input.z)) == 1*old(fe(input.t))
  ensures okA(p)
  modifies *p, *input
  property P01
func (p *Point_axtw_full) Neg(input)
  instance input *Point_xtw_full
  requires okT(input)
  requires fe(input.z) != 0
  use nonsquare(-5, fe(input.x), fe(input.z))
  use nonsquare(DD, fe(input.t), fe(input.y))
  ensures fe(p.x)*old(fe(input.y)) == fe(p.y)*old(-fe(input.x)) && fe(p.x)*old(-fe(input.t)) == fe(p.t)*old(-fe(input.x)) && fe(p.x)*old(fe(input.z)) == 1*old(-fe(input.x)) && fe(p.y)*old(-fe(input.t)) == fe(p.t)*old(fe(input.y)) && fe(p.y)*old(fe(input.z)) == 1*old(fe(input.y)) && fe(p.t)*old(fe(input.z)) == 1*old(-fe(input.t))
  ensures okA(p)
  modifies *p, *input
  property P01
func (p *Point_axtw_full) Endo(input)
  instance input *Point_xtw_full
  requires okT(input)
  use nonsquare(-5, fe(input.x), fe(input.z))
  use nonsquare(DD, fe(input.t), fe(input.y))
  use nonsquare(DD, endoE(fe(input.y), fe(input.z)), fe(input.x)*fe(input.y))
  use nonsquare(-5, endoE(fe(input.y), fe(input.z)), fe(input.x)*fe(input.y))
  ensures sumA(p, old(endoE(fe(input.y), fe(input.z))), old(endoF(fe(input.y), fe(input.z))), old(fe(input.x)*fe(input.y)), old(endoH(fe(input.y), fe(input.z))))
  ensures implies(old(fe(input.x) == 0), fe(p.x) == 0 && fe(p.y) == 1)
  ensures implies(old(fe(input.z) == 0), fe(p.x) == 0 && fe(p.y) == -1)
  ensures okA(p)
  modifies *p, *input
  property P02
func (p *point_axtw_base) Double(x)
  instance x *Point_axtw_full
  requires okA(x)
  use nonsquare(-5, fe(x.x), 1)
  use nonsquare(DD, fe(x.t), 1)
  use nonsquare(-DD, fe(x.t), 1)
  use nonsquare(-5, fe(x.x), fe(x.y))
  ensures sumA(p, old(2*fe(x.x)*fe(x.y)), old(1*1 - DD*fe(x.t)*fe(x.t)), old(1*1 + DD*fe(x.t)*fe(x.t)), old(fe(x.y)*fe(x.y) + 5*fe(x.x)*fe(x.x)))
  ensures okA(p)
  modifies *p
  property P01
func (p *Point_axtw_full) SetFrom(input)
  instance input *Point_axtw_full
  requires okA(input)
  requires 1 != 0
  use nonsquare(-5, fe(input.x), 1)
  ensures fe(p.x)*old(fe(input.y)) == fe(p.y)*old(fe(input.x)) && fe(p.x)*old(fe(input.t)) == fe(p.t)*old(fe(input.x)) && fe(p.x)*old(1) == 1*old(fe(input.x)) && fe(p.y)*old(fe(input.t)) == fe(p.t)*old(fe(input.y)) && fe(p.y)*old(1) == 1*old(fe(input.y)) && fe(p.t)*old(1) == 1*old(fe(input.t))
  ensures okA(p)
  modifies *p, *input
  property P01
func (p *Point_axtw_full) Neg(input)
  instance input *Point_axtw_full
  requires okA(input)
  requires 1 != 0
  use nonsquare(-5, fe(input.x), 1)
  ensures fe(p.x)*old(fe(input.y)) == fe(p.y)*old(-fe(input.x)) && fe(p.x)*old(-fe(input.t)) == fe(p.t)*old(-fe(input.x)) && fe(p.x)*old(1) == 1*old(-fe(input.x)) && fe(p.y)*old(-fe(input.t)) == fe(p.t)*old(fe(input.y)) && fe(p.y)*old(1) == 1*old(fe(input.y)) && fe(p.t)*old(1) == 1*old(-fe(input.t))
  ensures okA(p)
  modifies *p, *input
  property P01
func (p *Point_axtw_full) Endo(input)
  instance input *Point_axtw_full
  requires okA(input)
  use nonsquare(-5, fe(input.x), 1)
  use nonsquare(DD, endoE(fe(input.y), 1), fe(input.x)*fe(input.y))
  use nonsquare(-5, endoE(fe(input.y), 1), fe(input.x)*fe(input.y))
  ensures sumA(p, old(endoE(fe(input.y), 1)), old(endoF(fe(input.y), 1)), old(fe(input.x)*fe(input.y)), old(endoH(fe(input.y), 1)))
  ensures implies(old(fe(input.x) == 0), fe(p.x) == 0 && fe(p.y) == 1)
  ensures implies(old(1 == 0), fe(p.x) == 0 && fe(p.y) == -1)
  ensures okA(p)
  modifies *p, *input
  property P02
func (p *point_axtw_base) Double(x)
  instance x *Point_efgh_full
  requires okS(x)
  use nonsquare(DD, fe(x.e), fe(x.g))
  use nonsquare(-5, fe(x.e), fe(x.g))
  use nonsquare(DD, tS(x), zS(x))
  use nonsquare(-DD, tS(x), zS(x))
  use nonsquare(-5, xS(x), yS(x))
  ensures sumA(p, old(2*xS(x)*yS(x)), old(zS(x)*zS(x) - DD*tS(x)*tS(x)), old(zS(x)*zS(x) + DD*tS(x)*tS(x)), old(yS(x)*yS(x) + 5*xS(x)*xS(x)))
  ensures okA(p)
  modifies *p
  property P01
func (p *Point_axtw_full) SetFrom(input)
  instance input *Point_efgh_full
  requires okS(input)
  requires zS(input) != 0
  use nonsquare(DD, fe(input.e), fe(input.g))
  use nonsquare(-5, fe(input.e), fe(input.g))
  ensures fe(p.x)*old(yS(input)) == fe(p.y)*old(xS(input)) && fe(p.x)*old(tS(input)) == fe(p.t)*old(xS(input)) && fe(p.x)*old(zS(input)) == 1*old(xS(input)) && fe(p.y)*old(tS(input)) == fe(p.t)*old(yS(input)) && fe(p.y)*old(zS(input)) == 1*old(yS(input)) && fe(p.t)*old(zS(input)) == 1*old(tS(input))
  ensures okA(p)
  modifies *p, *input
  property P01
func (p *Point_axtw_full) Neg(input)
  instance input *Point_efgh_full
  requires okS(input)
  requires zS(input) != 0
  use nonsquare(DD, fe(input.e), fe(input.g))
  use nonsquare(-5, fe(input.e), fe(input.g))
  ensures fe(p.x)*old(yS(input)) == fe(p.y)*old(-xS(input)) && fe(p.x)*old(-tS(input)) == fe(p.t)*old(-xS(input)) && fe(p.x)*old(zS(input)) == 1*old(-xS(input)) && fe(p.y)*old(-tS(input)) == fe(p.t)*old(yS(input)) && fe(p.y)*old(zS(input)) == 1*old(yS(input)) && fe(p.t)*old(zS(input)) == 1*old(-tS(input))
  ensures okA(p)
  modifies *p, *input
  property P01
func (p *Point_axtw_full) Endo(input)
  instance input *Point_efgh_full
  requires okS(input)
  use nonsquare(DD, fe(input.e), fe(input.g))
  use nonsquare(-5, fe(input.e), fe(input.g))
  use nonsquare(DD, endoE(yS(input), zS(input)), xS(input)*yS(input))
  use nonsquare(-5, endoE(yS(input), zS(input)), xS(input)*yS(input))
  ensures sumA(p, old(endoE(yS(input), zS(input))), old(endoF(yS(input), zS(input))), old(xS(input)*yS(input)), old(endoH(yS(input), zS(input))))
  ensures implies(old(xS(input) == 0), fe(p.x) == 0 && fe(p.y) == 1)
  ensures implies(old(zS(input) == 0), fe(p.x) == 0 && fe(p.y) == -1)
  ensures okA(p)
  modifies *p, *input
  property P02
