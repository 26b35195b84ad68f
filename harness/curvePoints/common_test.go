package curvePoints

import (
	"fmt"
	"math/big"
)

// Oracle: the curve a*x^2 + y^2 = 1 + d*x^2*y^2 (a = -5) over the base field with points as pairs of
// quotients (X/Z, Y/T), and the two addition laws of Bernstein and Lange, one of which applies to every pair of points.

var (
	gvcP = gvcDec("52435875175126190479447740508185965837690552500527637822603658699938581184513")
	gvcA = big.NewInt(-5)
	gvcD = gvcDec("45022363124591815672509500913686876175488063829319466900776701791074614335719")
	gvcL = gvcDec("8913659658109529928382530854484400854125314752504019737736543920008458395397")  // eigenvalue of the endomorphism
	gvcQ = gvcDec("13108968793781547619861935127046491459309155893440570251786403306729687672801") // order of the subgroup
)

func gvcS(x ...any) func() string {
	return func() string { return fmt.Sprint(x...) }
}

func gvcMul(x ...*big.Int) *big.Int {
	r := big.NewInt(1)
	for _, y := range x {
		r.Mul(r, y).Mod(r, gvcP)
	}
	return r
}
func gvcAdd(x, y *big.Int) *big.Int { r := new(big.Int).Add(x, y); return r.Mod(r, gvcP) }
func gvcSub(x, y *big.Int) *big.Int { r := new(big.Int).Sub(x, y); return r.Mod(r, gvcP) }

// gvcPt: x = X/Z, y = Y/T.
type gvcPt struct{ X, Z, Y, T *big.Int }

func (p gvcPt) String() string {
	if p.Z.Sign() != 0 && p.T.Sign() != 0 {
		return fmt.Sprintf("(x=%v y=%v)", gvcMul(p.X, new(big.Int).ModInverse(p.Z, gvcP)), gvcMul(p.Y, new(big.Int).ModInverse(p.T, gvcP)))
	}
	return fmt.Sprintf("(x=%v/%v y=%v/%v)", p.X, p.Z, p.Y, p.T)
}

func gvcAff(x, y *big.Int) gvcPt { return gvcPt{x, big.NewInt(1), y, big.NewInt(1)} }

func (p gvcPt) ok() bool {
	if p.X.Sign() == 0 && p.Z.Sign() == 0 || p.Y.Sign() == 0 && p.T.Sign() == 0 {
		return false
	}
	l := gvcAdd(gvcMul(gvcA, p.X, p.X, p.T, p.T), gvcMul(p.Y, p.Y, p.Z, p.Z))
	r := gvcAdd(gvcMul(p.Z, p.Z, p.T, p.T), gvcMul(gvcD, p.X, p.X, p.Y, p.Y))
	return l.Cmp(r) == 0
}

func (p gvcPt) eq(q gvcPt) bool {
	return p.ok() && q.ok() && gvcMul(p.X, q.Z).Cmp(gvcMul(q.X, p.Z)) == 0 && gvcMul(p.Y, q.T).Cmp(gvcMul(q.Y, p.T)) == 0
}

func (p gvcPt) neg() gvcPt { return gvcPt{gvcSub(big.NewInt(0), p.X), p.Z, p.Y, p.T} }

func (p gvcPt) add(q gvcPt) gvcPt {
	zz, tt := gvcMul(p.Z, q.Z), gvcMul(p.T, q.T)
	dxy := gvcMul(gvcD, p.X, q.X, p.Y, q.Y)
	axt := gvcMul(gvcA, p.X, q.X, tt)
	u, v := gvcMul(p.X, q.Y, q.Z, p.T), gvcMul(q.X, p.Y, p.Z, q.T)
	r := gvcPt{gvcAdd(u, v), gvcAdd(gvcMul(zz, tt), dxy), gvcSub(gvcMul(p.Y, q.Y, zz), axt), gvcSub(gvcMul(zz, tt), dxy)}
	if r.ok() {
		return r
	}
	m, n := gvcMul(p.X, p.Y, q.Z, q.T), gvcMul(q.X, q.Y, p.Z, p.T)
	return gvcPt{gvcAdd(m, n), gvcAdd(axt, gvcMul(p.Y, q.Y, zz)), gvcSub(m, n), gvcSub(u, v)}
}

func (p gvcPt) mul(k *big.Int) gvcPt {
	r := gvcAff(big.NewInt(0), big.NewInt(1))
	for i := k.BitLen() - 1; i >= 0; i-- {
		r = r.add(r)
		if k.Bit(i) == 1 {
			r = r.add(p)
		}
	}
	return r
}

var (
	gvcNeutral = gvcAff(big.NewInt(0), big.NewInt(1))
	gvcTwoA    = gvcAff(big.NewInt(0), gvcSub(big.NewInt(0), big.NewInt(1)))
	gvcE1      = gvcInf(1)
	gvcE2      = gvcInf(-1)
)

// gvcInf: the points at infinity, x = 1/0; y^2 = a/d; y = f below: with x*y = t*z the first has x = sqrt(d/a)*t.
func gvcInf(sign int64) gvcPt {
	r := gvcDec("37446463827641770816307242315180085052603635617490163568005256780843403514038")
	return gvcPt{big.NewInt(1), big.NewInt(0), big.NewInt(sign), gvcMul(big.NewInt(1), r)}
}

func (g *gvcG) rnd() *big.Int { return new(big.Int).Rand(g.rng, gvcP) }

func (g *gvcG) nz() *big.Int {
	for {
		if r := g.rnd(); r.Sign() != 0 {
			return r
		}
	}
}

// rpt: a random finite point.
func (g *gvcG) rpt() gvcPt {
	for {
		y := g.rnd()
		yy := gvcMul(y, y)
		den := new(big.Int).ModInverse(gvcSub(gvcA, gvcMul(gvcD, yy)), gvcP)
		if den == nil {
			continue
		}
		x := new(big.Int).ModSqrt(gvcMul(gvcSub(big.NewInt(1), yy), den), gvcP)
		if x == nil {
			continue
		}
		if g.rng.Intn(2) == 0 {
			x = gvcSub(big.NewInt(0), x)
		}
		return gvcAff(x, y)
	}
}

// pts: some points with all their relations, and those of order at most two.
func (g *gvcG) pts() (r []gvcPt) {
	t := []gvcPt{gvcNeutral, gvcTwoA, gvcE1, gvcE2}
	p := g.rpt()
	q := p.mul(big.NewInt(4))
	for _, a := range []gvcPt{gvcNeutral, p, p.neg(), q, g.rpt()} {
		for _, b := range t {
			r = append(r, a.add(b))
		}
	}
	return
}

func (g *gvcG) fe(x *big.Int) (z FieldElement) { z.SetBigInt(new(big.Int).Mod(x, gvcP)); return }
func gvcV(z *FieldElement) *big.Int            { return z.ToBigInt() }

func (g *gvcG) scale(x ...*big.Int) []*big.Int {
	k := g.nz()
	if g.rng.Intn(4) == 0 {
		k = big.NewInt(1)
	}
	for i := range x {
		x[i] = gvcMul(x[i], k)
	}
	return x
}

// representations of a point

func (g *gvcG) xt(p gvcPt) (r point_xtw_base) {
	c := g.scale(gvcMul(p.X, p.T), gvcMul(p.Y, p.Z), gvcMul(p.X, p.Y), gvcMul(p.Z, p.T))
	r.x, r.y, r.t, r.z = g.fe(c[0]), g.fe(c[1]), g.fe(c[2]), g.fe(c[3])
	return
}

func (g *gvcG) xs(p gvcPt) (r point_efgh_base) {
	a, b := g.scale(p.X, p.Z), g.scale(p.Y, p.T)
	r.e, r.g, r.h, r.f = g.fe(a[0]), g.fe(a[1]), g.fe(b[0]), g.fe(b[1])
	return
}

func (p gvcPt) finite() bool { return p.Z.Sign() != 0 && p.T.Sign() != 0 }

func (g *gvcG) xa(p gvcPt) (r point_axtw_base) {
	x, y := gvcMul(p.X, new(big.Int).ModInverse(p.Z, gvcP)), gvcMul(p.Y, new(big.Int).ModInverse(p.T, gvcP))
	r.x, r.y, r.t = g.fe(x), g.fe(y), g.fe(gvcMul(x, y))
	return
}

func gvcOfT(p *point_xtw_base) gvcPt {
	x, y, t, z := gvcV(&p.x), gvcV(&p.y), gvcV(&p.t), gvcV(&p.z)
	r := gvcPt{x, z, y, z}
	if x.Sign() == 0 && z.Sign() == 0 {
		r.X, r.Z = t, y
	}
	if y.Sign() == 0 && z.Sign() == 0 {
		r.Y, r.T = t, x
	}
	if gvcMul(x, y).Cmp(gvcMul(t, z)) != 0 {
		return gvcPt{new(big.Int), new(big.Int), y, z} // no point
	}
	return r
}

func gvcOfS(p *point_efgh_base) gvcPt { return gvcPt{gvcV(&p.e), gvcV(&p.g), gvcV(&p.h), gvcV(&p.f)} }

func gvcOfA(p *point_axtw_base) gvcPt {
	x, y := gvcV(&p.x), gvcV(&p.y)
	if gvcMul(x, y).Cmp(gvcV(&p.t)) != 0 {
		return gvcPt{new(big.Int), new(big.Int), y, y}
	}
	return gvcAff(x, y)
}

// form: the point as one of the types for the whole curve; nil if it has none.
func (g *gvcG) form(k int, p gvcPt) CurvePointPtrInterface {
	switch k {
	case 0:
		return &Point_xtw_full{point_xtw_base: g.xt(p)}
	case 1:
		if !p.finite() {
			return nil
		}
		return &Point_axtw_full{point_axtw_base: g.xa(p)}
	}
	return &Point_efgh_full{point_efgh_base: g.xs(p)}
}

func gvcOf(p any) gvcPt {
	switch p := p.(type) {
	case *Point_xtw_full:
		return gvcOfT(&p.point_xtw_base)
	case *Point_axtw_full:
		return gvcOfA(&p.point_axtw_base)
	case *Point_efgh_full:
		return gvcOfS(&p.point_efgh_base)
	case *point_xtw_base:
		return gvcOfT(p)
	case *point_axtw_base:
		return gvcOfA(p)
	case *point_efgh_base:
		return gvcOfS(p)
	}
	panic("unknown type")
}

var gvcForms = []string{"xtw", "axtw", "efgh"}

func gvcExpect(got, want gvcPt) (bool, string) {
	return got.eq(want), fmt.Sprint("got ", got, ", expected ", want)
}

// The exported interface for all six types, all combinations of argument types, and the results by another name
// (the ...Eq variants, the receiver among the arguments).

var gvcTypes = []string{"xtw_full", "axtw_full", "efgh_full", "xtw_subgroup", "axtw_subgroup", "efgh_subgroup"}

// any: p in the given form; the types for the subgroup hold one of p, p+A. nil if the type has no such point.
func (g *gvcG) any(k int, p gvcPt) CurvePointPtrInterface {
	if k < 3 {
		return g.form(k, p)
	}
	if g.rng.Intn(2) == 0 {
		p = p.add(gvcTwoA)
	}
	switch k {
	case 3:
		return &Point_xtw_subgroup{point_xtw_base: g.xt(p)}
	case 4:
		return &Point_axtw_subgroup{point_axtw_base: g.xa(p)}
	}
	return &Point_efgh_subgroup{point_efgh_base: g.xs(p)}
}

func (g *gvcG) blank(k int) CurvePointPtrInterface {
	return []CurvePointPtrInterface{new(Point_xtw_full), new(Point_axtw_full), new(Point_efgh_full), new(Point_xtw_subgroup), new(Point_axtw_subgroup), new(Point_efgh_subgroup)}[k]
}

// is: got holds the point want (for the types for the subgroup, modulo A).
func gvcIs(got CurvePointPtrInterface, want gvcPt) (bool, string) {
	var p gvcPt
	sub := true
	switch x := got.(type) {
	case *Point_xtw_subgroup:
		p = gvcOf(&x.point_xtw_base)
	case *Point_axtw_subgroup:
		p = gvcOf(&x.point_axtw_base)
	case *Point_efgh_subgroup:
		p = gvcOf(&x.point_efgh_base)
	default:
		p, sub = gvcOf(got), false
	}
	if sub {
		return p.eq(want) || p.eq(want.add(gvcTwoA)), fmt.Sprint("got ", p, ", expected ", want, " modulo (0,-1)")
	}
	return gvcExpect(p, want)
}

type gvcOp struct {
	name string
	n    int // operands
	want func(x ...gvcPt) gvcPt
	do   func(z CurvePointPtrInterface, x ...CurvePointPtrInterface)
	eq   func(z CurvePointPtrInterface, x ...CurvePointPtrInterface) // the first operand is z
}

var gvcArith = []gvcOp{
	{"Add", 2, func(x ...gvcPt) gvcPt { return x[0].add(x[1]) },
		func(z CurvePointPtrInterface, x ...CurvePointPtrInterface) { z.Add(x[0], x[1]) },
		func(z CurvePointPtrInterface, x ...CurvePointPtrInterface) { z.AddEq(x[0]) }},
	{"Sub", 2, func(x ...gvcPt) gvcPt { return x[0].add(x[1].neg()) },
		func(z CurvePointPtrInterface, x ...CurvePointPtrInterface) { z.Sub(x[0], x[1]) },
		func(z CurvePointPtrInterface, x ...CurvePointPtrInterface) { z.SubEq(x[0]) }},
	{"Double", 1, func(x ...gvcPt) gvcPt { return x[0].add(x[0]) },
		func(z CurvePointPtrInterface, x ...CurvePointPtrInterface) { z.Double(x[0]) },
		func(z CurvePointPtrInterface, x ...CurvePointPtrInterface) { z.DoubleEq() }},
	{"Neg", 1, func(x ...gvcPt) gvcPt { return x[0].neg() },
		func(z CurvePointPtrInterface, x ...CurvePointPtrInterface) { z.Neg(x[0]) },
		func(z CurvePointPtrInterface, x ...CurvePointPtrInterface) { z.NegEq() }},
	{"SetFrom", 1, func(x ...gvcPt) gvcPt { return x[0] },
		func(z CurvePointPtrInterface, x ...CurvePointPtrInterface) { z.SetFrom(x[0]) },
		nil},
}

var gvcTimesLMemo = map[string]gvcPt{}

func gvcTimesL(p gvcPt) gvcPt {
	k := p.String()
	if r, ok := gvcTimesLMemo[k]; ok {
		return r
	}
	r := p.mul(gvcL)
	gvcTimesLMemo[k] = r
	return r
}

var gvcEndo = []gvcOp{
	{"Endo", 1, func(x ...gvcPt) gvcPt { return gvcTimesL(x[0]) },
		func(z CurvePointPtrInterface, x ...CurvePointPtrInterface) { z.Endo(x[0]) },
		func(z CurvePointPtrInterface, x ...CurvePointPtrInterface) { z.EndoEq() }},
}

// api: the operations on points of the subgroup for all types, and on other points for the types for the whole curve.
func (g *gvcG) api(ops []gvcOp, outside bool) {
	p := g.rpt().mul(gvcDec("4"))
	in := []gvcPt{gvcNeutral, p, p.neg(), g.rpt().mul(gvcDec("4"))}
	out := []gvcPt{g.rpt(), gvcE1, p.add(gvcTwoA), gvcTwoA, p.add(gvcE2)}
	for _, op := range ops {
		for k := 0; k < 216; k++ {
			tz, t := k/36, []int{k / 6 % 6, k % 6}
			if op.n == 1 && t[1] != 0 {
				continue
			}
			for r := 0; r < 6; r++ {
				sub := tz > 2
				x := make([]CurvePointPtrInterface, op.n)
				v := make([]gvcPt, op.n)
				bad := false
				for i := range x {
					sub = sub || t[i] > 2
					v[i] = in[g.rng.Intn(len(in))]
				}
				if !sub && outside {
					for i := range x {
						if g.rng.Intn(2) == 0 {
							v[i] = out[g.rng.Intn(len(out))]
						}
					}
				}
				full := false // an operand whose type does not restrict it to the subgroup
				for i := range x {
					if x[i] = g.any(t[i], v[i]); x[i] == nil {
						bad = true
						break
					}
					full = full || t[i] <= 2
				}
				if bad || tz > 2 && full && op.name != "Double" {
					continue // converting into the types for the subgroup takes SetFromSubgroupPoint
				}
				want := op.want(v...)
				if tz%3 == 1 && !want.finite() {
					continue
				}
				how := r % 4
				if how == 2 && op.n < 2 || how == 3 && op.eq == nil {
					how = 0
				}
				if how == 1 && tz != t[0] || how == 2 && tz != t[1] || how == 3 && tz != t[0] {
					how = 0
				}
				name := func() string {
					s := "z." + op.name + " as " + gvcTypes[tz]
					for i := range x {
						s += " " + gvcTypes[t[i]] + v[i].String()
					}
					return s + []string{"", " z is the first operand", " z is the second operand", " Eq"}[how]
				}
				g.do(name, func() (bool, string) {
					z := g.blank(tz)
					if how == 1 || how == 2 {
						z = x[how-1]
					}
					if how == 3 {
						z = x[0]
						op.eq(z, x[1:]...)
					} else {
						op.do(z, x...)
					}
					for i := range x {
						if z == x[i] {
							continue
						}
						if ok, s := gvcIs(x[i], v[i]); !ok {
							return ok, "operand changed: " + s
						}
					}
					return gvcIs(z, want)
				})
			}
		}
	}
}
