// Package main: gvc, a deductive verifier for a subset of Go.
//
// poly.go: multivariate integer polynomials over "atoms". An atom is an
// unknown integer with an interval. Machine words are polynomials; carries,
// high words, quotients and so on are atoms that are *defined* by an exact
// Euclidean division (see (*Ctx).FloorDiv), so all 64-bit arithmetic is
// modelled exactly over the mathematical integers.
package main

import (
	"math/big"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"
)

var (
	bigZero = big.NewInt(0)
	bigOne  = big.NewInt(1)
	bigTwo  = big.NewInt(2)
)

func bi(n int64) *big.Int { return big.NewInt(n) }
func pow2(n uint) *big.Int {
	return new(big.Int).Lsh(bigOne, n)
}

// Mono is a monomial: sorted atom ids with exponents.
type Mono struct {
	key  string
	ids  []int
	exps []*big.Int
}

type Term struct {
	m *Mono
	c *big.Int
}

// Poly is immutable after construction.
type Poly struct {
	t   map[string]Term
	key atomic.Pointer[string] // cached canonical key
}

var oneMono = &Mono{key: ""}

func mkMono(ids []int, exps []*big.Int) *Mono {
	var sb strings.Builder
	for i, id := range ids {
		if i > 0 {
			sb.WriteByte('*')
		}
		sb.WriteString(strconv.Itoa(id))
		if exps[i].Cmp(bigOne) != 0 {
			sb.WriteByte('^')
			sb.WriteString(exps[i].String())
		}
	}
	return &Mono{sb.String(), ids, exps}
}

func monoMul(a, b *Mono) *Mono {
	if len(a.ids) == 0 {
		return b
	}
	if len(b.ids) == 0 {
		return a
	}
	var ids []int
	var exps []*big.Int
	i, j := 0, 0
	for i < len(a.ids) || j < len(b.ids) {
		switch {
		case j >= len(b.ids) || (i < len(a.ids) && a.ids[i] < b.ids[j]):
			ids = append(ids, a.ids[i])
			exps = append(exps, a.exps[i])
			i++
		case i >= len(a.ids) || b.ids[j] < a.ids[i]:
			ids = append(ids, b.ids[j])
			exps = append(exps, b.exps[j])
			j++
		default:
			ids = append(ids, a.ids[i])
			exps = append(exps, new(big.Int).Add(a.exps[i], b.exps[j]))
			i++
			j++
		}
	}
	return mkMono(ids, exps)
}

func (m *Mono) degree() int {
	d := 0
	for _, e := range m.exps {
		if !e.IsInt64() || e.Int64() > 1000 {
			return 1 << 30
		}
		d += int(e.Int64())
	}
	return d
}

func newPoly() *Poly { return &Poly{t: map[string]Term{}} }

func Const(c *big.Int) *Poly {
	p := newPoly()
	if c.Sign() != 0 {
		p.t[""] = Term{oneMono, new(big.Int).Set(c)}
	}
	return p
}
func ConstI(n int64) *Poly { return Const(bi(n)) }

func atomPoly(id int) *Poly {
	p := newPoly()
	m := mkMono([]int{id}, []*big.Int{bigOne})
	p.t[m.key] = Term{m, bigOne}
	return p
}

func (p *Poly) Key() string {
	if k := p.key.Load(); k != nil {
		return *k
	}
	ks := make([]string, 0, len(p.t))
	for k := range p.t {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var sb strings.Builder
	sb.WriteByte('P')
	for _, k := range ks {
		sb.WriteByte('+')
		sb.WriteString(p.t[k].c.Text(62))
		sb.WriteByte('.')
		sb.WriteString(k)
	}
	k := sb.String()
	p.key.Store(&k)
	return k
}

func (p *Poly) addTerm(m *Mono, c *big.Int) { // only during construction
	if c.Sign() == 0 {
		return
	}
	if old, ok := p.t[m.key]; ok {
		s := new(big.Int).Add(old.c, c)
		if s.Sign() == 0 {
			delete(p.t, m.key)
		} else {
			p.t[m.key] = Term{old.m, s}
		}
		return
	}
	p.t[m.key] = Term{m, c}
}

func (p *Poly) Add(q *Poly) *Poly {
	r := &Poly{t: make(map[string]Term, len(p.t)+len(q.t))}
	for k, t := range p.t {
		r.t[k] = t
	}
	for _, t := range q.t {
		r.addTerm(t.m, t.c)
	}
	return r
}
func (p *Poly) Scale(c *big.Int) *Poly {
	r := &Poly{t: make(map[string]Term, len(p.t))}
	if c.Sign() == 0 {
		return r
	}
	for k, t := range p.t {
		r.t[k] = Term{t.m, new(big.Int).Mul(t.c, c)}
	}
	return r
}
func (p *Poly) Neg() *Poly           { return p.Scale(bi(-1)) }
func (p *Poly) Sub(q *Poly) *Poly    { return p.Add(q.Neg()) }
func (p *Poly) AddI(n int64) *Poly   { return p.Add(ConstI(n)) }
func (p *Poly) ScaleI(n int64) *Poly { return p.Scale(bi(n)) }

func (p *Poly) Mul(q *Poly) *Poly {
	if c, ok := p.IsConst(); ok {
		return q.Scale(c)
	}
	if c, ok := q.IsConst(); ok {
		return p.Scale(c)
	}
	r := newPoly()
	for _, a := range p.t {
		for _, b := range q.t {
			r.addTerm(monoMul(a.m, b.m), new(big.Int).Mul(a.c, b.c))
		}
	}
	return r
}

// Mod reduces all coefficients into [0,m).
func (p *Poly) Mod(m *big.Int) *Poly {
	r := newPoly()
	for k, t := range p.t {
		c := new(big.Int).Mod(t.c, m)
		if c.Sign() != 0 {
			r.t[k] = Term{t.m, c}
		}
	}
	return r
}

func (p *Poly) IsConst() (*big.Int, bool) {
	if len(p.t) == 0 {
		return bigZero, true
	}
	if len(p.t) == 1 {
		if t, ok := p.t[""]; ok {
			return t.c, true
		}
	}
	return nil, false
}
func (p *Poly) IsZero() bool { return len(p.t) == 0 }

func (p *Poly) ConstPart() *big.Int {
	if t, ok := p.t[""]; ok {
		return t.c
	}
	return bigZero
}

// single atom (coefficient 1, no constant)?
func (p *Poly) IsAtom() (int, bool) {
	if len(p.t) != 1 {
		return 0, false
	}
	for _, t := range p.t {
		if len(t.m.ids) == 1 && t.c.Cmp(bigOne) == 0 && t.m.exps[0].Cmp(bigOne) == 0 {
			return t.m.ids[0], true
		}
	}
	return 0, false
}

func (p *Poly) atoms(into map[int]bool) {
	for _, t := range p.t {
		for _, id := range t.m.ids {
			into[id] = true
		}
	}
}

func (p *Poly) hasAtom(id int) bool {
	for _, t := range p.t {
		for _, i := range t.m.ids {
			if i == id {
				return true
			}
		}
	}
	return false
}

// Subst replaces atom id by polynomial q.
func (p *Poly) Subst(id int, q *Poly) *Poly {
	if !p.hasAtom(id) {
		return p
	}
	r := newPoly()
	for _, t := range p.t {
		idx := -1
		for i, a := range t.m.ids {
			if a == id {
				idx = i
			}
		}
		if idx < 0 {
			r.addTerm(t.m, t.c)
			continue
		}
		var ids []int
		var exps []*big.Int
		for i := range t.m.ids {
			if i != idx {
				ids = append(ids, t.m.ids[i])
				exps = append(exps, t.m.exps[i])
			}
		}
		rest := newPoly()
		rest.addTerm(mkMono(ids, exps), t.c)
		e := t.m.exps[idx]
		var pw *Poly
		if len(q.t) <= 1 { // monomial or zero: fast
			if len(q.t) == 0 {
				pw = newPoly()
			} else {
				for _, qt := range q.t {
					var ids2 []int
					var ex2 []*big.Int
					for i := range qt.m.ids {
						ids2 = append(ids2, qt.m.ids[i])
						ex2 = append(ex2, new(big.Int).Mul(qt.m.exps[i], e))
					}
					pw = newPoly()
					var cc *big.Int
					if qt.c.Cmp(bigOne) == 0 {
						cc = bigOne
					} else {
						cc = new(big.Int).Exp(qt.c, e, nil)
					}
					pw.addTerm(mkMono(ids2, ex2), cc)
				}
			}
		} else {
			pw = ConstI(1)
			for i := int64(0); i < e.Int64(); i++ {
				pw = pw.Mul(q)
			}
		}
		rest = rest.Mul(pw)
		for _, x := range rest.t {
			r.addTerm(x.m, x.c)
		}
	}
	return r
}

// sortedTerms gives a deterministic order.
func (p *Poly) sortedTerms() []Term {
	ks := make([]string, 0, len(p.t))
	for k := range p.t {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	r := make([]Term, len(ks))
	for i, k := range ks {
		r[i] = p.t[k]
	}
	return r
}

// ---------------------------------------------------------------- atoms

// Interval; nil means unbounded.
type Interval struct{ lo, hi *big.Int }

type AtomKind int

const (
	AInput AtomKind = iota // free (program input, havoc)
	AQuot                  // floor(P/m)
	AAnd                   // bitwise and of two words
	APow                   // p^q mod m
	AFun                   // uninterpreted application (congruent by key)
	AName                  // name for a polynomial (eq. constraint)
)

type Atom struct {
	id    int
	name  string
	iv    Interval
	kind  AtomKind
	p, q  *Poly    // operands
	m     *big.Int // modulus for AQuot
	w     uint     // width for AAnd
	facts []*Formula
	field bool // lives in F_p (only congruences about it are meaningful)
}

// Ctx holds the atom table for one verification job.
type Ctx struct {
	atoms  []*Atom
	byName map[string]int
	bounds map[string]Interval
	quots  map[string][]int // quotient atoms by numerator
	prime  *big.Int
}

func NewCtx() *Ctx {
	return &Ctx{byName: map[string]int{}, bounds: map[string]Interval{}, quots: map[string][]int{}}
}

func (c *Ctx) newAtom(name string, kind AtomKind, iv Interval) *Atom {
	if id, ok := c.byName[name]; ok {
		return c.atoms[id]
	}
	a := &Atom{id: len(c.atoms), name: name, kind: kind, iv: iv}
	c.atoms = append(c.atoms, a)
	c.byName[name] = a.id
	return a
}

func (c *Ctx) Input(name string, lo, hi *big.Int) *Poly {
	return atomPoly(c.newAtom(name, AInput, Interval{lo, hi}).id)
}

// Pow is b^e mod m (in [0,m)) for e >= 0; what is known about it are the
// recurrences instantiated in congProve.
func (c *Ctx) Pow(b, e *Poly, m *big.Int) *Poly {
	b = b.Mod(m)
	if ec, ok := e.IsConst(); ok && ec.IsInt64() && ec.Int64() >= 0 && ec.Int64() <= 1 {
		if ec.Sign() == 0 {
			return Const(new(big.Int).Mod(bigOne, m))
		}
		return c.ModP(b, m)
	}
	if bc, ok := b.IsConst(); ok {
		if ec, ok := e.IsConst(); ok && ec.Sign() >= 0 {
			return Const(new(big.Int).Exp(bc, ec, m))
		}
	}
	a := c.newAtom("pow("+b.Key()+","+e.Key()+","+m.Text(62)+")", APow, Interval{bigZero, new(big.Int).Sub(m, bigOne)})
	a.p, a.q, a.m = b, e, m
	return atomPoly(a.id)
}

func (c *Ctx) FieldInput(name string) *Poly {
	a := c.newAtom(name, AInput, Interval{bigZero, nil})
	a.field = true
	return atomPoly(a.id)
}

func ivAdd(a, b Interval) Interval {
	var r Interval
	if a.lo != nil && b.lo != nil {
		r.lo = new(big.Int).Add(a.lo, b.lo)
	}
	if a.hi != nil && b.hi != nil {
		r.hi = new(big.Int).Add(a.hi, b.hi)
	}
	return r
}
func ivScale(a Interval, c *big.Int) Interval {
	var r Interval
	if c.Sign() == 0 {
		return Interval{bigZero, bigZero}
	}
	lo, hi := a.lo, a.hi
	if c.Sign() < 0 {
		lo, hi = hi, lo
	}
	if lo != nil {
		r.lo = new(big.Int).Mul(lo, c)
	}
	if hi != nil {
		r.hi = new(big.Int).Mul(hi, c)
	}
	return r
}
func ivMul(a, b Interval) Interval {
	if a.lo != nil && a.hi != nil && b.lo != nil && b.hi != nil {
		var r Interval
		for _, x := range []*big.Int{a.lo, a.hi} {
			for _, y := range []*big.Int{b.lo, b.hi} {
				z := new(big.Int).Mul(x, y)
				if r.lo == nil || z.Cmp(r.lo) < 0 {
					r.lo = z
				}
				if r.hi == nil || z.Cmp(r.hi) > 0 {
					r.hi = z
				}
			}
		}
		return r
	}
	if a.lo != nil && b.lo != nil && a.lo.Sign() >= 0 && b.lo.Sign() >= 0 {
		r := Interval{lo: new(big.Int).Mul(a.lo, b.lo)}
		if a.hi != nil && b.hi != nil {
			r.hi = new(big.Int).Mul(a.hi, b.hi)
		}
		return r
	}
	return Interval{}
}
func ivMeet(a, b Interval) Interval {
	r := a
	if b.lo != nil && (r.lo == nil || b.lo.Cmp(r.lo) > 0) {
		r.lo = b.lo
	}
	if b.hi != nil && (r.hi == nil || b.hi.Cmp(r.hi) < 0) {
		r.hi = b.hi
	}
	return r
}

func (c *Ctx) monoIv(m *Mono) Interval {
	r := Interval{bigOne, bigOne}
	for i, id := range m.ids {
		e := m.exps[i]
		if !e.IsInt64() || e.Int64() > 8 {
			return Interval{}
		}
		iv := c.atoms[id].iv
		p := Interval{bigOne, bigOne}
		for k := int64(0); k < e.Int64(); k++ {
			p = ivMul(p, iv)
		}
		if e.Int64()%2 == 0 && (p.lo == nil || p.lo.Sign() < 0) {
			p.lo = bigZero
		}
		r = ivMul(r, p)
	}
	return r
}

// prim writes p = g*base + k with base primitive, g != 0.
func prim(p *Poly) (base *Poly, g, k *big.Int) {
	k = p.ConstPart()
	g = p.gcdNonConst()
	if g.Sign() == 0 {
		return newPoly(), bigOne, k
	}
	// sign: make the coefficient of the smallest key positive
	var mk string
	for kk := range p.t {
		if kk != "" && (mk == "" || kk < mk) {
			mk = kk
		}
	}
	if p.t[mk].c.Sign() < 0 {
		g = new(big.Int).Neg(g)
	}
	if g.Cmp(bigOne) == 0 && k.Sign() == 0 {
		return p, g, k
	}
	base = newPoly()
	for kk, t := range p.t {
		if kk != "" {
			base.t[kk] = Term{t.m, new(big.Int).Quo(t.c, g)}
		}
	}
	return base, g, k
}

// Iv is a sound (unconditional) interval for P.
func (c *Ctx) Iv(p *Poly) Interval {
	r := Interval{bigZero, bigZero}
	for _, t := range p.t {
		r = ivAdd(r, ivScale(c.monoIv(t.m), t.c))
	}
	if len(p.t) > 1 && len(c.bounds) > 0 {
		base, g, k := prim(p)
		if b, ok := c.bounds[base.Key()]; ok {
			r = ivMeet(r, ivAdd(ivScale(b, g), Interval{k, k}))
		}
	}
	return r
}

func (c *Ctx) setBounds(p *Poly, iv Interval) {
	if len(p.t) <= 1 {
		return
	}
	base, g, k := prim(p)
	nk := new(big.Int).Neg(k)
	iv = ivAdd(iv, Interval{nk, nk})
	// iv bounds g*base
	var b Interval
	ag := new(big.Int).Abs(g)
	lo, hi := iv.lo, iv.hi
	if g.Sign() < 0 {
		lo, hi = nil, nil
		if iv.hi != nil {
			lo = new(big.Int).Neg(iv.hi)
		}
		if iv.lo != nil {
			hi = new(big.Int).Neg(iv.lo)
		}
	}
	if lo != nil { // ceil
		b.lo = new(big.Int).Neg(floorDivI(new(big.Int).Neg(lo), ag))
	}
	if hi != nil {
		b.hi = floorDivI(hi, ag)
	}
	if old, ok := c.bounds[base.Key()]; ok {
		b = ivMeet(old, b)
	}
	c.bounds[base.Key()] = b
}

func floorDivI(a, m *big.Int) *big.Int { // m>0
	q, r := new(big.Int), new(big.Int)
	q.DivMod(a, m, r) // Euclidean == floor for m>0
	return q
}

// FloorDiv returns a polynomial equal to floor(P/m), m>0 constant.
func (c *Ctx) FloorDiv(p *Poly, m *big.Int) *Poly {
	if m.Cmp(bigOne) == 0 {
		return p
	}
	// p = k + g*B with B in {0,1} or {-1,0}: exact
	if _, isc := p.IsConst(); !isc {
		base, g, k := prim(p)
		iv := c.Iv(base)
		if iv.lo != nil && iv.hi != nil && new(big.Int).Sub(iv.hi, iv.lo).Cmp(bigOne) <= 0 {
			k = new(big.Int).Add(k, new(big.Int).Mul(g, iv.lo))
			f0, f1 := floorDivI(k, m), floorDivI(new(big.Int).Add(k, g), m)
			return Const(f0).Add(base.Sub(Const(iv.lo)).Scale(f1.Sub(f1, f0)))
		}
	}
	// split p = m*R + p'
	R, rest := newPoly(), newPoly()
	for _, t := range p.t {
		q, r := new(big.Int), new(big.Int)
		q.DivMod(t.c, m, r)
		// centre remainder: choose r-m if that is closer to zero and the term is negative
		if r.Sign() != 0 && t.c.Sign() < 0 && new(big.Int).Neg(t.c).Cmp(m) < 0 {
			q, r = new(big.Int), new(big.Int).Set(t.c)
		}
		R.addTerm(t.m, q)
		rest.addTerm(t.m, r)
	}
	if rest.IsZero() {
		return R
	}
	// a single term with coefficient above m/2: floor(c*B/m) = B + floor((c-m)*B/m)
	if len(rest.t) == 1 {
		for k, t := range rest.t {
			if t.m.degree() > 0 && new(big.Int).Lsh(t.c, 1).Cmp(m) > 0 {
				R.addTerm(t.m, bigOne)
				rest.t[k] = Term{t.m, new(big.Int).Sub(t.c, m)}
			}
		}
	}
	if cc, ok := rest.IsConst(); ok {
		return R.Add(Const(floorDivI(cc, m)))
	}
	iv := c.Iv(rest)
	// If the original polynomial has tighter known bounds use these: iv(p) - m*iv(R) is looser, so only use when R const
	if rc, ok := R.IsConst(); ok {
		ivp := c.Iv(p)
		mm := new(big.Int).Neg(new(big.Int).Mul(m, rc))
		iv = ivMeet(iv, ivAdd(ivp, Interval{mm, mm}))
	}
	var qiv Interval
	if iv.lo != nil {
		qiv.lo = floorDivI(iv.lo, m)
	}
	if iv.hi != nil {
		qiv.hi = floorDivI(iv.hi, m)
	}
	if qiv.lo != nil && qiv.hi != nil && qiv.lo.Cmp(qiv.hi) == 0 {
		return R.Add(Const(qiv.lo))
	}
	// divide out common factor of coefficients and m
	g := new(big.Int).Set(m)
	for _, t := range rest.t {
		g.GCD(nil, nil, g, new(big.Int).Abs(t.c))
		if g.Cmp(bigOne) == 0 {
			break
		}
	}
	if g.Cmp(bigOne) > 0 {
		r2 := newPoly()
		for _, t := range rest.t {
			r2.addTerm(t.m, new(big.Int).Quo(t.c, g))
		}
		return R.Add(c.FloorDiv(r2, new(big.Int).Quo(m, g)))
	}
	// floor(c*B/m) for a 0/1 atom B and |c| < m
	if len(rest.t) == 1 {
		for _, t := range rest.t {
			if len(t.m.ids) == 1 && t.m.exps[0].Cmp(bigOne) == 0 {
				bv := c.atoms[t.m.ids[0]].iv
				if bv.lo != nil && bv.hi != nil && bv.lo.Sign() == 0 && bv.hi.Cmp(bigOne) == 0 && new(big.Int).Abs(t.c).Cmp(m) < 0 {
					if t.c.Sign() > 0 {
						return R
					}
					return R.Sub(atomPoly(t.m.ids[0]))
				}
			}
		}
	}
	// floor((g*X + L)/m) = floor(X/(m/g)) when g divides m and 0 <= L < g
	if len(rest.t) > 1 {
		var best *big.Int
		for _, t := range rest.t {
			g2 := new(big.Int).GCD(nil, nil, new(big.Int).Abs(t.c), m)
			if g2.Cmp(bigOne) <= 0 || (best != nil && g2.Cmp(best) <= 0) {
				continue
			}
			L := newPoly()
			for _, t2 := range rest.t {
				if new(big.Int).Rem(t2.c, g2).Sign() != 0 {
					L.addTerm(t2.m, t2.c)
				}
			}
			if len(L.t) == 0 || len(L.t) == len(rest.t) {
				continue
			}
			li := c.Iv(L)
			if li.lo != nil && li.hi != nil && li.lo.Sign() >= 0 && li.hi.Cmp(g2) < 0 {
				best = g2
			}
		}
		if best != nil {
			X := newPoly()
			for _, t := range rest.t {
				if new(big.Int).Rem(t.c, best).Sign() == 0 {
					X.addTerm(t.m, new(big.Int).Quo(t.c, best))
				}
			}
			return R.Add(c.FloorDiv(X, new(big.Int).Quo(m, best)))
		}
	}
	// constant and low parts: if rest = g*X + k with 0<=k<g' ... (handled by solver)
	// floor(floor(A/a)/m) = floor(A/(a m)) when rest is exactly a quotient atom
	if id, ok := rest.IsAtom(); ok {
		if a := c.atoms[id]; a.kind == AQuot {
			return R.Add(c.FloorDiv(a.p, new(big.Int).Mul(a.m, m)))
		}
	}
	name := "q(" + rest.Key() + "/" + m.Text(62) + ")"
	a := c.newAtom(name, AQuot, qiv)
	if a.p == nil {
		a.p, a.m = rest, m
		q := atomPoly(a.id)
		d := rest.Sub(q.Scale(m))
		a.facts = []*Formula{Ge0(d), Le0(d.Sub(Const(new(big.Int).Sub(m, bigOne))))}
		c.setBounds(d, Interval{bigZero, new(big.Int).Sub(m, bigOne)})
		// floor(p/m') - (m/m')*floor(p/m) in [0, m/m'-1] when m' divides m
		rk := rest.Key()
		for _, id := range c.quots[rk] {
			b := c.atoms[id]
			lo, hi := b, a
			if lo.m.Cmp(hi.m) > 0 {
				lo, hi = hi, lo
			}
			f, rm := new(big.Int), new(big.Int)
			f.QuoRem(hi.m, lo.m, rm)
			if rm.Sign() == 0 {
				c.setBounds(atomPoly(lo.id).Sub(atomPoly(hi.id).Scale(f)), Interval{bigZero, new(big.Int).Sub(f, bigOne)})
			}
		}
		c.quots[rk] = append(c.quots[rk], a.id)
	}
	return R.Add(atomPoly(a.id))
}

func (c *Ctx) ModP(p *Poly, m *big.Int) *Poly {
	q := c.FloorDiv(p, m)
	r := p.Sub(q.Scale(m))
	c.setBounds(r, Interval{bigZero, new(big.Int).Sub(m, bigOne)})
	return r
}

// ---------------------------------------------------------------- formulas

type FKind int

const (
	FTrue FKind = iota
	FFalse
	FEq   // p == 0
	FLe   // p <= 0
	FCong // p == 0 (mod m)
	FNot
	FAnd
	FOr
)

type Formula struct {
	k    FKind
	p    *Poly
	m    *big.Int
	args []*Formula
}

var fTrue = &Formula{k: FTrue}
var fFalse = &Formula{k: FFalse}

func Eq0(p *Poly) *Formula {
	if c, ok := p.IsConst(); ok {
		return fbool(c.Sign() == 0)
	}
	return &Formula{k: FEq, p: p}
}
func Le0(p *Poly) *Formula {
	if c, ok := p.IsConst(); ok {
		return fbool(c.Sign() <= 0)
	}
	return &Formula{k: FLe, p: p}
}
func Ge0(p *Poly) *Formula { return Le0(p.Neg()) }
func Lt(a, b *Poly) *Formula {
	return Le0(a.Sub(b).AddI(1))
}
func Le(a, b *Poly) *Formula { return Le0(a.Sub(b)) }
func EqP(a, b *Poly) *Formula {
	return Eq0(a.Sub(b))
}
func Cong0(p *Poly, m *big.Int) *Formula {
	p = p.Mod(m)
	if c, ok := p.IsConst(); ok {
		return fbool(c.Sign() == 0)
	}
	return &Formula{k: FCong, p: p, m: m}
}
func fbool(b bool) *Formula {
	if b {
		return fTrue
	}
	return fFalse
}
func Not(f *Formula) *Formula {
	switch f.k {
	case FTrue:
		return fFalse
	case FFalse:
		return fTrue
	case FNot:
		return f.args[0]
	case FLe: // not p<=0  -> p>=1 -> 1-p<=0
		return Le0(ConstI(1).Sub(f.p))
	case FAnd:
		var a []*Formula
		for _, x := range f.args {
			a = append(a, Not(x))
		}
		return Or(a...)
	case FOr:
		var a []*Formula
		for _, x := range f.args {
			a = append(a, Not(x))
		}
		return And(a...)
	}
	return &Formula{k: FNot, args: []*Formula{f}}
}
func And(fs ...*Formula) *Formula {
	var a []*Formula
	for _, f := range fs {
		switch f.k {
		case FTrue:
		case FFalse:
			return fFalse
		case FAnd:
			a = append(a, f.args...)
		default:
			a = append(a, f)
		}
	}
	if len(a) == 0 {
		return fTrue
	}
	if len(a) == 1 {
		return a[0]
	}
	return &Formula{k: FAnd, args: a}
}
func Or(fs ...*Formula) *Formula {
	var a []*Formula
	for _, f := range fs {
		switch f.k {
		case FFalse:
		case FTrue:
			return fTrue
		case FOr:
			a = append(a, f.args...)
		default:
			a = append(a, f)
		}
	}
	if len(a) == 0 {
		return fFalse
	}
	if len(a) == 1 {
		return a[0]
	}
	return &Formula{k: FOr, args: a}
}
func Implies(a, b *Formula) *Formula { return Or(Not(a), b) }
func Iff(a, b *Formula) *Formula {
	switch {
	case a.k == FTrue:
		return b
	case b.k == FTrue:
		return a
	case a.k == FFalse:
		return Not(b)
	case b.k == FFalse:
		return Not(a)
	}
	return And(Implies(a, b), Implies(b, a))
}

func (f *Formula) atoms(into map[int]bool) {
	if f.p != nil {
		f.p.atoms(into)
	}
	for _, a := range f.args {
		a.atoms(into)
	}
}

func (f *Formula) Key() string {
	switch f.k {
	case FTrue:
		return "T"
	case FFalse:
		return "F"
	case FEq:
		// sign-normalised
		k1, k2 := f.p.Key(), f.p.Neg().Key()
		if k2 < k1 {
			k1 = k2
		}
		return "=" + k1
	case FLe:
		return "<" + f.p.Key()
	case FCong:
		return "~" + f.m.Text(62) + f.p.Key()
	case FNot:
		return "!" + f.args[0].Key()
	}
	s := "&("
	if f.k == FOr {
		s = "|("
	}
	for _, a := range f.args {
		s += a.Key() + ","
	}
	return s + ")"
}

// simp uses unconditional intervals to decide literals.
func (c *Ctx) simp(f *Formula) *Formula {
	switch f.k {
	case FEq:
		iv := c.Iv(f.p)
		if iv.lo != nil && iv.lo.Sign() > 0 || iv.hi != nil && iv.hi.Sign() < 0 {
			return fFalse
		}
		if g := f.p.gcdNonConst(); g.Cmp(bigOne) > 0 {
			if new(big.Int).Mod(f.p.ConstPart(), g).Sign() != 0 {
				return fFalse
			}
		}
	case FLe:
		iv := c.Iv(f.p)
		if iv.lo != nil && iv.lo.Sign() > 0 {
			return fFalse
		}
		if iv.hi != nil && iv.hi.Sign() <= 0 {
			return fTrue
		}
	case FNot:
		return Not(c.simp(f.args[0]))
	case FAnd:
		var a []*Formula
		for _, x := range f.args {
			a = append(a, c.simp(x))
		}
		return And(a...)
	case FOr:
		var a []*Formula
		for _, x := range f.args {
			a = append(a, c.simp(x))
		}
		return Or(a...)
	}
	return f
}

func (p *Poly) gcdNonConst() *big.Int {
	g := new(big.Int)
	for k, t := range p.t {
		if k == "" {
			continue
		}
		g.GCD(nil, nil, g, new(big.Int).Abs(t.c))
	}
	return g
}

func (c *Ctx) showPoly(p *Poly) string {
	var parts []string
	for _, t := range p.sortedTerms() {
		var s []string
		for i, id := range t.m.ids {
			n := c.atoms[id].name
			if len(n) > 40 {
				n = "a" + strconv.Itoa(id)
			}
			if t.m.exps[i].Cmp(bigOne) != 0 {
				n += "^" + t.m.exps[i].String()
			}
			s = append(s, n)
		}
		co := t.c.String()
		if len(s) > 0 {
			if t.c.Cmp(bigOne) == 0 {
				co = ""
			} else {
				co += "*"
			}
		}
		parts = append(parts, co+strings.Join(s, "*"))
	}
	if len(parts) == 0 {
		return "0"
	}
	if len(parts) > 24 {
		parts = append(parts[:24], "...")
	}
	return strings.Join(parts, " + ")
}

func (c *Ctx) show(f *Formula) string {
	switch f.k {
	case FTrue:
		return "true"
	case FFalse:
		return "false"
	case FEq:
		return c.showPoly(f.p) + " == 0"
	case FLe:
		return c.showPoly(f.p) + " <= 0"
	case FCong:
		return c.showPoly(f.p) + " == 0 mod " + f.m.String()
	case FNot:
		return "!(" + c.show(f.args[0]) + ")"
	}
	op := " && "
	if f.k == FOr {
		op = " || "
	}
	var s []string
	for _, a := range f.args {
		s = append(s, c.show(a))
	}
	return "(" + strings.Join(s, op) + ")"
}
