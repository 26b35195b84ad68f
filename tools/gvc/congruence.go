package main

// congruence.go: proving linear congruences. A goal  p == 0 (mod m)  with p
// linear is reduced coefficientwise modulo m (which removes everything that is
// a multiple of m, such as an estimated quotient times the modulus), scaled by
// a unit so that the remaining coefficients are small, and then shown to be
// the integer 0 by bounding it strictly between -1 and 1.  The bounds are
// discharged by an SMT solver over the rationals (a relaxation, hence sound).

import (
	"context"
	"math/big"
	"os"
	"sort"
	"strings"
	"sync"
	"time"
)

func symMod(a, m *big.Int) *big.Int {
	r := new(big.Int).Mod(a, m)
	if h := new(big.Int).Rsh(m, 1); r.Cmp(h) > 0 {
		r.Sub(r, m)
	}
	return r
}

// congProve: a congruence follows from congruences and equations among the
// hypotheses by linear algebra modulo m over the monomials; what is left after
// elimination goes to congLinear. Quotient atoms that the hypotheses force to
// a single value are replaced by it first.
func (c *Ctx) congProve(hyps []*Formula, goal *Formula, seconds float64) *Result {
	powers := ""
	if ax := c.powAxioms(hyps, goal, seconds); len(ax) > 0 {
		powers = "power recurrences+"
		hyps = append(hyps[:len(hyps):len(hyps)], ax...)
	}
	res := c.congSpan(hyps, goal)
	if res.k == FTrue {
		return &Result{Status: "proved", Backend: powers + "linear algebra modulo m"}
	}
	if c.idealProve(hyps, goal) {
		return &Result{Status: "proved", Backend: powers + "ideal membership modulo m"}
	}
	var eqs []*Formula
	for _, h := range c.cone(hyps, goal, 50) {
		if h.k == FCong && h.m.Cmp(goal.m) == 0 || h.k == FEq {
			eqs = append(eqs, h)
		}
	}
	for _, deep := range []bool{false, true} {
		fixed := c.fixedQuots(hyps, And(append(eqs, goal)...), seconds, deep)
		for id, v := range fixed {
			hyps = append(hyps[:len(hyps):len(hyps)], EqP(atomPoly(id), Const(v)))
		}
		if len(fixed) > 0 {
			res = c.congSpan(hyps, goal)
		} else if deep {
			break
		}
		if res.k == FTrue {
			return &Result{Status: "proved", Backend: "fixed quotients+linear algebra modulo m"}
		}
		if r := c.congLinear(hyps, res, seconds); r != nil {
			return r
		}
	}
	return nil
}

// fixedQuots finds quotient atoms of the goal with a narrow range that the
// hypotheses pin to one value (decided over the rationals).
func (c *Ctx) fixedQuots(hyps []*Formula, goal *Formula, seconds float64, deep bool) map[int]*big.Int {
	out := map[int]*big.Int{}
	in, known := map[int]bool{}, map[int]bool{}
	goal.atoms(in)
	for _, h := range hyps {
		if h.k == FEq && len(h.p.t) <= 2 {
			h.atoms(known)
		}
	}
	var ids []int
	for id := range in {
		a := c.atoms[id]
		if a.kind == AQuot && !known[id] && a.iv.lo != nil && a.iv.hi != nil && new(big.Int).Sub(a.iv.hi, a.iv.lo).Cmp(bi(4)) <= 0 {
			ids = append(ids, id)
		}
	}
	sort.Ints(ids)
	hyps = append([]*Formula(nil), hyps...)
	depth := 1
	if deep {
		depth = 50
	}
	real := func(g *Formula) bool { return c.proveRealFrom(c.cone(hyps, g, depth), g, seconds/8) }
	deadline := time.Now().Add(time.Duration(seconds * float64(time.Second)))
	for _, h := range hyps {
		if id, v := c.residueFixed(h); v != nil && out[id] == nil && !known[id] {
			out[id] = v
		}
	}
	for round := 0; round < 2; round++ {
		for _, id := range ids {
			if out[id] != nil || time.Now().After(deadline) {
				continue
			}
			a := c.atoms[id]
			lo, hi := new(big.Int).Set(a.iv.lo), new(big.Int).Set(a.iv.hi)
			for lo.Cmp(hi) < 0 && real(Lt(atomPoly(id), Const(hi))) {
				hi.Sub(hi, bigOne)
			}
			for lo.Cmp(hi) < 0 && real(Lt(Const(lo), atomPoly(id))) {
				lo.Add(lo, bigOne)
			}
			if lo.Cmp(hi) == 0 {
				out[id] = lo
				hyps = append(hyps, EqP(atomPoly(id), Const(lo)))
			}
			if os.Getenv("GVC_CONG") != "" {
				println("  quotient", c.atoms[id].name, lo.String(), hi.String())
			}
		}
	}
	return out
}

// congSpan reduces the goal by the hypotheses that are congruences modulo the
// same m, or equations.
func (c *Ctx) congSpan(hyps []*Formula, goal *Formula) *Formula {
	m := goal.m
	type row struct {
		pivot string
		p     *Poly
	}
	var rows []row
	reduce := func(p *Poly) *Poly {
		for _, r := range rows {
			if t, ok := p.t[r.pivot]; ok {
				p = p.Add(r.p.Scale(new(big.Int).Neg(t.c))).Mod(m)
			}
		}
		return p
	}
	var eqs []*Poly
	for _, h := range c.cone(hyps, goal, 50) {
		if h.k == FCong && h.m.Cmp(m) == 0 || h.k == FEq {
			eqs = append(eqs, h.p.Mod(m))
		}
	}
	if len(eqs) == 0 || len(eqs) > 400 {
		return goal
	}
	for _, e := range eqs {
		e = reduce(e)
		var best Term
		var inv *big.Int
		for _, t := range e.t {
			d := t.m.degree()
			if d == 0 || inv != nil && (d < best.m.degree() || d == best.m.degree() && t.m.key > best.m.key) {
				continue
			}
			if i := new(big.Int).ModInverse(t.c, m); i != nil {
				best, inv = t, i
			}
		}
		if inv == nil {
			continue
		}
		rows = append(rows, row{best.m.key, e.Scale(inv).Mod(m)})
	}
	p := reduce(goal.p.Mod(m))
	if p.IsZero() {
		return fTrue
	}
	return Cong0(p, m)
}

// congLinear returns nil when it cannot establish the goal.
func (c *Ctx) congLinear(hyps []*Formula, goal *Formula, seconds float64) *Result {
	m := goal.m
	var terms []Term
	for _, t := range goal.p.t {
		if t.m.degree() > 1 {
			return nil
		}
		k := symMod(t.c, m)
		if k.Sign() != 0 {
			terms = append(terms, Term{t.m, k})
		}
	}
	if len(terms) == 0 {
		return &Result{Status: "proved", Backend: "modular coefficients"}
	}
	// choose the unit that makes the largest coefficient smallest
	build := func(s *big.Int) (*Poly, *big.Int) {
		p, mx := newPoly(), new(big.Int)
		for _, t := range terms {
			k := symMod(new(big.Int).Mul(t.c, s), m)
			p.addTerm(t.m, k)
			if a := new(big.Int).Abs(k); a.Cmp(mx) > 0 {
				mx = a
			}
		}
		return p, mx
	}
	best, bm := build(bigOne)
	for _, t := range terms {
		inv := new(big.Int).ModInverse(t.c, m)
		if inv == nil {
			continue
		}
		if p, mx := build(inv); mx.Cmp(bm) < 0 {
			best, bm = p, mx
		}
	}
	if os.Getenv("GVC_CONG") != "" {
		println("cong:", c.show(Eq0(best)))
	}
	ok := &Result{Status: "proved", Backend: "modular coefficients+linear rational arithmetic"}
	isZero := func(p *Poly, seconds float64) bool {
		return c.proveReal(hyps, Le0(p), seconds) && c.proveReal(hyps, Ge0(p), seconds)
	}
	if isZero(best, seconds) {
		return ok
	}
	// Integer steps: the same form with a quotient replaced by an earlier one
	// (the value before a conditional addition or subtraction) may be provable;
	// each such fact is then available as a lemma.
	deadline := time.Now().Add(time.Duration(seconds * 2 * float64(time.Second)))
	in := map[int]bool{}
	best.atoms(in)
	var own []int
	for id := range in {
		if c.atoms[id].kind == AQuot {
			own = append(own, id)
		}
	}
	sort.Ints(own)
	all := map[int]bool{}
	for _, h := range c.cone(hyps, goal, 50) {
		h.atoms(all)
	}
	var cand []int
	for id := range all {
		if c.atoms[id].kind == AQuot && !in[id] {
			cand = append(cand, id)
		}
	}
	sort.Sort(sort.Reverse(sort.IntSlice(cand)))
	if len(own) == 0 || len(own) > 2 {
		return nil
	}
	a := own[len(own)-1]
	var chain []int
	for _, id := range cand {
		if id < a && c.atoms[id].m.Cmp(c.atoms[a].m) == 0 && len(chain) < 60 {
			chain = append(chain, id)
		}
	}
	hyps = append([]*Formula(nil), hyps...)
	chain = append([]int{a}, chain...)
	cand = append(cand, a)
	for i := len(chain) - 1; i >= 0 && time.Now().Before(deadline); i-- {
		q := best.Subst(a, atomPoly(chain[i]))
		found := false
		// only values the program computes a word of
		t := c.floorKnown(q, c.atoms[a].m, cand)
		if t == nil {
			continue
		}
		if isZero(q, seconds/4) {
			hyps = append(hyps, Eq0(q))
			found = true
		} else if q = t; isZero(q, seconds/4) {
			hyps = append(hyps, Eq0(q)) // q is a single word
			found = true
		}
		if os.Getenv("GVC_CONG") != "" {
			println("  lemma", found, c.show(Eq0(q)))
		}
		if found && isZero(best, seconds) {
			ok.Backend += "+integer lemmas"
			return ok
		}
	}
	return nil
}

// proveReal: hyps |= goal already over the rationals.
func (c *Ctx) proveReal(hyps []*Formula, goal *Formula, seconds float64) bool {
	return c.proveRealFrom(c.cone(hyps, goal, 50), goal, seconds)
}

func (c *Ctx) proveRealFrom(h []*Formula, goal *Formula, seconds float64) bool {
	fs := append(append([]*Formula(nil), h...), Not(goal))
	fs = append(fs, c.defFacts(fs)...)
	fs, _ = c.substFixed(flatten(fs))
	for i, f := range fs {
		fs[i] = c.splitNeq(f)
	}
	for _, f := range fs {
		if c.simp(f).k == FFalse {
			return true
		}
	}
	text, _ := c.smtText(fs, false, false)
	text = strings.ReplaceAll(text, " Int)\n", " Real)\n")
	out, _ := runSolver(context.Background(), backends[0], text, seconds)
	return firstWord(out) == "unsat"
}

// splitNeq turns p != 0 into p >= 1 or p <= -1 (one of them when the sign of p
// is known): the disequality itself says nothing over the rationals.
func (c *Ctx) splitNeq(f *Formula) *Formula {
	if f.k != FNot || f.args[0].k != FEq {
		return f
	}
	p := f.args[0].p
	iv := c.Iv(p)
	ge, le := Ge0(p.Sub(ConstI(1))), Le0(p.Add(ConstI(1)))
	if iv.lo != nil && iv.lo.Sign() >= 0 {
		return ge
	}
	if iv.hi != nil && iv.hi.Sign() <= 0 {
		return le
	}
	return Or(ge, le)
}

// floorKnown returns floor(p/m) in terms of one of the given quotients.
func (c *Ctx) floorKnown(p *Poly, m *big.Int, quots []int) *Poly {
next:
	for _, id := range quots {
		b := c.atoms[id]
		if b.m.Cmp(m) != 0 {
			continue
		}
		d, r := p.Sub(b.p), newPoly()
		for _, t := range d.t {
			q, rem := new(big.Int).QuoRem(t.c, m, new(big.Int))
			if rem.Sign() != 0 {
				continue next
			}
			r.addTerm(t.m, q)
		}
		return r.Add(atomPoly(id))
	}
	return nil
}

// powAxioms instantiates, for the powers b^e mod m in the goal and in the
// congruences connected with it, the recurrences b^0 = 1, b^1 = b,
// b^(2e) = (b^e)^2, b^(2e+1) = (b^e)^2 b and b^(e+1) = b^e b where the
// hypotheses put two exponents in that relation.
func (c *Ctx) powAxioms(hyps []*Formula, goal *Formula, seconds float64) []*Formula {
	in := map[int]bool{}
	goal.atoms(in)
	var seed []int
	for id := range in {
		if c.atoms[id].kind == APow {
			seed = append(seed, id)
		}
	}
	if len(seed) == 0 {
		return nil
	}
	for _, h := range c.cone(hyps, goal, 50) {
		if h.k == FCong || h.k == FEq {
			h.atoms(in)
		}
	}
	var ids []int
	for id := range in {
		if a := c.atoms[id]; a.kind == APow && a.m.Cmp(goal.m) == 0 {
			ids = append(ids, id)
		}
	}
	sort.Ints(ids)
	isZero := func(p *Poly) bool {
		if c.simp(Eq0(p)).k == FTrue {
			return true
		}
		if k := c.simp(Eq0(p)).k; k == FFalse {
			return false
		}
		return c.prove(hyps, Eq0(p), seconds/8).Status == "proved"
	}
	var out []*Formula
	for _, i := range ids {
		a, x := c.atoms[i], atomPoly(i)
		if isZero(a.q) {
			out = append(out, Cong0(x.AddI(-1), a.m))
			continue
		}
		if isZero(a.q.AddI(-1)) {
			out = append(out, Cong0(x.Sub(a.p), a.m))
			continue
		}
		for _, j := range ids {
			b, y := c.atoms[j], atomPoly(j)
			if i == j || a.p.Key() != b.p.Key() {
				continue
			}
			d := a.q.Sub(b.q.ScaleI(2))
			iv := c.Iv(d)
			if iv.lo != nil && iv.hi != nil && iv.lo.Sign() >= 0 && iv.hi.Cmp(bi(1)) <= 0 || len(d.t) <= 3 {
				if isZero(d) {
					out = append(out, Cong0(x.Sub(y.Mul(y)), a.m))
				} else if isZero(d.AddI(-1)) {
					out = append(out, Cong0(x.Sub(y.Mul(y).Mul(a.p)), a.m))
				}
			}
			if k, ok := a.q.Sub(b.q).IsConst(); ok && k.Sign() > 0 && k.BitLen() < 5 {
				p := y
				for n := k.Int64(); n > 0; n-- {
					p = p.Mul(a.p).Mod(a.m)
				}
				out = append(out, Cong0(x.Sub(p), a.m))
			}
		}
	}
	return out
}

// idealProve: the goal is in the ideal generated by the congruences modulo the
// prime m and the equations connected with it.
func (c *Ctx) idealProve(hyps []*Formula, goal *Formula) bool {
	if polyDegree(goal.p) < 2 && len(goal.p.t) > 12 {
		return false
	}
	var gens []*Poly
	nonlinear := polyDegree(goal.p) > 1
	for _, h := range c.cone(hyps, goal, 50) {
		if h.k == FCong && h.m.Cmp(goal.m) == 0 || h.k == FEq {
			gens = append(gens, h.p.Mod(goal.m))
			nonlinear = nonlinear || polyDegree(h.p) > 1
		}
	}
	if !nonlinear || len(gens) == 0 || len(gens) > 60 || !c.isPrime(goal.m) {
		return false
	}
	b := &gbasis{prime: goal.m, limit: 20000}
	b.build(gens, 60)
	return b.reduce(goal.p).IsZero()
}

func (c *Ctx) isPrime(m *big.Int) bool {
	k := m.String()
	if v, ok := primeCache.Load(k); ok {
		return v.(bool)
	}
	v := m.ProbablyPrime(40)
	primeCache.Store(k, v)
	return v
}

var primeCache sync.Map
