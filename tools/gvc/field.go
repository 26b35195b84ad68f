package main

import (
	"math/big"
	"sort"
)

// field.go: proving congruences modulo the prime c.prime by polynomial ideal
// reasoning: the hypotheses generate an ideal of F_p[atoms]; a goal F == 0
// holds if F (or F times known non-zero polynomials) reduces to 0.

// order: lexicographic with larger atom ids more significant.
func monoLess(a, b *Mono) bool {
	i, j := len(a.ids)-1, len(b.ids)-1
	for i >= 0 && j >= 0 {
		if a.ids[i] != b.ids[j] {
			return a.ids[i] < b.ids[j]
		}
		if cmp := a.exps[i].Cmp(b.exps[j]); cmp != 0 {
			return cmp < 0
		}
		i--
		j--
	}
	return i < 0 && j >= 0
}

func leading(p *Poly) Term {
	var best Term
	first := true
	for _, t := range p.t {
		if first || monoLess(best.m, t.m) {
			best = t
			first = false
		}
	}
	return best
}

func monoDiv(a, b *Mono) (*Mono, bool) { // a / b
	var ids []int
	var exps []*big.Int
	j := 0
	for i, id := range a.ids {
		if j < len(b.ids) && b.ids[j] < id {
			return nil, false
		}
		if j < len(b.ids) && b.ids[j] == id {
			d := new(big.Int).Sub(a.exps[i], b.exps[j])
			if d.Sign() < 0 {
				return nil, false
			}
			if d.Sign() > 0 {
				ids = append(ids, id)
				exps = append(exps, d)
			}
			j++
		} else {
			ids = append(ids, id)
			exps = append(exps, a.exps[i])
		}
	}
	if j < len(b.ids) {
		return nil, false
	}
	return mkMono(ids, exps), true
}

type gpoly struct {
	p  *Poly
	lt Term
}

type gbasis struct {
	prime *big.Int
	nz    map[int]bool // atoms known to be non-zero
	g     []gpoly
	steps int
	limit int
}

func (b *gbasis) monic(p *Poly) (gpoly, bool) {
	p = p.Mod(b.prime)
	if p.IsZero() {
		return gpoly{}, false
	}
	lt := leading(p)
	inv := new(big.Int).ModInverse(lt.c, b.prime)
	p = p.Scale(inv).Mod(b.prime)
	return gpoly{p, Term{lt.m, bigOne}}, true
}

// content: the largest monomial dividing p.
func content(p *Poly) *Mono {
	var m *Mono
	for _, t := range p.t {
		if m == nil {
			m = t.m
			continue
		}
		var ids []int
		var exps []*big.Int
		for i, j := 0, 0; i < len(m.ids) && j < len(t.m.ids); {
			switch {
			case m.ids[i] < t.m.ids[j]:
				i++
			case m.ids[i] > t.m.ids[j]:
				j++
			default:
				e := m.exps[i]
				if t.m.exps[j].Cmp(e) < 0 {
					e = t.m.exps[j]
				}
				ids, exps = append(ids, m.ids[i]), append(exps, e)
				i++
				j++
			}
		}
		m = mkMono(ids, exps)
	}
	return m
}

func divMono(p *Poly, m *Mono) *Poly {
	out := newPoly()
	for _, t := range p.t {
		q, ok := monoDiv(t.m, m)
		if !ok {
			panic("divMono")
		}
		out.addTerm(q, t.c)
	}
	return out
}

// radical: p == 0 is equivalent to the same with powers of common factors reduced to the first power and
// common factors that are not zero dropped.
func (b *gbasis) radical(p *Poly) *Poly {
	if p.IsZero() {
		return p
	}
	m := content(p)
	if len(m.ids) == 0 {
		return p
	}
	var ids []int
	var exps []*big.Int
	for i, id := range m.ids {
		e := new(big.Int).Sub(m.exps[i], bigOne)
		if b.nz[id] {
			e = m.exps[i]
		}
		if e.Sign() > 0 {
			ids, exps = append(ids, id), append(exps, e)
		}
	}
	if len(ids) == 0 {
		return p
	}
	return divMono(p, mkMono(ids, exps))
}

func nzAtoms(nz []*Poly) map[int]bool {
	m := map[int]bool{}
	for _, p := range nz {
		if len(p.t) == 1 {
			for _, t := range p.t {
				for _, id := range t.m.ids {
					m[id] = true
				}
			}
		}
	}
	return m
}

// reduce fully.
func (b *gbasis) reduce(p *Poly) *Poly {
	p = p.Mod(b.prime)
	out := newPoly()
	for !p.IsZero() {
		lt := leading(p)
		done := false
		for _, g := range b.g {
			if q, ok := monoDiv(lt.m, g.lt.m); ok {
				f := newPoly()
				f.addTerm(q, lt.c)
				p = p.Sub(f.Mul(g.p)).Mod(b.prime)
				done = true
				b.steps++
				break
			}
		}
		if !done {
			out.addTerm(lt.m, lt.c)
			q := &Poly{t: map[string]Term{}}
			for k, t := range p.t {
				if k != lt.m.key {
					q.t[k] = t
				}
			}
			p = q
		}
		if b.steps > b.limit || len(p.t) > 4000 {
			return out.Add(p)
		}
	}
	return out
}

func monoLcm(a, b *Mono) *Mono {
	m := map[int]*big.Int{}
	for i, id := range a.ids {
		m[id] = a.exps[i]
	}
	for i, id := range b.ids {
		if e, ok := m[id]; !ok || e.Cmp(b.exps[i]) < 0 {
			m[id] = b.exps[i]
		}
	}
	var ids []int
	for id := range m {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	exps := make([]*big.Int, len(ids))
	for i, id := range ids {
		exps[i] = m[id]
	}
	return mkMono(ids, exps)
}

func coprime(a, b *Mono) bool {
	for _, x := range a.ids {
		for _, y := range b.ids {
			if x == y {
				return false
			}
		}
	}
	return true
}

func (b *gbasis) spoly(x, y gpoly) *Poly {
	l := monoLcm(x.lt.m, y.lt.m)
	qx, _ := monoDiv(l, x.lt.m)
	qy, _ := monoDiv(l, y.lt.m)
	fx, fy := newPoly(), newPoly()
	fx.addTerm(qx, bigOne)
	fy.addTerm(qy, bigOne)
	return fx.Mul(x.p).Sub(fy.Mul(y.p)).Mod(b.prime)
}

// build computes a (possibly truncated) Groebner basis.
func (b *gbasis) build(gens []*Poly, maxPairs int) {
	type pair struct{ i, j int }
	var pairs []pair
	add := func(p *Poly) {
		p = b.radical(b.reduce(p))
		g, ok := b.monic(p)
		if !ok {
			return
		}
		n := len(b.g)
		b.g = append(b.g, g)
		for i := 0; i < n; i++ {
			if !coprime(b.g[i].lt.m, g.lt.m) {
				pairs = append(pairs, pair{i, n})
			}
		}
	}
	// small leading monomials first
	sort.SliceStable(gens, func(i, j int) bool { return len(gens[i].t) < len(gens[j].t) })
	for _, g := range gens {
		add(g)
	}
	// process pairs with the smallest lcm degree first
	n := 0
	for len(pairs) > 0 && n < maxPairs && b.steps < b.limit {
		bi, bd := 0, 1<<62
		for k, p := range pairs {
			d := monoLcm(b.g[p.i].lt.m, b.g[p.j].lt.m).degree()
			if d < bd {
				bi, bd = k, d
			}
		}
		p := pairs[bi]
		pairs = append(pairs[:bi], pairs[bi+1:]...)
		n++
		s := b.spoly(b.g[p.i], b.g[p.j])
		if len(s.t) > 2000 {
			continue
		}
		add(s)
	}
	// tails that became reducible may leave equations with a common factor
	for round := 0; round < 4 && b.steps < b.limit; round++ {
		changed := false
		for i := 0; i < len(b.g); i++ {
			save := b.g
			b.g = append(append([]gpoly(nil), save[:i]...), save[i+1:]...)
			q := b.reduce(save[i].p)
			r := b.radical(q)
			b.g = save
			if r != q {
				add(r)
				changed = true
			}
		}
		if !changed {
			break
		}
	}
}

// fieldProve: returns nil if not applicable.
func (c *Ctx) fieldProve(hyps []*Formula, goal *Formula) *Result {
	goals := []*Poly{}
	switch goal.k {
	case FCong:
		if goal.m.Cmp(c.prime) != 0 {
			return nil
		}
		goals = append(goals, goal.p)
	case FNot:
		if goal.args[0].k != FCong || goal.args[0].m.Cmp(c.prime) != 0 {
			return nil
		}
		// assume the negation, derive a contradiction
		hyps = append(append([]*Formula(nil), hyps...), goal.args[0])
	case FFalse:
	default:
		return nil
	}
	var gens, nz []*Poly
	for _, h := range hyps {
		switch {
		case h.k == FCong && h.m.Cmp(c.prime) == 0:
			gens = append(gens, h.p)
		case h.k == FEq:
			gens = append(gens, h.p.Mod(c.prime))
		case h.k == FNot && h.args[0].k == FCong && h.args[0].m.Cmp(c.prime) == 0:
			nz = append(nz, h.args[0].p)
		}
	}
	if len(goals) == 0 && len(nz) == 0 && len(gens) == 0 {
		return nil
	}
	// restrict to the cone of the goal when there is one
	if len(goals) == 0 {
		goals = append(goals, ConstI(1))
		goals = append(goals, nz...)
	}
	for gi, g := range goals {
		sub := c.fieldCone(gens, g)
		if gi == 0 && len(goals) > 1 { // "1" has no atoms: skip cone
			sub = gens
		}
		b := &gbasis{prime: c.prime, nz: nzAtoms(nz), limit: 20000}
		b.build(append([]*Poly(nil), sub...), 60)
		r := b.reduce(g)
		if r.IsZero() {
			return &Result{Status: "proved", Backend: "ideal-membership"}
		}
		if goal.k == FCong {
			// multiply by non-zero facts
			for _, n := range nz {
				if b.reduce(r.Mul(n)).IsZero() {
					return &Result{Status: "proved", Backend: "ideal-membership(cancel)"}
				}
			}
			for i, n := range nz {
				for _, n2 := range nz[i:] {
					if b.steps > 15000 {
						break
					}
					if b.reduce(b.reduce(r.Mul(n)).Mul(n2)).IsZero() {
						return &Result{Status: "proved", Backend: "ideal-membership(cancel)"}
					}
				}
			}
			// 1 in ideal or a nonzero fact in the ideal => contradiction
			for _, n := range append([]*Poly{ConstI(1)}, nz...) {
				if b.reduce(n).IsZero() {
					return &Result{Status: "proved", Backend: "ideal-membership(contradiction)"}
				}
			}
		}
	}
	if goal.k == FFalse && len(nz) > 1 && len(nz) <= 14 {
		// a product of non-zero values is not zero
		b := &gbasis{prime: c.prime, nz: nzAtoms(nz), limit: 20000}
		b.build(append([]*Poly(nil), gens...), 60)
		red := make([]*Poly, len(nz))
		for i, n := range nz {
			red[i] = b.reduce(n)
		}
		for i := range red {
			for j := i; j < len(red) && b.steps < b.limit; j++ {
				q := b.reduce(red[i].Mul(red[j]))
				if q.IsZero() {
					return &Result{Status: "proved", Backend: "ideal-membership(product)"}
				}
				for k := j; k < len(red) && len(red) <= 8 && b.steps < b.limit; k++ {
					if b.reduce(q.Mul(red[k])).IsZero() {
						return &Result{Status: "proved", Backend: "ideal-membership(product)"}
					}
				}
			}
		}
	}
	return &Result{Status: "unknown", Detail: "not in the ideal of the hypotheses: " + c.show(goal)}
}

// fieldRefute shows that the formulas are contradictory by splitting disjunctions and refuting every case.
func (c *Ctx) fieldRefute(fs []*Formula, budget *int) bool {
	if *budget <= 0 {
		return false
	}
	*budget--
	lits := map[string]bool{}
	var ls, ors []*Formula
	var add func(f *Formula) bool
	add = func(f *Formula) bool {
		switch f.k {
		case FTrue:
		case FFalse:
			return true
		case FAnd:
			for _, a := range f.args {
				if add(a) {
					return true
				}
			}
		case FOr:
			ors = append(ors, f)
		default:
			if k := f.Key(); !lits[k] {
				if lits[Not(f).Key()] {
					return true
				}
				lits[k] = true
				ls = append(ls, f)
			}
		}
		return false
	}
	for _, f := range fs {
		if add(f) {
			return true
		}
	}
	for ch := true; ch; {
		ch = false
		todo := ors
		ors = nil
		for _, o := range todo {
			var rest []*Formula
			sat := false
			for _, a := range o.args {
				if a.k != FAnd && a.k != FOr {
					if lits[a.Key()] {
						sat = true
						break
					}
					if lits[Not(a).Key()] {
						continue
					}
				}
				rest = append(rest, a)
			}
			switch {
			case sat:
				ch = true
			case len(rest) == 0:
				return true
			case len(rest) == 1:
				ch = true
				if add(rest[0]) {
					return true
				}
			default:
				if len(rest) != len(o.args) {
					ch = true
				}
				ors = append(ors, &Formula{k: FOr, args: rest})
			}
		}
	}
	if r := c.fieldProve(ls, fFalse); r != nil && r.Status == "proved" {
		return true
	}
	// decide the literals of the disjunctions that follow from the equations
	if len(ors) > 0 {
		b, nz := c.fieldBasis(ls)
		nzr := map[string]bool{}
		for _, n := range nz {
			if g, ok := b.monic(b.reduce(n)); ok {
				nzr[g.p.Key()] = true
			}
		}
		changed := false
		memo := map[string]*Formula{}
		var simp func(f *Formula) *Formula
		simp = func(f *Formula) *Formula {
			switch f.k {
			case FCong:
				if f.m.Cmp(c.prime) != 0 {
					return f
				}
				k := f.Key()
				if r, ok := memo[k]; ok {
					return r
				}
				r := f
				q := b.reduce(f.p)
				if q.IsZero() {
					r = fTrue
				} else if _, isC := q.IsConst(); isC {
					r = fFalse
				} else if g, ok := b.monic(b.radical(q)); ok && nzr[g.p.Key()] {
					r = fFalse
				}
				if r != f {
					changed = true
				}
				memo[k] = r
				return r
			case FNot:
				if a := simp(f.args[0]); a != f.args[0] {
					return Not(a)
				}
			case FAnd, FOr:
				as := make([]*Formula, len(f.args))
				same := true
				for i, a := range f.args {
					as[i] = simp(a)
					same = same && as[i] == a
				}
				if !same {
					if f.k == FAnd {
						return And(as...)
					}
					return Or(as...)
				}
			}
			return f
		}
		h := append([]*Formula(nil), ls...)
		for _, o := range ors {
			h = append(h, simp(o))
		}
		if changed {
			return c.fieldRefute(h, budget)
		}
	}
	// split the smallest disjunction
	best := -1
	for i, o := range ors {
		if c.hasField(o) && (best < 0 || len(o.args) < len(ors[best].args)) {
			best = i
		}
	}
	if best < 0 { // then also the others
		for i, o := range ors {
			if best < 0 || len(o.args) < len(ors[best].args) {
				best = i
			}
		}
	}
	if best < 0 {
		// an equation m*q == 0: one of the factors is zero
		for _, cs := range c.factorCases(ls) {
			if !c.fieldRefute(append(append([]*Formula(nil), ls...), cs), budget) {
				return false
			}
			best = 0
		}
		return best == 0
	}
	rest := append(append([]*Formula(nil), ors[:best]...), ors[best+1:]...)
	for _, a := range ors[best].args {
		h := append(append([]*Formula(nil), ls...), rest...)
		if !c.fieldRefute(append(h, a), budget) {
			return false
		}
	}
	return true
}

func (c *Ctx) fieldCone(gens []*Poly, g *Poly) []*Poly {
	have := map[int]bool{}
	g.atoms(have)
	used := make([]bool, len(gens))
	for ch := true; ch; {
		ch = false
		for i, p := range gens {
			if used[i] {
				continue
			}
			m := map[int]bool{}
			p.atoms(m)
			hit := false
			for id := range m {
				if have[id] {
					hit = true
				}
			}
			if hit {
				used[i] = true
				ch = true
				for id := range m {
					have[id] = true
				}
			}
		}
	}
	var out []*Poly
	for i, p := range gens {
		if used[i] {
			out = append(out, p)
		}
	}
	return out
}

// factorCases: the cases of an equation whose left side has a monomial factor.
func (c *Ctx) factorCases(ls []*Formula) []*Formula {
	b, _ := c.fieldBasis(ls)
	var best *Poly
	for _, g := range b.g {
		m := content(g.p)
		n := len(m.ids)
		if len(g.p.t) > 1 {
			n++
		}
		if n < 2 || len(m.ids) == 0 {
			continue
		}
		if best == nil || len(g.p.t) < len(best.t) {
			best = g.p
		}
	}
	if best == nil {
		return nil
	}
	m := content(best)
	var out []*Formula
	for _, id := range m.ids {
		p := newPoly()
		p.addTerm(mkMono([]int{id}, []*big.Int{bigOne}), bigOne)
		out = append(out, Cong0(p, c.prime))
	}
	if len(best.t) > 1 {
		out = append(out, Cong0(divMono(best, m), c.prime))
	}
	return out
}

func (c *Ctx) fieldBasis(ls []*Formula) (*gbasis, []*Poly) {
	var gens, nz []*Poly
	for _, h := range ls {
		switch {
		case h.k == FCong && h.m.Cmp(c.prime) == 0:
			gens = append(gens, h.p)
		case h.k == FEq:
			gens = append(gens, h.p.Mod(c.prime))
		case h.k == FNot && h.args[0].k == FCong && h.args[0].m.Cmp(c.prime) == 0:
			nz = append(nz, h.args[0].p)
		}
	}
	b := &gbasis{prime: c.prime, nz: nzAtoms(nz), limit: 20000}
	b.build(gens, 60)
	return b, nz
}

// propRefute: contradictory already as propositions over the literals?
func propRefute(fs []*Formula, budget *int) bool {
	if *budget <= 0 {
		return false
	}
	*budget--
	lits := map[string]bool{}
	var ls, ors []*Formula
	var add func(f *Formula) bool
	add = func(f *Formula) bool {
		switch f.k {
		case FTrue:
		case FFalse:
			return true
		case FAnd:
			for _, a := range f.args {
				if add(a) {
					return true
				}
			}
		case FOr:
			ors = append(ors, f)
		default:
			if k := f.Key(); !lits[k] {
				if lits[Not(f).Key()] {
					return true
				}
				lits[k] = true
				ls = append(ls, f)
			}
		}
		return false
	}
	var val func(f *Formula) int // 1 true, -1 false, 0 unknown
	val = func(f *Formula) int {
		switch f.k {
		case FTrue:
			return 1
		case FFalse:
			return -1
		case FAnd, FOr:
			neutral := 1
			if f.k == FOr {
				neutral = -1
			}
			r := neutral
			for _, a := range f.args {
				v := val(a)
				if v == -neutral {
					return v
				}
				if v == 0 {
					r = 0
				}
			}
			return r
		}
		if lits[f.Key()] {
			return 1
		}
		if lits[Not(f).Key()] {
			return -1
		}
		return 0
	}
	for _, f := range fs {
		if add(f) {
			return true
		}
	}
	for ch := true; ch; {
		ch = false
		todo := ors
		ors = nil
		for _, o := range todo {
			var rest []*Formula
			sat := false
			for _, a := range o.args {
				v := val(a)
				if v == 1 {
					sat = true
					break
				}
				if v == 0 {
					rest = append(rest, a)
				}
			}
			switch {
			case sat:
				ch = true
			case len(rest) == 0:
				return true
			case len(rest) == 1:
				ch = true
				if add(rest[0]) {
					return true
				}
			default:
				ch = ch || len(rest) != len(o.args)
				ors = append(ors, &Formula{k: FOr, args: rest})
			}
		}
	}
	best := -1
	for i, o := range ors {
		if best < 0 || len(o.args) < len(ors[best].args) {
			best = i
		}
	}
	if best < 0 {
		return false
	}
	rest := append(append([]*Formula(nil), ors[:best]...), ors[best+1:]...)
	for _, a := range ors[best].args {
		h := append(append([]*Formula(nil), ls...), rest...)
		if !propRefute(append(h, a), budget) {
			return false
		}
	}
	return true
}
