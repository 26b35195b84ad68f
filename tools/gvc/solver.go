package main

import (
	"bytes"
	"context"
	"fmt"
	"math/big"
	"os"
	"os/exec"
	"sort"
	"strings"
	"sync"
	"time"
)

// Result of one proof attempt.
type Result struct {
	Status  string // "proved", "refuted" (solver model), "unknown"
	Backend string
	Time    float64
	Model   map[string]*big.Int // input atoms
	Detail  string
}

type Solver struct {
	c       *Ctx
	timeout time.Duration
	sem     chan struct{}
	cache   map[string]*Result
	mu      sync.Mutex
}

var solverSem = make(chan struct{}, 8)

func haveCmd(n string) bool { _, err := exec.LookPath(n); return err == nil }

var backends = func() [][]string {
	var r [][]string
	if haveCmd("z3-new") {
		r = append(r, []string{"z3-new", "-in"})
	}
	if haveCmd("z3") {
		r = append(r, []string{"z3", "-in"})
	}
	if haveCmd("cvc5") {
		r = append(r, []string{"cvc5", "--lang=smt2", "--produce-models"})
	}
	return r
}()

// ---------------------------------------------------------------- SMT emission

type smtEnc struct {
	c     *Ctx
	monos map[string]*Mono
	order []*Mono
	aux   int
	decls []string
}

func smtNum(n *big.Int) string {
	if n.Sign() < 0 {
		return "(- " + new(big.Int).Neg(n).String() + ")"
	}
	return n.String()
}

func (e *smtEnc) mono(m *Mono) string {
	if _, ok := e.monos[m.key]; !ok {
		e.monos[m.key] = m
		e.order = append(e.order, m)
	}
	return "m_" + strings.NewReplacer("*", "x", "^", "p").Replace(m.key)
}

func (e *smtEnc) poly(p *Poly) string {
	ts := p.sortedTerms()
	if len(ts) == 0 {
		return "0"
	}
	var parts []string
	for _, t := range ts {
		if len(t.m.ids) == 0 {
			parts = append(parts, smtNum(t.c))
			continue
		}
		if t.c.Cmp(bigOne) == 0 {
			parts = append(parts, e.mono(t.m))
		} else {
			parts = append(parts, "(* "+smtNum(t.c)+" "+e.mono(t.m)+")")
		}
	}
	if len(parts) == 1 {
		return parts[0]
	}
	return "(+ " + strings.Join(parts, " ") + ")"
}

// pos: put positive part on one side for nicer numbers
func (e *smtEnc) form(f *Formula) string {
	switch f.k {
	case FTrue:
		return "true"
	case FFalse:
		return "false"
	case FEq:
		return "(= " + e.poly(f.p) + " 0)"
	case FLe:
		return "(<= " + e.poly(f.p) + " 0)"
	case FCong:
		e.aux++
		k := fmt.Sprintf("k_%d", e.aux)
		e.decls = append(e.decls, "(declare-const "+k+" Int)")
		// only sound in positive position (exists); negative handled below
		return "(= " + e.poly(f.p) + " (* " + smtNum(f.m) + " " + k + "))"
	case FNot:
		g := f.args[0]
		if g.k == FCong {
			e.aux++
			k := fmt.Sprintf("k_%d", e.aux)
			r := fmt.Sprintf("r_%d", e.aux)
			e.decls = append(e.decls, "(declare-const "+k+" Int)", "(declare-const "+r+" Int)")
			return "(and (= " + e.poly(g.p) + " (+ " + r + " (* " + smtNum(g.m) + " " + k + "))) (>= " + r + " 1) (<= " + r + " " + smtNum(new(big.Int).Sub(g.m, bigOne)) + "))"
		}
		return "(not " + e.form(g) + ")"
	}
	op := "and"
	if f.k == FOr {
		op = "or"
	}
	var s []string
	for _, a := range f.args {
		s = append(s, e.form(a))
	}
	return "(" + op + " " + strings.Join(s, " ") + ")"
}

// nnf pushes negations to the leaves so that FCong encodings are sound.
func nnf(f *Formula) *Formula {
	switch f.k {
	case FNot:
		g := f.args[0]
		switch g.k {
		case FAnd, FOr:
			return nnf(Not(g))
		}
		return f
	case FAnd, FOr:
		a := make([]*Formula, len(f.args))
		for i := range a {
			a[i] = nnf(f.args[i])
		}
		return &Formula{k: f.k, args: a}
	}
	return f
}

// closure: definitional facts of all atoms reachable from fs.
func (c *Ctx) defFacts(fs []*Formula) []*Formula {
	seen := map[int]bool{}
	var work []int
	add := func(f *Formula) {
		m := map[int]bool{}
		f.atoms(m)
		for id := range m {
			if !seen[id] {
				seen[id] = true
				work = append(work, id)
			}
		}
	}
	for _, f := range fs {
		add(f)
	}
	var ids []int
	for len(work) > 0 {
		id := work[len(work)-1]
		work = work[:len(work)-1]
		ids = append(ids, id)
		for _, f := range c.atoms[id].facts {
			add(f)
		}
	}
	sort.Ints(ids)
	var out []*Formula
	for _, id := range ids {
		out = append(out, c.atoms[id].facts...)
	}
	return out
}

// relevant hypotheses: those sharing atoms (transitively) with the goal.
func (c *Ctx) cone(hyps []*Formula, goal *Formula, depth int) []*Formula {
	have := map[int]bool{}
	goal.atoms(have)
	expand := func() {
		for {
			n := len(have)
			ids := []int{}
			for id := range have {
				ids = append(ids, id)
			}
			for _, id := range ids {
				for _, f := range c.atoms[id].facts {
					f.atoms(have)
				}
			}
			if len(have) == n {
				return
			}
		}
	}
	expand()
	used := make([]bool, len(hyps))
	full := make([]map[int]bool, len(hyps))
	for i, h := range hyps {
		m := map[int]bool{}
		h.atoms(m)
		work := []int{}
		for id := range m {
			work = append(work, id)
		}
		for len(work) > 0 {
			id := work[len(work)-1]
			work = work[:len(work)-1]
			m2 := map[int]bool{}
			for _, f := range c.atoms[id].facts {
				f.atoms(m2)
			}
			for k := range m2 {
				if !m[k] {
					m[k] = true
					work = append(work, k)
				}
			}
		}
		full[i] = m
	}
	for d := 0; d < depth; d++ {
		changed := false
		snap := map[int]bool{}
		for k := range have {
			snap[k] = true
		}
		for i := range hyps {
			if used[i] {
				continue
			}
			m := full[i]
			hit := len(m) == 0
			for id := range m {
				if snap[id] {
					hit = true
				}
			}
			if hit {
				used[i] = true
				changed = true
				for id := range m {
					have[id] = true
				}
			}
		}
		if !changed {
			break
		}
		expand()
	}
	var out []*Formula
	for i, h := range hyps {
		if used[i] {
			out = append(out, h)
		}
	}
	return out
}

// simplify hypotheses with fixed atoms: finds hyps  atom == const and substitutes.
func (c *Ctx) substFixed(fs []*Formula) ([]*Formula, map[int]*big.Int) {
	fixed := map[int]*big.Int{}
	for round := 0; round < 50; round++ {
		var id = -1
		var val *Poly
		for _, f := range fs {
			if f.k == FEq {
				nonconst := 0
				for k := range f.p.t {
					if k != "" {
						nonconst++
					}
				}
				if nonconst == 1 {
					for k, t := range f.p.t {
						if k != "" && len(t.m.ids) == 1 && t.m.exps[0].Cmp(bigOne) == 0 {
							q, r := new(big.Int), new(big.Int)
							q.QuoRem(new(big.Int).Neg(f.p.ConstPart()), t.c, r)
							if r.Sign() == 0 {
								id = t.m.ids[0]
								val = Const(q)
							}
						}
					}
				}
			}
			if id < 0 {
				if a, v := c.residueFixed(f); v != nil {
					id, val = a, Const(v)
				}
			}
			if id >= 0 {
				break
			}
		}
		if id < 0 {
			return fs, fixed
		}
		v, _ := val.IsConst()
		fixed[id] = v
		iv := c.atoms[id].iv
		if iv.lo != nil && v.Cmp(iv.lo) < 0 || iv.hi != nil && v.Cmp(iv.hi) > 0 {
			return []*Formula{fFalse}, fixed
		}
		var out []*Formula
		for _, f := range fs {
			g := substF(f, id, val)
			if g.k == FTrue {
				continue
			}
			out = append(out, g)
		}
		fs = out
	}
	return fs, fixed
}

func substF(f *Formula, id int, q *Poly) *Formula {
	switch f.k {
	case FEq:
		return Eq0(f.p.Subst(id, q))
	case FLe:
		return Le0(f.p.Subst(id, q))
	case FCong:
		return Cong0(f.p.Subst(id, q), f.m)
	case FNot:
		return Not(substF(f.args[0], id, q))
	case FAnd, FOr:
		var a []*Formula
		for _, x := range f.args {
			a = append(a, substF(x, id, q))
		}
		if f.k == FAnd {
			return And(a...)
		}
		return Or(a...)
	}
	return f
}

// smtText builds the query: hyps && defs && not goal.
func (c *Ctx) smtText(fs []*Formula, mccormick bool, getModel bool) (string, []*Mono) {
	e := &smtEnc{c: c, monos: map[string]*Mono{}}
	var asserts []string
	for _, f := range fs {
		f = nnf(f) // no interval simplification here: it would drop the defining facts
		if f.k == FTrue {
			continue
		}
		asserts = append(asserts, e.form(f))
	}
	// nonlinear bounds
	if mccormick {
		base := append([]*Mono(nil), e.order...)
		for _, m := range base {
			if m.degree() != 2 {
				continue
			}
			var x, y int
			if len(m.ids) == 1 {
				x, y = m.ids[0], m.ids[0]
			} else {
				x, y = m.ids[0], m.ids[1]
			}
			px, py := atomPoly(x), atomPoly(y)
			ix, iy := c.atoms[x].iv, c.atoms[y].iv
			var fx, fy []*Poly
			if ix.lo != nil {
				fx = append(fx, px.Sub(Const(ix.lo)))
			}
			if ix.hi != nil {
				fx = append(fx, Const(ix.hi).Sub(px))
			}
			if iy.lo != nil {
				fy = append(fy, py.Sub(Const(iy.lo)))
			}
			if iy.hi != nil {
				fy = append(fy, Const(iy.hi).Sub(py))
			}
			for _, a := range fx {
				for _, b := range fy {
					asserts = append(asserts, e.form(Ge0(a.Mul(b))))
				}
			}
		}
		for _, f := range c.boundProducts(fs, base) {
			asserts = append(asserts, e.form(f))
		}
	}
	var sb strings.Builder
	sb.WriteString("(set-logic ALL)\n")
	if getModel {
		sb.WriteString("(set-option :produce-models true)\n")
	}
	for _, m := range e.order {
		n := e.mono(m)
		sb.WriteString("(declare-const " + n + " Int)\n")
		iv := c.monoIv(m)
		if len(m.ids) == 1 && m.degree() == 1 {
			iv = c.atoms[m.ids[0]].iv
		}
		if iv.lo != nil {
			sb.WriteString("(assert (>= " + n + " " + smtNum(iv.lo) + "))\n")
		}
		if iv.hi != nil {
			sb.WriteString("(assert (<= " + n + " " + smtNum(iv.hi) + "))\n")
		}
	}
	for _, d := range e.decls {
		sb.WriteString(d + "\n")
	}
	for _, a := range asserts {
		sb.WriteString("(assert " + a + ")\n")
	}
	sb.WriteString("(check-sat)\n")
	return sb.String(), e.order
}

func runSolver(ctx context.Context, cmd []string, text string, seconds float64) (string, error) {
	solverSem <- struct{}{}
	defer func() { <-solverSem }()
	if ctx.Err() != nil {
		return "", ctx.Err()
	}
	if p := pools[cmd[0]]; p != nil {
		s, err := p.get()
		if err != nil {
			return "", err
		}
		out, ok := s.query(ctx, text, seconds)
		if ok {
			p.put(s)
		} else {
			s.kill()
		}
		return out, nil
	}
	c2, cancel := context.WithTimeout(ctx, time.Duration((seconds+1)*float64(time.Second)))
	defer cancel()
	args := append([]string(nil), cmd[1:]...)
	if strings.HasPrefix(cmd[0], "z3") {
		args = append(args, fmt.Sprintf("-T:%d", int(seconds)+1), "-memory:3000")
	} else if cmd[0] == "cvc5" {
		args = append(args, fmt.Sprintf("--tlimit=%d", int(seconds*1000)))
	}
	x := exec.CommandContext(c2, cmd[0], args...)
	x.Stdin = strings.NewReader(text)
	var out bytes.Buffer
	x.Stdout = &out
	x.Stderr = &out
	err := x.Run()
	s := out.String()
	return s, err
}

func firstWord(s string) string {
	for _, l := range strings.Split(s, "\n") {
		l = strings.TrimSpace(l)
		if l == "sat" || l == "unsat" || l == "unknown" || l == "timeout" {
			return l
		}
	}
	return "unknown"
}

var dumpN int
var dumpMu sync.Mutex

// checkSat runs the portfolio on (fs). Returns "unsat"/"sat"/"unknown".
func (c *Ctx) checkSat(fs []*Formula, seconds float64, wantModel bool, variants []bool, bes [][]string) (string, string, map[string]*big.Int) {
	fs, fixed := c.substFixed(flatten(fs))
	for _, f := range fs {
		if c.simp(f).k == FFalse {
			return "unsat", "simplifier", nil
		}
	}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	type ans struct {
		st, be string
		model  map[string]*big.Int
	}
	ch := make(chan ans, 16)
	n := 0
	for _, mc := range variants {
		text, order := c.smtText(fs, mc, wantModel)
		if os.Getenv("GVC_DUMP") != "" {
			dumpMu.Lock()
			dumpN++
			os.WriteFile(fmt.Sprintf("%s/q%04d.smt2", os.Getenv("GVC_DUMP"), dumpN), []byte(text), 0644)
			dumpMu.Unlock()
		}
		var gv []string
		if wantModel {
			for _, m := range order {
				if len(m.ids) == 1 && m.degree() == 1 && c.atoms[m.ids[0]].kind == AInput {
					gv = append(gv, "m_"+m.key)
				}
			}
		}
		full := text
		if len(gv) > 0 {
			full += "(get-value (" + strings.Join(gv, " ") + "))\n"
		}
		for _, be := range bes {
			n++
			go func(be []string, full string) {
				out, _ := runSolver(ctx, be, full, seconds)
				st := firstWord(out)
				var model map[string]*big.Int
				if st == "sat" && wantModel {
					model = c.parseModel(out)
					for id, v := range fixed {
						model[c.atoms[id].name] = v
					}
				}
				ch <- ans{st, be[0], model}
			}(be, full)
		}
	}
	res := ans{"unknown", "", nil}
	for i := 0; i < n; i++ {
		a := <-ch
		if a.st == "unsat" || a.st == "sat" {
			res = a
			break
		}
	}
	cancel()
	return res.st, res.be, res.model
}

func (c *Ctx) parseModel(out string) map[string]*big.Int {
	model := map[string]*big.Int{}
	i := strings.Index(out, "((")
	if i < 0 {
		return model
	}
	s := out[i:]
	s = strings.NewReplacer("(", " ( ", ")", " ) ").Replace(s)
	tk := strings.Fields(s)
	for j := 0; j < len(tk); j++ {
		if strings.HasPrefix(tk[j], "m_") && j+1 < len(tk) {
			var id int
			fmt.Sscanf(tk[j][2:], "%d", &id)
			neg := false
			k := j + 1
			for k < len(tk) && (tk[k] == "(" || tk[k] == "-") {
				if tk[k] == "-" {
					neg = true
				}
				k++
			}
			if k < len(tk) {
				v, ok := new(big.Int).SetString(tk[k], 10)
				if ok && id < len(c.atoms) {
					if neg {
						v.Neg(v)
					}
					model[c.atoms[id].name] = v
				}
			}
		}
	}
	return model
}

func flatten(fs []*Formula) []*Formula {
	var out []*Formula
	for _, f := range fs {
		if f.k == FAnd {
			out = append(out, flatten(f.args)...)
		} else if f.k != FTrue {
			out = append(out, f)
		}
	}
	return out
}

// ---------------------------------------------------------------- prove

type Query struct {
	hyps []*Formula
	goal *Formula
}

// Prove attempts to establish hyps |= goal.
func (c *Ctx) Prove(hyps []*Formula, goal *Formula, seconds float64) *Result {
	t0 := time.Now()
	r := c.prove(hyps, goal, seconds)
	r.Time = time.Since(t0).Seconds()
	return r
}

func (c *Ctx) prove(hyps []*Formula, goal *Formula, seconds float64) *Result {
	hyps = flatten(hyps)
	goal = c.simp(goal)
	if goal.k == FTrue {
		return &Result{Status: "proved", Backend: "simplifier"}
	}
	for _, h := range hyps {
		if c.simp(h).k == FFalse {
			return &Result{Status: "proved", Backend: "simplifier(contradiction)"}
		}
	}
	gk := goal.Key()
	for _, h := range hyps {
		if h.Key() == gk {
			return &Result{Status: "proved", Backend: "simplifier(hypothesis)"}
		}
	}
	if goal.k == FAnd {
		res := &Result{Status: "proved"}
		be := map[string]bool{}
		for _, g := range goal.args {
			r := c.prove(hyps, g, seconds)
			if r.Status != "proved" {
				return r
			}
			be[r.Backend] = true
		}
		var ks []string
		for k := range be {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		res.Backend = strings.Join(ks, "+")
		return res
	}
	if c.prime != nil && c.hasField(goal) && goal.k != FAnd {
		budget := 400
		if propRefute(append(append([]*Formula(nil), hyps...), Not(goal)), &budget) {
			return &Result{Status: "proved", Backend: "simplifier(hypothesis)"}
		}
	}
	if goal.k == FOr && c.hasField(goal) {
		// a || b : assume the negation of all but one disjunct
		for i := range goal.args {
			h2 := append([]*Formula(nil), hyps...)
			for j, x := range goal.args {
				if j != i {
					h2 = append(h2, Not(x))
				}
			}
			r := c.prove(h2, goal.args[i], seconds)
			if r.Status == "proved" {
				return r
			}
		}
		if c.prime != nil {
			budget := 200
			if c.fieldRefute(append(append([]*Formula(nil), hyps...), Not(goal)), &budget) {
				return &Result{Status: "proved", Backend: "ideal-membership(cases)"}
			}
		}
		return &Result{Status: "unknown", Detail: "disjunction over field terms: " + c.show(goal)}
	}
	if c.prime != nil {
		if r := c.fieldProve(hyps, goal); r != nil {
			if r.Status == "proved" {
				return r
			}
			if goal.k == FCong || goal.k == FNot || goal.k == FFalse {
				ors := false
				for _, h := range hyps {
					ors = ors || h.k == FOr && c.hasField(h)
				}
				budget := 100
				if ors && (goal.k == FFalse || c.onlyField(goal)) && c.fieldRefute(append(append([]*Formula(nil), hyps...), Not(goal)), &budget) {
					return &Result{Status: "proved", Backend: "ideal-membership(cases)"}
				}
			}
			if c.onlyField(goal) && !hasInt(c, hyps) {
				return r
			}
		}
	}
	if c.prime != nil && goal.k == FFalse {
		// equations between field elements may be hidden in implications
		ors := false
		for _, h := range hyps {
			ors = ors || h.k == FOr && c.hasField(h)
		}
		budget := 100
		if ors && c.fieldRefute(hyps, &budget) {
			return &Result{Status: "proved", Backend: "ideal-membership(cases)"}
		}
	}
	if goal.k == FCong {
		if r := c.congProve(hyps, goal, seconds/2); r != nil {
			return r
		}
	}
	// linear integer arithmetic
	ng := Not(goal)
	defs1 := func(hs []*Formula) []*Formula {
		fs := append(append([]*Formula(nil), hs...), ng)
		return append(fs, c.defFacts(fs)...)
	}
	short := seconds / 6
	if short > 5 {
		short = 5
	}
	if short < 1 {
		short = 1
	}
	h1 := c.cone(hyps, goal, 1)
	st, be, model := c.checkSat(defs1(h1), short, false, []bool{false}, backends[:1])
	if st == "unsat" {
		return &Result{Status: "proved", Backend: be}
	}
	hall := c.cone(hyps, goal, 50)
	st, be, model = c.checkSat(defs1(hall), seconds, true, []bool{false, true}, backends)
	if st == "unsat" {
		return &Result{Status: "proved", Backend: be}
	}
	if st == "sat" {
		// The linear abstraction has a model; try with nonlinear lemma only.
		st2, be2, m2 := c.checkSat(defs1(hall), seconds, true, []bool{true}, backends)
		if st2 == "unsat" {
			return &Result{Status: "proved", Backend: be2}
		}
		if m2 != nil {
			model = m2
		}
		// a model of all hypotheses (the cone may have dropped some)
		st3, be3, m3 := c.checkSat(defs1(hyps), seconds, true, []bool{false}, backends)
		if st3 == "unsat" {
			return &Result{Status: "proved", Backend: be3}
		}
		if m3 != nil {
			model = m3
		}
		return &Result{Status: "refuted", Backend: be, Model: model, Detail: c.show(goal)}
	}
	return &Result{Status: "unknown", Detail: "solvers gave no answer within the limit on: " + c.show(goal)}
}

// Infeasible checks quickly whether hyps are contradictory (sound "true" only).
func (c *Ctx) Infeasible(hyps []*Formula, extra *Formula) bool {
	extra = c.simp(extra)
	if extra.k == FFalse {
		return true
	}
	if extra.k == FTrue {
		return false
	}
	hyps = flatten(hyps)
	nk := Not(extra).Key()
	ek := extra.Key()
	for _, h := range hyps {
		k := h.Key()
		if k == nk {
			return true
		}
		if k == ek {
			return false
		}
	}
	if c.prime != nil {
		if r := c.fieldProve(append(hyps, extra), fFalse); r != nil && r.Status == "proved" {
			return true
		}
		if c.onlyField(extra) {
			return false
		}
	}
	h := c.cone(hyps, extra, 50)
	fs := append(append([]*Formula(nil), h...), extra)
	fs = append(fs, c.defFacts(fs)...)
	st, _, _ := c.checkSat(fs, 2, false, []bool{false}, backends[:1])
	return st == "unsat"
}

func (c *Ctx) hasField(f *Formula) bool {
	if f.k == FCong {
		return true
	}
	for _, a := range f.args {
		if c.hasField(a) {
			return true
		}
	}
	return false
}

func (c *Ctx) onlyField(f *Formula) bool {
	switch f.k {
	case FCong:
		m := map[int]bool{}
		f.p.atoms(m)
		for id := range m {
			if !c.atoms[id].field {
				return false
			}
		}
		return true
	case FEq, FLe:
		return false
	}
	for _, a := range f.args {
		if !c.onlyField(a) {
			return false
		}
	}
	return true
}

func hasInt(c *Ctx, hs []*Formula) bool {
	for _, h := range hs {
		if !c.onlyField(h) {
			return true
		}
	}
	return false
}

// boundProducts multiplies linear hypotheses by the bounds of the atoms their
// atoms are multiplied with (reformulation-linearisation).
func (c *Ctx) boundProducts(fs []*Formula, monos []*Mono) []*Formula {
	partner := map[int]map[int]bool{}
	add := func(x, y int) {
		if partner[x] == nil {
			partner[x] = map[int]bool{}
		}
		partner[x][y] = true
	}
	for _, m := range monos {
		if m.degree() == 2 && len(m.ids) == 2 {
			add(m.ids[0], m.ids[1])
			add(m.ids[1], m.ids[0])
		}
	}
	if len(partner) == 0 {
		return nil
	}
	var out []*Formula
	for _, f := range fs {
		if f.k != FLe && f.k != FEq || polyDegree(f.p) != 1 {
			continue
		}
		in := map[int]bool{}
		f.p.atoms(in)
		if len(in) < 2 || len(in) > 12 {
			continue
		}
		cnt := map[int]int{}
		for id := range in {
			for y := range partner[id] {
				cnt[y]++
			}
		}
		var ys []int
		for y, n := range cnt {
			if n == len(in) {
				ys = append(ys, y)
			}
		}
		sort.Ints(ys)
		for _, y := range ys {
			py, iv := atomPoly(y), c.atoms[y].iv
			if f.k == FEq {
				out = append(out, Eq0(f.p.Mul(py)))
				continue
			}
			if iv.lo != nil {
				out = append(out, Le0(f.p.Mul(py.Sub(Const(iv.lo)))))
			}
			if iv.hi != nil {
				out = append(out, Le0(f.p.Mul(Const(iv.hi).Sub(py))))
			}
			if len(out) > 100 {
				return out
			}
		}
	}
	return out
}

func polyDegree(p *Poly) int {
	d := 0
	for _, t := range p.t {
		if k := t.m.degree(); k > d {
			d = k
		}
	}
	return d
}

// residueFixed: in an equation a*x + g*(...) + k == 0 with a, g coprime the
// residue of x modulo g is known; when the range of x is below g that is its
// value (a value outside the range shows a contradiction).
func (c *Ctx) residueFixed(f *Formula) (int, *big.Int) {
	if f.k != FEq || len(f.p.t) > 8 {
		return -1, nil
	}
	for k, t := range f.p.t {
		if len(t.m.ids) != 1 || t.m.exps[0].Cmp(bigOne) != 0 {
			continue
		}
		iv := c.atoms[t.m.ids[0]].iv
		if iv.lo == nil || iv.hi == nil {
			continue
		}
		g, n := new(big.Int), 0
		for k2, t2 := range f.p.t {
			if k2 != k && t2.m.degree() > 0 {
				g.GCD(nil, nil, g, new(big.Int).Abs(t2.c))
				n++
			}
		}
		if n == 0 || g.Cmp(new(big.Int).Sub(iv.hi, iv.lo)) <= 0 {
			continue
		}
		inv := new(big.Int).ModInverse(t.c, g)
		if inv == nil {
			continue
		}
		v := new(big.Int).Neg(f.p.ConstPart())
		v.Mod(v.Mul(v, inv), g) // x == v mod g; smallest such value >= lo
		v.Sub(v, iv.lo).Mod(v, g).Add(v, iv.lo)
		return t.m.ids[0], v
	}
	return -1, nil
}
