package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type Verifier struct {
	l              *Loader
	db             *SpecDB
	mu             sync.Mutex
	gcache         map[string]*Cell
	opaque         map[string]types.Type
	tags           map[string]int
	timeout        float64
	abstractInline map[string]bool
	memHigh        atomic.Bool  // set by watchMemory
	deadline       atomic.Int64 // unix nanoseconds; 0: none
}

// Job is the verification of one contract in one variant.
type Job struct {
	layer      int
	abstract   map[string]string
	havoc      map[string]map[int]bool
	trivial    int64
	exits      int64       // feasible paths that reach the end of the body
	mustPanic  *Obligation // owed if there are none
	feas       int64
	inlined    map[string]bool
	used       map[string]*Contract
	noContract map[string]bool
	root       *Contract
	variant    string
	assumed    map[string]bool
	mu         sync.Mutex
}

// havocSet: ids of the cells modified by the loop identified by key (snapshot).
func (j *Job) havocSet(key string) map[int]bool {
	j.mu.Lock()
	defer j.mu.Unlock()
	r := map[int]bool{}
	for k := range j.havoc[key] {
		r[k] = true
	}
	return r
}

func (j *Job) growHavoc(key string, hs map[int]bool) {
	j.mu.Lock()
	defer j.mu.Unlock()
	m := j.havoc[key]
	if m == nil {
		m = map[int]bool{}
		j.havoc[key] = m
	}
	for k := range hs {
		m[k] = true
	}
}

func (j *Job) noteUsed(key string, c *Contract) {
	j.mu.Lock()
	defer j.mu.Unlock()
	j.used[key] = c
}

func (j *Job) noteAssumed(s string) {
	j.mu.Lock()
	defer j.mu.Unlock()
	if j.assumed == nil {
		j.assumed = map[string]bool{}
	}
	j.assumed[s] = true
}

func (j *Job) noteInlined(k string) {
	if j != nil && j.inlined != nil {
		j.mu.Lock()
		defer j.mu.Unlock()
		j.inlined[k] = true
	}
}

func (v *Verifier) contractFor(key string, j *Job) *Contract {
	if j == nil || j.noContract[key] {
		return nil
	}
	for _, c := range v.db.contracts[key] {
		if c.inline || (c.layer != 0 && c.layer != j.layer) || len(c.instance) > 0 {
			continue
		}
		if j.root == c && !c.hasRec() {
			continue
		}
		j.noteUsed(key, c)
		return c
	}
	return nil
}

func (c *Contract) hasRec() bool { return false }

func (v *Verifier) loopContract(key string, j *Job) *Contract {
	if j == nil || j.noContract["loops:"+key] {
		return nil
	}
	if j.root != nil && j.root.key == key {
		if len(j.root.loops) > 0 {
			return j.root
		}
		return nil
	}
	for _, c := range v.db.contracts[key] {
		if (c.layer == 0 || c.layer == j.layer) && len(c.loops) > 0 {
			return c
		}
	}
	return nil
}

func (v *Verifier) external(key string) func(*Exec, Val, []Val) []Val { return externals[key] }

var externals = map[string]func(*Exec, Val, []Val) []Val{}

func (v *Verifier) mayInline(p *Pkg, key string) bool {
	return p.repo || stdWithBodies[p.path]
}

func (v *Verifier) opaqueFuncOK(x *Exec, f FuncV) bool { return false }

func (v *Verifier) opaqueType(name string) types.Type {
	v.mu.Lock()
	defer v.mu.Unlock()
	if t, ok := v.opaque[name]; ok {
		return t
	}
	t := types.NewNamed(types.NewTypeName(token.NoPos, nil, "Any_"+name, nil), types.NewInterfaceType(nil, nil).Complete(), nil)
	v.opaque[name] = t
	return t
}

func (v *Verifier) typeTag(t types.Type) int {
	v.mu.Lock()
	defer v.mu.Unlock()
	k := t.String()
	if n, ok := v.tags[k]; ok {
		return n
	}
	v.tags[k] = len(v.tags) + 1
	return v.tags[k]
}

// touchesAbstract: methods of an abstract type (and only those) work on its representation.
func (x *Exec) touchesAbstract(fn *types.Func) bool {
	sig := fn.Type().(*types.Signature)
	if r := sig.Recv(); r != nil {
		t := types.Unalias(r.Type())
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
		_, ok := x.abstractKind(t)
		return ok && !x.v.abstractInline[funcKey(fn)]
	}
	return false
}

// ---------------------------------------------------------------- globals

func (v *Verifier) newExec(j *Job) *Exec {
	c := NewCtx()
	if v.db.prime != nil && j != nil && (j.layer == 2 || j.root != nil && j.root.vlayer != 0) {
		c.prime = v.db.prime
	}
	return &Exec{v: v, job: j, c: c, globals: map[*types.Var]*Cell{}, dynVals: map[string]Val{}, cellByID: map[int]*Cell{}, maps: map[int]*MapObj{}, work: nil}
}

func (v *Verifier) globalInit(x *Exec, g *types.Var) *Cell {
	key := fmt.Sprintf("%d|%s.%s", x.job.layer, g.Pkg().Path(), g.Name())
	v.mu.Lock()
	c, ok := v.gcache[key]
	v.mu.Unlock()
	if !ok {
		c = v.globalEval(x, g)
		if x.job.layer == 2 {
			v.toAbstract(x, c, map[*Cell]bool{})
		}
		v.mu.Lock()
		v.gcache[key] = c
		v.mu.Unlock()
	}
	return x.cloneCell(c, map[*Cell]*Cell{})
}

func (v *Verifier) globalEval(x *Exec, g *types.Var) *Cell {
	p := v.l.pkgs[g.Pkg().Path()]
	if p == nil {
		unsupported("package %s not loaded", g.Pkg().Path())
	}
	sub := v.newExec(&Job{layer: 1, havoc: map[string]map[int]bool{}, inlined: map[string]bool{}, used: map[string]*Contract{}})
	sub.concrete = true
	init := p.inits[g]
	if init == nil {
		return sub.newCell(g.Type(), g.Name())
	}
	fr := &Frame{pkg: p, name: "init " + g.Name(), vars: map[types.Object]*Cell{}}
	var val Val
	var t types.Type
	if init.n < 0 {
		val = sub.eval(fr, init.rhs)
		t = sub.typeOf(fr, init.rhs)
	} else {
		rs := sub.rhs(fr, []ast.Expr{init.rhs}, len(init.lhs))
		val, t = rs[init.n].v, rs[init.n].t
	}
	c := sub.newCell(g.Type(), g.Name())
	sub.store(c, sub.convertTo(val, t, g.Type()))
	return c
}

// toAbstract rewrites representation cells of abstract types to abstract values.
func (v *Verifier) toAbstract(x *Exec, c *Cell, seen map[*Cell]bool) {
	if c == nil || seen[c] {
		return
	}
	seen[c] = true
	if k, ok := v.db.abstract[typeKey(c.typ)]; ok && k == "field" && c.elems != nil {
		r := newPoly()
		i := 0
		c.scalars(func(w *Cell) {
			r = r.Add(w.v.(IntV).p.Scale(pow2(uint(64 * i))))
			i++
		})
		if k, isC := r.IsConst(); !isC || k.Sign() < 0 || k.Cmp(new(big.Int).Sub(pow2(256), v.db.prime)) >= 0 {
			unsupported("the representation of %s is not a reduced constant", c.name)
		}
		rinv := new(big.Int).ModInverse(pow2(256), v.db.prime)
		c.v = FEV{r.Scale(rinv).Mod(v.db.prime)}
		c.elems = nil
		return
	}
	for _, e := range c.elems {
		v.toAbstract(x, e, seen)
	}
	switch w := c.v.(type) {
	case PtrV:
		v.toAbstract(x, w.c, seen)
	case SliceV:
		v.toAbstract(x, w.arr, seen)
	case IfaceV:
		if cv, ok := w.v.(CompV); ok {
			v.toAbstract(x, cv.c, seen)
			if cv.c.elems == nil {
				w.v = cv.c.v
				c.v = w
			}
		}
		if pv, ok := w.v.(PtrV); ok {
			v.toAbstract(x, pv.c, seen)
		}
	}
}

func (v *Verifier) constAbstract(x *Exec, fr *Frame, e *ast.CompositeLit, t types.Type) Val {
	sub := v.newExec(&Job{layer: 1, havoc: map[string]map[int]bool{}, inlined: map[string]bool{}, used: map[string]*Contract{}})
	sub.concrete = true
	val := sub.compositeLit(fr, e, t)
	c := val.(CompV).c
	v.toAbstract(x, c, map[*Cell]bool{})
	return c.v
}

func (x *Exec) cloneCell(c *Cell, m map[*Cell]*Cell) *Cell {
	if c == nil {
		return nil
	}
	if n, ok := m[c]; ok {
		return n
	}
	n := &Cell{typ: c.typ, name: c.name}
	x.register(n)
	m[c] = n
	if c.elems != nil {
		n.elems = make([]*Cell, len(c.elems))
		for i, e := range c.elems {
			n.elems[i] = x.cloneCell(e, m)
		}
	}
	switch w := c.v.(type) {
	case PtrV:
		n.v = PtrV{x.cloneCell(w.c, m)}
	case SliceV:
		if w.arr != nil {
			w.arr = x.cloneCell(w.arr, m)
		}
		n.v = w
	case IfaceV:
		if p, ok := w.v.(PtrV); ok {
			w.v = PtrV{x.cloneCell(p.c, m)}
		}
		if p, ok := w.v.(CompV); ok {
			w.v = CompV{x.cloneCell(p.c, m)}
		}
		n.v = w
	case IntV:
		if _, ok := w.p.IsConst(); !ok {
			unsupported("package variable %s has a non-constant initial value", c.name)
		}
		n.v = w
	default:
		n.v = c.v
	}
	return n
}

// ---------------------------------------------------------------- contracts at call sites

func (x *Exec) bindNames(ct *Contract, recv Val, args []Val) map[string]any {
	names := map[string]any{}
	i := 0
	if ct.hasRecv {
		names[ct.params[0]] = recv
		i = 1
	}
	if len(ct.params)-i != len(args) {
		unsupported("contract %s names %d parameters, function has %d", ct.key, len(ct.params)-i, len(args))
	}
	for k, a := range args {
		names[ct.params[i+k]] = a
	}
	return names
}

func (v *Verifier) ctPkg(ct *Contract) *Pkg {
	if p := v.l.pkgs[ct.pkg]; p != nil {
		return p
	}
	return nil
}

func (x *Exec) letNames(env *SpecEnv, ct *Contract) {
	for _, l := range ct.lets {
		x.quiet++
		env.names[l.name] = env.val(l.c.e)
		x.quiet--
	}
}

func (x *Exec) applyContract(ct *Contract, fn *types.Func, recv Val, args []Val, targs []types.Type, recvT types.Type) []Val {
	env := &SpecEnv{x: x, names: x.bindNames(ct, recv, args), pkg: x.v.ctPkg(ct)}
	if osig := fn.Origin().Type().(*types.Signature); osig.TypeParams() != nil || osig.RecvTypeParams() != nil {
		x.tryTargs(env, fn, targs, recv, recvT)
	}
	where := shortKey(ct.key)
	// implicit precondition: pointer arguments are non-nil and do not overlap partially
	var ptrs []*Cell
	for _, p := range ct.params {
		if pv, ok := env.names[p].(PtrV); ok {
			if pv.c == nil {
				if !ct.nilable[p] {
					x.check(fFalse, "requires", where+": argument "+p+" is not nil")
				}
				continue
			}
			ptrs = append(ptrs, pv.c)
		}
		if nv, ok := env.names[p].(NilV); ok && !ct.nilable[p] {
			_ = nv
		}
	}
	for i := range ptrs {
		for j := i + 1; j < len(ptrs); j++ {
			if ptrs[i] == ptrs[j] {
				continue
			}
			m := map[*Cell]bool{}
			ptrs[i].scalars(func(c *Cell) { m[c] = true })
			ptrs[j].scalars(func(c *Cell) {
				if m[c] {
					unsupported("partially overlapping arguments to %s", where)
				}
			})
		}
	}
	for _, na := range ct.noalias {
		a, ok1 := env.names[na[0]].(PtrV)
		b, ok2 := env.names[na[1]].(PtrV)
		if ok1 && ok2 && a.c != nil && a.c == b.c {
			x.check(fFalse, "requires", fmt.Sprintf("%s: %s and %s must not alias", where, na[0], na[1]))
		}
	}
	if ct.alias == "none" {
		for i := range ptrs {
			for j := i + 1; j < len(ptrs); j++ {
				if ptrs[i] == ptrs[j] {
					x.check(fFalse, "requires", where+": arguments must not alias")
				}
			}
		}
	}
	x.letNames(env, ct)
	for _, ed := range ct.enums {
		ee, err := parser.ParseExpr(ed.name)
		if err != nil {
			unsupported("enum %s", ed.name)
		}
		p := env.intE(ee)
		f := And(Ge0(p.Sub(ConstI(ed.lo))), Le(p, ConstI(ed.hi)))
		x.emit("requires", fmt.Sprintf("%s: %d <= %s <= %d", where, ed.lo, ed.name, ed.hi), f)
		x.assume(f)
	}
	for _, c := range ct.requires {
		if ct.mentionsAny(c) {
			unsupported("%s requires a property of arbitrary elements", where)
		}
		f := x.specGoal(env, c)
		x.emit("requires", where+": "+c.text, f)
		x.assume(f)
	}
	if ct.panics != nil {
		f := x.specBool(env, *ct.panics)
		x.check(Not(f), "callee-panics", where+" panics if "+ct.panics.text)
	}
	if ct.panicsIf != nil {
		x.univ = true
		f := x.specBool(env, *ct.panicsIf)
		x.univ = false
		// a return of the callee says nothing about f
		goal := Not(f)
		if pf := x.panicClause(); pf != nil {
			goal = Or(goal, pf)
		}
		x.emit("callee-panics", where+" may panic if "+ct.panicsIf.text, goal)
	}
	if ct.maypanic {
		unsupported("call of %s, which may panic", where)
	}
	// snapshot & havoc
	env.old = map[*Cell]Val{}
	var mod []*Cell
	for _, m := range ct.modifies {
		x.quiet++
		cs := env.locs(m.e)
		x.quiet--
		mod = append(mod, cs...)
	}
	inMod := map[*Cell]bool{}
	for _, m := range mod {
		m.scalars(func(c *Cell) {
			if _, ok := env.old[c]; !ok {
				env.old[c] = c.v
				if c.mobj != nil {
					env.old[c] = snapMap(c.mobj)
				}
			}
			inMod[c] = true
		})
	}
	x.fresh++
	tag := fmt.Sprintf("%s@%d", fn.Name(), x.fresh)
	// results
	sig := fn.Type().(*types.Signature)
	var results []Val
	// assignments determined by the postcondition
	assigned := map[*Cell]bool{}
	resSet := map[string]Val{}
	type asg struct{ lhs, rhs ast.Expr }
	usedClause := map[int]bool{}
	var later []Clause
	resolveAssign := func(pre bool) {
		for i, c := range ct.ensures {
			if usedClause[i] {
				continue
			}
			if ct.mentionsAny(c) {
				usedClause[i] = true
				later = append(later, c)
				continue
			}
			ok := true
			for _, a := range c.ante {
				if pre {
					ok = false // decided after results exist
					break
				}
				x.quiet++
				f := env.boolE(a)
				x.quiet--
				if !x.fork(f, "case "+c.text) {
					ok = false
					usedClause[i] = true
					break
				}
			}
			if !ok {
				continue
			}
			be, isB := ast.Unparen(c.e).(*ast.BinaryExpr)
			if ce, isC := ast.Unparen(c.e).(*ast.CallExpr); isC && len(ce.Args) == 2 {
				// same(result, E) determines a result of interface type
				f, isF := ce.Fun.(*ast.Ident)
				r, isR := ce.Args[0].(*ast.Ident)
				if isF && isR && f.Name == "same" {
					for k, n := range ct.results {
						if n == r.Name && types.IsInterface(sig.Results().At(k).Type()) {
							be, isB = &ast.BinaryExpr{X: r, Op: token.EQL, Y: ce.Args[1]}, true
						}
					}
				}
			}
			if !isB || be.Op != token.EQL {
				continue
			}
			lhs := ast.Unparen(be.X)
			if !x.pureOld(be.Y, ct, env) {
				continue
			}
			// result == E
			if id, isId := lhs.(*ast.Ident); isId {
				for k, r := range ct.results {
					if r == id.Name {
						if _, done := resSet[r]; !done {
							x.quiet++
							val := env.ev(be.Y)
							if cc, isC := val.(*Cell); isC {
								val = x.load(cc)
							}
							x.quiet--
							rt := sig.Results().At(k).Type()
							if v2, okv := x.coerce(val, rt); okv {
								resSet[r] = v2
								env.names[r] = v2
								usedClause[i] = true
							}
						}
					}
				}
				continue
			}
			ce, isCall := lhs.(*ast.CallExpr)
			if !isCall || len(ce.Args) != 1 {
				continue
			}
			fnm, _ := ce.Fun.(*ast.Ident)
			if fnm == nil {
				continue
			}
			switch fnm.Name {
			case "fe", "U", "big":
			default:
				continue
			}
			// big(result) == E for a freshly allocated result
			if id, isId := ast.Unparen(ce.Args[0]).(*ast.Ident); isId {
				handled := false
				for k, r := range ct.results {
					if r != id.Name || k >= sig.Results().Len() {
						continue
					}
					if _, done := resSet[r]; done {
						continue
					}
					if _, pend := env.names[r].(OpaqueV); !pend {
						continue
					}
					handled = true
					if fnm.Name == "big" && isBigPtr(sig.Results().At(k).Type()) && ct.freshResult(r) {
						x.quiet++
						p := env.intE(be.Y)
						x.quiet--
						nc := x.newCell(sig.Results().At(k).Type().(*types.Pointer).Elem(), tag+"."+r)
						nc.v = BigV{p}
						resSet[r] = PtrV{nc}
						env.names[r] = PtrV{nc}
						usedClause[i] = true
					}
				}
				if handled {
					continue
				}
			}
			x.quiet++
			lv := env.ev(ce.Args[0])
			x.quiet--
			var cell *Cell
			switch l := lv.(type) {
			case PtrV:
				cell = l.c
			case CompV:
				cell = l.c
			case *Cell:
				cell = l
				if p, isP := x.load(l).(PtrV); isP && l.elems == nil {
					cell = p.c
				}
			}
			if cell == nil {
				continue
			}
			all := true
			already := false
			cell.scalars(func(s *Cell) {
				if !inMod[s] {
					all = false
				}
				if assigned[s] {
					already = true
				}
			})
			if !all || already {
				continue
			}
			switch fnm.Name {
			case "fe":
				if k, isAbs := x.abstractKind(cell.typ); !isAbs || k != "field" {
					continue
				}
				x.quiet++
				rv := env.val(be.Y)
				x.quiet--
				var p *Poly
				switch r := rv.(type) {
				case FEV:
					p = r.p
				case IntV:
					p = r.p
				default:
					continue
				}
				x.written(cell)
				cell.v = FEV{x.feName(p, tag)}
				assigned[cell] = true
				usedClause[i] = true
			case "big":
				if cell.elems != nil {
					continue
				}
				x.quiet++
				p := env.intE(be.Y)
				x.quiet--
				x.written(cell)
				cell.v = BigV{p}
				assigned[cell] = true
				usedClause[i] = true
			case "U":
				x.quiet++
				p := env.intE(be.Y)
				x.quiet--
				var ws []*Cell
				cell.scalars(func(s *Cell) { ws = append(ws, s) })
				for _, w := range ws {
					if _, isI := w.v.(IntV); !isI {
						ws = nil
						break
					}
				}
				if ws == nil {
					continue
				}
				hi := new(big.Int).Sub(pow2(uint(64*len(ws))), bigOne)
				x.assume(And(Ge0(p), Le(p, Const(hi))))
				x.storeWords(ws, p)
				for _, w := range ws {
					assigned[w] = true
				}
				usedClause[i] = true
			}
		}
	}
	// result names must exist before other clauses are evaluated; first try pure assignments
	for _, r := range ct.results {
		env.names[r] = OpaqueV{"pending"}
	}
	resolveAssignResults := func() {
		for k := 0; k < sig.Results().Len(); k++ {
			rt := sig.Results().At(k).Type()
			rt = x.instResult(fn, rt, targs, recvT, recv)
			name := fmt.Sprintf("r%d", k)
			if k < len(ct.results) {
				name = ct.results[k]
			}
			if v, ok := resSet[name]; ok {
				results = append(results, v)
				continue
			}
			v := x.symResult(rt, tag+"."+name)
			results = append(results, v)
			if k < len(ct.results) {
				env.names[name] = v
			}
		}
	}
	// unassigned modified cells become unknown first (so that later clauses see fresh values)
	for _, m := range mod {
		m.scalars(func(c *Cell) {
			if _, isPtr := c.v.(PtrV); isPtr {
				unsupported("contract %s modifies pointer field %s", where, c.name)
			}
			if c.mobj != nil {
				x.mapHavoc(c.mobj, tag+"."+c.name)
				return
			}
			x.written(c)
			if s := c.sq(); s != nil {
				x.arrWritten(c)
				c.v = SeqV{newSeq(x.freshName(tag+"."+c.name), s.elem)}
				return
			}
			c.v = x.symScalar(c.typ, tag+"."+c.name)
		})
	}
	resolveAssign(true)
	resolveAssignResults()
	for _, r := range results {
		if cv, ok := r.(CompV); ok {
			cv.c.scalars(func(s *Cell) { inMod[s] = true })
		}
	}
	resolveAssign(false)
	for k := range results {
		if k < len(ct.results) {
			if v, ok := resSet[ct.results[k]]; ok {
				results[k] = v
			}
		}
	}
	for i, c := range ct.ensures {
		if !usedClause[i] && x.ptrDef(env, c) {
			usedClause[i] = true
		}
	}
	for i, c := range ct.ensures {
		if usedClause[i] {
			continue
		}
		x.assumeSpec(env, c)
	}
	// clauses about arbitrary elements hold for the arbitrary elements of the
	// calling contract, and clauses about the arbitrary key K at the keys it names
	x.atAnys(env, ct, later, func() {
		for _, c := range later {
			x.assumeSpec(env, c)
		}
	})
	if x.specEnv != nil && x.root != nil && x.root.spec != nil {
		for _, kc := range x.root.spec.keys {
			x.quiet++
			key := x.specEnv.val(kc.e)
			x.quiet--
			if cc, ok := key.(*Cell); ok {
				key = x.load(cc)
			}
			x.keys = append(x.keys, key)
			env.names["K"] = key
			for _, c := range ct.ensures {
				if !c.mentions([]string{"K"}) {
					continue
				}
				x.atAnys(env, ct, []Clause{c}, func() { x.assumeSpec(env, c) })
			}
			delete(env.names, "K")
		}
	}
	return results
}

// atAnys runs f with the arbitrary integers of a callee bound to each of those
// of the calling contract.
// (and to the first integers, where the callee's contract asks for that).
func (x *Exec) atAnys(env *SpecEnv, ct *Contract, cs []Clause, f func()) {
	anys := ct.anys
	used := false
	for _, c := range cs {
		used = used || c.mentions(anys)
	}
	if !used {
		if len(cs) > 0 {
			f()
		}
		return
	}
	if x.specEnv == nil || x.root == nil || x.root.spec == nil {
		return
	}
	mine := x.root.spec.anys
	var rec func(i int)
	rec = func(i int) {
		if i == len(anys) {
			f()
			return
		}
		for _, m := range mine {
			env.names[anys[i]] = x.specEnv.names[m]
			rec(i + 1)
		}
		for n := 0; n < ct.instances; n++ {
			env.names[anys[i]] = IntV{ConstI(int64(n))}
			rec(i + 1)
		}
	}
	rec(0)
}

// feName: large polynomials are named to keep terms small.
func (x *Exec) feName(p *Poly, tag string) *Poly {
	p = p.Mod(x.v.db.prime)
	if len(p.t) <= 40 {
		return p
	}
	a := x.c.FieldInput(tag + ".fe")
	x.assume(Cong0(a.Sub(p), x.v.db.prime))
	return a
}

func (x *Exec) storeWords(ws []*Cell, p *Poly) {
	m := pow2(64)
	q := p
	for i, w := range ws {
		x.written(w)
		if i == len(ws)-1 {
			// the caller assumed 0 <= p < 2^(64n)
			iv := x.c.Iv(q)
			if iv.lo != nil && iv.hi != nil && iv.lo.Sign() >= 0 && iv.hi.Cmp(m) < 0 {
				w.v = IntV{q}
			} else {
				w.v = IntV{x.c.ModP(q, m)}
				x.assume(EqP(x.c.FloorDiv(q, m), newPoly()))
			}
			break
		}
		w.v = IntV{x.c.ModP(q, m)}
		q = x.c.FloorDiv(q, m)
	}
}

// pureOld: the expression does not mention state modified by the call, except under old().
func (x *Exec) pureOld(e ast.Expr, ct *Contract, env *SpecEnv) bool {
	modNames := map[string]bool{}
	for _, m := range ct.modifies {
		ast.Inspect(m.e, func(n ast.Node) bool {
			if id, ok := n.(*ast.Ident); ok {
				modNames[id.Name] = true
			}
			return true
		})
	}
	// aliases of modified parameters are modified as well
	modCells := map[*Cell]bool{}
	for n := range modNames {
		if p, ok := env.names[n].(PtrV); ok && p.c != nil {
			p.c.scalars(func(c *Cell) { modCells[c] = true })
		}
	}
	for n, v := range env.names {
		if p, ok := v.(PtrV); ok && p.c != nil {
			p.c.scalars(func(c *Cell) {
				if modCells[c] {
					modNames[n] = true
				}
			})
		}
	}
	ok := true
	ast.Inspect(e, func(n ast.Node) bool {
		if c, isC := n.(*ast.CallExpr); isC {
			if id, isI := c.Fun.(*ast.Ident); isI && id.Name == "old" {
				return false
			}
		}
		if id, isI := n.(*ast.Ident); isI {
			if modNames[id.Name] {
				ok = false
			}
			for _, r := range ct.results {
				if r == id.Name {
					if _, pend := env.names[r].(OpaqueV); pend {
						ok = false
					}
				}
			}
		}
		return ok
	})
	return ok
}

// coerce a specification value to a Go result type.
func (x *Exec) coerce(v Val, t types.Type) (Val, bool) {
	switch u := v.(type) {
	case IntV:
		if ii, ok := intType(t); ok {
			lo, hi := ii.bounds()
			x.assume(And(Ge0(u.p.Sub(Const(lo))), Le(u.p, Const(hi))))
			return u, true
		}
		return nil, false
	case BoolV:
		if b, ok := under(t).(*types.Basic); ok && b.Info()&types.IsBoolean != 0 {
			return u, true
		}
	case PtrV:
		if _, ok := under(t).(*types.Pointer); ok {
			return u, true
		}
	case NilV:
		return x.zeroVal(t), true
	case FEV:
		if k, ok := x.abstractKind(t); ok && k == "field" {
			return u, true
		}
	case StrV, SymStr:
		if b, ok := under(t).(*types.Basic); ok && b.Info()&types.IsString != 0 {
			return u, true
		}
	case IfaceV:
		return u, true
	case SliceV:
		if _, ok := under(t).(*types.Slice); ok {
			return u, true
		}
	case CompV:
		if isComposite(t) {
			return CompV{copyCell(u.c)}, true
		}
	}
	return nil, false
}

func (x *Exec) symResult(t types.Type, name string) Val {
	if _, isI := under(t).(*types.Interface); isI {
		return IfaceV{sym: name, mayNil: true}
	}
	v := x.symScalarOrComp(t, name)
	if x.unkPtr == nil {
		x.unkPtr = map[*Cell]bool{}
	}
	var mark func(v Val)
	mark = func(v Val) {
		if p, ok := v.(PtrV); ok && p.c != nil && !x.unkPtr[p.c] {
			x.unkPtr[p.c] = true
			p.c.scalars(func(s *Cell) { mark(s.v) })
		}
	}
	mark(v)
	if c, ok := v.(CompV); ok {
		c.c.scalars(func(s *Cell) { mark(s.v) })
	}
	return v
}

// ptrDef: a postcondition same(location, pointer) determines the location.
func (x *Exec) ptrDef(env *SpecEnv, c Clause) bool {
	ce, ok := ast.Unparen(c.e).(*ast.CallExpr)
	if !ok || len(ce.Args) != 2 {
		return false
	}
	if id, ok := ce.Fun.(*ast.Ident); !ok || id.Name != "same" {
		return false
	}
	x.quiet++
	defer func() { x.quiet-- }()
	l, ok := env.ev(ce.Args[0]).(*Cell)
	if !ok || l.pre || l.elems != nil {
		return false
	}
	if p, ok := l.v.(PtrV); !ok || !x.unkPtr[p.c] {
		return false
	}
	for _, a := range c.ante {
		if !x.fork(env.boolE(a), "case "+c.text) {
			return true
		}
	}
	if p, ok := env.val(ce.Args[1]).(PtrV); ok {
		l.v = p
		return true
	}
	return false
}

func (x *Exec) instResult(fn *types.Func, t types.Type, targs []types.Type, recvT types.Type, recv Val) types.Type {
	osig := fn.Origin().Type().(*types.Signature)
	m := map[*types.TypeParam]types.Type{}
	if tp := osig.TypeParams(); tp != nil && len(targs) == tp.Len() {
		for i := 0; i < tp.Len(); i++ {
			m[tp.At(i)] = targs[i]
		}
	}
	if len(m) > 0 {
		return substType(t, m)
	}
	return t
}

// locs: the cells named by a modifies clause.
func (env *SpecEnv) locs(e ast.Expr) []*Cell {
	x := env.x
	if c, ok := e.(*ast.CallExpr); ok {
		if id, ok := c.Fun.(*ast.Ident); ok && id.Name == "elems" {
			if mv, ok := env.val(c.Args[0]).(MapV); ok {
				if mv.m == nil {
					return nil
				}
				return []*Cell{mv.m.cell()}
			}
			s := x.sliceOf(env.val(c.Args[0]))
			if s.arr == nil {
				return nil
			}
			n, ok := s.len.IsConst()
			if !ok || s.arr.sq() != nil {
				return []*Cell{s.arr}
			}
			var r []*Cell
			for i := int64(0); i < n.Int64(); i++ {
				r = append(r, x.sliceAt(s, ConstI(i)))
			}
			return r
		}
	}
	if c, ok := e.(*ast.CallExpr); ok {
		// targets(s): what the pointers in s point to
		if id, ok := c.Fun.(*ast.Ident); ok && id.Name == "targets" {
			s := x.sliceOf(env.val(c.Args[0]))
			if s.arr == nil {
				return nil
			}
			n, ok := s.len.IsConst()
			if !ok || s.arr.sq() != nil {
				unsupported("targets of a slice of unknown length")
			}
			var r []*Cell
			for i := int64(0); i < n.Int64(); i++ {
				if p, ok := x.load(x.sliceAt(s, ConstI(i))).(PtrV); ok && p.c != nil {
					r = append(r, p.c)
				}
			}
			return r
		}
	}
	v := env.ev(e)
	switch c := v.(type) {
	case *Cell:
		if c.elems == nil {
			if p, ok := x.load(c).(PtrV); ok && p.c != nil {
				return []*Cell{p.c}
			}
			if mv, ok := x.load(c).(MapV); ok && mv.m != nil {
				return []*Cell{c, mv.m.cell()}
			}
		}
		return []*Cell{c}
	case PtrV:
		if c.c == nil {
			return nil
		}
		return []*Cell{c.c}
	case SliceV:
		if c.arr == nil {
			return nil
		}
		return []*Cell{c.arr}
	case NilV:
		return nil
	case MapV:
		if c.m == nil {
			return nil
		}
		return []*Cell{c.m.cell()}
	case IfaceV:
		if p, ok := c.v.(PtrV); ok {
			return []*Cell{p.c}
		}
	}
	env.fail(e, "modifies clause names no location (%T)", v)
	return nil
}

// ---------------------------------------------------------------- verification of a contract

type FuncResult struct {
	ct      *Contract
	variant string
	obls    []*Obligation
	trivial int
	paths   int
	err     string // unsupported construct: nothing can be concluded
	inlined map[string]bool
	used    map[string]*Contract
	assumed map[string]bool
	wall    float64
	vacuous string
}

type variant struct {
	alias []int // group index per pointer parameter position
	nils  map[string]bool
	lens  map[string]int
	ints  map[string]int64
	label string
}

func (v *Verifier) variants(ct *Contract, fn *types.Func) []variant {
	sig := fn.Origin().Type().(*types.Signature)
	var ptypes []types.Type
	if sig.Recv() != nil {
		ptypes = append(ptypes, sig.Recv().Type())
	}
	for i := 0; i < sig.Params().Len(); i++ {
		ptypes = append(ptypes, sig.Params().At(i).Type())
	}
	n := len(ptypes)
	if pkg, _ := v.l.declOf(fn); pkg != nil {
		for i := range ptypes {
			if i < len(ct.params) {
				if want, ok := ct.instance[ct.params[i]]; ok {
					ptypes[i] = v.namedType(pkg, want)
				}
			}
		}
	}
	var out []variant
	noal := func(i, j int) bool {
		for _, p := range ct.noalias {
			if i < len(ct.params) && j < len(ct.params) && (p[0] == ct.params[i] && p[1] == ct.params[j] || p[1] == ct.params[i] && p[0] == ct.params[j]) {
				return true
			}
		}
		return false
	}
	var rec func(i int, g []int)
	rec = func(i int, g []int) {
		if i == n {
			lab := []string{}
			for a := 0; a < n; a++ {
				for b := a + 1; b < n; b++ {
					if g[a] == g[b] && g[a] == a && a < len(ct.params) && b < len(ct.params) {
						lab = append(lab, ct.params[a]+"="+ct.params[b])
					}
				}
			}
			out = append(out, variant{alias: append([]int(nil), g...), label: strings.Join(lab, ",")})
			return
		}
		rec(i+1, append(g, i))
		if _, ok := types.Unalias(ptypes[i]).(*types.Pointer); ok && ct.alias != "none" {
			for j := 0; j < i; j++ {
				if g[j] != j || !types.Identical(ptypes[i], ptypes[j]) {
					continue
				}
				bad := false
				for k := 0; k < i; k++ {
					if (k == j || g[k] == j) && noal(k, i) {
						bad = true
					}
				}
				if !bad {
					rec(i+1, append(append([]int(nil), g...), j))
				}
			}
		}
	}
	rec(0, nil)
	expand := func(f func(vr variant) []variant) {
		var o2 []variant
		for _, vr := range out {
			o2 = append(o2, f(vr)...)
		}
		out = o2
	}
	var names []string
	for k := range ct.slicelen {
		names = append(names, k)
	}
	sort.Strings(names)
	for _, k := range names {
		k := k
		expand(func(vr variant) []variant {
			var r []variant
			for _, l := range ct.slicelen[k] {
				w := vr
				w.lens = map[string]int{}
				for a, b := range vr.lens {
					w.lens[a] = b
				}
				w.lens[k] = l
				w.label = strings.Trim(vr.label+fmt.Sprintf(",len(%s)=%d", k, l), ",")
				r = append(r, w)
			}
			return r
		})
	}
	for _, ed := range ct.enums {
		ed := ed
		expand(func(vr variant) []variant {
			var r []variant
			for l := ed.lo; l <= ed.hi; l++ {
				w := vr
				w.ints = map[string]int64{}
				for a, b := range vr.ints {
					w.ints[a] = b
				}
				w.ints[ed.name] = l
				w.label = strings.Trim(vr.label+fmt.Sprintf(",%s=%d", ed.name, l), ",")
				r = append(r, w)
			}
			return r
		})
	}
	names = nil
	for k := range ct.nilable {
		names = append(names, k)
	}
	sort.Strings(names)
	for _, k := range names {
		k := k
		expand(func(vr variant) []variant {
			w := vr
			w.nils = map[string]bool{k: true}
			for a, b := range vr.nils {
				w.nils[a] = b
			}
			w.label = strings.Trim(vr.label+","+k+"=nil", ",")
			return []variant{vr, w}
		})
	}
	return out
}

func (v *Verifier) findFunc(key string) *types.Func {
	for _, p := range v.l.pkgs {
		if p == nil {
			continue
		}
		for fn := range p.decls {
			if funcKey(fn) == key {
				return fn
			}
		}
	}
	return nil
}

func (v *Verifier) newJob(ct *Contract, layer int, noContract map[string]bool) *Job {
	j := &Job{layer: layer, havoc: map[string]map[int]bool{}, inlined: map[string]bool{}, used: map[string]*Contract{}, noContract: noContract, root: ct}
	if layer == 2 {
		j.abstract = v.db.abstract
	}
	if len(ct.inlines) > 0 {
		m := map[string]bool{}
		for k := range noContract {
			m[k] = true
		}
		for _, k := range ct.inlines {
			k = v.db.module + "/" + k
			m[k], m["loops:"+k] = true, true
		}
		j.noContract = m
	}
	return j
}

// verifyVariant symbolically executes one variant and returns its obligations.
func (v *Verifier) verifyVariant(ct *Contract, fn *types.Func, vr variant, layer int, noContract map[string]bool) (res *FuncResult) {
	t0 := time.Now()
	job := v.newJob(ct, layer, noContract)
	job.variant = vr.label
	res = &FuncResult{ct: ct, variant: vr.label, inlined: job.inlined, used: job.used}
	defer func() {
		res.wall = time.Since(t0).Seconds()
		res.assumed = job.assumed
		if r := recover(); r != nil {
			if u, ok := r.(Unsupported); ok {
				res.err = u.msg
				return
			}
			// a defect of the tool: the function counts as not verified
			res.err = "internal error: " + strings.SplitN(fmt.Sprint(r), "\n", 2)[0]
			if os.Getenv("GVC_STACK") != "" {
				fmt.Fprintln(os.Stderr, fmt.Sprint(r), string(debug.Stack()))
			}
		}
	}()
	for attempt := 0; ; attempt++ {
		if attempt > 60 {
			res.err = "loop havoc sets do not stabilise"
			return
		}
		res.obls, res.paths, res.vacuous = nil, 0, ""
		atomic.StoreInt64(&job.trivial, 0)
		atomic.StoreInt64(&job.exits, 0)
		job.mustPanic = nil
		if v.explore(ct, fn, vr, job, res) {
			break
		}
	}
	res.trivial = int(job.trivial)
	if job.exits == 0 && !ct.lemma && res.vacuous == "" {
		// Nothing was said about a normal return: that is only a proof if the
		// contract says the function always panics.
		if job.mustPanic == nil {
			res.vacuous = "no path returns normally"
		} else {
			res.obls = append(res.obls, job.mustPanic)
		}
	}
	return
}

func (v *Verifier) explore(ct *Contract, fn *types.Func, vr variant, job *Job, res *FuncResult) (done bool) {
	pool := &workPool{work: [][]decision{nil}}
	pool.cond = sync.NewCond(&pool.mu)
	type pathRes struct {
		key  string
		obls []*Obligation
	}
	var results []pathRes
	var fail any
	restart := false
	worker := func() {
		for {
			tr, ok := pool.get()
			if !ok {
				return
			}
			if v.expired() {
				pool.mu.Lock()
				fail = Unsupported{"time budget used up"}
				pool.stop = true
				pool.mu.Unlock()
				pool.done()
				return
			}
			x := v.newExec(job)
			x.trace = tr
			x.work = pool
			func() {
				defer func() {
					if r := recover(); r != nil {
						pool.mu.Lock()
						defer pool.mu.Unlock()
						switch u := r.(type) {
						case pathEnd:
						case restartJob:
							restart = true
							pool.stop = true
						case specUndef:
							if os.Getenv("GVC_STACK") != "" {
								debug.PrintStack()
							}
							if fail == nil {
								fail = Unsupported{"specification: index out of range [at " + x.pos(x.curPos) + "]"}
							}
							pool.stop = true
						case Unsupported:
							if fail == nil {
								fail = Unsupported{u.msg + " [at " + x.pos(x.curPos) + "]"}
							}
							pool.stop = true
						default:
							if fail == nil {
								fail = fmt.Sprintf("%v\n%s", r, debug.Stack())
							}
							pool.stop = true
						}
					}
				}()
				v.runRoot(x, ct, fn, vr, res)
			}()
			pool.mu.Lock()
			res.paths++
			if res.paths > maxPaths && fail == nil {
				fail = Unsupported{"too many paths"}
				pool.stop = true
			}
			results = append(results, pathRes{traceKey(x.trace), x.obls})
			pool.mu.Unlock()
			pool.done()
		}
	}
	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func() { defer wg.Done(); worker() }()
	}
	wg.Wait()
	if fail != nil && !restart {
		panic(fail)
	}
	if restart {
		return false
	}
	sort.Slice(results, func(i, j int) bool { return results[i].key < results[j].key })
	for _, r := range results {
		res.obls = append(res.obls, r.obls...)
	}
	return true
}

// workPool holds the decision prefixes still to be explored.
type workPool struct {
	mu     sync.Mutex
	cond   *sync.Cond
	work   [][]decision
	active int
	stop   bool
}

func (p *workPool) add(t []decision) {
	p.mu.Lock()
	p.work = append(p.work, t)
	p.mu.Unlock()
	p.cond.Signal()
}

func (p *workPool) get() ([]decision, bool) {
	p.mu.Lock()
	defer p.mu.Unlock()
	for {
		if p.stop || len(p.work) == 0 && p.active == 0 {
			p.cond.Broadcast()
			return nil, false
		}
		if len(p.work) > 0 {
			t := p.work[len(p.work)-1]
			p.work = p.work[:len(p.work)-1]
			p.active++
			return t, true
		}
		p.cond.Wait()
	}
}

func (p *workPool) done() {
	p.mu.Lock()
	p.active--
	p.mu.Unlock()
	p.cond.Broadcast()
}

func (v *Verifier) runRoot(x *Exec, ct *Contract, fn *types.Func, vr variant, res *FuncResult) {
	env := &SpecEnv{x: x, names: map[string]any{}, pkg: v.ctPkg(ct)}
	if ct.lemma {
		for _, p := range ct.params {
			env.names[p] = IntV{x.c.Input(p, nil, nil)}
		}
		for _, c := range ct.requires {
			x.assumeSpec(env, c)
		}
		for _, c := range ct.ensures {
			x.emitClause(env, c, "lemma", ct.key)
		}
		return
	}
	pkg, decl := v.l.declOf(fn)
	if decl == nil || decl.Body == nil {
		unsupported("no body for %s", ct.key)
	}
	osig := fn.Origin().Type().(*types.Signature)
	nf := &Frame{pkg: pkg, fn: fn.Origin(), name: shortKey(ct.key), vars: map[types.Object]*Cell{}, spec: ct}
	x.root = nf
	// type parameters
	m := map[*types.TypeParam]types.Type{}
	for _, tl := range []*types.TypeParamList{osig.TypeParams(), osig.RecvTypeParams()} {
		if tl == nil {
			continue
		}
		for i := 0; i < tl.Len(); i++ {
			nm := tl.At(i).Obj().Name()
			if want, ok := ct.tparams[nm]; ok {
				m[tl.At(i)] = v.namedType(pkg, want)
			} else {
				m[tl.At(i)] = v.opaqueType(nm)
			}
		}
	}
	if len(m) > 0 {
		nf.targs = m
		env.targs = targNames(m)
	}
	var ptypes []types.Type
	if osig.Recv() != nil {
		ptypes = append(ptypes, x.subst(nf, osig.Recv().Type()))
	}
	for i := 0; i < osig.Params().Len(); i++ {
		ptypes = append(ptypes, x.subst(nf, osig.Params().At(i).Type()))
	}
	for _, t := range ptypes {
		x.findKeyType(t, 0)
	}
	for i := 0; i < osig.Results().Len(); i++ {
		x.findKeyType(x.subst(nf, osig.Results().At(i).Type()), 0)
	}
	if len(ptypes) != len(ct.params) {
		unsupported("contract %s names %d parameters, the function has %d", ct.key, len(ct.params), len(ptypes))
	}
	x.initTrace()
	vals := make([]Val, len(ptypes))
	for i, t := range ptypes {
		name := ct.params[i]
		if want, ok := ct.instance[name]; ok {
			ct2 := v.namedType(pkg, want)
			var inner Val
			if vr.alias != nil && vr.alias[i] != i {
				inner = vals[vr.alias[i]]
				if iv, ok := inner.(IfaceV); ok {
					inner = iv.v
				}
			} else {
				inner = x.symParam(ct2, name)
			}
			vals[i] = IfaceV{typ: ct2, v: inner}
			continue
		}
		if vr.nils[name] {
			vals[i] = x.zeroVal(t)
			continue
		}
		if vr.alias != nil && vr.alias[i] != i {
			vals[i] = vals[vr.alias[i]]
			continue
		}
		if l, ok := vr.lens[name]; ok {
			s := x.concreteSlice(t, l, name).(SliceV)
			for k, e := range s.arr.elems {
				x.symCell(e, fmt.Sprintf("%s[%d]", name, k))
			}
			// capacity beyond the length is left unspecified: model it as exact
			vals[i] = s
			continue
		}
		if k, ok := vr.ints[name]; ok {
			vals[i] = IntV{ConstI(k)}
			continue
		}
		vals[i] = x.symParam(t, name)
		if sv, ok := vals[i].(SliceV); ok && ct.immut[name] && sv.arr.sq() != nil {
			sv.arr.sq().frozen, sv.arr.sq().immut = true, true
		}
	}
	for i := range vals {
		x.markPre(vals[i])
		env.names[ct.params[i]] = vals[i]
	}
	for _, a := range ct.anys {
		env.names[a] = IntV{x.c.Input(a, new(big.Int).Neg(pow2(62)), pow2(62))}
	}
	x.specEnv = env
	x.specParams = map[string]bool{}
	for _, p := range ct.params {
		x.specParams[p] = true
	}
	x.letNames(env, ct)
	for _, c := range ct.uses {
		x.assumeSpec(env, c)
	}
	for _, c := range ct.requires {
		x.assumeSpec(env, c)
	}
	for _, ed := range ct.enums {
		if strings.Contains(ed.name, ".") {
			e, err := parser.ParseExpr(ed.name)
			if err != nil {
				unsupported("enum %s", ed.name)
			}
			c, ok := env.ev(e).(*Cell)
			if !ok {
				unsupported("enum %s is not a location", ed.name)
			}
			x.assume(EqP(x.intOf(c.v), ConstI(vr.ints[ed.name])))
			c.v = IntV{ConstI(vr.ints[ed.name])}
		}
	}
	env.old = map[*Cell]Val{}
	x.entryOld = env.old
	x.pcPre = len(x.pc)
	if len(x.trace) == 0 {
		// the precondition must be satisfiable, otherwise the proof is vacuous
		if len(x.pc) > 0 && x.infeasible(fTrueProbe) {
			res.vacuous = "precondition is unsatisfiable"
		}
		x.obls = append(x.obls, &Obligation{ctx: x.c, kind: "reachable", desc: "precondition is satisfiable", hyps: append([]*Formula(nil), x.pc...), goal: fFalse, pos: x.pos(decl.Pos())})
	}
	if ct.panics != nil {
		env.panics = x.specBool(env, *ct.panics)
	}
	env.panicsIf = ct.panicsIf
	if len(x.trace) == 0 && env.panics != nil {
		job0 := x.job
		job0.mustPanic = &Obligation{ctx: x.c, kind: "returns", desc: "no path returns normally: the panics clause must always hold", hyps: append([]*Formula(nil), x.pc...), goal: env.panics, pos: x.pos(decl.Pos())}
	}
	for _, c := range ct.splits {
		x.quiet++
		f := env.boolE(c.e)
		x.quiet--
		x.curPos = decl.Pos()
		x.fork(f, "split "+c.text)
	}
	var recv Val
	args := vals
	if osig.Recv() != nil {
		recv, args = vals[0], vals[1:]
	}
	// modifies: locations evaluated in the pre-state
	allowed := map[*Cell]bool{}
	for _, mc := range ct.modifies {
		x.quiet++
		for _, c := range env.locs(mc.e) {
			c.scalars(func(s *Cell) { allowed[s] = true })
			allowed[c] = true
		}
		x.quiet--
	}
	var results []Val
	if bc := v.contractFor(ct.key, x.job); ct.vlayer != 0 && bc != nil {
		// the function has a contract of its own in this layer: it must imply this one
		results = x.applyContract(bc, fn, recv, args, nil, nil)
	} else {
		results = x.run(nf, osig, decl.Type, decl.Body, decl.Recv, recv, args)
	}
	if atomic.LoadInt64(&x.job.exits) == 0 && !x.infeasible(fTrueProbe) {
		atomic.AddInt64(&x.job.exits, 1)
	}
	x.curPos = decl.Body.Rbrace
	for i, r := range results {
		if i < len(ct.results) {
			env.names[ct.results[i]] = r
		}
	}
	if env.panics != nil {
		x.emit("panics-if", "returns normally only if not "+ct.panics.text, Not(env.panics))
	}
	for _, c := range ct.uses { // also for the final state
		x.assumeSpec(env, c)
	}
	for _, c := range ct.ensures {
		x.curPos = decl.Pos()
		if len(c.uses) > 0 {
			save := len(x.pc)
			for _, u := range c.uses {
				x.assumeSpec(env, u)
			}
			x.emitClause(env, c, "ensures", shortKey(ct.key))
			x.pc = x.pc[:save:save]
			continue
		}
		x.emitClause(env, c, "ensures", shortKey(ct.key))
		if ct.chain && len(c.ante) == 0 && c.only == "" {
			x.assumeSpec(env, c)
		}
	}
	// frame
	var cells []*Cell
	for c := range env.old {
		cells = append(cells, c)
	}
	sort.Slice(cells, func(i, j int) bool { return cells[i].id < cells[j].id })
	bad := []string{}
	fr := fTrue
	for _, c := range cells {
		if !c.pre || allowed[c] || (c.owner != nil && allowed[c.owner]) {
			continue
		}
		ov := env.old[c]
		same := fFalse
		func() {
			defer func() {
				if r := recover(); r != nil {
					if _, ok := r.(Unsupported); !ok {
						panic(r)
					}
				}
			}()
			if fo, ok := ov.(FEV); ok {
				if fn, ok := c.v.(FEV); ok {
					same = Cong0(fo.p.Sub(fn.p), v.db.prime)
				}
				return
			}
			same = x.equal(c.v, ov)
		}()
		if same.k != FTrue {
			bad = append(bad, c.name)
			fr = And(fr, same)
		}
	}
	x.curPos = decl.Pos()
	x.emit("frame", "only the locations in the modifies clause change"+func() string {
		if len(bad) > 0 {
			return " (written: " + strings.Join(bad, ", ") + ")"
		}
		return ""
	}(), fr)
}

var fTrueProbe = &Formula{k: FLe, p: func() *Poly { return newPoly() }()}

func (x *Exec) symParam(t types.Type, name string) Val {
	switch u := under(t).(type) {
	case *types.Pointer:
		c := x.newCell(u.Elem(), name)
		x.symCell(c, name)
		return PtrV{c}
	case *types.Interface:
		if n, ok := types.Unalias(t).(*types.Named); ok && strings.HasPrefix(n.Obj().Name(), "Any_") {
			return IfaceV{sym: name}
		}
		return IfaceV{sym: name, mayNil: true}
	}
	if x.isScalar(t) {
		return x.symScalar(t, name)
	}
	c := x.newCell(t, name)
	x.symCell(c, name)
	return CompV{c}
}

func (x *Exec) markPre(v Val) {
	switch v := v.(type) {
	case PtrV:
		if v.c != nil && !v.c.pre {
			v.c.markPre()
			v.c.scalars(func(s *Cell) { x.markPre(s.v) })
		}
	case SliceV:
		if v.arr != nil && !v.arr.pre {
			v.arr.markPre()
			v.arr.scalars(func(s *Cell) { x.markPre(s.v) })
		}
	case CompV:
		v.c.scalars(func(s *Cell) { x.markPre(s.v) })
	case IfaceV:
		if v.typ != nil {
			x.markPre(v.v)
		}
	case MapV:
		if v.m != nil {
			v.m.pre = true
		}
	}
}

// namedType finds a type by (qualified) name relative to pkg.
func (v *Verifier) namedType(pkg *Pkg, name string) types.Type {
	ptr := strings.HasPrefix(name, "*")
	name = strings.TrimPrefix(name, "*")
	var t types.Type
	if b := types.Universe.Lookup(name); b != nil {
		t = b.Type()
	} else if i := strings.LastIndex(name, "."); i >= 0 {
		for _, p := range v.l.pkgs {
			if p != nil && p.types != nil && (p.types.Name() == name[:i] || strings.HasSuffix(p.path, name[:i])) {
				if o := p.types.Scope().Lookup(name[i+1:]); o != nil {
					t = o.Type()
				}
			}
		}
	} else if o := pkg.types.Scope().Lookup(name); o != nil {
		t = o.Type()
	}
	if t == nil {
		unsupported("type %s not found", name)
	}
	if ptr {
		t = types.NewPointer(t)
	}
	return t
}

func isBigPtr(t types.Type) bool {
	p, ok := types.Unalias(t).(*types.Pointer)
	if !ok {
		return false
	}
	n, ok := types.Unalias(p.Elem()).(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "math/big" && n.Obj().Name() == "Int"
}

func (c *Contract) freshResult(r string) bool {
	for _, e := range c.ensures {
		if ce, ok := ast.Unparen(e.e).(*ast.CallExpr); ok && len(e.ante) == 0 && len(ce.Args) == 1 {
			f, _ := ce.Fun.(*ast.Ident)
			a, _ := ast.Unparen(ce.Args[0]).(*ast.Ident)
			if f != nil && a != nil && f.Name == "fresh" && a.Name == r {
				return true
			}
		}
	}
	return false
}

func (v *Verifier) setDeadline(t time.Time) {
	v.deadline.Store(t.UnixNano())
}

func (v *Verifier) expired() bool {
	if v.memHigh.Load() {
		return true
	}
	d := v.deadline.Load()
	return d != 0 && time.Now().UnixNano() > d
}

// watchMemory stops the current executions when the heap gets too large (the
// sandbox has no swap).
func (v *Verifier) watchMemory(limit uint64) {
	var ms runtime.MemStats
	for {
		time.Sleep(time.Second)
		runtime.ReadMemStats(&ms)
		v.memHigh.Store(ms.HeapAlloc > limit)
	}
}
