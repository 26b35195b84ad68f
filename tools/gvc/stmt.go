package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"strconv"
)

type ctlKind int

const (
	cNext ctlKind = iota
	cBreak
	cContinue
	cReturn
	cFall
)

type ctl struct {
	k     ctlKind
	label string
}

var next = ctl{}

func (x *Exec) block(fr *Frame, ss []ast.Stmt) ctl {
	for _, s := range ss {
		if c := x.stmt(fr, s, ""); c.k != cNext {
			return c
		}
	}
	return next
}

func (x *Exec) stmt(fr *Frame, s ast.Stmt, label string) ctl {
	x.tick()
	if s != nil && x.quiet == 0 {
		x.curPos = s.Pos()
	}
	switch s := s.(type) {
	case *ast.BlockStmt:
		return x.block(fr, s.List)
	case *ast.ExprStmt:
		if call, ok := ast.Unparen(s.X).(*ast.CallExpr); ok {
			x.call(fr, call)
		} else {
			x.eval(fr, s.X)
		}
		return next
	case *ast.AssignStmt:
		x.assign(fr, s)
		return next
	case *ast.IncDecStmt:
		c := x.lvalue(fr, s.X)
		op := token.ADD
		if s.Tok == token.DEC {
			op = token.SUB
		}
		x.store(c, x.arith(op, x.load(c), IntV{ConstI(1)}, x.typeOf(fr, s.X)))
		return next
	case *ast.DeclStmt:
		gd := s.Decl.(*ast.GenDecl)
		if gd.Tok != token.VAR {
			return next
		}
		for _, sp := range gd.Specs {
			vs := sp.(*ast.ValueSpec)
			if len(vs.Values) == 0 {
				for _, n := range vs.Names {
					x.declare(fr, fr.pkg.info.Defs[n], nil)
				}
				continue
			}
			vals := x.rhs(fr, vs.Values, len(vs.Names))
			for i, n := range vs.Names {
				o := fr.pkg.info.Defs[n]
				if o == nil {
					continue
				}
				x.declare(fr, o, x.convertTo(vals[i].v, vals[i].t, x.subst(fr, o.Type())))
			}
		}
		return next
	case *ast.ReturnStmt:
		if len(s.Results) > 0 {
			vals := x.rhs(fr, s.Results, len(fr.results))
			for i, c := range fr.results {
				x.store(c, x.convertTo(vals[i].v, vals[i].t, c.typ))
			}
		}
		return ctl{k: cReturn}
	case *ast.IfStmt:
		if s.Init != nil {
			x.stmt(fr, s.Init, "")
		}
		cond := x.boolOf(x.eval(fr, s.Cond))
		x.curPos = s.Pos()
		if x.fork(cond, "if") {
			return x.block(fr, s.Body.List)
		}
		if s.Else != nil {
			return x.stmt(fr, s.Else, "")
		}
		return next
	case *ast.ForStmt:
		return x.forStmt(fr, s, label)
	case *ast.RangeStmt:
		return x.rangeStmt(fr, s, label)
	case *ast.LabeledStmt:
		c := x.stmt(fr, s.Stmt, s.Label.Name)
		if c.k == cBreak && c.label == s.Label.Name {
			return next
		}
		return c
	case *ast.BranchStmt:
		l := ""
		if s.Label != nil {
			l = s.Label.Name
		}
		switch s.Tok {
		case token.BREAK:
			return ctl{cBreak, l}
		case token.CONTINUE:
			return ctl{cContinue, l}
		case token.FALLTHROUGH:
			return ctl{k: cFall}
		}
		unsupported("goto")
	case *ast.SwitchStmt:
		return x.switchStmt(fr, s)
	case *ast.TypeSwitchStmt:
		return x.typeSwitch(fr, s)
	case *ast.EmptyStmt:
		return next
	case *ast.DeferStmt:
		fv, args := x.callee(fr, s.Call)
		fr.defers = append(fr.defers, func() { fv(args) })
		return next
	}
	unsupported("statement %T at %s", s, x.pos(s.Pos()))
	return next
}

// callee prepares a deferred call.
func (x *Exec) callee(fr *Frame, e *ast.CallExpr) (func([]Val), []Val) {
	if lit, ok := ast.Unparen(e.Fun).(*ast.FuncLit); ok {
		if containsRecover(fr, lit) {
			unsupported("recover")
		}
	}
	var args []Val
	return func([]Val) { x.call(fr, e) }, args
}

func containsRecover(fr *Frame, n ast.Node) bool {
	found := false
	ast.Inspect(n, func(n ast.Node) bool {
		if id, ok := n.(*ast.Ident); ok && id.Name == "recover" {
			found = true
		}
		return true
	})
	return found
}

type typedVal struct {
	v Val
	t types.Type
}

// rhs evaluates the right-hand side list of an assignment to n targets.
func (x *Exec) rhs(fr *Frame, es []ast.Expr, n int) []typedVal {
	if len(es) == n {
		r := make([]typedVal, n)
		for i, e := range es {
			r[i] = typedVal{x.eval(fr, e), x.typeOf(fr, e)}
		}
		return r
	}
	if len(es) != 1 {
		unsupported("assignment count mismatch")
	}
	e := ast.Unparen(es[0])
	switch e := e.(type) {
	case *ast.CallExpr:
		vs := x.call(fr, e)
		tp := x.typeOf(fr, e).(*types.Tuple)
		r := make([]typedVal, n)
		for i := range r {
			r[i] = typedVal{vs[i], x.subst(fr, tp.At(i).Type())}
		}
		return r
	case *ast.TypeAssertExpr:
		t := x.typeOf(fr, e.Type)
		v, ok := x.typeAssert(fr, x.eval(fr, e.X), t)
		if !x.fork(ok, "type assertion succeeds") {
			v = x.zeroVal(t)
			ok = fFalse
		} else {
			ok = fTrue
		}
		return []typedVal{{v, t}, {BoolV{ok}, types.Typ[types.Bool]}}
	case *ast.IndexExpr:
		mt, isM := under(x.typeOf(fr, e.X)).(*types.Map)
		if isM {
			m := x.eval(fr, e.X)
			k := x.eval(fr, e.Index)
			v, ok := x.mapGet(m, k, mt)
			return []typedVal{{v, mt.Elem()}, {BoolV{ok}, types.Typ[types.Bool]}}
		}
	}
	unsupported("multi-value expression %T", e)
	return nil
}

func (x *Exec) assign(fr *Frame, s *ast.AssignStmt) {
	if s.Tok != token.ASSIGN && s.Tok != token.DEFINE {
		op := map[token.Token]token.Token{token.ADD_ASSIGN: token.ADD, token.SUB_ASSIGN: token.SUB, token.MUL_ASSIGN: token.MUL,
			token.QUO_ASSIGN: token.QUO, token.REM_ASSIGN: token.REM, token.AND_ASSIGN: token.AND, token.OR_ASSIGN: token.OR,
			token.XOR_ASSIGN: token.XOR, token.SHL_ASSIGN: token.SHL, token.SHR_ASSIGN: token.SHR, token.AND_NOT_ASSIGN: token.AND_NOT}[s.Tok]
		if ix, ok := ast.Unparen(s.Lhs[0]).(*ast.IndexExpr); ok {
			if _, isM := under(x.typeOf(fr, ix.X)).(*types.Map); isM {
				unsupported("op-assignment to map element")
			}
		}
		c := x.lvalue(fr, s.Lhs[0])
		v := x.eval(fr, s.Rhs[0])
		x.curPos = s.Pos()
		x.store(c, x.arith(op, x.load(c), v, x.typeOf(fr, s.Lhs[0])))
		return
	}
	// Go evaluates index/pointer operands on the left first, then the right side.
	type tgt struct {
		c   *Cell
		def types.Object
		m   Val
		k   Val
		mt  *types.Map
	}
	tg := make([]tgt, len(s.Lhs))
	for i, l := range s.Lhs {
		l = ast.Unparen(l)
		if id, ok := l.(*ast.Ident); ok {
			if id.Name == "_" {
				continue
			}
			if s.Tok == token.DEFINE {
				if o := fr.pkg.info.Defs[id]; o != nil {
					tg[i].def = o
					continue
				}
			}
		}
		if ix, ok := l.(*ast.IndexExpr); ok {
			if mt, isM := under(x.typeOf(fr, ix.X)).(*types.Map); isM {
				tg[i].m, tg[i].mt = x.eval(fr, ix.X), mt
				tg[i].k = x.convertTo(x.eval(fr, ix.Index), x.typeOf(fr, ix.Index), mt.Key())
				continue
			}
		}
		tg[i].c = x.lvalue(fr, l)
	}
	if len(tg) == 1 && tg[0].c != nil && len(s.Rhs) == 1 {
		if ce, ok := ast.Unparen(s.Rhs[0]).(*ast.CallExpr); ok && len(ce.Args) > 0 {
			id, _ := ce.Fun.(*ast.Ident)
			a, _ := ast.Unparen(ce.Args[0]).(*ast.Ident)
			l, _ := ast.Unparen(s.Lhs[0]).(*ast.Ident)
			if id != nil && a != nil && l != nil && id.Name == "append" && a.Name == l.Name {
				x.appendTo = tg[0].c
			}
		}
	}
	vals := x.rhs(fr, s.Rhs, len(s.Lhs))
	x.appendTo = nil
	x.curPos = s.Pos()
	for i := range tg {
		switch {
		case tg[i].def != nil:
			x.declare(fr, tg[i].def, x.convertTo(vals[i].v, vals[i].t, x.subst(fr, tg[i].def.Type())))
		case tg[i].m != nil:
			x.mapSet(tg[i].m, tg[i].k, x.convertTo(vals[i].v, vals[i].t, tg[i].mt.Elem()), tg[i].mt)
		case tg[i].c != nil:
			x.store(tg[i].c, x.convertTo(vals[i].v, vals[i].t, tg[i].c.typ))
		}
	}
}

func (x *Exec) switchStmt(fr *Frame, s *ast.SwitchStmt) ctl {
	if s.Init != nil {
		x.stmt(fr, s.Init, "")
	}
	var tag Val = BoolV{fTrue}
	var tagT types.Type = types.Typ[types.Bool]
	if s.Tag != nil {
		tag = x.eval(fr, s.Tag)
		tagT = x.typeOf(fr, s.Tag)
	}
	def := -1
	run := func(i int) ctl {
		for ; i < len(s.Body.List); i++ {
			c := x.block(fr, s.Body.List[i].(*ast.CaseClause).Body)
			if c.k == cFall {
				continue
			}
			if c.k == cBreak && c.label == "" {
				return next
			}
			return c
		}
		return next
	}
	for i, cs := range s.Body.List {
		cc := cs.(*ast.CaseClause)
		if cc.List == nil {
			def = i
			continue
		}
		for _, e := range cc.List {
			v := x.eval(fr, e)
			var f *Formula
			if s.Tag == nil {
				f = x.boolOf(v)
			} else {
				_, ti := under(tagT).(*types.Interface)
				et := x.typeOf(fr, e)
				if ti {
					v = x.convertTo(v, et, tagT)
				}
				f = x.equal(tag, v)
			}
			x.curPos = cc.Pos()
			if x.fork(f, "case") {
				return run(i)
			}
		}
	}
	if def >= 0 {
		return run(def)
	}
	return next
}

func (x *Exec) typeSwitch(fr *Frame, s *ast.TypeSwitchStmt) ctl {
	if s.Init != nil {
		x.stmt(fr, s.Init, "")
	}
	var ex ast.Expr
	switch a := s.Assign.(type) {
	case *ast.ExprStmt:
		ex = a.X.(*ast.TypeAssertExpr).X
	case *ast.AssignStmt:
		ex = a.Rhs[0].(*ast.TypeAssertExpr).X
	}
	v := x.eval(fr, ex)
	var def *ast.CaseClause
	runc := func(cc *ast.CaseClause, val Val) ctl {
		if o := fr.pkg.info.Implicits[cc]; o != nil {
			x.declare(fr, o, val)
		}
		c := x.block(fr, cc.Body)
		if c.k == cBreak && c.label == "" {
			return next
		}
		return c
	}
	for _, cs := range s.Body.List {
		cc := cs.(*ast.CaseClause)
		if cc.List == nil {
			def = cc
			continue
		}
		for _, te := range cc.List {
			if tv := fr.pkg.info.Types[te]; tv.IsNil() {
				if x.fork(x.equal(v, NilV{}), "case nil") {
					return runc(cc, v)
				}
				continue
			}
			t := x.typeOf(fr, te)
			tvv, ok := x.typeAssert(fr, v, t)
			if x.fork(ok, "case "+t.String()) {
				if len(cc.List) > 1 {
					return runc(cc, v)
				}
				return runc(cc, tvv)
			}
		}
	}
	if def != nil {
		return runc(def, v)
	}
	return next
}

// ---------------------------------------------------------------- loops

const (
	unrollLimit    = 3000
	symUnrollLimit = 260
)

func (x *Exec) loopSpec(fr *Frame, n ast.Node) (*LoopSpec, int) {
	f := fr
	for f.parent != nil && f.fn == nil {
		f = f.parent
	}
	if f.fn == nil {
		return nil, 0
	}
	if f.loops == nil {
		f.loops = map[ast.Node]int{}
		if _, d := x.v.l.declOf(f.fn); d != nil && d.Body != nil {
			k := 0
			ast.Inspect(d.Body, func(m ast.Node) bool {
				switch m.(type) {
				case *ast.ForStmt, *ast.RangeStmt:
					k++
					f.loops[m] = k
				}
				return true
			})
		}
	}
	k := f.loops[n]
	ct := x.v.loopContract(funcKey(f.fn), x.job)
	if ct == nil {
		return x.movedLoopSpec(f, k), k
	}
	return ct.loops[k], k
}

// movedLoopSpec: a helper without a contract of its own, executed in place,
// takes the invariants of the function under verification if that function no
// longer has a loop itself (its loop was moved to the helper). They are proved
// like any others, so it does not matter for soundness whether they fit.
func (x *Exec) movedLoopSpec(f *Frame, k int) *LoopSpec {
	j := x.job
	if j == nil || j.root == nil || x.root == nil || x.root.fn == nil || f == x.root || len(j.root.loops) == 0 || j.noContract["loops:"+j.root.key] || x.concrete {
		return nil
	}
	if len(x.v.db.contracts[funcKey(f.fn)]) > 0 || x.rootHasLoops() {
		return nil
	}
	return j.root.loops[k]
}

func (x *Exec) rootHasLoops() bool {
	_, d := x.v.l.declOf(x.root.fn)
	if d == nil || d.Body == nil {
		return true
	}
	found := false
	ast.Inspect(d.Body, func(m ast.Node) bool {
		switch m.(type) {
		case *ast.ForStmt, *ast.RangeStmt:
			found = true
		}
		return !found
	})
	return found
}

func (x *Exec) forStmt(fr *Frame, s *ast.ForStmt, label string) ctl {
	if s.Init != nil {
		x.stmt(fr, s.Init, "")
	}
	// Go >= 1.22 per-iteration semantics do not apply: go.mod says go 1.19.
	if ls, k := x.loopSpec(fr, s); ls != nil {
		return x.invLoop(fr, s, ls, k, label, s.Cond, s.Post, s.Body, nil)
	}
	sym := 0 // iterations whose condition had to be decided by a case distinction
	for it := 0; ; it++ {
		if it > unrollLimit || sym > symUnrollLimit {
			unsupported("loop at %s not unrolled within %d iterations and no invariant given", x.pos(s.Pos()), unrollLimit)
		}
		if s.Cond != nil {
			cond := x.boolOf(x.eval(fr, s.Cond))
			x.curPos = s.Pos()
			if f := x.c.simp(cond); f.k != FTrue && f.k != FFalse {
				sym++
			}
			if !x.fork(cond, "loop condition (iteration "+strconv.Itoa(it+1)+")") {
				return next
			}
		}
		c := x.block(fr, s.Body.List)
		if stop, r := loopCtl(c, label); stop {
			return r
		}
		if s.Post != nil {
			x.stmt(fr, s.Post, "")
		}
	}
}

// loopCtl: stop tells to leave the loop with control r.
func loopCtl(c ctl, label string) (bool, ctl) {
	switch c.k {
	case cBreak:
		if c.label == "" || c.label == label {
			return true, next
		}
		return true, c
	case cContinue:
		if c.label == "" || c.label == label {
			return false, next
		}
		return true, c
	case cReturn:
		return true, c
	}
	return false, next
}

// invLoop: loop with a user supplied invariant.
func (x *Exec) invLoop(fr *Frame, s ast.Stmt, ls *LoopSpec, k int, label string, cond ast.Expr, post ast.Stmt, body *ast.BlockStmt, pre func()) ctl {
	env := x.frameEnv(fr, s.Pos(), body.Lbrace+1)
	x.adoptRoot(env, ls)
	where := fmt.Sprintf("loop %d of %s", k, fr.name)
	for i, c := range ls.inv {
		x.curPos = s.Pos()
		x.emit("invariant-init", where+": "+c.text, x.specGoal(env, c))
		_ = i
	}
	// havoc
	key := fmt.Sprintf("%d|%v", s.Pos(), traceKey(x.trace[:x.tpos]))
	hs := x.job.havocSet(key)
	mark := x.cellN
	x.havocCells(hs, fmt.Sprintf("loop%d", k))
	ml := x.havocMaps(key)
	for _, g := range ls.ghosts {
		_ = g
	}
	if ls.iso && len(x.pc) > x.pcPre {
		// what was learned before the loop is forgotten (fewer hypotheses: sound)
		x.pc = append([]*Formula(nil), x.pc[:x.pcPre]...)
	}
	x.loopEnums(env, ls, func() {
		for _, c := range ls.inv {
			x.assumeSpec(env, c)
		}
		x.invAtKeys(env, ls)
	})
	var dec0 *Poly
	outerLog := x.writeLog
	x.writeLog = map[*Cell]bool{}
	finish := func() {
		// every cell written that existed before the loop must be havocked
		grow := false
		for c := range x.writeLog {
			if c.id <= mark && !hs[c.id] {
				hs[c.id] = true
				grow = true
			}
			if outerLog != nil {
				outerLog[c] = true
			}
		}
		if ml.finish(x) || grow {
			x.job.growHavoc(key, hs)
			panic(restartJob{})
		}
	}
	for c := range x.havocked {
		if outerLog != nil {
			outerLog[c] = true
		}
	}
	if cond != nil {
		cf := x.boolOf(x.eval(fr, cond))
		x.curPos = s.Pos()
		if !x.fork(cf, where+" continues") {
			finish()
			x.writeLog, x.mapWrites = outerLog, ml.outer
			return next
		}
	}
	if ls.dec != nil {
		dec0 = x.specInt(env, *ls.dec)
		x.curPos = s.Pos()
		x.emit("variant", where+": variant non-negative: "+ls.dec.text, Ge0(dec0))
	}
	c := x.block(fr, body.List)
	if stop, r := loopCtl(c, label); stop {
		finish()
		x.writeLog, x.mapWrites = outerLog, ml.outer
		return r
	}
	if post != nil {
		x.stmt(fr, post, "")
	}
	finish()
	x.curPos = s.Pos()
	for _, c := range ls.inv {
		x.emit("invariant-preserved", where+": "+c.text, x.specGoal(env, c))
	}
	if ls.dec != nil {
		d := x.specInt(env, *ls.dec)
		x.emit("variant", where+": variant decreases: "+ls.dec.text, Lt(d, dec0))
	}
	panic(pathEnd{"end of loop body"})
}

func traceKey(t []decision) string {
	b := make([]byte, len(t))
	for i, d := range t {
		b[i] = '0'
		if d.val {
			b[i] = '1'
		}
	}
	return string(b)
}

// havocCells gives fresh values to all known cells with the ids in hs.
func (x *Exec) havocCells(hs map[int]bool, tag string) {
	x.havocked = map[*Cell]bool{}
	if len(hs) == 0 {
		return
	}
	for id := 1; id <= x.cellN; id++ {
		if hs[id] {
			c := x.cellByID[id]
			if c == nil || c.inSeq != nil {
				continue // elements of sequences are forgotten with the sequence
			}
			x.written(c)
			x.havocked[c] = true
			c.v = x.symLike(c, x.freshName(tag+"."+c.name))
		}
	}
}

// symLike: fresh value of the same shape as the one stored in c.
func (x *Exec) symLike(c *Cell, name string) Val {
	switch v := c.v.(type) {
	case PtrV:
		unsupported("pointer variable %s modified in a loop with an invariant", c.name)
	case SliceV:
		return x.havocSlice(c, v, name)
	case MapV:
		n := x.symMap(c.typ, name)
		n.m.maybeNil, n.m.pre = true, true
		return n
	case SeqV:
		x.arrWritten(c)
		return SeqV{newSeq(name, v.s.elem)}
	}
	return x.symScalar(c.typ, name)
}

func (x *Exec) havocSlice(c *Cell, v SliceV, name string) Val {
	n := x.symSlice(c.typ, name).(SliceV)
	if v.arr != nil {
		if x.bornOf == nil {
			x.bornOf, x.bornFrom = map[*Cell]*Cell{}, map[*Cell][]*Cell{}
		}
		x.bornOf[n.arr] = v.arr
		x.bornFrom[v.arr] = append(x.bornFrom[v.arr], n.arr)
		if v.arr.sq() == nil {
			v.arr.scalars(func(d *Cell) { d.owner = v.arr })
		}
	}
	return n
}

func (x *Exec) rangeStmt(fr *Frame, s *ast.RangeStmt, label string) ctl {
	t := under(x.typeOf(fr, s.X))
	setKV := func(e ast.Expr, v Val, vt types.Type) {
		if e == nil {
			return
		}
		if id, ok := e.(*ast.Ident); ok && id.Name == "_" {
			return
		}
		if s.Tok == token.DEFINE {
			o := fr.pkg.info.Defs[e.(*ast.Ident)]
			if c := fr.vars[o]; c != nil {
				x.store(c, v)
			} else {
				x.declare(fr, o, v)
			}
			return
		}
		c := x.lvalue(fr, e)
		x.store(c, x.convertTo(v, vt, c.typ))
	}
	intT := types.Typ[types.Int]
	switch u := t.(type) {
	case *types.Map:
		return x.rangeMap(fr, s, u, label, setKV)
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			return x.rangeString(fr, s, label, setKV)
		}
		if u.Info()&types.IsInteger != 0 {
			n := x.intOf(x.eval(fr, s.X))
			return x.rangeN(fr, s, n, label, func(i *Poly) { setKV(s.Key, IntV{i}, x.typeOf(fr, s.X)) })
		}
	case *types.Array, *types.Pointer:
		var a *Cell
		if p, ok := u.(*types.Pointer); ok {
			_ = p
			a = x.deref(x.eval(fr, s.X), "range over array pointer")
		} else if s.Value != nil {
			a = x.eval(fr, s.X).(CompV).c // copy semantics
		} else {
			v := x.eval(fr, s.X)
			a = v.(CompV).c
		}
		return x.rangeN(fr, s, ConstI(int64(len(a.elems))), label, func(i *Poly) {
			setKV(s.Key, IntV{i}, intT)
			if s.Value != nil {
				setKV(s.Value, x.load(x.arrayElem(a, i)), nil)
			}
		})
	case *types.Slice:
		v := x.eval(fr, s.X)
		sv, _ := v.(SliceV)
		n := sv.len
		if n == nil {
			n = newPoly()
		}
		return x.rangeN(fr, s, n, label, func(i *Poly) {
			x.its = append(x.its, i)
			setKV(s.Key, IntV{i}, intT)
			if s.Value != nil {
				if id, ok := s.Value.(*ast.Ident); !ok || id.Name != "_" {
					setKV(s.Value, x.load(x.sliceAt(sv, i)), u.Elem())
				}
			}
		})
	}
	unsupported("range over %v", t)
	return next
}

func (x *Exec) rangeN(fr *Frame, s *ast.RangeStmt, n *Poly, label string, bind func(*Poly)) ctl {
	if ls, k := x.loopSpec(fr, s); ls != nil {
		return x.invRange(fr, s, ls, k, label, n, bind)
	}
	nc, ok := n.IsConst()
	if !ok {
		lim := int64(unrollLimit)
		for i := int64(0); i <= lim; i++ {
			x.curPos = s.Pos()
			if !x.fork(Lt(ConstI(i), n), "range iteration "+strconv.FormatInt(i, 10)) {
				return next
			}
			if i > 70 {
				unsupported("range loop at %s over an unbounded sequence without invariant", x.pos(s.Pos()))
			}
			bind(ConstI(i))
			c := x.block(fr, s.Body.List)
			if stop, r := loopCtl(c, label); stop {
				return r
			}
		}
	}
	for i := int64(0); i < nc.Int64(); i++ {
		if i > unrollLimit {
			unsupported("range too long")
		}
		bind(ConstI(i))
		c := x.block(fr, s.Body.List)
		if stop, r := loopCtl(c, label); stop {
			return r
		}
	}
	return next
}

// invRange: range loop over [0,n) with an invariant; the spec refers to the
// number of completed iterations as `it`.
func (x *Exec) invRange(fr *Frame, s *ast.RangeStmt, ls *LoopSpec, k int, label string, n *Poly, bind func(*Poly)) ctl {
	env := x.frameEnv(fr, s.Pos(), s.Body.Lbrace+1)
	x.adoptRoot(env, ls)
	where := fmt.Sprintf("loop %d of %s", k, fr.name)
	env.names["it"] = IntV{newPoly()}
	for _, c := range ls.inv {
		x.curPos = s.Pos()
		x.emit("invariant-init", where+": "+c.text, x.specGoal(env, c))
	}
	key := fmt.Sprintf("%d|%v", s.Pos(), traceKey(x.trace[:x.tpos]))
	hs := x.job.havocSet(key)
	mark := x.cellN
	x.havocCells(hs, fmt.Sprintf("loop%d", k))
	ml := x.havocMaps(key)
	it := x.c.Input(x.freshName("it"), bigZero, pow2(62))
	env.names["it"] = IntV{it}
	x.assume(Le(it, n))
	for _, c := range ls.inv {
		x.assumeSpec(env, c)
	}
	x.invAtKeys(env, ls)
	outerLog := x.writeLog
	x.writeLog = map[*Cell]bool{}
	finish := func() {
		grow := false
		for c := range x.writeLog {
			if c.id <= mark && !hs[c.id] {
				hs[c.id] = true
				grow = true
			}
			if outerLog != nil {
				outerLog[c] = true
			}
		}
		if ml.finish(x) || grow {
			x.job.growHavoc(key, hs)
			panic(restartJob{})
		}
	}
	for c := range x.havocked {
		if outerLog != nil {
			outerLog[c] = true
		}
	}
	x.curPos = s.Pos()
	if !x.fork(Lt(it, n), where+" continues") {
		x.assume(EqP(it, n))
		env.names["it"] = IntV{n}
		for _, c := range ls.inv {
			if x.mentionsCat(c) {
				x.assumeSpec(env, c)
			}
		}
		finish()
		x.writeLog, x.mapWrites = outerLog, ml.outer
		return next
	}
	bind(it)
	c := x.block(fr, s.Body.List)
	if stop, r := loopCtl(c, label); stop {
		finish()
		x.writeLog, x.mapWrites = outerLog, ml.outer
		return r
	}
	finish()
	env.names["it"] = IntV{it.AddI(1)}
	x.curPos = s.Pos()
	for _, c := range ls.inv {
		x.emit("invariant-preserved", where+": "+c.text, x.specGoal(env, c))
	}
	panic(pathEnd{"end of loop body"})
}

// invAtKeys: the invariant holds for every key, so also for those the loop names.
func (x *Exec) invAtKeys(env *SpecEnv, ls *LoopSpec) {
	for _, kc := range ls.keys {
		key := env.val(kc.e) // not quiet: elements named here are told apart
		if cc, ok := key.(*Cell); ok {
			key = x.load(cc)
		}
		x.keys = append(x.keys, key)
		env.names["K"] = key
		for _, c := range ls.inv {
			if c.mentions([]string{"K"}) {
				x.assumeSpec(env, c)
			}
		}
		delete(env.names, "K")
	}
}

// loopEnums: "enum v lo hi" fixes the (havocked) integer variable v to each
// value of the range in turn; the range itself must follow from the invariants.
func (x *Exec) loopEnums(env *SpecEnv, ls *LoopSpec, assumeInv func()) {
	for _, ed := range ls.enums {
		c, ok := env.resolve(ed.name).(*Cell)
		if !ok {
			unsupported("enum: %s is not a variable", ed.name)
		}
		p := x.intOf(x.load(c))
		if _, isC := p.IsConst(); isC {
			continue
		}
		if !x.rangeInv(env, ls, p, ed) {
			unsupported("enum: no invariant bounds %s by [%d,%d]", ed.name, ed.lo, ed.hi)
		}
		x.noFeas = true
		k := x.concretize(p, ed.lo, ed.hi, ed.name)
		x.noFeas = false
		c.v = IntV{ConstI(k)}
	}
	assumeInv()
}

// rangeInv: some conjunction of invariants directly bounds p by the enum range.
func (x *Exec) rangeInv(env *SpecEnv, ls *LoopSpec, p *Poly, ed enumDef) bool {
	lo, hi := false, false
	gl, gh := Ge0(p.Sub(ConstI(ed.lo))), Le(p, ConstI(ed.hi))
	if x.c.simp(gl).k == FTrue {
		lo = true
	}
	if x.c.simp(gh).k == FTrue {
		hi = true
	}
	for _, c := range ls.inv {
		be, ok := c.e.(*ast.BinaryExpr)
		if !ok || len(c.ante) > 0 || (be.Op != token.LEQ && be.Op != token.GEQ && be.Op != token.LSS && be.Op != token.GTR && be.Op != token.LAND) {
			continue
		}
		f := x.specBool(env, c)
		for _, g := range flatten([]*Formula{f}) {
			if impliesConst(g, gl) {
				lo = true
			}
			if impliesConst(g, gh) {
				hi = true
			}
		}
	}
	return lo && hi
}

// impliesConst: both are bounds on the same terms and g is at least as tight.
func impliesConst(g, goal *Formula) bool {
	if g.k != FLe || goal.k != FLe {
		return g.Key() == goal.Key()
	}
	d, ok := goal.p.Sub(g.p).IsConst()
	return ok && d.Sign() <= 0
}
