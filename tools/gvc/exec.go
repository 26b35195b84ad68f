package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"strconv"
	"strings"
	"sync/atomic"
)

// exec.go: symbolic execution of Go function bodies. Branches whose condition
// is not decided fork the path; a forked path is re-executed from the start
// of the function with a recorded decision trace, so the interpreter itself is
// an ordinary direct-style evaluator.

type decision struct {
	val    bool
	forced bool
}

type Obligation struct {
	ctx    *Ctx
	hyps   []*Formula
	goal   *Formula
	kind   string // ensures, requires, index, nil, panic, invariant, frame, ...
	desc   string
	pos    string
	path   string
	inputs map[string]string
	res    *Result
}

type pathEnd struct{ why string }
type restartJob struct{}

type Frame struct {
	pkg     *Pkg
	fn      *types.Func
	name    string
	vars    map[types.Object]*Cell
	parent  *Frame
	targs   map[*types.TypeParam]types.Type
	results []*Cell
	resObjs []types.Object
	defers  []func()
	loops   map[ast.Node]int
	spec    *Contract // contract being verified in this frame
	goctr   int
}

type Exec struct {
	v           *Verifier
	job         *Job
	c           *Ctx
	trace       []decision
	tpos        int
	pcPre       int // path conditions that come from the precondition
	work        *workPool
	pc          []*Formula
	obls        []*Obligation
	fresh       int
	globals     map[*types.Var]*Cell
	oldMode     map[*Cell]Val
	entryOld    map[*Cell]Val
	bornOf      map[*Cell]*Cell   // loop-havocked storage -> the storage it stands for
	bornFrom    map[*Cell][]*Cell // the reverse
	smashing    bool
	appendTo    *Cell // variable that the result of the append being evaluated overwrites
	writeLog    map[*Cell]bool
	cellN       int
	depth       int
	steps       int
	quiet       int // >0: no obligations (spec evaluation)
	concrete    bool
	curPos      token.Pos
	callers     []string
	pathNote    []string
	root        *Frame
	preCells    bool
	loopHav     map[string]map[int]bool // shared through job
	panicked    bool
	specEnv     *SpecEnv
	specParams  map[string]bool
	quietInline int
	depthPanic  int
	dynVals     map[string]Val
	havocked    map[*Cell]bool
	cellByID    map[int]*Cell
	mapN        int
	maps        map[int]*MapObj
	mapReads    map[string][]mapRead
	mapWrites   map[*MapObj]bool
	orderNote   bool
	univ        bool // somekey under negation in a goal
	pol         int  // polarity of the specification formula being evaluated: 1 goal, -1 hypothesis
	apps        []opaqueApp
	ghostKT     types.Type
	keys        []Val   // keys met in map loops
	its         []*Poly // iteration counters of range loops
	catSeen     map[string]bool
	foldSeen    map[string][]foldAt
	hist        *Cell // ghost: calls of opaque functions that may change state
	epochs      map[string]int
	unfolding   bool
	unfolded    map[string]bool
	oracles     map[string]*oracleApp
	oracleList  []*oracleApp
	unkPtr      map[*Cell]bool // targets of pointers returned by calls that are not inlined
	noFeas      bool           // forks are not checked for feasibility
}

func (x *Exec) abstractKind(t types.Type) (string, bool) {
	if x.job == nil || x.job.abstract == nil {
		return "", false
	}
	k, ok := x.job.abstract[typeKey(t)]
	return k, ok
}

func (x *Exec) pos(p token.Pos) string {
	if !p.IsValid() {
		return "?"
	}
	ps := x.v.l.fset.Position(p)
	return strings.TrimPrefix(ps.Filename, x.v.l.repo+"/") + ":" + strconv.Itoa(ps.Line)
}

func (x *Exec) freshName(s string) string {
	x.fresh++
	return s + "#" + strconv.Itoa(x.fresh)
}

func (x *Exec) assume(f *Formula) {
	f = x.c.simp(f)
	switch f.k {
	case FTrue:
		return
	case FFalse:
		panic(pathEnd{"assumption false"})
	}
	if f.k == FAnd {
		for _, a := range f.args {
			x.assume(a)
		}
		return
	}
	x.pc = append(x.pc, f)
	// record bounds of linear expressions are unconditional only; path facts stay in pc
}

func (x *Exec) live() bool { return x.tpos >= len(x.trace) }

func (x *Exec) emit(kind, desc string, goal *Formula) {
	if x.quiet > 0 || !x.live() {
		return
	}
	if x.concrete {
		return
	}
	g := x.c.simp(goal)
	o := &Obligation{ctx: x.c, goal: g, kind: kind, desc: desc, pos: x.pos(x.curPos), path: strings.Join(x.pathNote, "; ")}
	if len(x.callers) > 0 {
		o.pos += " (in " + strings.Join(x.callers, " < ") + ")"
	}
	if g.k != FTrue {
		o.hyps = append([]*Formula(nil), x.pc...)
	}
	x.obls = append(x.obls, o)
}

// check emits the obligation that cond holds here (else a panic happens) and assumes it.
func (x *Exec) check(cond *Formula, kind, desc string) {
	cond = x.c.simp(cond)
	if cond.k == FTrue {
		if x.quiet == 0 && x.live() && !x.concrete {
			atomic.AddInt64(&x.job.trivial, 1)
		}
		return
	}
	if x.quiet > 0 {
		if cond.k == FFalse {
			unsupported("specification evaluates an undefined term: %s", desc)
		}
		return
	}
	if pf := x.panicClause(); pf != nil {
		// panicking is allowed exactly when pf
		if x.fork(cond, kind) {
			return
		}
		x.doPanic(kind + ": " + desc)
	}
	if cond.k == FFalse {
		x.emit(kind, desc, fFalse)
		panic(pathEnd{"panic: " + desc})
	}
	x.emit(kind, desc, cond)
	x.assume(cond)
}

// panicClause returns the panics-clause of the function under verification.
func (x *Exec) panicClause() *Formula {
	if x.specEnv == nil {
		return nil
	}
	if pi := x.specEnv.panicsIf; pi != nil {
		return x.specGoal(x.specEnv, *pi)
	}
	if x.specEnv.panics == nil {
		return nil
	}
	return x.specEnv.panics
}

func (x *Exec) doPanic(desc string) {
	if pf := x.panicClause(); pf != nil {
		x.emit("panics-only-if", desc, pf)
	} else {
		x.emit("no-panic", desc, fFalse)
	}
	panic(pathEnd{"panic " + desc})
}

const maxPaths = 4000

func (x *Exec) fork(f *Formula, note string) bool {
	f = x.c.simp(f)
	if f.k == FTrue {
		return true
	}
	if f.k == FFalse {
		return false
	}
	if x.concrete {
		unsupported("undecided condition in constant evaluation: %s", x.c.show(f))
	}
	if x.tpos < len(x.trace) {
		d := x.trace[x.tpos]
		x.tpos++
		x.took(f, d.val, d.forced, note)
		return d.val
	}
	if x.v.expired() {
		panic(Unsupported{outOfTime})
	}
	nf := Not(f)
	var inT, inF bool
	if !x.noFeas {
		inT = x.infeasible(f)
		inF = x.infeasible(nf)
	}
	if inT && inF {
		panic(pathEnd{"infeasible"})
	}
	d := decision{val: !inT, forced: inT || inF}
	if !d.forced {
		alt := append(append([]decision(nil), x.trace[:x.tpos]...), decision{val: false})
		x.work.add(alt)
	}
	x.trace = append(x.trace[:x.tpos:x.tpos], d)
	x.tpos++
	x.took(f, d.val, d.forced, note)
	return d.val
}

func (x *Exec) took(f *Formula, val, forced bool, note string) {
	g := f
	if !val {
		g = Not(f)
	}
	if !forced {
		n := x.pos(x.curPos)
		if !val {
			n += " not"
		}
		x.pathNote = append(x.pathNote, n+" "+note)
	}
	g = x.c.simp(g)
	if g.k == FAnd {
		x.pc = append(x.pc, flatten([]*Formula{g})...)
	} else if g.k != FTrue {
		x.pc = append(x.pc, g)
	}
}

func (x *Exec) infeasible(f *Formula) bool {
	atomic.AddInt64(&x.job.feas, 1)
	return x.c.Infeasible(x.pc, f)
}

// ---------------------------------------------------------------- types

func (x *Exec) subst(fr *Frame, t types.Type) types.Type {
	for f := fr; f != nil; f = f.parent {
		if f.targs != nil {
			t = substType(t, f.targs)
		}
	}
	return t
}

func substType(t types.Type, m map[*types.TypeParam]types.Type) types.Type {
	switch u := t.(type) {
	case *types.TypeParam:
		if r, ok := m[u]; ok {
			return r
		}
		return t
	case *types.Alias:
		return substType(types.Unalias(t), m)
	case *types.Pointer:
		if e := substType(u.Elem(), m); e != u.Elem() {
			return types.NewPointer(e)
		}
	case *types.Slice:
		if e := substType(u.Elem(), m); e != u.Elem() {
			return types.NewSlice(e)
		}
	case *types.Array:
		if e := substType(u.Elem(), m); e != u.Elem() {
			return types.NewArray(e, u.Len())
		}
	case *types.Map:
		k, e := substType(u.Key(), m), substType(u.Elem(), m)
		if k != u.Key() || e != u.Elem() {
			return types.NewMap(k, e)
		}
	case *types.Named:
		ta := u.TypeArgs()
		if ta == nil || ta.Len() == 0 {
			return t
		}
		ch := false
		var as []types.Type
		for i := 0; i < ta.Len(); i++ {
			a := substType(ta.At(i), m)
			if a != ta.At(i) {
				ch = true
			}
			as = append(as, a)
		}
		if ch {
			r, err := types.Instantiate(nil, u.Origin(), as, false)
			if err == nil {
				return r
			}
		}
	case *types.Struct:
		ch := false
		var fs []*types.Var
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			ft := substType(f.Type(), m)
			if ft != f.Type() {
				ch = true
				f = types.NewField(f.Pos(), f.Pkg(), f.Name(), ft, f.Embedded())
			}
			fs = append(fs, f)
		}
		if ch {
			return types.NewStruct(fs, nil)
		}
	case *types.Signature:
		var conv func(tp *types.Tuple) (*types.Tuple, bool)
		conv = func(tp *types.Tuple) (*types.Tuple, bool) {
			ch := false
			var vs []*types.Var
			for i := 0; i < tp.Len(); i++ {
				v := tp.At(i)
				vt := substType(v.Type(), m)
				if vt != v.Type() {
					ch = true
					v = types.NewVar(v.Pos(), v.Pkg(), v.Name(), vt)
				}
				vs = append(vs, v)
			}
			return types.NewTuple(vs...), ch
		}
		p, c1 := conv(u.Params())
		r, c2 := conv(u.Results())
		if c1 || c2 {
			return types.NewSignatureType(nil, nil, nil, p, r, u.Variadic())
		}
	}
	return t
}

func (x *Exec) typeOf(fr *Frame, e ast.Expr) types.Type {
	if tv, ok := fr.pkg.info.Types[e]; ok && tv.Type != nil {
		return x.subst(fr, tv.Type)
	}
	if id, ok := e.(*ast.Ident); ok {
		if o := fr.pkg.info.Defs[id]; o != nil {
			return x.subst(fr, o.Type())
		}
		if o := fr.pkg.info.Uses[id]; o != nil {
			return x.subst(fr, o.Type())
		}
	}
	unsupported("no type for expression at %s", x.pos(e.Pos()))
	return nil
}

// ---------------------------------------------------------------- variables

func (fr *Frame) lookup(o types.Object) *Cell {
	for f := fr; f != nil; f = f.parent {
		if c, ok := f.vars[o]; ok {
			return c
		}
	}
	return nil
}

func (x *Exec) declare(fr *Frame, o types.Object, v Val) *Cell {
	t := x.subst(fr, o.Type())
	c := x.newCell(t, o.Name())
	if v != nil {
		x.store(c, v)
	}
	if o.Name() != "_" {
		fr.vars[o] = c
	}
	return c
}

func (x *Exec) global(v *types.Var) *Cell {
	if c, ok := x.globals[v]; ok {
		return c
	}
	c := x.v.globalInit(x, v)
	c.markPre()
	x.globals[v] = c
	return c
}

func (c *Cell) markPre() {
	c.pre = true
	for _, e := range c.elems {
		e.markPre()
	}
	if p, ok := c.v.(PtrV); ok && p.c != nil && !p.c.pre {
		p.c.markPre()
	}
}

// ---------------------------------------------------------------- constants

func (x *Exec) constVal(cv constant.Value, t types.Type) Val {
	switch cv.Kind() {
	case constant.Bool:
		return BoolV{fbool(constant.BoolVal(cv))}
	case constant.String:
		return StrV{constant.StringVal(cv)}
	case constant.Int:
		n := constBig(cv)
		if b, ok := under(t).(*types.Basic); ok && b.Info()&types.IsFloat != 0 {
			return OpaqueV{"float"}
		}
		return IntV{Const(n)}
	case constant.Float:
		if _, ok := intType(t); ok {
			iv := constant.ToInt(cv)
			if iv.Kind() == constant.Int {
				return IntV{Const(constBig(iv))}
			}
		}
		return OpaqueV{"float"}
	}
	unsupported("constant kind %v", cv.Kind())
	return nil
}

func constBig(cv constant.Value) *big.Int {
	n, ok := new(big.Int).SetString(cv.ExactString(), 10)
	if !ok {
		unsupported("constant %s", cv)
	}
	return n
}

// ---------------------------------------------------------------- expressions

func (x *Exec) intOf(v Val) *Poly {
	switch v := v.(type) {
	case IntV:
		return v.p
	case BigV:
		return v.p
	}
	unsupported("expected integer, have %T", v)
	return nil
}

func (x *Exec) boolOf(v Val) *Formula {
	if b, ok := v.(BoolV); ok {
		return b.f
	}
	unsupported("expected bool, have %T", v)
	return nil
}

func (x *Exec) tick() {
	x.steps++
	if x.steps > 3000000 {
		unsupported("step limit")
	}
}

func (x *Exec) eval(fr *Frame, e ast.Expr) Val {
	x.tick()
	if tv, ok := fr.pkg.info.Types[e]; ok {
		if tv.Value != nil {
			return x.constVal(tv.Value, x.subst(fr, tv.Type))
		}
		if tv.IsNil() {
			return NilV{}
		}
		if tv.IsType() {
			return TypeV{x.subst(fr, tv.Type)}
		}
	}
	switch e := e.(type) {
	case *ast.ParenExpr:
		return x.eval(fr, e.X)
	case *ast.Ident:
		o := fr.pkg.info.Uses[e]
		if o == nil {
			o = fr.pkg.info.Defs[e]
		}
		switch o := o.(type) {
		case *types.Var:
			return x.load(x.varCell(fr, o))
		case *types.Func:
			return FuncV{fn: o, targs: x.instArgs(fr, e), name: o.Name()}
		case *types.Nil:
			return NilV{}
		case *types.Const:
			return x.constVal(o.Val(), o.Type())
		}
		unsupported("identifier %s at %s", e.Name, x.pos(e.Pos()))
	case *ast.BasicLit:
		unsupported("literal without constant value")
	case *ast.FuncLit:
		return FuncV{lit: e, frame: fr, pkg: fr.pkg, name: fr.name + "$lit"}
	case *ast.CompositeLit:
		return x.compositeLit(fr, e, x.typeOf(fr, e))
	case *ast.SelectorExpr:
		if sel, ok := fr.pkg.info.Selections[e]; ok && sel.Kind() != types.FieldVal {
			if sel.Kind() == types.MethodVal {
				fn := sel.Obj().(*types.Func)
				recv := x.methodRecv(fr, e, sel)
				fn2, recv2 := x.resolveMethod(fr, fn, recv, sel)
				return FuncV{fn: fn2, recv: recv2, name: fn2.Name()}
			}
			return FuncV{fn: sel.Obj().(*types.Func), name: "methodexpr", mexpr: sel, frame: fr}
		}
		if _, ok := fr.pkg.info.Selections[e]; !ok {
			// qualified identifier
			switch o := fr.pkg.info.Uses[e.Sel].(type) {
			case *types.Var:
				return x.load(x.global(o))
			case *types.Func:
				return FuncV{fn: o, name: o.Name(), targs: x.instArgs(fr, e.Sel)}
			case *types.Const:
				return x.constVal(o.Val(), o.Type())
			}
			unsupported("selector %s", e.Sel.Name)
		}
		if x.addressable(fr, e) {
			return x.load(x.lvalue(fr, e))
		}
		v := x.eval(fr, e.X)
		return x.load(x.fieldPath(x.baseCell(v), fr.pkg.info.Selections[e].Index()))
	case *ast.StarExpr:
		return x.load(x.deref(x.eval(fr, e.X), "dereference"))
	case *ast.UnaryExpr:
		return x.unary(fr, e)
	case *ast.BinaryExpr:
		return x.binary(fr, e)
	case *ast.IndexExpr:
		// generic instantiation?
		if tv, ok := fr.pkg.info.Types[e.X]; ok {
			if _, isSig := tv.Type.Underlying().(*types.Signature); isSig {
				return x.instFunc(fr, e.X)
			}
		} else if id, ok := e.X.(*ast.Ident); ok {
			if _, isF := fr.pkg.info.Uses[id].(*types.Func); isF {
				return x.instFunc(fr, e.X)
			}
		}
		return x.indexExpr(fr, e)
	case *ast.IndexListExpr:
		return x.instFunc(fr, e.X)
	case *ast.SliceExpr:
		return x.sliceExpr(fr, e)
	case *ast.CallExpr:
		rs := x.call(fr, e)
		if len(rs) == 1 {
			return rs[0]
		}
		return TupleV(rs)
	case *ast.TypeAssertExpr:
		v, ok := x.typeAssert(fr, x.eval(fr, e.X), x.typeOf(fr, e.Type))
		x.check(ok, "type-assertion", "type assertion")
		return v
	}
	unsupported("expression %T at %s", e, x.pos(e.Pos()))
	return nil
}

func (x *Exec) instFunc(fr *Frame, e ast.Expr) Val {
	switch e := e.(type) {
	case *ast.Ident:
		return FuncV{fn: fr.pkg.info.Uses[e].(*types.Func), targs: x.instArgs(fr, e), name: e.Name}
	case *ast.SelectorExpr:
		return FuncV{fn: fr.pkg.info.Uses[e.Sel].(*types.Func), targs: x.instArgs(fr, e.Sel), name: e.Sel.Name}
	}
	unsupported("instantiation of %T", e)
	return nil
}

func (x *Exec) instArgs(fr *Frame, id *ast.Ident) []types.Type {
	in, ok := fr.pkg.info.Instances[id]
	if !ok {
		return nil
	}
	var r []types.Type
	for i := 0; i < in.TypeArgs.Len(); i++ {
		r = append(r, x.subst(fr, in.TypeArgs.At(i)))
	}
	return r
}

func (x *Exec) varCell(fr *Frame, o *types.Var) *Cell {
	if c := fr.lookup(o); c != nil {
		return c
	}
	if o.Pkg() != nil && o.Parent() == o.Pkg().Scope() {
		return x.global(o)
	}
	unsupported("variable %s not in scope", o.Name())
	return nil
}

func (x *Exec) baseCell(v Val) *Cell {
	switch v := v.(type) {
	case CompV:
		return v.c
	case PtrV:
		return x.deref(v, "field access")
	}
	unsupported("selector on %T", v)
	return nil
}

func (x *Exec) deref(v Val, what string) *Cell {
	switch v := v.(type) {
	case PtrV:
		if v.c == nil {
			x.check(fFalse, "nil-dereference", what)
		}
		return v.c
	case NilV:
		x.check(fFalse, "nil-dereference", what)
	}
	unsupported("dereference of %T", v)
	return nil
}

func (x *Exec) fieldPath(c *Cell, index []int) *Cell {
	for k, i := range index {
		if p, ok := c.v.(PtrV); ok && c.elems == nil {
			_ = k
			if x.oldMode != nil {
				p = x.load(c).(PtrV)
			}
			c = x.deref(p, "field access")
		}
		if c.elems == nil || i >= len(c.elems) {
			unsupported("field access into %v", c.typ)
		}
		c = c.elems[i]
	}
	return c
}

func (x *Exec) addressable(fr *Frame, e ast.Expr) bool {
	switch e := e.(type) {
	case *ast.ParenExpr:
		return x.addressable(fr, e.X)
	case *ast.Ident:
		_, ok := fr.pkg.info.Uses[e].(*types.Var)
		if !ok {
			_, ok = fr.pkg.info.Defs[e].(*types.Var)
		}
		return ok
	case *ast.StarExpr:
		return true
	case *ast.SelectorExpr:
		sel, ok := fr.pkg.info.Selections[e]
		if !ok {
			_, isv := fr.pkg.info.Uses[e.Sel].(*types.Var)
			return isv
		}
		if sel.Kind() != types.FieldVal {
			return false
		}
		if _, isP := under(x.typeOf(fr, e.X)).(*types.Pointer); isP {
			return true
		}
		return x.addressable(fr, e.X)
	case *ast.IndexExpr:
		switch under(x.typeOf(fr, e.X)).(type) {
		case *types.Slice, *types.Pointer:
			return true
		case *types.Array:
			return x.addressable(fr, e.X)
		}
		return false
	case *ast.CompositeLit:
		return true
	}
	return false
}

// lvalue returns the cell denoted by an addressable expression.
func (x *Exec) lvalue(fr *Frame, e ast.Expr) *Cell {
	x.tick()
	switch e := e.(type) {
	case *ast.ParenExpr:
		return x.lvalue(fr, e.X)
	case *ast.Ident:
		o, _ := fr.pkg.info.Uses[e].(*types.Var)
		if o == nil {
			o, _ = fr.pkg.info.Defs[e].(*types.Var)
		}
		if o == nil {
			unsupported("lvalue %s", e.Name)
		}
		return x.varCell(fr, o)
	case *ast.StarExpr:
		x.curPos = e.Pos()
		return x.deref(x.eval(fr, e.X), "dereference")
	case *ast.SelectorExpr:
		sel, ok := fr.pkg.info.Selections[e]
		if !ok {
			return x.global(fr.pkg.info.Uses[e.Sel].(*types.Var))
		}
		var base *Cell
		if _, isP := under(x.typeOf(fr, e.X)).(*types.Pointer); isP {
			x.curPos = e.Pos()
			base = x.deref(x.eval(fr, e.X), "field access")
		} else if x.addressable(fr, e.X) {
			base = x.lvalue(fr, e.X)
		} else {
			base = x.baseCell(x.eval(fr, e.X))
		}
		return x.fieldPath(base, sel.Index())
	case *ast.IndexExpr:
		switch under(x.typeOf(fr, e.X)).(type) {
		case *types.Slice:
			s := x.eval(fr, e.X)
			i := x.intOf(x.eval(fr, e.Index))
			x.curPos = e.Pos()
			return x.sliceElem(s, i, "index")
		case *types.Pointer:
			p := x.eval(fr, e.X)
			i := x.intOf(x.eval(fr, e.Index))
			x.curPos = e.Pos()
			return x.arrayElem(x.deref(p, "index through pointer"), i)
		case *types.Array:
			a := x.lvalue(fr, e.X)
			i := x.intOf(x.eval(fr, e.Index))
			x.curPos = e.Pos()
			return x.arrayElem(a, i)
		}
	case *ast.CompositeLit:
		v := x.eval(fr, e)
		if cv, ok := v.(CompV); ok {
			return cv.c
		}
		c := x.newCell(x.typeOf(fr, e), "lit")
		x.store(c, v)
		return c
	}
	unsupported("lvalue %T", e)
	return nil
}

// concretize forks until p is a constant.
func (x *Exec) concretize(p *Poly, lo, hi int64, what string) int64 {
	if c, ok := p.IsConst(); ok {
		return c.Int64()
	}
	iv := x.c.Iv(p)
	if iv.lo != nil && iv.lo.IsInt64() && iv.lo.Int64() > lo {
		lo = iv.lo.Int64()
	}
	if iv.hi != nil && iv.hi.IsInt64() && iv.hi.Int64() < hi {
		hi = iv.hi.Int64()
	}
	if hi-lo > 1100 {
		unsupported("cannot concretize %s in [%d,%d]", what, lo, hi)
	}
	// binary search by forking
	for lo < hi {
		mid := lo + (hi-lo)/2
		if x.fork(Le(p, ConstI(mid)), what) {
			hi = mid
		} else {
			lo = mid + 1
		}
	}
	x.assume(EqP(p, ConstI(lo)))
	return lo
}

// specUndef: a term of a specification has no value (an index is out of range).
type specUndef struct{}

// specIndex: specifications may mention elements that do not exist, where a
// guard makes them irrelevant.
func (x *Exec) specIndex(i *Poly, n int) {
	if x.quiet == 0 {
		return
	}
	if c, ok := i.IsConst(); ok {
		if c.Sign() < 0 || c.Cmp(bi(int64(n))) >= 0 {
			panic(specUndef{})
		}
		return
	}
	if !x.fork(And(Ge0(i), Lt(i, ConstI(int64(n)))), "index in range") {
		panic(specUndef{})
	}
}

// defined evaluates a part of a specification; undef says that it has no value.
func (x *Exec) defined(f func() *Formula) (r *Formula, undef bool) {
	pol, univ, quiet, old, wl := x.pol, x.univ, x.quiet, x.oldMode, x.writeLog
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(specUndef); !ok {
				panic(e)
			}
			x.pol, x.univ, x.quiet, x.oldMode, x.writeLog = pol, univ, quiet, old, wl
			r, undef = nil, true
		}
	}()
	return f(), false
}

// unspecified stands for a formula without a value: nothing follows from it and
// it cannot be proved.
func (x *Exec) unspecified() *Formula {
	switch {
	case x.pol > 0:
		return fFalse
	case x.pol < 0:
		return fTrue
	}
	panic(specUndef{}) // left to the formula around it
}

func (x *Exec) arrayElem(a *Cell, i *Poly) *Cell {
	n := int64(len(a.elems))
	if a.elems == nil {
		unsupported("index into %v", a.typ)
	}
	x.check(And(Ge0(i), Lt(i, ConstI(n))), "index-in-range", fmt.Sprintf("array index within [0,%d)", n))
	x.specIndex(i, int(n))
	k := x.concretize(i, 0, n-1, "array index")
	return a.elems[k]
}

func (x *Exec) sliceElem(s Val, i *Poly, what string) *Cell {
	if _, ok := s.(NilV); ok {
		s = SliceV{}
	}
	sv, ok := s.(SliceV)
	if !ok {
		unsupported("index into %T", s)
	}
	if sv.arr == nil {
		x.check(fFalse, "index-in-range", "index into nil slice")
	}
	x.check(And(Ge0(i), Lt(i, sv.len)), "index-in-range", "slice index in range")
	return x.sliceAt(sv, i)
}

func (x *Exec) sliceAt(sv SliceV, i *Poly) *Cell {
	idx := sv.off.Add(i)
	if sv.arr.sq() != nil {
		return x.seqElem(sv.arr, idx)
	}
	x.specIndex(idx, len(sv.arr.elems))
	k := x.concretize(idx, 0, int64(len(sv.arr.elems))-1, "slice index")
	if k < 0 || k >= int64(len(sv.arr.elems)) {
		panic(pathEnd{"index outside backing array"})
	}
	return sv.arr.elems[k]
}

// seqElem finds (or creates) the cell of element idx of a symbolic sequence.
func (x *Exec) seqElem(arr *Cell, idx *Poly) *Cell {
	s := x.seqOf(arr)
	k := idx.Key()
	if c, ok := s.elems[k]; ok {
		return c
	}
	for _, k2 := range s.order {
		if s.immut && x.quiet > 0 {
			break // a fresh copy of the element says less about it
		}
		d := idx.Sub(s.idx[k2])
		f := x.c.simp(Eq0(d))
		if f.k == FFalse {
			continue
		}
		if f.k == FTrue {
			s.elems[k] = s.elems[k2]
			return s.elems[k2]
		}
		if x.quiet > 0 && x.simpleElem(s.elem) {
			return x.seqRead(arr, idx)
		}
		if x.fork(Eq0(d), "same element") {
			s.elems[k] = s.elems[k2]
			return s.elems[k2]
		}
	}
	if x.quiet > 0 && x.simpleElem(s.elem) {
		return x.seqRead(arr, idx)
	}
	c := x.newCell(s.elem, s.name+"["+x.c.showPoly(idx)+"]")
	saved := x.writeLog
	x.writeLog = nil
	x.symCell(c, s.name+"["+k+"]")
	x.writeLog = saved
	if arr.pre {
		c.markPre()
	}
	s.elems[k] = c
	s.idx[k] = idx
	s.order = append(s.order, k)
	c.owner, c.inSeq = arr, s
	c.scalars(func(d *Cell) { d.owner, d.inSeq = arr, s })
	if x.simpleElem(s.elem) {
		c.v = x.seqBase(arr, idx)
		return c
	}
	for _, f := range s.onNew {
		f(idx, c)
	}
	return c
}

// simpleElem: element types whose values are compared by one formula.
func (x *Exec) simpleElem(t types.Type) bool {
	if n, ok := types.Unalias(t).(*types.Named); ok && strings.HasPrefix(n.Obj().Name(), "Any_") {
		return true
	}
	_, ok := intType(t)
	return ok
}

func valID(x *Exec, v Val) string {
	switch v := v.(type) {
	case IntV:
		return v.p.Key()
	case IfaceV:
		return x.ifaceID(v)
	}
	return ""
}

// seqBase: the initial content of the sequence at idx.
func (x *Exec) seqBase(arr *Cell, idx *Poly) Val {
	s := x.seqOf(arr)
	k := idx.Key()
	if v, ok := s.base[k]; ok {
		return v
	}
	c := x.newCell(s.elem, s.name+"["+x.c.showPoly(idx)+"]")
	saved := x.writeLog
	x.writeLog = nil
	x.symCell(c, s.name+"["+k+"]")
	x.writeLog = saved
	for _, f := range s.onNew {
		f(idx, c)
	}
	if s.base == nil {
		s.base = map[string]Val{}
	}
	for _, k2 := range s.baseOrder {
		d := idx.Sub(s.baseIdx[k2])
		if f := x.c.simp(Eq0(d)); f.k != FFalse {
			x.assume(Implies(f, x.equal(c.v, s.base[k2])))
		}
	}
	if s.baseIdx == nil {
		s.baseIdx = map[string]*Poly{}
	}
	s.base[k] = c.v
	s.baseIdx[k] = idx
	s.baseOrder = append(s.baseOrder, k)
	return c.v
}

// seqRead: the current content at idx, as a value (used in specifications).
func (x *Exec) seqRead(arr *Cell, idx *Poly) *Cell {
	s := x.seqOf(arr)
	type alt struct {
		f *Formula
		v Val
	}
	var alts []alt
	key := idx.Key()
	seen := map[*Cell]bool{}
	for _, k2 := range s.order {
		c := s.elems[k2]
		if seen[c] {
			continue
		}
		seen[c] = true
		f := x.c.simp(Eq0(idx.Sub(s.idx[k2])))
		if f.k == FFalse {
			continue
		}
		v := x.load(c)
		alts = append(alts, alt{f, v})
		key += "|" + k2 + "=" + valID(x, v)
	}
	if len(alts) == 0 {
		return &Cell{typ: s.elem, name: s.name, v: x.seqBase(arr, idx)}
	}
	if v, ok := s.reads[key]; ok {
		return &Cell{typ: s.elem, name: s.name, v: v}
	}
	b := x.seqBase(arr, idx)
	v := x.symScalar(s.elem, x.freshName(s.name+"["+x.c.showPoly(idx)+"]"))
	none := fTrue
	for _, a := range alts {
		x.assume(Implies(a.f, x.equal(v, a.v)))
		none = And(none, Not(a.f))
	}
	x.assume(Implies(none, x.equal(v, b)))
	if s.reads == nil {
		s.reads = map[string]Val{}
	}
	s.reads[key] = v
	return &Cell{typ: s.elem, name: s.name, v: v}
}

func (x *Exec) indexExpr(fr *Frame, e *ast.IndexExpr) Val {
	t := under(x.typeOf(fr, e.X))
	switch u := t.(type) {
	case *types.Map:
		m := x.eval(fr, e.X)
		k := x.eval(fr, e.Index)
		v, _ := x.mapGet(m, k, u)
		return v
	case *types.Basic: // string
		s := x.eval(fr, e.X)
		i := x.intOf(x.eval(fr, e.Index))
		return x.strIndex(s, i)
	case *types.Array:
		if !x.addressable(fr, e.X) {
			a := x.eval(fr, e.X).(CompV)
			i := x.intOf(x.eval(fr, e.Index))
			return x.load(x.arrayElem(a.c, i))
		}
	}
	return x.load(x.lvalue(fr, e))
}

func (x *Exec) sliceExpr(fr *Frame, e *ast.SliceExpr) Val {
	t := under(x.typeOf(fr, e.X))
	get := func(ex ast.Expr, def *Poly) *Poly {
		if ex == nil {
			return def
		}
		return x.intOf(x.eval(fr, ex))
	}
	switch u := t.(type) {
	case *types.Basic:
		s := x.eval(fr, e.X)
		return x.strSlice(s, func(d *Poly) *Poly { return get(e.Low, newPoly()) }, func(d *Poly) *Poly { return get(e.High, d) })
	case *types.Slice:
		s := x.eval(fr, e.X)
		sv, ok := s.(SliceV)
		if !ok {
			sv = SliceV{}
		}
		if sv.arr == nil {
			sv.off, sv.len, sv.cap = newPoly(), newPoly(), newPoly()
		}
		lo := get(e.Low, newPoly())
		hi := get(e.High, sv.len)
		mx := get(e.Max, sv.cap)
		x.curPos = e.Pos()
		x.check(And(Ge0(lo), Le(lo, hi), Le(hi, mx), Le(mx, sv.cap)), "slice-bounds", "slice bounds in range")
		if sv.arr == nil {
			return SliceV{}
		}
		return SliceV{arr: sv.arr, off: sv.off.Add(lo), len: hi.Sub(lo), cap: mx.Sub(lo), maybeNil: sv.maybeNil}
	case *types.Array, *types.Pointer:
		var a *Cell
		if _, ok := u.(*types.Pointer); ok {
			a = x.deref(x.eval(fr, e.X), "slice of array pointer")
		} else {
			a = x.lvalue(fr, e.X)
		}
		n := ConstI(int64(len(a.elems)))
		lo := get(e.Low, newPoly())
		hi := get(e.High, n)
		mx := get(e.Max, n)
		x.curPos = e.Pos()
		x.check(And(Ge0(lo), Le(lo, hi), Le(hi, mx), Le(mx, n)), "slice-bounds", "slice bounds in range")
		return SliceV{arr: a, off: lo, len: hi.Sub(lo), cap: mx.Sub(lo)}
	}
	unsupported("slice of %v", t)
	return nil
}

func (x *Exec) unary(fr *Frame, e *ast.UnaryExpr) Val {
	switch e.Op {
	case token.AND:
		if cl, ok := ast.Unparen(e.X).(*ast.CompositeLit); ok {
			t := x.typeOf(fr, cl)
			v := x.compositeLit(fr, cl, t)
			c := x.newCell(t, "&lit")
			x.store(c, v)
			return PtrV{c}
		}
		return PtrV{x.lvalue(fr, e.X)}
	case token.NOT:
		return BoolV{Not(x.boolOf(x.eval(fr, e.X)))}
	case token.SUB:
		t := x.typeOf(fr, e)
		ii, ok := intType(t)
		if !ok {
			unsupported("negation of %v", t)
		}
		return IntV{x.c.wrap(x.intOf(x.eval(fr, e.X)).Neg(), ii)}
	case token.XOR:
		t := x.typeOf(fr, e)
		ii, ok := intType(t)
		if !ok {
			unsupported("complement of %v", t)
		}
		p := x.intOf(x.eval(fr, e.X))
		if ii.signed {
			return IntV{ConstI(-1).Sub(p)}
		}
		return IntV{Const(new(big.Int).Sub(pow2(ii.w), bigOne)).Sub(p)}
	case token.ADD:
		return x.eval(fr, e.X)
	}
	unsupported("unary %s", e.Op)
	return nil
}

func (x *Exec) binary(fr *Frame, e *ast.BinaryExpr) Val {
	switch e.Op {
	case token.LAND, token.LOR:
		a := x.boolOf(x.eval(fr, e.X))
		if e.Op == token.LAND && a.k == FFalse {
			return BoolV{fFalse}
		}
		if e.Op == token.LOR && a.k == FTrue {
			return BoolV{fTrue}
		}
		if x.pureExpr(fr, e.Y) {
			b := x.boolOf(x.eval(fr, e.Y))
			if e.Op == token.LAND {
				return BoolV{And(a, b)}
			}
			return BoolV{Or(a, b)}
		}
		x.curPos = e.Pos()
		if x.fork(a, "&&/||") {
			if e.Op == token.LOR {
				return BoolV{fTrue}
			}
			return x.eval(fr, e.Y)
		}
		if e.Op == token.LAND {
			return BoolV{fFalse}
		}
		return x.eval(fr, e.Y)
	}
	a := x.eval(fr, e.X)
	b := x.eval(fr, e.Y)
	x.curPos = e.Pos()
	switch e.Op {
	case token.EQL, token.NEQ:
		f := x.equal(a, b)
		if e.Op == token.NEQ {
			f = Not(f)
		}
		return BoolV{f}
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		if sa, ok := a.(StrV); ok {
			if sb, ok := b.(StrV); ok {
				return BoolV{fbool(map[token.Token]bool{token.LSS: sa.s < sb.s, token.LEQ: sa.s <= sb.s, token.GTR: sa.s > sb.s, token.GEQ: sa.s >= sb.s}[e.Op])}
			}
		}
		return BoolV{cmpPoly(e.Op, x.intOf(a), x.intOf(b))}
	}
	t := x.typeOf(fr, e)
	return x.arith(e.Op, a, b, t)
}

func cmpPoly(op token.Token, p, q *Poly) *Formula {
	switch op {
	case token.LSS:
		return Lt(p, q)
	case token.LEQ:
		return Le(p, q)
	case token.GTR:
		return Lt(q, p)
	}
	return Le(q, p)
}

// pureExpr: evaluating e has no side effects, cannot panic.
func (x *Exec) pureExpr(fr *Frame, e ast.Expr) bool {
	switch e := e.(type) {
	case *ast.ParenExpr:
		return x.pureExpr(fr, e.X)
	case *ast.Ident, *ast.BasicLit:
		return true
	case *ast.BinaryExpr:
		if e.Op == token.QUO || e.Op == token.REM || e.Op == token.SHL || e.Op == token.SHR {
			return false
		}
		return x.pureExpr(fr, e.X) && x.pureExpr(fr, e.Y)
	case *ast.UnaryExpr:
		return e.Op == token.NOT && x.pureExpr(fr, e.X)
	case *ast.SelectorExpr:
		if s, ok := fr.pkg.info.Selections[e]; ok && s.Kind() == types.FieldVal {
			if _, isP := under(x.typeOf(fr, e.X)).(*types.Pointer); isP {
				return false
			}
			return x.pureExpr(fr, e.X)
		}
		return false
	case *ast.IndexExpr:
		if _, ok := under(x.typeOf(fr, e.X)).(*types.Array); ok {
			tv := fr.pkg.info.Types[e.Index]
			return tv.Value != nil && x.pureExpr(fr, e.X)
		}
	}
	return false
}

func (x *Exec) equal(a, b Val) *Formula {
	if _, ok := a.(NilV); ok {
		a, b = b, a
	}
	if _, ok := b.(NilV); ok {
		switch a := a.(type) {
		case NilV:
			return fTrue
		case PtrV:
			return fbool(a.c == nil)
		case SliceV:
			if a.arr == nil {
				return fTrue
			}
			if a.maybeNil != nil {
				return a.maybeNil
			}
			return fFalse
		case IfaceV:
			return x.ifaceNil(a)
		case FuncV:
			return fbool(a.fn == nil && a.lit == nil && a.name == "")
		case MapV:
			return x.mapNil(a)
		}
		unsupported("comparison of %T with nil", a)
	}
	switch a := a.(type) {
	case IntV:
		return EqP(a.p, x.intOf(b))
	case BigV:
		return EqP(a.p, x.intOf(b))
	case BoolV:
		return Iff(a.f, x.boolOf(b))
	case PtrV:
		if bp, ok := b.(PtrV); ok {
			if a.c != bp.c && a.c != nil && bp.c != nil && (x.unkPtr[a.c] || x.unkPtr[bp.c]) {
				unsupported("comparison of pointers returned by functions that are not inlined")
			}
			return fbool(a.c == bp.c)
		}
	case StrV, SymStr:
		return x.strEqual(a, b)
	case CompV:
		bc, ok := b.(CompV)
		if ok && len(bc.c.elems) == len(a.c.elems) {
			f := fTrue
			for i := range a.c.elems {
				f = And(f, x.equal(x.rawVal(a.c.elems[i]), x.rawVal(bc.c.elems[i])))
			}
			return f
		}
	case FEV:
		unsupported("Go == on an abstract field element (representation comparison)")
	case IfaceV:
		bi, ok := b.(IfaceV)
		if ok && a.typ != nil && bi.typ != nil {
			if !types.Identical(a.typ, bi.typ) {
				return fFalse
			}
			return x.equal(a.v, bi.v)
		}
		if ok && a.sym != "" && a.sym == bi.sym {
			return fTrue
		}
		if ok && a.typ == nil && a.sym == "" {
			return x.ifaceNil(bi)
		}
		if ok && bi.typ == nil && bi.sym == "" {
			return x.ifaceNil(a)
		}
		if ok {
			return x.ifaceEq(a, bi)
		}
		if a.typ != nil {
			return x.equal(a.v, b)
		}
	}
	if bi, ok := b.(IfaceV); ok && bi.typ != nil {
		return x.equal(a, bi.v)
	}
	unsupported("comparison of %T and %T", a, b)
	return nil
}

func (x *Exec) rawVal(c *Cell) Val {
	if c.elems != nil {
		return CompV{c}
	}
	return c.v
}

// symEq: an uninterpreted equality between two opaque identities.
func (x *Exec) symEq(a, b string) *Formula {
	if a == b {
		return fTrue
	}
	return EqP(x.c.Input("id("+a+")", nil, nil), x.c.Input("id("+b+")", nil, nil))
}

// ifaceEq: equal identities have the same nilness, two nil interfaces are equal.
func (x *Exec) ifaceEq(a, b IfaceV) *Formula {
	f := x.symEq(x.ifaceID(a), x.ifaceID(b))
	if f.k == FTrue {
		return f
	}
	an, bn := x.ifaceNil(a), x.ifaceNil(b)
	if an.k == FFalse && bn.k == FFalse {
		return f
	}
	x.assume(Implies(f, Iff(an, bn)))
	x.assume(Implies(And(an, bn), f))
	return f
}

func (x *Exec) ifaceID(i IfaceV) string {
	if i.sym != "" {
		return i.sym
	}
	if i.typ == nil {
		return "nil"
	}
	switch v := i.v.(type) {
	case PtrV:
		if v.c != nil {
			return "ptr:" + v.c.name + "@" + strconv.Itoa(v.c.id)
		}
		return "nilptr:" + i.typ.String()
	case IntV:
		return i.typ.String() + ":" + v.p.Key()
	case StrV:
		return i.typ.String() + ":" + strconv.Quote(v.s)
	}
	return fmt.Sprintf("%s:%p", i.typ, i.v)
}

func (x *Exec) ifaceNil(i IfaceV) *Formula {
	if i.sym != "" {
		if i.mayNil {
			return EqP(x.c.Input("isnil("+i.sym+")", bigZero, bigOne), ConstI(1))
		}
		return fFalse
	}
	return fbool(i.typ == nil)
}

// ---------------------------------------------------------------- arithmetic

// wrapInt reduces p to the machine type; signed results that the path condition
// keeps in range are left alone.
func (x *Exec) wrapInt(p *Poly, ii intInfo) *Poly {
	r := x.c.wrap(p, ii)
	if !ii.signed || r.Key() == p.Key() || x.concrete || x.quiet > 0 {
		return r
	}
	lo, hi := ii.bounds()
	if x.infeasible(Lt(Const(hi), p)) && x.infeasible(Lt(p, Const(lo))) {
		return p
	}
	return r
}

func (x *Exec) arith(op token.Token, a, b Val, t types.Type) Val {
	if as, ok := a.(StrV); ok {
		if bs, ok := b.(StrV); ok && op == token.ADD {
			return StrV{as.s + bs.s}
		}
	}
	switch a.(type) {
	case StrV, SymStr:
		return x.strConcat(a, b)
	case OpaqueV:
		return OpaqueV{"arith"}
	}
	ii, ok := intType(t)
	if !ok {
		if bb, isb := under(t).(*types.Basic); isb && bb.Info()&types.IsFloat != 0 {
			return OpaqueV{"float"}
		}
		unsupported("arithmetic %s on %v", op, t)
	}
	p, q := x.intOf(a), x.intOf(b)
	switch op {
	case token.ADD:
		return IntV{x.wrapInt(p.Add(q), ii)}
	case token.SUB:
		return IntV{x.wrapInt(p.Sub(q), ii)}
	case token.MUL:
		return IntV{x.wrapInt(p.Mul(q), ii)}
	case token.QUO, token.REM:
		d, isc := q.IsConst()
		if !isc {
			x.check(Not(Eq0(q)), "division-by-zero", "divisor non-zero")
			iv := x.c.Iv(q)
			if iv.lo != nil && iv.hi != nil && new(big.Int).Sub(iv.hi, iv.lo).Cmp(bi(64)) <= 0 {
				d = bi(x.concretize(q, iv.lo.Int64(), iv.hi.Int64(), "divisor"))
			} else {
				unsupported("division by a symbolic value")
			}
		}
		if d.Sign() == 0 {
			x.check(fFalse, "division-by-zero", "divisor non-zero")
		}
		quo := x.truncDiv(p, d)
		if op == token.QUO {
			return IntV{x.c.wrap(quo, ii)}
		}
		return IntV{p.Sub(quo.Scale(d))}
	case token.SHL:
		iv := x.c.Iv(q)
		if iv.lo == nil || iv.lo.Sign() < 0 {
			x.check(Ge0(q), "shift-count", "non-negative shift count")
		}
		if iv.lo != nil && iv.lo.Cmp(bi(int64(ii.w))) >= 0 {
			return IntV{newPoly()}
		}
		if _, isc := q.IsConst(); !isc && !x.fork(Lt(q, ConstI(int64(ii.w))), "shift count below word size") {
			return IntV{newPoly()}
		}
		k := x.concretize(q, 0, int64(ii.w)-1, "shift count")
		return IntV{x.c.wrap(p.Scale(pow2(uint(k))), ii)}
	case token.SHR:
		iv := x.c.Iv(q)
		if iv.lo == nil || iv.lo.Sign() < 0 {
			x.check(Ge0(q), "shift-count", "non-negative shift count")
		}
		over := func() Val {
			if ii.signed {
				return IntV{x.c.FloorDiv(p, pow2(ii.w))}
			}
			return IntV{newPoly()}
		}
		if iv.lo != nil && iv.lo.Cmp(bi(int64(ii.w))) >= 0 {
			return over()
		}
		if _, isc := q.IsConst(); !isc && !x.fork(Lt(q, ConstI(int64(ii.w))), "shift count below word size") {
			return over()
		}
		k := x.concretize(q, 0, int64(ii.w)-1, "shift count")
		return IntV{x.c.FloorDiv(p, pow2(uint(k)))}
	case token.AND:
		return IntV{x.bitAnd(p, q, ii)}
	case token.OR:
		if x.disjointBits(p, q) {
			return IntV{p.Add(q)}
		}
		return IntV{p.Add(q).Sub(x.bitAnd(p, q, ii))}
	case token.XOR:
		if x.disjointBits(p, q) {
			return IntV{p.Add(q)}
		}
		return IntV{p.Add(q).Sub(x.bitAnd(p, q, ii).ScaleI(2))}
	case token.AND_NOT:
		return IntV{p.Sub(x.bitAnd(p, q, ii))}
	}
	unsupported("operator %s", op)
	return nil
}

// truncDiv: Go's division by constant d != 0.
func (x *Exec) truncDiv(p *Poly, d *big.Int) *Poly {
	neg := d.Sign() < 0
	ad := new(big.Int).Abs(d)
	var q *Poly
	iv := x.c.Iv(p)
	if iv.lo != nil && iv.lo.Sign() >= 0 {
		q = x.c.FloorDiv(p, ad)
	} else if iv.hi != nil && iv.hi.Sign() <= 0 {
		q = x.c.FloorDiv(p.Neg(), ad).Neg()
	} else if x.fork(Ge0(p), "sign of dividend") {
		q = x.c.FloorDiv(p, ad)
	} else {
		q = x.c.FloorDiv(p.Neg(), ad).Neg()
	}
	if neg {
		q = q.Neg()
	}
	return q
}

func (x *Exec) disjointBits(p, q *Poly) bool {
	f := func(a, b *Poly) bool {
		// a multiple of 2^k, 0 <= b < 2^k
		g := a.gcdNonConst()
		g = new(big.Int).GCD(nil, nil, g, new(big.Int).Abs(a.ConstPart()))
		if g.Sign() == 0 {
			return true
		}
		k := g.TrailingZeroBits()
		iv := x.c.Iv(b)
		iva := x.c.Iv(a)
		return iv.lo != nil && iv.lo.Sign() >= 0 && iv.hi != nil && iv.hi.Cmp(pow2(k)) < 0 && iva.lo != nil && iva.lo.Sign() >= 0
	}
	return f(p, q) || f(q, p)
}

// maskBits: p = (2^k-1)*2^s*B with B in {0,1}?
func (x *Exec) maskForm(p *Poly) (b *Poly, mask *big.Int, ok bool) {
	if _, isc := p.IsConst(); isc {
		return nil, nil, false
	}
	base, g, k := prim(p)
	if k.Sign() != 0 {
		// maybe p = M - M*B
		if new(big.Int).Add(k, g).Sign() == 0 {
			iv := x.c.Iv(base)
			if iv.lo != nil && iv.hi != nil && iv.lo.Sign() >= 0 && iv.hi.Cmp(bigOne) <= 0 {
				return ConstI(1).Sub(base), k, true
			}
		}
		return nil, nil, false
	}
	iv := x.c.Iv(base)
	if iv.lo != nil && iv.hi != nil && iv.lo.Sign() >= 0 && iv.hi.Cmp(bigOne) <= 0 {
		return base, g, true
	}
	if iv.lo != nil && iv.hi != nil && iv.lo.Cmp(bi(-1)) >= 0 && iv.hi.Sign() <= 0 {
		return base.Neg(), new(big.Int).Neg(g), true
	}
	return nil, nil, false
}

func (x *Exec) bitAnd(p, q *Poly, ii intInfo) *Poly {
	pc, ok1 := p.IsConst()
	qc, ok2 := q.IsConst()
	if ok1 && ok2 {
		return Const(new(big.Int).And(pc, qc))
	}
	if ok1 {
		return x.andConst(q, pc, ii)
	}
	if ok2 {
		return x.andConst(p, qc, ii)
	}
	if p.Key() == q.Key() {
		return p
	}
	if b, m, ok := x.maskForm(p); ok {
		return b.Mul(x.andConst(q, m, ii))
	}
	if b, m, ok := x.maskForm(q); ok {
		return b.Mul(x.andConst(p, m, ii))
	}
	if x.disjointBits(p, q) {
		return newPoly()
	}
	if ii.signed {
		unsupported("bitwise and of signed symbolic values")
	}
	k1, k2 := p.Key(), q.Key()
	if k2 < k1 {
		p, q = q, p
		k1, k2 = k2, k1
	}
	iv := Interval{bigZero, nil}
	for _, r := range []*Poly{p, q} {
		if i := x.c.Iv(r); i.hi != nil && (iv.hi == nil || i.hi.Cmp(iv.hi) < 0) {
			iv.hi = i.hi
		}
	}
	a := x.c.newAtom("and("+k1+","+k2+")", AAnd, iv)
	if a.p == nil {
		a.p, a.q, a.w = p, q, ii.w
		ap := atomPoly(a.id)
		_, hi := ii.bounds()
		a.facts = []*Formula{Le(ap, p), Le(ap, q), Le(p.Add(q).Sub(ap), Const(hi))} // or == 0 iff both zero

	}
	return atomPoly(a.id)
}

// andConst: p & m for a constant m.
func (x *Exec) andConst(p *Poly, m *big.Int, ii intInfo) *Poly {
	if m.Sign() < 0 { // two's complement constant of a signed type
		m = new(big.Int).Add(m, pow2(ii.w))
		if ii.signed {
			// result sign handling: p & m with m negative
			r := newPoly()
			rr := x.andConst(p, new(big.Int).And(m, new(big.Int).Sub(pow2(ii.w-1), bigOne)), ii)
			// sign bit kept: -2^(w-1) if p<0
			s := x.c.FloorDiv(p, pow2(ii.w-1)) // -1 or 0
			r = rr.Add(s.Scale(pow2(ii.w - 1)))
			return r
		}
	}
	r := newPoly()
	i := uint(0)
	n := uint(m.BitLen())
	for i < n {
		if m.Bit(int(i)) == 0 {
			i++
			continue
		}
		j := i
		for j < n && m.Bit(int(j)) == 1 {
			j++
		}
		f := x.c.FloorDiv(p, pow2(i))
		iv := x.c.Iv(f)
		if !(iv.lo != nil && iv.lo.Sign() >= 0 && iv.hi != nil && iv.hi.Cmp(pow2(j-i)) < 0) {
			f = f.Sub(x.c.FloorDiv(p, pow2(j)).Scale(pow2(j - i)))
			x.c.setBounds(f, Interval{bigZero, new(big.Int).Sub(pow2(j-i), bigOne)})
		}
		r = r.Add(f.Scale(pow2(i)))
		i = j
	}
	return r
}

// ---------------------------------------------------------------- literals

func (x *Exec) compositeLit(fr *Frame, e *ast.CompositeLit, t types.Type) Val {
	elemVal := func(ex ast.Expr, et types.Type) Val {
		if cl, ok := ex.(*ast.CompositeLit); ok && cl.Type == nil {
			if p, isP := under(et).(*types.Pointer); isP {
				v := x.compositeLit(fr, cl, p.Elem())
				c := x.newCell(p.Elem(), "&lit")
				x.store(c, v)
				return PtrV{c}
			}
			return x.compositeLit(fr, cl, et)
		}
		return x.convertTo(x.eval(fr, ex), x.typeOf(fr, ex), et)
	}
	if k, ok := x.abstractKind(t); ok {
		_ = k
		return x.v.constAbstract(x, fr, e, t)
	}
	switch u := under(t).(type) {
	case *types.Struct:
		c := x.newCell(t, "lit")
		for i, el := range e.Elts {
			if kv, ok := el.(*ast.KeyValueExpr); ok {
				name := kv.Key.(*ast.Ident).Name
				for j := 0; j < u.NumFields(); j++ {
					if u.Field(j).Name() == name {
						x.store(c.elems[j], elemVal(kv.Value, u.Field(j).Type()))
					}
				}
			} else {
				x.store(c.elems[i], elemVal(el, u.Field(i).Type()))
			}
		}
		return CompV{c}
	case *types.Array, *types.Slice:
		var et types.Type
		var n int64
		idx := int64(0)
		type ent struct {
			i int64
			e ast.Expr
		}
		var es []ent
		for _, el := range e.Elts {
			ex := el
			if kv, ok := el.(*ast.KeyValueExpr); ok {
				k := x.intOf(x.eval(fr, kv.Key))
				kc, ok := k.IsConst()
				if !ok {
					unsupported("non-constant literal index")
				}
				idx = kc.Int64()
				ex = kv.Value
			}
			es = append(es, ent{idx, ex})
			idx++
			if idx > n {
				n = idx
			}
		}
		if a, ok := u.(*types.Array); ok {
			et = a.Elem()
			c := x.newCell(t, "lit")
			for _, en := range es {
				x.store(c.elems[en.i], elemVal(en.e, et))
			}
			return CompV{c}
		}
		et = u.(*types.Slice).Elem()
		s := x.concreteSlice(t, int(n), "lit").(SliceV)
		for _, en := range es {
			x.store(s.arr.elems[en.i], elemVal(en.e, et))
		}
		return s
	case *types.Map:
		m := x.makeMap(t)
		for _, el := range e.Elts {
			kv := el.(*ast.KeyValueExpr)
			x.mapSet(m, elemVal(kv.Key, u.Key()), elemVal(kv.Value, u.Elem()), u)
		}
		return m
	}
	unsupported("composite literal of %v", t)
	return nil
}

// convertTo: implicit conversion on assignment (to interfaces, nil).
func (x *Exec) convertTo(v Val, from, to types.Type) Val {
	if to == nil {
		return v
	}
	if _, isNil := v.(NilV); isNil {
		return x.zeroVal(to)
	}
	if _, isI := under(to).(*types.Interface); isI {
		if _, tp := types.Unalias(to).(*types.TypeParam); tp {
			return v
		}
		if _, already := v.(IfaceV); already {
			if _, fromI := under(from).(*types.Interface); fromI {
				return v
			}
			return v
		}
		if b, ok := from.(*types.Basic); ok && b.Info()&types.IsUntyped != 0 {
			from = types.Default(from)
		}
		return IfaceV{typ: from, v: v}
	}
	return v
}

// conversion T(v)
func (x *Exec) conversion(v Val, from, to types.Type) Val {
	if _, isI := under(to).(*types.Interface); isI {
		return x.convertTo(v, from, to)
	}
	if ii, ok := intType(to); ok {
		switch v := v.(type) {
		case IntV:
			return IntV{x.c.wrap(v.p, ii)}
		case OpaqueV:
			unsupported("conversion of opaque value to integer")
		}
	}
	if _, isNil := v.(NilV); isNil {
		return x.zeroVal(to)
	}
	if b, ok := under(to).(*types.Basic); ok && b.Info()&types.IsString != 0 {
		switch s := v.(type) {
		case StrV, SymStr:
			return v
		case SliceV:
			return x.bytesToString(s)
		case IntV:
			if n, ok := s.p.IsConst(); ok {
				return StrV{string(rune(n.Int64()))}
			}
		}
		return SymStr{x.opaqueStr(x.freshName("str"))}
	}
	if sl, ok := under(to).(*types.Slice); ok {
		if s, isS := v.(StrV); isS {
			if ii, ok := intType(sl.Elem()); ok && ii.w == 8 {
				r := x.concreteSlice(to, len(s.s), "bytes").(SliceV)
				for i := 0; i < len(s.s); i++ {
					r.arr.elems[i].v = IntV{ConstI(int64(s.s[i]))}
				}
				return r
			}
		}
		if _, isSym := v.(SymStr); isSym {
			return x.symSlice(to, x.freshName("bytes"))
		}
	}
	switch c := v.(type) {
	case CompV:
		n := copyCell(c.c)
		retype(n, to)
		return CompV{n}
	}
	return v
}

func retype(c *Cell, t types.Type) { c.typ = t }

// typeAssert returns the value and the condition for success.
func (x *Exec) typeAssert(fr *Frame, v Val, t types.Type) (Val, *Formula) {
	iv, ok := v.(IfaceV)
	if !ok {
		unsupported("type assertion on %T", v)
	}
	if iv.typ == nil && iv.sym == "" {
		return x.zeroVal(t), fFalse
	}
	if it, isI := under(t).(*types.Interface); isI {
		if iv.typ != nil {
			if types.Implements(iv.typ, it) {
				return iv, fTrue
			}
			return IfaceV{}, fFalse
		}
		if it.NumMethods() == 0 {
			return iv, Not(x.ifaceNil(iv))
		}
		return iv, And(Not(x.ifaceNil(iv)), EqP(x.c.Input("implements("+iv.sym+","+t.String()+")", bigZero, bigOne), ConstI(1)))
	}
	if iv.typ != nil {
		if types.Identical(iv.typ, t) {
			return iv.v, fTrue
		}
		return x.zeroVal(t), fFalse
	}
	// opaque dynamic value: exclusive type tags
	f := EqP(x.c.Input("dyn("+iv.sym+")", bigZero, pow2(30)), ConstI(int64(x.v.typeTag(t))))
	f = And(Not(x.ifaceNil(iv)), f)
	c := x.newCell(t, "dyn")
	key := "val(" + iv.sym + "," + t.String() + ")"
	if d, ok := x.dynVals[key]; ok {
		return d, f
	}
	x.symCell(c, key)
	var d Val
	if c.elems != nil {
		d = CompV{c}
	} else {
		d = c.v
	}
	x.dynVals[key] = d
	return d, f
}
