package main

import (
	"fmt"
	"go/ast"
	"go/types"
	"math/big"
	"strings"
)

func (x *Exec) call(fr *Frame, e *ast.CallExpr) []Val {
	x.tick()
	fun := ast.Unparen(e.Fun)
	if tv, ok := fr.pkg.info.Types[fun]; ok && tv.IsType() {
		to := x.subst(fr, tv.Type)
		v := x.eval(fr, e.Args[0])
		return []Val{x.conversion(v, x.typeOf(fr, e.Args[0]), to)}
	}
	// builtins
	if id, ok := fun.(*ast.Ident); ok {
		if b, ok := fr.pkg.info.Uses[id].(*types.Builtin); ok {
			return x.builtin(fr, e, b.Name())
		}
	}
	var fn *types.Func
	var recv Val
	var targs []types.Type
	var recvT types.Type
	switch f := fun.(type) {
	case *ast.Ident:
		if o, ok := fr.pkg.info.Uses[f].(*types.Func); ok {
			fn, targs = o, x.instArgs(fr, f)
		}
	case *ast.IndexExpr, *ast.IndexListExpr:
		v := x.eval(fr, fun)
		if fv, ok := v.(FuncV); ok && fv.fn != nil {
			fn, targs, recv = fv.fn, fv.targs, fv.recv
		}
	case *ast.SelectorExpr:
		if sel, ok := fr.pkg.info.Selections[f]; ok {
			if sel.Kind() == types.MethodVal {
				x.curPos = e.Pos()
				r := x.methodRecv(fr, f, sel)
				fn, recv = x.resolveMethod(fr, sel.Obj().(*types.Func), r, sel)
				recvT = x.staticRecvType(fr, f, sel)
			} else if sel.Kind() == types.MethodExpr {
				fn = sel.Obj().(*types.Func)
				args := x.args(fr, e, x.typeOf(fr, fun).(*types.Signature))
				return x.callMethodExpr(fr, fn, sel, args)
			}
		} else if o, ok := fr.pkg.info.Uses[f.Sel].(*types.Func); ok {
			fn, targs = o, x.instArgs(fr, f.Sel)
		}
	}
	sig, _ := under(x.typeOf(fr, fun)).(*types.Signature)
	if sig == nil {
		unsupported("call of non-function")
	}
	if fn == nil {
		v := x.eval(fr, fun)
		fv, ok := v.(FuncV)
		if !ok {
			unsupported("call of %T", v)
		}
		args := x.args(fr, e, sig)
		x.curPos = e.Pos()
		return x.callValue(fv, args, sig)
	}
	args := x.args(fr, e, sig)
	x.curPos = e.Pos()
	return x.callFunc(fn, recv, args, targs, recvT)
}

func (x *Exec) callValue(fv FuncV, args []Val, sig *types.Signature) []Val {
	if fv.mexpr != nil {
		return x.callMethodExpr(fv.frame, fv.fn, fv.mexpr, args)
	}
	if fv.fn != nil {
		return x.callFunc(fv.fn, fv.recv, args, fv.targs, nil)
	}
	if fv.lit != nil {
		nf := &Frame{pkg: fv.pkg, name: fv.name, vars: map[types.Object]*Cell{}, parent: fv.frame}
		lsig := fv.pkg.info.Types[fv.lit].Type.(*types.Signature)
		return x.run(nf, lsig, fv.lit.Type, fv.lit.Body, nil, nil, args)
	}
	if fv.name == "" {
		x.check(fFalse, "nil-dereference", "call of nil function")
	}
	if r, ok := x.applyOpaque(fv, args, sig); ok {
		return r
	}
	// opaque function value
	if fv.name != "" && x.v.opaqueFuncOK(x, fv) {
		var r []Val
		for i := 0; i < sig.Results().Len(); i++ {
			r = append(r, x.symScalarOrComp(sig.Results().At(i).Type(), x.freshName(fv.name+"()")))
		}
		return r
	}
	unsupported("call of an unknown function value %s", fv.name)
	return nil
}

// callMethodExpr: T.Method with the receiver as the first argument.
func (x *Exec) callMethodExpr(fr *Frame, fn *types.Func, sel *types.Selection, args []Val) []Val {
	recv := args[0]
	if types.IsInterface(fn.Type().(*types.Signature).Recv().Type()) {
		if _, ok := recv.(IfaceV); !ok {
			unsupported("method expression of an embedded interface")
		}
		fn, recv = x.resolveMethod(fr, fn, recv, sel)
	} else if len(sel.Index()) > 1 {
		unsupported("method expression of an embedded field")
	}
	return x.callFunc(fn, recv, args[1:], nil, sel.Recv())
}

// applyOpaque: an unknown function value with one result is taken to be a
// function in the mathematical sense (equal arguments give equal results, no
// effects, no panic); this is listed as an assumption.
func (x *Exec) applyOpaque(fv FuncV, args []Val, sig *types.Signature) ([]Val, bool) {
	if fv.name == "" || sig.Results().Len() != 1 || x.job == nil {
		return nil, false
	}
	rt := sig.Results().At(0).Type()
	id := fv.name + "("
	for _, a := range args {
		switch a := a.(type) {
		case IntV:
			id += a.p.Key() + ","
		case IfaceV:
			id += x.ifaceID(a) + ","
		case StrV, SymStr:
			id += strKey(a) + ","
		default:
			return nil, false
		}
	}
	id += ")"
	for _, ap := range x.apps {
		if ap.id == id {
			return []Val{ap.res}, true
		}
	}
	r := x.symResult(rt, id)
	if iv, ok := r.(IfaceV); ok {
		iv.mayNil = false
		r = iv
	}
	for _, ap := range x.apps {
		if ap.fn == fv.name && len(ap.args) == len(args) {
			f := fTrue
			for i := range args {
				f = And(f, x.equal(ap.args[i], args[i]))
			}
			x.assume(Implies(f, x.equal(ap.res, r)))
		}
	}
	x.apps = append(x.apps, opaqueApp{id, fv.name, args, r})
	if x.job != nil {
		x.job.noteAssumed("function arguments (" + fv.name + ") are pure functions that do not panic")
	}
	return []Val{r}, true
}

type opaqueApp struct {
	id, fn string
	args   []Val
	res    Val
}

func (x *Exec) symScalarOrComp(t types.Type, name string) Val {
	if x.isScalar(t) {
		return x.symScalar(t, name)
	}
	c := x.newCell(t, name)
	x.symCell(c, name)
	return CompV{c}
}

func (x *Exec) args(fr *Frame, e *ast.CallExpr, sig *types.Signature) []Val {
	ps := sig.Params()
	var vals []typedVal
	if len(e.Args) == 1 && ps.Len() != 1 || len(e.Args) == 1 && isTuple(x.tryType(fr, e.Args[0])) {
		if c, ok := ast.Unparen(e.Args[0]).(*ast.CallExpr); ok && isTuple(x.tryType(fr, c)) {
			tp := x.typeOf(fr, c).(*types.Tuple)
			for i, v := range x.call(fr, c) {
				vals = append(vals, typedVal{v, x.subst(fr, tp.At(i).Type())})
			}
		}
	}
	if vals == nil {
		for _, a := range e.Args {
			vals = append(vals, typedVal{x.eval(fr, a), x.typeOf(fr, a)})
		}
	}
	var out []Val
	n := ps.Len()
	for i := 0; i < n; i++ {
		pt := x.subst(fr, ps.At(i).Type())
		if sig.Variadic() && i == n-1 {
			if e.Ellipsis.IsValid() {
				out = append(out, x.convertTo(vals[i].v, vals[i].t, pt))
				break
			}
			rest := vals[i:]
			if len(rest) == 0 {
				out = append(out, SliceV{})
				break
			}
			s := x.concreteSlice(pt, len(rest), "varargs").(SliceV)
			el := under(pt).(*types.Slice).Elem()
			for j, r := range rest {
				x.store(s.arr.elems[j], x.convertTo(r.v, r.t, el))
			}
			out = append(out, s)
			break
		}
		out = append(out, x.convertTo(vals[i].v, vals[i].t, pt))
	}
	return out
}

func (x *Exec) tryType(fr *Frame, e ast.Expr) types.Type {
	if tv, ok := fr.pkg.info.Types[e]; ok {
		return tv.Type
	}
	return nil
}

func isTuple(t types.Type) bool {
	_, ok := t.(*types.Tuple)
	return ok
}

func (x *Exec) staticRecvType(fr *Frame, e *ast.SelectorExpr, sel *types.Selection) types.Type {
	t := x.typeOf(fr, e.X)
	idx := sel.Index()
	for _, i := range idx[:len(idx)-1] {
		if p, ok := under(t).(*types.Pointer); ok {
			t = p.Elem()
		}
		t = under(t).(*types.Struct).Field(i).Type()
	}
	if p, ok := types.Unalias(t).(*types.Pointer); ok {
		t = p.Elem()
	}
	return t
}

func (x *Exec) methodRecv(fr *Frame, e *ast.SelectorExpr, sel *types.Selection) Val {
	fn := sel.Obj().(*types.Func)
	rt := fn.Type().(*types.Signature).Recv().Type()
	_, ptrRecv := types.Unalias(rt).(*types.Pointer)
	xt := x.typeOf(fr, e.X)
	idx := sel.Index()
	idx = idx[:len(idx)-1]
	if _, isI := under(xt).(*types.Interface); isI && len(idx) == 0 {
		return x.eval(fr, e.X)
	}
	_, xIsPtr := under(xt).(*types.Pointer)
	if len(idx) == 0 && xIsPtr {
		v := x.eval(fr, e.X)
		if ptrRecv {
			return v
		}
		if iface, ok := fr.pkg.info.Types[e.X]; ok {
			_ = iface
		}
		if types.IsInterface(rt) { // method of a type parameter's constraint
			return v
		}
		return x.load(x.deref(v, "method call through nil pointer"))
	}
	var c *Cell
	if xIsPtr {
		c = x.deref(x.eval(fr, e.X), "method call")
	} else if x.addressable(fr, e.X) {
		c = x.lvalue(fr, e.X)
	} else {
		v := x.eval(fr, e.X)
		if cv, ok := v.(CompV); ok {
			c = cv.c
		} else {
			c = x.newCell(xt, "tmp")
			x.store(c, v)
		}
	}
	for _, i := range idx {
		if p, ok := c.v.(PtrV); ok && c.elems == nil {
			c = x.deref(p, "embedded pointer")
		}
		c = c.elems[i]
	}
	if p, ok := c.v.(PtrV); ok && c.elems == nil {
		if _, isPtrT := under(c.typ).(*types.Pointer); isPtrT {
			if ptrRecv {
				return p
			}
			return x.load(x.deref(p, "method call"))
		}
	}
	if ptrRecv {
		return PtrV{c}
	}
	if types.IsInterface(rt) {
		if _, isI := under(c.typ).(*types.Interface); !isI {
			// type-parameter receiver: decide on resolution
			return PtrV{c}
		}
	}
	return x.load(c)
}

// resolveMethod turns interface / type-parameter methods into concrete ones.
func (x *Exec) resolveMethod(fr *Frame, fn *types.Func, recv Val, sel *types.Selection) (*types.Func, Val) {
	rt := fn.Type().(*types.Signature).Recv().Type()
	if !types.IsInterface(rt) {
		return fn, recv
	}
	var dt types.Type
	rv := recv
	if iv, ok := recv.(IfaceV); ok {
		if iv.typ == nil {
			if iv.sym == "" {
				x.check(fFalse, "nil-dereference", "method call on nil interface")
			}
			return fn, recv
		}
		dt, rv = iv.typ, iv.v
	} else {
		dt = x.subst(fr, sel.Recv())
	}
	o, index, _ := types.LookupFieldOrMethod(dt, true, fn.Pkg(), fn.Name())
	m, ok := o.(*types.Func)
	if !ok {
		unsupported("method %s of %v", fn.Name(), dt)
	}
	mrt := m.Type().(*types.Signature).Recv().Type()
	_, mp := types.Unalias(mrt).(*types.Pointer)
	// embedded?
	if len(index) > 1 {
		c := (*Cell)(nil)
		switch v := rv.(type) {
		case PtrV:
			c = x.deref(v, "embedded")
		case CompV:
			c = v.c
		}
		for _, i := range index[:len(index)-1] {
			if p, ok := c.v.(PtrV); ok && c.elems == nil {
				c = x.deref(p, "embedded")
			}
			c = c.elems[i]
		}
		if types.IsInterface(mrt) {
			return x.resolveMethod(fr, m, x.load(c), sel)
		}
		if mp {
			if p, ok := c.v.(PtrV); ok && c.elems == nil {
				return m, p
			}
			return m, PtrV{c}
		}
		if p, ok := c.v.(PtrV); ok && c.elems == nil {
			return m, x.load(x.deref(p, "embedded"))
		}
		return m, x.load(c)
	}
	if p, isp := rv.(PtrV); isp {
		if mp {
			return m, p
		}
		if _, ptrT := types.Unalias(dt).(*types.Pointer); ptrT || !mp {
			return m, x.load(x.deref(p, "method call"))
		}
	}
	if cv, ok := rv.(CompV); ok && mp {
		return m, PtrV{cv.c}
	}
	return m, rv
}

const maxDepth = 60

// callFunc calls a declared function or method.
func (x *Exec) callFunc(fn *types.Func, recv Val, args []Val, targs []types.Type, recvT types.Type) []Val {
	key := funcKey(fn)
	if mode, ok := x.v.db.oracles[key]; ok && !x.concrete {
		return x.oracleCall(fn, mode, recv, args, targs)
	}
	if h, ok := intrinsics[key]; ok {
		return h(x, recv, args)
	}
	sig := fn.Type().(*types.Signature)
	if sig.Recv() != nil && types.IsInterface(sig.Recv().Type()) {
		return x.ifaceCall(fn, recv, args)
	}
	if ct := x.v.contractFor(key, x.job); ct != nil && !x.concrete && x.quietInline == 0 {
		return x.applyContract(ct, fn, recv, args, targs, recvT)
	}
	pkg, decl := x.v.l.declOf(fn)
	if decl == nil || decl.Body == nil {
		if h := x.v.external(key); h != nil {
			return h(x, recv, args)
		}
		unsupported("no body and no contract for %s", key)
	}
	if !x.v.mayInline(pkg, key) {
		unsupported("call of external function %s", key)
	}
	if x.job != nil && x.job.layer == 2 && x.touchesAbstract(fn) && !x.concrete {
		unsupported("function %s works on the representation of an abstract type and has no contract", key)
	}
	if x.depth > maxDepth {
		unsupported("inlining depth exceeded at %s", key)
	}
	nf := &Frame{pkg: pkg, fn: fn.Origin(), name: shortKey(key), vars: map[types.Object]*Cell{}}
	nf.targs = x.bindTargs(fn, decl, pkg, targs, recv, recvT)
	x.job.noteInlined(key)
	osig := fn.Origin().Type().(*types.Signature)
	save := x.callers
	x.callers = append(append([]string(nil), x.callers...), x.pos(x.curPos))
	x.depth++
	r := x.run(nf, osig, decl.Type, decl.Body, decl.Recv, recv, args)
	x.depth--
	x.callers = save
	return r
}

func shortKey(k string) string {
	if i := strings.LastIndex(k, "/"); i >= 0 {
		return k[i+1:]
	}
	return k
}

func (x *Exec) bindTargs(fn *types.Func, decl *ast.FuncDecl, pkg *Pkg, targs []types.Type, recv Val, recvT types.Type) map[*types.TypeParam]types.Type {
	osig := fn.Origin().Type().(*types.Signature)
	m := map[*types.TypeParam]types.Type{}
	if tp := osig.TypeParams(); tp != nil {
		if len(targs) == 0 {
			targs = x.defaultTargs(tp)
		}
		for i := 0; i < tp.Len() && i < len(targs); i++ {
			m[tp.At(i)] = targs[i]
		}
	}
	if rp := osig.RecvTypeParams(); rp != nil && rp.Len() > 0 {
		var t types.Type
		if p, ok := recv.(PtrV); ok && p.c != nil {
			t = p.c.typ
		} else if c, ok := recv.(CompV); ok {
			t = c.c.typ
		}
		if t == nil || namedArgs(t) == nil {
			t = recvT
		}
		if ta := namedArgs(t); ta != nil {
			for i := 0; i < rp.Len(); i++ {
				m[rp.At(i)] = ta.At(i)
			}
		} else {
			unsupported("type arguments of receiver unknown for %s", fn.Name())
		}
	}
	if len(m) == 0 {
		return nil
	}
	return m
}

func targNames(m map[*types.TypeParam]types.Type) map[string]types.Type {
	r := map[string]types.Type{}
	for p, t := range m {
		r[p.Obj().Name()] = t
	}
	return r
}

// tryTargs binds the type parameters of a contract; contracts that do not
// mention them do not need it.
func (x *Exec) tryTargs(env *SpecEnv, fn *types.Func, targs []types.Type, recv Val, recvT types.Type) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(Unsupported); !ok {
				panic(r)
			}
		}
	}()
	env.targs = targNames(x.bindTargs(fn, nil, nil, targs, recv, recvT))
}

// typeVal: a type argument as a value.
func typeVal(t types.Type) Val { return StrV{"type " + types.TypeString(t, nil)} }

// defaultTargs: opaque types standing for arbitrary type arguments.
func (x *Exec) defaultTargs(tp *types.TypeParamList) []types.Type {
	var r []types.Type
	for i := 0; i < tp.Len(); i++ {
		r = append(r, x.v.opaqueType(tp.At(i).Obj().Name()))
	}
	return r
}

func namedArgs(t types.Type) *types.TypeList {
	if t == nil {
		return nil
	}
	if p, ok := types.Unalias(t).(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := types.Unalias(t).(*types.Named)
	if !ok || n.TypeArgs() == nil || n.TypeArgs().Len() == 0 {
		return nil
	}
	return n.TypeArgs()
}

// run executes a body in a prepared frame.
func (x *Exec) run(nf *Frame, sig *types.Signature, ft *ast.FuncType, body *ast.BlockStmt, recvF *ast.FieldList, recv Val, args []Val) []Val {
	if recvF != nil && len(recvF.List) == 1 && len(recvF.List[0].Names) == 1 {
		if o := nf.pkg.info.Defs[recvF.List[0].Names[0]]; o != nil {
			x.declare(nf, o, recv)
		}
	}
	i := 0
	if ft.Params != nil {
		for _, f := range ft.Params.List {
			if len(f.Names) == 0 {
				i++
			}
			for _, n := range f.Names {
				if o := nf.pkg.info.Defs[n]; o != nil {
					x.declare(nf, o, args[i])
				}
				i++
			}
		}
	}
	x.initResults(nf, sig, ft)
	c := x.block(nf, body.List)
	_ = c
	x.runDefers(nf)
	var out []Val
	for _, r := range nf.results {
		out = append(out, x.load(r))
	}
	return out
}

func (x *Exec) initResults(nf *Frame, sig *types.Signature, ft *ast.FuncType) {
	if ft.Results == nil {
		return
	}
	k := 0
	for _, f := range ft.Results.List {
		if len(f.Names) == 0 {
			t := x.subst(nf, sig.Results().At(k).Type())
			nf.results = append(nf.results, x.newCell(t, "result"))
			k++
			continue
		}
		for _, n := range f.Names {
			o := nf.pkg.info.Defs[n]
			var c *Cell
			if o != nil && n.Name != "_" {
				c = x.declare(nf, o, nil)
			} else {
				c = x.newCell(x.subst(nf, sig.Results().At(k).Type()), "result")
			}
			nf.results = append(nf.results, c)
			k++
		}
	}
}

func (x *Exec) runDefers(nf *Frame) {
	for i := len(nf.defers) - 1; i >= 0; i-- {
		nf.defers[i]()
	}
	nf.defers = nil
}

func (x *Exec) ifaceCall(fn *types.Func, recv Val, args []Val) []Val {
	key := funcKey(fn)
	if iv, ok := recv.(IfaceV); ok {
		x.check(Not(x.ifaceNil(iv)), "nil-dereference", "method call on nil interface")
		if h := x.v.external(key); h != nil {
			return h(x, recv, args)
		}
		if ct := x.v.contractFor(key, x.job); ct != nil {
			return x.applyContract(ct, fn, recv, args, nil, nil)
		}
		if fn.Name() == "Error" && fn.Type().(*types.Signature).Params().Len() == 0 {
			return []Val{SymStr{segs: x.opaqueStr("err(" + iv.sym + ")")}}
		}
	}
	unsupported("call of interface method %s on an unknown dynamic type", key)
	return nil
}

// ---------------------------------------------------------------- builtins

func (x *Exec) builtin(fr *Frame, e *ast.CallExpr, name string) []Val {
	one := func(v Val) []Val { return []Val{v} }
	switch name {
	case "len", "cap":
		t := under(x.typeOf(fr, e.Args[0]))
		if p, ok := t.(*types.Pointer); ok {
			t = under(p.Elem())
		}
		if a, ok := t.(*types.Array); ok {
			return one(IntV{ConstI(a.Len())})
		}
		v := x.eval(fr, e.Args[0])
		switch v := v.(type) {
		case SliceV:
			if v.arr == nil {
				return one(IntV{newPoly()})
			}
			if name == "cap" {
				return one(IntV{v.cap})
			}
			return one(IntV{v.len})
		case NilV:
			return one(IntV{newPoly()})
		case MapV:
			return one(IntV{x.mapLen(v)})
		case StrV, SymStr:
			return one(IntV{x.strLen(v)})
		}
		unsupported("len of %T", v)
	case "new":
		c := x.newCell(x.typeOf(fr, e.Args[0]), "new")
		return one(PtrV{c})
	case "make":
		t := x.typeOf(fr, e.Args[0])
		switch u := under(t).(type) {
		case *types.Slice:
			n := x.intOf(x.eval(fr, e.Args[1]))
			cp := n
			if len(e.Args) > 2 {
				cp = x.intOf(x.eval(fr, e.Args[2]))
			}
			x.curPos = e.Pos()
			x.check(And(Ge0(n), Le(n, cp)), "make-length", "make: 0 <= len <= cap")
			if k, ok := cp.IsConst(); ok {
				s := x.concreteSlice(t, int(k.Int64()), "make").(SliceV)
				s.len = n
				return one(s)
			}
			nm := x.freshName("make")
			arr := x.newSeqCell(t, nm, u.Elem())
			arr.sq().onNew = append(arr.sq().onNew, func(_ *Poly, c *Cell) {
				z := x.newCell(c.typ, c.name)
				saved := x.writeLog
				x.writeLog = nil
				x.storeCell(c, z)
				x.writeLog = saved
			})
			return one(SliceV{arr: arr, off: newPoly(), len: n, cap: cp})
		case *types.Map:
			return one(x.makeMap(t))
		}
		unsupported("make of %v", t)
	case "copy":
		d := x.eval(fr, e.Args[0])
		s := x.eval(fr, e.Args[1])
		return one(IntV{x.copySlice(d, s)})
	case "append":
		t := x.typeOf(fr, e)
		s := x.eval(fr, e.Args[0])
		el := under(t).(*types.Slice).Elem()
		if e.Ellipsis.IsValid() {
			return one(x.appendSlice(s, x.eval(fr, e.Args[1]), t))
		}
		var vals []Val
		for _, a := range e.Args[1:] {
			vals = append(vals, x.convertTo(x.eval(fr, a), x.typeOf(fr, a), el))
		}
		return one(x.appendVals(s, vals, t))
	case "panic":
		x.quietEval(func() { x.eval(fr, e.Args[0]) })
		x.curPos = e.Pos()
		if x.concrete {
			unsupported("panic during constant evaluation")
		}
		x.doPanic("explicit panic")
	case "delete":
		m := x.eval(fr, e.Args[0])
		mt := under(x.typeOf(fr, e.Args[0])).(*types.Map)
		k := x.convertTo(x.eval(fr, e.Args[1]), x.typeOf(fr, e.Args[1]), mt.Key())
		x.mapDelete(m, k)
		return nil
	case "print", "println":
		return nil
	case "min", "max":
		a := x.intOf(x.eval(fr, e.Args[0]))
		for _, ar := range e.Args[1:] {
			b := x.intOf(x.eval(fr, ar))
			lt := x.fork(Lt(a, b), "min/max")
			if lt == (name == "max") {
				a = b
			}
		}
		return one(IntV{a})
	}
	unsupported("builtin %s", name)
	return nil
}

// quietEval evaluates panic arguments: unsupported features in there do not matter.
func (x *Exec) quietEval(f func()) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(Unsupported); ok {
				return
			}
			panic(r)
		}
	}()
	x.depthPanic++
	defer func() { x.depthPanic-- }()
	_ = f
}

func (x *Exec) sliceOf(v Val) SliceV {
	switch v := v.(type) {
	case SliceV:
		if v.arr == nil {
			return SliceV{off: newPoly(), len: newPoly(), cap: newPoly()}
		}
		return v
	case NilV:
		return SliceV{off: newPoly(), len: newPoly(), cap: newPoly()}
	}
	unsupported("expected slice, have %T", v)
	return SliceV{}
}

func (x *Exec) copySlice(d, s Val) *Poly {
	dv := x.sliceOf(d)
	if str, ok := s.(StrV); ok {
		n := int64(len(str.s))
		if x.fork(Lt(dv.len, ConstI(n)), "copy limited by destination") {
			n = x.concretize(dv.len, 0, n, "copy length")
		}
		for i := int64(0); i < n; i++ {
			x.store(x.sliceAt(dv, ConstI(i)), IntV{ConstI(int64(str.s[i]))})
		}
		return ConstI(n)
	}
	sv := x.sliceOf(s)
	n := sv.len
	if !x.fork(Le(sv.len, dv.len), "copy length is len(src)") {
		n = dv.len
	}
	k, ok := n.IsConst()
	if !ok {
		iv := x.c.Iv(n)
		if iv.hi != nil && iv.hi.Cmp(bi(64)) <= 0 {
			k = bi(x.concretize(n, 0, 64, "copy length"))
		} else {
			return x.copySym(dv, sv, n)
		}
	}
	var tmp []Val
	for i := int64(0); i < k.Int64(); i++ {
		tmp = append(tmp, x.load(x.sliceAt(sv, ConstI(i))))
	}
	for i := int64(0); i < k.Int64(); i++ {
		x.store(x.sliceAt(dv, ConstI(i)), tmp[i])
	}
	return Const(k)
}

// copySym: copy of symbolic length.
func (x *Exec) copySym(dv, sv SliceV, n *Poly) *Poly {
	if dv.arr == nil || dv.arr.sq() == nil {
		unsupported("copy of symbolic length")
	}
	arr := dv.arr
	src := sv
	if src.arr != nil {
		src.arr = x.capture(src.arr)
	}
	el := arr.sq().elem
	old := dv
	old.arr = x.capture(arr)
	x.arrWritten(arr)
	x.written(arr)
	if x.writeLog != nil {
		x.writeLog[arr] = true
	}
	seq := newSeq(x.freshName("copy"), el)
	arr.v = SeqV{seq}
	whole := n.Key() == dv.len.Key() && dv.len.Key() == dv.cap.Key()
	get := func(s SliceV, i *Poly) Val {
		saved := x.writeLog
		x.writeLog = nil
		x.quiet++
		defer func() { x.quiet--; x.writeLog = saved }()
		return x.load(x.sliceAt(s, i))
	}
	seq.onNew = append(seq.onNew, func(ix *Poly, c *Cell) {
		i := ix.Sub(dv.off)
		in := x.c.simp(And(Ge0(i), Lt(i, n)))
		if x.simpleElem(el) {
			if in.k != FFalse {
				x.assume(Implies(in, x.equal(c.v, get(src, i))))
			}
			if in.k != FTrue && !whole {
				x.assume(Implies(Not(in), x.equal(c.v, get(old, i))))
			}
			return
		}
		if whole || x.fork(in, "copied element") {
			x.storeRaw(c, get(src, i))
		} else {
			x.storeRaw(c, get(old, i))
		}
	})
	return n
}

func (x *Exec) storeRaw(c *Cell, v Val) {
	if c.elems != nil {
		t := copyCell(v.(CompV).c)
		for i := range c.elems {
			x.storeRaw(c.elems[i], x.rawVal(t.elems[i]))
		}
		return
	}
	c.v = v
}

func (x *Exec) appendVals(s Val, vals []Val, t types.Type) Val {
	sv := x.sliceOf(s)
	n, ok1 := sv.len.IsConst()
	if !ok1 {
		return x.appendSym(sv, vals, t)
	}
	// Whether append reuses the backing array depends on capacity; with a
	// constant capacity this is decided exactly.
	cp, ok2 := sv.cap.IsConst()
	need := new(big.Int).Add(n, bi(int64(len(vals))))
	if sv.arr != nil && ok2 && cp.Cmp(need) >= 0 {
		for i, v := range vals {
			x.store(x.sliceAt(sv, ConstI(n.Int64()+int64(i))), v)
		}
		return SliceV{arr: sv.arr, off: sv.off, len: Const(need), cap: sv.cap}
	}
	if !ok2 && sv.arr != nil && sv.arr.sq() != nil {
		return x.appendSym(sv, vals, t)
	}
	if !ok2 && sv.arr != nil {
		unsupported("append to slice of symbolic capacity")
	}
	if len(vals) == 0 {
		return s
	}
	r := x.concreteSlice(t, int(need.Int64()), "append").(SliceV)
	for i := int64(0); i < n.Int64(); i++ {
		x.store(r.arr.elems[i], x.load(x.sliceAt(sv, ConstI(i))))
	}
	for i, v := range vals {
		x.store(r.arr.elems[n.Int64()+int64(i)], v)
	}
	// Go may allocate a larger array; capacity beyond len is not observable
	// except through further appends/reslicing, treated as exact here.
	return r
}

// onlyIn: the storage a is reachable through the variable v only, so that
// nobody can tell whether v = append(v, ...) reuses it.
func (x *Exec) onlyIn(a, v *Cell) bool {
	if v == nil {
		return false
	}
	if sv, ok := v.v.(SliceV); !ok || sv.arr != a {
		return false
	}
	for o := a; o != nil; o = x.bornOf[o] {
		if o.pre || o.esc {
			return false
		}
	}
	class := map[*Cell]bool{}
	for o := a; o != nil; o = x.bornOf[o] {
		class[o] = true
		for _, b := range x.bornFrom[o] {
			class[b] = true
		}
	}
	var refs func(w Val) bool
	refs = func(w Val) bool {
		switch w := w.(type) {
		case SliceV:
			return w.arr != nil && class[w.arr]
		case PtrV:
			return w.c != nil && w.c.owner != nil && class[w.c.owner]
		case IfaceV:
			return refs(w.v)
		case CompV:
			r := false
			w.c.scalars(func(s *Cell) { r = r || refs(s.v) })
			return r
		case FuncV:
			return refs(w.recv)
		case TupleV:
			for _, u := range w {
				if refs(u) {
					return true
				}
			}
		}
		return false
	}
	for _, c := range x.cellByID {
		if c != nil && c != v && c.v != nil && refs(c.v) {
			return false
		}
	}
	return true
}

func (x *Exec) escape(v Val) {
	switch v := v.(type) {
	case SliceV:
		if v.arr != nil {
			v.arr.esc = true
		}
	case IfaceV:
		x.escape(v.v)
	case CompV:
		v.c.scalars(func(s *Cell) { x.escape(s.v) })
	}
}

// capture returns an array with the present contents of a that no later write changes.
func (x *Exec) capture(a *Cell) *Cell {
	s := a.sq()
	if s == nil {
		n := copyCell(a)
		x.register(n)
		return n
	}
	s.frozen = true
	n := &Cell{typ: a.typ, name: a.name, v: SeqV{s}, pre: a.pre}
	x.register(n)
	return n
}

func (x *Exec) appendSym(sv SliceV, vals []Val, t types.Type) Val {
	if len(vals) == 0 {
		return sv
	}
	nm := x.freshName("append")
	el := under(t).(*types.Slice).Elem()
	nlen := sv.len.AddI(int64(len(vals)))
	self := x.appendTo
	x.appendTo = nil
	inPlace := sv.arr != nil && sv.cap != nil && !x.onlyIn(sv.arr, self) && x.fork(Le(nlen, sv.cap), "append within the capacity")
	old := sv
	if old.arr != nil {
		old.arr = x.capture(old.arr)
	}
	var arr *Cell
	if inPlace {
		arr = sv.arr
		x.arrWritten(arr)
		x.written(arr)
		arr.v = SeqV{newSeq(nm, el)}
	} else {
		arr = x.newSeqCell(t, nm, el)
	}
	seq := arr.sq()
	off := newPoly()
	if inPlace {
		off = sv.off
	}
	seq.onNew = append(seq.onNew, func(ix *Poly, c *Cell) {
		i := ix.Sub(off)
		if x.simpleElem(el) {
			f := x.c.simp(Lt(i, old.len))
			if f.k == FFalse || old.arr == nil {
				return
			}
			x.quiet++
			v := x.load(x.sliceAt(old, i))
			x.quiet--
			if f.k == FTrue {
				c.v = v
				return
			}
			x.assume(Implies(f, x.equal(c.v, v)))
			return
		}
		if x.fork(Lt(i, old.len), "element below the old length") {
			saved := x.writeLog
			x.writeLog = nil
			x.storeRaw(c, x.load(x.sliceAt(old, i)))
			x.writeLog = saved
		}
	})
	seq.parent = &old
	r := SliceV{arr: arr, off: off, len: nlen}
	if inPlace {
		r.cap = sv.cap
	} else {
		r.cap = x.c.Input(x.freshName("cap"), bigZero, pow2(41))
		x.assume(Le(r.len, r.cap))
	}
	for i, v := range vals {
		c := x.newCell(el, fmt.Sprintf("%s[len+%d]", nm, i))
		x.storeRaw(c, v)
		if arr.pre {
			c.markPre()
		}
		c.owner, c.inSeq = arr, seq
		c.scalars(func(d *Cell) { d.owner, d.inSeq = arr, seq })
		ix := off.Add(sv.len).AddI(int64(i))
		seq.elems[ix.Key()] = c
		seq.idx[ix.Key()] = ix
		seq.order = append(seq.order, ix.Key())
	}
	return r
}

func (x *Exec) appendSlice(s, t Val, typ types.Type) Val {
	if str, ok := t.(StrV); ok {
		var vals []Val
		for i := 0; i < len(str.s); i++ {
			vals = append(vals, IntV{ConstI(int64(str.s[i]))})
		}
		return x.appendVals(s, vals, typ)
	}
	tv := x.sliceOf(t)
	n, ok := tv.len.IsConst()
	if !ok {
		unsupported("append of a slice of symbolic length")
	}
	var vals []Val
	for i := int64(0); i < n.Int64(); i++ {
		vals = append(vals, x.load(x.sliceAt(tv, ConstI(i))))
	}
	return x.appendVals(s, vals, typ)
}
