package main

import (
	"fmt"
	"go/ast"
	"go/types"
	"strconv"
	"strings"
)

// oracle.go: calls whose body is unknown (methods of interface values of
// unknown dynamic type, standard library predicates) treated as deterministic
// functions of their arguments, named so that specifications can refer to the
// same value with call("name", arguments...). Also the model of
// strings.Builder (a string) and of formatting (a function of the format
// string and the arguments).

const builderName = "strings.Builder"

func isBuilder(t types.Type) bool { return t != nil && typeKey(t) == builderName }

func isBuilderPtr(t types.Type) bool {
	p, ok := types.Unalias(t).(*types.Pointer)
	return ok && isBuilder(p.Elem())
}

// valKey names a value; equal keys denote equal values.
func (x *Exec) valKey(v Val) string {
	switch v := v.(type) {
	case nil:
		return "nil"
	case IntV:
		return "i:" + v.p.Key()
	case BoolV:
		switch v.f.k {
		case FTrue:
			return "true"
		case FFalse:
			return "false"
		}
		return "b:" + fmt.Sprintf("%p", v.f)
	case StrV, SymStr:
		return "s:" + strKey(v)
	case PtrV:
		if v.c == nil {
			return "nil"
		}
		return "p:" + v.c.name + "@" + strconv.Itoa(v.c.id)
	case NilV:
		return "nil"
	case MapV:
		if v.m == nil {
			return "nil"
		}
		return "m:" + v.m.base + "@" + strconv.Itoa(v.m.id) + "#" + strconv.Itoa(len(v.m.ents))
	case IfaceV:
		if v.sym != "" {
			return "f:" + v.sym
		}
		if v.typ == nil {
			return "nil"
		}
		switch v.v.(type) {
		case PtrV, MapV:
			return x.valKey(v.v)
		}
		return v.typ.String() + "/" + x.valKey(v.v)
	case SliceV:
		if v.arr == nil {
			return "nil"
		}
		if n, ok := v.len.IsConst(); ok && v.arr.sq() == nil {
			var sb strings.Builder
			sb.WriteString("[")
			for i := int64(0); i < n.Int64(); i++ {
				sb.WriteString(x.valKey(x.load(x.sliceAt(v, ConstI(i)))) + ",")
			}
			return sb.String() + "]"
		}
		return fmt.Sprintf("sl:%p:%s:%s", v.arr, v.off.Key(), v.len.Key())
	case FuncV:
		return "fn:" + v.name
	case OpaqueV:
		switch v.name {
		case "float", "arith", "zero", "map", "pending":
		default:
			return "o:" + v.name
		}
	case CompV:
		var sb strings.Builder
		sb.WriteString("{")
		v.c.scalars(func(c *Cell) { sb.WriteString(x.valKey(c.v) + ",") })
		return sb.String() + "}"
	}
	unsupported("value of kind %T as an argument of an opaque function", v)
	return ""
}

// sameVal: a sufficient condition for equality of two arguments.
func (x *Exec) sameVal(a, b Val) (f *Formula) {
	if x.valKey(a) == x.valKey(b) {
		return fTrue
	}
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(Unsupported); !ok {
				panic(r)
			}
			f = fFalse
		}
	}()
	switch a.(type) {
	case MapV, SliceV, FuncV, CompV:
		return fFalse
	}
	return x.equal(a, b)
}

type oracleApp struct {
	fn   string
	args []Val
	res  []Val
}

// oracleVals: the results of the opaque function fn. Parameters of type
// *strings.Builder are left out of args; their presence adds the appended
// string as the last result.
func (x *Exec) oracleVals(fn *types.Func, mode string, args []Val) []Val {
	key := funcKey(fn)
	tag := key
	if n := x.epoch(); n > 0 && mode != "mut" {
		tag += "^" + strconv.Itoa(n)
	}
	var ks []string
	for _, a := range args {
		ks = append(ks, x.valKey(a))
	}
	id := shortKey(tag) + "(" + strings.Join(ks, ",") + ")"
	if x.job != nil {
		x.job.noteAssumed("results of " + key + " are a function of its arguments (opaque), no panic")
	}
	if r, ok := x.oracles[id]; ok {
		return x.refresh(r.res, id)
	}
	sig := fn.Type().(*types.Signature)
	var res []Val
	n := sig.Results().Len()
	for i := 0; i < n; i++ {
		nm := id
		if i > 0 {
			nm += "#" + strconv.Itoa(i)
		}
		t := sig.Results().At(i).Type()
		v := x.symResult(t, nm)
		if m, ok := v.(MapV); ok {
			m.m.maybeNil = false
			x.job.noteAssumed("the map returned by " + key + " is not nil and not shared")
		}
		if sv, ok := v.(SliceV); ok && sv.arr.sq() != nil {
			// shared by all callers: must not be written
			sv.arr.sq().frozen, sv.arr.sq().immut = true, true
		}
		if mode == "nonnil" {
			if iv, ok := v.(IfaceV); ok {
				iv.mayNil = false
				v = iv
			}
		}
		res = append(res, v)
	}
	for i := 0; i < sig.Params().Len(); i++ {
		if isBuilderPtr(sig.Params().At(i).Type()) {
			res = append(res, SymStr{x.opaqueStr("out:" + id)})
		}
	}
	for _, o := range x.oracleList {
		if o.fn != tag || len(o.args) != len(args) {
			continue
		}
		f := fTrue
		for i := range args {
			f = And(f, x.sameVal(o.args[i], args[i]))
		}
		if f.k == FFalse {
			continue
		}
		for i := range res {
			x.assume(Implies(f, x.sameRes(o.res[i], res[i])))
		}
	}
	ap := &oracleApp{tag, args, res}
	if x.oracles == nil {
		x.oracles = map[string]*oracleApp{}
	}
	x.oracles[id] = ap
	x.oracleList = append(x.oracleList, ap)
	return x.refresh(res, id)
}

// sameRes: equality of two results as a hypothesis.
func (x *Exec) sameRes(a, b Val) *Formula {
	switch a := a.(type) {
	case IfaceV:
		if bi, ok := b.(IfaceV); ok {
			return x.ifaceEq(a, bi)
		}
	case MapV, SliceV, PtrV, CompV:
		return fTrue
	}
	return x.equal(a, b)
}

// refresh: maps are handed out as copies with the same unknown contents.
func (x *Exec) refresh(res []Val, id string) []Val {
	out := append([]Val(nil), res...)
	for i, v := range out {
		if m, ok := v.(MapV); ok && m.m != nil {
			x.mapN++
			n := &MapObj{id: x.mapN, base: m.m.base, vt: m.m.vt, kt: m.m.kt, memo: map[string]Val{}}
			x.maps[n.id] = n
			out[i] = MapV{n}
		}
	}
	return out
}

// The trace is a ghost variable: the sequence of calls (with their arguments)
// of opaque functions that may change state. Results of other opaque functions
// may depend on it.
func (x *Exec) initTrace() {
	for _, m := range x.v.db.oracles {
		if m == "mut" {
			x.hist = x.newCell(types.Typ[types.String], "trace")
			x.symCell(x.hist, "trace")
			return
		}
	}
}

func (x *Exec) epoch() int {
	if x.hist == nil {
		return 0
	}
	k := strKey(x.load(x.hist))
	if x.epochs == nil {
		x.epochs = map[string]int{}
	}
	n, ok := x.epochs[k]
	if !ok {
		n = len(x.epochs)
		x.epochs[k] = n
	}
	return n
}

func (x *Exec) callSeg(fn *types.Func, as []Val) Val {
	var ks []string
	for _, a := range as {
		ks = append(ks, x.valKey(a))
	}
	return SymStr{x.opaqueStr("call:" + funcKey(fn) + "(" + strings.Join(ks, ",") + ")")}
}

func (x *Exec) oracleCall(fn *types.Func, mode string, recv Val, args []Val, targs []types.Type) []Val {
	sig := fn.Type().(*types.Signature)
	var as []Val
	if sig.Recv() != nil {
		if iv, ok := recv.(IfaceV); ok {
			x.check(Not(x.ifaceNil(iv)), "nil-dereference", "method call on nil interface")
			as = append(as, IfaceV{typ: iv.typ, v: iv.v, sym: iv.sym})
		} else {
			as = append(as, recv)
		}
	}
	var out []*Cell
	for i, a := range args {
		if isBuilderPtr(sig.Params().At(i).Type()) {
			out = append(out, x.builderCell(a))
			continue
		}
		as = append(as, a)
	}
	for _, t := range targs {
		as = append(as, typeVal(t))
	}
	if mode == "mut" && x.hist != nil {
		x.store(x.hist, x.strConcat(x.load(x.hist), x.callSeg(fn, as)))
	}
	res := x.oracleVals(fn, mode, as)
	n := sig.Results().Len()
	for i, c := range out {
		x.store(c, x.strConcat(x.load(c), res[n+i]))
	}
	return res[:n]
}

// ---------------------------------------------------------------- strings.Builder, fmt

func (x *Exec) builderCell(v Val) *Cell {
	if iv, ok := v.(IfaceV); ok {
		v = iv.v
	}
	p, ok := v.(PtrV)
	if !ok || p.c == nil {
		unsupported("*strings.Builder expected, have %T", v)
	}
	if !isBuilder(p.c.typ) {
		unsupported("writer of type %v", p.c.typ)
	}
	return p.c
}

func (x *Exec) runeStr(v Val) Val {
	p := x.intOf(v)
	if c, ok := p.IsConst(); ok {
		return StrV{string(rune(c.Int64()))}
	}
	return SymStr{x.opaqueStr("rune(" + p.Key() + ")")}
}

func (x *Exec) fmtStr(format Val, args []Val) Val {
	id := "fmt(" + strKey(format)
	for _, a := range args {
		id += "," + x.valKey(a)
	}
	return SymStr{x.opaqueStr(id + ")")}
}

func (x *Exec) sliceVals(v Val) []Val {
	s := x.sliceOf(v)
	if s.arr == nil {
		return nil
	}
	n, ok := s.len.IsConst()
	if !ok {
		return []Val{v}
	}
	var out []Val
	for i := int64(0); i < n.Int64(); i++ {
		out = append(out, x.load(x.sliceAt(s, ConstI(i))))
	}
	return out
}

func (x *Exec) errMsg(v Val) Val {
	iv, ok := v.(IfaceV)
	if !ok || iv.sym == "" {
		unsupported("error message of %T", v)
	}
	return SymStr{segs: x.opaqueStr("err(" + iv.sym + ")")}
}

func init() {
	b := "strings.(*Builder)."
	app := func(f func(x *Exec, a []Val) Val) func(*Exec, Val, []Val) []Val {
		return func(x *Exec, r Val, a []Val) []Val {
			c := x.builderCell(r)
			s := f(x, a)
			x.store(c, x.strConcat(x.load(c), s))
			return []Val{IntV{x.strLen(s)}, IfaceV{}}
		}
	}
	intrinsics[b+"WriteString"] = app(func(x *Exec, a []Val) Val { return a[0] })
	intrinsics[b+"WriteRune"] = app(func(x *Exec, a []Val) Val { return x.runeStr(a[0]) })
	intrinsics[b+"WriteByte"] = func(x *Exec, r Val, a []Val) []Val {
		c := x.builderCell(r)
		p, ok := x.intOf(a[0]).IsConst()
		if !ok {
			unsupported("WriteByte of an unknown byte")
		}
		x.store(c, x.strConcat(x.load(c), StrV{string([]byte{byte(p.Int64())})}))
		return []Val{IfaceV{}}
	}
	intrinsics[b+"String"] = func(x *Exec, r Val, a []Val) []Val { return []Val{x.load(x.builderCell(r))} }
	intrinsics[b+"Len"] = func(x *Exec, r Val, a []Val) []Val { return []Val{IntV{x.strLen(x.load(x.builderCell(r)))}} }
	intrinsics[b+"Grow"] = func(x *Exec, r Val, a []Val) []Val { return nil }
	intrinsics[b+"Reset"] = func(x *Exec, r Val, a []Val) []Val { x.store(x.builderCell(r), StrV{""}); return nil }
	intrinsics["fmt.Fprintf"] = func(x *Exec, _ Val, a []Val) []Val {
		c := x.builderCell(a[0])
		s := x.fmtStr(a[1], x.sliceVals(a[2]))
		x.store(c, x.strConcat(x.load(c), s))
		return []Val{IntV{x.strLen(s)}, IfaceV{sym: x.freshName("Fprintf"), mayNil: true}}
	}
	intrinsics["fmt.Sprintf"] = func(x *Exec, _ Val, a []Val) []Val {
		return []Val{x.fmtStr(a[0], x.sliceVals(a[1]))}
	}
	specFuncs["str"] = func(env *SpecEnv, e *ast.CallExpr, args []any) any {
		v := args[0]
		if c, ok := v.(*Cell); ok {
			if isBuilder(c.typ) {
				return env.x.load(c)
			}
			v = env.x.load(c)
		}
		return env.x.load(env.x.builderCell(v))
	}
	vals := func(env *SpecEnv, args []any) []Val {
		var out []Val
		for _, a := range args {
			if c, ok := a.(*Cell); ok {
				out = append(out, env.x.load(c))
			} else {
				out = append(out, a)
			}
		}
		return out
	}
	specFuncs["errmsg"] = func(env *SpecEnv, e *ast.CallExpr, args []any) any { return env.x.errMsg(vals(env, args)[0]) }
	specFuncs["runestr"] = func(env *SpecEnv, e *ast.CallExpr, args []any) any { return env.x.runeStr(vals(env, args)[0]) }
	specFuncs["fmt"] = func(env *SpecEnv, e *ast.CallExpr, args []any) any {
		vs := vals(env, args)
		return env.x.fmtStr(vs[0], vs[1:])
	}
	specFuncs["implements"] = func(env *SpecEnv, e *ast.CallExpr, args []any) any {
		vs := vals(env, args)
		t := env.x.v.namedType(env.pkg, vs[1].(StrV).s)
		iv, ok := vs[0].(IfaceV)
		if !ok {
			env.fail(e, "implements of %T", vs[0])
		}
		_, f := env.x.typeAssert(nil, iv, t)
		return BoolV{f}
	}
	call := func(env *SpecEnv, e *ast.CallExpr, idx int, args []any) any {
		vs := vals(env, args)
		name := vs[0].(StrV).s
		var tas []Val
		if i := strings.Index(name, "["); i >= 0 {
			for _, a := range strings.Split(strings.TrimSuffix(name[i+1:], "]"), ",") {
				a = strings.TrimSpace(a)
				t := env.targs[a]
				if t == nil {
					if fr := env.fr; fr != nil {
						for p, ty := range fr.targs {
							if p.Obj().Name() == a {
								t = ty
							}
						}
					}
				}
				if t == nil {
					t = env.x.v.namedType(env.pkg, a)
				}
				tas = append(tas, typeVal(t))
			}
			name = name[:i]
		}
		fn := env.x.v.lookupFn(env.pkg, name)
		if fn == nil {
			env.fail(e, "no function %s", name)
		}
		mode, ok := env.x.v.db.oracles[funcKey(fn)]
		if !ok {
			env.fail(e, "%s is not declared opaque", funcKey(fn))
		}
		as := vs[1:]
		if fn.Type().(*types.Signature).Recv() != nil {
			if iv, ok := as[0].(IfaceV); ok {
				as[0] = IfaceV{typ: iv.typ, v: iv.v, sym: iv.sym}
			}
		}
		sig := fn.Type().(*types.Signature)
		for i := 0; i < sig.Params().Len(); i++ {
			// implicit conversions of the arguments
			j := i
			if sig.Recv() != nil {
				j++
			}
			if j < len(as) {
				if _, isNil := as[j].(NilV); isNil {
					as[j] = env.x.zeroVal(sig.Params().At(i).Type())
				}
			}
		}
		if fn.Type().(*types.Signature).TypeParams().Len() != len(tas) {
			env.fail(e, "%s: type arguments missing", name)
		}
		as = append(append([]Val(nil), as...), tas...)
		if idx < 0 {
			return env.x.callSeg(fn, as)
		}
		r := env.x.oracleVals(fn, mode, as)
		if idx >= len(r) {
			env.fail(e, "%s has %d results", name, len(r))
		}
		return r[idx]
	}
	specFuncs["call"] = func(env *SpecEnv, e *ast.CallExpr, args []any) any { return call(env, e, 0, args) }
	specFuncs["called"] = func(env *SpecEnv, e *ast.CallExpr, args []any) any { return call(env, e, -1, args) }
	specFuncs["trace"] = func(env *SpecEnv, e *ast.CallExpr, args []any) any {
		if env.x.hist == nil {
			env.fail(e, "no opaque function changes state")
		}
		return env.x.hist
	}
	specFuncs["call2"] = func(env *SpecEnv, e *ast.CallExpr, args []any) any { return call(env, e, 1, args) }
}

// lookupFn finds "Func", "pkg.Func" or "Type.Method" relative to pkg.
func (v *Verifier) lookupFn(pkg *Pkg, name string) *types.Func {
	scope := pkg.types.Scope()
	if i := strings.LastIndex(name, "."); i >= 0 {
		q, m := name[:i], name[i+1:]
		if o, ok := scope.Lookup(q).(*types.TypeName); ok {
			f, _, _ := types.LookupFieldOrMethod(o.Type(), true, pkg.types, m)
			fn, _ := f.(*types.Func)
			return fn
		}
		if j := strings.Index(q, "."); j >= 0 {
			// pkg.Type.Method
			for _, p := range pkg.types.Imports() {
				if p.Name() != q[:j] {
					continue
				}
				if o, ok := p.Scope().Lookup(q[j+1:]).(*types.TypeName); ok {
					f, _, _ := types.LookupFieldOrMethod(o.Type(), true, pkg.types, m)
					fn, _ := f.(*types.Func)
					return fn
				}
			}
			return nil
		}
		for _, p := range pkg.types.Imports() {
			if p.Name() == q || p.Path() == q {
				fn, _ := p.Scope().Lookup(m).(*types.Func)
				return fn
			}
		}
		return nil
	}
	fn, _ := scope.Lookup(name).(*types.Func)
	return fn
}

// recApp: application of a recursively defined specification function
// ("rec f(x...) type = formula"). The value is an uninterpreted function of
// the arguments, its defining formula is assumed for the arguments of each
// application in a specification (applications inside the formula are not
// unfolded).
func (env *SpecEnv) recApp(pd *predDef, n *SpecEnv) any {
	x := env.x
	id := "rec:" + pd.name + "^" + strconv.Itoa(x.epoch())
	for _, p := range pd.params {
		v := env.val2(n.names[p])
		n.names[p] = v
		id += "," + x.valKey(v)
	}
	var r Val
	switch pd.typ {
	case "bool":
		r = BoolV{EqP(x.c.Input(id, bigZero, bigOne), ConstI(1))}
	case "any":
		r = IfaceV{sym: id, mayNil: true}
	case "string":
		r = SymStr{x.opaqueStr(id)}
	default:
		env.fail(nil, "rec %s: type %q", pd.name, pd.typ)
	}
	if x.unfolding || x.unfolded[id] {
		return r
	}
	if x.unfolded == nil {
		x.unfolded = map[string]bool{}
	}
	x.unfolded[id] = true
	x.unfolding = true
	defer func() { x.unfolding = false }()
	var f *Formula
	x.neutral(func() { f = n.boolE(pd.c.e) })
	x.assume(f)
	return r
}

func (env *SpecEnv) val2(v any) Val {
	if t, ok := v.(thunk); ok {
		return t.env.val(t.e)
	}
	if c, ok := v.(*Cell); ok {
		return env.x.load(c)
	}
	return v
}
