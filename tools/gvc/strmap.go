package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"
)

// strmap.go: symbolic strings (concatenations of literals and slices of
// unknown strings) and maps.

type StrSeg struct {
	lit  string
	base string // non-empty: slice [lo,hi) of the unknown string base
	lo   *Poly
	hi   *Poly
}

type SymStr struct{ segs []StrSeg }

func (x *Exec) strBaseLen(base string) *Poly {
	return x.c.Input("len("+base+")", bigZero, pow2(40))
}

func (x *Exec) opaqueStr(base string) []StrSeg {
	return []StrSeg{{base: base, lo: newPoly(), hi: x.strBaseLen(base)}}
}

func segsOf(v Val) []StrSeg {
	switch s := v.(type) {
	case StrV:
		if s.s == "" {
			return nil
		}
		return []StrSeg{{lit: s.s}}
	case SymStr:
		return s.segs
	}
	unsupported("string expected, have %T", v)
	return nil
}

func mkStr(segs []StrSeg) Val {
	var out []StrSeg
	for _, s := range segs {
		if s.base == "" && s.lit == "" {
			continue
		}
		if s.base != "" && s.lo.Key() == s.hi.Key() {
			continue
		}
		if n := len(out); n > 0 {
			l := &out[n-1]
			if l.base == "" && s.base == "" {
				l.lit += s.lit
				continue
			}
			if l.base != "" && l.base == s.base && l.hi.Key() == s.lo.Key() {
				l.hi = s.hi
				continue
			}
		}
		out = append(out, s)
	}
	if len(out) == 0 {
		return StrV{""}
	}
	if len(out) == 1 && out[0].base == "" {
		return StrV{out[0].lit}
	}
	return SymStr{out}
}

func (x *Exec) strConcat(a, b Val) Val {
	return mkStr(append(append([]StrSeg(nil), segsOf(a)...), segsOf(b)...))
}

func segLen(s StrSeg) *Poly {
	if s.base == "" {
		return ConstI(int64(len(s.lit)))
	}
	return s.hi.Sub(s.lo)
}

func (x *Exec) strLen(v Val) *Poly {
	r := newPoly()
	for _, s := range segsOf(v) {
		r = r.Add(segLen(s))
	}
	return r
}

func strKey(v Val) string {
	var sb strings.Builder
	for _, s := range segsOf(v) {
		if s.base == "" {
			sb.WriteString(strconv.Quote(s.lit))
		} else {
			sb.WriteString("<" + s.base + ":" + s.lo.Key() + ":" + s.hi.Key() + ">")
		}
	}
	return sb.String()
}

func (x *Exec) strByte(base string, i *Poly) *Poly {
	return x.c.Input("byte("+base+","+i.Key()+")", bigZero, bi(255))
}

func (x *Exec) strIndex(v Val, i *Poly) Val {
	n := x.strLen(v)
	x.check(And(Ge0(i), Lt(i, n)), "index-in-range", "string index in range")
	off := newPoly()
	for _, s := range segsOf(v) {
		l := segLen(s)
		if x.fork(Lt(i, off.Add(l)), "string segment") {
			j := i.Sub(off)
			if s.base == "" {
				k := x.concretize(j, 0, int64(len(s.lit))-1, "string index")
				return IntV{ConstI(int64(s.lit[k]))}
			}
			return IntV{x.strByte(s.base, s.lo.Add(j))}
		}
		off = off.Add(l)
	}
	panic(pathEnd{"string index"})
}

func (x *Exec) strSlice(v Val, lo func(*Poly) *Poly, hi func(*Poly) *Poly) Val {
	n := x.strLen(v)
	l := lo(n)
	h := hi(n)
	x.check(And(Ge0(l), Le(l, h), Le(h, n)), "slice-bounds", "string slice bounds in range")
	var out []StrSeg
	off := newPoly()
	segs := segsOf(v)
	for i, s := range segs {
		sl := segLen(s)
		end := off.Add(sl)
		// portion [max(l,off), min(h,end))
		if i < len(segs)-1 || i > 0 {
			if x.fork(Le(end, l), "segment before slice") {
				off = end
				continue
			}
			if x.fork(Le(h, off), "segment after slice") {
				break
			}
		}
		a, b := newPoly(), sl
		if i == 0 || !x.fork(Le(l, off), "slice starts before segment") {
			a = l.Sub(off)
		}
		if i == len(segs)-1 || !x.fork(Le(end, h), "slice ends after segment") {
			b = h.Sub(off)
		}
		if s.base != "" {
			out = append(out, StrSeg{base: s.base, lo: s.lo.Add(a), hi: s.lo.Add(b)})
		} else {
			ka := x.concretize(a, 0, int64(len(s.lit)), "slice low")
			kb := x.concretize(b, ka, int64(len(s.lit)), "slice high")
			out = append(out, StrSeg{lit: s.lit[ka:kb]})
		}
		off = end
	}
	return mkStr(out)
}

// stripCommon removes equal pieces at both ends; nil if the strings differ.
func stripCommon(a, b Val) (Val, Val) {
	sa := append([]StrSeg(nil), segsOf(a)...)
	sb := append([]StrSeg(nil), segsOf(b)...)
	for len(sa) > 0 && len(sb) > 0 {
		p, q := &sa[0], &sb[0]
		if p.base == "" && q.base == "" {
			n := 0
			for n < len(p.lit) && n < len(q.lit) && p.lit[n] == q.lit[n] {
				n++
			}
			if n < len(p.lit) && n < len(q.lit) {
				return nil, nil
			}
			p.lit, q.lit = p.lit[n:], q.lit[n:]
			if p.lit == "" {
				sa = sa[1:]
			}
			if q.lit == "" {
				sb = sb[1:]
			}
			continue
		}
		if p.base == "" || p.base != q.base || p.lo.Key() != q.lo.Key() || p.hi.Key() != q.hi.Key() {
			break
		}
		sa, sb = sa[1:], sb[1:]
	}
	for len(sa) > 0 && len(sb) > 0 {
		p, q := &sa[len(sa)-1], &sb[len(sb)-1]
		if p.base == "" && q.base == "" {
			n := 0
			for n < len(p.lit) && n < len(q.lit) && p.lit[len(p.lit)-1-n] == q.lit[len(q.lit)-1-n] {
				n++
			}
			if n < len(p.lit) && n < len(q.lit) {
				return nil, nil
			}
			p.lit, q.lit = p.lit[:len(p.lit)-n], q.lit[:len(q.lit)-n]
			if p.lit == "" {
				sa = sa[:len(sa)-1]
			}
			if q.lit == "" {
				sb = sb[:len(sb)-1]
			}
			continue
		}
		if p.base == "" || p.base != q.base || p.lo.Key() != q.lo.Key() || p.hi.Key() != q.hi.Key() {
			break
		}
		sa, sb = sa[:len(sa)-1], sb[:len(sb)-1]
	}
	return mkStr(sa), mkStr(sb)
}

func (x *Exec) strEqual(a, b Val) *Formula {
	if ia, ok := b.(IfaceV); ok {
		b = ia.v
	}
	sa, ok1 := a.(StrV)
	sb, ok2 := b.(StrV)
	if ok1 && ok2 {
		return fbool(sa.s == sb.s)
	}
	ka, kb := strKey(a), strKey(b)
	if ka == kb {
		return fTrue
	}
	if a, b = stripCommon(a, b); a == nil {
		return fFalse
	}
	if ca, ok := a.(StrV); ok {
		if cb, ok := b.(StrV); ok {
			return fbool(ca.s == cb.s)
		}
		sa, ok1 = ca, true
	} else {
		ok1 = false
	}
	if cb, ok := b.(StrV); ok {
		sb, ok2 = cb, true
	} else {
		ok2 = false
	}
	ka, kb = strKey(a), strKey(b)
	// comparison with a short literal: length and bytes
	lit, other := sa, b
	isLit := ok1
	if ok2 {
		lit, other, isLit = sb, a, true
	}
	if isLit {
		segs := segsOf(other)
		if lit.s == "" {
			return EqP(x.strLen(other), newPoly())
		}
		if len(segs) == 1 && segs[0].base != "" {
			s := segs[0]
			f := EqP(segLen(s), ConstI(int64(len(lit.s))))
			for i := 0; i < len(lit.s); i++ {
				f = And(f, EqP(x.strByte(s.base, s.lo.AddI(int64(i))), ConstI(int64(lit.s[i]))))
			}
			return f
		}
	}
	return x.symEq("str:"+ka, "str:"+kb)
}

func (x *Exec) bytesToString(s SliceV) Val {
	n, ok := s.len.IsConst()
	if !ok {
		return SymStr{x.opaqueStr(x.freshName("str"))}
	}
	var sb []byte
	for i := int64(0); i < n.Int64(); i++ {
		c, ok := x.intOf(x.load(x.sliceAt(s, ConstI(i)))).IsConst()
		if !ok {
			return SymStr{x.opaqueStr(x.freshName("str"))}
		}
		sb = append(sb, byte(c.Int64()))
	}
	return StrV{string(sb)}
}

func (x *Exec) rangeString(fr *Frame, s *ast.RangeStmt, label string, setKV func(ast.Expr, Val, types.Type)) ctl {
	v := x.eval(fr, s.X)
	if c, ok := v.(StrV); ok {
		for i, r := range c.s {
			setKV(s.Key, IntV{ConstI(int64(i))}, types.Typ[types.Int])
			setKV(s.Value, IntV{ConstI(int64(r))}, types.Typ[types.Rune])
			c := x.block(fr, s.Body.List)
			if stop, r := loopCtl(c, label); stop {
				return r
			}
		}
		return next
	}
	unsupported("range over a symbolic string")
	return next
}

// ---------------------------------------------------------------- maps

type mapEntry struct {
	k       Val
	v       Val
	present bool
}

// MapObj: a map; base != "" means unknown initial contents.
type MapObj struct {
	id       int
	base     string
	vt       types.Type
	kt       types.Type
	ents     []mapEntry // newest last
	pre      bool
	c        *Cell
	memo     map[string]Val
	maybeNil bool
	nilBase  string // base at creation: writes do not change nilness
}

func (m *MapObj) cell() *Cell {
	if m.c == nil {
		m.c = &Cell{name: "contents of map " + m.base, typ: types.Typ[types.Int], v: OpaqueV{"map"}, pre: m.pre, mobj: m}
	}
	return m.c
}

type MapV struct{ m *MapObj }

// MapSnap: the contents of a map at an earlier point.
type MapSnap struct{ m *MapObj }

func snapMap(m *MapObj) MapSnap {
	s := *m
	s.ents = append([]mapEntry(nil), m.ents...)
	if s.base == "" {
		s.memo = nil
	}
	return MapSnap{&s}
}

// view: the map in the state a specification is being evaluated in.
func (x *Exec) mapView(m *MapObj) *MapObj {
	if m != nil && m.c != nil && x.oldMode != nil {
		if s, ok := x.oldMode[m.c].(MapSnap); ok {
			return s.m
		}
	}
	return m
}

// mapHavoc: the contents (not the identity) become unknown.
func (x *Exec) mapHavoc(m *MapObj, name string) {
	x.mapWritten(m)
	if m.base == "" && !m.maybeNil {
		m.nilBase = ""
	} else {
		m.nilBase = m.nilName()
	}
	m.base = name
	m.memo = map[string]Val{}
	m.ents = nil
}

func (x *Exec) makeMap(t types.Type) MapV {
	mt := under(t).(*types.Map)
	x.mapN++
	m := &MapObj{id: x.mapN, vt: mt.Elem(), kt: mt.Key()}
	x.maps[m.id] = m
	return MapV{m}
}

func (x *Exec) symMap(t types.Type, name string) MapV {
	mt := under(t).(*types.Map)
	x.mapN++
	m := &MapObj{id: x.mapN, base: name, vt: mt.Elem(), kt: mt.Key(), memo: map[string]Val{}}
	x.maps[m.id] = m
	return MapV{m}
}

func (m *MapObj) nilName() string {
	if m.nilBase != "" {
		return m.nilBase
	}
	return m.base
}

func (x *Exec) mapNil(m MapV) *Formula {
	if m.m == nil {
		return fTrue
	}
	if m.m.maybeNil {
		return EqP(x.c.Input("isnil("+m.m.nilName()+")", bigZero, bigOne), ConstI(1))
	}
	return fFalse
}

func (x *Exec) mapOf(v Val) *MapObj {
	switch m := v.(type) {
	case MapV:
		return m.m
	case NilV:
		return nil
	}
	unsupported("map expected, have %T", v)
	return nil
}

func (x *Exec) keyID(k Val) string {
	switch k := k.(type) {
	case StrV, SymStr:
		return "s:" + strKey(k)
	case IntV:
		return "i:" + k.p.Key()
	case IfaceV:
		return "f:" + x.ifaceID(k)
	}
	unsupported("map key %T", k)
	return ""
}

// mapHas: value and presence, without forcing a zero value on absence.
func (x *Exec) mapHas(mv MapV, k Val) (Val, *Formula) {
	m := x.mapView(mv.m)
	if m == nil {
		return nil, fFalse
	}
	mv = MapV{m}
	for i := len(m.ents) - 1; i >= 0; i-- {
		e := m.ents[i]
		if x.fork(x.equal(e.k, k), "map key equal") {
			return e.v, fbool(e.present)
		}
	}
	if m.base == "" {
		return x.zeroVal(m.vt), fFalse
	}
	id := x.keyID(k)
	v, ok := m.memo[id]
	if !ok {
		v = x.symResult(m.vt, "val("+m.base+","+id+")")
		m.memo[id] = v
		x.mapCongruence(m, id, k, v)
	}
	f := EqP(x.c.Input("has("+m.base+","+id+")", bigZero, bigOne), ConstI(1))
	if m.maybeNil {
		f = And(Not(x.mapNil(mv)), f)
	}
	return v, f
}

type mapRead struct {
	id   string
	k, v Val
}

// mapCongruence: equal keys have equal values.
func (x *Exec) mapCongruence(m *MapObj, id string, k, v Val) {
	if x.mapReads == nil {
		x.mapReads = map[string][]mapRead{}
	}
	has := func(id string) *Formula {
		return EqP(x.c.Input("has("+m.base+","+id+")", bigZero, bigOne), ConstI(1))
	}
	for _, r := range x.mapReads[m.base] {
		if r.id == id {
			return
		}
	}
	for _, r := range x.mapReads[m.base] {
		f := x.c.simp(x.equal(r.k, k))
		if f.k != FFalse {
			x.assume(Implies(f, And(Iff(has(r.id), has(id)), x.sameRes(r.v, v))))
		}
	}
	x.mapReads[m.base] = append(x.mapReads[m.base], mapRead{id, k, v})
}

type mapCase struct {
	cond, present *Formula
	v             Val
}

// mapCases: the possible results of looking up k, without forking.
func (x *Exec) mapCases(mv MapV, k Val) []mapCase {
	m := x.mapView(mv.m)
	if m == nil {
		return nil
	}
	var out []mapCase
	rest := fTrue
	for i := len(m.ents) - 1; i >= 0; i-- {
		e := m.ents[i]
		f := x.c.simp(x.equal(e.k, k))
		if f.k == FFalse {
			continue
		}
		v := e.v
		if !e.present {
			v = x.zeroVal(m.vt)
		}
		out = append(out, mapCase{And(rest, f), fbool(e.present), v})
		if f.k == FTrue {
			return out
		}
		rest = And(rest, Not(f))
	}
	b := *m
	b.ents = nil
	v, f := x.mapHas(MapV{&b}, k)
	return append(out, mapCase{rest, f, v})
}

// sameGet: equality of a map element with a value, without forking.
func (env *SpecEnv) sameGet(a, b ast.Expr) *Formula {
	if id, ok := ast.Unparen(a).(*ast.Ident); ok {
		// a parameter of a predicate
		t, ok := env.names[id.Name].(thunk)
		if !ok {
			return nil
		}
		w := env.val(b)
		n := t.env.child()
		n.names["$w"] = w
		return n.sameGet(t.e, ast.NewIdent("$w"))
	}
	c, ok := ast.Unparen(a).(*ast.CallExpr)
	if !ok || len(c.Args) != 2 {
		return nil
	}
	if id, ok := c.Fun.(*ast.Ident); !ok || id.Name != "get" {
		return nil
	}
	m, ok := env.val(c.Args[0]).(MapV)
	if !ok || m.m == nil || len(env.x.mapView(m.m).ents) == 0 {
		return nil
	}
	w := env.val(b)
	r := fTrue
	for _, cs := range env.x.mapCases(m, env.val(c.Args[1])) {
		r = And(r, Implies(cs.cond, env.eq(cs.v, w)))
	}
	return r
}

func (x *Exec) mapGet(mv Val, k Val, mt *types.Map) (Val, *Formula) {
	m := x.mapOf(mv)
	if m == nil {
		return x.zeroVal(mt.Elem()), fFalse
	}
	if mt != nil {
		if _, isI := under(mt.Key()).(*types.Interface); isI {
			if _, ok := k.(IfaceV); !ok {
				unsupported("interface map key")
			}
		}
	}
	v, f := x.mapHas(MapV{m}, k)
	if x.fork(f, "key present") {
		return v, fTrue
	}
	return x.zeroVal(m.vt), fFalse
}

func (x *Exec) mapSet(mv Val, k, v Val, mt *types.Map) {
	x.escape(v)
	m := x.mapOf(mv)
	if m == nil {
		x.check(fFalse, "nil-map-write", "assignment to entry in nil map")
		return
	}
	if m.maybeNil {
		x.check(Not(x.mapNil(MapV{m})), "nil-map-write", "assignment to entry in nil map")
	}
	x.mapWritten(m)
	m.ents = append(m.ents, mapEntry{k, v, true})
}

func (x *Exec) mapDelete(mv Val, k Val) {
	m := x.mapOf(mv)
	if m == nil {
		return
	}
	x.mapWritten(m)
	m.ents = append(m.ents, mapEntry{k, nil, false})
}

func (x *Exec) mapWritten(m *MapObj) {
	c := m.cell()
	c.pre = m.pre
	if x.mapWrites != nil {
		x.mapWrites[m] = true
	}
	if m.pre && x.entryOld != nil {
		if _, ok := x.entryOld[c]; !ok {
			x.entryOld[c] = snapMap(m)
			c.v = OpaqueV{"changed map"}
		}
	}
}

func (x *Exec) mapLen(m MapV) *Poly {
	if m.m == nil {
		return newPoly()
	}
	m.m = x.mapView(m.m)
	if m.m.base == "" {
		// distinct keys
		n := int64(0)
		for i, e := range m.m.ents {
			last := true
			for _, f := range m.m.ents[i+1:] {
				if x.fork(x.equal(e.k, f.k), "same key") {
					last = false
					break
				}
			}
			if last && e.present {
				n++
			}
		}
		return ConstI(n)
	}
	if len(m.m.ents) == 0 {
		l := x.c.Input("maplen("+m.m.base+")", bigZero, pow2(40))
		if m.m.maybeNil {
			x.assume(Implies(x.mapNil(m), EqP(l, newPoly())))
		}
		return l
	}
	unsupported("len of a modified symbolic map")
	return nil
}

// rangeMap: concrete maps are enumerated (in insertion order); symbolic maps
// need an invariant in terms of a ghost key, see maploop.go.
func (x *Exec) rangeMap(fr *Frame, s *ast.RangeStmt, mt *types.Map, label string, setKV func(ast.Expr, Val, types.Type)) ctl {
	v := x.eval(fr, s.X)
	m := x.mapOf(v)
	if m == nil {
		return next
	}
	if m.base == "" {
		var live []mapEntry
		for i, e := range m.ents {
			last := true
			for _, f := range m.ents[i+1:] {
				if x.fork(x.equal(e.k, f.k), "same key") {
					last = false
					break
				}
			}
			if last && e.present {
				live = append(live, e)
			}
		}
		if len(live) > 1 {
			// iteration order is unspecified
			x.orderNote = true
		}
		for _, e := range live {
			setKV(s.Key, e.k, mt.Key())
			setKV(s.Value, e.v, mt.Elem())
			c := x.block(fr, s.Body.List)
			if stop, r := loopCtl(c, label); stop {
				return r
			}
		}
		return next
	}
	if ls, k := x.loopSpec(fr, s); ls != nil {
		return x.mapLoop(fr, s, ls, k, label, m, mt, setKV)
	}
	unsupported("range over a symbolic map at %s without invariant", x.pos(s.Pos()))
	return next
}

// mapLoop: range over an unknown map, reasoned about pointwise. The contract
// has a ghost key K (an arbitrary string). The loop visits every present key
// once in unspecified order; invariants may use `visited` (K was visited).
func (x *Exec) mapLoop(fr *Frame, s *ast.RangeStmt, ls *LoopSpec, k int, label string, m *MapObj, mt *types.Map, setKV func(ast.Expr, Val, types.Type)) ctl {
	K := x.ghostKey()
	env := x.frameEnv(fr, s.Pos(), s.Body.Lbrace+1)
	x.adoptRoot(env, ls)
	where := fmt.Sprintf("loop %d of %s", k, fr.name)
	env.names["K"] = K
	env.names["visited"] = BoolV{fFalse}
	for _, c := range ls.inv {
		x.curPos = s.Pos()
		x.emit("invariant-init", where+": "+c.text, x.specGoal(env, c))
	}
	key := fmt.Sprintf("%d|%v", s.Pos(), traceKey(x.trace[:x.tpos]))
	hs := x.job.havocSet(key)
	mark := x.cellN
	x.havocCells(hs, fmt.Sprintf("loop%d", k))
	ml := x.havocMaps(key)
	if ml.ms[m.id] {
		unsupported("map modified while ranged over at %s", x.pos(s.Pos()))
	}
	vis := x.c.Input(x.freshName("visited"), bigZero, bigOne)
	env.names["visited"] = BoolV{EqP(vis, ConstI(1))}
	_, hasK := x.mapHas(MapV{m}, K)
	x.assume(Implies(EqP(vis, ConstI(1)), hasK))
	for _, c := range ls.inv {
		x.assumeSpec(env, c)
	}
	outerLog := x.writeLog
	x.writeLog = map[*Cell]bool{}
	for c := range x.havocked {
		if outerLog != nil {
			outerLog[c] = true
		}
	}
	finish := func() {
		grow := false
		for c := range x.writeLog {
			if c.id <= mark && !hs[c.id] {
				hs[c.id] = true
				grow = true
			}
			if outerLog != nil {
				outerLog[c] = true
			}
		}
		if ml.finish(x) || grow {
			x.job.growHavoc(key, hs)
			panic(restartJob{})
		}
	}
	x.curPos = s.Pos()
	it := x.c.Input(x.freshName("iterate"), bigZero, bi(2))
	if x.fork(EqP(it, newPoly()), where+" finished") {
		// all keys visited
		x.assume(Iff(EqP(vis, ConstI(1)), hasK))
		finish()
		x.writeLog, x.mapWrites = outerLog, ml.outer
		return next
	}
	after := env.names["visited"]
	if x.fork(EqP(it, ConstI(1)), where+" visits the ghost key") {
		x.assume(And(hasK, EqP(vis, newPoly())))
		v, _ := x.mapHas(MapV{m}, K)
		setKV(s.Key, K, mt.Key())
		setKV(s.Value, v, mt.Elem())
		after = BoolV{fTrue}
	} else {
		k2 := x.symKey(x.freshName("key"))
		x.assume(Not(x.equal(k2, K)))
		x.keys = append(x.keys, k2)
		v, h := x.mapHas(MapV{m}, k2)
		x.assume(h)
		// the ghost key is arbitrary: the invariant holds for k2 as well, which
		// has not been visited
		env.names["K"], env.names["visited"] = k2, BoolV{fFalse}
		for _, c := range ls.inv {
			x.assumeSpec(env, c)
		}
		env.names["K"], env.names["visited"] = K, after
		setKV(s.Key, k2, mt.Key())
		setKV(s.Value, v, mt.Elem())
	}
	c := x.block(fr, s.Body.List)
	if stop, r := loopCtl(c, label); stop {
		finish()
		x.writeLog, x.mapWrites = outerLog, ml.outer
		return r
	}
	finish()
	env.names["visited"] = after
	x.curPos = s.Pos()
	for _, c := range ls.inv {
		x.emit("invariant-preserved", where+": "+c.text, x.specGoal(env, c))
	}
	panic(pathEnd{"end of loop body"})
}

func (x *Exec) ghostKey() Val { return x.symKey("K") }

// symKey: an arbitrary key of the type of the maps of the function.
func (x *Exec) symKey(name string) Val {
	if x.ghostKT != nil {
		return x.symScalar(x.ghostKT, name)
	}
	return SymStr{x.opaqueStr(name)}
}

func (x *Exec) findKeyType(t types.Type, depth int) {
	if x.ghostKT != nil || t == nil || depth > 4 {
		return
	}
	switch u := under(t).(type) {
	case *types.Map:
		x.ghostKT = u.Key()
	case *types.Pointer:
		x.findKeyType(u.Elem(), depth+1)
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			x.findKeyType(u.Field(i).Type(), depth+1)
		}
	case *types.Slice:
		x.findKeyType(u.Elem(), depth+1)
	}
}

func (x *Exec) mapByID(id int) *MapObj { return x.maps[id] }

var _ = token.ADD

// mapLog: the maps written in a loop.
type mapLog struct {
	key   string
	ms    map[int]bool
	mark  int
	outer map[*MapObj]bool
}

// havocMaps forgets the contents of the maps the loop writes.
func (x *Exec) havocMaps(key string) *mapLog {
	l := &mapLog{key: key + "|maps", mark: x.mapN}
	l.ms = x.job.havocSet(l.key)
	var ids []int
	for id := range l.ms {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	for _, id := range ids {
		mo := x.mapByID(id)
		if mo == nil {
			unsupported("map modified in loop not found")
		}
		x.mapHavoc(mo, x.freshName("loopmap"))
	}
	l.outer = x.mapWrites
	x.mapWrites = map[*MapObj]bool{}
	return l
}

// finish records the maps written; true: the set has grown.
func (l *mapLog) finish(x *Exec) bool {
	grow := false
	for mo := range x.mapWrites {
		if mo.id <= l.mark && !l.ms[mo.id] {
			l.ms[mo.id] = true
			grow = true
		}
		if l.outer != nil {
			l.outer[mo] = true
		}
	}
	if grow {
		x.job.growHavoc(l.key, l.ms)
	}
	return grow
}
