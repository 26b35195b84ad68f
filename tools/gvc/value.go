package main

import (
	"fmt"
	"go/ast"
	"go/types"
	"math/big"
	"strings"
)

// value.go: runtime values of the symbolic executor.

// Cell is a storage location (variable, field, array element, heap object).
type Cell struct {
	typ   types.Type
	v     Val     // scalars
	elems []*Cell // arrays, structs
	name  string
	id    int
	pre   bool    // existed when the function under verification was entered
	owner *Cell   // backing array this cell is an element of
	inSeq *Seq    // the sequence version it belongs to
	esc   bool    // storage referenced from a map
	mobj  *MapObj // the cell stands for the contents of this map
}

// Seq is the contents of a slice backing array of symbolic length.
// Reads of element i give memoised cells; the sequence is append/overwrite aware
// only through explicit element cells (index polynomials are compared by key).
type Seq struct {
	name      string
	elem      types.Type
	elems     map[string]*Cell
	idx       map[string]*Poly
	order     []string
	onNew     []func(*Poly, *Cell)
	base      map[string]Val // initial contents (simple element types)
	baseIdx   map[string]*Poly
	baseOrder []string
	reads     map[string]Val
	parent    *SliceV // appended to
	immut     bool    // result of an oracle: never written
	frozen    bool    // contents captured by another sequence: must not change any more
}

type Val interface{}

type (
	IntV   struct{ p *Poly }
	BoolV  struct{ f *Formula }
	PtrV   struct{ c *Cell } // nil c: nil pointer
	SliceV struct {
		arr           *Cell
		off, len, cap *Poly
		maybeNil      *Formula
	} // arr nil: nil slice
	StrV  struct{ s string }
	FuncV struct {
		mexpr *types.Selection // method expression T.Method: receiver is the first argument
		fn    *types.Func
		lit   *ast.FuncLit
		recv  Val
		frame *Frame
		targs []types.Type
		pkg   *Pkg
		name  string
	}
	IfaceV struct {
		typ    types.Type // nil with sym=="": nil interface
		v      Val
		sym    string // non-empty: opaque non-nil unless mayNil
		mayNil bool
	}
	BigV    struct{ p *Poly }
	SeqV    struct{ s *Seq } // contents of a backing array of symbolic length
	FEV     struct{ p *Poly }
	CompV   struct{ c *Cell } // detached composite value
	TupleV  []Val
	NilV    struct{}
	TypeV   struct{ t types.Type }
	OpaqueV struct{ name string }
)

func under(t types.Type) types.Type { return types.Unalias(t).Underlying() }

func isBigInt(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "math/big" && n.Obj().Name() == "Int"
}

func typeKey(t types.Type) string {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok {
		return ""
	}
	if n.Obj().Pkg() == nil {
		return n.Obj().Name()
	}
	return n.Obj().Pkg().Path() + "." + n.Obj().Name()
}

type intInfo struct {
	w      uint
	signed bool
}

func intType(t types.Type) (intInfo, bool) {
	b, ok := under(t).(*types.Basic)
	if !ok {
		return intInfo{}, false
	}
	switch b.Kind() {
	case types.Uint8:
		return intInfo{8, false}, true
	case types.Uint16:
		return intInfo{16, false}, true
	case types.Uint32:
		return intInfo{32, false}, true
	case types.Uint64, types.Uint, types.Uintptr:
		return intInfo{64, false}, true
	case types.Int8:
		return intInfo{8, true}, true
	case types.Int16:
		return intInfo{16, true}, true
	case types.Int32, types.UntypedRune:
		return intInfo{32, true}, true
	case types.Int64, types.Int, types.UntypedInt:
		return intInfo{64, true}, true
	}
	return intInfo{}, false
}

func (ii intInfo) bounds() (*big.Int, *big.Int) {
	if ii.signed {
		h := pow2(ii.w - 1)
		return new(big.Int).Neg(h), new(big.Int).Sub(h, bigOne)
	}
	return bigZero, new(big.Int).Sub(pow2(ii.w), bigOne)
}

// wrap reduces P into the range of the integer type.
func (c *Ctx) wrap(p *Poly, ii intInfo) *Poly {
	lo, hi := ii.bounds()
	iv := c.Iv(p)
	if iv.lo != nil && iv.hi != nil && iv.lo.Cmp(lo) >= 0 && iv.hi.Cmp(hi) <= 0 {
		return p
	}
	m := pow2(ii.w)
	if ii.signed {
		h := pow2(ii.w - 1)
		q := c.FloorDiv(p.Add(Const(h)), m)
		r := p.Sub(q.Scale(m))
		c.setBounds(r, Interval{lo, hi})
		return r
	}
	return c.ModP(p, m)
}

func isComposite(t types.Type) bool {
	switch under(t).(type) {
	case *types.Struct, *types.Array:
		return true
	}
	return false
}

type Unsupported struct{ msg string }

func unsupported(format string, a ...any) { panic(Unsupported{fmt.Sprintf(format, a...)}) }

// newCell makes a zero-initialised cell.
func (x *Exec) newCell(t types.Type, name string) *Cell {
	c := &Cell{typ: t, name: name}
	x.register(c)
	if k, ok := x.abstractKind(t); ok {
		if k == "field" {
			c.v = FEV{newPoly()}
		} else {
			unsupported("abstract kind %s", k)
		}
		return c
	}
	if isBigInt(t) {
		c.v = BigV{newPoly()}
		return c
	}
	if isBuilder(t) {
		c.v = StrV{""}
		return c
	}
	switch u := under(t).(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			c.elems = append(c.elems, x.newCell(u.Field(i).Type(), name+"."+u.Field(i).Name()))
		}
		if c.elems == nil {
			c.elems = []*Cell{}
		}
	case *types.Array:
		if u.Len() > 4096 {
			unsupported("array too large")
		}
		c.elems = make([]*Cell, 0, u.Len())
		for i := int64(0); i < u.Len(); i++ {
			c.elems = append(c.elems, x.newCell(u.Elem(), fmt.Sprintf("%s[%d]", name, i)))
		}
	default:
		c.v = x.zeroScalar(t)
	}
	return c
}

func (x *Exec) zeroScalar(t types.Type) Val {
	switch u := under(t).(type) {
	case *types.Basic:
		if _, ok := intType(t); ok {
			return IntV{newPoly()}
		}
		if u.Info()&types.IsBoolean != 0 {
			return BoolV{fFalse}
		}
		if u.Info()&types.IsString != 0 {
			return StrV{""}
		}
		if u.Kind() == types.UntypedNil {
			return NilV{}
		}
	case *types.Pointer:
		return PtrV{nil}
	case *types.Slice:
		return SliceV{}
	case *types.Interface:
		if n, ok := types.Unalias(t).(*types.Named); ok && strings.HasPrefix(n.Obj().Name(), "Any_") {
			return IfaceV{sym: "zero value of " + n.Obj().Name()} // the zero value of an unknown type
		}
		return IfaceV{}
	case *types.Signature:
		return FuncV{}
	case *types.Map:
		return MapV{}
	case *types.Chan:
		return NilV{}
	}
	return OpaqueV{"zero"}
}

func (x *Exec) zeroVal(t types.Type) Val {
	if x.isScalar(t) {
		return x.newCell(t, "").v
	}
	return CompV{x.newCell(t, "")}
}

func (x *Exec) isScalar(t types.Type) bool {
	if _, ok := x.abstractKind(t); ok {
		return true
	}
	if isBigInt(t) || isBuilder(t) {
		return true
	}
	return !isComposite(t)
}

func copyCell(c *Cell) *Cell {
	n := &Cell{typ: c.typ, v: c.v, name: c.name}
	if c.elems != nil {
		n.elems = make([]*Cell, len(c.elems))
		for i, e := range c.elems {
			n.elems[i] = copyCell(e)
		}
	}
	return n
}

// load returns the value stored in c (composites are copied).
func (x *Exec) load(c *Cell) Val {
	if c.elems != nil {
		if x.oldMode != nil {
			n := copyCell(c)
			x.applyOld(c, n)
			return CompV{n}
		}
		return CompV{copyCell(c)}
	}
	if x.oldMode != nil {
		if v, ok := x.oldMode[c]; ok {
			return v
		}
	}
	return c.v
}

func (x *Exec) applyOld(src, dst *Cell) {
	if src.elems == nil {
		if v, ok := x.oldMode[src]; ok {
			dst.v = v
		}
		return
	}
	for i := range src.elems {
		x.applyOld(src.elems[i], dst.elems[i])
	}
}

func (x *Exec) store(c *Cell, v Val) {
	if c.elems != nil {
		cv, ok := v.(CompV)
		if !ok {
			unsupported("store of %T into composite %s", v, c.typ)
		}
		if len(cv.c.elems) != len(c.elems) {
			unsupported("store: shape mismatch %s <- %s", c.typ, cv.c.typ)
		}
		tmp := copyCell(cv.c)
		for i := range c.elems {
			x.storeCell(c.elems[i], tmp.elems[i])
		}
		return
	}
	x.written(c)
	if _, isC := v.(CompV); isC {
		unsupported("composite value stored into scalar cell %s of type %v", c.name, c.typ)
	}
	c.v = v
}

func (x *Exec) storeCell(dst, src *Cell) {
	if dst.elems != nil {
		for i := range dst.elems {
			x.storeCell(dst.elems[i], src.elems[i])
		}
		return
	}
	x.written(dst)
	dst.v = src.v
}

func (x *Exec) register(c *Cell) {
	x.cellN++
	c.id = x.cellN
	if x.cellByID != nil {
		x.cellByID[c.id] = c
	}
}

func (x *Exec) written(c *Cell) {
	if c.owner != nil {
		if c.inSeq != nil {
			if c.inSeq != c.owner.sq() {
				unsupported("write through a pointer into an overwritten sequence")
			}
			if c.inSeq.frozen {
				unsupported("write to a sequence whose contents were captured")
			}
		}
		x.arrWritten(c.owner)
		if x.writeLog != nil {
			x.writeLog[c.owner] = true
		}
	}
	if x.entryOld != nil {
		if _, ok := x.entryOld[c]; !ok {
			x.entryOld[c] = c.v
		}
	}
	if x.writeLog != nil {
		x.writeLog[c] = true
	}
}

func (c *Cell) scalars(f func(*Cell)) {
	if c.elems != nil {
		for _, e := range c.elems {
			e.scalars(f)
		}
		return
	}
	f(c)
}

// symCell fills c with fresh symbolic contents named after name.
func (x *Exec) symCell(c *Cell, name string) {
	if c.elems != nil {
		u := under(c.typ)
		for i, e := range c.elems {
			if st, ok := u.(*types.Struct); ok {
				x.symCell(e, name+"."+st.Field(i).Name())
			} else {
				x.symCell(e, fmt.Sprintf("%s[%d]", name, i))
			}
		}
		return
	}
	c.v = x.symScalar(c.typ, name)
}

func (x *Exec) symScalar(t types.Type, name string) Val {
	if k, ok := x.abstractKind(t); ok && k == "field" {
		return FEV{x.c.FieldInput(name)}
	}
	if isBigInt(t) {
		return BigV{x.c.Input(name, nil, nil)}
	}
	if isBuilder(t) {
		return SymStr{x.opaqueStr(name)}
	}
	if ii, ok := intType(t); ok {
		lo, hi := ii.bounds()
		return IntV{x.c.Input(name, lo, hi)}
	}
	switch u := under(t).(type) {
	case *types.Basic:
		if u.Info()&types.IsBoolean != 0 {
			return BoolV{EqP(x.c.Input(name, bigZero, bigOne), ConstI(1))}
		}
		if u.Info()&types.IsString != 0 {
			return SymStr{x.opaqueStr(name)}
		}
	case *types.Pointer:
		// fresh, non-nil, unaliased target
		tc := x.newCell(u.Elem(), "*"+name)
		x.symCell(tc, name)
		return PtrV{tc}
	case *types.Interface:
		n, ok := types.Unalias(t).(*types.Named)
		nonnil := ok && (strings.HasPrefix(n.Obj().Name(), "Any_") || x.v.db.nonnil[typeKey(n)])
		if nonnil && x.job != nil && !strings.HasPrefix(n.Obj().Name(), "Any_") {
			x.job.noteAssumed("stored values of interface type " + n.Obj().Name() + " are not nil")
		}
		return IfaceV{sym: name, mayNil: !nonnil}
	case *types.Slice:
		return x.symSlice(t, name)
	case *types.Signature:
		return FuncV{name: name}
	case *types.Map:
		m := x.symMap(t, name)
		m.m.maybeNil = true
		return m
	}
	return OpaqueV{name}
}

func (x *Exec) symSlice(t types.Type, name string) Val {
	el := under(t).(*types.Slice).Elem()
	ln := x.c.Input("len("+name+")", bigZero, pow2(40))
	arr := x.newSeqCell(t, name, el)
	isNil := EqP(x.c.Input("isnil("+name+")", bigZero, bigOne), ConstI(1))
	x.assume(Implies(isNil, EqP(ln, newPoly())))
	cp := x.c.Input("cap("+name+")", bigZero, pow2(41))
	x.assume(Le(ln, cp))
	x.assume(Implies(isNil, EqP(cp, newPoly())))
	return SliceV{arr: arr, off: newPoly(), len: ln, cap: cp, maybeNil: isNil}
}

// sq is the current contents of a backing array of symbolic length.
func (c *Cell) sq() *Seq {
	if s, ok := c.v.(SeqV); ok {
		return s.s
	}
	return nil
}

// seqOf is sq, or the contents in the old state while an old value is read.
func (x *Exec) seqOf(c *Cell) *Seq {
	if x.oldMode != nil {
		if v, ok := x.oldMode[c]; ok {
			if s, ok := v.(SeqV); ok {
				return s.s
			}
		}
	}
	return c.sq()
}

func newSeq(name string, el types.Type) *Seq {
	return &Seq{name: name, elem: el, elems: map[string]*Cell{}, idx: map[string]*Poly{}}
}

func (x *Exec) newSeqCell(t types.Type, name string, el types.Type) *Cell {
	arr := &Cell{typ: t, name: name, v: SeqV{newSeq(name, el)}}
	x.register(arr)
	return arr
}

// arrWritten: some element of the backing array a is overwritten. Slices that
// were given unknown values at a loop head may share their storage with the
// slice they replaced.
func (x *Exec) arrWritten(a *Cell) {
	if x.smashing {
		return
	}
	if len(x.bornOf) == 0 {
		return
	}
	seen := map[*Cell]bool{a: true}
	todo := []*Cell{a}
	for len(todo) > 0 {
		c := todo[0]
		todo = todo[1:]
		for _, d := range append([]*Cell{x.bornOf[c]}, x.bornFrom[c]...) {
			if d != nil && !seen[d] {
				seen[d] = true
				todo = append(todo, d)
				x.smash(d)
			}
		}
	}
}

// smash forgets the contents of a backing array.
func (x *Exec) smash(a *Cell) {
	x.smashing = true
	defer func() { x.smashing = false }()
	if s := a.sq(); s != nil {
		x.written(a)
		nm := x.freshName(s.name + "'")
		a.v = SeqV{newSeq(nm, s.elem)}
		return
	}
	a.scalars(func(c *Cell) {
		x.written(c)
		c.v = x.symLike(c, x.freshName(c.name+"'"))
	})
}

func (x *Exec) concreteSlice(t types.Type, n int, name string) Val {
	el := under(t).(*types.Slice).Elem()
	at := types.NewArray(el, int64(n))
	arr := x.newCell(at, name)
	return SliceV{arr: arr, off: newPoly(), len: ConstI(int64(n)), cap: ConstI(int64(n))}
}

func shortPos(s string) string {
	if i := strings.LastIndex(s, "/"); i >= 0 {
		return s[i+1:]
	}
	return s
}
