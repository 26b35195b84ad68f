package main

import (
	"go/ast"
	"go/types"
	"math/big"
	"strconv"
)

// intrinsics.go: the functions outside the repository that the code calls.
// math/bits is defined exactly; math/big is an assumed contract (the
// documented mathematical meaning); fmt/errors produce opaque values.

var intrinsics map[string]func(x *Exec, recv Val, args []Val) []Val

func wordOp(w uint) map[string]func(x *Exec, a []Val) []Val {
	m := pow2(w)
	return map[string]func(x *Exec, a []Val) []Val{
		"Add": func(x *Exec, a []Val) []Val {
			s := x.intOf(a[0]).Add(x.intOf(a[1])).Add(x.intOf(a[2]))
			x.carryOK(a[2])
			q := x.c.FloorDiv(s, m)
			x.boolBounds(q, a[2])
			return []Val{IntV{x.c.ModP(s, m)}, IntV{q}}
		},
		"Sub": func(x *Exec, a []Val) []Val {
			s := x.intOf(a[0]).Sub(x.intOf(a[1])).Sub(x.intOf(a[2]))
			x.carryOK(a[2])
			q := x.c.FloorDiv(s, m)
			x.boolBounds(q.Neg(), a[2])
			return []Val{IntV{x.c.ModP(s, m)}, IntV{q.Neg()}}
		},
		"Mul": func(x *Exec, a []Val) []Val {
			s := x.intOf(a[0]).Mul(x.intOf(a[1]))
			q := x.c.FloorDiv(s, m)
			return []Val{IntV{q}, IntV{x.c.ModP(s, m)}}
		},
	}
}

// boolBounds records that a carry out is 0 or 1 if the carry in is known to be.
func (x *Exec) boolBounds(q *Poly, cin Val) {
	iv := x.c.Iv(x.intOf(cin))
	if iv.lo == nil || iv.hi == nil || iv.lo.Sign() < 0 || iv.hi.Cmp(bigOne) > 0 {
		return
	}
	x.c.setBounds(q, Interval{bigZero, bigOne})
	base, g, k := prim(q)
	if id, ok := base.IsAtom(); ok && g.IsInt64() && (g.Int64() == 1 || g.Int64() == -1) {
		lo := new(big.Int).Neg(k)
		hi := new(big.Int).Sub(bigOne, k)
		if g.Sign() < 0 {
			lo, hi = new(big.Int).Neg(hi), new(big.Int).Neg(lo)
		}
		a := x.c.atoms[id]
		a.iv = ivMeet(a.iv, Interval{lo, hi})
	}
}

// carryOK: math/bits documents that the carry input must be 0 or 1.
func (x *Exec) carryOK(c Val) {
	p := x.intOf(c)
	x.check(And(Ge0(p), Le(p, ConstI(1))), "requires", "math/bits: carry input is 0 or 1")
}

func (x *Exec) bigCell(v Val) *Cell {
	p, ok := v.(PtrV)
	if !ok {
		if _, isNil := v.(NilV); isNil {
			x.check(fFalse, "nil-dereference", "nil *big.Int")
		}
		unsupported("*big.Int expected, have %T", v)
	}
	if p.c == nil {
		x.check(fFalse, "nil-dereference", "nil *big.Int")
	}
	if _, ok := p.c.v.(BigV); !ok {
		unsupported("*big.Int expected")
	}
	return p.c
}

func (x *Exec) bigVal(v Val) *Poly { return x.load(x.bigCell(v)).(BigV).p }

func (x *Exec) setBig(recv Val, p *Poly) []Val {
	c := x.bigCell(recv)
	x.store(c, BigV{p})
	return []Val{recv}
}

func (x *Exec) bigConst(v Val, what string) *big.Int {
	c, ok := x.bigVal(v).IsConst()
	if !ok {
		unsupported("%s: symbolic operand", what)
	}
	return c
}

func (x *Exec) newBig(p *Poly) Val {
	c := &Cell{name: "big", v: BigV{p}, typ: x.v.bigIntType()}
	x.register(c)
	return PtrV{c}
}

func (v *Verifier) bigIntType() types.Type {
	if p := v.l.pkgs["math/big"]; p != nil {
		if o := p.types.Scope().Lookup("Int"); o != nil {
			return o.Type()
		}
	}
	return types.Typ[types.Int]
}

func (x *Exec) opaqueErr(name string) Val { return IfaceV{sym: x.freshName(name)} }

// bitLen of a non-negative integer: decided by forking on powers of two.
func (x *Exec) bitLen(p *Poly, max int64) *Poly {
	if c, ok := p.IsConst(); ok {
		return ConstI(int64(c.BitLen()))
	}
	lo, hi := int64(0), max
	iv := x.c.Iv(p)
	if iv.lo != nil {
		lo = int64(iv.lo.BitLen())
	}
	if iv.hi != nil && int64(iv.hi.BitLen()) < hi {
		hi = int64(iv.hi.BitLen())
	}
	for lo < hi {
		mid := (lo + hi) / 2
		if x.fork(Lt(p, Const(pow2(uint(mid)))), "bit length") { // len <= mid
			hi = mid
		} else {
			lo = mid + 1
		}
	}
	return ConstI(lo)
}

func (x *Exec) symBigFresh(name string, lo, hi *big.Int) *Poly {
	return x.c.Input(x.freshName(name), lo, hi)
}

func init() {
	in := map[string]func(x *Exec, recv Val, args []Val) []Val{}
	intrinsics = in
	for suf, w := range map[string]uint{"64": 64, "32": 32, "": 64} {
		for n, f := range wordOp(w) {
			f := f
			in["math/bits."+n+suf] = func(x *Exec, _ Val, a []Val) []Val { return f(x, a) }
		}
		w := w
		in["math/bits.Len"+suf] = func(x *Exec, _ Val, a []Val) []Val {
			return []Val{IntV{x.bitLen(x.intOf(a[0]), int64(w))}}
		}
		in["math/bits.LeadingZeros"+suf] = func(x *Exec, _ Val, a []Val) []Val {
			return []Val{IntV{ConstI(int64(w)).Sub(x.bitLen(x.intOf(a[0]), int64(w)))}}
		}
		in["math/bits.TrailingZeros"+suf] = func(x *Exec, _ Val, a []Val) []Val {
			return []Val{IntV{x.trailingZeros(x.intOf(a[0]), int64(w))}}
		}
	}
	in["math/bits.Len8"] = func(x *Exec, _ Val, a []Val) []Val { return []Val{IntV{x.bitLen(x.intOf(a[0]), 8)}} }
	in["math/bits.OnesCount64"] = func(x *Exec, _ Val, a []Val) []Val {
		p := x.intOf(a[0])
		r := newPoly()
		for i := uint(0); i < 64; i++ {
			r = r.Add(x.c.ModP(x.c.FloorDiv(p, pow2(i)), bigTwo))
		}
		return []Val{IntV{r}}
	}

	B := "math/big.(*Int)."
	in["math/big.NewInt"] = func(x *Exec, _ Val, a []Val) []Val { return []Val{x.newBig(x.intOf(a[0]))} }
	bin := func(name string, f func(x *Exec, p, q *Poly) *Poly) {
		in[B+name] = func(x *Exec, r Val, a []Val) []Val {
			return x.setBig(r, f(x, x.bigVal(a[0]), x.bigVal(a[1])))
		}
	}
	bin("Add", func(x *Exec, p, q *Poly) *Poly { return p.Add(q) })
	bin("Sub", func(x *Exec, p, q *Poly) *Poly { return p.Sub(q) })
	bin("Mul", func(x *Exec, p, q *Poly) *Poly { return p.Mul(q) })
	divisor := func(x *Exec, q *Poly) *big.Int {
		x.check(Not(Eq0(q)), "division-by-zero", "big.Int division by zero")
		c, ok := q.IsConst()
		if !ok {
			unsupported("big.Int division by a symbolic value")
		}
		return c
	}
	eucl := func(x *Exec, p *Poly, d *big.Int) (*Poly, *Poly) {
		m := new(big.Int).Abs(d)
		q := x.c.FloorDiv(p, m)
		r := x.c.ModP(p, m)
		if d.Sign() < 0 {
			q = q.Neg()
		}
		return q, r
	}
	bin("Mod", func(x *Exec, p, q *Poly) *Poly { _, r := eucl(x, p, divisor(x, q)); return r })
	bin("Div", func(x *Exec, p, q *Poly) *Poly { r, _ := eucl(x, p, divisor(x, q)); return r })
	bin("And", func(x *Exec, p, q *Poly) *Poly {
		if _, ok := p.IsConst(); ok {
			p, q = q, p
		}
		if m, ok := q.IsConst(); ok && m.Sign() >= 0 {
			// masks of the form 2^k-1 (two's complement semantics, also for negative p)
			if n := new(big.Int).Add(m, bigOne); new(big.Int).And(m, n).Sign() == 0 {
				return x.c.ModP(p, n)
			}
			if c, ok := p.IsConst(); ok {
				return Const(new(big.Int).And(c, m))
			}
		}
		unsupported("big.Int.And without a constant low mask")
		return nil
	})
	bin("Quo", func(x *Exec, p, q *Poly) *Poly { return x.truncDiv(p, divisor(x, q)) })
	bin("Rem", func(x *Exec, p, q *Poly) *Poly {
		d := divisor(x, q)
		return p.Sub(x.truncDiv(p, d).Scale(d))
	})
	in[B+"DivMod"] = func(x *Exec, r Val, a []Val) []Val {
		q, m := eucl(x, x.bigVal(a[0]), divisor(x, x.bigVal(a[1])))
		x.setBig(r, q)
		x.setBig(a[2], m)
		return []Val{r, a[2]}
	}
	in[B+"QuoRem"] = func(x *Exec, r Val, a []Val) []Val {
		p := x.bigVal(a[0])
		d := divisor(x, x.bigVal(a[1]))
		q := x.truncDiv(p, d)
		x.setBig(r, q)
		x.setBig(a[2], p.Sub(q.Scale(d)))
		return []Val{r, a[2]}
	}
	un := func(name string, f func(x *Exec, p *Poly) *Poly) {
		in[B+name] = func(x *Exec, r Val, a []Val) []Val { return x.setBig(r, f(x, x.bigVal(a[0]))) }
	}
	un("Set", func(x *Exec, p *Poly) *Poly { return p })
	un("Neg", func(x *Exec, p *Poly) *Poly { return p.Neg() })
	un("Abs", func(x *Exec, p *Poly) *Poly {
		if x.fork(Ge0(p), "sign") {
			return p
		}
		return p.Neg()
	})
	in[B+"SetUint64"] = func(x *Exec, r Val, a []Val) []Val { return x.setBig(r, x.intOf(a[0])) }
	in[B+"SetInt64"] = func(x *Exec, r Val, a []Val) []Val { return x.setBig(r, x.intOf(a[0])) }
	in[B+"Cmp"] = func(x *Exec, r Val, a []Val) []Val {
		d := x.bigVal(r).Sub(x.bigVal(a[0]))
		return []Val{IntV{x.sign(d)}}
	}
	in[B+"CmpAbs"] = func(x *Exec, r Val, a []Val) []Val {
		p, q := x.bigVal(r), x.bigVal(a[0])
		if !x.fork(Ge0(p), "sign") {
			p = p.Neg()
		}
		if !x.fork(Ge0(q), "sign") {
			q = q.Neg()
		}
		return []Val{IntV{x.sign(p.Sub(q))}}
	}
	in[B+"Sign"] = func(x *Exec, r Val, a []Val) []Val { return []Val{IntV{x.sign(x.bigVal(r))}} }
	in[B+"Lsh"] = func(x *Exec, r Val, a []Val) []Val {
		k := x.concretize(x.intOf(a[1]), 0, 1024, "shift")
		return x.setBig(r, x.bigVal(a[0]).Scale(pow2(uint(k))))
	}
	in[B+"Rsh"] = func(x *Exec, r Val, a []Val) []Val {
		k := x.concretize(x.intOf(a[1]), 0, 1024, "shift")
		return x.setBig(r, x.c.FloorDiv(x.bigVal(a[0]), pow2(uint(k))))
	}
	in[B+"Bit"] = func(x *Exec, r Val, a []Val) []Val {
		k := x.concretize(x.intOf(a[0]), 0, 1024, "bit index")
		return []Val{IntV{x.c.ModP(x.c.FloorDiv(x.bigVal(r), pow2(uint(k))), bigTwo)}}
	}
	in[B+"BitLen"] = func(x *Exec, r Val, a []Val) []Val {
		p := x.bigVal(r)
		if !x.fork(Ge0(p), "sign") {
			p = p.Neg()
		}
		iv := x.c.Iv(p)
		if iv.hi == nil {
			// unbounded: only comparisons with constants are useful
			l := x.symBigFresh("bitlen", bigZero, nil)
			// p < 2^k <-> l <= k for the sizes of interest
			for _, k := range []uint{0, 1, 2, 8, 16, 32, 63, 64, 65, 126, 127, 128, 129, 191, 192, 193, 251, 252, 253, 254, 255, 256, 257, 511, 512, 513} {
				x.assume(Iff(Lt(p, Const(pow2(k))), Le(l, ConstI(int64(k)))))
			}
			return []Val{IntV{l}}
		}
		return []Val{IntV{x.bitLen(p, int64(iv.hi.BitLen()))}}
	}
	in[B+"Uint64"] = func(x *Exec, r Val, a []Val) []Val {
		p := x.bigVal(r)
		iv := x.c.Iv(p)
		if iv.lo == nil || iv.lo.Sign() < 0 {
			if !x.fork(Ge0(p), "sign") {
				unsupported("big.Int.Uint64 of a negative value")
			}
		}
		return []Val{IntV{x.c.ModP(p, pow2(64))}}
	}
	in[B+"Int64"] = func(x *Exec, r Val, a []Val) []Val {
		ii, _ := intType(types.Typ[types.Int64])
		return []Val{IntV{x.c.wrap(x.bigVal(r), ii)}}
	}
	in[B+"IsUint64"] = func(x *Exec, r Val, a []Val) []Val {
		p := x.bigVal(r)
		return []Val{BoolV{And(Ge0(p), Lt(p, Const(pow2(64))))}}
	}
	in[B+"IsInt64"] = func(x *Exec, r Val, a []Val) []Val {
		p := x.bigVal(r)
		return []Val{BoolV{And(Ge0(p.Add(Const(pow2(63)))), Lt(p, Const(pow2(63))))}}
	}
	in[B+"SetString"] = func(x *Exec, r Val, a []Val) []Val {
		s, ok := a[0].(StrV)
		b, ok2 := x.intOf(a[1]).IsConst()
		if !ok2 {
			unsupported("big.Int.SetString with a symbolic base")
		}
		if !ok {
			n, good := x.bigParse(a[0], int(b.Int64()))
			if !x.fork(good, "string is a number") {
				return []Val{PtrV{nil}, BoolV{fFalse}}
			}
			x.setBig(r, n)
			return []Val{r, BoolV{fTrue}}
		}
		n, good := new(big.Int).SetString(s.s, int(b.Int64()))
		if !good {
			return []Val{PtrV{nil}, BoolV{fFalse}}
		}
		x.setBig(r, Const(n))
		return []Val{r, BoolV{fTrue}}
	}
	in[B+"Exp"] = func(x *Exec, r Val, a []Val) []Val {
		var m *big.Int
		if p, ok := a[2].(PtrV); ok && p.c != nil {
			m = x.bigConst(a[2], "Exp")
		}
		if bp, ep := x.bigVal(a[0]), x.bigVal(a[1]); m != nil && m.Sign() > 0 {
			x.check(Ge0(ep), "intrinsic", "exponent of big.Int.Exp is not negative")
			return x.setBig(r, x.c.Pow(bp, ep, m))
		}
		b, e := x.bigConst(a[0], "Exp"), x.bigConst(a[1], "Exp")
		return x.setBig(r, Const(new(big.Int).Exp(b, e, m)))
	}
	in[B+"ModInverse"] = func(x *Exec, r Val, a []Val) []Val {
		m := x.bigConst(a[1], "ModInverse")
		p := x.bigVal(a[0])
		if c, ok := p.IsConst(); ok {
			z := new(big.Int).ModInverse(c, m)
			if z == nil {
				return []Val{PtrV{nil}}
			}
			return x.setBig(r, Const(z))
		}
		if !m.ProbablyPrime(32) {
			unsupported("ModInverse modulo a composite")
		}
		if x.fork(Cong0(p, m), "not invertible") {
			return []Val{PtrV{nil}}
		}
		inv := x.symBigFresh("inv", bigOne, new(big.Int).Sub(m, bigOne))
		x.assume(Cong0(inv.Mul(p).Sub(ConstI(1)), m))
		return x.setBig(r, inv)
	}
	in[B+"ModSqrt"] = func(x *Exec, r Val, a []Val) []Val {
		z := new(big.Int).ModSqrt(x.bigConst(a[0], "ModSqrt"), x.bigConst(a[1], "ModSqrt"))
		if z == nil {
			return []Val{PtrV{nil}}
		}
		return x.setBig(r, Const(z))
	}
	in[B+"ProbablyPrime"] = func(x *Exec, r Val, a []Val) []Val {
		return []Val{BoolV{fbool(x.bigConst(r, "ProbablyPrime").ProbablyPrime(32))}}
	}
	in[B+"SetBytes"] = func(x *Exec, r Val, a []Val) []Val {
		s := x.sliceOf(a[0])
		n, ok := s.len.IsConst()
		if !ok {
			unsupported("SetBytes of symbolic length")
		}
		p := newPoly()
		for i := int64(0); i < n.Int64(); i++ {
			p = p.Scale(pow2(8)).Add(x.intOf(x.load(x.sliceAt(s, ConstI(i)))))
		}
		return x.setBig(r, p)
	}
	in[B+"FillBytes"] = func(x *Exec, r Val, a []Val) []Val {
		s := x.sliceOf(a[0])
		n, ok := s.len.IsConst()
		if !ok {
			unsupported("FillBytes of symbolic length")
		}
		p := x.bigVal(r)
		if !x.fork(Ge0(p), "sign") {
			p = p.Neg()
		}
		k := n.Int64()
		x.check(Lt(p, Const(pow2(uint(8*k)))), "FillBytes", "big.Int.FillBytes: buffer large enough")
		for i := int64(0); i < k; i++ {
			b := x.c.ModP(x.c.FloorDiv(p, pow2(uint(8*(k-1-i)))), pow2(8))
			if i == 0 {
				b = x.c.FloorDiv(p, pow2(uint(8*(k-1))))
				iv := x.c.Iv(b)
				if iv.hi == nil || iv.hi.Cmp(bi(255)) > 0 || iv.lo == nil || iv.lo.Sign() < 0 {
					b = x.c.ModP(b, pow2(8))
				}
			}
			x.store(x.sliceAt(s, ConstI(i)), IntV{b})
		}
		return []Val{a[0]}
	}
	in[B+"Bits"] = func(x *Exec, r Val, a []Val) []Val {
		unsupported("big.Int.Bits")
		return nil
	}
	in[B+"String"] = func(x *Exec, r Val, a []Val) []Val { return []Val{SymStr{x.opaqueStr(x.freshName("bigstr"))}} }
	in[B+"Text"] = in[B+"String"]

	in["fmt.Errorf"] = func(x *Exec, _ Val, a []Val) []Val { return []Val{x.opaqueErr("Errorf")} }
	in["errors.New"] = func(x *Exec, _ Val, a []Val) []Val { return []Val{x.opaqueErr("errors.New")} }
	for _, n := range []string{"Sprintf", "Sprint", "Sprintln"} {
		in["fmt."+n] = func(x *Exec, _ Val, a []Val) []Val { return []Val{SymStr{x.opaqueStr(x.freshName("Sprintf"))}} }
	}
	in["strconv.Itoa"] = func(x *Exec, _ Val, a []Val) []Val { return []Val{SymStr{x.opaqueStr(x.freshName("Itoa"))}} }
	in["errors.Is"] = func(x *Exec, _ Val, a []Val) []Val {
		return []Val{BoolV{EqP(x.c.Input(x.freshName("errors.Is"), bigZero, bigOne), ConstI(1))}}
	}
}

func (x *Exec) sign(d *Poly) *Poly {
	if c, ok := d.IsConst(); ok {
		return ConstI(int64(c.Sign()))
	}
	if x.fork(Le0(d), "sign <= 0") {
		if x.fork(Eq0(d), "sign == 0") {
			return newPoly()
		}
		return ConstI(-1)
	}
	return ConstI(1)
}

func (x *Exec) trailingZeros(p *Poly, w int64) *Poly {
	if c, ok := p.IsConst(); ok {
		if c.Sign() == 0 {
			return ConstI(w)
		}
		return ConstI(int64(c.TrailingZeroBits()))
	}
	if x.fork(Eq0(p), "zero") {
		return ConstI(w)
	}
	// smallest k with p mod 2^(k+1) != 0
	lo, hi := int64(0), w-1
	for lo < hi {
		mid := (lo + hi) / 2
		// tz <= mid  iff  p mod 2^(mid+1) != 0
		if x.fork(Not(Eq0(x.c.ModP(p, pow2(uint(mid+1))))), "trailing zeros") {
			hi = mid
		} else {
			lo = mid + 1
		}
	}
	return ConstI(lo)
}

// bigParse: the integer denoted by a string in the given base, and whether it
// denotes one, as opaque functions of the string (constant strings are
// evaluated).
func (x *Exec) bigParse(v Val, base int) (*Poly, *Formula) {
	if s, ok := v.(StrV); ok {
		n, good := new(big.Int).SetString(s.s, base)
		if !good {
			return Const(bigZero), fFalse
		}
		return Const(n), fTrue
	}
	k := strKey(v) + "," + strconv.Itoa(base) + ")"
	return x.c.Input("bigparse("+k, nil, nil), Eq0(x.c.Input("isnumber("+k, bigZero, bigOne).Sub(Const(bigOne)))
}

func init() {
	parse := func(env *SpecEnv, args []any) (*Poly, *Formula) {
		v := args[0]
		if c, ok := v.(*Cell); ok {
			v = env.x.load(c)
		}
		return env.x.bigParse(v, 0)
	}
	specFuncs["bigparse"] = func(env *SpecEnv, e *ast.CallExpr, args []any) any {
		n, _ := parse(env, args)
		return IntV{n}
	}
	specFuncs["isnumber"] = func(env *SpecEnv, e *ast.CallExpr, args []any) any {
		_, ok := parse(env, args)
		return BoolV{ok}
	}
}
