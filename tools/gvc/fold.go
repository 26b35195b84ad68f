package main

import (
	"go/ast"
	"math/big"
	"strings"
)

// fold.go: sums and products over the elements of a slice,
// "fold name(s, k) = term" gives name(s) = term(s,0) + ... + term(s,len(s)-1).
// For a sequence of symbolic length the partial folds form a function G of the
// end index with G(start) = 0 and G(n+1) = G(n) + term(s, n).

func (env *SpecEnv) fold(fd *foldDef, e ast.Expr, v Val) Val {
	sv, ok := v.(SliceV)
	if !ok {
		if cv, isC := v.(CompV); isC {
			sv = SliceV{arr: cv.c, off: newPoly(), len: ConstI(int64(len(cv.c.elems))), cap: ConstI(int64(len(cv.c.elems)))}
		} else if _, isNil := v.(NilV); isNil {
			sv = SliceV{}
		} else {
			env.fail(e, "%s of %T", fd.name, v)
		}
	}
	if sv.arr == nil {
		return foldUnit(fd)
	}
	return env.foldRange(fd, sv, sv.len)
}

func foldUnit(fd *foldDef) Val {
	if fd.cat {
		return StrV{""}
	}
	if fd.mul {
		return FEV{ConstI(1)}
	}
	return IntV{newPoly()}
}

func (env *SpecEnv) foldTerm(fd *foldDef, sv SliceV, k *Poly) Val {
	n := &SpecEnv{x: env.x, names: map[string]any{}, pkg: env.pkg, old: env.old, targs: env.targs}
	for _, p := range env.x.v.l.pkgs {
		if p != nil && p.path == fd.sf.pkg {
			n.pkg = p
		}
	}
	n.names[fd.s] = sv
	n.names[fd.k] = IntV{k}
	for p, v := range fd.bound {
		n.names[p] = v
	}
	return n.val(fd.c.e)
}

func foldOp(fd *foldDef, a, b Val) Val {
	if fd.cat {
		return mkStr(append(append([]StrSeg(nil), segsOf(a)...), segsOf(b)...))
	}
	if fd.mul {
		return FEV{fePoly(a).Mul(fePoly(b))}
	}
	_, fa := a.(FEV)
	_, fb := b.(FEV)
	if fa || fb {
		return FEV{fePoly(a).Add(fePoly(b))}
	}
	return IntV{fePoly(a).Add(fePoly(b))}
}

func fePoly(v Val) *Poly {
	switch v := v.(type) {
	case FEV:
		return v.p
	case IntV:
		return v.p
	case BigV:
		return v.p
	}
	unsupported("fold over %T", v)
	return nil
}

// foldRange: fold of the first n elements of sv.
func (env *SpecEnv) foldRange(fd *foldDef, sv SliceV, n *Poly) Val {
	x := env.x
	if c, ok := n.IsConst(); ok {
		r := foldUnit(fd)
		for i := int64(0); i < c.Int64(); i++ {
			r = foldOp(fd, r, env.foldTerm(fd, sv, ConstI(i)))
		}
		return r
	}
	if sv.arr.sq() == nil {
		k := x.concretize(n, 0, int64(len(sv.arr.elems)), "fold length")
		return env.foldRange(fd, sv, ConstI(k))
	}
	sq := x.seqOf(sv.arr)
	if sq.parent != nil && sv.off.IsZero() {
		d := n.Sub(sq.parent.len)
		if c, ok := d.IsConst(); ok && c.Sign() >= 0 {
			var r Val
			if sq.parent.arr == nil {
				r = foldUnit(fd)
			} else {
				r = env.foldRange(fd, *sq.parent, sq.parent.len)
			}
			for i := int64(0); i < c.Int64(); i++ {
				r = foldOp(fd, r, env.foldTerm(fd, sv, sq.parent.len.AddI(i)))
			}
			return r
		}
	}
	sq.frozen = true
	c := n.ConstPart()
	if c.Sign() > 0 {
		base := n.Sub(Const(c))
		r := env.foldRange(fd, sv, base)
		for i := int64(0); i < c.Int64(); i++ {
			r = foldOp(fd, r, env.foldTerm(fd, sv, base.AddI(i)))
		}
		return r
	}
	name := "fold " + fd.name + "(" + sq.name + "," + sv.off.Key() + "," + n.Key() + ")"
	if fd.cat {
		name = strings.ReplaceAll(name, "fold ", "cat:")
		if x.catSeen == nil {
			x.catSeen = map[string]bool{}
		}
		if !x.catSeen[name] {
			x.catSeen[name] = true
			x.assume(Implies(EqP(n, newPoly()), EqP(x.strBaseLen(name), newPoly())))
		}
		return SymStr{x.opaqueStr(name)}
	}
	// G(0) is the unit
	first := false
	if _, ok := x.c.byName[name]; !ok {
		first = true
	}
	var r Val
	if fd.mul || env.foldIsField(fd) {
		r = FEV{x.c.FieldInput(name)}
	} else {
		var lo *big.Int
		r = IntV{x.c.Input(name, lo, nil)}
	}
	if first {
		x.assume(Implies(EqP(n, newPoly()), env.foldEq(fd, r, foldUnit(fd))))
	}
	// equal ends give equal folds
	key := fd.name + "(" + sq.name + "," + sv.off.Key()
	known := false
	for _, o := range x.foldSeen[key] {
		if o.n.Key() == n.Key() {
			known = true
		}
	}
	if !known {
		for _, o := range x.foldSeen[key] {
			x.assume(Implies(EqP(n, o.n), env.foldEq(fd, r, o.r)))
		}
		if x.foldSeen == nil {
			x.foldSeen = map[string][]foldAt{}
		}
		x.foldSeen[key] = append(x.foldSeen[key], foldAt{n, r})
	}
	return r
}

// foldAt: the fold of the elements below n is r.
type foldAt struct {
	n *Poly
	r Val
}

func (env *SpecEnv) foldEq(fd *foldDef, a, b Val) *Formula {
	if _, ok := a.(FEV); ok {
		return Cong0(fePoly(a).Sub(fePoly(b)), env.x.v.db.prime)
	}
	return EqP(fePoly(a), fePoly(b))
}

func (env *SpecEnv) foldIsField(fd *foldDef) bool {
	is := false
	ast.Inspect(fd.c.e, func(n ast.Node) bool {
		if c, ok := n.(*ast.CallExpr); ok {
			if id, ok := c.Fun.(*ast.Ident); ok && (id.Name == "fe" || id.Name == "feint") {
				is = true
			}
		}
		return true
	})
	return is
}

func (x *Exec) mentionsCat(c Clause) bool {
	is := false
	ast.Inspect(c.e, func(n ast.Node) bool {
		if id, ok := n.(*ast.Ident); ok {
			if fd := x.v.db.folds[id.Name]; fd != nil && fd.cat {
				is = true
			}
		}
		return true
	})
	return is
}
