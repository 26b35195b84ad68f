package fieldElements

import (
	"math/big"
	"testing"
)

func TestGvcF01(t *testing.T) {
	g := gvcStart(t)
	eq := func(f func(x, y *big.Int) *big.Int) func(z, x, y *big.Int) bool {
		return func(z, x, y *big.Int) bool { return z.Cmp(gvcMod(f(x, y), gvc256)) == 0 }
	}
	one := gvcN(1)
	add := func(x, y *big.Int) *big.Int { return new(big.Int).Add(x, y) }
	sub := func(x, y *big.Int) *big.Int { return new(big.Int).Sub(x, y) }
	pair := func(x, y *big.Int) {
		g.op2("Add", func(z, x, y *Uint256) { z.Add(x, y) }, eq(add), x, y)
		g.op2("Sub", func(z, x, y *Uint256) { z.Sub(x, y) }, eq(sub), x, y)
		g.op2("Mul", func(z, x, y *Uint256) { z.Mul(x, y) }, eq(func(x, y *big.Int) *big.Int { return new(big.Int).Mul(x, y) }), x, y)
		var c uint64
		g.op2("AddAndReturnCarry", func(z, x, y *Uint256) { c = z.AddAndReturnCarry(x, y) },
			func(z, x, y *big.Int) bool { return gvcBig(append(gvcWords(z, 4), c)...).Cmp(add(x, y)) == 0 }, x, y)
		g.op2("SubAndReturnBorrow", func(z, x, y *Uint256) { c = z.SubAndReturnBorrow(x, y) },
			func(z, x, y *big.Int) bool {
				return sub(z, new(big.Int).Mul(gvc256, new(big.Int).SetUint64(c))).Cmp(sub(x, y)) == 0
			}, x, y)
		g.op1("Increment", func(z, x *Uint256) { z.Increment(x) }, func(z, x *big.Int) bool { return z.Cmp(gvcMod(add(x, one), gvc256)) == 0 }, x)
		g.op1("Decrement", func(z, x *Uint256) { z.Decrement(x) }, func(z, x *big.Int) bool { return z.Cmp(gvcMod(sub(x, one), gvc256)) == 0 }, x)
		g.do(gvcS("in-place, comparison and conversion of x=", x, " y=", y), func() (bool, string) {
			a, b := gvcU(x), gvcU(y)
			if a.Cmp(&b) != x.Cmp(y) || a.IsLessThan(&b) != (x.Cmp(y) < 0) || a.IsZero() != (x.Sign() == 0) || a.IsOne() != (x.Cmp(one) == 0) {
				return false, "comparison or predicate wrong"
			}
			if a.BitLen() != x.BitLen() {
				return false, "BitLen wrong"
			}
			if a.ToBigInt().Cmp(x) != 0 || gvcBig(a[:]...).Cmp(x) != 0 {
				return false, "ToBigInt wrong"
			}
			bi := BigIntToUInt256(x)
			var st Uint256
			st.SetBigInt(x)
			if gvcV(&bi).Cmp(x) != 0 || gvcV(&st).Cmp(x) != 0 {
				return false, "conversion from big.Int wrong"
			}
			i, d := a, a
			i.IncrementEq()
			d.DecrementEq()
			if gvcV(&i).Cmp(gvcMod(add(x, one), gvc256)) != 0 || gvcV(&d).Cmp(gvcMod(sub(x, one), gvc256)) != 0 {
				return false, "IncrementEq or DecrementEq wrong"
			}
			var l, sq, w Uint512
			l.LongMul(&a, &b)
			sq.LongSquare(&a)
			w.SetUint256(&a)
			if gvcBig(l[:]...).Cmp(new(big.Int).Mul(x, y)) != 0 || gvcBig(sq[:]...).Cmp(new(big.Int).Mul(x, x)) != 0 || gvcBig(w[:]...).Cmp(x) != 0 {
				return false, "LongMul, LongSquare or SetUint256 wrong"
			}
			if l.ToBigInt().Cmp(new(big.Int).Mul(x, y)) != 0 {
				return false, "Uint512.ToBigInt wrong"
			}
			lb := BigIntToUint512(new(big.Int).Mul(x, y))
			if lb != l {
				return false, "BigIntToUint512 wrong"
			}
			var back Uint256
			if fits := l[4]|l[5]|l[6]|l[7] == 0; gvcPanics(func() { l.ToUint256(&back) }) == fits {
				return false, "Uint512.ToUint256 panics exactly when the value does not fit: wrong"
			} else if fits && gvcV(&back).Cmp(new(big.Int).Mul(x, y)) != 0 {
				return false, "Uint512.ToUint256 wrong"
			}
			n := uint(g.rng.Intn(64))
			s := a
			s.ShiftRightEq(n)
			if gvcV(&s).Cmp(new(big.Int).Rsh(x, n)) != 0 {
				return false, "ShiftRightEq wrong"
			}
			s = a
			if o := s.ShiftRightEq_64(); o != a[0] || gvcV(&s).Cmp(new(big.Int).Rsh(x, 64)) != 0 {
				return false, "ShiftRightEq_64 wrong"
			}
			s = a
			if o := s.ShiftLeftEq_64(); o != a[3] || gvcV(&s).Cmp(gvcMod(new(big.Int).Lsh(x, 64), gvc256)) != 0 {
				return false, "ShiftLeftEq_64 wrong"
			}
			var five [5]uint64
			LongMulUint64(&five, &a, b[0])
			if gvcBig(five[:]...).Cmp(new(big.Int).Mul(x, new(big.Int).SetUint64(b[0]))) != 0 {
				return false, "LongMulUint64 wrong"
			}
			if gvcV(&a).Cmp(x) != 0 || gvcV(&b).Cmp(y) != 0 {
				return false, "operand changed"
			}
			return true, ""
		})
	}
	vs := g.vals()
	for _, x := range vs {
		for _, y := range vs {
			pair(x, y)
		}
	}
	for _, bad := range []*big.Int{gvcN(-1), gvc256, new(big.Int).Neg(gvc256), new(big.Int).Lsh(gvc256, 3)} {
		bad := bad
		g.do(gvcS("conversion of the out of range integer ", bad), func() (bool, string) {
			var u Uint256
			if !gvcPanics(func() { BigIntToUInt256(bad) }) || !gvcPanics(func() { u.SetBigInt(bad) }) {
				return false, "accepted"
			}
			return true, ""
		})
	}
	for i := 0; i < g.iters(1500, 60000); i++ {
		pair(g.val(), g.val())
	}
}
