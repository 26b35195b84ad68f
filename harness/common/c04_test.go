package common

import (
	"fmt"
	"math/big"
	"testing"
)

func TestGvcC04(t *testing.T) {
	g := gvcStart(t)
	n := func(s string) *big.Int { r, _ := new(big.Int).SetString(s, 0); return r }
	pow := func(k uint) *big.Int { return new(big.Int).Lsh(big.NewInt(1), k) }
	q, p := n("52435875175126190479447740508185965837690552500527637822603658699938581184513"), n("13108968793781547619861935127046491459309155893440570251786403306729687672801")
	l := n("8913659658109529928382530854484400854125314752504019737736543920008458395397")
	ww := func(a, b, c, d uint64) *big.Int {
		r := new(big.Int)
		for _, w := range []uint64{d, c, b, a} {
			r.Lsh(r, 64).Add(r, new(big.Int).SetUint64(w))
		}
		return r
	}
	const m = 1<<64 - 1
	mul := func(x *big.Int, k int64) *big.Int { return new(big.Int).Mul(x, big.NewInt(k)) }
	for _, c := range []struct {
		name string
		want *big.Int
		got  []*big.Int
	}{
		{"BaseFieldSize", q, []*big.Int{BaseFieldSize_Int, n(BaseFieldSize_string), ww(BaseFieldSize&m, BaseFieldSize>>64&m, BaseFieldSize>>128&m, BaseFieldSize>>192), ww(BaseFieldSize_untyped&m, BaseFieldSize_untyped>>64&m, BaseFieldSize_untyped>>128&m, BaseFieldSize_untyped>>192)}},
		{"GroupOrder", p, []*big.Int{GroupOrder_Int, n(GroupOrder_string), ww(GroupOrder&m, GroupOrder>>64&m, GroupOrder>>128&m, GroupOrder>>192)}},
		{"Cofactor", big.NewInt(4), []*big.Int{Cofactor_Int, n(Cofactor_string), big.NewInt(Cofactor)}},
		{"CurveOrder", mul(p, 4), []*big.Int{CurveOrder_Int, n(CurveOrder_string), ww(CurveOrder&m, CurveOrder>>64&m, CurveOrder>>128&m, CurveOrder>>192)}},
		{"CurveExponent", mul(p, 2), []*big.Int{CurveExponent_Int, n(CurveExponent_string), ww(CurveExponent&m, CurveExponent>>64&m, CurveExponent>>128&m, CurveExponent>>192)}},
		{"EndomorphismEigenvalue", l, []*big.Int{EndomorphismEigenvalue_Int, n(EndomorphismEigenvalue_string), ww(EndomorphismEigenvalue&m, EndomorphismEigenvalue>>64&m, EndomorphismEigenvalue>>128&m, EndomorphismEigenvalue>>192)}},
		{"One_Int", big.NewInt(1), []*big.Int{One_Int}}, {"Two_Int", big.NewInt(2), []*big.Int{Two_Int}}, {"MinusOne_Int", big.NewInt(-1), []*big.Int{MinusOne_Int}},
		{"TwoTo32_Int", pow(32), []*big.Int{TwoTo32_Int}}, {"TwoTo64_Int", pow(64), []*big.Int{TwoTo64_Int}}, {"TwoTo128_Int", pow(128), []*big.Int{TwoTo128_Int}},
		{"TwoTo256_Int", pow(256), []*big.Int{TwoTo256_Int}}, {"TwoTo512_Int", pow(512), []*big.Int{TwoTo512_Int}},
		{"BaseFieldBitLength, BaseFieldByteLength", big.NewInt(255*1000 + 32), []*big.Int{big.NewInt(BaseFieldBitLength*1000 + BaseFieldByteLength)}},
	} {
		c := c
		g.do(gvcS(c.name), func() (bool, string) {
			for i, x := range c.got {
				if x == nil || x.Cmp(c.want) != 0 {
					return false, fmt.Sprintf("form %d is %v", i, x)
				}
			}
			return true, ""
		})
	}
}
