package bandersnatch/fieldElements
layer default 1

// ---- field elements: x is represented by any words with U(words) = x * 2^256 (mod PF), U(words) < 2^256 - PF
pred feOK(z) = U(z.words) < pow2(256) - PF
// 1/2^256 modulo PF, and the value represented by z
pred val(z) = mod(U(z.words) * RINV, PF)

lemma fieldElementConstants()
  ensures U(bsFieldElement_64_zero.words) == 0
  ensures U(bsFieldElement_64_zero_alt.words) == PF
  ensures U(bsFieldElement_64_one.words) == mod(pow2(256), PF)
  ensures U(bsFieldElement_64_minusone.words) == mod(-pow2(256), PF)
  ensures U(bsFieldElement_64_r.words) == mod(pow2(512), PF)
  property F04

func (z *bsFieldElement_MontgomeryNonUnique) isNormalized() (r)
  requires feOK(z)
  ensures iff(r, U(z.words) < PF)
  modifies nothing
  property F04
func (z *bsFieldElement_MontgomeryNonUnique) Normalize()
  requires feOK(z)
  ensures U(z.words) == mod(old(U(z.words)), PF)
  modifies *z
  property F04
func (z *bsFieldElement_MontgomeryNonUnique) Add(x, y)
  requires feOK(x) && feOK(y)
  ensures cong(U(z.words), old(U(x.words)) + old(U(y.words)), PF)
  ensures feOK(z)
  modifies *z
  property F04
func (z *bsFieldElement_MontgomeryNonUnique) Sub(x, y)
  requires feOK(x) && feOK(y)
  ensures cong(U(z.words), old(U(x.words)) - old(U(y.words)), PF)
  ensures feOK(z)
  modifies *z
  property F04
func (z *bsFieldElement_MontgomeryNonUnique) Neg(x)
  requires feOK(x)
  ensures cong(U(z.words), -old(U(x.words)), PF)
  ensures feOK(z)
  modifies *z
  property F04
func (z *bsFieldElement_MontgomeryNonUnique) Mul(x, y)
  requires feOK(x) && feOK(y)
  ensures cong(U(z.words) * pow2(256), old(U(x.words)) * old(U(y.words)), PF)
  ensures feOK(z)
  modifies *z
  property F04
func (z *bsFieldElement_MontgomeryNonUnique) AddEq(y)
  requires feOK(z) && feOK(y)
  ensures cong(U(z.words), old(U(z.words)) + old(U(y.words)), PF)
  ensures feOK(z)
  modifies *z
  property F04
func (z *bsFieldElement_MontgomeryNonUnique) SubEq(x)
  requires feOK(z) && feOK(x)
  ensures cong(U(z.words), old(U(z.words)) - old(U(x.words)), PF)
  ensures feOK(z)
  modifies *z
  property F04
func (z *bsFieldElement_MontgomeryNonUnique) MulEq(x)
  requires feOK(z) && feOK(x)
  ensures cong(U(z.words) * pow2(256), old(U(z.words)) * old(U(x.words)), PF)
  ensures feOK(z)
  modifies *z
  property F04
func (z *bsFieldElement_MontgomeryNonUnique) Square(x)
  requires feOK(x)
  ensures cong(U(z.words) * pow2(256), old(U(x.words)) * old(U(x.words)), PF)
  ensures feOK(z)
  modifies *z
  property F04
func (z *bsFieldElement_MontgomeryNonUnique) SquareEq()
  requires feOK(z)
  ensures cong(U(z.words) * pow2(256), old(U(z.words)) * old(U(z.words)), PF)
  ensures feOK(z)
  modifies *z
  property F04
func (z *bsFieldElement_MontgomeryNonUnique) Double(x)
  requires feOK(x)
  ensures cong(U(z.words), 2 * old(U(x.words)), PF)
  ensures feOK(z)
  modifies *z
  property F04
func (z *bsFieldElement_MontgomeryNonUnique) DoubleEq()
  requires feOK(z)
  ensures cong(U(z.words), 2 * old(U(z.words)), PF)
  ensures feOK(z)
  modifies *z
  property F04
func (z *bsFieldElement_MontgomeryNonUnique) NegEq()
  requires feOK(z)
  ensures cong(U(z.words), -old(U(z.words)), PF)
  ensures feOK(z)
  modifies *z
  property F04
func (z *bsFieldElement_MontgomeryNonUnique) MulEqFive()
  requires feOK(z)
  split 5 * z.words[3] < pow2(64)
  split 5 * z.words[3] < 2 * pow2(64)
  ensures cong(U(z.words), 5 * old(U(z.words)), PF)
  ensures feOK(z)
  modifies *z
  property F04
func (z *bsFieldElement_MontgomeryNonUnique) MulFive(x)
  requires feOK(x)
  ensures cong(U(z.words), 5 * old(U(x.words)), PF)
  ensures feOK(z)
  modifies *z
  property F04
func (z *bsFieldElement_MontgomeryNonUnique) IsZero() (r)
  requires feOK(z)
  ensures iff(r, mod(U(z.words), PF) == 0)
  modifies nothing
  property F04
func (z *bsFieldElement_MontgomeryNonUnique) IsOne() (r)
  requires feOK(z)
  ensures iff(r, cong(U(z.words), pow2(256), PF))
  modifies nothing
  property F04
func (z *bsFieldElement_MontgomeryNonUnique) SetOne()
  ensures cong(U(z.words), pow2(256), PF)
  ensures feOK(z)
  modifies *z
  property F04
func (z *bsFieldElement_MontgomeryNonUnique) SetZero()
  ensures cong(U(z.words), 0, PF)
  ensures feOK(z)
  modifies *z
  property F04
func (z *bsFieldElement_MontgomeryNonUnique) IsEqual(x) (r)
  requires feOK(z) && feOK(x)
  ensures iff(r, mod(old(U(z.words)) - old(U(x.words)), PF) == 0)
  ensures cong(U(z.words), old(U(z.words)), PF)
  ensures cong(U(x.words), old(U(x.words)), PF)
  ensures feOK(z) && feOK(x)
  modifies *z, *x
  property F04
func (z *bsFieldElement_MontgomeryNonUnique) CmpAbs(x) (absEqual, exactlyEqual)
  requires feOK(z) && feOK(x)
  ensures iff(exactlyEqual, mod(old(U(z.words)) - old(U(x.words)), PF) == 0)
  ensures iff(absEqual, mod(old(U(z.words)) - old(U(x.words)), PF) == 0 || mod(old(U(z.words)) + old(U(x.words)), PF) == 0)
  ensures cong(U(z.words), old(U(z.words)), PF)
  ensures cong(U(x.words), old(U(x.words)), PF)
  ensures feOK(z) && feOK(x)
  modifies *z, *x
  property F04
func (z *bsFieldElement_MontgomeryNonUnique) SetUint64(value)
  ensures cong(U(z.words), pow2(256) * value, PF)
  ensures feOK(z)
  modifies *z
  property F04
func (z *bsFieldElement_MontgomeryNonUnique) SetInt64(value)
  ensures cong(U(z.words), pow2(256) * value, PF)
  ensures feOK(z)
  modifies *z
  property F04
func (z *bsFieldElement_MontgomeryNonUnique) SetUint256(x)
  ensures cong(U(z.words), pow2(256) * old(U(x)), PF)
  ensures feOK(z)
  modifies *z
  property F04
func (z *bsFieldElement_MontgomeryNonUnique) ToUint256(x)
  requires feOK(z)
  ensures U(x) == old(val(z))
  modifies *x
  property F04
func (z *bsFieldElement_MontgomeryNonUnique) ToBigInt() (r)
  requires feOK(z)
  ensures big(r) == val(z)
  modifies nothing
  property F04
func (z *bsFieldElement_MontgomeryNonUnique) SetBigInt(v)
  ensures cong(U(z.words), pow2(256) * old(big(v)), PF)
  ensures feOK(z)
  modifies *z
  property F04
func (z *bsFieldElement_MontgomeryNonUnique) RerandomizeRepresentation(seed)
  requires feOK(z)
  ensures cong(U(z.words), old(U(z.words)), PF)
  ensures feOK(z)
  modifies *z
  property F04
func (z *bsFieldElement_MontgomeryNonUnique) Sign() (r)
  requires feOK(z)
  ensures -1 <= r && r <= 1
  ensures iff(r == 0, val(z) == 0)
  ensures iff(r == 1, val(z) > 0 && 2 * val(z) < PF)
  modifies nothing
  property F04
func (z *bsFieldElement_MontgomeryNonUnique) AddUint64(x, y)
  requires feOK(x)
  ensures cong(U(z.words), old(U(x.words)) + pow2(256) * y, PF)
  ensures feOK(z)
  modifies *z
  property F04
func (z *bsFieldElement_MontgomeryNonUnique) SubUint64(x, y)
  requires feOK(x)
  ensures cong(U(z.words), old(U(x.words)) - pow2(256) * y, PF)
  ensures feOK(z)
  modifies *z
  property F04
func (z *bsFieldElement_MontgomeryNonUnique) MulUint64(x, y)
  requires feOK(x)
  ensures cong(U(z.words) * pow2(256), old(U(x.words)) * y * pow2(256), PF)
  ensures feOK(z)
  modifies *z
  property F04
func (z *bsFieldElement_MontgomeryNonUnique) AddInt64(x, y)
  requires feOK(x)
  ensures cong(U(z.words), old(U(x.words)) + pow2(256) * y, PF)
  ensures feOK(z)
  modifies *z
  property F04
func (z *bsFieldElement_MontgomeryNonUnique) SubInt64(x, y)
  requires feOK(x)
  ensures cong(U(z.words), old(U(x.words)) - pow2(256) * y, PF)
  ensures feOK(z)
  modifies *z
  property F04
func (z *bsFieldElement_MontgomeryNonUnique) MulInt64(x, y)
  requires feOK(x)
  ensures cong(U(z.words) * pow2(256), old(U(x.words)) * y * pow2(256), PF)
  ensures feOK(z)
  modifies *z
  property F04
func (z *bsFieldElement_MontgomeryNonUnique) Inv(x)
  requires feOK(x)
  panics cong(U(x.words), 0, PF)
  ensures cong(U(z.words) * old(U(x.words)), pow2(512), PF)
  ensures feOK(z)
  modifies *z
  property F04
func (z *bsFieldElement_MontgomeryNonUnique) InvEq()
  requires feOK(z)
  panics cong(U(z.words), 0, PF)
  ensures cong(U(z.words) * old(U(z.words)), pow2(512), PF)
  ensures feOK(z)
  modifies *z
  property F04
func (z *bsFieldElement_MontgomeryNonUnique) Divide(num, denom)
  requires feOK(num) && feOK(denom)
  panics cong(U(denom.words), 0, PF)
  ensures cong(U(z.words) * old(U(denom.words)), pow2(256) * old(U(num.words)), PF)
  ensures feOK(z)
  modifies *z
  property F04
func (z *bsFieldElement_MontgomeryNonUnique) DivideEq(denom)
  requires feOK(z) && feOK(denom)
  panics cong(U(denom.words), 0, PF)
  ensures cong(U(z.words) * old(U(denom.words)), pow2(256) * old(U(z.words)), PF)
  ensures feOK(z)
  modifies *z
  property F04
func (z *bsFieldElement_MontgomeryNonUnique) DivideUint64(x, y)
  requires feOK(x)
  panics y == 0
  ensures cong(U(z.words) * y, old(U(x.words)), PF)
  ensures feOK(z)
  modifies *z
  property F04
func (z *bsFieldElement_MontgomeryNonUnique) DivideInt64(x, y)
  requires feOK(x)
  panics y == 0
  ensures cong(U(z.words) * y, old(U(x.words)), PF)
  ensures feOK(z)
  modifies *z
  property F04
pred le64(b, o) = pow2(0) * b[o+0] + pow2(8) * b[o+1] + pow2(16) * b[o+2] + pow2(24) * b[o+3] + pow2(32) * b[o+4] + pow2(40) * b[o+5] + pow2(48) * b[o+6] + pow2(56) * b[o+7]
func (z *bsFieldElement_MontgomeryNonUnique) ToBytes(buf)
  requires len(buf) >= 32
  ensures le64(buf, 0) == z.words[0]
  ensures le64(buf, 8) == z.words[1]
  ensures le64(buf, 16) == z.words[2]
  ensures le64(buf, 24) == z.words[3]
  modifies elems(buf)
  property F04
func (z *bsFieldElement_MontgomeryNonUnique) SetBytes(buf)
  requires len(buf) >= 32
  ensures le64(buf, 0) == z.words[0]
  ensures le64(buf, 8) == z.words[1]
  ensures le64(buf, 16) == z.words[2]
  ensures le64(buf, 24) == z.words[3]
  modifies *z
  property F04
func (z *bsFieldElement_MontgomeryNonUnique) BytesLength() (r)
  ensures r == 32
  modifies nothing
  property F04
