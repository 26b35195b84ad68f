// Field elements as values: the same operations as in field_element.gvc, specified by the element of F_PF that is represented.
// These contracts are verified on the bodies at the level of machine words (layer 1, where fe(z) is U(z.words)/2^256 mod PF)
// and used in code that handles field elements as opaque values (layer 2, where fe(z) is the value itself).
package bandersnatch/fieldElements
layer default 2
verifiedlayer 1
prime 0x73eda753299d7d483339d80809a1d80553bda402fffe5bfeffffffff00000001
abstract bsFieldElement_MontgomeryNonUnique = field
reppred feOK

func (z *bsFieldElement_MontgomeryNonUnique) Normalize()
  requires feOK(z)
  ensures fe(z) == old(fe(z))
  ensures feOK(z)
  modifies *z
func (z *bsFieldElement_MontgomeryNonUnique) RerandomizeRepresentation(seed)
  requires feOK(z)
  ensures fe(z) == old(fe(z))
  ensures feOK(z)
  modifies *z
func (z *bsFieldElement_MontgomeryNonUnique) Add(x, y)
  requires feOK(x) && feOK(y)
  ensures fe(z) == old(fe(x)) + old(fe(y))
  ensures feOK(z)
  modifies *z
func (z *bsFieldElement_MontgomeryNonUnique) Sub(x, y)
  requires feOK(x) && feOK(y)
  ensures fe(z) == old(fe(x)) - old(fe(y))
  ensures feOK(z)
  modifies *z
func (z *bsFieldElement_MontgomeryNonUnique) Neg(x)
  requires feOK(x)
  ensures fe(z) == -old(fe(x))
  ensures feOK(z)
  modifies *z
func (z *bsFieldElement_MontgomeryNonUnique) Mul(x, y)
  requires feOK(x) && feOK(y)
  ensures fe(z) == old(fe(x)) * old(fe(y))
  ensures feOK(z)
  modifies *z
func (z *bsFieldElement_MontgomeryNonUnique) AddEq(y)
  requires feOK(z) && feOK(y)
  ensures fe(z) == old(fe(z)) + old(fe(y))
  ensures feOK(z)
  modifies *z
func (z *bsFieldElement_MontgomeryNonUnique) SubEq(x)
  requires feOK(z) && feOK(x)
  ensures fe(z) == old(fe(z)) - old(fe(x))
  ensures feOK(z)
  modifies *z
func (z *bsFieldElement_MontgomeryNonUnique) MulEq(x)
  requires feOK(z) && feOK(x)
  ensures fe(z) == old(fe(z)) * old(fe(x))
  ensures feOK(z)
  modifies *z
func (z *bsFieldElement_MontgomeryNonUnique) Square(x)
  requires feOK(x)
  ensures fe(z) == old(fe(x)) * old(fe(x))
  ensures feOK(z)
  modifies *z
func (z *bsFieldElement_MontgomeryNonUnique) SquareEq()
  requires feOK(z)
  ensures fe(z) == old(fe(z)) * old(fe(z))
  ensures feOK(z)
  modifies *z
func (z *bsFieldElement_MontgomeryNonUnique) Double(x)
  requires feOK(x)
  ensures fe(z) == 2 * old(fe(x))
  ensures feOK(z)
  modifies *z
func (z *bsFieldElement_MontgomeryNonUnique) DoubleEq()
  requires feOK(z)
  ensures fe(z) == 2 * old(fe(z))
  ensures feOK(z)
  modifies *z
func (z *bsFieldElement_MontgomeryNonUnique) NegEq()
  requires feOK(z)
  ensures fe(z) == -old(fe(z))
  ensures feOK(z)
  modifies *z
func (z *bsFieldElement_MontgomeryNonUnique) MulEqFive()
  requires feOK(z)
  ensures fe(z) == 5 * old(fe(z))
  ensures feOK(z)
  modifies *z
func (z *bsFieldElement_MontgomeryNonUnique) MulFive(x)
  requires feOK(x)
  ensures fe(z) == 5 * old(fe(x))
  ensures feOK(z)
  modifies *z
func (z *bsFieldElement_MontgomeryNonUnique) IsZero() (r)
  requires feOK(z)
  ensures iff(r, fe(z) == 0)
  modifies nothing
func (z *bsFieldElement_MontgomeryNonUnique) IsOne() (r)
  requires feOK(z)
  ensures iff(r, fe(z) == 1)
  modifies nothing
func (z *bsFieldElement_MontgomeryNonUnique) SetOne()
  ensures fe(z) == 1
  ensures feOK(z)
  modifies *z
func (z *bsFieldElement_MontgomeryNonUnique) SetZero()
  ensures fe(z) == 0
  ensures feOK(z)
  modifies *z
func (z *bsFieldElement_MontgomeryNonUnique) IsEqual(x) (r)
  requires feOK(z) && feOK(x)
  ensures iff(r, old(fe(z)) == old(fe(x)))
  ensures fe(z) == old(fe(z))
  ensures fe(x) == old(fe(x))
  ensures feOK(z) && feOK(x)
  modifies *z, *x
func (z *bsFieldElement_MontgomeryNonUnique) CmpAbs(x) (absEqual, exactlyEqual)
  requires feOK(z) && feOK(x)
  ensures iff(exactlyEqual, old(fe(z)) == old(fe(x)))
  ensures iff(absEqual, old(fe(z)) == old(fe(x)) || old(fe(z)) == -old(fe(x)))
  ensures fe(z) == old(fe(z))
  ensures fe(x) == old(fe(x))
  ensures feOK(z) && feOK(x)
  modifies *z, *x
func (z *bsFieldElement_MontgomeryNonUnique) SetUint64(value)
  ensures fe(z) == feint(value)
  ensures feOK(z)
  modifies *z
func (z *bsFieldElement_MontgomeryNonUnique) SetBigInt(v)
  ensures fe(z) == feint(old(big(v)))
  ensures feOK(z)
  modifies *z
func (z *bsFieldElement_MontgomeryNonUnique) Inv(x)
  requires feOK(x)
  panics fe(x) == 0
  ensures fe(z) * old(fe(x)) == 1
  ensures feOK(z)
  modifies *z
func (z *bsFieldElement_MontgomeryNonUnique) InvEq()
  requires feOK(z)
  panics fe(z) == 0
  ensures fe(z) * old(fe(z)) == 1
  ensures feOK(z)
  modifies *z
func (z *bsFieldElement_MontgomeryNonUnique) Divide(num, denom)
  requires feOK(num) && feOK(denom)
  panics fe(denom) == 0
  ensures fe(z) * old(fe(denom)) == old(fe(num))
  ensures feOK(z)
  modifies *z
func (z *bsFieldElement_MontgomeryNonUnique) DivideEq(denom)
  requires feOK(z) && feOK(denom)
  panics fe(denom) == 0
  ensures fe(z) * old(fe(denom)) == old(fe(z))
  ensures feOK(z)
  modifies *z
func (z *bsFieldElement_MontgomeryNonUnique) Jacobi() (r)
  trusted the Jacobi symbol is only assumed to be -1, 0 or 1 and to leave z alone
  requires feOK(z)
  ensures -1 <= r && r <= 1
  modifies nothing
