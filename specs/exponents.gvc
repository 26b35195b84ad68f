package bandersnatch/exponents

// reference values, independent of the constants in the repository
const P253 = 13108968793781547619861935127046491459309155893440570251786403306729687672801
const EXPORD = 26217937587563095239723870254092982918618311786881140503572806613459375345602
const LAMBDA = 8913659658109529928382530854484400854125314752504019737736543920008458395397

lemma exponentConstants()
  ensures CurveExponent == EXPORD
  ensures GroupOrder == P253
  ensures CurveOrder == 4 * P253
  ensures EndomorphismEigenvalue == LAMBDA
  ensures mod(LAMBDA * LAMBDA + 2, P253) == 0
  property E01 E04

pred expOK(z) = U(z) < EXPORD

func (z *Exponent) Add(x, y)
  requires expOK(x)
  requires expOK(y)
  ensures U(z) == mod(old(U(x)) + old(U(y)), EXPORD)
  modifies *z
  property E01

func (z *Exponent) Sub(x, y)
  requires expOK(x)
  requires expOK(y)
  ensures U(z) == mod(old(U(x)) - old(U(y)), EXPORD)
  modifies *z
  property E01

func (z *Exponent) Neg(x)
  requires expOK(x)
  ensures U(z) == mod(-old(U(x)), EXPORD)
  modifies *z
  property E01

func (z *Exponent) Mul(x, y)
  requires expOK(x)
  requires expOK(y)
  ensures U(z) == mod(old(U(x)) * old(U(y)), EXPORD)
  modifies *z
  property E01

func (z *Exponent) isNormalized_Full() (r)
  ensures iff(r, U(z) < EXPORD)
  modifies nothing
  property E03

func (z *Exponent) isNormalized_Subgroup() (r)
  ensures iff(r, U(z) < P253)
  modifies nothing
  property E03

func (z *Exponent) SetUInt(x)
  ensures U(z) == x
  modifies *z
  property E02

func (z *Exponent) SetInt(x)
  ensures U(z) == mod(x, EXPORD)
  modifies *z
  property E02

func (z *Exponent) SetBigInt(x)
  ensures U(z) == mod(big(x), EXPORD)
  modifies *z
  property E02

func (z *Exponent) ToBigInt_Full() (res)
  ensures big(res) == U(z)
  ensures fresh(res)
  modifies nothing
  property E02

func (z *Exponent) ToBigInt_Subgroup() (res)
  requires expOK(z)
  ensures big(res) == mod(U(z), P253)
  ensures fresh(res)
  modifies nothing
  property E02

func (z *Exponent) ModuloP253() (ret)
  requires expOK(z)
  ensures U(ret) == mod(U(z), P253)
  modifies nothing
  property E02

func (z *Exponent) SetZero()
  ensures U(z) == 0
  modifies *z
  property E02
func (z *Exponent) SetOne()
  ensures U(z) == 1
  modifies *z
  property E02
func (z *Exponent) IsZero_Full() (r)
  ensures iff(r, U(z) == 0)
  modifies nothing
  property E03
func (z *Exponent) IsZero_Subgroup() (r)
  requires expOK(z)
  ensures iff(r, mod(U(z), P253) == 0)
  modifies nothing
  property E03
func (z *Exponent) IsOne_Full() (r)
  ensures iff(r, U(z) == 1)
  modifies nothing
  property E03
func (z *Exponent) IsOne_Subgroup() (r)
  requires expOK(z)
  ensures iff(r, mod(U(z), P253) == 1)
  modifies nothing
  property E03

func add128(x, y) (res)
  ensures U(res) == mod(U(x) + U(y), pow2(128))
  modifies nothing
  property E06
func mul128(x, y) (res)
  ensures U(res) == mod(U(x) * U(y), pow2(128))
  modifies nothing
  property E06
func (z *uint128) SetBigInt(x)
  ensures U(z) == mod(big(x), pow2(128))
  modifies *z
  property E06
func (z uint128) ToBigInt() (x)
  ensures big(x) == U(z)
  ensures fresh(x)
  modifies nothing
  property E06
func (z uint128) Bit(i) (r)
  enum i 0 140
  ensures r == bit(U(z), i)
  modifies nothing
  property E06

pred glvOK(z) = U(z.value) == 0 || z.sign == 1 || z.sign == -1

func (z *glvExponent) Bit(i) (r)
  enum i 0 140
  ensures r == bit(U(z.value), i)
  modifies nothing
  property E06
func (z *glvExponent) Sign() (r)
  ensures U(z.value) == 0 ==> r == 0
  ensures U(z.value) != 0 ==> r == z.sign
  modifies nothing
  property E06
func (z *glvExponent) ToBigInt() (ret)
  requires glvOK(z)
  ensures U(z.value) == 0 ==> big(ret) == 0
  ensures z.sign == 1 ==> big(ret) == U(z.value)
  ensures z.sign == -1 ==> big(ret) == -U(z.value)
  ensures fresh(ret)
  modifies nothing
  property E06
func (z *glvExponent) SetBigInt(input)
  panics big(input) >= pow2(128) || big(input) <= -pow2(128)
  ensures glvOK(z)
  ensures big(input) >= 0 ==> U(z.value) == big(input)
  ensures big(input) < 0 ==> U(z.value) == -big(input)
  ensures big(input) > 0 ==> z.sign == 1
  ensures big(input) < 0 ==> z.sign == -1
  modifies *z
  property E06

func infty_norm(x, y) (result)
  ensures big(result) >= big(x) && big(result) >= -big(x) && big(result) >= big(y) && big(result) >= -big(y)
  ensures big(result) == big(x) || big(result) == -big(x) || big(result) == big(y) || big(result) == -big(y)
  ensures fresh(result)
  modifies nothing
  property E04

const GLVMAX = 62111775536698671376125354107412126641
pred sval(z) = ite(U(z.value) == 0, 0, z.sign * U(z.value))

func GLV_representation(exponent) (ret)
  ensures glvOK(ret.U)
  ensures glvOK(ret.V)
  ensures cong(sval(ret.U) + sval(ret.V) * LAMBDA, U(exponent), P253)
  ensures U(ret.U.value) <= GLVMAX
  ensures U(ret.V.value) <= GLVMAX
  modifies nothing
  timeout 60
  property E04

fold decSum(s, k) = s[k].sign * s[k].coeff * pow2(s[k].position)
fold decBad(s, k, m) = ite(mod(s[k].coeff, 2) == 1 && s[k].coeff < pow2(m) && (s[k].sign == 1 || s[k].sign == -1) && s[k].position <= 128 + m, 0, 1)

func decomposeUnalignedSignedAdic(input, maxbits) (decomposition)
  enum maxbits 1 8
  requires glvOK(input)
  enum input.sign -1 1
  ensures decSum(decomposition) == sval(input)
  ensures decBad(decomposition, maxbits) == 0
  modifies nothing
  loop 1
    enum i 0 136
    invariant i <= 128 + maxbits
    invariant carry <= 1
    invariant carry == 1 ==> i <= 128
    invariant decSum(decomposition) == input.sign * (mod(U(input.value), pow2(i)) - carry * pow2(i))
    invariant decBad(decomposition, maxbits) == 0
    decreases 200 - i
  property E05

func (z *glvExponent) IsNegative() (r)
  ensures iff(r, z.sign < 0)
  modifies nothing
  property E06
