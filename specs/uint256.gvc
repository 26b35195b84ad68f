package bandersnatch/fieldElements

// the base field size, independent of the constants in the repository
const PF = 52435875175126190479447740508185965837690552500527637822603658699938581184513

lemma baseFieldConstants()
  ensures BaseFieldSize_untyped == PF
  ensures twiceBaseFieldSize_untyped == 2 * PF
  property F02

// ---- integer arithmetic
func (z *Uint256) Add(x, y)
  ensures U(z) == mod(old(U(x)) + old(U(y)), pow2(256))
  modifies *z
  property F01
func (z *Uint256) AddAndReturnCarry(x, y) (carry)
  ensures U(z) + pow2(256) * carry == old(U(x)) + old(U(y))
  modifies *z
  property F01
func (z *Uint256) Sub(x, y)
  ensures U(z) == mod(old(U(x)) - old(U(y)), pow2(256))
  modifies *z
  property F01
func (z *Uint256) SubAndReturnBorrow(x, y) (borrow)
  ensures U(z) - pow2(256) * borrow == old(U(x)) - old(U(y))
  modifies *z
  property F01
func (z *Uint256) Mul(x, y)
  ensures U(z) == mod(old(U(x)) * old(U(y)), pow2(256))
  modifies *z
  property F01
func (z *Uint256) Increment(x)
  ensures U(z) == mod(old(U(x)) + 1, pow2(256))
  modifies *z
  property F01
func (z *Uint256) IncrementEq()
  ensures U(z) == mod(old(U(z)) + 1, pow2(256))
  modifies *z
  property F01
func (z *Uint256) Decrement(x)
  ensures U(z) == mod(old(U(x)) - 1, pow2(256))
  modifies *z
  property F01
func (z *Uint256) DecrementEq()
  ensures U(z) == mod(old(U(z)) - 1, pow2(256))
  modifies *z
  property F01
func (z *Uint256) SetZero()
  ensures U(z) == 0
  modifies *z
  property F01
func (z *Uint256) SetOne()
  ensures U(z) == 1
  modifies *z
  property F01
func (z *Uint256) SetUint64(x)
  ensures U(z) == x
  modifies *z
  property F01
func (z *Uint256) SetUint256(x)
  ensures U(z) == old(U(x))
  modifies *z
  property F01
func (z *Uint256) ToUint256(x)
  ensures U(x) == old(U(z))
  modifies *x
  property F01
func (z *Uint256) IsZero() (r)
  ensures iff(r, U(z) == 0)
  modifies nothing
  property F01
func (z *Uint256) IsOne() (r)
  ensures iff(r, U(z) == 1)
  modifies nothing
  property F01
func (z *Uint256) ShiftRightEq_64() (ShiftOut)
  ensures U(z) * pow2(64) + ShiftOut == old(U(z))
  modifies *z
  property F01
func (z *Uint256) ShiftLeftEq_64() (ShiftOut)
  ensures U(z) + ShiftOut * pow2(256) == old(U(z)) * pow2(64)
  modifies *z
  property F01
func (z *Uint256) ShiftRightEq(amount)
  enum amount 0 64
  ensures U(z) == div(old(U(z)), pow2(amount))
  modifies *z
  property F01
func (z *Uint256) BitLen() (l)
  ensures 0 <= l && l <= 256
  ensures iff(l == 0, U(z) == 0)
  ensures all(k, 1, 257, implies(l == k, pow2(k - 1) <= U(z) && U(z) < pow2(k)))
  property F01
func LongMulUint64(target, x, y)
  ensures U(target) == old(U(x)) * y
  modifies *target
  property F01
func (z *Uint512) LongMul(x, y)
  ensures U(z) == old(U(x)) * old(U(y))
  modifies *z
  property F01
func (z *Uint512) LongSquare(x)
  ensures U(z) == old(U(x)) * old(U(x))
  modifies *z
  property F01
func (z *Uint512) SetUint64(x)
  ensures U(z) == x
  modifies *z
  property F01
func (z *Uint512) SetUint256(x)
  ensures U(z) == old(U(x))
  modifies *z
  property F01
func (z *Uint512) ToUint256(x)
  panics U(z) >= pow2(256)
  ensures U(x) == old(U(z))
  modifies *x
  property F01
func (z *Uint256) Cmp(x) (r)
  ensures iff(r == -1, U(z) < U(x))
  ensures iff(r == 1, U(z) > U(x))
  ensures iff(r == 0, U(z) == U(x))
  modifies nothing
  property F01
func (z *Uint256) IsLessThan(x) (r)
  ensures iff(r, U(z) < U(x))
  modifies nothing
  property F01
func (z *Uint256) ToBigInt() (r)
  ensures big(r) == U(z)
  ensures fresh(r)
  modifies nothing
  property F01
func (z *Uint512) ToBigInt() (r)
  ensures big(r) == U(z)
  ensures fresh(r)
  modifies nothing
  property F01
func BigIntToUInt256(x) (r)
  panics big(x) < 0 || big(x) >= pow2(256)
  ensures U(r) == big(x)
  modifies nothing
  property F01
func BigIntToUint512(x) (r)
  panics big(x) < 0 || big(x) >= pow2(512)
  ensures U(r) == big(x)
  modifies nothing
  property F01
func (z *Uint256) SetBigInt(x)
  panics big(x) < 0 || big(x) >= pow2(256)
  ensures U(z) == big(x)
  modifies *z
  property F01
func (z *Uint512) SetBigInt(x)
  panics big(x) < 0 || big(x) >= pow2(512)
  ensures U(z) == big(x)
  modifies *z
  property F01

// ---- arithmetic modulo the base field size
// 1/2^256 modulo PF
const RINV = 12549076656233958353659347336803947287922716146853412054870763148006372261952
lemma rinv()
  ensures mod(RINV * pow2(256), PF) == 1
  property F03
pred redB(z) = U(z) < 2 * PF
pred redC(z) = U(z) < pow2(256) - PF
pred redF(z) = U(z) < PF

func (z *Uint256) addAndReduce_b_c(x, y)
  requires redB(x) && redB(y) || redC(x) && redC(y)
  ensures cong(U(z), old(U(x)) + old(U(y)), PF)
  ensures old(redB(x) && redB(y)) ==> redB(z)
  ensures old(redC(x) && redC(y)) ==> redC(z)
  modifies *z
  property F02
func (z *Uint256) AddAndReduce_b(x, y)
  requires redB(x) && redB(y)
  ensures cong(U(z), old(U(x)) + old(U(y)), PF)
  ensures redB(z)
  modifies *z
  property F02
func (z *Uint256) AddAndReduce_c(x, y)
  requires redC(x) && redC(y)
  ensures cong(U(z), old(U(x)) + old(U(y)), PF)
  ensures redC(z)
  modifies *z
  property F02
func (z *Uint256) AddEqAndReduce_a(x)
  ensures cong(U(z), old(U(z)) + old(U(x)), PF)
  modifies *z
  property F02
func (z *Uint256) SubAndReduce_c(x, y)
  requires redC(x) && redC(y)
  ensures cong(U(z), old(U(x)) - old(U(y)), PF)
  ensures redC(z)
  modifies *z
  property F02
func (z *Uint256) SubAndReduce_b(x, y)
  requires redB(x) && redB(y)
  ensures cong(U(z), old(U(x)) - old(U(y)), PF)
  ensures redB(z)
  modifies *z
  property F02
func (z *Uint256) SubEqAndReduce_a(x)
  ensures cong(U(z), old(U(z)) - old(U(x)), PF)
  modifies *z
  property F02
func (z *Uint256) DoubleEqAndReduce_a()
  ensures cong(U(z), 2 * old(U(z)), PF)
  modifies *z
  property F02
func (z *Uint256) ComputeModularNegative_Weak_a() (r)
  ensures cong(U(r), -U(z), PF)
  modifies nothing
  property F02
func (z *Uint256) IsReduced_a() (r)
  ensures r
  modifies nothing
  property F02
func (z *Uint256) IsReduced_b() (r)
  ensures iff(r, redB(z))
  modifies nothing
  property F02
func (z *Uint256) IsReduced_c() (r)
  ensures iff(r, redC(z))
  modifies nothing
  property F02
func (z *Uint256) IsReduced_f() (r)
  ensures iff(r, redF(z))
  modifies nothing
  property F02
func (z *Uint256) is_fully_reduced() (r)
  ensures iff(r, redF(z))
  modifies nothing
  property F02
func (z *Uint256) Reduce()
  ensures U(z) == mod(old(U(z)), PF)
  modifies *z
  property F02
func (z *Uint256) Reduce_fa()
  ensures U(z) == mod(old(U(z)), PF)
  modifies *z
  property F02
func (z *Uint256) reduce_fa_optimistic()
  ensures U(z) == mod(old(U(z)), PF)
  modifies *z
  property F02
func (z *Uint256) reduce_fa_loop()
  ensures U(z) == mod(old(U(z)), PF)
  modifies *z
  property F02
func (z *Uint256) reduce_fa_barret()
  ensures U(z) == mod(old(U(z)), PF)
  modifies *z
  property F02
func (z *Uint256) Reduce_ca()
  ensures cong(U(z), old(U(z)), PF)
  ensures redC(z)
  ensures U(z) <= old(U(z))
  modifies *z
  property F02
func (z *Uint256) Reduce_fb()
  requires redB(z)
  ensures U(z) == mod(old(U(z)), PF)
  modifies *z
  property F02
func (z *Uint256) reduce_fb_exact()
  requires redB(z)
  ensures U(z) == mod(old(U(z)), PF)
  modifies *z
  property F02
func (z *Uint256) reduce_fb_optimistic()
  requires redB(z)
  ensures U(z) == mod(old(U(z)), PF)
  modifies *z
  property F02
func (z *Uint256) ReduceUint512ToUint256_a(x)
  ensures cong(U(z), U(x), PF)
  modifies *z
  property F02
func (z *Uint256) MulEqAndReduce_a(x)
  ensures cong(U(z), old(U(z)) * old(U(x)), PF)
  modifies *z
  property F02
func (z *Uint256) SquareEqAndReduce_a()
  ensures cong(U(z), old(U(z)) * old(U(z)), PF)
  modifies *z
  property F02
func (z *Uint256) MulAndReduce_a(x, y)
  ensures cong(U(z), old(U(x)) * old(U(y)), PF)
  modifies *z
  property F02
func (z *Uint256) SquareAndReduce_a(x)
  ensures cong(U(z), old(U(x)) * old(U(x)), PF)
  modifies *z
  property F02

// ---- Montgomery arithmetic (R = 2^256)
// the bound kept by montgomery_iteration (the comment in the code, (t>>64) c-reduced, is
// not preserved by it: for x = 2^256-PF-1, y = 2^64-1 and t near the top it is missed by 2^191)
pred mredC(t) = U(t) <= pow2(64) * (pow2(256) - PF - 1) + PF

func montgomery_iteration(t, x, y)
  requires mredC(t) && redC(x)
  ensures cong(U(t) * pow2(64), old(U(t)) + pow2(64) * U(x) * y, PF)
  ensures mredC(t)
  modifies *t
  property F03
func (z *Uint256) mulMontgomery_Unrolled_c(x, y)
  requires redC(x)
  ensures cong(U(z) * pow2(256), old(U(x)) * old(U(y)), PF)
  ensures redC(z)
  modifies *z
  property F03
func (z *Uint256) MulMontgomery_c(x, y)
  requires redC(x)
  ensures cong(U(z) * pow2(256), old(U(x)) * old(U(y)), PF)
  ensures redC(z)
  modifies *z
  property F03
func (z *Uint256) SquareMontgomery_c(x)
  requires redC(x)
  ensures cong(U(z) * pow2(256), old(U(x)) * old(U(x)), PF)
  ensures redC(z)
  modifies *z
  property F03
func (z *Uint256) FromMontgomeryRepresentation_fc(x)
  requires redC(x)
  ensures cong(U(z) * pow2(256), old(U(x)), PF)
  ensures redF(z)
  modifies *z
  loop 1
    enum i 0 4
    invariant 0 <= i && i <= 4
    invariant cong(U(temp) * pow2(64 * i), old(U(x)), PF)
    invariant redC(temp)
    decreases 4 - i
  property F03
func (z *Uint256) ConvertToMontgomeryRepresentation_c(x)
  requires redC(x)
  ensures cong(U(z), pow2(256) * old(U(x)), PF)
  ensures redC(z)
  modifies *z
  property F03
func mul_four_one_64(x, y) (low, high)
  ensures low + pow2(64) * U(high) == U(x) * y
  modifies nothing
  property F03
func montgomery_step_64(t, q)
  requires U(t) <= pow2(256) - PF - 1 + div(PF, pow2(64))
  ensures U(t) == old(U(t)) + div(q * PF, pow2(64)) + 1
  modifies *t
  property F03
func add_mul_shift_64(target, x, y) (low)
  alias none
  ensures low + pow2(64) * U(target) == old(U(target)) + U(x) * y
  modifies *target
  property F03
func (z *Uint256) ToNonMontgomery_fc() (r)
  requires redC(z)
  chain
  ensures cong(U(r) * pow2(256), U(z), PF)
  ensures redF(r)
  ensures U(r) == mod(U(z) * RINV, PF)
  modifies nothing
  property F03
func (z *Uint256) mulMontgomerySlow_c(x, y)
  requires redC(x)
  ensures cong(U(z) * pow2(256), old(U(x)) * old(U(y)), PF)
  ensures redC(z)
  modifies *z
  property F03
func (z *Uint256) ModularExponentiation_fa(basis, exponent)
  ensures U(z) == powmod(old(U(basis)), old(U(exponent)), PF)
  modifies *z
  property F02

