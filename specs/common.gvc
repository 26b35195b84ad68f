package bandersnatch/common

func (s FieldElementEndianness) PutUint256(out, w)
  any k
  panics len(out) < 32
  ensures s.v ==> bebytes(out[0:32]) == U(w)
  ensures !s.v ==> lebytes(out[0:32]) == U(w)
  ensures 32 <= k && k < len(out) ==> out[k] == old(out[k])
  modifies elems(out)
  property C01
func (s FieldElementEndianness) PutUint256_ptr(out, w)
  any k
  panics len(out) < 32
  ensures s.v ==> bebytes(out[0:32]) == U(w)
  ensures !s.v ==> lebytes(out[0:32]) == U(w)
  ensures 32 <= k && k < len(out) ==> out[k] == old(out[k])
  modifies elems(out)
  property C01
func (s FieldElementEndianness) PutUint256_array(out, w)
  ensures s.v ==> bebytes(out) == U(w)
  ensures !s.v ==> lebytes(out) == U(w)
  modifies *out
  property C01
func (s FieldElementEndianness) Uint256(in) (r)
  panics len(in) < 32
  ensures s.v ==> U(r) == bebytes(in[0:32])
  ensures !s.v ==> U(r) == lebytes(in[0:32])
  modifies nothing
  property C01
func (s FieldElementEndianness) Uint256_indirect(in, r)
  panics len(in) < 32
  ensures s.v ==> U(r) == bebytes(in[0:32])
  ensures !s.v ==> U(r) == lebytes(in[0:32])
  modifies *r
  property C01
func (s FieldElementEndianness) Uint256_array(in, r)
  ensures s.v ==> U(r) == bebytes(in)
  ensures !s.v ==> U(r) == lebytes(in)
  modifies *r
  property C01
func (s FieldElementEndianness) Uint16(in) (r)
  panics len(in) < 2
  ensures s.v ==> r == bebytes(in[0:2])
  ensures !s.v ==> r == lebytes(in[0:2])
  modifies nothing
  property C01
func (s FieldElementEndianness) Uint32(in) (r)
  panics len(in) < 4
  ensures s.v ==> r == bebytes(in[0:4])
  ensures !s.v ==> r == lebytes(in[0:4])
  modifies nothing
  property C01
func (s FieldElementEndianness) Uint64(in) (r)
  panics len(in) < 8
  ensures s.v ==> r == bebytes(in[0:8])
  ensures !s.v ==> r == lebytes(in[0:8])
  modifies nothing
  property C01
func (s FieldElementEndianness) PutUint16(out, x)
  any k
  panics len(out) < 2
  ensures s.v ==> bebytes(out[0:2]) == x
  ensures !s.v ==> lebytes(out[0:2]) == x
  ensures 2 <= k && k < len(out) ==> out[k] == old(out[k])
  modifies elems(out)
  property C01
func (s FieldElementEndianness) PutUint32(out, x)
  any k
  panics len(out) < 4
  ensures s.v ==> bebytes(out[0:4]) == x
  ensures !s.v ==> lebytes(out[0:4]) == x
  ensures 4 <= k && k < len(out) ==> out[k] == old(out[k])
  modifies elems(out)
  property C01
func (s FieldElementEndianness) PutUint64(out, x)
  any k
  panics len(out) < 8
  ensures s.v ==> bebytes(out[0:8]) == x
  ensures !s.v ==> lebytes(out[0:8]) == x
  ensures 8 <= k && k < len(out) ==> out[k] == old(out[k])
  modifies elems(out)
  property C01
func (s FieldElementEndianness) StartsWithMSB() (r)
  ensures iff(r, s.v)
  modifies nothing
  property C01
func (s FieldElementEndianness) GetEndianness() (r)
  ensures iff(r.v, s.v)
  modifies nothing
  property C01

func (s *FieldElementEndianness) SetEndianness(e)
  instance e FieldElementEndianness
  ensures iff(s.v, e.v)
  modifies *s
  property C01
func (s *FieldElementEndianness) SetEndianness(e)
  instance e binary.littleEndian
  ensures !s.v
  modifies *s
  property C01
func (s *FieldElementEndianness) SetEndianness(e)
  instance e binary.bigEndian
  ensures s.v
  modifies *s
  property C01
func (s *FieldElementEndianness) SetEndianness(e)
  instance e binary.nativeEndian
  panics true
  property C01

// bit headers
pred bhOK(b) = b.prefixLen <= 8 && b.prefixBits < ite(b.prefixLen == 0, 1, ite(b.prefixLen == 1, 2, ite(b.prefixLen == 2, 4, ite(b.prefixLen == 3, 8, ite(b.prefixLen == 4, 16, ite(b.prefixLen == 5, 32, ite(b.prefixLen == 6, 64, ite(b.prefixLen == 7, 128, 256))))))))

func (bh *BitHeader) validate()
  enum bh.prefixLen 0 255
  panics !bhOK(bh)
  modifies nothing
  property C02
func (bh *BitHeader) Validate()
  enum bh.prefixLen 0 255
  panics !bhOK(bh)
  modifies nothing
  property C02
func MakeBitHeader(b, n) (r)
  enum n 0 255
  panics n > 8 || n <= 8 && b >= pow2(n)
  ensures r.prefixBits == b && r.prefixLen == n && bhOK(r)
  modifies nothing
  property C02
func (bh *BitHeader) SetBitHeader(b, n)
  enum n 0 255
  panics n > 8 || n <= 8 && b >= pow2(n)
  ensures bh.prefixBits == b && bh.prefixLen == n && bhOK(bh)
  modifies *bh
  property C02
func (bh *BitHeader) SetBitHeaderFromBitHeader(o)
  enum o.prefixLen 0 255
  panics !bhOK(o)
  ensures bh.prefixBits == o.prefixBits && bh.prefixLen == o.prefixLen
  modifies *bh
  property C02
func (bh *BitHeader) GetBitHeader() (r)
  ensures r.prefixBits == bh.prefixBits && r.prefixLen == bh.prefixLen
  modifies nothing
  property C02
func (bh *BitHeader) PrefixBits() (r)
  ensures r == bh.prefixBits
  modifies nothing
  property C02
func (bh *BitHeader) PrefixLen() (r)
  ensures r == bh.prefixLen
  modifies nothing
  property C02

// restriction to the prime-order subgroup
func (sr *SubgroupRestriction) SetSubgroupRestriction(b)
  ensures iff(sr.subgroupOnly, b)
  modifies *sr
  property C03
func (sr *SubgroupRestriction) IsSubgroupOnly() (r)
  ensures iff(r, sr.subgroupOnly)
  modifies nothing
  property C03
func (sr *SubgroupOnly) IsSubgroupOnly() (r)
  ensures r
  modifies nothing
  property C03
func (sr *SubgroupOnly) SetSubgroupRestriction(b)
  panics !b
  modifies nothing
  property C03
func (b IsInputTrusted) Bool() (r)
  ensures iff(r, b.v)
  modifies nothing
  property C03
func TrustLevelFromBool(v) (r)
  ensures iff(r.v, v)
  modifies nothing
  property C03

lemma trustConstants()
  ensures TrustedInput.v
  ensures !UntrustedInput.v
  property C03
lemma endiannessConstants()
  ensures BigEndian.v
  ensures !LittleEndian.v
  ensures !DefaultEndian.v
  property C01

// exported constants: reference values, independent of the repository
const REFQ = 52435875175126190479447740508185965837690552500527637822603658699938581184513
const REFP = 13108968793781547619861935127046491459309155893440570251786403306729687672801
const REFL = 8913659658109529928382530854484400854125314752504019737736543920008458395397
lemma exportedConstants()
  ensures BaseFieldSize == REFQ && BaseFieldSize_untyped == REFQ && big(BaseFieldSize_Int) == REFQ
  ensures GroupOrder == REFP && big(GroupOrder_Int) == REFP
  ensures Cofactor == 4 && big(Cofactor_Int) == 4
  ensures CurveOrder == 4 * REFP && big(CurveOrder_Int) == 4 * REFP
  ensures CurveExponent == 2 * REFP && big(CurveExponent_Int) == 2 * REFP
  ensures EndomorphismEigenvalue == REFL && big(EndomorphismEigenvalue_Int) == REFL
  ensures mod(REFL * REFL + 2, REFP) == 0
  ensures bigparse(BaseFieldSize_string) == REFQ && bigparse(GroupOrder_string) == REFP && bigparse(Cofactor_string) == 4
  ensures bigparse(CurveOrder_string) == 4 * REFP && bigparse(CurveExponent_string) == 2 * REFP && bigparse(EndomorphismEigenvalue_string) == REFL
  ensures pow2(BaseFieldBitLength - 1) <= REFQ && REFQ < pow2(BaseFieldBitLength)
  ensures pow2(8 * (BaseFieldByteLength - 1)) <= REFQ && REFQ < pow2(8 * BaseFieldByteLength)
  ensures big(One_Int) == 1 && big(Two_Int) == 2 && big(MinusOne_Int) == -1
  ensures big(TwoTo32_Int) == pow2(32) && big(TwoTo64_Int) == pow2(64) && big(TwoTo128_Int) == pow2(128)
  ensures big(TwoTo256_Int) == pow2(256) && big(TwoTo512_Int) == pow2(512)
  property C04
