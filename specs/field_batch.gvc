// Operations on many field elements at once, at the level of values (see field_abs.gvc).
package bandersnatch/fieldElements
layer default 2
foldmul feProd(s, k) = fe(s[k])
fold feSum(s, k) = fe(s[k])
foldmul feProdP(s, k) = fe(*s[k])
fold feSumP(s, k) = fe(*s[k])

func (z *bsFieldElement_MontgomeryNonUnique) MultiplySlice(factors)
  ensures fe(z) == old(feProd(factors))
  modifies *z
  loop 1
    invariant 1 <= i && i <= len(factors)
    invariant fe(result) == feProd(factors[:i])
    decreases len(factors) - i
  property F05
func (z *bsFieldElement_MontgomeryNonUnique) SummationSlice(summands)
  ensures fe(z) == old(feSum(summands))
  modifies *z
  loop 1
    invariant 1 <= i && i <= len(summands)
    invariant fe(result) == feSum(summands[:i])
    decreases len(summands) - i
  property F05
func (z *bsFieldElement_MontgomeryNonUnique) MultiplyMany(factors)
  ensures fe(z) == old(feProdP(factors))
  modifies *z
  loop 1
    invariant 1 <= i && i <= len(factors)
    invariant fe(result) == feProdP(factors[:i])
    decreases len(factors) - i
  property F05
func (z *bsFieldElement_MontgomeryNonUnique) SummationMany(summands)
  ensures fe(z) == old(feSumP(summands))
  modifies *z
  loop 1
    invariant 1 <= i && i <= len(summands)
    invariant fe(result) == feSumP(summands[:i])
    decreases len(summands) - i
  property F05
func GenerateMultiDivisionByZeroError(fieldElements, errorString) (err)
  trusted only assumed to return an error and to leave the field elements alone
  ensures !isnil(err)
  modifies nothing
func MultiInvertEqSlice(args) (err)
  slicelen args 4
  slicelen args 0
  slicelen args 1
  slicelen args 2
  slicelen args 3
  any k
  ensures isnil(err) && 0 <= k && k < len(args) ==> fe(args[k]) * old(fe(args[k])) == 1
  ensures !isnil(err) && 0 <= k && k < len(args) ==> fe(args[k]) == old(fe(args[k]))
  ensures iff(!isnil(err), old(feProd(args)) == 0)
  modifies elems(args)
  property F05
func MultiInvertEq(args) (err)
  slicelen args 4
  slicelen args 0
  slicelen args 1
  slicelen args 2
  slicelen args 3
  any k
  instances 4
  ensures isnil(err) && 0 <= k && k < len(args) ==> fe(*args[k]) * old(fe(*args[k])) == 1
  ensures !isnil(err) && 0 <= k && k < len(args) ==> fe(*args[k]) == old(fe(*args[k]))
  ensures iff(!isnil(err), old(feProdP(args)) == 0)
  modifies targets(args)
  property F05
fold timesIn(s, k, m) = ite(s[k] == m, 1, 0)
func MultiInvertEqSliceSkipZeros(args) (zeroIndices)
  slicelen args 0
  slicelen args 1
  slicelen args 2
  slicelen args 3
  any k
  ensures 0 <= k && k < len(args) && !(old(fe(args[k])) == 0) ==> fe(args[k]) * old(fe(args[k])) == 1
  ensures 0 <= k && k < len(args) && old(fe(args[k])) == 0 ==> fe(args[k]) == 0
  ensures iff(isnil(zeroIndices), !(old(feProd(args)) == 0))
  ensures 0 <= k && k < len(args) ==> timesIn(zeroIndices, k) == ite(old(fe(args[k])) == 0, 1, 0)
  ensures 0 <= k && k < len(zeroIndices) ==> 0 <= zeroIndices[k] && zeroIndices[k] < len(args)
  ensures 0 <= k && k + 1 < len(zeroIndices) ==> zeroIndices[k] < zeroIndices[k+1]
  modifies elems(args)
  property F05
func MultiInvertEqSkipZeros(args) (zeroIndices)
  slicelen args 0
  slicelen args 1
  slicelen args 2
  slicelen args 3
  any k
  ensures 0 <= k && k < len(args) && !(old(fe(*args[k])) == 0) ==> fe(*args[k]) * old(fe(*args[k])) == 1
  ensures 0 <= k && k < len(args) && old(fe(*args[k])) == 0 ==> fe(*args[k]) == 0
  ensures iff(isnil(zeroIndices), !(old(feProdP(args)) == 0))
  ensures 0 <= k && k < len(args) ==> timesIn(zeroIndices, k) == ite(old(fe(*args[k])) == 0, 1, 0)
  ensures 0 <= k && k < len(zeroIndices) ==> 0 <= zeroIndices[k] && zeroIndices[k] < len(args)
  ensures 0 <= k && k + 1 < len(zeroIndices) ==> zeroIndices[k] < zeroIndices[k+1]
  modifies targets(args)
  property F05
