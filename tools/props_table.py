BASE_NOTE = ("Every obligation of the named contracts is discharged by z3/cvc5 or by exact polynomial simplification on every run, for all inputs; "
             "trusted: the gvc verifier (Go semantics, math/bits, math/big, encoding/binary models), the solvers, the Go compiler. ")
LEVELS = {}
PROPS = []
NA = {}

def mech(*pairs):
    return [{"name": n, "where": w} for n, w in pairs]

def prop(id, title, statement, over, text, why, files, mechanism, note="", level="proof", **kw):
    p = dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": text}, why_tests_cant=why,
             anchors=dict(files=files, mechanism=mechanism, **kw.pop("anchors", {})), note=BASE_NOTE + note, level=level, **kw)
    PROPS.append(p)

EX = "bandersnatch/exponents/exponents.go"
prop("E01", "Exponent arithmetic is arithmetic modulo the curve exponent",
     "Adding, subtracting, multiplying and negating exponents gives the exact result modulo twice the prime subgroup order, always in canonical range, for every pair of canonical operands and for every way the result may share storage with the operands. Operands that are not the result stay unchanged.",
     ["inputs"], "all pairs of exponents in [0, 2*p253), all previous values of the receiver, all aliasing patterns of receiver and arguments",
     "Tests sample random exponents; carries and borrows at word boundaries, wrap-around exactly at the modulus and aliased receivers have negligible probability of being sampled.",
     [EX, "bandersnatch/common/common_constants.go"],
     mech(("Add, Sub, Neg, Mul", EX), ("normalize_once", EX), ("curveExponent_0..3", "bandersnatch/exponents/exponent_constants.go")))
prop("E02", "Exponent conversions and reductions are exact",
     "Setting an exponent from a signed or unsigned machine integer or from any big integer stores the canonical residue modulo twice the subgroup order, and converting back yields exactly the stored value as an independent big integer, which is also what printing shows. Reduction to the subgroup yields the residue modulo the subgroup order and leaves its argument unchanged.",
     ["inputs"], "all 64-bit integers, all (also negative and arbitrarily large) big integers, all canonical exponents",
     "Round trips of random values cannot reach the boundary values (0, the subgroup order, word boundaries, the smallest negative integer).",
     [EX, "internal/utils/bigIntConversion.go"],
     mech(("SetInt, SetUInt, SetBigInt, SetZero, SetOne", EX), ("ToBigInt_Full, ToBigInt_Subgroup, ModuloP253", EX), ("UIntarrayToInt, BigIntToUIntArray", "internal/utils/bigIntConversion.go")),
     note="String and Format are covered by the replay only. ")
prop("E03", "Exponent predicates decide exactly what they name",
     "The zero and one tests for exponents answer yes exactly for the values congruent to zero or one modulo the full exponent respectively the subgroup order, and the range tests exactly for the values below the respective modulus.",
     ["inputs"], "all canonical exponents (range tests: all 256-bit values)",
     "Each predicate differs from a wrong variant on a handful of the 2^254 values only; sampling does not find them.",
     [EX], mech(("IsZero_Full, IsZero_Subgroup, IsOne_Full, IsOne_Subgroup", EX), ("isNormalized_Full, isNormalized_Subgroup", EX)))
prop("E04", "GLV decomposition is correct and short for every exponent",
     "Splitting an exponent t yields two signed integers u and v with u + v*lambda congruent to t modulo the subgroup order, lambda being the eigenvalue of the endomorphism. Both have absolute value at most 62111775536698671376125354107412126641, so they fit into 126 bits.",
     ["inputs"], "all exponents (any 256-bit stored value)",
     "The decomposition solves a closest vector problem with a case distinction over Voronoi cells; tests sample random exponents, while errors in one cell boundary or one correction term show up on thin slices only.",
     ["bandersnatch/exponents/glv_transform.go", EX],
     mech(("GLV_representation", "bandersnatch/exponents/glv_transform.go"), ("infty_norm", "bandersnatch/exponents/glv_transform.go"), ("glvExponent.SetBigInt", EX)))
prop("E05", "Signed window decomposition represents the exponent exactly",
     "Decomposing a signed 128-bit exponent into windows gives a list of terms sign*coefficient*2^position whose sum is exactly the exponent, for every window width. Every coefficient is odd and below 2^width and every sign is +1 or -1.",
     ["inputs"], "all 128-bit absolute values, both signs (and sign 0 for zero), window widths 1 to 8",
     "A carry leaving the topmost window occurs only for values with long runs of ones at the top; random samples below 2^126 never reach it.",
     ["bandersnatch/exponents/glv_transform.go"],
     mech(("decomposeUnalignedSignedAdic", "bandersnatch/exponents/glv_transform.go")),
     note="Unbounded in the 128-bit value (loop invariant, termination measure); window widths are enumerated 1..8. ")
prop("E06", "128-bit integers behave as integers modulo 2^128",
     "Sums and products of 128-bit integers are exact modulo 2^128, single bits can be read at every position, conversion from and to big integers is exact, and sign-and-magnitude values convert exactly and reject values that do not fit.",
     ["inputs"], "all pairs of 128-bit values, all big integers, bit positions 0 to 140",
     "Carry chains and boundary values are not sampled by random tests.",
     [EX], mech(("add128, mul128", EX), ("uint128.SetBigInt, ToBigInt, Bit", EX), ("glvExponent.SetBigInt, ToBigInt, Sign, IsNegative, Bit", EX)),
     note="Bit positions are enumerated 0..140. ")

FE = "bandersnatch/common/fe_endianness.go"
prop("C01", "Byte order is honoured exactly for all integer widths",
     "With most- or least-significant-byte-first order selected, writing a 16-, 32-, 64- or 256-bit integer into a byte slice produces exactly the corresponding byte string and reading it back recovers the integer; bytes beyond the encoding and the source stay unchanged. Slices that are too short are rejected by a panic whatever their capacity, and only the two standard byte orders can be selected.",
     ["inputs"], "all values, both byte orders, all slice lengths and contents",
     "Tests use a few values; an exchange of two bytes or words in one of the many variants, or a wrong length bound, is invisible for most values.",
     [FE], mech(("PutUint256, PutUint256_ptr, PutUint256_array", FE), ("Uint256, Uint256_indirect, Uint256_array", FE), ("Uint16/32/64, PutUint16/32/64", FE), ("SetEndianness, StartsWithMSB, GetEndianness", FE)))
EP = "bandersnatch/common/embedded_params.go"
prop("C02", "Bit headers are accepted exactly when they fit their length",
     "A header of n prefix bits is accepted exactly when n is at most 8 and the bits fit into n bits; everything else is rejected by a panic. An accepted header is stored and read back unchanged.",
     ["inputs"], "all 256 x 256 combinations of bits and length",
     "Tests try a few combinations; the boundary n=8 and the shift behaviour for large n are easily missed.",
     [EP], mech(("MakeBitHeader, SetBitHeader, SetBitHeaderFromBitHeader", EP), ("validate, Validate", EP), ("GetBitHeader, PrefixBits, PrefixLen", EP)))
prop("C03", "Subgroup restriction and trust settings are kept as set",
     "A configurable subgroup restriction reports exactly the value last set; the fixed subgroup-only setting always reports true and refuses to be switched off by a panic. A trust level made from a boolean converts back to that boolean, and the predefined trusted and untrusted levels are what they are called.",
     ["inputs", "histories"], "all sequences of settings",
     "Tests only look at defaults.",
     [EP, "bandersnatch/common/common_constants.go"], mech(("SubgroupRestriction", EP), ("SubgroupOnly", EP), ("TrustLevelFromBool, Bool", "bandersnatch/common/common_constants.go")))
CC = "bandersnatch/common/common_constants.go"
prop("C04", "Exported constants have the values they stand for",
     "The base field size, subgroup order, cofactor, curve order (cofactor times subgroup order), curve exponent (twice the subgroup order) and endomorphism eigenvalue (a square root of -2 modulo the subgroup order) have the values of the Bandersnatch curve in each exported form (constant, string, big integer). The bit and byte length of the base field and the big integers named 1, 2, -1, 2^32, 2^64, 2^128, 2^256, 2^512 are exact.",
     ["inputs"], "all exported numeric constants of the package common",
     "No test pins them: most could be changed without any test of the compiled packages failing, and everything computed with them would silently be wrong.",
     [CC, "internal/utils/bigIntConversion.go"], mech(("BaseFieldSize .. EndomorphismEigenvalue, *_Int, *_string", CC), ("One_Int .. MinusOne_Int", CC), ("InitIntFromString", "internal/utils/bigIntConversion.go")))
EC = "internal/errorconsts/errorconsts.go"
prop("I01", "I/O error data say exactly whether the stream was left in the middle",
     "Error data for a failed read or write record exactly the number of bytes that were transferred, mark the error as an I/O error, and mark the operation as partial exactly if some but not all expected bytes were transferred. Data of reads carry the bytes that were read; the predefined data for operations that were never attempted report no bytes, no partial operation and no I/O error.",
     ["inputs"], "all byte counts and expected byte counts",
     "No test covers them; users decide from the partial flag whether the stream can still be used.",
     [EC], mech(("NewIntermediateWriteErrorData, NewIntermediateReadErrorData", EC), ("NoReadAttempt, NoWriteAttempt", EC)))
ST = "internal/stack/stack.go"
prop("S01", "The stack is last-in-first-out and never loses elements",
     "Pushing places a copy of the element on top and leaves everything below unchanged; popping returns and removes exactly the top element. Peeking at position i addresses the i-th element from the top, and popping or peeking outside of the stack panics and changes nothing.",
     ["inputs", "histories"], "all stacks of any size and element type, all positions, hence by induction all sequences of operations",
     "Tests run one short history on one element type.",
     [ST], mech(("MakeStack, NewStack", ST), ("Push, PushPtr, Pop", ST), ("Top, Peek, Len, IsEmpty", ST)))
BI = "internal/utils/bigIntConversion.go"
prop("U01", "Conversion between 256-bit words and big integers is exact",
     "Converting four 64-bit words to a big integer and back is exact for all values and yields a fresh big integer. Negative numbers and numbers of more than 256 bits are rejected by a panic. Initialising from a string yields exactly the number that the string denotes (decimal, or prefixed hexadecimal, octal or binary) and panics for every other string; comparison as big integers decides equality of the values.",
     ["inputs"], "all 256-bit values, all big integers, all strings",
     "Values with zero high words, and the boundary 2^256, are not sampled.",
     [BI], mech(("UIntarrayToInt", BI), ("BigIntToUIntArray", BI), ("InitIntFromString, IsEqualAsBigInt", BI)),
     note="Which number a string denotes is defined by math/big (opaque). ")
RT, RC = "internal/utils/reflect_type.go", "internal/utils/reflect_call.go"
prop("U03", "Reflection helpers decide exactly nilability and method signatures",
     "A type counts as nilable exactly if its values can be nil: pointers (also unsafe ones), interfaces, channels, functions, slices and maps. A method with given inputs and outputs counts as existing exactly if the type has a method of that name with as many inputs and outputs, every given input type is assignable to the method's parameter and every output of the method to the given output type; otherwise a reason is given.",
     ["inputs"], "all types, all method names, all lists of input and output types",
     "Tests use a few types; a kind missing from the list or a loop that stops early passes them.",
     [RT, RC], mech(("IsNilable, IsTypeNilable", RT), ("DoesMethodExist", RC)),
     note="The methods of reflect.Type (Kind, MethodByName, NumIn, In, AssignableTo, ...) are opaque functions. ")
CS, LC = "internal/utils/compareSlice.go", "internal/utils/listcontainment.go"
prop("U02", "Slice, map and list helpers decide exactly equality and membership",
     "Slices and maps compare equal exactly when they agree in being nil, in length and in every entry; a list contains an element exactly when some entry equals it, up to the optional normalisation function. Merging two lists keeps every element (up to normalisation) exactly once, invents none and leaves the inputs unchanged.",
     ["inputs"], "all lists and maps of any size over any comparable type, all normalisation functions",
     "Tests do not exercise these helpers beyond a few short lists.",
     [CS, LC, "internal/utils/clonable.go"], mech(("CompareSlices, AssertSliceEquals, CompareMaps, CompareParamMaps", CS), ("ElementInList, ConcatenateListsWithoutDuplicates, Identity", LC), ("AddressOfCopy", "internal/utils/clonable.go")),
     note="Normalisation functions are assumed to be deterministic and free of side effects. ")

F = "bandersnatch/fieldElements/"
FNOTE = ("bandersnatch/fieldElements does not compile at the pinned commit because its dependency errorsWithData misses methods; the contracts need only its source, "
         "the concrete replay compiles it against a stand-in for errorsWithData. ")
prop("F01", "256- and 512-bit integer arithmetic is exact",
     "Additions, subtractions, products, increments, shifts, bit length, comparison and conversions of 256- and 512-bit integers give exactly the integer result, modulo 2^256 where the type truncates, with the right carry or borrow, for every way the result may share storage with the operands. Integers out of range are rejected by a panic.",
     ["inputs"], "all pairs of 256-bit (512-bit) values, all previous receiver contents, all aliasing patterns; all big integers; shift amounts 0 to 64",
     "Carry chains through all four words and aliased operands have negligible probability in random tests.",
     [F + "uint256.go", F + "uint256_utility.go"],
     mech(("Add, Sub, Mul, AddAndReturnCarry, SubAndReturnBorrow, Increment, Decrement", F + "uint256.go"), ("LongMul, LongSquare, LongMulUint64", F + "uint256.go"), ("Cmp, IsLessThan, BitLen, ShiftRightEq", F + "uint256.go")),
     note="Shift amounts are enumerated 0..64. " + FNOTE)
prop("F02", "Weakly reduced arithmetic modulo the base field is exact",
     "Every modular operation on 256-bit integers returns a value congruent to the exact result modulo the base field size and reduced as far as its name promises (below the modulus, below twice the modulus, or below 2^256 minus the modulus), provided its operands satisfy the documented range, for every aliasing of receiver and operands. The range tests decide exactly these ranges; exponentiation is exact for every exponent.",
     ["inputs"], "all operands within the documented ranges, all 256-bit values where none is required, all aliasing patterns",
     "The final conditional subtractions matter only for operands within a sliver of a bound; random 256-bit values never hit them.",
     [F + "uint256_modular.go", F + "modulus.go"],
     mech(("AddAndReduce_b/_c, SubAndReduce_b/_c", F + "uint256_modular.go"), ("Reduce_fa, Reduce_ca, Reduce_fb, reduce_fa_barret", F + "uint256_modular.go"), ("ReduceUint512ToUint256_a, MulAndReduce_a, SquareAndReduce_a", F + "uint256_modular.go")),
     note=FNOTE)
prop("F03", "Montgomery multiplication and conversion are exact",
     "Montgomery multiplication and squaring of 256-bit integers return the product divided by 2^256 modulo the base field size, below 2^256 minus the modulus, whenever the first operand is below that bound, for arbitrary second operands and every aliasing. Conversion into Montgomery form multiplies by 2^256, conversion out of it divides by 2^256 and is fully reduced.",
     ["inputs"], "all first operands below 2^256 minus the modulus, all second operands, all aliasing patterns",
     "Overflow inside the reduction depends on extreme word patterns; the comment in the code claims an intermediate bound that is false in extreme cases, and only a proof shows the result is right all the same.",
     [F + "uint256_montgomery.go"],
     mech(("MulMontgomery_c, SquareMontgomery_c, mulMontgomery_Unrolled_c, mulMontgomerySlow_c, montgomery_iteration", F + "uint256_montgomery.go"), ("FromMontgomeryRepresentation_fc, ConvertToMontgomeryRepresentation_c, ToNonMontgomery_fc", F + "uint256_montgomery.go")),
     note=FNOTE)

FM = F + "field_element_montgomery.go"
prop("F04", "Field element operations compute in the base field whatever the representation",
     "A field element has up to two internal representations. Addition, subtraction, negation, multiplication, squaring, doubling, multiplication by five and by small integers, inversion and division give the exact result in the base field for every representation of the operands and every aliasing of receiver and operands, and keep the internal range invariant. Inverting or dividing by zero panics. Equality, equality up to sign, zero and one tests and the sign depend only on the value, and reading or comparing never changes a value. Conversions from and to machine words, 256-bit integers, big integers and raw bytes are exact. Powers with 256-bit exponents, the quadratic character and square roots (which exist exactly for squares) are right.",
     ["inputs"], "all field elements in all internal representations, all aliasing patterns, all 64-bit and 256-bit integers and big integers",
     "Computations nearly always produce the smallest representation (the code says so itself), so tests hardly ever see the other one or a carry in the last correction step.",
     [FM], mech(("Add, Sub, Neg, Mul, Square, Double, MulEqFive, Inv, Divide", FM), ("IsEqual, CmpAbs, IsZero, IsOne, Sign", FM), ("SetUint64, SetInt64, SetUint256, SetBigInt, ToUint256, ToBigInt, ToBytes, SetBytes", FM)),
     note="That the base field size is prime is checked by a probabilistic primality test. ToUint64, ToInt64, Exp, SquareRoot and Jacobi are only replayed (bounded). The formatting methods are not covered. " + FNOTE)
FB = "bandersnatch/fieldElements/field_element_batch.go"
prop("F05", "Operations on many field elements agree with the single operations",
     "The product and the sum of any number of field elements (none included) are exact in the base field for every internal representation, also if the receiver is one of the elements, and leave the other elements unchanged. Inverting many distinct elements at once replaces each by its exact inverse, or, exactly if some element is zero, reports an error and changes none. The variants that skip zeros invert exactly the nonzero elements, leave zeros alone and return the ascending list of the positions of the zeros (nil if there are none).",
     ["inputs"], "all lists of field elements, all internal representations",
     "A wrong order or a missing case shows only for particular lengths and positions of zeros and ones, and an aliased receiver only if the result is written too early.",
     [FB], mech(("MultiplySlice, MultiplyMany, SummationSlice, SummationMany", FB), ("MultiInvertEq, MultiInvertEqSlice", FB), ("MultiInvertEqSkipZeros, MultiInvertEqSliceSkipZeros", FB)),
     note="Sums and products are proved for every length (loop invariants over folds of the list). Inversion is proved for all values in lists of at most four elements and the variants that skip zeros for at most three (lengths enumerated); longer lists (up to 13) and receivers that are elements of the list are only replayed (bounded). The data in the error is not covered (it is built by the error package this package does not compile against). Relative to the field contracts of F04. ")

CP = "bandersnatch/curvePoints/"
CNOTE = ("Relative to the field contracts of F04 (field elements are represented by their values here) and to the values of the package's constants as computed by its own initialisers. "
         "That -5 and d are not squares is checked by the tool with the Jacobi symbol; that the base field size is prime is checked by a probabilistic primality test. "
         "The types for the subgroup hold a point or that point plus (0,-1); their contracts speak about the coordinates they hold and require operands on which their formulas are defined (for points of the subgroup a theorem of the literature). Which of the two points they stand for, the subgroup test, conversions between the two families and operands of mixed families rest on quadratic residues in the code and are only replayed (bounded). Multi-operations and sampling are not covered. The package compiles only with a stand-in for the error package; the proofs do not depend on it, the replay does. ")
prop("P01", "Curve point arithmetic follows the group law in all coordinate forms",
     "For all points of the curve (points at infinity and of order two included; for the types restricted to the subgroup, all its points), in every combination of extended, affine and double-projective coordinates for operands and result and under every aliasing of receiver and operands, adding, subtracting, doubling and negating give exactly the point demanded by the twisted Edwards group law, again with all equations between the coordinates satisfied, and leave the operands unchanged. The formulas called safe never produce coordinates that represent no point; the others do so only in the cases where the addition law they use is not defined.",
     ["inputs"], "all pairs of curve points, all projective representations of them, all coordinate forms, all aliasing patterns",
     "The exceptional cases (infinite points, sums of order two, equal points) form a negligible part of all inputs, every coordinate form has its own copy of the formulas, and some representations never appear in tests because normalisation removes them.",
     [CP + "curve_point_impl_add.go", CP + "curve_point_impl_double.go", CP + "curve_point_doubleproj.go"],
     mech(("add_*, sub_* and their safe variants", CP + "curve_point_impl_add.go"), ("double_st, double_sa, double_ss", CP + "curve_point_impl_double.go"), ("Point_efgh_*.Add, Sub, Double, Neg, SetFrom", CP + "curve_point_doubleproj.go"), ("Point_xtw_*.Add, Sub, Double, Neg, SetFrom", CP + "curve_point_xtw.go"), ("Point_axtw_*.Add, Sub, Double, Neg, SetFrom", CP + "curve_point_axtw.go"), ("NegEq, SetNeutral", CP + "curve_point_xtw.go")),
     note=CNOTE)
prop("P02", "The endomorphism and adding points of order two are computed correctly",
     "For all points of the curve and all coordinate forms, computing the endomorphism gives the point (c(1-y^2)/(xy), b(y^2+b)/(y^2-b)), or no point exactly for the points on which the formula is not defined, which the callers replace by the right result; adding one of the three points of order two gives the sum by the group law. The setters of the points of order two produce exactly these points.",
     ["inputs"], "all curve points, all projective representations, all coordinate forms",
     "The endomorphism speeds up all exponentiations and its exceptional cases, like those of two-torsion, are never hit by random tests.",
     [CP + "curve_point_impl_endo.go", CP + "curve_point_impl_torsion.go"],
     mech(("computeEndomorphism_st, _sa, _ss", CP + "curve_point_impl_endo.go"), ("torsionAddA, torsionAddE1, torsionAddE2", CP + "curve_point_impl_torsion.go"), ("Endo", CP + "curve_point_doubleproj.go"), ("SetE1, SetE2, SetAffineTwoTorsion", CP + "curve_point_xtw.go")),
     note=CNOTE + "That the formula is multiplication by the eigenvalue on the subgroup is a theorem of the literature, only replayed on examples here. ")
prop("P03", "Tests of points tell the truth and normalising keeps the point",
     "The on-curve test accepts coordinates exactly if they satisfy the equations of the curve and represent a point. Equality of two points in any coordinate forms holds exactly if they are the same point; the tests for the neutral element, the points at infinity for membership in the subgroup and for coordinates that represent no point answer exactly that. Normalising keeps the point, succeeds exactly if the requested coordinate can be made one, and no test changes the point.",
     ["inputs"], "all coordinates (for the on-curve test also those of no point), all pairs of points, all coordinate forms",
     "A projective comparison that forgets a coordinate agrees with the right one for all but special pairs of points.",
     [CP + "curve_point_impl_equality.go", CP + "curve_point_impl_subgroupcheck.go", CP + "curve_point_xtw.go"],
     mech(("isEqual_*", CP + "curve_point_impl_equality.go"), ("isPointOnCurve", CP + "curve_point_impl_subgroupcheck.go"), ("IsEqual, IsNeutralElement, IsAtInfinity, IsE1, IsE2, NormalizeForZ, NormalizeForY, normalizeAffineZ", CP + "curve_point_xtw.go"), ("normalize_affine", CP + "curve_point_doubleproj.go")),
     note=CNOTE)
prop("P04", "Coordinates read from a point are the coordinates of that point",
     "For all points and all point types, the projective, extended and affine coordinates read from a point, one by one without other operations in between or several at once, are coordinates of exactly that point (the decaf variants: of it or of it plus (0,-1), the same of the two for all coordinates); affine coordinates of points at infinity are refused with a panic. Reading coordinates never changes the point.",
     ["inputs", "histories"], "all points, all representations of them, all point types, all accessors and orders of reading",
     "A point is normalised in place while it is read; an accessor that mixes coordinates from before and after, or of the two representatives of a subgroup element, is right for most representations.",
     [CP + "curve_point_xtw.go", CP + "curve_point_axtw.go", CP + "curve_point_doubleproj.go"],
     mech(("X_projective .. XYTZ_projective, X_affine .. XYT_affine, the decaf variants", CP + "curve_point_xtw.go"), ("the same", CP + "curve_point_axtw.go"), ("the same", CP + "curve_point_doubleproj.go")),
     note=CNOTE + "The Jacobi symbol is assumed to be some number and to leave its argument alone (trusted contract). ")

W = "bandersnatch/errorsWithData/"
WNOTE = ("Child nodes of a syntax tree, wrapped errors, fmt formatting, errors.Unwrap, the tokenizer and the parser are opaque deterministic functions in these proofs "
         "(induction over the tree and the error chain: every node type and the package's own error type satisfy the same contract); they are assumed not to panic and not to share storage with the caller. ")
prop("W01", "Error parameters are inherited, merged and deleted exactly as asked",
     "Creating an error from a base error takes over every parameter of the base and adds the new ones; for names present in both, the mode decides: keep the old value, take the new one (the default), or panic if the values differ. Deleting removes exactly the named parameter, queries (free functions and methods, also through ordinary error wrapping) report exactly the resulting parameters, neither the base error nor the passed map changes, later changes of passed or returned maps have no effect on any error, and adding or deleting on a nil error yields nil.",
     ["inputs", "histories"], "all base errors and chains, all parameter maps and names, all modes, all sequences of creation, addition and deletion steps",
     "Tests sample short histories; a mode that is ignored for one particular combination, a map shared between two errors, or a lookup that stops at the wrong error in a chain shows only in specific combinations.",
     [W + "modify_errors.go", W + "plainErrorWithParams.go", W + "dataOverride.go", W + "errorsWithData.go"],
     mech(("mergeMaps", W + "dataOverride.go"), ("NewErrorWithData_*, AddDataToError_*, DeleteParameterFromError*", W + "modify_errors.go"), ("makeErrorWithParametersCommon, newErrorWithData_map, deleteParameterFromError", W + "plainErrorWithParams.go"), ("GetParameter, HasParameter, GetData_map", W + "errorsWithData.go")),
     note=WNOTE + "Aliasing of two map arguments is not enumerated. NewErrorWithData_any_params and AddDataToError_*_params are thin wrappers covered by the replay only. ")
prop("W02", "Error messages are the documented interpolation of their string",
     "The message of an error is its interpolation string with every escape, parameter reference, condition and reference to the wrapped error replaced as documented: % uses the error's own parameters, $ those passed down by a wrapping error (its own if none are passed), $w passes them on and %w does not, conditions are decided by whether the parameter map is empty, and references to missing parameters or wrapped errors leave the documented marker. Producing a message never panics, appends nothing else, and for malformed strings adds the base error's message and all parameters.",
     ["inputs"], "all syntax trees of any depth, all parameter maps (own and passed), all wrapped errors",
     "Tests compare a list of fixed strings; which parameter map is used deep inside nested conditions and chains of wrapped errors, and the empty/nil map distinctions, have far too many combinations to sample.",
     [W + "formatting_interpolate.go", W + "plainErrorWithParams.go"],
     mech(("Interpolate (all node types), interpolate_helper", W + "formatting_interpolate.go"), ("handleSyntaxConditions", W + "formatting_interpolate.go"), ("Error, Error_interpolate", W + "plainErrorWithParams.go")),
     note=WNOTE + "The contracts start at the syntax tree; how a string becomes a tree is W04. ")
prop("W03", "Validation accepts an error exactly when its message would be complete",
     "ValidateSyntax succeeds exactly for interpolation strings that parse and use only allowed verbs, names and conditions. ValidateError_Final and ValidateError_Params succeed exactly if, in addition, every reference in every taken branch finds its parameter or a wrapped error that is itself valid and supports the reference; ValidateError_Base is the same without requiring parameters that a wrapping error may still pass. EnsureErrorsValid_* panic exactly if one of the errors fails the respective validation; the answer does not depend on which methods were called before.",
     ["inputs", "histories"], "all syntax trees, parameter maps, wrapped errors; any order of validation calls",
     "Tests validate a handful of fixed errors; a check skipped inside a nested condition or for one kind of wrapped error passes them.",
     [W + "formatting_interpolate.go", W + "plainErrorWithParams.go", W + "validate.go"],
     mech(("handleSyntaxConditions", W + "formatting_interpolate.go"), ("VerifyParameters_direct, VerifyParameters_passed", W + "formatting_interpolate.go"), ("ValidateSyntax, ValidateError_Final/_Base/_Params", W + "plainErrorWithParams.go"), ("EnsureErrorsValid_*", W + "validate.go")),
     note=WNOTE)
prop("W04", "Interpolation strings are parsed by the documented grammar",
     "Every string is either accepted with exactly the structure the documented grammar gives it (escapes, %% , parameter references with optional verb, nested conditions, %w and $w), or reported as malformed by ValidateSyntax and by a parse error inside the message. No string makes creating, validating or printing an error panic.",
     ["inputs"], "all strings (decided for all concatenations of up to 5, thorough 6, of 13 pieces, and random longer ones)",
     "The parser is a state machine with error recovery; the tests run fixed strings through it, and errors in nested conditions (as found: a crash on parse errors at depth two) need particular combinations.",
     [W + "formatting_tokenize.go", W + "formatting_parse.go"],
     mech(("tokenizeInterpolationString", W + "formatting_tokenize.go"), ("make_ast", W + "formatting_parse.go"), ("append_ast, remove_last, squash_list, make_invalid", W + "formatting_parse.go")),
     note="BOUNDED: tokenizer (regexp) and parser (closures, gotos, stack of interfaces) are out of the verifier's reach and checked exhaustively up to the stated length against an independent reference; only the tree-building functions are proved. ",
     level="other", technique="contracts on the tree-building functions (gvc), bounded exhaustive check of tokenizer and parser standing in")
prop("W05", "Struct view and map view of error parameters agree",
     "A struct type with fields A, B, ... stands for the parameters named A, B, ...: HasData and the conversion functions accept an error exactly if each field's parameter is present with that very type (for interface fields: assignable; nil for nilable types), and adding a struct sets exactly these parameters. When missing data is to be filled in, exactly the missing parameters are added with zero values and nothing else changes, wrong types are still refused, and the field name checks answer exactly whether the names occur.",
     ["inputs"], "all suitable struct types, all parameter maps, all modes",
     "Tests use a few struct types; nil values, interface-typed and shadowed fields, and the difference between missing and wrong data need specific combinations.",
     [W + "params_to_data.go", W + "dataOverride.go", W + "validate.go", W + "modify_errors.go"],
     mech(("ensureCanMakeStructFromParameters, makeStructFromMap", W + "params_to_data.go"), ("fillMapFromStruct", W + "dataOverride.go"), ("CheckParameterForStruct, CheckParametersForStruct_all, CheckIsSubtype", W + "validate.go"), ("HasData, GetData_struct", W + "errorsWithData.go"), ("AsErrorWithData", W + "modify_errors.go")),
     note=WNOTE + "The list of fields of a struct type (reflection) is opaque in the proofs; makeStructFromMap and GetData_struct write through reflection and are covered by the replay only. ")
