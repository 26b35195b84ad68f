From aa9dad717fe503d62ba9c41e95a872acf8adbb38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:19 +0000
Subject: [PATCH 1/7] fix: Exponent.Neg negates its argument rather than the
 old value of the receiver

---
 bandersnatch/exponents/exponents.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/bandersnatch/exponents/exponents.go b/bandersnatch/exponents/exponents.go
index d6ddcbc..8f68c71 100644
--- a/bandersnatch/exponents/exponents.go
+++ b/bandersnatch/exponents/exponents.go
@@ -227,10 +227,10 @@ func (z *Exponent) Neg(x *Exponent) {
 		return
 	}
 	var borrow uint64
-	z.value[0], borrow = bits.Sub64(curveExponent_0, z.value[0], 0)
-	z.value[1], borrow = bits.Sub64(curveExponent_1, z.value[1], borrow)
-	z.value[2], borrow = bits.Sub64(curveExponent_2, z.value[2], borrow)
-	z.value[3], _ = bits.Sub64(curveExponent_3, z.value[3], borrow)
+	z.value[0], borrow = bits.Sub64(curveExponent_0, x.value[0], 0)
+	z.value[1], borrow = bits.Sub64(curveExponent_1, x.value[1], borrow)
+	z.value[2], borrow = bits.Sub64(curveExponent_2, x.value[2], borrow)
+	z.value[3], _ = bits.Sub64(curveExponent_3, x.value[3], borrow)
 }
 
 // SetZero sets the exponent value to 0
-- 
2.43.0


From ca937d39aae6173c5217dfa88067824d1706bc70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:20 +0000
Subject: [PATCH 2/7] fix: Exponent.ModuloP253 subtracts p253 from the
 exponent, not the other way around

---
 bandersnatch/exponents/exponents.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bandersnatch/exponents/exponents.go b/bandersnatch/exponents/exponents.go
index 8f68c71..f22d3fd 100644
--- a/bandersnatch/exponents/exponents.go
+++ b/bandersnatch/exponents/exponents.go
@@ -55,7 +55,7 @@ func (z *Exponent) ModuloP253() (ret Exponent) {
 	if z.isNormalized_Subgroup() {
 		ret = *z
 	} else {
-		ret.Sub(&p253Exponent, z)
+		ret.Sub(z, &p253Exponent)
 	}
 	return
 }
-- 
2.43.0


From c3f9f5cea3c8f254e74483987f130e4eb95157f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:56 +0000
Subject: [PATCH 3/7] fix: close all open conditions when a parse error occurs
 in an interpolation string

---
 bandersnatch/errorsWithData/formatting_parse.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bandersnatch/errorsWithData/formatting_parse.go b/bandersnatch/errorsWithData/formatting_parse.go
index d5fe6c7..a79913e 100644
--- a/bandersnatch/errorsWithData/formatting_parse.go
+++ b/bandersnatch/errorsWithData/formatting_parse.go
@@ -777,7 +777,7 @@ func make_ast(tokens tokenList) (ret ast_root, err error) {
 		// nodes of types ast_condPercent and ast_condDollar and causes
 		// the condition to be ignored, so the conditional interpolation is always evaluated.
 		// This is mostly to ensure that diagnostic is not hidden.
-		for i := 0; i < (stack.Len()/2)-1; i++ {
+		for stack.Len() > 2 {
 			_ = stack.Pop().(ast_list)
 			condNode := stack.Pop().(ast_cond)
 			condition := condNode.get_condition()
-- 
2.43.0


From 688ba93c2776c973e708a57afb7e93ef677c9603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:56 +0000
Subject: [PATCH 4/7] fix: ValidateError_Params(nil) uses the parameters of the
 error itself

---
 bandersnatch/errorsWithData/plainErrorWithParams.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bandersnatch/errorsWithData/plainErrorWithParams.go b/bandersnatch/errorsWithData/plainErrorWithParams.go
index b8bf691..cbd5747 100644
--- a/bandersnatch/errorsWithData/plainErrorWithParams.go
+++ b/bandersnatch/errorsWithData/plainErrorWithParams.go
@@ -251,5 +251,8 @@ func (e *errorWithParameters_common) ValidateError_Base() error {
 //
 // This method is required for [ValidateError_Base] or [ValidateError_Final] to recurse and part of the [ErrorInterpolater] interface.
 func (e *errorWithParameters_common) ValidateError_Params(params_passed ParamMap) error {
+	if params_passed == nil {
+		params_passed = e.params
+	}
 	return e.parsedInterpolationString.VerifyParameters_passed(e.params, params_passed, e.wrapped_error)
 }
-- 
2.43.0


From 61da57f55686a68aba0252c793515ee9131ea79e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:56 +0000
Subject: [PATCH 5/7] fix: syntax-check the interpolation strings inside
 conditions

---
 bandersnatch/errorsWithData/formatting_interpolate.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bandersnatch/errorsWithData/formatting_interpolate.go b/bandersnatch/errorsWithData/formatting_interpolate.go
index d4fcbfc..fc370f6 100644
--- a/bandersnatch/errorsWithData/formatting_interpolate.go
+++ b/bandersnatch/errorsWithData/formatting_interpolate.go
@@ -204,13 +204,14 @@ func (abase *base_ast_fmt) handleSyntaxConditions() error {
 //
 // For ast_cond, we just flag the conditional as invalid on failure.
 func (abase *base_ast_condition) handleSyntaxConditions() error {
+	// The child needs to be processed in any case, even if the condition itself is invalid.
+	childError := abase.child.handleSyntaxConditions()
 	if !validConditionString(abase.condition) {
 		// make_invalid(3) causes Interpolate to display children unconditionally && display an error message containing the condition.
 		abase.make_invalid(3)
 		return fmt.Errorf(ErrorPrefix+"invalid condition string: %s", abase.condition)
-	} else {
-		return nil
 	}
+	return childError
 }
 
 /**
-- 
2.43.0


From a75120b924b7b70fae92fce2892501a9b597f8f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:15 +0000
Subject: [PATCH 6/7] fix: validating an error accepts the map selectors such
 as %{!m} that interpolation supports

---
 bandersnatch/errorsWithData/formatting_interpolate.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/bandersnatch/errorsWithData/formatting_interpolate.go b/bandersnatch/errorsWithData/formatting_interpolate.go
index fc370f6..8a11ce6 100644
--- a/bandersnatch/errorsWithData/formatting_interpolate.go
+++ b/bandersnatch/errorsWithData/formatting_interpolate.go
@@ -348,6 +348,9 @@ func (a ast_string) VerifyParameters_passed(ParamMap, ParamMap, error) error {
 // VerifyParameters_direct for %fmtVerb{variableName} checks whether the paramter is present.
 func (a ast_fmtPercent) VerifyParameters_direct(parameters_direct ParamMap, _ error) (err error) {
 
+	if utils.ElementInList(a.variableName, validMapSelectors[:]) {
+		return nil // the map itself is always present
+	}
 	_, ok := parameters_direct[a.variableName]
 	if !ok {
 		return fmt.Errorf(ErrorPrefix+"Interpolations string contains variable name %s, which is not present in the error", a.variableName)
@@ -359,6 +362,9 @@ func (a ast_fmtPercent) VerifyParameters_direct(parameters_direct ParamMap, _ er
 func (a ast_fmtPercent) VerifyParameters_passed(parameters_direct ParamMap, _ ParamMap, _ error) (err error) {
 
 	// same as VerifyParameters_direct. We ignore the parameters_passed map
+	if utils.ElementInList(a.variableName, validMapSelectors[:]) {
+		return nil // the map itself is always present
+	}
 	_, ok := parameters_direct[a.variableName]
 	if !ok {
 		return fmt.Errorf(ErrorPrefix+"Interpolations string contains variable name %s, which is not present in the error", a.variableName)
@@ -376,6 +382,9 @@ func (a ast_fmtDollar) VerifyParameters_direct(_ ParamMap, _ error) error {
 // NOTE: we assume that parameters_passed is not nil. This is checked/handled at the root node.
 func (a ast_fmtDollar) VerifyParameters_passed(_ ParamMap, parameters_passed ParamMap, _ error) (err error) {
 
+	if utils.ElementInList(a.variableName, validMapSelectors[:]) {
+		return nil // the map itself is always present
+	}
 	_, ok := parameters_passed[a.variableName]
 	if !ok {
 		return fmt.Errorf(ErrorPrefix+"Interpolations string contains variable name %s, which is not present in the error", a.variableName)
-- 
2.43.0


From 628f86e122ca8942395b988ba2b1cc7b83ca83e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:07 +0000
Subject: [PATCH 7/7] fix: IsNilable holds for unsafe pointers, which can be
 nil

---
 internal/utils/reflect_type.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/utils/reflect_type.go b/internal/utils/reflect_type.go
index 1f7c3f2..85fc67b 100644
--- a/internal/utils/reflect_type.go
+++ b/internal/utils/reflect_type.go
@@ -36,7 +36,8 @@ func IsNilable(t reflect.Type) bool {
 		reflect.Chan,
 		reflect.Func,
 		reflect.Slice,
-		reflect.Map:
+		reflect.Map,
+		reflect.UnsafePointer:
 		return true
 	case reflect.Invalid:
 		panic("IsNilable called on invalid type")
-- 
2.43.0

