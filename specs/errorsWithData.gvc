// Error messages with parameters: interpolation, validation, parameter maps.
package bandersnatch/errorsWithData

// Children of a syntax tree node, wrapped errors and library predicates are
// opaque, deterministic functions (for child nodes: the induction hypothesis,
// every node type has its own contract below).
oracle bandersnatch/errorsWithData.(ast_I).Interpolate
oracle mut bandersnatch/errorsWithData.(ast_I).handleSyntaxConditions
oracle bandersnatch/errorsWithData.(ast_I).VerifyParameters_direct
oracle bandersnatch/errorsWithData.(ast_I).VerifyParameters_passed
oracle bandersnatch/errorsWithData.(ErrorInterpolater).Error_interpolate
oracle bandersnatch/errorsWithData.(ErrorInterpolater).ValidateError_Params
oracle bandersnatch/errorsWithData.(ErrorInterpolater).ValidateError_Base
oracle bandersnatch/errorsWithData.(ErrorWithData_any).HasParameter
oracle bandersnatch/errorsWithData.(ErrorWithData_any).GetParameter
oracle bandersnatch/errorsWithData.(ErrorWithData_any).GetData_map
oracle bandersnatch/errorsWithData.(ErrorWithData_any).ValidateSyntax
oracle bandersnatch/errorsWithData.(ErrorWithData_any).ValidateError_Final
oracle bandersnatch/errorsWithData.(ErrorWithData_any).ValidateError_Base
oracle bandersnatch/errorsWithData.(ErrorWithData_any).ValidateError_Params
oracle errors.Unwrap
oracle strings.ContainsRune
oracle go/token.IsIdentifier
oracle go/token.IsExported
oracle bandersnatch/errorsWithData.tokenizeInterpolationString
oracle bandersnatch/errorsWithData.make_ast
nonnil ast_I

pred mapsel(n) = n == "!m" || n == "!map" || n == "!parameters" || n == "!params"
pred flag(f, i) = mod(div(f, i), 2) == 1
pred out(n, d, p, e) = call("ast_I.Interpolate", n, d, p, e)
foldcat outs(l, k, d, p, e) = call("ast_I.Interpolate", l[k], d, p, e)

// ---------------------------------------------------------------- W02 interpolation

func (a ast_string) Interpolate(d, p, e, s)
  ensures str(s) == concat(old(str(s)), a)
  modifies *s
  property W02

func (a *v_ast_list) Interpolate(d, p, e, s)
  panics isnil(*a)
  ensures str(s) == concat(old(str(s)), outs(*a, d, p, e))
  modifies *s
  loop 1
    invariant str(s) == concat(old(str(s)), outs((*a)[:it], d, p, e))
  property W02

func (a *v_ast_fmtPercent) Interpolate(d, p, e, s)
  inlinecall internal/utils.ElementInList
  ensures !isnil(a.errorString) ==> str(s) == concat(old(str(s)), errmsg(a.errorString))
  ensures isnil(a.errorString) && mapsel(a.variableName) ==> str(s) == concat(old(str(s)), fmt(concat("%", a.formatString), d))
  ensures isnil(a.errorString) && !mapsel(a.variableName) && has(d, a.variableName) ==> str(s) == concat(old(str(s)), fmt(concat("%", a.formatString), get(d, a.variableName)))
  ensures isnil(a.errorString) && !mapsel(a.variableName) && !has(d, a.variableName) ==> str(s) == concat(old(str(s)), "%", a.formatString, "!<missing value>")
  modifies *s
  property W02

func (a *v_ast_fmtDollar) Interpolate(d, p, e, s)
  inlinecall internal/utils.ElementInList
  ensures !isnil(a.errorString) ==> str(s) == concat(old(str(s)), errmsg(a.errorString))
  ensures isnil(a.errorString) && mapsel(a.variableName) ==> str(s) == concat(old(str(s)), fmt(concat("%", a.formatString), p))
  ensures isnil(a.errorString) && !mapsel(a.variableName) && has(p, a.variableName) ==> str(s) == concat(old(str(s)), fmt(concat("%", a.formatString), get(p, a.variableName)))
  ensures isnil(a.errorString) && !mapsel(a.variableName) && !has(p, a.variableName) ==> str(s) == concat(old(str(s)), "$", a.formatString, "!<missing value>")
  modifies *s
  property W02

func (a *v_ast_condPercent) Interpolate(d, p, e, s)
  enum a.invalidParse 0 3
  panics !flag(a.invalidParse, 1) && a.condition != "m=0" && a.condition != "m>0"
  let pre = ite(flag(a.invalidParse, 2), concat("%!<INVALID CONDITION:", a.condition, ">"), "")
  ensures flag(a.invalidParse, 1) || (a.condition == "m=0" && len(d) == 0) || (a.condition == "m>0" && len(d) > 0) ==> str(s) == concat(old(str(s)), pre, out(a.child, d, p, e))
  ensures !flag(a.invalidParse, 1) && ((a.condition == "m=0" && len(d) != 0) || (a.condition == "m>0" && len(d) == 0)) ==> str(s) == concat(old(str(s)), pre)
  modifies *s
  property W02

func (a *v_ast_condDollar) Interpolate(d, p, e, s)
  enum a.invalidParse 0 3
  panics !flag(a.invalidParse, 1) && a.condition != "m=0" && a.condition != "m>0"
  let pre = ite(flag(a.invalidParse, 2), concat("$!<INVALID CONDITION:", a.condition, ">"), "")
  ensures flag(a.invalidParse, 1) || (a.condition == "m=0" && len(p) == 0) || (a.condition == "m>0" && len(p) > 0) ==> str(s) == concat(old(str(s)), pre, out(a.child, d, p, e))
  ensures !flag(a.invalidParse, 1) && ((a.condition == "m=0" && len(p) != 0) || (a.condition == "m>0" && len(p) == 0)) ==> str(s) == concat(old(str(s)), pre)
  modifies *s
  property W02

func (a ast_parentPercent) Interpolate(d, p, e, s)
  ensures isnil(e) ==> str(s) == concat(old(str(s)), "%w(<nil>)")
  ensures !isnil(e) ==> str(s) == concat(old(str(s)), errmsg(e))
  modifies *s
  property W02

func (a ast_parentDollar) Interpolate(d, p, e, s)
  ensures isnil(e) ==> str(s) == concat(old(str(s)), "$w(<nil>)")
  ensures !isnil(e) && implements(e, "ErrorInterpolater") ==> str(s) == concat(old(str(s)), call("ErrorInterpolater.Error_interpolate", e, p))
  ensures !isnil(e) && !implements(e, "ErrorInterpolater") ==> str(s) == concat(old(str(s)), "<$w is not supported by base error!>", errmsg(e))
  modifies *s
  property W02

pred synmsg(a) = !isnil(a.argumentError) || !isnil(a.parseError)

pred body(a, d, p, e) = ite(isnil(p), out(a.ast, d, d, e), out(a.ast, d, p, e))
pred diag1(a, e) = ite(synmsg(a) && !isnil(e), concat("\nBase error:\n", errmsg(e)), "")
pred diag2(a, d) = ite(synmsg(a) && len(d) != 0, concat("\nParameters in error:\n", fmt("%v", d)), "")
pred diag3(a, p) = ite(synmsg(a) && !isnil(p), concat("\nParameters from parent error:\n", fmt("%v", p)), "")

func (a *v_ast_root) Interpolate(d, p, e, s)
  panics isnil(a.ast)
  ensures str(s) == concat(old(str(s)), body(a, d, p, e), diag1(a, e), diag2(a, d), diag3(a, p))
  ensures a.syntaxHandled
  modifies *s, a.argumentError, a.syntaxHandled, trace()
  property W02

// ---------------------------------------------------------------- W03 validation

pred synres(n) = call("ast_I.handleSyntaxConditions", n)
foldcat synall(l, k) = called("ast_I.handleSyntaxConditions", l[k])
pred okdirect(n, d, e) = isnil(call("ast_I.VerifyParameters_direct", n, d, e))
pred okpassed(n, d, p, e) = isnil(call("ast_I.VerifyParameters_passed", n, d, p, e))

func (a *v_ast_root) handleSyntaxConditions() err
  panics isnil(a.ast)
  ensures a.syntaxHandled
  ensures same(err, a.argumentError)
  ensures old(a.syntaxHandled) ==> same(err, old(a.argumentError)) && trace() == old(trace())
  ensures !old(a.syntaxHandled) ==> same(err, synres(a.ast)) && trace() == concat(old(trace()), called("ast_I.handleSyntaxConditions", a.ast))
  modifies a.argumentError, a.syntaxHandled, trace()
  property W02 W03

func (a *v_ast_list) handleSyntaxConditions() err
  any k
  panics isnil(*a)
  ensures isnil(err) && 0 <= k && k < len(*a) ==> isnil(synres((*a)[k]))
  ensures !isnil(err) ==> some(j, 0 <= j && j < len(*a) && same(err, synres((*a)[j])))
  ensures trace() == concat(old(trace()), synall(*a))
  modifies trace()
  loop 1
    invariant isnil(err) && 0 <= k && k < it ==> isnil(synres((*a)[k]))
    invariant !isnil(err) ==> some(j, 0 <= j && j < it && same(err, synres((*a)[j])))
    invariant trace() == concat(old(trace()), synall((*a)[:it]))
  property W02 W03

func (a ast_string) handleSyntaxConditions() err
  ensures isnil(err)
  property W03

func (a ast_parentPercent) handleSyntaxConditions() err
  ensures isnil(err)
  property W03

func (a ast_parentDollar) handleSyntaxConditions() err
  ensures isnil(err)
  property W03

func (a *base_ast_fmt) handleSyntaxConditions() err
  inlinecall internal/utils.ElementInList
  panics !isnil(a.errorString) || a.variableName == ""
  let badverb = call("strings.ContainsRune", a.formatString, 37)
  let badname = !mapsel(a.variableName) && (a.variableName[0] == 33 || !(call("token.IsIdentifier", a.variableName) && call("token.IsExported", a.variableName)))
  ensures iff(isnil(err), !badverb && !badname)
  ensures iff(isnil(a.errorString), isnil(err))
  modifies a.errorString
  property W02 W03

func (a *base_ast_condition) handleSyntaxConditions() err
  enum a.invalidParse 0 3
  panics isnil(a.child)
  inlinecall internal/utils.ElementInList
  let known = a.condition == "m=0" || a.condition == "m>0"
  ensures known ==> same(err, synres(a.child)) && a.invalidParse == old(a.invalidParse)
  ensures !known ==> !isnil(err) && a.invalidParse == 3
  ensures trace() == concat(old(trace()), called("ast_I.handleSyntaxConditions", a.child))
  modifies a.invalidParse, trace()
  property W02 W03

func (a *v_ast_root) VerifyParameters_direct(d, e) err
  panics isnil(a.ast)
  ensures !isnil(a.parseError) ==> same(err, a.parseError)
  ensures isnil(a.parseError) && !isnil(a.argumentError) ==> same(err, a.argumentError)
  ensures isnil(a.parseError) && isnil(a.argumentError) ==> same(err, call("ast_I.VerifyParameters_direct", a.ast, d, e))
  ensures a.syntaxHandled
  modifies a.argumentError, a.syntaxHandled, trace()
  property W03

func (a *v_ast_root) VerifyParameters_passed(d, p, e) err
  panics isnil(a.ast) || isnil(p)
  ensures !isnil(a.parseError) ==> same(err, a.parseError)
  ensures isnil(a.parseError) && !isnil(a.argumentError) ==> same(err, a.argumentError)
  ensures isnil(a.parseError) && isnil(a.argumentError) ==> same(err, call("ast_I.VerifyParameters_passed", a.ast, d, p, e))
  ensures a.syntaxHandled
  modifies a.argumentError, a.syntaxHandled, trace()
  property W03

func (a *v_ast_list) VerifyParameters_direct(d, e) err
  any k
  panics isnil(*a)
  ensures isnil(err) && 0 <= k && k < len(*a) ==> okdirect((*a)[k], d, e)
  ensures !isnil(err) ==> some(j, 0 <= j && j < len(*a) && same(err, call("ast_I.VerifyParameters_direct", (*a)[j], d, e)))
  loop 1
    invariant 0 <= k && k < it ==> okdirect((*a)[k], d, e)
    invariant isnil(err)
  property W03

func (a *v_ast_list) VerifyParameters_passed(d, p, e) err
  any k
  panics isnil(*a)
  ensures isnil(err) && 0 <= k && k < len(*a) ==> okpassed((*a)[k], d, p, e)
  ensures !isnil(err) ==> some(j, 0 <= j && j < len(*a) && same(err, call("ast_I.VerifyParameters_passed", (*a)[j], d, p, e)))
  loop 1
    invariant 0 <= k && k < it ==> okpassed((*a)[k], d, p, e)
    invariant isnil(err)
  property W03

func (a ast_string) VerifyParameters_direct(d, e) err
  ensures isnil(err)
  property W03

func (a ast_string) VerifyParameters_passed(d, p, e) err
  ensures isnil(err)
  property W03

func (a *v_ast_fmtPercent) VerifyParameters_direct(d, e) err
  inlinecall internal/utils.ElementInList
  ensures iff(isnil(err), mapsel(a.variableName) || has(d, a.variableName))
  property W03

func (a *v_ast_fmtPercent) VerifyParameters_passed(d, p, e) err
  inlinecall internal/utils.ElementInList
  ensures iff(isnil(err), mapsel(a.variableName) || has(d, a.variableName))
  property W03

func (a *v_ast_fmtDollar) VerifyParameters_direct(d, e) err
  ensures isnil(err)
  property W03

func (a *v_ast_fmtDollar) VerifyParameters_passed(d, p, e) err
  inlinecall internal/utils.ElementInList
  ensures iff(isnil(err), mapsel(a.variableName) || has(p, a.variableName))
  property W03

func (a ast_parentPercent) VerifyParameters_direct(d, e) err
  ensures iff(isnil(err), !isnil(e) && implies(implements(e, "ErrorInterpolater"), isnil(call("ErrorInterpolater.ValidateError_Params", e, nil))))
  property W03

func (a ast_parentPercent) VerifyParameters_passed(d, p, e) err
  ensures iff(isnil(err), !isnil(e) && implies(implements(e, "ErrorInterpolater"), isnil(call("ErrorInterpolater.ValidateError_Params", e, nil))))
  property W03

func (a ast_parentDollar) VerifyParameters_direct(d, e) err
  ensures iff(isnil(err), !isnil(e) && implements(e, "ErrorInterpolater") && isnil(call("ErrorInterpolater.ValidateError_Base", e)))
  property W03

func (a ast_parentDollar) VerifyParameters_passed(d, p, e) err
  ensures iff(isnil(err), !isnil(e) && implements(e, "ErrorInterpolater") && isnil(call("ErrorInterpolater.ValidateError_Params", e, p)))
  property W03

pred holds(c, m) = (c == "m=0" && len(m) == 0) || (c == "m>0" && len(m) > 0)

func (a *v_ast_condPercent) VerifyParameters_direct(d, e) err
  enum a.invalidParse 0 3
  inlinecall internal/utils.ElementInList
  panics a.invalidParse != 0 || (a.condition != "m=0" && a.condition != "m>0")
  ensures holds(a.condition, d) ==> same(err, call("ast_I.VerifyParameters_direct", a.child, d, e))
  ensures !holds(a.condition, d) ==> isnil(err)
  property W03

func (a *v_ast_condPercent) VerifyParameters_passed(d, p, e) err
  enum a.invalidParse 0 3
  inlinecall internal/utils.ElementInList
  panics a.invalidParse != 0 || (a.condition != "m=0" && a.condition != "m>0")
  ensures holds(a.condition, d) ==> same(err, call("ast_I.VerifyParameters_passed", a.child, d, p, e))
  ensures !holds(a.condition, d) ==> isnil(err)
  property W03

func (a *v_ast_condDollar) VerifyParameters_direct(d, e) err
  ensures same(err, call("ast_I.VerifyParameters_direct", a.child, d, e))
  property W03

func (a *v_ast_condDollar) VerifyParameters_passed(d, p, e) err
  enum a.invalidParse 0 3
  inlinecall internal/utils.ElementInList
  panics a.invalidParse != 0 || (a.condition != "m=0" && a.condition != "m>0")
  ensures holds(a.condition, p) ==> same(err, call("ast_I.VerifyParameters_passed", a.child, d, p, e))
  ensures !holds(a.condition, p) ==> isnil(err)
  property W03

func (e *errorWithParameters_common) Error_interpolate(p) r
  panics isnil(e.parsedInterpolationString.ast)
  ensures r == concat(body(e.parsedInterpolationString, e.params, p, e.wrapped_error), diag1(e.parsedInterpolationString, e.wrapped_error), diag2(e.parsedInterpolationString, e.params), diag3(e.parsedInterpolationString, p))
  modifies e.parsedInterpolationString.argumentError, e.parsedInterpolationString.syntaxHandled, trace()
  property W02

func (e *errorWithParameters_common) Error() r
  panics isnil(e.parsedInterpolationString.ast)
  ensures r == concat(out(e.parsedInterpolationString.ast, e.params, e.params, e.wrapped_error), diag1(e.parsedInterpolationString, e.wrapped_error), diag2(e.parsedInterpolationString, e.params))
  modifies e.parsedInterpolationString.argumentError, e.parsedInterpolationString.syntaxHandled, trace()
  property W02

pred tree(e) = e.parsedInterpolationString
pred synerr(a, err) = (!isnil(a.parseError) && same(err, a.parseError)) || (isnil(a.parseError) && !isnil(a.argumentError) && same(err, a.argumentError))

func (e *errorWithParameters_common) ValidateSyntax() err
  panics isnil(e.parsedInterpolationString.parseError) && isnil(e.parsedInterpolationString.ast)
  ensures !isnil(old(e.parsedInterpolationString.parseError)) ==> same(err, old(e.parsedInterpolationString.parseError))
  ensures isnil(old(e.parsedInterpolationString.parseError)) ==> same(err, e.parsedInterpolationString.argumentError) && e.parsedInterpolationString.syntaxHandled
  modifies e.parsedInterpolationString.argumentError, e.parsedInterpolationString.syntaxHandled, trace()
  property W03

func (e *errorWithParameters_common) ValidateError_Final() err
  panics isnil(e.parsedInterpolationString.ast) || isnil(e.params)
  ensures !isnil(tree(e).parseError) ==> same(err, tree(e).parseError)
  ensures isnil(tree(e).parseError) && !isnil(tree(e).argumentError) ==> same(err, tree(e).argumentError)
  ensures isnil(tree(e).parseError) && isnil(tree(e).argumentError) ==> same(err, call("ast_I.VerifyParameters_passed", tree(e).ast, e.params, e.params, e.wrapped_error))
  ensures tree(e).syntaxHandled
  modifies e.parsedInterpolationString.argumentError, e.parsedInterpolationString.syntaxHandled, trace()
  property W03

func (e *errorWithParameters_common) ValidateError_Base() err
  panics isnil(e.parsedInterpolationString.ast)
  ensures !isnil(tree(e).parseError) ==> same(err, tree(e).parseError)
  ensures isnil(tree(e).parseError) && !isnil(tree(e).argumentError) ==> same(err, tree(e).argumentError)
  ensures isnil(tree(e).parseError) && isnil(tree(e).argumentError) ==> same(err, call("ast_I.VerifyParameters_direct", tree(e).ast, e.params, e.wrapped_error))
  ensures tree(e).syntaxHandled
  modifies e.parsedInterpolationString.argumentError, e.parsedInterpolationString.syntaxHandled, trace()
  property W03

func (e *errorWithParameters_common) ValidateError_Params(p) err
  panics isnil(e.parsedInterpolationString.ast) || (isnil(p) && isnil(e.params))
  ensures !isnil(tree(e).parseError) ==> same(err, tree(e).parseError)
  ensures isnil(tree(e).parseError) && !isnil(tree(e).argumentError) ==> same(err, tree(e).argumentError)
  ensures isnil(tree(e).parseError) && isnil(tree(e).argumentError) && isnil(p) ==> same(err, call("ast_I.VerifyParameters_passed", tree(e).ast, e.params, e.params, e.wrapped_error))
  ensures isnil(tree(e).parseError) && isnil(tree(e).argumentError) && !isnil(p) ==> same(err, call("ast_I.VerifyParameters_passed", tree(e).ast, e.params, p, e.wrapped_error))
  ensures tree(e).syntaxHandled
  modifies e.parsedInterpolationString.argumentError, e.parsedInterpolationString.syntaxHandled, trace()
  property W03

// ---------------------------------------------------------------- W01 parameters

func (e *errorWithParameters_common) Unwrap() r
  ensures same(r, e.wrapped_error)
  property W01

func (e *errorWithParameters_common) HasParameter(n) r
  ensures iff(r, has(e.params, n))
  property W01

func (e *errorWithParameters_common) GetParameter(n) v, ok
  ensures iff(ok, has(e.params, n))
  ensures has(e.params, n) ==> same(v, get(e.params, n))
  ensures !has(e.params, n) ==> isnil(v)
  property W01

func (e *errorWithParameters_common) GetData_map() r
  ensures fresh(r) && !isnil(r)
  ensures iff(has(r, K), has(e.params, K))
  ensures has(r, K) ==> same(get(r, K), get(e.params, K))
  loop 1
    invariant iff(has(ret, K), visited)
    invariant visited ==> same(get(ret, K), get(e.params, K))
  property W01

// the parameters of an arbitrary error: those of the first error of the chain
// that has parameters
pred withdata(e) = implements(e, "ErrorWithData_any")
rec hasp(e, n) bool = implies(isnil(e), !hasp(e, n)) && implies(!isnil(e) && withdata(e), iff(hasp(e, n), call("ErrorWithData_any.HasParameter", e, n))) && implies(!isnil(e) && !withdata(e), iff(hasp(e, n), hasp(call("errors.Unwrap", e), n)))
rec getp(e, n) any = implies(isnil(e), isnil(getp(e, n))) && implies(!isnil(e) && withdata(e), same(getp(e, n), call("ErrorWithData_any.GetParameter", e, n))) && implies(!isnil(e) && !withdata(e), same(getp(e, n), getp(call("errors.Unwrap", e), n)))
rec getpok(e, n) bool = implies(isnil(e), !getpok(e, n)) && implies(!isnil(e) && withdata(e), iff(getpok(e, n), call2("ErrorWithData_any.GetParameter", e, n))) && implies(!isnil(e) && !withdata(e), iff(getpok(e, n), getpok(call("errors.Unwrap", e), n)))
rec mhas(e, k) bool = implies(isnil(e), !mhas(e, k)) && implies(!isnil(e) && withdata(e), iff(mhas(e, k), has(call("ErrorWithData_any.GetData_map", e), k))) && implies(!isnil(e) && !withdata(e), iff(mhas(e, k), mhas(call("errors.Unwrap", e), k)))
rec mget(e, k) any = implies(!isnil(e) && withdata(e), same(mget(e, k), get(call("ErrorWithData_any.GetData_map", e), k))) && implies(!isnil(e) && !withdata(e), same(mget(e, k), mget(call("errors.Unwrap", e), k)))

func HasParameter(err, n) r
  ensures iff(r, hasp(err, n))
  loop 1
    invariant iff(hasp(err, n), hasp(errorChain, n))
  property W01

func GetParameter(err, n) v, ok
  ensures iff(ok, getpok(err, n))
  ensures same(v, getp(err, n))
  loop 1
    invariant iff(getpok(err, n), getpok(errorChain, n)) && same(getp(err, n), getp(errorChain, n))
  property W01

func GetData_map(err) r
  ensures fresh(r) && !isnil(r)
  ensures iff(has(r, K), mhas(err, K))
  ensures has(r, K) ==> same(get(r, K), mget(err, K))
  loop 1
    invariant iff(mhas(err, K), mhas(errorChain, K))
    invariant mhas(err, K) ==> same(mget(err, K), mget(errorChain, K))
  property W01

func mergeMaps(target, source, mode)
  requires !isnil(*target)
  panicsif mode.keep != 1 && mode.keep != 2 && mode.keep != 3 || mode.keep == 3 && somekey(Q, has(source, Q) && has(*target, Q) && !same(get(source, Q), get(*target, Q)))
  ensures iff(has(*target, K), old(has(*target, K)) || has(source, K))
  ensures mode.keep == 1 && has(source, K) ==> same(get(*target, K), get(source, K))
  ensures mode.keep == 1 && !has(source, K) && old(has(*target, K)) ==> same(get(*target, K), old(get(*target, K)))
  ensures mode.keep != 1 && old(has(*target, K)) ==> same(get(*target, K), old(get(*target, K)))
  ensures mode.keep != 1 && !old(has(*target, K)) && has(source, K) ==> same(get(*target, K), get(source, K))
  ensures mode.keep == 1 || mode.keep == 2 || mode.keep == 3
  ensures mode.keep == 3 && has(source, K) && old(has(*target, K)) ==> same(get(source, K), old(get(*target, K)))
  modifies elems(*target)
  loop 1
    invariant iff(has(*target, K), old(has(*target, K)) || visited)
    invariant visited ==> same(get(*target, K), get(source, K))
    invariant !visited && old(has(*target, K)) ==> same(get(*target, K), old(get(*target, K)))
  loop 2
    invariant iff(has(*target, K), old(has(*target, K)) || visited)
    invariant old(has(*target, K)) ==> same(get(*target, K), old(get(*target, K)))
    invariant !old(has(*target, K)) && visited ==> same(get(*target, K), get(source, K))
  loop 3
    invariant iff(has(*target, K), old(has(*target, K)) || visited)
    invariant old(has(*target, K)) ==> same(get(*target, K), old(get(*target, K)))
    invariant visited ==> same(get(*target, K), get(source, K))
  property W01

func makeErrorWithParametersCommon(baseError, interpolationString) r
  ensures same(r.wrapped_error, baseError)
  ensures same(r.parsedInterpolationString, call("make_ast", call("tokenizeInterpolationString", interpolationString)))
  ensures fresh(r.params) && !isnil(r.params)
  ensures iff(has(r.params, K), mhas(baseError, K))
  ensures has(r.params, K) ==> same(get(r.params, K), mget(baseError, K))
  property W01

func newErrorWithData_struct(baseError, interpolationString, data, mode) r
  any k
  panicsif true
  ensures fresh(r) && fresh(r.params) && !isnil(r.params)
  ensures same(r.wrapped_error, baseError)
  ensures same(r.parsedInterpolationString, call("make_ast", call("tokenizeInterpolationString", interpolationString)))
  ensures mode.keep == 1 || mode.keep == 2 || mode.keep == 3
  ensures 0 <= k && k < len(fields()) ==> has(r.params, fields()[k].Name)
  ensures mhas(baseError, K) ==> has(r.params, K)
  ensures has(r.params, K) ==> mhas(baseError, K) || isfield(K, len(fields()))
  ensures mode.keep != 1 && mhas(baseError, K) ==> same(get(r.params, K), mget(baseError, K))
  ensures mode.keep == 1 && mhas(baseError, K) ==> same(get(r.params, K), mget(baseError, K)) || fromfield(data, K, get(r.params, K), len(fields()))
  ensures mode.keep != 2 && 0 <= k && k < len(fields()) ==> fromfield(data, fields()[k].Name, get(r.params, fields()[k].Name), len(fields()))
  ensures !mhas(baseError, K) && has(r.params, K) ==> fromfield(data, K, get(r.params, K), len(fields()))
  property W01 W05

func deleteParameterFromError_any(baseError, interpolationString, n) r
  ensures same(r.wrapped_error, baseError)
  ensures same(r.parsedInterpolationString, call("make_ast", call("tokenizeInterpolationString", interpolationString)))
  ensures fresh(r) && fresh(r.params) && !isnil(r.params)
  ensures iff(has(r.params, K), mhas(baseError, K) && K != n)
  ensures has(r.params, K) ==> same(get(r.params, K), mget(baseError, K))
  property W01

// ---------------------------------------------------------------- W05 parameters as structs
// Reflection is opaque: the fields of StructType, their names and types, and
// the predicates of package reflect on types.
oracle internal/utils.TypeOfType
oracle internal/utils.GetReflectName
oracle internal/utils.IsNilable
oracle bandersnatch/errorsWithData.getStructMapConversionLookup
nonnil reflect.Type
oracle nonnil reflect.TypeOf
oracle reflect.(Type).Kind
oracle reflect.(Type).AssignableTo
oracle reflect.Zero
oracle reflect.(Value).Interface

pred fields() = call("getStructMapConversionLookup", call("utils.TypeOfType[StructType]"))
pred fielderr() = call2("getStructMapConversionLookup", call("utils.TypeOfType[StructType]"))
// v can be stored in a field of type t
pred fits(v, t) = ite(isnil(v), call("utils.IsNilable", t), ite(call("reflect.Type.Kind", t) == 20, call("reflect.Type.AssignableTo", call("reflect.TypeOf", v), t), same(call("reflect.TypeOf", v), t)))

// the zero value of a field
pred zeroOf(t) = call("reflect.Value.Interface", call("reflect.Zero", t))

func ensureCanMakeStructFromParameters(m, mode) err
  any k
  requires !isnil(*m)
  panicsif !isnil(fielderr()) || (mode.handleMissingData != 1 && mode.handleMissingData != 2)
  ensures isnil(err) && 0 <= k && k < len(fields()) ==> has(*m, fields()[k].Name)
  ensures isnil(err) && 0 <= k && k < len(fields()) ==> fits(get(*m, fields()[k].Name), fields()[k].Type) || (mode.handleMissingData == 1 && some(j, 0 <= j && j < len(fields()) && same(get(*m, fields()[k].Name), zeroOf(fields()[j].Type))))
  ensures old(has(*m, K)) ==> has(*m, K) && same(get(*m, K), old(get(*m, K)))
  ensures mode.handleMissingData == 2 ==> iff(has(*m, K), old(has(*m, K)))
  modifies elems(*m)
  loop 1
    invariant old(has(*m, K)) ==> has(*m, K) && same(get(*m, K), old(get(*m, K)))
    invariant mode.handleMissingData == 2 ==> iff(has(*m, K), old(has(*m, K)))
    invariant 0 <= k && k < it ==> has(*m, fields()[k].Name)
    invariant 0 <= k && k < it ==> fits(get(*m, fields()[k].Name), fields()[k].Type) || (mode.handleMissingData == 1 && some(j, 0 <= j && j < it && same(get(*m, fields()[k].Name), zeroOf(fields()[j].Type))))
  property W05

oracle nonnil reflect.ValueOf
oracle reflect.(Value).Elem
oracle reflect.(Value).FieldByIndex

pred fieldval(s, f) = call("reflect.Value.Interface", call("reflect.Value.FieldByIndex", call("reflect.Value.Elem", call("reflect.ValueOf", s)), f.Index))
// two fields share a name (excluded by getStructMapConversionLookup)
pred dupfields() = some(i, some(j, 0 <= i && i < j && j < len(fields()) && fields()[i].Name == fields()[j].Name))
pred clash(s, m) = some(j, 0 <= j && j < len(fields()) && old(has(m, fields()[j].Name)) && !same(old(get(m, fields()[j].Name)), fieldval(s, fields()[j])))
pred isfield(n, upto) = some(j, 0 <= j && j < upto && n == fields()[j].Name)
pred fromfield(s, n, v, upto) = some(j, 0 <= j && j < upto && n == fields()[j].Name && same(v, fieldval(s, fields()[j])))

func fillMapFromStruct(s, m, mode)
  any k
  panicsif !isnil(fielderr()) || (mode.keep != 1 && mode.keep != 2 && mode.keep != 3) || mode.keep == 3 && (clash(s, *m) || dupfields())
  ensures !isnil(*m)
  ensures mode.keep == 1 || mode.keep == 2 || mode.keep == 3
  ensures 0 <= k && k < len(fields()) ==> has(*m, fields()[k].Name)
  ensures has(*m, K) ==> old(has(*m, K)) || isfield(K, len(fields()))
  ensures old(has(*m, K)) ==> has(*m, K)
  ensures mode.keep != 1 && old(has(*m, K)) ==> same(get(*m, K), old(get(*m, K)))
  ensures mode.keep == 1 && old(has(*m, K)) ==> same(get(*m, K), old(get(*m, K))) || fromfield(s, K, get(*m, K), len(fields()))
  ensures mode.keep != 2 && 0 <= k && k < len(fields()) ==> fromfield(s, fields()[k].Name, get(*m, fields()[k].Name), len(fields()))
  ensures !old(has(*m, K)) && has(*m, K) ==> fromfield(s, K, get(*m, K), len(fields()))
  modifies *m
  loop 1
    invariant !isnil(*m)
    invariant 0 <= k && k < it ==> fromfield(s, fields()[k].Name, get(*m, fields()[k].Name), it) && has(*m, fields()[k].Name)
    invariant has(*m, K) ==> old(has(*m, K)) || isfield(K, it)
    invariant old(has(*m, K)) ==> has(*m, K)
    invariant old(has(*m, K)) ==> same(get(*m, K), old(get(*m, K))) || fromfield(s, K, get(*m, K), it)
    invariant !old(has(*m, K)) && has(*m, K) ==> fromfield(s, K, get(*m, K), it)
  loop 2
    invariant !isnil(*m)
    invariant 0 <= k && k < it ==> has(*m, fields()[k].Name)
    invariant has(*m, K) ==> old(has(*m, K)) || isfield(K, it)
    invariant old(has(*m, K)) ==> has(*m, K)
    invariant old(has(*m, K)) ==> same(get(*m, K), old(get(*m, K)))
    invariant !old(has(*m, K)) && has(*m, K) ==> fromfield(s, K, get(*m, K), it)
  loop 3
    keys fields()[it].Name
    invariant !isnil(*m)
    invariant 0 <= k && k < it ==> has(*m, fields()[k].Name) && fromfield(s, fields()[k].Name, get(*m, fields()[k].Name), it)
    invariant has(*m, K) ==> old(has(*m, K)) || isfield(K, it)
    invariant old(has(*m, K)) ==> has(*m, K)
    invariant old(has(*m, K)) ==> same(get(*m, K), old(get(*m, K)))
    invariant !old(has(*m, K)) && has(*m, K) ==> fromfield(s, K, get(*m, K), it)
  property W05

func CheckParameterForStruct(n)
  any k
  panicsif !isnil(fielderr()) || !isfield(n, len(fields()))
  ensures isnil(fielderr()) && isfield(n, len(fields()))
  loop 1
    invariant 0 <= k && k < it ==> n != fields()[k].Name
  property W05

pred badfinal(e) = isnil(e) || !isnil(call("ErrorWithData_any.ValidateError_Final", e))
pred badbase(e) = isnil(e) || !isnil(call("ErrorWithData_any.ValidateError_Base", e))
pred badsyn(e) = isnil(e) || !isnil(call("ErrorWithData_any.ValidateSyntax", e))

func EnsureErrorsValid_Final(errs)
  panicsif some(j, 0 <= j && j < len(errs) && badfinal(errs[j]))
  any k
  ensures 0 <= k && k < len(errs) ==> !badfinal(errs[k])
  loop 1
    invariant numberOfErrors >= 0 && numberOfErrors <= it
    invariant numberOfErrors > 0 ==> some(j, 0 <= j && j < it && badfinal(errs[j]))
    invariant numberOfErrors == 0 && 0 <= k && k < it ==> !badfinal(errs[k])
  property W03

func EnsureErrorsValid_Base(errs)
  panicsif some(j, 0 <= j && j < len(errs) && badbase(errs[j]))
  any k
  ensures 0 <= k && k < len(errs) ==> !badbase(errs[k])
  loop 1
    invariant numberOfErrors >= 0 && numberOfErrors <= it
    invariant numberOfErrors > 0 ==> some(j, 0 <= j && j < it && badbase(errs[j]))
    invariant numberOfErrors == 0 && 0 <= k && k < it ==> !badbase(errs[k])
  property W03

func EnsureErrorsValid_Syntax(errs)
  panicsif some(j, 0 <= j && j < len(errs) && badsyn(errs[j]))
  any k
  ensures 0 <= k && k < len(errs) ==> !badsyn(errs[k])
  loop 1
    invariant numberOfErrors >= 0 && numberOfErrors <= it
    invariant numberOfErrors > 0 ==> some(j, 0 <= j && j < it && badsyn(errs[j]))
    invariant numberOfErrors == 0 && 0 <= k && k < it ==> !badsyn(errs[k])
  property W03


func newErrorWithData_map(baseError, interpolationString, mode, missing, params) r, err
  any k
  panicsif mode.keep != 1 && mode.keep != 2 && mode.keep != 3 || mode.keep == 3 && somekey(Q, has(params, Q) && mhas(baseError, Q) && !same(get(params, Q), mget(baseError, Q))) || !isnil(fielderr()) || (missing.handleMissingData != 1 && missing.handleMissingData != 2)
  ensures fresh(r) && fresh(r.params) && !isnil(r.params)
  ensures mode.keep == 1 || mode.keep == 2 || mode.keep == 3
  ensures same(r.wrapped_error, baseError)
  ensures same(r.parsedInterpolationString, call("make_ast", call("tokenizeInterpolationString", interpolationString)))
  ensures has(params, K) && (mode.keep == 1 || !mhas(baseError, K)) ==> has(r.params, K) && same(get(r.params, K), get(params, K))
  ensures mhas(baseError, K) && (mode.keep != 1 || !has(params, K)) ==> has(r.params, K) && same(get(r.params, K), mget(baseError, K))
  ensures mode.keep == 3 && has(params, K) && mhas(baseError, K) ==> same(get(params, K), mget(baseError, K))
  ensures missing.handleMissingData == 2 && has(r.params, K) ==> has(params, K) || mhas(baseError, K)
  ensures isnil(err) && 0 <= k && k < len(fields()) ==> has(r.params, fields()[k].Name)
  ensures isnil(err) && 0 <= k && k < len(fields()) ==> fits(get(r.params, fields()[k].Name), fields()[k].Type) || (missing.handleMissingData == 1 && some(j, 0 <= j && j < len(fields()) && same(get(r.params, fields()[k].Name), zeroOf(fields()[j].Type))))
  property W01 W05

func deleteParameterFromError(baseError, interpolationString, n, missing) r, err
  any k
  panicsif !isnil(fielderr()) || (missing.handleMissingData != 1 && missing.handleMissingData != 2)
  ensures fresh(r) && fresh(r.params) && !isnil(r.params)
  ensures same(r.wrapped_error, baseError)
  ensures same(r.parsedInterpolationString, call("make_ast", call("tokenizeInterpolationString", interpolationString)))
  ensures mhas(baseError, K) && K != n ==> has(r.params, K) && same(get(r.params, K), mget(baseError, K))
  ensures missing.handleMissingData == 2 && has(r.params, K) ==> mhas(baseError, K) && K != n
  ensures isnil(err) && 0 <= k && k < len(fields()) ==> has(r.params, fields()[k].Name)
  ensures isnil(err) && 0 <= k && k < len(fields()) ==> fits(get(r.params, fields()[k].Name), fields()[k].Type) || (missing.handleMissingData == 1 && some(j, 0 <= j && j < len(fields()) && same(get(r.params, fields()[k].Name), zeroOf(fields()[j].Type))))
  property W01 W05

func HasData(err) r
  any k
  keys fields()[k].Name
  panicsif !isnil(fielderr())
  ensures r && 0 <= k && k < len(fields()) ==> mhas(err, fields()[k].Name) && fits(mget(err, fields()[k].Name), fields()[k].Type)
  property W05

// ---------------------------------------------------------------- W06 exported constructors
oracle nonnil bandersnatch/errorsWithData.(ComparableMaker).AsComparable
pred unbox(e) = ite(!isnil(e) && implements(e, "ComparableMaker"), call("ComparableMaker.AsComparable", e), e)

func UnboxError(e) r
  ensures same(r, unbox(e))
  property W01

func DeleteParameterFromError_any(err, n) r
  ensures isnil(err) ==> isnil(r)
  ensures !isnil(err) ==> same(r.wrapped_error, unbox(err))
  ensures !isnil(err) && implements(unbox(err), "ErrorInterpolater") ==> same(r.parsedInterpolationString, call("make_ast", call("tokenizeInterpolationString", "$w")))
  ensures !isnil(err) && !implements(unbox(err), "ErrorInterpolater") ==> same(r.parsedInterpolationString, call("make_ast", call("tokenizeInterpolationString", "%w")))
  ensures !isnil(err) ==> iff(has(r.params, K), mhas(unbox(err), K) && K != n)
  ensures !isnil(err) ==> has(r.params, K) ==> same(get(r.params, K), mget(unbox(err), K))
  property W01

func DeleteParameterFromError(err, n, missing) r
  any k
  panicsif !isnil(err)
  ensures isnil(err) ==> isnil(r)
  ensures !isnil(err) ==> same(r.wrapped_error, unbox(err))
  ensures !isnil(err) && implements(unbox(err), "ErrorInterpolater") ==> same(r.parsedInterpolationString, call("make_ast", call("tokenizeInterpolationString", "$w")))
  ensures !isnil(err) && !implements(unbox(err), "ErrorInterpolater") ==> same(r.parsedInterpolationString, call("make_ast", call("tokenizeInterpolationString", "%w")))
  ensures !isnil(err) && mhas(unbox(err), K) && K != n ==> has(r.params, K) && same(get(r.params, K), mget(unbox(err), K))
  ensures !isnil(err) && missing.handleMissingData == 2 ==> has(r.params, K) ==> mhas(unbox(err), K) && K != n
  ensures !isnil(err) && 0 <= k && k < len(fields()) ==> has(r.params, fields()[k].Name)
  ensures !isnil(err) && 0 <= k && k < len(fields()) ==> fits(get(r.params, fields()[k].Name), fields()[k].Type) || (missing.handleMissingData == 1 && some(j, 0 <= j && j < len(fields()) && same(get(r.params, fields()[k].Name), zeroOf(fields()[j].Type))))
  property W01 W05

func NewErrorWithData_map(err, s, mode, missing, params) r
  any k
  panicsif true
  ensures !isnil(unbox(err)) || s != ""
  ensures mode.keep == 1 || mode.keep == 2 || mode.keep == 3
  ensures same(r.wrapped_error, unbox(err))
  ensures s != "" ==> same(r.parsedInterpolationString, call("make_ast", call("tokenizeInterpolationString", s)))
  ensures s == "" && implements(unbox(err), "ErrorInterpolater") ==> same(r.parsedInterpolationString, call("make_ast", call("tokenizeInterpolationString", "$w")))
  ensures s == "" && !implements(unbox(err), "ErrorInterpolater") ==> same(r.parsedInterpolationString, call("make_ast", call("tokenizeInterpolationString", "%w")))
  ensures has(params, K) && (mode.keep == 1 || !mhas(unbox(err), K)) ==> has(r.params, K) && same(get(r.params, K), get(params, K))
  ensures mhas(unbox(err), K) && (mode.keep != 1 || !has(params, K)) ==> has(r.params, K) && same(get(r.params, K), mget(unbox(err), K))
  ensures mode.keep == 3 && has(params, K) && mhas(unbox(err), K) ==> same(get(params, K), mget(unbox(err), K))
  ensures missing.handleMissingData == 2 && has(r.params, K) ==> has(params, K) || mhas(unbox(err), K)
  ensures 0 <= k && k < len(fields()) ==> has(r.params, fields()[k].Name)
  ensures 0 <= k && k < len(fields()) ==> fits(get(r.params, fields()[k].Name), fields()[k].Type) || (missing.handleMissingData == 1 && some(j, 0 <= j && j < len(fields()) && same(get(r.params, fields()[k].Name), zeroOf(fields()[j].Type))))
  property W01 W05

func NewErrorWithData_struct(err, s, data, mode) r
  any k
  panicsif true
  ensures !isnil(err) || s != ""
  ensures len(mode) <= 1
  ensures same(r.wrapped_error, unbox(err))
  ensures s != "" ==> same(r.parsedInterpolationString, call("make_ast", call("tokenizeInterpolationString", s)))
  ensures s == "" && implements(unbox(err), "ErrorInterpolater") ==> same(r.parsedInterpolationString, call("make_ast", call("tokenizeInterpolationString", "$w")))
  ensures s == "" && !implements(unbox(err), "ErrorInterpolater") ==> same(r.parsedInterpolationString, call("make_ast", call("tokenizeInterpolationString", "%w")))
  ensures 0 <= k && k < len(fields()) ==> has(r.params, fields()[k].Name)
  ensures mhas(unbox(err), K) ==> has(r.params, K)
  ensures has(r.params, K) ==> mhas(unbox(err), K) || isfield(K, len(fields()))
  ensures len(mode) == 1 && mode[0].keep != 1 && mhas(unbox(err), K) ==> same(get(r.params, K), mget(unbox(err), K))
  ensures len(mode) == 0 && 0 <= k && k < len(fields()) ==> fromfield(data, fields()[k].Name, get(r.params, fields()[k].Name), len(fields()))
  ensures len(mode) == 1 && mode[0].keep != 2 && 0 <= k && k < len(fields()) ==> fromfield(data, fields()[k].Name, get(r.params, fields()[k].Name), len(fields()))
  ensures mhas(unbox(err), K) ==> same(get(r.params, K), mget(unbox(err), K)) || fromfield(data, K, get(r.params, K), len(fields()))
  ensures !mhas(unbox(err), K) && has(r.params, K) ==> fromfield(data, K, get(r.params, K), len(fields()))
  property W01 W05

// the name-value list q gives the parameter n the value v
pred given(q, n, upto) = some(j, 0 <= j && j < upto && n == asstring(q[2*j]))
pred gives(q, n, v, upto) = some(j, 0 <= j && j < upto && n == asstring(q[2*j]) && same(v, q[2*j+1]))

func NewErrorWithData_params(err, s, mode, missing, params) r
  immutable params
  any k
  panicsif true
  ensures mod(len(params), 2) == 0
  ensures !isnil(unbox(err)) || s != ""
  ensures mode.keep == 1 || mode.keep == 2 || mode.keep == 3
  ensures same(r.wrapped_error, unbox(err))
  ensures s != "" ==> same(r.parsedInterpolationString, call("make_ast", call("tokenizeInterpolationString", s)))
  ensures s == "" && implements(unbox(err), "ErrorInterpolater") ==> same(r.parsedInterpolationString, call("make_ast", call("tokenizeInterpolationString", "$w")))
  ensures s == "" && !implements(unbox(err), "ErrorInterpolater") ==> same(r.parsedInterpolationString, call("make_ast", call("tokenizeInterpolationString", "%w")))
  ensures 0 <= k && 2*k < len(params) ==> isstring(params[2*k])
  ensures mode.keep != 1 && mhas(unbox(err), K) ==> has(r.params, K) && same(get(r.params, K), mget(unbox(err), K))
  ensures mhas(unbox(err), K) ==> has(r.params, K) && (same(get(r.params, K), mget(unbox(err), K)) || gives(params, K, get(r.params, K), div(len(params), 2)))
  ensures missing.handleMissingData == 2 && has(r.params, K) ==> mhas(unbox(err), K) || gives(params, K, get(r.params, K), div(len(params), 2))
  ensures missing.handleMissingData == 2 && 0 <= k && 2*k < len(params) && K == asstring(params[2*k]) && (mode.keep == 1 || !mhas(unbox(err), K)) ==> has(r.params, K) && gives(params, K, get(r.params, K), div(len(params), 2))
  ensures 0 <= k && k < len(fields()) ==> has(r.params, fields()[k].Name)
  loop 1
    invariant 0 <= i && i <= 1099511627776
    invariant i <= div(len(params), 2) && numberOfExtraParams == div(len(params), 2)
    invariant 0 <= k && k < i ==> isstring(params[2*k])
    invariant 0 <= k && k < i && K == asstring(params[2*k]) ==> has(params_map, K)
    invariant has(params_map, K) ==> gives(params, K, get(params_map, K), i)
    decreases numberOfExtraParams - i
  property W01 W05

func AddDataToError_map(err, mode, missing, params) r
  inlinecall bandersnatch/errorsWithData.NewErrorWithData_map
  any k
  panicsif !isnil(err)
  ensures isnil(err) ==> isnil(r)
  ensures !isnil(err) ==> same(r.wrapped_error, unbox(err))
  ensures !isnil(err) && implements(unbox(err), "ErrorInterpolater") ==> same(r.parsedInterpolationString, call("make_ast", call("tokenizeInterpolationString", "$w")))
  ensures !isnil(err) && !implements(unbox(err), "ErrorInterpolater") ==> same(r.parsedInterpolationString, call("make_ast", call("tokenizeInterpolationString", "%w")))
  ensures !isnil(err) && has(params, K) && (mode.keep == 1 || !mhas(unbox(err), K)) ==> has(r.params, K) && same(get(r.params, K), get(params, K))
  ensures !isnil(err) && mhas(unbox(err), K) && (mode.keep != 1 || !has(params, K)) ==> has(r.params, K) && same(get(r.params, K), mget(unbox(err), K))
  ensures !isnil(err) && missing.handleMissingData == 2 ==> has(r.params, K) ==> has(params, K) || mhas(unbox(err), K)
  ensures !isnil(err) && 0 <= k && k < len(fields()) ==> has(r.params, fields()[k].Name)
  ensures !isnil(err) && 0 <= k && k < len(fields()) ==> fits(get(r.params, fields()[k].Name), fields()[k].Type) || (missing.handleMissingData == 1 && some(j, 0 <= j && j < len(fields()) && same(get(r.params, fields()[k].Name), zeroOf(fields()[j].Type))))
  property W01 W05

func AddDataToError_struct(err, data, mode) r
  inlinecall bandersnatch/errorsWithData.NewErrorWithData_struct
  any k
  panicsif !isnil(err)
  ensures isnil(err) ==> isnil(r)
  ensures !isnil(err) ==> same(r.wrapped_error, unbox(err))
  ensures !isnil(err) && implements(unbox(err), "ErrorInterpolater") ==> same(r.parsedInterpolationString, call("make_ast", call("tokenizeInterpolationString", "$w")))
  ensures !isnil(err) && !implements(unbox(err), "ErrorInterpolater") ==> same(r.parsedInterpolationString, call("make_ast", call("tokenizeInterpolationString", "%w")))
  ensures !isnil(err) && len(mode) == 0 && 0 <= k && k < len(fields()) ==> fromfield(data, fields()[k].Name, get(r.params, fields()[k].Name), len(fields()))
  ensures !isnil(err) && mhas(unbox(err), K) ==> has(r.params, K)
  ensures !isnil(err) ==> has(r.params, K) ==> mhas(unbox(err), K) || isfield(K, len(fields()))
  ensures !isnil(err) && len(mode) == 1 && mode[0].keep != 1 && mhas(unbox(err), K) ==> same(get(r.params, K), mget(unbox(err), K))
  property W01 W05

func NewErrorWithData_any_map(err, s, mode, params) r
  inlinecall bandersnatch/errorsWithData.NewErrorWithData_map bandersnatch/errorsWithData.forgetStructType
  panicsif true
  ensures !isnil(unbox(err)) || s != ""
  ensures same(r.wrapped_error, unbox(err))
  ensures s != "" ==> same(r.parsedInterpolationString, call("make_ast", call("tokenizeInterpolationString", s)))
  ensures has(params, K) && (mode.keep == 1 || !mhas(unbox(err), K)) ==> has(r.params, K) && same(get(r.params, K), get(params, K))
  ensures mhas(unbox(err), K) && (mode.keep != 1 || !has(params, K)) ==> has(r.params, K) && same(get(r.params, K), mget(unbox(err), K))
  ensures has(r.params, K) ==> has(params, K) || mhas(unbox(err), K)
  property W01

func AddDataToError_any_map(err, mode, params) r
  inlinecall bandersnatch/errorsWithData.AddDataToError_map bandersnatch/errorsWithData.NewErrorWithData_map bandersnatch/errorsWithData.forgetStructType
  panicsif !isnil(err)
  ensures isnil(err) ==> isnil(r)
  ensures !isnil(err) ==> same(r.wrapped_error, unbox(err))
  ensures !isnil(err) && has(params, K) && (mode.keep == 1 || !mhas(unbox(err), K)) ==> has(r.params, K) && same(get(r.params, K), get(params, K))
  ensures !isnil(err) && mhas(unbox(err), K) && (mode.keep != 1 || !has(params, K)) ==> has(r.params, K) && same(get(r.params, K), mget(unbox(err), K))
  ensures !isnil(err) ==> has(r.params, K) ==> has(params, K) || mhas(unbox(err), K)
  property W01

func AsErrorWithData(err, missing) r, ok
  inlinecall bandersnatch/errorsWithData.NewErrorWithData_struct
  any k
  panicsif true
  ensures isnil(err) ==> ok && isnil(r)
  ensures ok && !isnil(err) ==> same(r.wrapped_error, unbox(err))
  ensures ok && !isnil(err) && implements(unbox(err), "ErrorInterpolater") ==> same(r.parsedInterpolationString, call("make_ast", call("tokenizeInterpolationString", "$w")))
  ensures ok && !isnil(err) && !implements(unbox(err), "ErrorInterpolater") ==> same(r.parsedInterpolationString, call("make_ast", call("tokenizeInterpolationString", "%w")))
  ensures ok && !isnil(err) && mhas(unbox(err), K) ==> has(r.params, K) && same(get(r.params, K), mget(unbox(err), K))
  ensures ok && !isnil(err) && missing.handleMissingData == 2 ==> has(r.params, K) ==> mhas(unbox(err), K)
  ensures ok && !isnil(err) && 0 <= k && k < len(fields()) ==> has(r.params, fields()[k].Name)
  ensures ok && !isnil(err) && 0 <= k && k < len(fields()) ==> fits(get(r.params, fields()[k].Name), fields()[k].Type) || (missing.handleMissingData == 1 && some(j, 0 <= j && j < len(fields()) && same(get(r.params, fields()[k].Name), zeroOf(fields()[j].Type))))
  property W01 W05

pred fieldsOf1() = call("getStructMapConversionLookup", call("utils.TypeOfType[StructType1]"))
pred fielderr1() = call2("getStructMapConversionLookup", call("utils.TypeOfType[StructType1]"))
pred fieldsOf2() = call("getStructMapConversionLookup", call("utils.TypeOfType[StructType2]"))
pred fielderr2() = call2("getStructMapConversionLookup", call("utils.TypeOfType[StructType2]"))

func CheckIsSubtype()
  any k
  panicsif true
  ensures isnil(fielderr1())
  ensures 0 <= k && k < len(fieldsOf1()) ==> some(j, 0 <= j && j < len(fieldsOf2()) && fieldsOf1()[k].Name == fieldsOf2()[j].Name)
  loop 1
    invariant 0 <= k && k < it ==> some(j, 0 <= j && j < len(fieldsOf2()) && fieldsOf1()[k].Name == fieldsOf2()[j].Name)
  property W05

func CheckParametersForStruct_all(names)
  immutable names
  any k k2
  panicsif true
  ensures isnil(fielderr())
  ensures len(names) == len(fields())
  ensures 0 <= k && k < len(fields()) ==> some(j, 0 <= j && j < len(names) && names[j] == fields()[k].Name)
  ensures 0 <= k && k < k2 && k2 < len(names) ==> names[k] != names[k2]
  loop 1
    invariant 0 <= i && i <= len(names)
    invariant 0 <= k && k < i && k < k2 && k2 < len(names) ==> names[k] != names[k2]
    decreases len(names) - i
  loop 2
    invariant i < j && j <= len(names)
    invariant k == i && k < k2 && k2 < j ==> names[k] != names[k2]
    decreases len(names) - j
  loop 3
    invariant 0 <= k && k < it ==> some(j, 0 <= j && j < len(names) && names[j] == fields()[k].Name)
  loop 4
    invariant !found
  property W05

// ---------------------------------------------------------------- W04 building blocks of the parser

func (al *v_ast_list) append_ast(a)
  any k
  ensures len(*al) == old(len(*al)) + 1
  ensures same((*al)[old(len(*al))], a)
  ensures 0 <= k && k < old(len(*al)) ==> same((*al)[k], old((*al)[k]))
  modifies *al, elems(*al)
  property W04

func (al *v_ast_list) remove_last()
  any k
  panics len(*al) == 0
  ensures len(*al) == old(len(*al)) - 1
  ensures 0 <= k && k < old(len(*al)) - 1 ==> same((*al)[k], old((*al)[k]))
  modifies *al
  property W04

func new_ast_list() r
  ensures len(*r) == 0 && !isnil(*r)
  property W04

func new_ast_string(s) r
  ensures r == s
  property W04

func (a *base_ast_fmt) set_formatString(s)
  ensures a.formatString == s
  modifies a.formatString
  property W04

func (a *base_ast_fmt) set_variableName(s)
  ensures a.variableName == s
  modifies a.variableName
  property W04

func (a *base_ast_condition) set_condition(s)
  ensures a.condition == s
  modifies a.condition
  property W04

func (a *base_ast_condition) make_invalid(flags)
  enum a.invalidParse 0 3
  enum flags 0 3
  ensures flag(a.invalidParse, 1) == (flag(old(a.invalidParse), 1) || flag(flags, 1))
  ensures flag(a.invalidParse, 2) == (flag(old(a.invalidParse), 2) || flag(flags, 2))
  ensures 0 <= a.invalidParse && a.invalidParse < 4
  modifies a.invalidParse
  property W04

func (a *base_ast_condition) is_valid() r
  ensures r == (a.invalidParse == 0)
  property W04

func (al *v_ast_list) squash_list() r
  ensures len(*al) == 1 ==> same(r, (*al)[0])
  ensures len(*al) != 1 ==> same(r, al)
  property W04

func (token specialToken) String() r
  enum token 0 10
  ensures token == tokenPercent ==> r == "%"
  ensures token == tokenDollar ==> r == "$"
  ensures token == tokenPercentCond ==> r == "%!"
  ensures token == tokenDollarCond ==> r == "$!"
  ensures token == tokenOpenBracket ==> r == "{"
  ensures token == tokenCloseBracket ==> r == "}"
  ensures token == tokenParentPercent ==> r == "%w"
  ensures token == tokenParentDollar ==> r == "$w"
  property W04
