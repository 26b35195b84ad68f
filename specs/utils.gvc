package internal/utils
oracle reflect.(Type).Kind

func UIntarrayToInt(z) (res)
  ensures big(res) == U(z)
  ensures fresh(res)
  modifies nothing
  property U01

func BigIntToUIntArray(x) (res)
  panics big(x) < 0 || big(x) >= pow2(256)
  ensures U(res) == big(x)
  modifies nothing
  property U01

func InitIntFromString(input) (r)
  panics !isnumber(input)
  ensures big(r) == bigparse(input)
  ensures fresh(r)
  modifies nothing
  property U01

// the kinds of reflect.Kind that have a nil value (the constants of package reflect)
pred nilableKind(k) = k == 18 || k == 19 || k == 20 || k == 21 || k == 22 || k == 23 || k == 26
func IsNilable(t) (r)
  requires !isnil(t)
  panics call("reflect.Type.Kind", t) == 0
  ensures iff(r, nilableKind(call("reflect.Type.Kind", t)))
  modifies nothing
  property U03

func Identity(x) (r)
  ensures same(r, x)
  modifies nothing
  property U02

func AddressOfCopy(in) (r)
  ensures same(*r, in)
  ensures fresh(r)
  modifies nothing
  property U02

func CompareSlices(x, y) (r)
  any k
  ensures r ==> iff(isnil(x), isnil(y))
  ensures r ==> len(x) == len(y)
  ensures r && 0 <= k && k < len(x) ==> same(x[k], y[k])
  ensures !r ==> isnil(x) && !isnil(y) || !isnil(x) && isnil(y) || len(x) != len(y) || some(j, 0 <= j && j < len(x) && !same(x[j], y[j]))
  modifies nothing
  loop 1
    invariant 0 <= i && i <= len(x)
    invariant 0 <= k && k < i ==> same(x[k], y[k])
    decreases len(x) - i
  property U02

func ElementInList(element, list, normalizer) (r)
  any k
  slicelen normalizer 0
  ensures !r && 0 <= k && k < len(list) ==> !same(list[k], element)
  ensures r ==> some(j, 0 <= j && j < len(list) && same(list[j], element))
  modifies nothing
  loop 2
    invariant 0 <= k && k < it ==> !same(list[k], element)
  property U02

func ElementInList(element, list, normalizer) (r)
  any k
  slicelen normalizer 1
  ensures !r && 0 <= k && k < len(list) ==> !same(app(normalizer[0], list[k]), app(normalizer[0], element))
  ensures r ==> some(j, 0 <= j && j < len(list) && same(app(normalizer[0], list[j]), app(normalizer[0], element)))
  modifies nothing
  loop 1
    invariant 0 <= k && k < it ==> !same(app(normalizer[0], list[k]), app(normalizer[0], old(element)))
    invariant same(element, app(normalizer[0], old(element)))
  property U02

func ElementInList(element, list, normalizer) (r)
  slicelen normalizer 2
  panics true
  property U02

func ConcatenateListsWithoutDuplicates(list1, list2, normalizer) (r)
  any k m
  slicelen normalizer 0
  ensures 0 <= k && k < len(list1) ==> some(j, 0 <= j && j < len(r) && same(r[j], list1[k]))
  ensures 0 <= k && k < len(list2) ==> some(j, 0 <= j && j < len(r) && same(r[j], list2[k]))
  ensures 0 <= k && k < m && m < len(r) ==> !same(r[k], r[m])
  ensures 0 <= k && k < len(r) ==> some(j, 0 <= j && j < len(list1) && same(r[k], list1[j])) || some(j, 0 <= j && j < len(list2) && same(r[k], list2[j]))
  ensures fresh(r)
  modifies nothing
  loop 5
    invariant 0 <= k && k < it ==> some(j, 0 <= j && j < len(ret) && same(ret[j], list1[k]))
    invariant 0 <= k && k < m && m < len(ret) ==> !same(ret[k], ret[m])
    invariant 0 <= k && k < len(ret) ==> some(j, 0 <= j && j < len(list1) && same(ret[k], list1[j]))
  loop 6
    invariant 0 <= k && k < it ==> !same(ret[k], val)
  loop 7
    invariant 0 <= k && k < len(list1) ==> some(j, 0 <= j && j < len(ret) && same(ret[j], list1[k]))
    invariant 0 <= k && k < it ==> some(j, 0 <= j && j < len(ret) && same(ret[j], list2[k]))
    invariant 0 <= k && k < m && m < len(ret) ==> !same(ret[k], ret[m])
    invariant 0 <= k && k < len(ret) ==> some(j, 0 <= j && j < len(list1) && same(ret[k], list1[j])) || some(j, 0 <= j && j < len(list2) && same(ret[k], list2[j]))
  loop 8
    invariant 0 <= k && k < it ==> !same(ret[k], val)
  property U02

func ConcatenateListsWithoutDuplicates(list1, list2, normalizer) (r)
  any k m
  slicelen normalizer 1
  ensures 0 <= k && k < len(list1) ==> some(j, 0 <= j && j < len(r) && same(app(normalizer[0], r[j]), app(normalizer[0], list1[k])))
  ensures 0 <= k && k < len(list2) ==> some(j, 0 <= j && j < len(r) && same(app(normalizer[0], r[j]), app(normalizer[0], list2[k])))
  ensures 0 <= k && k < m && m < len(r) ==> !same(app(normalizer[0], r[k]), app(normalizer[0], r[m]))
  ensures 0 <= k && k < len(r) ==> some(j, 0 <= j && j < len(list1) && same(r[k], list1[j])) || some(j, 0 <= j && j < len(list2) && same(r[k], list2[j]))
  ensures fresh(r)
  modifies nothing
  loop 1
    invariant 0 <= k && k < it ==> some(j, 0 <= j && j < len(ret) && same(app(normalizer[0], ret[j]), app(normalizer[0], list1[k])))
    invariant 0 <= k && k < m && m < len(ret) ==> !same(app(normalizer[0], ret[k]), app(normalizer[0], ret[m]))
    invariant 0 <= k && k < len(ret) ==> some(j, 0 <= j && j < len(list1) && same(ret[k], list1[j]))
  loop 2
    invariant 0 <= k && k < it ==> !same(app(normalizer[0], ret[k]), app(normalizer[0], val))
  loop 3
    invariant 0 <= k && k < len(list1) ==> some(j, 0 <= j && j < len(ret) && same(app(normalizer[0], ret[j]), app(normalizer[0], list1[k])))
    invariant 0 <= k && k < it ==> some(j, 0 <= j && j < len(ret) && same(app(normalizer[0], ret[j]), app(normalizer[0], list2[k])))
    invariant 0 <= k && k < m && m < len(ret) ==> !same(app(normalizer[0], ret[k]), app(normalizer[0], ret[m]))
    invariant 0 <= k && k < len(ret) ==> some(j, 0 <= j && j < len(list1) && same(ret[k], list1[j])) || some(j, 0 <= j && j < len(list2) && same(ret[k], list2[j]))
  loop 4
    invariant 0 <= k && k < it ==> !same(app(normalizer[0], ret[k]), app(normalizer[0], val))
  property U02

func ConcatenateListsWithoutDuplicates(list1, list2, normalizer) (r)
  slicelen normalizer 2
  panics true
  property U02

func CompareMaps(x, y) (r)
  ensures r ==> iff(isnil(x), isnil(y))
  ensures r ==> len(x) == len(y)
  ensures r && has(x, K) ==> has(y, K) && same(get(x, K), get(y, K))
  ensures !r ==> isnil(x) && !isnil(y) || !isnil(x) && isnil(y) || len(x) != len(y) || somekey(Q, has(x, Q) && (!has(y, Q) || !same(get(x, Q), get(y, Q))))
  modifies nothing
  loop 1
    invariant visited ==> has(y, K) && same(get(x, K), get(y, K))
  property U02

func CompareParamMaps(x, y) (r)
  ensures r ==> iff(isnil(x), isnil(y))
  ensures r ==> len(x) == len(y)
  ensures r && has(x, K) ==> has(y, K) && same(get(x, K), get(y, K))
  ensures !r ==> isnil(x) && !isnil(y) || !isnil(x) && isnil(y) || len(x) != len(y) || somekey(Q, has(x, Q) && (!has(y, Q) || !same(get(x, Q), get(y, Q))))
  modifies nothing
  note comparing interface values whose dynamic type is not comparable (a run-time panic in Go) is outside the contract
  loop 1
    invariant visited ==> has(y, K) && same(get(x, K), get(y, K))
  property U02

func AssertSliceEquals(x, y)
  any k
  ensures !isnil(x)
  ensures len(x) == len(y)
  ensures 0 <= k && k < len(x) ==> same(x[k], y[k])
  panicsif isnil(x) || len(x) != len(y) || some(j, 0 <= j && j < len(x) && !same(x[j], y[j]))
  modifies nothing
  loop 1
    invariant 0 <= k && k < it ==> same(x[k], y[k])
  property U02

oracle reflect.(Type).MethodByName
oracle reflect.(Type).NumIn
oracle reflect.(Type).NumOut
oracle reflect.(Type).In
oracle reflect.(Type).Out
oracle reflect.(Type).AssignableTo
oracle internal/utils.GetReflectName
pred methodOf(t, n) = call("reflect.Type.MethodByName", t, n).Type
func DoesMethodExist(receiverType, methodName, inputs, outputs) (good, reason)
  any k
  requires !isnil(receiverType)
  ensures good ==> call2("reflect.Type.MethodByName", receiverType, methodName)
  ensures good ==> call("reflect.Type.NumIn", methodOf(receiverType, methodName)) == len(inputs) + 1
  ensures good ==> call("reflect.Type.NumOut", methodOf(receiverType, methodName)) == len(outputs)
  ensures good && 0 <= k && k < len(inputs) ==> call("reflect.Type.AssignableTo", inputs[k], call("reflect.Type.In", methodOf(receiverType, methodName), k + 1))
  ensures good && 0 <= k && k < len(outputs) ==> call("reflect.Type.AssignableTo", call("reflect.Type.Out", methodOf(receiverType, methodName), k), outputs[k])
  ensures !good && call2("reflect.Type.MethodByName", receiverType, methodName) && call("reflect.Type.NumIn", methodOf(receiverType, methodName)) == len(inputs) + 1 && call("reflect.Type.NumOut", methodOf(receiverType, methodName)) == len(outputs) ==> some(j, 0 <= j && j < len(inputs) && !call("reflect.Type.AssignableTo", inputs[j], call("reflect.Type.In", methodOf(receiverType, methodName), j + 1))) || some(j, 0 <= j && j < len(outputs) && !call("reflect.Type.AssignableTo", call("reflect.Type.Out", methodOf(receiverType, methodName), j), outputs[j]))
  panicsif true
  modifies nothing
  loop 1
    invariant 0 <= k && k < it ==> call("reflect.Type.AssignableTo", inputs[k], call("reflect.Type.In", methodOf(receiverType, methodName), k + 1))
  loop 2
    invariant 0 <= k && k < it ==> call("reflect.Type.AssignableTo", call("reflect.Type.Out", methodOf(receiverType, methodName), k), outputs[k])
  property U03

oracle nonnil internal/utils.(ToIntConvertible).ToBigInt
func IsEqualAsBigInt(x, y) (r)
  requires !isnil(x) && !isnil(y)
  ensures iff(r, big(call("ToIntConvertible.ToBigInt", x)) == big(call("ToIntConvertible.ToBigInt", y)))
  modifies nothing
  property U01
