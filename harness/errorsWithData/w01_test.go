package errorsWithData

import (
	"errors"
	"fmt"
	"testing"
)

type gvcS1 struct {
	Foo any
	Bar int
}
type gvcS2 struct{ Baz any }

func TestGvcW01(t *testing.T) {
	g := gvcStart(t)
	modes := []PreviousDataTreatment{PreferPreviousData, ReplacePreviousData, AssertDataIsNotReplaced}
	boxed := MakeErrorIncomparable(gvcBoxable{"boxed"})
	for i := g.iters(20000, 400000); i > 0; i-- {
		cur := gvcChain(g.rng, g.rng.Intn(3), false)
		if g.rng.Intn(8) == 0 {
			cur = &gvcRef{err: boxed, params: map[string]any{}, plain: "boxed"}
		}
		for n := 1 + g.rng.Intn(4); n > 0; n-- {
			mode := modes[g.rng.Intn(3)]
			own := gvcMap(g.rng)
			key := gvcKeys[g.rng.Intn(len(gvcKeys))]
			str := gvcPick(g.rng, "", "", "msg $w", "msg %w %{!m}", "x")
			op := g.rng.Intn(13)
			g.do(gvcS("operation ", op, " on ", cur, ", interpolation string ", fmt.Sprintf("%q", str), ", parameters ", own, ", key ", fmt.Sprintf("%q", key), ", mode ", mode), func() (ok bool, got string) {
				var nxt *gvcRef
				nxt, got = gvcStep(cur, op, mode, own, key, str)
				if got != "" {
					return false, got
				}
				if nxt != nil {
					cur = nxt
				}
				return true, ""
			})
			if i%7 == 0 && cur != nil && g.rng.Intn(3) == 0 {
				if m, ex := cur.msg(nil); ex {
					cur = &gvcRef{err: fmt.Errorf("wrap %w", cur.err), params: cur.params, plain: "wrap " + m}
				}
			}
		}
	}
}

type gvcBoxable struct{ s string }

func (e gvcBoxable) Error() string        { return e.s }
func (e gvcBoxable) Is(x error) bool      { return UnboxError(x) == e }
func (e gvcBoxable) CanMakeIncomparable() {}

// gvcMerge: reference of adding parameters; clash tells whether a different value is present.
func gvcMerge(old, own map[string]any, mode PreviousDataTreatment) (m map[string]any, clash bool) {
	m = gvcCopy(old)
	for k, v := range own {
		w, has := m[k]
		if has && w != v {
			clash = true
		}
		if !has || mode == ReplacePreviousData {
			m[k] = v
		}
	}
	return m, clash && mode == AssertDataIsNotReplaced
}

func gvcStep(cur *gvcRef, op int, mode PreviousDataTreatment, own map[string]any, key, str string) (r *gvcRef, bad string) {
	var base error
	old, hasOld := map[string]any{}, false
	if cur != nil {
		base, hasOld = cur.err, true
		old = cur.params
	}
	flat := []any{}
	for k, v := range own {
		if op == 2 || op == 8 {
			flat = append(flat, k, "overwritten")
		}
		flat = append(flat, k, v)
	}
	want, clash := gvcMerge(old, own, mode)
	wantPanic := clash
	ownBefore := gvcCopy(own)
	wantNil := false
	var res error
	var do func()
	set := func(e error, isNil bool) {
		if !isNil {
			res = e
		}
	}
	add := func() {
		str = ""
		wantNil = !hasOld
		wantPanic = wantPanic && hasOld
	}
	mk := func() { wantPanic = wantPanic || !hasOld && str == "" }
	switch op {
	case 0:
		mk()
		do = func() { e := NewErrorWithData_any_map(base, str, mode, own); set(e, e == nil) }
	case 1:
		mk()
		do = func() {
			e := NewErrorWithData_map[struct{}](base, str, mode, EnsureDataIsPresent, own)
			set(e, e == nil)
		}
	case 2:
		mk()
		do = func() { e := NewErrorWithData_any_params(base, str, mode, flat...); set(e, e == nil) }
	case 3:
		mk()
		do = func() {
			e := NewErrorWithData_params[struct{}](base, str, mode, MissingDataAsZero, flat...)
			set(e, e == nil)
		}
	case 4:
		mk()
		s := gvcS1{Foo: own["Foo"], Bar: len(own)}
		want, clash = gvcMerge(old, map[string]any{"Foo": s.Foo, "Bar": s.Bar}, mode)
		wantPanic = clash || !hasOld && str == ""
		do = func() { e := NewErrorWithData_struct(base, str, &s, mode); set(e, e == nil) }
	case 5:
		add()
		do = func() { e := AddDataToError_any_map(base, mode, own); set(e, e == nil) }
	case 6:
		add()
		do = func() {
			e := AddDataToError_map[struct{}](base, mode, EnsureDataIsPresent, own)
			set(e, e == nil)
		}
	case 7:
		add()
		do = func() { e := AddDataToError_any_params(base, mode, flat...); set(e, e == nil) }
	case 8:
		add()
		do = func() {
			e := AddDataToError_params[struct{}](base, mode, EnsureDataIsPresent, flat...)
			set(e, e == nil)
		}
	case 9:
		add()
		s := gvcS2{Baz: own["Baz"]}
		want, _ = gvcMerge(old, map[string]any{"Baz": s.Baz}, ReplacePreviousData)
		wantPanic = false
		do = func() { e := AddDataToError_struct(base, &s); set(e, e == nil) } // default mode
	case 10, 11:
		add()
		wantPanic = false
		want = gvcCopy(old)
		delete(want, key)
		do = func() {
			if op == 10 {
				e := DeleteParameterFromError_any(base, key)
				set(e, e == nil)
			} else {
				e := DeleteParameterFromError[struct{}](base, key, EnsureDataIsPresent)
				set(e, e == nil)
			}
		}
	}
	if op == 12 {
		add()
		wantPanic = false
		want = gvcCopy(old)
		do = func() {
			e, ok := AsErrorWithData[struct{}](base, EnsureDataIsPresent)
			if !ok {
				panic("AsErrorWithData fails")
			}
			set(e, e == nil)
		}
	}
	if p := gvcPanics(do); p != wantPanic {
		return nil, fmt.Sprint("panics: ", p, ", want ", wantPanic)
	}
	if hasOld && !gvcSameMap(GetData_map(base), old) {
		return nil, fmt.Sprint("parameters of the wrapped error changed to ", GetData_map(base))
	}
	if !gvcSameMap(own, ownBefore) {
		return nil, fmt.Sprint("the parameter map passed in changed to ", own)
	}
	if wantPanic {
		return nil, ""
	}
	if (res == nil) != wantNil {
		return nil, fmt.Sprint("result is nil: ", res == nil, ", want ", wantNil)
	}
	if res == nil {
		return nil, ""
	}
	for k := range own {
		own[k] = "changed afterwards"
	}
	own["Added"] = 1
	if got := GetData_map(res); !gvcSameMap(got, want) {
		return nil, fmt.Sprintf("parameters %v, want %v", got, want)
	} else {
		got["Foo"] = "changed afterwards"
		delete(got, "Bar")
	}
	for _, e := range []error{res, fmt.Errorf("outer: %w", res)} {
		for _, k := range gvcKeys {
			w, has := want[k]
			v, ok := GetParameter(e, k)
			if ok != has || v != w || HasParameter(e, k) != has {
				return nil, fmt.Sprintf("parameter %q: got %v (present: %v, HasParameter: %v), want %v (present: %v)", k, v, ok, HasParameter(e, k), w, has)
			}
		}
		if !gvcSameMap(GetData_map(e), want) {
			return nil, fmt.Sprintf("parameters %v, want %v", GetData_map(e), want)
		}
	}
	if u := errors.Unwrap(res); u != UnboxError(base) {
		return nil, fmt.Sprintf("wraps %v", u)
	}
	r = &gvcRef{own: true, text: str, base: cur, params: want, err: res}
	if str == "" {
		str = "%w"
		if cur.interpolates() {
			str = "$w"
		}
	}
	r.nodes, r.parsed = gvcParse(str)
	if w, ex := r.msg(nil); ex && res.Error() != w {
		return nil, fmt.Sprintf("message %q, want %q", res.Error(), w)
	}
	return r, ""
}

func TestGvcW01Misc(t *testing.T) {
	g := gvcStart(t)
	g.do(gvcS("nil errors"), func() (bool, string) {
		m := GetData_map(nil)
		_, ok := GetParameter(nil, "X")
		x, ok2 := AsErrorWithData[gvcS1](nil, EnsureDataIsPresent)
		return m != nil && len(m) == 0 && !ok && !HasParameter(nil, "X") && x == nil && ok2, "wrong answer for nil error"
	})
	for n, l := range [][]any{{"A"}, {"A", 1, "B"}, {1, 2}, {"A", 1, 2, 3}, {nil, 1}} {
		l := l
		g.do(gvcS("malformed parameter list ", n), func() (bool, string) {
			a := gvcPanics(func() { NewErrorWithData_any_params(nil, "x", ReplacePreviousData, l...) })
			b := gvcPanics(func() { NewErrorWithData_params[struct{}](nil, "x", ReplacePreviousData, EnsureDataIsPresent, l...) })
			c := gvcPanics(func() { AddDataToError_any_params(errors.New("y"), ReplacePreviousData, l...) })
			return a && b && c, "no panic"
		})
	}
	g.do(gvcS("repeated parameter names"), func() (bool, string) {
		e := NewErrorWithData_any_params(nil, "x", PreferPreviousData, "A", 1, "A", 2, "B", 3, "A", 4)
		return gvcSameMap(e.GetData_map(), map[string]any{"A": 4, "B": 3}), fmt.Sprint("parameters ", e.GetData_map())
	})
	g.do(gvcS("unset mode"), func() (bool, string) {
		return gvcPanics(func() {
			NewErrorWithData_any_map(nil, "x", PreviousDataTreatment{}, ParamMap{"A": 1})
		}), "no panic"
	})
	g.do(gvcS("two modes"), func() (bool, string) {
		return gvcPanics(func() {
			NewErrorWithData_struct(nil, "x", &gvcS2{}, ReplacePreviousData, ReplacePreviousData)
		}) && gvcPanics(func() {
			AddDataToError_struct(errors.New("x"), &gvcS2{}, ReplacePreviousData, ReplacePreviousData)
		}), "no panic"
	})
	g.do(gvcS("incomparable values without clash"), func() (bool, string) {
		e := NewErrorWithData_any_map(nil, "x", AssertDataIsNotReplaced, ParamMap{"A": []int{1}})
		f := NewErrorWithData_any_map(e, "", AssertDataIsNotReplaced, ParamMap{"B": []int{1}})
		return len(GetData_map(f)) == 2, fmt.Sprint("parameters ", GetData_map(f))
	})
	g.do(gvcS("deleted parameters stay deleted"), func() (bool, string) {
		e := NewErrorWithData_any_map(nil, "x", ReplacePreviousData, ParamMap{"A": 1, "B": nil})
		f := DeleteParameterFromError_any(DeleteParameterFromError_any(e, "A"), "B")
		f = NewErrorWithData_any_map(fmt.Errorf("y %w", f), "z", PreferPreviousData, ParamMap{"C": 1})
		return gvcSameMap(f.GetData_map(), map[string]any{"C": 1}) && !HasParameter(f, "B"), fmt.Sprint("parameters ", f.GetData_map())
	})
}
