package errorsWithData

import (
	"errors"
	"fmt"
	"reflect"
	"testing"
)

type gvcIn struct {
	A int
	B string
}
type gvcOut struct {
	gvcIn
	C *int
	D error
}
type gvcShadow struct {
	gvcIn
	A bool
}
type gvcDeep struct {
	gvcShadow
	E []int
	B any
}
type (
	gvcSl    []int
	gvcNamed struct {
		A gvcSl
		B <-chan int
		C [2]int
		D map[string]int
	}
)
type gvcNest struct{ gvcIn }
type gvcAmb2 struct {
	gvcAmb1
	gvcNest
}
type gvcIface struct {
	A fmt.Stringer
	B any
	F func()
	G map[string]int
	H chan int
}
type gvcUnexp struct {
	A int
	b int
}
type gvcEmbPtr struct{ *gvcIn }
type gvcAmb1 struct{ A int }
type gvcAmb struct {
	gvcIn
	gvcAmb1
}
type gvcMyInt int

func (gvcMyInt) String() string { return "my" }

var gvcSome = 5

var gvcVals = []any{nil, 5, "s", true, gvcMyInt(3), &gvcSome, errors.New("x"), []int{1}, map[string]int{}, (*int)(nil), int8(5), make(chan int), func() {}, []int(nil), gvcSl{1}, gvcSl(nil), (<-chan int)(make(chan int)), [2]int{3, 4}, uintptr(4)}

var gvcNilable = map[reflect.Kind]bool{reflect.Pointer: true, reflect.Interface: true, reflect.Func: true, reflect.Map: true, reflect.Chan: true, reflect.Slice: true}

// gvcFields: name to type for the documented (visible) fields.
func gvcFits(f map[string]reflect.Type, m map[string]any) (missing, wrong bool) {
	for k, t := range f {
		v, has := m[k]
		switch {
		case !has:
			missing = true
		case v == nil:
			wrong = wrong || !gvcNilable[t.Kind()]
		case t.Kind() == reflect.Interface:
			wrong = wrong || !reflect.TypeOf(v).Implements(t)
		default:
			wrong = wrong || reflect.TypeOf(v) != t
		}
	}
	return
}

func gvcT[T any]() reflect.Type { var x *T; return reflect.TypeOf(x).Elem() }

// gvcSameVal: equality good for functions and incomparable values.
func gvcSameVal(a, b any) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	x, y := reflect.ValueOf(a), reflect.ValueOf(b)
	if x.Type() != y.Type() {
		return false
	}
	if x.Kind() == reflect.Func {
		return x.Pointer() == y.Pointer()
	}
	return reflect.DeepEqual(a, b)
}

func gvcTry[T any](g *gvcG, f map[string]reflect.Type, get func(T) map[string]any) {
	names := []string{}
	for k := range f {
		names = append(names, k)
	}
	typ := gvcT[T]()
	for i := g.iters(1500, 60000); i > 0; i-- {
		m := map[string]any{}
		miss := g.rng.Intn(3)
		for _, k := range []string{"A", "B", "C", "D", "E", "F", "G", "H", "Other"} {
			t, need := f[k]
			if !need && g.rng.Intn(2) == 0 || need && miss == 0 && g.rng.Intn(3) == 0 {
				continue
			}
			v := gvcVals[g.rng.Intn(len(gvcVals))]
			if need && g.rng.Intn(12) != 0 {
				for n := 0; n < 60; n++ {
					if mi, wr := gvcFits(map[string]reflect.Type{k: t}, map[string]any{k: v}); !mi && !wr {
						break
					}
					v = gvcVals[g.rng.Intn(len(gvcVals))]
				}
			}
			m[k] = v
		}
		missing, wrong := gvcFits(f, m)
		base := NewErrorWithData_any_map(nil, "msg", ReplacePreviousData, m)
		g.do(gvcS("struct ", typ, ", parameters ", fmt.Sprintf("%#v", m)), func() (bool, string) {
			if got := HasData[T](base); got != (!missing && !wrong) {
				return false, fmt.Sprint("HasData reports ", got)
			}
			same := func(what string, full map[string]any, e error) string {
				d := GetData_map(e)
				for k, v := range full {
					if w, ok := d[k]; !ok || !gvcSameVal(v, w) {
						return fmt.Sprintf("%s: parameter %q is %#v (present: %v), want %#v", what, k, w, ok, v)
					}
				}
				if len(d) != len(full) {
					return fmt.Sprintf("%s: parameters %v", what, d)
				}
				var s T
				if gvcPanics(func() { s = GetData_struct[T](e, EnsureDataIsPresent) }) {
					return what + ": GetData_struct panics"
				}
				for k, v := range get(s) {
					w := full[k]
					if w == nil {
						w = reflect.Zero(f[k]).Interface()
					}
					if !gvcSameVal(v, w) {
						return fmt.Sprintf("%s: struct field %s is %#v, want %#v", what, k, v, w)
					}
				}
				return ""
			}
			full := map[string]any{}
			for k, t := range f {
				full[k] = reflect.Zero(t).Interface()
			}
			for k, v := range m {
				full[k] = v
			}
			for _, c := range []struct {
				mode MissingDataTreatment
				ok   bool
				want map[string]any
			}{{EnsureDataIsPresent, !missing && !wrong, m}, {MissingDataAsZero, !wrong, full}} {
				var e ErrorWithData[T]
				var flat []any
				for k, v := range m {
					flat = append(flat, k, v)
				}
				for n, mk := range []func(){
					func() { e = NewErrorWithData_map[T](nil, "x", ReplacePreviousData, c.mode, m) },
					func() { e = NewErrorWithData_params[T](nil, "x", ReplacePreviousData, c.mode, flat...) },
					func() { e = AddDataToError_map[T](base, ReplacePreviousData, c.mode, ParamMap{}) },
					func() { e = AddDataToError_params[T](errors.New("y"), ReplacePreviousData, c.mode, flat...) },
					func() { e = DeleteParameterFromError[T](base, "nothing", c.mode) },
					func() {
						x, ok := AsErrorWithData[T](base, c.mode)
						if !ok {
							panic("no")
						}
						e = x
					},
				} {
					if p := gvcPanics(mk); p == c.ok {
						return false, fmt.Sprint("constructor ", n, " with ", c.mode, " fails: ", p)
					}
					if c.ok {
						if s := same(fmt.Sprint("constructor ", n, " with ", c.mode), c.want, e); s != "" {
							return false, s
						}
						s, s2 := e.GetData_struct(), GetData_struct[T](e, EnsureDataIsPresent)
						for k, v := range get(s) {
							if !gvcSameVal(v, get(s2)[k]) {
								return false, fmt.Sprint("GetData_struct: field ", k)
							}
						}
					}
				}
				if !c.ok {
					if _, ok := AsErrorWithData[T](base, c.mode); ok {
						return false, "AsErrorWithData succeeds"
					}
				}
				// retrieval from an error without promise
				var s T
				if p := gvcPanics(func() { s = GetData_struct[T](base, c.mode) }); p == c.ok {
					return false, fmt.Sprint("GetData_struct with ", c.mode, " panics: ", p)
				}
				if c.ok {
					for k, v := range get(s) {
						w := c.want[k]
						if w == nil {
							w = reflect.Zero(f[k]).Interface()
						}
						if !gvcSameVal(v, w) {
							return false, fmt.Sprintf("GetData_struct with %v: field %s is %#v, want %#v", c.mode, k, v, w)
						}
					}
				}
			}
			// errors without parameter support
			for n, pl := range []error{errors.New("p"), fmt.Errorf("w %w", base), fmt.Errorf("w %w", errors.New("p"))} {
				miss, bad, fullP := len(f) > 0, false, map[string]any{}
				for k, t := range f {
					fullP[k] = reflect.Zero(t).Interface()
				}
				if n == 1 {
					miss, bad, fullP = missing, wrong, full
				}
				for _, mode := range []MissingDataTreatment{EnsureDataIsPresent, MissingDataAsZero} {
					want := !bad && (mode == MissingDataAsZero || !miss)
					e, ok := AsErrorWithData[T](pl, mode)
					if ok != want {
						return false, fmt.Sprint("AsErrorWithData of a plain error with ", mode, ": ", ok)
					}
					var d ErrorWithData[T]
					if p := gvcPanics(func() { d = DeleteParameterFromError[T](pl, "nothing", mode) }); p == want {
						return false, fmt.Sprint("DeleteParameterFromError of a plain error with ", mode, " panics: ", p)
					}
					if want && mode == MissingDataAsZero {
						for _, x := range []ErrorWithData[T]{e, d} {
							m := GetData_map(x)
							for k, v := range fullP {
								if w, ok := m[k]; !ok || !gvcSameVal(v, w) {
									return false, fmt.Sprint("converted plain error: parameter ", k, " is ", w)
								}
							}
							if len(m) != len(fullP) || x.Error() != pl.Error() {
								return false, fmt.Sprint("converted plain error: ", m, x)
							}
						}
					}
				}
			}
			// deleting a parameter that the struct needs
			if !missing && !wrong && len(names) > 0 {
				k := names[g.rng.Intn(len(names))]
				if !gvcPanics(func() { DeleteParameterFromError[T](base, k, EnsureDataIsPresent) }) {
					return false, "deleting the needed parameter " + k + " does not panic"
				}
				z := DeleteParameterFromError[T](base, k, MissingDataAsZero)
				if v, ok := GetParameter(z, k); !ok || !gvcSameVal(v, reflect.Zero(f[k]).Interface()) {
					return false, fmt.Sprintf("deleted needed parameter %s is %v", k, v)
				}
				// writing a struct
				s := GetData_struct[T](base, EnsureDataIsPresent)
				w := NewErrorWithData_struct(nil, "x", &s)
				d := GetData_map(w)
				for k, v := range get(s) {
					if x, ok := d[k]; !ok || !gvcSameVal(x, v) {
						return false, fmt.Sprintf("NewErrorWithData_struct: parameter %s is %v, want %v", k, x, v)
					}
				}
				if len(d) != len(f) {
					return false, fmt.Sprintf("NewErrorWithData_struct: parameters %v", d)
				}
				other := ParamMap{names[0]: "other value"}
				o := NewErrorWithData_any_map(nil, "x", ReplacePreviousData, other)
				if !gvcPanics(func() { NewErrorWithData_struct(o, "x", &s, AssertDataIsNotReplaced) }) && !gvcSameVal(d[names[0]], other[names[0]]) {
					return false, "NewErrorWithData_struct replaces a different value although this was to be refused"
				}
				if v, _ := GetParameter(NewErrorWithData_struct(o, "x", &s, PreferPreviousData), names[0]); v != "other value" {
					return false, "NewErrorWithData_struct replaces the previous value"
				}
				if v, _ := GetParameter(AddDataToError_struct(o, &s), names[0]); !gvcSameVal(v, d[names[0]]) {
					return false, "AddDataToError_struct keeps the previous value"
				}
			}
			return true, ""
		})
	}
	// names
	g.do(gvcS("field checks for ", typ), func() (bool, string) {
		if StructSuitableForErrorsWithData[T]() != nil {
			return false, "not suitable"
		}
		for _, k := range []string{"A", "B", "C", "D", "E", "F", "G", "H", "Other", "", "a", "gvcIn"} {
			if _, ok := f[k]; gvcPanics(func() { CheckParameterForStruct[T](k) }) == ok {
				return false, "CheckParameterForStruct for " + k
			}
		}
		if gvcPanics(func() { CheckParametersForStruct_all[T](names) }) {
			return false, "CheckParametersForStruct_all rejects the right names"
		}
		for i := range names {
			less := append(append([]string{}, names[:i]...), names[i+1:]...)
			if !gvcPanics(func() { CheckParametersForStruct_all[T](less) }) {
				return false, "CheckParametersForStruct_all accepts a list without " + names[i]
			}
			dup := append(append([]string{}, names...), names[i])
			if !gvcPanics(func() { CheckParametersForStruct_all[T](dup) }) {
				return false, "CheckParametersForStruct_all accepts a duplicate of " + names[i]
			}
			dup2 := append([]string{}, names...)
			dup2[i] = "Zzz"
			if !gvcPanics(func() { CheckParametersForStruct_all[T](dup2) }) {
				return false, "CheckParametersForStruct_all accepts Zzz instead of " + names[i]
			}
		}
		if !gvcPanics(func() { CheckParametersForStruct_all[T](append([]string{"Zzz"}, names...)) }) {
			return false, "CheckParametersForStruct_all accepts an additional name"
		}
		return true, ""
	})
}

func TestGvcW05(t *testing.T) {
	g := gvcStart(t)
	ty := func(x ...any) map[string]reflect.Type {
		m := map[string]reflect.Type{}
		for i := 0; i < len(x); i += 2 {
			m[x[i].(string)] = x[i+1].(reflect.Type)
		}
		return m
	}
	i, s := gvcT[int](), gvcT[string]()
	gvcTry(g, ty(), func(struct{}) map[string]any { return nil })
	gvcTry(g, ty("A", i, "B", s), func(x gvcIn) map[string]any { return map[string]any{"A": x.A, "B": x.B} })
	gvcTry(g, ty("A", i, "B", s, "C", gvcT[*int](), "D", gvcT[error]()), func(x gvcOut) map[string]any {
		return map[string]any{"A": x.A, "B": x.B, "C": x.C, "D": x.D}
	})
	gvcTry(g, ty("A", gvcT[bool](), "B", s), func(x gvcShadow) map[string]any { return map[string]any{"A": x.A, "B": x.B} })
	gvcTry(g, ty("A", gvcT[bool](), "B", gvcT[any](), "E", gvcT[[]int]()), func(x gvcDeep) map[string]any {
		return map[string]any{"A": x.A, "B": x.B, "E": x.E}
	})
	gvcTry(g, ty("A", gvcT[fmt.Stringer](), "B", gvcT[any](), "F", gvcT[func()](), "G", gvcT[map[string]int](), "H", gvcT[chan int]()), func(x gvcIface) map[string]any {
		return map[string]any{"A": x.A, "B": x.B, "F": x.F, "G": x.G, "H": x.H}
	})
	gvcTry(g, ty("A", gvcT[gvcSl](), "B", gvcT[<-chan int](), "C", gvcT[[2]int](), "D", gvcT[map[string]int]()), func(x gvcNamed) map[string]any {
		return map[string]any{"A": x.A, "B": x.B, "C": x.C, "D": x.D}
	})
	for n, f := range []func(){
		func() { HasData[gvcAmb2](nil) }, func() { HasData[gvcAmb2](nil) },
		func() { HasData[gvcUnexp](nil) }, func() { HasData[gvcEmbPtr](nil) }, func() { HasData[gvcAmb](nil) }, func() { HasData[int](nil) },
		func() { NewErrorWithData_struct(nil, "x", &gvcUnexp{}) }, func() { AsErrorWithData[gvcAmb](errors.New("x"), MissingDataAsZero) },
		func() { GetData_struct[gvcUnexp](nil, MissingDataAsZero) }, func() { CheckParameterForStruct[gvcUnexp]("A") },
		func() { CheckIsSubtype[gvcOut, gvcIn]() }, func() { CheckIsSubtype[gvcUnexp, gvcIn]() },
		func() { CheckIsSubtype[struct{ Z int }, gvcIn]() },
	} {
		g.do(gvcS("unsuitable struct type, case ", n), func() (bool, string) { return gvcPanics(f), "no panic" })
	}
	for n, e := range []error{StructSuitableForErrorsWithData[gvcUnexp](), StructSuitableForErrorsWithData[gvcEmbPtr](), StructSuitableForErrorsWithData[gvcAmb](), StructSuitableForErrorsWithData[int](),
		StructSuitableForErrorsWithData[gvcAmb2](), StructSuitableForErrorsWithData[gvcAmb](), StructSuitableForErrorsWithData[gvcUnexp]()} {
		g.do(gvcS("unsuitable struct type, query ", n), func() (bool, string) { return e != nil, "reported as suitable" })
	}
	g.do(gvcS("subtypes"), func() (bool, string) {
		CheckIsSubtype[gvcIn, gvcOut]()
		CheckIsSubtype[gvcIn, gvcIn]()
		CheckIsSubtype[struct{}, gvcIn]()
		return true, ""
	})
}
