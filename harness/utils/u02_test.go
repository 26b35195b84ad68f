package utils

import (
	"fmt"
	"testing"
)

func TestGvcU02(t *testing.T) {
	g := gvcStart(t)
	mk := func(max int) []int {
		if g.rng.Intn(8) == 0 {
			return nil
		}
		r := make([]int, g.rng.Intn(6))
		for i := range r {
			r[i] = g.rng.Intn(max)
		}
		return r
	}
	in := func(x int, l []int, f func(int) int) bool {
		for _, y := range l {
			if f(y) == f(x) {
				return true
			}
		}
		return false
	}
	for i := 0; i < g.iters(6000, 300000); i++ {
		x, y := mk(5), mk(5)
		if g.rng.Intn(3) == 0 && x != nil {
			y = append([]int{}, x...)
			if len(y) > 0 && g.rng.Intn(2) == 0 {
				y[g.rng.Intn(len(y))]++
			}
		}
		e := g.rng.Intn(5)
		desc := gvcS(fmt.Sprintf("x=%#v y=%#v e=%d", x, y, e))
		xc, yc := append([]int{}, x...), append([]int{}, y...)
		g.do(desc, func() (bool, string) {
			eq := (x == nil) == (y == nil) && fmt.Sprint(x) == fmt.Sprint(y)
			if CompareSlices(x, y) != eq {
				return false, "CompareSlices wrong"
			}
			eqElem := x != nil && fmt.Sprint(x) == fmt.Sprint(y)
			if gvcPanics(func() { AssertSliceEquals(x, y...) }) == eqElem {
				return false, "AssertSliceEquals: panic or absence of panic is wrong"
			}
			for nm, f := range map[string]func(int) int{"none": nil, "half": func(a int) int { return a / 2 }, "const": func(int) int { return 7 }, "neg": func(a int) int { return -a }} {
				var norm []func(int) int
				h := f
				if f != nil {
					norm = append(norm, f)
				} else {
					h = func(a int) int { return a }
				}
				if ElementInList(e, x, norm...) != in(e, x, h) {
					return false, "ElementInList wrong with normalizer " + nm
				}
				r := ConcatenateListsWithoutDuplicates(x, y, norm...)
				for _, a := range append(append([]int{}, x...), y...) {
					if !in(a, r, h) {
						return false, fmt.Sprintf("ConcatenateListsWithoutDuplicates lost %d (normalizer %s): %v", a, nm, r)
					}
				}
				for k, a := range r {
					if in(a, r[:k], h) {
						return false, fmt.Sprintf("ConcatenateListsWithoutDuplicates kept a duplicate %d (normalizer %s): %v", a, nm, r)
					}
					if !in(a, xc, func(a int) int { return a }) && !in(a, yc, func(a int) int { return a }) {
						return false, fmt.Sprintf("ConcatenateListsWithoutDuplicates invented %d (normalizer %s): %v", a, nm, r)
					}
				}
				for k := range r {
					r[k] = 99
				}
				if fmt.Sprint(x) != fmt.Sprint(xc) || fmt.Sprint(y) != fmt.Sprint(yc) {
					return false, "arguments changed or aliased"
				}
			}
			id := func(a int) int { return a }
			if !gvcPanics(func() { ElementInList(e, x, id, id) }) || !gvcPanics(func() { ConcatenateListsWithoutDuplicates(x, y, id, id) }) {
				return false, "two normalizers accepted"
			}
			p := AddressOfCopy(e)
			q := AddressOfCopy(e)
			*q = e + 1
			if *p != e || Identity(e) != e {
				return false, "AddressOfCopy or Identity wrong"
			}
			return true, ""
		})
		mm := func(l []int) (m map[int]int, a map[int]any) {
			if l == nil {
				return nil, nil
			}
			m, a = map[int]int{}, map[int]any{}
			for k, v := range l {
				m[k*(1+v/3)], a[k*(1+v/3)] = v, v
				if v == 4 {
					a[k*(1+v/3)] = nil
				}
				if v == 3 {
					a[k*(1+v/3)] = "3"
				}
			}
			return
		}
		mx, ax := mm(x)
		my, ay := mm(y)
		g.do(gvcS(fmt.Sprintf("%#v %#v %#v %#v", mx, my, ax, ay)), func() (bool, string) {
			if CompareMaps(mx, my) != (fmt.Sprintf("%#v", mx) == fmt.Sprintf("%#v", my)) {
				return false, "CompareMaps wrong"
			}
			if CompareParamMaps(ax, ay) != (fmt.Sprintf("%#v", ax) == fmt.Sprintf("%#v", ay)) {
				return false, "CompareParamMaps wrong"
			}
			return true, ""
		})
	}
}
