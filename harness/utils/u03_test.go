package utils

import (
	"fmt"
	"io"
	"reflect"
	"testing"
	"unsafe"
)

type gvcM struct{}

func (gvcM) A()                                  {}
func (gvcM) B(int, string) error                 { return nil }
func (*gvcM) C(any, io.Reader) (int, error)      { return 0, nil }
func (gvcM) D(x []int) (a *gvcM, b fmt.Stringer) { return }

type gvcNamedP unsafe.Pointer
type gvcNamedF func()
type gvcNamedI interface{ M() }

func TestGvcU03(t *testing.T) {
	g := gvcStart(t)
	kinds := map[bool][]reflect.Type{
		true: {TypeOfType[*int](), TypeOfType[any](), TypeOfType[error](), TypeOfType[chan int](), TypeOfType[<-chan int](), TypeOfType[func()](), TypeOfType[[]int](), TypeOfType[map[int]int](),
			TypeOfType[unsafe.Pointer](), TypeOfType[gvcNamedP](), TypeOfType[gvcNamedF](), TypeOfType[gvcNamedI](), TypeOfType[**gvcM]()},
		false: {TypeOfType[bool](), TypeOfType[int](), TypeOfType[int8](), TypeOfType[int16](), TypeOfType[int32](), TypeOfType[int64](), TypeOfType[uint](), TypeOfType[uint8](), TypeOfType[uint16](), TypeOfType[uint32](), TypeOfType[uint64](), TypeOfType[uintptr](),
			TypeOfType[float32](), TypeOfType[float64](), TypeOfType[complex64](), TypeOfType[complex128](), TypeOfType[string](), TypeOfType[[0]*int](), TypeOfType[gvcM](), TypeOfType[struct{ p *int }]()},
	}
	for want, l := range kinds {
		for _, ty := range l {
			want, ty := want, ty
			g.do(gvcS("IsNilable(", ty, ")"), func() (bool, string) { r := IsNilable(ty); return r == want, fmt.Sprint(r) })
		}
	}
	g.do(gvcS("IsTypeNilable"), func() (bool, string) {
		return IsTypeNilable[error]() && IsTypeNilable[unsafe.Pointer]() && !IsTypeNilable[int](), ""
	})
	all := []reflect.Type{TypeOfType[int](), TypeOfType[string](), TypeOfType[error](), TypeOfType[any](), TypeOfType[io.Reader](), TypeOfType[io.ReadWriter](), TypeOfType[[]int](), TypeOfType[*gvcM](), TypeOfType[fmt.Stringer](), TypeOfType[gvcM]()}
	pick := func(m int) (r []reflect.Type) {
		for n := g.rng.Intn(m); n > 0; n-- {
			r = append(r, all[g.rng.Intn(len(all))])
		}
		return
	}
	try := func(rt reflect.Type, name string, in, out []reflect.Type) {
		g.do(gvcS("DoesMethodExist(", rt, ", ", name, ", ", in, ", ", out, ")"), func() (bool, string) {
			m, want := rt.MethodByName(name)
			if want {
				want = m.Type.NumIn() == len(in)+1 && m.Type.NumOut() == len(out)
			}
			for i := 0; want && i < len(in); i++ {
				want = in[i].AssignableTo(m.Type.In(i + 1))
			}
			for i := 0; want && i < len(out); i++ {
				want = m.Type.Out(i).AssignableTo(out[i])
			}
			r, reason := DoesMethodExist(rt, name, in, out)
			return r == want && (reason == "") == r, fmt.Sprint(r, " ", reason)
		})
	}
	rts := []reflect.Type{TypeOfType[gvcM](), TypeOfType[*gvcM]()}
	for _, rt := range rts {
		for i := 0; i < rt.NumMethod(); i++ {
			m := rt.Method(i)
			var in, out []reflect.Type
			for j := 1; j < m.Type.NumIn(); j++ {
				in = append(in, m.Type.In(j))
			}
			for j := 0; j < m.Type.NumOut(); j++ {
				out = append(out, m.Type.Out(j))
			}
			try(rt, m.Name, in, out)
			for k := range in {
				for _, a := range all {
					in2 := append([]reflect.Type{}, in...)
					in2[k] = a
					try(rt, m.Name, in2, out)
				}
			}
			for k := range out {
				for _, a := range all {
					out2 := append([]reflect.Type{}, out...)
					out2[k] = a
					try(rt, m.Name, in, out2)
				}
			}
			try(rt, m.Name, append(in, all[0]), out)
			try(rt, m.Name, in, append(out, all[0]))
			if len(in) > 0 {
				try(rt, m.Name, in[1:], out)
			}
			if len(out) > 0 {
				try(rt, m.Name, in, out[1:])
			}
		}
	}
	for i := 0; i < g.iters(2000, 100000); i++ {
		try(rts[g.rng.Intn(2)], []string{"A", "B", "C", "D", "E", ""}[g.rng.Intn(6)], pick(4), pick(4))
	}
}
