package errorsWithData

import (
	"fmt"
	"testing"
)

func TestGvcW03(t *testing.T) {
	g := gvcStart(t)
	for i := g.iters(15000, 400000); i > 0; i-- {
		var e *gvcRef
		for e == nil || !e.own {
			e = gvcChain(g.rng, 1+g.rng.Intn(3), i%4 == 0)
		}
		if i%10 == 0 {
			if s := gvcBreak(g.rng, gvcString(g.rng, 2, false)); s != "" {
				e = gvcOwn(e, s, gvcMap(g.rng))
			}
		}
		passed := gvcMap(g.rng)
		order := g.rng.Perm(6)
		g.do(gvcS("validating ", e, " (order ", order, ")"), func() (bool, string) {
			x := e.err.(ErrorWithData_any)
			bad := ""
			chk := func(name string, err error, want bool) {
				if bad == "" && (err == nil) != want {
					bad = fmt.Sprintf("%s reports %v, want success: %v", name, err, want)
				}
			}
			for _, o := range order {
				switch o {
				case 0:
					chk("ValidateSyntax", x.ValidateSyntax(), e.okSyntax())
				case 1:
					chk("ValidateError_Final", x.ValidateError_Final(), e.okParams(nil))
				case 2:
					chk("ValidateError_Base", x.ValidateError_Base(), e.okBase())
				case 3:
					chk("ValidateError_Params(nil)", x.ValidateError_Params(nil), e.okParams(nil))
				case 4:
					chk(fmt.Sprintf("ValidateError_Params(%v)", passed), x.ValidateError_Params(passed), e.okParams(passed))
				case 5:
					chk("ValidateError_Params(empty)", x.ValidateError_Params(ParamMap{}), e.okParams(ParamMap{}))
				}
			}
			return bad == "", bad
		})
		if i%5 == 0 {
			f := gvcOwn(e, "%{Foo}${Bar}", gvcMap(g.rng))
			g.do(gvcS("EnsureErrorsValid_* of [", e, ", ", f, "]"), func() (bool, string) {
				for n, l := range [][]*gvcRef{{}, {e}, {f}, {e, f}, {f, e}} {
					var x []ErrorWithData_any
					s, b, fi := true, true, true
					for _, r := range l {
						x = append(x, r.err.(ErrorWithData_any))
						s, b, fi = s && r.okSyntax(), b && r.okBase(), fi && r.okParams(nil)
					}
					if gvcPanics(func() { EnsureErrorsValid_Syntax(x...) }) == s {
						return false, fmt.Sprint("EnsureErrorsValid_Syntax panics: ", s, ", list ", n)
					}
					if gvcPanics(func() { EnsureErrorsValid_Base(x...) }) == b {
						return false, fmt.Sprint("EnsureErrorsValid_Base panics: ", b, ", list ", n)
					}
					if gvcPanics(func() { EnsureErrorsValid_Final(x...) }) == fi {
						return false, fmt.Sprint("EnsureErrorsValid_Final panics: ", fi, ", list ", n)
					}
				}
				return true, ""
			})
		}
	}
}
