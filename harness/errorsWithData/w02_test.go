package errorsWithData

import (
	"fmt"
	"strings"
	"testing"
)

func TestGvcW02(t *testing.T) {
	g := gvcStart(t)
	for i := g.iters(12000, 400000); i > 0; i-- {
		depth := 1 + g.rng.Intn(3)
		var e *gvcRef
		for e == nil || !e.own {
			e = gvcChain(g.rng, depth, i%3 == 0)
		}
		passed := gvcMap(g.rng)
		g.do(gvcS("Error() of ", e), func() (bool, string) {
			x := e.err.(ErrorWithData_any)
			for round := 0; round < 2; round++ {
				if w, exact := e.msg(nil); exact && gvcStrip(x.Error()) != w {
					return false, fmt.Sprintf("got %q, want %q", x.Error(), w)
				} else if exact && gvcStrip(x.Error_interpolate(nil)) != w {
					return false, fmt.Sprintf("Error_interpolate(nil): got %q, want %q", x.Error_interpolate(nil), w)
				}
				for _, p := range []ParamMap{passed, {}} {
					p0 := gvcCopy(p)
					if w, exact := e.msg(p); exact && gvcStrip(x.Error_interpolate(p)) != w {
						return false, fmt.Sprintf("Error_interpolate(%v): got %q, want %q", p, x.Error_interpolate(p), w)
					}
					if !gvcSameMap(p, p0) {
						return false, "Error_interpolate changed the parameters passed to it"
					}
				}
			}
			return gvcSameMap(x.GetData_map(), e.params), "the parameters of the error changed"
		})
	}
	// strings outside of the language: the message names everything needed for diagnosis
	for i := g.iters(3000, 60000); i > 0; i-- {
		s := gvcBreak(g.rng, gvcString(g.rng, 2, false))
		if _, ok := gvcParse(s); ok || s == "" {
			continue
		}
		base := gvcOwn(nil, "base %{Foo} text", map[string]any{"Foo": "basevalue"})
		e := gvcOwn(base, s, map[string]any{"Bar": "barvalue"})
		g.do(gvcS("Error() of ", e), func() (bool, string) {
			m := e.err.Error()
			if !strings.Contains(m, "\nBase error:\nbase basevalue text") || !strings.Contains(m, fmt.Sprintf("\nParameters in error:\n%v", e.params)) || strings.Contains(m, "Parameters from parent") {
				return false, fmt.Sprintf("the message %q lacks diagnostics (or has too many)", m)
			}
			p := map[string]any{"Baz": 1}
			m2 := e.err.(ErrorWithData_any).Error_interpolate(p)
			return strings.HasSuffix(m2, fmt.Sprintf("\nParameters from parent error:\n%v", p)), fmt.Sprintf("message %q lacks the parameters passed to it", m2)
		})
	}
}
