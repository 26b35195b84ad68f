package errorsWithData

import (
	"fmt"
	"strings"
	"testing"
)

// Exhaustive over all concatenations of at most n pieces.
func TestGvcW04(t *testing.T) {
	g := gvcStart(t)
	pieces := []string{"A", "{", "}", "%", "$", "%!", "$!m>0", "%w", "$w", `\%`, `\`, "!m", "%v{A}"}
	n := g.iters(5, 6)
	base := gvcOwn(nil, "<${A}>", map[string]any{"A": 7})
	var rec func(s string, n int)
	rec = func(s string, n int) {
		if s != "" {
			gvcOne(g, base, s)
		}
		if n > 0 {
			for _, p := range pieces {
				rec(s+p, n-1)
			}
		}
	}
	rec("", n)
	for i := g.iters(20000, 500000); i > 0; i-- {
		s := gvcString(g.rng, 3, i%2 == 0)
		if i%3 == 0 {
			s = gvcBreak(g.rng, s)
		}
		if i%50 == 0 {
			s += "\xff\xfe%{A}"
		}
		if s != "" {
			gvcOne(g, base, s)
		}
	}
}

func gvcOne(g *gvcG, base *gvcRef, s string) {
	g.do(func() string { return fmt.Sprintf("interpolation string %q", s) }, func() (bool, string) {
		e := gvcOwn(base, s, map[string]any{"A": 8})
		err := e.err.(ErrorWithData_any).ValidateSyntax()
		if (err == nil) != e.okSyntax() {
			return false, fmt.Sprintf("ValidateSyntax reports %v, want success: %v", err, e.okSyntax())
		}
		for _, p := range []ParamMap{nil, {"A": 9}, {}} {
			m := e.err.(ErrorWithData_any).Error_interpolate(p)
			if w, exact := e.msg(p); exact && gvcStrip(m) != w {
				return false, fmt.Sprintf("message for passed parameters %v: %q, want %q", p, m, w)
			}
			if !e.parsed && (!strings.Contains(m, "PARSE-ERROR") || !strings.Contains(m, "\nBase error:\n<7>")) {
				return false, fmt.Sprintf("the message %q does not report the parse error", m)
			}
		}
		return true, ""
	})
}
