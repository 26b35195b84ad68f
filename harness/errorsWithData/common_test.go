package errorsWithData

import (
	"errors"
	"fmt"
	"go/token"
	"math/rand"
	"regexp"
	"strings"
	"unicode/utf8"
)

func gvcS(x ...any) func() string {
	return func() string { return fmt.Sprint(x...) }
}

// ------------------------------------------------------------ reference: the documented language

// gvcTok: a literal (sp == "") or a special token.
type gvcTok struct{ sp, lit string }

func gvcTokens(s string) (r []gvcTok) {
	if !utf8.ValidString(s) {
		s = strings.ToValidUTF8(s, string(utf8.RuneError))
	}
	lit := func(x string) {
		if n := len(r); n > 0 && r[n-1].sp == "" {
			r[n-1].lit += x
			return
		}
		r = append(r, gvcTok{"", x})
	}
	for len(s) > 0 {
		switch {
		case len(s) > 1 && s[0] == '\\' && strings.IndexByte("%${}\\", s[1]) >= 0:
			lit(s[1:2])
			s = s[2:]
		case s[0] == '\\':
			lit("\\")
			s = s[1:]
		case strings.HasPrefix(s, "%%"):
			lit("%")
			s = s[2:]
		case s[0] == '%' || s[0] == '$':
			n := 1
			if len(s) > 1 && (s[1] == '!' || s[1] == 'w') {
				n = 2
			}
			r = append(r, gvcTok{s[:n], ""})
			s = s[n:]
		case s[0] == '{' || s[0] == '}':
			r = append(r, gvcTok{s[:1], ""})
			s = s[1:]
		default:
			lit(s[:1])
			s = s[1:]
		}
	}
	return
}

// gvcNode: 's' text, 'w' wrapped error, 'f' formatted parameter, 'c' condition.
type gvcNode struct {
	kind       byte
	pct        bool
	text, name string
	open       bool // the string is malformed inside of the condition
	kids       []gvcNode
}

// gvcParse returns the structure of a string; for malformed strings: what is still shown
// (everything before the error, the rest as plain text; conditions left open are shown unconditionally).
func gvcParse(s string) (r []gvcNode, ok bool) {
	r, t, ok := gvcSeq(gvcTokens(s), 0)
	for _, x := range t {
		r = append(r, gvcNode{kind: 's', text: x.sp + x.lit})
	}
	return r, ok
}

func gvcSeq(t []gvcTok, depth int) (r []gvcNode, rest []gvcTok, ok bool) {
	isLit := func() bool { return len(t) > 0 && t[0].sp == "" }
	isSp := func(s string) bool { return len(t) > 0 && t[0].sp == s }
	for len(t) > 0 {
		if t[0].sp == "}" {
			return r, t[1:], depth > 0
		}
		x := t[0]
		t = t[1:]
		got := x.sp
		fail := func() ([]gvcNode, []gvcTok, bool) {
			return append(r, gvcNode{kind: 's', text: got}), t, false
		}
		take := func() string {
			got += t[0].sp + t[0].lit
			t = t[1:]
			return got
		}
		switch x.sp {
		case "":
			r = append(r, gvcNode{kind: 's', text: x.lit})
		case "%w", "$w":
			r = append(r, gvcNode{kind: 'w', pct: x.sp[0] == '%'})
		case "%", "$":
			n := gvcNode{kind: 'f', pct: x.sp == "%", text: "v"}
			if isLit() {
				n.text = t[0].lit
				take()
				if !isSp("{") {
					return fail()
				}
				take()
				if !isLit() {
					got = got[:len(got)-1]
					return fail()
				}
			} else {
				if !isSp("{") {
					return fail()
				}
				t = t[1:]
				if !isLit() {
					return fail()
				}
				got += "{"
			}
			n.name = t[0].lit
			take()
			if !isSp("}") {
				return fail()
			}
			t = t[1:]
			r = append(r, n)
		case "%!", "$!":
			n := gvcNode{kind: 'c', pct: x.sp == "%!"}
			if !isLit() {
				return fail()
			}
			n.text = t[0].lit
			take()
			if !isSp("{") {
				return fail()
			}
			n.kids, t, ok = gvcSeq(t[1:], depth+1)
			n.open = !ok
			r = append(r, n)
			if !ok {
				return r, t, false
			}
		default: // {
			return r, t, false
		}
	}
	return r, t, depth == 0
}

func gvcIsSel(n string) bool  { return n == "!m" || n == "!map" || n == "!params" || n == "!parameters" }
func gvcCondOK(c string) bool { return c == "m=0" || c == "m>0" }
func gvcNameOK(n string) bool { return token.IsIdentifier(n) && token.IsExported(n) }

// gvcSyn: is every verb, name and condition allowed (also inside of conditions)?
func gvcSyn(l []gvcNode) bool {
	for _, n := range l {
		switch n.kind {
		case 'f':
			if strings.Contains(n.text, "%") || !gvcIsSel(n.name) && !gvcNameOK(n.name) {
				return false
			}
		case 'c':
			if !gvcCondOK(n.text) || !gvcSyn(n.kids) {
				return false
			}
		}
	}
	return true
}

// gvcStrip removes the reports of parse errors.
func gvcStrip(s string) string { return gvcErrTag.ReplaceAllString(s, "") }

var gvcErrTag = regexp.MustCompile(`<!PARSE-ERROR: [^>]*>`)

// ------------------------------------------------------------ reference: errors

// gvcRef describes an error and what it should do.
type gvcRef struct {
	err     error
	params  map[string]any
	own     bool // created by this package
	text    string
	plain   string // plain error: its message
	inter   bool   // plain error implementing ErrorInterpolater
	badBase bool
	badPar  bool
	nodes   []gvcNode
	parsed  bool
	base    *gvcRef
}

func (r *gvcRef) interpolates() bool { return r.own || r.inter }

// msg: the message with passed parameters (nil: own); exact tells whether the reference determines it.
func (r *gvcRef) msg(passed map[string]any) (s string, exact bool) {
	if !r.own {
		if r.inter {
			return gvcInterMsg(r.plain, passed), true
		}
		return r.plain, true
	}
	var b strings.Builder
	p := passed
	if p == nil {
		p = r.params
	}
	exact = r.interp(&b, r.nodes, p)
	if !r.okSyntax() {
		if r.base != nil {
			m, ex := r.base.msg(nil)
			exact = exact && ex
			b.WriteString("\nBase error:\n" + m)
		}
		if len(r.params) > 0 {
			b.WriteString("\nParameters in error:\n" + fmt.Sprintf("%v", r.params))
		}
		if passed != nil {
			b.WriteString("\nParameters from parent error:\n" + fmt.Sprintf("%v", passed))
		}
	}
	return b.String(), exact
}

func (r *gvcRef) interp(b *strings.Builder, l []gvcNode, passed map[string]any) (exact bool) {
	exact = true
	for _, n := range l {
		m, ch := r.params, "%"
		if !n.pct {
			m, ch = passed, "$"
		}
		switch n.kind {
		case 's':
			b.WriteString(n.text)
		case 'w':
			if r.base == nil {
				b.WriteString(ch + "w(<nil>)")
				break
			}
			pp := passed
			if n.pct {
				pp = nil
			} else if !r.base.interpolates() {
				b.WriteString("<$w is not supported by base error!>")
				pp = nil
			}
			s, ex := r.base.msg(pp)
			exact = exact && ex
			b.WriteString(s)
		case 'f':
			v, has := m[n.name]
			switch {
			case strings.Contains(n.text, "%"):
				exact = false
			case gvcIsSel(n.name):
				fmt.Fprintf(b, "%"+n.text, m)
			case n.name[0] == '!':
				b.WriteString("<!Variable name " + n.name + " in interpolation string starting with ! not recognized by the language>")
			case !gvcNameOK(n.name):
				b.WriteString("<!Variable name " + n.name + " not allowed by the language")
			case !has:
				b.WriteString(ch + n.text + "!<missing value>")
			default:
				fmt.Fprintf(b, "%"+n.text, v)
			}
		case 'c':
			take := n.text == "m=0" && len(m) == 0 || n.text == "m>0" && len(m) > 0
			if !gvcCondOK(n.text) {
				b.WriteString(ch + "!<INVALID CONDITION:" + n.text + ">")
				take = true
			}
			if (take || n.open) && !r.interp(b, n.kids, passed) {
				exact = false
			}
		}
	}
	return
}

func (r *gvcRef) okSyntax() bool { return r.parsed && gvcSyn(r.nodes) }

func (r *gvcRef) okParams(passed map[string]any) bool {
	if !r.own {
		return !r.badPar
	}
	if passed == nil {
		passed = r.params
	}
	return r.okSyntax() && r.okList(r.nodes, passed, false)
}

func (r *gvcRef) okBase() bool {
	if !r.own {
		return !r.badBase
	}
	return r.okSyntax() && r.okList(r.nodes, nil, true)
}

// okList: free means that the passed parameters are not known yet.
func (r *gvcRef) okList(l []gvcNode, passed map[string]any, free bool) bool {
	for _, n := range l {
		m := r.params
		if !n.pct {
			m = passed
		}
		switch n.kind {
		case 'w':
			if r.base == nil {
				return false
			}
			if n.pct {
				if r.base.interpolates() && !r.base.okParams(nil) {
					return false
				}
			} else if !r.base.interpolates() || free && !r.base.okBase() || !free && !r.base.okParams(passed) {
				return false
			}
		case 'f':
			if _, has := m[n.name]; !has && !gvcIsSel(n.name) && (n.pct || !free) {
				return false
			}
		case 'c':
			take := n.text == "m=0" && len(m) == 0 || n.text == "m>0" && len(m) > 0
			if (take || free && !n.pct) && !r.okList(n.kids, passed, free) {
				return false
			}
		}
	}
	return true
}

// ------------------------------------------------------------ errors of other packages

type gvcInter struct {
	s               string
	badBase, badPar bool
}

func gvcInterMsg(s string, p map[string]any) string {
	if p == nil {
		return s + "<own>"
	}
	return s + fmt.Sprint(p)
}
func (e *gvcInter) Error() string                       { return gvcInterMsg(e.s, nil) }
func (e *gvcInter) Error_interpolate(p ParamMap) string { return gvcInterMsg(e.s, p) }
func (e *gvcInter) ValidateError_Params(p ParamMap) error {
	if e.badPar {
		return errors.New("bad params")
	}
	return nil
}
func (e *gvcInter) ValidateError_Base() error {
	if e.badBase {
		return errors.New("bad base")
	}
	return nil
}

var _ ErrorInterpolater = (*gvcInter)(nil)

// ------------------------------------------------------------ generators

func gvcPick(r *rand.Rand, l ...string) string { return l[r.Intn(len(l))] }

var gvcKeys = []string{"Foo", "Bar", "Baz", "X", "foo", ""}

func gvcValue(r *rand.Rand) any {
	return []any{5, -3, "str", "", nil, true, 2.5, struct{ A, B int }{1, 2}, uint8(7), [2]int{3, 4}}[r.Intn(10)]
}

func gvcMap(r *rand.Rand) map[string]any {
	m := map[string]any{}
	if r.Intn(4) == 0 {
		return m
	}
	for _, k := range gvcKeys {
		if r.Intn(3) == 0 {
			m[k] = gvcValue(r)
		}
	}
	return m
}

func gvcCopy(m map[string]any) map[string]any {
	c := map[string]any{}
	for k, v := range m {
		c[k] = v
	}
	return c
}

func gvcSameMap(a, b map[string]any) bool {
	if a == nil || b == nil || len(a) != len(b) {
		return false
	}
	for k, v := range a {
		w, ok := b[k]
		if !ok || v != w {
			return false
		}
	}
	return true
}

// gvcString: a random interpolation string; bad allows violations of the language.
func gvcString(r *rand.Rand, depth int, bad bool) string {
	var b strings.Builder
	for n := 1 + r.Intn(4); n > 0; n-- {
		k := r.Intn(9)
		switch {
		case k == 0 && depth > 0:
			c := gvcPick(r, "m>0", "m=0")
			if bad && r.Intn(4) == 0 {
				c = gvcPick(r, "m<0", "m>1", "m", "m>0 ", `m\{`)
			}
			s := gvcString(r, depth-1, bad)
			if r.Intn(8) == 0 {
				s = ""
			}
			b.WriteString(gvcPick(r, "%!", "$!") + c + "{" + s + "}")
		case k <= 3:
			v := gvcPick(r, "", "", "v", "d", "s", "x", "+v", "q", "5v", "T", "v more")
			if bad && r.Intn(8) == 0 {
				v = gvcPick(r, "%%", "d%%", `\%v`)
			}
			name := gvcPick(r, "Foo", "Bar", "Baz", "X", "!m", "!map", "!params", "!parameters")
			if bad && r.Intn(6) == 0 {
				name = gvcPick(r, "foo", "!mm", "!", "Foo Bar", "Foo-", "1", "_A", `Foo\}`)
			}
			b.WriteString(gvcPick(r, "%", "$") + v + "{" + name + "}")
		case k <= 5:
			b.WriteString(gvcPick(r, "%w", "$w"))
		default:
			b.WriteString(gvcPick(r, "abc", "é", " ", `\%`, `%%`, `\$`, `\{`, `\}`, `\\`, `\x`, "m>0", "\n", "w", "!"))
		}
	}
	return b.String()
}

// gvcBreak damages a string.
func gvcBreak(r *rand.Rand, s string) string {
	for n := 1 + r.Intn(2); n > 0; n-- {
		i := r.Intn(len(s) + 1)
		x := gvcPick(r, "{", "}", "%", "$", "%!", "$!", "%w", "\\", "A")
		if r.Intn(2) == 0 && i < len(s) {
			s = s[:i] + s[i+1:]
		} else {
			s = s[:i] + x + s[i:]
		}
	}
	return s
}

// gvcOwn makes an error of this package and its reference.
func gvcOwn(base *gvcRef, s string, own map[string]any) *gvcRef {
	r := &gvcRef{own: true, text: s, base: base, params: map[string]any{}}
	var e error
	if base != nil {
		e = base.err
		r.params = gvcCopy(base.params)
	}
	for k, v := range own {
		r.params[k] = v
	}
	if s == "" {
		s = "%w"
		if base.interpolates() {
			s = "$w"
		}
	}
	r.nodes, r.parsed = gvcParse(s)
	r.err = NewErrorWithData_any_map(e, r.text, ReplacePreviousData, own)
	return r
}

// gvcChain makes a random error.
func gvcChain(r *rand.Rand, depth int, bad bool) *gvcRef {
	if depth == 0 || r.Intn(6) == 0 {
		switch r.Intn(4) {
		case 0:
			return nil
		case 1:
			x := &gvcInter{"inter", r.Intn(4) == 0, r.Intn(4) == 0}
			return &gvcRef{err: x, params: map[string]any{}, inter: true, plain: x.s, badBase: x.badBase, badPar: x.badPar}
		}
		return &gvcRef{err: errors.New("plain"), params: map[string]any{}, plain: "plain"}
	}
	base := gvcChain(r, depth-1, bad)
	if base != nil && r.Intn(6) == 0 {
		m, exact := base.msg(nil)
		if exact {
			return &gvcRef{err: fmt.Errorf("wrap %w", base.err), params: base.params, plain: "wrap " + m}
		}
	}
	s := gvcString(r, 2, bad)
	if base != nil && r.Intn(5) == 0 {
		s = ""
	}
	return gvcOwn(base, s, gvcMap(r))
}

func (r *gvcRef) String() string {
	switch {
	case r == nil:
		return "nil"
	case !r.own:
		return fmt.Sprintf("%T %q", r.err, r.plain)
	}
	return fmt.Sprintf("error{base: %v, interpolation string %q, parameters %v}", r.base, r.text, r.params)
}
