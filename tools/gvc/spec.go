package main

import (
	"bufio"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

// spec.go: contract files and the specification expression language.

type Clause struct {
	text string
	e    ast.Expr
	ante []ast.Expr // antecedents of ==>
	file string
	line int
	only string   // restricts the clause to a property (empty: always)
	uses []Clause // facts used for this clause only
}

type LoopSpec struct {
	inv    []Clause
	keys   []Clause // keys, besides K, at which the invariant is used
	dec    *Clause
	ghosts []string
	enums  []enumDef
	iso    bool // verify the loop from the preconditions and invariants only
}

type Contract struct {
	key          string
	pkg          string // import path
	file         string
	line         int
	params       []string // incl. receiver first when present
	results      []string
	hasRecv      bool
	requires     []Clause
	uses         []Clause // instances of arithmetic facts the tool knows
	ensures      []Clause
	modifies     []Clause
	hasMod       bool
	panics       *Clause
	panicsIf     *Clause // panics only if (one direction)
	maypanic     bool
	loops        map[int]*LoopSpec
	alias        string // "", "none", or list of groups "z=x z=y"
	noalias      [][2]string
	trusted      string
	inline       bool // never used as a contract at call sites
	layer        int  // 0: any
	vlayer       int  // layer the contract is verified in, when it is not the one it is used in
	props        []string
	splits       []Clause
	chain        bool // each postcondition is proved with the earlier ones as hypotheses
	slicelen     map[string][]int
	immut        map[string]bool
	nilable      map[string]bool
	tparams      map[string]string
	lets         []letDef
	internal     bool
	lemma        bool
	body         []Clause // lemma: assertion steps
	timeout      float64
	note         string
	returnsFresh bool
	instance     map[string]string // parameter -> concrete type for interface parameters
	cases        []Clause
	enums        []enumDef
	inlines      []string // callees whose body is used instead of their contract
	keys         []Clause // keys at which the postconditions of callees are used, besides K
	instances    int      // callers may use them for 0, ..., instances-1
	anys         []string // arbitrary integers the clauses are proved for
	env          *SpecFile
}

type enumDef struct {
	name   string
	lo, hi int64
}

type foldDef struct {
	name, s, k string
	extra      []string       // further integer parameters
	bound      map[string]Val // their values
	c          Clause
	sf         *SpecFile
	mul, cat   bool
}

type letDef struct {
	name string
	c    Clause
}

type predDef struct {
	name   string
	params []string
	c      Clause
	sf     *SpecFile
	typ    string // recursively defined function: bool, any, string
}

type SpecFile struct {
	path   string
	pkg    string
	consts map[string]ast.Expr
	preds  map[string]*predDef
}

type SpecDB struct {
	module    string
	contracts map[string][]*Contract
	all       []*Contract
	abstract  map[string]string // type key -> kind (layer 2)
	prime     *big.Int
	consts    map[string]Clause
	preds     map[string]*predDef
	folds     map[string]*foldDef
	oracles   map[string]string // opaque functions -> mode
	nonnil    map[string]bool   // interface types whose stored values are not nil
	reppred   map[string]bool
	files     []string
}

func loadSpecs(dir, module string) (*SpecDB, error) {
	db := &SpecDB{module: module, contracts: map[string][]*Contract{}, abstract: map[string]string{}, consts: map[string]Clause{}, preds: map[string]*predDef{}, folds: map[string]*foldDef{}, oracles: map[string]string{}, nonnil: map[string]bool{}, reppred: map[string]bool{}}
	fs, _ := filepath.Glob(filepath.Join(dir, "*.gvc"))
	sort.Strings(fs)
	for _, f := range fs {
		if err := db.parseFile(f); err != nil {
			return nil, err
		}
		db.files = append(db.files, f)
	}
	return db, nil
}

func parseClause(s, file string, line int) (Clause, error) {
	c := Clause{text: s, file: file, line: line}
	parts := splitImplies(s)
	for i, p := range parts {
		e, err := parser.ParseExpr(p)
		if err != nil {
			return c, fmt.Errorf("%s:%d: %q: %v", file, line, p, err)
		}
		if i == len(parts)-1 {
			c.e = e
		} else {
			c.ante = append(c.ante, e)
		}
	}
	return c, nil
}

func splitImplies(s string) []string {
	depth := 0
	var out []string
	st := 0
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '(', '[', '{':
			depth++
		case ')', ']', '}':
			depth--
		case '=':
			if depth == 0 && strings.HasPrefix(s[i:], "==>") {
				out = append(out, strings.TrimSpace(s[st:i]))
				st = i + 3
				i += 2
			}
		}
	}
	return append(out, strings.TrimSpace(s[st:]))
}

func (db *SpecDB) parseFile(path string) error {
	f, err := os.Open(path)
	if err != nil {
		return err
	}
	defer f.Close()
	sf := &SpecFile{path: path}
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<20)
	ln := 0
	var cur *Contract
	var curLoop *LoopSpec
	fail := func(format string, a ...any) error {
		return fmt.Errorf("%s:%d: %s", path, ln, fmt.Sprintf(format, a...))
	}
	pending := ""
	start := 0
	defLayer, defVLayer := 0, 0
	for sc.Scan() {
		ln++
		line := sc.Text()
		if i := strings.Index(line, "//"); i >= 0 {
			line = line[:i]
		}
		line = strings.TrimSpace(line)
		if line == "" {
			continue
		}
		if pending != "" {
			line = pending + " " + line
			pending = ""
		} else {
			start = ln
		}
		if strings.HasSuffix(line, "\\") {
			pending = strings.TrimSuffix(line, "\\")
			continue
		}
		word, rest := line, ""
		if i := strings.IndexAny(line, " \t"); i >= 0 {
			word, rest = line[:i], strings.TrimSpace(line[i:])
		}
		clause := func() (Clause, error) { return parseClause(rest, path, start) }
		switch word {
		case "package":
			sf.pkg = db.module + "/" + rest
			if rest == "std" {
				sf.pkg = ""
			}
		case "layer":
			if cur == nil || strings.HasPrefix(rest, "default") {
				defLayer, _ = strconv.Atoi(strings.TrimSpace(strings.TrimPrefix(rest, "default")))
			} else {
				cur.layer, _ = strconv.Atoi(rest)
			}
		case "verifiedlayer":
			defVLayer, _ = strconv.Atoi(rest)
		case "reppred": // predicates on the representation of abstract values: invariants of every abstract value
			for _, n := range strings.Fields(rest) {
				db.reppred[n] = true
			}
		case "const":
			i := strings.Index(rest, "=")
			c, err := parseClause(strings.TrimSpace(rest[i+1:]), path, start)
			if err != nil {
				return err
			}
			db.consts[strings.TrimSpace(rest[:i])] = c
		case "prime":
			n, ok := new(big.Int).SetString(rest, 0)
			if !ok {
				return fail("bad prime")
			}
			db.prime = n
		case "abstract":
			i := strings.Index(rest, "=")
			db.abstract[sf.pkg+"."+strings.TrimSpace(rest[:i])] = strings.TrimSpace(rest[i+1:])
		case "pred", "rec":
			i := strings.Index(rest, ")")
			j := strings.Index(rest, "(")
			k := strings.Index(rest[i:], "=")
			c, err := parseClause(strings.TrimSpace(rest[i+k+1:]), path, start)
			if err != nil {
				return err
			}
			pd := &predDef{name: strings.TrimSpace(rest[:j]), c: c, sf: sf}
			for _, p := range strings.Split(rest[j+1:i], ",") {
				if p = strings.TrimSpace(p); p != "" {
					pd.params = append(pd.params, p)
				}
			}
			if word == "rec" {
				pd.typ = strings.TrimSpace(rest[i+1 : i+k])
			}
			db.preds[pd.name] = pd
		case "oracle":
			w := strings.Fields(rest)
			mode := ""
			if len(w) > 1 {
				mode = w[0]
			}
			k := w[len(w)-1]
			if strings.HasPrefix(k, "bandersnatch/") || strings.HasPrefix(k, "internal/") {
				k = db.module + "/" + k
			}
			db.oracles[k] = mode
		case "nonnil":
			if strings.Contains(rest, ".") {
				db.nonnil[rest] = true
			} else {
				db.nonnil[sf.pkg+"."+rest] = true
			}
		case "fold", "foldmul", "foldcat":
			// fold name(s, k) = term
			i := strings.Index(rest, ")")
			j := strings.Index(rest, "(")
			k := strings.Index(rest[i:], "=")
			c, err := parseClause(strings.TrimSpace(rest[i+k+1:]), path, start)
			if err != nil {
				return err
			}
			ps := strings.Split(rest[j+1:i], ",")
			if len(ps) < 2 {
				return fail("fold name(s, k)")
			}
			fd := &foldDef{name: strings.TrimSpace(rest[:j]), s: strings.TrimSpace(ps[0]), k: strings.TrimSpace(ps[1]), c: c, sf: sf, mul: word == "foldmul", cat: word == "foldcat"}
			for _, p := range ps[2:] {
				fd.extra = append(fd.extra, strings.TrimSpace(p))
			}
			db.folds[fd.name] = fd
		case "func", "lemma":
			c, err := db.parseFuncHeader(rest, sf, word == "lemma")
			if err != nil {
				return fail("%v", err)
			}
			c.file, c.line, c.env = path, start, sf
			c.layer, c.vlayer = defLayer, defVLayer
			cur = c
			curLoop = nil
			db.contracts[c.key] = append(db.contracts[c.key], c)
			db.all = append(db.all, c)
		default:
			if cur == nil {
				return fail("unknown directive %s", word)
			}
			switch word {
			case "requires", "ensures", "modifies", "panics", "panicsif", "invariant", "decreases", "split", "assert", "use":
				only := ""
				if strings.HasPrefix(rest, "[") {
					j := strings.Index(rest, "]")
					only, rest = rest[1:j], strings.TrimSpace(rest[j+1:])
				}
				if word == "modifies" {
					cur.hasMod = true
					if rest == "nothing" {
						continue
					}
					for _, p := range splitTop(rest) {
						c, err := parseClause(p, path, start)
						if err != nil {
							return err
						}
						cur.modifies = append(cur.modifies, c)
					}
					continue
				}
				c, err := clause()
				if err != nil {
					return err
				}
				c.only = only
				switch word {
				case "requires":
					cur.requires = append(cur.requires, c)
				case "use":
					call, ok := c.e.(*ast.CallExpr)
					if !ok {
						return fail("use nonsquare(c, u, v)")
					}
					if id, ok := call.Fun.(*ast.Ident); !ok || id.Name != "nonsquare" && id.Name != "nozerodivisor" {
						return fail("use nonsquare(c, u, v) or use nozerodivisor(u, v)")
					}
					if n := len(cur.ensures); n > 0 { // after an ensures clause: for that clause only
						cur.ensures[n-1].uses = append(cur.ensures[n-1].uses, c)
					} else {
						cur.uses = append(cur.uses, c)
					}
				case "ensures":
					cur.ensures = append(cur.ensures, c)
				case "panics":
					cc := c
					cur.panics = &cc
				case "panicsif":
					cc := c
					cur.panicsIf = &cc
				case "split":
					cur.splits = append(cur.splits, c)
				case "assert":
					cur.body = append(cur.body, c)
				case "invariant":
					if curLoop == nil {
						return fail("invariant outside loop")
					}
					curLoop.inv = append(curLoop.inv, c)
				case "decreases":
					if curLoop == nil {
						return fail("decreases outside loop")
					}
					cc := c
					curLoop.dec = &cc
				}
			case "let":
				i := strings.Index(rest, "=")
				c, err := parseClause(strings.TrimSpace(rest[i+1:]), path, start)
				if err != nil {
					return err
				}
				cur.lets = append(cur.lets, letDef{strings.TrimSpace(rest[:i]), c})
			case "loop":
				n, err := strconv.Atoi(rest)
				if err != nil {
					return fail("loop number")
				}
				curLoop = &LoopSpec{}
				cur.loops[n] = curLoop
			case "alias":
				cur.alias = rest
			case "chain":
				cur.chain = true
			case "noalias":
				w := strings.Fields(rest)
				for i := range w {
					for j := range w {
						if i < j {
							cur.noalias = append(cur.noalias, [2]string{w[i], w[j]})
						}
					}
				}
			case "trusted":
				cur.trusted = rest
				if rest == "" {
					cur.trusted = "assumed"
				}
			case "inline":
				cur.inline = true
			case "property":
				cur.props = append(cur.props, strings.Fields(rest)...)
			case "pure":
				cur.hasMod = true
			case "maypanic":
				cur.maypanic = true
			case "instances":
				cur.instances, _ = strconv.Atoi(rest)
			case "slicelen":
				w := strings.Fields(rest)
				for _, s := range w[1:] {
					n, _ := strconv.Atoi(s)
					cur.slicelen[w[0]] = append(cur.slicelen[w[0]], n)
				}
			case "inlinecall":
				cur.inlines = append(cur.inlines, strings.Fields(rest)...)
			case "immutable": // slice parameters whose elements are not written
				for _, n := range strings.Fields(rest) {
					if cur.immut == nil {
						cur.immut = map[string]bool{}
					}
					cur.immut[n] = true
				}
			case "nilable":
				for _, w := range strings.Fields(rest) {
					cur.nilable[w] = true
				}
			case "instance":
				w := strings.Fields(rest)
				cur.instance[w[0]] = w[1]
			case "tparam":
				w := strings.Fields(rest)
				cur.tparams[w[0]] = w[1]
			case "enum":
				w := strings.Fields(rest)
				if len(w) != 3 {
					return fail("enum name lo hi")
				}
				lo, _ := strconv.ParseInt(w[1], 0, 64)
				hi, _ := strconv.ParseInt(w[2], 0, 64)
				ed := enumDef{w[0], lo, hi}
				if curLoop != nil {
					curLoop.enums = append(curLoop.enums, ed)
				} else {
					cur.enums = append(cur.enums, ed)
				}
			case "isolate":
				if curLoop == nil {
					return fail("isolate belongs to a loop")
				}
				curLoop.iso = true
			case "keys":
				c, err := parseClause(rest, path, start)
				if err != nil {
					return err
				}
				if curLoop != nil {
					curLoop.keys = append(curLoop.keys, c)
				} else {
					cur.keys = append(cur.keys, c)
				}
			case "any":
				cur.anys = append(cur.anys, strings.Fields(rest)...)
			case "timeout":
				cur.timeout, _ = strconv.ParseFloat(rest, 64)
			case "note":
				cur.note = rest
			default:
				return fail("unknown directive %s", word)
			}
		}
	}
	return sc.Err()
}

func splitTop(s string) []string {
	depth := 0
	st := 0
	var out []string
	for i, c := range s {
		switch c {
		case '(', '[':
			depth++
		case ')', ']':
			depth--
		case ',':
			if depth == 0 {
				out = append(out, strings.TrimSpace(s[st:i]))
				st = i + 1
			}
		}
	}
	return append(out, strings.TrimSpace(s[st:]))
}

// func (z *T) Name(a, b) (r1, r2)   |   func Name(a) r
func (db *SpecDB) parseFuncHeader(s string, sf *SpecFile, lemma bool) (*Contract, error) {
	c := &Contract{pkg: sf.pkg, loops: map[int]*LoopSpec{}, slicelen: map[string][]int{}, nilable: map[string]bool{}, tparams: map[string]string{}, instance: map[string]string{}, lemma: lemma}
	s = strings.TrimSpace(s)
	recv := ""
	if strings.HasPrefix(s, "(") {
		i := strings.Index(s, ")")
		w := strings.Fields(s[1:i])
		if len(w) != 2 {
			return nil, fmt.Errorf("receiver")
		}
		c.params = append(c.params, w[0])
		c.hasRecv = true
		recv = w[1]
		s = strings.TrimSpace(s[i+1:])
	}
	i := strings.Index(s, "(")
	j := strings.Index(s, ")")
	if i < 0 || j < i {
		return nil, fmt.Errorf("function header %q", s)
	}
	name := strings.TrimSpace(s[:i])
	for _, p := range strings.Split(s[i+1:j], ",") {
		if p = strings.TrimSpace(p); p != "" {
			c.params = append(c.params, p)
		}
	}
	res := strings.Trim(strings.TrimSpace(s[j+1:]), "()")
	for _, p := range strings.Split(res, ",") {
		if p = strings.TrimSpace(p); p != "" {
			c.results = append(c.results, p)
		}
	}
	pk := sf.pkg
	if k := strings.LastIndex(name, "."); k >= 0 && recv == "" {
		pk, name = name[:k], name[k+1:]
	}
	if recv != "" {
		c.key = pk + ".(" + recv + ")." + name
	} else {
		c.key = pk + "." + name
	}
	if lemma {
		c.key = "lemma " + name
	}
	return c, nil
}

// ---------------------------------------------------------------- evaluation

type thunk struct {
	e   ast.Expr
	env *SpecEnv
}

type SpecEnv struct {
	x        *Exec
	names    map[string]any // Val, *Cell or thunk
	fr       *Frame
	pos      token.Pos
	pkg      *Pkg
	panics   *Formula
	panicsIf *Clause
	old      map[*Cell]Val
	targs    map[string]types.Type // type parameters
	moved    bool                  // invariant of a loop that was moved to a helper
}

func (env *SpecEnv) child() *SpecEnv {
	n := *env
	n.names = map[string]any{}
	for k, v := range env.names {
		n.names[k] = v
	}
	return &n
}

func (x *Exec) frameEnv(fr *Frame, _, pos token.Pos) *SpecEnv {
	env := &SpecEnv{x: x, names: map[string]any{}, fr: fr, pos: pos, pkg: fr.pkg}
	if x.specEnv != nil {
		env.old = x.specEnv.old
		env.targs = x.specEnv.targs
		for k, v := range x.specEnv.names {
			if fr == x.root || strings.HasPrefix(k, "$") {
				if _, isParam := x.specParams[k]; !isParam {
					env.names[k] = v
				}
			}
		}
	}
	return env
}

// adoptRoot: the invariants of a loop that was moved to a helper also see the
// names of the contract they come from.
func (x *Exec) adoptRoot(env *SpecEnv, ls *LoopSpec) {
	if x.job == nil || x.job.root == nil || x.specEnv == nil || env.fr == nil {
		return
	}
	f := env.fr
	for f.parent != nil && f.fn == nil {
		f = f.parent
	}
	if f == x.root || x.v.loopContract(funcKey(f.fn), x.job) != nil {
		return
	}
	for k, v := range x.specEnv.names {
		if _, isParam := x.specParams[k]; !isParam {
			env.names[k] = v
		}
	}
	env.moved = true
}

type specErr struct{ msg string }

func (env *SpecEnv) fail(e ast.Expr, format string, a ...any) {
	panic(Unsupported{"specification: " + fmt.Sprintf(format, a...)})
}

func (x *Exec) specBool(env *SpecEnv, c Clause) *Formula { return x.specPol(env, c, -1) }

// specGoal: the clause as something to prove.
func (x *Exec) specGoal(env *SpecEnv, c Clause) *Formula { return x.specPol(env, c, 1) }

func (x *Exec) specPol(env *SpecEnv, c Clause, pol int) *Formula {
	x.quiet++
	save, saveU := x.pol, x.univ
	defer func() { x.quiet--; x.pol, x.univ = save, saveU }()
	if pol > 0 {
		x.univ = true
	}
	x.pol = pol
	f, undef := x.defined(func() *Formula { return env.boolE(c.e) })
	if undef {
		f = x.unspecified()
	}
	x.pol = -pol
	for i := len(c.ante) - 1; i >= 0; i-- {
		a := env.boolE(c.ante[i])
		f = Implies(a, f)
	}
	return f
}

// neutral evaluates f where existential statements have no definite polarity.
func (x *Exec) neutral(f func()) {
	save := x.pol
	x.pol = 0
	f()
	x.pol = save
}

// flipped evaluates f under a negation.
func (x *Exec) flipped(f func()) {
	save := x.pol
	x.pol = -save
	f()
	x.pol = save
}

// someKey: like some, for map keys.
func (env *SpecEnv) someKey(e *ast.CallExpr) any {
	x := env.x
	id, ok := e.Args[0].(*ast.Ident)
	if !ok || len(e.Args) != 2 {
		env.fail(e, "somekey(variable, formula)")
	}
	n := env.child()
	switch x.pol {
	case -1:
		if x.univ {
			// refuted for every key: the ghost key stands for all of them
			x.univ = false
			n.names[id.Name] = x.ghostKey()
			return BoolV{n.boolE(e.Args[1])}
		}
		k := x.symKey(x.freshName("some." + id.Name))
		x.keys = append(x.keys, k)
		n.names[id.Name] = k
		return BoolV{n.boolE(e.Args[1])}
	case 1:
		defer func(u bool) { x.univ = u }(x.univ)
		x.univ = false
		f := fFalse
		for _, k := range append([]Val{x.ghostKey()}, x.keys...) {
			n.names[id.Name] = k
			f = Or(f, n.boolE(e.Args[1]))
		}
		return BoolV{f}
	}
	env.fail(e, "somekey in a position without polarity")
	return nil
}

// some: there is an integer j with body(j). As a hypothesis j becomes an
// unknown; as a goal the integers at hand (local variables, parameters,
// iteration counters) are tried as witnesses.
func (env *SpecEnv) some(e *ast.CallExpr) any {
	x := env.x
	id, ok := e.Args[0].(*ast.Ident)
	if !ok || len(e.Args) != 2 {
		env.fail(e, "some(variable, formula)")
	}
	n := env.child()
	switch x.pol {
	case -1:
		if x.univ && x.root != nil && x.root.spec != nil && len(x.root.spec.anys) > 0 {
			// refuted for every integer: the first arbitrary integer of the
			// contract stands for all of them (for one statement of the goal)
			x.univ = false
			n.names[id.Name] = x.specEnv.names[x.root.spec.anys[0]]
			return BoolV{n.boolE(e.Args[1])}
		}
		sk := x.c.Input(x.freshName("some."+id.Name), new(big.Int).Neg(pow2(62)), pow2(62))
		x.its = append(x.its, sk)
		n.names[id.Name] = IntV{sk}
		return BoolV{n.boolE(e.Args[1])}
	case 1:
		defer func(u bool) { x.univ = u }(x.univ)
		x.univ = false // a universal statement below depends on the witness
		cand := map[string]*Poly{}
		add := func(v any) {
			if c, ok := v.(*Cell); ok {
				v = c.v
			}
			if iv, ok := v.(IntV); ok {
				cand[iv.p.Key()] = iv.p
			}
			if sv, ok := v.(SliceV); ok && sv.len != nil {
				p := sv.len.AddI(-1)
				cand[p.Key()] = p
			}
		}
		for _, v := range env.names {
			add(v)
		}
		for _, fr := range []*Frame{env.fr, x.root} {
			for ; fr != nil; fr = fr.parent {
				for _, c := range fr.vars {
					add(c)
				}
			}
		}
		for _, p := range x.its {
			cand[p.Key()] = p
		}
		for _, p := range cand {
			if c := p.ConstPart(); c.Cmp(bigOne) == 0 && len(p.t) > 1 {
				// the value before an increment
				q := p.AddI(-1)
				cand[q.Key()] = q
			}
		}
		var keys []string
		for k := range cand {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		f := fFalse
		for _, k := range keys {
			n.names[id.Name] = IntV{cand[k]}
			f = Or(f, n.boolE(e.Args[1]))
		}
		return BoolV{f}
	}
	env.fail(e, "some in a position without polarity")
	return nil
}

// proveClause: like specBool, but evaluates the consequent under the
// antecedent (forking), so that partial terms are only evaluated when relevant.
func (x *Exec) emitClause(env *SpecEnv, c Clause, kind, where string) {
	// conjuncts that have no value where the ones before them are false
	var holds func(a ast.Expr) bool
	holds = func(a ast.Expr) bool {
		f, undef := x.defined(func() *Formula {
			x.quiet++
			defer func() { x.quiet-- }()
			return env.boolE(a)
		})
		if undef {
			switch b := a.(type) {
			case *ast.ParenExpr:
				return holds(b.X)
			case *ast.BinaryExpr:
				if b.Op == token.LAND {
					return holds(b.X) && holds(b.Y)
				}
			}
			panic(specUndef{})
		}
		return x.fork(f, "case of "+c.text)
	}
	for _, a := range c.ante {
		if !holds(a) {
			return
		}
	}
	f := x.specGoal(env, Clause{e: c.e, text: c.text})
	x.emit(kind, where+": "+c.text, f)
}

func (x *Exec) assumeSpec(env *SpecEnv, c Clause) { x.assume(x.specBool(env, c)) }

func (x *Exec) specInt(env *SpecEnv, c Clause) *Poly {
	x.quiet++
	defer func() { x.quiet-- }()
	return env.intE(c.e)
}

func (env *SpecEnv) boolE(e ast.Expr) *Formula {
	v := env.val(e)
	switch b := v.(type) {
	case BoolV:
		return b.f
	}
	env.fail(e, "expected a formula, got %T", v)
	return nil
}

func (env *SpecEnv) intE(e ast.Expr) *Poly {
	v := env.val(e)
	switch b := v.(type) {
	case IntV:
		return b.p
	case BigV:
		return b.p
	}
	env.fail(e, "expected an integer, got %T", v)
	return nil
}

// val evaluates to a Val (cells are loaded).
func (env *SpecEnv) val(e ast.Expr) Val {
	r := env.ev(e)
	if c, ok := r.(*Cell); ok {
		return env.x.load(c)
	}
	return r
}

func (env *SpecEnv) resolve(name string) any {
	x := env.x
	if v, ok := env.names[name]; ok {
		if t, isT := v.(thunk); isT {
			return t.env.ev(t.e)
		}
		return v
	}
	if x.oldMode != nil && env.fr != nil && env.fr == x.root && x.specParams[name] {
		return x.specEnv.names[name] // the value of the parameter on entry
	}
	if env.fr != nil {
		// innermost scope at pos
		sc := env.pkg.types.Scope().Innermost(env.pos)
		if sc == nil {
			// function bodies: search file scopes
			for _, f := range env.pkg.files {
				if s := env.pkg.info.Scopes[f]; s != nil && f.Pos() <= env.pos && env.pos <= f.End() {
					sc = s.Innermost(env.pos)
				}
			}
		}
		if sc != nil {
			if _, o := sc.LookupParent(name, env.pos); o != nil {
				if v, ok := o.(*types.Var); ok {
					if c := env.fr.lookup(v); c != nil {
						return c
					}
				}
			}
		}
	}
	if env.fr != nil && (env.fr == x.root || env.moved) && x.specParams[name] {
		return x.specEnv.names[name] // a parameter the code names differently: its value on entry
	}
	if c, ok := x.v.db.consts[name]; ok {
		x.quiet++
		r := (&SpecEnv{x: x, names: map[string]any{}, pkg: env.pkg}).val(c.e)
		x.quiet--
		return r
	}
	if env.pkg != nil {
		switch o := env.pkg.types.Scope().Lookup(name).(type) {
		case *types.Const:
			return x.constVal(o.Val(), o.Type())
		case *types.Var:
			return x.global(o)
		}
	}
	switch name {
	case "true":
		return BoolV{fTrue}
	case "false":
		return BoolV{fFalse}
	case "nil":
		return NilV{}
	case "K": // an arbitrary map key
		return x.ghostKey()
	case "P":
		if x.v.db.prime != nil {
			return IntV{Const(x.v.db.prime)}
		}
	}
	env.fail(nil, "unknown name %s", name)
	return nil
}

func (env *SpecEnv) ev(e ast.Expr) any {
	x := env.x
	switch e := e.(type) {
	case *ast.ParenExpr:
		return env.ev(e.X)
	case *ast.BasicLit:
		switch e.Kind {
		case token.INT:
			n, ok := new(big.Int).SetString(strings.ReplaceAll(e.Value, "_", ""), 0)
			if !ok {
				env.fail(e, "bad literal")
			}
			return IntV{Const(n)}
		case token.STRING:
			s, _ := strconv.Unquote(e.Value)
			return StrV{s}
		case token.CHAR:
			s, _, _, _ := strconv.UnquoteChar(e.Value[1:], '\'')
			return IntV{ConstI(int64(s))}
		}
	case *ast.Ident:
		return env.resolve(e.Name)
	case *ast.StarExpr:
		v := env.val(e.X)
		if iv, ok := v.(IfaceV); ok && iv.typ != nil {
			v = iv.v
		}
		p, ok := v.(PtrV)
		if ok && p.c == nil && env.x.quiet > 0 {
			panic(specUndef{})
		}
		if !ok || p.c == nil {
			env.fail(e, "dereference of %T", v)
		}
		return p.c
	case *ast.SelectorExpr:
		if id, ok := e.X.(*ast.Ident); ok {
			if _, bound := env.names[id.Name]; !bound {
				if p := env.importedPkg(id.Name); p != nil {
					switch o := p.types.Scope().Lookup(e.Sel.Name).(type) {
					case *types.Const:
						return x.constVal(o.Val(), o.Type())
					case *types.Var:
						return x.global(o)
					}
				}
			}
		}
		b := env.ev(e.X)
		c := env.cellOf(b, e)
		if e.Sel.Name == "dyn" {
			return c
		}
		o, idx, _ := types.LookupFieldOrMethod(c.typ, true, env.fieldPkg(c.typ), e.Sel.Name)
		if v, ok := o.(*types.Var); !ok || !v.IsField() {
			env.fail(e, "no field %s in %v", e.Sel.Name, c.typ)
		}
		return x.fieldPath(c, idx)
	case *ast.IndexExpr:
		b := env.ev(e.X)
		var v Val
		if c, ok := b.(*Cell); ok {
			if c.elems != nil {
				return x.arrayElem(c, env.intE(e.Index))
			}
			v = x.load(c)
		} else {
			v = b
		}
		switch v := v.(type) {
		case CompV:
			return x.arrayElem(v.c, env.intE(e.Index))
		case PtrV:
			return x.arrayElem(v.c, env.intE(e.Index))
		case SliceV:
			if v.arr == nil {
				env.fail(e, "index into nil slice")
			}
			return x.sliceAt(v, env.intE(e.Index))
		case StrV, SymStr:
			return x.strIndex(v, env.intE(e.Index))
		case MapV:
			k := env.val(e.Index)
			r, _ := x.mapGet(v, k, nil)
			return r
		}
		env.fail(e, "index of %T", v)
	case *ast.SliceExpr:
		v := env.val(e.X)
		lo := newPoly()
		if e.Low != nil {
			lo = env.intE(e.Low)
		}
		switch s := v.(type) {
		case SliceV:
			hi := s.len
			if e.High != nil {
				hi = env.intE(e.High)
			}
			return SliceV{arr: s.arr, off: s.off.Add(lo), len: hi.Sub(lo), cap: s.cap.Sub(lo)}
		case StrV, SymStr:
			return x.strSlice(v, func(*Poly) *Poly { return lo }, func(d *Poly) *Poly {
				if e.High != nil {
					return env.intE(e.High)
				}
				return d
			})
		}
		env.fail(e, "slice of %T", v)
	case *ast.UnaryExpr:
		switch e.Op {
		case token.NOT:
			var f *Formula
			x.flipped(func() { f = env.boolE(e.X) })
			return BoolV{Not(f)}
		case token.SUB:
			switch v := env.val(e.X).(type) {
			case FEV:
				return FEV{v.p.Neg()}
			case IntV:
				return IntV{v.p.Neg()}
			case BigV:
				return IntV{v.p.Neg()}
			}
		case token.AND:
			c := env.cellOf(env.ev(e.X), e)
			return PtrV{c}
		}
	case *ast.BinaryExpr:
		return env.binary(e)
	case *ast.CallExpr:
		return env.call(e)
	}
	env.fail(e, "unsupported expression %T", e)
	return nil
}

func (env *SpecEnv) importedPkg(name string) *Pkg {
	if env.pkg == nil {
		return nil
	}
	for _, p := range env.pkg.types.Imports() {
		if p.Name() == name {
			return env.x.v.l.pkgs[p.Path()]
		}
	}
	return nil
}

func (env *SpecEnv) fieldPkg(t types.Type) *types.Package {
	if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Pkg() != nil {
		return n.Obj().Pkg()
	}
	return env.pkg.types
}

func (env *SpecEnv) cellOf(b any, e ast.Expr) *Cell {
	switch b := b.(type) {
	case *Cell:
		if b.elems == nil {
			switch v := env.x.load(b).(type) {
			case PtrV:
				if v.c == nil {
					env.fail(e, "nil pointer")
				}
				return v.c
			case IfaceV:
				return env.cellOf(v.v, e)
			}
		}
		return b
	case PtrV:
		if b.c == nil {
			env.fail(e, "nil pointer")
		}
		return b.c
	case CompV:
		return b.c
	case IfaceV:
		if b.typ != nil {
			return env.cellOf(b.v, e)
		}
	}
	if v, ok := b.(Val); ok {
		switch v.(type) {
		case IntV, FEV, BigV, BoolV, SliceV:
			return &Cell{v: v, typ: types.Typ[types.Int]}
		}
	}
	env.fail(e, "no location (%T %+v)", b, b)
	return nil
}

func (env *SpecEnv) binary(e *ast.BinaryExpr) any {
	switch e.Op {
	case token.LAND:
		a := env.boolE(e.X)
		if a.k == FFalse {
			return BoolV{fFalse}
		}
		b, undef := env.x.defined(func() *Formula { return env.boolE(e.Y) })
		if undef {
			b = env.x.unspecified()
		}
		return BoolV{And(a, b)}
	case token.LOR:
		a := env.boolE(e.X)
		if a.k == FTrue {
			return BoolV{fTrue}
		}
		b, undef := env.x.defined(func() *Formula { return env.boolE(e.Y) })
		if undef {
			b = env.x.unspecified()
		}
		return BoolV{Or(a, b)}
	}
	pol := env.x.pol
	env.x.pol = 0
	a, b := env.val(e.X), env.val(e.Y)
	env.x.pol = pol
	fa, isFa := a.(FEV)
	fb, isFb := b.(FEV)
	if isFa || isFb {
		if !isFa {
			fa = FEV{env.toInt(a, e)}
		}
		if !isFb {
			fb = FEV{env.toInt(b, e)}
		}
		p := env.x.v.db.prime
		switch e.Op {
		case token.ADD:
			return FEV{fa.p.Add(fb.p)}
		case token.SUB:
			return FEV{fa.p.Sub(fb.p)}
		case token.MUL:
			return FEV{fa.p.Mul(fb.p)}
		case token.EQL:
			return BoolV{Cong0(fa.p.Sub(fb.p), p)}
		case token.NEQ:
			return BoolV{Not(Cong0(fa.p.Sub(fb.p), p))}
		}
		env.fail(e, "operator %s on field elements", e.Op)
	}
	switch e.Op {
	case token.EQL:
		return BoolV{env.eq(a, b)}
	case token.NEQ:
		return BoolV{Not(env.eq(a, b))}
	}
	p, q := env.toInt(a, e), env.toInt(b, e)
	switch e.Op {
	case token.ADD:
		return IntV{p.Add(q)}
	case token.SUB:
		return IntV{p.Sub(q)}
	case token.MUL:
		return IntV{p.Mul(q)}
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		return BoolV{cmpPoly(e.Op, p, q)}
	case token.QUO:
		d, ok := q.IsConst()
		if !ok || d.Sign() <= 0 {
			env.fail(e, "division by non-constant")
		}
		return IntV{env.x.c.FloorDiv(p, d)}
	case token.REM:
		d, ok := q.IsConst()
		if !ok || d.Sign() <= 0 {
			env.fail(e, "modulus must be a positive constant")
		}
		return IntV{env.x.c.ModP(p, d)}
	case token.SHL:
		d, ok := q.IsConst()
		if !ok {
			env.fail(e, "shift by non-constant")
		}
		return IntV{p.Scale(pow2(uint(d.Int64())))}
	}
	env.fail(e, "operator %s", e.Op)
	return nil
}

func (env *SpecEnv) toInt(v Val, e ast.Expr) *Poly {
	switch v := v.(type) {
	case IntV:
		return v.p
	case BigV:
		return v.p
	}
	env.fail(e, "expected integer, got %T", v)
	return nil
}

func (env *SpecEnv) eq(a, b Val) *Formula {
	if sa, ok := a.(SliceV); ok {
		if sb, ok := b.(SliceV); ok {
			return fbool(sa.arr == sb.arr && (sa.arr == nil || sa.off.Key() == sb.off.Key() && sa.len.Key() == sb.len.Key()))
		}
	}
	if ma, ok := a.(MapV); ok {
		if mb, ok := b.(MapV); ok {
			return fbool(ma.m == mb.m)
		}
	}
	return env.x.equal(a, b)
}

// words collects the words of U(e).
func (env *SpecEnv) wordsOf(v any, e ast.Expr) []*Poly {
	x := env.x
	switch c := v.(type) {
	case *Cell:
		if c.elems == nil {
			lv := x.load(c)
			if iv, ok := lv.(IntV); ok {
				return []*Poly{iv.p}
			}
			return env.wordsOf(lv, e)
		}
		if _, ok := under(c.typ).(*types.Struct); ok {
			var f *Cell
			for _, w := range c.elems { // fields of zero size do not count
				n := 0
				w.scalars(func(*Cell) { n++ })
				if n == 0 {
					continue
				}
				if f != nil {
					env.fail(e, "U of a struct with several fields")
				}
				f = w
			}
			if f == nil {
				env.fail(e, "U of an empty struct")
			}
			return env.wordsOf(f, e)
		}
		var r []*Poly
		for _, w := range c.elems {
			r = append(r, x.intOf(x.load(w)))
		}
		return r
	case PtrV:
		if c.c == nil {
			env.fail(e, "U of nil pointer")
		}
		return env.wordsOf(c.c, e)
	case CompV:
		return env.wordsOf(c.c, e)
	case IntV:
		return []*Poly{c.p}
	}
	env.fail(e, "U of %T", v)
	return nil
}

func (env *SpecEnv) U(v any, e ast.Expr) *Poly {
	ws := env.wordsOf(v, e)
	r := newPoly()
	for i, w := range ws {
		r = r.Add(w.Scale(pow2(uint(64 * i))))
	}
	return r
}

func (env *SpecEnv) call(e *ast.CallExpr) any {
	x := env.x
	name := ""
	if id, ok := e.Fun.(*ast.Ident); ok {
		name = id.Name
	} else {
		env.fail(e, "call of %T", e.Fun)
	}
	arg := func(i int) ast.Expr {
		if i >= len(e.Args) {
			env.fail(e, "%s: missing argument", name)
		}
		return e.Args[i]
	}
	constArg := func(i int) *big.Int {
		c, ok := env.intE(arg(i)).IsConst()
		if !ok {
			env.fail(e, "%s: argument %d must be constant", name, i+1)
		}
		return c
	}
	if x.job.layer == 2 && x.v.db.reppred[name] {
		return BoolV{fTrue}
	}
	if pd, ok := x.v.db.preds[name]; ok {
		if len(pd.params) != len(e.Args) {
			env.fail(e, "%s: %d arguments", name, len(e.Args))
		}
		n := &SpecEnv{x: x, names: map[string]any{}, pkg: env.pkg, old: env.old, panics: env.panics, targs: env.targs}
		for i, p := range pd.params {
			n.names[p] = thunk{e.Args[i], env}
		}
		if pd.typ != "" {
			return env.recApp(pd, n)
		}
		if len(pd.c.ante) > 0 {
			f := n.boolE(pd.c.e)
			for i := len(pd.c.ante) - 1; i >= 0; i-- {
				f = Implies(n.boolE(pd.c.ante[i]), f)
			}
			return BoolV{f}
		}
		return n.ev(pd.c.e)
	}
	if fd, ok := x.v.db.folds[name]; ok {
		if len(fd.extra) > 0 {
			f2 := *fd
			f2.bound = map[string]Val{}
			for i, p := range fd.extra {
				f2.bound[p] = env.val(arg(i + 1))
				f2.name += "," + x.valKey(f2.bound[p])
			}
			fd = &f2
		}
		return env.fold(fd, e, env.val(arg(0)))
	}
	switch name {
	case "old":
		save := x.oldMode
		om := env.old
		if om == nil {
			om = map[*Cell]Val{}
		}
		x.oldMode = om
		r := env.val(arg(0))
		x.oldMode = save
		return r
	case "U":
		return IntV{env.U(env.ev(arg(0)), e)}
	case "bebytes", "lebytes":
		// integer denoted by a byte slice/array
		return IntV{env.bytesInt(env.ev(arg(0)), name == "bebytes", e)}
	case "fe":
		c := env.ev(arg(0))
		if p, ok := c.(PtrV); ok {
			c = p.c
		}
		if cc, ok := c.(*Cell); ok && cc.elems == nil {
			lv := x.load(cc)
			switch l := lv.(type) {
			case FEV:
				return l
			case PtrV:
				c = l.c
				if l.c == nil {
					env.fail(e, "fe(nil)")
				}
				if l.c.elems == nil {
					return x.load(l.c)
				}
			}
		}
		if f, ok := c.(FEV); ok {
			return f
		}
		if cc, ok := c.(*Cell); ok {
			if k, ok := x.abstractKind(cc.typ); ok && k == "field" {
				return x.load(cc)
			}
		}
		p := x.v.db.prime
		rinv := new(big.Int).ModInverse(pow2(256), p)
		return FEV{env.U(c, e).Scale(rinv)}
	case "nonsquare": // c*u^2 == v^2 only for u == v == 0, for a constant c that is not a square
		p := x.v.db.prime
		k := constArg(0)
		k = new(big.Int).Mod(k, p)
		if big.Jacobi(k, p) != -1 {
			env.fail(e, "%v is a square modulo %v", k, p)
		}
		toFE := func(i int) FEV {
			a := env.val(arg(i))
			if f, ok := a.(FEV); ok {
				return f
			}
			return FEV{env.toInt(a, e)}
		}
		u, v := toFE(1), toFE(2)
		return BoolV{Or(Not(Cong0(u.p.Mul(u.p).Scale(k).Sub(v.p.Mul(v.p)), p)), And(Cong0(u.p, p), Cong0(v.p, p)))}
	case "nozerodivisor": // u*v == 0 only for u == 0 or v == 0 (the modulus is prime)
		p := x.v.db.prime
		toFE := func(i int) *Poly {
			a := env.val(arg(i))
			if f, ok := a.(FEV); ok {
				return f.p
			}
			return env.toInt(a, e)
		}
		u, v := toFE(0), toFE(1)
		return BoolV{Or(Not(Cong0(u.Mul(v), p)), Cong0(u, p), Cong0(v, p))}
	case "feint": // an integer regarded as a field element
		return FEV{env.intE(arg(0))}
	case "big":
		c := env.ev(arg(0))
		for {
			switch v := c.(type) {
			case *Cell:
				c = x.load(v)
				continue
			case PtrV:
				if v.c == nil {
					env.fail(e, "big(nil)")
				}
				c = x.load(v.c)
				continue
			case BigV:
				return IntV{v.p}
			}
			env.fail(e, "big of %T", c)
		}
	case "int":
		return IntV{env.intE(arg(0))}
	case "mod":
		m := constArg(1)
		return IntV{x.c.ModP(env.intE(arg(0)), m)}
	case "div":
		return IntV{x.c.FloorDiv(env.intE(arg(0)), constArg(1))}
	case "bit":
		k := uint(constArg(1).Int64())
		p := env.intE(arg(0))
		return IntV{x.c.ModP(x.c.FloorDiv(p, pow2(k)), bigTwo)}
	case "cong":
		m := constArg(2)
		return BoolV{Cong0(env.intE(arg(0)).Sub(env.intE(arg(1))), m)}
	case "pow2":
		kp := env.intE(arg(0))
		k, ok := kp.IsConst()
		if !ok {
			return IntV{x.c.Input("pow2("+kp.Key()+")", bigOne, nil)}
		}
		if k.Sign() < 0 || k.BitLen() > 20 {
			env.fail(e, "pow2(%v)", k)
		}
		return IntV{Const(pow2(uint(k.Int64())))}
	case "powc":
		return IntV{Const(new(big.Int).Exp(constArg(0), constArg(1), nil))}
	case "powmod":
		return IntV{x.c.Pow(env.intE(arg(0)), env.intE(arg(1)), constArg(2))}
	case "invmod":
		return IntV{Const(new(big.Int).ModInverse(constArg(0), constArg(1)))}
	case "fpow": // field power with constant exponent
		b := env.val(arg(0)).(FEV)
		ex := constArg(1)
		return FEV{fieldPow(b.p, ex)}
	case "implies":
		var a *Formula
		x.flipped(func() { a = env.boolE(arg(0)) })
		if a.k == FFalse {
			return BoolV{fTrue}
		}
		b, undef := x.defined(func() *Formula { return env.boolE(arg(1)) })
		if undef {
			b = x.unspecified()
		}
		return BoolV{Implies(a, b)}
	case "iff":
		var a, b *Formula
		x.neutral(func() { a, b = env.boolE(arg(0)), env.boolE(arg(1)) })
		return BoolV{Iff(a, b)}
	case "app": // application of a function-valued argument
		c, ok := env.ev(arg(0)).(*Cell)
		if !ok {
			env.fail(e, "app: function variable expected")
		}
		fv, ok := x.load(c).(FuncV)
		sig, ok2 := under(c.typ).(*types.Signature)
		if !ok || !ok2 {
			env.fail(e, "app: function expected")
		}
		var as []Val
		for _, a := range e.Args[1:] {
			as = append(as, env.val(a))
		}
		if r, ok := x.applyOpaque(fv, as, sig); ok {
			return r[0]
		}
		env.fail(e, "app: unsupported function")
	case "some":
		return env.some(e)
	case "isstring", "asstring": // the dynamic type is string; the string
		v, f := x.typeAssert(nil, env.val(arg(0)), types.Typ[types.String])
		if name == "isstring" {
			return BoolV{f}
		}
		return v
	case "somekey":
		return env.someKey(e)
	case "ite":
		var f *Formula
		x.neutral(func() { f = env.boolE(arg(0)) })
		if x.fork(f, "ite") {
			return env.ev(arg(1))
		}
		return env.ev(arg(2))
	case "b2i":
		var f *Formula
		x.neutral(func() { f = env.boolE(arg(0)) })
		if x.fork(f, "b2i") {
			return IntV{ConstI(1)}
		}
		return IntV{newPoly()}
	case "all", "sum":
		id, ok := arg(0).(*ast.Ident)
		if !ok {
			env.fail(e, "%s: variable", name)
		}
		lo, hi := constArg(1).Int64(), constArg(2).Int64()
		f := fTrue
		s := newPoly()
		n := env.child()
		for i := lo; i < hi; i++ {
			n.names[id.Name] = IntV{ConstI(i)}
			if name == "all" {
				f = And(f, n.boolE(arg(3)))
			} else {
				s = s.Add(n.intE(arg(3)))
			}
		}
		if name == "all" {
			return BoolV{f}
		}
		return IntV{s}
	case "len":
		switch v := env.val(arg(0)).(type) {
		case SliceV:
			if v.len == nil {
				return IntV{newPoly()}
			}
			return IntV{v.len}
		case StrV, SymStr:
			return IntV{x.strLen(v)}
		case CompV:
			return IntV{ConstI(int64(len(v.c.elems)))}
		case MapV:
			return IntV{x.mapLen(v)}
		case NilV:
			return IntV{newPoly()}
		}
		env.fail(e, "len")
	case "cap":
		if v, ok := env.val(arg(0)).(SliceV); ok {
			if v.cap == nil {
				return IntV{newPoly()}
			}
			return IntV{v.cap}
		}
	case "isnil":
		return BoolV{x.equal(env.val(arg(0)), NilV{})}
	case "same":
		if f := env.sameGet(arg(0), arg(1)); f != nil {
			return BoolV{f}
		}
		if f := env.sameGet(arg(1), arg(0)); f != nil {
			return BoolV{f}
		}
		return BoolV{env.eq(env.val(arg(0)), env.val(arg(1)))}
	case "fresh":
		// pointer/slice/map result not shared with anything that existed at entry
		switch v := env.val(arg(0)).(type) {
		case PtrV:
			return BoolV{fbool(v.c != nil && !v.c.pre)}
		case SliceV:
			return BoolV{fbool(v.arr == nil || !v.arr.pre)}
		case MapV:
			return BoolV{fbool(v.m != nil && !v.m.pre)}
		}
		env.fail(e, "fresh")
	case "has":
		m, ok := env.val(arg(0)).(MapV)
		if !ok {
			env.fail(e, "has")
		}
		f := fFalse
		for _, c := range x.mapCases(m, env.val(arg(1))) {
			f = Or(f, And(c.cond, c.present))
		}
		return BoolV{f}
	case "get":
		m, ok := env.val(arg(0)).(MapV)
		if !ok {
			env.fail(e, "get")
		}
		v, _ := x.mapHas(m, env.val(arg(1)))
		return v
	case "concat":
		r := env.val(arg(0))
		for i := 1; i < len(e.Args); i++ {
			r = x.strConcat(r, env.val(arg(i)))
		}
		return r
	case "typeis":
		v := env.val(arg(0))
		iv, ok := v.(IfaceV)
		if !ok {
			env.fail(e, "typeis on %T", v)
		}
		want := ""
		if l, ok := arg(1).(*ast.BasicLit); ok {
			want, _ = strconv.Unquote(l.Value)
		}
		return BoolV{fbool(iv.typ != nil && (iv.typ.String() == want || strings.HasSuffix(iv.typ.String(), want)))}
	case "unfold":
		return env.val(arg(0))
	}
	if h, ok := specFuncs[name]; ok {
		var args []any
		for _, a := range e.Args {
			args = append(args, env.ev(a))
		}
		return h(env, e, args)
	}
	env.fail(e, "unknown specification function %s", name)
	return nil
}

var specFuncs = map[string]func(env *SpecEnv, e *ast.CallExpr, args []any) any{}

func (env *SpecEnv) bytesInt(v any, be bool, e ast.Expr) *Poly {
	x := env.x
	if c, ok := v.(*Cell); ok && c.elems == nil {
		v = x.load(c)
	}
	var cells []*Cell
	switch s := v.(type) {
	case *Cell:
		cells = s.elems
	case CompV:
		cells = s.c.elems
	case PtrV:
		cells = s.c.elems
	case SliceV:
		if s.arr == nil {
			return newPoly()
		}
		n, ok := s.len.IsConst()
		if !ok {
			env.fail(e, "byte string of symbolic length")
		}
		for i := int64(0); i < n.Int64(); i++ {
			cells = append(cells, x.sliceAt(s, ConstI(i)))
		}
	default:
		env.fail(e, "bytes of %T", v)
	}
	r := newPoly()
	n := len(cells)
	for i, c := range cells {
		k := i
		if be {
			k = n - 1 - i
		}
		r = r.Add(x.intOf(x.load(c)).Scale(pow2(uint(8 * k))))
	}
	return r
}

func fieldPow(p *Poly, e *big.Int) *Poly {
	// monomials: exponents multiply; general polynomials only for small e
	if len(p.t) == 1 {
		for _, t := range p.t {
			if t.c.Cmp(bigOne) == 0 {
				var ex []*big.Int
				for _, k := range t.m.exps {
					ex = append(ex, new(big.Int).Mul(k, e))
				}
				q := newPoly()
				if e.Sign() == 0 {
					return ConstI(1)
				}
				q.addTerm(mkMono(t.m.ids, ex), bigOne)
				return q
			}
		}
	}
	r := ConstI(1)
	if !e.IsInt64() || e.Int64() > 16 {
		unsupported("large power of a non-monomial")
	}
	for i := int64(0); i < e.Int64(); i++ {
		r = r.Mul(p)
	}
	return r
}

// mentionsAny: the clause talks about an arbitrary-index variable of the contract.
func (ct *Contract) mentionsAny(c Clause) bool { return c.mentions(ct.anys) }

func (c Clause) mentions(names []string) bool {
	if len(names) == 0 {
		return false
	}
	found := false
	for _, e := range append([]ast.Expr{c.e}, c.ante...) {
		ast.Inspect(e, func(n ast.Node) bool {
			if id, ok := n.(*ast.Ident); ok {
				for _, a := range names {
					if id.Name == a {
						found = true
					}
				}
			}
			return true
		})
	}
	return found
}
