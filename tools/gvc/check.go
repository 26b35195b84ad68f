package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"math/big"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// check.go: the per-property command. The property holds if every obligation of
// its root contracts, and of every contract those proofs rely on, is discharged.

type harnessDef struct {
	Pkg   string   `json:"pkg"`   // package directory relative to the repository
	Files []string `json:"files"` // test files relative to the harness directory
	Run   string   `json:"run"`   // test name pattern
	Stub  bool     `json:"stub"`  // replace the error package by the compatibility stub
}

type propDef struct {
	Harness     []harnessDef `json:"harness"`
	Assumptions []string     `json:"assumptions"`
	Thorough    []string     `json:"thorough"` // contract keys (substring) verified in the thorough tier only
	Bounded     string       `json:"bounded"`  // what the bounded check (harness) stands in for, and its bound; never counted as proved
}

type unit struct {
	ct    *Contract
	layer int
}

func (u unit) id() string { return fmt.Sprintf("%s@%d#%p", u.ct.key, u.layer, u.ct) }

type propRun struct {
	v     *Verifier
	prop  string
	tier  string
	mu    sync.Mutex
	res   map[string][]*FuncResult
	units map[string]unit
	notes []string
}

func layerOf(ct *Contract, dflt int) int {
	if ct.vlayer != 0 {
		return ct.vlayer
	}
	if ct.layer != 0 {
		return ct.layer
	}
	if dflt == 0 {
		return 1
	}
	return dflt
}

// verifyAll verifies the given units and, transitively, every contract their proofs use.
func (pr *propRun) verifyAll(start []unit, nc map[string]bool, res map[string][]*FuncResult) {
	sem := make(chan struct{}, 6)
	var wg sync.WaitGroup
	var add func(u unit)
	seen := map[string]bool{}
	var mu sync.Mutex
	add = func(u unit) {
		mu.Lock()
		if seen[u.id()] || u.ct.trusted != "" {
			mu.Unlock()
			return
		}
		seen[u.id()] = true
		_, have := res[u.id()]
		mu.Unlock()
		pr.mu.Lock()
		pr.units[u.id()] = u
		pr.mu.Unlock()
		wg.Add(1)
		go func() {
			defer wg.Done()
			var rs []*FuncResult
			if have {
				mu.Lock()
				rs = res[u.id()]
				mu.Unlock()
			} else {
				sem <- struct{}{}
				rs = pr.v.VerifyContract(u.ct, u.layer, nc)
				<-sem
				mu.Lock()
				res[u.id()] = rs
				mu.Unlock()
			}
			for _, r := range rs {
				for _, c := range r.used {
					add(unit{c, layerOf(c, u.layer)})
				}
			}
		}()
	}
	for _, u := range start {
		add(u)
	}
	wg.Wait()
	// forget results no longer reachable
	for k := range res {
		if !seen[k] {
			delete(res, k)
		}
	}
}

func failed(rs []*FuncResult) bool {
	for _, r := range rs {
		if r.err != "" || r.vacuous != "" {
			return true
		}
		for _, o := range r.obls {
			if o.res == nil || o.res.Status != "proved" {
				return true
			}
		}
	}
	return false
}

func check(args []string) int {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	repo := fs.String("repo", "/repo", "")
	verif := fs.String("verif", "/verif", "")
	prop := fs.String("property", "", "")
	tier := fs.String("tier", "quick", "")
	budget := fs.Float64("budget", 0, "seconds")
	noHarness := fs.Bool("noharness", false, "")
	fs.Parse(args)
	t0 := time.Now()
	if *budget == 0 {
		*budget = 660
		if *tier == "thorough" {
			*budget = 3000
		}
	}
	seed := 1
	if s, err := strconv.Atoi(os.Getenv("VERIF_SEED")); err == nil {
		seed = s
	}
	v, err := newVerifier(*repo, filepath.Join(*verif, "specs"))
	if err != nil {
		fmt.Println("error:", err)
		return 2
	}
	go v.watchMemory(9 << 30)
	if *tier == "thorough" {
		v.timeout = 60
	}
	end := t0.Add(time.Duration(*budget * float64(time.Second)))
	v.setDeadline(t0.Add(time.Duration(*budget * 0.65 * float64(time.Second))))
	defs := map[string]*propDef{}
	data, err := os.ReadFile(filepath.Join(*verif, "specs", "props.json"))
	if err == nil {
		err = json.Unmarshal(data, &defs)
	}
	if err != nil {
		fmt.Println("error: props.json:", err)
		return 2
	}
	def := defs[*prop]
	if def == nil {
		def = &propDef{}
	}
	pr := &propRun{v: v, prop: *prop, tier: *tier, res: map[string][]*FuncResult{}, units: map[string]unit{}}
	var roots []unit
	isRoot := map[string]bool{}
	for _, ct := range v.db.all {
		for _, p := range ct.props {
			if p == *prop {
				skip := false
				if *tier != "thorough" {
					for _, s := range def.Thorough {
						if strings.Contains(ct.key, s) {
							skip = true
						}
					}
				}
				if !skip {
					u := unit{ct, layerOf(ct, 0)}
					roots = append(roots, u)
					isRoot[u.id()] = true
				}
			}
		}
	}
	if len(roots) == 0 {
		fmt.Println("error: no contracts for property", *prop)
		return 2
	}

	h := &harness{repo: *repo, verif: *verif, prop: *prop, seed: seed, tier: *tier}
	hdone := make(chan struct{})
	go func() {
		defer close(hdone)
		if !*noHarness {
			for _, hd := range def.Harness {
				h.run(hd, "", false)
			}
			if len(h.fails) > 0 {
				// a failing input is at hand: no need to wait long for the proof to fail
				v.setDeadline(time.Now().Add(40 * time.Second))
			}
		}
	}()

	pr.verifyAll(roots, nil, pr.res)
	nfail := func(res map[string][]*FuncResult) (rf, hf []unit) {
		for k, rs := range res {
			if failed(rs) {
				if isRoot[k] {
					rf = append(rf, pr.units[k])
				} else {
					hf = append(hf, pr.units[k])
				}
			}
		}
		sort.Slice(rf, func(i, j int) bool { return rf[i].id() < rf[j].id() })
		sort.Slice(hf, func(i, j int) bool { return hf[i].id() < hf[j].id() })
		return
	}
	rf, hf := nfail(pr.res)
	first := pr.res
	<-hdone
	if len(rf)+len(hf) > 0 && len(h.fails) == 0 && !*noHarness {
		// replay the verifier's counterexamples, then search more deeply
		mf := h.writeModels(first)
		for _, hd := range def.Harness {
			if len(h.fails) == 0 {
				h.run(hd, mf, true)
			}
		}
	}
	if len(rf)+len(hf) > 0 && len(h.fails) == 0 {
		// A contract of an internal function may simply be stronger than needed, or an
		// invariant may talk about a loop that was rewritten: look for another proof.
		v.setDeadline(end)
		for attempt := 1; attempt <= 3 && len(rf)+len(hf) > 0 && !v.expired(); attempt++ {
			nc := map[string]bool{}
			switch attempt {
			case 1:
				for _, u := range hf {
					nc[u.ct.key] = true
				}
				if len(hf) == 0 {
					continue
				}
			default:
				for k, rs := range first {
					if failed(rs) {
						if !isRoot[k] {
							nc[pr.units[k].ct.key] = true
						}
						for _, r := range rs {
							for key, c := range r.used {
								if c.trusted == "" {
									nc[key] = true
								}
							}
						}
					}
				}
				if attempt == 3 {
					for _, u := range rf {
						nc["loops:"+u.ct.key] = true
					}
					for _, u := range hf {
						nc["loops:"+u.ct.key] = true
					}
				}
			}
			// keep results that do not depend on an inlined contract
			res2 := map[string][]*FuncResult{}
			for k, rs := range first {
				keep := !failed(rs)
				for _, r := range rs {
					for key := range r.used {
						if nc[key] {
							keep = false
						}
					}
				}
				if keep {
					res2[k] = rs
				}
			}
			pr.verifyAll(roots, nc, res2)
			rf2, hf2 := nfail(res2)
			if len(rf2)+len(hf2) == 0 {
				pr.notes = append(pr.notes, fmt.Sprintf("proof found in attempt %d with these helper contracts not used: %s", attempt+1, strings.Join(keys(nc), ", ")))
			}
			if len(rf2)+len(hf2) == 0 || attempt == 3 {
				pr.res = res2
			}
			rf, hf = rf2, hf2
		}
	}
	viol := 0
	rdir := filepath.Join(*verif, "evidence", "replay")
	os.MkdirAll(rdir, 0755)
	rp := filepath.Join(rdir, *prop+".txt")
	os.Remove(rp)
	if len(rf)+len(hf) > 0 || len(h.fails) > 0 {
		viol = 1
		var sb strings.Builder
		fmt.Fprintf(&sb, "property %s\n", *prop)
		for _, f := range h.fails {
			fmt.Fprintf(&sb, "failing input (real code, %s): %s\n", f.where, f.text)
		}
		if len(h.fails) > 0 {
			fmt.Fprintf(&sb, "reproduce: %s\n", h.cmd)
		}
		for _, res := range []map[string][]*FuncResult{first, pr.res} {
			for k, rs := range res {
				if !failed(rs) {
					continue
				}
				for _, r := range rs {
					describe(&sb, r, pr.units[k].layer)
				}
			}
			if len(rf)+len(hf) == 0 || len(h.fails) > 0 {
				break
			}
			sb.WriteString("---- last proof attempt\n")
		}
		os.WriteFile(rp, []byte(sb.String()), 0644)
		fmt.Print(firstLines(sb.String(), 40))
		if len(h.fails) > 0 {
			fmt.Printf("VIOLATION property=%s replay=%s\n", *prop, rp)
		} else {
			fmt.Printf("VIOLATION property=%s replay=%s no-failing-input-found\n", *prop, rp)
		}
	}
	pr.evidence(*verif, *prop, *tier, seed, def, h, viol, time.Since(t0).Seconds(), roots)
	killServers()
	return viol
}

func keys(m map[string]bool) []string {
	var r []string
	for k := range m {
		r = append(r, shortKey(k))
	}
	sort.Strings(r)
	return r
}

func firstLines(s string, n int) string {
	ls := strings.SplitAfter(s, "\n")
	if len(ls) > n {
		ls = append(ls[:n], "...\n")
	}
	return strings.Join(ls, "")
}

func describe(sb *strings.Builder, r *FuncResult, layer int) {
	if !failed([]*FuncResult{r}) || r.err == outOfTime {
		return
	}
	fmt.Fprintf(sb, "function %s [%s] (layer %d)\n", r.ct.key, r.variant, layer)
	if r.err != "" {
		fmt.Fprintf(sb, "  not verified: %s\n", r.err)
	}
	if r.vacuous != "" {
		fmt.Fprintf(sb, "  vacuous: %s\n", r.vacuous)
	}
	n := 0
	for _, o := range r.obls {
		if o.res != nil && o.res.Status == "proved" {
			continue
		}
		n++
		if n > 6 {
			continue
		}
		st, d := "?", ""
		if o.res != nil {
			st, d = o.res.Status, o.res.Detail
		}
		if len(d) > 800 {
			d = d[:800] + "..."
		}
		fmt.Fprintf(sb, "  obligation %s (%s) at %s: %s\n    verifier: %s\n    path: %s\n", o.kind, st, o.pos, o.desc, d, o.path)
		if o.res != nil && len(o.res.Model) > 0 {
			var ks []string
			for k := range o.res.Model {
				if len(k) < 60 {
					ks = append(ks, k)
				}
			}
			sort.Strings(ks)
			for _, k := range ks {
				fmt.Fprintf(sb, "    model %s = %v\n", k, o.res.Model[k])
			}
		}
	}
	if n > 6 {
		fmt.Fprintf(sb, "  and %d more\n", n-6)
	}
}

// ---------------------------------------------------------------- evidence

func (pr *propRun) evidence(verif, prop, tier string, seed int, def *propDef, h *harness, viol int, wall float64, roots []unit) {
	total, done, reach := 0, 0, 0
	be := map[string]int{}
	solver := 0.0
	type fn struct {
		Function    string  `json:"function"`
		Layer       int     `json:"layer"`
		Role        string  `json:"role"`
		Variants    int     `json:"variants"`
		Paths       int     `json:"paths"`
		Obligations int     `json:"obligations"`
		Discharged  int     `json:"discharged"`
		WallS       float64 `json:"wall_s"`
	}
	var fns []fn
	inl := map[string]bool{}
	assum := map[string]bool{}
	rootID := map[string]bool{}
	for _, r := range roots {
		rootID[r.id()] = true
	}
	var sample []string
	for k, rs := range pr.res {
		u := pr.units[k]
		f := fn{Function: shortKey(u.ct.key), Layer: u.layer, Role: "helper", Variants: len(rs)}
		if rootID[k] {
			f.Role = "root"
		}
		if u.ct.lemma {
			f.Role += " lemma"
		}
		for _, r := range rs {
			f.Paths += r.paths
			for _, o := range r.obls {
				if o.kind == "reachable" {
					reach++
					continue
				}
				f.Obligations++
				if o.res != nil {
					solver += o.res.Time
					if o.res.Status == "proved" {
						f.Discharged++
						be[o.res.Backend]++
					}
				}
			}
			if r.wall > f.WallS {
				f.WallS = r.wall
			}
			for i := range r.inlined {
				inl[shortKey(i)] = true
			}
			for a := range r.assumed {
				assum[shortKey(u.ct.key)+": "+a] = true
			}
			for _, c := range r.used {
				if c.trusted != "" {
					assum["assumed contract (not proved): "+shortKey(c.key)+": "+c.trusted] = true
				}
			}
		}
		for _, c := range u.ct.ensures {
			if rootID[k] && len(sample) < 12 {
				sample = append(sample, shortKey(u.ct.key)+" ensures "+c.text)
			}
		}
		if u.ct.note != "" {
			assum[shortKey(u.ct.key)+": "+u.ct.note] = true
		}
		total += f.Obligations
		done += f.Discharged
		fns = append(fns, f)
	}
	sort.Slice(fns, func(i, j int) bool { return fns[i].Function < fns[j].Function })
	for _, a := range def.Assumptions {
		assum[a] = true
	}
	var as []string
	for a := range assum {
		as = append(as, a)
	}
	sort.Strings(as)
	as = append(as,
		"memory model: pointer parameters are either identical or disjoint (every identical/disjoint pattern is a separate proof); package-level variables keep their initial values",
		"single-threaded execution; no stack or heap exhaustion",
		"integer arguments of loops and lengths are bounded by 2^62")
	tb := []string{
		"gvc (verif/tools/gvc): loader, symbolic executor over go/ast+go/types, weakest-precondition style obligation generation, polynomial simplifier and GF(p) ideal membership",
		"z3 " + ver("z3-new") + ", z3 " + ver("z3") + ", cvc5 " + ver("cvc5") + " (an answer from any one is accepted)",
		"go " + runtime.Version() + " type checker; models of math/bits, encoding/binary, math/big and the other external functions listed in intrinsics.go",
	}
	ev := map[string]any{
		"property": prop, "tier": tier, "seed": seed, "level": "proof", "wall_s": wall, "violations": viol,
		"assumptions": as,
		"coverage": map[string]any{
			"obligations": total, "discharged": done, "reachability_checks": reach,
			"checker_cmd":          fmt.Sprintf("%s/check.sh %s %s", verif, prop, tier),
			"trusted_base":         tb,
			"functions":            fns,
			"inlined_functions":    keys2(inl),
			"discharged_by":        be,
			"solver_s":             solver,
			"samples":              sample,
			"replay_cases_run":     h.cases,
			"replay_log":           h.log,
			"notes":                pr.notes,
			"source_revision_note": "obligations are generated from the working tree of the repository on this run",
		},
	}
	if def.Bounded != "" {
		ev["level"] = "other"
		cov := ev["coverage"].(map[string]any)
		cov["explanation"] = "Contracts of the functions listed are proved; the remaining functions are covered by a bounded check only: " + def.Bounded
		cov["bounded_cases_run"] = h.cases
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verif, "evidence"), 0755)
	os.WriteFile(filepath.Join(verif, "evidence", prop+".json"), b, 0644)
	fmt.Printf("%s: %d/%d obligations discharged in %d functions (%d inlined), %d concrete cases, %.1fs\n", prop, done, total, len(fns), len(inl), h.cases, wall)
}

func keys2(m map[string]bool) []string { return keys(m) }

func ver(c string) string {
	out, err := exec.Command(c, "--version").Output()
	if err != nil {
		return "(absent)"
	}
	f := strings.Fields(string(out))
	for _, w := range f {
		if len(w) > 2 && w[0] >= '0' && w[0] <= '9' && strings.Contains(w, ".") {
			return w
		}
	}
	return "?"
}

// ---------------------------------------------------------------- replay on the real code

type harnessFail struct{ where, text string }

type harness struct {
	repo, verif, prop, tier string
	seed                    int
	cases                   int
	fails                   []harnessFail
	log                     []string
	cmd                     string
}

func (h *harness) writeModels(res map[string][]*FuncResult) string {
	type mdl struct {
		Func    string            `json:"func"`
		Variant string            `json:"variant"`
		Vals    map[string]string `json:"vals"`
	}
	var ms []mdl
	for _, rs := range res {
		for _, r := range rs {
			for _, o := range r.obls {
				if o.res != nil && o.res.Status != "proved" && len(o.res.Model) > 0 {
					m := mdl{shortKey(r.ct.key), r.variant, map[string]string{}}
					for k, v := range o.res.Model {
						if len(k) < 80 {
							m.Vals[k] = v.String()
						}
					}
					ms = append(ms, m)
				}
			}
		}
	}
	b, _ := json.MarshalIndent(ms, "", " ")
	d := filepath.Join(h.verif, "evidence", "replay")
	os.MkdirAll(d, 0755)
	p := filepath.Join(d, h.prop+".models.json")
	os.WriteFile(p, b, 0644)
	return p
}

var _ = big.NewInt

func (h *harness) run(hd harnessDef, models string, deep bool) {
	tmp, err := os.MkdirTemp("", "gvch")
	if err != nil {
		h.log = append(h.log, err.Error())
		return
	}
	defer os.RemoveAll(tmp)
	rep := map[string]string{}
	drop := func(dir string, test bool) {
		es, _ := os.ReadDir(dir)
		for _, e := range es {
			if strings.HasSuffix(e.Name(), ".go") && strings.HasSuffix(e.Name(), "_test.go") == test {
				rep[filepath.Join(dir, e.Name())] = ""
			}
		}
	}
	pdir := filepath.Join(h.repo, hd.Pkg)
	drop(pdir, true)
	pkgName := filepath.Base(hd.Pkg)
	hdir := filepath.Join(h.verif, "harness")
	if hd.Stub {
		ed := filepath.Join(h.repo, "bandersnatch/errorsWithData")
		drop(ed, false)
		drop(ed, true)
		rep[filepath.Join(ed, "zz_stub.go")] = filepath.Join(hdir, "stub", "errorsWithData.go.txt")
		be := filepath.Join(h.repo, "bandersnatch/bandersnatchErrors")
		if _, err := os.Stat(filepath.Join(hdir, "stub", "bandersnatchErrors.go.txt")); err == nil {
			drop(be, false)
			rep[filepath.Join(be, "zz_stub.go")] = filepath.Join(hdir, "stub", "bandersnatchErrors.go.txt")
		}
	}
	hb, err := os.ReadFile(filepath.Join(hdir, "helper.go.txt"))
	if err != nil {
		h.log = append(h.log, err.Error())
		return
	}
	hp := filepath.Join(tmp, "helper_test.go")
	os.WriteFile(hp, []byte(strings.Replace(string(hb), "package PKG", "package "+pkgName, 1)), 0644)
	rep[filepath.Join(pdir, "zz_gvc_helper_test.go")] = hp
	for i, f := range hd.Files {
		rep[filepath.Join(pdir, fmt.Sprintf("zz_gvc_%d_test.go", i))] = filepath.Join(hdir, f)
	}
	ob, _ := json.Marshal(map[string]any{"Replace": rep})
	op := filepath.Join(tmp, "overlay.json")
	os.WriteFile(op, ob, 0644)
	outp := filepath.Join(tmp, "out.txt")
	tl := "100s"
	if deep && h.tier == "thorough" {
		tl = "400s"
	}
	run := hd.Run
	if run == "" {
		run = "TestGvc" + h.prop
	}
	cmd := exec.Command("go", "test", "-overlay", op, "-count=1", "-vet=off", "-timeout", tl, "-run", "^"+run, "./"+hd.Pkg)
	cmd.Dir = h.repo
	env := append(os.Environ(), "GVC_OUT="+outp, fmt.Sprintf("GVC_SEED=%d", h.seed), "GVC_MODELS="+models)
	if deep {
		env = append(env, "GVC_DEEP=1")
	} else if h.tier == "thorough" {
		env = append(env, "GVC_DEEP=1")
	}
	cmd.Env = env
	out, err := cmd.CombinedOutput()
	h.cmd = fmt.Sprintf("%s/check.sh %s (runs %v with the overlay of %v in %s)", h.verif, h.prop, run, hd.Files, hd.Pkg)
	got := false
	if f, e := os.Open(outp); e == nil {
		sc := bufio.NewScanner(f)
		sc.Buffer(nil, 1<<20)
		for sc.Scan() {
			l := sc.Text()
			if strings.HasPrefix(l, "CASES ") {
				n, _ := strconv.Atoi(strings.TrimSpace(l[6:]))
				h.cases += n
				got = true
			}
			if strings.HasPrefix(l, "FAIL ") && len(h.fails) < 10 {
				h.fails = append(h.fails, harnessFail{hd.Pkg, l[5:]})
			}
		}
		f.Close()
	}
	if err != nil && len(h.fails) == 0 {
		s := string(out)
		if len(s) > 2000 {
			s = s[:2000]
		}
		h.log = append(h.log, fmt.Sprintf("harness %v in %s: %v: %s", hd.Files, hd.Pkg, err, s))
	} else if !got {
		h.log = append(h.log, fmt.Sprintf("harness %v in %s ran no cases", hd.Files, hd.Pkg))
	}
}

const outOfTime = "time budget used up"
