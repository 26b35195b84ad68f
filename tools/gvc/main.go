package main

import (
	"flag"
	"fmt"
	"go/types"
	"os"
	"runtime/pprof"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

const modulePath = "github.com/GottfriedHerold/Bandersnatch"

var loadList = []string{"bandersnatch/exponents", "bandersnatch/common", "bandersnatch/errorsWithData", "bandersnatch/fieldElements", "bandersnatch/curvePoints",
	"internal/stack", "internal/utils", "internal/callcounters"}

func newVerifier(repo, specs string) (*Verifier, error) {
	l := NewLoader(repo, modulePath)
	for _, p := range loadList {
		if _, err := l.Load(modulePath + "/" + p); err != nil {
			return nil, fmt.Errorf("loading %s: %v", p, err)
		}
	}
	if _, err := l.Load("math/big"); err != nil {
		return nil, err
	}
	db, err := loadSpecs(specs, modulePath)
	if err != nil {
		return nil, err
	}
	return &Verifier{l: l, db: db, gcache: map[string]*Cell{}, opaque: map[string]types.Type{}, tags: map[string]int{}, timeout: 20, abstractInline: map[string]bool{}}, nil
}

// VerifyContract runs all variants and discharges their obligations.
func (v *Verifier) VerifyContract(ct *Contract, layer int, noContract map[string]bool) []*FuncResult {
	fn := v.findFunc(ct.key)
	if fn == nil && !ct.lemma {
		return []*FuncResult{{ct: ct, err: "function not found: " + ct.key}}
	}
	vars := []variant{{}}
	if fn != nil {
		vars = v.variants(ct, fn)
	}
	out := make([]*FuncResult, len(vars))
	var wg sync.WaitGroup
	for i := range vars {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			t0 := time.Now()
			out[i] = v.verifyVariant(ct, fn, vars[i], layer, noContract)
			func() {
				defer func() {
					if r := recover(); r != nil {
						out[i].err = "internal error: " + fmt.Sprint(r)
					}
				}()
				v.discharge(out[i])
			}()
			out[i].wall = time.Since(t0).Seconds()
		}(i)
	}
	wg.Wait()
	return out
}

var cpuSem = make(chan struct{}, 16)

func (v *Verifier) discharge(r *FuncResult) {
	to := v.timeout
	if r.ct.timeout > 0 {
		to = r.ct.timeout
	}
	var wg sync.WaitGroup
	var bad int32
	for _, o := range r.obls {
		if o.kind == "reachable" {
			wg.Add(1)
			go func(o *Obligation) {
				defer wg.Done()
				o.res = reachability(o)
			}(o)
			continue
		}
		if o.goal.k == FTrue {
			o.res = &Result{Status: "proved", Backend: "simplifier"}
			continue
		}
		wg.Add(1)
		go func(o *Obligation) {
			defer wg.Done()
			cpuSem <- struct{}{}
			defer func() { <-cpuSem }()
			defer func() {
				if r := recover(); r != nil {
					o.res = &Result{Status: "unknown", Detail: "internal error: " + fmt.Sprint(r)}
					atomic.AddInt32(&bad, 1)
				}
			}()
			if atomic.LoadInt32(&bad) >= 4 {
				o.res = &Result{Status: "skipped", Detail: "not attempted after other failures"}
				return
			}
			if v.expired() {
				o.res = &Result{Status: "skipped", Detail: "time budget used up"}
				return
			}
			o.res = o.ctx.Prove(o.hyps, o.goal, to)
			if o.res.Status != "proved" {
				atomic.AddInt32(&bad, 1)
			}
		}(o)
	}
	wg.Wait()
}

// reachability: the hypotheses are not contradictory (guards against vacuous proofs).
func reachability(o *Obligation) *Result {
	if len(o.hyps) == 0 {
		return &Result{Status: "proved", Backend: "trivially satisfiable"}
	}
	for _, h := range o.hyps {
		if o.ctx.simp(h).k == FFalse {
			return &Result{Status: "refuted", Detail: "unsatisfiable precondition"}
		}
	}
	fs := append(append([]*Formula(nil), o.hyps...), o.ctx.defFacts(o.hyps)...)
	st, be, _ := o.ctx.checkSat(fs, 5, false, []bool{false}, backends)
	if st == "unsat" {
		return &Result{Status: "refuted", Backend: be, Detail: "unsatisfiable precondition"}
	}
	if st == "sat" {
		return &Result{Status: "proved", Backend: be}
	}
	return &Result{Status: "proved", Backend: "not refuted"}
}

func main() {
	if p := os.Getenv("GVC_PROF"); p != "" {
		f, _ := os.Create(p)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	if len(os.Args) < 2 {
		fmt.Println("usage: gvc dev|check ...")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "dev":
		dev(os.Args[2:])
		killServers()
	case "check":
		os.Exit(check(os.Args[2:]))
	default:
		fmt.Println("unknown command")
		os.Exit(2)
	}
}

func dev(args []string) {
	fs := flag.NewFlagSet("dev", flag.ExitOnError)
	repo := fs.String("repo", "/repo", "")
	specs := fs.String("specs", "/verif/specs", "")
	layer := fs.Int("layer", 0, "")
	verbose := fs.Bool("v", false, "")
	noc := fs.String("inline", "", "comma separated keys (substring) to inline")
	to := fs.Float64("t", 20, "")
	fs.Parse(args)
	v, err := newVerifier(*repo, *specs)
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	v.timeout = *to
	nc := map[string]bool{}
	for _, s := range strings.Split(*noc, ",") {
		if s == "" {
			continue
		}
		for k := range v.db.contracts {
			if s == "all" || strings.Contains(k, s) {
				nc[k] = true
			}
		}
	}
	for _, ct := range v.db.all {
		hit := fs.NArg() == 0
		for _, a := range fs.Args() {
			if strings.Contains(ct.key, a) {
				hit = true
			}
		}
		if !hit || ct.trusted != "" {
			continue
		}
		layers := []int{layerOf(ct, 0)}
		if *layer != 0 {
			if layerOf(ct, *layer) != *layer {
				continue
			}
			layers = []int{*layer}
		}
		for _, ly := range layers {
			for _, r := range v.VerifyContract(ct, ly, nc) {
				report(r, *verbose)
			}
		}
	}
}

func report(r *FuncResult, verbose bool) {
	n, ok := 0, 0
	var solver float64
	be := map[string]int{}
	for _, o := range r.obls {
		n++
		if o.res != nil && o.res.Status == "proved" {
			ok++
			be[o.res.Backend]++
		}
		if o.res != nil {
			solver += o.res.Time
		}
	}
	st := "OK  "
	if r.err != "" || ok != n || r.vacuous != "" {
		st = "FAIL"
	}
	var bs []string
	for k, c := range be {
		bs = append(bs, fmt.Sprintf("%s:%d", k, c))
	}
	sort.Strings(bs)
	fmt.Printf("%s %s [%s] obligations %d/%d trivial %d paths %d  %.1fs solver %.1fs %s\n", st, shortKey(r.ct.key), r.variant, ok, n, r.trivial, r.paths, r.wall, solver, strings.Join(bs, " "))
	if r.err != "" {
		fmt.Println("     unsupported:", r.err)
	}
	if r.vacuous != "" {
		fmt.Println("     vacuous:", r.vacuous)
	}
	if os.Getenv("GVC_SLOW") != "" {
		for _, o := range r.obls {
			if o.res != nil && o.res.Time > 0.5 {
				fmt.Printf("     %.1fs %s %s at %s: %s | %.200s\n", o.res.Time, o.res.Backend, o.kind, o.pos, o.desc, o.path)
			}
		}
	}
	for _, o := range r.obls {
		if o.res == nil || o.res.Status != "proved" || os.Getenv("GVC_ALL") != "" {
			s := "?"
			d := ""
			if o.res != nil {
				s = o.res.Status
				d = o.res.Detail
			}
			fmt.Printf("     %s %s at %s: %s\n", s, o.kind, o.pos, o.desc)
			if len(d) > 600 {
				d = d[:600] + "..."
			}
			if verbose {
				fmt.Println("        path:", o.path)
				fmt.Println("        ", d)
				if o.res != nil && o.res.Model != nil {
					var ks []string
					for k := range o.res.Model {
						ks = append(ks, k)
					}
					sort.Strings(ks)
					for _, k := range ks {
						if len(k) < 60 {
							fmt.Printf("         %s = %v\n", k, o.res.Model[k])
						}
					}
				}
				for _, h := range o.hyps {
					hs := o.ctx.show(h)
					if len(hs) > 300 {
						hs = hs[:300]
					}
					fmt.Println("        hyp:", hs)
				}
			}
		}
	}
}
