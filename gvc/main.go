package main

// gvc: a deductive verifier for Go. It loads the current source of the
// repository as go/ssa, reads contracts from .gvc files, generates proof
// obligations function by function and discharges them with SMT solvers.

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

var repoDir = "/repo"

type funcReport struct {
	Func        string   `json:"func"`
	Obligations int      `json:"obligations"`
	Discharged  int      `json:"discharged"`
	Paths       int      `json:"-"`
	Millis      int64    `json:"wall_ms"`
	Failed      []failed `json:"failed,omitempty"`
	Trusted     bool     `json:"trusted,omitempty"`
	Cover       string   `json:"cover,omitempty"`
	Loops       int      `json:"loops,omitempty"`
	Error       string   `json:"error,omitempty"`
}

type failed struct {
	Name   string `json:"name"`
	Kind   string `json:"kind"`
	Pos    string `json:"pos,omitempty"`
	Result string `json:"result"`
	Detail string `json:"detail,omitempty"`
	Script string `json:"script,omitempty"`
}

type report struct {
	Functions   []*funcReport  `json:"functions"`
	Lemmas      []*funcReport  `json:"lemmas,omitempty"`
	Obligations int            `json:"obligations"`
	Discharged  int            `json:"discharged"`
	BySolver    map[string]int `json:"by_solver"`
	SolverMs    int64          `json:"solver_ms"`
	Queries     int            `json:"queries"`
	Externs     []string       `json:"externs_used"`
	Axioms      []string       `json:"axioms_used"`
	Trusted     []string       `json:"trusted_contracts"`
	Assumed     []string       `json:"assumed_clauses"`
	Inlined     []string       `json:"inlined"`
	Covers      int            `json:"covers"`
	WallS       float64        `json:"wall_s"`
	Failures    int            `json:"failures"`
}

func main() {
	specs := flag.String("specs", "/verif/contracts", "contract directory")
	props := flag.String("props", "", "properties (comma separated) whose contracts are verified")
	fns := flag.String("func", "", "only contracts whose key contains this")
	out := flag.String("out", "", "report file")
	timeout := flag.Int("timeout", 20, "seconds per solver call")
	dump := flag.String("dump", "", "directory for SMT files")
	verbose := flag.Bool("v", false, "print every obligation")
	dumpSSA := flag.String("ssa", "", "print the SSA of a function key and exit")
	repo := flag.String("repo", "/repo", "repository")
	workers := flag.Int("j", 8, "parallel solver processes")
	sigs := flag.Bool("writesigs", false, "record the parameter names of the functions under contract and exit")
	flag.Parse()
	repoDir = *repo
	debug.SetGCPercent(400)
	start := time.Now()
	x, sps, err := load()
	if err != nil {
		fatal("%v", err)
	}
	if *dumpSSA != "" {
		for _, f := range allFuncs(x.prog, sps) {
			if strings.Contains(fnKey(f), *dumpSSA) {
				fmt.Println("KEY", fnKey(f))
				f.WriteTo(os.Stdout)
			}
		}
		return
	}
	x.solver = newSolver(time.Duration(*timeout)*time.Second, *workers)
	x.solver.dump = *dump
	if *dump != "" {
		_ = os.MkdirAll(*dump, 0o755)
	}
	ss := x.loadSpecs(*specs)
	x.externs = ss.externs
	x.ufuncs = ss.funcs
	x.axioms = ss.axioms
	byKey := map[string]*ssa.Function{}
	for _, f := range allFuncs(x.prog, sps) {
		byKey[fnKey(f)] = f
	}
	want := map[string]bool{}
	for _, p := range strings.Split(*props, ",") {
		if p != "" {
			want[p] = true
		}
	}
	var missing []*Contract
	all := map[string][]*Contract{}
	for _, c := range ss.contracts {
		c.fn = byKey[c.Key]
		if c.fn == nil {
			missing = append(missing, c)
			continue
		}
		if c.Variant == "" {
			if x.contracts[c.Key] != nil {
				fmt.Fprintf(os.Stderr, "gvc: two contracts for %s\n", c.Key)
				os.Exit(2)
			}
			x.contracts[c.Key] = c
		}
		all[c.Key] = append(all[c.Key], c)
	}
	x.loadSigs(*specs)
	if *sigs {
		if err := writeSigs(*specs, ss.contracts); err != nil {
			fmt.Fprintln(os.Stderr, "gvc:", err)
			os.Exit(2)
		}
		return
	}
	rep := &report{BySolver: map[string]int{}}
	markEvents(ss.contracts)
	x.elabAxioms()
	done := map[*Contract]bool{}
	var queue []*Contract
	sel := func(ps []string, key string) bool {
		if *fns != "" && !strings.Contains(key, *fns) {
			return false
		}
		if len(want) == 0 {
			return true
		}
		for _, p := range ps {
			if want[p] {
				return true
			}
		}
		return false
	}
	for _, c := range ss.contracts {
		if c.fn != nil && !c.InlineOnly && sel(c.Props, c.Key) {
			queue = append(queue, c)
		}
	}
	for _, c := range missing {
		if c.Optional || !sel(c.Props, c.Key) {
			continue
		}
		rep.Functions = append(rep.Functions, &funcReport{Func: c.Key, Obligations: 1, Failed: []failed{{Name: "function under contract exists", Kind: "contract", Result: "missing", Detail: "no function " + c.Key + " in the current source"}}})
	}
	for len(queue) > 0 {
		c := queue[0]
		queue = queue[1:]
		if done[c] {
			continue
		}
		done[c] = true
		before := map[string]bool{}
		for k := range det(x.used) {
			before[k] = true
		}
		fr := x.verifyOne(c, *verbose, rep)
		rep.Functions = append(rep.Functions, fr)
		if *fns == "" {
			var ks []string
			for k := range det(x.used) {
				if strings.HasPrefix(k, "contract ") && !before[k] {
					ks = append(ks, strings.TrimPrefix(k, "contract "))
				}
			}
			sort.Strings(ks)
			for _, k := range ks {
				for _, d := range all[k] {
					queue = append(queue, d)
				}
			}
		}
	}
	for _, l := range ss.lemmas {
		if sel(l.Props, l.Name) {
			rep.Lemmas = append(rep.Lemmas, x.verifyLemmaOne(l, *verbose, rep))
		}
	}
	x.solver.wait()
	for _, f := range x.later {
		f()
	}
	for _, f := range append(append([]*funcReport{}, rep.Functions...), rep.Lemmas...) {
		rep.Obligations += f.Obligations
		rep.Discharged += f.Discharged
		rep.Failures += len(f.Failed)
	}
	for k := range det(x.used) {
		switch {
		case strings.HasPrefix(k, "extern "):
			rep.Externs = append(rep.Externs, strings.TrimPrefix(k, "extern ")+" ("+x.externs[strings.TrimPrefix(k, "extern ")].Kind+")")
		case strings.HasPrefix(k, "axiom "):
			rep.Axioms = append(rep.Axioms, strings.TrimPrefix(k, "axiom "))
		}
	}
	for c := range det(done) {
		if c.Trusted {
			rep.Trusted = append(rep.Trusted, c.Key)
		}
		if c.Goroutines {
			rep.Assumed = append(rep.Assumed, c.Key+": goroutines run as a whole at their go statement (they share only what is changed under the lock)")
		}
		for _, a := range c.Assumes {
			rep.Assumed = append(rep.Assumed, c.Key+": "+a.Text)
		}
	}
	for k := range det(x.inlined) {
		rep.Inlined = append(rep.Inlined, k)
	}
	sort.Strings(rep.Externs)
	sort.Strings(rep.Axioms)
	sort.Strings(rep.Trusted)
	sort.Strings(rep.Assumed)
	sort.Strings(rep.Inlined)
	rep.Queries = x.solver.queries
	rep.SolverMs = x.solver.millis
	rep.WallS = time.Since(start).Seconds()
	if *out != "" {
		b, _ := json.MarshalIndent(rep, "", " ")
		_ = os.MkdirAll(filepath.Dir(*out), 0o755)
		if err := os.WriteFile(*out, append(b, '\n'), 0o644); err != nil {
			fatal("%v", err)
		}
	}
	fmt.Printf("gvc: %d functions, %d/%d obligations discharged, %d queries, %.1fs\n", len(rep.Functions), rep.Discharged, rep.Obligations, rep.Queries, rep.WallS)
	for _, f := range append(append([]*funcReport{}, rep.Functions...), rep.Lemmas...) {
		for _, d := range f.Failed {
			fmt.Printf("FAILED %s: %s [%s] %s\n", f.Func, d.Name, d.Result, firstN(d.Detail, 300))
		}
	}
	if rep.Failures > 0 {
		os.Exit(1)
	}
}

func firstN(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

func (x *Exec) verifyOne(c *Contract, verbose bool, rep *report) *funcReport {
	fr := &funcReport{Func: c.Key}
	if c.Variant != "" {
		fr.Func += " variant " + c.Variant
	}
	t0 := time.Now()
	defer func() { fr.Millis = time.Since(t0).Milliseconds() }()
	if c.Trusted {
		fr.Trusted = true
		return fr
	}
	x.obls = nil
	x.loopsDone = map[string]*LoopStat{}
	err := x.verify(c)
	fr.Loops = len(x.loopsDone)
	if err != nil {
		x.mute = 0
		fr.Obligations++
		fr.Error = err.Error()
		fr.Failed = append(fr.Failed, failed{Name: "function is within the verifier's subset", Kind: "subset", Result: "unsupported", Detail: err.Error()})
		return fr
	}
	if x.weakerBase(c) {
		// the contract without a variant, proved in the same run for more
		// inputs, has these obligations already
		var keep []*Obligation
		for _, o := range x.obls {
			if o.Kind != "precondition" && o.Kind != "frame" {
				keep = append(keep, o)
			}
		}
		x.obls = keep
	}
	x.finishReport(fr, verbose, rep)
	return fr
}

// weakerBase says whether the variant only adds requirements to the function's
// contract and has its frame.
func (x *Exec) weakerBase(c *Contract) bool {
	b := x.contracts[c.Key]
	if c.Variant == "" || b == nil || b.Trusted || len(b.Assumes) != 0 || b.Callbacks != c.Callbacks {
		return false
	}
	has := func(cs []*Clause, t string) bool {
		for _, q := range cs {
			if q.Text == t {
				return true
			}
		}
		return false
	}
	for _, r := range b.Requires {
		if !has(c.Requires, r.Text) {
			return false
		}
	}
	for _, m := range b.ModRefs {
		if !has(c.ModRefs, m.Text) {
			return false
		}
	}
	if len(b.ModRefs) != len(c.ModRefs) || strings.Join(b.Modifies, " ") != strings.Join(c.Modifies, " ") {
		return false
	}
	for _, p := range c.Props {
		if !contains(b.Props, p) {
			return false
		}
	}
	return b.NoPanic == c.NoPanic || !c.NoPanic
}

func (x *Exec) finishReport(fr *funcReport, verbose bool, rep *report) {
	x.solver.dischargeAll(x, x.obls)
	obls := x.obls
	x.later = append(x.later, func() { collectReport(obls, fr, verbose, rep) })
}

func collectReport(obls []*Obligation, fr *funcReport, verbose bool, rep *report) {
	n := 0
	for _, o := range obls {
		if verbose {
			fmt.Printf("%-10s %6dms %s: %s %s %s\n", o.Result, o.Millis, fr.Func, o.Name, o.Pos, o.Solver)
		}
		if o.Cover {
			rep.Covers++
			fr.Cover = o.Result
			if o.Result == "vacuous" {
				fr.Obligations++
				fr.Failed = append(fr.Failed, failed{Name: o.Name, Kind: "cover", Result: "vacuous"})
			}
			continue
		}
		n++
		fr.Obligations++
		if o.Result == "proved" {
			fr.Discharged++
			rep.BySolver[o.Solver]++
			continue
		}
		fr.Failed = append(fr.Failed, failed{Name: o.Name, Kind: o.Kind, Pos: o.Pos, Result: o.Result, Detail: o.Detail, Script: firstN(o.Script, 200000)})
	}
	if n == 0 {
		fr.Obligations++
		fr.Failed = append(fr.Failed, failed{Name: "at least one obligation was generated", Kind: "vacuity", Result: "none"})
	}
}

func (x *Exec) verifyLemmaOne(l *Lemma, verbose bool, rep *report) *funcReport {
	fr := &funcReport{Func: "lemma " + l.Name}
	t0 := time.Now()
	defer func() { fr.Millis = time.Since(t0).Milliseconds() }()
	x.obls = nil
	err := x.verifyLemma(l)
	if err != nil {
		x.mute = 0
		fr.Obligations++
		fr.Failed = append(fr.Failed, failed{Name: "lemma is within the verifier's subset", Kind: "subset", Result: "unsupported", Detail: err.Error()})
		return fr
	}
	x.finishReport(fr, verbose, rep)
	return fr
}

func (x *Exec) verifyLemma(l *Lemma) (err error) {
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(unsupportedErr); ok {
				err = u
				return
			}
			err = internalErr(r)
		}
	}()
	x.cur = &Contract{Key: "lemma " + l.Name, Props: l.Props}
	x.steps, x.depth, x.mute = 0, 0, 0
	st := x.newState()
	x.runInits(st, l.Inits)
	params := map[string]sv{}
	for i, n := range l.Names {
		ty := x.specType(l.Types[i], l.Pkg)
		t := Const("l."+n, sortOf(ty))
		for _, f := range wfFacts(ty, t, st.alloc) {
			st.assumeWF(f)
		}
		params[n] = sv{&Val{T: t}, ty}
	}
	x.entry = st.copy()
	for _, r := range l.Requires {
		st.assume(x.evalClause(r, &specCtx{x: x, st: st, old: x.entry, params: params}))
	}
	for _, e := range l.Ensures {
		g := x.evalClause(e, &specCtx{x: x, st: st, old: x.entry, params: params})
		x.oblige(st, "lemma "+e.Text, "lemma", "", g)
	}
	x.obls = append(x.obls, &Obligation{Name: "hypotheses of the lemma are satisfiable", Kind: "cover", Func: l.Name, Cover: true, Hyps: st.hyps(), Goal: tFalse})
	return nil
}

func load() (*Exec, []*ssa.Package, error) {
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedTypes | packages.NeedTypesSizes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedModule | packages.NeedExportFile,
		Dir:  repoDir,
	}
	pkgs, err := packages.Load(cfg, "./internal/...", "github.com/golang/protobuf/protoc-gen-go/descriptor")
	if err != nil {
		return nil, nil, err
	}
	prog, sps := ssautil.Packages(pkgs, ssa.InstantiateGenerics|ssa.GlobalDebug)
	prog.Build()
	x := &Exec{prog: prog, repo: map[*types.Package]bool{}, contracts: map[string]*Contract{}, pkgs: map[string]*ssa.Package{},
		used: map[string]bool{}, inlined: map[string]bool{}, modCache: map[string]map[string]bool{}, maxSteps: 3000000, globals: map[string]*Term{}, loopsDone: map[string]*LoopStat{}, shared: map[token.Pos]bool{}}
	for i, p := range sps {
		if p == nil {
			fmt.Fprintf(os.Stderr, "gvc: package %s does not load: %v\n", pkgs[i].PkgPath, pkgs[i].Errors)
			continue
		}
		x.repo[p.Pkg] = true
		if x.pkgs[p.Pkg.Name()] == nil {
			x.pkgs[p.Pkg.Name()] = p
		}
		x.pkgs[p.Pkg.Path()] = p
	}
	return x, sps, nil
}

func allFuncs(prog *ssa.Program, sps []*ssa.Package) []*ssa.Function {
	var out []*ssa.Function
	seen := map[*ssa.Function]bool{}
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil || seen[f] {
			return
		}
		seen[f] = true
		out = append(out, f)
		for _, a := range f.AnonFuncs {
			add(a)
		}
	}
	for _, p := range sps {
		if p == nil {
			continue
		}
		var names []string
		for n := range det(p.Members) {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			switch m := p.Members[n].(type) {
			case *ssa.Function:
				add(m)
			case *ssa.Type:
				for _, t := range []types.Type{m.Type(), types.NewPointer(m.Type())} {
					if types.IsInterface(t) {
						continue
					}
					ms := prog.MethodSets.MethodSet(t)
					for i := 0; i < ms.Len(); i++ {
						f := prog.MethodValue(ms.At(i))
						if f != nil && f.Synthetic == "" {
							add(f)
						}
					}
				}
			}
		}
	}
	return out
}

// elabAxioms evaluates the axioms of the specification once.
func (x *Exec) elabAxioms() {
	for _, a := range x.axioms {
		func() {
			defer func() {
				if r := recover(); r != nil {
					if u, ok := r.(unsupportedErr); ok {
						fatal("axiom %s: %s", a.Name, u.msg)
					}
					panic(r)
				}
			}()
			st := x.newState()
			x.entry = st.copy()
			a.term = x.evalClause(a.Clause, &specCtx{x: x, st: st, old: st})
			_, apps, _, _ := collect([]*Term{a.term})
			for n := range det(apps) {
				if strings.HasPrefix(n, "str.") || strings.HasPrefix(n, "box:") || n == "tagof" {
					continue
				}
				a.apps = append(a.apps, n)
			}
			// an axiom about specification functions is about those only
			var specs []string
			for _, n := range a.apps {
				if strings.HasPrefix(n, "spec:") {
					specs = append(specs, n)
				}
			}
			if len(specs) > 0 {
				a.apps = specs
			}
		}()
	}
}

// runInits executes package initialisers so that globals have their values.
func (x *Exec) runInits(st *State, inits []string) {
	for _, name := range inits {
		p := x.pkgs[name]
		if p == nil {
			panic(unsupported("no package %s to initialise", name))
		}
		fn := p.Func("init")
		g := p.Var("init$guard")
		h := "G:" + g.RelString(nil)
		heapSorts[h] = sBool
		st.heap[h] = tFalse
		x.tolerant = true
		x.mute++
		rets := x.run(fn, nil, nil, st, false)
		x.mute--
		x.tolerant = false
		if len(rets) != 1 {
			panic(unsupported("initialiser of %s has %d outcomes", name, len(rets)))
		}
		r := rets[0].st
		st.pc, st.heap, st.alloc = r.pc, r.heap, r.alloc
		st.log, st.upd = nil, nil
	}
}

// internalErr turns a failure of the generator itself into an unsupported
// construct: the function is then reported as not verified.
func internalErr(r interface{}) error {
	if os.Getenv("GVC_PANIC") != "" {
		panic(r)
	}
	return fmt.Errorf("internal: %v", r)
}

// markEvents finds the functions whose calls some contract speaks about.
func markEvents(cs []*Contract) {
	sinks := map[string]bool{}
	for _, c := range cs {
		for _, en := range c.Ensures {
			ast.Inspect(en.Expr, func(n ast.Node) bool {
				call, ok := n.(*ast.CallExpr)
				if !ok {
					return true
				}
				id, ok := call.Fun.(*ast.Ident)
				if !ok || id.Name != "allcalls" && id.Name != "somecall" && id.Name != "onlycalls" {
					return true
				}
				c.OnlyCalls = c.OnlyCalls || id.Name == "onlycalls"
				for _, a := range call.Args {
					if bl, ok := a.(*ast.BasicLit); ok && bl.Kind == token.STRING {
						if s, err := strconv.Unquote(bl.Value); err == nil {
							sinks[s] = true
						}
					}
				}
				return true
			})
		}
	}
	for _, c := range cs {
		if sinks[c.Key] {
			c.Event = true
		}
	}
}
