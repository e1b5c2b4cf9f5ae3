package main

// Discharging obligations with SMT solvers.

import (
	"bytes"
	"context"
	"fmt"
	"go/types"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Solver runs SMT queries.
type Solver struct {
	mu      sync.Mutex
	quickRL int // rlimit of candidate filtering
	timeout time.Duration
	cache   map[string]string
	queries int
	millis  int64
	sem     chan struct{}
	pending sync.WaitGroup
	retries []func(deadline time.Time) bool // parts left undecided: asked again with more time
	dump    string
	dumpN   int
}

func newSolver(timeout time.Duration, workers int) *Solver {
	return &Solver{quickRL: 4000000, timeout: timeout, cache: map[string]string{}, sem: make(chan struct{}, workers)}
}

type runCfg struct {
	name string
	argv []string
	pre  string
	t    time.Duration
}

func (s *Solver) run(cfg runCfg, script string) (string, string) {
	return s.runCtx(context.Background(), cfg, script)
}

func (s *Solver) runCtx(parent context.Context, cfg runCfg, script string) (string, string) {
	select {
	case s.sem <- struct{}{}:
	case <-parent.Done():
		return "cancelled", ""
	}
	defer func() { <-s.sem }()
	if parent.Err() != nil {
		return "cancelled", ""
	}
	ctx, cancel := context.WithTimeout(parent, cfg.t+2*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, cfg.argv[0], cfg.argv[1:]...)
	cmd.Stdin = strings.NewReader(cfg.pre + script + "(check-sat)\n(get-info :reason-unknown)\n")
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &out
	start := time.Now()
	_ = cmd.Run()
	el := time.Since(start).Milliseconds()
	s.mu.Lock()
	s.queries++
	s.millis += el
	s.mu.Unlock()
	res := strings.TrimSpace(out.String())
	first := res
	if i := strings.IndexByte(res, '\n'); i >= 0 {
		first = res[:i]
	}
	if os.Getenv("GVC_SMTERR") != "" && strings.Contains(res, "error") && !strings.Contains(res, "reason") {
		fmt.Fprintf(os.Stderr, "smt: %s\n", res)
	}
	switch first {
	case "sat", "unsat", "unknown":
		return first, res
	}
	if strings.Contains(first, "error") {
		return "error", res
	}
	return "timeout", res
}

func z3cfg(bin string, extra string, t time.Duration, rl int) runCfg {
	ms := int(t / time.Millisecond)
	pre := fmt.Sprintf("(set-option :timeout %d)\n%s", ms, extra)
	if rl > 0 {
		pre += fmt.Sprintf("(set-option :rlimit %d)\n", rl)
	}
	return runCfg{bin, []string{bin, "-in", "-smt2"}, pre, t}
}

const noMBQI = "(set-option :smt.mbqi false)\n(set-option :smt.auto_config false)\n"

// script renders hyps ∧ ¬goal with the built-in axioms. Callers hold the
// term lock (the term table is not concurrent).
func (x *Exec) script(hyps []*Term, goal *Term) string {
	var as []*Term
	for _, h := range hyps {
		if h == tTrue {
			continue
		}
		as = append(as, h)
	}
	as = append(as, Not(goal))
	// variables bound outside (the arguments of a callback) are arbitrary
	m := map[*Term]*Term{}
	for _, a := range as {
		for s := range det(a.symbols()) {
			if s.Op == "var" && m[s] == nil {
				m[s] = Const("arb."+s.Name+"."+strconv.Itoa(s.id), s.S)
			}
		}
	}
	if len(m) > 0 {
		for i, a := range as {
			as[i] = Subst(a, m)
		}
	}
	as = append(as, seenTerms(as[len(as)-1])...)
	ax := x.builtinAxioms(as)
	return SMT(append(ax, as...))
}

// seenTerms names the ground terms below the quantifiers of a goal, so that
// quantified hypotheses are instantiated with them.
func seenTerms(g *Term) []*Term {
	var out []*Term
	done := map[*Term]bool{}
	var walk func(t *Term, under bool)
	walk = func(t *Term, under bool) {
		if t.Op == "forall" || t.Op == "exists" {
			under = true
		} else if under {
			if done[t] {
				return
			}
			done[t] = true
			if (t.Op == "select" || t.Op == "app" && len(t.Args) > 0) && t.S.Key == nil && !hasBound(t) {
				out = append(out, App("seen:"+t.S.Name, sBool, t))
				return
			}
		}
		for _, a := range t.Args {
			walk(a, under)
		}
	}
	walk(g, false)
	if len(out) > 40 {
		out = out[:40]
	}
	return out
}

// splitGoal breaks a goal into simpler sequents.
func splitGoal(hyps []*Term, goal *Term, depth int, out func(hyps []*Term, goal *Term)) {
	if depth > 30 {
		out(hyps, goal)
		return
	}
	switch goal.Op {
	case "true":
		return
	case "and":
		for _, a := range goal.Args {
			splitGoal(hyps, a, depth+1, out)
		}
		return
	case "=>":
		splitGoal(addHyp(hyps, goal.Args[0]), goal.Args[1], depth+1, out)
		return
	case "forall":
		m := map[*Term]*Term{}
		for _, b := range goal.Bound {
			m[b] = Fresh("sk."+b.Name, b.S)
		}
		splitGoal(hyps, Subst(goal.Args[0], m), depth+1, out)
		return
	case "not":
		a := goal.Args[0]
		switch a.Op {
		case "exists", "or", "not", "=>":
			splitGoal(addHyp(hyps, a), tFalse, depth+1, out)
			return
		case "and":
			if len(a.Args) > 0 {
				splitGoal(addHyp(hyps, a), tFalse, depth+1, out)
				return
			}
		}
	case "=":
		if goal.Args[0].S == sBool {
			splitGoal(addHyp(hyps, goal.Args[0]), goal.Args[1], depth+1, out)
			splitGoal(addHyp(hyps, goal.Args[1]), goal.Args[0], depth+1, out)
			return
		}
	case "ite":
		if goal.S == sBool {
			splitGoal(addHyp(hyps, goal.Args[0]), goal.Args[1], depth+1, out)
			splitGoal(addHyp(hyps, Not(goal.Args[0])), goal.Args[2], depth+1, out)
			return
		}
	}
	for _, h := range hyps {
		if h == goal || h == tFalse {
			return
		}
	}
	out(hyps, goal)
}

func addHyp(hyps []*Term, h *Term) []*Term {
	switch h.Op {
	case "true":
		return hyps
	case "and":
		for _, a := range h.Args {
			hyps = addHyp(hyps, a)
		}
		return hyps
	case "forall":
		if patTab[h] == nil {
			if rs := onePoint(h); rs != nil {
				n := make([]*Term, len(hyps), len(hyps)+len(rs))
				copy(n, hyps)
				return append(n, rs...)
			}
		}
	case "exists":
		m := map[*Term]*Term{}
		for _, b := range h.Bound {
			m[b] = Fresh("sk."+b.Name, b.S)
		}
		return addHyp(hyps, Subst(h.Args[0], m))
	case "not":
		a := h.Args[0]
		switch a.Op {
		case "or":
			for _, d := range a.Args {
				hyps = addHyp(hyps, Not(d))
			}
			return hyps
		case "=>":
			return addHyp(addHyp(hyps, a.Args[0]), Not(a.Args[1]))
		case "forall":
			m := map[*Term]*Term{}
			for _, b := range a.Bound {
				m[b] = Fresh("sk."+b.Name, b.S)
			}
			return addHyp(hyps, Not(Subst(a.Args[0], m)))
		}
	}
	n := make([]*Term, len(hyps), len(hyps)+1)
	copy(n, hyps)
	return append(n, h)
}

type rule struct {
	bv    []*Term
	prems []*Term
	concl *Term
}

// onePoint rewrites an equivalence or implication under a universal
// quantifier into rules whose variables can be matched: existential premises
// become universal variables and variables fixed by an equation disappear.
// It returns nil when nothing changes.
func onePoint(h *Term) []*Term {
	var todo []rule
	var dirs func(bv, prems []*Term, c *Term)
	changed := false
	dirs = func(bv, prems []*Term, c *Term) {
		prems = prems[:len(prems):len(prems)]
		switch {
		case c.Op == "=>":
			dirs(bv, append(prems, c.Args[0]), c.Args[1])
		case c.Op == "=" && c.Args[0].S == sBool:
			todo = append(todo, rule{bv, append(prems, c.Args[0]), c.Args[1]}, rule{bv, append(prems, c.Args[1]), c.Args[0]})
		case c.Op == "and":
			for _, a := range c.Args {
				dirs(bv, prems, a)
			}
		default:
			todo = append(todo, rule{bv, prems, c})
		}
	}
	dirs(h.Bound, nil, h.Args[0])
	var out []*Term
	for n := 0; len(todo) > 0; n++ {
		if n > 40 {
			return nil
		}
		r := todo[0]
		todo = todo[1:]
		done := true
		for i, p := range r.prems {
			rest := append(append([]*Term{}, r.prems[:i]...), r.prems[i+1:]...)
			switch p.Op {
			case "and":
				todo = append(todo, rule{r.bv, append(rest, p.Args...), r.concl})
				done = false
			case "exists":
				m := map[*Term]*Term{}
				bv := append([]*Term{}, r.bv...)
				for _, b := range p.Bound {
					m[b] = BV(strings.SplitN(b.Name, "?", 2)[0], b.S)
					bv = append(bv, m[b])
				}
				todo = append(todo, rule{bv, append(rest, Subst(p.Args[0], m)), r.concl})
				done = false
				changed = true
			case "or":
				has := false
				for _, a := range p.Args {
					if a.Op == "exists" || a.Op == "and" && strings.Contains(a.String(), "exists") {
						has = true
					}
				}
				if has && len(p.Args) <= 6 {
					for _, a := range p.Args {
						todo = append(todo, rule{r.bv, append(rest[:len(rest):len(rest)], a), r.concl})
					}
					done = false
					changed = true
				}
			case "=":
				for side := 0; side < 2 && done; side++ {
					x, t := p.Args[side], p.Args[1-side]
					if x.Op != "var" || x.S == sBool || t.has(x) {
						continue
					}
					for j, b := range r.bv {
						if b == x {
							bv := append(append([]*Term{}, r.bv[:j]...), r.bv[j+1:]...)
							m := map[*Term]*Term{x: t}
							nr := rule{bv: bv, concl: Subst(r.concl, m)}
							for _, q := range rest {
								nr.prems = append(nr.prems, Subst(q, m))
							}
							todo = append(todo, nr)
							done = false
							changed = true
							break
						}
					}
				}
			}
			if !done {
				break
			}
		}
		if done {
			out = append(out, Forall(r.bv, Imp(And(r.prems...), r.concl)))
		}
	}
	if !changed {
		return nil
	}
	return out
}

func flattenHyps(hyps []*Term) []*Term {
	var out []*Term
	seen := map[*Term]bool{}
	for _, h := range hyps {
		for _, f := range addHyp(nil, h) {
			if !seen[f] {
				seen[f] = true
				out = append(out, f)
			}
		}
	}
	// discharge premises that are themselves hypotheses
	for i := 0; i < len(out); i++ {
		h := out[i]
		if h.Op != "=>" || !seen[h.Args[0]] {
			continue
		}
		out = append(out[:i], out[i+1:]...)
		i--
		for _, f := range addHyp(nil, h.Args[1]) {
			if !seen[f] {
				seen[f] = true
				out = append(out, f)
			}
		}
	}
	return out
}

// proveAll decides goals quickly (candidate filtering): deterministic
// resource limit, no model-based instantiation.
func (s *Solver) proveAll(x *Exec, hyps []*Term, goals []*Term) []bool {
	res := make([]bool, len(goals))
	inHyp := map[*Term]bool{}
	for _, h := range hyps {
		inHyp[h] = true
		if h == tFalse {
			for i := range res {
				res[i] = true
			}
			return res
		}
	}
	fh := flattenHyps(hyps)
	var wg sync.WaitGroup
	for i, g := range goals {
		if g == tTrue || inHyp[g] {
			res[i] = true
			continue
		}
		if g == tFalse {
			// only provable from contradictory hypotheses: treat as failing
			continue
		}
		var scs []string
		save := freshN
		splitGoal(fh, g, 0, func(h []*Term, g *Term) { scs = append(scs, x.script(h, g)) })
		_ = save
		i := i
		wg.Add(1)
		go func() {
			defer wg.Done()
			all := true
			for _, sc := range scs {
				r, out := s.run(z3cfg("z3-new", noMBQI, 10*time.Second, s.quickRL), sc)
				if r != "unsat" {
					if os.Getenv("GVC_DEBUG") == "2" {
						fn := fmt.Sprintf("/tmp/pa/%d.smt2", len(sc))
						os.MkdirAll("/tmp/pa", 0o755)
						os.WriteFile(fn, []byte(sc), 0o644)
						fmt.Fprintf(os.Stderr, "proveAll %s: %s %s\n", fn, r, out)
					}
					all = false
					break
				}
			}
			res[i] = all
		}()
	}
	wg.Wait()
	return res
}

// discharge decides one obligation with the portfolio.
func (s *Solver) discharge(o *Obligation, script string) { s.dischargeIn(o, script, s.timeout) }

func (s *Solver) dischargeIn(o *Obligation, script string, timeout time.Duration) {
	start := time.Now()
	defer func() { o.Millis = time.Since(start).Milliseconds() }()
	var detail []string
	note := func(name, r, out string) bool {
		if r == "cancelled" {
			return false
		}
		detail = append(detail, name+": "+strings.ReplaceAll(out, "\n", " "))
		switch r {
		case "unsat":
			o.Result, o.Solver = "proved", name
			return true
		case "sat":
			o.Result, o.Solver = "refuted", name
			return true
		}
		return false
	}
	quick := timeout / 4
	if quick > 2*time.Second {
		quick = 2 * time.Second
	}
	c0 := z3cfg("z3-new", noMBQI, quick, 0)
	r, out := s.run(c0, script)
	if !note("z3-new(ematching)", r, out) {
		em := z3cfg("z3-new", noMBQI, timeout, 0)
		em.name = "z3-new(ematching,long)"
		cfgs := []runCfg{
			{"cvc5", []string{"cvc5", "--lang=smt2", "--full-saturate-quant", fmt.Sprintf("--tlimit=%d", timeout.Milliseconds()), "-"}, "(set-logic ALL)\n", timeout},
			z3cfg("z3-new", "", timeout, 0),
			z3cfg("z3", "", timeout, 0),
		}
		scripts := make([]string, len(cfgs), 12)
		for i := range scripts {
			scripts[i] = script
		}
		if timeout != s.timeout {
			// second attempt: other orders of the same assertions, as the
			// instantiation of quantifiers depends on them
			for seed := int64(1); seed <= 4; seed++ {
				c := z3cfg("z3-new", fmt.Sprintf(noMBQI+"(set-option :smt.random_seed %d)\n", seed), timeout/2, 0)
				c.name = fmt.Sprintf("z3-new(ematching,order %d)", seed)
				cfgs = append(cfgs, c)
				scripts = append(scripts, shuffled(script, seed))
			}
		}
		if !strings.Contains(out, "incomplete") {
			cfgs = append(cfgs, em)
			scripts = append(scripts, script)
		}
		ctx, cancel := context.WithCancel(context.Background())
		type ans struct{ name, r, out string }
		ch := make(chan ans, len(cfgs))
		for i, c := range cfgs {
			c, script := c, scripts[i]
			go func() {
				r, out := s.runCtx(ctx, c, script)
				if ctx.Err() != nil {
					r = "cancelled"
				}
				ch <- ans{c.name, r, out}
			}()
		}
		for range cfgs {
			a := <-ch
			if note(a.name, a.r, a.out) {
				break
			}
		}
		cancel()
	}
	o.Detail = strings.Join(detail, "; ")
	if o.Result == "" {
		o.Result = "unknown"
	}
}

// shuffled states the same problem with its assertions in another order.
func shuffled(script string, seed int64) string {
	var rest, as []string
	for _, l := range strings.SplitAfter(script, "\n") {
		if strings.HasPrefix(l, "(assert ") {
			as = append(as, l)
		} else {
			rest = append(rest, l)
		}
	}
	rand.New(rand.NewSource(seed)).Shuffle(len(as), func(i, j int) { as[i], as[j] = as[j], as[i] })
	return strings.Join(rest, "") + strings.Join(as, "")
}

// dischargeAll decides all obligations.
func (s *Solver) dischargeAll(x *Exec, obls []*Obligation) {
	wg := &s.pending
	for _, o := range obls {
		if o.Result != "" {
			continue
		}
		if o.Goal == tTrue {
			o.Result, o.Solver = "proved", "simplifier"
			continue
		}
		for _, h := range o.Hyps {
			if h == o.Goal || h == tFalse {
				o.Result, o.Solver = "proved", "simplifier"
			}
		}
		if o.Result != "" && !o.Cover {
			continue
		}
		o.Result = ""
		fh := flattenHyps(o.Hyps)
		if o.Cover {
			sc := x.script(fh, o.Goal)
			o.Script = sc
			o := o
			wg.Add(1)
			go func() {
				defer wg.Done()
				s.cover(o, sc)
			}()
			continue
		}
		var scs []string
		splitGoal(fh, o.Goal, 0, func(h []*Term, g *Term) { scs = append(scs, x.script(h, g)) })
		if len(scs) == 0 {
			o.Result, o.Solver = "proved", "simplifier"
			continue
		}
		sc := strings.Join(scs, "; ---- next part ----\n(check-sat)(reset)\n")
		if s.dump != "" {
			s.dumpN++
			_ = os.WriteFile(filepath.Join(s.dump, fmt.Sprintf("%03d.smt2", s.dumpN)), []byte("; "+o.Func+": "+strings.ReplaceAll(o.Name, "\n", " ")+"\n"+sc+"(check-sat)\n"), 0o644)
		}
		o := o
		o.Script = sc
		wg.Add(1)
		go func() {
			defer wg.Done()
			ps := make([]*Obligation, len(scs))
			var pw sync.WaitGroup
			for i, sc := range scs {
				i, sc := i, sc
				pw.Add(1)
				go func() {
					defer pw.Done()
					ps[i] = &Obligation{}
					s.discharge(ps[i], sc)
				}()
			}
			pw.Wait()
			sum := func() {
				o.Result, o.Solver = "proved", ""
				for i, p := range ps {
					if p.Millis > o.Millis {
						o.Millis = p.Millis
					}
					if o.Result == "proved" {
						o.Detail = p.Detail
						o.Solver = p.Solver
					}
					if p.Result != "proved" && o.Result == "proved" {
						o.Result, o.Script = p.Result, scs[i]
					}
				}
			}
			sum()
			for _, p := range ps {
				if p.Result != "proved" && p.Result != "unknown" {
					return
				}
			}
			if o.Result == "unknown" {
				s.mu.Lock()
				defer s.mu.Unlock()
				s.retries = append(s.retries, func(deadline time.Time) bool {
					for i, p := range ps {
						if p.Result != "unknown" {
							continue
						}
						t := 4 * s.timeout
						if left := time.Until(deadline); left < t {
							t = left
						}
						if t < time.Second {
							return false
						}
						n := &Obligation{}
						s.dischargeIn(n, scs[i], t)
						ps[i] = n
						if n.Result != "proved" {
							break
						}
					}
					sum()
					return o.Result == "proved"
				})
			}
		}()
	}
}

// wait lets all pending obligations finish.
func (s *Solver) wait() {
	s.pending.Wait()
	if len(s.retries) == 0 || s.timeout < 10*time.Second && os.Getenv("GVC_RETRY") == "" {
		return
	}
	// What stayed undecided may have lacked time on a loaded machine: ask
	// again, a few at a time, within a total budget.
	// One obligation that stays undecided settles the verdict, and so does a
	// failing input found by the bounded harness (the stop file).
	deadline := time.Now().Add(240 * time.Second)
	stopped := func() bool {
		if p := os.Getenv("GVC_STOPFILE"); p != "" {
			if _, err := os.Stat(p); err == nil {
				return true
			}
		}
		return false
	}
	sem := make(chan struct{}, 3)
	var wg sync.WaitGroup
	var lost atomic.Bool
	for _, f := range s.retries {
		f := f
		sem <- struct{}{}
		if lost.Load() || stopped() {
			<-sem
			break
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() { <-sem }()
			if !f(deadline) {
				lost.Store(true)
			}
		}()
	}
	wg.Wait()
}

// cover checks that the hypotheses are not contradictory: "unsat" is the
// failure; sat or undecided counts as reachable, and is recorded.
func (s *Solver) cover(o *Obligation, sc string) {
	start := time.Now()
	r, out := s.run(z3cfg("z3-new", "", 1500*time.Millisecond, 0), sc)
	o.Millis = time.Since(start).Milliseconds()
	o.Solver = "z3-new"
	switch r {
	case "unsat":
		o.Result = "vacuous"
	case "sat":
		o.Result = "reachable"
	default:
		r2, _ := s.run(z3cfg("z3-new", noMBQI, 1500*time.Millisecond, 0), sc)
		if r2 == "unsat" {
			o.Result = "vacuous"
		} else {
			o.Result = "reachable(not refuted)"
		}
	}
	o.Detail = out
}

// ---- built-in axioms ----

// heapInfo describes a heap symbol, for well-formedness axioms.
type heapInfo struct {
	name  string
	alloc *Term
}

var heapOf = map[*Term]heapInfo{}
var heapTypes = map[string]types.Type{}
var tagTypes = map[*Term]types.Type{}
var ifaceTypes = map[string]types.Type{}
var boxTypes = map[string]types.Type{}

func litConcrete(ls []*Term) []*Term {
	var out []*Term
	sort.Slice(ls, func(i, j int) bool { return ls[i].Name < ls[j].Name })
	for i := 0; i+1 < len(ls); i++ {
		out = append(out, mk("app", "str.lt", sBool, 0, nil, ls[i], ls[i+1]))
	}
	return out
}

func rawApp(name string, s *Sort, args ...*Term) *Term { return mk("app", name, s, 0, nil, args...) }

// builtinAxioms returns the axioms relevant to the assertions.
func (x *Exec) builtinAxioms(asserts []*Term) []*Term {
	var out []*Term
	have := map[string]bool{}
	add := func(key string, f func() *Term) bool {
		if have[key] {
			return false
		}
		have[key] = true
		t := f()
		if t != nil && t != tTrue {
			out = append(out, t)
		}
		return true
	}
	for round := 0; round < 8; round++ {
		consts, apps, _, lits := collect(append(append([]*Term{}, asserts...), out...))
		changed := false
		a := func(key string, f func() *Term) {
			if add(key, f) {
				changed = true
			}
		}
		var names []string
		for n := range det(apps) {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			app := apps[n]
			switch {
			case strings.HasPrefix(n, "box:"):
				t := boxTypes[n]
				a("ax:"+n, func() *Term {
					v := BV("v", app.Args[0].S)
					b := rawApp(n, sInt, v)
					fs := []*Term{Lt(b, Int(0)), Eq(rawApp("unbox:"+n[4:], app.Args[0].S, b), v)}
					if t != nil {
						fs = append(fs, Eq(rawApp("tagof", sInt, b), tagID(t)))
					}
					return ForallP([]*Term{v}, And(fs...), []*Term{b})
				})
			case n == "str.lt":
				a("ax:str.lt", func() *Term {
					p, q, r := BV("p", sStr), BV("q", sStr), BV("r", sStr)
					lt := func(a, b *Term) *Term { return rawApp("str.lt", sBool, a, b) }
					return And(
						ForallP([]*Term{p}, Not(lt(p, p)), []*Term{lt(p, p)}),
						ForallP([]*Term{p, q, r}, Imp(And(lt(p, q), lt(q, r)), lt(p, r)), []*Term{lt(p, q), lt(q, r)}),
						ForallP([]*Term{p, q}, Or(Eq(p, q), lt(p, q), lt(q, p)), []*Term{lt(p, q)}),
						ForallP([]*Term{p, q}, Imp(lt(p, q), Not(lt(q, p))), []*Term{lt(p, q)}),
						ForallP([]*Term{p, q}, Imp(lt(p, q), Not(Eq(q, Lit("")))), []*Term{lt(p, q)}))
				})
				var ls []*Term
				for l := range det(lits) {
					ls = append(ls, l)
				}
				sort.Slice(ls, func(i, j int) bool { return ls[i].Name < ls[j].Name })
				for i := 0; i+1 < len(ls); i++ {
					p, q := ls[i], ls[i+1]
					a(fmt.Sprintf("lt:%d:%d", p.id, q.id), func() *Term { return rawApp("str.lt", sBool, p, q) })
				}
			case n == "str.len":
				a("ax:str.len", func() *Term {
					p := BV("p", sStr)
					l := rawApp("str.len", sInt, p)
					return And(ForallP([]*Term{p}, And(Le(Int(0), l), Eq(Eq(l, Int(0)), Eq(p, Lit("")))), []*Term{l}))
				})
				for l := range det(lits) {
					l := l
					a(fmt.Sprintf("len:%d", l.id), func() *Term { return Eq(rawApp("str.len", sInt, l), Int(int64(len(l.Name)))) })
				}
			case n == "str.cat":
				a("ax:str.cat", func() *Term {
					p, q := BV("p", sStr), BV("q", sStr)
					ln := func(t *Term) *Term { return rawApp("str.len", sInt, t) }
					c := rawApp("str.cat", sStr, p, q)
					return And(
						ForallP([]*Term{p, q}, Eq(ln(c), Add(ln(p), ln(q))), []*Term{c}),
						ForallP([]*Term{p, q}, And(Eq(rawApp("str.sub", sStr, c, Int(0), ln(p)), p), Eq(rawApp("str.sub", sStr, c, ln(p), ln(c)), q)), []*Term{c}))
				})
			case n == "str.sub":
				a("ax:str.sub", func() *Term {
					p, i, j := BV("p", sStr), BV("i", sInt), BV("j", sInt)
					ln := func(t *Term) *Term { return rawApp("str.len", sInt, t) }
					s := rawApp("str.sub", sStr, p, i, j)
					return ForallP([]*Term{p, i, j}, And(
						Imp(And(Le(Int(0), i), Le(i, j), Le(j, ln(p))), Eq(ln(s), Sub(j, i))),
						Imp(And(Eq(i, Int(0)), Eq(j, ln(p))), Eq(s, p)),
						Imp(Eq(i, j), Eq(s, Lit("")))), []*Term{s})
				})
				if apps["str.at"] != nil {
					a("ax:str.sub.at", func() *Term {
						p, i, j, k := BV("p", sStr), BV("i", sInt), BV("j", sInt), BV("k", sInt)
						ln := func(t *Term) *Term { return rawApp("str.len", sInt, t) }
						s := rawApp("str.sub", sStr, p, i, j)
						at := rawApp("str.at", sInt, s, k)
						return ForallP([]*Term{p, i, j, k}, Imp(And(Le(Int(0), i), Le(i, j), Le(j, ln(p)), Le(Int(0), k), Lt(k, Sub(j, i))), Eq(at, rawApp("str.at", sInt, p, Add(i, k)))), []*Term{at})
					})
				}
			case n == "str.at":
				for l := range det(lits) {
					l := l
					if len(l.Name) > 12 {
						continue
					}
					for k := 0; k < len(l.Name); k++ {
						k := k
						a(fmt.Sprintf("at:%d:%d", l.id, k), func() *Term { return Eq(rawApp("str.at", sInt, l, Int(int64(k))), Int(int64(l.Name[k]))) })
					}
				}
				if apps["str.cat"] != nil {
					a("ax:str.cat.at", func() *Term {
						p, q, k := BV("p", sStr), BV("q", sStr), BV("k", sInt)
						ln := func(t *Term) *Term { return rawApp("str.len", sInt, t) }
						c := rawApp("str.cat", sStr, p, q)
						at := rawApp("str.at", sInt, c, k)
						return ForallP([]*Term{p, q, k}, Imp(And(Le(Int(0), k), Lt(k, Add(ln(p), ln(q)))), Eq(at, Ite(Lt(k, ln(p)), rawApp("str.at", sInt, p, k), rawApp("str.at", sInt, q, Sub(k, ln(p)))))), []*Term{at})
					})
				}
			case n == "str.ofrune":
				a("ax:str.ofrune", func() *Term {
					r := BV("r", sInt)
					l := rawApp("str.len", sInt, rawApp("str.ofrune", sStr, r))
					return ForallP([]*Term{r}, And(Le(Int(1), l), Le(l, Int(4))), []*Term{rawApp("str.ofrune", sStr, r)})
				})
			case n == "str.runeoff":
				a("ax:str.runeoff", func() *Term {
					p, i := BV("p", sStr), BV("i", sInt)
					o := rawApp("str.runeoff", sInt, p, i)
					in := And(Le(Int(0), i), Lt(i, rawApp("str.runes", sInt, p)))
					return ForallP([]*Term{p, i}, Imp(in, And(Le(i, o), Lt(o, rawApp("str.len", sInt, p)), Imp(Eq(i, Int(0)), Eq(o, Int(0))))), []*Term{o})
				})
			case n == "str.runes":
				a("ax:str.runes", func() *Term {
					p := BV("p", sStr)
					r := rawApp("str.runes", sInt, p)
					l := rawApp("str.len", sInt, p)
					return ForallP([]*Term{p}, And(Le(Int(0), r), Le(r, l), Eq(Eq(r, Int(0)), Eq(p, Lit("")))), []*Term{r})
				})
			case strings.HasPrefix(n, "arr.shift:"):
				a("ax:"+n, func() *Term {
					s := app.S
					p, o, i := BV("a", s), BV("o", sInt), BV("i", sInt)
					t := rawApp(n, s, p, o)
					sel := mk("select", "", s.Elem, 0, nil, t, i)
					return ForallP([]*Term{p, o, i}, Eq(sel, Select(p, Add(o, i))), []*Term{sel})
				})
			case strings.HasPrefix(n, "arr.cat:"):
				a("ax:"+n, func() *Term {
					s := app.S
					p, po, pl := BV("a", s), BV("ao", sInt), BV("al", sInt)
					q, qo, ql := BV("b", s), BV("bo", sInt), BV("bl", sInt)
					i := BV("i", sInt)
					t := rawApp(n, s, p, po, pl, q, qo, ql)
					sel := mk("select", "", s.Elem, 0, nil, t, i)
					return ForallP([]*Term{p, po, pl, q, qo, ql, i}, And(
						Imp(And(Le(Int(0), i), Lt(i, pl)), Eq(sel, Select(p, Add(po, i)))),
						Imp(And(Le(pl, i), Lt(i, Add(pl, ql))), Eq(sel, Select(q, Add(qo, Sub(i, pl)))))), []*Term{sel})
				})
				// elements of the appended part, seen from the source
				a("ax2:"+n, func() *Term {
					s := app.S
					p, po, pl := BV("a", s), BV("ao", sInt), BV("al", sInt)
					q, qo, ql := BV("b", s), BV("bo", sInt), BV("bl", sInt)
					i := BV("i", sInt)
					t := rawApp(n, s, p, po, pl, q, qo, ql)
					sel := mk("select", "", s.Elem, 0, nil, q, i)
					return ForallP([]*Term{p, po, pl, q, qo, ql, i},
						Imp(And(Le(qo, i), Lt(i, Add(qo, ql))), Eq(Select(t, Add(pl, Sub(i, qo))), sel)), []*Term{t, sel})
				})
			case n == "strings.HasPrefix":
				a("ax:HasPrefix", func() *Term {
					s, p := BV("s", sStr), BV("p", sStr)
					h := rawApp(n, sBool, s, p)
					ln := func(t *Term) *Term { return rawApp("str.len", sInt, t) }
					return ForallP([]*Term{s, p}, Eq(h, And(Le(ln(p), ln(s)), Eq(rawApp("str.sub", sStr, s, Int(0), ln(p)), p))), []*Term{h})
				})
			case n == "strings.HasSuffix":
				a("ax:HasSuffix", func() *Term {
					s, p := BV("s", sStr), BV("p", sStr)
					h := rawApp(n, sBool, s, p)
					ln := func(t *Term) *Term { return rawApp("str.len", sInt, t) }
					return ForallP([]*Term{s, p}, Eq(h, And(Le(ln(p), ln(s)), Eq(rawApp("str.sub", sStr, s, Sub(ln(s), ln(p)), ln(s)), p))), []*Term{h})
				})
			case strings.HasPrefix(n, "implements:"):
				it := ifaceTypes[n]
				for c := range det(consts) {
					tt, ok := tagTypes[c]
					if !ok || it == nil {
						continue
					}
					c := c
					a("impl:"+n+":"+c.Name, func() *Term {
						im := types.Implements(tt, it.Underlying().(*types.Interface))
						f := rawApp(n, sBool, c)
						if im {
							return f
						}
						return Not(f)
					})
				}
			case n == "tagof":
				var tags []*Term
				for c := range det(consts) {
					if _, ok := tagTypes[c]; ok {
						tags = append(tags, c)
					}
				}
				sort.Slice(tags, func(i, j int) bool { return tags[i].id < tags[j].id })
				for i, p := range tags {
					i := i
					p := p
					a("tag:"+p.Name, func() *Term {
						// numbered tags are pairwise distinct
						_ = i
						return Eq(p, Int(tagNumber(p)))
					})
				}
			case strings.HasPrefix(n, "card:"):
				a("ax:"+n, func() *Term {
					s := app.Args[0].S
					d, k := BV("d", s), BV("k", s.Key)
					c := rawApp(n, sInt, d)
					return And(
						ForallP([]*Term{d}, Le(Int(0), c), []*Term{c}),
						ForallP([]*Term{d, k}, Imp(Select(d, k), Lt(Int(0), c)), []*Term{c, Select(d, k)}))
				})
			}
		}
		for c := range det(consts) {
			hi, ok := heapOf[c]
			if !ok && strings.HasPrefix(c.Name, "H0:") {
				hi, ok = heapInfo{c.Name[3:], Const("alloc0", sInt)}, true
			}
			if !ok {
				continue
			}
			ht := heapTypes[hi.name]
			if ht == nil {
				continue
			}
			c := c
			if c.S.Key != sInt || c.S.Elem != heapSorts[hi.name].Elem {
				// one element array of the heap
				a("heap:"+c.Name, func() *Term {
					i := BV("i", c.S.Key)
					v := Select(c, i)
					fs := wfFacts(ht, v, hi.alloc)
					if len(fs) == 0 {
						return tTrue
					}
					return ForallP([]*Term{i}, And(fs...), []*Term{v})
				})
				continue
			}
			a("heap:"+c.Name, func() *Term { return heapWF(c, hi, ht) })
		}
		for _, ax := range x.axioms {
			if have["user:"+ax.Name] || ax.term == nil {
				continue
			}
			hit := false
			for _, n := range ax.apps {
				if apps[n] != nil {
					hit = true
					break
				}
			}
			if hit {
				ax := ax
				x.used["axiom "+ax.Name] = true
				a("user:"+ax.Name, func() *Term { return ax.term })
			}
		}
		for n, app := range det(apps) {
			if strings.HasPrefix(n, "fmt.Sprintf/") && apps["mentions"] != nil {
				for _, f := range sprintfFormats(asserts, n) {
					f := f
					app := app
					n := n
					a("mentions:"+n+":"+f.Name, func() *Term {
						if strings.Count(strings.ReplaceAll(f.Name, "%%", ""), "%") != len(app.Args)-1 {
							return tTrue
						}
						var bv []*Term
						for range app.Args[1:] {
							bv = append(bv, BV("b", sInt))
						}
						t := rawApp(n, sStr, append([]*Term{f}, bv...)...)
						var ms []*Term
						for _, b := range bv {
							ms = append(ms, rawApp("mentions", sBool, t, b))
						}
						return ForallP(bv, And(ms...), []*Term{t})
					})
				}
			}
		}
		if !changed {
			break
		}
	}
	return out
}

func sprintfFormats(ts []*Term, name string) []*Term {
	seen := map[*Term]bool{}
	lits := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.Op == "app" && t.Name == name && t.Args[0].Op == "lit" {
			lits[t.Args[0]] = true
		}
		for _, a := range t.Args {
			rec(a)
		}
	}
	for _, t := range ts {
		rec(t)
	}
	var out []*Term
	for l := range det(lits) {
		out = append(out, l)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return out
}

var tagNums = map[*Term]int64{}

func tagNumber(t *Term) int64 {
	if n, ok := tagNums[t]; ok {
		return n
	}
	n := int64(len(tagNums) + 1)
	tagNums[t] = n
	return n
}

// heapWF: values stored in a heap are well formed.
func heapWF(c *Term, hi heapInfo, t types.Type) *Term {
	var bv []*Term
	r := BV("r", c.S.Key)
	bv = append(bv, r)
	v := Select(c, r)
	if strings.HasPrefix(hi.name, "A:") || strings.HasPrefix(hi.name, "MV:") {
		i := BV("i", v.S.Key)
		bv = append(bv, i)
		v = Select(v, i)
	}
	fs := wfFacts(t, v, hi.alloc)
	if len(fs) == 0 {
		return tTrue
	}
	return ForallP(bv, And(fs...), []*Term{v})
}
