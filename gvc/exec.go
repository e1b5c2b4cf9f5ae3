package main

// Symbolic execution of go/ssa functions.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"runtime/debug"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Obligation is one proof obligation.
type Obligation struct {
	Name  string
	Func  string
	Kind  string
	Pos   string
	Hyps  []*Term
	Goal  *Term
	Props []string
	Cover bool // satisfiability (vacuity) check: expected NOT to be provable

	Result string // "proved", "failed", "unknown"
	Solver string
	Millis int64
	Detail string
	Model  string
	Script string
}

// Exec holds the verification context.
type Exec struct {
	sigs       map[string][]string // parameter names the contracts were written against
	chain      []token.Pos         // call sites being inlined
	later      []func()
	prog       *ssa.Program
	repo       map[*types.Package]bool
	contracts  map[string]*Contract // by function key
	externs    map[string]*Extern
	ufuncs     map[string]*SpecFunc
	axioms     []*Axiom
	bound      map[string]bool // instances of pure contracts among them
	pkgs       map[string]*ssa.Package
	obls       []*Obligation
	mute       int
	loopAllocs []*Term   // allocation counters on entry to the active loops
	cur        *Contract // contract being verified
	entry      *State    // entry state of the function under verification
	depth      int
	used       map[string]bool // contracts, externs used
	inlined    map[string]bool
	modCache   map[string]map[string]bool
	steps      int
	maxSteps   int
	globals    map[string]*Term
	pat        *Pats
	loopsDone  map[string]*LoopStat
	shared     map[token.Pos]bool // variables that live in memory
	solver     *Solver
	noLoops    bool
	tolerant   bool
}

// LoopStat is evidence about a loop.
type LoopStat struct {
	Cands, Kept int
}

// Ret is one way a call can return.
type Ret struct {
	st   *State
	vals []*Val
}

// Frame is an activation of a function.
type Frame struct {
	fn    *ssa.Function
	bind  []*Val
	loops map[*ssa.BasicBlock]*Loop
	rpo   map[*ssa.BasicBlock]int
	depth int
	top   bool
}

// Loop is a natural loop.
type Loop struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	num    int
}

// Outcome is the result of executing a region.
type Outcome struct {
	kind string // "ret", "back", "exit"
	from *ssa.BasicBlock
	to   *ssa.BasicBlock
	st   *State
	vals []*Val
}

func fnKey(fn *ssa.Function) string {
	if fn.Pkg == nil && fn.Object() == nil {
		return fn.Name()
	}
	if fn.Parent() != nil {
		return fnKey(fn.Parent()) + "$" + strings.TrimPrefix(fn.Name(), fn.Parent().Name()+"$")
	}
	recv := fn.Signature.Recv()
	if recv != nil {
		return "(" + shortKey(recv.Type()) + ")." + fn.Name()
	}
	if o := fn.Object(); o != nil && o.Pkg() != nil {
		return o.Pkg().Name() + "." + fn.Name()
	}
	if fn.Pkg != nil {
		return fn.Pkg.Pkg.Name() + "." + fn.Name()
	}
	return fn.Name()
}

func (x *Exec) pos(p token.Pos) string {
	ps := x.prog.Fset.Position(p)
	return strings.TrimPrefix(ps.Filename, repoDir+"/") + fmt.Sprintf(":%d", ps.Line)
}

func (x *Exec) oblige(st *State, name, kind, pos string, goal *Term) {
	if x.mute > 0 {
		return
	}
	o := &Obligation{Name: name, Kind: kind, Pos: pos, Hyps: st.hyps(), Goal: goal}
	if x.cur != nil {
		o.Func = x.cur.Key
		o.Props = x.cur.Props
	}
	x.obls = append(x.obls, o)
}

// ---- loops of a function ----

func findLoops(fn *ssa.Function) (map[*ssa.BasicBlock]*Loop, map[*ssa.BasicBlock]int) {
	rpo := map[*ssa.BasicBlock]int{}
	var order []*ssa.BasicBlock
	seen := map[*ssa.BasicBlock]bool{}
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for _, s := range b.Succs {
			if !seen[s] {
				dfs(s)
			}
		}
		order = append(order, b)
	}
	if len(fn.Blocks) > 0 {
		dfs(fn.Blocks[0])
	}
	for i, b := range order {
		rpo[b] = len(order) - 1 - i
	}
	loops := map[*ssa.BasicBlock]*Loop{}
	for _, b := range fn.Blocks {
		if !seen[b] {
			continue
		}
		for _, s := range b.Succs {
			if s.Dominates(b) { // back edge b -> s
				l := loops[s]
				if l == nil {
					l = &Loop{header: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					loops[s] = l
				}
				var stack []*ssa.BasicBlock
				if !l.blocks[b] {
					l.blocks[b] = true
					stack = append(stack, b)
				}
				for len(stack) > 0 {
					c := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					for _, p := range c.Preds {
						if !l.blocks[p] && seen[p] {
							l.blocks[p] = true
							stack = append(stack, p)
						}
					}
				}
			}
		}
	}
	var hs []*ssa.BasicBlock
	for h := range det(loops) {
		hs = append(hs, h)
	}
	sort.Slice(hs, func(i, j int) bool { return rpo[hs[i]] < rpo[hs[j]] })
	for i, h := range hs {
		loops[h].num = i
	}
	return loops, rpo
}

// ---- running a function ----

func (x *Exec) run(fn *ssa.Function, args, bind []*Val, st *State, top bool) []Ret {
	if len(fn.Blocks) == 0 {
		panic(unsupported("function %s has no body", fnKey(fn)))
	}
	x.depth++
	defer func() { x.depth-- }()
	if x.depth > 40 {
		panic(unsupported("inlining too deep at %s", fnKey(fn)))
	}
	fr := &Frame{fn: fn, bind: bind, depth: x.depth, top: top}
	fr.loops, fr.rpo = findLoops(fn)
	saveEnv, saveNames, saveNT, saveDef := st.env, st.names, st.ntype, st.defers
	s := st.copy()
	s.env = map[ssa.Value]*Val{}
	s.names = map[string]*Val{}
	s.ntype = map[string]types.Type{}
	s.defers = nil
	for i, p := range fn.Params {
		s.env[p] = args[i]
		s.names[p.Name()] = args[i]
		s.ntype[p.Name()] = p.Type()
	}
	for i, p := range fn.FreeVars {
		s.env[p] = bind[i]
	}
	outs := x.region(fr, nil, []arrival{{nil, fn.Blocks[0], s}})
	var rets []Ret
	for _, o := range outs {
		if o.kind != "ret" {
			continue
		}
		if !top {
			o.st.env, o.st.names, o.st.ntype, o.st.defers = saveEnv, saveNames, saveNT, saveDef
		}
		rets = append(rets, Ret{o.st, o.vals})
	}
	if top {
		return rets
	}
	rets = mergeRets(rets)
	for i := range rets {
		// private copies so that paths do not share maps
		rets[i].st = rets[i].st.copy()
	}
	return rets
}

type arrival struct {
	from, to *ssa.BasicBlock
	st       *State
}

// region executes the blocks of scope (nil = whole function) starting with
// the given arrivals; back edges to the scope header and edges leaving the
// scope become outcomes.
func (x *Exec) region(fr *Frame, scope *Loop, start []arrival) []Outcome {
	pending := map[*ssa.BasicBlock][]arrival{}
	var outs []Outcome
	first := true
	add := func(a arrival) {
		if scope != nil && !first {
			if a.to == scope.header {
				outs = append(outs, Outcome{kind: "back", from: a.from, to: a.to, st: a.st})
				return
			}
			if !scope.blocks[a.to] {
				outs = append(outs, Outcome{kind: "exit", from: a.from, to: a.to, st: a.st})
				return
			}
		}
		pending[a.to] = append(pending[a.to], a)
	}
	for _, a := range start {
		add(a)
	}
	first = false
	for len(pending) > 0 {
		var b *ssa.BasicBlock
		for c := range det(pending) {
			if b == nil || fr.rpo[c] < fr.rpo[b] {
				b = c
			}
		}
		as := pending[b]
		delete(pending, b)
		if l := fr.loops[b]; l != nil && l != scope {
			if len(as) > maxPaths {
				var states []*State
				for _, a := range as {
					s := a.st
					if a.from != nil {
						s = x.phis(fr, a.from, b, s)
					}
					states = append(states, s)
				}
				as = nil
				for _, s := range mergeStates(b, states) {
					as = append(as, arrival{nil, b, s})
				}
			}
			for _, a := range as {
				for _, o := range x.loop(fr, l, a) {
					switch o.kind {
					case "ret":
						outs = append(outs, o)
					case "exit":
						add(arrival{o.from, o.to, o.st})
					}
				}
			}
			continue
		}
		var states []*State
		for _, a := range as {
			s := a.st
			if a.from != nil && !(scope != nil && b == scope.header) {
				s = x.phis(fr, a.from, b, s)
			}
			states = append(states, s)
		}
		states = mergeStates(b, states)
		for _, s := range states {
			x.block(fr, b, s, func(o Outcome) { outs = append(outs, o) }, add)
		}
	}
	return outs
}

func (x *Exec) phis(fr *Frame, from, to *ssa.BasicBlock, st *State) *State {
	idx := -1
	for i, p := range to.Preds {
		if p == from {
			idx = i
			break
		}
	}
	var vals []*Val
	var ps []*ssa.Phi
	for _, in := range to.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		ps = append(ps, ph)
		vals = append(vals, x.val(fr, st, ph.Edges[idx]))
	}
	for i, ph := range ps {
		st.env[ph] = vals[i]
		if ph.Comment != "" {
			st.names[ph.Comment] = vals[i]
			st.ntype[ph.Comment] = ph.Type()
			if l := fr.loops[to]; l != nil {
				// the variable of loop N stays reachable in loops nested in it
				n := fmt.Sprintf("%s_%d", ph.Comment, l.num)
				st.names[n], st.ntype[n] = vals[i], ph.Type()
			}
		}
	}
	return st
}

func sameVal(a, b *Val) bool {
	if a == b {
		return true
	}
	if a == nil || b == nil {
		return false
	}
	return a.T != nil && a.T == b.T && a.Fn == b.Fn && a.Addr == b.Addr && (a.Iter == b.Iter || a.Iter != nil && b.Iter != nil && *a.Iter == *b.Iter) && len(a.Tup) == 0 && len(b.Tup) == 0
}

func mergeable(a, b *Val) bool {
	if sameVal(a, b) {
		return true
	}
	if a.T != nil && b.T != nil && a.T.S == b.T.S && a.Iter == nil && b.Iter == nil && len(a.Tup) == 0 && len(b.Tup) == 0 {
		// different closures cannot be merged; nil against closure neither
		if a.Fn != nil || b.Fn != nil {
			return false
		}
		if (a.Addr != nil) || (b.Addr != nil) {
			return false
		}
		return true
	}
	if len(a.Tup) > 0 && len(a.Tup) == len(b.Tup) {
		for i := range a.Tup {
			if !mergeable(a.Tup[i], b.Tup[i]) {
				return false
			}
		}
		return true
	}
	return false
}

func mergeVal(c *Term, a, b *Val) *Val {
	if sameVal(a, b) {
		return a
	}
	if len(a.Tup) > 0 {
		n := &Val{}
		for i := range a.Tup {
			n.Tup = append(n.Tup, mergeVal(c, a.Tup[i], b.Tup[i]))
		}
		return n
	}
	n := &Val{T: Ite(c, a.T, b.T)}
	if a.Dyn != nil && b.Dyn != nil && types.Identical(a.Dyn, b.Dyn) {
		n.Dyn = a.Dyn
		if a.DynV != nil && b.DynV != nil && mergeable(a.DynV, b.DynV) {
			n.DynV = mergeVal(c, a.DynV, b.DynV)
		} else {
			n.Dyn = nil
		}
	}
	return n
}

func sameHeaps(a, b *State) bool {
	if a.alloc != b.alloc || len(a.log) != len(b.log) || len(a.upd) != len(b.upd) || len(a.defers) != len(b.defers) {
		return false
	}
	for i := range a.log {
		if a.log[i] != b.log[i] {
			return false
		}
	}
	for i := range a.upd {
		if a.upd[i] != b.upd[i] {
			return false
		}
	}
	for i := range a.defers {
		if a.defers[i] != b.defers[i] {
			return false
		}
	}
	get := func(s *State, k string) *Term {
		if t, ok := s.heap[k]; ok {
			return t
		}
		return Const("H0:"+k, heapSorts[k])
	}
	for k := range det(a.heap) {
		if get(a, k) != get(b, k) {
			return false
		}
	}
	for k := range det(b.heap) {
		if get(a, k) != get(b, k) {
			return false
		}
	}
	return true
}

func commonPrefix(a, b []PC) int {
	n := 0
	for n < len(a) && n < len(b) && a[n] == b[n] {
		n++
	}
	return n
}

func suffixCond(pc []PC, n int) *Term {
	var cs []*Term
	for _, p := range pc[n:] {
		if !p.WF {
			cs = append(cs, p.T)
		}
	}
	return And(cs...)
}

func mergedPC(a, b *State) ([]PC, *Term, *Term) {
	n := commonPrefix(a.pc, b.pc)
	ca, cb := suffixCond(a.pc, n), suffixCond(b.pc, n)
	pc := append([]PC{}, a.pc[:n]...)
	side := func(ps []PC, cond *Term) {
		for _, p := range ps {
			if p.Path {
				if p.T = Imp(cond, p.T); p.T != tTrue {
					pc = append(pc, p)
				}
			} else if p.WF {
				pc = append(pc, p)
			}
		}
	}
	side(a.pc[n:], ca)
	side(b.pc[n:], cb)
	if o := factorOr(ca, cb); o != tTrue {
		pc = append(pc, PC{T: o})
	}
	return pc, ca, cb
}

// factorOr is Or with common conjuncts pulled out.
func factorOr(a, b *Term) *Term {
	cj := func(t *Term) []*Term {
		if t.Op == "and" {
			return t.Args
		}
		return []*Term{t}
	}
	inB := map[*Term]bool{}
	for _, t := range cj(b) {
		inB[t] = true
	}
	var common, ra, rb []*Term
	isC := map[*Term]bool{}
	for _, t := range cj(a) {
		if inB[t] {
			common = append(common, t)
			isC[t] = true
		} else {
			ra = append(ra, t)
		}
	}
	for _, t := range cj(b) {
		if !isC[t] {
			rb = append(rb, t)
		}
	}
	return And(append(common, Or(And(ra...), And(rb...)))...)
}

// mergeStates merges states that arrive at a join with the same memory.
func mergeStates(b *ssa.BasicBlock, in []*State) []*State {
	var out []*State
	var phis []ssa.Value
	for _, i := range b.Instrs {
		if ph, ok := i.(*ssa.Phi); ok {
			phis = append(phis, ph)
		}
	}
next:
	for _, s := range in {
		if s.dead() {
			continue
		}
	cand:
		for i, o := range out {
			if !sameHeaps(o, s) {
				continue
			}
			for _, ph := range phis {
				if o.env[ph] == nil || s.env[ph] == nil || !mergeable(o.env[ph], s.env[ph]) {
					continue cand
				}
			}
			n := o.copy()
			pc, ca, _ := mergedPC(o, s)
			n.pc = pc
			n.env = map[ssa.Value]*Val{}
			for k, v := range det(o.env) {
				if sv, ok := s.env[k]; ok && sameVal(v, sv) {
					n.env[k] = v
				}
			}
			for _, ph := range phis {
				n.env[ph] = mergeVal(ca, o.env[ph], s.env[ph])
			}
			for k, v := range det(o.names) {
				sv, ok := s.names[k]
				if !ok {
					delete(n.names, k)
				} else if mergeable(v, sv) {
					n.names[k] = mergeVal(ca, v, sv)
				} else {
					delete(n.names, k)
				}
			}
			out[i] = n
			continue next
		}
		out = append(out, s)
	}
	// too many paths: merge states whose memory differs as well
	for len(out) > maxPaths {
		merged := false
	pairs:
		for i := 0; i < len(out); i++ {
			for j := i + 1; j < len(out); j++ {
				if n := mergeHeaps(out[i], out[j], phis); n != nil {
					out[i] = n
					out = append(out[:j], out[j+1:]...)
					merged = true
					break pairs
				}
			}
		}
		if !merged {
			break
		}
	}
	return out
}

const maxPaths = 3

// mergeHeaps merges two states with different memory (conditional heaps).
func mergeHeaps(o, s *State, phis []ssa.Value) *State {
	if len(o.log) != len(s.log) || len(o.upd) != len(s.upd) || len(o.defers) != len(s.defers) {
		return nil
	}
	for i := range o.log {
		if o.log[i] != s.log[i] {
			return nil
		}
	}
	for i := range o.upd {
		if o.upd[i] != s.upd[i] {
			return nil
		}
	}
	for i := range o.defers {
		if o.defers[i] != s.defers[i] {
			return nil
		}
	}
	for _, ph := range phis {
		if o.env[ph] == nil || s.env[ph] == nil || !mergeable(o.env[ph], s.env[ph]) {
			return nil
		}
	}
	n := o.copy()
	pc, ca, _ := mergedPC(o, s)
	n.pc = pc
	get := func(s *State, k string) *Term {
		if t, ok := s.heap[k]; ok {
			return t
		}
		return Const("H0:"+k, heapSorts[k])
	}
	for k := range det(s.heap) {
		n.heap[k] = Ite(ca, get(o, k), get(s, k))
	}
	for k := range det(o.heap) {
		n.heap[k] = Ite(ca, get(o, k), get(s, k))
	}
	if o.alloc != s.alloc {
		a := Fresh("alloc", sInt)
		n.alloc = a
		allocGe[a] = o.alloc
		n.assumeWF(Le(o.alloc, a))
		n.assumeWF(Le(s.alloc, a))
	}
	n.env = map[ssa.Value]*Val{}
	for k, v := range det(o.env) {
		if sv, ok := s.env[k]; ok {
			if sameVal(v, sv) {
				n.env[k] = v
			} else if mergeable(v, sv) {
				n.env[k] = mergeVal(ca, v, sv)
			}
		}
	}
	for _, ph := range phis {
		n.env[ph] = mergeVal(ca, o.env[ph], s.env[ph])
	}
	for k, v := range det(o.names) {
		sv, ok := s.names[k]
		if ok && mergeable(v, sv) {
			n.names[k] = mergeVal(ca, v, sv)
		} else {
			delete(n.names, k)
		}
	}
	return n
}

func mergeRets(in []Ret) []Ret {
	var out []Ret
next:
	for _, r := range in {
		if r.st.dead() {
			continue
		}
	cand:
		for i, o := range out {
			if !sameHeaps(o.st, r.st) {
				continue
			}
			for j := range o.vals {
				if !mergeable(o.vals[j], r.vals[j]) {
					continue cand
				}
			}
			// keep error and success returns apart so that callers see simple paths
			if len(o.vals) > 0 {
				lo, lr := o.vals[len(o.vals)-1], r.vals[len(r.vals)-1]
				if lo.T != nil && lr.T != nil && len(o.vals) > 1 && lo.T.S == sInt && (lo.T == Int(0)) != (lr.T == Int(0)) {
					continue
				}
			}
			n := o.st.copy()
			pc, ca, _ := mergedPC(o.st, r.st)
			n.pc = pc
			vals := make([]*Val, len(o.vals))
			for j := range vals {
				vals[j] = mergeVal(ca, o.vals[j], r.vals[j])
			}
			out[i] = Ret{n, vals}
			continue next
		}
		out = append(out, r)
	}
	return out
}

func (x *Exec) block(fr *Frame, b *ssa.BasicBlock, st *State, out func(Outcome), next func(arrival)) {
	x.instrs(fr, b, 0, st, out, next)
}

func (x *Exec) instrs(fr *Frame, b *ssa.BasicBlock, i int, st *State, out func(Outcome), next func(arrival)) {
	for ; i < len(b.Instrs); i++ {
		x.steps++
		if x.steps > x.maxSteps {
			panic(unsupported("symbolic execution budget exceeded in %s", fnKey(fr.fn)))
		}
		if st.dead() {
			return
		}
		switch in := b.Instrs[i].(type) {
		case *ssa.Phi:
			continue
		case *ssa.DebugRef:
			if in.Object() != nil {
				if v, ok := in.Object().(*types.Var); ok && !v.IsField() {
					if vv, ok := st.env[in.X]; ok && !in.IsAddr && !x.shared[v.Pos()] {
						delete(st.names, "&"+v.Name())
						st.names[v.Name()] = vv
						st.ntype[v.Name()] = in.X.Type()
					}
				}
			}
			continue
		case *ssa.If:
			c := x.val(fr, st, in.Cond).T
			s2 := st.copy()
			st.assume(c)
			s2.assume(Not(c))
			if !st.dead() {
				next(arrival{b, b.Succs[0], st})
			}
			if !s2.dead() {
				next(arrival{b, b.Succs[1], s2})
			}
			return
		case *ssa.Jump:
			next(arrival{b, b.Succs[0], st})
			return
		case *ssa.Return:
			var vals []*Val
			for _, r := range in.Results {
				vals = append(vals, x.val(fr, st, r))
			}
			out(Outcome{kind: "ret", from: b, st: st, vals: vals})
			return
		case *ssa.Panic:
			x.panicAt(fr, st, in.Pos(), "explicit panic")
			return
		case *ssa.Call:
			rets := x.call(fr, st, in.Common(), in, in.Pos())
			for k, r := range rets {
				s := r.st
				if len(rets) > 1 && k < len(rets)-1 {
					s = s.copy()
				}
				s.env[in] = tupleVal(r.vals, in.Type())
				if len(rets) == 1 {
					st = s
				} else {
					x.instrs(fr, b, i+1, s, out, next)
				}
			}
			if len(rets) != 1 {
				return
			}
			continue
		case *ssa.Go:
			// one order of the goroutines: each runs as a whole at its go
			// statement; only with the clause "goroutines"
			if x.cur == nil || !x.cur.Goroutines {
				panic(unsupported("concurrency instruction %T at %s", in, x.pos(in.Pos())))
			}
			rets := x.call(fr, st, in.Common(), nil, in.Pos())
			for k, r := range rets {
				s := r.st
				if len(rets) > 1 && k < len(rets)-1 {
					s = s.copy()
				}
				if len(rets) == 1 {
					st = s
				} else {
					x.instrs(fr, b, i+1, s, out, next)
				}
			}
			if len(rets) != 1 {
				return
			}
			continue
		case *ssa.Defer:
			var args []*Val
			c := in.Common()
			d := &deferred{call: c}
			if !c.IsInvoke() {
				d.fn = x.val(fr, st, c.Value)
			} else {
				d.fn = x.val(fr, st, c.Value)
			}
			for _, a := range c.Args {
				args = append(args, x.val(fr, st, a))
			}
			d.args = args
			st.defers = append(st.defers, d)
			continue
		case *ssa.RunDefers:
			states := []*State{st}
			ds := st.defers
			for k := len(ds) - 1; k >= 0; k-- {
				var ns []*State
				for _, s := range states {
					s.defers = nil
					if ds[k].loop != nil {
						ns = append(ns, x.loopDefer(fr, s, ds[k]))
						continue
					}
					for _, r := range x.callWith(fr, s, ds[k].call, ds[k].fn, ds[k].args, nil, ds[k].call.Pos()) {
						ns = append(ns, r.st)
					}
				}
				states = ns
			}
			if len(states) == 1 {
				st = states[0]
				continue
			}
			for _, s := range states {
				x.instrs(fr, b, i+1, s.copy(), out, next)
			}
			return
		default:
			if !x.instr(fr, st, b.Instrs[i]) {
				return
			}
		}
	}
}

func tupleVal(vals []*Val, t types.Type) *Val {
	if tt, ok := t.(*types.Tuple); ok {
		if tt.Len() == 0 {
			return &Val{Tup: nil, T: Int(0)}
		}
		return &Val{Tup: vals}
	}
	if len(vals) == 1 {
		return vals[0]
	}
	if len(vals) == 0 {
		return &Val{T: Int(0)}
	}
	return &Val{Tup: vals}
}

func (x *Exec) panicAt(fr *Frame, st *State, p token.Pos, what string) {
	if x.cur != nil && x.cur.NoPanic {
		x.oblige(st, "no-panic", "safety", x.pos(p), tFalse)
	}
}

// safety records a "cannot panic" obligation when the contract asks for it
// and assumes the condition afterwards (a panicking run does not return).
func (x *Exec) safety(st *State, p token.Pos, what string, cond *Term) {
	if cond == tTrue {
		return
	}
	if x.cur != nil && x.cur.NoPanic {
		x.oblige(st, what, "safety", x.pos(p), cond)
	}
	st.assumePath(cond)
}

func (x *Exec) constVal(c *ssa.Const) *Val {
	t := c.Type()
	if c.Value == nil {
		return &Val{T: zeroOf(t)}
	}
	if isRefType(t) {
		return &Val{T: zeroOf(t)}
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return &Val{T: Bool(constant.BoolVal(c.Value))}
	case constant.String:
		return &Val{T: Lit(constant.StringVal(c.Value))}
	case constant.Int:
		if sortOf(t) == sReal {
			return &Val{T: Const("flt:"+c.Value.ExactString(), sReal)}
		}
		return &Val{T: BigInt(c.Value.ExactString())}
	}
	return &Val{T: Const("flt:"+c.Value.ExactString(), sortOf(t))}
}

func (x *Exec) val(fr *Frame, st *State, v ssa.Value) *Val {
	switch c := v.(type) {
	case *ssa.Const:
		return x.constVal(c)
	case *ssa.Function:
		t := fnConst(c)
		if closTab[t] == nil {
			closTab[t] = &Closure{Fn: c}
		}
		return &Val{T: t, Fn: closTab[t]}
	case *ssa.Global:
		el := derefType(c.Type())
		h := "G:" + c.RelString(nil)
		if heapSorts[h] == nil {
			heapSorts[h] = sortOf(el)
		}
		return &Val{Addr: &Addr{Heap: h, Typ: el}}
	case *ssa.Builtin:
		return &Val{T: Int(1)}
	}
	if r, ok := st.env[v]; ok {
		return r
	}
	panic(unsupported("no value for %s in %s", v.Name(), fnKey(fr.fn)))
}

func (x *Exec) loadVal(st *State, a *Addr, t types.Type) *Val {
	v := st.load(a)
	r := &Val{T: v}
	if fnv := x.fnOf(v); fnv != nil {
		r.Fn = fnv
	}
	for _, f := range wfFacts(t, v, st.alloc) {
		if !hasBound(f) && f.Op != "true" {
			st.assumeWF(f)
		}
	}
	return r
}

// localRef holds the references of variables that do not outlive their
// function (go/ssa marks those that do).
var localRef = map[*Term]bool{}

// onlyLocals says that a heap differs from h0 only in such variables.
func onlyLocals(v, h0 *Term) bool {
	for v != h0 {
		if v.Op != "store" || len(v.Args) != 3 || !localRef[v.Args[1]] {
			return false
		}
		v = v.Args[0]
	}
	return true
}

// closures stored in memory are found again through their constant.
var closTab = map[*Term]*Closure{}

func (x *Exec) fnOf(t *Term) *Closure { return closTab[t] }

func (x *Exec) instr(fr *Frame, st *State, in ssa.Instruction) bool {
	set := func(v ssa.Value, r *Val) { st.env[v] = r }
	switch in := in.(type) {
	case *ssa.Alloc:
		el := derefType(in.Type())
		r := st.newRef()
		if !in.Heap {
			localRef[r] = true
		}
		a := addrOf(&Val{T: r}, in.Type())
		if arr, ok := el.Underlying().(*types.Array); ok {
			h, hs := elemHeap(arr.Elem())
			st.heap[h] = Store(st.H(h, hs), r, ConstArr(hs.Elem, zeroOf(arr.Elem())))
			_ = a
		} else {
			if a.Heap != "" {
				st.H(a.Heap, heapSorts[a.Heap])
			}
			st.store(a, zeroOf(el))
		}
		set(in, &Val{T: r})
		if in.Heap && in.Comment != "" && in.Pos().IsValid() {
			// a variable that closures share lives in memory
			x.shared[in.Pos()] = true
			st.names["&"+in.Comment], st.ntype["&"+in.Comment] = &Val{T: r}, in.Type()
		}
	case *ssa.BinOp:
		set(in, x.binop(fr, st, in))
	case *ssa.UnOp:
		xv := x.val(fr, st, in.X)
		switch in.Op {
		case token.ARROW:
			if x.cur == nil || !x.cur.Goroutines || in.CommaOk {
				panic(unsupported("concurrency instruction %T at %s", in, x.pos(in.Pos())))
			}
			set(in, &Val{T: Fresh("received", sortOf(in.Type()))})
		case token.MUL:
			if xv.Addr == nil {
				x.safety(st, in.Pos(), "nil-deref", Not(Eq(xv.T, Int(0))))
			}
			set(in, x.loadVal(st, addrOf(xv, in.X.Type()), in.Type()))
		case token.NOT:
			set(in, &Val{T: Not(xv.T)})
		case token.SUB:
			if sortOf(in.Type()) == sReal {
				set(in, &Val{T: App("flt.neg", sReal, xv.T)})
			} else {
				set(in, &Val{T: Neg(xv.T)})
			}
		default:
			panic(unsupported("unary operator %s", in.Op))
		}
	case *ssa.ChangeType:
		set(in, x.val(fr, st, in.X))
	case *ssa.ChangeInterface:
		set(in, x.val(fr, st, in.X))
	case *ssa.MakeInterface:
		set(in, x.box(st, x.val(fr, st, in.X), in.X.Type()))
	case *ssa.Convert:
		set(in, x.convert(fr, st, in))
	case *ssa.Extract:
		set(in, x.val(fr, st, in.Tuple).Tup[in.Index])
	case *ssa.Field:
		xv := x.val(fr, st, in.X)
		v := Sel(xv.T, in.Field)
		set(in, &Val{T: v, Fn: x.fnOf(v)})
	case *ssa.FieldAddr:
		xv := x.val(fr, st, in.X)
		if xv.Addr == nil {
			x.safety(st, in.Pos(), "nil-deref", Not(Eq(xv.T, Int(0))))
		}
		a := addrOf(xv, in.X.Type())
		set(in, &Val{Addr: st.fieldAddr(a, derefType(in.X.Type()), in.Field)})
	case *ssa.Index:
		xv, iv := x.val(fr, st, in.X), x.val(fr, st, in.Index)
		if sortOf(in.X.Type()) == sStr {
			x.safety(st, in.Pos(), "index-in-range", And(Le(Int(0), iv.T), Lt(iv.T, StrLen(xv.T))))
			set(in, &Val{T: StrAt(st, xv.T, iv.T)})
		} else {
			set(in, &Val{T: Select(xv.T, iv.T)})
		}
	case *ssa.IndexAddr:
		xv, iv := x.val(fr, st, in.X), x.val(fr, st, in.Index)
		switch u := in.X.Type().Underlying().(type) {
		case *types.Slice:
			h, _ := elemHeap(u.Elem())
			x.safety(st, in.Pos(), "index-in-range", And(Le(Int(0), iv.T), Lt(iv.T, sliceLen(xv.T))))
			set(in, &Val{Addr: &Addr{Heap: h, Ref: sliceRef(xv.T), Idx: Add(sliceOff(xv.T), iv.T), Typ: u.Elem()}})
		case *types.Pointer:
			arr := u.Elem().Underlying().(*types.Array)
			h, _ := elemHeap(arr.Elem())
			if xv.Addr != nil {
				if xv.Addr.Heap == h && xv.Addr.Idx == nil && len(xv.Addr.Path) == 0 {
					set(in, &Val{Addr: &Addr{Heap: h, Ref: xv.Addr.Ref, Idx: iv.T, Typ: arr.Elem()}})
					break
				}
				panic(unsupported("element address of an interior array"))
			}
			set(in, &Val{Addr: &Addr{Heap: h, Ref: xv.T, Idx: iv.T, Typ: arr.Elem()}})
		default:
			panic(unsupported("IndexAddr on %s", in.X.Type()))
		}
	case *ssa.Lookup:
		xv, iv := x.val(fr, st, in.X), x.val(fr, st, in.Index)
		if m, ok := in.X.Type().Underlying().(*types.Map); ok {
			dn, ds, vn, vs := mapHeaps(m)
			d := Select(Select(st.H(dn, ds), xv.T), iv.T)
			raw := Select(Select(st.H(vn, vs), xv.T), iv.T)
			v := Ite(d, raw, zeroOf(m.Elem()))
			x.nilMapFact(st, xv.T, dn, ds)
			for _, f := range wfFacts(m.Elem(), raw, st.alloc) {
				if !hasBound(f) {
					st.assumeWF(f)
				}
			}
			vv := &Val{T: v, Fn: x.fnOf(v)}
			if in.CommaOk {
				set(in, &Val{Tup: []*Val{vv, {T: d}}})
			} else {
				set(in, vv)
			}
		} else {
			x.safety(st, in.Pos(), "index-in-range", And(Le(Int(0), iv.T), Lt(iv.T, StrLen(xv.T))))
			set(in, &Val{T: StrAt(st, xv.T, iv.T)})
		}
	case *ssa.MapUpdate:
		m := in.Map.Type().Underlying().(*types.Map)
		x.mapStore(st, m, x.val(fr, st, in.Map).T, x.val(fr, st, in.Key).T, x.termOf(x.val(fr, st, in.Value)))
	case *ssa.MakeMap:
		m := in.Type().Underlying().(*types.Map)
		dn, ds, vn, vs := mapHeaps(m)
		r := st.newRef()
		st.heap[dn] = Store(st.H(dn, ds), r, ConstArr(ds.Elem, tFalse))
		st.H(vn, vs)
		set(in, &Val{T: r})
	case *ssa.MakeSlice:
		el := in.Type().Underlying().(*types.Slice).Elem()
		h, hs := elemHeap(el)
		r := st.newRef()
		st.heap[h] = Store(st.H(h, hs), r, ConstArr(hs.Elem, zeroOf(el)))
		set(in, &Val{T: MkDT(sSlice, r, Int(0), x.val(fr, st, in.Len).T)})
	case *ssa.MakeClosure:
		c := &Closure{Fn: in.Fn.(*ssa.Function)}
		for _, bv := range in.Bindings {
			c.Bind = append(c.Bind, x.val(fr, st, bv))
		}
		t := Fresh("fn:"+clean(c.Fn.Name()), sInt)
		closTab[t] = c
		st.assumeWF(Not(Eq(t, Int(0))))
		set(in, &Val{T: t, Fn: c})
	case *ssa.Slice:
		set(in, x.slice(fr, st, in))
	case *ssa.Store:
		a := addrOf(x.val(fr, st, in.Addr), in.Addr.Type())
		v := x.val(fr, st, in.Val)
		st.store(a, x.termOf(v))
	case *ssa.TypeAssert:
		set(in, x.typeAssert(fr, st, in))
	case *ssa.Range:
		xv := x.val(fr, st, in.X)
		if m, ok := in.X.Type().Underlying().(*types.Map); ok {
			dn, ds, _, _ := mapHeaps(m)
			set(in, &Val{T: Int(0), Iter: &IterInfo{Map: xv.T, MapType: m, Dom0: Select(st.H(dn, ds), xv.T), Vis: ConstArr(arraySort(sortOf(m.Key()), sBool), tFalse)}})
		} else {
			set(in, &Val{T: Int(0), Iter: &IterInfo{Str: xv.T, Pos: Int(0)}})
		}
	case *ssa.Next:
		x.next(fr, st, in)
	case *ssa.MakeChan:
		if x.cur == nil || !x.cur.Goroutines {
			panic(unsupported("concurrency instruction %T at %s", in, x.pos(in.Pos())))
		}
		set(in, &Val{T: st.newRef()})
	case *ssa.Send:
		// blocking is not modelled
		if x.cur == nil || !x.cur.Goroutines {
			panic(unsupported("concurrency instruction %T at %s", in, x.pos(in.Pos())))
		}
	case *ssa.Go, *ssa.Select:
		panic(unsupported("concurrency instruction %T at %s", in, x.pos(in.Pos())))
	default:
		panic(unsupported("instruction %T at %s", in, x.pos(in.Pos())))
	}
	return true
}

func (x *Exec) nilMapFact(st *State, m *Term, dn string, ds *Sort) {
	x.nilMapFactIn(st, st.H(dn, ds), m, ds)
}

// nilMapFactIn assumes in st that m has no keys in the heap h if it is nil.
func (x *Exec) nilMapFactIn(st *State, h, m *Term, ds *Sort) {
	d0 := Select(h, m)
	if hasBound(m) || hasBound(d0) {
		return
	}
	if neverNil(m) {
		return
	}
	if d0.Op == "select" {
		// reading a nil map finds nothing
		k := BV("k", ds.Elem.Key)
		st.assumeWF(Imp(Eq(m, Int(0)), Forall([]*Term{k}, Not(Select(d0, k)))))
	}
}

func (x *Exec) termOf(v *Val) *Term {
	if v.T != nil {
		if v.Fn != nil && closTab[v.T] == nil {
			closTab[v.T] = v.Fn
		}
		return v.T
	}
	if v.Addr != nil && v.Addr.Heap == "" {
		return v.Addr.Ref
	}
	if os.Getenv("GVC_PANIC") != "" {
		debug.PrintStack()
	}
	panic(unsupported("storing an interior pointer"))
}

func (x *Exec) mapStore(st *State, m *types.Map, ref, key, val *Term) {
	dn, ds, vn, vs := mapHeaps(m)
	d, v := st.H(dn, ds), st.H(vn, vs)
	known := false
	absent := Not(Select(Select(d, ref), key))
	for _, p := range st.pc {
		if p.T == absent {
			known = true
		}
	}
	if absent == tTrue {
		known = true
	}
	st.upd = append(st.upd, &MapUpd{Ref: ref, Key: key, Val: val, Heap: dn, FreshKey: known})
	st.heap[dn] = Store(d, ref, Store(Select(d, ref), key, tTrue))
	st.heap[vn] = Store(v, ref, Store(Select(v, ref), key, val))
}

func tagID(t types.Type) *Term {
	c := Const("type:"+tkey(t), sInt)
	tagTypes[c] = t
	return c
}

func boxName(t types.Type) string {
	n := "box:" + tkey(t)
	boxTypes[n] = t
	return n
}

func isPtr(t types.Type) bool {
	_, ok := t.Underlying().(*types.Pointer)
	return ok
}

// box converts a concrete value to an interface value.
func (x *Exec) box(st *State, v *Val, t types.Type) *Val {
	if isPtr(t) {
		if v.T == nil {
			return &Val{T: x.termOf(v), Dyn: t, DynV: v}
		}
		if !hasBound(v.T) && !neverNil(v.T) {
			st.assumePath(Imp(Not(Eq(v.T, Int(0))), Eq(App("tagof", sInt, v.T), tagID(t))))
		} else if !hasBound(v.T) {
			st.assumePath(Eq(App("tagof", sInt, v.T), tagID(t)))
		}
		return &Val{T: v.T, Dyn: t, DynV: v}
	}
	tt := x.termOf(v)
	return &Val{T: App(boxName(t), sInt, tt), Dyn: t, DynV: v}
}

func (x *Exec) typeAssert(fr *Frame, st *State, in *ssa.TypeAssert) *Val {
	xv := x.val(fr, st, in.X)
	at := in.AssertedType
	mkres := func(v *Val, ok *Term) *Val {
		if in.CommaOk {
			return &Val{Tup: []*Val{v, {T: ok}}}
		}
		x.safety(st, in.Pos(), "type-assertion", ok)
		return v
	}
	if xv.Dyn != nil {
		if types.IsInterface(at) {
			if types.Implements(xv.Dyn, at.Underlying().(*types.Interface)) {
				return mkres(xv, tTrue)
			}
			return mkres(&Val{T: Int(0)}, tFalse)
		}
		if types.Identical(xv.Dyn, at) {
			return mkres(xv.DynV, tTrue)
		}
		return mkres(&Val{T: zeroOf(at)}, tFalse)
	}
	tag := App("tagof", sInt, xv.T)
	if types.IsInterface(at) {
		ifaceTypes["implements:"+tkey(at)] = at
		ok := And(Not(Eq(xv.T, Int(0))), App("implements:"+tkey(at), sBool, tag))
		return mkres(&Val{T: Ite(ok, xv.T, Int(0))}, ok)
	}
	ok := And(Not(Eq(xv.T, Int(0))), Eq(tag, tagID(at)))
	if isPtr(at) {
		v := &Val{T: Ite(ok, xv.T, Int(0))}
		if !in.CommaOk {
			v.T = xv.T
		}
		if !hasBound(xv.T) {
			st.assumeWF(Imp(ok, And(Le(Int(0), xv.T), Lt(xv.T, st.alloc))))
		}
		return mkres(v, ok)
	}
	ub := App("unbox:"+tkey(at), sortOf(at), xv.T)
	for _, f := range wfFacts(at, ub, st.alloc) {
		if !hasBound(f) {
			st.assumeWF(f)
		}
	}
	return mkres(&Val{T: Ite(ok, ub, zeroOf(at))}, ok)
}

func (x *Exec) next(fr *Frame, st *State, in *ssa.Next) {
	itv := x.val(fr, st, in.Iter)
	it := itv.Iter
	if it == nil {
		panic(unsupported("iterator lost"))
	}
	if in.IsString {
		n := App("str.runes", sInt, it.Str)
		st.assumeWF(Le(Int(0), n))
		ok := Lt(it.Pos, n)
		r := App("str.rune", sInt, it.Str, it.Pos)
		st.assumeWF(And(Le(Int(0), r), Le(r, Int(0x10FFFF))))
		off := App("str.runeoff", sInt, it.Str, it.Pos)
		ni := *it
		ni.Pos = Add(it.Pos, Int(1))
		st.env[in.Iter] = &Val{T: Int(0), Iter: &ni}
		st.env[in] = &Val{Tup: []*Val{{T: ok}, {T: off}, {T: r}}}
		return
	}
	dn, ds, vn, vs := mapHeaps(it.MapType)
	dom := Select(st.H(dn, ds), it.Map)
	x.nilMapFact(st, it.Map, dn, ds)
	k := it.Key
	if k == nil {
		k = Fresh("key", sortOf(it.MapType.Key()))
	}
	ok := Fresh("more", sBool)
	raw := Select(Select(st.H(vn, vs), it.Map), k)
	st.assumeWF(Imp(ok, And(Select(dom, k), Select(it.Dom0, k), Not(Select(it.Vis, k)))))
	if dom == it.Dom0 {
		st.assumeWF(Imp(Not(ok), Eq(it.Vis, dom)))
	} else {
		kk := BV("k", sortOf(it.MapType.Key()))
		st.assumeWF(Imp(Not(ok), Forall([]*Term{kk}, Imp(Select(dom, kk), Select(it.Vis, kk)))))
	}
	for _, f := range wfFacts(it.MapType.Key(), k, st.alloc) {
		st.assumeWF(f)
	}
	for _, f := range wfFacts(it.MapType.Elem(), raw, st.alloc) {
		st.assumeWF(f)
	}
	ni := *it
	ni.Vis = Store(it.Vis, k, tTrue)
	ni.Key = nil
	st.env[in.Iter] = &Val{T: Int(0), Iter: &ni}
	st.env[in] = &Val{Tup: []*Val{{T: ok}, {T: k}, {T: raw, Fn: x.fnOf(raw)}}}
}

func StrLen(s *Term) *Term {
	if s.Op == "lit" {
		return Int(int64(len(s.Name)))
	}
	if s.Op == "app" && s.Name == "str.cat" {
		return Add(StrLen(s.Args[0]), StrLen(s.Args[1]))
	}
	return App("str.len", sInt, s)
}

func StrAt(st *State, s, i *Term) *Term {
	if s.Op == "lit" {
		if n, ok := intVal(i); ok && n >= 0 && n < int64(len(s.Name)) {
			return Int(int64(s.Name[n]))
		}
	}
	t := App("str.at", sInt, s, i)
	if st != nil && !hasBound(t) {
		st.assumeWF(And(Le(Int(0), t), Le(t, Int(255))))
	}
	return t
}

func isCat(a *Term) bool { return a.Op == "lit" || a.Op == "app" && a.Name == "str.cat" }

func StrCat(a, b *Term) *Term {
	if a.Op == "lit" && b.Op == "lit" {
		return Lit(a.Name + b.Name)
	}
	if a.Op == "lit" && a.Name == "" {
		return b
	}
	if b.Op == "lit" && b.Name == "" {
		return a
	}
	if a.Op == "ite" && b.Op == "lit" { // so literals merge inside the branches
		return Ite(a.Args[0], StrCat(a.Args[1], b), StrCat(a.Args[2], b))
	}
	if a.Op == "ite" && (isCat(a.Args[1]) || isCat(a.Args[2])) { // so the branches right-associate
		return Ite(a.Args[0], StrCat(a.Args[1], b), StrCat(a.Args[2], b))
	}
	if a.Op == "app" && a.Name == "str.cat" { // right-associate
		return StrCat(a.Args[0], StrCat(a.Args[1], b))
	}
	if a.Op == "lit" && b.Op == "app" && b.Name == "str.cat" && b.Args[0].Op == "lit" {
		return StrCat(Lit(a.Name+b.Args[0].Name), b.Args[1])
	}
	return App("str.cat", sStr, a, b)
}

func init() {
	appSimp["str.cat"] = func(a []*Term) *Term { return StrCat(a[0], a[1]) }
	appSimp["str.len"] = func(a []*Term) *Term { return StrLen(a[0]) }
	appSimp["str.at"] = func(a []*Term) *Term { return StrAt(nil, a[0], a[1]) }
	appSimp["str.sub"] = func(a []*Term) *Term { return StrSub(a[0], a[1], a[2]) }
}

func StrSub(s, lo, hi *Term) *Term {
	if lo == Int(0) && hi == StrLen(s) {
		return s
	}
	if s.Op == "lit" {
		if l, ok := intVal(lo); ok {
			if h, ok := intVal(hi); ok && 0 <= l && l <= h && h <= int64(len(s.Name)) {
				return Lit(s.Name[l:h])
			}
		}
	}
	return App("str.sub", sStr, s, lo, hi)
}

func StrLt(a, b *Term) *Term {
	if a.Op == "lit" && b.Op == "lit" {
		return Bool(a.Name < b.Name)
	}
	if a == b {
		return tFalse
	}
	return App("str.lt", sBool, a, b)
}

func (x *Exec) binop(fr *Frame, st *State, in *ssa.BinOp) *Val {
	av, bv := x.val(fr, st, in.X), x.val(fr, st, in.Y)
	if in.Op == token.EQL || in.Op == token.NEQ {
		var e *Term
		switch {
		case av.T == nil && bv.T == nil:
			panic(unsupported("comparison of interior pointers"))
		case av.T == nil || bv.T == nil:
			o := av
			if av.T == nil {
				o = bv
			}
			if o.T == Int(0) {
				e = tFalse
			} else {
				e = Eq(x.termOf(av), x.termOf(bv))
			}
		case av.Fn != nil && bv.T == Int(0) || bv.Fn != nil && av.T == Int(0):
			e = tFalse
		default:
			if _, ok := in.X.Type().Underlying().(*types.Slice); ok {
				// only nil comparison is legal
				s := av.T
				if s == nilSlice {
					s = bv.T
				}
				e = Eq(sliceRef(s), Int(0))
				break
			}
			at, bt := av.T, bv.T
			// comparing an interface with a concrete value
			if types.IsInterface(in.X.Type()) && !types.IsInterface(in.Y.Type()) {
				bt = x.box(st, bv, in.Y.Type()).T
			} else if !types.IsInterface(in.X.Type()) && types.IsInterface(in.Y.Type()) {
				at = x.box(st, av, in.X.Type()).T
			}
			e = Eq(at, bt)
		}
		if in.Op == token.NEQ {
			e = Not(e)
		}
		return &Val{T: e}
	}
	a, b := av.T, bv.T
	switch sortOf(in.X.Type()) {
	case sStr:
		switch in.Op {
		case token.ADD:
			return &Val{T: StrCat(a, b)}
		case token.LSS:
			return &Val{T: StrLt(a, b)}
		case token.GTR:
			return &Val{T: StrLt(b, a)}
		case token.LEQ:
			return &Val{T: Not(StrLt(b, a))}
		case token.GEQ:
			return &Val{T: Not(StrLt(a, b))}
		}
	case sInt:
		switch in.Op {
		case token.ADD:
			return &Val{T: Add(a, b)}
		case token.SUB:
			return &Val{T: Sub(a, b)}
		case token.MUL:
			return &Val{T: Mul(a, b)}
		case token.LSS:
			return &Val{T: Lt(a, b)}
		case token.GTR:
			return &Val{T: Lt(b, a)}
		case token.LEQ:
			return &Val{T: Le(a, b)}
		case token.GEQ:
			return &Val{T: Le(b, a)}
		default:
			return &Val{T: App("int."+in.Op.String(), sInt, a, b)}
		}
	case sBool:
		switch in.Op {
		case token.AND, token.LAND:
			return &Val{T: And(a, b)}
		case token.OR, token.LOR:
			return &Val{T: Or(a, b)}
		}
	case sReal:
		switch in.Op {
		case token.LSS, token.GTR, token.LEQ, token.GEQ:
			return &Val{T: App("flt."+in.Op.String(), sBool, a, b)}
		}
		return &Val{T: App("flt."+in.Op.String(), sReal, a, b)}
	}
	panic(unsupported("binary operator %s on %s", in.Op, in.X.Type()))
}

func (x *Exec) convert(fr *Frame, st *State, in *ssa.Convert) *Val {
	v := x.val(fr, st, in.X)
	from, to := sortOf(in.X.Type()), sortOf(in.Type())
	if from == to {
		return &Val{T: v.T, Fn: v.Fn, Addr: v.Addr}
	}
	if to == sStr && from == sSlice {
		el := in.X.Type().Underlying().(*types.Slice).Elem()
		h, hs := elemHeap(el)
		return &Val{T: App("str.of:"+tkey(el), sStr, Select(st.H(h, hs), sliceRef(v.T)), sliceOff(v.T), sliceLen(v.T))}
	}
	if to == sSlice && from == sStr {
		el := in.Type().Underlying().(*types.Slice).Elem()
		h, hs := elemHeap(el)
		r := st.newRef()
		st.heap[h] = Store(st.H(h, hs), r, App("str.elems:"+tkey(el), hs.Elem, v.T))
		ln := App("str.runes", sInt, v.T)
		if b, ok := el.Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
			ln = StrLen(v.T)
		}
		st.assumeWF(Le(Int(0), ln))
		return &Val{T: MkDT(sSlice, r, Int(0), ln)}
	}
	if to == sStr && from == sInt {
		return &Val{T: ofRune(v.T)}
	}
	return &Val{T: App("conv:"+from.Name+":"+to.Name, to, v.T)}
}

func (x *Exec) slice(fr *Frame, st *State, in *ssa.Slice) *Val {
	xv := x.val(fr, st, in.X)
	lo := Int(0)
	if in.Low != nil {
		lo = x.val(fr, st, in.Low).T
	}
	var hi *Term
	if in.High != nil {
		hi = x.val(fr, st, in.High).T
	}
	switch u := in.X.Type().Underlying().(type) {
	case *types.Basic:
		if hi == nil {
			hi = StrLen(xv.T)
		}
		x.safety(st, in.Pos(), "slice-in-range", And(Le(Int(0), lo), Le(lo, hi), Le(hi, StrLen(xv.T))))
		r := StrSub(xv.T, lo, hi)
		return &Val{T: r}
	case *types.Slice:
		if hi == nil {
			hi = sliceLen(xv.T)
		}
		// slicing up to the capacity is not supported: require <= len
		x.safety(st, in.Pos(), "slice-in-range", And(Le(Int(0), lo), Le(lo, hi), Le(hi, sliceLen(xv.T))))
		return &Val{T: MkDT(sSlice, sliceRef(xv.T), Add(sliceOff(xv.T), lo), Sub(hi, lo))}
	case *types.Pointer:
		arr := u.Elem().Underlying().(*types.Array)
		if hi == nil {
			hi = Int(arr.Len())
		}
		r := xv.T
		if r == nil {
			if xv.Addr == nil || xv.Addr.Idx != nil || len(xv.Addr.Path) > 0 {
				panic(unsupported("slice of an interior array"))
			}
			r = xv.Addr.Ref
		}
		return &Val{T: MkDT(sSlice, r, lo, Sub(hi, lo))}
	}
	panic(unsupported("slice of %s", in.X.Type()))
}

// appendOne builds the result of appending to a slice (always reallocating).
func (x *Exec) appendSlice(st *State, base *Val, other *Val, elem types.Type) *Val {
	h, hs := elemHeap(elem)
	A := st.H(h, hs)
	b, o := base.T, other.T
	oarr := Select(A, sliceRef(o))
	if o == nilSlice {
		return &Val{T: b, App: base.App}
	}
	if n, ok := intVal(sliceLen(o)); ok && n <= 8 {
		if n == 0 {
			return base
		}
		barr := Select(A, sliceRef(b))
		if sliceRef(b) == Int(0) {
			barr = ConstArr(hs.Elem, zeroOf(elem))
		}
		if sliceOff(b) != Int(0) {
			barr = App("arr.shift:"+hs.Elem.Name, hs.Elem, barr, sliceOff(b))
		}
		ai := &AppendInfo{Base: base}
		for i := int64(0); i < n; i++ {
			e := Select(oarr, Add(sliceOff(o), Int(i)))
			ai.Elems = append(ai.Elems, e)
			barr = Store(barr, Add(sliceLen(b), Int(i)), e)
		}
		r := st.newRef()
		st.heap[h] = Store(A, r, barr)
		return &Val{T: MkDT(sSlice, r, Int(0), Add(sliceLen(b), Int(n))), App: ai}
	}
	barr := Select(A, sliceRef(b))
	if n, ok := intVal(sliceLen(b)); ok && n == 0 && sliceOff(b) == Int(0) {
		barr = ConstArr(hs.Elem, zeroOf(elem))
	}
	carr := App("arr.cat:"+hs.Elem.Name, hs.Elem, barr, sliceOff(b), sliceLen(b), oarr, sliceOff(o), sliceLen(o))
	r := st.newRef()
	st.heap[h] = Store(A, r, carr)
	ln := Add(sliceLen(b), sliceLen(o))
	// appending nothing to nil yields nil: keep the length exact, ref is fresh
	return &Val{T: MkDT(sSlice, r, Int(0), ln), App: &AppendInfo{Base: base, Other: o, OArr: oarr}}
}

// loopDefer runs a call that iterations of a loop have deferred, any number of
// times: everything it may write becomes unknown, everything it may call is
// recorded as possible. Values of one iteration are arbitrary.
func (x *Exec) loopDefer(fr *Frame, st *State, d *deferred) *State {
	if x.cur != nil && x.cur.NoPanic && x.mute == 0 {
		panic(unsupported("defer in a loop of %s, which must not panic", fnKey(fr.fn)))
	}
	c := d.call
	arb := func(v ssa.Value) *Val {
		switch v.(type) {
		case *ssa.Const, *ssa.Function, *ssa.Global, *ssa.Builtin:
			return x.val(fr, st, v)
		}
		if in, ok := v.(ssa.Instruction); !ok || !d.loop.blocks[in.Block()] {
			return x.val(fr, st, v)
		}
		w := &Val{T: Fresh("deferred."+clean(v.Name()), sortOf(v.Type()))}
		for _, f := range wfFacts(v.Type(), w.T, st.alloc) {
			st.assumeWF(f)
		}
		return w
	}
	var fn *Val
	if mc, ok := c.Value.(*ssa.MakeClosure); ok {
		var bind []*Val
		for _, b := range mc.Bindings {
			bind = append(bind, arb(b))
		}
		fn = &Val{T: Int(1), Fn: &Closure{Fn: mc.Fn.(*ssa.Function), Bind: bind}}
	} else {
		fn = arb(c.Value)
	}
	var args []*Val
	for _, a := range c.Args {
		args = append(args, arb(a))
	}
	mod := map[string]bool{}     // memory written
	only := map[string][]*Term{} // written there alone; nil: anywhere
	n0 := freshN
	x.mute++
	defer func() { x.mute-- }()
	for round := 0; round < 8; round++ {
		h := st.copy()
		for k := range det(mod) {
			if only[k] != nil {
				t := h.H(k, heapSorts[k])
				for _, r := range only[k] {
					t = Store(t, r, Fresh("HE:"+clean(k), heapSorts[k].Elem))
				}
				h.heap[k] = t
				continue
			}
			h.heap[k] = Fresh("H:"+clean(k), heapSorts[k])
		}
		h.newAlloc()
		for k := range det(mod) {
			if only[k] != nil {
				continue
			}
			heapOf[h.heap[k]] = heapInfo{k, h.alloc}
		}
		base := h.copy()
		n := len(h.log)
		changed := false
		var evs []*Delta
		for _, r := range x.callWith(fr, h, c, fn, args, nil, c.Pos()) {
			for k, v := range det(r.st.heap) {
				b, ok := base.heap[k]
				if !ok {
					b = Const("H0:"+k, heapSorts[k])
				}
				if b == v || mod[k] && only[k] == nil {
					continue
				}
				// the same memory but for some cells?
				refs, ok := only[k], true
				bottom := func(t *Term) *Term {
					for t.Op == "store" {
						r := t.Args[1]
						ok = ok && oldTerm(r, n0) && !strings.Contains(r.String(), "deferred.")
						if !containsTerm(refs, r) {
							refs, changed = append(refs, r), true
						}
						t = t.Args[0]
					}
					return t
				}
				if bottom(v) != bottom(b) {
					ok = false
				}
				if !ok {
					refs, changed = nil, true
				}
				mod[k], only[k] = true, refs
			}
			for _, e := range r.st.log[n:] {
				ev := &Event{Sink: e.Ev.Sink, Name: e.Ev.Name, ATy: e.Ev.ATy}
				for range e.Ev.Args {
					ev.Args = append(ev.Args, &Val{})
				}
				if ev.Name == "" {
					ev.Sink, ev.Name, ev.Args = Const("sink:?", sInt), "?", nil
				}
				evs = append(evs, &Delta{Cond: tTrue, Ev: ev, May: true})
			}
		}
		if !changed {
			base.log = append(base.log, evs...)
			base.newAlloc()
			return base
		}
	}
	panic(unsupported("deferred calls of a loop in %s do not stabilise", fnKey(fr.fn)))
}
