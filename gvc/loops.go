package main

// Loops: inferred and user-supplied inductive invariants.
//
// Every loop is cut at its header. Candidate invariants are derived from one
// symbolic execution of the body, then filtered: a candidate that is not
// proved to hold initially and to be preserved is dropped. What remains is
// assumed at the header; invariants from contracts become obligations.

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type candidate struct {
	name string
	// f gives the invariant for a given valuation of the loop state
	f func(v *loopView) *Term
}

// loopView is the loop state at one visit of the header.
type loopView struct {
	st  *State
	dom func(it *Term) *Term // iterations completed so far
}

type loopCtx struct {
	x      *Exec
	fr     *Frame
	l      *Loop
	in     *State
	phis   []*ssa.Phi
	init   map[*ssa.Phi]*Val
	sym    map[*ssa.Phi]*Term
	constP map[*ssa.Phi]bool // phi never changes
	off0   map[*ssa.Phi]bool // slice variable with offset 0 throughout
	// memory cells (heap@ref) holding a slice with offset 0 throughout
	cellOff0   map[string]bool
	idx        *ssa.Phi
	next       *ssa.Next
	rng        *ssa.Range
	rngInit    *IterInfo
	iterSym    *Term // symbol standing for the current iteration
	shift      int64 // index loops: iteration number = index variable + shift
	vis        *Term // visited set / position symbol
	mod        map[string]bool
	modRefs    map[string][]*Term // locations written; nil entry with mod set: unknown
	modAll     map[string]bool
	outer      []*Term // allocation counters on entry to the enclosing loops
	loopDefers map[*ssa.Defer]*deferred
	framed     map[string]bool // heaps whose old part is known not to change
	lossy      bool            // some condition of the body was not expressible
	gen0       int
}

// unroll runs an index loop completely when its bound and start are small
// constants in the current state (ranging over a literal or a package table).
func (x *Exec) unroll(fr *Frame, l *Loop, st *State) ([]Outcome, bool) {
	limit := int64(3)
	if x.tolerant {
		limit = 300
	}
	h := l.header
	br, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
	if !ok || len(x.userInvariants(fr, l)) > 0 {
		return nil, false
	}
	cond, ok := br.Cond.(*ssa.BinOp)
	if !ok || cond.Op.String() != "<" || cond.Block() != h || l.blocks[h.Succs[1]] {
		return nil, false
	}
	var idx *ssa.Phi
	switch v := cond.X.(type) {
	case *ssa.Phi:
		idx = v
	case *ssa.BinOp:
		idx, _ = v.X.(*ssa.Phi)
	}
	if idx == nil || idx.Block() != h {
		return nil, false
	}
	if !(&loopCtx{x: x, fr: fr, l: l}).isIndex(idx) {
		return nil, false
	}
	var bound *Term
	if in, ok := cond.Y.(ssa.Instruction); ok && l.blocks[in.Block()] {
		return nil, false
	}
	if v := x.val(fr, st, cond.Y); v != nil {
		bound = v.T
	}
	if bound == nil || st.env[idx] == nil || st.env[idx].T == nil {
		return nil, false
	}
	n, ok := intVal(bound)
	i0, ok2 := intVal(st.env[idx].T)
	if !ok || !ok2 || n-i0 > limit {
		return nil, false
	}
	var outs []Outcome
	cur := []*State{st}
	for k := int64(0); k <= n-i0+1 && len(cur) > 0; k++ {
		var next []*State
		for _, s := range cur {
			for _, o := range x.region(fr, l, []arrival{{nil, h, s}}) {
				if o.kind == "back" {
					if !o.st.dead() {
						next = append(next, x.phis(fr, o.from, h, o.st))
					}
					continue
				}
				if !o.st.dead() {
					outs = append(outs, o)
				}
			}
		}
		cur = next
	}
	if len(cur) > 0 {
		panic(unsupported("unrolled loop does not end in %s", fnKey(fr.fn)))
	}
	return outs, true
}

func (x *Exec) loop(fr *Frame, l *Loop, a arrival) []Outcome {
	st := a.st
	if a.from != nil {
		st = x.phis(fr, a.from, l.header, st)
	}
	if outs, ok := x.unroll(fr, l, st); ok {
		return outs
	}
	if x.tolerant {
		panic(unsupported("loop in an initialiser (%s)", fnKey(fr.fn)))
	}
	c := &loopCtx{x: x, fr: fr, l: l, in: st, init: map[*ssa.Phi]*Val{}, sym: map[*ssa.Phi]*Term{}, constP: map[*ssa.Phi]bool{}, off0: map[*ssa.Phi]bool{}, cellOff0: map[string]bool{}, mod: map[string]bool{}, modRefs: map[string][]*Term{}, modAll: map[string]bool{}}
	for _, in := range l.header.Instrs {
		if ph, ok := in.(*ssa.Phi); ok {
			c.phis = append(c.phis, ph)
			c.init[ph] = st.env[ph]
		}
	}
	// Next belonging to this loop: in the header
	for _, in := range l.header.Instrs {
		if n, ok := in.(*ssa.Next); ok {
			c.next = n
			if r, ok := n.Iter.(*ssa.Range); ok {
				c.rng = r
				if v := st.env[r]; v != nil && v.Iter != nil {
					c.rngInit = v.Iter
				}
			}
		}
	}
	c.outer = append([]*Term{}, x.loopAllocs...)
	nAllocs := len(x.loopAllocs)
	x.loopAllocs = append(x.loopAllocs, st.alloc)
	defer func() { x.loopAllocs = x.loopAllocs[:nAllocs] }()
	x.mute++
	var backs []Outcome
	for round := 0; ; round++ {
		if round > 12 {
			x.mute--
			panic(unsupported("loop frame does not stabilise in %s", fnKey(fr.fn)))
		}
		h := c.havoc(nil)
		outs := x.region(fr, l, []arrival{{nil, l.header, h.copy()}})
		changed := false
		backs = nil
		for _, o := range outs {
			if o.kind == "back" {
				o.st = x.phis(fr, o.from, l.header, o.st)
				backs = append(backs, o)
				for k, v := range det(o.st.heap) {
					hv, ok := h.heap[k]
					if !ok {
						hv = Const("H0:"+k, heapSorts[k])
					}
					if hv != v && !c.modAll[k] {
						if c.noteMod(k, v, hv) {
							changed = true
						}
					}
				}
				if o.st.alloc != h.alloc && !c.mod["alloc"] {
					c.mod["alloc"] = true
					changed = true
				}
			}
		}
		for _, ph := range c.phis {
			if c.constP[ph] || c.off0[ph] || c.sym[ph] == nil || c.sym[ph].S != sSlice || sliceOff(c.init[ph].T) != Int(0) {
				continue
			}
			zero := len(backs) > 0
			for _, o := range backs {
				v := o.st.env[ph]
				if v == nil || v.T == nil || v.T != c.sym[ph] && sliceOff(v.T) != Int(0) {
					zero = false
				}
			}
			if zero {
				c.off0[ph] = true
				changed = true
			}
		}
		for k, rs := range det(c.modRefs) {
			if c.modAll[k] || heapSorts[k] == nil || heapSorts[k].Elem != sSlice || len(x.userInvariants(fr, l)) == 0 {
				continue
			}
			for _, r := range rs {
				id := fmt.Sprintf("%s@%p", k, r)
				if c.cellOff0[id] || sliceOff(Select(st.H(k, heapSorts[k]), r)) != Int(0) {
					continue
				}
				cur := Select(h.H(k, heapSorts[k]), r)
				zero := len(backs) > 0
				for _, o := range backs {
					v := Select(o.st.H(k, heapSorts[k]), r)
					if v != cur && sliceOff(v) != Int(0) {
						zero = false
					}
				}
				if zero {
					c.cellOff0[id] = true
					changed = true
				}
			}
		}
		// phis that keep their value
		for _, ph := range c.phis {
			if c.constP[ph] {
				continue
			}
			same := len(backs) > 0
			for _, o := range backs {
				v := o.st.env[ph]
				if v == nil || c.sym[ph] == nil || v.T != c.sym[ph] {
					if !(c.sym[ph] == nil && v == h.env[ph]) {
						same = false
					}
				}
			}
			if same && c.init[ph].Fn == nil {
				c.constP[ph] = true
				changed = true
			}
		}
		if !changed {
			c.backs(h, backs)
			break
		}
	}
	cands := c.candidates()
	if x.noLoops {
		cands = nil
	}
	framesOnly := fr.top && x.cur != nil && x.cur.LoopFrames[l.num]
	if framesOnly {
		var cs []*candidate
		for _, k := range cands {
			if strings.HasPrefix(k.name, "frame") || strings.HasPrefix(k.name, "index") {
				cs = append(cs, k)
			}
		}
		cands = cs
	}
	if c.lossy && !framesOnly && len(cands) > 0 {
		// with the part of the heap that the loop provably leaves alone,
		// more of the body can be described: derive the candidates again
		c.framed = map[string]bool{}
		for _, k := range c.houdini(cands) {
			if strings.HasPrefix(k.name, "frame0 ") {
				c.framed[k.name[len("frame0 "):]] = true
			}
		}
		if len(c.framed) > 0 {
			h := c.havoc(nil)
			backs = nil
			for _, o := range x.region(fr, l, []arrival{{nil, l.header, h.copy()}}) {
				if o.kind == "back" {
					o.st = x.phis(fr, o.from, l.header, o.st)
					backs = append(backs, o)
				}
			}
			c.backs(h, backs)
			cands = c.candidates()
		}
	}
	debugCands(c, cands)
	key := fmt.Sprintf("%s loop %d (depth %d)", fnKey(fr.fn), l.num, x.depth)
	stat := &LoopStat{Cands: len(cands)}
	kept := c.houdini(cands)
	stat.Kept = len(kept)
	for _, k := range kept {
		if strings.HasPrefix(k.name, "frame0 ") {
			if c.framed == nil {
				c.framed = map[string]bool{}
			}
			c.framed[k.name[len("frame0 "):]] = true
		}
	}
	x.loopsDone[key] = stat
	x.mute--

	// contract invariants
	user := x.userInvariants(fr, l)
	for i, u := range user {
		g := x.evalClause(u, &specCtx{x: x, st: st, old: x.entry, fr: fr, iter: c.rngInit})
		x.oblige(st, fmt.Sprintf("loop %d invariant %d holds on entry: %s", l.num, i, u.Text), "invariant", x.pos(l.header.Instrs[0].Pos()), g)
	}
	h := c.havoc(kept)
	for _, u := range user {
		h.assumePath(x.evalClause(u, &specCtx{x: x, st: h, old: x.entry, fr: fr, iter: c.iterNow(h)}))
	}
	c.addLoopDeltas(h)
	hh := h.copy()
	outs := x.region(fr, l, []arrival{{nil, l.header, hh}})
	var res []Outcome
	// exact: the loop runs to completion exactly under the recorded history
	exact := true
	for _, o := range outs {
		if o.kind != "back" && !(o.kind == "exit" && o.from == l.header) && !o.st.dead() {
			exact = false
		}
	}
	if !exact {
		exact = true
		any := false
		for _, bp := range backTab[c] {
			if !bp.full {
				exact = false
			}
			if bp.conj != tTrue {
				any = true
			}
		}
		if any {
			kh := false
			for _, k := range kept {
				kh = kh || k.name == "history"
			}
			exact = exact && kh
		}
	}
	for _, o := range outs {
		if o.kind == "back" {
			o.st = x.phis(fr, o.from, l.header, o.st)
			if o.st.dead() {
				continue
			}
			if os.Getenv("GVC_PATHS") != "" && x.mute == 0 && x.cur != nil {
				x.obls = append(x.obls, &Obligation{Name: fmt.Sprintf("%s loop %d can go on from %d", fr.fn.Name(), l.num, o.from.Index), Kind: "cover", Func: x.cur.Key, Props: x.cur.Props, Cover: true, Hyps: []*Term{And(o.st.hyps()...)}, Goal: tFalse})
			}
			for i, u := range user {
				g := x.evalClause(u, &specCtx{x: x, st: o.st, old: x.entry, fr: fr, iter: c.iterNow(o.st)})
				x.oblige(o.st, fmt.Sprintf("loop %d invariant %d preserved: %s", l.num, i, u.Text), "invariant", x.pos(l.header.Instrs[0].Pos()), g)
			}
			continue
		}
		if o.kind == "exit" && o.from == l.header {
			o.st = c.finish(o.st, exact)
		}
		if o.st.dead() {
			continue
		}
		res = append(res, o)
	}
	return res
}

// noteMod records which locations of heap k one iteration writes.
func (c *loopCtx) noteMod(k string, v, base *Term) bool {
	was := c.mod[k]
	c.mod[k] = true
	all := func() bool {
		c.modAll[k] = true
		return true
	}
	if strings.HasPrefix(k, "G:") || heapSorts[k].Elem == nil {
		return all()
	}
	refs := map[*Term]bool{}
	root := base
	for root.Op == "store" {
		root = root.Args[0]
	}
	if root.Op == "ite" || !c.storeRefs(v, root, refs, map[*Term]bool{}) || !c.storeRefs(base, root, refs, map[*Term]bool{}) {
		return all()
	}
	changed := !was
	var rs []*Term
	for r := range det(refs) {
		if Select(v, r) != Select(base, r) {
			rs = append(rs, r)
		}
	}
	sort.Slice(rs, func(i, j int) bool { return rs[i].id < rs[j].id })
	for _, r := range rs {
		if containsTerm(c.modRefs[k], r) {
			continue
		}
		if !c.expressible(r) || c.iterSym != nil && r.has(c.iterSym) {
			return all()
		}
		c.modRefs[k] = append(c.modRefs[k], r)
		changed = true
	}
	return changed
}

func (c *loopCtx) iterNow(st *State) *IterInfo {
	if c.rng == nil {
		return nil
	}
	if v := st.env[c.rng]; v != nil {
		return v.Iter
	}
	return nil
}

// heapFrame: heaps after a loop that are known to agree with the heap before
// it on everything allocated before it.
type frameInfo struct {
	old    *Term
	gen    int
	except []*Term
}

var heapFrame = map[*Term]frameInfo{}

// oldTerm: every symbol existed when generation gen was current.
func oldTerm(t *Term, gen int) bool {
	for s := range det(t.symbols()) {
		if s.Op != "const" {
			return false
		}
		if g, ok := symGen[s]; ok && g > gen {
			return false
		}
	}
	return true
}

// havoc builds an arbitrary state at the header, assuming kept invariants.
func (c *loopCtx) havoc(kept []*candidate) *State {
	h := c.in.copy()
	c.gen0 = freshN
	h.upd = nil
	for _, b := range c.fr.fn.Blocks {
		for _, in := range b.Instrs {
			if !c.l.blocks[b] {
				break
			}
			if d, ok := in.(*ssa.Defer); ok {
				h.defers = append(h.defers, c.deferOf(d))
			}
		}
	}
	for k := range det(c.mod) {
		if k == "alloc" {
			continue
		}
		srt := heapSorts[k]
		c.in.H(k, srt)
		if c.modAll[k] {
			h.heap[k] = Fresh("H:"+clean(k), srt)
			if c.framed[k] {
				heapFrame[h.heap[k]] = frameInfo{c.in.heap[k], c.gen0, nil}
			}
			continue
		}
		t := c.in.H(k, srt)
		for _, r := range c.modRefs[k] {
			e := Fresh("HE:"+clean(k), srt.Elem)
			if c.cellOff0[fmt.Sprintf("%s@%p", k, r)] {
				e = MkDT(sSlice, Fresh("ref:"+clean(k), sInt), Int(0), Fresh("len:"+clean(k), sInt))
			}
			t = Store(t, r, e)
		}
		h.heap[k] = t
	}
	if c.mod["alloc"] {
		h.newAlloc()
	}
	for k := range det(c.mod) {
		if k == "alloc" {
			continue
		}
		if c.modAll[k] {
			heapOf[h.heap[k]] = heapInfo{k, h.alloc}
			continue
		}
		for _, r := range c.modRefs[k] {
			e := Select(h.heap[k], r)
			if strings.HasPrefix(k, "A:") || strings.HasPrefix(k, "MV:") {
				heapOf[e] = heapInfo{k, h.alloc}
			} else if ht := heapTypes[k]; ht != nil && !strings.HasPrefix(k, "MD:") {
				for _, f := range wfFacts(ht, e, h.alloc) {
					h.assumeWF(f)
				}
			}
		}
	}
	c.idx = nil
	for _, ph := range c.phis {
		iv := c.init[ph]
		if c.constP[ph] {
			h.env[ph] = iv
			c.sym[ph] = nil
			continue
		}
		if iv.T == nil {
			if iv.Addr != nil && iv.Addr.Heap == "" {
				iv = &Val{T: iv.Addr.Ref}
			} else {
				panic(unsupported("loop variable %s is not a plain value", ph.Comment))
			}
		}
		s := Fresh("phi."+ph.Comment, iv.T.S)
		if c.off0[ph] {
			s = MkDT(sSlice, Fresh("ref."+ph.Comment, sInt), Int(0), Fresh("len."+ph.Comment, sInt))
		}
		c.sym[ph] = s
		h.env[ph] = &Val{T: s}
		if ph.Comment != "" {
			n := fmt.Sprintf("%s_%d", ph.Comment, c.l.num)
			h.names[ph.Comment], h.names[n] = h.env[ph], h.env[ph]
			h.ntype[ph.Comment], h.ntype[n] = ph.Type(), ph.Type()
		}
		for _, f := range wfFacts(ph.Type(), s, h.alloc) {
			h.assumeWF(f)
		}
	}
	c.iterSym, c.vis = nil, nil
	if c.rngInit != nil {
		it := *c.rngInit
		if it.MapType != nil {
			c.vis = Fresh("visited", it.Vis.S)
			it.Vis = c.vis
			// the loops inside this one may speak of visited_N
			h.names[fmt.Sprintf("visited_%d", c.l.num)] = &Val{T: c.vis}
			visDom[c.vis] = it.Dom0
			c.iterSym = Fresh("key", it.Vis.S.Key)
			it.Key = c.iterSym
			for _, f := range wfFacts(it.MapType.Key(), c.iterSym, h.alloc) {
				h.assumeWF(f)
			}
			k := BV("k", it.Vis.S.Key)
			h.assumeWF(Forall([]*Term{k}, Imp(Select(c.vis, k), Select(it.Dom0, k))))
		} else {
			c.vis = Fresh("pos", sInt)
			it.Pos = c.vis
			c.iterSym = c.vis
			h.assumeWF(Le(Int(0), c.vis))
			h.assumeWF(Le(c.vis, App("str.runes", sInt, it.Str)))
		}
		h.env[c.rng] = &Val{T: Int(0), Iter: &it}
	} else {
		for _, ph := range c.phis {
			if c.sym[ph] != nil && c.sym[ph].S == sInt && c.isIndex(ph) {
				c.idx = ph
				c.iterSym = c.sym[ph]
				c.shift = 0
				if lo, ok := intVal(c.init[ph].T); ok {
					c.shift = -lo
				}
				break
			}
		}
	}
	if len(kept) > 0 {
		v := c.viewOf(h)
		for _, k := range kept {
			if k.name == "history" {
				h.assume(k.f(v)) // what decided that the loop went on
			} else {
				h.assumePath(k.f(v))
			}
		}
	}
	return h
}

// isIndex: every back edge adds one.
func (c *loopCtx) isIndex(ph *ssa.Phi) bool {
	n := 0
	for i, e := range ph.Edges {
		if !c.l.blocks[ph.Block().Preds[i]] {
			continue
		}
		n++
		b, ok := e.(*ssa.BinOp)
		if !ok || b.Op.String() != "+" {
			return false
		}
		k, ok := b.Y.(*ssa.Const)
		if !ok || b.X != ssa.Value(ph) || k.Value == nil || k.Value.ExactString() != "1" {
			return false
		}
	}
	return n > 0
}

// viewOf describes the loop state held in st (header symbols or a back edge).
func (c *loopCtx) viewOf(st *State) *loopView {
	v := &loopView{st: st}
	switch {
	case c.rngInit != nil && c.rngInit.MapType != nil:
		it := st.env[c.rng].Iter
		v.dom = func(k *Term) *Term { return Select(it.Vis, k) }
	case c.rngInit != nil:
		it := st.env[c.rng].Iter
		v.dom = func(k *Term) *Term { return And(Le(Int(0), k), Lt(k, it.Pos)) }
	case c.idx != nil:
		cur := st.env[c.idx].T
		lo := c.init[c.idx].T
		v.dom = func(k *Term) *Term { return And(Le(Add(lo, Int(c.shift)), k), Lt(k, Add(cur, Int(c.shift)))) }
	}
	return v
}

type backPath struct {
	st    *State
	conj  *Term // conjuncts that depend only on the iteration and loop-invariant state
	full  bool
	log   []*Delta
	upd   []*MapUpd
	exact []*MapUpd
}

var backTab = map[*loopCtx][]*backPath{}
var backHdr = map[*loopCtx]*State{}

func (c *loopCtx) expressible(t *Term) bool {
	for s := range det(t.symbols()) {
		if s == c.iterSym {
			continue
		}
		if g, ok := symGen[s]; ok && g > c.gen0 {
			return false
		}
	}
	return true
}

func (c *loopCtx) backs(h *State, backs []Outcome) {
	var bps []*backPath
	n := len(h.pc)
	for _, o := range backs {
		if o.st.dead() {
			continue
		}
		bp := &backPath{st: o.st, full: true}
		var cs []*Term
		pcs := o.st.pc
		if len(pcs) > n {
			for _, p := range pcs[n:] {
				if p.WF {
					continue
				}
				if c.expressible(p.T) {
					cs = append(cs, p.T)
				} else if p.Post {
					// knowledge about the effects of a call, not a branch
					if p.T.Op == "and" {
						for _, a := range p.T.Args {
							if c.expressible(a) {
								cs = append(cs, a)
							}
						}
					}
				} else if !c.iterCond(p.T) {
					bp.full = false
					c.lossy = true
					if os.Getenv("GVC_DEBUG") != "" {
						fmt.Fprintf(os.Stderr, "loop %s: condition not expressible: %s\n", fnKey(c.fr.fn), p.T)
					}
					// keep expressible conjuncts of a conjunction
					if p.T.Op == "and" {
						for _, a := range p.T.Args {
							if c.expressible(a) {
								cs = append(cs, a)
							}
						}
					}
				}
			}
		}
		bp.conj = And(cs...)
		if len(o.st.log) > len(h.log) {
			bp.log = o.st.log[len(h.log):]
		}
		bp.upd = o.st.upd
		if c.rngInit != nil && c.rngInit.MapType != nil {
			for _, u := range bp.upd {
				if u.Ref == c.rngInit.Map && !strings.HasSuffix(u.Heap, "!del") {
					panic(unsupported("insertion into the map being iterated in %s", fnKey(c.fr.fn)))
				}
			}
		}
		bps = append(bps, bp)
	}
	backTab[c] = bps
	backHdr[c] = h
}

// iterCond recognises the loop's own continuation condition ("there is a
// next element"), which is implied by the iteration being in the domain.
func (c *loopCtx) iterCond(t *Term) bool {
	return t.Op == "const" && strings.HasPrefix(t.Name, "more!")
}

// shift0 is the iteration shift (zero for anything but index loops).
func (c *loopCtx) shift0() int64 {
	if c.rngInit != nil || c.idx == nil {
		return 0
	}
	return c.shift
}

func (c *loopCtx) itVar() *Term { return BV("it", c.iterSym.S) }

// dropRef forgets the identity of freshly allocated event arguments.
func (c *loopCtx) eventAt(d *Delta) (*Delta, bool) {
	e := &Event{Sink: d.Ev.Sink, Name: d.Ev.Name, ATy: d.Ev.ATy}
	if !c.expressible(d.Ev.Sink) {
		return nil, false
	}
	if !c.expressible(d.Cond) {
		// possible events may be over-approximated: a weaker condition
		w := c.weaken(d.Cond)
		d = &Delta{BV: d.BV, Cond: w, Ev: d.Ev, May: true}
	}
	for i, a := range d.Ev.Args {
		n := *a
		n.App, n.Iter, n.DynV = nil, nil, nil
		n.Tup = nil
		if n.T != nil && !c.expressible(n.T) {
			off, ln := sliceOffLen(n.T)
			if n.Snap != nil && isSlice(n.SnapTy) && off != nil && c.iterSym != nil && c.expressible(off) && c.expressible(ln) && c.expressible(n.Snap) {
				// an array made in this iteration: which one it is is not known outside
				// of it, only its contents
				n.T = MkDT(sSlice, App(fmt.Sprintf("evbase!%d!%d", deltaNum(d), i), sInt, c.iterSym), off, ln)
			} else {
				if os.Getenv("GVC_DEBUG") != "" {
					fmt.Fprintf(os.Stderr, "loop %s: argument %d of %s not expressible: %s\n", fnKey(c.fr.fn), i, d.Ev.Name, n.T)
				}
				n.T = nil
			}
		}
		if n.Snap != nil && !c.expressible(n.Snap) {
			c.lossy = true
			if os.Getenv("GVC_DEBUG") != "" {
				fmt.Fprintf(os.Stderr, "loop %s: snapshot not expressible: %s\n", fnKey(c.fr.fn), n.Snap)
			}
			n.Snap = nil
		}
		if n.Addr != nil {
			n.Addr = nil
		}
		e.Args = append(e.Args, &n)
	}
	return &Delta{BV: d.BV, Cond: d.Cond, Ev: e, May: d.May}, true
}

var deltaNums = map[*Delta]int{}

func deltaNum(d *Delta) int {
	if _, ok := deltaNums[d]; !ok {
		deltaNums[d] = len(deltaNums)
	}
	return deltaNums[d]
}

func sliceOffLen(t *Term) (*Term, *Term) {
	if t.S != sSlice {
		return nil, nil
	}
	return sliceOff(t), sliceLen(t)
}

// visDom maps the visited set of an interrupted map loop to the domain it is
// part of.
var visDom = map[*Term]*Term{}

// weaken drops what cannot be expressed from a condition.
func (c *loopCtx) weaken(t *Term) *Term {
	if c.expressible(t) {
		return t
	}
	if t.Op == "and" {
		var cs []*Term
		for _, a := range t.Args {
			cs = append(cs, c.weaken(a))
		}
		return And(cs...)
	}
	if t.Op == "select" {
		if d := visDom[t.Args[0]]; d != nil {
			return c.weaken(Select(d, t.Args[1]))
		}
	}
	return tTrue
}

// addLoopDeltas records the events of all completed iterations.
func (c *loopCtx) addLoopDeltas(h *State) {
	bps := backTab[c]
	any := false
	for _, bp := range bps {
		if len(bp.log) > 0 {
			any = true
		}
	}
	if !any {
		return
	}
	if c.iterSymHdr() == nil {
		h.log = append(h.log, &Delta{Cond: tTrue, Ev: &Event{Sink: Const("sink:?", sInt), Name: "?"}, May: true})
		return
	}
	v := c.viewOf(h)
	hdrSym := backIter[c]
	save := c.iterSym
	saveGen := c.gen0
	c.iterSym = hdrSym
	c.gen0 = backGen[c]
	for _, bp := range bps {
		for _, d := range bp.log {
			nd, ok := c.eventAt(d)
			if !ok {
				c.lossy = true
				if os.Getenv("GVC_DEBUG") != "" {
					fmt.Fprintf(os.Stderr, "loop %s: event not expressible: %s / %s\n", fnKey(c.fr.fn), d.Cond, d.Ev.Sink)
				}
				h.log = append(h.log, &Delta{Cond: tTrue, Ev: &Event{Sink: Const("sink:?", sInt), Name: "?"}, May: true})
				continue
			}
			it := BV("it", hdrSym.S)
			nd = nd.subst(map[*Term]*Term{hdrSym: Add(it, Int(-c.shift0()))})
			nd.BV = append(append([]*Term{}, nd.BV...), it)
			nd.Cond = And(v.dom(it), Subst(bp.conj, map[*Term]*Term{hdrSym: Add(it, Int(-c.shift0()))}), nd.Cond)
			if !bp.full {
				nd.May = true
			}
			h.log = append(h.log, nd)
		}
	}
	c.iterSym = save
	c.gen0 = saveGen
}

var backIter = map[*loopCtx]*Term{}
var backGen = map[*loopCtx]int{}

func (c *loopCtx) iterSymHdr() *Term { return backIter[c] }

// candidates derives invariants from the recorded back edges.
func (c *loopCtx) candidates() []*candidate {
	x := c.x
	var cs []*candidate
	bps := backTab[c]
	h := backHdr[c]
	backIter[c] = c.iterSym
	backGen[c] = c.gen0
	if len(bps) == 0 {
		return nil
	}
	add := func(name string, f func(v *loopView) *Term) {
		cs = append(cs, &candidate{name, f})
	}
	itv := c.iterSym
	at := func(t *Term, it *Term) *Term {
		if itv == nil {
			return t
		}
		if s := c.shift0(); s != 0 {
			it = Add(it, Int(-s))
		}
		return Subst(t, map[*Term]*Term{itv: it})
	}
	// index bounds
	if c.idx != nil {
		lo := c.init[c.idx].T
		add("index-lo", func(v *loopView) *Term { return Le(lo, v.st.env[c.idx].T) })
		// from conditions i < n or i+1 < n at the header
		for _, bp := range bps {
			n := len(h.pc)
			for _, p := range bp.st.pc[minInt(n, len(bp.st.pc)):] {
				conj := []*Term{p.T}
				if p.T.Op == "and" {
					conj = p.T.Args
				}
				for _, t := range conj {
					if t.Op == "<" || t.Op == "<=" {
						l, r := t.Args[0], t.Args[1]
						b, k := splitAdd(l)
						if b == itv && b != nil && !r.has(itv) && c.expressible(r) {
							strict := int64(0)
							if t.Op == "<" {
								strict = 1
							}
							_ = strict
							rr := r
							kk := k
							if t.Op == "<" {
								// i+k < r on continue  =>  at header i+k <= r
								add("index-hi", func(v *loopView) *Term { return Le(Add(v.st.env[c.idx].T, Int(kk)), rr) })
							} else {
								add("index-hi", func(v *loopView) *Term { return Le(Add(v.st.env[c.idx].T, Int(kk-1)), rr) })
							}
						}
					}
				}
			}
		}
	}
	// other integer counters
	for _, ph := range c.phis {
		ph := ph
		if c.sym[ph] != nil && c.sym[ph].S == sInt && ph != c.idx && !isRefType(ph.Type()) {
			add("lower-bound", func(v *loopView) *Term { return Le(c.init[ph].T, v.st.env[ph].T) })
		}
	}
	// slices stored in a map of the function: allocated since the loop (or an
	// enclosing one) started
	guards := map[int][]*Term{}
	for k := range det(c.mod) {
		srt := heapSorts[k]
		if !strings.HasPrefix(k, "MV:") || srt == nil || srt.Elem == nil || srt.Elem.Elem != sSlice {
			continue
		}
		k := k
		dk := "MD:" + strings.TrimPrefix(k, "MV:")
		dsrt := heapSorts[dk]
		refs := map[*Term]bool{}
		for _, bp := range bps {
			c.storeRefs(bp.st.heap[k], h.heap[k], refs, map[*Term]bool{})
		}
		for _, r := range c.modRefs[k] {
			refs[r] = true
		}
		for r := range det(refs) {
			if !c.expressible(r) || itv != nil && r.has(itv) {
				continue
			}
			r := r
			for i, a := range append(append([]*Term{}, c.outer...), c.in.alloc) {
				if !c.expressible(a) {
					continue
				}
				a := a
				pred := func(st *State) *Term {
					kk := BV("k", dsrt.Elem.Key)
					sl := sliceRef(Select(Select(st.H(k, srt), r), kk))
					return Forall([]*Term{kk}, Imp(Select(Select(st.H(dk, dsrt), r), kk), Or(Eq(sl, Int(0)), Le(a, sl))))
				}
				guard := tTrue
				if i < len(c.outer) {
					// relative to the entry of this loop; the enclosing loop
					// provides the guard
					guard = pred(c.in)
					guards[i] = append(guards[i], guard)
				}
				add(fmt.Sprintf("frame-mapvals%d %s", i, k), func(v *loopView) *Term { return Imp(guard, pred(v.st)) })
			}
		}
	}
	// frames
	for k := range det(c.mod) {
		if k == "alloc" || strings.HasPrefix(k, "G:") || !c.modAll[k] {
			continue
		}
		k := k
		srt := heapSorts[k]
		if srt.Key != sInt || !(strings.HasPrefix(k, "F:") || strings.HasPrefix(k, "C:") || strings.HasPrefix(k, "A:") || strings.HasPrefix(k, "M")) {
			continue
		}
		pre := c.in.H(k, srt)
		refs := map[*Term]bool{}
		for _, bp := range bps {
			c.storeRefs(bp.st.heap[k], h.heap[k], refs, map[*Term]bool{})
		}
		var rs []*Term
		for r := range det(refs) {
			if c.expressible(r) && (itv == nil || !r.has(itv)) {
				rs = append(rs, r)
			}
		}
		a0 := c.in.alloc
		for variant := 0; variant < 2; variant++ {
			variant := variant
			if variant == 1 && len(rs) == 0 {
				break
			}
			add(fmt.Sprintf("frame%d %s", variant, k), func(v *loopView) *Term {
				r := BV("r", sInt)
				cond := []*Term{Lt(r, a0)}
				if variant == 1 {
					for _, e := range rs {
						cond = append(cond, Not(Eq(r, e)))
					}
				}
				return Forall([]*Term{r}, Imp(And(cond...), Eq(Select(v.st.H(k, srt), r), Select(pre, r))))
			})
		}
		for i, a := range c.outer {
			if a == a0 || !strings.HasPrefix(k, "A:") || !c.expressible(a) {
				continue
			}
			a := a
			add(fmt.Sprintf("frame-outer%d %s", i, k), func(v *loopView) *Term {
				r := BV("r", sInt)
				return Imp(And(guards[i]...), Forall([]*Term{r}, Imp(Lt(r, a), Eq(Select(v.st.H(k, srt), r), Select(pre, r)))))
			})
		}
	}
	if itv == nil {
		return cs
	}
	if c.rngInit != nil && c.rngInit.MapType == nil {
		// string position bounds are built in
	}
	// history: every completed iteration took one of the continuing paths
	var alts []*Term
	for _, bp := range bps {
		alts = append(alts, bp.conj)
	}
	cont := Or(alts...)
	if cont != tTrue {
		add("history", func(v *loopView) *Term {
			it := c.itVar()
			return Forall([]*Term{it}, Imp(v.dom(it), at(cont, it)))
		})
	}
	// map growth
	type mkey struct {
		heap string
		ref  *Term
	}
	seen := map[mkey]bool{}
	for _, bp := range bps {
		for _, u := range bp.upd {
			if strings.HasSuffix(u.Heap, "!del") && c.expressible(u.Ref) && !u.Ref.has(itv) {
				mk := mkey{u.Heap, u.Ref}
				if !seen[mk] {
					seen[mk] = true
					cs = append(cs, c.delCands(strings.TrimSuffix(u.Heap, "!del"), u.Ref, bps, at)...)
				}
				continue
			}
			if strings.HasSuffix(u.Heap, "!del") || !c.expressible(u.Ref) || u.Ref.has(itv) {
				continue
			}
			mk := mkey{u.Heap, u.Ref}
			if seen[mk] {
				continue
			}
			seen[mk] = true
			cs = append(cs, c.mapCands(mk.heap, mk.ref, bps, at)...)
		}
	}
	// slices filled by index
	for k := range det(c.mod) {
		if !strings.HasPrefix(k, "A:") || c.modAll[k] || len(c.modRefs[k]) == 0 {
			continue
		}
		for _, r := range c.modRefs[k] {
			cs = append(cs, c.storeCands(k, r, bps, at)...)
		}
	}
	// append accumulators
	for _, ph := range c.phis {
		if c.sym[ph] != nil && c.sym[ph].S == sSlice {
			cs = append(cs, c.appendCands(ph, bps, at)...)
		}
	}
	_ = x
	return cs
}

func minInt(a, b int) int {
	if a < b {
		return a
	}
	return b
}

// storeRefs collects the references written between base and t; it reports
// whether t is built from base by stores alone.
func (c *loopCtx) storeRefs(t, base *Term, out map[*Term]bool, seen map[*Term]bool) bool {
	if t == base || seen[t] {
		return true
	}
	if t == nil {
		return false
	}
	seen[t] = true
	switch t.Op {
	case "store":
		out[t.Args[1]] = true
		return c.storeRefs(t.Args[0], base, out, seen)
	case "ite":
		a := c.storeRefs(t.Args[1], base, out, seen)
		return c.storeRefs(t.Args[2], base, out, seen) && a
	}
	return false
}

func (c *loopCtx) mapCands(heap string, ref *Term, bps []*backPath, at func(t, it *Term) *Term) []*candidate {
	var cs []*candidate
	vheap := "MV:" + strings.TrimPrefix(heap, "MD:")
	ds, vs := heapSorts[heap], heapSorts[vheap]
	dom0 := Select(c.in.H(heap, ds), ref)
	val0 := Select(c.in.H(vheap, vs), ref)
	ksort := ds.Elem.Key
	type ins struct {
		bp   *backPath
		upds []*MapUpd
		ok   bool
	}
	var ii []ins
	expr, allFresh, vexpr := true, true, true
	for _, bp := range bps {
		e := ins{bp: bp, ok: true}
		for _, u := range bp.upd {
			if u.Heap != heap || u.Ref != ref {
				continue
			}
			e.upds = append(e.upds, u)
			if !c.expressible(u.Key) {
				expr = false
			}
			if u.Val == nil || !c.expressible(u.Val) {
				vexpr = false
			}
			if !u.FreshKey {
				allFresh = false
			}
		}
		ii = append(ii, e)
	}
	dom := func(v *loopView) *Term { return Select(v.st.H(heap, ds), ref) }
	val := func(v *loopView) *Term { return Select(v.st.H(vheap, vs), ref) }
	mono := func(v *loopView) *Term {
		k := BV("k", ksort)
		return Forall([]*Term{k}, Imp(Select(dom0, k), Select(dom(v), k)))
	}
	cs = append(cs, &candidate{"map-monotone", mono})
	if !expr {
		return cs
	}
	upper := func(withVal bool) func(v *loopView) *Term {
		return func(v *loopView) *Term {
			k := BV("k", ksort)
			it := c.itVar()
			var alts []*Term
			for _, e := range ii {
				for _, u := range e.upds {
					cond := []*Term{at(e.bp.conj, it), Eq(k, at(u.Key, it))}
					if withVal {
						cond = append(cond, Eq(Select(val(v), k), at(u.Val, it)))
					}
					alts = append(alts, And(cond...))
				}
			}
			old := Select(dom0, k)
			if withVal {
				old = And(old, Eq(Select(val(v), k), Select(val0, k)))
			}
			return Forall([]*Term{k}, Imp(Select(dom(v), k), Or(old, Exists([]*Term{it}, And(v.dom(it), Or(alts...))))))
		}
	}
	cs = append(cs, &candidate{"map-upper", upper(false)})
	if vexpr {
		cs = append(cs, &candidate{"map-upper-value", upper(true)})
	}
	lower := func(withVal bool) func(v *loopView) *Term {
		return func(v *loopView) *Term {
			it := c.itVar()
			var alts []*Term
			for _, e := range ii {
				cond := []*Term{at(e.bp.conj, it)}
				for _, u := range e.upds {
					k := at(u.Key, it)
					cond = append(cond, Select(dom(v), k))
					if withVal {
						cond = append(cond, Eq(Select(val(v), k), at(u.Val, it)))
					}
				}
				alts = append(alts, And(cond...))
			}
			return Forall([]*Term{it}, Imp(v.dom(it), Or(alts...)))
		}
	}
	cs = append(cs, &candidate{"map-lower", lower(false)})
	if vexpr {
		_ = allFresh
		cs = append(cs, &candidate{"map-lower-value", lower(true)})
	}
	// distinct keys for distinct iterations (only survives when a duplicate
	// check or unique keys make it inductive)
	if len(ii) == 1 && len(ii[0].upds) == 1 {
		u := ii[0].upds[0]
		cs = append(cs, &candidate{"map-key-injective", func(v *loopView) *Term {
			i1, i2 := c.itVar(), c.itVar()
			return Forall([]*Term{i1, i2}, Imp(And(v.dom(i1), v.dom(i2), Eq(at(u.Key, i1), at(u.Key, i2))), Eq(i1, i2)))
		}})
		cs = append(cs, &candidate{"map-key-new", func(v *loopView) *Term {
			i1 := c.itVar()
			return Forall([]*Term{i1}, Imp(v.dom(i1), Not(Select(dom0, at(u.Key, i1)))))
		}})
	}
	return cs
}

// storeCands: elements written at an index that depends on the iteration.
func (c *loopCtx) storeCands(k string, r *Term, bps []*backPath, at func(t, it *Term) *Term) []*candidate {
	hs := heapSorts[k]
	h := backHdr[c]
	base := Select(h.H(k, hs), r)
	pre := Select(c.in.H(k, hs), r)
	var cs []*candidate
	type st struct {
		bp       *backPath
		idx, val *Term
	}
	var sts []st
	for _, bp := range bps {
		t := Select(bp.st.H(k, hs), r)
		for t != base {
			if t.Op != "store" || !c.expressible(t.Args[1]) || !c.expressible(t.Args[2]) {
				return nil
			}
			sts = append(sts, st{bp, t.Args[1], t.Args[2]})
			t = t.Args[0]
		}
	}
	if len(sts) == 0 {
		return nil
	}
	arr := func(v *loopView) *Term { return Select(v.st.H(k, hs), r) }
	cs = append(cs, &candidate{"store-done", func(v *loopView) *Term {
		it := c.itVar()
		var alts []*Term
		for _, bp := range bps {
			cond := []*Term{at(bp.conj, it)}
			for _, s := range sts {
				if s.bp == bp {
					cond = append(cond, Eq(Select(arr(v), at(s.idx, it)), at(s.val, it)))
				}
			}
			alts = append(alts, And(cond...))
		}
		return Forall([]*Term{it}, Imp(v.dom(it), Or(alts...)))
	}}, &candidate{"store-rest", func(v *loopView) *Term {
		j := BV("j", sInt)
		it := c.itVar()
		var alts []*Term
		for _, s := range sts {
			alts = append(alts, And(at(s.bp.conj, it), Eq(j, at(s.idx, it))))
		}
		return Forall([]*Term{j}, Or(Eq(Select(arr(v), j), Select(pre, j)), Exists([]*Term{it}, And(v.dom(it), Or(alts...)))))
	}})
	return cs
}

// delCands: which keys a loop has removed so far.
func (c *loopCtx) delCands(heap string, ref *Term, bps []*backPath, at func(t, it *Term) *Term) []*candidate {
	ds := heapSorts[heap]
	dom0 := Select(c.in.H(heap, ds), ref)
	dom := func(v *loopView) *Term { return Select(v.st.H(heap, ds), ref) }
	cs := []*candidate{{"map-shrink", func(v *loopView) *Term {
		k := BV("k", ds.Elem.Key)
		return Forall([]*Term{k}, Imp(Select(dom(v), k), Select(dom0, k)))
	}}}
	own := c.rngInit != nil && c.rngInit.MapType != nil && ref == c.rngInit.Map
	type path struct {
		conj *Term
		keys []*Term
	}
	var ps []path
	for _, bp := range bps {
		p := path{conj: bp.conj}
		for _, u := range bp.upd {
			if u.Ref != ref || strings.TrimSuffix(u.Heap, "!del") != heap {
				continue
			}
			if !strings.HasSuffix(u.Heap, "!del") || !c.expressible(u.Key) {
				return cs
			}
			if u.Key != c.iterSym {
				own = false
			}
			p.keys = append(p.keys, u.Key)
		}
		ps = append(ps, p)
	}
	if own {
		// the loop removes the very key it visits
		var keep, drop []*Term
		for _, p := range ps {
			if len(p.keys) == 0 {
				keep = append(keep, p.conj)
			} else {
				drop = append(drop, p.conj)
			}
		}
		cs = append(cs, &candidate{"map-delete-own-upper", func(v *loopView) *Term {
			k := c.itVar()
			return Forall([]*Term{k}, Imp(And(Select(dom(v), k), v.dom(k)), at(Or(keep...), k)))
		}}, &candidate{"map-delete-own-lower", func(v *loopView) *Term {
			k := c.itVar()
			return Forall([]*Term{k}, Imp(And(Select(dom0, k), Not(Select(dom(v), k))), And(v.dom(k), at(Or(drop...), k))))
		}})
		return cs
	}
	cs = append(cs, &candidate{"map-delete-upper", func(v *loopView) *Term {
		k, it := BV("k", ds.Elem.Key), c.itVar()
		var alts []*Term
		for _, p := range ps {
			cond := []*Term{at(p.conj, it)}
			for _, key := range p.keys {
				cond = append(cond, Not(Eq(k, at(key, it))))
			}
			alts = append(alts, And(cond...))
		}
		return Forall([]*Term{k, it}, Imp(And(Select(dom(v), k), v.dom(it)), Or(alts...)))
	}}, &candidate{"map-delete-lower", func(v *loopView) *Term {
		k, it := BV("k", ds.Elem.Key), c.itVar()
		var alts []*Term
		for _, p := range ps {
			for _, key := range p.keys {
				alts = append(alts, And(at(p.conj, it), Eq(k, at(key, it))))
			}
		}
		return Forall([]*Term{k}, Imp(And(Select(dom0, k), Not(Select(dom(v), k))), Exists([]*Term{it}, And(v.dom(it), Or(alts...)))))
	}})
	return cs
}

func (c *loopCtx) appendCands(ph *ssa.Phi, bps []*backPath, at func(t, it *Term) *Term) []*candidate {
	var cs []*candidate
	el := ph.Type().Underlying().(*types.Slice).Elem()
	hname, hs := elemHeap(el)
	sym := c.sym[ph]
	type app struct {
		bp    *backPath
		elems []*Term
		whole []*AppendInfo
	}
	var as []app
	single := true
	for _, bp := range bps {
		v := bp.st.env[ph]
		a := app{bp: bp}
		for v.T != sym {
			if v.App == nil {
				return nil
			}
			if v.App.Other != nil {
				if !c.expressible(v.App.OArr) || !c.expressible(v.App.Other) {
					c.lossy = true
					return nil
				}
				a.whole = append(a.whole, v.App)
			} else {
				for _, e := range v.App.Elems {
					if !c.expressible(e) {
						c.lossy = true
						return nil
					}
				}
				a.elems = append(append([]*Term{}, v.App.Elems...), a.elems...)
			}
			v = v.App.Base
		}
		if len(a.elems) != 1 || len(a.whole) > 0 {
			single = false
		}
		as = append(as, a)
	}
	init := c.init[ph].T
	arr0 := Select(c.in.H(hname, hs), sliceRef(init))
	elem := func(v *loopView, j *Term) *Term {
		s := v.st.env[ph].T
		return Select(Select(v.st.H(hname, hs), sliceRef(s)), Add(sliceOff(s), j))
	}
	slen := func(v *loopView) *Term { return sliceLen(v.st.env[ph].T) }
	add := func(name string, f func(v *loopView) *Term) { cs = append(cs, &candidate{name, f}) }
	add("append-len", func(v *loopView) *Term { return Le(sliceLen(init), slen(v)) })
	if sliceLen(init) != Int(0) {
		add("append-keep", func(v *loopView) *Term {
			j := BV("j", sInt)
			return Forall([]*Term{j}, Imp(And(Le(Int(0), j), Lt(j, sliceLen(init))), Eq(elem(v, j), Select(arr0, Add(sliceOff(init), j)))))
		})
	}
	add("append-off", func(v *loopView) *Term {
		s := v.st.env[ph].T
		return Or(Eq(s, init), And(Eq(sliceOff(s), Int(0)), Le(c.in.alloc, sliceRef(s)), Lt(sliceRef(s), v.st.alloc)))
	})
	add("append-upper", func(v *loopView) *Term {
		j := BV("j", sInt)
		it := c.itVar()
		var alts []*Term
		for _, a := range as {
			for _, e := range a.elems {
				alts = append(alts, And(at(a.bp.conj, it), Eq(elem(v, j), at(e, it))))
			}
			for _, w := range a.whole {
				k := BV("k", sInt)
				alts = append(alts, And(at(a.bp.conj, it), Exists([]*Term{k}, And(Le(Int(0), k), Lt(k, at(sliceLen(w.Other), it)), Eq(elem(v, j), at(Select(w.OArr, Add(sliceOff(w.Other), k)), it))))))
			}
		}
		return Forall([]*Term{j}, Imp(And(Le(Int(0), j), Lt(j, slen(v))), Or(Lt(j, sliceLen(init)), Exists([]*Term{it}, And(v.dom(it), Or(alts...))))))
	})
	add("append-lower", func(v *loopView) *Term {
		it := c.itVar()
		var alts []*Term
		for _, a := range as {
			cond := []*Term{at(a.bp.conj, it)}
			for _, e := range a.elems {
				j := BV("j", sInt)
				cond = append(cond, Exists([]*Term{j}, And(Le(sliceLen(init), j), Lt(j, slen(v)), Eq(elem(v, j), at(e, it)))))
			}
			for _, w := range a.whole {
				k := BV("k", sInt)
				j := BV("j", sInt)
				cond = append(cond, Forall([]*Term{k}, Imp(And(Le(Int(0), k), Lt(k, at(sliceLen(w.Other), it))), Exists([]*Term{j}, And(Le(sliceLen(init), j), Lt(j, slen(v)), Eq(elem(v, j), at(Select(w.OArr, Add(sliceOff(w.Other), k)), it)))))))
			}
			alts = append(alts, And(cond...))
		}
		return Forall([]*Term{it}, Imp(v.dom(it), Or(alts...)))
	})
	add("append-distinct", func(v *loopView) *Term {
		i, j := BV("i", sInt), BV("j", sInt)
		return Forall([]*Term{i, j}, Imp(And(Le(Int(0), i), Lt(i, j), Lt(j, slen(v))), Not(Eq(elem(v, i), elem(v, j)))))
	})
	if single && c.idx != nil {
		lo := c.init[c.idx].T
		add("append-count", func(v *loopView) *Term {
			return Eq(slen(v), Add(sliceLen(init), Sub(v.st.env[c.idx].T, lo)))
		})
		if len(as) == 1 {
			add("append-map", func(v *loopView) *Term {
				it := c.itVar()
				return Forall([]*Term{it}, Imp(v.dom(it), Eq(elem(v, Add(sliceLen(init), Sub(it, Add(lo, Int(c.shift))))), at(as[0].elems[0], it))))
			})
		}
	}
	if single && c.rngInit != nil && c.rngInit.MapType == nil {
		add("append-count", func(v *loopView) *Term {
			return Eq(slen(v), Add(sliceLen(init), v.st.env[c.rng].Iter.Pos))
		})
	}
	return cs
}

// houdini keeps the candidates that are inductive together.
func (c *loopCtx) houdini(cands []*candidate) []*candidate {
	x := c.x
	if len(cands) == 0 || len(backTab[c]) == 0 {
		return cands
	}
	// initially
	v0 := c.viewInit()
	var alive []*candidate
	var goals []*Term
	for _, k := range cands {
		goals = append(goals, k.f(v0))
	}
	ok := x.solver.proveAll(x, c.in.hyps(), goals)
	for i, k := range cands {
		if ok[i] {
			alive = append(alive, k)
		} else if os.Getenv("GVC_DEBUG") != "" {
			fmt.Fprintf(os.Stderr, "  dropped on entry: %s / %s: %s\n", fnKey(c.fr.fn), k.name, goals[i])
		}
	}
	for {
		h := c.havoc(alive)
		c.x.mute++
		outs := c.x.region(c.fr, c.l, []arrival{{nil, c.l.header, h.copy()}})
		c.x.mute--
		dropped := false
		for _, o := range outs {
			if o.kind != "back" {
				continue
			}
			o.st = x.phis(c.fr, o.from, c.l.header, o.st)
			if o.st.dead() {
				continue
			}
			v := c.viewOf(o.st)
			var gs []*Term
			for _, k := range alive {
				gs = append(gs, k.f(v))
			}
			ok := x.solver.proveAll(x, o.st.hyps(), gs)
			var na []*candidate
			for i, k := range alive {
				if ok[i] {
					na = append(na, k)
				} else {
					dropped = true
					if os.Getenv("GVC_DEBUG") == "2" && k.name == "history" {
						for _, h := range o.st.hyps() {
							fmt.Fprintf(os.Stderr, "      %s\n", h)
						}
					}
					if os.Getenv("GVC_DEBUG") != "" {
						fmt.Fprintf(os.Stderr, "  not preserved: %s loop %d / %s: %s\n", fnKey(c.fr.fn), c.l.num, k.name, gs[i])
					}
				}
			}
			alive = na
		}
		if !dropped || len(alive) == 0 {
			return alive
		}
	}
}

func (c *loopCtx) viewInit() *loopView {
	return c.viewOf(c.in)
}

// finish simplifies the state after the loop ran to completion.
//
// When the history is exact, the exit condition itself adds nothing and is
// removed; otherwise the exit stays conditional on an unknown.
func (c *loopCtx) finish(st *State, exact bool) *State {
	if !exact {
		st.assume(Fresh("exit", sBool))
	}
	m := map[*Term]*Term{}
	if c.rngInit != nil && c.rngInit.MapType != nil {
		dn, ds, _, _ := mapHeaps(c.rngInit.MapType)
		dom := Select(st.H(dn, ds), c.rngInit.Map)
		d0 := c.rngInit.Dom0
		if !d0.has(c.vis) {
			if dom == d0 || c.x.solver.proveAll(c.x, st.hyps(), []*Term{Eq(dom, d0)})[0] {
				m[c.vis] = d0
			}
		}
	} else if c.rngInit != nil {
		m[c.vis] = App("str.runes", sInt, c.rngInit.Str)
	} else if c.idx != nil {
		// index equals its bound: from not(i+k < n) and i+k <= n
		s := c.iterSym
		for _, p := range st.pc {
			t := p.T
			if t.Op == "not" && t.Args[0].Op == "<" {
				l, r := t.Args[0].Args[0], t.Args[0].Args[1]
				b, k := splitAdd(l)
				if b == s && !r.has(s) {
					want := Le(l, r)
					for _, q := range st.pc {
						if q.T == want || q.T.Op == "and" && containsTerm(q.T.Args, want) {
							m[s] = Add(r, Int(-k))
						}
					}
				}
			}
		}
	}
	if len(m) == 0 {
		return st
	}
	n := st.subst(m)
	if exact && c.next != nil && c.rngInit != nil && c.rngInit.MapType != nil {
		pc := n.pc
		n.pc = nil
		for _, p := range pc {
			if !p.WF && p.T.Op == "not" && p.T.Args[0].Op == "const" && strings.HasPrefix(p.T.Args[0].Name, "more!") {
				p.WF, p.Path = true, true
			}
			n.pc = append(n.pc, p)
		}
	}
	// string loops: remember the position is exhausted
	return n
}

func containsTerm(ts []*Term, t *Term) bool {
	for _, x := range ts {
		if x == t {
			return true
		}
	}
	return false
}

func (x *Exec) userInvariants(fr *Frame, l *Loop) []*Clause {
	if !fr.top || x.cur == nil {
		return nil
	}
	return x.cur.LoopInv[l.num]
}

func debugCands(c *loopCtx, cs []*candidate) {
	if os.Getenv("GVC_DEBUG") == "" {
		return
	}
	var ns []string
	for _, k := range cs {
		ns = append(ns, k.name)
	}
	fmt.Fprintf(os.Stderr, "  candidates %s loop %d: %s (lossy %v)\n", fnKey(c.fr.fn), c.l.num, strings.Join(ns, "; "), c.lossy)
}

// deferOf stands for the calls that the completed iterations deferred.
func (c *loopCtx) deferOf(d *ssa.Defer) *deferred {
	if c.loopDefers == nil {
		c.loopDefers = map[*ssa.Defer]*deferred{}
	}
	if c.loopDefers[d] == nil {
		c.loopDefers[d] = &deferred{loop: c.l, call: d.Common()}
	}
	return c.loopDefers[d]
}
