package main

// Calls: builtins, trusted externs, contracts, closures, inlining.

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Extern is a trusted specification of a function outside the repository
// (or of an interface method).
type Extern struct {
	Key  string
	Kind string // pure, fresh, event, nop, error, builtin
	Line string
}

func (x *Exec) call(fr *Frame, st *State, c *ssa.CallCommon, in ssa.Value, pos token.Pos) []Ret {
	fv := x.val(fr, st, c.Value)
	var args []*Val
	for _, a := range c.Args {
		args = append(args, x.val(fr, st, a))
	}
	return x.callWith(fr, st, c, fv, args, in, pos)
}

func (x *Exec) callWith(fr *Frame, st *State, c *ssa.CallCommon, fv *Val, args []*Val, in ssa.Value, pos token.Pos) []Ret {
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return x.builtin(fr, st, b, c, args, pos)
	}
	if c.IsInvoke() {
		if fv.Dyn != nil {
			m := x.prog.LookupMethod(fv.Dyn, c.Method.Pkg(), c.Method.Name())
			if m == nil {
				panic(unsupported("no method %s on %s", c.Method.Name(), fv.Dyn))
			}
			return x.callFn(st, m, append([]*Val{fv.DynV}, args...), nil, pos)
		}
		key := "(" + shortKey(c.Value.Type()) + ")." + c.Method.Name()
		recvT := c.Value.Type()
		if _, ok := x.externs[key]; !ok {
			// embedded interfaces: method declared elsewhere
			if r := c.Method.Type().(*types.Signature).Recv(); r != nil {
				k2 := "(" + shortKey(r.Type()) + ")." + c.Method.Name()
				if _, ok := x.externs[k2]; ok {
					key = k2
				}
			}
		}
		x.safety(st, pos, "nil-interface", Not(Eq(fv.T, Int(0))))
		sig := c.Method.Type().(*types.Signature)
		atys := []types.Type{recvT}
		for i := 0; i < sig.Params().Len(); i++ {
			atys = append(atys, sig.Params().At(i).Type())
		}
		return x.externCall(st, key, append([]*Val{fv}, args...), atys, sig, pos, nil)
	}
	if fv.Fn != nil {
		return x.callFn(st, fv.Fn.Fn, args, fv.Fn.Bind, pos)
	}
	if fv.T == nil {
		panic(unsupported("call of an unknown function value at %s", x.pos(pos)))
	}
	// unknown function value: record the call, result is a function of the arguments
	sig := c.Value.Type().Underlying().(*types.Signature)
	return x.unknownCall(st, fv.T, args, sig)
}

func (x *Exec) unknownCall(st *State, sink *Term, args []*Val, sig *types.Signature) []Ret {
	var atys []types.Type
	for i := 0; i < sig.Params().Len(); i++ {
		atys = append(atys, sig.Params().At(i).Type())
	}
	x.emit(st, sink, "", args, atys)
	if x.cur != nil && x.cur.Callbacks {
		for i, a := range args {
			if i < len(atys) && isPtr(atys[i]) && isStruct(derefType(atys[i])) {
				t := derefType(atys[i])
				v := Fresh("callback", sortOf(t))
				for _, f := range wfFacts(t, v, st.alloc) {
					st.assumeWF(f)
				}
				st.store(&Addr{Ref: x.termOf(a), Typ: t}, v)
			}
		}
	}
	var vals []*Val
	var ts []*Term
	ts = append(ts, sink)
	name := ""
	for i, a := range args {
		if i < len(atys) {
			for _, f := range x.flat(st, a, atys[i]) {
				ts = append(ts, f)
				name += ":" + f.S.Name
			}
		}
	}
	for i := 0; i < sig.Results().Len(); i++ {
		rt := sig.Results().At(i).Type()
		t := App(fmt.Sprintf("ret%d%s:%s", i, name, sortOf(rt).Name), sortOf(rt), ts...)
		vals = append(vals, &Val{T: t})
		for _, f := range wfFacts(rt, t, st.alloc) {
			if !hasBound(f) {
				st.assumeWF(f)
			}
		}
	}
	return []Ret{{st, vals}}
}

// changeDyn: the called method may change the fields of the structs its
// interface arguments are known to point to, except the ones the contract says
// it keeps.
func (x *Exec) changeDyn(st *State, args []*Val) {
	for _, a := range args {
		if a.Dyn == nil || !isPtr(a.Dyn) || !isStruct(derefType(a.Dyn)) {
			continue
		}
		t := derefType(a.Dyn)
		base := addrOf(&Val{T: x.termOf(a)}, a.Dyn)
		u := t.Underlying().(*types.Struct)
		for i := 0; i < u.NumFields(); i++ {
			if x.cur.Keeps[u.Field(i).Name()] {
				continue
			}
			ft := u.Field(i).Type()
			v := Fresh("callback", sortOf(ft))
			for _, f := range wfFacts(ft, v, st.alloc) {
				st.assumeWF(f)
			}
			st.store(st.fieldAddr(base, t, i), v)
		}
		for _, ca := range x.cur.CbAssumes {
			if types.Identical(x.specType(ca.Type, ca.C.Pkg), a.Dyn) {
				st.assumeWF(x.evalClause(ca.C, &specCtx{x: x, st: st, old: st, params: map[string]sv{"changed": {&Val{T: x.termOf(a)}, a.Dyn}}}))
			}
		}
	}
}

func (x *Exec) snapshot(st *State, a *Val, t types.Type) *Val {
	if !isPtr(t) && a.Dyn != nil && isPtr(a.Dyn) {
		t = a.Dyn
	}
	if u, ok := t.Underlying().(*types.Slice); ok && a.T != nil && a.T.S == sSlice {
		if b, _ := splitAdd(sliceRef(a.T)); b != nil && b.Op == "const" && strings.HasPrefix(b.Name, "alloc") {
			n := *a
			h, hs := elemHeap(u.Elem())
			n.Snap = Select(st.H(h, hs), sliceRef(a.T))
			n.SnapTy = t
			return &n
		}
	}
	if isPtr(t) && isStruct(derefType(t)) && a.T != nil {
		if b, _ := splitAdd(a.T); b != nil && b.Op == "const" && strings.HasPrefix(b.Name, "alloc") {
			n := *a
			n.Snap = st.load(&Addr{Ref: a.T, Typ: derefType(t)})
			n.SnapTy = derefType(t)
			return &n
		}
	}
	return a
}

func (x *Exec) emit(st *State, sink *Term, name string, args []*Val, atys []types.Type) {
	ev := &Event{Sink: sink, Name: name, ATy: atys}
	for i, a := range args {
		if i < len(atys) {
			a = x.snapshot(st, a, atys[i])
		}
		ev.Args = append(ev.Args, a)
	}
	st.log = append(st.log, &Delta{Cond: tTrue, Ev: ev})
}

func (x *Exec) callFn(st *State, fn *ssa.Function, args, bind []*Val, pos token.Pos) []Ret {
	key := fnKey(fn)
	if x.tolerant && fn.Name() == "init" && fn.Synthetic != "" {
		return []Ret{{st, nil}}
	}
	if c, ok := x.contracts[key]; ok && !c.InlineOnly && !x.tolerant {
		x.used["contract "+key] = true
		return x.applyContract(st, c, fn, args, pos)
	}
	if _, ok := x.externs[key]; ok {
		var atys []types.Type
		if r := fn.Signature.Recv(); r != nil {
			atys = append(atys, r.Type())
		}
		for i := 0; i < fn.Signature.Params().Len(); i++ {
			atys = append(atys, fn.Signature.Params().At(i).Type())
		}
		return x.externCall(st, key, args, atys, fn.Signature, pos, fn)
	}
	if len(fn.Blocks) > 0 {
		pk := fn.Pkg
		if pk == nil && fn.Parent() != nil {
			pk = fn.Parent().Pkg
		}
		if pk == nil || x.repo[pk.Pkg] {
			x.inlined[key] = true
			x.chain = append(x.chain, pos)
			defer func() { x.chain = x.chain[:len(x.chain)-1] }()
			return x.run(fn, args, bind, st, false)
		}
	}
	if x.tolerant {
		st.newAlloc()
		return []Ret{{st, x.freshResults(st, key, fn.Signature)}}
	}
	panic(unsupported("no contract for external function %s (called at %s)", key, x.pos(pos)))
}

// flat lists the terms that determine a value (slice contents included).
func (x *Exec) flat(st *State, v *Val, t types.Type) []*Term {
	if sl, ok := t.Underlying().(*types.Slice); ok {
		h, hs := elemHeap(sl.Elem())
		arr := Select(st.H(h, hs), sliceRef(v.T))
		return []*Term{arr, sliceOff(v.T), sliceLen(v.T)}
	}
	if v.T == nil {
		if v.Addr != nil {
			if v.Addr.Heap == "" {
				return []*Term{v.Addr.Ref}
			}
			if v.Addr.Ref == nil {
				return []*Term{Const("addr:"+v.Addr.Heap, sInt)}
			}
			return []*Term{App("addr:"+v.Addr.Heap, sInt, v.Addr.Ref)}
		}
		panic(unsupported("argument without a term"))
	}
	return []*Term{v.T}
}

// pureApp is the uninterpreted result of a pure function.
var immutable = map[string]bool{}

func (x *Exec) pureApp(st *State, key string, args []*Val, atys []types.Type, sig *types.Signature) []*Val {
	var ts []*Term
	name := key
	for i, a := range args {
		var t types.Type
		if i < len(atys) {
			t = atys[i]
		} else {
			t = atys[len(atys)-1]
		}
		if sig.Variadic() && i == len(args)-1 {
			if n, ok := intVal(sliceLen(a.T)); ok && n <= 10 {
				el := t.Underlying().(*types.Slice).Elem()
				h, hs := elemHeap(el)
				for j := int64(0); j < n; j++ {
					ts = append(ts, Select(Select(st.H(h, hs), sliceRef(a.T)), Add(sliceOff(a.T), Int(j))))
				}
				name += fmt.Sprintf("/%d", n)
				continue
			}
		}
		ts = append(ts, x.flat(st, a, t)...)
	}
	var vals []*Val
	n := sig.Results().Len()
	for i := 0; i < n; i++ {
		rt := sig.Results().At(i).Type()
		rn := name
		if n > 1 {
			rn = fmt.Sprintf("%s#%d", name, i)
		}
		if sl, ok := rt.Underlying().(*types.Slice); ok {
			h, hs := elemHeap(sl.Elem())
			ln := App(rn+".len", sInt, ts...)
			if immutable[key] {
				r := App(rn+".ref", sInt, ts...)
				if !hasBound(ln) {
					st.assumeWF(And(Le(Int(0), ln), Le(Int(0), r), Lt(r, Const("alloc0", sInt)), Or(Not(Eq(r, Int(0))), Eq(ln, Int(0)))))
				}
				vals = append(vals, &Val{T: MkDT(sSlice, r, Int(0), ln)})
				continue
			}
			r := st.newRef()
			st.heap[h] = Store(st.H(h, hs), r, App(rn+".arr", hs.Elem, ts...))
			if !hasBound(ln) {
				st.assumeWF(Le(Int(0), ln))
			}
			vals = append(vals, &Val{T: MkDT(sSlice, r, Int(0), ln)})
			continue
		}
		if fn := x.externs[key]; fn != nil {
			off0Names[rn] = true
		}
		t := App(rn, sortOf(rt), ts...)
		vals = append(vals, &Val{T: t})
		for _, f := range wfFacts(rt, t, st.alloc) {
			if !hasBound(f) {
				st.assumeWF(f)
			}
		}
	}
	return vals
}

func (x *Exec) freshResults(st *State, hint string, sig *types.Signature) []*Val {
	var vals []*Val
	for i := 0; i < sig.Results().Len(); i++ {
		rt := sig.Results().At(i).Type()
		t := Fresh(fmt.Sprintf("%s.%d", hint, i), sortOf(rt))
		vals = append(vals, &Val{T: t})
		// results may be newly allocated
		for _, f := range wfFacts(rt, t, st.alloc) {
			st.assumeWF(f)
		}
	}
	return vals
}

func (x *Exec) externCall(st *State, key string, args []*Val, atys []types.Type, sig *types.Signature, pos token.Pos, fn *ssa.Function) []Ret {
	e := x.externs[key]
	if e == nil {
		panic(unsupported("no contract for %s (called at %s)", key, x.pos(pos)))
	}
	x.used["extern "+key] = true
	switch e.Kind {
	case "pure":
		return []Ret{{st, x.pureApp(st, key, args, atys, sig)}}
	case "nop":
		return []Ret{{st, x.freshResults(st, key, sig)}}
	case "fresh":
		st.newAlloc()
		return []Ret{{st, x.freshResults(st, key, sig)}}
	case "error", "new":
		// a value made by the call, not nil
		r := st.newRef()
		return []Ret{{st, []*Val{{T: r}}}}
	case "event":
		x.emit(st, Const("sink:"+key, sInt), key, args, atys)
		st.newAlloc()
		if x.cur != nil && x.cur.Callbacks {
			x.changeDyn(st, args)
		}
		return []Ret{{st, x.freshResults(st, key, sig)}}
	case "output":
		// appends its last argument to the text written to the receiver
		srt := arraySort(sInt, sStr)
		heapSorts["GH:out"] = srt
		h := st.H("GH:out", srt)
		w, a := args[0].T, args[len(args)-1].T
		if a.S == sInt {
			a = ofRune(a)
		}
		vals := x.freshResults(st, key, sig)
		nu := StrCat(Select(h, w), a)
		if len(vals) > 0 && isErrorType(sig.Results().At(sig.Results().Len()-1).Type()) {
			nu = Ite(Eq(vals[len(vals)-1].T, Int(0)), nu, Fresh("partial", sStr))
		}
		st.heap["GH:out"] = Store(h, w, nu)
		return []Ret{{st, vals}}
	case "pureevent":
		x.emit(st, Const("sink:"+key, sInt), key, args, atys)
		return []Ret{{st, x.pureApp(st, key, args, atys, sig)}}
	case "builtin":
		return x.builtinExtern(st, key, args, atys, sig, pos)
	}
	panic(unsupported("extern kind %s", e.Kind))
}

// ofRune is the string of one rune.
func ofRune(r *Term) *Term {
	if n, ok := intVal(r); ok && n >= 0 && n < 0x110000 {
		return Lit(string(rune(n)))
	}
	return App("str.ofrune", sStr, r)
}

func isErrorType(t types.Type) bool {
	return types.Identical(t, types.Universe.Lookup("error").Type())
}

// runPure evaluates a function on a scratch copy of the state and returns
// its results as terms (all return paths merged).
func (x *Exec) runPure(st *State, fn *ssa.Function, args, bind []*Val) ([]*Val, *State) {
	x.mute++
	defer func() { x.mute-- }()
	s := st.copy()
	n := len(s.pc)
	var rets []Ret
	if c := x.contracts[fnKey(fn)]; len(fn.Blocks) > 0 && x.externs[fnKey(fn)] == nil && (c == nil || !c.Pure || c.InlineOnly || fnKey(fn) == x.cur.Key && !c.Opaque) {
		x.inlined[fnKey(fn)] = true
		rets = x.run(fn, args, bind, s, false)
	} else {
		rets = x.callFn(s, fn, args, bind, token.NoPos)
	}
	if len(rets) == 0 {
		panic(unsupported("function %s never returns", fnKey(fn)))
	}
	vals := rets[len(rets)-1].vals
	for i := len(rets) - 2; i >= 0; i-- {
		c := suffixCond(rets[i].st.pc, n)
		nv := make([]*Val, len(vals))
		for j := range vals {
			if !mergeable(rets[i].vals[j], vals[j]) {
				panic(unsupported("results of %s cannot be merged", fnKey(fn)))
			}
			nv[j] = mergeVal(c, rets[i].vals[j], vals[j])
		}
		vals = nv
	}
	return vals, rets[len(rets)-1].st
}

func (x *Exec) builtinExtern(st *State, key string, args []*Val, atys []types.Type, sig *types.Signature, pos token.Pos) []Ret {
	sortSlice := func(s *Term, elem types.Type, less func(arr *State, i, j *Term) *Term) {
		h, hs := elemHeap(elem)
		old := Select(st.H(h, hs), sliceRef(s))
		oldSt := st.copy()
		nu := Fresh("sorted", hs.Elem)
		off, n := sliceOff(s), sliceLen(s)
		st.heap[h] = Store(st.H(h, hs), sliceRef(s), nu)
		perm := fmt.Sprintf("perm%d", freshN)
		i := BV("i", sInt)
		inr := func(t *Term) *Term { return And(Le(Int(0), t), Lt(t, n)) }
		p := func(t *Term) *Term { return App(perm, sInt, t) }
		ip := func(t *Term) *Term { return App(perm+"inv", sInt, t) }
		st.assume(Forall([]*Term{i}, Imp(inr(i), And(inr(p(i)), Eq(ip(p(i)), i), Eq(Select(nu, Add(off, i)), Select(old, Add(off, p(i))))))))
		i2 := BV("i", sInt)
		st.assume(Forall([]*Term{i2}, Imp(inr(i2), And(inr(ip(i2)), Eq(p(ip(i2)), i2), Eq(Select(old, Add(off, i2)), Select(nu, Add(off, ip(i2))))))))
		i3 := BV("i", sInt)
		st.assume(Forall([]*Term{i3}, Imp(Not(And(Le(off, i3), Lt(i3, Add(off, n)))), Eq(Select(nu, i3), Select(old, i3)))))
		a, b := BV("i", sInt), BV("j", sInt)
		if l := less(st, b, a); l != nil {
			// sorting is only meaningful for a strict weak order
			k := BV("k", sInt)
			in3 := And(inr(a), inr(b), inr(k))
			lab, lbk, lak := less(oldSt, a, b), less(oldSt, b, k), less(oldSt, a, k)
			if key != "sort.Strings" {
				x.oblige(oldSt, key+": comparison is asymmetric", "comparator", x.pos(pos), Forall([]*Term{a, b}, Imp(And(inr(a), inr(b), lab), Not(less(oldSt, b, a)))))
				x.oblige(oldSt, key+": comparison is transitive", "comparator", x.pos(pos), Forall([]*Term{a, b, k}, Imp(And(in3, lab, lbk), lak)))
				x.oblige(oldSt, key+": incomparability is transitive", "comparator", x.pos(pos), Forall([]*Term{a, b, k}, Imp(And(in3, Not(lab), Not(lbk)), Not(lak))))
			}
			st.assume(Forall([]*Term{a, b}, Imp(And(Le(Int(0), a), Lt(a, b), Lt(b, n)), Not(l))))
		}
	}
	switch key {
	case "sort.Strings":
		s := args[0].T
		h, hs := elemHeap(types.Typ[types.String])
		sortSlice(s, types.Typ[types.String], func(st *State, i, j *Term) *Term {
			arr := Select(st.H(h, hs), sliceRef(s))
			return StrLt(Select(arr, Add(sliceOff(s), i)), Select(arr, Add(sliceOff(s), j)))
		})
		return []Ret{{st, nil}}
	case "sort.Slice", "sort.SliceStable":
		v := args[0]
		if v.Dyn == nil {
			panic(unsupported("sort.Slice on an unknown slice"))
		}
		elem := v.Dyn.Underlying().(*types.Slice).Elem()
		lf := args[1]
		sortSlice(v.DynV.T, elem, func(st *State, i, j *Term) *Term {
			if lf.Fn == nil {
				return nil
			}
			r, _ := x.runPure(st, lf.Fn.Fn, []*Val{{T: i}, {T: j}}, lf.Fn.Bind)
			return r[0].T
		})
		return []Ret{{st, nil}}
	case "sort.Sort", "sort.Stable":
		v := args[0]
		if v.Dyn == nil {
			panic(unsupported("sort on unknown data"))
		}
		sl, ok := v.Dyn.Underlying().(*types.Slice)
		if !ok {
			panic(unsupported("sort on a non-slice"))
		}
		m := x.prog.LookupMethod(v.Dyn, nil, "Less")
		sortSlice(v.DynV.T, sl.Elem(), func(st *State, i, j *Term) *Term {
			r, _ := x.runPure(st, m, []*Val{v.DynV, {T: i}, {T: j}}, nil)
			return r[0].T
		})
		return []Ret{{st, nil}}
	}
	panic(unsupported("builtin extern %s", key))
}

func (x *Exec) builtin(fr *Frame, st *State, b *ssa.Builtin, c *ssa.CallCommon, args []*Val, pos token.Pos) []Ret {
	one := func(t *Term) []Ret { return []Ret{{st, []*Val{{T: t}}}} }
	switch b.Name() {
	case "len":
		switch u := c.Args[0].Type().Underlying().(type) {
		case *types.Slice:
			return one(sliceLen(args[0].T))
		case *types.Basic:
			n := StrLen(args[0].T)
			if !hasBound(n) {
				st.assumeWF(Le(Int(0), n))
			}
			return one(n)
		case *types.Map:
			return one(x.mapLen(st, u, args[0].T))
		case *types.Array:
			return one(Int(u.Len()))
		case *types.Pointer:
			return one(Int(u.Elem().Underlying().(*types.Array).Len()))
		}
	case "cap":
		if _, ok := c.Args[0].Type().Underlying().(*types.Slice); ok {
			t := Fresh("cap", sInt)
			st.assumeWF(Le(sliceLen(args[0].T), t))
			return one(t)
		}
	case "append":
		el := c.Args[0].Type().Underlying().(*types.Slice).Elem()
		if len(args) == 1 {
			return []Ret{{st, []*Val{args[0]}}}
		}
		if sortOf(c.Args[1].Type()) == sStr {
			panic(unsupported("append of a string to bytes"))
		}
		return []Ret{{st, []*Val{x.appendSlice(st, args[0], args[1], el)}}}
	case "copy":
		el := c.Args[0].Type().Underlying().(*types.Slice).Elem()
		if sortOf(c.Args[1].Type()) == sStr {
			panic(unsupported("copy from string"))
		}
		h, hs := elemHeap(el)
		A := st.H(h, hs)
		d, s := args[0].T, args[1].T
		n := Ite(Lt(sliceLen(d), sliceLen(s)), sliceLen(d), sliceLen(s))
		darr, sarr := Select(A, sliceRef(d)), Select(A, sliceRef(s))
		nu := Fresh("copied", hs.Elem)
		i := BV("i", sInt)
		st.assume(Forall([]*Term{i}, Eq(Select(nu, i), Ite(And(Le(sliceOff(d), i), Lt(i, Add(sliceOff(d), n))), Select(sarr, Add(sliceOff(s), Sub(i, sliceOff(d)))), Select(darr, i)))))
		st.heap[h] = Store(A, sliceRef(d), nu)
		return one(n)
	case "delete":
		m := c.Args[0].Type().Underlying().(*types.Map)
		dn, ds, _, _ := mapHeaps(m)
		d := st.H(dn, ds)
		ref, k := args[0].T, args[1].T
		st.heap[dn] = Store(d, ref, Store(Select(d, ref), k, tFalse))
		st.upd = append(st.upd, &MapUpd{Ref: ref, Key: k, Val: nil, Heap: dn + "!del"})
		return []Ret{{st, nil}}
	case "ssa:wrapnilchk":
		return []Ret{{st, []*Val{args[0]}}}
	case "print", "println":
		return []Ret{{st, nil}}
	case "recover":
		return one(Int(0))
	case "min", "max":
		if sortOf(c.Args[0].Type()) == sInt {
			r := args[0].T
			for _, a := range args[1:] {
				if b.Name() == "min" {
					r = Ite(Lt(a.T, r), a.T, r)
				} else {
					r = Ite(Lt(r, a.T), a.T, r)
				}
			}
			return one(r)
		}
	}
	panic(unsupported("builtin %s", b.Name()))
}

func (x *Exec) mapLen(st *State, m *types.Map, ref *Term) *Term {
	dn, ds, _, _ := mapHeaps(m)
	dom := Select(st.H(dn, ds), ref)
	n := App("card:"+sortOf(m.Key()).Name, sInt, dom)
	x.nilMapFact(st, ref, dn, ds)
	if !hasBound(n) {
		st.assumeWF(Le(Int(0), n))
		k := BV("k", sortOf(m.Key()))
		st.assumeWF(Eq(Eq(n, Int(0)), Forall([]*Term{k}, Not(Select(dom, k)))))
	}
	return n
}
