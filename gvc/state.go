package main

// Symbolic values, addresses, states and the mapping of Go types to sorts.

import (
	"fmt"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Val is a symbolic Go value.
type Val struct {
	T      *Term // SMT term (nil when only the Go-level part is known)
	Fn     *Closure
	Addr   *Addr
	Tup    []*Val
	Dyn    types.Type // known dynamic type of an interface value
	DynV   *Val
	App    *AppendInfo
	Iter   *IterInfo
	Snap   *Term // snapshot of the pointed-to struct (events)
	SnapTy types.Type
}

// Closure is a known function value.
type Closure struct {
	Fn   *ssa.Function
	Bind []*Val
}

// AppendInfo remembers how a slice value was built by append.
type AppendInfo struct {
	Base  *Val
	Elems []*Term // appended elements, nil when a whole slice was appended
	Other *Term   // appended slice
	OArr  *Term   // its contents at the time
}

// IterInfo is a range iterator over a map or string.
type IterInfo struct {
	Map     *Term
	MapType *types.Map
	Str     *Term
	Dom0    *Term // keys when the range started
	Vis     *Term // visited set (maps)
	Pos     *Term // runes consumed (strings)
	Key     *Term // symbol of the current key
}

// Addr is a symbolic address. An object address (Heap == "") denotes a
// struct object whose fields live in field heaps.
type Addr struct {
	Heap string
	Ref  *Term
	Idx  *Term
	Path []int
	PT   []types.Type // struct types along Path
	Typ  types.Type   // pointee type
}

// PC is one conjunct of a path condition.
type PC struct {
	T  *Term
	WF bool // fact, not a branch condition
	// Path: a fact that holds on this path only (a checked index, a loop
	// invariant); other facts are true of every execution.
	Path bool
	// Post: holds after every call of a callee under contract; decides no branch
	Post bool
}

// Event is a call on a sink (unknown function value, or an event extern).
type Event struct {
	Sink *Term
	Name string
	Args []*Val
	ATy  []types.Type
}

// Delta is a set of events { ev | exists BV. Cond }.
type Delta struct {
	BV   []*Term
	Cond *Term
	Ev   *Event
	May  bool // upper bound only
}

// MapUpd records a map update for loop summaries.
type MapUpd struct {
	Ref, Key, Val *Term
	Heap          string
	FreshKey      bool // executed where key was known absent
}

// State is a symbolic state.
type State struct {
	pc     []PC
	heap   map[string]*Term
	alloc  *Term
	log    []*Delta
	upd    []*MapUpd
	env    map[ssa.Value]*Val
	names  map[string]*Val
	ntype  map[string]types.Type
	defers []*deferred
}

type deferred struct {
	loop *Loop // deferred by any number of iterations of this loop
	fn   *Val
	call *ssa.CallCommon
	args []*Val
}

func (s *State) copy() *State {
	n := &State{alloc: s.alloc}
	n.pc = append(make([]PC, 0, len(s.pc)+8), s.pc...)
	n.heap = make(map[string]*Term, len(s.heap))
	for k, v := range det(s.heap) {
		n.heap[k] = v
	}
	n.log = append([]*Delta{}, s.log...)
	n.upd = append([]*MapUpd{}, s.upd...)
	n.env = make(map[ssa.Value]*Val, len(s.env))
	for k, v := range det(s.env) {
		n.env[k] = v
	}
	n.names = make(map[string]*Val, len(s.names))
	n.ntype = make(map[string]types.Type, len(s.names))
	for k, v := range det(s.names) {
		n.names[k] = v
		n.ntype[k] = s.ntype[k]
	}
	n.defers = append([]*deferred{}, s.defers...)
	return n
}

func (s *State) assume(t *Term) {
	if t == tTrue {
		return
	}
	if t.Op == "and" {
		for _, a := range t.Args {
			s.assume(a)
		}
		return
	}
	n := Not(t)
	for _, p := range s.pc {
		if p.T == n {
			t = tFalse
		}
	}
	s.pc = append(s.pc, PC{T: t})
}

func (s *State) assumeWF(t *Term) {
	if t == tTrue {
		return
	}
	for _, p := range s.pc {
		if p.T == t {
			return
		}
	}
	s.pc = append(s.pc, PC{T: t, WF: true})
}

// assumePath adds a fact that holds on this path.
func (s *State) assumePath(t *Term) {
	if t == tTrue {
		return
	}
	for _, p := range s.pc {
		if p.T == t {
			return
		}
	}
	s.pc = append(s.pc, PC{T: t, WF: true, Path: true})
}

func (s *State) dead() bool {
	for _, p := range s.pc {
		if p.T == tFalse {
			return true
		}
	}
	return false
}

func (s *State) hyps() []*Term {
	var out []*Term
	for _, p := range s.pc {
		out = append(out, p.T)
	}
	return out
}

// heapSorts remembers the sort of every heap component by name.
var heapSorts = map[string]*Sort{}

func (s *State) H(name string, srt *Sort) *Term {
	heapSorts[name] = srt
	if t, ok := s.heap[name]; ok {
		return t
	}
	t := Const("H0:"+name, srt)
	s.heap[name] = t
	return t
}

var tkeyCache = map[types.Type]string{}

// tkey names a type; identical types get the same name.
func tkey(t types.Type) string {
	if k, ok := tkeyCache[t]; ok {
		return k
	}
	k := tkey1(t)
	tkeyCache[t] = k
	return k
}

func tkey1(t types.Type) string {
	switch u := t.(type) {
	case *types.Alias:
		return tkey(types.Unalias(t))
	case *types.Basic:
		switch u.Kind() {
		case types.Uint8:
			return "uint8"
		case types.Int32:
			return "int32"
		}
	case *types.Pointer:
		return "*" + tkey(u.Elem())
	case *types.Slice:
		return "[]" + tkey(u.Elem())
	case *types.Array:
		return fmt.Sprintf("[%d]%s", u.Len(), tkey(u.Elem()))
	case *types.Map:
		return "map[" + tkey(u.Key()) + "]" + tkey(u.Elem())
	case *types.Interface:
		if u.Empty() {
			return "interface{}"
		}
	}
	return types.TypeString(t, func(p *types.Package) string {
		return p.Path()
	})
}

func shortKey(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

var opaquePkgs = map[string]bool{"sync": true, "time": true, "reflect": true, "os": true, "bytes": true, "strings": true, "regexp": true, "io": true, "bufio": true, "go.uber.org/zap": true}

func sortOf(t types.Type) *Sort {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return sBool
		case u.Info()&types.IsInteger != 0:
			return sInt
		case u.Info()&types.IsString != 0:
			return sStr
		case u.Info()&(types.IsFloat|types.IsComplex) != 0:
			return sReal
		}
		return sInt
	case *types.Slice:
		return sSlice
	case *types.Array:
		return arraySort(sInt, sortOf(u.Elem()))
	case *types.Struct:
		return structSort(t, u)
	case *types.Tuple:
		return sInt
	}
	return sInt // pointers, maps, channels, functions, interfaces
}

var structTypes = map[*Sort]*types.Struct{}

func isOpaque(t types.Type) bool {
	if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
		return opaquePkgs[n.Obj().Pkg().Path()]
	}
	return false
}

func structSort(t types.Type, u *types.Struct) *Sort {
	name := "S:" + shortKey(t)
	if s, ok := sortTab[name]; ok {
		return s
	}
	if isOpaque(t) {
		return mkSort("O:" + shortKey(t))
	}
	s := mkSort(name)
	dt := &DataType{Name: name}
	for i := 0; i < u.NumFields(); i++ {
		dt.Fields = append(dt.Fields, fmt.Sprintf("%s.%d", u.Field(i).Name(), i))
		dt.Sorts = append(dt.Sorts, sortOf(u.Field(i).Type()))
	}
	if u.NumFields() == 0 {
		dt.Fields = []string{"_unit"}
		dt.Sorts = []*Sort{sInt}
	}
	s.DT = dt
	structTypes[s] = u
	return s
}

func zeroOf(t types.Type) *Term {
	s := sortOf(t)
	return zeroSort(s)
}

func zeroSort(s *Sort) *Term {
	switch {
	case s == sBool:
		return tFalse
	case s == sInt:
		return Int(0)
	case s == sStr:
		return Lit("")
	case s == sSlice:
		return nilSlice
	case s.DT != nil:
		var as []*Term
		for _, f := range s.DT.Sorts {
			as = append(as, zeroSort(f))
		}
		return MkDT(s, as...)
	case s.Key != nil:
		return ConstArr(s, zeroSort(s.Elem))
	}
	return Const("zero:"+s.Name, s)
}

var nilSlice = MkDT(sSlice, Int(0), Int(0), Int(0))

func sliceRef(s *Term) *Term { return Sel(s, 0) }
func sliceOff(s *Term) *Term {
	o := Sel(s, 1)
	if o.Op == "sel" && off0Root(o.Args[0]) {
		return Int(0)
	}
	return o
}

// off0Names: functions whose slice results start at index 0 of their array
// (dependencies outside the repository).
var off0Names = map[string]bool{}

// off0Root: slices that belong to the inputs (arguments, the heap at entry)
// start at index 0 of their backing array; a stated modelling assumption.
func off0Root(t *Term) bool {
	for {
		switch t.Op {
		case "sel", "select":
			t = t.Args[0]
		case "const":
			return strings.HasPrefix(t.Name, "H0:") || strings.HasPrefix(t.Name, "p.") || strings.HasPrefix(t.Name, "fv.")
		case "app":
			return off0Names[t.Name]
		default:
			return false
		}
	}
}
func sliceLen(s *Term) *Term { return Sel(s, 2) }

func isRefType(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Chan, *types.Interface, *types.Signature:
		return true
	}
	return false
}

// wfFacts gives facts that hold for every value of the type.
func wfFacts(t types.Type, v *Term, alloc *Term) []*Term {
	var out []*Term
	switch u := t.Underlying().(type) {
	case *types.Pointer, *types.Map:
		out = append(out, Le(Int(0), v), Lt(v, alloc))
		noteRef(v, alloc)
	case *types.Slice:
		noteRef(sliceRef(v), alloc)
		out = append(out, Le(Int(0), sliceRef(v)), Lt(sliceRef(v), alloc), Le(Int(0), sliceOff(v)), Le(Int(0), sliceLen(v)),
			Imp(Eq(sliceRef(v), Int(0)), Eq(sliceLen(v), Int(0))))
		if raw := Sel(v, 1); raw.Op == "sel" && off0Root(raw.Args[0]) {
			out = append(out, Eq(raw, Int(0)))
		}
	case *types.Interface, *types.Signature:
		noteRef(v, alloc)
		out = append(out, Lt(v, alloc))
	case *types.Struct:
		if v.S.DT == nil || u.NumFields() == 0 || u.NumFields() > 12 {
			break
		}
		for i := 0; i < u.NumFields(); i++ {
			out = append(out, wfFacts(u.Field(i).Type(), Sel(v, i), alloc)...)
		}
	case *types.Basic:
		if u.Info()&types.IsInteger != 0 {
			switch u.Kind() {
			case types.Uint, types.Uint64, types.Uintptr:
				out = append(out, Le(Int(0), v), Le(v, BigInt("18446744073709551615")))
			case types.Uint32:
				out = append(out, Le(Int(0), v), Le(v, Int(1<<32-1)))
			case types.Uint16:
				out = append(out, Le(Int(0), v), Le(v, Int(1<<16-1)))
			case types.Uint8:
				out = append(out, Le(Int(0), v), Le(v, Int(255)))
			case types.Int32:
				out = append(out, Le(Int(-(1<<31)), v), Le(v, Int(1<<31-1)))
			}
		}
	}
	return out
}

// ---- heaps by type ----

func fieldHeap(st types.Type, i int) (string, *Sort, types.Type) {
	u := st.Underlying().(*types.Struct)
	f := u.Field(i)
	n, srt := fmt.Sprintf("F:%s.%s", tkey(st), f.Name()), arraySort(sInt, sortOf(f.Type()))
	heapSorts[n] = srt
	heapTypes[n] = f.Type()
	return n, srt, f.Type()
}

func cellHeap(t types.Type) (string, *Sort) {
	n, srt := "C:"+tkey(t), arraySort(sInt, sortOf(t))
	heapSorts[n] = srt
	heapTypes[n] = t
	return n, srt
}

func elemHeap(elem types.Type) (string, *Sort) {
	n, srt := "A:"+tkey(elem), arraySort(sInt, arraySort(sInt, sortOf(elem)))
	heapSorts[n] = srt
	heapTypes[n] = elem
	return n, srt
}

func mapHeaps(m *types.Map) (string, *Sort, string, *Sort) {
	k, v := sortOf(m.Key()), sortOf(m.Elem())
	n := tkey(m.Key()) + "->" + tkey(m.Elem())
	ds, vs := arraySort(sInt, arraySort(k, sBool)), arraySort(sInt, arraySort(k, v))
	heapSorts["MD:"+n] = ds
	heapSorts["MV:"+n] = vs
	heapTypes["MV:"+n] = m.Elem()
	return "MD:" + n, ds, "MV:" + n, vs
}

func derefType(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func isStruct(t types.Type) bool {
	_, ok := t.Underlying().(*types.Struct)
	return ok && !isOpaque(t)
}

// addrOf turns a pointer value into an address.
func addrOf(v *Val, ptr types.Type) *Addr {
	if v.Addr != nil {
		return v.Addr
	}
	el := derefType(ptr)
	if v.T == nil {
		if os.Getenv("GVC_PANIC") != "" {
			panic("pointer without a term")
		}
		panic(unsupported("pointer without a term"))
	}
	if isStruct(el) {
		return &Addr{Ref: v.T, Typ: el}
	}
	if a, ok := el.Underlying().(*types.Array); ok {
		h, _ := elemHeap(a.Elem())
		return &Addr{Heap: h, Ref: v.T, Typ: el}
	}
	h, _ := cellHeap(el)
	return &Addr{Heap: h, Ref: v.T, Typ: el}
}

func (a *Addr) baseSort() *Sort {
	srt := heapSorts[a.Heap]
	return srt
}

func (s *State) load(a *Addr) *Term {
	if a.Heap == "" {
		u := a.Typ.Underlying().(*types.Struct)
		srt := structSort(a.Typ, u)
		var fs []*Term
		for i := 0; i < u.NumFields(); i++ {
			h, hs, _ := fieldHeap(a.Typ, i)
			fs = append(fs, Select(s.H(h, hs), a.Ref))
		}
		if u.NumFields() == 0 {
			fs = []*Term{Int(0)}
		}
		return MkDT(srt, fs...)
	}
	v := s.cellBase(a)
	for _, p := range a.Path {
		v = Sel(v, p)
	}
	return v
}

func (s *State) cellBase(a *Addr) *Term {
	h := s.H(a.Heap, heapSorts[a.Heap])
	if a.Ref == nil {
		return h
	}
	v := Select(h, a.Ref)
	if a.Idx != nil {
		v = Select(v, a.Idx)
	}
	return v
}

func withPath(base *Term, path []int, v *Term) *Term {
	if len(path) == 0 {
		return v
	}
	return WithField(base, path[0], withPath(Sel(base, path[0]), path[1:], v))
}

func (s *State) store(a *Addr, v *Term) {
	if a.Heap == "" {
		u := a.Typ.Underlying().(*types.Struct)
		for i := 0; i < u.NumFields(); i++ {
			h, hs, _ := fieldHeap(a.Typ, i)
			s.heap[h] = Store(s.H(h, hs), a.Ref, Sel(v, i))
		}
		return
	}
	nv := withPath(s.cellBase(a), a.Path, v)
	h := s.H(a.Heap, heapSorts[a.Heap])
	switch {
	case a.Ref == nil:
		s.heap[a.Heap] = nv
	case a.Idx != nil:
		s.heap[a.Heap] = Store(h, a.Ref, Store(Select(h, a.Ref), a.Idx, nv))
	default:
		s.heap[a.Heap] = Store(h, a.Ref, nv)
	}
}

func (s *State) fieldAddr(a *Addr, st types.Type, i int) *Addr {
	ft := st.Underlying().(*types.Struct).Field(i).Type()
	if a.Heap == "" {
		h, hs, _ := fieldHeap(a.Typ, i)
		heapSorts[h] = hs
		return &Addr{Heap: h, Ref: a.Ref, Typ: ft}
	}
	n := *a
	n.Path = append(append([]int{}, a.Path...), i)
	n.Typ = ft
	return &n
}

func (s *State) newRef() *Term {
	r := s.alloc
	s.alloc = Add(s.alloc, Int(1))
	return r
}

// substState applies a substitution to everything in the state.
func (s *State) subst(m map[*Term]*Term) *State {
	n := s.copy()
	for i := range n.pc {
		n.pc[i].T = Subst(n.pc[i].T, m)
	}
	for k, v := range det(n.heap) {
		n.heap[k] = Subst(v, m)
	}
	n.alloc = Subst(n.alloc, m)
	for i, d := range n.log {
		n.log[i] = d.subst(m)
	}
	for i, u := range n.upd {
		n.upd[i] = &MapUpd{Ref: Subst(u.Ref, m), Key: Subst(u.Key, m), Val: Subst(u.Val, m), Heap: u.Heap, FreshKey: u.FreshKey}
	}
	memo := map[*Val]*Val{}
	for k, v := range det(n.env) {
		n.env[k] = v.subst(m, memo)
	}
	for k, v := range det(n.names) {
		n.names[k] = v.subst(m, memo)
	}
	return n
}

func (d *Delta) subst(m map[*Term]*Term) *Delta {
	e := &Event{Sink: Subst(d.Ev.Sink, m), Name: d.Ev.Name, ATy: d.Ev.ATy}
	memo := map[*Val]*Val{}
	for _, a := range d.Ev.Args {
		e.Args = append(e.Args, a.subst(m, memo))
	}
	return &Delta{BV: d.BV, Cond: Subst(d.Cond, m), Ev: e, May: d.May}
}

func (v *Val) subst(m map[*Term]*Term, memo map[*Val]*Val) *Val {
	if v == nil {
		return nil
	}
	if r, ok := memo[v]; ok {
		return r
	}
	n := *v
	memo[v] = &n
	if v.T != nil {
		n.T = Subst(v.T, m)
	}
	if v.Snap != nil {
		n.Snap = Subst(v.Snap, m)
	}
	if v.Addr != nil {
		a := *v.Addr
		if a.Ref != nil {
			a.Ref = Subst(a.Ref, m)
		}
		if a.Idx != nil {
			a.Idx = Subst(a.Idx, m)
		}
		n.Addr = &a
	}
	n.Tup = nil
	for _, t := range v.Tup {
		n.Tup = append(n.Tup, t.subst(m, memo))
	}
	n.DynV = v.DynV.subst(m, memo)
	if v.Fn != nil {
		c := &Closure{Fn: v.Fn.Fn}
		for _, b := range v.Fn.Bind {
			c.Bind = append(c.Bind, b.subst(m, memo))
		}
		n.Fn = c
	}
	if v.App != nil {
		ai := &AppendInfo{Base: v.App.Base.subst(m, memo)}
		for _, e := range v.App.Elems {
			ai.Elems = append(ai.Elems, Subst(e, m))
		}
		if v.App.Other != nil {
			ai.Other = Subst(v.App.Other, m)
			ai.OArr = Subst(v.App.OArr, m)
		}
		n.App = ai
	}
	if v.Iter != nil {
		it := *v.Iter
		if it.Map != nil {
			it.Map = Subst(it.Map, m)
		}
		if it.Vis != nil {
			it.Vis = Subst(it.Vis, m)
		}
		if it.Dom0 != nil {
			it.Dom0 = Subst(it.Dom0, m)
		}
		if it.Pos != nil {
			it.Pos = Subst(it.Pos, m)
		}
		if it.Str != nil {
			it.Str = Subst(it.Str, m)
		}
		n.Iter = &it
	}
	return &n
}

var fnByTerm = map[*Term]*ssa.Function{}

func fnConst(fn *ssa.Function) *Term {
	t := Const("fn:"+strings.ReplaceAll(fn.RelString(nil), "|", "!"), sInt)
	fnByTerm[t] = fn
	return t
}

func noteRef(v, alloc *Term) {
	if v.Op == "int" || v.Op == "ite" || hasBound(v) {
		return
	}
	if b, _ := splitAdd(v); isAllocBase(b) {
		return
	}
	if _, ok := refLt[v]; !ok {
		refLt[v] = alloc
	}
}

// newAlloc is a later allocation mark.
func (s *State) newAlloc() {
	a := Fresh("alloc", sInt)
	allocGe[a] = s.alloc
	s.assumeWF(Le(s.alloc, a))
	s.alloc = a
}

func isSlice(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Slice)
	return ok
}
