package main

// Terms of the SMT language, hash-consed, with light simplification.

import (
	"fmt"
	"sort"
	"strconv"
	"strings"
)

// Sort is an SMT sort.
type Sort struct {
	Name string // SMT-LIB text
	Key  *Sort  // arrays
	Elem *Sort
	DT   *DataType
}

// DataType is a single-constructor SMT datatype.
type DataType struct {
	Name   string
	Fields []string
	Sorts  []*Sort
}

var sortTab = map[string]*Sort{}

func mkSort(name string) *Sort {
	if s, ok := sortTab[name]; ok {
		return s
	}
	s := &Sort{Name: name}
	sortTab[name] = s
	return s
}

var (
	sBool  = mkSort("Bool")
	sInt   = mkSort("Int")
	sStr   = mkSort("Str")
	sReal  = mkSort("Flt")
	sSlice = func() *Sort {
		s := mkSort("Slice")
		s.DT = &DataType{Name: "Slice", Fields: []string{"sref", "soff", "slen"}, Sorts: []*Sort{mkSort("Int"), mkSort("Int"), mkSort("Int")}}
		return s
	}()
)

func arraySort(k, e *Sort) *Sort {
	n := "(Array " + k.Name + " " + e.Name + ")"
	if s, ok := sortTab[n]; ok {
		return s
	}
	s := &Sort{Name: n, Key: k, Elem: e}
	sortTab[n] = s
	return s
}

// Term is a hash-consed term. Ops: "var" (bound), "const" (free symbol),
// "int", "true", "false", "app" (uninterpreted function Name), "forall",
// "exists", "lit" (string literal, Name = Go value), "mk" (datatype
// constructor), "sel" (datatype selector N), "constarr" and SMT operators.
type Term struct {
	Op    string
	Name  string
	Args  []*Term
	Bound []*Term
	S     *Sort
	N     int
	id    int
	syms  map[*Term]bool // free const/var symbols (lazily)
}

var termTab = map[string]*Term{}
var termCount int

func mk(op, name string, s *Sort, n int, bound []*Term, args ...*Term) *Term {
	var b strings.Builder
	b.WriteString(op)
	b.WriteByte('|')
	b.WriteString(name)
	b.WriteByte('|')
	b.WriteString(s.Name)
	b.WriteByte('|')
	b.WriteString(strconv.Itoa(n))
	for _, a := range bound {
		b.WriteString("#")
		b.WriteString(strconv.Itoa(a.id))
	}
	for _, a := range args {
		b.WriteByte(',')
		b.WriteString(strconv.Itoa(a.id))
	}
	k := b.String()
	if t, ok := termTab[k]; ok {
		return t
	}
	termCount++
	t := &Term{Op: op, Name: name, Args: args, Bound: bound, S: s, N: n, id: termCount}
	termTab[k] = t
	return t
}

var (
	tTrue  = mk("true", "", sBool, 0, nil)
	tFalse = mk("false", "", sBool, 0, nil)
)

func Int(n int64) *Term {
	return mk("int", strconv.FormatInt(n, 10), sInt, 0, nil)
}

func intVal(t *Term) (int64, bool) {
	if t.Op != "int" {
		return 0, false
	}
	v, err := strconv.ParseInt(t.Name, 10, 64)
	return v, err == nil
}

func BigInt(s string) *Term { return mk("int", s, sInt, 0, nil) }

func Bool(b bool) *Term {
	if b {
		return tTrue
	}
	return tFalse
}

func Lit(s string) *Term { return mk("lit", s, sStr, 0, nil) }

var freshN int
var symGen = map[*Term]int{} // creation index of const symbols

// Fresh makes a new free symbol.
func Fresh(hint string, s *Sort) *Term {
	freshN++
	t := mk("const", fmt.Sprintf("%s!%d", clean(hint), freshN), s, 0, nil)
	symGen[t] = freshN
	return t
}

// Const makes a named free symbol.
func Const(name string, s *Sort) *Term { return mk("const", name, s, 0, nil) }

// BV makes a new bound variable.
func BV(hint string, s *Sort) *Term {
	freshN++
	return mk("var", fmt.Sprintf("%s?%d", clean(hint), freshN), s, 0, nil)
}

func clean(s string) string {
	return strings.Map(func(r rune) rune {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '_' || r == '.' {
			return r
		}
		return '_'
	}, s)
}

func App(name string, s *Sort, args ...*Term) *Term {
	if len(args) == 1 && args[0].Op == "app" && strings.HasPrefix(args[0].Name, "box:") {
		b := args[0]
		if t := boxTypes[b.Name]; name == "tagof" && t != nil {
			return tagID(t)
		}
		if name == "unbox:"+b.Name[4:] && b.Args[0].S == s {
			return b.Args[0]
		}
	}
	return mk("app", name, s, 0, nil, args...)
}

func Not(a *Term) *Term {
	switch a.Op {
	case "true":
		return tFalse
	case "false":
		return tTrue
	case "not":
		return a.Args[0]
	}
	return mk("not", "", sBool, 0, nil, a)
}

func And(as ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	var add func(a *Term) bool
	add = func(a *Term) bool {
		switch a.Op {
		case "true":
			return true
		case "false":
			return false
		case "and":
			for _, x := range a.Args {
				if !add(x) {
					return false
				}
			}
			return true
		}
		if seen[Not(a)] {
			return false
		}
		if !seen[a] {
			seen[a] = true
			out = append(out, a)
		}
		return true
	}
	for _, a := range as {
		if !add(a) {
			return tFalse
		}
	}
	if len(out) == 0 {
		return tTrue
	}
	if len(out) == 1 {
		return out[0]
	}
	return mk("and", "", sBool, 0, nil, out...)
}

func Or(as ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	var add func(a *Term) bool
	add = func(a *Term) bool {
		switch a.Op {
		case "false":
			return true
		case "true":
			return false
		case "or":
			for _, x := range a.Args {
				if !add(x) {
					return false
				}
			}
			return true
		}
		if seen[Not(a)] {
			return false
		}
		if !seen[a] {
			seen[a] = true
			out = append(out, a)
		}
		return true
	}
	for _, a := range as {
		if !add(a) {
			return tTrue
		}
	}
	if len(out) == 0 {
		return tFalse
	}
	if len(out) == 1 {
		return out[0]
	}
	return mk("or", "", sBool, 0, nil, out...)
}

func Imp(a, b *Term) *Term {
	if a == tTrue {
		return b
	}
	if a == tFalse || b == tTrue {
		return tTrue
	}
	if b == tFalse {
		return Not(a)
	}
	return mk("=>", "", sBool, 0, nil, a, b)
}

func Iff(a, b *Term) *Term { return Eq(a, b) }

func isDistinctPair(a, b *Term) bool {
	if a.Op == "int" && b.Op == "int" || a.Op == "lit" && b.Op == "lit" {
		return a != b
	}
	return false
}

func Eq(a, b *Term) *Term {
	if a == b {
		return tTrue
	}
	if a.S != b.S {
		panic(unsupported("sort mismatch in equality: %s : %s vs %s : %s", a, a.S.Name, b, b.S.Name))
	}
	if isDistinctPair(a, b) {
		return tFalse
	}
	if a.S == sBool {
		switch {
		case a == tTrue:
			return b
		case b == tTrue:
			return a
		case a == tFalse:
			return Not(b)
		case b == tFalse:
			return Not(a)
		case a == Not(b):
			return tFalse
		}
	}
	// distribute over constant ites so that conditions fold
	if a.Op == "ite" && (b.Op == "int" || b.Op == "lit") {
		return Ite(a.Args[0], Eq(a.Args[1], b), Eq(a.Args[2], b))
	}
	if b.Op == "ite" && (a.Op == "int" || a.Op == "lit") {
		return Ite(b.Args[0], Eq(a, b.Args[1]), Eq(a, b.Args[2]))
	}
	if a.Op == "mk" && b.Op == "mk" && a.S == b.S {
		var cs []*Term
		for i := range a.Args {
			cs = append(cs, Eq(a.Args[i], b.Args[i]))
		}
		return And(cs...)
	}
	// allocation base+n comparisons
	if ba, na := splitAdd(a); ba != nil {
		if bb, nb := splitAdd(b); bb == ba {
			return Bool(na == nb)
		}
	}
	if a.S == sInt && (knownBelow(a, b) || knownBelow(b, a) || refGe[b] != nil && knownBelow(a, refGe[b]) || refGe[a] != nil && knownBelow(b, refGe[a])) {
		return tFalse
	}
	// known-negative boxes versus zero
	if neverNil(a) && b == Int(0) || neverNil(b) && a == Int(0) {
		return tFalse
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk("=", "", sBool, 0, nil, a, b)
}

// refLt: reference terms known to be below an allocation mark; allocGe:
// allocation marks known to be at or above an earlier one.
var refLt = map[*Term]*Term{}

// refGe: references a contract promises to be allocated by the call.
var refGe = map[*Term]*Term{}
var allocGe = map[*Term]*Term{}

func isAllocBase(b *Term) bool {
	return b != nil && b.Op == "const" && strings.HasPrefix(b.Name, "alloc")
}

// knownBelow: a < b for an allocation expression b.
func knownBelow(a, b *Term) bool {
	bb, bn := splitAdd(b)
	if !isAllocBase(bb) {
		return false
	}
	bound, off := a, int64(1) // a < bound, i.e. a+off <= bound
	if r, ok := refLt[a]; ok {
		bound = r
		off = 0 // a < bound
	} else {
		ab, _ := splitAdd(a)
		if !isAllocBase(ab) {
			return false
		}
	}
	ub, un := splitAdd(bound)
	un += off
	// need bb+bn >= ub+un
	for i := 0; i < 200; i++ {
		if bb == ub {
			return bn >= un
		}
		p, ok := allocGe[bb]
		if !ok {
			return false
		}
		pb, pn := splitAdd(p)
		bb, bn = pb, bn+pn
	}
	return false
}

func neverNil(t *Term) bool {
	if t.Op == "app" && strings.HasPrefix(t.Name, "box:") {
		return true
	}
	if t.Op == "const" && strings.HasPrefix(t.Name, "fn:") {
		return true
	}
	if t.Op == "const" && strings.HasPrefix(t.Name, "alloc@") {
		return true
	}
	if b, n := splitAdd(t); b != nil && b.Op == "const" && strings.HasPrefix(b.Name, "alloc") && n >= 0 {
		return true
	}
	return false
}

// splitAdd splits a term into symbol + constant.
func splitAdd(t *Term) (*Term, int64) {
	if t.S != sInt {
		return nil, 0
	}
	if t.Op == "+" && len(t.Args) == 2 {
		if n, ok := intVal(t.Args[1]); ok {
			return t.Args[0], n
		}
	}
	if t.Op == "int" {
		return nil, 0
	}
	return t, 0
}

func Ite(c, a, b *Term) *Term {
	if c == tTrue {
		return a
	}
	if c == tFalse {
		return b
	}
	if a == b {
		return a
	}
	if a.S != b.S {
		panic(unsupported("sort mismatch in ite: %s vs %s", a.S.Name, b.S.Name))
	}
	if a.S == sBool {
		if a == tTrue {
			return Or(c, b)
		}
		if a == tFalse {
			return And(Not(c), b)
		}
		if b == tTrue {
			return Or(Not(c), a)
		}
		if b == tFalse {
			return And(c, a)
		}
	}
	if c.Op == "not" {
		return Ite(c.Args[0], b, a)
	}
	return mk("ite", "", a.S, 0, nil, c, a, b)
}

func Add(a, b *Term) *Term {
	if x, ok := intVal(a); ok {
		if y, ok := intVal(b); ok {
			return Int(x + y)
		}
		if x == 0 {
			return b
		}
		return Add(b, a)
	}
	if y, ok := intVal(b); ok {
		if y == 0 {
			return a
		}
		if a.Op == "+" {
			if z, ok := intVal(a.Args[1]); ok {
				return Add(a.Args[0], Int(y+z))
			}
		}
	}
	return mk("+", "", sInt, 0, nil, a, b)
}

func Neg(a *Term) *Term {
	if x, ok := intVal(a); ok {
		return Int(-x)
	}
	return mk("-", "", sInt, 0, nil, a)
}

func Sub(a, b *Term) *Term {
	if y, ok := intVal(b); ok {
		return Add(a, Int(-y))
	}
	if a == b {
		return Int(0)
	}
	return mk("-", "", sInt, 0, nil, a, b)
}

func Mul(a, b *Term) *Term {
	if x, ok := intVal(a); ok {
		if y, ok := intVal(b); ok {
			return Int(x * y)
		}
	}
	return mk("*", "", sInt, 0, nil, a, b)
}

func Lt(a, b *Term) *Term {
	if x, ok := intVal(a); ok {
		if y, ok := intVal(b); ok {
			return Bool(x < y)
		}
	}
	if a == b {
		return tFalse
	}
	if ba, na := splitAdd(a); ba != nil {
		if bb, nb := splitAdd(b); bb == ba {
			return Bool(na < nb)
		}
	}
	return mk("<", "", sBool, 0, nil, a, b)
}

func Le(a, b *Term) *Term {
	if x, ok := intVal(a); ok {
		if y, ok := intVal(b); ok {
			return Bool(x <= y)
		}
	}
	if a == b {
		return tTrue
	}
	if ba, na := splitAdd(a); ba != nil {
		if bb, nb := splitAdd(b); bb == ba {
			return Bool(na <= nb)
		}
	}
	return mk("<=", "", sBool, 0, nil, a, b)
}

func definitelyDistinct(a, b *Term) bool {
	return a.S == b.S && Eq(a, b) == tFalse
}

func Select(a, i *Term) *Term {
	if a.S.Elem == nil {
		panic(unsupported("select on non-array %s", a.S.Name))
	}
	for {
		if a.Op == "store" {
			if a.Args[1] == i {
				return a.Args[2]
			}
			if definitelyDistinct(a.Args[1], i) {
				a = a.Args[0]
				continue
			}
		}
		if a.Op == "constarr" {
			return a.Args[0]
		}
		if a.Op == "ite" {
			return Ite(a.Args[0], Select(a.Args[1], i), Select(a.Args[2], i))
		}
		if a.Op == "const" {
			if f, ok := heapFrame[a]; ok && oldTerm(i, f.gen) {
				distinct := true
				for _, e := range f.except {
					distinct = distinct && definitelyDistinct(e, i)
				}
				if distinct {
					a = f.old
					continue
				}
			}
		}
		break
	}
	return mk("select", "", a.S.Elem, 0, nil, a, i)
}

func Store(a, i, v *Term) *Term {
	if v.S != a.S.Elem || i.S != a.S.Key {
		panic(unsupported("ill-sorted store: %s[%s] := %s", a.S.Name, i.S.Name, v.S.Name))
	}
	if a.Op == "store" && a.Args[1] == i {
		a = a.Args[0]
	}
	return mk("store", "", a.S, 0, nil, a, i, v)
}

func ConstArr(s *Sort, v *Term) *Term { return mk("constarr", "", s, 0, nil, v) }

func MkDT(s *Sort, args ...*Term) *Term {
	// eta: mk(sel0 x, sel1 x, ...) = x
	if len(args) > 0 && args[0].Op == "sel" && args[0].N == 0 && args[0].Args[0].S == s {
		x := args[0].Args[0]
		same := true
		for i, a := range args {
			if a.Op != "sel" || a.N != i || a.Args[0] != x {
				same = false
				break
			}
		}
		if same {
			return x
		}
	}
	for i, a := range args {
		if a.S != s.DT.Sorts[i] {
			panic(unsupported("ill-sorted constructor %s field %d: %s", s.Name, i, a.S.Name))
		}
	}
	return mk("mk", s.DT.Name, s, 0, nil, args...)
}

func Sel(t *Term, n int) *Term {
	if t.S.DT == nil {
		panic(unsupported("field of %s : %s", t, t.S.Name))
	}
	if t.Op == "mk" {
		return t.Args[n]
	}
	if t.Op == "ite" {
		return Ite(t.Args[0], Sel(t.Args[1], n), Sel(t.Args[2], n))
	}
	return mk("sel", t.S.DT.Fields[n], t.S.DT.Sorts[n], n, nil, t)
}

func WithField(t *Term, n int, v *Term) *Term {
	args := make([]*Term, len(t.S.DT.Fields))
	for i := range args {
		if i == n {
			args[i] = v
		} else {
			args[i] = Sel(t, i)
		}
	}
	return MkDT(t.S, args...)
}

func Forall(bv []*Term, body *Term) *Term {
	bv = usedVars(bv, body)
	if len(bv) == 0 || body == tTrue || body == tFalse {
		return body
	}
	if body.Op == "and" {
		var cs []*Term
		for _, a := range body.Args {
			cs = append(cs, Forall(bv, a))
		}
		return And(cs...)
	}
	if body.Op == "forall" && patTab[body] == nil {
		return Forall(append(append([]*Term{}, bv...), body.Bound...), body.Args[0])
	}
	if v, i, b1, b2 := storeSplit(bv, body); v != nil {
		return And(Forall(without(bv, v), b1), Forall(bv, Imp(Not(Eq(v, i)), b2)))
	}
	return mk("forall", "", sBool, 0, bv, body)
}

func without(bv []*Term, v *Term) []*Term {
	var out []*Term
	for _, b := range bv {
		if b != v {
			out = append(out, b)
		}
	}
	return out
}

// storeSplit finds select(store(a,i,w),v) with v bound here and i, a, w free
// of the variables bound here, and returns the body for v = i and the body
// for v != i.
func storeSplit(bv []*Term, body *Term) (v, i, eq, ne *Term) {
	isB := map[*Term]bool{}
	for _, b := range bv {
		isB[b] = true
	}
	seen := map[*Term]bool{}
	var hit *Term
	var rec func(t *Term)
	rec = func(t *Term) {
		if hit != nil || seen[t] || t.size() > 100000 {
			return
		}
		seen[t] = true
		if t.Op == "select" && t.Args[0].Op == "store" && isB[t.Args[1]] {
			free := true
			for s := range det(t.Args[0].symbols()) {
				if s.Op == "var" {
					free = false
				}
			}
			if free {
				hit = t
				return
			}
		}
		for _, a := range t.Args {
			rec(a)
		}
	}
	rec(body)
	if hit == nil {
		return nil, nil, nil, nil
	}
	v = hit.Args[1]
	st := hit.Args[0]
	i = st.Args[1]
	eq = Subst(body, map[*Term]*Term{v: i})
	// replace every select over this store at v
	memo := map[*Term]*Term{}
	var rp func(t *Term) *Term
	rp = func(t *Term) *Term {
		if r, ok := memo[t]; ok {
			return r
		}
		if !t.has(v) {
			return t
		}
		if len(t.Args) == 0 {
			return t
		}
		var r *Term
		args := make([]*Term, len(t.Args))
		for k, a := range t.Args {
			args[k] = rp(a)
		}
		if t.Op == "select" && t.Args[0] == st && t.Args[1] == v {
			r = Select(st.Args[0], v)
		} else {
			r = rebuild(t, args)
		}
		memo[t] = r
		return r
	}
	ne = rp(body)
	return v, i, eq, ne
}

func Exists(bv []*Term, body *Term) *Term {
	bv = usedVars(bv, body)
	if len(bv) == 0 || body == tTrue || body == tFalse {
		return body
	}
	// one-point rule: exists x. x = t && P(x)  ->  P(t)
	conj := []*Term{body}
	if body.Op == "and" {
		conj = body.Args
	}
	for vi, v := range bv {
		for ci, c := range conj {
			if c.Op != "=" {
				continue
			}
			var def *Term
			if c.Args[0] == v && !c.Args[1].has(v) {
				def = c.Args[1]
			} else if c.Args[1] == v && !c.Args[0].has(v) {
				def = c.Args[0]
			}
			if def == nil {
				continue
			}
			var rest []*Term
			rest = append(rest, conj[:ci]...)
			rest = append(rest, conj[ci+1:]...)
			nb := append(append([]*Term{}, bv[:vi]...), bv[vi+1:]...)
			return Exists(nb, Subst(And(rest...), map[*Term]*Term{v: def}))
		}
	}
	if body.Op == "or" {
		var cs []*Term
		for _, a := range body.Args {
			cs = append(cs, Exists(bv, a))
		}
		return Or(cs...)
	}
	if body.Op == "exists" {
		return Exists(append(append([]*Term{}, bv...), body.Bound...), body.Args[0])
	}
	if v, i, b1, b2 := storeSplit(bv, body); v != nil {
		return Or(Exists(without(bv, v), b1), Exists(bv, And(Not(Eq(v, i)), b2)))
	}
	return mk("exists", "", sBool, 0, bv, body)
}

func usedVars(bv []*Term, body *Term) []*Term {
	var out []*Term
	for _, v := range bv {
		if body.has(v) {
			out = append(out, v)
		}
	}
	return out
}

func (t *Term) symbols() map[*Term]bool {
	if t.syms != nil {
		return t.syms
	}
	m := map[*Term]bool{}
	if t.Op == "const" || t.Op == "var" {
		m[t] = true
	}
	for _, a := range t.Args {
		for s := range det(a.symbols()) {
			m[s] = true
		}
	}
	for _, b := range t.Bound {
		delete(m, b)
	}
	t.syms = m
	return m
}

func (t *Term) has(s *Term) bool { return t.symbols()[s] }

// Subst replaces symbols by terms (bound variables are globally unique).
func Subst(t *Term, m map[*Term]*Term) *Term {
	if len(m) == 0 {
		return t
	}
	memo := map[*Term]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if r, ok := m[t]; ok {
			return r
		}
		if len(t.Args) == 0 {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		touch := false
		for s := range det(t.symbols()) {
			if _, ok := m[s]; ok {
				touch = true
				break
			}
		}
		if !touch {
			memo[t] = t
			return t
		}
		args := make([]*Term, len(t.Args))
		for i, a := range t.Args {
			args[i] = rec(a)
		}
		r := rebuild(t, args)
		memo[t] = r
		return r
	}
	return rec(t)
}

func rebuild(t *Term, args []*Term) *Term {
	switch t.Op {
	case "not":
		return Not(args[0])
	case "and":
		return And(args...)
	case "or":
		return Or(args...)
	case "=>":
		return Imp(args[0], args[1])
	case "=":
		return Eq(args[0], args[1])
	case "ite":
		return Ite(args[0], args[1], args[2])
	case "+":
		return Add(args[0], args[1])
	case "*":
		return Mul(args[0], args[1])
	case "-":
		if len(args) == 1 {
			return Neg(args[0])
		}
		return Sub(args[0], args[1])
	case "<":
		return Lt(args[0], args[1])
	case "<=":
		return Le(args[0], args[1])
	case "select":
		return Select(args[0], args[1])
	case "store":
		return Store(args[0], args[1], args[2])
	case "mk":
		return MkDT(t.S, args...)
	case "sel":
		return Sel(args[0], t.N)
	case "forall":
		return Forall(t.Bound, args[0])
	case "exists":
		return Exists(t.Bound, args[0])
	case "app":
		if f, ok := appSimp[t.Name]; ok {
			return f(args)
		}
	}
	return mk(t.Op, t.Name, t.S, t.N, t.Bound, args...)
}

var appSimp = map[string]func(args []*Term) *Term{}

func (t *Term) String() string { return t.pretty(0) }

func (t *Term) pretty(d int) string {
	if d > 12 {
		return "..."
	}
	switch t.Op {
	case "const", "var", "int":
		return t.Name
	case "true", "false":
		return t.Op
	case "lit":
		return strconv.Quote(t.Name)
	}
	var p []string
	for _, a := range t.Args {
		p = append(p, a.pretty(d+1))
	}
	name := t.Op
	if t.Op == "app" || t.Op == "mk" || t.Op == "sel" {
		name = t.Name
	}
	if len(t.Bound) > 0 {
		var bs []string
		for _, b := range t.Bound {
			bs = append(bs, b.Name)
		}
		name += " [" + strings.Join(bs, " ") + "]"
	}
	return name + "(" + strings.Join(p, ", ") + ")"
}

// ---- printing ----

func q(name string) string {
	if strings.HasPrefix(name, "str.") || strings.HasPrefix(name, "seq.") {
		name = "go." + name
	}
	return "|" + strings.ReplaceAll(strings.ReplaceAll(name, "|", "!"), "\\", "~") + "|"
}

// Script renders assertions and their declarations.
type Script struct {
	Asserts []*Term
}

func collect(ts []*Term) (consts map[*Term]bool, apps map[string]*Term, sorts map[*Sort]bool, lits map[*Term]bool) {
	consts = map[*Term]bool{}
	apps = map[string]*Term{}
	sorts = map[*Sort]bool{}
	lits = map[*Term]bool{}
	seen := map[*Term]bool{}
	var addSort func(s *Sort)
	addSort = func(s *Sort) {
		if sorts[s] {
			return
		}
		sorts[s] = true
		if s.Key != nil {
			addSort(s.Key)
			addSort(s.Elem)
		}
		if s.DT != nil {
			for _, x := range s.DT.Sorts {
				addSort(x)
			}
		}
	}
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		addSort(t.S)
		switch t.Op {
		case "const":
			consts[t] = true
		case "lit":
			lits[t] = true
		case "app":
			apps[t.Name] = t
		}
		for _, b := range t.Bound {
			addSort(b.S)
		}
		for _, a := range t.Args {
			rec(a)
		}
	}
	for _, t := range ts {
		rec(t)
	}
	return
}

func litName(t *Term) string {
	s := clean(t.Name)
	if len(s) > 24 {
		s = s[:24]
	}
	return fmt.Sprintf("|lit.%s.%d|", s, t.id)
}

type printer struct {
	b     *strings.Builder
	named map[*Term]string
}

func (p *printer) term(t *Term) {
	if n, ok := p.named[t]; ok {
		p.b.WriteString(n)
		return
	}
	p.raw(t)
}

func (p *printer) raw(t *Term) {
	b := p.b
	switch t.Op {
	case "const", "var":
		b.WriteString(q(t.Name))
		return
	case "true", "false":
		b.WriteString(t.Op)
		return
	case "int":
		if strings.HasPrefix(t.Name, "-") {
			b.WriteString("(- " + t.Name[1:] + ")")
		} else {
			b.WriteString(t.Name)
		}
		return
	case "lit":
		b.WriteString(litName(t))
		return
	case "forall", "exists":
		b.WriteString("(" + t.Op + " (")
		for _, v := range t.Bound {
			b.WriteString("(" + q(v.Name) + " " + q1(v.S) + ")")
		}
		b.WriteString(") ")
		p.quantBody(t)
		b.WriteString(")")
		return
	case "app":
		if len(t.Args) == 0 {
			b.WriteString(q(t.Name))
			return
		}
		b.WriteString("(" + q(t.Name))
	case "mk":
		if len(t.Args) == 0 {
			b.WriteString(q("mk." + t.Name))
			return
		}
		b.WriteString("(" + q("mk."+t.Name))
	case "sel":
		b.WriteString("(" + q(t.Args[0].S.DT.Name+"."+t.Name))
	case "constarr":
		if !primConst(t) {
			b.WriteString("(" + q("constarr:"+t.S.Name))
		} else {
			b.WriteString("((as const " + q1(t.S) + ")")
		}
	default:
		b.WriteString("(" + t.Op)
	}
	for _, a := range t.Args {
		b.WriteByte(' ')
		p.term(a)
	}
	b.WriteByte(')')
}

// primConst: constant arrays of plain values are built in; others are
// axiomatised (some solvers accept only values there).
func primConst(t *Term) bool {
	switch t.Args[0].Op {
	case "int", "true", "false":
		return true
	}
	return false
}

// patterns: user-free; only given when the body carries an explicit "pat" app.
func (p *printer) quantBody(t *Term) {
	body := t.Args[0]
	if pats, ok := patTab[t]; ok && len(pats) > 0 {
		p.b.WriteString("(! ")
		p.term(body)
		for _, pt := range pats {
			p.b.WriteString(" :pattern (")
			for _, x := range pt {
				p.b.WriteByte(' ')
				p.term(x)
			}
			p.b.WriteString(")")
		}
		p.b.WriteString(")")
		return
	}
	p.term(body)
}

var patTab = map[*Term][][]*Term{}

// ForallP is a universally quantified axiom with explicit triggers.
func ForallP(bv []*Term, body *Term, pats ...[]*Term) *Term {
	t := mk("forall", "", sBool, 0, bv, body)
	patTab[t] = pats
	return t
}

func q1(s *Sort) string {
	if s.Key != nil {
		return "(Array " + q1(s.Key) + " " + q1(s.Elem) + ")"
	}
	switch s.Name {
	case "Bool", "Int":
		return s.Name
	}
	return q(s.Name)
}

// SMT renders the satisfiability problem of the conjunction of the asserts.
func SMT(asserts []*Term) string {
	consts, apps, sorts, lits := collect(asserts)
	var b strings.Builder
	b.WriteString("(declare-sort |Str| 0)\n")
	// datatypes in dependency order
	var order []*Sort
	done := map[*Sort]bool{}
	var visit func(s *Sort)
	visit = func(s *Sort) {
		if done[s] {
			return
		}
		done[s] = true
		if s.Key != nil {
			visit(s.Key)
			visit(s.Elem)
		}
		if s.DT != nil {
			for _, x := range s.DT.Sorts {
				visit(x)
			}
		}
		order = append(order, s)
	}
	var ss []*Sort
	for s := range det(sorts) {
		ss = append(ss, s)
	}
	sort.Slice(ss, func(i, j int) bool { return ss[i].Name < ss[j].Name })
	for _, s := range ss {
		visit(s)
	}
	for _, s := range order {
		switch {
		case s.DT != nil:
			b.WriteString("(declare-datatypes ((" + q(s.Name) + " 0)) (((" + q("mk."+s.DT.Name))
			for i, f := range s.DT.Fields {
				b.WriteString(" (" + q(s.DT.Name+"."+f) + " " + q1(s.DT.Sorts[i]) + ")")
			}
			b.WriteString("))))\n")
		case s.Key == nil && s != sBool && s != sInt && s != sStr:
			b.WriteString("(declare-sort " + q(s.Name) + " 0)\n")
		}
	}
	var cs []*Term
	for c := range det(consts) {
		cs = append(cs, c)
	}
	sort.Slice(cs, func(i, j int) bool { return cs[i].id < cs[j].id })
	for _, c := range cs {
		b.WriteString("(declare-const " + q(c.Name) + " " + q1(c.S) + ")\n")
	}
	var an []string
	for n := range det(apps) {
		an = append(an, n)
	}
	sort.Strings(an)
	for _, n := range an {
		t := apps[n]
		b.WriteString("(declare-fun " + q(n) + " (")
		for i, a := range t.Args {
			if i > 0 {
				b.WriteByte(' ')
			}
			b.WriteString(q1(a.S))
		}
		b.WriteString(") " + q1(t.S) + ")\n")
	}
	var ls []*Term
	for l := range det(lits) {
		ls = append(ls, l)
	}
	sort.Slice(ls, func(i, j int) bool { return ls[i].id < ls[j].id })
	for _, l := range ls {
		b.WriteString("(declare-const " + litName(l) + " |Str|)\n")
	}
	if len(ls) > 1 {
		b.WriteString("(assert (distinct")
		for _, l := range ls {
			b.WriteString(" " + litName(l))
		}
		b.WriteString("))\n")
	}
	ca := map[*Sort]bool{}
	{
		seen := map[*Term]bool{}
		var rec func(t *Term)
		rec = func(t *Term) {
			if seen[t] {
				return
			}
			seen[t] = true
			if t.Op == "constarr" && !primConst(t) && !ca[t.S] {
				ca[t.S] = true
				n := q("constarr:" + t.S.Name)
				b.WriteString("(declare-fun " + n + " (" + q1(t.S.Elem) + ") " + q1(t.S) + ")\n")
				b.WriteString("(assert (forall ((v " + q1(t.S.Elem) + ") (i " + q1(t.S.Key) + ")) (! (= (select (" + n + " v) i) v) :pattern ((select (" + n + " v) i)))))\n")
			}
			for _, a := range t.Args {
				rec(a)
			}
		}
		for _, a := range asserts {
			rec(a)
		}
	}
	// share closed subterms used more than once
	uses := map[*Term]int{}
	var count func(t *Term)
	count = func(t *Term) {
		uses[t]++
		if uses[t] > 1 {
			return
		}
		for _, a := range t.Args {
			count(a)
		}
	}
	for _, a := range asserts {
		count(a)
	}
	p := &printer{b: &b, named: map[*Term]string{}}
	var def func(t *Term)
	visited := map[*Term]bool{}
	def = func(t *Term) {
		if visited[t] {
			return
		}
		visited[t] = true
		for _, a := range t.Args {
			def(a)
		}
		if uses[t] > 1 && len(t.Args) > 0 && !hasBound(t) && t.size() > 4 {
			n := fmt.Sprintf("$%d", t.id)
			b.WriteString("(define-fun " + n + " () " + q1(t.S) + " ")
			p.raw(t)
			b.WriteString(")\n")
			p.named[t] = n
		}
	}
	for _, a := range asserts {
		def(a)
		b.WriteString("(assert ")
		p.term(a)
		b.WriteString(")\n")
	}
	return b.String()
}

func hasBound(t *Term) bool {
	for s := range det(t.symbols()) {
		if s.Op == "var" {
			return true
		}
	}
	return false
}

var sizeTab = map[*Term]int{}

func (t *Term) size() int {
	if n, ok := sizeTab[t]; ok {
		return n
	}
	n := 1
	for _, a := range t.Args {
		n += a.size()
		if n > 1000000 {
			break
		}
	}
	sizeTab[t] = n
	return n
}

type unsupportedErr struct{ msg string }

func (u unsupportedErr) Error() string { return u.msg }

func unsupported(f string, args ...interface{}) unsupportedErr {
	return unsupportedErr{fmt.Sprintf(f, args...)}
}
