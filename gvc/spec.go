package main

// Contracts: parsing, elaboration of specification expressions, checking
// and use.

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Clause is one specification expression.
type Clause struct {
	Text string
	Expr ast.Expr
	File string
	Pkg  *types.Package
}

// propList reads a list of property ids, separated by commas or blanks.
func propList(s, file string) []string {
	ps := strings.FieldsFunc(s, func(r rune) bool { return r == ',' || r == ' ' })
	for _, p := range ps {
		if len(p) != 3 || p[0] != 'C' {
			fatal("%s: %q is not a property", file, p)
		}
	}
	return ps
}

// CbAssume is a trusted fact about what a callback has changed.
type CbAssume struct {
	Type ast.Expr
	C    *Clause
}

// Emits describes the calls a function makes on a function argument.
type Emits struct {
	Call  *Clause
	Names []string
	Types []ast.Expr
	Where *Clause
	// With constrains arguments of the call that are not determined by the
	// binders (freshly allocated ones): names in the call that are neither
	// binders nor parameters.
	With *Clause
}

// Contract is the specification of one function.
type Contract struct {
	Key        string
	Variant    string
	Props      []string
	Pkg        *types.Package
	File       string
	Pure       bool
	Opaque     bool // callers see only the name of the result
	Event      bool // calls of the function are recorded under its key
	OnlyCalls  bool // a postcondition limits the recorded calls
	InlineOnly bool
	Trusted    bool
	Optional   bool
	NoPanic    bool
	CbAssumes  []CbAssume      // facts every callback leaves about what it changed
	Keeps      map[string]bool // fields callbacks keep
	Goroutines bool            // go statements run as a whole where they are
	Callbacks  bool            // unknown function values may change what their arguments point to
	Requires   []*Clause
	Ensures    []*Clause
	Emits      []*Emits
	Modifies   []string
	ModRefs    []*Clause // elems(slice), fields(pointer), entries(map)
	LoopInv    map[int][]*Clause
	LoopFrames map[int]bool
	Inits      []string
	Assumes    []*Clause // trusted facts
	fn         *ssa.Function
	busy       bool
}

// Lemma is a specification-level obligation.
type Lemma struct {
	Name     string
	Props    []string
	Pkg      *types.Package
	Names    []string
	Types    []ast.Expr
	Requires []*Clause
	Ensures  []*Clause
	Inits    []string
}

// SpecFunc is an uninterpreted function or a macro of the specification.
type SpecFunc struct {
	Name   string
	Pkg    *types.Package
	Names  []string
	Types  []ast.Expr
	Result ast.Expr
	Body   *Clause
}

// Axiom is an assumed fact.
type Axiom struct {
	Name    string
	Clause  *Clause
	term    *Term
	facts   []*Term
	apps    []string
	trusted bool
}

// Pats is unused.
type Pats struct{}

type specSet struct {
	contracts []*Contract
	lemmas    []*Lemma
	funcs     map[string]*SpecFunc
	axioms    []*Axiom
	externs   map[string]*Extern
}

func logicalLines(src string) []string {
	var out []string
	for _, raw := range strings.Split(src, "\n") {
		line := raw
		if i := strings.Index(line, "//"); i >= 0 && !strings.Contains(line[:i], "\"") {
			line = line[:i]
		}
		if strings.TrimSpace(line) == "" {
			continue
		}
		if strings.HasPrefix(line, "      ") && len(out) > 0 {
			out[len(out)-1] += " " + strings.TrimSpace(line)
			continue
		}
		out = append(out, strings.TrimRight(line, " "))
	}
	return out
}

func (x *Exec) findPkg(name string) *types.Package {
	if p, ok := x.pkgs[name]; ok {
		return p.Pkg
	}
	for _, p := range x.prog.AllPackages() {
		if p.Pkg.Name() == name || p.Pkg.Path() == name {
			return p.Pkg
		}
	}
	return nil
}

func splitParams(s string) []string {
	var out []string
	depth := 0
	last := 0
	for i, r := range s {
		switch r {
		case '(', '[', '{':
			depth++
		case ')', ']', '}':
			depth--
		case ',':
			if depth == 0 {
				out = append(out, strings.TrimSpace(s[last:i]))
				last = i + 1
			}
		}
	}
	if strings.TrimSpace(s[last:]) != "" {
		out = append(out, strings.TrimSpace(s[last:]))
	}
	return out
}

func mustExpr(s, file string) ast.Expr {
	e, err := parser.ParseExpr(s)
	if err != nil {
		fatal("%s: cannot parse %q: %v", file, s, err)
	}
	return e
}

func fatal(f string, args ...interface{}) {
	fmt.Fprintf(os.Stderr, "gvc: "+f+"\n", args...)
	os.Exit(2)
}

func parseBinders(s, file string) (names []string, tys []ast.Expr) {
	for _, p := range splitParams(s) {
		i := strings.IndexByte(p, ' ')
		if i < 0 {
			fatal("%s: binder without type: %q", file, p)
		}
		names = append(names, p[:i])
		tys = append(tys, mustExpr(strings.TrimSpace(p[i:]), file))
	}
	return
}

func (x *Exec) loadSpecs(dir string) *specSet {
	ss := &specSet{funcs: map[string]*SpecFunc{}, externs: map[string]*Extern{}}
	files, _ := filepath.Glob(filepath.Join(dir, "*.gvc"))
	sort.Strings(files)
	for _, f := range files {
		b, err := os.ReadFile(f)
		if err != nil {
			fatal("%v", err)
		}
		x.parseSpec(ss, f, string(b))
	}
	return ss
}

func (x *Exec) parseSpec(ss *specSet, file, src string) {
	var pkg *types.Package
	var props []string
	var inits []string
	var con *Contract
	var lem *Lemma
	clause := func(s string) *Clause {
		return &Clause{Text: s, Expr: mustExpr(s, file), File: file, Pkg: pkg}
	}
	for _, line := range logicalLines(src) {
		indented := strings.HasPrefix(line, " ")
		l := strings.TrimSpace(line)
		word := l
		rest := ""
		if i := strings.IndexByte(l, ' '); i >= 0 {
			word, rest = l[:i], strings.TrimSpace(l[i:])
		}
		if !indented {
			con, lem = nil, nil
			switch word {
			case "package":
				pkg = x.findPkg(rest)
				if pkg == nil {
					fatal("%s: unknown package %s", file, rest)
				}
				props, inits = nil, nil
			case "props":
				props = propList(rest, file)
			case "inits":
				inits = strings.Fields(rest)
			case "func":
				con = &Contract{Key: rest, Props: props, Pkg: pkg, File: file, LoopInv: map[int][]*Clause{}, LoopFrames: map[int]bool{}, Inits: inits}
				if i := strings.Index(rest, " variant "); i >= 0 {
					con.Key, con.Variant = rest[:i], rest[i+9:]
				}
				ss.contracts = append(ss.contracts, con)
			case "lemma":
				lname, binders := rest, ""
				if i := strings.IndexByte(rest, '('); i > 0 {
					lname, binders = rest[:i], strings.TrimSuffix(strings.TrimSpace(rest[i+1:]), ")")
				}
				lem = &Lemma{Name: lname, Props: props, Pkg: pkg, Inits: inits}
				if binders != "" {
					lem.Names, lem.Types = parseBinders(binders, file)
				}
				ss.lemmas = append(ss.lemmas, lem)
			case "uf", "def":
				// name(params) type [= expr]
				body := ""
				if word == "def" {
					i := strings.Index(rest, " = ")
					body = strings.TrimSpace(rest[i+3:])
					rest = strings.TrimSpace(rest[:i])
				}
				i := strings.IndexByte(rest, '(')
				j := matching(rest, i)
				sf := &SpecFunc{Name: rest[:i], Pkg: pkg}
				sf.Names, sf.Types = parseBinders(rest[i+1:j], file)
				sf.Result = mustExpr(strings.TrimSpace(rest[j+1:]), file)
				if body != "" {
					sf.Body = clause(body)
				}
				if ss.funcs[sf.Name] != nil {
					fatal("%s: %s is defined twice", file, sf.Name)
				}
				ss.funcs[sf.Name] = sf
			case "axiom":
				i := strings.Index(rest, ":")
				ss.axioms = append(ss.axioms, &Axiom{Name: rest[:i], Clause: clause(strings.TrimSpace(rest[i+1:])), trusted: true})
			case "extern":
				fs := strings.Fields(rest)
				kind := fs[len(fs)-1]
				key := strings.Join(fs[:len(fs)-1], " ")
				if e := ss.externs[key]; e != nil && e.Kind != kind {
					fatal("%s: %s is declared as %s and as %s", file, key, e.Kind, kind)
				}
				ss.externs[key] = &Extern{Key: key, Kind: kind, Line: l}
			default:
				fatal("%s: unknown declaration %q", file, l)
			}
			continue
		}
		switch {
		case lem != nil:
			switch word {
			case "props":
				lem.Props = propList(rest, file)
			case "vars":
				lem.Names, lem.Types = parseBinders(rest, file)
			case "requires":
				lem.Requires = append(lem.Requires, clause(rest))
			case "ensures":
				lem.Ensures = append(lem.Ensures, clause(rest))
			default:
				fatal("%s: unknown lemma clause %q", file, l)
			}
		case con != nil:
			switch word {
			case "props":
				con.Props = propList(rest, file)
			case "pure":
				con.Pure = true
			case "optional":
				con.Optional = true
			case "inline":
				con.InlineOnly = true
			case "trusted":
				con.Trusted = true
			case "event":
				con.Event = true
			case "opaque":
				con.Opaque, con.Pure = true, true
			case "immutable":
				// slice results are never written to by anyone; callers may
				// take equal arguments to give the same backing array
				immutable["contract:"+con.Key] = true
			case "nopanic":
				con.NoPanic = true
			case "goroutines":
				con.Goroutines = true
			case "callbacks":
				// callbacks modify [except field...]
				// callbacks assume TYPE: EXPR, of the changed struct "changed"
				if t := strings.TrimPrefix(rest, "assume "); t != rest {
					j := strings.Index(t, ":")
					con.CbAssumes = append(con.CbAssumes, CbAssume{mustExpr(t[:j], file), clause(t[j+1:])})
					break
				}
				con.Callbacks = true
				if i := strings.Index(rest, "except "); i >= 0 {
					con.Keeps = map[string]bool{}
					for _, f := range strings.Fields(rest[i+len("except "):]) {
						con.Keeps[f] = true
					}
				}
			case "inits":
				con.Inits = strings.Fields(rest)
			case "requires":
				con.Requires = append(con.Requires, clause(rest))
			case "ensures":
				con.Ensures = append(con.Ensures, clause(rest))
			case "modifies":
				for _, f := range splitParams(rest) {
					if strings.Contains(f, "(") {
						con.ModRefs = append(con.ModRefs, clause(f))
						continue
					}
					con.Modifies = append(con.Modifies, strings.Fields(f)...)
				}
			case "assumes":
				con.Assumes = append(con.Assumes, clause(rest))
			case "emits":
				// call for binders where cond
				i := strings.Index(rest, " for ")
				j := strings.Index(rest, " where ")
				e := &Emits{Call: clause(rest[:i])}
				if k := strings.Index(rest, " with "); k > j {
					e.With = clause(rest[k+6:])
					rest = rest[:k]
				}
				e.Where = clause(rest[j+7:])
				e.Names, e.Types = parseBinders(rest[i+5:j], file)
				con.Emits = append(con.Emits, e)
			case "loop":
				fs := strings.SplitN(rest, " ", 3)
				n, err := strconv.Atoi(fs[0])
				if err == nil && len(fs) == 2 && fs[1] == "frames" {
					// infer frame conditions and index bounds only
					con.LoopFrames[n] = true
					continue
				}
				if err != nil || fs[1] != "invariant" {
					fatal("%s: bad loop clause %q", file, l)
				}
				con.LoopInv[n] = append(con.LoopInv[n], clause(fs[2]))
			default:
				fatal("%s: unknown clause %q", file, l)
			}
		default:
			fatal("%s: stray clause %q", file, l)
		}
	}
}

func matching(s string, i int) int {
	d := 0
	for j := i; j < len(s); j++ {
		switch s[j] {
		case '(':
			d++
		case ')':
			d--
			if d == 0 {
				return j
			}
		}
	}
	fatal("unbalanced %q", s)
	return -1
}

// ---- types in specifications ----

func (x *Exec) specType(e ast.Expr, pkg *types.Package) types.Type {
	switch t := e.(type) {
	case *ast.Ident:
		if o := types.Universe.Lookup(t.Name); o != nil {
			return o.Type()
		}
		if pkg != nil {
			if o := pkg.Scope().Lookup(t.Name); o != nil {
				return o.Type()
			}
		}
	case *ast.SelectorExpr:
		if id, ok := t.X.(*ast.Ident); ok {
			if p := x.pkgByName(id.Name, pkg); p != nil {
				if o := p.Scope().Lookup(t.Sel.Name); o != nil {
					return o.Type()
				}
			}
		}
	case *ast.StarExpr:
		return types.NewPointer(x.specType(t.X, pkg))
	case *ast.UnaryExpr:
		if t.Op == token.MUL {
			return types.NewPointer(x.specType(t.X, pkg))
		}
	case *ast.ArrayType:
		return types.NewSlice(x.specType(t.Elt, pkg))
	case *ast.MapType:
		return types.NewMap(x.specType(t.Key, pkg), x.specType(t.Value, pkg))
	case *ast.StructType:
		return types.NewStruct(nil, nil)
	case *ast.InterfaceType:
		return types.NewInterfaceType(nil, nil)
	case *ast.ParenExpr:
		return x.specType(t.X, pkg)
	}
	panic(unsupported("unknown type in specification: %s", exprString(e)))
}

func exprString(e ast.Expr) string { return types.ExprString(e) }

func (x *Exec) pkgByName(name string, from *types.Package) *types.Package {
	if from != nil {
		for _, p := range from.Imports() {
			if p.Name() == name {
				return p
			}
		}
		if from.Name() == name {
			return from
		}
	}
	return x.findPkg(name)
}

// ---- elaboration ----

type sv struct {
	v *Val
	t types.Type
}

type specCtx struct {
	x      *Exec
	st     *State
	old    *State
	cur    *State // the present state while evaluating old(...)
	fr     *Frame
	binds  map[string]sv
	res    []*Val
	resT   *types.Tuple
	pkg    *types.Package
	iter   *IterInfo
	inOld  bool
	depth  int
	params map[string]sv
}

func (x *Exec) evalClause(c *Clause, sc *specCtx) *Term {
	x.mute++
	defer func() { x.mute-- }()
	real := sc.st
	cp := *sc
	cp.pkg = c.Pkg
	cp.st = sc.st.copy()
	n := len(cp.st.pc)
	r := cp.eval(c.Expr)
	if r.v.T == nil || r.v.T.S != sBool {
		panic(unsupported("clause is not boolean: %s", c.Text))
	}
	for _, p := range cp.st.pc[n:] {
		if p.WF && !p.Path {
			real.assumeWF(p.T)
		}
	}
	return r.v.T
}

var tBool = types.Typ[types.Bool]
var tInt = types.Typ[types.Int]
var tString = types.Typ[types.String]

func bsv(t *Term) sv { return sv{&Val{T: t}, tBool} }

func (c *specCtx) bind(name string, s sv) *specCtx {
	n := *c
	n.binds = map[string]sv{}
	for k, v := range det(c.binds) {
		n.binds[k] = v
	}
	n.binds[name] = s
	return &n
}

func (c *specCtx) evalB(e ast.Expr) *Term {
	r := c.eval(e)
	if r.v.T == nil || r.v.T.S != sBool {
		panic(unsupported("not boolean: %s", exprString(e)))
	}
	return r.v.T
}

func (c *specCtx) eval(e ast.Expr) sv {
	x := c.x
	switch t := e.(type) {
	case *ast.ParenExpr:
		return c.eval(t.X)
	case *ast.BasicLit:
		switch t.Kind {
		case token.INT:
			return sv{&Val{T: BigInt(t.Value)}, types.Typ[types.UntypedInt]}
		case token.STRING:
			s, _ := strconv.Unquote(t.Value)
			return sv{&Val{T: Lit(s)}, tString}
		case token.CHAR:
			r, _, _, err := strconv.UnquoteChar(t.Value[1:len(t.Value)-1], '\'')
			if err != nil {
				panic(unsupported("char literal %s", t.Value))
			}
			return sv{&Val{T: Int(int64(r))}, types.Typ[types.UntypedInt]}
		}
	case *ast.Ident:
		return c.ident(t.Name)
	case *ast.UnaryExpr:
		switch t.Op {
		case token.NOT:
			return bsv(Not(c.evalB(t.X)))
		case token.SUB:
			return sv{&Val{T: Neg(c.eval(t.X).v.T)}, tInt}
		}
	case *ast.StarExpr:
		v := c.eval(t.X)
		return sv{x.loadVal(c.st, addrOf(v.v, v.t), derefType(v.t)), derefType(v.t)}
	case *ast.BinaryExpr:
		return c.binary(t)
	case *ast.SelectorExpr:
		return c.selector(t)
	case *ast.IndexExpr:
		a := c.eval(t.X)
		i := c.eval(t.Index)
		switch u := a.t.Underlying().(type) {
		case *types.Map:
			dn, ds, vn, vs := mapHeaps(u)
			d := Select(Select(c.st.H(dn, ds), a.v.T), i.v.T)
			raw := Select(Select(c.st.H(vn, vs), a.v.T), i.v.T)
			_ = d
			return sv{&Val{T: raw, Fn: x.fnOf(raw)}, u.Elem()}
		case *types.Slice:
			h, hs := elemHeap(u.Elem())
			if a.v.Snap != nil && isSlice(a.v.SnapTy) {
				v := Select(a.v.Snap, Add(sliceOff(a.v.T), i.v.T))
				return sv{&Val{T: v, Fn: x.fnOf(v)}, u.Elem()}
			}
			v := Select(Select(c.st.H(h, hs), sliceRef(a.v.T)), Add(sliceOff(a.v.T), i.v.T))
			return sv{&Val{T: v, Fn: x.fnOf(v)}, u.Elem()}
		case *types.Basic:
			return sv{&Val{T: StrAt(c.st, a.v.T, i.v.T)}, types.Typ[types.Uint8]}
		}
	case *ast.SliceExpr:
		a := c.eval(t.X)
		lo := Int(0)
		if t.Low != nil {
			lo = c.eval(t.Low).v.T
		}
		if sortOf(a.t) == sStr {
			hi := StrLen(a.v.T)
			if t.High != nil {
				hi = c.eval(t.High).v.T
			}
			return sv{&Val{T: StrSub(a.v.T, lo, hi)}, a.t}
		}
		hi := sliceLen(a.v.T)
		if t.High != nil {
			hi = c.eval(t.High).v.T
		}
		return sv{&Val{T: MkDT(sSlice, sliceRef(a.v.T), Add(sliceOff(a.v.T), lo), Sub(hi, lo))}, a.t}
	case *ast.CallExpr:
		return c.callExpr(t)
	}
	panic(unsupported("specification expression %s", exprString(e)))
}

func (c *specCtx) ident(name string) sv {
	x := c.x
	switch name {
	case "true":
		return bsv(tTrue)
	case "false":
		return bsv(tFalse)
	case "nil":
		return sv{&Val{T: Int(0)}, types.Typ[types.UntypedNil]}
	}
	if b, ok := c.binds[name]; ok {
		return b
	}
	if c.res != nil {
		if name == "result" && len(c.res) >= 1 {
			return sv{c.res[0], c.resT.At(0).Type()}
		}
		if strings.HasPrefix(name, "result") {
			if n, err := strconv.Atoi(name[6:]); err == nil && n < len(c.res) {
				return sv{c.res[n], c.resT.At(n).Type()}
			}
		}
		if name == "err" && len(c.res) > 0 {
			return sv{c.res[len(c.res)-1], c.resT.At(c.resT.Len() - 1).Type()}
		}
	}
	if c.params != nil {
		if p, ok := c.params[name]; ok {
			return p
		}
	}
	if v, ok := c.st.names["&"+name]; ok && v != nil {
		if pt, ok := c.st.ntype["&"+name].Underlying().(*types.Pointer); ok {
			return sv{x.loadVal(c.st, addrOf(v, pt), pt.Elem()), pt.Elem()}
		}
	}
	if v, ok := c.st.names[name]; ok && v != nil {
		return sv{v, c.st.ntype[name]}
	}
	if c.pkg != nil {
		if o := c.pkg.Scope().Lookup(name); o != nil {
			return c.pkgObject(o)
		}
	}
	if c.fr != nil {
		if cur := x.currentName(c.fr.fn, name); cur != "" {
			return c.ident(cur)
		}
	}
	panic(unsupported("unknown name %s in specification", name))
}

func (c *specCtx) pkgObject(o types.Object) sv {
	x := c.x
	switch o := o.(type) {
	case *types.Const:
		return sv{x.constVal(ssa.NewConst(o.Val(), o.Type())), o.Type()}
	case *types.Var:
		p := x.prog.Package(o.Pkg())
		if p != nil {
			if g, ok := p.Members[o.Name()].(*ssa.Global); ok {
				a := x.val(nil, c.st, g).Addr
				return sv{x.loadVal(c.st, a, o.Type()), o.Type()}
			}
		}
		h := "G:" + o.Pkg().Path() + "." + o.Name()
		heapSorts[h] = sortOf(o.Type())
		return sv{&Val{T: c.st.H(h, heapSorts[h])}, o.Type()}
	case *types.Func:
		if f := x.prog.FuncValue(o); f != nil {
			t := fnConst(f)
			if closTab[t] == nil {
				closTab[t] = &Closure{Fn: f}
			}
			return sv{&Val{T: t, Fn: closTab[t]}, o.Type()}
		}
	}
	panic(unsupported("package object %s", o.Name()))
}

func (c *specCtx) binary(t *ast.BinaryExpr) sv {
	x := c.x
	switch t.Op {
	case token.LAND:
		return bsv(And(c.evalB(t.X), c.evalB(t.Y)))
	case token.LOR:
		return bsv(Or(c.evalB(t.X), c.evalB(t.Y)))
	}
	a, b := c.eval(t.X), c.eval(t.Y)
	switch t.Op {
	case token.EQL, token.NEQ:
		var e *Term
		isNil := func(s sv) bool { bt, ok := s.t.(*types.Basic); return ok && bt.Kind() == types.UntypedNil }
		switch {
		case isNil(a) && sortOf(b.t) == sSlice:
			e = Eq(sliceRef(b.v.T), Int(0))
		case isNil(b) && sortOf(a.t) == sSlice:
			e = Eq(sliceRef(a.v.T), Int(0))
		case isNil(b) && a.v.Fn != nil || isNil(a) && b.v.Fn != nil:
			e = tFalse
		default:
			at, bt := x.termOf(a.v), x.termOf(b.v)
			if types.IsInterface(a.t) && !types.IsInterface(b.t) && !isNil(b) {
				bt = x.box(c.st, b.v, b.t).T
			}
			if types.IsInterface(b.t) && !types.IsInterface(a.t) && !isNil(a) {
				at = x.box(c.st, a.v, a.t).T
			}
			e = Eq(at, bt)
		}
		if t.Op == token.NEQ {
			e = Not(e)
		}
		return bsv(e)
	}
	p, q := a.v.T, b.v.T
	rt := a.t
	if bt, ok := rt.(*types.Basic); ok && bt.Kind() == types.UntypedInt {
		rt = b.t
	}
	if p.S == sStr {
		switch t.Op {
		case token.ADD:
			return sv{&Val{T: StrCat(p, q)}, rt}
		case token.LSS:
			return bsv(StrLt(p, q))
		case token.GTR:
			return bsv(StrLt(q, p))
		case token.LEQ:
			return bsv(Not(StrLt(q, p)))
		case token.GEQ:
			return bsv(Not(StrLt(p, q)))
		}
	}
	switch t.Op {
	case token.ADD:
		return sv{&Val{T: Add(p, q)}, rt}
	case token.SUB:
		return sv{&Val{T: Sub(p, q)}, rt}
	case token.MUL:
		return sv{&Val{T: Mul(p, q)}, rt}
	case token.LSS:
		return bsv(Lt(p, q))
	case token.GTR:
		return bsv(Lt(q, p))
	case token.LEQ:
		return bsv(Le(p, q))
	case token.GEQ:
		return bsv(Le(q, p))
	}
	panic(unsupported("operator %s", t.Op))
}

func (c *specCtx) selector(t *ast.SelectorExpr) sv {
	if id, ok := t.X.(*ast.Ident); ok && !c.known(id.Name) {
		if p := c.x.pkgByName(id.Name, c.pkg); p != nil {
			if o := p.Scope().Lookup(t.Sel.Name); o != nil {
				return c.pkgObject(o)
			}
		}
	}
	a := c.eval(t.X)
	return c.field(a, t.Sel.Name)
}

func (c *specCtx) known(name string) bool {
	if _, ok := c.binds[name]; ok {
		return true
	}
	if _, ok := c.params[name]; ok {
		return true
	}
	if strings.HasPrefix(name, "result") || name == "err" {
		return c.res != nil
	}
	_, ok := c.st.names[name]
	_, shared := c.st.names["&"+name]
	if ok || shared {
		// a package wins over a local variable of its name
		return c.x.pkgByName(name, c.pkg) == nil
	}
	return c.fr != nil && c.x.pkgByName(name, c.pkg) == nil && c.x.currentName(c.fr.fn, name) != ""
}

func (c *specCtx) field(a sv, name string) sv {
	obj, path, _ := types.LookupFieldOrMethod(a.t, true, c.pkgOf(a.t), name)
	v, ok := obj.(*types.Var)
	if !ok {
		panic(unsupported("no field %s in %s", name, a.t))
	}
	cur := a
	for _, i := range path {
		st := derefType(cur.t)
		f := st.Underlying().(*types.Struct).Field(i)
		if isPtr(cur.t) {
			if cur.v.Snap != nil && cur.v.SnapTy != nil && types.Identical(cur.v.SnapTy, st) {
				r := Sel(cur.v.Snap, i)
				cur = sv{&Val{T: r, Fn: c.x.fnOf(r)}, f.Type()}
				continue
			}
			ad := c.st.fieldAddr(addrOf(cur.v, cur.t), st, i)
			cur = sv{c.x.loadVal(c.st, ad, f.Type()), f.Type()}
		} else {
			r := Sel(cur.v.T, i)
			cur = sv{&Val{T: r, Fn: c.x.fnOf(r)}, f.Type()}
		}
	}
	_ = v
	return cur
}

func (c *specCtx) pkgOf(t types.Type) *types.Package {
	t = derefType(t)
	if n, ok := t.(*types.Named); ok {
		return n.Obj().Pkg()
	}
	return c.pkg
}

func (c *specCtx) callExpr(t *ast.CallExpr) sv {
	x := c.x
	if id, ok := t.Fun.(*ast.Ident); ok {
		if r, ok := c.special(id.Name, t); ok {
			return r
		}
		if sf, ok := x.ufuncs[id.Name]; ok {
			var args []sv
			for _, a := range t.Args {
				args = append(args, c.eval(a))
			}
			if sf.Body != nil {
				n := *c
				n.pkg = sf.Pkg
				n.binds = map[string]sv{}
				n.params = nil
				n.res = nil
				for i, p := range sf.Names {
					ty := x.specType(sf.Types[i], sf.Pkg)
					av := args[i]
					if types.IsInterface(ty) && !types.IsInterface(av.t) {
						av = sv{x.box(c.st, av.v, av.t), ty}
					}
					n.binds[p] = sv{av.v, ty}
				}
				return n.eval(sf.Body.Expr)
			}
			var ts []*Term
			for i, a := range args {
				ty := x.specType(sf.Types[i], sf.Pkg)
				ts = append(ts, x.flat(c.st, a.v, ty)...)
			}
			rt := x.specType(sf.Result, sf.Pkg)
			return sv{&Val{T: App("spec:"+sf.Name, sortOf(rt), ts...)}, rt}
		}
	}
	// function or method of the program
	var fn *ssa.Function
	var args []*Val
	var bind []*Val
	var sig *types.Signature
	resolveFn := func(v sv) {
		if v.v.Fn == nil {
			panic(unsupported("call of unknown function in specification: %s", exprString(t.Fun)))
		}
		fn, bind = v.v.Fn.Fn, v.v.Fn.Bind
		sig = fn.Signature
	}
	switch f := t.Fun.(type) {
	case *ast.SelectorExpr:
		if id, ok := f.X.(*ast.Ident); ok && !c.known(id.Name) {
			if p := x.pkgByName(id.Name, c.pkg); p != nil {
				o := p.Scope().Lookup(f.Sel.Name)
				fo, ok := o.(*types.Func)
				if !ok {
					panic(unsupported("%s is not a function", exprString(t.Fun)))
				}
				sig = fo.Type().(*types.Signature)
				fn = x.prog.FuncValue(fo)
				if fn == nil {
					return c.externSpec(fo, nil, t.Args)
				}
				break
			}
		}
		recv := c.eval(f.X)
		rt := recv.t
		if types.IsInterface(rt) && recv.v.Dyn != nil {
			rt, recv = recv.v.Dyn, sv{recv.v.DynV, recv.v.Dyn}
		}
		obj, path, indirect := types.LookupFieldOrMethod(rt, true, c.pkgOf(rt), f.Sel.Name)
		_ = indirect
		mo, ok := obj.(*types.Func)
		if !ok {
			if _, isv := obj.(*types.Var); isv {
				resolveFn(c.field(recv, f.Sel.Name))
				break
			}
			panic(unsupported("no method %s on %s", f.Sel.Name, rt))
		}
		// walk embedded fields
		cur := recv
		for _, i := range path[:len(path)-1] {
			st := derefType(cur.t)
			fl := st.Underlying().(*types.Struct).Field(i)
			if isPtr(cur.t) {
				ad := c.st.fieldAddr(addrOf(cur.v, cur.t), st, i)
				cur = sv{x.loadVal(c.st, ad, fl.Type()), fl.Type()}
			} else {
				cur = sv{&Val{T: Sel(cur.v.T, i)}, fl.Type()}
			}
		}
		sig = mo.Type().(*types.Signature)
		if types.IsInterface(cur.t) {
			return c.externSpec(mo, &cur, t.Args)
		}
		want := sig.Recv().Type()
		rv := cur.v
		if !isPtr(want) && isPtr(cur.t) {
			rv = x.loadVal(c.st, addrOf(cur.v, cur.t), derefType(cur.t))
		}
		fn = x.prog.FuncValue(mo)
		if fn == nil {
			return c.externSpec(mo, &cur, t.Args)
		}
		args = append(args, rv)
	case *ast.Ident:
		// conversion?
		if o := types.Universe.Lookup(f.Name); o != nil {
			if tn, ok := o.(*types.TypeName); ok && len(t.Args) == 1 {
				a := c.eval(t.Args[0])
				return sv{a.v, tn.Type()}
			}
		}
		if c.pkg != nil && !c.known(f.Name) {
			if tn, ok := c.pkg.Scope().Lookup(f.Name).(*types.TypeName); ok {
				a := c.eval(t.Args[0])
				return sv{a.v, tn.Type()}
			}
		}
		resolveFn(c.ident(f.Name))
	default:
		resolveFn(c.eval(t.Fun))
	}
	n := sig.Params().Len()
	var packed *State
	var pack []*Term
	for i, a := range t.Args {
		v := c.eval(a)
		var pt types.Type
		if i < n {
			pt = sig.Params().At(i).Type()
		}
		variadic := sig.Variadic() && i >= n-1 && !t.Ellipsis.IsValid()
		if variadic {
			pt = sig.Params().At(n - 1).Type().(*types.Slice).Elem()
		}
		if pt != nil && types.IsInterface(pt) && !types.IsInterface(v.t) {
			if b, ok := v.t.(*types.Basic); !ok || b.Kind() != types.UntypedNil {
				v = sv{x.box(c.st, v.v, v.t), pt}
			}
		}
		if pt != nil && sortOf(pt) == sSlice && v.v.T == Int(0) {
			v = sv{&Val{T: nilSlice}, pt}
		}
		if variadic {
			pack = append(pack, v.v.T)
			continue
		}
		args = append(args, v.v)
	}
	if sig.Variadic() && !t.Ellipsis.IsValid() {
		// the packed arguments live in a scratch copy of the state, so that
		// bound variables never reach the heap of the caller
		for i := 0; i < sig.Results().Len(); i++ {
			if sortOf(sig.Results().At(i).Type()) == sSlice {
				panic(unsupported("variadic call of %s with a slice result in a specification", fn.Name()))
			}
		}
		packed = c.st.copy()
		el := sig.Params().At(n - 1).Type().(*types.Slice).Elem()
		h, hs := elemHeap(el)
		r := packed.newRef()
		at := ConstArr(hs.Elem, zeroOf(el))
		for i, e := range pack {
			at = Store(at, Int(int64(i)), e)
		}
		packed.heap[h] = Store(packed.H(h, hs), r, at)
		ln := Int(int64(len(pack)))
		args = append(args, &Val{T: MkDT(sSlice, r, Int(0), ln)})
		vals, _ := x.runPure(packed, fn, args, bind)
		if sig.Results().Len() == 1 {
			return sv{vals[0], sig.Results().At(0).Type()}
		}
		return sv{&Val{Tup: vals}, sig.Results()}
	}
	vals, ns := x.runPure(c.st, fn, args, bind)
	// keep heap additions made by the evaluation (fresh objects only)
	pc := c.st.pc
	c.st.heap, c.st.alloc = ns.heap, ns.alloc
	for _, p := range ns.pc[minInt(len(pc), len(ns.pc)):] {
		if p.WF && !p.Path && !hasBound(p.T) {
			c.st.assumeWF(p.T)
		}
	}
	rt := sig.Results()
	if rt.Len() == 0 {
		return bsv(tTrue)
	}
	if rt.Len() == 1 {
		return sv{vals[0], rt.At(0).Type()}
	}
	return sv{&Val{Tup: vals}, rt}
}

// externSpec evaluates a call of a trusted pure external function.
func (c *specCtx) externSpec(fo *types.Func, recv *sv, argx []ast.Expr) sv {
	x := c.x
	sig := fo.Type().(*types.Signature)
	key := fo.Pkg().Name() + "." + fo.Name()
	var atys []types.Type
	var args []*Val
	if recv != nil {
		key = "(" + shortKey(recv.t) + ")." + fo.Name()
		if _, ok := x.externs[key]; !ok && sig.Recv() != nil {
			key = "(" + shortKey(sig.Recv().Type()) + ")." + fo.Name()
		}
		atys = append(atys, recv.t)
		args = append(args, recv.v)
	}
	e := x.externs[key]
	if e == nil || e.Kind != "pure" && e.Kind != "pureevent" {
		panic(unsupported("external function %s is not pure in specifications", key))
	}
	x.used["extern "+key] = true
	for i := 0; i < sig.Params().Len(); i++ {
		atys = append(atys, sig.Params().At(i).Type())
	}
	for _, a := range argx {
		args = append(args, c.eval(a).v)
	}
	vals := x.pureApp(c.st, key, args, atys, sig)
	if len(vals) == 1 {
		return sv{vals[0], sig.Results().At(0).Type()}
	}
	return sv{&Val{Tup: vals}, sig.Results()}
}

func (c *specCtx) special(name string, t *ast.CallExpr) (sv, bool) {
	x := c.x
	if strings.HasPrefix(name, "visited_") && len(t.Args) == 1 && c.st != nil {
		if v, ok := c.st.names[name]; ok {
			return bsv(Select(v.T, c.eval(t.Args[0]).v.T)), true
		}
	}
	switch name {
	case "implies":
		return bsv(Imp(c.evalB(t.Args[0]), c.evalB(t.Args[1]))), true
	case "iff":
		return bsv(Eq(c.evalB(t.Args[0]), c.evalB(t.Args[1]))), true
	case "out":
		srt := arraySort(sInt, sStr)
		heapSorts["GH:out"] = srt
		a := c.eval(t.Args[0])
		return sv{&Val{T: Select(c.st.H("GH:out", srt), a.v.T)}, types.Typ[types.String]}, true
	case "ite":
		b := c.evalB(t.Args[0])
		p, q := c.eval(t.Args[1]), c.eval(t.Args[2])
		return sv{&Val{T: Ite(b, p.v.T, q.v.T)}, p.t}, true
	case "old":
		n := *c
		n.st = c.old.copy()
		n.cur = c.st
		n.st.names, n.st.ntype = c.st.names, c.st.ntype
		if c.params == nil && c.fr != nil {
			// inside a loop the parameters may have been reassigned
			m := &n
			for _, p := range c.fr.fn.Params {
				if v := c.st.env[p]; v != nil {
					m = m.bind(p.Name(), sv{v, p.Type()})
				}
			}
			return m.eval(t.Args[0]), true
		}
		return n.eval(t.Args[0]), true
	case "forall", "exists":
		n := c
		var bv []*Term
		var guards []*Term
		for i := 0; i+1 < len(t.Args); i += 2 {
			ty := x.specType(t.Args[i+1], c.pkg)
			v := BV(t.Args[i].(*ast.Ident).Name, sortOf(ty))
			bv = append(bv, v)
			n = n.bind(t.Args[i].(*ast.Ident).Name, sv{&Val{T: v}, ty})
			if b, ok := ty.Underlying().(*types.Basic); ok && b.Info()&types.IsUnsigned != 0 {
				guards = append(guards, Le(Int(0), v))
			}
		}
		cp := *n
		body := cp.evalB(t.Args[len(t.Args)-1])
		c.st.heap, c.st.alloc = cp.st.heap, cp.st.alloc
		if name == "forall" {
			return bsv(Forall(bv, Imp(And(guards...), body))), true
		}
		return bsv(Exists(bv, And(And(guards...), body))), true
	case "has":
		m := c.eval(t.Args[0])
		k := c.eval(t.Args[1])
		u := m.t.Underlying().(*types.Map)
		dn, ds, _, _ := mapHeaps(u)
		x.nilMapFact(c.st, m.v.T, dn, ds)
		if c.cur != nil {
			x.nilMapFactIn(c.cur, c.st.H(dn, ds), m.v.T, ds)
		}
		return bsv(Select(Select(c.st.H(dn, ds), m.v.T), k.v.T)), true
	case "len":
		a := c.eval(t.Args[0])
		switch u := a.t.Underlying().(type) {
		case *types.Slice:
			return sv{&Val{T: sliceLen(a.v.T)}, tInt}, true
		case *types.Map:
			return sv{&Val{T: x.mapLen(c.st, u, a.v.T)}, tInt}, true
		default:
			n := StrLen(a.v.T)
			if !hasBound(n) {
				c.st.assumeWF(Le(Int(0), n))
			}
			return sv{&Val{T: n}, tInt}, true
		}
	case "contains": // contains(slice, x)
		a := c.eval(t.Args[0])
		v := c.eval(t.Args[1])
		el := a.t.Underlying().(*types.Slice).Elem()
		h, hs := elemHeap(el)
		j := BV("j", sInt)
		arr := Select(c.st.H(h, hs), sliceRef(a.v.T))
		if a.v.Snap != nil && isSlice(a.v.SnapTy) {
			arr = a.v.Snap
		}
		return bsv(Exists([]*Term{j}, And(Le(Int(0), j), Lt(j, sliceLen(a.v.T)), Eq(Select(arr, Add(sliceOff(a.v.T), j)), v.v.T)))), true
	case "runes": // number of runes of a string
		a := c.eval(t.Args[0])
		return sv{&Val{T: App("str.runes", sInt, a.v.T)}, tInt}, true
	case "rune": // rune(s, i)
		if len(t.Args) == 2 {
			a, i := c.eval(t.Args[0]), c.eval(t.Args[1])
			return sv{&Val{T: App("str.rune", sInt, a.v.T, i.v.T)}, types.Typ[types.Int32]}, true
		}
	case "visited": // visited(k): key already handled by the current range loop
		k := c.eval(t.Args[0])
		if c.iter == nil || c.iter.Vis == nil {
			panic(unsupported("visited() outside a map range"))
		}
		return bsv(Select(c.iter.Vis, k.v.T)), true
	case "pos":
		if c.iter == nil || c.iter.Pos == nil {
			panic(unsupported("pos() outside a string range"))
		}
		return sv{&Val{T: c.iter.Pos}, tInt}, true
	case "mentions":
		a, s := c.eval(t.Args[0]), c.eval(t.Args[1])
		return bsv(App("mentions", sBool, a.v.T, x.box(c.st, s.v, s.t).T)), true
	case "off":
		// index of the first element within the underlying array
		a := c.eval(t.Args[0])
		return sv{&Val{T: sliceOff(a.v.T)}, types.Typ[types.Int]}, true
	case "isfresh":
		a := c.eval(t.Args[0])
		r := a.v.T
		if r.S == sSlice {
			r = sliceRef(r)
		}
		return bsv(Le(c.old.alloc, r)), true
	case "typeis":
		a := c.eval(t.Args[0])
		ty := x.specType(t.Args[1], c.pkg)
		return bsv(And(Not(Eq(a.v.T, Int(0))), Eq(App("tagof", sInt, a.v.T), tagID(ty)))), true
	case "as":
		a := c.eval(t.Args[0])
		ty := x.specType(t.Args[1], c.pkg)
		if isPtr(ty) {
			return sv{&Val{T: a.v.T}, ty}, true
		}
		return sv{&Val{T: App("unbox:"+tkey(ty), sortOf(ty), a.v.T)}, ty}, true
	case "ret": // ret(f, args...): result of a call on an unknown function
		f := c.eval(t.Args[0])
		var args []*Val
		for _, a := range t.Args[1:] {
			args = append(args, c.eval(a).v)
		}
		sig := f.t.Underlying().(*types.Signature)
		s := c.st.copy()
		if fn := fnByTerm[f.v.T]; fn != nil {
			if e := x.externs[fnKey(fn)]; e != nil && e.Kind == "pure" {
				r := x.callFn(s, fn, args, nil, token.NoPos)
				return sv{r[0].vals[0], sig.Results().At(0).Type()}, true
			}
		}
		r := x.unknownCall(s, f.v.T, args, sig)
		return sv{r[0].vals[0], sig.Results().At(0).Type()}, true
	case "tup": // tup(e, i): i-th result of a call
		a := c.eval(t.Args[0])
		n, _ := intVal(c.eval(t.Args[1]).v.T)
		return sv{a.v.Tup[n], a.t.(*types.Tuple).At(int(n)).Type()}, true
	case "allcalls", "somecall":
		return bsv(c.calls(name == "allcalls", t)), true
	case "onlycalls": // every recorded call is on one of the sinks
		var sinks []*Term
		for _, a := range t.Args {
			sinks = append(sinks, c.sink(a))
		}
		var cs []*Term
		for _, d := range c.logSuffix() {
			if d.Ev.Name == "?" {
				return bsv(tFalse), true
			}
			var alts []*Term
			for _, s := range sinks {
				alts = append(alts, sinkEq(d.Ev.Sink, s))
			}
			cs = append(cs, Forall(d.BV, Imp(d.Cond, Or(alts...))))
		}
		return bsv(And(cs...)), true
	}
	return sv{}, false
}

func (c *specCtx) logSuffix() []*Delta {
	n := 0
	if c.old != nil {
		n = len(c.old.log)
	}
	return c.st.log[n:]
}

func sinkEq(a, b *Term) *Term {
	if a == b {
		return tTrue
	}
	named := func(t *Term) bool {
		return t.Op == "const" && (strings.HasPrefix(t.Name, "sink:") || strings.HasPrefix(t.Name, "fn:"))
	}
	if named(a) && named(b) {
		return tFalse
	}
	if named(a) && strings.HasPrefix(a.Name, "sink:") || named(b) && strings.HasPrefix(b.Name, "sink:") {
		return tFalse
	}
	return Eq(a, b)
}

func (c *specCtx) sink(e ast.Expr) *Term {
	if bl, ok := e.(*ast.BasicLit); ok && bl.Kind == token.STRING {
		s, _ := strconv.Unquote(bl.Value)
		return Const("sink:"+s, sInt)
	}
	f := c.eval(e)
	return c.x.termOf(f.v)
}

// calls evaluates allcalls(sink, a1, ..., an, pred) / somecall(...). Binders
// name the call's arguments; "_" skips one.
func (c *specCtx) calls(all bool, t *ast.CallExpr) *Term {
	s := c.sink(t.Args[0])
	var want *types.Signature // of a function value: others are other functions
	if bl, ok := t.Args[0].(*ast.BasicLit); !ok || bl.Kind != token.STRING {
		if ft := c.eval(t.Args[0]).t; ft != nil {
			want, _ = ft.Underlying().(*types.Signature)
		}
	}
	names := t.Args[1 : len(t.Args)-1]
	pred := t.Args[len(t.Args)-1]
	var out []*Term
	for _, d := range c.logSuffix() {
		if d.Ev.Name == "?" {
			if all {
				return tFalse
			}
			continue
		}
		if !all && d.May {
			continue
		}
		if want != nil && d.Ev.ATy != nil && len(d.Ev.ATy) != want.Params().Len() {
			continue
		}
		eq := sinkEq(d.Ev.Sink, s)
		if eq == tFalse {
			continue
		}
		n := c
		// fresh bound variables for this occurrence
		m := map[*Term]*Term{}
		var bv []*Term
		for _, b := range d.BV {
			f := BV(b.Name, b.S)
			m[b] = f
			bv = append(bv, f)
		}
		dd := d.subst(m)
		for i, nm := range names {
			id := nm.(*ast.Ident).Name
			if id == "_" {
				continue
			}
			if i >= len(dd.Ev.Args) {
				panic(unsupported("too many binders for call on %s", exprString(t.Args[0])))
			}
			n = n.bind(id, sv{dd.Ev.Args[i], dd.Ev.ATy[i]})
		}
		cp := *n
		p := cp.evalB(pred)
		if all {
			out = append(out, Forall(bv, Imp(And(eq, dd.Cond), p)))
		} else {
			out = append(out, Exists(bv, And(eq, dd.Cond, p)))
		}
	}
	if all {
		return And(out...)
	}
	return Or(out...)
}

// ---- verifying and using contracts ----

func (x *Exec) newState() *State {
	st := &State{heap: map[string]*Term{}, env: map[ssa.Value]*Val{}, names: map[string]*Val{}, ntype: map[string]types.Type{}}
	st.alloc = Const("alloc0", sInt)
	st.assumeWF(Lt(Int(0), st.alloc))
	return st
}

func (x *Exec) verify(c *Contract) (err error) {
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(unsupportedErr); ok {
				err = u
				return
			}
			err = internalErr(r)
		}
	}()
	x.cur = c
	x.steps = 0
	x.depth = 0
	x.mute = 0
	fn := c.fn
	if c.Pure && !c.Opaque {
		for _, en := range c.Ensures {
			for i := 0; i < fn.Signature.Results().Len(); i++ {
				if isPtr(fn.Signature.Results().At(i).Type()) && (strings.Contains(en.Text, fmt.Sprintf("isfresh(result%d)", i)) || i == 0 && strings.Contains(en.Text, "isfresh(result)")) {
					return unsupported("pure function %s cannot promise a fresh pointer", c.Key)
				}
			}
		}
	}
	st := x.newState()
	x.runInits(st, c.Inits)
	var args []*Val
	for _, p := range fn.Params {
		t := Const("p."+p.Name(), sortOf(p.Type()))
		v := &Val{T: t}
		args = append(args, v)
		for _, f := range wfFacts(p.Type(), t, st.alloc) {
			st.assumeWF(f)
		}
		st.names[p.Name()] = v
		st.ntype[p.Name()] = p.Type()
	}
	var bind []*Val
	for _, p := range fn.FreeVars {
		t := Const("fv."+p.Name(), sortOf(p.Type()))
		bind = append(bind, &Val{T: t})
		st.names[p.Name()] = &Val{T: t}
		st.ntype[p.Name()] = p.Type()
		for _, f := range wfFacts(p.Type(), t, st.alloc) {
			st.assumeWF(f)
		}
	}
	params := map[string]sv{}
	for k, v := range det(st.names) {
		params[k] = sv{v, st.ntype[k]}
	}
	x.aliasParams(params, fn)
	for i := range c.Requires {
		st.assume(x.evalClause(c.Requires[i], &specCtx{x: x, st: st, old: st, params: params}))
	}
	for i := range c.Assumes {
		st.assume(x.evalClause(c.Assumes[i], &specCtx{x: x, st: st, old: st, params: params}))
	}
	entry := st.copy()
	x.entry = entry
	rets := x.run(fn, args, bind, st, true)
	var covers []*Term
	var coverSt []*State
	for ri, r := range rets {
		if r.st.dead() {
			continue
		}
		for _, cl := range c.Ensures {
			sc := &specCtx{x: x, st: r.st, old: entry, params: params, res: r.vals, resT: fn.Signature.Results()}
			g := x.evalClause(cl, sc)
			x.oblige(r.st, fmt.Sprintf("ensures %s [path %d]", cl.Text, ri), "postcondition", "", g)
		}
		for _, e := range c.Emits {
			x.checkEmits(c, e, r, entry, params, ri)
		}
		if c.Pure && !c.Event {
			for _, d := range r.st.log[len(entry.log):] {
				if e := x.externs[d.Ev.Name]; e != nil && e.Kind == "event" || d.Ev.Name == "?" || x.contracts[d.Ev.Name] != nil {
					x.oblige(r.st, fmt.Sprintf("pure: no recorded call (%s) [path %d]", d.Ev.Name, ri), "frame", "", Not(d.Cond))
				}
			}
		}
		x.frame(c, r.st, entry, ri, params)
		covers = append(covers, And(r.st.hyps()...))
		coverSt = append(coverSt, r.st)
	}
	if os.Getenv("GVC_PATHS") != "" {
		for i, cv := range covers {
			if os.Getenv("GVC_PATHS") == c.Key {
				fmt.Fprintf(os.Stderr, "PATH %d\n", i)
				for _, p := range coverSt[i].pc {
					if !p.WF {
						fmt.Fprintf(os.Stderr, "   %.220s\n", p.T)
					}
				}
			}
			x.obls = append(x.obls, &Obligation{Name: fmt.Sprintf("path %d can return", i), Kind: "cover", Func: c.Key, Props: c.Props, Cover: true, Hyps: []*Term{cv}, Goal: tFalse})
		}
	}
	// vacuity: some path must be able to return
	o := &Obligation{Name: "some execution returns (not vacuous)", Kind: "cover", Func: c.Key, Props: c.Props, Cover: true}
	o.Hyps = []*Term{Or(covers...)}
	o.Goal = tFalse
	x.obls = append(x.obls, o)
	return nil
}

// modRefs evaluates the locations a contract allows to be written.
func (x *Exec) modRefs(c *Contract, sc *specCtx) map[string][]*Term {
	out := map[string][]*Term{}
	for _, m := range c.ModRefs {
		call, ok := m.Expr.(*ast.CallExpr)
		if !ok || len(call.Args) != 1 {
			panic(unsupported("bad modifies clause %s", m.Text))
		}
		n := *sc
		n.pkg = m.Pkg
		v := n.eval(call.Args[0])
		switch call.Fun.(*ast.Ident).Name {
		case "elems":
			h, _ := elemHeap(v.t.Underlying().(*types.Slice).Elem())
			out[h] = append(out[h], sliceRef(v.v.T))
		case "fields":
			el := v.t.Underlying().(*types.Pointer).Elem()
			stt := el.Underlying().(*types.Struct)
			for i := 0; i < stt.NumFields(); i++ {
				h, _, _ := fieldHeap(el, i)
				out[h] = append(out[h], v.v.T)
			}
		case "entries":
			dn, _, vn, _ := mapHeaps(v.t.Underlying().(*types.Map))
			out[dn] = append(out[dn], v.v.T)
			out[vn] = append(out[vn], v.v.T)
		default:
			panic(unsupported("bad modifies clause %s", m.Text))
		}
	}
	return out
}

func (x *Exec) frame(c *Contract, st, entry *State, ri int, params map[string]sv) {
	for k, v := range det(st.heap) {
		if strings.HasPrefix(k, "GH:") {
			continue
		}
		if strings.HasPrefix(k, "G:") {
			if e, ok := entry.heap[k]; ok && e != v || !ok && v != Const("H0:"+k, heapSorts[k]) {
				if !contains(c.Modifies, k) && !contains(c.Modifies, "*") {
					x.oblige(st, "frame "+k, "frame", "", Eq(v, entry.H(k, heapSorts[k])))
				}
			}
			continue
		}
		e := entry.H(k, heapSorts[k])
		if e == v || contains(c.Modifies, k) || contains(c.Modifies, "*") {
			continue
		}
		if onlyFreshStores(v, e) {
			continue
		}
		r := BV("r", sInt)
		cond := []*Term{Lt(r, entry.alloc)}
		for _, m := range x.modRefs(c, &specCtx{x: x, st: entry, old: entry, params: params})[k] {
			cond = append(cond, Not(Eq(r, m)))
		}
		x.oblige(st, fmt.Sprintf("frame %s [path %d]", k, ri), "frame", "", Forall([]*Term{r}, Imp(And(cond...), Eq(Select(v, r), Select(e, r)))))
	}
}

func contains(ss []string, s string) bool {
	for _, x := range ss {
		if x == s {
			return true
		}
	}
	return false
}

func onlyFreshStores(t, base *Term) bool {
	for t != base {
		if t.Op != "store" {
			return false
		}
		b, n := splitAdd(t.Args[1])
		if b == nil || b.Op != "const" || b.Name != "alloc0" || n < 0 {
			return false
		}
		t = t.Args[0]
	}
	return true
}

// emitParts evaluates an emits clause for given binder terms. Arguments that
// are placeholders come back as nil; with evaluates the with clause for them.
func (x *Exec) emitParts(c *Contract, e *Emits, sc *specCtx, bv []*Term, tys []types.Type) (sink sv, args []*Val, where *Term, with func(got []*Val, st *State) *Term) {
	n := *sc
	n.pkg = c.Pkg
	bound := map[string]bool{}
	for i, nm := range e.Names {
		n2 := n.bind(nm, sv{&Val{T: bv[i]}, tys[i]})
		n = *n2
		bound[nm] = true
	}
	call := e.Call.Expr.(*ast.CallExpr)
	sink = n.eval(call.Fun)
	fsig := sink.t.Underlying().(*types.Signature)
	holes := map[int]string{}
	for i, a := range call.Args {
		if id, ok := a.(*ast.Ident); ok && !bound[id.Name] && e.With != nil {
			if _, isParam := sc.params[id.Name]; !isParam {
				holes[i] = id.Name
				args = append(args, nil)
				continue
			}
		}
		args = append(args, n.eval(a).v)
	}
	where = n.evalB(e.Where.Expr)
	with = func(got []*Val, st *State) *Term {
		if e.With == nil {
			return tTrue
		}
		m := n
		if st != nil {
			m.st = st
		}
		for i, h := range det(holes) {
			m = *m.bind(h, sv{got[i], fsig.Params().At(i).Type()})
		}
		return m.evalB(e.With.Expr)
	}
	return
}

func (x *Exec) checkEmits(c *Contract, e *Emits, r Ret, entry *State, params map[string]sv, ri int) {
	mk := func() ([]*Term, []types.Type) {
		var bv []*Term
		var tys []types.Type
		for i, nm := range e.Names {
			ty := x.specType(e.Types[i], c.Pkg)
			bv = append(bv, BV(nm, sortOf(ty)))
			tys = append(tys, ty)
		}
		return bv, tys
	}
	x.mute++
	st := r.st.copy()
	sc := &specCtx{x: x, st: st, old: entry, params: params, pkg: c.Pkg}
	errT := Int(0)
	hasErr := false
	if n := len(r.vals); n > 0 {
		if types.IsInterface(c.fn.Signature.Results().At(n - 1).Type()) {
			errT = r.vals[n-1].T
			hasErr = true
		}
	}
	type ob struct {
		name string
		goal *Term
	}
	var obs []ob
	// upper bound
	bv, tys := mk()
	sink, _, _, _ := x.emitParts(c, e, sc, bv, tys)
	sinkT := x.termOf(sink.v)
	var ups []*Term
	for _, d := range r.st.log[len(entry.log):] {
		if d.Ev.Name == "?" {
			ups = append(ups, tFalse)
			continue
		}
		m := map[*Term]*Term{}
		var dbv []*Term
		for _, b := range d.BV {
			f := BV(b.Name, b.S)
			m[b] = f
			dbv = append(dbv, f)
		}
		dd := d.subst(m)
		eb, et := mk()
		_, args, where, with := x.emitParts(c, e, sc, eb, et)
		eqs := []*Term{where, with(dd.Ev.Args, nil)}
		for i := range args {
			if args[i] == nil {
				continue
			}
			if dd.Ev.Args[i].T == nil {
				eqs = append(eqs, tFalse)
				continue
			}
			eqs = append(eqs, Eq(dd.Ev.Args[i].T, x.termOf(args[i])))
		}
		ups = append(ups, Forall(dbv, Imp(dd.Cond, And(sinkEq(dd.Ev.Sink, sinkT), Exists(eb, And(eqs...))))))
	}
	obs = append(obs, ob{"every call is one of those specified", And(ups...)})
	// lower bound when no error is returned
	lb, lt := mk()
	_, largs, lwhere, lwith := x.emitParts(c, e, sc, lb, lt)
	var alts []*Term
	for _, d := range r.st.log[len(entry.log):] {
		if d.May || d.Ev.Name == "?" {
			continue
		}
		m := map[*Term]*Term{}
		var dbv []*Term
		for _, b := range d.BV {
			f := BV(b.Name, b.S)
			m[b] = f
			dbv = append(dbv, f)
		}
		dd := d.subst(m)
		if sinkEq(dd.Ev.Sink, sinkT) == tFalse {
			continue
		}
		eqs := []*Term{sinkEq(dd.Ev.Sink, sinkT), dd.Cond, lwith(dd.Ev.Args, nil)}
		for i := range largs {
			if largs[i] == nil {
				continue
			}
			if dd.Ev.Args[i].T == nil {
				eqs = append(eqs, tFalse)
				continue
			}
			eqs = append(eqs, Eq(dd.Ev.Args[i].T, x.termOf(largs[i])))
		}
		alts = append(alts, Exists(dbv, And(eqs...)))
	}
	obs = append(obs, ob{"every specified call is made unless an error is returned", Forall(lb, Imp(And(Eq(errT, Int(0)), lwhere), Or(alts...)))})
	if hasErr {
		b2, t2 := mk()
		sk, a2, w2, _ := x.emitParts(c, e, sc, b2, t2)
		sig := sk.t.Underlying().(*types.Signature)
		if sig.Results().Len() > 0 {
			rv := x.unknownCall(st.copy(), sinkT, a2, sig)[0].vals[sig.Results().Len()-1].T
			obs = append(obs, ob{"no error only if no call failed", Forall(b2, Imp(And(Eq(errT, Int(0)), w2), Eq(rv, Int(0))))})
			obs = append(obs, ob{"an error is the error of a call", Or(Eq(errT, Int(0)), Exists(b2, And(w2, Eq(rv, errT))))})
		} else {
			obs = append(obs, ob{"no error", Eq(errT, Int(0))})
		}
	}
	x.mute--
	for _, o := range obs {
		x.oblige(r.st, fmt.Sprintf("emits %s: %s [path %d]", e.Call.Text, o.name, ri), "effects", "", o.goal)
	}
}

func (x *Exec) applyContract(st *State, c *Contract, fn *ssa.Function, args []*Val, pos token.Pos) []Ret {
	params := map[string]sv{}
	for i, p := range fn.Params {
		params[p.Name()] = sv{args[i], p.Type()}
	}
	x.aliasParams(params, fn)
	for _, rq := range c.Requires {
		g := x.evalClause(rq, &specCtx{x: x, st: st, old: st, params: params})
		if !hasBound(g) {
			x.oblige(st, fmt.Sprintf("precondition of %s: %s", c.Key, rq.Text), "precondition", x.pos(pos), g)
		}
	}
	sig := fn.Signature
	pre := st.copy()
	var vals []*Val
	if c.Pure {
		var atys []types.Type
		for _, p := range fn.Params {
			atys = append(atys, p.Type())
		}
		vals = x.pureApp(st, "contract:"+c.Key, args, atys, sig)
	} else {
		mods := map[string]bool{}
		for k := range det(x.modHeaps(c)) {
			mods[k] = true
		}
		mrefs := x.modRefs(c, &specCtx{x: x, st: st, old: st, params: params})
		for k := range det(mrefs) {
			mods[k] = true
		}
		na := Fresh("alloc", sInt)
		allocGe[na] = st.alloc
		st.assumeWF(Le(st.alloc, na))
		for k := range det(mods) {
			srt := heapSorts[k]
			old := st.H(k, srt)
			gen := freshN
			nu := Fresh("H:"+clean(k), srt)
			if !contains(c.Modifies, k) && !contains(c.Modifies, "*") {
				if strings.HasPrefix(k, "GH:") {
				} else if strings.HasPrefix(k, "G:") {
					nu = old
				} else {
					r := BV("r", sInt)
					cond := []*Term{Lt(r, pre.alloc)}
					for _, m := range mrefs[k] {
						cond = append(cond, Not(Eq(r, m)))
					}
					st.assumeWF(Forall([]*Term{r}, Imp(And(cond...), Eq(Select(nu, r), Select(old, r)))))
					if nu != old {
						heapFrame[nu] = frameInfo{old, gen, mrefs[k]}
					}
				}
			}
			st.heap[k] = nu
			if nu.Op == "const" && nu != old {
				heapOf[nu] = heapInfo{k, na}
			}
		}
		st.alloc = na
		vals = x.freshResults(st, c.Key, sig)
		for i, v := range vals {
			if v.T == nil || v.T.S != sSlice {
				continue
			}
			for _, en := range c.Ensures {
				if en.Text == fmt.Sprintf("off(result%d) == 0", i) || i == 0 && en.Text == "off(result) == 0" {
					// proved of the function itself: say so syntactically
					n := &Val{T: MkDT(sSlice, Fresh(c.Key+".ref", sInt), Int(0), Fresh(c.Key+".len", sInt))}
					for _, f := range wfFacts(sig.Results().At(i).Type(), n.T, st.alloc) {
						st.assumeWF(f)
					}
					vals[i] = n
				}
			}
			for _, en := range c.Ensures {
				if en.Text == fmt.Sprintf("isfresh(result%d)", i) || i == 0 && en.Text == "isfresh(result)" {
					if r := sliceRef(vals[i].T); r.Op == "const" {
						refGe[r] = pre.alloc
					}
				}
			}
		}
	}
	hasB := false
	for _, v := range vals {
		if v.T != nil && hasBound(v.T) {
			hasB = true
		}
	}
	if c.Opaque {
		hasB = true
	} else if !hasB {
		for _, en := range c.Ensures {
			if usesCalls(en.Expr) {
				continue
			}
			n := len(st.pc)
			st.assume(x.evalClause(en, &specCtx{x: x, st: st, old: pre, params: params, res: vals, resT: sig.Results()}))
			for i := n; i < len(st.pc); i++ {
				st.pc[i].Post = true
			}
		}
	}
	if hasB && !c.Opaque && c.Pure && len(c.Requires) == 0 {
		x.boundContract(st, pre, c, args, sig)
	}
	if c.Event || !c.Pure && len(c.Emits) == 0 && x.cur != nil && x.cur.OnlyCalls {
		var atys []types.Type
		for _, p := range fn.Params {
			atys = append(atys, p.Type())
		}
		x.emit(st, Const("sink:"+c.Key, sInt), c.Key, args, atys)
	}
	if len(c.Emits) == 0 {
		return []Ret{{st, vals}}
	}
	return x.applyEmits(st, pre, c, params, vals, sig, pos)
}

// boundContract states a pure contract for all arguments, for calls whose
// arguments are bound variables.
func (x *Exec) boundContract(st, pre *State, c *Contract, args []*Val, sig *types.Signature) {
	fn := c.fn
	bvals := make([]*Val, len(args))
	params := map[string]sv{}
	var atys []types.Type
	for i, p := range fn.Params {
		atys = append(atys, p.Type())
		srt := sortOf(p.Type())
		name := "arg" + fmt.Sprint(i)
		if srt == sSlice {
			off := BV(name+"o", sInt)
			if args[i].T != nil && sliceOff(args[i].T) == Int(0) {
				off = Int(0)
			}
			bvals[i] = &Val{T: MkDT(sSlice, BV(name+"r", sInt), off, BV(name+"l", sInt))}
		} else {
			bvals[i] = &Val{T: BV(name, srt)}
		}
		params[p.Name()] = sv{t: p.Type(), v: bvals[i]}
	}
	x.aliasParams(params, fn)
	res := x.pureApp(st, "contract:"+c.Key, bvals, atys, sig)
	for _, en := range c.Ensures {
		if usesCalls(en.Expr) {
			continue
		}
		t := x.evalClause(en, &specCtx{x: x, st: st, old: pre, params: params, res: res, resT: sig.Results()})
		var bvs []*Term
		for s := range det(t.symbols()) {
			if s.Op == "var" {
				bvs = append(bvs, s)
			}
		}
		sort.Slice(bvs, func(i, j int) bool { return bvs[i].Name < bvs[j].Name })
		key := varNum.ReplaceAllString(t.String(), "?")
		if x.bound == nil {
			x.bound = map[string]bool{}
		}
		if x.bound[key] {
			continue
		}
		x.bound[key] = true
		t = Forall(bvs, t)
		ax := &Axiom{Name: fmt.Sprintf("contract of %s #%d", c.Key, len(x.bound)), term: t}
		_, apps, _, _ := collect([]*Term{t})
		for n := range det(apps) {
			if strings.HasPrefix(n, "contract:"+c.Key) {
				ax.apps = append(ax.apps, n)
			}
		}
		x.axioms = append(x.axioms, ax)
	}
}

var varNum = regexp.MustCompile(`\?[0-9]+`)

// usesCalls: clauses about recorded calls are not assumed at call sites
// (the emits clauses are used instead).
func usesCalls(e ast.Expr) bool {
	found := false
	ast.Inspect(e, func(n ast.Node) bool {
		if c, ok := n.(*ast.CallExpr); ok {
			if id, ok := c.Fun.(*ast.Ident); ok && (id.Name == "allcalls" || id.Name == "somecall" || id.Name == "onlycalls") {
				found = true
			}
		}
		return true
	})
	return found
}

func (x *Exec) applyEmits(st, pre *State, c *Contract, params map[string]sv, vals []*Val, sig *types.Signature, pos token.Pos) []Ret {
	hasErr := len(vals) > 0 && types.IsInterface(sig.Results().At(len(vals)-1).Type())
	states := []*State{st}
	okSt := st
	var errSt *State
	if hasErr {
		errSt = st.copy()
		e := vals[len(vals)-1].T
		if len(c.Ensures) > 0 { // otherwise nothing else is known of the result, which the caller sees as nil
			okSt.assume(Eq(e, Int(0)))
		}
		errSt.assume(Not(Eq(e, Int(0))))
		states = []*State{okSt, errSt}
		if errSt.dead() && e.Op == "const" && e != Int(0) {
			// the contract rules an error out: not a condition of the path
			z := Eq(e, Int(0))
			for i, p := range okSt.pc {
				if p.T == z {
					okSt.pc[i].WF, okSt.pc[i].Path = true, true
				}
			}
		}
	}
	var errAlts []*Term
	for _, em := range c.Emits {
		var bv []*Term
		var tys []types.Type
		for i, nm := range em.Names {
			ty := x.specType(em.Types[i], c.Pkg)
			bv = append(bv, BV(nm, sortOf(ty)))
			tys = append(tys, ty)
		}
		x.mute++
		ev := st.copy()
		sc := &specCtx{x: x, st: ev, old: pre, params: params, pkg: c.Pkg}
		sink, args, where, with := x.emitParts(c, em, sc, bv, tys)
		x.mute--
		var atys []types.Type
		fsig := sink.t.Underlying().(*types.Signature)
		if em.With != nil {
			// one argument per call, chosen by the callee: a function of the
			// call site, the arguments and the binders
			var ts []*Term
			for _, p := range c.fn.Params {
				if v := params[p.Name()].v; v.T != nil {
					ts = append(ts, v.T)
				}
			}
			ts = append(ts, bv...)
			for i := range args {
				if args[i] != nil {
					continue
				}
				pt := fsig.Params().At(i).Type()
				nm := fmt.Sprintf("chosen%d!%s@%s", i, clean(c.Key), clean(x.cur.Key+x.cur.Variant)+x.site(pos))
				v := &Val{T: App(nm, sortOf(pt), ts...)}
				if isPtr(pt) && isStruct(derefType(pt)) {
					v.Snap = App(nm+".snap", sortOf(derefType(pt)), ts...)
					v.SnapTy = derefType(pt)
				}
				args[i] = v
			}
			if sink.v.Fn != nil {
				panic(unsupported("emits with a fresh argument on a known function"))
			}
			x.mute++
			st.assume(Forall(bv, Imp(where, with(args, ev))))
			if errSt != nil {
				errSt.assume(Forall(bv, Imp(where, with(args, ev))))
			}
			x.mute--
		}
		for i := 0; i < fsig.Params().Len(); i++ {
			atys = append(atys, fsig.Params().At(i).Type())
		}
		eT := Int(0)
		if hasErr {
			eT = vals[len(vals)-1].T
		}
		addDelta := func(d *Delta, okGuard *Term) {
			okSt.log = append(okSt.log, d)
			if errSt != nil {
				nd := *d
				nd.May = true
				errSt.log = append(errSt.log, &nd)
			}
		}
		if sink.v.Fn == nil {
			ev := &Event{Sink: x.termOf(sink.v), Args: args, ATy: atys}
			addDelta(&Delta{BV: bv, Cond: where, Ev: ev}, nil)
			if hasErr && fsig.Results().Len() > 0 {
				rv := x.unknownCall(st.copy(), x.termOf(sink.v), args, fsig)[0].vals[fsig.Results().Len()-1].T
				okSt.assume(Forall(bv, Imp(where, Eq(rv, Int(0)))))
				errAlts = append(errAlts, Exists(bv, And(where, Eq(rv, eT))))
			}
			continue
		}
		// known closure: its effect for arbitrary arguments
		x.mute++
		s2 := st.copy()
		s2.upd = nil
		n := len(s2.pc)
		ln := len(s2.log)
		g0 := freshN
		rets := x.callFn(s2, sink.v.Fn.Fn, args, sink.v.Fn.Bind, token.NoPos)
		x.mute--
		expr := func(t *Term) bool {
			for s := range det(t.symbols()) {
				if g, ok := symGen[s]; ok && g > g0 && s.Op == "const" {
					return false
				}
			}
			return true
		}
		var okAlts []*Term
		type emitted struct {
			d    *Delta // condition within the call
			cond *Term  // condition of the path
			alt  int    // number of the alternative without an error
		}
		var ems []emitted
		for _, r := range rets {
			full := true
			var cs []*Term
			for _, p := range r.st.pc[n:] {
				if p.WF {
					continue
				}
				if expr(p.T) {
					cs = append(cs, p.T)
				} else {
					full = false
					if os.Getenv("GVC_DEBUG") != "" {
						fmt.Fprintf(os.Stderr, "emits of %s: condition not expressible: %s\n", c.Key, p.T)
					}
				}
			}
			cond := And(cs...)
			never := false
			if hasErr && len(r.vals) > 0 {
				rt := r.vals[len(r.vals)-1].T
				never = neverNil(rt)
				nn := Not(Eq(rt, Int(0)))
				for _, p := range r.st.pc {
					never = never || p.T == nn
				}
			}
			if full && hasErr && len(r.vals) > 0 {
				rt := r.vals[len(r.vals)-1].T
				if expr(rt) {
					okAlts = append(okAlts, And(cond, Eq(rt, Int(0))))
					errAlts = append(errAlts, Exists(bv, And(where, cond, Not(Eq(rt, Int(0))))))
				} else if never {
					errAlts = append(errAlts, Exists(bv, And(where, cond)))
				} else {
					okAlts = append(okAlts, cond)
					errAlts = append(errAlts, Exists(bv, And(where, cond)))
				}
			} else if hasErr {
				if !never {
					okAlts = append(okAlts, tTrue)
				}
				errAlts = append(errAlts, tTrue)
			}
			alt := -1
			if full && hasErr && len(okAlts) > 0 && okAlts[len(okAlts)-1] == cond {
				alt = len(okAlts) - 1
			}
			lc := &loopCtx{x: x, gen0: g0, iterSym: Int(0)}
			for _, d := range r.st.log[ln:] {
				nd, ok := lc.eventAt(d)
				if !ok {
					if os.Getenv("GVC_DEBUG") != "" {
						fmt.Fprintf(os.Stderr, "emits of %s: event not expressible: %s / %s\n", c.Key, d.Cond, d.Ev.Sink)
					}
					okSt.log = append(okSt.log, &Delta{Cond: tTrue, Ev: &Event{Sink: Const("sink:?", sInt), Name: "?"}, May: true})
					continue
				}
				nd = &Delta{BV: append(append([]*Term{}, bv...), nd.BV...), Cond: And(where, nd.Cond), Ev: nd.Ev, May: nd.May || !full}
				ems = append(ems, emitted{nd, cond, alt})
			}
		}
		for _, e := range ems {
			full := *e.d
			full.Cond = And(e.d.Cond, e.cond)
			if e.alt == 0 && len(okAlts) == 1 {
				// without an error this is the only way the calls went
				okSt.log = append(okSt.log, e.d)
			} else {
				okSt.log = append(okSt.log, &full)
			}
			if errSt != nil {
				nd := full
				nd.May = true
				errSt.log = append(errSt.log, &nd)
			}
		}
		if hasErr {
			okSt.assume(Forall(bv, Imp(where, Or(okAlts...))))
		}
	}
	if errSt != nil && len(errAlts) > 0 {
		errSt.assume(Or(errAlts...))
	}
	var out []Ret
	for i, s := range states {
		if s.dead() {
			continue
		}
		nv := append([]*Val{}, vals...)
		if hasErr && i == 0 {
			nv[len(nv)-1] = &Val{T: Int(0)}
		}
		out = append(out, Ret{s, nv})
	}
	return out
}

// site names a call site, the inlined calls leading to it included.
func (x *Exec) site(pos token.Pos) string {
	s := x.pos(pos)
	for _, p := range x.chain {
		s += "<" + x.pos(p)
	}
	return clean(s)
}

// modHeaps: memory components the function may write.
func (x *Exec) modHeaps(c *Contract) map[string]bool {
	if m, ok := x.modCache[c.Key]; ok {
		return m
	}
	if c.busy {
		return map[string]bool{}
	}
	c.busy = true
	defer func() { c.busy = false }()
	m := map[string]bool{}
	x.mute++
	saveCur, saveEntry, saveDepth := x.cur, x.entry, x.depth
	x.noLoops = true
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(unsupportedErr); !ok {
					panic(r)
				}
			}
		}()
		st := x.newState()
		var args []*Val
		for _, p := range c.fn.Params {
			args = append(args, &Val{T: Const("p."+p.Name(), sortOf(p.Type()))})
		}
		x.entry = st.copy()
		x.depth = 0
		for _, r := range x.run(c.fn, args, nil, st, true) {
			for k, v := range det(r.st.heap) {
				if !onlyLocals(v, Const("H0:"+k, heapSorts[k])) {
					m[k] = true
				}
			}
		}
	}()
	x.noLoops = false
	x.cur, x.entry, x.depth = saveCur, saveEntry, saveDepth
	x.mute--
	for _, k := range c.Modifies {
		if k != "*" && heapSorts[k] != nil {
			m[k] = true
		}
	}
	x.modCache[c.Key] = m
	return m
}
