// c17 lints random files with every rule and compares the reported positions
// with an oracle that looks at the generated elements, not at the parse tree.
package main

import (
	"fmt"
	"math/rand"
	"path/filepath"
	"regexp"
	"sort"
	"strings"

	"github.com/emicklei/proto"
	"github.com/uber/prototool/internal/file"
	"github.com/uber/prototool/internal/lint"
	"github.com/uber/prototool/internal/settings"

	"github.com/uber/prototool/internal/zverif/hz"
)

type opt struct{ name, value string }

// el is one generated element.
type el struct {
	kind      string
	name      string
	line, col int
	lead      []string // comment lines above, without the slashes
	cstyle    bool     // the comment above is /* */
	inline    int      // 0 none, 1 // 2 /* */
	inlineCol int
	typ       string
	number    int
	opts      []opt // in brackets
	kids      []*el
	names     []string // reserved
	value     string   // option, import, syntax
	importMod string
	streamReq bool
	streamRes bool
	req, res  string
	up        *el
}

type fileT struct {
	name   string
	text   string
	header bool
	loose  map[int]bool // lines whose columns are not compared
	els    []*el
}

type gen struct {
	r     *rand.Rand
	b     strings.Builder
	line  int
	count int
	loose map[int]bool
}

func (g *gen) p(n int) bool             { return g.r.Intn(n) == 0 }
func (g *gen) pick(ss ...string) string { return ss[g.r.Intn(len(ss))] }
func (g *gen) ln(s string)              { g.b.WriteString(s + "\n"); g.line++ }
func (g *gen) uniq(n string) string     { return n }
func (g *gen) next() int                { g.count++; return g.count }
func (g *gen) indent(depth int) string  { return strings.Repeat("  ", depth) }
func (g *gen) typeName() string {
	return g.pick("Foo", "FooBar", "foo", "Foo_bar", "HelloRequest", "HelloResponse", "PingRequest", "PingResponse", "CommonThing", "UserData", "UUID", "Foo2", "fooBar")
}
func (g *gen) fieldName() string {
	return g.pick("foo", "foo_bar", "fooBar", "Foo", "_foo", "foo_", "file_name", "my_file_name_x", "file_path", "filename", "descriptor", "_descriptor", "Descriptor__", "descriptors", "duration", "my_duration", "duration_x", "time", "start_time", "timeout", "sometime", "data", "common_id", "uuid", "foo2", "FOO")
}
func (g *gen) fieldType() string {
	return g.pick("int64", "string", "float", "double", "google.protobuf.Duration", "google.protobuf.Timestamp", "Foo", "float", "foo.Float", ".google.protobuf.Duration")
}
func (g *gen) valueName() string {
	return g.pick("FOO", "FOO_INVALID", "FOO_BAR_INVALID", "FOO_BAR_A", "FOO_FOO_INVALID", "foo", "Foo", "FOO_", "INVALID", "FOO_BAR_FOO_INVALID", "FOO_DATA", "A1", "_A", "FOO_FOO_A", "HELLO_REQUEST_FOO_INVALID", "FOO2_INVALID", "FOO_BAR_FOO_A")
}

// comment writes an optional comment above an element.
func (g *gen) comment(e *el, ind string) {
	if e.kind == "option" && e.up != nil && (e.up.kind == "enum" || e.up.kind == "rpc") {
		// the parser takes a comment there for one of its own
		g.ln("")
		return
	}
	first := ""
	switch g.r.Intn(9) {
	case 0, 1, 2:
		g.ln("")
		return
	case 3:
		first = " " + e.name + " is a thing"
	case 4:
		first = " " + e.name
	case 5:
		first = e.name + " does it."
	case 6:
		first = g.pick(" A sentence.", " a sentence.", " 1st.", " Éa.", " éa.", " \u0139x", "  Indented. ", " ", " .", " \u00df.", " \u01c5.", " (x).", " Ünix")
	case 7:
		first = " " + e.name + " ends."
	case 8:
		first = " Nothing"
	}
	lines := []string{first}
	for g.p(3) {
		lines = append(lines, g.pick(" more", " more.", "", " Upper"))
	}
	// the parser does not count a last line that is only the end of a comment
	for lines[len(lines)-1] == "" && len(lines) > 1 {
		lines = lines[:len(lines)-1]
	}
	// a free comment must not run into it
	g.ln("")
	if g.p(4) {
		e.cstyle = true
		if len(lines) == 1 {
			g.ln(ind + "/*" + lines[0] + "*/")
		} else {
			g.ln(ind + "/*" + lines[0])
			for i, l := range lines[1:] {
				if i == len(lines)-2 {
					g.ln(l + "*/")
				} else {
					g.ln(l)
				}
			}
		}
	} else {
		for _, l := range lines {
			g.ln(ind + "//" + l)
		}
	}
	e.lead = lines
}

// stmt writes a one-line element.
func (g *gen) stmt(e *el, ind, text string) {
	g.comment(e, ind)
	e.line, e.col = g.line+1, len(ind)+1
	if strings.HasPrefix(e.typ, ".") && e.kind != "map" {
		// the parser's position is before or after the dot
		g.loose[e.line] = true
	}
	if g.p(6) {
		e.inlineCol = len(ind) + len(text) + 2
		if g.p(2) {
			e.inline = 1
			text += " // inline"
		} else {
			e.inline = 2
			text += " /* inline */"
		}
	}
	g.ln(ind + text)
	if e.inline != 0 {
		g.ln("")
	}
}

func (g *gen) brackets(e *el) string {
	if !g.p(4) {
		return ""
	}
	e.opts = append(e.opts, opt{g.pick("deprecated", "json_name", "(common_opt)", "(my.data)", "packed", "allow_alias"), "true"})
	if g.p(3) {
		e.opts = append(e.opts, opt{g.pick("(x.uuid_one)", "jstype", "(json_name)"), "true"})
	}
	var s []string
	for i := range e.opts {
		if e.opts[i].name == "json_name" {
			e.opts[i].value = `"x"`
		}
		s = append(s, e.opts[i].name+" = "+e.opts[i].value)
	}
	return " [" + strings.Join(s, ", ") + "]"
}

func (g *gen) option(up *el, depth int) *el {
	e := &el{kind: "option", up: up}
	e.name = g.pick("deprecated", "allow_alias", "(google.api.http)", "(.google.api.http)", "(google.api.http).get", "(my.common).x", "(foo.google.api.http)", "(google.api.https)", "map_entry")
	e.value = "true"
	v := e.value
	if g.p(5) && strings.HasPrefix(e.name, "(") && !strings.Contains(e.name, ").") {
		v = `{ get: "/v1" }`
	}
	g.stmt(e, g.indent(depth), "option "+e.name+" = "+v+";")
	return e
}

func (g *gen) free(up *el, depth int) *el {
	e := &el{kind: "comment", up: up}
	g.ln("")
	e.line, e.col = g.line+1, len(g.indent(depth))+1
	if g.p(2) {
		e.cstyle = true
		g.ln(g.indent(depth) + "/* Free. */")
	} else {
		g.ln(g.indent(depth) + "// Free.")
	}
	g.ln("")
	return e
}

func (g *gen) enum(up *el, depth int) *el {
	e := &el{kind: "enum", name: g.typeName(), up: up}
	ind := g.indent(depth)
	g.comment(e, ind)
	e.line, e.col = g.line+1, len(ind)+1
	g.ln(ind + "enum " + e.name + " {")
	n := 1 + g.r.Intn(3)
	for i := 0; i < n; i++ {
		f := &el{kind: "enumfield", name: g.valueName(), up: e, number: g.r.Intn(3)}
		g.stmt(f, g.indent(depth+1), fmt.Sprintf("%s = %d%s;", f.name, f.number, g.brackets(f)))
		e.kids = append(e.kids, f)
		if g.p(4) {
			e.kids = append(e.kids, g.option(e, depth+1))
		}
		if g.p(5) {
			e.kids = append(e.kids, g.reserved(e, depth+1))
		}
		if g.p(9) {
			e.kids = append(e.kids, g.free(e, depth+1))
		}
	}
	g.ln(ind + "}")
	return e
}

func (g *gen) reserved(up *el, depth int) *el {
	e := &el{kind: "reserved", up: up}
	text := "reserved 8, 10 to 12;"
	if g.p(2) {
		e.names = []string{g.fieldName()}
		if g.p(2) {
			e.names = append(e.names, g.fieldName())
		}
		var q []string
		for _, n := range e.names {
			q = append(q, `"`+n+`"`)
		}
		text = "reserved " + strings.Join(q, ", ") + ";"
	}
	g.stmt(e, g.indent(depth), text)
	return e
}

func (g *gen) oneof(up *el, depth, left int) *el {
	e := &el{kind: "oneof", name: g.fieldName(), up: up}
	ind := g.indent(depth)
	g.comment(e, ind)
	e.line, e.col = g.line+1, len(ind)+1
	g.ln(ind + "oneof " + e.name + " {")
	for i := 1 + g.r.Intn(2); i > 0; i-- {
		if left > 0 && g.p(5) {
			e.kids = append(e.kids, g.body("group", e, depth+1, left-1))
			continue
		}
		f := &el{kind: "oneoffield", name: g.fieldName(), typ: g.fieldType(), up: e}
		g.stmt(f, g.indent(depth+1), fmt.Sprintf("%s %s = %d%s;", f.typ, f.name, g.next(), g.brackets(f)))
		e.kids = append(e.kids, f)
	}
	g.ln(ind + "}")
	return e
}

// body writes a message, an extension or a group.
func (g *gen) body(kind string, up *el, depth, left int) *el {
	e := &el{kind: kind, name: g.typeName(), up: up}
	ind := g.indent(depth)
	g.comment(e, ind)
	e.line, e.col = g.line+1, len(ind)+1
	switch {
	case kind == "group" && up.kind == "oneof":
		g.ln(ind + fmt.Sprintf("group %s = %d {", e.name, g.next()))
	case kind == "group":
		g.ln(ind + fmt.Sprintf("optional group %s = %d {", e.name, g.next()))
		e.col += len("optional ")
	default:
		g.ln(ind + kind + " " + e.name + " {")
	}
	n := g.r.Intn(4)
	if depth == 0 && n > 0 {
		n++
	}
	for i := 0; i < n; i++ {
		var k *el
		c := g.r.Intn(14)
		if kind == "extend" {
			// only fields and groups are legal there
			c = []int{0, 8, 0, 13}[g.r.Intn(4)]
		}
		switch c {
		case 0, 1, 2, 3:
			k = &el{kind: "field", name: g.fieldName(), typ: g.fieldType(), up: e}
			label := g.pick("optional ", "repeated ", "")
			g.stmt(k, g.indent(depth+1), fmt.Sprintf("%s%s %s = %d%s;", label, k.typ, k.name, g.next(), g.brackets(k)))
			k.col += len(label) // the parser's position of a field is that of its type
		case 4:
			k = &el{kind: "map", name: g.fieldName(), typ: g.fieldType(), up: e}
			g.stmt(k, g.indent(depth+1), fmt.Sprintf("map<string, %s> %s = %d%s;", k.typ, k.name, g.next(), g.brackets(k)))
		case 5:
			k = g.oneof(e, depth+1, left)
		case 6, 7:
			if left > 0 {
				k = g.body("message", e, depth+1, left-1)
			}
		case 8:
			if left > 0 {
				k = g.body("group", e, depth+1, left-1)
			}
		case 9:
			if left > 0 {
				k = g.body("extend", e, depth+1, left-1)
			}
		case 10:
			k = g.enum(e, depth+1)
		case 11:
			k = g.reserved(e, depth+1)
		case 12:
			k = g.option(e, depth+1)
		case 13:
			if g.p(2) && kind != "extend" {
				k = &el{kind: "extensions", up: e}
				g.stmt(k, g.indent(depth+1), "extensions 100 to 199;")
			} else {
				k = g.free(e, depth+1)
			}
		}
		if k != nil {
			e.kids = append(e.kids, k)
		}
	}
	g.ln(ind + "}")
	return e
}

func (g *gen) service() *el {
	e := &el{kind: "service", name: g.pick("Foo", "FooAPI", "foo", "FooService", "Foo_API", "OrdersAPI", "OrderAPI", "USERSAPI", "DataAPI", "HelloWorld", "TripsUsers")}
	g.comment(e, "")
	e.line, e.col = g.line+1, 1
	g.ln("service " + e.name + " {")
	for i := g.r.Intn(4); i > 0; i-- {
		if g.p(5) {
			e.kids = append(e.kids, g.option(e, 1))
			continue
		}
		m := &el{kind: "rpc", name: g.pick("Hello", "Ping", "ping", "Hello_x", "GetData"), up: e}
		m.req = g.pick(m.name+"Request", "HelloRequest", "Foo", "Foo.HelloRequest", "FooBar", "other.Msg", "Foo.FooBar", "FooBar.Foo.Foo")
		m.res = g.pick(m.name+"Response", "HelloResponse", "Foo", "HelloRequest", "PingResponse", "Foo.Foo")
		m.streamReq, m.streamRes = g.p(5), g.p(5)
		s := func(b bool) string {
			if b {
				return "stream "
			}
			return ""
		}
		head := fmt.Sprintf("rpc %s(%s%s) returns (%s%s)", m.name, s(m.streamReq), m.req, s(m.streamRes), m.res)
		if g.p(2) {
			g.stmt(m, "  ", head+";")
		} else {
			g.comment(m, "  ")
			m.line, m.col = g.line+1, 3
			g.ln("  " + head + " {")
			for j := g.r.Intn(3); j > 0; j-- {
				m.kids = append(m.kids, g.option(m, 2))
			}
			g.ln("  }")
		}
		e.kids = append(e.kids, m)
	}
	g.ln("}")
	return e
}

// packages and what the rules expect of the options for them
type pkgT struct {
	name                                string
	csharp, gov1, gov2, java, objc, php string
	lower, lowerSnake, versioned        bool
	keywords                            int
}

var pkgs = []pkgT{
	{"foo.bar.v1", "Foo.Bar.V1", "v1pb", "barv1", "com.foo.bar.v1", "FBX", `Foo\\Bar\\V1`, true, true, true, 0},
	{"foo.bar.v1beta2", "Foo.Bar.V1Beta2", "v1beta2pb", "barv1beta2", "com.foo.bar.v1beta2", "FBX", `Foo\\Bar\\V1Beta2`, true, true, true, 0},
	{"foo", "Foo", "foopb", "foopb", "com.foo", "FXX", "Foo", true, true, false, 0},
	{"foo.std.public", "Foo.Std.Public", "publicpb", "publicpb", "com.foo.std.public", "FSP", `Foo\\Std\\Public`, true, true, false, 2},
	{"foo_a.bar", "", "barpb", "", "com.foo_a.bar", "", "", false, true, false, 0},
	{"Foo.Internal.v0", "", "v0pb", "", "com.Foo.Internal.v0", "", "", false, false, false, 1},
	{"my.common.v2", "My.Common.V2", "v2pb", "commonv2", "com.my.common.v2", "MCX", `My\\Common\\V2`, true, true, true, 0},
}

func (g *gen) file(name string) *fileT {
	f := &fileT{name: name}
	g.b.Reset()
	g.line, g.count, g.loose = 0, 0, map[int]bool{}
	if f.header = g.p(2); f.header {
		g.ln("// Header")
		g.ln("")
	}
	var kinds []string
	for _, k := range []string{"syntax", "package"} {
		if !g.p(8) {
			kinds = append(kinds, k)
		}
	}
	for i := g.r.Intn(3); i > 0; i-- {
		kinds = append(kinds, "import")
	}
	seen := map[string]bool{}
	for i := g.r.Intn(6); i > 0; i-- {
		kinds = append(kinds, "fileoption")
	}
	rest := []string{}
	for i := 1 + g.r.Intn(6); i > 0; i-- {
		rest = append(rest, g.pick("message", "message", "message", "enum", "service", "extend", "comment", "message"))
	}
	kinds = append(kinds, rest...)
	tops := map[string]bool{}
	for _, k := range kinds {
		var e *el
		switch k {
		case "syntax":
			e = &el{kind: k, value: g.pick("proto3", "proto2", "proto3")}
			g.stmt(e, "", `syntax = "`+e.value+`";`)
		case "package":
			e = &el{kind: k, name: pkgs[g.r.Intn(len(pkgs))].name}
			g.stmt(e, "", "package "+e.name+";")
		case "import":
			e = &el{kind: k, importMod: g.pick("", "", "public", "weak"), value: g.pick("a.proto", "google/protobuf/timestamp.proto", "x/google/protobuf/timestamp.proto", "vendor/google/protobuf/any.proto", "gogo.proto", "github.com/gogo/gogo.proto", "gogo.proto.x", "mygoogle/protobuf/duration.proto", "google/protobuf/timestamp.protox")}
			sp := ""
			if e.importMod != "" {
				sp = e.importMod + " "
			}
			g.stmt(e, "", "import "+sp+`"`+e.value+`";`)
		case "fileoption":
			e = &el{kind: "option"}
			e.name = g.pick("csharp_namespace", "go_package", "java_multiple_files", "java_outer_classname", "java_package", "objc_class_prefix", "php_namespace", "ruby_package", "cc_enable_arenas", "(my.common)", "allow_alias", "(.google.api.http)")
			if seen[e.name] {
				continue
			}
			seen[e.name] = true
			p := pkgs[g.r.Intn(len(pkgs))]
			if len(f.els) > 0 && g.p(2) {
				for _, o := range f.els {
					if o.kind == "package" {
						p = pkgOf(o.name)
					}
				}
			}
			quoted := true
			switch e.name {
			case "csharp_namespace":
				e.value = p.csharp
			case "go_package":
				e.value = g.pick(p.gov1, p.gov2, "a/b;"+p.gov1, "x")
			case "java_multiple_files":
				e.value = g.pick("true", "false", "true")
				quoted = false
			case "java_outer_classname":
				e.value = g.pick("AProto", "BarBazProto", "Foo")
			case "java_package":
				e.value = g.pick(p.java, p.java, "org"+strings.TrimPrefix(p.java, "com"), p.name)
			case "objc_class_prefix":
				e.value = p.objc
			case "php_namespace":
				e.value = p.php
			case "ruby_package":
				e.value = "Foo"
			default:
				e.value, quoted = "true", false
			}
			v := e.value
			if quoted {
				v = `"` + v + `"`
			}
			g.stmt(e, "", "option "+e.name+" = "+v+";")
		case "comment":
			e = g.free(nil, 0)
		case "enum":
			e = g.enum(nil, 0)
		case "service":
			e = g.service()
		default:
			e = g.body(k, nil, 0, 3)
		}
		if (k == "message" || k == "enum" || k == "service") && tops[e.name] {
			// not a legal file: drop it
			return nil
		}
		if k == "message" || k == "enum" || k == "service" {
			tops[e.name] = true
		}
		f.els = append(f.els, e)
	}
	f.text, f.loose = g.b.String(), g.loose
	if dup(f.els) {
		return nil
	}
	return f
}

// dup says whether two sibling types share a name; such a file is not legal.
func dup(els []*el) bool {
	seen := map[string]bool{}
	var scope func(els []*el) bool
	scope = func(els []*el) bool {
		for _, e := range els {
			switch e.kind {
			case "message", "enum", "group":
				if seen[e.name] {
					return true
				}
				seen[e.name] = true
			case "oneof", "extend":
				// what they hold is in the scope around them
				if scope(e.kids) {
					return true
				}
			}
		}
		return false
	}
	if scope(els) {
		return true
	}
	for _, e := range els {
		switch e.kind {
		case "message", "group":
			if dup(e.kids) {
				return true
			}
		case "oneof", "extend":
			for _, k := range e.kids {
				if k.kind == "group" && dup(k.kids) || k.kind == "message" && dup(k.kids) {
					return true
				}
			}
		}
	}
	return false
}

func pkgOf(n string) pkgT {
	for _, p := range pkgs {
		if p.name == n {
			return p
		}
	}
	panic(n)
}

// ---- the oracle ----

type loc struct {
	file      string
	line, col int
}

type dir []*fileT

func (f *fileT) walk(fn func(e *el)) {
	var rec func(es []*el)
	rec = func(es []*el) {
		for _, e := range es {
			fn(e)
			rec(e.kids)
		}
	}
	rec(f.els)
}

// each flags the elements of some kinds for which bad holds.
func each(kinds string, bad func(f *fileT, e *el) bool) func(dir) []loc {
	ks := map[string]bool{}
	for _, k := range strings.Fields(kinds) {
		ks[k] = true
	}
	return func(d dir) []loc {
		var out []loc
		for _, f := range d {
			f.walk(func(e *el) {
				if ks[e.kind] && bad(f, e) {
					out = append(out, loc{f.name, e.line, e.col})
				}
			})
		}
		return out
	}
}

var (
	camel      = regexp.MustCompile(`^[A-Za-z0-9]+$`)
	lowerSnake = regexp.MustCompile(`^[a-z0-9]([a-z0-9_]*[a-z0-9])?$`)
	upperSnake = regexp.MustCompile(`^[A-Z0-9]([A-Z0-9_]*[A-Z0-9])?$`)
	capital    = regexp.MustCompile(`^[A-Z]`)
	golang     = func(e *el) bool { return len(e.lead) > 0 && strings.HasPrefix(e.lead[0], " "+e.name+" ") }
	upperFirst = map[string]bool{}
)

var snakes = map[string]string{"Foo": "foo", "FooBar": "foo_bar", "foo": "foo", "Foo_bar": "foo_bar", "HelloRequest": "hello_request", "HelloResponse": "hello_response", "PingRequest": "ping_request", "PingResponse": "ping_response", "CommonThing": "common_thing", "UserData": "user_data", "UUID": "uuid", "Foo2": "foo2", "fooBar": "foo_bar",
	"FooAPI": "foo_api", "FooService": "foo_service", "Foo_API": "foo_api", "OrdersAPI": "orders_api", "OrderAPI": "order_api", "USERSAPI": "usersapi", "DataAPI": "data_api", "HelloWorld": "hello_world", "TripsUsers": "trips_users"}

func sentence(e *el) bool {
	if len(e.lead) == 0 {
		return false
	}
	l := strings.TrimSpace(e.lead[0])
	if e.cstyle {
		// the last line of a C comment may carry trailing blanks of its own
		l = strings.TrimSpace(l)
	}
	if l == "" {
		return false
	}
	r := []rune(l)[0]
	if !(r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == 'É' || r == 'Ü' || r == '\u0139') {
		return false
	}
	for _, l := range e.lead {
		if strings.Contains(l, ".") {
			return true
		}
	}
	return false
}

func scope(e *el, sep string, f func(string) string) string {
	var parts []string
	for u := e.up; u != nil; u = u.up {
		switch u.kind {
		case "message", "enum", "group", "extend":
			parts = append([]string{f(u.name)}, parts...)
		}
	}
	return strings.Join(parts, sep)
}

func upper(n string) string {
	s, ok := snakes[n]
	if !ok {
		panic(n)
	}
	return strings.ToUpper(s)
}

func full(e *el) string {
	if s := scope(e, ".", func(s string) string { return s }); s != "" {
		return s + "." + e.name
	}
	return e.name
}

func rpcs(f *fileT) []*el {
	var out []*el
	f.walk(func(e *el) {
		if e.kind == "rpc" {
			out = append(out, e)
		}
	})
	return out
}

func isReqRes(f *fileT, name string) bool {
	for _, r := range rpcs(f) {
		if r.req == name || r.res == name {
			return true
		}
	}
	return false
}

func fields(e *el) int {
	n := 0
	for _, k := range e.kids {
		switch k.kind {
		case "field", "map", "oneoffield", "group":
			n++
		case "oneof":
			n += fields(k)
		}
	}
	return n
}

// the file option called name, and the package
func (f *fileT) opt(name string) *el {
	for _, e := range f.els {
		if e.kind == "option" && e.name == name {
			return e
		}
	}
	return nil
}

func (f *fileT) one(kind string) *el {
	for _, e := range f.els {
		if e.kind == kind {
			return e
		}
	}
	return nil
}

func optEqual(name string, want func(f *fileT, p pkgT) string) func(dir) []loc {
	return func(d dir) []loc {
		var out []loc
		for _, f := range d {
			o, p := f.opt(name), f.one("package")
			if o == nil || p == nil {
				continue
			}
			w := want(f, pkgOf(p.name))
			if w == "" {
				continue // unknown to the oracle; see skip
			}
			if w != o.value {
				out = append(out, loc{f.name, o.line, o.col})
			}
		}
		return out
	}
}

func fileLevel(bad func(f *fileT) bool) func(dir) []loc {
	return func(d dir) []loc {
		var out []loc
		for _, f := range d {
			if bad(f) {
				out = append(out, loc{f.name, 0, 0})
			}
		}
		return out
	}
}

func sameInDir(value func(f *fileT) (string, bool)) func(dir) []loc {
	return func(d dir) []loc {
		vals := map[string]bool{}
		for _, f := range d {
			if v, ok := value(f); ok {
				vals[v] = true
			}
		}
		var out []loc
		if len(vals) > 1 {
			for _, f := range d {
				out = append(out, loc{f.name, 0, 0})
			}
		}
		return out
	}
}

func comments(all bool) func(dir) []loc {
	return func(d dir) []loc {
		var out []loc
		for _, f := range d {
			f.walk(func(e *el) {
				if all {
					if e.cstyle {
						out = append(out, loc{f.name, e.line, e.col})
					}
					if e.inline == 2 {
						out = append(out, loc{f.name, e.line, e.col})
					}
				} else if e.inline != 0 {
					out = append(out, loc{f.name, e.line, e.inlineCol})
				}
			})
		}
		return out
	}
}

func outlawed(word string) func(dir) []loc {
	has := func(s string) bool { return strings.Contains(strings.ToLower(s), word) }
	return func(d dir) []loc {
		var out []loc
		for _, f := range d {
			f.walk(func(e *el) {
				if e.kind == "reserved" {
					for _, n := range e.names {
						if has(n) {
							out = append(out, loc{f.name, e.line, e.col})
						}
					}
					return
				}
				if has(e.name) {
					out = append(out, loc{f.name, e.line, e.col})
				}
				for _, o := range e.opts {
					if has(o.name) {
						out = append(out, loc{f.name, e.line, -1})
					}
				}
			})
		}
		return out
	}
}

func reqRes(check func(f *fileT, r *el, add func(line, col int))) func(dir) []loc {
	return func(d dir) []loc {
		var out []loc
		for _, f := range d {
			for _, r := range rpcs(f) {
				check(f, r, func(l, c int) { out = append(out, loc{f.name, l, c}) })
			}
		}
		return out
	}
}

func require(name string) func(dir) []loc {
	return fileLevel(func(f *fileT) bool { return f.opt(name) == nil })
}
func unset(name string) func(dir) []loc {
	return func(d dir) []loc {
		var out []loc
		for _, f := range d {
			if o := f.opt(name); o != nil {
				out = append(out, loc{f.name, o.line, o.col})
			}
		}
		return out
	}
}
func optSame(name string) func(dir) []loc {
	return sameInDir(func(f *fileT) (string, bool) {
		if o := f.opt(name); o != nil {
			return o.value, true
		}
		return "", true
	})
}

const fieldKinds = "field map oneoffield"

func in(s string, l ...string) bool {
	for _, x := range l {
		if s == x {
			return true
		}
	}
	return false
}

func topMessage(f *fileT, name string) *el {
	for _, e := range f.els {
		if e.kind == "message" && e.name == name {
			return e
		}
	}
	return nil
}

func anyMessage(f *fileT, name string) bool {
	found := false
	f.walk(func(e *el) {
		if e.kind == "message" && full(e) == name {
			found = true
		}
	})
	return found
}

var oracle map[string]func(dir) []loc

func init() {
	isMsg := func(e *el) bool { return e.kind == "message" }
	_ = isMsg
	oracle = map[string]func(dir) []loc{
		"COMMENTS_NO_C_STYLE":                     comments(true),
		"COMMENTS_NO_INLINE":                      comments(false),
		"ENUM_FIELD_NAMES_UPPERCASE":              each("enumfield", func(f *fileT, e *el) bool { return e.name != strings.ToUpper(e.name) }),
		"ENUM_FIELD_NAMES_UPPER_SNAKE_CASE":       each("enumfield", func(f *fileT, e *el) bool { return !upperSnake.MatchString(e.name) }),
		"ENUM_FIELD_PREFIXES":                     each("enumfield", func(f *fileT, e *el) bool { return !strings.HasPrefix(e.name, scope(e, "_", upper)+"_") }),
		"ENUM_FIELD_PREFIXES_EXCEPT_MESSAGE":      each("enumfield", func(f *fileT, e *el) bool { return !strings.HasPrefix(e.name, upper(e.up.name)+"_") }),
		"ENUM_FIELDS_HAVE_COMMENTS":               each("enumfield", func(f *fileT, e *el) bool { return !golang(e) }),
		"ENUM_FIELDS_HAVE_SENTENCE_COMMENTS":      each("enumfield", func(f *fileT, e *el) bool { return !sentence(e) }),
		"ENUM_NAMES_CAMEL_CASE":                   each("enum", func(f *fileT, e *el) bool { return !camel.MatchString(e.name) }),
		"ENUM_NAMES_CAPITALIZED":                  each("enum", func(f *fileT, e *el) bool { return !capital.MatchString(e.name) }),
		"ENUM_ZERO_VALUES_INVALID":                each("enumfield", func(f *fileT, e *el) bool { return e.number == 0 && e.name != scope(e, "_", upper)+"_INVALID" }),
		"ENUM_ZERO_VALUES_INVALID_EXCEPT_MESSAGE": each("enumfield", func(f *fileT, e *el) bool { return e.number == 0 && e.name != upper(e.up.name)+"_INVALID" }),
		"ENUMS_HAVE_COMMENTS":                     each("enum", func(f *fileT, e *el) bool { return !golang(e) }),
		"ENUMS_HAVE_SENTENCE_COMMENTS":            each("enum", func(f *fileT, e *el) bool { return !sentence(e) }),
		"ENUMS_NO_ALLOW_ALIAS":                    each("option", func(f *fileT, e *el) bool { return e.name == "allow_alias" && e.up != nil && e.up.kind == "enum" }),
		"FIELDS_NOT_RESERVED":                     each("reserved", func(f *fileT, e *el) bool { return true }),
		"FILE_HEADER":                             fileLevel(func(f *fileT) bool { return !f.header }),
		"FILE_NAMES_LOWER_SNAKE_CASE": fileLevel(func(f *fileT) bool {
			return !in(filepath.Base(f.name), "a.proto", "bar_baz.proto", "foo_api.proto", "hello_world.proto")
		}),
		"FILE_OPTIONS_CSHARP_NAMESPACE_SAME_IN_DIR":       optSame("csharp_namespace"),
		"FILE_OPTIONS_EQUAL_CSHARP_NAMESPACE_CAPITALIZED": optEqual("csharp_namespace", func(f *fileT, p pkgT) string { return p.csharp }),
		"FILE_OPTIONS_EQUAL_GO_PACKAGE_V2_SUFFIX":         optEqual("go_package", func(f *fileT, p pkgT) string { return p.gov2 }),
		"FILE_OPTIONS_EQUAL_GO_PACKAGE_PB_SUFFIX":         optEqual("go_package", func(f *fileT, p pkgT) string { return p.gov1 }),
		"FILE_OPTIONS_EQUAL_JAVA_MULTIPLE_FILES_TRUE":     optEqual("java_multiple_files", func(f *fileT, p pkgT) string { return "true" }),
		"FILE_OPTIONS_EQUAL_JAVA_OUTER_CLASSNAME_PROTO_SUFFIX": optEqual("java_outer_classname", func(f *fileT, p pkgT) string {
			return map[string]string{"a.proto": "AProto", "bar_baz.proto": "BarBazProto", "foo_api.proto": "FooApiProto", "hello_world.proto": "HelloWorldProto", "Foo-x.proto": "FooXProto"}[filepath.Base(f.name)]
		}),
		"FILE_OPTIONS_EQUAL_JAVA_PACKAGE_COM_PREFIX":   optEqual("java_package", func(f *fileT, p pkgT) string { return p.java }),
		"FILE_OPTIONS_EQUAL_JAVA_PACKAGE_PREFIX":       optEqual("java_package", func(f *fileT, p pkgT) string { return "org" + strings.TrimPrefix(p.java, "com") }),
		"FILE_OPTIONS_EQUAL_OBJC_CLASS_PREFIX_ABBR":    optEqual("objc_class_prefix", func(f *fileT, p pkgT) string { return p.objc }),
		"FILE_OPTIONS_EQUAL_PHP_NAMESPACE_CAPITALIZED": optEqual("php_namespace", func(f *fileT, p pkgT) string { return p.php }),
		"FILE_OPTIONS_GO_PACKAGE_NOT_LONG_FORM": func(d dir) []loc {
			var out []loc
			for _, f := range d {
				if o := f.opt("go_package"); o != nil && strings.Contains(o.value, ";") {
					out = append(out, loc{f.name, o.line, o.col})
				}
			}
			return out
		},
		"FILE_OPTIONS_GO_PACKAGE_SAME_IN_DIR":          optSame("go_package"),
		"FILE_OPTIONS_JAVA_MULTIPLE_FILES_SAME_IN_DIR": optSame("java_multiple_files"),
		"FILE_OPTIONS_JAVA_PACKAGE_SAME_IN_DIR":        optSame("java_package"),
		"FILE_OPTIONS_OBJC_CLASS_PREFIX_SAME_IN_DIR":   optSame("objc_class_prefix"),
		"FILE_OPTIONS_PHP_NAMESPACE_SAME_IN_DIR":       optSame("php_namespace"),
		"FILE_OPTIONS_REQUIRE_CSHARP_NAMESPACE":        require("csharp_namespace"),
		"FILE_OPTIONS_REQUIRE_GO_PACKAGE":              require("go_package"),
		"FILE_OPTIONS_REQUIRE_JAVA_MULTIPLE_FILES":     require("java_multiple_files"),
		"FILE_OPTIONS_REQUIRE_JAVA_OUTER_CLASSNAME":    require("java_outer_classname"),
		"FILE_OPTIONS_REQUIRE_JAVA_PACKAGE":            require("java_package"),
		"FILE_OPTIONS_REQUIRE_OBJC_CLASS_PREFIX":       require("objc_class_prefix"),
		"FILE_OPTIONS_REQUIRE_PHP_NAMESPACE":           require("php_namespace"),
		"FILE_OPTIONS_REQUIRE_RUBY_PACKAGE":            require("ruby_package"),
		"FILE_OPTIONS_UNSET_JAVA_MULTIPLE_FILES":       unset("java_multiple_files"),
		"FILE_OPTIONS_UNSET_JAVA_OUTER_CLASSNAME":      unset("java_outer_classname"),
		"GOGO_NOT_IMPORTED":                            each("import", func(f *fileT, e *el) bool { return strings.HasSuffix(e.value, "gogo.proto") }),
		"IMPORTS_NOT_PUBLIC":                           each("import", func(f *fileT, e *el) bool { return e.importMod == "public" }),
		"IMPORTS_NOT_WEAK":                             each("import", func(f *fileT, e *el) bool { return e.importMod == "weak" }),
		"MESSAGE_FIELDS_DURATION": each("field oneoffield", func(f *fileT, e *el) bool {
			return strings.Contains(e.name, "duration") && e.typ != "google.protobuf.Duration"
		}),
		"MESSAGE_FIELDS_HAVE_COMMENTS":          each(fieldKinds, func(f *fileT, e *el) bool { return !golang(e) }),
		"MESSAGE_FIELDS_HAVE_SENTENCE_COMMENTS": each(fieldKinds, func(f *fileT, e *el) bool { return !sentence(e) }),
		"MESSAGE_FIELDS_NOT_FLOATS":             each(fieldKinds, func(f *fileT, e *el) bool { return e.typ == "float" }),
		"MESSAGE_FIELDS_NO_JSON_NAME": each(fieldKinds, func(f *fileT, e *el) bool {
			for _, o := range e.opts {
				if o.name == "json_name" {
					return true
				}
			}
			return false
		}),
		"MESSAGE_FIELDS_TIME": each("field oneoffield", func(f *fileT, e *el) bool {
			return strings.Contains(e.name, "time") && e.typ != "google.protobuf.Timestamp"
		}),
		"MESSAGE_FIELD_NAMES_FILENAME":                                  each(fieldKinds, func(f *fileT, e *el) bool { return strings.Contains(e.name, "file_name") }),
		"MESSAGE_FIELD_NAMES_FILEPATH":                                  each(fieldKinds, func(f *fileT, e *el) bool { return strings.Contains(e.name, "file_path") }),
		"MESSAGE_FIELD_NAMES_LOWER_SNAKE_CASE":                          each(fieldKinds, func(f *fileT, e *el) bool { return !lowerSnake.MatchString(e.name) }),
		"MESSAGE_FIELD_NAMES_LOWERCASE":                                 each(fieldKinds, func(f *fileT, e *el) bool { return e.name != strings.ToLower(e.name) }),
		"MESSAGE_FIELD_NAMES_NO_DESCRIPTOR":                             each(fieldKinds, func(f *fileT, e *el) bool { return in(e.name, "descriptor", "_descriptor", "Descriptor__") }),
		"MESSAGE_NAMES_CAMEL_CASE":                                      each("message", func(f *fileT, e *el) bool { return !camel.MatchString(e.name) }),
		"MESSAGE_NAMES_CAPITALIZED":                                     each("message", func(f *fileT, e *el) bool { return !capital.MatchString(e.name) }),
		"MESSAGES_HAVE_COMMENTS":                                        each("message", func(f *fileT, e *el) bool { return !golang(e) }),
		"MESSAGES_HAVE_COMMENTS_EXCEPT_REQUEST_RESPONSE_TYPES":          each("message", func(f *fileT, e *el) bool { return !golang(e) && !isReqRes(f, full(e)) }),
		"MESSAGES_HAVE_SENTENCE_COMMENTS_EXCEPT_REQUEST_RESPONSE_TYPES": each("message", func(f *fileT, e *el) bool { return !sentence(e) && !isReqRes(f, full(e)) }),
		"MESSAGES_NOT_EMPTY_EXCEPT_REQUEST_RESPONSE_TYPES":              each("message", func(f *fileT, e *el) bool { return fields(e) == 0 && !isReqRes(f, full(e)) }),
		"NAMES_NO_COMMON":                                               outlawed("common"),
		"NAMES_NO_DATA":                                                 outlawed("data"),
		"NAMES_NO_UUID":                                                 outlawed("uuid"),
		"ONEOF_NAMES_LOWER_SNAKE_CASE":                                  each("oneof", func(f *fileT, e *el) bool { return !lowerSnake.MatchString(e.name) }),
		"PACKAGE_IS_DECLARED":                                           fileLevel(func(f *fileT) bool { return f.one("package") == nil }),
		"PACKAGE_LOWER_CASE":                                            each("package", func(f *fileT, e *el) bool { return !pkgOf(e.name).lower }),
		"PACKAGE_LOWER_SNAKE_CASE":                                      each("package", func(f *fileT, e *el) bool { return !pkgOf(e.name).lowerSnake }),
		"PACKAGE_MAJOR_BETA_VERSIONED": func(d dir) []loc {
			var out []loc
			for _, f := range d {
				p := f.one("package")
				if p == nil {
					out = append(out, loc{f.name, 0, 0})
				} else if !pkgOf(p.name).versioned {
					out = append(out, loc{f.name, p.line, p.col})
				}
			}
			return out
		},
		"PACKAGE_NO_KEYWORDS": func(d dir) []loc {
			var out []loc
			for _, f := range d {
				if p := f.one("package"); p != nil {
					for i := 0; i < pkgOf(p.name).keywords; i++ {
						out = append(out, loc{f.name, p.line, p.col})
					}
				}
			}
			return out
		},
		"PACKAGES_SAME_IN_DIR": sameInDir(func(f *fileT) (string, bool) {
			if p := f.one("package"); p != nil {
				return p.name, true
			}
			return "", false
		}),
		"RPCS_HAVE_COMMENTS":          each("rpc", func(f *fileT, e *el) bool { return !golang(e) }),
		"RPCS_HAVE_SENTENCE_COMMENTS": each("rpc", func(f *fileT, e *el) bool { return !sentence(e) }),
		"RPCS_NO_STREAMING":           each("rpc", func(f *fileT, e *el) bool { return e.streamReq || e.streamRes }),
		"RPC_NAMES_CAMEL_CASE":        each("rpc", func(f *fileT, e *el) bool { return !camel.MatchString(e.name) }),
		"RPC_NAMES_CAPITALIZED":       each("rpc", func(f *fileT, e *el) bool { return !capital.MatchString(e.name) }),
		"RPC_OPTIONS_NO_GOOGLE_API_HTTP": each("option", func(f *fileT, e *el) bool {
			return e.up != nil && e.up.kind == "rpc" && in(e.name, "(google.api.http)", "(.google.api.http)", "(google.api.http).get")
		}),
		"REQUEST_RESPONSE_NAMES_MATCH_RPC": reqRes(func(f *fileT, r *el, add func(int, int)) {
			if r.req != r.name+"Request" {
				add(r.line, r.col)
			}
			if r.res != r.name+"Response" {
				add(r.line, r.col)
			}
		}),
		"REQUEST_RESPONSE_TYPES_AFTER_SERVICE": reqRes(func(f *fileT, r *el, add func(int, int)) {
			a, b := topMessage(f, r.req), topMessage(f, r.res)
			if a != nil && a.line < r.line {
				add(a.line, a.col)
			}
			if b != nil && b.line < r.line {
				add(b.line, b.col)
			}
			if a != nil && b != nil && b.line < a.line {
				add(b.line, b.col)
			}
		}),
		"REQUEST_RESPONSE_TYPES_IN_SAME_FILE": reqRes(func(f *fileT, r *el, add func(int, int)) {
			for _, t := range []string{r.req, r.res} {
				if !anyMessage(f, t) || strings.Contains(t, ".") {
					add(r.line, r.col)
				}
			}
		}),
		"REQUEST_RESPONSE_TYPES_ONLY_IN_FILE": func(d dir) []loc {
			var out []loc
			for _, f := range d {
				if len(rpcs(f)) == 0 {
					continue
				}
				for _, e := range f.els {
					if e.kind == "enum" || e.kind == "message" && !isReqRes(f, e.name) {
						out = append(out, loc{f.name, e.line, e.col})
					}
				}
			}
			return out
		},
		"REQUEST_RESPONSE_TYPES_UNIQUE": func(d dir) []loc {
			var out []loc
			for _, f := range d {
				seen := map[string]bool{}
				for _, r := range rpcs(f) {
					for _, t := range []string{r.req, r.res} {
						if seen[t] {
							out = append(out, loc{f.name, r.line, r.col})
						}
						seen[t] = true
					}
				}
			}
			return out
		},
		"SERVICES_HAVE_COMMENTS":          each("service", func(f *fileT, e *el) bool { return !golang(e) }),
		"SERVICES_HAVE_SENTENCE_COMMENTS": each("service", func(f *fileT, e *el) bool { return !sentence(e) }),
		"SERVICE_NAMES_API_SUFFIX":        each("service", func(f *fileT, e *el) bool { return !strings.HasSuffix(e.name, "API") }),
		"SERVICE_NAMES_CAMEL_CASE":        each("service", func(f *fileT, e *el) bool { return !camel.MatchString(e.name) }),
		"SERVICE_NAMES_CAPITALIZED":       each("service", func(f *fileT, e *el) bool { return !capital.MatchString(e.name) }),
		"SERVICE_NAMES_MATCH_FILE_NAME": func(d dir) []loc {
			var out []loc
			for _, f := range d {
				var ss []*el
				for _, e := range f.els {
					if e.kind == "service" {
						ss = append(ss, e)
					}
				}
				for _, e := range ss {
					if len(ss) > 1 || filepath.Base(f.name) != snakes[e.name]+".proto" {
						out = append(out, loc{f.name, e.line, e.col})
					}
				}
			}
			return out
		},
		"SERVICE_NAMES_NO_PLURALS": func(d dir) []loc {
			var out []loc
			for _, f := range d {
				for _, e := range f.els {
					if e.kind == "service" {
						for i := 0; i < map[string]int{"OrdersAPI": 1, "TripsUsers": 2}[e.name]; i++ {
							out = append(out, loc{f.name, e.line, e.col})
						}
					}
				}
			}
			return out
		},
		"SYNTAX_PROTO3": func(d dir) []loc {
			var out []loc
			for _, f := range d {
				if s := f.one("syntax"); s == nil {
					out = append(out, loc{f.name, 0, 0})
				} else if s.value != "proto3" {
					out = append(out, loc{f.name, s.line, s.col})
				}
			}
			return out
		},
		"WKT_DIRECTLY_IMPORTED": each("import", func(f *fileT, e *el) bool {
			return in(e.value, "x/google/protobuf/timestamp.proto", "vendor/google/protobuf/any.proto", "mygoogle/protobuf/duration.proto")
		}),
		"WKT_DURATION_SUFFIX": each("field oneoffield", func(f *fileT, e *el) bool {
			return e.typ == "google.protobuf.Duration" && e.name != "duration" && !strings.HasSuffix(e.name, "_duration")
		}),
		"WKT_TIMESTAMP_SUFFIX": each("field oneoffield", func(f *fileT, e *el) bool {
			return e.typ == "google.protobuf.Timestamp" && e.name != "time" && !strings.HasSuffix(e.name, "_time")
		}),
	}
}

// skip leaves out what the oracle has no opinion on.
func skip(id string, d dir) bool {
	if !strings.Contains(id, "_EQUAL_") {
		return false
	}
	for _, f := range d {
		if p := f.one("package"); p != nil && (pkgOf(p.name).csharp == "" || pkgOf(p.name).gov2 == "") {
			return true
		}
	}
	return false
}

func show(ls []loc) string {
	var s []string
	for _, l := range ls {
		s = append(s, fmt.Sprintf("%s:%d:%d", filepath.Base(l.file), l.line, l.col))
	}
	sort.Strings(s)
	return strings.Join(s, " ")
}

func main() {
	h := hz.New("C17")
	defer h.Done()
	g := &gen{r: h.Rand}
	n := h.N(1500, 15000)
	h.Bound("%d random directories of one or two files, types nested up to 4 deep, every rule", n)
	ids := map[string]bool{}
	for _, l := range lint.AllLinters {
		ids[l.ID()] = true
		if oracle[l.ID()] == nil {
			h.Fail("rule "+l.ID(), "rule without an oracle", l.ID(), "", "")
		}
	}
	for id := range oracle {
		if !ids[id] {
			h.Fail("rule "+id, "documented rule is gone", id, "", "")
		}
	}
	for i := 0; i < n && !h.Late(); i++ {
		names := []string{"/d/a.proto", "/d/bar_baz.proto", "/d/foo_api.proto", "/d/hello_world.proto", "/d/Foo-x.proto"}
		h.Rand.Shuffle(len(names), func(i, j int) { names[i], names[j] = names[j], names[i] })
		var d dir
		for k := 1 + h.Rand.Intn(2); k > 0; k-- {
			var f *fileT
			for f == nil {
				f = g.file(names[k])
			}
			d = append(d, f)
		}
		ps := &file.ProtoSet{WorkDirPath: "/d", DirPath: "/d", Config: settings.Config{DirPath: "/d", Lint: settings.LintConfig{FileHeader: "// Header\n", JavaPackagePrefix: "org"}}}
		var ds []*lint.FileDescriptor
		ok := true
		for _, f := range d {
			p := proto.NewParser(strings.NewReader(f.text))
			p.Filename(f.name)
			tree, err := p.Parse()
			if err != nil {
				h.Fail("parse: "+f.text, "the generated file does not parse", f.text, "", err.Error())
				ok = false
				break
			}
			ds = append(ds, &lint.FileDescriptor{Proto: tree, ProtoSet: ps, FileData: f.text})
		}
		if !ok {
			continue
		}
		for _, l := range lint.AllLinters {
			fn := oracle[l.ID()]
			if fn == nil || skip(l.ID(), d) {
				continue
			}
			l := l
			h.Try(l.ID(), text(d), func() {
				fs, err := l.Check("/d", ds)
				want := fn(d)
				var got []loc
				for _, f := range fs {
					got = append(got, loc{f.Filename, f.Line, f.Column})
				}
				// an option in brackets has a position of its own on the line
				for i := range want {
					if want[i].col == -1 {
						for j := range got {
							if got[j].file == want[i].file && got[j].line == want[i].line && !has(want, got[j]) {
								got[j].col = -1
							}
						}
					}
				}
				for _, f := range d {
					for _, ls := range [][]loc{want, got} {
						for j := range ls {
							if ls[j].file == f.name && f.loose[ls[j].line] {
								ls[j].col = 0
							}
						}
					}
				}
				w, gt := show(want), show(got)
				if err != nil {
					gt = "error: " + err.Error()
				}
				h.Eval(l.ID(), fmt.Sprint(i), len(want) > 0)
				if w != gt {
					h.Fail(l.ID()+": "+w+" | "+gt+"\n"+text(d), l.ID()+" on random files", text(d), w, gt)
				}
				for _, f := range fs {
					if f.LintID != l.ID() {
						h.Fail(l.ID()+" id", l.ID()+" id of the failure", text(d), l.ID(), f.LintID)
					}
				}
			})
		}
	}
}

func has(ls []loc, l loc) bool {
	for _, x := range ls {
		if x == l {
			return true
		}
	}
	return false
}

func text(d dir) string {
	s := ""
	for _, f := range d {
		s += "== " + f.name + "\n" + f.text
	}
	return s
}
