// Bounded check of the formatter: the output parses to the same declarations, options, comments
// and header as the input up to the documented reordering and fixes, means the same to protoc,
// ends in one newline and is unchanged by formatting it again.
package main

import (
	"bytes"
	"fmt"
	"io/ioutil"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"

	"github.com/emicklei/proto"
	"github.com/golang/protobuf/protoc-gen-go/descriptor"
	"github.com/uber/prototool/internal/format"
	"github.com/uber/prototool/internal/protostrs"
	"github.com/uber/prototool/internal/zverif/hz"
	"github.com/uber/prototool/internal/zverif/rz"

	pb "github.com/golang/protobuf/proto"
)

// ---------------------------------------------------------------- the tree as text

type tree struct {
	lead, head, body []string
	pkg              string
}

func words(c *proto.Comment) string {
	if c == nil {
		return ""
	}
	var out []string
	for _, l := range c.Lines {
		if l = strings.TrimSpace(strings.TrimLeft(strings.TrimSpace(l), "/")); l != "" {
			out = append(out, l)
		}
	}
	return strings.Join(out, "|")
}

func cm(a, b *proto.Comment) string {
	s := ""
	if w := words(a); w != "" {
		s += " //" + w
	}
	if w := words(b); w != "" { // behind an element all of a comment is put on one line
		s += " //inline:" + strings.Replace(w, "|", " ", -1)
	}
	return s
}

// empty: nothing is written for it but its key, and keys without a value are documented not to
// be printed
func empty(l *proto.Literal) bool {
	for _, e := range l.OrderedMap {
		if !empty(e.Literal) {
			return false
		}
	}
	return len(l.Array) == 0 && !l.IsString && l.Source == ""
}

func lit(l *proto.Literal) string {
	switch {
	case len(l.Array) > 0:
		var out []string
		for _, e := range l.Array {
			out = append(out, lit(e))
		}
		return "[" + strings.Join(out, ",") + "]"
	case len(l.OrderedMap) > 0:
		var out []string
		for _, e := range l.OrderedMap {
			if !empty(e.Literal) {
				out = append(out, e.Name+":"+lit(e.Literal))
			}
		}
		return "{" + strings.Join(out, ",") + "}"
	case l.Array != nil:
		return "[]"
	case !l.IsString && l.Source == "":
		return "{}"
	case l.IsString:
		return fmt.Sprintf("str(%q,%s)", l.QuoteRune, l.Source)
	}
	return l.Source
}

// options as they are declared, sorted by name (options of one name keep their order)
func options(os []*proto.Option) []string {
	os = append([]*proto.Option{}, os...)
	sort.SliceStable(os, func(i, j int) bool { return os[i].Name < os[j].Name })
	var out []string
	for _, o := range os {
		if empty(&o.Constant) {
			continue // an option without a value is documented not to be printed
		}
		out = append(out, "option "+o.Name+"="+lit(&o.Constant)+cm(o.Comment, o.InlineComment))
	}
	return out
}

func field(p, typ string, f *proto.Field) string {
	return fmt.Sprintf("%s %s %s=%d %v%s", p, typ, f.Name, f.Sequence, options(f.Options), cm(f.Comment, f.InlineComment))
}

func ranges(rs []proto.Range) string {
	var out []string
	for _, r := range rs {
		out = append(out, fmt.Sprintf("%d-%d-%v", r.From, r.To, r.Max))
	}
	return strings.Join(out, ",")
}

func block(out *[]string, in, head string, es []proto.Visitee, proto2 bool) {
	*out = append(*out, in+head)
	for _, e := range es {
		node(out, in+" ", e, proto2)
	}
}

func labels(proto2, repeated, required, optional bool) string {
	s := ""
	switch {
	case repeated:
		s = "repeated"
	case required:
		s = "required"
	case optional || proto2: // proto2: a missing label is made explicit
		s = "optional"
	}
	return s
}

func node(out *[]string, in string, e proto.Visitee, proto2 bool) {
	add := func(s string) { *out = append(*out, in+s) }
	switch e := e.(type) {
	case *proto.Comment:
		if w := words(e); w != "" {
			add("//" + w)
		}
	case *proto.Message:
		block(out, in, fmt.Sprintf("message %v %s%s", e.IsExtend, e.Name, cm(e.Comment, nil)), e.Elements, proto2)
	case *proto.Enum:
		block(out, in, "enum "+e.Name+cm(e.Comment, nil), e.Elements, proto2)
	case *proto.Oneof:
		block(out, in, "oneof "+e.Name+cm(e.Comment, nil), e.Elements, proto2)
	case *proto.Service:
		block(out, in, "service "+e.Name+cm(e.Comment, nil), e.Elements, proto2)
	case *proto.Group:
		block(out, in, fmt.Sprintf("group %v%v%v %s=%d%s", e.Optional, e.Repeated, e.Required, e.Name, e.Sequence, cm(e.Comment, nil)), e.Elements, proto2)
	case *proto.NormalField:
		add(field(labels(proto2, e.Repeated, e.Required, e.Optional), e.Type, e.Field))
	case *proto.OneOfField:
		add(field("", e.Type, e.Field))
	case *proto.MapField:
		add(field("map", e.KeyType+","+e.Type, e.Field))
	case *proto.EnumField:
		var os []*proto.Option
		for _, c := range e.Elements {
			if o, ok := c.(*proto.Option); ok {
				os = append(os, o)
			} else {
				add(fmt.Sprintf("in %s: %T", e.Name, c))
			}
		}
		add(fmt.Sprintf("value %s=%d %v%s", e.Name, e.Integer, options(os), cm(e.Comment, e.InlineComment)))
	case *proto.Reserved:
		add(fmt.Sprintf("reserved %s %q%s", ranges(e.Ranges), e.FieldNames, cm(e.Comment, e.InlineComment)))
	case *proto.Extensions:
		add("extensions " + ranges(e.Ranges) + cm(e.Comment, e.InlineComment))
	case *proto.RPC:
		// comments in the block are dropped: a known finding, see known()
		var os []*proto.Option
		for _, c := range e.Elements {
			if o, ok := c.(*proto.Option); ok {
				os = append(os, o)
			}
		}
		add(fmt.Sprintf("rpc %s(%v %s) %v %s %v%s", e.Name, e.StreamsRequest, e.RequestType, e.StreamsReturns, e.ReturnsType, options(os), cm(e.Comment, e.InlineComment)))
	case *proto.Option:
		for _, s := range options([]*proto.Option{e}) {
			add(s)
		}
	default:
		add(fmt.Sprintf("%T", e))
	}
}

// parse: the leading comments, the header in the documented order, the body in file order.
func parse(text string) (tree, error) {
	var t tree
	p, err := proto.NewParser(strings.NewReader(text)).Parse()
	if err != nil {
		return t, err
	}
	proto2 := true
	var syntax, pkg, imps []string
	var opts []*proto.Option
	hit := false
	for _, e := range p.Elements {
		if s, ok := e.(*proto.Syntax); ok && s.Value == "proto3" {
			proto2 = false
		}
	}
	for _, e := range p.Elements {
		if c, ok := e.(*proto.Comment); ok {
			if w := words(c); w != "" {
				if hit {
					t.body = append(t.body, "//"+w)
				} else {
					t.lead = append(t.lead, w)
				}
			}
			continue
		}
		hit = true
		switch e := e.(type) {
		case *proto.Syntax:
			if w := words(e.Comment); w != "" {
				t.lead = append(t.lead, w)
			}
			syntax = append(syntax, "syntax "+e.Value+cm(nil, e.InlineComment))
		case *proto.Package:
			t.pkg = e.Name
			pkg = append(pkg, "package "+e.Name+cm(e.Comment, e.InlineComment))
		case *proto.Import:
			imps = append(imps, "import "+e.Filename+" "+e.Kind+cm(e.Comment, e.InlineComment))
		case *proto.Option:
			opts = append(opts, e)
		default:
			node(&t.body, "", e, proto2)
		}
	}
	sort.Strings(imps)
	t.head = append(append(append(syntax, pkg...), options(opts)...), imps...)
	return t, nil
}

func lines(ss []string) string { return strings.Join(ss, "\n") }

// ---------------------------------------------------------------- random files

type gen struct {
	r        *rand.Rand
	b        *bytes.Buffer
	proto2   bool
	comments int // 0 none, 1 before elements and behind them, 2 also c-style
	valid    bool // for protoc
	n        int
	vt       string // how the package of the options is spelled: the documented order is by spelling
}

func (g *gen) p(f string, a ...interface{}) { fmt.Fprintf(g.b, f, a...) }
func (g *gen) one(k int) bool               { return g.r.Intn(k) == 0 }
func (g *gen) ws() string                   { return hz.Pick(g.r, []string{" ", "  ", "\n", "\t"}) }
func (g *gen) nl()                          { g.p("%s", hz.Pick(g.r, []string{"\n", "\n\n", "  \n", "\n\n\n"})) }

// a comment before an element; attached or free
func (g *gen) c() {
	if g.comments == 0 || !g.one(3) {
		return
	}
	g.n++
	switch g.r.Intn(6) {
	case 0:
		g.p("// free %d\n\n", g.n)
	case 1:
		g.p("// two %d\n// lines\n", g.n)
	case 2:
		g.p("//\n// padded %d\n//\n", g.n)
	case 3:
		if g.comments > 1 {
			g.p("/* c style %d */\n", g.n)
			return
		}
		fallthrough
	case 4:
		if g.comments > 1 {
			g.p("/*\n * block %d\n */\n\n", g.n)
			return
		}
		fallthrough
	default:
		g.p("/// attached %d\n", g.n)
	}
}

func (g *gen) inline() {
	if g.comments > 0 && g.one(4) {
		g.n++
		switch {
		case g.comments > 1 && g.one(3):
			g.p(" /* inline c %d */", g.n)
		case g.comments > 1 && g.one(4):
			g.p(" /* inline %d\n block */", g.n)
		default:
			g.p(" // inline %d", g.n)
		}
	}
	g.nl()
}

func (g *gen) str() string {
	return hz.Pick(g.r, []string{`"a"`, `'b'`, `"it's"`, `'say"x"'`, `"two  words"`, `""`, `"a\tb"`, `"\\"`, `"\x41\""`, `"ü"`, `"//x"`, `"a;b"`})
}

// options of fields: extensions declared by the file opts.proto
func (g *gen) value(o string) string {
	switch o {
	case "str", "strs":
		return g.str()
	case "num", "nums":
		return hz.Pick(g.r, []string{"0", "1", "-5", "0x10", "42"})
	case "dbl":
		return hz.Pick(g.r, []string{"1.5", "-0.25", "1e3", "3"})
	case "flag":
		return hz.Pick(g.r, []string{"true", "false"})
	case "kind":
		return hz.Pick(g.r, []string{"KIND_A", "KIND_B"})
	}
	return g.agg(2)
}

func (g *gen) agg(depth int) string {
	var b strings.Builder
	b.WriteString("{" + g.ws())
	k := 1 + g.r.Intn(3)
	used := map[string]bool{}
	for i := 0; i < k; i++ {
		n := hz.Pick(g.r, []string{"name", "id", "flag", "sub", "ids", "subs", "names"})
		if used[n] {
			continue
		}
		used[n] = true
		switch n {
		case "name":
			b.WriteString("name: " + g.str())
		case "id":
			b.WriteString("id:" + g.value("num"))
		case "flag":
			b.WriteString("flag: true")
		case "ids":
			b.WriteString("ids: [1, 2 , 3]")
		case "names":
			b.WriteString(`names: ["x"]`)
		case "sub":
			if depth == 0 {
				continue
			}
			b.WriteString("sub" + hz.Pick(g.r, []string{": ", " "}) + g.agg(depth-1))
		case "subs":
			if depth == 0 {
				continue
			}
			b.WriteString("subs: [" + g.agg(depth-1) + ", " + g.agg(depth-1) + "]")
		}
		b.WriteString(hz.Pick(g.r, []string{" ", "\n", ", "}))
	}
	s := strings.TrimRight(b.String(), ", ")
	if g.valid && !strings.Contains(s, ":") {
		s += " id: 1" // empty messages are documented to be dropped
	}
	return s + g.ws() + "}"
}

// options for a target: pairs name, value
func (g *gen) opts(target string, max int) [][2]string {
	var out [][2]string
	used := map[string]bool{}
	for i := g.r.Intn(max + 1); i > 0; i-- {
		o := hz.Pick(g.r, []string{"str", "num", "dbl", "flag", "kind", "agg", "strs", "nums"})
		if used[o] && o != "strs" && o != "nums" {
			continue
		}
		used[o] = true
		name := "(" + g.vt + target + "_" + o + ")"
		if o == "agg" && g.one(2) {
			sub := hz.Pick(g.r, []string{"name", "id"})
			v := g.str()
			if sub == "id" {
				v = "7"
			}
			out = append(out, [2]string{name + "." + sub, v})
			continue
		}
		out = append(out, [2]string{name, g.value(o)})
	}
	if target == "field" && g.one(4) {
		out = append(out, [2]string{"deprecated", "true"})
	}
	return out
}

func (g *gen) fieldOpts(target string) {
	os := g.opts(target, 3)
	if len(os) == 0 {
		return
	}
	g.p(" [")
	for i, o := range os {
		if i > 0 {
			g.p(",%s", g.ws())
		}
		if g.comments > 0 && g.one(8) {
			g.n++
			g.p("\n// in the brackets %d\n", g.n)
		}
		g.p("%s =%s%s", o[0], g.ws(), o[1])
		if g.comments > 0 && g.one(10) && i == len(os)-1 {
			g.n++
			g.p(" // in the brackets %d\n", g.n)
		}
	}
	g.p("]")
}

func (g *gen) stmtOpts(target string, max int) {
	for _, o := range g.opts(target, max) {
		g.c()
		g.p("option %s = %s;", o[0], o[1])
		g.inline()
	}
}

func (g *gen) message(prefix, name string, depth int) {
	g.c()
	g.p("%s %s {", prefix, name)
	if g.one(8) {
		g.p("}")
		g.nl()
		return
	}
	g.nl()
	if prefix == "message" {
		g.stmtOpts("message", 2)
	}
	g.fields(name, depth)
	g.p("}")
	g.nl()
}

func (g *gen) fields(name string, depth int) {
	num := 1
	next := func() int { num++; return num - 1 }
	for i := g.r.Intn(6); i > 0; i-- {
		types := []string{"int32", "string", "bytes", "double", ".vt.Sub", "dep.v1.Dep"}
		if g.proto2 || !g.valid {
			types = append(types, "vt.Kind")
		}
		if !g.valid {
			types = append(types, "Dep")
		}
		typ := hz.Pick(g.r, types)
		switch k := g.r.Intn(12); {
		case k == 0:
			g.c()
			g.p("map<%s,%s%s> m%d = %d", hz.Pick(g.r, []string{"string", "int32"}), g.ws(), typ, num, num)
			next()
			g.fieldOpts("field")
			g.p(";")
			g.inline()
		case k == 1:
			g.c()
			g.p("oneof o%d {", num)
			g.nl()
			for j := 1 + g.r.Intn(3); j > 0; j-- {
				if g.proto2 && g.one(6) {
					g.c()
					g.p("group OG%d = %d {", num, num)
					next()
					g.nl()
					g.stmtOpts("message", 1)
					g.p("optional int32 x = 1;\n}")
					g.nl()
					continue
				}
				g.c()
				g.p("%s of%d = %d", typ, num, num)
				next()
				g.fieldOpts("field")
				g.p(";")
				g.inline()
			}
			g.p("}")
			g.nl()
		case k == 2 && depth > 0:
			g.message("message", fmt.Sprintf("N%d%d", depth, i), depth-1)
		case k == 3 && depth > 0:
			g.enum(fmt.Sprintf("%sE%d%d", name, depth, i))
		case k == 4:
			g.c()
			lo := 1000 + 10*num
			next()
			if g.one(2) {
				g.p("reserved %d, %d to %d", lo, lo+2, lo+5)
				if g.one(2) {
					g.p(", %d", lo+7)
				}
			} else {
				g.p(`reserved "r%d",%s"s%d"`, lo, g.ws(), lo)
			}
			g.p(";")
			g.inline()
		case k == 5 && g.proto2 && depth > 0:
			g.c()
			g.p("%s group Gr%d = %d {", hz.Pick(g.r, []string{"optional", "required", "repeated"}), num, num)
			next()
			g.nl()
			g.stmtOpts("message", 2)
			g.fields(fmt.Sprintf("Gr%d", num-1), 0)
			g.p("}")
			g.nl()
		case k == 6 && g.proto2:
			g.c()
			lo := 2000 + 10*num
			next()
			g.p("extensions %d to %d, %d", lo, lo+3, lo+5)
			g.p(";")
			g.inline()
		case k == 7 && depth > 0 && g.proto2:
			g.extend()
		default:
			g.c()
			label := ""
			if g.proto2 {
				label = hz.Pick(g.r, []string{"optional ", "required ", "repeated "})
			} else {
				label = hz.Pick(g.r, []string{"", "", "repeated "})
				if !g.valid && g.one(5) {
					label = "optional "
				}
			}
			g.p("%s%s f%d = %d", label, typ, num, num)
			next()
			g.fieldOpts("field")
			g.p(";")
			g.inline()
		}
	}
}

func (g *gen) extend() {
	g.c()
	g.n++
	g.p("extend vt.Open {")
	g.nl()
	g.p("optional int32 ext%d = %d;", g.n, 10000+g.n)
	g.inline()
	g.p("}")
	g.nl()
}

func (g *gen) enum(name string) {
	g.c()
	g.p("enum %s {", name)
	g.nl()
	g.stmtOpts("enum", 2)
	up := strings.ToUpper(name)
	g.c()
	g.p("%s_A = 0", up)
	g.fieldOpts("value")
	g.p(";")
	g.inline()
	for i := g.r.Intn(3); i > 0; i-- {
		g.c()
		g.p("%s_B%d = %s", up, i, hz.Pick(g.r, []string{fmt.Sprint(i), fmt.Sprint(-i), fmt.Sprintf("0x%x", 20+i)}))
		g.fieldOpts("value")
		g.p(";")
		g.inline()
	}
	if g.one(4) {
		g.p("reserved %s;", hz.Pick(g.r, []string{"100", "100 to 110", `"RES"`, "100 to 110, 200"}))
		g.inline()
	}
	g.p("}")
	g.nl()
}

func (g *gen) service(name string) {
	g.c()
	g.p("service %s {", name)
	g.nl()
	g.stmtOpts("service", 2)
	for i := g.r.Intn(4); i > 0; i-- {
		g.c()
		g.p("rpc M%d(%s%s) returns%s(%s%s)", i, hz.Pick(g.r, []string{"", "stream "}), hz.Pick(g.r, []string{".dep.v1.Dep", "dep.v1.Dep"}), g.ws(), hz.Pick(g.r, []string{"", "stream "}), ".vt.Sub")
		switch g.r.Intn(3) {
		case 0:
			g.p(";")
		case 1:
			g.p(" {}")
		default:
			g.p(" {")
			g.nl()
			g.stmtOpts("method", 2)
			g.p("}")
		}
		g.inline()
	}
	g.p("}")
	g.nl()
}

type file struct {
	text, pkg string
	proto2    bool
}

func random(r *rand.Rand, pkg string, valid bool) file {
	g := &gen{r: r, b: bytes.NewBuffer(nil), proto2: r.Intn(2) == 0, comments: r.Intn(3), valid: valid, vt: hz.Pick(r, []string{"vt.", ".vt."})}
	if g.one(3) {
		g.p("// Leading %d\n// comment\n\n", r.Intn(9))
	}
	if g.one(6) && g.comments > 1 {
		g.p("/* Leading\n * block\n */\n")
	}
	syntax := "proto2"
	if !g.proto2 {
		syntax = "proto3"
	}
	if !g.proto2 || g.one(2) {
		g.p("syntax%s=%s%s;", g.ws(), g.ws(), hz.Pick(r, []string{`"` + syntax + `"`, `'` + syntax + `'`}))
		g.inline()
	}
	parts := []func(){}
	if pkg != "" {
		parts = append(parts, func() { g.c(); g.p("package%s%s;", g.ws(), pkg); g.inline() })
	}
	imports := []string{"dep.proto", "opts.proto", "google/protobuf/any.proto", "a.proto", "z.proto"}
	r.Shuffle(len(imports), func(i, j int) { imports[i], imports[j] = imports[j], imports[i] })
	for _, i := range imports {
		i := i
		if i != "dep.proto" && i != "opts.proto" && g.one(2) {
			continue
		}
		parts = append(parts, func() {
			g.c()
			kind := hz.Pick(r, []string{"", "", "", "public "})
			g.p("import %s%s;", kind, hz.Pick(r, []string{`"` + i + `"`, `'` + i + `'`}))
			g.inline()
		})
	}
	std := [][2]string{{"go_package", `"x/y;ypb"`}, {"java_package", `'org.me'`}, {"java_multiple_files", "false"}, {"java_outer_classname", `"Mine"`},
		{"csharp_namespace", `"C.S"`}, {"objc_class_prefix", `"OCP"`}, {"php_namespace", `"P\\Q"`}, {"optimize_for", "SPEED"}, {"cc_enable_arenas", "true"}, {"ruby_package", `"R"`}}
	for _, o := range append(std, g.opts("file", 3)...) {
		o := o
		if strings.HasPrefix(o[0], "(") || g.one(2) {
			parts = append(parts, func() { g.c(); g.p("option %s = %s;", o[0], o[1]); g.inline() })
		}
	}
	if g.one(5) { // many options of one name
		for i := 0; i < 16; i++ {
			v := fmt.Sprint(i)
			parts = append(parts, func() { g.p("option (%sfile_nums) = %s;\n", g.vt, v) })
		}
	}
	// the declarations may stand between the header elements
	for i := g.r.Intn(5); i > 0; i-- {
		i := i
		switch g.r.Intn(5) {
		case 0:
			parts = append(parts, func() { g.enum(fmt.Sprintf("Top%d", i)) })
		case 1:
			parts = append(parts, func() { g.service(fmt.Sprintf("Svc%d", i)) })
		case 2:
			if g.proto2 {
				parts = append(parts, func() { g.extend() })
				break
			}
			fallthrough
		default:
			parts = append(parts, func() { g.message("message", fmt.Sprintf("Msg%d", i), 2) })
		}
	}
	if g.one(3) {
		r.Shuffle(len(parts), func(i, j int) { parts[i], parts[j] = parts[j], parts[i] })
	}
	for _, p := range parts {
		p()
	}
	if g.comments > 0 && g.one(4) {
		g.p("// trailing\n")
	}
	return file{g.b.String(), pkg, g.proto2}
}

const optsProto = `syntax = "proto2";
package vt;
import "google/protobuf/descriptor.proto";
enum Kind { KIND_A = 0; KIND_B = 1; }
message Sub { optional string name = 1; optional int32 id = 2; optional bool flag = 3; optional Sub sub = 4; repeated int32 ids = 5; repeated Sub subs = 6; repeated string names = 7; }
message Open { extensions 10000 to max; }
`

func optsText() string {
	b := optsProto
	for i, t := range []string{"File", "Message", "Field", "Enum", "EnumValue", "Service", "Method"} {
		n := strings.ToLower(t)
		if t == "EnumValue" {
			n = "value"
		}
		k := 50000 + 100*i
		b += fmt.Sprintf("extend google.protobuf.%sOptions { optional string %s_str=%d; optional int32 %s_num=%d; optional double %s_dbl=%d; optional bool %s_flag=%d; optional Kind %s_kind=%d; optional Sub %s_agg=%d; repeated string %s_strs=%d; repeated int32 %s_nums=%d; }\n",
			t, n, k, n, k+1, n, k+2, n, k+3, n, k+4, n, k+5, n, k+6, n, k+7)
	}
	return b
}

// ---------------------------------------------------------------- protoc

func compile(dir string, names []string) (map[string]*descriptor.FileDescriptorProto, string) {
	out := filepath.Join(dir, "set.bin")
	cmd := exec.Command("/usr/bin/protoc", append([]string{"-I" + dir, "-I/usr/include", "--experimental_allow_proto3_optional", "--descriptor_set_out=" + out}, names...)...)
	var e bytes.Buffer
	cmd.Stderr = &e
	if err := cmd.Run(); err != nil {
		return nil, e.String()
	}
	data, err := ioutil.ReadFile(out)
	if err != nil {
		panic(err)
	}
	set := &descriptor.FileDescriptorSet{}
	if err := pb.Unmarshal(data, set); err != nil {
		panic(err)
	}
	m := map[string]*descriptor.FileDescriptorProto{}
	for _, f := range set.File {
		m[f.GetName()] = f
	}
	return m, ""
}

// meaning: the descriptor with dependencies sorted; options as bytes of their own
func meaning(f *descriptor.FileDescriptorProto, fixed bool) string {
	f = pb.Clone(f).(*descriptor.FileDescriptorProto)
	pub := map[string]bool{}
	for _, i := range f.PublicDependency {
		pub[f.Dependency[i]] = true
	}
	var deps []string
	for _, d := range f.Dependency {
		deps = append(deps, fmt.Sprint(d, pub[d]))
	}
	sort.Strings(deps)
	f.Dependency, f.PublicDependency = nil, nil
	for _, s := range f.Service {
		for _, m := range s.Method { // rpc M(A) returns (B) {} and rpc M(A) returns (B); mean the same
			if m.Options != nil && pb.Size(m.Options) == 0 {
				m.Options = nil
			}
		}
	}
	if fixed && f.Options != nil {
		o := f.Options
		o.GoPackage, o.JavaPackage, o.JavaMultipleFiles, o.JavaOuterClassname = nil, nil, nil, nil
		o.CsharpNamespace, o.ObjcClassPrefix, o.PhpNamespace = nil, nil, nil
		if b, err := pb.Marshal(o); err == nil && len(b) == 0 {
			f.Options = nil
		}
	}
	return fmt.Sprint(deps) + "\n" + pb.MarshalTextString(f)
}

// ---------------------------------------------------------------- the check of one file

type mode struct {
	fix    int
	header string
	prefix string
}

var stdNames = map[string]bool{"go_package": true, "java_package": true, "java_multiple_files": true, "java_outer_classname": true}
var v2Names = map[string]bool{"csharp_namespace": true, "objc_class_prefix": true, "php_namespace": true}

func fixedOptions(m mode, file, pkg string) map[string]string {
	q := func(s string) string { return fmt.Sprintf("str('\"',%s)", s) }
	out := map[string]string{}
	if m.fix == format.FixNone || pkg == "" {
		return out
	}
	out["go_package"] = q(protostrs.GoPackage(pkg))
	out["java_multiple_files"] = "true"
	out["java_outer_classname"] = q(protostrs.JavaOuterClassname(file))
	out["java_package"] = q(protostrs.JavaPackagePrefixOverride(pkg, m.prefix))
	if m.fix == format.FixV2 {
		out["go_package"] = q(protostrs.GoPackageV2(pkg))
		out["csharp_namespace"] = q(protostrs.CSharpNamespace(pkg))
		out["objc_class_prefix"] = q(protostrs.OBJCClassPrefix(pkg))
		out["php_namespace"] = q(protostrs.PHPNamespace(pkg))
	}
	return out
}

func optionName(line string) string {
	return strings.SplitN(strings.TrimPrefix(line, "option "), "=", 2)[0]
}

func transform(m mode, name, text string) (string, string) {
	opts := []format.TransformerOption{}
	if m.fix != format.FixNone {
		opts = append(opts, format.TransformerWithFix(m.fix), format.TransformerWithFileHeader(m.header), format.TransformerWithJavaPackagePrefix(m.prefix))
	}
	data, failures, err := format.NewTransformer(opts...).Transform(name, []byte(text))
	if err != nil {
		return "", "error: " + err.Error()
	}
	s := ""
	for _, f := range failures {
		s += f.String() + "\n"
	}
	return string(data), s
}

func check(h *hz.H, rule, name, text string, m mode) (string, bool) {
	want, err := parse(text)
	if err != nil {
		return "", false
	}
	key := fmt.Sprintf("%s\n(fix %d, header %q, prefix %q)", text, m.fix, m.header, m.prefix)
	out, fails := transform(m, name, text)
	if fails != "" {
		h.Eval(rule+"-refused", key, false)
		return "", false
	}
	ok := true
	h.Try(rule, key, func() {
		got, err := parse(out)
		if err != nil {
			h.Fail("unparseable", "the formatted file does not parse", key, "", err.Error()+"\n"+out)
			ok = false
			return
		}
		ok = h.Check(rule+"-newline", key, out != "", out == "" || strings.HasSuffix(out, "\n") && !strings.HasSuffix(out, "\n\n") && !strings.HasPrefix(out, "\n"), true) && ok
		// header
		fixed := fixedOptions(m, name, want.pkg)
		var head []string
		for _, l := range want.head {
			if strings.HasPrefix(l, "option ") {
				if _, yes := fixed[optionName(l)]; yes {
					continue
				}
			}
			head = append(head, l)
		}
		var gotHead []string
		gotFixed := map[string]string{}
		for _, l := range got.head {
			if strings.HasPrefix(l, "option ") {
				n := optionName(l)
				if w, yes := fixed[n]; yes {
					v := strings.TrimPrefix(l, "option "+n+"=")
					if v != w {
						v = strings.SplitN(v, " //", 2)[0] // a comment of the replaced option may stay
					}
					gotFixed[n] = v
					continue
				}
			}
			gotHead = append(gotHead, l)
		}
		ok = h.Check(rule+"-header", key, len(head) > 2, lines(head), lines(gotHead)) && ok
		ok = h.Check(rule+"-fixed", key, len(fixed) > 0, fixed, gotFixed) && ok
		lead := want.lead
		if m.fix != format.FixNone && m.header != "" {
			lead = nil
			if len(got.lead) > 0 {
				hd := strings.Join(func() []string {
					var o []string
					for _, l := range strings.Split(m.header, "\n") {
						o = append(o, strings.TrimSpace(strings.TrimLeft(l, "/")))
					}
					return o
				}(), "|")
				ok = h.Check(rule+"-fileheader", key, true, hd, got.lead[0]) && ok
			}
		} else {
			ok = h.Check(rule+"-lead", key, len(lead) > 0, strings.Join(lead, "|"), strings.Join(got.lead, "|")) && ok
		}
		ok = h.Check(rule+"-body", key, len(want.body) > 3, lines(want.body), lines(got.body)) && ok
		again, f2 := transform(m, name, out)
		ok = h.Check(rule+"-idempotent", key, len(want.body) > 3, out, again+f2) && ok
	})
	return out, ok
}

func main() {
	h := hz.New("C25")
	base := rz.Temp()
	defer rz.Clean(base)
	rng := rand.New(rand.NewSource(h.Seed))
	n := h.N(700, 12000)
	h.Bound("%d random files of both syntaxes (every declaration, all kinds of options and values, comments before and behind elements), each plain and with both fixes, with and without a file header; those valid for protoc also compiled and their descriptors compared; comments inside of rpc blocks left out (a known finding)", n)
	modes := []mode{{}, {format.FixV1, "", ""}, {format.FixV2, "", "org.x"}, {format.FixV1, "// The header.\n// Two.", ""}, {format.FixV2, "// The header.", ""}}
	a, b := filepath.Join(base, "a"), filepath.Join(base, "b")
	rz.Write(a, map[string]string{"opts.proto": optsText(), "dep.proto": "syntax = \"proto3\";\npackage dep.v1;\nmessage Dep {}\n", "a.proto": "syntax = \"proto3\";\n", "z.proto": "syntax = \"proto3\";\n"})
	rz.Write(b, map[string]string{"opts.proto": optsText(), "dep.proto": "syntax = \"proto3\";\npackage dep.v1;\nmessage Dep {}\n", "a.proto": "syntax = \"proto3\";\n", "z.proto": "syntax = \"proto3\";\n"})
	var names []string
	fixed := map[string]bool{}
	texts := map[string]string{}
	for it := 0; it < n && !h.Late(); it++ {
		pkg := fmt.Sprintf(hz.Pick(rng, []string{"p%d", "a.b%d.v1", "foo%d.v2beta1"}), it)
		if rng.Intn(6) == 0 {
			pkg = ""
		}
		valid := rng.Intn(2) == 0
		f := random(rng, pkg, valid)
		text := f.text
		for _, m := range modes {
			name := fmt.Sprintf("f%d.proto", it)
			out, ok := check(h, "tree", name, text, m)
			if ok && valid && pkg != "" && m.header == "" && rng.Intn(2) == 0 {
				nm := fmt.Sprintf("f%d_%d.proto", it, m.fix)
				t := strings.Replace(text, pkg, fmt.Sprintf("%s.x%d", pkg, m.fix), -1)
				o, fl := transform(m, nm, t)
				if fl == "" {
					_ = out
					rz.Write(a, map[string]string{nm: t})
					rz.Write(b, map[string]string{nm: o})
					names = append(names, nm)
					fixed[nm] = m.fix != format.FixNone
					texts[nm] = t
				}
			}
		}
	}
	// what protoc makes of the files it accepts
	for len(names) > 0 && !h.Late() {
		k := 60
		if k > len(names) {
			k = len(names)
		}
		chunk := names[:k]
		names = names[k:]
		var want map[string]*descriptor.FileDescriptorProto
		msg := ""
		for len(chunk) > 0 {
			if want, msg = compile(a, chunk); want != nil {
				break
			}
			// drop the files protoc names
			var rest []string
			for _, f := range chunk {
				if strings.Contains(msg, f+":") {
					h.Eval("protoc-rejected", f, false)
					if os.Getenv("C25_DEBUG") != "" {
						fmt.Fprintln(os.Stderr, msg)
					}
				} else {
					rest = append(rest, f)
				}
			}
			if len(rest) == len(chunk) {
				panic("protoc: " + msg)
			}
			chunk = rest
		}
		got, msg := compile(b, chunk)
		if got == nil {
			// one by one, to name the file
			for _, f := range chunk {
				if got, msg := compile(b, []string{f}); got == nil {
					h.Fail("protoc: "+texts[f], "protoc rejects the formatted file", texts[f], "accepted", msg)
				}
			}
			continue
		}
		for _, f := range chunk {
			h.Check("protoc", texts[f], true, meaning(want[f], fixed[f]), meaning(got[f], fixed[f]))
		}
	}
	known(h)
	h.Done()
}

// what the parser gets wrong
func known(h *hz.H) {
	const in = "syntax = \"proto3\";\n\npackage p;\n\noption (a.b) = 'two words';\n"
	out, fails := transform(mode{}, "a.proto", in)
	h.Eval("values", in, true)
	if out+fails != in {
		h.Fail("single-quoted-space", "white space in single-quoted values", in, in, out+fails)
	}
	const rpc = "syntax = \"proto3\";\n\npackage p;\n\nservice S {\n  rpc M(A) returns (B) {\n    // kept\n    option (x) = 1;\n  }\n}\n"
	got, fails := transform(mode{}, "a.proto", rpc)
	h.Eval("values", rpc, true)
	if got+fails != rpc {
		h.Fail("rpc-comment", "comments inside of an rpc", rpc, rpc, got+fails)
	}
	double := strings.Replace(in, "'", "\"", -1)
	out, fails = transform(mode{}, "a.proto", double)
	h.Check("values", double, true, double, out+fails)
}
