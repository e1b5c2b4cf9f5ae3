// Bounded check of reflection: random descriptor files, dealt into sets in any
// order and with repetitions, against a walk of the descriptors.
package main

import (
	"fmt"
	"math/rand"
	"sort"
	"strings"

	"github.com/golang/protobuf/proto"
	"github.com/golang/protobuf/protoc-gen-go/descriptor"
	"github.com/uber/prototool/internal/reflect"
	reflectv1 "github.com/uber/prototool/internal/reflect/gen/uber/proto/reflect/v1"
	"github.com/uber/prototool/internal/zverif/hz"
)

type (
	file = descriptor.FileDescriptorProto
	dmsg = descriptor.DescriptorProto
	denm = descriptor.EnumDescriptorProto
)

var names = []string{"Ab", "Bc", "aB", "Cd", "A", "Z", "De_f", "X1", "X10", "X2"}
var types = []string{".foo.v1.Ab", ".bar.Z", ".Ab", ".a.b.c.d.E"}
var packages = []string{"foo.v1", "foo", "bar", "a.b.c", "foo.v10", "foo.v2", "Foo.v1"}

type gen struct {
	r *rand.Rand
	n int
}

func (g *gen) enum(name string) *denm {
	e := &denm{Name: proto.String(name)}
	nums := g.r.Perm(12)
	for i := 0; i < g.r.Intn(4); i++ {
		e.Value = append(e.Value, &descriptor.EnumValueDescriptorProto{Name: proto.String(fmt.Sprintf("V%d", i)), Number: proto.Int32(int32(nums[i] - 4))})
	}
	return e
}

func (g *gen) msg(name string, depth int) *dmsg {
	m := &dmsg{Name: proto.String(name)}
	for _, i := range g.r.Perm(3)[:g.r.Intn(3)] {
		m.OneofDecl = append(m.OneofDecl, &descriptor.OneofDescriptorProto{Name: proto.String([]string{"one", "two", "abc"}[i])})
	}
	nums := g.r.Perm(300)
	for i, k := 0, g.r.Intn(5); i < k; i++ {
		f := &descriptor.FieldDescriptorProto{
			Name:   proto.String(fmt.Sprintf("f%d", nums[i+20])),
			Number: proto.Int32(int32(nums[i] + 1)),
			Type:   descriptor.FieldDescriptorProto_Type(1 + g.r.Intn(18)).Enum(),
			Label:  descriptor.FieldDescriptorProto_Label(1 + g.r.Intn(3)).Enum(),
		}
		if t := f.GetType(); t == 10 || t == 11 || t == 14 {
			f.TypeName = proto.String(types[g.r.Intn(len(types))])
		}
		if len(m.OneofDecl) > 0 && g.r.Intn(2) == 0 {
			f.OneofIndex = proto.Int32(int32(g.r.Intn(len(m.OneofDecl))))
		}
		m.Field = append(m.Field, f)
	}
	if depth > 0 {
		ns := g.r.Perm(len(names))
		for i, k := 0, g.r.Intn(4); i < k; i++ {
			if g.r.Intn(3) == 0 {
				m.EnumType = append(m.EnumType, g.enum(names[ns[i]]))
			} else {
				m.NestedType = append(m.NestedType, g.msg(names[ns[i]], depth-1))
			}
		}
	}
	return m
}

func (g *gen) service(name string) *descriptor.ServiceDescriptorProto {
	s := &descriptor.ServiceDescriptorProto{Name: proto.String(name)}
	for _, i := range g.r.Perm(len(names))[:g.r.Intn(4)] {
		s.Method = append(s.Method, &descriptor.MethodDescriptorProto{
			Name:            proto.String(names[i]),
			InputType:       proto.String(types[g.r.Intn(len(types))]),
			OutputType:      proto.String(types[g.r.Intn(len(types))]),
			ClientStreaming: proto.Bool(g.r.Intn(2) == 0),
			ServerStreaming: proto.Bool(g.r.Intn(2) == 0),
		})
	}
	return s
}

func (g *gen) files() []*file {
	var fs []*file
	used := map[string]map[string]bool{}
	n := 1 + g.r.Intn(6)
	np := 1 + g.r.Intn(4)
	pp := g.r.Perm(len(packages))[:np]
	for i := 0; i < n; i++ {
		pkg := packages[pp[g.r.Intn(np)]]
		if used[pkg] == nil {
			used[pkg] = map[string]bool{}
		}
		f := &file{Name: proto.String(fmt.Sprintf("%s/%d.proto", strings.Replace(pkg, ".", "/", -1), i)), Package: proto.String(pkg)}
		if g.r.Intn(4) == 0 {
			f.Syntax = proto.String("proto3")
		}
		for _, j := range g.r.Perm(len(names))[:g.r.Intn(5)] {
			if used[pkg][names[j]] {
				continue
			}
			used[pkg][names[j]] = true
			switch g.r.Intn(4) {
			case 0:
				f.EnumType = append(f.EnumType, g.enum(names[j]))
			case 1:
				f.Service = append(f.Service, g.service(names[j]))
			default:
				f.MessageType = append(f.MessageType, g.msg(names[j], 2))
			}
		}
		for _, o := range fs {
			if g.r.Intn(3) == 0 {
				f.Dependency = append(f.Dependency, o.GetName())
			}
		}
		g.r.Shuffle(len(f.Dependency), func(a, b int) { f.Dependency[a], f.Dependency[b] = f.Dependency[b], f.Dependency[a] })
		fs = append(fs, f)
	}
	return fs
}

// deal puts the files into sets, each at least once.
func (g *gen) deal(fs []*file) []*descriptor.FileDescriptorSet {
	sets := make([]*descriptor.FileDescriptorSet, 1+g.r.Intn(3))
	for i := range sets {
		sets[i] = &descriptor.FileDescriptorSet{}
	}
	put := func(f *file) {
		s := sets[g.r.Intn(len(sets))]
		if g.r.Intn(2) == 0 {
			f = proto.Clone(f).(*file)
		}
		s.File = append(s.File, f)
	}
	for _, i := range g.r.Perm(len(fs)) {
		put(fs[i])
	}
	for _, f := range fs {
		if g.r.Intn(3) == 0 {
			put(f)
		}
	}
	return sets
}

type node struct {
	sort string
	num  int32
	text []string
}

func flat(ns []node, byNum bool) []string {
	sort.SliceStable(ns, func(i, j int) bool {
		if byNum {
			return ns[i].num < ns[j].num
		}
		return ns[i].sort < ns[j].sort
	})
	var out []string
	for _, n := range ns {
		out = append(out, n.text...)
	}
	return out
}

func ind(head string, parts ...[]string) []string {
	out := []string{head}
	for _, p := range parts {
		for _, l := range p {
			out = append(out, " "+l)
		}
	}
	return out
}

func wantEnum(e *denm) node {
	var vs []node
	for _, v := range e.Value {
		vs = append(vs, node{num: *v.Number, text: []string{fmt.Sprintf("value %s=%d", *v.Name, *v.Number)}})
	}
	return node{sort: *e.Name, text: ind("enum "+*e.Name, flat(vs, true))}
}

func strip(s *string) string {
	if s == nil {
		return ""
	}
	return (*s)[1:]
}

func wantMsg(m *dmsg) node {
	var fields, oneofs, msgs, enums []node
	for _, f := range m.Field {
		fields = append(fields, node{num: *f.Number, text: []string{fmt.Sprintf("field %s=%d label %d type %d %q", *f.Name, *f.Number, *f.Label, *f.Type, strip(f.TypeName))}})
	}
	for i, o := range m.OneofDecl {
		var ns []int
		for _, f := range m.Field {
			if f.OneofIndex != nil && int(*f.OneofIndex) == i {
				ns = append(ns, int(*f.Number))
			}
		}
		sort.Ints(ns)
		oneofs = append(oneofs, node{sort: *o.Name, text: []string{fmt.Sprintf("oneof %s %v", *o.Name, ns)}})
	}
	for _, n := range m.NestedType {
		msgs = append(msgs, wantMsg(n))
	}
	for _, n := range m.EnumType {
		enums = append(enums, wantEnum(n))
	}
	return node{sort: *m.Name, text: ind("message "+*m.Name, flat(fields, true), flat(oneofs, false), flat(msgs, false), flat(enums, false))}
}

func want(fs []*file) []string {
	pkgOf := map[string]string{}
	byPkg := map[string][]*file{}
	for _, f := range fs {
		pkgOf[*f.Name] = *f.Package
		byPkg[*f.Package] = append(byPkg[*f.Package], f)
	}
	var pkgs []node
	for p, files := range byPkg {
		deps := map[string]bool{}
		var enums, msgs, svcs []node
		for _, f := range files {
			for _, d := range f.Dependency {
				if pkgOf[d] != p {
					deps[pkgOf[d]] = true
				}
			}
			for _, e := range f.EnumType {
				enums = append(enums, wantEnum(e))
			}
			for _, m := range f.MessageType {
				msgs = append(msgs, wantMsg(m))
			}
			for _, s := range f.Service {
				var ms []node
				for _, m := range s.Method {
					ms = append(ms, node{sort: *m.Name, text: []string{fmt.Sprintf("method %s %q %q %v %v", *m.Name, strip(m.InputType), strip(m.OutputType), *m.ClientStreaming, *m.ServerStreaming)}})
				}
				svcs = append(svcs, node{sort: *s.Name, text: ind("service "+*s.Name, flat(ms, false))})
			}
		}
		var ds []string
		for d := range deps {
			ds = append(ds, "depends on "+d)
		}
		sort.Strings(ds)
		pkgs = append(pkgs, node{sort: p, text: ind("package "+p, ds, flat(enums, false), flat(msgs, false), flat(svcs, false))})
	}
	return flat(pkgs, false)
}

// got writes the set down in its own order.
func got(s *reflectv1.PackageSet) []string {
	enum := func(e *reflectv1.Enum) []string {
		var vs []string
		for _, v := range e.EnumValues {
			vs = append(vs, fmt.Sprintf("value %s=%d", v.Name, v.Number))
		}
		return ind("enum "+e.Name, vs)
	}
	var msg func(m *reflectv1.Message) []string
	msg = func(m *reflectv1.Message) []string {
		var ls []string
		for _, f := range m.MessageFields {
			ls = append(ls, fmt.Sprintf("field %s=%d label %d type %d %q", f.Name, f.Number, int(f.Label), int(f.Type), f.TypeName))
		}
		for _, o := range m.MessageOneofs {
			ls = append(ls, fmt.Sprintf("oneof %s %v", o.Name, o.FieldNumbers))
		}
		for _, n := range m.NestedMessages {
			ls = append(ls, msg(n)...)
		}
		for _, n := range m.NestedEnums {
			ls = append(ls, enum(n)...)
		}
		return ind("message "+m.Name, ls)
	}
	var out []string
	for _, p := range s.Packages {
		var ls []string
		for _, d := range p.DependencyNames {
			ls = append(ls, "depends on "+d)
		}
		for _, e := range p.Enums {
			ls = append(ls, enum(e)...)
		}
		for _, m := range p.Messages {
			ls = append(ls, msg(m)...)
		}
		for _, sv := range p.Services {
			var ms []string
			for _, m := range sv.ServiceMethods {
				ms = append(ms, fmt.Sprintf("method %s %q %q %v %v", m.Name, m.RequestTypeName, m.ResponseTypeName, m.ClientStreaming, m.ServerStreaming))
			}
			ls = append(ls, ind("service "+sv.Name, ms)...)
		}
		out = append(out, ind("package "+p.Name, ls)...)
	}
	return out
}

func shown(sets []*descriptor.FileDescriptorSet) string {
	var b strings.Builder
	for i, s := range sets {
		fmt.Fprintf(&b, "set %d: %v\n", i, s)
	}
	return b.String()
}

func dump(s *reflectv1.PackageSet) string {
	if s == nil {
		return "no result"
	}
	return strings.Join(got(s), "\n")
}

func main() {
	h := hz.New("C05")
	r := rand.New(rand.NewSource(h.Seed))
	g := &gen{r: r}
	n := h.N(1500, 40000)
	h.Bound("random sets of up to 6 files in up to 4 packages, nesting depth 2", fmt.Sprint(n))
	for i := 0; i < n && !h.Late(); i++ {
		fs := g.files()
		w := strings.Join(want(fs), "\n")
		for k := 0; k < 3; k++ {
			sets := g.deal(fs)
			in := shown(sets)
			h.Try("reflected set", in, func() {
				s, err := reflect.NewPackageSet(sets...)
				if err != nil {
					h.Fail("accepted", "NewPackageSet fails on a valid set", in, "no error", err.Error())
					return
				}
				h.Check("every package with everything its files declare, sorted, its dependencies, whatever the order of files", in, len(fs) > 1, w, dump(s))
				h.Check("the input is not changed", in, true, in, shown(sets))
			})
		}
		// what is refused
		bad := func(what string, f func(fs []*file) []*file) {
			var cp []*file
			for _, x := range fs {
				cp = append(cp, proto.Clone(x).(*file))
			}
			sets := g.deal(f(cp))
			in := what + "\n" + shown(sets)
			h.Try("refused: "+what, in, func() {
				s, err := reflect.NewPackageSet(sets...)
				h.Check("refused and without a result: "+what, in, true, "error, no result: true", fmt.Sprintf("error, no result: %v", err != nil && s == nil))
			})
		}
		pos := r.Intn(len(fs))
		switch i % 8 {
		case 0:
			bad("a file without a package", func(fs []*file) []*file { fs[pos].Package = nil; return fs })
		case 1:
			bad("a file with an empty package", func(fs []*file) []*file { fs[pos].Package = proto.String(""); return fs })
		case 2:
			bad("a package with a leading dot", func(fs []*file) []*file { fs[pos].Package = proto.String("." + *fs[pos].Package); return fs })
		case 3:
			bad("two different files of one name", func(fs []*file) []*file {
				o := proto.Clone(fs[pos]).(*file)
				o.MessageType = append(o.MessageType, &dmsg{Name: proto.String("Other")})
				return append(fs, o)
			})
		case 4:
			bad("two files of one name in two packages", func(fs []*file) []*file {
				o := proto.Clone(fs[pos]).(*file)
				o.Package = proto.String(o.GetPackage() + ".other")
				return append(fs, o)
			})
		case 5:
			bad("an import of a file that is missing", func(fs []*file) []*file { fs[pos].Dependency = append(fs[pos].Dependency, "missing.proto"); return fs })
		case 6:
			bad("a type name that is not fully qualified", func(fs []*file) []*file {
				fs[pos].MessageType = append(fs[pos].MessageType, &dmsg{Name: proto.String("Other"), NestedType: []*dmsg{{Name: proto.String("In"), Field: []*descriptor.FieldDescriptorProto{{Name: proto.String("f"), Number: proto.Int32(1), TypeName: proto.String("Foo")}}}}})
				return fs
			})
		case 7:
			bad("a method without a request or response type", func(fs []*file) []*file {
				m := &descriptor.MethodDescriptorProto{Name: proto.String("M"), InputType: proto.String(".a.B"), OutputType: proto.String(".a.B")}
				switch r.Intn(3) {
				case 0:
					m.InputType = nil
				case 1:
					m.OutputType = nil
				default:
					m.OutputType = proto.String("a.B")
				}
				fs[pos].Service = append(fs[pos].Service, &descriptor.ServiceDescriptorProto{Name: proto.String("S"), Method: []*descriptor.MethodDescriptorProto{m}})
				return fs
			})
		}
	}
	s, err := reflect.NewPackageSet()
	h.Check("no sets", "none", true, "<nil> 0", fmt.Sprintf("%v %d", err, len(s.GetPackages())))
	h.Done()
}
