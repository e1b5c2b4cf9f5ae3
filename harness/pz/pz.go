// Package pz generates random package sets and edits of them, and says which
// breaking changes there are between two sets, from the serialised form alone.
package pz

import (
	"fmt"
	"math/rand"
	"sort"
	"strings"

	"github.com/golang/protobuf/proto"
	"github.com/uber/prototool/internal/breaking"
	"github.com/uber/prototool/internal/extract"
	reflectv1 "github.com/uber/prototool/internal/reflect/gen/uber/proto/reflect/v1"
	"github.com/uber/prototool/internal/settings"
)

type (
	Set     = reflectv1.PackageSet
	Package = reflectv1.Package
	Message = reflectv1.Message
	Field   = reflectv1.MessageField
	Oneof   = reflectv1.MessageOneof
	Enum    = reflectv1.Enum
	Value   = reflectv1.EnumValue
	Service = reflectv1.Service
	Method  = reflectv1.ServiceMethod
)

// G is a generator.
type G struct {
	R *rand.Rand
	// Size bounds the number of children of an element.
	Size int
	Beta bool // also beta packages
	n    int
}

func (g *G) k() int { return g.R.Intn(g.Size + 1) }

var pkgNames = []string{"foo.v1", "foo.v2", "bar.v1", "bar", "a.b.c.v3", "vbeta.v1", "q.v1", "foo.v1x"}
var betaNames = []string{"foo.v1beta1", "bar.v2beta3", "baz.v1beta1", "q.v1beta2"}

func pick(r *rand.Rand, pool []string, n int) []string {
	p := append([]string{}, pool...)
	r.Shuffle(len(p), func(i, j int) { p[i], p[j] = p[j], p[i] })
	if n > len(p) {
		n = len(p)
	}
	return p[:n]
}

func (g *G) Set() *Set {
	s := &Set{}
	pool := append([]string{}, pkgNames...)
	if g.Beta {
		pool = append(pool, betaNames...)
	}
	names := pick(g.R, pool, 1+g.R.Intn(g.Size+1))
	for _, n := range names {
		s.Packages = append(s.Packages, g.pkg(n))
	}
	for _, p := range s.Packages {
		for _, n := range pick(g.R, names, g.k()) {
			if n != p.Name {
				p.DependencyNames = append(p.DependencyNames, n)
			}
		}
		sort.Strings(p.DependencyNames)
	}
	sort.Slice(s.Packages, func(i, j int) bool { return s.Packages[i].Name < s.Packages[j].Name })
	return s
}

var upper = []string{"Ab", "Bc", "Cd", "De", "Ef"}
var lower = []string{"ab", "bc", "cd", "de", "ef"}
var consts = []string{"A_B", "B_C", "C_D", "D_E", "E_F"}
var typeNames = []string{"foo.v1.Ab", "foo.v1.Bc", "bar.Ab"}

func (g *G) pkg(name string) *Package {
	p := &Package{Name: name}
	ns := pick(g.R, upper, 5)
	for i, k := 0, g.k(); i < k && i < len(ns); i++ {
		switch g.R.Intn(3) {
		case 0:
			p.Enums = append(p.Enums, g.enum(ns[i]))
		case 1:
			p.Messages = append(p.Messages, g.message(ns[i], 2))
		default:
			p.Services = append(p.Services, g.service(ns[i]))
		}
	}
	return p
}

func (g *G) enum(name string) *Enum {
	e := &Enum{Name: name}
	nums := g.R.Perm(6)
	for i, n := range pick(g.R, consts, g.k()) {
		e.EnumValues = append(e.EnumValues, &Value{Name: n, Number: int32(nums[i])})
	}
	// as with allow_alias
	if len(e.EnumValues) > 1 && g.R.Intn(4) == 0 {
		e.EnumValues[g.R.Intn(len(e.EnumValues))].Number = e.EnumValues[0].Number
	}
	return e
}

func (g *G) field(name string, number int32) *Field {
	f := &Field{Name: name, Number: number, Label: reflectv1.MessageField_Label(1 + g.R.Intn(3)), Type: reflectv1.MessageField_Type(1 + g.R.Intn(18))}
	if Named(f.Type) {
		f.TypeName = typeNames[g.R.Intn(3)]
	}
	return f
}

// Named says whether a type refers to a message or an enum.
func Named(t reflectv1.MessageField_Type) bool {
	return t == reflectv1.MessageField_TYPE_MESSAGE || t == reflectv1.MessageField_TYPE_ENUM || t == reflectv1.MessageField_TYPE_GROUP
}

func (g *G) message(name string, depth int) *Message {
	m := &Message{Name: name}
	nums := g.R.Perm(6)
	for i, n := range pick(g.R, lower, g.k()) {
		m.MessageFields = append(m.MessageFields, g.field(n, int32(nums[i]+1)))
	}
	for _, n := range pick(g.R, []string{"one", "two"}, g.R.Intn(3)) {
		m.MessageOneofs = append(m.MessageOneofs, &Oneof{Name: n})
	}
	if len(m.MessageOneofs) > 0 {
		for _, f := range m.MessageFields {
			if g.R.Intn(2) == 0 {
				o := m.MessageOneofs[g.R.Intn(len(m.MessageOneofs))]
				o.FieldNumbers = append(o.FieldNumbers, f.Number)
			}
		}
	}
	if depth > 0 {
		ns := pick(g.R, upper, 5)
		for i, k := 0, g.k(); i < k && i < len(ns); i++ {
			if g.R.Intn(3) == 0 {
				m.NestedEnums = append(m.NestedEnums, g.enum(ns[i]))
			} else {
				m.NestedMessages = append(m.NestedMessages, g.message(ns[i], depth-1))
			}
		}
	}
	return m
}

func (g *G) service(name string) *Service {
	s := &Service{Name: name}
	for _, n := range pick(g.R, upper, g.k()) {
		s.ServiceMethods = append(s.ServiceMethods, g.method(n))
	}
	return s
}

func (g *G) method(n string) *Method {
	return &Method{Name: n, RequestTypeName: typeNames[g.R.Intn(3)], ResponseTypeName: typeNames[g.R.Intn(3)], ClientStreaming: g.R.Intn(2) == 0, ServerStreaming: g.R.Intn(2) == 0}
}

// Clone copies a set.
func Clone(s *Set) *Set { return proto.Clone(s).(*Set) }

// all elements, as edit points
func walkMessages(ms []*Message, f func(*Message)) {
	for _, m := range ms {
		f(m)
		walkMessages(m.NestedMessages, f)
	}
}

func messages(s *Set) []*Message {
	var out []*Message
	for _, p := range s.Packages {
		walkMessages(p.Messages, func(m *Message) { out = append(out, m) })
	}
	return out
}

func enums(s *Set) []*Enum {
	var out []*Enum
	for _, p := range s.Packages {
		out = append(out, p.Enums...)
		walkMessages(p.Messages, func(m *Message) { out = append(out, m.NestedEnums...) })
	}
	return out
}

func services(s *Set) []*Service {
	var out []*Service
	for _, p := range s.Packages {
		out = append(out, p.Services...)
	}
	return out
}

func dropNumber(m *Message, n int32) {
	for _, o := range m.MessageOneofs {
		var k []int32
		for _, x := range o.FieldNumbers {
			if x != n {
				k = append(k, x)
			}
		}
		o.FieldNumbers = k
	}
}

func freeName(r *rand.Rand, pool []string, used []string) string {
	for _, n := range pick(r, append(append([]string{}, pool...), "Zz", "zz", "Z_Z"), 99) {
		ok := true
		for _, u := range used {
			ok = ok && u != n
		}
		if ok {
			return n
		}
	}
	return "Unused"
}

func names(m *Message) []string {
	var out []string
	for _, f := range m.MessageFields {
		out = append(out, f.Name)
	}
	for _, f := range m.MessageOneofs {
		out = append(out, f.Name)
	}
	for _, f := range m.NestedMessages {
		out = append(out, f.Name)
	}
	for _, f := range m.NestedEnums {
		out = append(out, f.Name)
	}
	return out
}

func pkgNamesOf(p *Package) []string {
	var out []string
	for _, f := range p.Messages {
		out = append(out, f.Name)
	}
	for _, f := range p.Enums {
		out = append(out, f.Name)
	}
	for _, f := range p.Services {
		out = append(out, f.Name)
	}
	return out
}

func freeNumber(m *Message) int32 {
	for n := int32(1); ; n++ {
		ok := true
		for _, f := range m.MessageFields {
			ok = ok && f.Number != n
		}
		if ok {
			return n
		}
	}
}

// Add makes one purely additive edit.
func (g *G) Add(s *Set) {
	r := g.R
	ms, es, ss := messages(s), enums(s), services(s)
	switch r.Intn(10) {
	case 0:
		var used []string
		for _, p := range s.Packages {
			used = append(used, p.Name)
		}
		s.Packages = append([]*Package{g.pkg(freeName(r, pkgNames, used))}, s.Packages...)
	case 1:
		p := s.Packages[r.Intn(len(s.Packages))]
		p.Messages = append([]*Message{g.message(freeName(r, upper, pkgNamesOf(p)), 1)}, p.Messages...)
	case 2:
		p := s.Packages[r.Intn(len(s.Packages))]
		p.Enums = append(p.Enums, g.enum(freeName(r, upper, pkgNamesOf(p))))
	case 3:
		p := s.Packages[r.Intn(len(s.Packages))]
		p.Services = append(p.Services, g.service(freeName(r, upper, pkgNamesOf(p))))
	case 4:
		if len(ms) > 0 {
			m := ms[r.Intn(len(ms))]
			m.NestedMessages = append(m.NestedMessages, g.message(freeName(r, upper, names(m)), 1))
		}
	case 5:
		if len(ms) > 0 {
			m := ms[r.Intn(len(ms))]
			m.NestedEnums = append(m.NestedEnums, g.enum(freeName(r, upper, names(m))))
		}
	case 6:
		if len(ms) > 0 {
			m := ms[r.Intn(len(ms))]
			f := g.field(freeName(r, lower, names(m)), freeNumber(m))
			m.MessageFields = append(m.MessageFields, f)
			if len(m.MessageOneofs) > 0 && r.Intn(2) == 0 {
				o := m.MessageOneofs[r.Intn(len(m.MessageOneofs))]
				o.FieldNumbers = append(o.FieldNumbers, f.Number)
			}
		}
	case 7:
		if len(es) > 0 {
			e := es[r.Intn(len(es))]
			used := []string{}
			n := int32(0)
			for _, v := range e.EnumValues {
				used = append(used, v.Name)
				if v.Number >= n {
					n = v.Number + 1
				}
			}
			if len(e.EnumValues) > 0 && r.Intn(4) == 0 {
				n = e.EnumValues[r.Intn(len(e.EnumValues))].Number
			}
			e.EnumValues = append(e.EnumValues, &Value{Name: freeName(r, consts, used), Number: n})
		}
	case 8:
		if len(ms) > 0 {
			m := ms[r.Intn(len(ms))]
			o := &Oneof{Name: freeName(r, []string{"one", "two", "three"}, names(m))}
			if r.Intn(2) == 0 {
				f := g.field(freeName(r, lower, append(names(m), o.Name)), freeNumber(m))
				m.MessageFields = append(m.MessageFields, f)
				o.FieldNumbers = []int32{f.Number}
			}
			m.MessageOneofs = append(m.MessageOneofs, o)
		}
	case 9:
		if len(ss) > 0 {
			x := ss[r.Intn(len(ss))]
			used := []string{}
			for _, v := range x.ServiceMethods {
				used = append(used, v.Name)
			}
			x.ServiceMethods = append(x.ServiceMethods, g.method(freeName(r, upper, used)))
		}
	}
}

// Edit makes one arbitrary edit; it keeps the set well formed.
func (g *G) Edit(s *Set) {
	r := g.R
	if len(s.Packages) == 0 {
		return
	}
	ms, es, ss := messages(s), enums(s), services(s)
	switch r.Intn(16) {
	case 0:
		g.Add(s)
	case 1:
		if len(s.Packages) > 1 {
			i := r.Intn(len(s.Packages))
			n := s.Packages[i].Name
			s.Packages = append(append([]*Package{}, s.Packages[:i]...), s.Packages[i+1:]...)
			for _, p := range s.Packages {
				var k []string
				for _, d := range p.DependencyNames {
					if d != n {
						k = append(k, d)
					}
				}
				p.DependencyNames = k
			}
		}
	case 2:
		p := s.Packages[r.Intn(len(s.Packages))]
		if len(p.Messages) > 0 {
			i := r.Intn(len(p.Messages))
			p.Messages = append(append([]*Message{}, p.Messages[:i]...), p.Messages[i+1:]...)
		}
	case 3:
		p := s.Packages[r.Intn(len(s.Packages))]
		if len(p.Enums) > 0 {
			i := r.Intn(len(p.Enums))
			p.Enums = append(append([]*Enum{}, p.Enums[:i]...), p.Enums[i+1:]...)
		}
	case 4:
		p := s.Packages[r.Intn(len(s.Packages))]
		if len(p.Services) > 0 {
			i := r.Intn(len(p.Services))
			p.Services = append(append([]*Service{}, p.Services[:i]...), p.Services[i+1:]...)
		}
	case 5:
		if len(ms) > 0 {
			m := ms[r.Intn(len(ms))]
			if len(m.NestedMessages) > 0 {
				i := r.Intn(len(m.NestedMessages))
				m.NestedMessages = append(append([]*Message{}, m.NestedMessages[:i]...), m.NestedMessages[i+1:]...)
			}
		}
	case 6:
		if len(ms) > 0 {
			m := ms[r.Intn(len(ms))]
			if len(m.NestedEnums) > 0 {
				i := r.Intn(len(m.NestedEnums))
				m.NestedEnums = append(append([]*Enum{}, m.NestedEnums[:i]...), m.NestedEnums[i+1:]...)
			}
		}
	case 7:
		if len(ms) > 0 {
			m := ms[r.Intn(len(ms))]
			if len(m.MessageFields) > 0 {
				i := r.Intn(len(m.MessageFields))
				dropNumber(m, m.MessageFields[i].Number)
				m.MessageFields = append(append([]*Field{}, m.MessageFields[:i]...), m.MessageFields[i+1:]...)
			}
		}
	case 8:
		if len(ms) > 0 {
			m := ms[r.Intn(len(ms))]
			if len(m.MessageOneofs) > 0 {
				i := r.Intn(len(m.MessageOneofs))
				m.MessageOneofs = append(append([]*Oneof{}, m.MessageOneofs[:i]...), m.MessageOneofs[i+1:]...)
			}
		}
	case 9:
		if len(es) > 0 {
			e := es[r.Intn(len(es))]
			if len(e.EnumValues) > 0 {
				i := r.Intn(len(e.EnumValues))
				e.EnumValues = append(append([]*Value{}, e.EnumValues[:i]...), e.EnumValues[i+1:]...)
			}
		}
	case 10:
		if len(es) > 0 {
			e := es[r.Intn(len(es))]
			if len(e.EnumValues) > 0 {
				var used []string
				for _, v := range e.EnumValues {
					used = append(used, v.Name)
				}
				e.EnumValues[r.Intn(len(e.EnumValues))].Name = freeName(r, consts, used)
			}
		}
	case 11:
		if len(ss) > 0 {
			x := ss[r.Intn(len(ss))]
			if len(x.ServiceMethods) > 0 {
				i := r.Intn(len(x.ServiceMethods))
				x.ServiceMethods = append(append([]*Method{}, x.ServiceMethods[:i]...), x.ServiceMethods[i+1:]...)
			}
		}
	case 12:
		if len(ss) > 0 {
			x := ss[r.Intn(len(ss))]
			if len(x.ServiceMethods) > 0 {
				m := x.ServiceMethods[r.Intn(len(x.ServiceMethods))]
				switch r.Intn(4) {
				case 0:
					m.RequestTypeName = typeNames[r.Intn(3)]
				case 1:
					m.ResponseTypeName = typeNames[r.Intn(3)]
				case 2:
					m.ClientStreaming = !m.ClientStreaming
				case 3:
					m.ServerStreaming = !m.ServerStreaming
				}
			}
		}
	case 13, 14:
		if len(ms) > 0 {
			m := ms[r.Intn(len(ms))]
			if len(m.MessageFields) > 0 {
				f := m.MessageFields[r.Intn(len(m.MessageFields))]
				switch r.Intn(4) {
				case 0:
					f.Name = freeName(r, lower, names(m))
				case 1:
					f.Label = reflectv1.MessageField_Label(1 + r.Intn(3))
				case 2:
					f.Type, f.TypeName = reflectv1.MessageField_Type(1+r.Intn(18)), ""
					if Named(f.Type) {
						f.TypeName = typeNames[r.Intn(3)]
					}
				case 3:
					if Named(f.Type) {
						f.TypeName = typeNames[r.Intn(3)]
					}
				}
			}
		}
	case 15:
		if len(ms) > 0 {
			m := ms[r.Intn(len(ms))]
			if len(m.MessageFields) > 0 {
				n := m.MessageFields[r.Intn(len(m.MessageFields))].Number
				dropNumber(m, n)
				if len(m.MessageOneofs) > 0 && r.Intn(4) > 0 {
					o := m.MessageOneofs[r.Intn(len(m.MessageOneofs))]
					o.FieldNumbers = append(o.FieldNumbers, n)
				}
			}
		}
	}
}

// Breaking is an expected failure: its rule and what its message names.
type Breaking struct {
	ID       string
	Mentions []string
}

// Expected lists the breaking changes from one set to the other.
func Expected(from, to *Set) []Breaking {
	var out []Breaking
	add := func(id string, mentions ...interface{}) {
		b := Breaking{ID: id}
		for _, m := range mentions {
			b.Mentions = append(b.Mentions, fmt.Sprint(m))
		}
		out = append(out, b)
	}
	enum := func(path string, a, b *Enum) {
		deleted := map[int32]bool{}
		for _, v := range a.EnumValues {
			var w []*Value
			same := false
			for _, x := range b.EnumValues {
				if x.Number == v.Number {
					w = append(w, x)
					same = same || x.Name == v.Name
				}
			}
			switch {
			case len(w) == 0:
				if !deleted[v.Number] {
					add("ENUM_VALUES_NOT_DELETED", v.Number, path)
				}
				deleted[v.Number] = true
			case same:
			case len(w) == 1:
				add("ENUM_VALUES_SAME_NAME", v.Number, path, v.Name, w[0].Name)
			default: // renamed to one of several aliases
				add("ENUM_VALUES_SAME_NAME", v.Number, path, v.Name)
			}
		}
	}
	enumList := func(path string, as, bs []*Enum) {
		for _, a := range as {
			var b *Enum
			for _, x := range bs {
				if x.Name == a.Name {
					b = x
				}
			}
			if b == nil {
				add("ENUMS_NOT_DELETED", path+"."+a.Name)
			} else {
				enum(path+"."+a.Name, a, b)
			}
		}
	}
	oneofOf := func(m *Message, n int32) string {
		for _, o := range m.MessageOneofs {
			for _, x := range o.FieldNumbers {
				if x == n {
					return o.Name
				}
			}
		}
		return ""
	}
	var msgs func(path string, as, bs []*Message)
	msgs = func(path string, as, bs []*Message) {
		for _, a := range as {
			var b *Message
			for _, x := range bs {
				if x.Name == a.Name {
					b = x
				}
			}
			p := path + "." + a.Name
			if b == nil {
				add("MESSAGES_NOT_DELETED", p)
				continue
			}
			for _, f := range a.MessageFields {
				var g *Field
				for _, x := range b.MessageFields {
					if x.Number == f.Number {
						g = x
					}
				}
				if g == nil {
					add("MESSAGE_FIELDS_NOT_DELETED", f.Number, p)
					continue
				}
				if f.Name != g.Name {
					add("MESSAGE_FIELDS_SAME_NAME", f.Number, p, f.Name, g.Name)
				}
				if f.Label != g.Label {
					add("MESSAGE_FIELDS_SAME_LABEL", f.Number, p)
				}
				if f.Type != g.Type || Named(f.Type) && f.TypeName != g.TypeName {
					add("MESSAGE_FIELDS_SAME_TYPE", f.Number, p)
				}
				if o := oneofOf(b, g.Number); o != "" && oneofOf(a, f.Number) == "" {
					add("MESSAGE_FIELDS_SAME_ONEOF", f.Number, p, o)
				}
			}
			for _, o := range a.MessageOneofs {
				var q *Oneof
				for _, x := range b.MessageOneofs {
					if x.Name == o.Name {
						q = x
					}
				}
				if q == nil {
					add("MESSAGE_ONEOFS_NOT_DELETED", o.Name, p)
					continue
				}
				for _, n := range o.FieldNumbers {
					found := false
					for _, k := range q.FieldNumbers {
						found = found || k == n
					}
					if !found {
						add("MESSAGE_ONEOFS_FIELDS_NOT_REMOVED", o.Name, p, n)
					}
				}
			}
			enumList(p, a.NestedEnums, b.NestedEnums)
			msgs(p, a.NestedMessages, b.NestedMessages)
		}
	}
	for _, a := range from.Packages {
		var b *Package
		for _, x := range to.Packages {
			if x.Name == a.Name {
				b = x
			}
		}
		if b == nil {
			add("PACKAGES_NOT_DELETED", a.Name)
			continue
		}
		enumList(a.Name, a.Enums, b.Enums)
		msgs(a.Name, a.Messages, b.Messages)
		for _, s := range a.Services {
			var t *Service
			for _, x := range b.Services {
				if x.Name == s.Name {
					t = x
				}
			}
			p := a.Name + "." + s.Name
			if t == nil {
				add("SERVICES_NOT_DELETED", p)
				continue
			}
			for _, m := range s.ServiceMethods {
				var n *Method
				for _, x := range t.ServiceMethods {
					if x.Name == m.Name {
						n = x
					}
				}
				if n == nil {
					add("SERVICE_METHODS_NOT_DELETED", m.Name, p)
					continue
				}
				if m.RequestTypeName != n.RequestTypeName {
					add("SERVICE_METHODS_SAME_REQUEST_TYPE", m.Name, p, m.RequestTypeName, n.RequestTypeName)
				}
				if m.ResponseTypeName != n.ResponseTypeName {
					add("SERVICE_METHODS_SAME_RESPONSE_TYPE", m.Name, p, m.ResponseTypeName, n.ResponseTypeName)
				}
				if m.ClientStreaming != n.ClientStreaming {
					add("SERVICE_METHODS_SAME_CLIENT_STREAMING", m.Name, p)
				}
				if m.ServerStreaming != n.ServerStreaming {
					add("SERVICE_METHODS_SAME_SERVER_STREAMING", m.Name, p)
				}
			}
		}
	}
	return out
}

// Got is a reported failure.
type Got struct{ ID, Message string }

// Run runs the real break checker.
func Run(cfg settings.BreakConfig, from, to *Set) ([]Got, error) {
	f, err := extract.NewPackageSet(from)
	if err != nil {
		return nil, fmt.Errorf("extract from: %v", err)
	}
	t, err := extract.NewPackageSet(to)
	if err != nil {
		return nil, fmt.Errorf("extract to: %v", err)
	}
	fs, err := breaking.NewRunner().Run(cfg, f, t)
	if err != nil {
		return nil, err
	}
	var out []Got
	for _, x := range fs {
		out = append(out, Got{x.LintID, x.Message})
	}
	return out, nil
}

func mentions(msg string, ms []string) bool {
	for _, m := range ms {
		// names are quoted or delimited: not part of a longer name
		ok := false
		for i := 0; ; {
			j := strings.Index(msg[i:], m)
			if j < 0 {
				break
			}
			a, b := i+j, i+j+len(m)
			if (a == 0 || !part(msg[a-1])) && (b == len(msg) || !part(msg[b]) || msg[b] == '.' && b+1 == len(msg)) {
				ok = true
				break
			}
			i = a + 1
		}
		if !ok {
			return false
		}
	}
	return true
}

func part(c byte) bool {
	return c == '_' || c == '.' || c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z'
}

// Compare returns a disagreement between what was expected and reported, or "".
func Compare(want []Breaking, got []Got) (string, string) {
	used := make([]bool, len(got))
	for _, w := range want {
		ok := false
		for i, g := range got {
			if !used[i] && g.ID == w.ID && mentions(g.Message, w.Mentions) {
				used[i], ok = true, true
				break
			}
		}
		if !ok {
			return "missing " + w.ID, fmt.Sprintf("a failure %s naming %q", w.ID, w.Mentions)
		}
	}
	for i, g := range got {
		if !used[i] {
			return "unexpected " + g.ID, fmt.Sprintf("no failure %s: %s", g.ID, g.Message)
		}
	}
	return "", ""
}

// Text renders a set on one line.
func Text(s *Set) string { return proto.CompactTextString(s) }

// Shrink removes what is not needed for the pair to fail.
func Shrink(from, to *Set, fails func(a, b *Set) bool) (*Set, *Set) {
	for round := 0; round < 6; round++ {
		changed := false
		for _, side := range []int{2, 0, 1} {
			i := 0
			for {
				a, b := Clone(from), Clone(to)
				n, done := i, false
				var ks []string
				if side == 2 {
					// the same element on both sides
					var k string
					k, done = removeNth(a, &n, "")
					if done {
						removeNth(b, nil, k)
					}
				} else if side == 0 {
					_, done = removeNth(a, &n, "")
				} else {
					_, done = removeNth(b, &n, "")
				}
				_ = ks
				if !done {
					break
				}
				if fails(a, b) {
					from, to, changed = a, b, true
				} else {
					i++
				}
			}
		}
		if !changed {
			break
		}
	}
	return from, to
}

// removeNth removes the n-th element (or the one at the given path).
func removeNth(s *Set, n *int, key string) (string, bool) {
	hit := func(path string) bool {
		if n == nil {
			return path == key
		}
		*n--
		return *n < 0
	}
	enum := func(path string, es *[]*Enum) (string, bool) {
		for i, e := range *es {
			p := path + ".e:" + e.Name
			if hit(p) {
				*es = append(append([]*Enum{}, (*es)[:i]...), (*es)[i+1:]...)
				return p, true
			}
			for j, v := range e.EnumValues {
				q := fmt.Sprint(p, ".v:", v.Name)
				if hit(q) {
					e.EnumValues = append(append([]*Value{}, e.EnumValues[:j]...), e.EnumValues[j+1:]...)
					return q, true
				}
			}
		}
		return "", false
	}
	var msgs func(path string, ms *[]*Message) (string, bool)
	msgs = func(path string, ms *[]*Message) (string, bool) {
		for i, m := range *ms {
			p := path + ".m:" + m.Name
			if hit(p) {
				*ms = append(append([]*Message{}, (*ms)[:i]...), (*ms)[i+1:]...)
				return p, true
			}
			for j, f := range m.MessageFields {
				q := fmt.Sprint(p, ".f:", f.Number)
				if hit(q) {
					dropNumber(m, f.Number)
					m.MessageFields = append(append([]*Field{}, m.MessageFields[:j]...), m.MessageFields[j+1:]...)
					return q, true
				}
			}
			for j, f := range m.MessageOneofs {
				q := fmt.Sprint(p, ".o:", f.Name)
				if hit(q) {
					m.MessageOneofs = append(append([]*Oneof{}, m.MessageOneofs[:j]...), m.MessageOneofs[j+1:]...)
					return q, true
				}
			}
			if q, ok := enum(p, &m.NestedEnums); ok {
				return q, true
			}
			if q, ok := msgs(p, &m.NestedMessages); ok {
				return q, true
			}
		}
		return "", false
	}
	for i, p := range s.Packages {
		q := p.Name
		if len(p.DependencyNames) == 0 && hit(q) {
			s.Packages = append(append([]*Package{}, s.Packages[:i]...), s.Packages[i+1:]...)
			return q, true
		}
		for j, d := range p.DependencyNames {
			x := q + ".d:" + d
			if hit(x) {
				p.DependencyNames = append(append([]string{}, p.DependencyNames[:j]...), p.DependencyNames[j+1:]...)
				return x, true
			}
		}
		if x, ok := enum(q, &p.Enums); ok {
			return x, true
		}
		if x, ok := msgs(q, &p.Messages); ok {
			return x, true
		}
		for k, sv := range p.Services {
			x := q + ".s:" + sv.Name
			if hit(x) {
				p.Services = append(append([]*Service{}, p.Services[:k]...), p.Services[k+1:]...)
				return x, true
			}
			for j, m := range sv.ServiceMethods {
				y := x + "." + m.Name
				if hit(y) {
					sv.ServiceMethods = append(append([]*Method{}, sv.ServiceMethods[:j]...), sv.ServiceMethods[j+1:]...)
					return y, true
				}
			}
		}
	}
	return "", false
}
