// Bounded check of extraction: the maps of the extracted set are walked and
// compared with a walk of the serialised set.
package main

import (
	"fmt"
	"regexp"
	"sort"
	"strings"

	"github.com/uber/prototool/internal/extract"
	"github.com/uber/prototool/internal/zverif/hz"
	"github.com/uber/prototool/internal/zverif/pz"
)

var beta = regexp.MustCompile(`\.v0*[1-9][0-9]*beta0*[1-9][0-9]*$`)

// sharing names the first value with the number.
func sharing(vs []*pz.Value, n int32) string {
	for _, v := range vs {
		if v.Number == n {
			return v.Name
		}
	}
	return ""
}

// expectedLines walks the serialised set.
func expectedLines(s *pz.Set, noBeta bool) []string {
	var out []string
	add := func(f string, a ...interface{}) { out = append(out, fmt.Sprintf(f, a...)) }
	keep := func(n string) bool { return !noBeta || !beta.MatchString(n) }
	enum := func(path string, e *pz.Enum) {
		add("enum %s", path)
		for _, v := range e.EnumValues {
			add("value %s %s by name", path, v.Name)
			// one of those sharing the number
			if n := sharing(e.EnumValues, v.Number); n == v.Name {
				add("value %s %d %s by number", path, v.Number, n)
			}
		}
	}
	var msg func(path string, m *pz.Message)
	msg = func(path string, m *pz.Message) {
		add("message %s", path)
		for _, f := range m.MessageFields {
			one := ""
			for _, o := range m.MessageOneofs {
				for _, n := range o.FieldNumbers {
					if n == f.Number {
						one = o.Name
					}
				}
			}
			add("field %s %s by name", path, f.Name)
			add("field %s %d %s oneof %q %v %v %s", path, f.Number, f.Name, one, f.Label, f.Type, f.TypeName)
		}
		for _, o := range m.MessageOneofs {
			var ks, ns []string
			for _, n := range o.FieldNumbers {
				ks = append(ks, fmt.Sprint(n))
				for _, f := range m.MessageFields {
					if f.Number == n {
						ns = append(ns, f.Name)
					}
				}
			}
			sort.Strings(ks)
			sort.Strings(ns)
			add("oneof %s %s %v %v", path, o.Name, ks, ns)
		}
		for _, e := range m.NestedEnums {
			enum(path+"."+e.Name, e)
		}
		for _, n := range m.NestedMessages {
			msg(path+"."+n.Name, n)
		}
	}
	for _, p := range s.Packages {
		if !keep(p.Name) {
			continue
		}
		add("package %s", p.Name)
		for _, d := range p.DependencyNames {
			if keep(d) {
				add("package %s depends on %s", p.Name, d)
				add("package %s is imported by %s", d, p.Name)
			}
		}
		pre := p.Name + "."
		if p.Name == "" {
			pre = ""
		}
		for _, e := range p.Enums {
			enum(pre+e.Name, e)
		}
		for _, m := range p.Messages {
			msg(pre+m.Name, m)
		}
		for _, v := range p.Services {
			add("service %s", pre+v.Name)
			for _, m := range v.ServiceMethods {
				add("method %s %s %s %s %v %v", pre+v.Name, m.Name, m.RequestTypeName, m.ResponseTypeName, m.ClientStreaming, m.ServerStreaming)
			}
		}
	}
	sort.Strings(out)
	return out
}

// gotLines walks the maps.
func gotLines(s *extract.PackageSet) []string {
	var out []string
	add := func(f string, a ...interface{}) { out = append(out, fmt.Sprintf(f, a...)) }
	bad := func(f string, a ...interface{}) { add("INCONSISTENT "+f, a...) }
	enum := func(k string, e *extract.Enum) {
		path := e.FullyQualifiedName()
		add("enum %s", path)
		if k != e.ProtoMessage().Name {
			bad("enum %s under key %s", path, k)
		}
		for k, v := range e.ValueNameToValue() {
			add("value %s %s by name", path, k)
			if v.ProtoMessage().Name != k || v.Enum() != e {
				bad("value %s %s", path, k)
			}
		}
		for k, v := range e.ValueNumberToValue() {
			n := v.ProtoMessage().Name
			for _, x := range e.ProtoMessage().EnumValues {
				if x.Name == n && x.Number == k {
					n = sharing(e.ProtoMessage().EnumValues, k)
					break
				}
			}
			add("value %s %d %s by number", path, k, n)
			if v.ProtoMessage().Number != k || v.Enum() != e {
				bad("value %s %d", path, k)
			}
		}
	}
	var msg func(k string, m *extract.Message)
	msg = func(k string, m *extract.Message) {
		path := m.FullyQualifiedName()
		add("message %s", path)
		if k != m.ProtoMessage().Name {
			bad("message %s under key %s", path, k)
		}
		for k, f := range m.FieldNameToField() {
			add("field %s %s by name", path, k)
			if f.ProtoMessage().Name != k || f.Message() != m {
				bad("field %s %s", path, k)
			}
		}
		for k, f := range m.FieldNumberToField() {
			one := ""
			if o := f.MessageOneof(); o != nil {
				one = o.ProtoMessage().Name
				if m.OneofNameToOneof()[one] != o {
					bad("oneof of field %s %d", path, k)
				}
			}
			x := f.ProtoMessage()
			add("field %s %d %s oneof %q %v %v %s", path, k, x.Name, one, x.Label, x.Type, x.TypeName)
			if x.Number != k || f.Message() != m {
				bad("field %s %d", path, k)
			}
		}
		for k, o := range m.OneofNameToOneof() {
			ks, ns := []string{}, []string{}
			for n, f := range o.FieldNumberToField() {
				ks = append(ks, fmt.Sprint(n))
				if m.FieldNumberToField()[n] != f {
					bad("field %d of oneof %s %s", n, path, k)
				}
			}
			for n, f := range o.FieldNameToField() {
				ns = append(ns, n)
				if f.ProtoMessage().Name != n {
					bad("field %s of oneof %s %s", n, path, k)
				}
			}
			sort.Strings(ks)
			sort.Strings(ns)
			add("oneof %s %s %v %v", path, k, ks, ns)
			if o.Message() != m || o.ProtoMessage().Name != k {
				bad("oneof %s %s", path, k)
			}
		}
		for k, e := range m.NestedEnumNameToEnum() {
			enum(k, e)
		}
		for k, n := range m.NestedMessageNameToMessage() {
			msg(k, n)
		}
	}
	for k, p := range s.PackageNameToPackage() {
		add("package %s", k)
		if p.FullyQualifiedName() != k || p.PackageSet() != s {
			bad("package %s under %s", p.FullyQualifiedName(), k)
		}
		for d, x := range p.DependencyNameToDependency() {
			add("package %s depends on %s", k, d)
			if s.PackageNameToPackage()[d] != x {
				bad("dependency %s of %s", d, k)
			}
		}
		for d, x := range p.ImporterNameToImporter() {
			add("package %s is imported by %s", k, d)
			if s.PackageNameToPackage()[d] != x {
				bad("importer %s of %s", d, k)
			}
		}
		for k, e := range p.EnumNameToEnum() {
			enum(k, e)
		}
		for k, m := range p.MessageNameToMessage() {
			msg(k, m)
		}
		for k, v := range p.ServiceNameToService() {
			path := v.FullyQualifiedName()
			add("service %s", path)
			if v.ProtoMessage().Name != k {
				bad("service %s under %s", path, k)
			}
			for k, m := range v.MethodNameToMethod() {
				x := m.ProtoMessage()
				add("method %s %s %s %s %v %v", path, k, x.RequestTypeName, x.ResponseTypeName, x.ClientStreaming, x.ServerStreaming)
				if x.Name != k || m.Service() != v {
					bad("method %s %s", path, k)
				}
			}
		}
	}
	sort.Strings(out)
	return out
}

func diff(want, got []string) (string, string) {
	w := map[string]int{}
	for _, l := range want {
		w[l]++
	}
	for _, l := range got {
		w[l]--
		if w[l] < 0 {
			return "nothing else", l
		}
	}
	for _, l := range want {
		if w[l] > 0 {
			return l, "missing"
		}
	}
	return "", ""
}

func main() {
	h := hz.New("C04")
	n := h.N(8000, 150000)
	h.Bound("%d random package sets (up to 5 packages, 6 children per element, 3 levels of messages), extracted with and without beta packages; sets with a dependency or a oneof field that does not exist", n)
	keys := map[string]int{}
	for i := 0; i < n && !h.Late(); i++ {
		g := &pz.G{R: h.Rand, Size: 1 + i%6, Beta: true}
		set := g.Set()
		key := pz.Text(set)
		for _, noBeta := range []bool{false, true} {
			rule := fmt.Sprintf("withoutBeta=%v", noBeta)
			run := func(set *pz.Set) (string, string) {
				before := pz.Text(set)
				s, err := extract.NewPackageSet(set)
				if err == nil && noBeta {
					s, err = s.WithoutBeta()
				}
				if err != nil {
					return "no error", err.Error()
				}
				if a := pz.Text(set); a != before {
					return "input unchanged", a
				}
				return diff(expectedLines(set, noBeta), gotLines(s))
			}
			h.Eval(rule, key, len(set.Packages) > 0)
			h.Try(rule, key, func() {
				w, g := run(set)
				if w == "" && g == "" {
					return
				}
				kind := strings.SplitN(w+" ", " ", 2)[0] + "/" + strings.SplitN(g+" ", " ", 2)[0]
				if keys[rule+kind]++; keys[rule+kind] > 2 {
					h.R.NumFailures++
					return
				}
				a, _ := pz.Shrink(set, set, func(x, y *pz.Set) bool { w, g := run(x); return w+g != "" && w != "no error" })
				w, g = run(a)
				h.Fail(rule+": "+kind, rule, pz.Text(a), w, g)
			})
		}
		// a dangling reference is an error, never a partial set
		if i%4 == 0 && len(set.Packages) > 0 {
			c := pz.Clone(set)
			p := c.Packages[h.Rand.Intn(len(c.Packages))]
			p.DependencyNames = append(p.DependencyNames, "no.such.pkg.v1")
			h.Eval("dangling dependency", key, true)
			h.Try("dangling dependency", key, func() {
				if s, err := extract.NewPackageSet(c); err == nil || s != nil {
					h.Fail("dangling dependency", "accepted", pz.Text(c), "an error", "none")
				}
			})
			c = pz.Clone(set)
			for _, p := range c.Packages {
				for _, m := range p.Messages {
					for ; len(m.NestedMessages) > 0; m = m.NestedMessages[0] {
					}
					m.MessageOneofs = append(m.MessageOneofs, &pz.Oneof{Name: "dangling", FieldNumbers: []int32{999}})
					h.Eval("dangling oneof field", key, true)
					h.Try("dangling oneof field", key, func() {
						if s, err := extract.NewPackageSet(c); err == nil || s != nil {
							h.Fail("dangling oneof field", "accepted", pz.Text(c), "an error", "none")
						}
					})
				}
			}
		}
	}
	h.Done()
}
