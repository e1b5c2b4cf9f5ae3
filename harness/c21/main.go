// Bounded check of descriptor set merging and sorting.
package main

import (
	"fmt"
	"math/rand"
	"sort"
	"strings"

	"github.com/golang/protobuf/proto"
	"github.com/golang/protobuf/protoc-gen-go/descriptor"
	"github.com/uber/prototool/internal/desc"
	"github.com/uber/prototool/internal/zverif/hz"
)

type file struct {
	nilf    bool
	name    string
	hasName bool
	content int
}

func (f file) build() *descriptor.FileDescriptorProto {
	if f.nilf {
		return nil
	}
	p := &descriptor.FileDescriptorProto{}
	if f.hasName {
		p.Name = proto.String(f.name)
	}
	// contents that differ in one place only
	switch f.content {
	case 1:
		p.Package = proto.String("p")
	case 2:
		p.Syntax = proto.String("proto3")
	case 3:
		p.MessageType = []*descriptor.DescriptorProto{{Name: proto.String("M")}}
	case 4:
		p.MessageType = []*descriptor.DescriptorProto{{Name: proto.String("M"), Field: []*descriptor.FieldDescriptorProto{{Name: proto.String("a"), Number: proto.Int32(1)}}}}
	case 5:
		p.MessageType = []*descriptor.DescriptorProto{{Name: proto.String("M"), Field: []*descriptor.FieldDescriptorProto{{Name: proto.String("a"), Number: proto.Int32(2)}}}}
	case 6:
		p.Dependency = []string{"a.proto", "b.proto"}
	case 7:
		p.Dependency = []string{"b.proto", "a.proto"}
	case 8:
		p.SourceCodeInfo = &descriptor.SourceCodeInfo{Location: []*descriptor.SourceCodeInfo_Location{{Path: []int32{1}, Span: []int32{1, 2, 3}, LeadingComments: proto.String("c")}}}
	case 10:
		p.SourceCodeInfo = &descriptor.SourceCodeInfo{Location: []*descriptor.SourceCodeInfo_Location{{Path: []int32{1}, Span: []int32{1, 2, 3}, LeadingComments: proto.String("d")}}}
	case 11:
		p.PublicDependency = []int32{0}
		p.Dependency = []string{"a.proto", "b.proto"}
	case 12:
		p.Options = &descriptor.FileOptions{JavaPackage: proto.String("y")}
	case 13:
		p.EnumType = []*descriptor.EnumDescriptorProto{{Name: proto.String("M")}}
	case 14:
		p.Service = []*descriptor.ServiceDescriptorProto{{Name: proto.String("M")}}
	case 15:
		p.MessageType = []*descriptor.DescriptorProto{{Name: proto.String("N")}}
	case 16:
		p.XXX_unrecognized = []byte{0xa0, 0x06, 0x01}
	case 9:
		p.Options = &descriptor.FileOptions{JavaPackage: proto.String("x")}
	}
	return p
}

func (f file) String() string {
	if f.nilf {
		return "nil"
	}
	if !f.hasName {
		return fmt.Sprintf("unnamed#%d", f.content)
	}
	return fmt.Sprintf("%q#%d", f.name, f.content)
}

func show(fs []*descriptor.FileDescriptorProto) string {
	var s []string
	for _, f := range fs {
		if f == nil {
			s = append(s, "nil")
			continue
		}
		s = append(s, "{"+proto.CompactTextString(f)+"}")
	}
	return strings.Join(s, " ")
}

func main() {
	h := hz.New("C21")
	rng := rand.New(rand.NewSource(h.Seed))
	names := []string{"a.proto", "b.proto", "a/a.proto", "B.proto", "c.proto", "a-b.proto", "aa.proto"}
	pick := func(clean bool) file {
		f := file{name: names[rng.Intn(len(names))], hasName: true, content: rng.Intn(17)}
		if !clean {
			switch rng.Intn(25) {
			case 0:
				f.nilf = true
			case 1:
				f.hasName = false
			case 2:
				f.name = ""
			}
		}
		return f
	}
	N := h.N(6000, 120000)
	// every pair of contents under one name
	for a := 0; a < 17; a++ {
		for b := 0; b < 17; b++ {
			one := &descriptor.FileDescriptorSet{File: []*descriptor.FileDescriptorProto{file{name: "a.proto", hasName: true, content: a}.build()}}
			two := &descriptor.FileDescriptorSet{File: []*descriptor.FileDescriptorProto{file{name: "b.proto", hasName: true, content: b}.build(), file{name: "a.proto", hasName: true, content: b}.build()}}
			key := fmt.Sprintf("contents %d and %d under one name", a, b)
			h.Try("contents", key, func() {
				_, err := desc.MergeFileDescriptorSets([]*descriptor.FileDescriptorSet{one, two})
				h.Check("contents", key, true, a != b, err != nil)
				_, err = desc.MergeFileDescriptorSets([]*descriptor.FileDescriptorSet{{File: append(one.File, two.File...)}})
				h.Check("contents in one set", key, true, a != b, err != nil)
			})
		}
	}
	for i := 0; i < N && !h.Late(); i++ {
		// a fixed content per name, with an occasional change in it
		content := map[string]int{}
		for _, n := range names {
			content[n] = rng.Intn(17)
		}
		clean := rng.Intn(3) > 0
		var sets [][]file
		var nils []bool
		for s, n := 0, rng.Intn(5); s < n; s++ {
			var fs []file
			for k, m := 0, rng.Intn(6); k < m; k++ {
				f := pick(clean)
				if clean || rng.Intn(6) > 0 {
					f.content = content[f.name]
				}
				fs = append(fs, f)
			}
			sets = append(sets, fs)
			nils = append(nils, !clean && rng.Intn(20) == 0)
		}
		var in, keep []*descriptor.FileDescriptorSet
		for s, fs := range sets {
			if nils[s] {
				in, keep = append(in, nil), append(keep, nil)
				continue
			}
			a, b := &descriptor.FileDescriptorSet{}, &descriptor.FileDescriptorSet{}
			for _, f := range fs {
				a.File, b.File = append(a.File, f.build()), append(b.File, f.build())
			}
			in, keep = append(in, a), append(keep, b)
		}
		want := map[string]int{}
		bad := false
		total := 0
		for s, fs := range sets {
			bad = bad || nils[s]
			if nils[s] {
				continue
			}
			for _, f := range fs {
				total++
				if f.nilf || !f.hasName || f.name == "" {
					bad = true
					continue
				}
				if c, ok := want[f.name]; ok && c != f.content {
					bad = true
				}
				want[f.name] = f.content
			}
		}
		key := fmt.Sprintf("merge %v nil sets %v", sets, nils)
		h.Try("merge", key, func() {
			got, err := desc.MergeFileDescriptorSets(in)
			if bad {
				h.Check("merge fails", key, true, "an error", map[bool]string{true: "an error", false: "no error"}[err != nil])
				return
			}
			if err != nil {
				h.Check("merge succeeds", key, total > 0, "no error", err.Error())
				return
			}
			var ns []string
			for n := range want {
				ns = append(ns, n)
			}
			sort.Strings(ns)
			var w []*descriptor.FileDescriptorProto
			for _, n := range ns {
				w = append(w, file{name: n, hasName: true, content: want[n]}.build())
			}
			h.Check("merge result", key, len(want) < total || len(in) > 1, show(w), show(got.File))
			for s := range in {
				if in[s] != nil {
					h.Check("merge leaves inputs alone", fmt.Sprintf("%s set %d", key, s), len(in[s].File) > 1, show(keep[s].File), show(in[s].File))
				}
			}
			// the order of the sets does not matter
			rng.Shuffle(len(in), func(a, b int) { in[a], in[b] = in[b], in[a] })
			again, err := desc.MergeFileDescriptorSets(in)
			if err != nil {
				h.Check("merge order", key, true, "no error", err.Error())
			} else {
				h.Check("merge order", key, len(in) > 1, show(got.File), show(again.File))
			}
		})

		// sorting
		var set []file
		n := rng.Intn(7)
		perm := rng.Perm(len(names))
		for k := 0; k < n && k < len(perm); k++ {
			set = append(set, file{name: names[perm[k]], hasName: true, content: rng.Intn(17)})
		}
		if len(set) > 0 {
			switch rng.Intn(8) {
			case 0:
				set[rng.Intn(len(set))].name = ""
			case 1:
				set[rng.Intn(len(set))].hasName = false
			case 2:
				set = append(set, set[rng.Intn(len(set))])
			}
		}
		target := file{name: names[rng.Intn(len(names))], hasName: true, content: rng.Intn(17)}
		same := false
		if len(set) > 0 && rng.Intn(4) > 0 {
			target, same = set[rng.Intn(len(set))], true
		}
		a, b := &descriptor.FileDescriptorSet{}, &descriptor.FileDescriptorSet{}
		var tp *descriptor.FileDescriptorProto
		for _, f := range set {
			a.File, b.File = append(a.File, f.build()), append(b.File, f.build())
			if same && f == target {
				tp = a.File[len(a.File)-1]
			}
		}
		if tp == nil || rng.Intn(2) == 0 {
			tp = target.build()
		}
		seen := map[string]bool{}
		bad = false
		for _, f := range set {
			if !f.hasName || f.name == "" || seen[f.name] {
				bad = true
			}
			seen[f.name] = true
		}
		bad = bad || !seen[target.name]
		skey := fmt.Sprintf("sort %v for %v", set, target)
		h.Try("sort", skey, func() {
			got, err := desc.SortFileDescriptorSet(a, tp)
			if bad {
				h.Check("sort fails", skey, true, "an error", map[bool]string{true: "an error", false: "no error"}[err != nil])
				return
			}
			if err != nil {
				h.Check("sort succeeds", skey, true, "no error", err.Error())
				return
			}
			var w []*descriptor.FileDescriptorProto
			for _, f := range set {
				if f.name != target.name {
					w = append(w, f.build())
				}
			}
			w = append(w, target.build())
			h.Check("sort result", skey, len(set) > 1, show(w), show(got.File))
			h.Check("sort leaves the input alone", skey, len(set) > 1, show(b.File), show(a.File))
		})
	}
	h.Bound("random lists of up to 4 sets of up to 5 files over 7 names and 17 contents, with nil sets, nil files and missing names; sorting of sets of up to 8 files")
	h.Done()
}
