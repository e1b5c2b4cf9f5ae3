// Bounded check: which service a gRPC invocation reaches, and what the
// inspection commands list.
package main

import (
	"bytes"
	"fmt"
	"math/rand"
	"net"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/golang/protobuf/proto"
	"github.com/golang/protobuf/protoc-gen-go/descriptor"
	"github.com/golang/protobuf/ptypes/empty"
	"google.golang.org/grpc"

	pgrpc "github.com/uber/prototool/internal/grpc"
	"github.com/uber/prototool/internal/zverif/hz"
	"github.com/uber/prototool/internal/zverif/rz"
)

func main() {
	h := hz.New("C27")
	rng := rand.New(rand.NewSource(h.Seed))
	lookup(h, rng)
	inspect(h, rng)
	h.Done()
}

type file struct {
	pkg  string
	svcs []string
}

func lookup(h *hz.H, rng *rand.Rand) {
	var mu sync.Mutex
	var calls []string
	srv := grpc.NewServer(grpc.UnknownServiceHandler(func(_ interface{}, st grpc.ServerStream) error {
		m, _ := grpc.MethodFromServerStream(st)
		mu.Lock()
		calls = append(calls, m)
		mu.Unlock()
		if err := st.RecvMsg(&empty.Empty{}); err != nil {
			return err
		}
		return st.SendMsg(&empty.Empty{})
	}))
	lis, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	go func() { _ = srv.Serve(lis) }()
	defer srv.Stop()
	pkgs := []string{"a", "a", "a.b", "ab", "a.S", "b.a"}
	svcs := []string{"S", "S", "T", "b", "SS", "S2"}
	n := h.N(250, 3000)
	h.Bound("%d random lists of descriptor sets (up to 3 sets of up to 3 files, packages %q, sometimes none, services %q, duplicates), methods with prefix names, leading dots and malformed shapes, invoked against a local server that records every call", n, pkgs, svcs)
	for it := 0; it < n && !h.Late(); it++ {
		var sets []*descriptor.FileDescriptorSet
		var shape [][]file
		id := 0
		for s := 0; s < 1+rng.Intn(3); s++ {
			set := &descriptor.FileDescriptorSet{}
			var fs []file
			for k := 0; k < rng.Intn(4); k++ {
				f := file{pkg: hz.Pick(rng, pkgs)}
				if rng.Intn(15) == 0 {
					f.pkg = ""
				}
				id++
				m := fmt.Sprintf("M%d", id)
				full := "." + m
				fd := &descriptor.FileDescriptorProto{Name: proto.String(fmt.Sprintf("f%d.proto", id)), Syntax: proto.String("proto3"), MessageType: []*descriptor.DescriptorProto{{Name: proto.String(m)}}}
				if f.pkg != "" {
					fd.Package = proto.String(f.pkg)
					full = "." + f.pkg + full
				}
				for j := 0; j < rng.Intn(3); j++ {
					sv := hz.Pick(rng, svcs)
					f.svcs = append(f.svcs, sv)
					fd.Service = append(fd.Service, &descriptor.ServiceDescriptorProto{Name: proto.String(sv), Method: []*descriptor.MethodDescriptorProto{{Name: proto.String("Do"), InputType: proto.String(full), OutputType: proto.String(full)}}})
				}
				set.File = append(set.File, fd)
				fs = append(fs, f)
			}
			sets = append(sets, set)
			shape = append(shape, fs)
		}
		for q := 0; q < 4; q++ {
			svc := hz.Pick(rng, pkgs) + "." + hz.Pick(rng, svcs)
			if q < 2 && len(shape) > 0 {
				fs := shape[rng.Intn(len(shape))]
				if len(fs) > 0 {
					f := fs[rng.Intn(len(fs))]
					if len(f.svcs) > 0 {
						svc = f.pkg + "." + hz.Pick(rng, f.svcs)
					}
				}
			}
			method := svc + "/Do"
			switch rng.Intn(12) {
			case 0:
				method = "." + method
			case 1:
				method = svc
			case 2:
				method = svc + "/x/Do"
			case 3:
				method = svc + ".Do"
			case 4:
				method = "/Do"
			case 5:
				method = svc + "/No"
			}
			want := resolve(shape, method)
			key := fmt.Sprintf("%v %s", shape, method)
			mu.Lock()
			calls = nil
			mu.Unlock()
			out := bytes.NewBuffer(nil)
			var cp []*descriptor.FileDescriptorSet
			for _, s := range sets {
				cp = append(cp, proto.Clone(s).(*descriptor.FileDescriptorSet))
			}
			var err error
			h.Try("invoke", key, func() {
				err = pgrpc.NewHandler(pgrpc.HandlerWithCallTimeout(5*time.Second), pgrpc.HandlerWithConnectTimeout(5*time.Second)).Invoke(cp, "tcp://"+lis.Addr().String(), method, strings.NewReader("{}"), out)
			})
			mu.Lock()
			got := strings.Join(calls, " ")
			mu.Unlock()
			if want == "?" { // symbols clash elsewhere or the name has a leading dot: a call, if any, is the right one
				ok := got == "" || got == "/"+strings.TrimPrefix(method, ".") || got == "/"+method
				h.Check("a call reaches the named service", key, true, true, ok)
				continue
			}
			h.Check("service called", key, want != "", want, got)
			h.Check("error", key, want != "", want == "", err != nil)
		}
	}
}

func resolve(sets [][]file, method string) string {
	p := strings.Split(method, "/")
	if len(p) != 2 || p[0] == "" {
		return ""
	}
	name := strings.TrimPrefix(p[0], ".")
	for _, fs := range sets {
		hits := 0
		seen := map[string]bool{}
		clash := false
		for _, f := range fs {
			if f.pkg == "" {
				return ""
			}
			for _, s := range f.svcs {
				if f.pkg+"."+s == name {
					hits++
				}
				if seen[f.pkg+"."+s] {
					clash = true
				}
				seen[f.pkg+"."+s] = true
			}
			// a service named like a package
			for _, g := range fs {
				for _, s := range f.svcs {
					if g.pkg == f.pkg+"."+s || strings.HasPrefix(g.pkg, f.pkg+"."+s+".") {
						clash = true
					}
				}
			}
		}
		if hits > 1 {
			return ""
		}
		if hits == 1 {
			if anyClash(sets) || clash || strings.HasPrefix(p[0], ".") {
				return "?"
			}
			if p[1] != "Do" {
				return ""
			}
			return "/" + name + "/Do"
		}
	}
	return ""
}

// anyClash: some set is not a valid set of descriptors.
func anyClash(sets [][]file) bool {
	for _, fs := range sets {
		seen := map[string]bool{}
		for _, f := range fs {
			for _, s := range f.svcs {
				full := s
				if f.pkg != "" {
					full = f.pkg + "." + s
				}
				if seen[full] {
					return true
				}
				seen[full] = true
				for _, g := range fs {
					if g.pkg == full || strings.HasPrefix(g.pkg, full+".") {
						return true
					}
				}
			}
		}
	}
	return false
}

func inspect(h *hz.H, rng *rand.Rand) {
	base := rz.Temp()
	defer rz.Clean(base)
	pf := []string{"--protoc-bin-path", "/usr/bin/protoc", "--protoc-wkt-path", "/usr/include"}
	pkgs := []string{"a", "a.b", "ab", "a.v1", "b", "c.d.e", ""}
	n := h.N(25, 300)
	h.Bound("%d random trees of up to 6 files importing each other in packages %q (one without a package); packages, package-deps and package-importers of every package and of unknown ones", n, pkgs)
	for it := 0; it < n && !h.Late(); it++ {
		root := filepath.Join(base, fmt.Sprintf("w%d", it))
		files := map[string]string{"prototool.yaml": "protoc:\n  allow_unused_imports: true\nlint:\n  group: empty\n"}
		var pk []string
		deps := map[string]map[string]bool{}
		imps := map[string]map[string]bool{}
		all := map[string]bool{}
		for i := 0; i < 1+rng.Intn(6); i++ {
			p := hz.Pick(rng, pkgs)
			pk = append(pk, p)
			s := "syntax = \"proto3\";\n"
			if p != "" {
				s += "package " + p + ";\n"
				all[p] = true
			}
			for j := 0; j < i; j++ {
				if rng.Intn(3) > 0 {
					continue
				}
				s += fmt.Sprintf("import \"d%d/f%d.proto\";\n", j%2, j)
				q := pk[j]
				if p != q {
					if deps[p] == nil {
						deps[p] = map[string]bool{}
					}
					if imps[q] == nil {
						imps[q] = map[string]bool{}
					}
					if q != "" {
						deps[p][q] = true
					}
					if p != "" {
						imps[q][p] = true
					}
				}
			}
			files[fmt.Sprintf("d%d/f%d.proto", i%2, i)] = s + fmt.Sprintf("message M%d {}\n", i)
		}
		rz.Write(root, files)
		key := fmt.Sprint(files)
		list := func(m map[string]bool) string {
			ks := rz.SortedKeys(m)
			sort.Strings(ks)
			return strings.Join(ks, "\n")
		}
		r := rz.CLI(root, append([]string{"x", "inspect", "packages"}, pf...)...)
		none := false
		for _, p := range pk {
			none = none || p == ""
		}
		if none { // the reflected schema has packages only
			h.Check("a file without a package is refused", key, true, false, r.Code == 0)
			_ = os.RemoveAll(root)
			continue
		}
		h.Check("packages", key, len(all) > 1, list(all), strings.Join(rz.Lines(r.Out), "\n"))
		for _, p := range []string{"a", "a.b", "ab", "b", "a.v1", "c.d.e", "c.d", "A"} {
			for _, c := range []string{"package-deps", "package-importers"} {
				r := rz.CLI(root, append([]string{"x", "inspect", c, "--name", p}, pf...)...)
				if !all[p] {
					h.Check(c+" of an unknown package", key+p, true, false, r.Code == 0)
					continue
				}
				m := deps[p]
				if c == "package-importers" {
					m = imps[p]
				}
				h.Check(c, key+p, len(m) > 0, "0 "+list(m), fmt.Sprintf("%d %s", r.Code, strings.Join(rz.Lines(r.Out), "\n")))
			}
		}
		_ = os.RemoveAll(root)
	}
}
