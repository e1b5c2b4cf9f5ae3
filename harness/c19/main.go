// Bounded check of the protoc command lines of generation and compilation.
package main

import (
	"fmt"
	"io/ioutil"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/uber/prototool/internal/zverif/hz"
	"github.com/uber/prototool/internal/zverif/rz"
)

type plugin struct {
	name, typ, flags, output, path, suffix string
	imports, info                          bool
}

const wktGo = `any=github.com/golang/protobuf/ptypes/any
api=google.golang.org/genproto/protobuf/api
compiler/plugin=github.com/golang/protobuf/protoc-gen-go/plugin
descriptor=github.com/golang/protobuf/protoc-gen-go/descriptor
duration=github.com/golang/protobuf/ptypes/duration
empty=github.com/golang/protobuf/ptypes/empty
field_mask=google.golang.org/genproto/protobuf/field_mask
source_context=google.golang.org/genproto/protobuf/source_context
struct=github.com/golang/protobuf/ptypes/struct
timestamp=github.com/golang/protobuf/ptypes/timestamp
type=google.golang.org/genproto/protobuf/ptype
wrappers=github.com/golang/protobuf/ptypes/wrappers`

const wktGogo = `any=github.com/gogo/protobuf/types
api=google.golang.org/genproto/protobuf/api
compiler/plugin=github.com/gogo/protobuf/protoc-gen-gogo/plugin
descriptor=github.com/gogo/protobuf/protoc-gen-gogo/descriptor
duration=github.com/gogo/protobuf/types
empty=github.com/gogo/protobuf/types
field_mask=github.com/gogo/protobuf/types
source_context=google.golang.org/genproto/protobuf/source_context
struct=github.com/gogo/protobuf/types
timestamp=github.com/gogo/protobuf/types
type=google.golang.org/genproto/protobuf/ptype
wrappers=github.com/gogo/protobuf/types`

func main() {
	h := hz.New("C19")
	base := rz.Temp()
	defer rz.Clean(base)
	fake := filepath.Join(base, "protoc")
	rec := filepath.Join(base, "rec")
	// records its arguments and complains when the output directory is missing
	if err := ioutil.WriteFile(fake, []byte("#!/bin/sh\n(flock 9; echo \"$0 $*\" >> "+rec+") 9>"+base+"/lock\nfor a in \"$@\"; do case $a in --*_out=*) d=${a##*[:=]}; case $d in *.zip) d=${d%/*};; esac; test -d \"$d\" || echo \"no $d\" >&2;; esac; done\n"), 0o755); err != nil {
		panic(err)
	}
	wkt := filepath.Join(base, "wkt")
	rz.Write(wkt, map[string]string{"google/protobuf/any.proto": "syntax = \"proto3\";\n"})
	pf := []string{"--protoc-bin-path", fake, "--protoc-wkt-path", wkt}
	rng := rand.New(rand.NewSource(h.Seed))
	pool := []string{"a.proto", "b.proto", "foo/a.proto", "foo/b.proto", "foo/bar/c.proto", "foobar/d.proto", "foo/bar.x/e.proto", "third/google/f.proto", "third2/g.proto"}
	incs := []string{"third", "./foo", "foo", ".", "../out", "foo/bar", "third2", "/abs/inc"}
	names := []string{"go", "gogo", "java", "grpc-cpp", "descriptor_set", "x"}
	n := h.N(150, 2000)
	h.Bound("%d random configurations (includes from %q; up to three plugins of every type with flags, path, suffix; extra modifiers) over subsets of %d files; generate --dry-run, generate and compile --dry-run, from two working directories", n, incs, len(pool))
	for it := 0; it < n; it++ {
		root := filepath.Join(base, fmt.Sprintf("w%d", it))
		files := map[string]string{}
		for _, f := range pool {
			if rng.Intn(3) > 0 {
				files[f] = "syntax = \"proto3\";\n"
			}
		}
		var inc []string
		for _, i := range incs {
			if rng.Intn(4) == 0 {
				inc = append(inc, i)
			}
		}
		imp := []string{"", "ex.com/r", "ex.com/r/gen/"}[rng.Intn(3)]
		extra := map[string]string{}
		for _, k := range []string{"foo/a.proto", "other/x.proto", "google/protobuf/any.proto"} {
			if rng.Intn(4) == 0 {
				extra[k] = "ex.com/extra"
			}
		}
		var ps []plugin
		perm := rng.Perm(len(names))
		for i := 0; i < rng.Intn(4); i++ {
			p := plugin{name: names[perm[i]]}
			p.output = []string{"gen/go", "../gen", ".", "./gen/../g2", filepath.Join(base, "absout")}[rng.Intn(5)]
			if imp != "" {
				p.typ = []string{"", "go", "gogo", "GO"}[rng.Intn(4)]
			}
			p.flags = []string{"", "plugins=grpc", "a=b,c"}[rng.Intn(3)]
			p.path = []string{"", "/bin/cat", "cat"}[rng.Intn(3)]
			if rng.Intn(4) == 0 {
				p.suffix = "zip"
			}
			if p.name == "descriptor_set" {
				p.imports, p.info = rng.Intn(2) == 0, rng.Intn(2) == 0
				if rng.Intn(2) == 0 {
					p.suffix = "zip"
				}
			}
			ps = append(ps, p)
		}
		conf := "protoc:\n  version: 3.0.0\n"
		if len(inc) > 0 {
			conf += "  includes:\n"
			for _, i := range inc {
				conf += "    - " + i + "\n"
			}
		}
		conf += "generate:\n  go_options:\n    import_path: \"" + imp + "\"\n"
		if len(extra) > 0 {
			conf += "    extra_modifiers:\n"
			for k, v := range extra {
				conf += "      " + k + ": " + v + "\n"
			}
		}
		if len(ps) > 0 {
			conf += "  plugins:\n"
		}
		for _, p := range ps {
			conf += fmt.Sprintf("    - name: %s\n      type: %q\n      flags: %q\n      output: %q\n      path: %q\n      file_suffix: %q\n", p.name, p.typ, p.flags, p.output, p.path, p.suffix)
			if p.imports {
				conf += "      include_imports: true\n"
			}
			if p.info {
				conf += "      include_source_info: true\n"
			}
		}
		files["prototool.yaml"] = conf
		rz.Write(root, files)
		if err := os.MkdirAll(filepath.Join(root, "foo"), 0o755); err != nil {
			panic(err)
		}
		// expected
		dirs := map[string][]string{}
		for _, f := range pool {
			if _, ok := files[f]; ok {
				d := filepath.Dir(filepath.Join(root, f))
				dirs[d] = append(dirs[d], filepath.Join(root, f))
			}
		}
		expected := func(target string, gen bool) []string {
			var out []string
			for d, fs := range dirs {
				if !rz.Under(d, target) {
					continue
				}
				w := []string{fake}
				seen := map[string]bool{}
				covered := rz.Under(d, wkt)
				for _, i := range inc {
					a := i
					if !filepath.IsAbs(a) {
						a = filepath.Join(root, a)
					}
					covered = covered || rz.Under(d, a) || a == root
					seen[a] = true
				}
				seen[wkt] = true
				if !covered {
					seen[root] = true
				}
				for _, i := range rz.SortedKeys(seen) {
					w = append(w, "-I", i)
				}
				tail := append([]string{}, fs...)
				sort.Strings(tail)
				if !gen || len(ps) == 0 {
					out = append(out, strings.Join(append(append(w[:len(w):len(w)], "-o", "/dev/null"), tail...), " "))
					continue
				}
				for _, p := range ps {
					rel, abs := p.output, filepath.Join(root, p.output)
					if filepath.IsAbs(p.output) {
						rel, _ = filepath.Rel(root, p.output)
						abs = p.output
					}
					fl := []string{}
					if p.flags != "" {
						fl = append(fl, strings.Split(p.flags, ",")...)
					}
					m := map[string]string{}
					if t := strings.ToLower(p.typ); t != "" {
						src := wktGo
						if t == "gogo" {
							src = wktGogo
						}
						for od, ofs := range dirs {
							if od == d {
								continue
							}
							for _, of := range ofs {
								r := strings.TrimPrefix(of, root+"/")
								m[r] = filepath.Join(imp, rel, filepath.Dir(r))
							}
						}
						for _, l := range strings.Split(src, "\n") {
							kv := strings.Split(l, "=")
							m["google/protobuf/"+kv[0]+".proto"] = kv[1]
						}
						for k, v := range extra {
							m[k] = v
						}
					}
					for k, v := range m {
						fl = append(fl, "M"+k+"="+v)
					}
					sort.Strings(fl)
					o := abs
					if p.suffix != "" {
						r, _ := filepath.Rel(root, d)
						b := filepath.Base(d)
						o = filepath.Join(abs, r, b+"."+p.suffix)
					}
					c := append([]string{}, w...)
					if len(fl) > 0 {
						c = append(c, "--"+p.name+"_out="+strings.Join(fl, ",")+":"+o)
					} else {
						c = append(c, "--"+p.name+"_out="+o)
					}
					if p.path != "" {
						bin := p.path
						if bin == "cat" {
							bin = lookCat
						}
						c = append(c, "--plugin=protoc-gen-"+p.name+"="+bin)
					}
					if p.imports {
						c = append(c, "--include_imports")
					}
					if p.info {
						c = append(c, "--include_source_info")
					}
					out = append(out, strings.Join(append(c, tail...), " "))
				}
			}
			sort.Strings(out)
			return out
		}
		for _, wd := range []string{root, filepath.Join(root, "foo")} {
			key := fmt.Sprintf("in %s: %s files %v", strings.TrimPrefix(wd, base), strings.Replace(conf, base, "", -1), len(dirs))
			cmp := func(rule string, want []string, r rz.Result, lines []string) {
				var got []string
				for _, l := range lines {
					got = append(got, normal(l))
				}
				sort.Strings(got)
				w, g := strings.Join(want, "\n"), strings.Join(got, "\n")
				if w != g || r.Code != 0 || r.Panic != "" {
					var d []string
					ws, gs := map[string]bool{}, map[string]bool{}
					for _, x := range want {
						ws[x] = true
					}
					for _, x := range got {
						gs[x] = true
						if !ws[x] {
							d = append(d, "unexpected: "+x)
						}
					}
					for _, x := range want {
						if !gs[x] {
							d = append(d, "missing: "+x)
						}
					}
					h.Check(rule, key, true, "", strings.Replace(fmt.Sprintf("%s (exit %d %s %d/%d)", strings.Join(d, "\n"), r.Code, r.Panic+r.Err, len(got), len(want)), base, "", -1))
					return
				}
				h.Check(rule, key, len(want) > 0, "", "")
			}
			h.Try("gen-dry", key, func() {
				r := rz.CLI(wd, append([]string{"generate", "--dry-run"}, pf...)...)
				cmp("gen-dry", expected(wd, true), r, rz.Lines(r.Out))
			})
			h.Try("compile-dry", key, func() {
				r := rz.CLI(wd, append([]string{"compile", "--dry-run"}, pf...)...)
				cmp("compile-dry", expected(wd, false), r, rz.Lines(r.Out))
			})
			if it%5 == 0 {
				h.Try("gen", key, func() {
					_ = os.Remove(rec)
					r := rz.CLI(wd, append([]string{"generate"}, pf...)...)
					b, _ := ioutil.ReadFile(rec)
					h.Check("gen-output", key, true, "", r.Out)
					cmp("gen", expected(wd, true), r, rz.Lines(string(b)))
				})
			}
		}
		for _, d := range []string{root, filepath.Join(base, "gen"), filepath.Join(base, "absout")} {
			if err := os.RemoveAll(d); err != nil {
				panic(err)
			}
		}
	}
	h.Done()
}

var lookCat = func() string {
	for _, d := range filepath.SplitList(os.Getenv("PATH")) {
		if fi, err := os.Stat(filepath.Join(d, "cat")); err == nil && !fi.IsDir() {
			return filepath.Join(d, "cat")
		}
	}
	return "cat"
}()

// normal puts a command line in canonical order: includes as a set, in each
// plugin parameter the effective (last) mapping of every file, files sorted.
func normal(l string) string {
	f := strings.Fields(l)
	out := []string{f[0]}
	inc := map[string]bool{}
	var mid, files []string
	for i := 1; i < len(f); i++ {
		switch {
		case f[i] == "-I" && i+1 < len(f):
			inc[f[i+1]] = true
			i++
		case strings.HasPrefix(f[i], "--") && strings.Contains(f[i], "_out=") && strings.Contains(f[i], ":"):
			e := strings.Index(f[i], "=")
			c := strings.LastIndex(f[i], ":")
			m := map[string]string{}
			var fl []string
			for _, p := range strings.Split(f[i][e+1:c], ",") {
				if strings.HasPrefix(p, "M") && strings.Contains(p, "=") {
					k := strings.Index(p, "=")
					m[p[:k]] = p[k:]
				} else {
					fl = append(fl, p)
				}
			}
			for k, v := range m {
				fl = append(fl, k+v)
			}
			sort.Strings(fl)
			mid = append(mid, f[i][:e+1]+strings.Join(fl, ",")+f[i][c:])
		case strings.HasSuffix(f[i], ".proto") && !strings.HasPrefix(f[i], "-"):
			files = append(files, f[i])
		default:
			mid = append(mid, f[i])
		}
	}
	for _, i := range rz.SortedKeys(inc) {
		out = append(out, "-I", i)
	}
	sort.Strings(files)
	return strings.Join(append(append(out, mid...), files...), " ")
}
