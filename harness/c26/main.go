// Bounded check of flag combinations: which are refused, and that a refused
// command has run nothing and changed nothing.
package main

import (
	"fmt"
	"io/ioutil"
	"math/rand"
	"os"
	"path/filepath"
	"strings"

	"github.com/uber/prototool/internal/zverif/hz"
	"github.com/uber/prototool/internal/zverif/rz"
)

type flag struct {
	name string
	vals []string // "" is not given, "1" a switch, others values
}

func main() {
	h := hz.New("C26")
	base := rz.Temp()
	defer rz.Clean(base)
	tmp := filepath.Join(base, "tmp")
	if err := os.Mkdir(tmp, 0o755); err != nil {
		panic(err)
	}
	_ = os.Setenv("TMPDIR", tmp)
	rec := filepath.Join(base, "rec")
	fake := filepath.Join(base, "protoc")
	if err := ioutil.WriteFile(fake, []byte("#!/bin/sh\nprintf x >> "+rec+"\nexec /usr/bin/protoc \"$@\"\n"), 0o755); err != nil {
		panic(err)
	}
	root := filepath.Join(base, "w")
	rz.Write(root, map[string]string{
		"prototool.yaml": "lint:\n  group: empty\n",
		"a.proto":        "syntax = \"proto3\";\npackage p;\nmessage M {}\nservice S { rpc Do(M) returns (M); }\n",
	})
	before := rz.Snapshot(root)
	rng := rand.New(rand.NewSource(h.Seed))
	run := func(cmd []string, fs []flag, refused func(get func(string) string) bool) {
		total := 1
		for _, f := range fs {
			total *= len(f.vals)
		}
		limit := h.N(700, 100000)
		for k := 0; k < total && !h.Late(); k++ {
			i := k
			if total > limit {
				if k >= limit {
					break
				}
				i = rng.Intn(total)
			}
			m := map[string]string{}
			args := append([]string{}, cmd...)
			for _, f := range fs {
				v := f.vals[i%len(f.vals)]
				i /= len(f.vals)
				if v == "" {
					continue
				}
				m[f.name] = v
				if v == "1" {
					args = append(args, "--"+f.name)
				} else {
					args = append(args, "--"+f.name, strings.Replace(v, "OUT", filepath.Join(base, "out.bin"), 1))
				}
			}
			key := strings.Join(args, " ")
			all := append(args, "--protoc-bin-path", fake, "--protoc-wkt-path", "/usr/include")
			want := refused(func(n string) string { return m[n] })
			_ = os.Remove(rec)
			_ = os.Remove(filepath.Join(base, "out.bin"))
			r := rz.CLIIn(root, "{}", all...)
			_, err := os.Stat(rec)
			ran := err == nil
			_, err = os.Stat(filepath.Join(base, "out.bin"))
			wrote := err == nil
			left, _ := ioutil.ReadDir(tmp)
			for _, l := range left {
				wrote = true
				_ = os.Remove(filepath.Join(tmp, l.Name()))
			}
			name := strings.Join(cmd, " ")
			if want {
				h.Check(name+": refused", key, true, "failed, nothing run, nothing written", said(r.Code, ran, wrote))
			} else if name == "grpc" || name == "format" {
				h.Check(name+": runs", key, true, true, ran)
			} else {
				h.Check(name+": runs", key, len(m) > 0, fmt.Sprint(0), fmt.Sprint(r.Code))
			}
			if r.Panic != "" {
				h.Fail(name+" panics: "+key, "panic", args, "", r.Panic)
			}
			if d := rz.Diff(before, rz.Snapshot(root)); len(d) > 0 {
				if !want && m["overwrite"] != "" {
					d = nil
				}
				if d != nil {
					h.Fail(name+" changes files: "+key, "files changed", args, "", d)
				}
				_ = os.RemoveAll(root)
				rz.Write(root, before)
			}
		}
	}
	sw := []string{"", "1"}
	count := func(get func(string) string, ns ...string) int {
		n := 0
		for _, s := range ns {
			if get(s) != "" {
				n++
			}
		}
		return n
	}
	run([]string{"lint"}, []flag{{"list-all-linters", sw}, {"list-linters", sw}, {"list-all-lint-groups", sw}, {"list-lint-group", []string{"", "uber1"}}, {"diff-lint-groups", []string{"", "uber1,uber2"}}, {"generate-ignores", sw}}, func(get func(string) string) bool {
		return count(get, "list-all-linters", "list-linters", "list-all-lint-groups", "list-lint-group", "diff-lint-groups", "generate-ignores") > 1
	})
	run([]string{"format"}, []flag{{"overwrite", sw}, {"diff", sw}, {"lint", sw}, {"fix", sw}}, func(get func(string) string) bool {
		return count(get, "overwrite", "diff", "lint") > 1
	})
	run([]string{"descriptor-set"}, []flag{{"output-path", []string{"", "OUT"}}, {"tmp", sw}, {"include-imports", sw}, {"include-source-info", sw}, {"json", sw}}, func(get func(string) string) bool { return get("output-path") != "" && get("tmp") != "" })
	run([]string{"break", "descriptor-set"}, []flag{{"output-path", []string{"", "OUT"}}, {"json", sw}}, func(get func(string) string) bool { return get("output-path") == "" })
	run([]string{"x", "inspect", "package-deps"}, []flag{{"name", []string{"", "p"}}}, func(get func(string) string) bool { return get("name") == "" })
	run([]string{"x", "inspect", "package-importers"}, []flag{{"name", []string{"", "p"}}}, func(get func(string) string) bool { return get("name") == "" })
	run([]string{"break", "check"}, []flag{{"git-branch", []string{"nosuch"}}, {"descriptor-set-path", []string{"OUT"}}}, func(get func(string) string) bool { return true })

	some := []string{"", "x"}
	run([]string{"grpc"}, []flag{{"address", []string{"", "nosuch://x"}}, {"method", []string{"", "p.S/Do"}}, {"data", []string{"", "{}"}}, {"stdin", sw}, {"tls", sw}, {"insecure", sw}, {"cacert", some}, {"cert", some}, {"key", some}, {"server-name", some}}, grpcRefused)
	tlsOnly := []flag{{"address", []string{"nosuch://x"}}, {"method", []string{"p.S/Do"}}, {"data", []string{"{}"}}, {"tls", sw}, {"insecure", sw}, {"cacert", some}, {"cert", some}, {"key", some}, {"server-name", some}}
	run([]string{"grpc"}, tlsOnly, grpcRefused)
	times := []string{"", "2s", "1h3m", "soon", "10"}
	run([]string{"grpc"}, []flag{{"address", []string{"nosuch://x"}}, {"method", []string{"p.S/Do"}}, {"data", []string{"{}"}}, {"call-timeout", times}, {"connect-timeout", times}, {"keepalive-time", times}, {"header", []string{"", "a:b", "a"}}}, func(get func(string) string) bool {
		for _, f := range []string{"call-timeout", "connect-timeout", "keepalive-time"} {
			if v := get(f); v == "soon" || v == "10" {
				return true
			}
		}
		return get("header") == "a"
	})
	h.Bound("all combinations of the listed flags of lint, format, descriptor-set, break descriptor-set, break check, inspect and (in quick runs a random sample of 700) grpc; a protoc that records its runs")
	h.Done()
}

func said(code int, ran, wrote bool) string {
	s := "failed"
	if code == 0 {
		s = "succeeded"
	}
	if ran {
		s += ", protoc run"
	} else {
		s += ", nothing run"
	}
	if wrote {
		return s + ", something written"
	}
	return s + ", nothing written"
}

func grpcRefused(get func(string) string) bool {
	if get("address") == "" || get("method") == "" {
		return true
	}
	if (get("data") == "") == (get("stdin") == "") {
		return true
	}
	detail := get("cacert") != "" || get("cert") != "" || get("key") != "" || get("server-name") != ""
	if get("tls") == "" {
		return detail || get("insecure") != ""
	}
	if get("insecure") != "" {
		return detail
	}
	return (get("cert") == "") != (get("key") == "")
}
