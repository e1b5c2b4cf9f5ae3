// Bounded check that no protoc message is lost.
package main

import (
	"encoding/json"
	"fmt"
	"io/ioutil"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/uber/prototool/internal/zverif/hz"
	"github.com/uber/prototool/internal/zverif/rz"
)

type fail struct {
	Filename     string `json:"filename,omitempty"`
	Line, Column int
	Message      string
}

func main() {
	h := hz.New("C20")
	base := rz.Temp()
	defer rz.Clean(base)
	fake := filepath.Join(base, "protoc")
	if err := ioutil.WriteFile(fake, []byte("#!/bin/sh\ncat "+base+"/err >&2\nread x < "+base+"/code\ncase $x in sig*) kill -${x#sig} $PPID; exec sleep 2;; self) kill -9 $$;; esac\nexit $x\n"), 0o755); err != nil {
		panic(err)
	}
	pf := []string{"--protoc-bin-path", fake, "--protoc-wkt-path", "/usr/include"}
	rng := rand.New(rand.NewSource(h.Seed))
	root := filepath.Join(base, "w")
	set := func(allow bool, stderr, code string) {
		rz.Write(base, map[string]string{"err": stderr, "code": code + "\n", "w/prototool.yaml": fmt.Sprintf("protoc:\n  allow_unused_imports: %v\ngenerate:\n  plugins:\n    - name: foo\n      output: ../gen\n", allow)})
	}
	protos := []string{"d/one.proto", "d/two.proto", "d/xtwo.proto"}
	for _, f := range protos {
		rz.Write(root, map[string]string{f: "syntax = \"proto3\";\n"})
	}
	best := func(m string) string {
		n, d := 0, ""
		for _, f := range protos {
			if strings.HasSuffix(f, m) {
				n++
				d = f
			}
		}
		if n == 1 {
			return d
		}
		return m
	}
	fns := []string{"d/one.proto", "one.proto", "d/two.proto", "two.proto", "xtwo.proto", "other/z.proto", "google/protobuf/any.proto"}
	words := []string{"\"Foo\"", "foo.Bar", "x y z", "a(b)", "[c]", "100%s", "é", "-", "\"a.b.c\" "}
	w := func() string { return words[rng.Intn(len(words))] }
	allow := false
	gens := []func() (string, *fail){
		func() (string, *fail) { // located messages
			f, l, c, m := fns[rng.Intn(len(fns))], rng.Intn(300), rng.Intn(90), "Expected "+w()+"."
			return fmt.Sprintf("%s:%d:%d: %s", f, l, c, m), &fail{best(f), l, c, m}
		},
		func() (string, *fail) { // located message with colons in it
			f, m := fns[rng.Intn(len(fns))], "Option "+w()+": bad: "+w()+"!"
			s := fmt.Sprintf("%s:3:4: %s", f, m)
			return s, &fail{"", 0, 0, s}
		},
		func() (string, *fail) { // colons that are no position
			s := w() + "x:" + w() + ":" + "4: " + w() + "."
			return s, &fail{"", 0, 0, s}
		},
		func() (string, *fail) {
			s := fns[rng.Intn(len(fns))] + ":12:9:"
			return s, &fail{"", 0, 0, s}
		},
		func() (string, *fail) { // free text
			s := strings.TrimSpace("note " + w() + w() + ".")
			return s, &fail{"", 0, 0, s}
		},
		func() (string, *fail) {
			s := fns[rng.Intn(len(fns))] + ": something " + w() + "!"
			return s, &fail{"", 0, 0, s}
		},
		func() (string, *fail) {
			f := fns[rng.Intn(len(fns))]
			v := []string{"%[1]s:3:1: warning: Import %[2]s is unused.", "%[1]s:3:1: warning: Import %[2]s but not used.", "%[1]s: warning: Import %[2]s but not used."}[rng.Intn(3)]
			i := "a/b.proto"
			if allow {
				return fmt.Sprintf(v, f, i), nil
			}
			if strings.Contains(v, ":3:1") {
				return fmt.Sprintf(v, f, i), &fail{best(f), 3, 1, `Import "` + i + `" was not used.`}
			}
			return fmt.Sprintf(v, f, i), &fail{best(f), 0, 0, `Import "` + i + `" was not used.`}
		},
		func() (string, *fail) { // similar, but not the warning
			s := fns[rng.Intn(len(fns))] + ":3:1: warning: Import x is unused: really"
			return s, &fail{"", 0, 0, s}
		},
		func() (string, *fail) {
			f := fns[rng.Intn(len(fns))]
			return f + ": File not found.", &fail{"", 0, 0, `Import "` + f + `" was not found.`}
		},
		func() (string, *fail) { // redundant consequence of the previous one
			return fns[rng.Intn(len(fns))] + ": Import \"q.proto\" was not found or had errors.", nil
		},
		func() (string, *fail) {
			f := fns[rng.Intn(len(fns))]
			return f + ":1:2: File recursively imports itself: a -> b -> a", &fail{best(f), 1, 2, "File recursively imports itself a -> b -> a."}
		},
		func() (string, *fail) {
			f := fns[rng.Intn(len(fns))]
			return f + ": File recursively imports itself: a -> b -> a", &fail{best(f), 0, 0, "File recursively imports itself a -> b -> a."}
		},
		func() (string, *fail) {
			return "dir/x: warning: directory does not exist.", &fail{"", 0, 0, `Directory "dir/x" does not exist.`}
		},
		func() (string, *fail) {
			f := fns[rng.Intn(len(fns))]
			return "[libprotobuf WARNING google/protobuf/compiler/parser.cc:546] No syntax specified for the proto file: " + f + ". Please use 'syntax = \"proto2\";' or 'syntax = \"proto3\";' to specify a syntax version. (Defaulted to proto2 syntax.)",
				&fail{best(f), 0, 0, `No syntax specified. Please use 'syntax = "proto2";' or 'syntax = "proto3";' to specify a syntax version.`}
		},
		func() (string, *fail) {
			f := fns[rng.Intn(len(fns))]
			return f + ": " + `The JSON camel-case name of field "a_b" conflicts with field "aB". This is not allowed in proto3.`, &fail{best(f), 0, 0, `The JSON camel-case name of field "a_b" conflicts with field "aB". This is not allowed in proto3.`}
		},
		func() (string, *fail) {
			f := fns[rng.Intn(len(fns))]
			return f + `: "Foo.Bar" is not defined.`, &fail{best(f), 0, 0, `"Foo.Bar" is not defined.`}
		},
		func() (string, *fail) {
			f := fns[rng.Intn(len(fns))]
			m := `"Foo" seems to be defined in "x.proto", which is not imported by "y.proto".  To use it here, please add the necessary import.`
			return f + ": " + strings.Replace(m, ".  To", ". To", 1), &fail{best(f), 0, 0, strings.Replace(m, ".  To", ". To", 1)}
		},
		func() (string, *fail) {
			f := fns[rng.Intn(len(fns))]
			return f + ": Explicit default values are not allowed in proto3.", &fail{best(f), 0, 0, "Explicit default values are not allowed in proto3."}
		},
		func() (string, *fail) {
			f := fns[rng.Intn(len(fns))]
			return f + ": Error while parsing option value for \"x\"", &fail{best(f), 0, 0, "Error while parsing option value for \"x\""}
		},
		func() (string, *fail) {
			f := fns[rng.Intn(len(fns))]
			return f + ": The first enum value must be zero in proto3.", &fail{best(f), 0, 0, "The first enum value must be zero in proto3."}
		},
		func() (string, *fail) {
			return "protoc-gen-foo: program not found or is not executable", &fail{"", 0, 0, "protoc-gen-foo not found or is not executable."}
		},
		func() (string, *fail) {
			return "--foo_out: protoc-gen-foo: Plugin failed with status code 7.", &fail{"", 0, 0, "protoc-gen-foo failed with status code 7."}
		},
		func() (string, *fail) {
			return "--foo_out: " + "something " + "went wrong", &fail{"", 0, 0, "protoc-gen-foo: something went wrong"}
		},
		func() (string, *fail) {
			return "panic: x y --foo_out: protoc-gen-foo: Plugin failed with status code 2.", &fail{"", 0, 0, "protoc-gen-foo failed with status code 2: panic: x y "}
		},
	}
	n := h.N(400, 5000)
	h.Bound("%d random protoc outputs of up to 6 lines from %d line forms (located, with extra colons, free text, every special form), with blank lines and spaces around, exit states 0, 1, 17, killed; unused imports allowed or not; compile of a directory and of a single file, text and JSON output", n, len(gens))
	for it := 0; it < n; it++ {
		allow = rng.Intn(2) == 0
		var lines []string
		var want []fail
		k := rng.Intn(6)
		if it < len(gens) {
			k = 1
		}
		for i := 0; i < k; i++ {
			g := gens[rng.Intn(len(gens))]
			if it < len(gens) {
				g = gens[it]
			}
			l, f := g()
			if f != nil {
				want = append(want, *f)
			}
			lines = append(lines, []string{"", "  ", "\n", "\t"}[rng.Intn(4)]+l+[]string{"", " ", "\n\n", "\r"}[rng.Intn(4)])
		}
		code := []string{"0", "1", "17", "self"}[rng.Intn(4)]
		if it < len(gens) {
			code = "1"
		}
		set(allow, strings.Join(lines, "\n"), code)
		key := fmt.Sprintf("exit %s, unused imports allowed %v, stderr %q", code, allow, strings.Join(lines, "\n"))
		show := func(fs []fail) string {
			var o []string
			for _, f := range fs {
				b, _ := json.Marshal(f)
				o = append(o, string(b))
			}
			sort.Strings(o)
			return strings.Join(o, "\n")
		}
		failing := len(want) > 0 || code != "0"
		check := func(rule string, want []fail, arg string) {
			h.Try(rule, key+" "+arg, func() {
				r := rz.CLI(root, append([]string{"compile", "--json", arg}, pf...)...)
				var got []fail
				raw := ""
				for _, l := range rz.Lines(r.Out) {
					var m struct {
						Filename, Message string
						Line, Column      int
					}
					if err := json.Unmarshal([]byte(l), &m); err != nil {
						raw += l
						continue
					}
					got = append(got, fail{m.Filename, m.Line, m.Column, m.Message})
				}
				h.Check(rule, key+" "+arg, len(lines) > 0, fmt.Sprint(show(want), " failing ", failing, ""), fmt.Sprint(show(got), " failing ", r.Code != 0, r.Panic))
				if failing && len(want) == 0 && arg == "d" {
					h.Check(rule+"-says", key, true, true, strings.TrimSpace(r.Out+r.Err) != "")
				}
			})
		}
		check("dir", want, "d")
		// a single file: messages about it, and those about no file
		for _, a := range []string{"d/one.proto", "./d/two.proto"} {
			var one []fail
			for _, f := range want {
				if f.Filename == "" || filepath.Clean(f.Filename) == filepath.Clean(a) {
					one = append(one, f)
				}
			}
			check("one", one, a)
		}
		// generation: the same lines, from every plugin run
		if it%4 == 0 {
			h.Try("gen", key, func() {
				r := rz.CLI(root, append([]string{"generate", "--json", "d"}, pf...)...)
				h.Check("gen", key, len(lines) > 0, fmt.Sprint(len(want), failing, ""), fmt.Sprint(count(r.Out), r.Code != 0, r.Panic))
			})
			h.Try("text", key, func() {
				r := rz.CLI(root, append([]string{"lint", "--error-format", "message", "d"}, pf...)...)
				var ms []string
				for _, f := range want {
					ms = append(ms, strings.TrimRight(f.Message, " "))
				}
				var got []string
				for _, l := range rz.Lines(r.Out) {
					got = append(got, strings.TrimRight(l, " "))
				}
				sort.Strings(ms)
				sort.Strings(got)
				if len(ms) == 0 {
					got = nil // the clean run and the error text are checked above
					if !failing {
						return
					}
				}
				h.Check("text", key, len(lines) > 0, fmt.Sprint(ms, failing, ""), fmt.Sprint(got, r.Code != 0, r.Panic))
			})
		}
	}
	// protoc that is stopped by a signal, that cannot be started
	for _, s := range []string{"sigINT", "sigTERM"} {
		set(false, "", s)
		h.Try("signal", s, func() {
			r := rz.CLI(root, append([]string{"compile", "d"}, pf...)...)
			h.Check("signal", s, true, true, r.Code != 0)
		})
	}
	for _, c := range []string{"compile", "lint", "generate", "all"} {
		c := c
		set(false, "", "3")
		h.Try("silent-failure", c, func() {
			r := rz.CLI(root, append([]string{c, "d"}, pf...)...)
			h.Check("silent-failure", c, true, "true true", fmt.Sprint(r.Code != 0, " ", strings.TrimSpace(r.Out+r.Err) != ""))
		})
		h.Try("no-protoc", c, func() {
			bad := filepath.Join(base, "notexec")
			_ = ioutil.WriteFile(bad, []byte("x"), 0o644)
			r := rz.CLI(root, c, "d", "--protoc-bin-path", bad, "--protoc-wkt-path", "/usr/include")
			h.Check("no-protoc", c, true, true, r.Code != 0)
		})
	}
	_ = os.Chdir("/")
	h.Done()
}

func count(out string) int {
	n := 0
	for _, l := range rz.Lines(out) {
		if strings.HasPrefix(l, "{") {
			n++
		}
	}
	return n
}
