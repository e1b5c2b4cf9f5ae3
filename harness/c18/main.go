// Bounded check: a command touches exactly the files it was pointed at.
package main

import (
	"fmt"
	"io/ioutil"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/uber/prototool/internal/zverif/hz"
	"github.com/uber/prototool/internal/zverif/rz"
)

func main() {
	h := hz.New("C18")
	base := rz.Temp()
	defer rz.Clean(base)
	rec := filepath.Join(base, "rec")
	fake := filepath.Join(base, "protoc")
	script := "#!/bin/sh\nfor a in \"$@\"; do case \"$a\" in *.proto) printf '%s\\n' \"$a\" >> " + rec + ";; esac; done\n"
	if err := ioutil.WriteFile(fake, []byte(script), 0o755); err != nil {
		panic(err)
	}
	pf := []string{"--protoc-bin-path", fake, "--protoc-wkt-path", "/usr/include"}
	rng := rand.New(rand.NewSource(h.Seed))
	pool := []string{"d/a.proto", "d/b.proto", "d/e/a.proto", "dx/a.proto", "d-x/a.proto", "d.proto", "dx/e/a.proto", "x/d/a.proto", "d/ex/c.proto", "d.d/a.proto", "d/e/f/g.proto", "a.proto", "a b/c.proto", "d/a.proto.d/z.proto", "vendor/d/a.proto", "dxy/d/a.proto"}
	noise := []string{"d/a.txt", "d/a.proto.bak", "d/a.PROTO", "d/proto", "dx/note.proto.txt"}
	exs := []string{"d/e", "dx", "d", "d/a.proto", "vendor", "d/ex", "x/d", "d.proto", "d/e/f", "a b"}
	args := []string{"", ".", "d", "./d", "d/", "dx", "d/e", "ABS/d", "d/../d", "x", "vendor", "d/e/f", "ABS/dx", "../ROOT/d"}
	n := h.N(60, 600)
	h.Bound("%d random subsets of %d files (directories sharing name prefixes), excludes from %q, directory arguments %q, two working directories; commands files, compile, gen (dry run), lint, format -l, format -w, all", n, len(pool), exs, args)
	for it := 0; it < n; it++ {
		root := filepath.Join(base, fmt.Sprintf("w%d", it))
		files := map[string]string{}
		for _, f := range pool {
			if rng.Intn(5) < 3 {
				files[f] = "syntax = \"proto3\";\n\n\npackage p;\nmessage M" + fmt.Sprint(len(files)) + " {}\n"
			}
		}
		for _, f := range noise {
			files[f] = "package broken {"
		}
		var ex []string
		for _, e := range exs {
			if rng.Intn(6) == 0 {
				ex = append(ex, e)
			}
		}
		conf := "lint:\n  group: empty\n  rules:\n    add:\n      - FILE_OPTIONS_REQUIRE_GO_PACKAGE\ngenerate:\n  plugins:\n    - name: foo\n      output: ../gen\n"
		if len(ex) > 0 {
			conf += "excludes:\n  - " + strings.Join(ex, "\n  - ") + "\n"
		}
		confFile := "prototool.yaml"
		if rng.Intn(3) == 0 {
			confFile = "prototool.json"
			q := []string{}
			for _, e := range ex {
				q = append(q, fmt.Sprintf("%q", e))
			}
			conf = fmt.Sprintf(`{"lint":{"group":"empty","rules":{"add":["FILE_OPTIONS_REQUIRE_GO_PACKAGE"]}},"generate":{"plugins":[{"name":"foo","output":"../gen"}]},"excludes":[%s]}`, strings.Join(q, ","))
		}
		files[confFile] = conf
		rz.Write(root, files)
		for _, cwd := range []string{"", "d"} {
			for k := 0; k < 3; k++ {
				arg := args[rng.Intn(len(args))]
				if k == 0 {
					arg = []string{"d", ""}[rng.Intn(2)]
				}
				wd := filepath.Join(root, cwd)
				carg := strings.Replace(arg, "ABS", root, 1)
				carg = strings.Replace(carg, "ROOT", filepath.Base(root), 1)
				target := wd
				if carg != "" {
					if filepath.IsAbs(carg) {
						target = carg
					} else {
						target = filepath.Join(wd, carg)
					}
				}
				target = filepath.Clean(target)
				if fi, err := os.Stat(target); err != nil || !fi.IsDir() {
					continue
				}
				// display paths are relative to the working directory
				var want, wantAbs []string
				outside := 0
				for f := range files {
					p := filepath.Join(root, f)
					if filepath.Ext(p) != ".proto" {
						continue
					}
					excl := false
					for _, e := range ex {
						excl = excl || rz.Under(p, filepath.Join(root, e))
					}
					if excl || !rz.Under(p, target) {
						outside++
						continue
					}
					rel, _ := filepath.Rel(wd, p)
					want = append(want, rel)
					wantAbs = append(wantAbs, p)
				}
				sort.Strings(want)
				sort.Strings(wantAbs)
				nontriv := outside > 0 && len(want) > 0
				var a []string
				if carg != "" {
					a = append(a, carg)
				}
				var have []string
				for _, f := range pool {
					if _, ok := files[f]; ok {
						have = append(have, f)
					}
				}
				key := strings.Replace(fmt.Sprintf("in %q, argument %q, excludes %q, files %q", cwd, arg, ex, have), base, "", -1)
				run := func(c ...string) (rz.Result, []string) {
					_ = os.Remove(rec)
					r := rz.CLI(wd, append(append(c[:1:1], append(c[1:], pf...)...), a...)...)
					b, _ := ioutil.ReadFile(rec)
					l := rz.Lines(string(b))
					sort.Strings(l)
					return r, l
				}
				h.Try("files", key, func() {
					r, _ := runNo(wd, append([]string{"files"}, a...))
					got := rz.Lines(r.Out)
					sort.Strings(got)
					h.Check("files", key, nontriv, fmt.Sprint(want, 0, ""), fmt.Sprint(got, r.Code, r.Panic))
				})
				h.Try("compile", key, func() {
					r, got := run("compile")
					h.Check("compile", key, nontriv, fmt.Sprint(wantAbs, 0, ""), fmt.Sprint(got, r.Code, r.Panic))
				})
				h.Try("gen", key, func() {
					r, _ := run("generate", "--dry-run")
					var got []string
					for _, w := range strings.Fields(strings.Replace(r.Out, "a b/", "a%20b/", -1)) {
						if strings.HasSuffix(w, ".proto") {
							got = append(got, strings.Replace(w, "a%20b/", "a b/", -1))
						}
					}
					sort.Strings(got)
					h.Check("gen", key, nontriv, fmt.Sprint(wantAbs, 0, ""), fmt.Sprint(got, r.Code, r.Panic))
				})
				h.Try("lint", key, func() {
					r, comp := run("lint", "--error-format", "filename")
					got := rz.Lines(r.Out)
					sort.Strings(got)
					code := 0
					if len(want) > 0 {
						code = 255
					}
					h.Check("lint", key, nontriv, fmt.Sprint(want, wantAbs, code, ""), fmt.Sprint(got, comp, r.Code, r.Panic))
				})
				h.Try("format-l", key, func() {
					r, _ := run("format", "-l", "--error-format", "filename")
					got := rz.Lines(r.Out)
					sort.Strings(got)
					code := 0
					if len(want) > 0 {
						code = 255
					}
					h.Check("format-l", key, nontriv, fmt.Sprint(want, code, ""), fmt.Sprint(got, r.Code, r.Panic))
				})
				overwrite := func(c string, as ...string) {
					h.Try(c, key, func() {
						before := rz.Snapshot(root)
						r, comp := run(append([]string{c}, as...)...)
						var got []string
						for _, p := range rz.Diff(before, rz.Snapshot(root)) {
							got = append(got, filepath.Join(root, p))
						}
						rz.Write(root, files)
						_ = comp
						h.Check(c, key, nontriv, fmt.Sprint(wantAbs, 0, ""), fmt.Sprint(got, r.Code, r.Panic))
					})
				}
				overwrite("format", "-w")
				if k == 0 {
					overwrite("all", "--disable-lint")
				}
			}
		}
		// a single file
		var protos []string
		for _, f := range pool {
			if _, ok := files[f]; ok {
				protos = append(protos, f)
			}
		}
		if len(protos) > 0 {
			f := protos[rng.Intn(len(protos))]
			excl := false
			for _, e := range ex {
				excl = excl || rz.Under(filepath.Join(root, f), filepath.Join(root, e))
			}
			for _, sp := range []string{f, "./" + f, filepath.Join(root, f), filepath.Dir(f) + "/./" + filepath.Base(f)} {
				key := strings.Replace(fmt.Sprintf("file %q, excludes %q, files %q", sp, ex, protos), base, "", -1)
				want := []string{f}
				if excl {
					want = nil
				}
				h.Try("one-lint", key, func() {
					r := rz.CLI(root, append([]string{"lint", "--error-format", "filename", sp}, pf...)...)
					h.Check("one-lint", key, !excl, fmt.Sprint(want, ""), fmt.Sprint(rz.Lines(r.Out), r.Panic))
				})
				h.Try("one-format-l", key, func() {
					r := rz.CLI(root, append([]string{"format", "-l", "--error-format", "filename", sp}, pf...)...)
					h.Check("one-format-l", key, !excl, fmt.Sprint(want, ""), fmt.Sprint(rz.Lines(r.Out), r.Panic))
				})
				h.Try("one-format-w", key, func() {
					before := rz.Snapshot(root)
					r := rz.CLI(root, append([]string{"format", "-w", sp}, pf...)...)
					got := rz.Diff(before, rz.Snapshot(root))
					rz.Write(root, files)
					h.Check("one-format-w", key, !excl, fmt.Sprint(want, ""), fmt.Sprint(got, r.Panic))
				})
			}
		}
		if err := os.RemoveAll(root); err != nil {
			panic(err)
		}
	}
	// nested configuration: the governing one is the nearest
	root := filepath.Join(base, "nest")
	p := "syntax = \"proto3\";\n"
	rz.Write(root, map[string]string{"prototool.yaml": "excludes:\n  - other\n", "a.proto": p, "sub/prototool.yaml": "excludes:\n  - x\n", "sub/a.proto": p, "sub/x/a.proto": p, "sub/xy/a.proto": p, "subx/a.proto": p, "other/a.proto": p})
	for _, c := range [][2]string{{"sub", "[sub/a.proto sub/xy/a.proto]"}, {"sub/xy", "[sub/xy/a.proto]"}, {"sub/x", "[]"}} {
		r, _ := runNo(root, []string{"files", c[0]})
		h.Check("nested", c[0], true, c[1]+" 0", fmt.Sprint(rz.Lines(r.Out), " ", r.Code))
	}
	// files governed by two configurations are refused, not mixed
	r, _ := runNo(root, []string{"files"})
	h.Check("nested", "two configurations", true, "true true", fmt.Sprint(strings.Contains(r.Out, "multiple"), r.Code != 0))
	// configuration given on the command line replaces the files
	r, _ = runNo(root, []string{"files", "--config-data", `{"excludes":["sub"]}`})
	h.Check("config-data", "", true, "[a.proto other/a.proto subx/a.proto] 0", fmt.Sprint(rz.Lines(r.Out), " ", r.Code))
	h.Done()
}

func runNo(wd string, a []string) (rz.Result, []string) {
	return rz.CLI(wd, a...), nil
}
