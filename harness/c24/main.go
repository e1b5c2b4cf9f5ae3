// Bounded check of the formatting modes: writes, output and exit status.
package main

import (
	"fmt"
	"io/ioutil"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"github.com/uber/prototool/internal/format"
	"github.com/uber/prototool/internal/zverif/hz"
	"github.com/uber/prototool/internal/zverif/rz"
)

var bodies = []string{
	"syntax = \"proto3\";\n\npackage p%d;\n\nmessage Foo {}\n",
	"syntax = \"proto3\";\n\npackage p%d;\n\nmessage Foo {\n  int64 id = 1;\n}\n",
	"syntax = \"proto3\";\npackage p%d;\nmessage Foo { int64 id=1; }\n",
	"syntax = \"proto3\";\n\npackage p%d;\n\nmessage Foo {}\n\n",
	"syntax = \"proto3\";\n\npackage p%d;\n\nmessage Foo {}",
	"syntax = \"proto3\";\r\n\r\npackage p%d;\r\n\r\nmessage Foo {}\r\n",
	"syntax = \"proto3\";\n\npackage p%d;\n\nimport \"b.proto\";\nimport \"a.proto\";\n\nmessage Foo {}\n",
	"// header\n\nsyntax = \"proto3\";\n\npackage p%d;\n\noption go_package = \"wrongpb\";\n\nservice Foo {}\n",
	"syntax = \"proto3\";\n\npackage p%d;\n\nmessage Foo {\n",
	"message %d {{{",
	"",
}

func main() {
	h := hz.New("C24")
	base := rz.Temp()
	defer rz.Clean(base)
	fake := filepath.Join(base, "protoc")
	if err := ioutil.WriteFile(fake, []byte("#!/bin/sh\nexit 0\n"), 0o755); err != nil {
		panic(err)
	}
	pf := []string{"--protoc-bin-path", fake, "--protoc-wkt-path", "/usr/include", "--error-format", "id:filename:message"}
	rng := rand.New(rand.NewSource(h.Seed))
	names := []string{"a.proto", "b.proto", "d/a.proto", "d/e/c.proto", "dx/a.proto", "z/y/x.proto"}
	flags := []string{"-w", "-d", "-l", "--fix"}
	n := h.N(14, 150)
	h.Bound("%d random trees of up to %d files (formatted, not formatted, line end and trailing newline variants, not parseable, empty); all 16 combinations of -w -d -l --fix, for the directory, a subdirectory and a single file, and prototool all; a protoc that accepts everything", n, len(names))
	old := time.Unix(1500000000, 0)
	for it := 0; it < n && !h.Late(); it++ {
		root := filepath.Join(base, fmt.Sprintf("w%d", it))
		files := map[string]string{}
		for i, f := range names {
			if f == "a.proto" || rng.Intn(4) > 0 {
				b := bodies[rng.Intn(len(bodies))]
				if strings.Contains(b, "%d") {
					b = fmt.Sprintf(b, it*10+i)
				}
				files[f] = b
			}
		}
		group := hz.Pick(rng, []string{"uber1", "uber2", "google"})
		conf, header, java := "lint:\n  group: "+group+"\n", "", ""
		if rng.Intn(2) == 0 {
			header = "// The header."
			conf += "  file_header:\n    content: The header.\n"
		}
		if rng.Intn(2) == 0 {
			java = "org.x"
			conf += "  java_package_prefix: org.x\n"
		}
		for mask := -1; mask < 16; mask++ {
			for _, target := range []string{"", ".", "d", "a.proto", "d/a.proto"} {
				if target != "" && target != "." && target != "a.proto" {
					has := false
					for f := range files {
						has = has || rz.Under(f, target)
					}
					if !has {
						continue
					}
				}
				one(h, root, files, conf, group, header, java, flags, mask, target, pf, old)
			}
		}
		_ = os.RemoveAll(root)
	}
	h.Done()
}

func one(h *hz.H, root string, files map[string]string, conf, group, header, java string, flags []string, mask int, target string, pf []string, old time.Time) {
	_ = os.RemoveAll(root)
	rz.Write(root, files)
	rz.Write(root, map[string]string{"prototool.yaml": conf})
	for f := range files {
		_ = os.Chtimes(filepath.Join(root, f), old, old)
	}
	args := []string{"format"}
	m := mask
	if mask < 0 {
		args = []string{"all", "--disable-lint"}
		m = 1
	}
	var on []string
	for i, f := range flags {
		if mask >= 0 && mask&(1<<uint(i)) != 0 {
			args = append(args, f)
			on = append(on, f)
		}
	}
	if target != "" {
		args = append(args, target)
	}
	args = append(args, pf...)
	key := fmt.Sprintf("%v %q %s", files, on, target)
	in := map[string]interface{}{"files": files, "config": conf, "args": args}
	r := rz.CLI(root, args...)
	after := rz.Snapshot(root)
	delete(after, "prototool.yaml")

	excl := 0
	for i := 0; i < 3; i++ {
		if m&(1<<uint(i)) != 0 {
			excl++
		}
	}
	w, d, l, fix := m&1 != 0, m&2 != 0, m&4 != 0, m&8 != 0
	opts := []format.TransformerOption{}
	if fix {
		v := format.FixV1
		if group == "uber2" {
			v = format.FixV2
		}
		opts = append(opts, format.TransformerWithFix(v), format.TransformerWithFileHeader(header), format.TransformerWithJavaPackagePrefix(java))
	}
	want := map[string]string{}
	for f, b := range files {
		want[f] = b
	}
	code := 0
	var printed, diffs, lints []string
	bad := map[string]bool{}
	if excl > 1 {
		code = 255
	} else {
		for f, b := range files {
			if target != "" && target != "." && !rz.Under(f, target) {
				continue
			}
			data, fails, err := format.NewTransformer(opts...).Transform(filepath.Join(root, f), []byte(b))
			if err != nil || len(fails) > 0 {
				bad[f] = true
				code = 255
				continue
			}
			if string(data) == b {
				if !w && !d && !l {
					printed = append(printed, b)
				}
				continue
			}
			switch {
			case w:
				want[f] = string(data)
			case d:
				diffs = append(diffs, f)
				code = 255
			case l:
				lints = append(lints, "FORMAT_DIFF:"+f+":Format returned a diff.")
				code = 255
			default:
				printed = append(printed, string(data))
				code = 255
			}
		}
	}
	if len(bad) > 0 {
		// a file that does not parse stops the command; it is never rewritten
		var odd []string
		for f, b := range files {
			if after[f] != b && (bad[f] || after[f] != want[f]) {
				odd = append(odd, f)
			}
		}
		sort.Strings(odd)
		ok := h.Check("not parseable: files", key, true, "", fmt.Sprintf("%s%.*s", strings.Join(odd, " "), len(after)-len(files), "more files"))
		ok = h.Check("not parseable: status", key, true, false, r.Code == 0) && ok
		if !ok {
			h.Fail("modes", fmt.Sprintf("args %v", args), in, code, r)
		}
		return
	}
	nt := code != 0 || len(rz.Diff(want, files)) > 0
	ok := h.Check("files written", key, nt, "", strings.Join(rz.Diff(want, after), "\n"))
	ok = h.Check("exit status", key, nt, code, r.Code) && ok
	var touched []string
	for f := range files {
		if want[f] != files[f] {
			continue
		}
		if fi, err := os.Stat(filepath.Join(root, f)); err == nil && !fi.ModTime().Equal(old) {
			touched = append(touched, f)
		}
	}
	sort.Strings(touched)
	ok = h.Check("nothing else written", key, nt, "", strings.Join(touched, " ")) && ok
	rest := r.Out
	if excl > 1 {
		ok = h.Check("rejected modes print no file", key, true, false, strings.Contains(rest, "syntax =")) && ok
	} else {
		// every unparseable file is named by its failures, and nothing else is printed
		var lines []string
		named := map[string]bool{}
		got := []string{}
		if l || w {
			for _, s := range rz.Lines(rest) {
				if strings.HasPrefix(s, "FORMAT_DIFF:") {
					got = append(got, s)
					continue
				}
				p := strings.SplitN(s, ":", 2)
				named[p[0]] = true
				lines = append(lines, s)
			}
			sort.Strings(got)
			sort.Strings(lints)
			ok = h.Check("lint failures", key, nt, strings.Join(lints, "\n"), strings.Join(got, "\n")) && ok
			ok = h.Check("named files", key, nt, strings.Join(rz.SortedKeys(bad), "\n"), strings.Join(rz.SortedKeys(named), "\n")) && ok
		} else if d {
			for _, s := range rz.Lines(rest) {
				if strings.HasPrefix(s, "--- ") {
					got = append(got, strings.TrimSuffix(strings.TrimSuffix(strings.Fields(s)[1], ".orig"), ".proto") + ".proto")
				}
			}
			sort.Strings(got)
			sort.Strings(diffs)
			ok = h.Check("diffs", key, nt, strings.Join(diffs, "\n"), strings.Join(got, "\n")) && ok
		} else {
			missing := 0
			sort.Slice(printed, func(i, j int) bool { return len(printed[i]) > len(printed[j]) })
			for _, p := range printed {
				if p == "" {
					continue
				}
				if i := strings.Index(rest, p); i >= 0 {
					rest = rest[:i] + rest[i+len(p):]
				} else {
					missing++
				}
			}
			ok = h.Check("printed files", key, nt, 0, missing) && ok
			for _, s := range rz.Lines(rest) {
				named[strings.SplitN(s, ":", 2)[0]] = true
			}
			ok = h.Check("printed failures", key, nt, strings.Join(rz.SortedKeys(bad), "\n"), strings.Join(rz.SortedKeys(named), "\n")) && ok
		}
	}
	if !ok {
		h.Fail("modes", fmt.Sprintf("args %v", args), in, code, r)
	}
}
