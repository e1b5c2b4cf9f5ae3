// Bounded check of excludes and lint ignores: path components, not name
// prefixes.
package main

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/uber/prototool/internal/file"
	"github.com/uber/prototool/internal/settings"
	"github.com/uber/prototool/internal/zverif/hz"
	"github.com/uber/prototool/internal/zverif/rz"
)

func under(p, ex, conf string) bool {
	// ex is p or a parent of p strictly below the configuration directory
	return rz.Under(p, ex) && ex != conf && rz.Under(ex, conf)
}

func main() {
	h := hz.New("C12")
	// 1. the predicate itself, over all short paths
	var paths []string
	names := []string{"a", "ab", "a.proto", "b"}
	var rec func(p string, d int)
	rec = func(p string, d int) {
		paths = append(paths, p)
		if d == 0 {
			return
		}
		for _, n := range names {
			rec(filepath.Join(p, n), d-1)
		}
	}
	rec("/", h.N(3, 4))
	h.Bound("predicate: all paths of depth <= %d over %q as file and exclude, four configuration directories", h.N(3, 4), names)
	for _, conf := range []string{"/", "/a", "/ab", "/a/b"} {
		for _, p := range paths {
			if !rz.Under(p, conf) || p == conf {
				continue
			}
			for _, ex := range paths {
				if !rz.Under(ex, conf) || ex == conf {
					continue
				}
				p, ex := p, ex
				h.Try("isexcluded", p+" "+ex, func() {
					h.Check("isexcluded", fmt.Sprintf("conf %s file %s exclude %s", conf, p, ex), rz.Under(p, ex), under(p, ex, conf), file.IsExcluded(p, conf, "/zzz", ex))
				})
			}
		}
	}
	// 2. discovery of files with excludes, in real directories
	dir := rz.Temp()
	defer rz.Clean(dir)
	files := []string{"a.proto", "a/x.proto", "a/b/x.proto", "ab/x.proto", "ab/b/x.proto", "a.proto.d/x.proto", "abc.proto", "b/a/x.proto", "b/ab/x.proto", "b/a/b/c/x.proto", "a/abc.proto"}
	tree := map[string]string{}
	for _, f := range files {
		tree["root/"+f] = "syntax = \"proto3\";\npackage p;\n"
		tree["roota/"+f] = "syntax = \"proto3\";\npackage p;\n"
	}
	rz.Write(dir, tree)
	root := filepath.Join(dir, "root")
	exs := []string{"a", "ab", "a.proto", "abc.proto", "a/b", "b/a", "b/a/b", "b", "a/", "./a", "a/../ab", "b/a/b/c/x.proto", "a.proto.d", "x.proto", "A", "a/abc.proto", "../roota", ".", "..", "../root/a"}
	provider := file.NewProtoSetProvider()
	n := len(exs)
	h.Bound("discovery: a tree of %d files, all single excludes and pairs from %q", len(files), exs)
	for i := 0; i < n; i++ {
		for j := i; j < n; j++ {
			cur := []string{exs[i]}
			if j > i {
				cur = append(cur, exs[j])
			}
			var abs []string
			bad := false
			for _, e := range cur {
				a := filepath.Join(root, e)
				if a == root || !rz.Under(a, root) {
					bad = true
				}
				abs = append(abs, a)
			}
			rz.Write(dir, map[string]string{"root/prototool.yaml": "excludes:\n  - " + strings.Join(cur, "\n  - ") + "\n"})
			want := []string{}
			for _, f := range files {
				ok := true
				for _, a := range abs {
					ok = ok && !rz.Under(filepath.Join(root, f), a)
				}
				if ok {
					want = append(want, filepath.Join(root, f))
				}
			}
			sort.Strings(want)
			key := fmt.Sprintf("excludes %q", cur)
			h.Try("discovery", key, func() {
				ps, err := provider.GetForDir(root, root)
				if bad {
					h.Check("discovery-reject", key, true, "error", map[bool]string{true: "error", false: "accepted"}[err != nil])
					return
				}
				got := []string{}
				if err == nil {
					for _, fs := range ps.DirPathToFiles {
						for _, f := range fs {
							got = append(got, f.Path)
						}
					}
				}
				sort.Strings(got)
				h.Check("discovery", key, len(want) < len(files), fmt.Sprint(want, error(nil)), fmt.Sprint(got, err))
			})
			h.Try("prefixes", key, func() {
				if bad {
					return
				}
				got, err := settings.NewConfigProvider().GetExcludePrefixesForDir(root)
				w := map[string]bool{}
				for _, a := range abs {
					w[a] = true
				}
				g := map[string]bool{}
				for _, a := range got {
					g[a] = true
				}
				h.Check("prefixes", key, true, fmt.Sprint(rz.SortedKeys(w), error(nil)), fmt.Sprint(rz.SortedKeys(g), err))
			})
		}
	}
	// a nested configuration adds its own excludes below it, and only there
	rz.Write(dir, map[string]string{"root/prototool.yaml": "excludes:\n  - ab\n", "root/b/prototool.yaml": "excludes:\n  - a\n"})
	r := rz.CLI(root, "files", "b")
	h.Check("nested", "files b", true, "[b/ab/x.proto]", fmt.Sprint(rz.Lines(r.Out)))
	// 3. lint ignores
	if err := os.Remove(filepath.Join(root, "b/prototool.yaml")); err != nil {
		panic(err)
	}
	ign := []string{"a", "ab", "a/b", "a/x.proto", "b/a", "a/../ab", "abc.proto", "a.proto", "x.proto", "./b", "../roota", "b/a/b/c"}
	h.Bound("ignores: every entry of %q and pairs, one rule failing on every file", ign)
	for i := range ign {
		for j := i; j < len(ign); j++ {
			cur := []string{ign[i]}
			if j > i {
				cur = append(cur, ign[j])
			}
			rz.Write(dir, map[string]string{"root/prototool.yaml": "lint:\n  group: empty\n  rules:\n    add:\n      - SYNTAX_PROTO3\n      - FILE_OPTIONS_REQUIRE_GO_PACKAGE\n  ignores:\n    - id: file_options_require_go_package\n      files:\n        - " + strings.Join(cur, "\n        - ") + "\n"})
			want := map[string]bool{}
			for _, f := range files {
				skip := false
				for _, e := range cur {
					skip = skip || rz.Under(filepath.Join(root, f), filepath.Join(root, e))
				}
				if !skip {
					want[f] = true
				}
			}
			key := fmt.Sprintf("ignores %q", cur)
			h.Try("ignores", key, func() {
				got := map[string]bool{}
				r := rz.CLI(root, "lint", "--protoc-bin-path", "/usr/bin/protoc", "--protoc-wkt-path", "/usr/include")
				for _, l := range rz.Lines(r.Out) {
					if k := strings.Index(l, ":"); k > 0 {
						got[l[:k]] = true
					}
				}
				h.Check("ignores", key, len(want) < len(files), fmt.Sprint(rz.SortedKeys(want)), fmt.Sprint(rz.SortedKeys(got)))
			})
		}
	}
	h.Done()
}
