// Bounded check of create: what is refused, what is written, and the package.
package main

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/uber/prototool/internal/protostrs"
	"github.com/uber/prototool/internal/zverif/hz"
	"github.com/uber/prototool/internal/zverif/rz"
)

type conf struct {
	dir, group, header, java string
	maps                     map[string]string // relative directory to package
}

func (c *conf) yaml() string {
	s := "lint:\n  group: " + c.group + "\n"
	if c.header != "" {
		s += "  file_header:\n    content: |\n      " + strings.Replace(c.header, "\n", "\n      ", -1) + "\n    is_commented: true\n"
	}
	if c.java != "" {
		s += "  java_package_prefix: " + c.java + "\n"
	}
	if len(c.maps) > 0 {
		s += "create:\n  packages:\n"
		for _, d := range keys(c.maps) {
			s += "    - directory: " + d + "\n      name: " + c.maps[d] + "\n"
		}
	}
	return s
}

// pkg is the documented package of a new file in the absolute directory.
func (c *conf) pkg(dir string) string {
	def := "uber.prototool.generated"
	if c == nil {
		return def
	}
	if strings.EqualFold(c.group, "uber2") {
		def += ".v1"
	}
	rest := []string{}
	for d := dir; ; d = filepath.Dir(d) {
		for m, p := range c.maps {
			if filepath.Join(c.dir, m) == d {
				return strings.Join(append([]string{p}, rest...), ".")
			}
		}
		if d == c.dir {
			break
		}
		rest = append([]string{filepath.Base(d)}, rest...)
	}
	if len(rest) == 0 {
		return def
	}
	return strings.Join(rest, ".")
}

func (c *conf) text(name, pkg string) string {
	var b strings.Builder
	v2, java := false, "com"
	if c != nil {
		v2 = strings.EqualFold(c.group, "uber2")
		if c.header != "" {
			b.WriteString(c.header + "\n\n")
		}
		if c.java != "" {
			java = c.java
		}
	}
	fmt.Fprintf(&b, "syntax = \"proto3\";\n\npackage %s;\n\n", pkg)
	opt := func(k, v string) { fmt.Fprintf(&b, "option %s = %s;\n", k, v) }
	q := func(s string) string { return `"` + s + `"` }
	if v2 {
		opt("csharp_namespace", q(protostrs.CSharpNamespace(pkg)))
		opt("go_package", q(protostrs.GoPackageV2(pkg)))
	} else {
		opt("go_package", q(protostrs.GoPackage(pkg)))
	}
	opt("java_multiple_files", "true")
	opt("java_outer_classname", q(protostrs.JavaOuterClassname(name)))
	opt("java_package", q(java+"."+pkg))
	if v2 {
		opt("objc_class_prefix", q(protostrs.OBJCClassPrefix(pkg)))
		opt("php_namespace", q(protostrs.PHPNamespace(pkg)))
	}
	return strings.TrimSuffix(b.String(), "\n")
}

func main() {
	h := hz.New("C23")
	base := rz.Temp()
	defer rz.Clean(base)
	rng := rand.New(rand.NewSource(h.Seed))
	dirs := []string{".", "idl", "idl/foo", "idl/foo/bar", "idlx", "idlx/foo", "idl-x", "idl/baz", "idl/bazz", "idl/baz/bat", "other", "other/dir", "id"}
	pkgs := []string{"uber", "special", "foo.bar", "x.v1", "a.b.c"}
	groups := []string{"uber1", "uber2", "UBER2", "empty", "google"}
	n := h.N(150, 1500)
	h.Bound("%d random trees of %d directories sharing name prefixes, with up to two configurations, up to 5 packages, up to 4 targets (new, empty, with content, in a missing directory), from two working directories", n, len(dirs))
	for it := 0; it < n && !h.Late(); it++ {
		root := filepath.Join(base, fmt.Sprintf("w%d", it))
		files := map[string]string{}
		for _, d := range dirs {
			if err := os.MkdirAll(filepath.Join(root, d), 0o755); err != nil {
				panic(err)
			}
		}
		mk := func(dir string) *conf {
			c := &conf{dir: filepath.Join(root, dir), group: groups[rng.Intn(len(groups))], maps: map[string]string{}}
			if rng.Intn(2) == 0 {
				c.header = "// Copyright\n// all rights"
			}
			if rng.Intn(2) == 0 {
				c.java = "org.x"
			}
			for i := rng.Intn(5); i > 0; i-- {
				d := dirs[rng.Intn(len(dirs))]
				if r, err := filepath.Rel(dir, d); err == nil && !strings.HasPrefix(r, "..") {
					c.maps[r] = pkgs[rng.Intn(len(pkgs))]
				}
			}
			files[filepath.Join(dir, "prototool.yaml")] = c.yaml()
			return c
		}
		var top, low *conf
		if rng.Intn(6) > 0 {
			top = mk(".")
		}
		if rng.Intn(4) == 0 {
			low = mk("idl/baz")
		}
		confOf := func(abs string) *conf {
			if low != nil && (abs == low.dir || strings.HasPrefix(abs, low.dir+"/")) {
				return low
			}
			return top
		}
		var targets, args []string
		ok := true
		cwd := root
		if rng.Intn(3) == 0 {
			cwd = filepath.Join(root, "idl")
		}
		for i := 1 + rng.Intn(4); i > 0; i-- {
			d := dirs[rng.Intn(len(dirs))]
			f := filepath.Join(d, []string{"a.proto", "foo_bar.proto", "B.proto", "idl.proto"}[rng.Intn(4)])
			switch rng.Intn(14) {
			case 0:
				files[f] = "syntax = \"proto3\";\n"
				ok = false
			case 1:
				f = filepath.Join(d, "missing", "a.proto")
				ok = false
			case 2, 3:
				if files[f] == "" {
					files[f] = ""
				}
			case 4:
				files[f] = "\n"
				ok = false
			}
			if files[f] != "" {
				ok = false
			}
			abs := filepath.Join(root, f)
			arg := abs
			if rng.Intn(2) == 0 {
				arg, _ = filepath.Rel(cwd, abs)
			}
			targets, args = append(targets, abs), append(args, arg)
		}
		rz.Write(root, files)
		cmd := []string{"create"}
		given := ""
		if rng.Intn(4) == 0 {
			given = pkgs[rng.Intn(len(pkgs))]
			cmd = append(cmd, "--package", given)
		}
		cmd = append(cmd, args...)
		before := rz.Snapshot(root)
		in := fmt.Sprintf("prototool %s\nin %s with files %q", strings.Join(cmd, " "), cwd, files)
		in = strings.Replace(in, root, "ROOT", -1)
		h.Try("create", in, func() {
			res := rz.CLI(cwd, cmd...)
			after := rz.Snapshot(root)
			h.Check("the command fails exactly when a target has content or no directory", in, !ok, fmt.Sprint(!ok), fmt.Sprint(res.Code != 0))
			want := map[string]string{}
			for k, v := range before {
				want[k] = v
			}
			if ok {
				for _, t := range targets {
					rel, _ := filepath.Rel(root, t)
					c := confOf(filepath.Dir(t))
					p := given
					if p == "" {
						p = c.pkg(filepath.Dir(t))
					}
					want[rel] = c.text(t, p)
				}
			}
			h.Check("exactly the targets are written, with the documented package and options, or nothing is", in, true, show(want), show(after))
		})
		_ = os.RemoveAll(root)
	}
	h.Done()
}

func show(m map[string]string) string {
	var b strings.Builder
	for _, k := range keys(m) {
		fmt.Fprintf(&b, "== %s\n%s\n", k, m[k])
	}
	return b.String()
}

func keys(m map[string]string) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
