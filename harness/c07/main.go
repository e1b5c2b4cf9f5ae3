// Bounded check of the derived file options: the functions against a
// reference, and the three consumers against each other.
package main

import (
	"fmt"
	"path/filepath"
	"regexp"
	"strings"

	"github.com/emicklei/proto"
	"github.com/uber/prototool/internal/create"
	"github.com/uber/prototool/internal/file"
	"github.com/uber/prototool/internal/format"
	"github.com/uber/prototool/internal/lint"
	"github.com/uber/prototool/internal/protostrs"
	"github.com/uber/prototool/internal/settings"
	"github.com/uber/prototool/internal/zverif/hz"
	"github.com/uber/prototool/internal/zverif/rz"
)

var versioned = regexp.MustCompile(`^(.+)\.v0*([1-9][0-9]*)(?:beta0*([1-9][0-9]*))?$`)

func title(pkg string) string {
	var out []string
	for _, p := range strings.Split(pkg, ".") {
		if p != "" {
			p = strings.ToUpper(p[:1]) + p[1:]
		}
		out = append(out, p)
	}
	return strings.Join(out, ".")
}

func camel(name string) string {
	out := ""
	for _, w := range regexp.MustCompile(`[-_ ]+`).Split(name, -1) {
		if w != "" {
			out += strings.ToUpper(w[:1]) + w[1:]
		}
	}
	return out
}

func want(pkg, filename, prefix string) map[string]string {
	m := versioned.FindStringSubmatch(pkg)
	parts := strings.Split(pkg, ".")
	last := parts[len(parts)-1]
	w := map[string]string{}
	w["go1"] = last + "pb"
	w["go2"] = last + "pb"
	w["csharp"] = title(pkg)
	objc := parts
	if m != nil {
		w["go2"] = parts[len(parts)-2] + last
		objc = parts[:len(parts)-1]
		if m[3] != "" {
			w["csharp"] = title(m[1]) + ".V" + m[2] + "Beta" + m[3]
		}
	}
	w["php"] = strings.Join(strings.Split(w["csharp"], "."), `\\`)
	w["java1"] = "com." + pkg
	w["java2"] = "com." + pkg
	if prefix != "" {
		w["java2"] = prefix + "." + pkg
	}
	s := ""
	for _, p := range objc {
		if p != "" {
			s += strings.ToUpper(p[:1])
		}
	}
	switch {
	case len(s) == 1:
		s += "XX"
	case len(s) == 2:
		s += "X"
	case s == "GPB":
		s = "GPX"
	}
	w["objc"] = s
	base := filepath.Base(filename)
	w["outer"] = camel(strings.TrimSuffix(base, filepath.Ext(base))) + "Proto"
	return w
}

var optRe = regexp.MustCompile(`(?m)^option ([a-z_]+) = "?([^";]*)"?;$`)

func options(s string) map[string]string {
	out := map[string]string{}
	for _, m := range optRe.FindAllStringSubmatch(s, -1) {
		out[m[1]] = m[2]
	}
	return out
}

func expected(w map[string]string, v2 bool) map[string]string {
	out := map[string]string{"java_multiple_files": "true", "java_outer_classname": w["outer"], "java_package": w["java2"], "go_package": w["go1"]}
	if v2 {
		out["go_package"] = w["go2"]
		out["csharp_namespace"] = w["csharp"]
		out["objc_class_prefix"] = w["objc"]
		out["php_namespace"] = w["php"]
	}
	return out
}

func main() {
	h := hz.New("C07")
	var pkgs []string
	comp := []string{"foo", "Bar", "b", "g", "p", "v1", "v2beta3", "v0", "v01", "vbeta", "foo_bar", "v12beta10", "beta", "v1beta0", "v9223372036854775808beta18446744073709551615"}
	depth := h.N(3, 4)
	var rec func(cur []string)
	rec = func(cur []string) {
		if len(cur) > 0 {
			pkgs = append(pkgs, strings.Join(cur, "."))
		}
		if len(cur) == depth {
			return
		}
		for _, c := range comp {
			rec(append(append([]string{}, cur...), c))
		}
	}
	rec(nil)
	files := []string{"a.proto", "foo_bar.proto", "/x/y/foo-bar.baz.proto", "fooBar1.proto", "x/FOO.proto", "_a.proto", "v1_2.proto", "noext"}
	h.Bound("all packages of up to %d components out of %q (%d) times %d file names times 2 prefixes for the functions; a fixed sample of those (%d) for the three consumers", depth, comp, len(pkgs), len(files), h.N(150, 1500))
	dir := rz.Temp()
	defer rz.Clean(dir)
	check := func(rule, key string, want, got interface{}) {
		h.Check(rule, key, true, want, got)
	}
	for i, pkg := range pkgs {
		if h.Late() {
			break
		}
		f := files[i%len(files)]
		prefix := []string{"", "au.com.x"}[i/len(files)%2]
		w := want(pkg, f, prefix)
		h.Try("functions", pkg, func() {
			check("csharp_namespace", pkg, w["csharp"], protostrs.CSharpNamespace(pkg))
			check("php_namespace", pkg, w["php"], protostrs.PHPNamespace(pkg))
			check("go_package v1", pkg, w["go1"], protostrs.GoPackage(pkg))
			check("go_package v2", pkg, w["go2"], protostrs.GoPackageV2(pkg))
			check("java_package", pkg, w["java1"], protostrs.JavaPackage(pkg))
			check("java_package with prefix", pkg+" "+prefix, w["java2"], protostrs.JavaPackagePrefixOverride(pkg, prefix))
			check("objc_class_prefix", pkg, w["objc"], protostrs.OBJCClassPrefix(pkg))
			check("java_outer_classname", f, w["outer"], protostrs.JavaOuterClassname(f))
		})
		step := len(pkgs)/h.N(150, 1500) + 1
		if i%step != 0 {
			continue
		}
		for _, v2 := range []bool{false, true} {
			fix, group, ver := format.FixV1, "uber1", "v1"
			if v2 {
				fix, group, ver = format.FixV2, "uber2", "v2"
			}
			exp := expected(w, v2)
			name := filepath.Base(f)
			if filepath.Ext(name) != ".proto" {
				continue
			}
			key := ver + " " + pkg + " " + name + " " + prefix
			var formatted []byte
			h.Try("format --fix", key, func() {
				src := "syntax = \"proto3\";\n\npackage " + pkg + ";\n\noption go_package = \"wrong\";\noption java_package = \"wrong\";\n"
				out, fs, err := format.NewTransformer(format.TransformerWithFix(fix), format.TransformerWithJavaPackagePrefix(prefix)).Transform(filepath.Join(dir, name), []byte(src))
				if err != nil {
					h.Fail("format --fix: "+key, "error", key, "none", err.Error())
					return
				}
				_ = fs
				formatted = out
				check("format --fix", key, exp, options(string(out)))
			})
			cfg := fmt.Sprintf(`{"protoc":{"version":"3.8.0"},"lint":{"group":%q,"java_package_prefix":%q}}`, group, prefix)
			sub := filepath.Join(dir, fmt.Sprint("c", i, ver))
			h.Try("create", key, func() {
				rz.Write(sub, map[string]string{"keep": ""})
				p := filepath.Join(sub, name)
				if err := create.NewHandler(create.HandlerWithPackage(pkg), create.HandlerWithConfigData(cfg)).Create(p); err != nil {
					h.Fail("create: "+key, "error", key, "none", err.Error())
					return
				}
				check("create", key, exp, options(rz.Snapshot(sub)[name]))
			})
			h.Try("lint", key, func() {
				if len(formatted) == 0 {
					return
				}
				p, err := proto.NewParser(strings.NewReader(string(formatted))).Parse()
				if err != nil {
					return
				}
				p.Filename = filepath.Join(dir, name)
				set := &file.ProtoSet{WorkDirPath: dir, DirPath: dir, Config: settings.Config{DirPath: dir, Lint: settings.LintConfig{Group: group, JavaPackagePrefix: prefix}}}
				ls, err := lint.GetLinters(set.Config.Lint)
				if err != nil {
					h.Fail("lint: "+key, "error", key, "none", err.Error())
					return
				}
				var keep []lint.Linter
				for _, l := range ls {
					if strings.HasPrefix(l.ID(), "FILE_OPTIONS_EQUAL_") && !(l.ID() == "FILE_OPTIONS_EQUAL_JAVA_PACKAGE_COM_PREFIX" && prefix != "") {
						keep = append(keep, l)
					}
				}
				run := func(want string, edit func(*proto.Option)) {
					p, err := proto.NewParser(strings.NewReader(string(formatted))).Parse()
					if err != nil {
						return
					}
					p.Filename = filepath.Join(dir, name)
					for _, e := range p.Elements {
						if o, ok := e.(*proto.Option); ok && edit != nil {
							edit(o)
						}
					}
					fs, err := lint.CheckMultiple(keep, map[string][]*lint.FileDescriptor{dir: {{Proto: p, ProtoSet: set, FileData: string(formatted)}}}, nil)
					got := []string{}
					for _, f := range fs {
						got = append(got, f.LintID)
					}
					h.Check("lint accepts exactly the derived value", key+" "+want, true, want, fmt.Sprint(err, got))
				}
				run("<nil> []", nil)
				for opt, rule := range map[string]string{"go_package": "GO_PACKAGE_", "java_outer_classname": "JAVA_OUTER_", "java_multiple_files": "JAVA_MULTIPLE_", "java_package": "JAVA_PACKAGE_", "csharp_namespace": "CSHARP_", "objc_class_prefix": "OBJC_", "php_namespace": "PHP_"} {
					id := ""
					for _, l := range keep {
						if strings.HasPrefix(l.ID(), "FILE_OPTIONS_EQUAL_"+rule) {
							id = l.ID()
						}
					}
					if id == "" {
						continue
					}
					opt := opt
					run("<nil> ["+id+"]", func(o *proto.Option) {
						if o.Name == opt {
							o.Constant.Source += "x"
						}
					})
				}
			})
		}
	}
	h.Done()
}
