// Bounded check of the normalisation of configurations against an independent
// oracle written from the documentation.
package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"path/filepath"
	"sort"
	"strings"

	"github.com/uber/prototool/internal/lint"
	"github.com/uber/prototool/internal/settings"
	"github.com/uber/prototool/internal/zverif/hz"
	"github.com/uber/prototool/internal/zverif/rz"
	"gopkg.in/yaml.v2"
)

type M = map[string]interface{}

type gen struct{ r *rand.Rand }

func (g gen) some(n int, from ...string) []string {
	out := []string{}
	for k := g.r.Intn(n + 1); k > 0; k-- {
		out = append(out, from[g.r.Intn(len(from))])
	}
	return out
}
func (g gen) pick(from ...string) string { return from[g.r.Intn(len(from))] }
func (g gen) odds(n int) bool            { return g.r.Intn(n) == 0 }

func norm(dir, p string) string {
	if !filepath.IsAbs(p) {
		p = dir + "/" + p
	}
	return filepath.Clean(p)
}

func set(ss []string) string {
	m := map[string]bool{}
	for _, s := range ss {
		m[s] = true
	}
	return fmt.Sprintf("%q", rz.SortedKeys(m))
}

func mapAll(ss []string, f func(string) string) []string {
	var out []string
	for _, s := range ss {
		if s != "" {
			out = append(out, f(s))
		}
	}
	return out
}

type plug struct {
	Name, Type, Flags, Output, Suffix, Path string
	Imports, Source                         bool
}

// conf is one configuration as the user writes it.
type conf struct {
	excludes, includes, add, remove     []string
	version, group, prefix, imp         string
	unused, noDefault, supp, beta, deps bool
	ignores                             []M
	header                              M
	pkgs                                []M
	mods                                map[string]string
	plugs                               []plug
	extra                               string
}

func (c conf) doc() M {
	pl := []M{}
	for _, p := range c.plugs {
		pl = append(pl, M{"name": p.Name, "type": p.Type, "flags": p.Flags, "output": p.Output, "file_suffix": p.Suffix, "path": p.Path, "include_imports": p.Imports, "include_source_info": p.Source})
	}
	d := M{
		"excludes": c.excludes,
		"protoc":   M{"includes": c.includes, "version": c.version, "allow_unused_imports": c.unused},
		"create":   M{"packages": c.pkgs},
		"lint": M{"group": c.group, "ignores": c.ignores, "rules": M{"no_default": c.noDefault, "add": c.add, "remove": c.remove},
			"file_header": c.header, "java_package_prefix": c.prefix, "allow_suppression": c.supp},
		"break":    M{"include_beta": c.beta, "allow_beta_deps": c.deps},
		"generate": M{"go_options": M{"import_path": c.imp, "extra_modifiers": c.mods}, "plugins": pl},
	}
	switch c.extra {
	case "top":
		d["exclude"] = []string{"x"}
	case "nested":
		d["protoc"].(M)["include"] = "x"
	}
	return d
}

// want is the oracle: the normalised configuration, or "error".
func (c conf) want(dir string, devel bool, headers map[string]string) string {
	if c.extra != "" {
		return "error: unknown field"
	}
	for _, e := range c.excludes {
		if e == "" {
			continue
		}
		n := norm(dir, e)
		if n == dir || !rz.Under(n, dir) {
			return "error: exclude " + e
		}
	}
	for _, p := range c.plugs {
		t := strings.ToLower(p.Type)
		if t != "" && t != "go" && t != "gogo" {
			return "error: plugin type"
		}
		if p.Output == "" {
			return "error: plugin output"
		}
		if strings.HasPrefix(p.Suffix, ".") {
			return "error: suffix"
		}
		if p.Name != "descriptor_set" && (p.Imports || p.Source) {
			return "error: descriptor set flags"
		}
		if strings.HasPrefix(p.Name, "protoc-gen-") {
			return "error: plugin name"
		}
		if t != "" && c.imp == "" {
			return "error: import path"
		}
	}
	for _, p := range c.pkgs {
		d, n := p["directory"].(string), p["name"].(string)
		if d == "" || n == "" || filepath.IsAbs(d) {
			return "error: create package"
		}
	}
	hp, hc := c.header["path"].(string), c.header["content"].(string)
	header := ""
	if hp != "" && hc != "" {
		return "error: both headers"
	}
	if hp != "" {
		if filepath.IsAbs(hp) {
			return "error: absolute header"
		}
		var ok bool
		if hc, ok = headers[filepath.Clean(hp)]; !ok {
			return "error: header missing"
		}
	}
	if hp != "" || hc != "" {
		var ls []string
		for _, l := range strings.Split(strings.TrimSpace(hc), "\n") {
			l = strings.TrimSpace(l)
			if !c.header["is_commented"].(bool) {
				l = strings.TrimSpace("// " + l)
			}
			ls = append(ls, l)
		}
		header = strings.Join(ls, "\n")
		if header == "" {
			return "error: empty header"
		}
	}
	if c.supp && !devel {
		return "error: suppression"
	}
	add, rem := mapAll(c.add, strings.ToUpper), mapAll(c.remove, strings.ToUpper)
	for _, a := range add {
		for _, r := range rem {
			if a == r {
				return "error: added and removed"
			}
		}
	}
	nrm := func(s string) string { return norm(dir, s) }
	ign := map[string][]string{}
	for _, i := range c.ignores {
		for _, f := range i["files"].([]string) {
			id := strings.ToUpper(i["id"].(string))
			ign[id] = append(ign[id], norm(dir, f))
		}
	}
	var igs []string
	for k, v := range ign {
		igs = append(igs, k+"="+set(v))
	}
	sort.Strings(igs)
	cr := map[string]string{}
	for _, p := range c.pkgs {
		cr[norm(dir, p["directory"].(string))] = p["name"].(string)
	}
	var ps []string
	for _, p := range c.plugs {
		abs := norm(dir, p.Output)
		rel := p.Output
		if filepath.IsAbs(rel) {
			rel, _ = filepath.Rel(dir, abs)
		}
		ps = append(ps, fmt.Sprintf("%s|%s|%s|%s|%v|%v|%s|%s", p.Name, strings.ToLower(p.Type), p.Flags, p.Suffix, p.Imports, p.Source, rel, abs))
	}
	sort.Strings(ps)
	group := strings.ToLower(c.group)
	return fmt.Sprintf("dir %s ex %s inc %s version %q unused %v wkt %v create %v add %s rem %s group %q nodef %v ign %v header %q prefix %q supp %v beta %v deps %v imp %q mods %v plugins %v",
		dir, set(mapAll(c.excludes, nrm)), set(mapAll(c.includes, nrm)), c.version, c.unused, true, cr, set(add), set(rem), group, c.noDefault, igs, header, c.prefix, c.supp, c.beta, c.deps, c.imp, norms(c.mods), ps)
}

func norms(m map[string]string) string {
	if m == nil {
		m = map[string]string{}
	}
	return fmt.Sprint(m)
}

func show(c settings.Config, err error) string {
	if err != nil {
		return "error: " + err.Error()
	}
	var igs []string
	for k, v := range c.Lint.IgnoreIDToFilePaths {
		igs = append(igs, k+"="+set(v))
	}
	sort.Strings(igs)
	var ps []string
	ordered := true
	for i, p := range c.Gen.Plugins {
		ps = append(ps, fmt.Sprintf("%s|%s|%s|%s|%v|%v|%s|%s", p.Name, p.Type.String(), p.Flags, p.FileSuffix, p.IncludeImports, p.IncludeSourceInfo, p.OutputPath.RelPath, p.OutputPath.AbsPath))
		ordered = ordered && (i == 0 || c.Gen.Plugins[i-1].Name <= p.Name)
		if p.GetPath == nil {
			ps = append(ps, "no path function")
		}
	}
	sort.Strings(ps)
	if !ordered {
		ps = append(ps, "PLUGINS NOT SORTED")
	}
	cr := map[string]string{}
	for k, v := range c.Create.DirPathToBasePackage {
		cr[k] = v
	}
	return fmt.Sprintf("dir %s ex %s inc %s version %q unused %v wkt %v create %v add %s rem %s group %q nodef %v ign %v header %q prefix %q supp %v beta %v deps %v imp %q mods %v plugins %v",
		c.DirPath, set(c.ExcludePrefixes), set(c.Compile.IncludePaths), c.Compile.ProtobufVersion, c.Compile.AllowUnusedImports, c.Compile.IncludeWellKnownTypes, cr,
		set(c.Lint.IncludeIDs), set(c.Lint.ExcludeIDs), c.Lint.Group, c.Lint.NoDefault, igs, c.Lint.FileHeader, c.Lint.JavaPackagePrefix, c.Lint.AllowSuppression,
		c.Break.IncludeBeta, c.Break.AllowBetaDeps, c.Gen.GoPluginOptions.ImportPath, norms(c.Gen.GoPluginOptions.ExtraModifiers), ps)
}

func main() {
	h := hz.New("C14")
	tmp := rz.Temp()
	defer rz.Clean(tmp)
	dir := filepath.Join(tmp, "w")
	headers := map[string]string{"h.txt": "a\n  b \n\nc\n\n", "blank.txt": " \n\n", "sub/h.txt": "// x\n\n// y\n"}
	w := map[string]string{}
	for k, v := range headers {
		w["w/"+k] = v
	}
	rz.Write(tmp, w)
	n := h.N(6000, 60000)
	h.Bound("%d random configurations as JSON and YAML, with and without development mode", n)
	for i := 0; i < n && !h.Late(); i++ {
		g := gen{rand.New(rand.NewSource(int64(i)*7919 + h.Seed))}
		c := conf{version: g.pick("", "3.8.0"), group: g.pick("", "Uber2", "google"), prefix: g.pick("", "com"), imp: g.pick("x/y", "x/y", "x/y", ""),
			unused: g.odds(2), noDefault: g.odds(2), supp: g.odds(8), beta: g.odds(2), deps: g.odds(2), header: M{"path": "", "content": "", "is_commented": false}}
		good := !g.odds(3) // avoid most reasons for rejection
		if good {
			c.excludes = g.some(3, "a", "./a", "a/b", "c/../d", "", dir+"/q")
		} else {
			c.excludes = g.some(2, "a", "../w2", ".", "..", "a/..", dir+"2/x", "/", "../w")
		}
		c.includes = g.some(3, "a", "./a", "../up", "/abs/x/..", ".", "", "z/")
		c.add = g.some(3, "a_rule", "B_RULE", "b_rule", "C_Rule", "")
		if good {
			c.remove = g.some(2, "d_rule", "E_RULE")
		} else {
			c.remove = g.some(2, "d_rule", "a_RULE", "c_rule", "")
		}
		for k := g.r.Intn(3); k > 0; k-- {
			c.ignores = append(c.ignores, M{"id": g.pick("x_one", "X_ONE", "Y"), "files": g.some(3, "a.proto", "./a.proto", "d/../b.proto", "/z/c.proto", "../o.proto")})
		}
		if g.odds(2) {
			c.header["path"] = g.pick("h.txt", "sub/h.txt", "./h.txt")
			if !good {
				c.header["path"] = g.pick("h.txt", "nope.txt", "/etc/hostname", "blank.txt")
			}
		}
		if c.header["path"] == "" && g.odds(2) || !good && g.odds(4) {
			c.header["content"] = g.pick("one", "one\n\n two \n", "// c\n//d", "é")
			if !good {
				c.header["content"] = g.pick(" ", "x", "\n\n")
			}
		}
		c.header["is_commented"] = g.odds(2)
		for k := g.r.Intn(3); k > 0; k-- {
			p := M{"directory": g.pick("a", "a/b", ".", "./c/", "..", "c"), "name": g.pick("foo", "foo.bar")}
			if !good && g.odds(2) {
				p = M{"directory": g.pick("", "/abs", "a"), "name": g.pick("", "x")}
			}
			c.pkgs = append(c.pkgs, p)
		}
		if g.odds(2) {
			c.mods = map[string]string{"a/b.proto": "x/" + g.pick("b", "c")}
		}
		for k := g.r.Intn(4); k > 0; k-- {
			p := plug{Name: g.pick("go", "zz", "java", "aa", "descriptor_set"), Type: g.pick("", "go", "GOGO", "Go"), Flags: g.pick("", "plugins=grpc"), Output: g.pick("out", "../out", "/abs/out/", "./a/b", dir+"/in"), Suffix: g.pick("", "pb.go", "a.b")}
			if p.Name == "descriptor_set" {
				p.Imports, p.Source = g.odds(2), g.odds(2)
			}
			if c.imp == "" {
				p.Type = ""
			}
			if !good && g.odds(2) {
				switch g.r.Intn(6) {
				case 0:
					p.Type = "java"
				case 1:
					p.Output = ""
				case 2:
					p.Suffix = ".pb"
				case 3:
					p.Imports = true
				case 4:
					p.Source = true
				case 5:
					p.Name = "protoc-gen-x"
				}
			}
			c.plugs = append(c.plugs, p)
		}
		if !good && g.odds(6) {
			c.extra = g.pick("top", "nested")
		}
		devel := g.odds(2)
		d := c.doc()
		js, err := json.Marshal(d)
		if err != nil {
			panic(err)
		}
		key := fmt.Sprintf("devel=%v %s", devel, js)
		want := c.want(dir, devel, headers)
		check := func(rule string, f func(p settings.ConfigProvider) (settings.Config, error)) {
			h.Try(rule, key, func() {
				var opts []settings.ConfigProviderOption
				if devel {
					opts = append(opts, settings.ConfigProviderWithDevelMode())
				}
				got := show(f(settings.NewConfigProvider(opts...)))
				if strings.HasPrefix(want, "error") && strings.HasPrefix(got, "error") {
					got = want
				}
				h.Check(rule+map[bool]string{true: " rejected", false: " accepted"}[strings.HasPrefix(want, "error")], key, true, want, got)
			})
		}
		check("data", func(p settings.ConfigProvider) (settings.Config, error) { return p.GetForData(dir, string(js)) })
		switch i % 4 {
		case 0:
			rz.Write(tmp, map[string]string{"w/prototool.json": string(js)})
			check("json file", func(p settings.ConfigProvider) (settings.Config, error) { return p.Get(dir + "/prototool.json") })
		case 1:
			ys, err := yaml.Marshal(d)
			if err != nil {
				panic(err)
			}
			rz.Write(tmp, map[string]string{"w/prototool.yaml": string(ys)})
			check("yaml file", func(p settings.ConfigProvider) (settings.Config, error) { return p.Get(dir + "/prototool.yaml") })
		}
	}
	// unknown groups and ids are errors when the rules are chosen
	for _, c := range []struct {
		cfg string
		ok  bool
	}{
		{`{"lint":{"group":"uber2"}}`, true}, {`{"lint":{"group":"Uber2"}}`, true}, {`{"lint":{"group":"nope"}}`, false}, {`{"lint":{"group":"uber2x"}}`, false},
		{`{"lint":{"rules":{"add":["nope"]}}}`, false}, {`{"lint":{"rules":{"remove":["nope"]}}}`, false},
		{`{"lint":{"rules":{"add":["syntax_proto3"]}}}`, true}, {`{"lint":{"rules":{"no_default":true,"add":["SYNTAX_PROTO3"]}}}`, true},
		{`{"lint":{"rules":{"no_default":true,"add":["SYNTAX_PROTO"]}}}`, false}, {`{"lint":{"rules":{"no_default":true,"remove":["SYNTAX_PROTO"]}}}`, false},
		{`{"lint":{"group":"nope","rules":{"no_default":true}}}`, false},
	} {
		h.Try("unknown names", c.cfg, func() {
			cfg, err := settings.NewConfigProvider().GetForData(dir, c.cfg)
			if err == nil {
				_, err = lint.GetLinters(cfg.Lint)
			}
			h.Check("unknown names", c.cfg, true, c.ok, err == nil)
		})
	}
	h.Done()
}
