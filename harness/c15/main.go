// Bounded check of rule selection: which rules a configuration selects, lists and runs.
package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/uber/prototool/internal/lint"
	"github.com/uber/prototool/internal/settings"
	"github.com/uber/prototool/internal/zverif/hz"
	"github.com/uber/prototool/internal/zverif/rz"
)

func ids(ls []lint.Linter) []string {
	out := []string{}
	for _, l := range ls {
		out = append(out, l.ID())
	}
	sort.Strings(out)
	return out
}

func group(g string) []string {
	out := []string{}
	for _, x := range golden {
		if g == "google" && x.Google || g == "uber1" && x.Uber1 || g == "uber2" && x.Uber2 || g == "all" {
			out = append(out, x.ID)
		}
	}
	sort.Strings(out)
	return out
}

func selected(c settings.LintConfig) []string {
	g := c.Group
	if g == "" {
		g = "uber1"
		if c.NoDefault {
			g = "empty"
		}
	}
	m := map[string]bool{}
	for _, i := range group(g) {
		m[i] = true
	}
	for _, i := range c.IncludeIDs {
		m[i] = true
	}
	for _, i := range c.ExcludeIDs {
		delete(m, i)
	}
	return rz.SortedKeys(m)
}

func show(c settings.LintConfig) string {
	return fmt.Sprintf("group=%q nodefault=%v include=%v exclude=%v ignore=%v", c.Group, c.NoDefault, c.IncludeIDs, c.ExcludeIDs, c.IgnoreIDToFilePaths)
}

func firsts(out string) []string {
	r := []string{}
	for _, l := range rz.Lines(out) {
		r = append(r, strings.Fields(l)[0])
	}
	sort.Strings(r)
	return r
}

func main() {
	h := hz.New("C15")
	all := group("all")
	groups := []string{"", "google", "uber1", "uber2", "empty"}
	h.Check("all rules", "all", true, all, ids(lint.AllLinters))
	h.Check("default rules", "default", true, group("uber1"), ids(lint.DefaultLinters))
	for _, g := range groups[1:] {
		h.Check("group", "group "+g, true, group(g), ids(lint.GroupToLinters[g]))
	}
	// every configuration, including after other selections were computed
	check := func(c settings.LintConfig) {
		key := show(c)
		ls, err := lint.GetLinters(c)
		if err != nil {
			h.Check("selection", key, true, "rules", "error "+err.Error())
			return
		}
		h.Check("selection", key, true, selected(c), ids(ls))
	}
	bad := func(c settings.LintConfig) {
		_, err := lint.GetLinters(c)
		h.Check("unknown id or group", show(c), true, true, err != nil)
	}
	h.Bound("every group x every single added, removed and added+removed id; random configurations; every command line listing")
	for _, g := range groups {
		for _, nd := range []bool{false, true} {
			check(settings.LintConfig{Group: g, NoDefault: nd})
			for _, id := range all {
				check(settings.LintConfig{Group: g, NoDefault: nd, IncludeIDs: []string{id}})
				check(settings.LintConfig{Group: g, NoDefault: nd, ExcludeIDs: []string{id}})
			}
		}
	}
	for n := h.N(3000, 60000); n > 0 && !h.Late(); n-- {
		c := settings.LintConfig{Group: groups[h.Rand.Intn(len(groups))], NoDefault: h.Rand.Intn(2) == 0}
		p := h.Rand.Perm(len(all))
		a, b := h.Rand.Intn(6), h.Rand.Intn(6)
		for _, i := range p[:a] {
			c.IncludeIDs = append(c.IncludeIDs, all[i])
		}
		for _, i := range p[a : a+b] {
			c.ExcludeIDs = append(c.ExcludeIDs, all[i])
		}
		if h.Rand.Intn(3) == 0 {
			c.IgnoreIDToFilePaths = map[string][]string{all[h.Rand.Intn(len(all))]: {"/x"}}
		}
		check(c)
		switch h.Rand.Intn(12) {
		case 0:
			c.Group = "uber3"
			bad(c)
		case 1:
			c.IncludeIDs = append(append([]string{}, c.IncludeIDs...), "NO_SUCH_RULE")
			bad(c)
		case 2:
			c.ExcludeIDs = append([]string{"NO_SUCH_RULE"}, c.ExcludeIDs...)
			bad(c)
		case 3:
			c.IgnoreIDToFilePaths = map[string][]string{"NO_SUCH_RULE": {"/x"}, all[0]: nil}
			bad(c)
		}
	}
	for _, g := range groups[1:] {
		h.Check("group unchanged by selections", "group after "+g, true, group(g), ids(lint.GroupToLinters[g]))
	}
	// command line
	base := rz.Temp()
	defer rz.Clean(base)
	cli := func(args ...string) rz.Result {
		return rz.CLI(base, append([]string{"lint", "--protoc-bin-path", "/usr/bin/protoc", "--protoc-wkt-path", "/usr/include"}, args...)...)
	}
	h.Check("list all groups", "--list-all-lint-groups", true, []string{"empty", "google", "uber1", "uber2"}, firsts(cli("--list-all-lint-groups").Out))
	h.Check("list all", "--list-all-linters", true, all, firsts(cli("--list-all-linters").Out))
	for _, g := range groups[1:] {
		h.Check("list group", "--list-lint-group "+g, true, group(g), firsts(cli("--list-lint-group", g).Out))
		h.Check("list group", "--list-lint-group upper "+g, true, group(g), firsts(cli("--list-lint-group", strings.ToUpper(g)).Out))
		for _, g2 := range groups[1:] {
			want := []string{}
			in := func(s string, l []string) bool {
				for _, e := range l {
					if e == s {
						return true
					}
				}
				return false
			}
			for _, i := range all {
				a, b := in(i, group(g)), in(i, group(g2))
				if a && !b {
					want = append(want, "< "+i)
				} else if b && !a {
					want = append(want, "> "+i)
				}
			}
			sort.Strings(want)
			got := rz.Lines(cli("--diff-lint-groups", g+","+g2).Out)
			sort.Strings(got)
			if got == nil {
				got = []string{}
			}
			h.Check("diff groups", "--diff-lint-groups "+g+","+g2, true, want, got)
		}
	}
	h.Check("unknown group", "--list-lint-group nope", true, true, cli("--list-lint-group", "nope").Code != 0)
	// configuration file, listing and running
	bad1 := `syntax = "proto2";
import public "google/protobuf/any.proto";
import "google/protobuf/timestamp.proto";
package Foo.bar_Baz;
option java_multiple_files = false;
/* c style */
message foo_bar { // inline
  optional float Bad_field = 1 [json_name = "x"];
  optional int64 file_name = 2;
  optional int64 uuid = 3;
  optional google.protobuf.Timestamp t = 5; optional google.protobuf.Any an = 6;
  oneof Bad_Oneof { string a = 4; }
}
message Data {}
enum some_enum { option allow_alias = true; foo = 0; bar = 0; }
message R {}
service exampleServices { rpc do_it(R) returns (stream R); }
`
	runIDs := func(args ...string) ([]string, rz.Result) {
		r := cli(append(args, "--error-format", "id:message")...)
		m := map[string]bool{}
		for _, l := range rz.Lines(r.Out) {
			m[strings.Split(l, ":")[0]] = true
		}
		return rz.SortedKeys(m), r
	}
	cfg := func(c settings.LintConfig) string {
		s := "lint:\n"
		if c.Group != "" {
			s += "  group: " + c.Group + "\n"
		}
		s += "  rules:\n    no_default: " + fmt.Sprint(c.NoDefault) + "\n"
		if len(c.IncludeIDs) > 0 {
			s += "    add:\n"
			for _, i := range c.IncludeIDs {
				s += "      - " + i + "\n"
			}
		}
		if len(c.ExcludeIDs) > 0 {
			s += "    remove:\n"
			for _, i := range c.ExcludeIDs {
				s += "      - " + i + "\n"
			}
		}
		return s
	}
	everything := settings.LintConfig{Group: "empty", IncludeIDs: all}
	rz.Write(base, map[string]string{"Bad-File.proto": bad1, "prototool.yaml": cfg(everything)})
	failing, r := runIDs()
	if len(failing) < 20 {
		h.Fail("everything", "the sample file fails too few rules", r.Out, ">= 20", failing)
	}
	for n := h.N(25, 250); n > 0 && !h.Late(); n-- {
		c := settings.LintConfig{Group: groups[n%len(groups)], NoDefault: n%3 == 0}
		p := h.Rand.Perm(len(all))
		a, b := h.Rand.Intn(30), h.Rand.Intn(30)
		if n%4 == 0 {
			a, b = 0, 0
		}
		for _, i := range p[:a] {
			c.IncludeIDs = append(c.IncludeIDs, all[i])
		}
		for _, i := range p[a : a+b] {
			c.ExcludeIDs = append(c.ExcludeIDs, all[i])
		}
		rz.Write(base, map[string]string{"prototool.yaml": cfg(c)})
		sel := map[string]bool{}
		for _, i := range selected(c) {
			sel[i] = true
		}
		want := []string{}
		for _, i := range failing {
			if sel[i] {
				want = append(want, i)
			}
		}
		h.Check("listed", "listed "+show(c), true, selected(c), firsts(cli("--list-linters").Out))
		got, r := runIDs()
		h.Check("run", "run "+show(c), len(want) > 0, want, got)
		h.Check("exit status", "exit "+show(c), true, len(want) > 0, r.Code != 0)
	}
	h.Done()
}
