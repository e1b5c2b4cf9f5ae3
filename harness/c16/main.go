// Bounded check of lint ignores and suppressions against an unfiltered run.
package main

import (
	"fmt"
	"path/filepath"
	"sort"
	"strings"

	"github.com/uber/prototool/internal/file"
	"github.com/uber/prototool/internal/lint"
	"github.com/uber/prototool/internal/text"
	"github.com/uber/prototool/internal/zverif/hz"
	"github.com/uber/prototool/internal/zverif/rz"
)

const bad = `syntax = "proto3";

package %s;

import "google/protobuf/timestamp.proto";

option java_multiple_files = false;

/* c style */
message foo_bar { // inline
  float Bad_field = 1;
  int64 file_name = 2;
  google.protobuf.Timestamp t = 5;
  oneof Bad_Oneof { string uuid = 4; }
}
message Data {}
enum some_enum { foo = 0; bar = 1; }
message R {}
service exampleServices { rpc do_it(R) returns (stream R); }
`

// rules whose result for a file depends on the other files of a directory
func crossFile(id string) bool {
	return strings.HasSuffix(id, "_SAME_IN_DIR") || id == "REQUEST_RESPONSE_TYPES_UNIQUE"
}

func main() {
	h := hz.New("C16")
	ignores(h)
	suppressions(h)
	h.Done()
}

func ignores(h *hz.H) {
	base := rz.Temp()
	defer rz.Clean(base)
	var all []string
	for _, l := range lint.AllLinters {
		all = append(all, l.ID())
	}
	sort.Strings(all)
	files := []string{"r.proto", "a/x.proto", "a/b/x.proto", "ab/x.proto", "a/b/c/x.proto", "m/x.proto", "m/y.proto", "a.proto/x.proto"}
	w := map[string]string{}
	for i, f := range files {
		w["w/"+f] = fmt.Sprintf(bad, fmt.Sprintf("pkg%d.v1", i))
	}
	rz.Write(base, w)
	head := "lint:\n  group: empty\n  rules:\n    add:\n"
	for _, i := range all {
		head += "      - " + i + "\n"
	}
	run := func(cfg string, cwd string, args ...string) ([]string, rz.Result) {
		rz.Write(base, map[string]string{"w/prototool.yaml": cfg})
		r := rz.CLI(filepath.Join(base, cwd), append([]string{"lint", "--protoc-bin-path", "/usr/bin/protoc", "--protoc-wkt-path", "/usr/include", "--error-format", "id:filename:line:column:message"}, args...)...)
		return rz.Lines(r.Out), r
	}
	full, r := run(head, "w")
	if len(full) < 100 || r.Panic != "" {
		h.Fail("full", "sample files fail too few rules", r.Out+r.Err, ">=100", len(full))
	}
	part := map[string]int{}
	for _, l := range full {
		p := strings.SplitN(l, ":", 3)
		part[p[0]]++
	}
	var hit []string
	for i := range part {
		hit = append(hit, i)
	}
	sort.Strings(hit)
	paths := []string{".", "a", "a/b", "a/b/x.proto", "a/x.proto", "ab", "ab/x.proto", "m", "m/x.proto", "m/y.proto", "r.proto", "a/b/c", "a.proto", "a.proto/x.proto", "nosuch", "a/b/", "./a", "m/../a"}
	h.Bound("8 files failing %d rules; random ignore maps over files, directories, prefixes and spellings; runs from the root, a subdirectory and with a file argument", len(hit))
	for n := h.N(150, 2500); n > 0 && !h.Late(); n-- {
		ign := map[string][]string{}
		cfg := head + "  ignores:\n"
		for _, i := range h.Rand.Perm(len(hit))[:1+h.Rand.Intn(6)] {
			id := hit[i]
			k := 1 + h.Rand.Intn(2)
			ps := map[string]bool{}
			for ; k > 0; k-- {
				p := paths[h.Rand.Intn(len(paths))]
				c := filepath.Clean(p)
				if ps[c] || c == "." {
					continue
				}
				if crossFile(id) && (c == "m/x.proto" || c == "m/y.proto") {
					continue
				}
				ps[c] = true
				ign[id] = append(ign[id], p)
			}
			if len(ign[id]) == 0 {
				delete(ign, id)
				continue
			}
			cfg += "    - id: " + id + "\n      files:\n"
			for _, p := range ign[id] {
				cfg += "        - " + p + "\n"
			}
		}
		if len(ign) == 0 {
			continue
		}
		keep := func(pre string, strip string) []string {
			out := []string{}
			for _, l := range full {
				p := strings.SplitN(l, ":", 3)
				drop := false
				for _, i := range ign[p[0]] {
					if rz.Under(p[1], filepath.Clean(i)) {
						drop = true
					}
				}
				if pre != "" && !rz.Under(p[1], pre) {
					continue
				}
				if !drop {
					out = append(out, p[0]+":"+strings.TrimPrefix(p[1], strip)+":"+p[2])
				}
			}
			return out
		}
		key := fmt.Sprint(ign)
		got, r := run(cfg, "w")
		if r.Panic != "" {
			h.Fail(key, "panic", key, "no panic", r.Panic)
		}
		h.Check("ignores", key, true, keep("", ""), got)
		switch n % 5 {
		case 0:
			got, _ := run(cfg, "w/a")
			h.Check("ignores from a subdirectory", "w/a "+key, true, keep("a", "a/"), got)
		case 1:
			got, _ := run(cfg, "w", "a/b")
			h.Check("ignores with an argument", "a/b "+key, true, keep("a/b", ""), got)
		case 2:
			got, _ := run(cfg, "", "w/a")
			want := []string{}
			for _, l := range keep("a", "") {
				p := strings.SplitN(l, ":", 3)
				want = append(want, p[0]+":w/"+p[1]+":"+p[2])
			}
			h.Check("ignores from above", "above "+key, true, want, got)
		}
	}
}

type sample struct {
	annotation string
	ids        []string
	body       string // %s: the comment of the offending element
	line       int
}

func suppressions(h *hz.H) {
	base := rz.Temp()
	defer rz.Clean(base)
	samples := []sample{
		{"floats", []string{"MESSAGE_FIELDS_NOT_FLOATS"}, "syntax = \"proto3\";\npackage foo.v1;\nmessage Foo {\n%s\n  float a = 1;\n  float b = 2;\n}\n", 0},
		{"floats", []string{"MESSAGE_FIELDS_NOT_FLOATS"}, "syntax = \"proto3\";\npackage foo.v1;\nmessage Foo {\n%s\n  map<string, float> a = 1;\n  oneof o { float b = 2; }\n}\n", 0},
		{"floats", []string{"MESSAGE_FIELDS_NOT_FLOATS"}, "syntax = \"proto3\";\npackage foo.v1;\nmessage Foo {\n  oneof o {\n%s\n    float b = 2;\n    float c = 3;\n  }\n}\n", 0},
		{"naming", []string{"NAMES_NO_COMMON", "NAMES_NO_DATA", "NAMES_NO_UUID"}, "syntax = \"proto3\";\npackage foo.v1;\n%s\nmessage CommonDataUUID {\n  string data = 1;\n}\n", 0},
		{"naming", []string{"NAMES_NO_COMMON", "NAMES_NO_DATA", "NAMES_NO_UUID"}, "syntax = \"proto3\";\n%s\npackage foo.data.v1;\nenum Common {\n  UUID = 0;\n}\n", 0},
		{"naming", []string{"NAMES_NO_COMMON", "NAMES_NO_DATA", "NAMES_NO_UUID"}, "syntax = \"proto3\";\npackage foo.v1;\nenum E {\n%s\n  UUID_DATA = 0;\n  COMMON = 1;\n}\nmessage R {}\nservice S {\n  rpc Data(R) returns (R);\n}\n", 0},
		{"keywords", []string{"PACKAGE_NO_KEYWORDS"}, "syntax = \"proto3\";\n%s\npackage foo.public.v1;\nmessage Foo {}\n", 0},
		{"plurals", []string{"SERVICE_NAMES_NO_PLURALS"}, "syntax = \"proto3\";\npackage foo.v1;\n%s\nservice TripsAPI {}\nservice UsersAPI {}\n", 0},
	}
	notes := []string{"floats", "naming", "keywords", "plurals", "google-api-http", "float", "xnaming", "", "=@SuppressWarnings %a", "=@SUPPRESSWARNINGS %a", "=@suppresswarnings %A", "=@suppresswarnings  %a", "=@suppresswarnings: %a", "=@suppresswarnings other %a", "=@suppresswarnings-%a", "=@suppresswarning %a", "=%a", "=see @suppresswarnings %a."}
	forms := []string{"// %s", "// Something %s else.\n// more", "// first\n// %s", "/* %s */", "// none\n\n// %s", "// %s\n\n// none"}
	h.Bound("%d sample files over the suppressable rules, %d annotations, %d comment forms, suppression allowed and not", len(samples), len(notes), len(forms))
	byID := map[string]lint.Linter{}
	for _, l := range lint.AllLinters {
		byID[l.ID()] = l
	}
	show := func(fs []*text.Failure, err error, delta int) []string {
		out := []string{}
		if err != nil {
			out = append(out, "error "+err.Error())
		}
		for _, f := range fs {
			m := f.Message
			if i := strings.Index(m, " This can be suppressed by adding"); i >= 0 {
				m = m[:i]
			}
			out = append(out, fmt.Sprintf("%s:%s:%d:%d:%s", f.Filename, f.LintID, f.Line, f.Column, m))
		}
		return out
	}
	for si, s := range samples {
		for fi, form := range forms {
			for _, note := range notes {
				for _, allow := range []bool{false, true} {
					c := strings.Replace(form, "%s", "@suppresswarnings "+note, 1)
					if note == "" {
						c = strings.Replace(form, "%s", "suppresswarnings "+s.annotation, 1)
					}
					names := note == s.annotation
					if strings.HasPrefix(note, "=") {
						raw := strings.NewReplacer("%a", s.annotation, "%A", strings.ToUpper(s.annotation)).Replace(note[1:])
						c = strings.Replace(form, "%s", raw, 1)
						names = note == "=see @suppresswarnings %a."
					}
					neutral := strings.Replace(form, "%s", "nothing", 1)
					check := func(comment string, al bool) []string {
						rz.Write(base, map[string]string{"foo.proto": fmt.Sprintf(s.body, comment)})
						ps, err := file.NewProtoSetProvider().GetForDir(base, base)
						if err != nil {
							return []string{"error " + err.Error()}
						}
						ps.Config.Lint.AllowSuppression = al
						ps.Config.Lint.Group = "empty"
						ps.Config.Lint.IncludeIDs = s.ids
						fs, err := lint.NewRunner().Run(ps, false)
						return show(fs, err, 0)
					}
					want := check(neutral, false)
					// the annotation counts only in the comment attached to the element
					attached := form != "// none\n\n// %s" || true
					if form == "// %s\n\n// none" {
						attached = false
					}
					if allow && names && attached {
						l := strings.Count(s.body[:strings.Index(s.body, "%s")], "\n") + 1 + strings.Count(c, "\n") + 1
						kept := []string{}
						for _, w := range want {
							if !strings.HasPrefix(strings.SplitN(w, ":", 3)[2], fmt.Sprint(l)+":") {
								kept = append(kept, w)
							}
						}
						want = kept
					}
					key := fmt.Sprintf("sample %d form %d %q allow=%v", si, fi, note, allow)
					h.Check("suppressions", key, true, want, check(c, allow))
				}
			}
		}
	}
}
