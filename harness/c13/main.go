// Bounded check of configuration lookup: nearest ancestor, ambiguity.
package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"github.com/uber/prototool/internal/settings"
	"github.com/uber/prototool/internal/zverif/hz"
	"github.com/uber/prototool/internal/zverif/rz"
)

func main() {
	h := hz.New("C13")
	base := rz.Temp()
	defer rz.Clean(base)
	chain := []string{"w", "w/d1", "w/d1/d2", "w/d1/d2/d3"}
	kinds := []string{"none", "yaml", "json", "both", "other", "linked"}
	depth := h.N(3, 4)
	chain = chain[:depth]
	h.Bound("all assignments of %q to a chain of %d directories (and a sibling), every start directory, spellings of it and existing or missing leaf", kinds, depth)
	p := settings.NewConfigProvider()
	total := 1
	for range chain {
		total *= len(kinds)
	}
	// a configuration may be a link to a file elsewhere
	for i := range chain {
		rz.Write(base, map[string]string{fmt.Sprintf("shared/%d.yaml", i): fmt.Sprintf("protoc:\n  version: 1.%d.0\n", i)})
	}
	// a sibling with its own configuration never matters
	rz.Write(base, map[string]string{"w/d1x/prototool.yaml": "protoc:\n  version: 9.9.9\n"})
	for n := 0; n < total; n++ {
		var as []string
		for i, m := 0, n; i < depth; i, m = i+1, m/len(kinds) {
			as = append(as, kinds[m%len(kinds)])
		}
		for i, c := range chain {
			d := filepath.Join(base, c)
			if err := os.MkdirAll(d, 0o755); err != nil {
				panic(err)
			}
			for _, f := range []string{"prototool.yaml", "prototool.json", "prototool.yml"} {
				_ = os.Remove(filepath.Join(d, f))
			}
			y := map[string]string{c + "/prototool.yaml": fmt.Sprintf("protoc:\n  version: 1.%d.0\n", i)}
			j := map[string]string{c + "/prototool.json": fmt.Sprintf("{\"protoc\":{\"version\":\"1.%d.1\"}}", i)}
			switch as[i] {
			case "yaml":
				rz.Write(base, y)
			case "json":
				rz.Write(base, j)
			case "both":
				rz.Write(base, y)
				rz.Write(base, j)
			case "linked":
				if err := os.Symlink(filepath.Join(base, "shared", fmt.Sprintf("%d.yaml", i)), filepath.Join(d, "prototool.yaml")); err != nil {
					panic(err)
				}
			case "other":
				rz.Write(base, map[string]string{c + "/prototool.yml": "protoc:\n  version: 8.0.0\n"})
			}
		}
		for s := 0; s <= depth; s++ {
			start, lvl := "", s
			if s == depth {
				start, lvl = filepath.Join(base, chain[depth-1], "missing", "deep"), depth-1
			} else {
				start = filepath.Join(base, chain[s])
			}
			file, version, amb := "", "", false
			for i := lvl; i >= 0; i-- {
				d := filepath.Join(base, chain[i])
				switch as[i] {
				case "yaml", "linked":
					file, version = d+"/prototool.yaml", fmt.Sprintf("1.%d.0", i)
				case "json":
					file, version = d+"/prototool.json", fmt.Sprintf("1.%d.1", i)
				case "both":
					amb = true
				}
				if file != "" || amb {
					break
				}
			}
			for _, sp := range []string{start, start + "/", start + "/./x/..", strings.Replace(start, base, base+"/w/..", 1)} {
				sp := sp
				key := fmt.Sprintf("%v from %s", as, strings.TrimPrefix(sp, base))
				h.Try("path", key, func() {
					got, err := p.GetFilePathForDir(sp)
					w := file + " <nil>"
					g := fmt.Sprint(got, " ", err)
					if amb {
						w = "error"
						if err != nil && got == "" {
							g = "error"
						}
					}
					h.Check("path", key, file != "" || amb, w, g)
				})
				h.Try("config", key, func() {
					got, err := p.GetForDir(sp)
					w := fmt.Sprint(filepath.Clean(start), " ", version, " ", error(nil))
					if file != "" {
						w = fmt.Sprint(filepath.Dir(file), " ", version, " ", error(nil))
					}
					g := fmt.Sprint(filepath.Clean(got.DirPath), " ", got.Compile.ProtobufVersion, " ", err)
					if amb {
						w = "error"
						if err != nil {
							g = "error"
						}
					}
					h.Check("config", key, file != "" || amb, w, g)
				})
			}
			if s < depth {
				h.Try("relative", fmt.Sprint(as, s), func() {
					if err := os.Chdir(base); err != nil {
						panic(err)
					}
					_, e1 := p.GetFilePathForDir(chain[s])
					_, e2 := p.GetForDir(chain[s])
					_, e3 := p.GetExcludePrefixesForDir(chain[s])
					h.Check("relative", fmt.Sprint(as, s), true, "true true true", fmt.Sprint(e1 != nil, e2 != nil, e3 != nil))
				})
			}
		}
	}
	// the whole tool uses it: version and excludes of the nearest file
	rz.Write(base, map[string]string{
		"t/prototool.yaml": "excludes:\n  - a/b/y.proto\n  - a/c\n", "t/a/x.proto": "", "t/a/b/y.proto": "", "t/a/b/z.proto": "", "t/a/c/w.proto": "",
		"u/prototool.yaml": "{}", "u/prototool.json": "{}", "u/a/x.proto": ""})
	for _, c := range []struct{ dir, arg, want string }{
		{"t", "a", "0 [a/b/z.proto a/x.proto]"}, {"t/a", ".", "0 [b/z.proto x.proto]"}, {"t/a/b", "", "0 [z.proto]"}, {"u/a", ".", "error, no files"}, {"", "t/a/b", "0 [t/a/b/z.proto]"},
	} {
		args := []string{"files"}
		if c.arg != "" {
			args = append(args, c.arg)
		}
		r := rz.CLI(filepath.Join(base, c.dir), args...)
		got := fmt.Sprint(r.Code, " ", rz.Lines(r.Out))
		if r.Code != 0 && !strings.Contains(r.Out, ".proto\n") {
			got = "error, no files"
		}
		h.Check("files", c.dir+" files "+c.arg, true, c.want, got)
	}
	h.Done()
}
