// Bounded check that no temporary file is left behind and that results do not
// depend on the order protoc runs finish in.
package main

import (
	"errors"
	"fmt"
	"io/ioutil"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"strings"

	"github.com/uber/prototool/internal/file"
	"github.com/uber/prototool/internal/git"
	"github.com/uber/prototool/internal/protoc"
	"github.com/uber/prototool/internal/settings"
	"github.com/uber/prototool/internal/zverif/hz"
	"github.com/uber/prototool/internal/zverif/rz"
	"go.uber.org/zap"
)

// protoc run for the files of a directory does what DIR/.run says: lines for
// stderr, after the delay in DIR/.delay, and the status in DIR/.code
const fake = `#!/bin/sh
o=
while [ $# -gt 0 ]; do
  case "$1" in
  -o) o=$2; shift;;
  -I) shift;;
  --*) ;;
  *) f=$1;;
  esac
  shift
done
d=$(dirname "$f")
sleep $(cat "$d/.delay")
cat "$d/.run" >&2
if [ -f "$d/.set" ] && [ -n "$o" ]; then cat "$d/.set" > "$o"; fi
exit $(cat "$d/.code")
`

func left(tmp string) string {
	var out []string
	_ = filepath.Walk(tmp, func(p string, i os.FileInfo, err error) error {
		if p != tmp {
			out = append(out, strings.TrimPrefix(p, tmp))
			if i != nil && i.IsDir() {
				return filepath.SkipDir
			}
		}
		return nil
	})
	for i := range out {
		// the names are random
		if j := strings.IndexAny(out[i], "0123456789"); j >= 0 {
			out[i] = out[i][:j] + "*"
		}
	}
	return strings.Join(out, " ")
}

func main() {
	h := hz.New("C28")
	base := rz.Temp()
	defer rz.Clean(base)
	tmp := filepath.Join(base, "tmp")
	if err := os.Mkdir(tmp, 0o755); err != nil {
		panic(err)
	}
	if err := os.Setenv("TMPDIR", tmp); err != nil {
		panic(err)
	}
	for k, v := range map[string]string{"GIT_AUTHOR_NAME": "a", "GIT_AUTHOR_EMAIL": "a@b", "GIT_COMMITTER_NAME": "a", "GIT_COMMITTER_EMAIL": "a@b", "GIT_CONFIG_NOSYSTEM": "1", "HOME": base} {
		if err := os.Setenv(k, v); err != nil {
			panic(err)
		}
	}
	pt := filepath.Join(base, "protoc")
	if err := ioutil.WriteFile(pt, []byte(fake), 0o755); err != nil {
		panic(err)
	}
	ff := []string{"--protoc-bin-path", pt, "--protoc-wkt-path", "/usr/include"}
	rf := []string{"--protoc-bin-path", "/usr/bin/protoc", "--protoc-wkt-path", "/usr/include"}
	rng := rand.New(rand.NewSource(h.Seed))
	clean := func(rule, in string) {
		h.Check("nothing is left in the temporary directory", rule+" "+in, true, "", left(tmp))
		if err := os.RemoveAll(tmp); err != nil {
			panic(err)
		}
		if err := os.Mkdir(tmp, 0o755); err != nil {
			panic(err)
		}
	}

	// schedules
	n := h.N(6, 40)
	for i := 0; i < n; i++ {
		root := filepath.Join(base, fmt.Sprintf("s%d", i))
		files := map[string]string{"prototool.yaml": "lint: {}\ngenerate:\n  plugins:\n    - name: foo\n      path: /bin/true\n      output: ../gen\n"}
		dirs := 2 + rng.Intn(6)
		kind := rng.Intn(4) // 0 all good, 1 failures, 2 errors, 3 both
		desc := ""
		var wantErr []string
		for d := 0; d < dirs; d++ {
			name := fmt.Sprintf("d%d", d)
			files[name+"/a.proto"] = "syntax = \"proto3\";\npackage " + name + ";\n"
			run, code := "", "0"
			if kind != 0 && (rng.Intn(3) > 0 || d < 2) {
				switch {
				case kind == 1 || kind == 3 && d%2 == 0:
					var l []string
					for k := 0; k < 1+rng.Intn(3); k++ {
						l = append(l, fmt.Sprintf("%s/a.proto:%d:%d: message %d.", name, 1+rng.Intn(3), 1+rng.Intn(3), rng.Intn(3)))
					}
					run, code = strings.Join(l, "\n")+"\n", "1"
				default:
					code = fmt.Sprint(2 + d)
					wantErr = append(wantErr, "exit status "+code)
				}
			}
			desc += fmt.Sprintf(" %s: %q exit %s;", name, run, code)
			files[name+"/.run"], files[name+"/.code"], files[name+"/.delay"] = run, code+"\n", "0\n"
		}
		rz.Write(root, files)
		_ = os.MkdirAll(filepath.Join(base, "gen"), 0o755)
		for _, args := range [][]string{{"compile"}, {"compile", "--dry-run"}, {"generate"}, {"descriptor-set"}, {"lint"}} {
			if i >= n/2 && args[0] != "compile" {
				continue
			}
			var first string
			for r := 0; r < h.N(3, 6); r++ {
				for d := 0; d < dirs; d++ {
					rz.Write(root, map[string]string{fmt.Sprintf("d%d/.delay", d): fmt.Sprintf("0.%02d\n", []int{0, 3, 6, 9, 12}[rng.Intn(5)])})
				}
				a := append(append([]string{}, args...), ff...)
				res := rz.CLI(root, append(a, ".")...)
				got := fmt.Sprintf("%d\n%s%s%s", res.Code, res.Out, res.Err, res.Panic)
				// the temporary files have random names
				for _, w := range strings.Fields(got) {
					if strings.HasPrefix(w, tmp) {
						got = strings.ReplaceAll(got, w, "TMP")
					}
				}
				if r == 0 {
					first = got
					if args[0] == "compile" && len(args) == 1 {
						h.Check("a run that fails makes the command fail", desc, true, kind != 0, res.Code != 0)
						for _, w := range wantErr {
							h.Check("the error of each run is given", desc+" "+w, true, true, strings.Contains(got, w))
						}
					}
				} else {
					h.Check("the result does not depend on the order runs finish in", strings.Join(args, " ")+desc, kind != 0, first, got)
				}
				clean(strings.Join(args, " "), desc)
			}
		}
	}
	h.Bound("%d sets of directories with random results of protoc, each command run several times with random delays per run", n)

	// descriptor sets with generation: a failing plugin lookup leaves nothing
	root := filepath.Join(base, "p")
	rz.Write(root, map[string]string{"prototool.yaml": "generate:\n  plugins:\n    - name: foo\n      path: /bin/true\n      output: gen\n"})
	for d := 0; d < 3; d++ {
		n := fmt.Sprintf("d%d", d)
		rz.Write(root, map[string]string{n + "/a.proto": "syntax = \"proto3\";\npackage a;\n", n + "/.run": "", n + "/.code": "0", n + "/.delay": "0", n + "/.set": "\xff\xff broken"})
	}
	set, err := file.NewProtoSetProvider().GetForDir(root, root)
	if err != nil {
		panic(err)
	}
	bin := []protoc.CompilerOption{protoc.CompilerWithProtocBinPath(pt), protoc.CompilerWithProtocWKTPath("/usr/include"), protoc.CompilerWithGen(), protoc.CompilerWithFileDescriptorSet()}
	for _, after := range []int{0, 1, 2, 3, 9} {
		calls := 0
		set.Config.Gen.Plugins = []settings.GenPlugin{{Name: "foo", Type: settings.GenPluginTypeNone, OutputPath: settings.OutputPath{RelPath: "gen", AbsPath: filepath.Join(root, "gen")}, GetPath: func() (string, error) {
			calls++
			if calls > after {
				return "", errors.New("no such plugin")
			}
			return "/bin/true", nil
		}}}
		_, err := protoc.NewCompiler(bin...).Compile(set)
		clean("Compile", fmt.Sprintf("plugin lookup fails after %d: %v", after, err))
		calls = 0
		_, err = protoc.NewCompiler(bin...).ProtocCommands(set)
		clean("ProtocCommands", fmt.Sprintf("plugin lookup fails after %d: %v", after, err))
	}

	// an output that cannot be made leaves nothing
	rz.Write(root, map[string]string{"blocked": ""})
	for _, out := range []string{"blocked", "blocked/x", "blocked/x/y"} {
		set.Config.Gen.Plugins = []settings.GenPlugin{{Name: "foo", Type: settings.GenPluginTypeNone, OutputPath: settings.OutputPath{RelPath: out, AbsPath: filepath.Join(root, out)}, GetPath: func() (string, error) { return "", nil }}}
		_, err := protoc.NewCompiler(bin...).Compile(set)
		h.Check("an output that cannot be made is an error", out, true, true, err != nil)
		clean("Compile", fmt.Sprintf("output %s cannot be made: %v", out, err))
	}

	// formatting
	rz.Write(root, map[string]string{"f/prototool.yaml": "", "f/a.proto": "syntax = \"proto3\";\npackage   a;\n", "f/b.proto": "syntax = \"proto3\";\npackage a\n"})
	for _, a := range [][]string{{"format", "-d", "a.proto"}, {"format", "-l", "a.proto"}, {"format", "a.proto"}, {"format", "-d", "b.proto"}, {"format", "-w", "a.proto"}, {"descriptor-set", "."}, {"descriptor-set", "a.proto"}, {"inspect", "packages", "."}, {"all", "."}, {"grpc", "--method", "a.B/C", "--address", "127.0.0.1:1", "--data", "{}", "."}} {
		rz.CLI(filepath.Join(root, "f"), append(append([]string{}, a...), rf...)...)
		clean(strings.Join(a, " "), "")
	}

	// clones
	repo := filepath.Join(base, "repo")
	rz.Write(repo, map[string]string{"prototool.yaml": "", "a/a.proto": "syntax = \"proto3\";\npackage a;\nmessage A { int64 x = 1; }\n"})
	sh := func(args ...string) {
		c := exec.Command("git", args...)
		c.Dir = repo
		if out, err := c.CombinedOutput(); err != nil {
			panic(string(out))
		}
	}
	sh("init", "-q", "-b", "main")
	sh("add", "-A")
	sh("commit", "-qm", "one")
	for _, b := range []string{"", "main", "nowhere", "-x"} {
		dir, err := git.TemporaryClone(zap.NewNop(), repo, b)
		h.Check("a clone exists exactly when there is no error", b, true, err == nil, dir != "")
		if err == nil {
			_, serr := os.Stat(filepath.Join(dir, "a", "a.proto"))
			h.Check("the clone has the files", b, true, nil, serr)
			if !strings.HasPrefix(dir, tmp) {
				h.Fail("clone-place", "the clone is in the temporary directory", b, tmp, dir)
			} else if err := os.RemoveAll(dir); err != nil {
				panic(err)
			}
		}
		clean("TemporaryClone", b)
	}
	for _, t := range []struct{ name, content string }{
		{"unchanged", "syntax = \"proto3\";\npackage a;\nmessage A { int64 x = 1; }\n"},
		{"breaking", "syntax = \"proto3\";\npackage a;\nmessage A { string x = 1; }\n"},
		{"not compiling", "syntax = \"proto3\";\npackage a;\nmessage A { strin x = 1; }\n"},
	} {
		rz.Write(repo, map[string]string{"a/a.proto": t.content})
		for _, b := range [][]string{{}, {"--git-branch", "main"}, {"--git-branch", "nowhere"}} {
			res := rz.CLI(repo, append(append([]string{"break", "check"}, b...), append(rf, ".")...)...)
			ok := t.name == "unchanged" && (len(b) == 0 || b[1] == "main")
			h.Check("break check fails exactly for breaking changes and errors", t.name+" "+strings.Join(b, " "), true, ok, res.Code == 0)
			clean("break check "+t.name, strings.Join(b, " "))
		}
	}
	// what the branch holds does not compile
	sh("commit", "-qam", "bad")
	rz.Write(repo, map[string]string{"a/a.proto": "syntax = \"proto3\";\npackage a;\nmessage A { int64 x = 1; }\n"})
	res := rz.CLI(repo, append([]string{"break", "check"}, append(rf, ".")...)...)
	h.Check("break check fails exactly for breaking changes and errors", "the branch does not compile", true, false, res.Code == 0)
	clean("break check", "the branch does not compile")
	h.Bound("git branches given, missing and not compiling; plugin lookups failing for each directory; every command that uses temporary files, succeeding and failing")
	h.Done()
}
