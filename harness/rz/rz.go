// Package rz runs prototool on scratch directories for the bounded checks.
package rz

import (
	"bytes"
	"fmt"
	"io/ioutil"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/uber/prototool/internal/cmd"
)

// Temp makes a scratch directory; its path has no symbolic links.
func Temp() string {
	d, err := ioutil.TempDir("", "z")
	if err != nil {
		panic(err)
	}
	d, err = filepath.EvalSymlinks(d)
	if err != nil {
		panic(err)
	}
	return d
}

// Clean removes a scratch directory made by Temp.
func Clean(d string) {
	if !strings.HasPrefix(filepath.Base(d), "z") {
		panic("not a scratch directory: " + d)
	}
	_ = os.Chdir(filepath.Dir(d))
	_ = os.RemoveAll(d)
}

// Write creates files under dir.
func Write(dir string, files map[string]string) {
	for p, c := range files {
		f := filepath.Join(dir, p)
		if err := os.MkdirAll(filepath.Dir(f), 0o755); err != nil {
			panic(err)
		}
		if err := ioutil.WriteFile(f, []byte(c), 0o644); err != nil {
			panic(err)
		}
	}
}

// Snapshot reads all files under dir.
func Snapshot(dir string) map[string]string {
	out := map[string]string{}
	_ = filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		rel, _ := filepath.Rel(dir, p)
		if fi.IsDir() {
			return nil
		}
		if fi.Mode()&os.ModeSymlink != 0 {
			t, _ := os.Readlink(p)
			out[rel] = "-> " + t
			return nil
		}
		b, _ := ioutil.ReadFile(p)
		out[rel] = string(b)
		return nil
	})
	return out
}

// Diff lists the paths whose content differs.
func Diff(a, b map[string]string) []string {
	m := map[string]bool{}
	for k, v := range a {
		if w, ok := b[k]; !ok || v != w {
			m[k] = true
		}
	}
	for k := range b {
		if _, ok := a[k]; !ok {
			m[k] = true
		}
	}
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// Result of a command.
type Result struct {
	Code     int
	Out, Err string
	Panic    string
}

// CLI runs the command line in-process with the working directory dir.
func CLI(dir string, args ...string) Result { return CLIIn(dir, "", args...) }

// CLIIn is CLI with standard input.
func CLIIn(dir, stdin string, args ...string) (r Result) {
	if err := os.Chdir(dir); err != nil {
		panic(err)
	}
	var o, e bytes.Buffer
	defer func() {
		if p := recover(); p != nil {
			r = Result{-1, o.String(), e.String(), fmt.Sprint(p)}
		}
	}()
	// the command line leaves usage errors to os.Stderr
	code := cmd.Do(args, strings.NewReader(stdin), &o, &e)
	return Result{code, o.String(), e.String(), ""}
}

// Lines splits output into its non-empty lines.
func Lines(s string) []string {
	var out []string
	for _, l := range strings.Split(s, "\n") {
		if strings.TrimSpace(l) != "" {
			out = append(out, l)
		}
	}
	return out
}

// SortedKeys of a set.
func SortedKeys(m map[string]bool) []string {
	out := []string{}
	for k, v := range m {
		if v {
			out = append(out, k)
		}
	}
	sort.Strings(out)
	return out
}

// Under says whether path is dir or lies below it (both clean and absolute).
func Under(path, dir string) bool {
	return path == dir || dir == "/" || strings.HasPrefix(path, dir+"/")
}
