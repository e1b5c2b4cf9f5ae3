// Bounded check of failure printing and field parsing.
package main

import (
	"bytes"
	"errors"
	"fmt"
	"strconv"
	"strings"
	"text/scanner"

	"github.com/uber/prototool/internal/text"
	"github.com/uber/prototool/internal/zverif/hz"
)

var fields = []text.FailureField{text.FailureFieldFilename, text.FailureFieldLine, text.FailureFieldColumn, text.FailureFieldID, text.FailureFieldMessage}
var names = []string{"filename", "line", "column", "id", "message"}

type badWriter struct{}

func (badWriter) WriteString(string) (int, error) { return 0, errors.New("no") }
func (badWriter) WriteRune(rune) (int, error)     { return 0, errors.New("no") }

func want(f *text.Failure, fs []text.FailureField) string {
	if len(fs) == 0 {
		fs = []text.FailureField{text.FailureFieldFilename, text.FailureFieldLine, text.FailureFieldColumn, text.FailureFieldMessage}
	}
	o := ""
	any := false
	for i, k := range fs {
		p := ""
		switch k {
		case text.FailureFieldFilename:
			p = f.Filename
			if p == "" {
				p = "<input>"
			}
		case text.FailureFieldLine:
			p = strconv.Itoa(f.Line)
			if f.Line == 0 {
				p = "1"
			}
		case text.FailureFieldColumn:
			p = strconv.Itoa(f.Column)
			if f.Column == 0 {
				p = "1"
			}
		case text.FailureFieldID:
			p = f.LintID
		case text.FailureFieldMessage:
			p = f.Message
		}
		if p == "" {
			continue
		}
		any = true
		o += p
		if i != len(fs)-1 {
			o += ":"
		}
	}
	if any {
		o += "\n"
	}
	return o
}

func main() {
	h := hz.New("C11")
	var fieldLists [][]text.FailureField
	var rec func(cur []text.FailureField, left int)
	rec = func(cur []text.FailureField, left int) {
		fieldLists = append(fieldLists, append([]text.FailureField(nil), cur...))
		if left > 0 {
			for _, f := range fields {
				rec(append(append([]text.FailureField(nil), cur...), f), left-1)
			}
		}
	}
	rec(nil, h.N(4, 5))
	h.Bound("all field lists of length <= %d over the 5 fields, 60 failures; all specifications of <= 3 words", h.N(4, 5))
	for _, fn := range []string{"", "a.proto", "x:y"} {
		for _, lc := range [][2]int{{0, 0}, {1, 2}, {33, 66}, {7, 0}, {0, 9}} {
			l := lc[0]
			for _, id := range []string{"", "ID"} {
				for _, m := range []string{"", "a: message."} {
					f := &text.Failure{Filename: fn, Line: l, Column: lc[1], LintID: id, Message: m}
					for _, fl := range fieldLists {
						k := fmt.Sprintf("%q %d:%d %q %q %v", fn, l, lc[1], id, m, fl)
						h.Try("print", k, func() {
							b := &bytes.Buffer{}
							err := f.Fprintln(b, fl...)
							h.Check("print", k, true, want(f, fl), b.String())
							h.Check("print error", k, true, true, err == nil)
						})
					}
					if f.Fprintln(badWriter{}) == nil {
						h.Fail("write error lost", "a write error is returned", nil, "error", "nil")
					}
				}
			}
		}
	}
	words := []string{"", "filename", "Line", "COLUMN", "id", "messagE", "msg", " id", "Filename "}
	known := map[string]text.FailureField{}
	for i, n := range names {
		known[n] = fields[i]
	}
	var specs [][]string
	for _, a := range words {
		specs = append(specs, []string{a})
		for _, b := range words {
			specs = append(specs, []string{a, b})
			for _, c := range words {
				specs = append(specs, []string{a, b, c})
			}
		}
	}
	for _, ws := range specs {
		s := strings.Join(ws, ":")
		ok := true
		var w []text.FailureField
		for _, x := range ws {
			f, in := known[strings.ToLower(x)]
			if !in {
				ok = false
			}
			w = append(w, f)
		}
		if s == "" {
			ok, w = true, []text.FailureField{fields[0], fields[1], fields[2], fields[4]}
		}
		got, err := text.ParseColonSeparatedFailureFields(s)
		h.Check("specification accepted", fmt.Sprintf("%q", s), true, ok, err == nil)
		if ok && err == nil {
			h.Check("specification", fmt.Sprintf("%q", s), true, fmt.Sprint(w), fmt.Sprint(got))
		}
	}
	for _, id := range []string{"", "X"} {
		for _, m := range []string{"", "a", "100%d"} {
			f := text.NewFailuref(scanner.Position{Filename: "f", Line: 3, Column: 7}, id, "%s!", m)
			h.Check("NewFailuref", id+m, true, fmt.Sprintf("f 3 7 %s %s!", id, m), fmt.Sprintf("%s %d %d %s %s", f.Filename, f.Line, f.Column, f.LintID, f.Message))
		}
	}
	h.Done()
}
