// Bounded check of failure ordering against a reference order.
package main

import (
	"fmt"
	"sort"

	"github.com/uber/prototool/internal/text"
	"github.com/uber/prototool/internal/zverif/hz"
)

func key(f *text.Failure) string {
	if f == nil {
		return "nil"
	}
	return fmt.Sprintf("%s:%d:%d:%s:%s", f.Filename, f.Line, f.Column, f.LintID, f.Message)
}

func cmps(a, b string) int {
	if a < b {
		return -1
	}
	if a > b {
		return 1
	}
	return 0
}

func cmp(a, b *text.Failure) int {
	for _, c := range []int{cmps(a.Filename, b.Filename), a.Line - b.Line, a.Column - b.Column, cmps(a.LintID, b.LintID), cmps(a.Message, b.Message)} {
		if c != 0 {
			return c
		}
	}
	return 0
}

func show(fs []*text.Failure) string {
	var o []string
	for _, f := range fs {
		o = append(o, key(f))
	}
	return fmt.Sprintf("%q", o)
}

func main() {
	h := hz.New("C10")
	var pool []*text.Failure
	for _, fn := range []string{"", "a", "b"} {
		for _, l := range []int{0, 1, 10} {
			for _, c := range []int{0, 2} {
				for _, id := range []string{"", "A", "B"} {
					for _, m := range []string{"", "x", "y"} {
						pool = append(pool, &text.Failure{Filename: fn, Line: l, Column: c, LintID: id, Message: m})
					}
				}
			}
		}
	}
	h.Bound("all pairs of %d failures; %d random lists of up to 40", len(pool), h.N(3000, 60000))
	for _, a := range pool {
		for _, b := range pool {
			in := []*text.Failure{b, a}
			text.SortFailures(in)
			w := []*text.Failure{b, a}
			if cmp(a, b) < 0 {
				w = []*text.Failure{a, b}
			}
			h.Check("pair", key(a)+" | "+key(b), a != b, show(w), show(in))
		}
	}
	for i := 0; i < h.N(3000, 60000); i++ {
		n := h.Rand.Intn(41)
		var in []*text.Failure
		for j := 0; j < n; j++ {
			in = append(in, pool[h.Rand.Intn(len(pool))])
		}
		w := append([]*text.Failure(nil), in...)
		sort.SliceStable(w, func(i, j int) bool { return cmp(w[i], w[j]) < 0 })
		k := show(in)
		h.Try("list", k, func() {
			text.SortFailures(in)
			h.Check("list", k, n > 1, show(w), show(in))
		})
	}
	h.Done()
}
