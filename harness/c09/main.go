// Bounded check of the sorted-unique helpers against set semantics.
package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/uber/prototool/internal/strs"
	"github.com/uber/prototool/internal/zverif/hz"
)

func norm(m map[string]bool) string {
	var ks []string
	for k := range m {
		if k != "" {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	return fmt.Sprintf("%q", ks)
}

func got(s []string) string {
	if len(s) == 0 {
		s = nil
	}
	return fmt.Sprintf("%q", s)
}

func main() {
	h := hz.New("C09")
	al := []string{"", "a", "b", "B", "ab", "é"}
	var lists [][]string
	n := h.N(4, 5)
	var rec func(cur []string, left int)
	rec = func(cur []string, left int) {
		lists = append(lists, append([]string(nil), cur...))
		if left == 0 {
			return
		}
		for _, a := range al {
			rec(append(append([]string(nil), cur...), a), left-1)
		}
	}
	rec(nil, n)
	h.Bound("all lists of length <= %d over %q; all pairs of lists of length <= 3 for intersections", n, al)
	mods := map[string]func(string) string{
		"upper": strings.ToUpper,
		"drop":  func(s string) string { return strings.TrimPrefix(s, "a") },
		"const": func(string) string { return "x" },
		"empty": func(string) string { return "" },
	}
	var names []string
	for k := range mods {
		names = append(names, k)
	}
	sort.Strings(names)
	for _, l := range lists {
		l := l
		key := fmt.Sprintf("%q", l)
		h.Try("SortUniq", key, func() {
			in := append([]string(nil), l...)
			set := map[string]bool{}
			for _, e := range l {
				set[e] = true
			}
			h.Check("SortUniq", key, len(l) > 0, norm(set), got(strs.SortUniq(in)))
			h.Check("SortUniq keeps its input", key, len(l) > 0, key, fmt.Sprintf("%q", in))
			m := map[string]struct{}{}
			for _, e := range l {
				m[e] = struct{}{}
			}
			ms := strs.MapToSortedSlice(m)
			h.Check("MapToSortedSlice", key, len(l) > 0, fmt.Sprint(len(m), true), fmt.Sprint(len(ms), sort.SliceIsSorted(ms, func(i, j int) bool { return ms[i] < ms[j] })))
			for _, e := range ms {
				_, ok := m[e]
				h.Check("MapToSortedSlice member", key+" "+e, true, true, ok)
			}
			for _, name := range names {
				f := mods[name]
				set := map[string]bool{}
				for _, e := range l {
					set[f(e)] = true
				}
				h.Check("SortUniqModify "+name, key, len(l) > 0, norm(set), got(strs.SortUniqModify(l, f)))
			}
		})
	}
	for _, a := range lists {
		if len(a) > 3 {
			continue
		}
		for _, b := range lists {
			if len(b) > 3 {
				continue
			}
			set := map[string]bool{}
			for _, x := range a {
				for _, y := range b {
					if x == y {
						set[x] = true
					}
				}
			}
			key := fmt.Sprintf("%q %q", a, b)
			h.Check("Intersection", key, len(a) > 0 && len(b) > 0, norm(set), got(strs.Intersection(a, b)))
		}
	}
	h.Done()
}
