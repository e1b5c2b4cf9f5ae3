// Bounded check of the break checker against an oracle that compares the
// serialised package sets element by element.
package main

import (
	"fmt"

	"github.com/uber/prototool/internal/settings"
	"github.com/uber/prototool/internal/zverif/hz"
	"github.com/uber/prototool/internal/zverif/pz"
)

func main() {
	h := hz.New("C01")
	n := h.N(6000, 120000)
	h.Bound("%d random pairs of package sets of up to 4 packages, 5 children per element, 3 levels of messages, 0 to 6 edits", n)
	cfg := settings.BreakConfig{IncludeBeta: true}
	run := func(a, b *pz.Set) (string, string, []pz.Got) {
		got, err := pz.Run(cfg, a, b)
		if err != nil {
			return "error", "no error", []pz.Got{{ID: "error", Message: err.Error()}}
		}
		k, w := pz.Compare(pz.Expected(a, b), got)
		return k, w, got
	}
	keys := map[string]int{}
	for i := 0; i < n && !h.Late(); i++ {
		g := &pz.G{R: h.Rand, Size: 1 + i%4}
		from := g.Set()
		to := pz.Clone(from)
		if i%5 == 4 {
			to = g.Set()
		}
		for e := h.Rand.Intn(7); e > 0; e-- {
			g.Edit(to)
		}
		if h.Rand.Intn(2) == 0 {
			from, to = to, from
		}
		want := pz.Expected(from, to)
		h.Eval("failures", pz.Text(from)+" -> "+pz.Text(to), len(want) > 0)
		h.Try("failures", pz.Text(from)+" -> "+pz.Text(to), func() {
			if k, _, _ := run(from, to); k != "" {
				if keys[k]++; keys[k] > 2 {
					h.R.NumFailures++
					return
				}
				a, b := pz.Shrink(from, to, func(a, b *pz.Set) bool { k2, _, _ := run(a, b); return k2 == k })
				_, w, got := run(a, b)
				h.Fail("failures: "+k, k, map[string]string{"from": pz.Text(a), "to": pz.Text(b)}, w, fmt.Sprint(got))
			}
		})
	}
	h.Done()
}
