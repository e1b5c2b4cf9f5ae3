// Bounded check that self-comparison and additive changes are not breaking.
package main

import (
	"fmt"

	"github.com/uber/prototool/internal/settings"
	"github.com/uber/prototool/internal/zverif/hz"
	"github.com/uber/prototool/internal/zverif/pz"
)

func main() {
	h := hz.New("C02")
	n := h.N(6000, 120000)
	h.Bound("%d random package sets (up to 4 packages, 5 children per element, 3 levels of messages) against themselves and against a set with 1 to 6 additions, all four break configurations", n)
	keys := map[string]int{}
	for i := 0; i < n && !h.Late(); i++ {
		cfg := settings.BreakConfig{IncludeBeta: i&1 != 0, AllowBetaDeps: i&2 != 0}
		g := &pz.G{R: h.Rand, Size: 1 + i%5, Beta: cfg.IncludeBeta || cfg.AllowBetaDeps}
		from := g.Set()
		to := pz.Clone(from)
		rule := "self"
		if i%3 > 0 {
			rule = "additive"
			for e := 1 + h.Rand.Intn(6); e > 0; e-- {
				g.Add(to)
			}
		}
		run := func(a, b *pz.Set) string {
			got, err := pz.Run(cfg, a, b)
			if err != nil {
				return "error: " + err.Error()
			}
			if len(got) > 0 {
				return fmt.Sprintf("%s: %s", got[0].ID, got[0].Message)
			}
			return ""
		}
		key := fmt.Sprintf("%+v %s -> %s", cfg, pz.Text(from), pz.Text(to))
		h.Eval(rule, key, true)
		h.Try(rule, key, func() {
			if r := run(from, to); r != "" {
				if keys[rule]++; keys[rule] > 3 {
					h.R.NumFailures++
					return
				}
				a, b := from, to
				if rule == "self" {
					a, _ = pz.Shrink(from, pz.Clone(from), func(x, y *pz.Set) bool { return run(x, x) != "" })
					b = a
				}
				h.Fail(rule+": "+key, rule+" comparison is breaking", map[string]string{"config": fmt.Sprintf("%+v", cfg), "from": pz.Text(a), "to": pz.Text(b)}, "no failure", run(a, b))
			}
		})
	}
	h.Done()
}
