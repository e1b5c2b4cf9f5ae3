// Bounded check of beta filtering: every combination of the options against
// an oracle that filters the serialised sets by a grammar of its own.
package main

import (
	"fmt"
	"regexp"

	"github.com/uber/prototool/internal/settings"
	"github.com/uber/prototool/internal/zverif/hz"
	"github.com/uber/prototool/internal/zverif/pz"
)

var beta = regexp.MustCompile(`\.v0*[1-9][0-9]*beta0*[1-9][0-9]*$`)

func without(s *pz.Set) *pz.Set {
	out := &pz.Set{}
	for _, p := range s.Packages {
		if !beta.MatchString(p.Name) {
			out.Packages = append(out.Packages, p)
		}
	}
	return out
}

func expected(cfg settings.BreakConfig, from, to *pz.Set) []pz.Breaking {
	if cfg.IncludeBeta {
		return pz.Expected(from, to)
	}
	from, to = without(from), without(to)
	out := pz.Expected(from, to)
	if !cfg.AllowBetaDeps {
		for _, p := range to.Packages {
			for _, d := range p.DependencyNames {
				if beta.MatchString(d) {
					out = append(out, pz.Breaking{ID: "PACKAGES_NO_BETA_DEPS", Mentions: []string{p.Name, d}})
				}
			}
		}
	}
	return out
}

func main() {
	h := hz.New("C03")
	n := h.N(6000, 100000)
	h.Bound("%d random pairs of package sets with beta packages and dependencies, each under all four break configurations", n)
	keys := map[string]int{}
	for i := 0; i < n && !h.Late(); i++ {
		g := &pz.G{R: h.Rand, Size: 1 + i%5, Beta: true}
		from := g.Set()
		to := pz.Clone(from)
		if i%2 == 0 {
			to = g.Set()
		}
		for e := h.Rand.Intn(4); e > 0; e-- {
			g.Edit(to)
		}
		for c := 0; c < 4; c++ {
			cfg := settings.BreakConfig{IncludeBeta: c&1 != 0, AllowBetaDeps: c&2 != 0}
			run := func(a, b *pz.Set) (string, string, []pz.Got) {
				got, err := pz.Run(cfg, a, b)
				if err != nil {
					return "error", "no error", []pz.Got{{ID: "error", Message: err.Error()}}
				}
				k, w := pz.Compare(expected(cfg, a, b), got)
				return k, w, got
			}
			key := fmt.Sprintf("%+v %s -> %s", cfg, pz.Text(from), pz.Text(to))
			h.Eval(fmt.Sprintf("%+v", cfg), key, len(expected(cfg, from, to)) > 0)
			h.Try("failures", key, func() {
				if k, _, _ := run(from, to); k != "" {
					k = fmt.Sprintf("%+v: %s", cfg, k)
					if keys[k]++; keys[k] > 1 {
						h.R.NumFailures++
						return
					}
					a, b := pz.Shrink(from, to, func(a, b *pz.Set) bool { k2, _, _ := run(a, b); return k2 != "" && k2 != "error" })
					_, w, got := run(a, b)
					h.Fail("failures: "+k, k, map[string]string{"config": fmt.Sprintf("%+v", cfg), "from": pz.Text(a), "to": pz.Text(b)}, w, fmt.Sprint(got))
				}
			})
		}
	}
	h.Done()
}
