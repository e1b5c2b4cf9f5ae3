// Package hz is the common part of the bounded checks that accompany the
// proofs: it counts evaluations, collects disagreements with an independent
// oracle and writes a report.
package hz

import (
	"encoding/json"
	"flag"
	"fmt"
	"math/rand"
	"os"
	"sort"
	"strings"
	"time"
)

// Failure is one concrete input on which the code and the property disagree.
type Failure struct {
	// Key identifies the failing input; known findings are listed by it.
	Key   string      `json:"key"`
	What  string      `json:"what"`
	Input interface{} `json:"input"`
	Want  interface{} `json:"want"`
	Got   interface{} `json:"got"`
}

// Report is what a harness writes.
type Report struct {
	Property    string         `json:"property"`
	Evaluations int            `json:"evaluations"`
	Distinct    int            `json:"distinct_nontrivial"`
	Rules       map[string]int `json:"rules"`
	Bounds      []string       `json:"bounds"`
	Samples     []interface{}  `json:"samples"`
	Failures    []Failure      `json:"failures"`
	NumFailures int            `json:"num_failures"`
	Complete    bool           `json:"complete"`
}

// H is a running harness.
type H struct {
	R        Report
	Rand     *rand.Rand
	Thorough bool
	Seed     int64
	out      string
	deadline time.Time
	seen     map[string]bool
	only     string
}

// New parses the flags.
func New(property string) *H {
	tier := flag.String("tier", "quick", "")
	seed := flag.Int64("seed", 1, "")
	out := flag.String("out", "", "")
	limit := flag.Int("limit", 240, "seconds")
	flag.Parse()
	h := &H{Rand: rand.New(rand.NewSource(*seed)), Thorough: *tier == "thorough", Seed: *seed, out: *out, deadline: time.Now().Add(time.Duration(*limit) * time.Second), seen: map[string]bool{}}
	h.R.Property = property
	h.R.Rules = map[string]int{}
	return h
}

// N picks a bound by tier.
func (h *H) N(quick, thorough int) int {
	if h.Thorough {
		return thorough
	}
	return quick
}

// Late says whether the time budget is used up.
func (h *H) Late() bool { return time.Now().After(h.deadline) }

// Bound records what was bounded.
func (h *H) Bound(format string, a ...interface{}) {
	h.R.Bounds = append(h.R.Bounds, fmt.Sprintf(format, a...))
}

// Eval counts one evaluation of a rule on an input identified by key;
// trivial inputs are not counted as distinct.
func (h *H) Eval(rule, key string, nontrivial bool) {
	h.R.Evaluations++
	h.R.Rules[rule]++
	if nontrivial {
		k := rule + "\x00" + key
		if len(h.seen) < 2000000 && !h.seen[k] {
			h.seen[k] = true
			h.R.Distinct++
			if n := h.R.Rules[rule]; len(h.R.Samples) < 16 && (n == 1 || n == 300 || n == 5000) {
				s := key
				if len(s) > 300 {
					s = s[:300] + "..."
				}
				h.R.Samples = append(h.R.Samples, map[string]string{"rule": rule, "input": s})
			}
		}
	}
}

// Fail records a disagreement.
func (h *H) Fail(key, what string, input, want, got interface{}) {
	h.R.NumFailures++
	if len(h.R.Failures) < 40 {
		h.R.Failures = append(h.R.Failures, Failure{key, what, input, want, got})
	}
}

// Check evaluates one comparison.
func (h *H) Check(rule, key string, nontrivial bool, want, got interface{}) bool {
	h.Eval(rule, key, nontrivial)
	if fmt.Sprintf("%#v", want) == fmt.Sprintf("%#v", got) {
		return true
	}
	h.Fail(rule+": "+key, rule, key, want, got)
	return false
}

// Try runs f and turns a panic into a failure.
func (h *H) Try(rule, key string, f func()) {
	defer func() {
		if r := recover(); r != nil {
			h.Fail(rule+": "+key, rule+" panics", key, "no panic", fmt.Sprint(r))
		}
	}()
	f()
}

// Done writes the report.
func (h *H) Done() {
	h.R.Complete = true
	sort.SliceStable(h.R.Failures, func(i, j int) bool { return len(h.R.Failures[i].Key) < len(h.R.Failures[j].Key) })
	b, err := json.MarshalIndent(h.R, "", " ")
	if err != nil {
		panic(err)
	}
	if h.out == "" {
		fmt.Println(string(b))
		return
	}
	if err := os.WriteFile(h.out, b, 0o644); err != nil {
		panic(err)
	}
}

// Words enumerates all words over the alphabet up to length n.
func Words(alphabet []string, n int, f func(string)) {
	var rec func(prefix string, left int)
	rec = func(prefix string, left int) {
		f(prefix)
		if left == 0 {
			return
		}
		for _, a := range alphabet {
			rec(prefix+a, left-1)
		}
	}
	rec("", n)
}

// Pick returns a random element.
func Pick(r *rand.Rand, ss []string) string { return ss[r.Intn(len(ss))] }

// Lines joins.
func Lines(ss []string) string { return strings.Join(ss, "\n") }
