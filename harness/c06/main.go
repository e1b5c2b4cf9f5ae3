// Bounded check of the version grammar against a regular expression.
package main

import (
	"fmt"
	"regexp"
	"strconv"

	"github.com/uber/prototool/internal/protostrs"
	"github.com/uber/prototool/internal/zverif/hz"
)

var re = regexp.MustCompile(`(?s)^(?:.*)\.v([0-9]+)(?:beta([0-9]+))?$`)

func want(s string) string {
	m := re.FindStringSubmatch(s)
	if m == nil {
		return "0 0 false"
	}
	a, e1 := strconv.ParseUint(m[1], 10, 64)
	b, e2 := uint64(0), error(nil)
	if m[2] != "" {
		b, e2 = strconv.ParseUint(m[2], 10, 64)
	}
	if e1 != nil || e2 != nil || a == 0 || m[2] != "" && b == 0 {
		return "0 0 false"
	}
	return fmt.Sprint(a, b, true)
}

func main() {
	h := hz.New("C06")
	al := []string{".", "v", "0", "1", "2", "beta", "b", "V", "-", "foo", "é"}
	n := h.N(5, 6)
	h.Bound("all concatenations of up to %d of %q, alone and after \"foo.bar.v\" and \"a.v1\"; versions up to 400; numbers around 2^63 and 2^64", n, al)
	check := func(s string) {
		h.Try("version", s, func() {
			a, b, ok := protostrs.MajorBetaVersion(s)
			h.Check("version", strconv.Quote(s), want(s) != "0 0 false", want(s), fmt.Sprint(a, b, ok))
		})
	}
	hz.Words(al, n, func(s string) {
		if h.Late() {
			return
		}
		check(s)
		check("foo.bar.v" + s)
		check("a.v1" + s)
	})
	for i := 0; i < 400; i++ {
		check(fmt.Sprintf("a.v%d", i))
		check(fmt.Sprintf("a.v%dbeta%d", i, (i*7)%53))
		check(fmt.Sprintf("a.v1beta%d", i))
	}
	for _, d := range []string{"9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616", "99999999999999999999999", "4294967296", "007", "00", "1_0", "+1", "0x1", "１"} {
		for _, f := range []string{"a.v%s", "a.v%sbeta1", "a.v1beta%s", "v%s", "a.b.v%s.c", "a.v%salpha1", "a.v%sbeta1beta2"} {
			check(fmt.Sprintf(f, d))
		}
	}
	h.Done()
}
