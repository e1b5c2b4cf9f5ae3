// Bounded check of the naming predicates and case conversions against
// regular-expression and word-based definitions.
package main

import (
	"regexp"
	"strings"
	"unicode"

	"github.com/uber/prototool/internal/strs"
	"github.com/uber/prototool/internal/zverif/hz"
)

var (
	camel      = regexp.MustCompile(`^[A-Za-z0-9]+$`)
	lowerSnake = regexp.MustCompile(`^([a-z0-9]|[a-z0-9][a-z0-9_]*[a-z0-9])$`)
	upperSnake = regexp.MustCompile(`^([A-Z0-9]|[A-Z0-9][A-Z0-9_]*[A-Z0-9])$`)
	snake      = regexp.MustCompile(`^([A-Za-z0-9]|[A-Za-z0-9][A-Za-z0-9_]*[A-Za-z0-9])$`)
	capital    = regexp.MustCompile(`^[A-Z]`)
)

func snakeRef(s string) string {
	// a new word starts at an upper-case letter that ends a run of lower-case
	// letters or that begins a capitalised word
	s = strings.TrimSpace(s)
	var out []byte
	up := func(b byte) bool { return b >= 'A' && b <= 'Z' }
	lo := func(b byte) bool { return b >= 'a' && b <= 'z' }
	for i := 0; i < len(s); i++ {
		if i > 0 && up(s[i]) && s[i-1] != '_' && (lo(s[i-1]) || i+1 < len(s) && !up(s[i+1])) {
			out = append(out, '_')
		}
		out = append(out, s[i])
	}
	return string(out)
}

func alnum(s string) string {
	return strings.Map(func(r rune) rune {
		if unicode.IsLetter(r) || unicode.IsDigit(r) {
			return unicode.ToLower(r)
		}
		return -1
	}, s)
}

func upperCamelRef(s string) string {
	s = strings.TrimSpace(s)
	out := ""
	start := true
	for _, r := range s {
		if strings.ContainsRune("-_ \t\n\r", r) {
			start = true
			continue
		}
		if start || r >= 'A' && r <= 'Z' {
			out += string(unicode.ToUpper(r))
		} else {
			out += string(unicode.ToLower(r))
		}
		start = false
	}
	return out
}

func main() {
	h := hz.New("C08")
	check := func(s string) {
		ascii := true
		for i := 0; i < len(s); i++ {
			if s[i] >= 0x80 {
				ascii = false
			}
		}
		nt := s != ""
		h.Try("naming", s, func() {
			h.Check("IsCamelCase", s, nt, camel.MatchString(s), strs.IsCamelCase(s))
			h.Check("IsLowerSnakeCase", s, nt, lowerSnake.MatchString(s), strs.IsLowerSnakeCase(s))
			h.Check("IsUpperSnakeCase", s, nt, upperSnake.MatchString(s), strs.IsUpperSnakeCase(s))
			h.Check("IsCapitalized", s, nt, capital.MatchString(s), strs.IsCapitalized(s))
			h.Check("IsLowercase", s, nt, s != "" && strings.ToLower(s) == s, strs.IsLowercase(s))
			h.Check("IsUppercase", s, nt, s != "" && strings.ToUpper(s) == s, strs.IsUppercase(s))
			if !ascii {
				return
			}
			h.Check("ToUpperCamelCase", s, nt, upperCamelRef(s), strs.ToUpperCamelCase(s))
			if strings.IndexFunc(s, unicode.IsSpace) < 0 {
				l, u := strs.ToLowerSnakeCase(s), strs.ToUpperSnakeCase(s)
				h.Check("ToLowerSnakeCase", s, nt, strings.ToLower(snakeRef(s)), l)
				h.Check("ToUpperSnakeCase", s, nt, strings.ToUpper(snakeRef(s)), u)
				h.Check("conversion keeps letters and digits", s, nt, alnum(s), alnum(l))
				if snake.MatchString(s) {
					h.Check("converted to lower snake", s, nt, true, strs.IsLowerSnakeCase(l))
					h.Check("converted to upper snake", s, nt, true, strs.IsUpperSnakeCase(u))
					h.Check("converted to camel", s, nt, true, strs.IsCamelCase(strs.ToUpperCamelCase(s)))
					var want []string
					for _, w := range strings.Split(s, "_") {
						if w != "" {
							want = append(want, w)
						}
					}
					h.Check("SplitSnakeCaseWord", s, nt, strings.Join(want, "|"), strings.Join(strs.SplitSnakeCaseWord(s), "|"))
				} else if s == strings.TrimSpace(s) {
					h.Check("SplitSnakeCaseWord rejects", s, nt, 0, len(strs.SplitSnakeCaseWord(s)))
				}
				if camel.MatchString(s) {
					h.Check("SplitCamelCaseWord", s, nt, strings.ReplaceAll(snakeRef(s), "_", "|"), strings.Join(strs.SplitCamelCaseWord(s), "|"))
				} else {
					h.Check("SplitCamelCaseWord rejects", s, nt, 0, len(strs.SplitCamelCaseWord(s)))
				}
			}
		})
	}
	n := h.N(5, 7)
	h.Bound("all words of length <= %d over a B 1 _ é - space", n)
	hz.Words([]string{"a", "B", "1", "_", "é", "-", " "}, n, check)
	m := h.N(7, 9)
	h.Bound("all words of length <= %d over a B 1 _", m)
	hz.Words([]string{"a", "B", "1", "_"}, m, check)
	h.Bound("every byte and every rune below 0x3000 alone and between letters")
	for r := rune(0); r < 0x3000; r++ {
		check(string(r))
		check("a" + string(r))
		check("a" + string(r) + "Z")
		check("A" + string(r) + "9")
		check(string(r) + "z")
	}
	for b := 0; b < 256; b++ {
		check(string([]byte{byte(b)}))
		check("z" + string([]byte{byte(b)}) + "Q")
	}
	h.Bound("%d random identifiers", h.N(20000, 200000))
	al := "abzABZ019__"
	for i := 0; i < h.N(20000, 200000); i++ {
		b := make([]byte, h.Rand.Intn(24))
		for j := range b {
			b[j] = al[h.Rand.Intn(len(al))]
		}
		check(string(b))
	}
	h.Done()
}
