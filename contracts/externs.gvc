extern strings.ToLower pure
extern strings.ToUpper pure
extern strings.TrimSpace pure
extern utf8.DecodeRuneInString pure
extern sort.Strings builtin
extern sort.Slice builtin
extern sort.SliceStable builtin
extern sort.Sort builtin
extern sort.Stable builtin
axiom decode-rune-is-first-rune: forall(s, string, implies(s != "", tup(utf8.DecodeRuneInString(s), 0) == rune(s, 0)))
extern strings.Split pure
extern fmt.Errorf error
extern fmt.Sprintf pure
extern strconv.Itoa pure
extern strconv.FormatUint pure
axiom decimal-is-decimal: forall(n, uint64, implies(n < 9223372036854775808, strconv.FormatUint(n, 10) == strconv.Itoa(n)))
extern (text.FailureWriter).WriteString output
extern (text.FailureWriter).WriteRune output
extern strconv.ParseUint pure
extern strings.Title pure
extern strings.Join pureevent
extern strings.Replace pure
extern strings.TrimSuffix pure
extern filepath.Base pure
extern filepath.Ext pure
axiom split-not-empty: forall(s, string, sep, string, implies(sep != "", len(strings.Split(s, sep)) >= 1))
extern (*bytes.Buffer).String pureevent
