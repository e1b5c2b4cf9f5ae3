package strs
props C08

def upper(r rune) bool = 'A' <= r && r <= 'Z'
def lower(r rune) bool = 'a' <= r && r <= 'z'
def digit(r rune) bool = '0' <= r && r <= '9'

func strs.IsCapitalized
  nopanic
  ensures iff(result, s != "" && upper(rune(s, 0)))

func strs.IsCamelCase
  nopanic
  ensures iff(result, s != "" && forall(i, int, implies(0 <= i && i < runes(s), upper(rune(s, i)) || lower(rune(s, i)) || digit(rune(s, i)))))

func strs.IsLowerSnakeCase
  nopanic
  ensures iff(result, s != "" && s[0] != '_' && s[len(s)-1] != '_' &&
          forall(i, int, implies(0 <= i && i < runes(s), lower(rune(s, i)) || digit(rune(s, i)) || rune(s, i) == '_')))

func strs.IsUpperSnakeCase
  nopanic
  ensures iff(result, s != "" && s[0] != '_' && s[len(s)-1] != '_' &&
          forall(i, int, implies(0 <= i && i < runes(s), upper(rune(s, i)) || digit(rune(s, i)) || rune(s, i) == '_')))

func strs.isSnake
  nopanic
  ensures iff(result, s != "" && s[0] != '_' && s[len(s)-1] != '_' &&
          forall(i, int, implies(0 <= i && i < runes(s), upper(rune(s, i)) || lower(rune(s, i)) || digit(rune(s, i)) || rune(s, i) == '_')))

func strs.IsLowercase
  nopanic
  ensures iff(result, s != "" && strings.ToLower(s) == s)

func strs.IsUppercase
  nopanic
  ensures iff(result, s != "" && strings.ToUpper(s) == s)

props C09

func strs.MapToSortedSlice
  nopanic
  ensures off(result) == 0
  ensures forall(i, int, j, int, implies(0 <= i && i < j && j < len(result), result[i] < result[j]))
  ensures forall(e, string, iff(contains(result, e), has(m, e)))

func strs.SortUniqModify
  nopanic
  ensures off(result) == 0
  ensures forall(i, int, j, int, implies(0 <= i && i < j && j < len(result), result[i] < result[j]))
  ensures implies(modifier == nil, forall(e, string, iff(contains(result, e), e != "" && contains(s, e))))
  ensures implies(modifier != nil, forall(e, string, iff(contains(result, e), e != "" && exists(i, int, 0 <= i && i < len(s) && ret(modifier, s[i]) == e))))

func strs.SortUniq
  nopanic
  ensures off(result) == 0
  ensures forall(i, int, j, int, implies(0 <= i && i < j && j < len(result), result[i] < result[j]))
  ensures forall(e, string, iff(contains(result, e), e != "" && contains(s, e)))

func strs.Intersection
  nopanic
  ensures off(result) == 0
  ensures forall(i, int, j, int, implies(0 <= i && i < j && j < len(result), result[i] < result[j]))
  ensures forall(e, string, iff(contains(result, e), e != "" && contains(one, e) && contains(two, e)))

func strs.toSnake
  props C08
  opaque
  nopanic
  loop 0 invariant implies(pos() > 0, output != "")
func strs.ToUpperSnakeCase
  props C08
  pure
  nopanic
  ensures result == strings.ToUpper(toSnake(s))
func strs.ToLowerSnakeCase
  props C08
  pure
  nopanic
  ensures result == strings.ToLower(toSnake(s))
