package text
props C10

def fless(a *text.Failure, b *text.Failure) bool = b != nil && (a == nil ||
      a.Filename < b.Filename || a.Filename == b.Filename && (
      a.Line < b.Line || a.Line == b.Line && (
      a.Column < b.Column || a.Column == b.Column && (
      a.LintID < b.LintID || a.LintID == b.LintID && a.Message < b.Message))))

func (text.sortFailures).Less
  requires 0 <= i && i < len(f) && 0 <= j && j < len(f)
  nopanic
  ensures iff(result, fless(f[i], f[j]))

func (text.sortFailures).Len
  nopanic
  ensures result == len(f)

func (text.sortFailures).Swap
  requires 0 <= i && i < len(f) && 0 <= j && j < len(f)
  nopanic
  modifies elems(f)
  ensures f[i] == old(f[j]) && f[j] == old(f[i])
  ensures forall(k, int, implies(0 <= k && k < len(f) && k != i && k != j, f[k] == old(f[k])))

func text.SortFailures
  nopanic
  modifies elems(failures)
  ensures forall(i, int, j, int, implies(0 <= i && i < j && j < len(failures), !fless(failures[j], failures[i])))
  ensures forall(i, int, implies(0 <= i && i < len(failures), exists(j, int, 0 <= j && j < len(failures) && failures[i] == old(failures[j]))))
  ensures forall(i, int, implies(0 <= i && i < len(failures), exists(j, int, 0 <= j && j < len(failures) && failures[j] == old(failures[i]))))

lemma order-irreflexive(a *text.Failure)
  ensures !fless(a, a)
lemma order-asymmetric(a *text.Failure, b *text.Failure)
  ensures implies(fless(a, b), !fless(b, a))
lemma order-transitive(a *text.Failure, b *text.Failure, c *text.Failure)
  ensures implies(fless(a, b) && fless(b, c), fless(a, c))
lemma order-total(a *text.Failure, b *text.Failure)
  ensures implies(a != nil && b != nil && !fless(a, b) && !fless(b, a), a.Filename == b.Filename && a.Line == b.Line && a.Column == b.Column && a.LintID == b.LintID && a.Message == b.Message)

props C11

func text.ParseFailureField
  pure
  inits text
  nopanic
  ensures implies(strings.ToLower(s) == "filename", result1 == nil && result0 == text.FailureFieldFilename)
  ensures implies(strings.ToLower(s) == "line", result1 == nil && result0 == text.FailureFieldLine)
  ensures implies(strings.ToLower(s) == "column", result1 == nil && result0 == text.FailureFieldColumn)
  ensures implies(strings.ToLower(s) == "id", result1 == nil && result0 == text.FailureFieldID)
  ensures implies(strings.ToLower(s) == "message", result1 == nil && result0 == text.FailureFieldMessage)
  ensures implies(result1 == nil, strings.ToLower(s) == "filename" || strings.ToLower(s) == "line" || strings.ToLower(s) == "column" || strings.ToLower(s) == "id" || strings.ToLower(s) == "message")

def fieldof(s string, f text.FailureField) bool = strings.ToLower(s) == "filename" && f == text.FailureFieldFilename ||
      strings.ToLower(s) == "line" && f == text.FailureFieldLine || strings.ToLower(s) == "column" && f == text.FailureFieldColumn ||
      strings.ToLower(s) == "id" && f == text.FailureFieldID || strings.ToLower(s) == "message" && f == text.FailureFieldMessage
def isfield(s string) bool = strings.ToLower(s) == "filename" || strings.ToLower(s) == "line" || strings.ToLower(s) == "column" || strings.ToLower(s) == "id" || strings.ToLower(s) == "message"

func text.ParseColonSeparatedFailureFields
  inits text
  nopanic
  ensures implies(s == "", result1 == nil && len(result0) == 4 && result0[0] == text.FailureFieldFilename && result0[1] == text.FailureFieldLine && result0[2] == text.FailureFieldColumn && result0[3] == text.FailureFieldMessage)
  ensures implies(s != "", iff(result1 == nil, forall(i, int, implies(0 <= i && i < len(strings.Split(s, ":")), isfield(strings.Split(s, ":")[i])))))
  ensures implies(s != "" && result1 == nil, len(result0) == len(strings.Split(s, ":")) && forall(i, int, implies(0 <= i && i < len(result0), fieldof(strings.Split(s, ":")[i], result0[i]))))

func text.NewFailuref variant checked
  nopanic
  ensures result != nil && result.Filename == position.Filename && result.Line == position.Line && result.Column == position.Column && result.LintID == lintID

// the text of one field; blank fields print nothing, not even a colon
def piece(f *text.Failure, k text.FailureField) string = ite(k == text.FailureFieldFilename, ite(f.Filename == "", "<input>", f.Filename),
      ite(k == text.FailureFieldLine, ite(strconv.Itoa(f.Line) == "0", "1", strconv.Itoa(f.Line)),
      ite(k == text.FailureFieldColumn, ite(strconv.Itoa(f.Column) == "0", "1", strconv.Itoa(f.Column)),
      ite(k == text.FailureFieldID, f.LintID, f.Message))))
def blank(f *text.Failure, k text.FailureField) bool = k == text.FailureFieldID && f.LintID == "" || k == text.FailureFieldMessage && f.Message == ""
def step(o string, f *text.Failure, k text.FailureField, last bool) string = ite(blank(f, k), o, ite(last, o + piece(f, k), o + piece(f, k) + ":"))
uf printed(o string, f *text.Failure, fields []text.FailureField, n int) string
axiom printed-none: forall(o, string, f, *text.Failure, fields, []text.FailureField, printed(o, f, fields, 0) == o)
axiom printed-one-more: forall(o, string, f, *text.Failure, fields, []text.FailureField, n, int, implies(0 <= n && n < len(fields),
      printed(o, f, fields, n+1) == step(printed(o, f, fields, n), f, fields[n], n == len(fields)-1)))

func (*text.Failure).Fprintln variant given
  requires f != nil && writer != nil && len(fields) > 0
  nopanic
  loop 0 invariant out(writer) == printed(old(out(writer)), f, fields, rangeindex+1)
  loop 0 invariant iff(written, exists(k, int, 0 <= k && k < rangeindex+1 && !blank(f, fields[k])))
  ensures implies(result == nil, out(writer) == ite(exists(k, int, 0 <= k && k < len(fields) && !blank(f, fields[k])), printed(old(out(writer)), f, fields, len(fields)) + "\n", printed(old(out(writer)), f, fields, len(fields))))

def dfield(i int) text.FailureField = ite(i == 0, text.FailureFieldFilename, ite(i == 1, text.FailureFieldLine, ite(i == 2, text.FailureFieldColumn, text.FailureFieldMessage)))
uf dprinted(o string, f *text.Failure, n int) string
axiom dprinted-none: forall(o, string, f, *text.Failure, dprinted(o, f, 0) == o)
axiom dprinted-one-more: forall(o, string, f, *text.Failure, n, int, implies(0 <= n && n < 4,
      dprinted(o, f, n+1) == step(dprinted(o, f, n), f, dfield(n), n == 3)))

func (*text.Failure).Fprintln variant default
  inits text
  requires f != nil && writer != nil && len(fields) == 0
  nopanic
  loop 0 invariant out(writer) == dprinted(old(out(writer)), f, rangeindex+1)
  loop 0 invariant iff(written, rangeindex >= 0)
  ensures implies(result == nil, out(writer) == dprinted(old(out(writer)), f, 4) + "\n")
