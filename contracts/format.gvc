package github.com/uber/prototool/internal/format
props C25

extern (proto.Visitee).Accept event
extern strings.TrimLeft pure
extern strings.TrimSpace pure
extern (proto.Literal).SourceRepresentation pure
extern (proto.Range).SourceRepresentation pure

extern strings.Repeat pure
extern bytes.NewBuffer new
extern (*bytes.Buffer).WriteRune nop
extern (*bytes.Buffer).Write nop
extern fmt.Fprint nop
extern bytes.TrimRightFunc pure
extern bytes.TrimSpace pure

func (*buf.Printer).P
  event
  nopanic
  requires p != nil && p.buffer != nil

func (*buf.Printer).In
  event
  nopanic
  requires p != nil
  modifies fields(p)
  ensures p.buffer == old(p.buffer) && p.indent == old(p.indent)
  ensures p.indentCount == old(p.indentCount) + 1

func (*buf.Printer).Out
  event
  nopanic
  requires p != nil
  modifies fields(p)
  ensures p.buffer == old(p.buffer) && p.indent == old(p.indent)
  ensures p.indentCount == ite(old(p.indentCount) > 0, old(p.indentCount) - 1, old(p.indentCount))

def pv(v *format.baseVisitor) bool = v != nil && v.Printer != nil && v.Printer.buffer != nil

// what an argument and a list of arguments of P are printed as
def pitem(a interface{}) string = ite(typeis(a, string), as(a, string), ite(typeis(a, int), strconv.Itoa(as(a, int)), "?"))
def ptext(a []interface{}) string = ite(len(a) == 0, "",
      ite(len(a) == 1, pitem(a[0]),
      ite(len(a) == 2, pitem(a[0]) + pitem(a[1]),
      ite(len(a) == 3, pitem(a[0]) + pitem(a[1]) + pitem(a[2]),
      ite(len(a) == 4, pitem(a[0]) + pitem(a[1]) + pitem(a[2]) + pitem(a[3]),
      ite(len(a) == 5, pitem(a[0]) + pitem(a[1]) + pitem(a[2]) + pitem(a[3]) + pitem(a[4]),
      ite(len(a) == 6, pitem(a[0]) + pitem(a[1]) + pitem(a[2]) + pitem(a[3]) + pitem(a[4]) + pitem(a[5]),
      ite(len(a) == 7, pitem(a[0]) + pitem(a[1]) + pitem(a[2]) + pitem(a[3]) + pitem(a[4]) + pitem(a[5]) + pitem(a[6]),
      ite(len(a) == 8, pitem(a[0]) + pitem(a[1]) + pitem(a[2]) + pitem(a[3]) + pitem(a[4]) + pitem(a[5]) + pitem(a[6]) + pitem(a[7]),
      ite(len(a) == 9, pitem(a[0]) + pitem(a[1]) + pitem(a[2]) + pitem(a[3]) + pitem(a[4]) + pitem(a[5]) + pitem(a[6]) + pitem(a[7]) + pitem(a[8]),
      ite(len(a) == 10, pitem(a[0]) + pitem(a[1]) + pitem(a[2]) + pitem(a[3]) + pitem(a[4]) + pitem(a[5]) + pitem(a[6]) + pitem(a[7]) + pitem(a[8]) + pitem(a[9]),
      ite(len(a) == 11, pitem(a[0]) + pitem(a[1]) + pitem(a[2]) + pitem(a[3]) + pitem(a[4]) + pitem(a[5]) + pitem(a[6]) + pitem(a[7]) + pitem(a[8]) + pitem(a[9]) + pitem(a[10]),
      pitem(a[0]) + pitem(a[1]) + pitem(a[2]) + pitem(a[3]) + pitem(a[4]) + pitem(a[5]) + pitem(a[6]) + pitem(a[7]) + pitem(a[8]) + pitem(a[9]) + pitem(a[10]) + pitem(a[11])))))))))))))

// a is what args is with the comment behind it
def commented(a []interface{}, args []interface{}, c *proto.Comment) bool = len(a) == len(args) + 2 && pitem(a[len(args)]) == " //" && pitem(a[len(args) + 1]) == format.cleanInlineCommentLines(c.Lines) &&
      forall(i, int, implies(0 <= i && i < len(args), a[i] == args[i]))

func format.cleanCommentLine
  opaque
  nopanic
  ensures result == strings.TrimLeft(line, "/")

func format.isSingleValueLiteral
  pure
  nopanic
  ensures iff(result, len(literal.Array) == 0 && len(literal.OrderedMap) == 0)

func format.cleanInlineCommentLines
  opaque
  nopanic
  requires len(lines) > 0
  ensures implies(len(lines) == 1, result == format.cleanCommentLine(lines[0]))
  loop 0 invariant implies(len(lines) == 1, cleaned == format.cleanCommentLine(lines[0]))

func (*format.baseVisitor).PWithInlineComment
  nopanic
  event
  requires pv(v)
  requires len(args) <= 10
  ensures allcalls("(*buf.Printer).P", p, a, p == v.Printer)
  ensures implies(inlineComment == nil || len(inlineComment.Lines) == 0, allcalls("(*buf.Printer).P", p, a, ptext(a) == ptext(args)) && somecall("(*buf.Printer).P", p, a, ptext(a) == ptext(args)))
  ensures implies(inlineComment != nil && len(inlineComment.Lines) > 0, allcalls("(*buf.Printer).P", p, a, commented(a, args, inlineComment)))
  ensures implies(inlineComment != nil && len(inlineComment.Lines) > 0, somecall("(*buf.Printer).P", p, a, commented(a, args, inlineComment)))

func (*format.baseVisitor).PComment
  nopanic
  event
  requires pv(v)
  ensures implies(comment == nil || len(comment.Lines) == 0, onlycalls("none"))
  ensures implies(comment != nil, allcalls("(*buf.Printer).P", p, a, exists(i, int, 0 <= i && i < len(comment.Lines) && ptext(a) == "//" + format.cleanCommentLine(comment.Lines[i]))))
  ensures implies(comment != nil, forall(i, int, implies(0 <= i && i < len(comment.Lines), somecall("(*buf.Printer).P", p, a, ptext(a) == "//" + format.cleanCommentLine(comment.Lines[i])))))

func format.hasContent
  opaque
  loop 0 invariant forall(i, int, implies(0 <= i && i <= rangeindex, !format.hasContent(*literal.OrderedMap[i].Literal)))
  ensures implies(format.isSingleValueLiteral(literal), iff(result, literal.SourceRepresentation() != ""))
  ensures implies(len(literal.Array) > 0, result)
  ensures implies(len(literal.Array) == 0 && len(literal.OrderedMap) > 0, iff(result, exists(i, int, 0 <= i && i < len(literal.OrderedMap) && format.hasContent(*literal.OrderedMap[i].Literal))))

func format.optionsWithContent
  nopanic
  requires nonnil(options)
  loop 0 invariant forall(j, int, implies(0 <= j && j <= rangeindex && format.hasContent(options[j].Constant), contains(optionsWithContent, options[j])))
  loop 0 invariant forall(i, int, implies(0 <= i && i < len(optionsWithContent), optionsWithContent[i] != nil && contains(options, optionsWithContent[i]) && format.hasContent(optionsWithContent[i].Constant)))
  loop 0 invariant optionsWithContent == nil || isfresh(optionsWithContent)
  ensures forall(i, int, implies(0 <= i && i < len(result), result[i] != nil && contains(options, result[i]) && format.hasContent(result[i].Constant)))
  ensures forall(j, int, implies(0 <= j && j < len(options) && format.hasContent(options[j].Constant), contains(result, options[j])))
  loop 0 invariant off(optionsWithContent) == 0
  ensures off(result) == 0
  ensures result == nil || isfresh(result)

func (*format.baseVisitor).pInnerLiteral
  event
  requires pv(v)
  modifies fields(v.Printer)
  loop 0 invariant v.Printer.indentCount == old(v.Printer.indentCount) + 1 && v.Printer.buffer == old(v.Printer.buffer) && v.Printer.indent == old(v.Printer.indent)
  loop 1 invariant v.Printer.indentCount == old(v.Printer.indentCount) + 1 && v.Printer.buffer == old(v.Printer.buffer) && v.Printer.indent == old(v.Printer.indent)
  requires v.Printer.indentCount >= 0
  ensures v.Printer.indentCount == old(v.Printer.indentCount) && v.Printer.buffer == old(v.Printer.buffer) && v.Printer.indent == old(v.Printer.indent)
  ensures implies(name != "" && !format.hasContent(literal), onlycalls("none"))
  ensures implies(name != "" && format.isSingleValueLiteral(literal) && format.hasContent(literal) && literal.SourceRepresentation() != "", allcalls("(*buf.Printer).P", p, a, ptext(a) == name + ": " + literal.SourceRepresentation() + suffix))
  ensures implies(name != "" && format.isSingleValueLiteral(literal) && format.hasContent(literal) && literal.SourceRepresentation() != "", somecall("(*buf.Printer).P", p, a, ptext(a) == name + ": " + literal.SourceRepresentation() + suffix))
  ensures implies(name == "" && format.isSingleValueLiteral(literal) && literal.SourceRepresentation() != "", allcalls("(*buf.Printer).P", p, a, ptext(a) == literal.SourceRepresentation() + suffix) && somecall("(*buf.Printer).P", p, a, true))
  ensures implies(name == "" && format.isSingleValueLiteral(literal) && literal.SourceRepresentation() == "", somecall("(*buf.Printer).P", p, a, ptext(a) == "{" || ptext(a) == "[") && somecall("(*buf.Printer).P", p, a, ptext(a) == "}" + suffix || ptext(a) == "]" + suffix))
  ensures implies(len(literal.Array) > 0 && (name == "" || format.hasContent(literal)), somecall("(*buf.Printer).P", p, a, ptext(a) == ite(name == "", "", name + ": ") + "["))
  ensures implies(len(literal.Array) > 0 && (name == "" || format.hasContent(literal)), somecall("(*buf.Printer).P", p, a, ptext(a) == "]" + suffix))
  ensures implies(len(literal.Array) > 0 && (name == "" || format.hasContent(literal)), forall(i, int, implies(0 <= i && i < len(literal.Array), somecall("(*format.baseVisitor).pInnerLiteral", w, n, l, s, w == v && n == "" && l == *literal.Array[i] && s == ite(i == len(literal.Array) - 1, "", ",")))))
  ensures implies(len(literal.Array) == 0 && len(literal.OrderedMap) > 0 && (name == "" || format.hasContent(literal)), somecall("(*buf.Printer).P", p, a, ptext(a) == ite(name == "", "", name + ": ") + "{"))
  ensures implies(len(literal.Array) == 0 && len(literal.OrderedMap) > 0 && (name == "" || format.hasContent(literal)), somecall("(*buf.Printer).P", p, a, ptext(a) == "}" + suffix))
  ensures implies(len(literal.Array) == 0 && len(literal.OrderedMap) > 0 && (name == "" || format.hasContent(literal)),
      forall(i, int, implies(0 <= i && i < len(literal.OrderedMap), somecall("(*format.baseVisitor).pInnerLiteral", w, n, l, s, w == v && n == literal.OrderedMap[i].Name && l == *literal.OrderedMap[i].Literal && s == ""))))
  ensures implies(len(literal.Array) == 0, allcalls("(*format.baseVisitor).pInnerLiteral", w, n, l, s, exists(i, int, 0 <= i && i < len(literal.OrderedMap) && n == literal.OrderedMap[i].Name && l == *literal.OrderedMap[i].Literal)))
  ensures allcalls("(*buf.Printer).P", p, a, p == v.Printer)

def nonnil(o []*proto.Option) bool = forall(i, int, implies(0 <= i && i < len(o), o[i] != nil))
def samev(v *format.baseVisitor) bool = v.Printer == old(v.Printer) && v.Printer.indentCount == old(v.Printer.indentCount) && v.Printer.buffer == old(v.Printer.buffer) && v.Printer.indent == old(v.Printer.indent)
def hascomment(c *proto.Comment) bool = c != nil && len(c.Lines) > 0

func (*format.baseVisitor).AddFailure
  event
  nopanic
  requires v != nil
  modifies fields(v)
  ensures v.Printer == old(v.Printer) && len(v.Failures) == old(len(v.Failures)) + 1

func (*format.baseVisitor).pOptions
  event
  requires pv(v) && v.Printer.indentCount >= 0
  requires nonnil(options)
  modifies fields(v), fields(v.Printer)
  loop 0 invariant v.Printer == old(v.Printer) && v.Printer.indentCount == old(v.Printer.indentCount) && v.Printer.buffer == old(v.Printer.buffer) && v.Printer.indent == old(v.Printer.indent)
  loop 1 invariant v.Printer == old(v.Printer) && v.Printer.indentCount == old(v.Printer.indentCount) + 1 && v.Printer.buffer == old(v.Printer.buffer) && v.Printer.indent == old(v.Printer.indent)
  ensures samev(v)

func (*format.baseVisitor).pOptions variant option
  event
  requires pv(v) && v.Printer.indentCount >= 0
  requires nonnil(options)
  requires !isFieldOption
  modifies fields(v), fields(v.Printer)
  loop 0 invariant v.Printer == old(v.Printer) && v.Printer.indentCount == old(v.Printer.indentCount) && v.Printer.buffer == old(v.Printer.buffer) && v.Printer.indent == old(v.Printer.indent)
  loop 0 invariant forall(j, int, implies(0 <= j && j < len(old(options)) && format.hasContent(old(options[j].Constant)), contains(options, old(options[j]))))
  loop 1 invariant v.Printer == old(v.Printer) && v.Printer.indentCount == old(v.Printer.indentCount) + 1 && v.Printer.buffer == old(v.Printer.buffer) && v.Printer.indent == old(v.Printer.indent)
  ensures forall(i, int, implies(0 <= i && i < len(options) && format.hasContent(options[i].Constant),
      somecall("(*format.baseVisitor).PComment", w, c, w == v && c == options[i].Comment)))
  ensures forall(i, int, implies(0 <= i && i < len(options) && format.hasContent(options[i].Constant) && format.isSingleValueLiteral(options[i].Constant) && options[i].Constant.SourceRepresentation() != "",
      somecall("(*format.baseVisitor).PWithInlineComment", w, c, a, w == v && c == options[i].InlineComment && len(a) == 5 && pitem(a[0]) == "option " && pitem(a[1]) == options[i].Name && pitem(a[2]) == " = " && pitem(a[3]) == options[i].Constant.SourceRepresentation() && pitem(a[4]) == ";")))
  ensures forall(i, int, implies(0 <= i && i < len(options) && format.hasContent(options[i].Constant) && !format.isSingleValueLiteral(options[i].Constant) && len(options[i].Constant.Array) == 0,
      somecall("(*buf.Printer).P", p, a, p == v.Printer && len(a) == 3 && pitem(a[0]) == "option " && pitem(a[1]) == options[i].Name && pitem(a[2]) == " = {")))
  ensures forall(i, int, implies(0 <= i && i < len(options) && format.hasContent(options[i].Constant) && !format.isSingleValueLiteral(options[i].Constant) && len(options[i].Constant.Array) == 0,
      somecall("(*format.baseVisitor).PWithInlineComment", w, c, a, w == v && c == options[i].InlineComment && len(a) == 2 && pitem(a[0]) == "}" && pitem(a[1]) == ";")))
  ensures forall(i, int, forall(j, int, implies(0 <= i && i < len(options) && format.hasContent(options[i].Constant) && !format.isSingleValueLiteral(options[i].Constant) && len(options[i].Constant.Array) == 0 && 0 <= j && j < len(options[i].Constant.OrderedMap),
      somecall("(*format.baseVisitor).pInnerLiteral", w, n, l, s, w == v && n == options[i].Constant.OrderedMap[j].Name && l == *options[i].Constant.OrderedMap[j].Literal && s == ""))))

func (*format.baseVisitor).pOptions variant fieldoption
  event
  requires pv(v) && v.Printer.indentCount >= 0
  requires nonnil(options)
  requires isFieldOption
  modifies fields(v), fields(v.Printer)
  loop 0 invariant v.Printer == old(v.Printer) && v.Printer.indentCount == old(v.Printer.indentCount) && v.Printer.buffer == old(v.Printer.buffer) && v.Printer.indent == old(v.Printer.indent)
  loop 0 invariant forall(j, int, implies(0 <= j && j < len(old(options)) && format.hasContent(old(options[j].Constant)), contains(options, old(options[j]))))
  loop 1 invariant v.Printer == old(v.Printer) && v.Printer.indentCount == old(v.Printer.indentCount) + 1 && v.Printer.buffer == old(v.Printer.buffer) && v.Printer.indent == old(v.Printer.indent)
  ensures forall(i, int, implies(0 <= i && i < len(options) && format.hasContent(options[i].Constant),
      somecall("(*format.baseVisitor).PComment", w, c, w == v && c == options[i].Comment)))
  ensures forall(i, int, implies(0 <= i && i < len(options) && format.hasContent(options[i].Constant) && format.isSingleValueLiteral(options[i].Constant) && options[i].Constant.SourceRepresentation() != "",
      somecall("(*format.baseVisitor).PWithInlineComment", w, c, a, w == v && c == options[i].InlineComment && len(a) == 5 && pitem(a[0]) == "" && pitem(a[1]) == options[i].Name && pitem(a[2]) == " = " && pitem(a[3]) == options[i].Constant.SourceRepresentation() && (pitem(a[4]) == "," || pitem(a[4]) == ""))))
  ensures forall(i, int, implies(0 <= i && i < len(options) && format.hasContent(options[i].Constant) && !format.isSingleValueLiteral(options[i].Constant) && len(options[i].Constant.Array) == 0,
      somecall("(*buf.Printer).P", p, a, p == v.Printer && len(a) == 3 && pitem(a[0]) == "" && pitem(a[1]) == options[i].Name && pitem(a[2]) == " = {")))
  ensures forall(i, int, implies(0 <= i && i < len(options) && format.hasContent(options[i].Constant) && !format.isSingleValueLiteral(options[i].Constant) && len(options[i].Constant.Array) == 0,
      somecall("(*format.baseVisitor).PWithInlineComment", w, c, a, w == v && c == options[i].InlineComment && len(a) == 2 && pitem(a[0]) == "}" && (pitem(a[1]) == "," || pitem(a[1]) == ""))))
  ensures forall(i, int, forall(j, int, implies(0 <= i && i < len(options) && format.hasContent(options[i].Constant) && !format.isSingleValueLiteral(options[i].Constant) && len(options[i].Constant.Array) == 0 && 0 <= j && j < len(options[i].Constant.OrderedMap),
      somecall("(*format.baseVisitor).pInnerLiteral", w, n, l, s, w == v && n == options[i].Constant.OrderedMap[j].Name && l == *options[i].Constant.OrderedMap[j].Literal && s == ""))))

func (*format.baseVisitor).POptions
  event
  requires pv(v) && v.Printer.indentCount >= 0
  requires nonnil(options)
  modifies fields(v), fields(v.Printer)
  ensures samev(v)
  ensures onlycalls("(*format.baseVisitor).pOptions")
  ensures somecall("(*format.baseVisitor).pOptions", w, b, o, w == v && !b && o == options)
  ensures allcalls("(*format.baseVisitor).pOptions", w, b, o, w == v && !b && o == options)

// a holds the text of a field or enum value up to its number
def fielddecl(a []interface{}, prefix string, name string, ty string, tag int) bool = len(a) >= 6 && pitem(a[0]) == prefix && pitem(a[1]) == ite(ty == "", "", ty + " ") && pitem(a[2]) == name && pitem(a[3]) == " = " && pitem(a[4]) == strconv.Itoa(tag)

func (*format.baseVisitor).pMessageOrEnumField
  event
  requires pv(v) && v.Printer.indentCount >= 0
  requires nonnil(options)
  modifies fields(v), fields(v.Printer)
  ensures samev(v)
  ensures somecall("(*format.baseVisitor).PComment", w, c, w == v && c == comment) && allcalls("(*format.baseVisitor).PComment", w, c, w == v && c == comment)
  ensures somecall("(*format.baseVisitor).PWithInlineComment", w, c, a, w == v && c == inlineComment) && allcalls("(*format.baseVisitor).PWithInlineComment", w, c, a, w == v && c == inlineComment)
  ensures implies(forall(j, int, implies(0 <= j && j < len(options), !format.hasContent(options[j].Constant))),
      somecall("(*format.baseVisitor).PWithInlineComment", w, c, a, w == v && len(a) == 6 && fielddecl(a, prefix, fieldName, fieldType, fieldTag) && pitem(a[5]) == ";"))
  ensures implies(forall(j, int, implies(0 <= j && j < len(options), !format.hasContent(options[j].Constant))), onlycalls("(*format.baseVisitor).PWithInlineComment", "(*format.baseVisitor).PComment", "format.optionsWithContent"))
  ensures somecall("(*format.baseVisitor).PWithInlineComment", w, c, a, fielddecl(a, prefix, fieldName, fieldType, fieldTag)) ||
      somecall("(*buf.Printer).P", w, a, w == v.Printer && len(a) == 6 && fielddecl(a, prefix, fieldName, fieldType, fieldTag) && pitem(a[5]) == " [") && somecall("(*format.baseVisitor).PWithInlineComment", w, c, a, len(a) == 1 && pitem(a[0]) == "];")
  ensures forall(j, int, implies(0 <= j && j < len(options) && format.hasContent(options[j].Constant),
      somecall("(*format.baseVisitor).pOptions", w, b, o, w == v && b && contains(o, options[j])) ||
      !hascomment(options[j].Comment) && somecall("(*format.baseVisitor).PWithInlineComment", w, c, a, len(a) == 10 && fielddecl(a, prefix, fieldName, fieldType, fieldTag) && pitem(a[5]) == " [" && pitem(a[6]) == options[j].Name && pitem(a[7]) == " = " && pitem(a[8]) == options[j].Constant.SourceRepresentation() && pitem(a[9]) == "];")))
  ensures allcalls("(*format.baseVisitor).pOptions", w, b, o, forall(j, int, implies(0 <= j && j < len(o), contains(options, o[j]))))

func (*format.baseVisitor).PField
  event
  requires pv(v) && field != nil && v.Printer.indentCount >= 0
  requires nonnil(field.Options)
  modifies fields(v), fields(v.Printer)
  ensures samev(v)
  ensures onlycalls("(*format.baseVisitor).pMessageOrEnumField")
  ensures somecall("(*format.baseVisitor).pMessageOrEnumField", w, p, n, t, k, c, i, o, w == v && p == prefix && n == field.Name && t == fieldType && k == field.Sequence && c == field.Comment && i == field.InlineComment && o == field.Options)
  ensures allcalls("(*format.baseVisitor).pMessageOrEnumField", w, p, n, t, k, c, i, o, w == v && p == prefix && n == field.Name && t == fieldType && k == field.Sequence && c == field.Comment && i == field.InlineComment && o == field.Options)

func (*format.baseVisitor).PEnumField
  event
  requires pv(v) && element != nil && v.Printer.indentCount >= 0
  requires forall(i, int, implies(0 <= i && i < len(element.Elements), element.Elements[i] != nil && implies(typeis(element.Elements[i], *proto.Option), as(element.Elements[i], *proto.Option) != nil)))
  loop 0 invariant forall(i, int, implies(0 <= i && i <= rangeindex && typeis(element.Elements[i], *proto.Option), contains(options, as(element.Elements[i], *proto.Option))))
  loop 0 invariant forall(i, int, implies(0 <= i && i < len(options), exists(j, int, 0 <= j && j < len(element.Elements) && typeis(element.Elements[j], *proto.Option) && options[i] == as(element.Elements[j], *proto.Option))))
  loop 0 invariant options == nil || isfresh(options)
  modifies fields(v), fields(v.Printer)
  ensures samev(v)
  ensures onlycalls("(*format.baseVisitor).pMessageOrEnumField")
  ensures somecall("(*format.baseVisitor).pMessageOrEnumField", w, p, n, t, k, c, i, o, w == v && p == "" && n == element.Name && t == "" && k == element.Integer && c == element.Comment && i == element.InlineComment)
  ensures allcalls("(*format.baseVisitor).pMessageOrEnumField", w, p, n, t, k, c, i, o, w == v && p == "" && n == element.Name && t == "" && k == element.Integer && c == element.Comment && i == element.InlineComment)
  ensures allcalls("(*format.baseVisitor).pMessageOrEnumField", w, p, n, t, k, c, i, o, forall(j, int, implies(0 <= j && j < len(element.Elements) && typeis(element.Elements[j], *proto.Option), contains(o, as(element.Elements[j], *proto.Option)))))
