package github.com/uber/prototool/internal/format
props C25

// generated by tools/genformat.py

def pvm(v *format.mainVisitor) bool = v != nil && v.baseVisitor != nil && pv(v.baseVisitor) && v.baseVisitor.Printer.indentCount >= 0
def samem(v *format.mainVisitor) bool = v.baseVisitor == old(v.baseVisitor) && v.baseVisitor.Printer == old(v.baseVisitor.Printer) && v.baseVisitor.Printer.indentCount == old(v.baseVisitor.Printer.indentCount) && v.baseVisitor.Printer.buffer == old(v.baseVisitor.Printer.buffer) && v.parent == old(v.parent) && v.isProto2 == old(v.isProto2)

func (*format.mainVisitor).VisitMessage
  requires pvm(v) && element != nil
  modifies fields(v), fields(v.baseVisitor), fields(v.baseVisitor.Printer)
  ensures samem(v)
  loop 0 invariant v.baseVisitor.Printer.indentCount == old(v.baseVisitor.Printer.indentCount) + 1
  loop 0 invariant typeis(v.parent, *proto.Message) && as(v.parent, *proto.Message) == element
  ensures v.haveHitNonComment
  ensures somecall("(*format.baseVisitor).PComment", w, c, w == v.baseVisitor && c == element.Comment)
  ensures allcalls("(*format.baseVisitor).PComment", w, c, w == v.baseVisitor && c == element.Comment)
  ensures implies(len(element.Elements) == 0, somecall("(*buf.Printer).P", p, a, p == v.baseVisitor.Printer && ptext(a) == ite(element.IsExtend, "extend ", "message ") + element.Name + " {}"))
  ensures implies(len(element.Elements) > 0, somecall("(*buf.Printer).P", p, a, p == v.baseVisitor.Printer && ptext(a) == ite(element.IsExtend, "extend ", "message ") + element.Name + " {"))
  ensures implies(len(element.Elements) > 0, somecall("(*buf.Printer).P", p, a, p == v.baseVisitor.Printer && ptext(a) == "}"))
  ensures implies(len(element.Elements) > 0, allcalls("(*buf.Printer).P", p, a, ptext(a) == ite(element.IsExtend, "extend ", "message ") + element.Name + " {" || ptext(a) == "}" || len(a) == 0))
  ensures implies(len(element.Elements) == 0, allcalls("(*buf.Printer).P", p, a, ptext(a) == ite(element.IsExtend, "extend ", "message ") + element.Name + " {}" || len(a) == 0))
  ensures forall(i, int, implies(0 <= i && i < len(element.Elements), somecall("(proto.Visitee).Accept", c, w, c == element.Elements[i] && w == v)))
  ensures allcalls("(proto.Visitee).Accept", c, w, contains(element.Elements, c) && w == v)
  ensures onlycalls("(*format.baseVisitor).PComment", "(*buf.Printer).P", "(*buf.Printer).In", "(*buf.Printer).Out", "(proto.Visitee).Accept")

func (*format.mainVisitor).VisitService
  requires pvm(v) && element != nil
  modifies fields(v), fields(v.baseVisitor), fields(v.baseVisitor.Printer)
  ensures samem(v)
  loop 0 invariant v.baseVisitor.Printer.indentCount == old(v.baseVisitor.Printer.indentCount) + 1
  loop 0 invariant typeis(v.parent, *proto.Service) && as(v.parent, *proto.Service) == element
  ensures v.haveHitNonComment
  ensures somecall("(*format.baseVisitor).PComment", w, c, w == v.baseVisitor && c == element.Comment)
  ensures allcalls("(*format.baseVisitor).PComment", w, c, w == v.baseVisitor && c == element.Comment)
  ensures implies(len(element.Elements) == 0, somecall("(*buf.Printer).P", p, a, p == v.baseVisitor.Printer && ptext(a) == "service " + element.Name + " {}"))
  ensures implies(len(element.Elements) > 0, somecall("(*buf.Printer).P", p, a, p == v.baseVisitor.Printer && ptext(a) == "service " + element.Name + " {"))
  ensures implies(len(element.Elements) > 0, somecall("(*buf.Printer).P", p, a, p == v.baseVisitor.Printer && ptext(a) == "}"))
  ensures implies(len(element.Elements) > 0, allcalls("(*buf.Printer).P", p, a, ptext(a) == "service " + element.Name + " {" || ptext(a) == "}" || len(a) == 0))
  ensures implies(len(element.Elements) == 0, allcalls("(*buf.Printer).P", p, a, ptext(a) == "service " + element.Name + " {}" || len(a) == 0))
  ensures forall(i, int, implies(0 <= i && i < len(element.Elements), somecall("(proto.Visitee).Accept", c, w, c == element.Elements[i] && w == v)))
  ensures allcalls("(proto.Visitee).Accept", c, w, contains(element.Elements, c) && w == v)
  ensures onlycalls("(*format.baseVisitor).PComment", "(*buf.Printer).P", "(*buf.Printer).In", "(*buf.Printer).Out", "(proto.Visitee).Accept")

func (*format.mainVisitor).VisitEnum
  requires pvm(v) && element != nil
  modifies fields(v), fields(v.baseVisitor), fields(v.baseVisitor.Printer)
  ensures samem(v)
  loop 0 invariant v.baseVisitor.Printer.indentCount == old(v.baseVisitor.Printer.indentCount) + 1
  loop 0 invariant typeis(v.parent, *proto.Enum) && as(v.parent, *proto.Enum) == element
  ensures v.haveHitNonComment
  ensures somecall("(*format.baseVisitor).PComment", w, c, w == v.baseVisitor && c == element.Comment)
  ensures allcalls("(*format.baseVisitor).PComment", w, c, w == v.baseVisitor && c == element.Comment)
  ensures implies(len(element.Elements) == 0, somecall("(*buf.Printer).P", p, a, p == v.baseVisitor.Printer && ptext(a) == "enum " + element.Name + " {}"))
  ensures implies(len(element.Elements) > 0, somecall("(*buf.Printer).P", p, a, p == v.baseVisitor.Printer && ptext(a) == "enum " + element.Name + " {"))
  ensures implies(len(element.Elements) > 0, somecall("(*buf.Printer).P", p, a, p == v.baseVisitor.Printer && ptext(a) == "}"))
  ensures implies(len(element.Elements) > 0, allcalls("(*buf.Printer).P", p, a, ptext(a) == "enum " + element.Name + " {" || ptext(a) == "}" || len(a) == 0))
  ensures implies(len(element.Elements) == 0, allcalls("(*buf.Printer).P", p, a, ptext(a) == "enum " + element.Name + " {}" || len(a) == 0))
  ensures forall(i, int, implies(0 <= i && i < len(element.Elements), somecall("(proto.Visitee).Accept", c, w, c == element.Elements[i] && w == v)))
  ensures allcalls("(proto.Visitee).Accept", c, w, contains(element.Elements, c) && w == v)
  ensures onlycalls("(*format.baseVisitor).PComment", "(*buf.Printer).P", "(*buf.Printer).In", "(*buf.Printer).Out", "(proto.Visitee).Accept")

func (*format.mainVisitor).VisitOneof
  requires pvm(v) && element != nil
  modifies fields(v), fields(v.baseVisitor), fields(v.baseVisitor.Printer)
  ensures samem(v)
  loop 0 invariant v.baseVisitor.Printer.indentCount == old(v.baseVisitor.Printer.indentCount) + 1
  loop 0 invariant typeis(v.parent, *proto.Oneof) && as(v.parent, *proto.Oneof) == element
  ensures v.haveHitNonComment
  ensures somecall("(*format.baseVisitor).PComment", w, c, w == v.baseVisitor && c == element.Comment)
  ensures allcalls("(*format.baseVisitor).PComment", w, c, w == v.baseVisitor && c == element.Comment)
  ensures implies(len(element.Elements) == 0, somecall("(*buf.Printer).P", p, a, p == v.baseVisitor.Printer && ptext(a) == "oneof " + element.Name + " {}"))
  ensures implies(len(element.Elements) > 0, somecall("(*buf.Printer).P", p, a, p == v.baseVisitor.Printer && ptext(a) == "oneof " + element.Name + " {"))
  ensures implies(len(element.Elements) > 0, somecall("(*buf.Printer).P", p, a, p == v.baseVisitor.Printer && ptext(a) == "}"))
  ensures implies(len(element.Elements) > 0, allcalls("(*buf.Printer).P", p, a, ptext(a) == "oneof " + element.Name + " {" || ptext(a) == "}" || len(a) == 0))
  ensures implies(len(element.Elements) == 0, allcalls("(*buf.Printer).P", p, a, ptext(a) == "oneof " + element.Name + " {}" || len(a) == 0))
  ensures forall(i, int, implies(0 <= i && i < len(element.Elements), somecall("(proto.Visitee).Accept", c, w, c == element.Elements[i] && w == v)))
  ensures allcalls("(proto.Visitee).Accept", c, w, contains(element.Elements, c) && w == v)
  ensures onlycalls("(*format.baseVisitor).PComment", "(*buf.Printer).P", "(*buf.Printer).In", "(*buf.Printer).Out", "(proto.Visitee).Accept")

func (*format.mainVisitor).VisitGroup
  requires pvm(v) && element != nil
  modifies fields(v), fields(v.baseVisitor), fields(v.baseVisitor.Printer)
  ensures samem(v)
  loop 0 invariant v.baseVisitor.Printer.indentCount == old(v.baseVisitor.Printer.indentCount) + 1
  loop 0 invariant typeis(v.parent, *proto.Group) && as(v.parent, *proto.Group) == element
  ensures v.haveHitNonComment
  ensures somecall("(*format.baseVisitor).PComment", w, c, w == v.baseVisitor && c == element.Comment)
  ensures allcalls("(*format.baseVisitor).PComment", w, c, w == v.baseVisitor && c == element.Comment)
  ensures implies(len(element.Elements) == 0, somecall("(*buf.Printer).P", p, a, p == v.baseVisitor.Printer && ptext(a) == ite(element.Repeated, "repeated ", ite(element.Required, "required ", ite(element.Optional, "optional ", ""))) + "group " + element.Name + " = " + strconv.Itoa(element.Sequence) + " {}"))
  ensures implies(len(element.Elements) > 0, somecall("(*buf.Printer).P", p, a, p == v.baseVisitor.Printer && ptext(a) == ite(element.Repeated, "repeated ", ite(element.Required, "required ", ite(element.Optional, "optional ", ""))) + "group " + element.Name + " = " + strconv.Itoa(element.Sequence) + " {"))
  ensures implies(len(element.Elements) > 0, somecall("(*buf.Printer).P", p, a, p == v.baseVisitor.Printer && ptext(a) == "}"))
  ensures implies(len(element.Elements) > 0, allcalls("(*buf.Printer).P", p, a, ptext(a) == ite(element.Repeated, "repeated ", ite(element.Required, "required ", ite(element.Optional, "optional ", ""))) + "group " + element.Name + " = " + strconv.Itoa(element.Sequence) + " {" || ptext(a) == "}" || len(a) == 0))
  ensures implies(len(element.Elements) == 0, allcalls("(*buf.Printer).P", p, a, ptext(a) == ite(element.Repeated, "repeated ", ite(element.Required, "required ", ite(element.Optional, "optional ", ""))) + "group " + element.Name + " = " + strconv.Itoa(element.Sequence) + " {}" || len(a) == 0))
  ensures forall(i, int, implies(0 <= i && i < len(element.Elements), somecall("(proto.Visitee).Accept", c, w, c == element.Elements[i] && w == v)))
  ensures allcalls("(proto.Visitee).Accept", c, w, contains(element.Elements, c) && w == v)
  ensures onlycalls("(*format.baseVisitor).PComment", "(*buf.Printer).P", "(*buf.Printer).In", "(*buf.Printer).Out", "(proto.Visitee).Accept")

func (*format.mainVisitor).VisitSyntax
  requires pvm(v) && element != nil
  modifies fields(v), fields(v.baseVisitor), fields(v.baseVisitor.Printer)
  ensures samem(v)
  ensures v.haveHitNonComment
  ensures onlycalls("none")

func (*format.mainVisitor).VisitPackage
  requires pvm(v) && element != nil
  modifies fields(v), fields(v.baseVisitor), fields(v.baseVisitor.Printer)
  ensures samem(v)
  ensures v.haveHitNonComment
  ensures onlycalls("none")

func (*format.mainVisitor).VisitImport
  requires pvm(v) && element != nil
  modifies fields(v), fields(v.baseVisitor), fields(v.baseVisitor.Printer)
  ensures samem(v)
  ensures v.haveHitNonComment
  ensures onlycalls("none")

func (*format.mainVisitor).VisitNormalField
  requires pvm(v) && element != nil
  modifies fields(v), fields(v.baseVisitor), fields(v.baseVisitor.Printer)
  ensures samem(v)
  requires element.Field != nil && nonnil(element.Field.Options)
  ensures v.haveHitNonComment
  ensures somecall("(*format.baseVisitor).PField", w, p, t, f, w == v.baseVisitor && p == ite(element.Repeated, "repeated ", ite(v.isProto2, ite(element.Required, "required ", "optional "), ite(element.Optional, "optional ", ""))) && t == element.Type && f == element.Field)
  ensures allcalls("(*format.baseVisitor).PField", w, p, t, f, w == v.baseVisitor && p == ite(element.Repeated, "repeated ", ite(v.isProto2, ite(element.Required, "required ", "optional "), ite(element.Optional, "optional ", ""))) && t == element.Type && f == element.Field)
  ensures onlycalls("(*format.baseVisitor).PField")

func (*format.mainVisitor).VisitOneofField
  requires pvm(v) && element != nil
  modifies fields(v), fields(v.baseVisitor), fields(v.baseVisitor.Printer)
  ensures samem(v)
  requires element.Field != nil && nonnil(element.Field.Options)
  ensures v.haveHitNonComment
  ensures somecall("(*format.baseVisitor).PField", w, p, t, f, w == v.baseVisitor && p == "" && t == element.Type && f == element.Field)
  ensures allcalls("(*format.baseVisitor).PField", w, p, t, f, w == v.baseVisitor && p == "" && t == element.Type && f == element.Field)
  ensures onlycalls("(*format.baseVisitor).PField")

func (*format.mainVisitor).VisitMapField
  requires pvm(v) && element != nil
  modifies fields(v), fields(v.baseVisitor), fields(v.baseVisitor.Printer)
  ensures samem(v)
  requires element.Field != nil && nonnil(element.Field.Options)
  ensures v.haveHitNonComment
  ensures somecall("(*format.baseVisitor).PField", w, p, t, f, w == v.baseVisitor && p == "" && t == fmt.Sprintf("map<%s, %s>", element.KeyType, element.Type) && f == element.Field)
  ensures allcalls("(*format.baseVisitor).PField", w, p, t, f, w == v.baseVisitor && p == "" && t == fmt.Sprintf("map<%s, %s>", element.KeyType, element.Type) && f == element.Field)
  ensures onlycalls("(*format.baseVisitor).PField")

func (*format.mainVisitor).VisitEnumField
  requires pvm(v) && element != nil
  modifies fields(v), fields(v.baseVisitor), fields(v.baseVisitor.Printer)
  ensures samem(v)
  requires forall(i, int, implies(0 <= i && i < len(element.Elements), element.Elements[i] != nil && implies(typeis(element.Elements[i], *proto.Option), as(element.Elements[i], *proto.Option) != nil)))
  ensures v.haveHitNonComment
  ensures somecall("(*format.baseVisitor).PEnumField", w, e, w == v.baseVisitor && e == element)
  ensures allcalls("(*format.baseVisitor).PEnumField", w, e, w == v.baseVisitor && e == element)
  ensures onlycalls("(*format.baseVisitor).PEnumField")

func (*format.mainVisitor).VisitOption
  requires pvm(v) && element != nil
  modifies fields(v), fields(v.baseVisitor), fields(v.baseVisitor.Printer)
  ensures samem(v)
  ensures v.haveHitNonComment
  ensures implies(old(v.parent == nil), onlycalls("none"))
  ensures implies((typeis(old(v.parent), *proto.Enum) || typeis(old(v.parent), *proto.Message) || typeis(old(v.parent), *proto.Oneof) || typeis(old(v.parent), *proto.Service) || typeis(old(v.parent), *proto.Group)), somecall("(*format.baseVisitor).POptions", w, o, w == v.baseVisitor && len(o) == 1 && o[0] == element))
  ensures allcalls("(*format.baseVisitor).POptions", w, o, w == v.baseVisitor && len(o) == 1 && o[0] == element)
  ensures implies(old(v.parent != nil) && !(typeis(old(v.parent), *proto.Enum) || typeis(old(v.parent), *proto.Message) || typeis(old(v.parent), *proto.Oneof) || typeis(old(v.parent), *proto.Service) || typeis(old(v.parent), *proto.Group)), somecall("(*format.baseVisitor).AddFailure", w, p, f, a, w == v.baseVisitor && p == element.Position))
  ensures onlycalls("(*format.baseVisitor).POptions", "(*format.baseVisitor).AddFailure")

func (*format.mainVisitor).VisitComment
  requires pvm(v) && element != nil
  modifies fields(v), fields(v.baseVisitor), fields(v.baseVisitor.Printer)
  ensures samem(v)
  ensures implies(old(v.haveHitNonComment), somecall("(*format.baseVisitor).PComment", w, c, w == v.baseVisitor && c == element))
  ensures allcalls("(*format.baseVisitor).PComment", w, c, w == v.baseVisitor && c == element)
  ensures implies(!old(v.haveHitNonComment), onlycalls("none"))
  ensures onlycalls("(*format.baseVisitor).PComment", "(*buf.Printer).P")
  ensures allcalls("(*buf.Printer).P", p, a, len(a) == 0)

func (*format.mainVisitor).VisitReserved
  requires pvm(v) && element != nil
  modifies fields(v), fields(v.baseVisitor), fields(v.baseVisitor.Printer)
  ensures samem(v)
  ensures v.haveHitNonComment
  ensures implies(len(element.Ranges) > 0 && len(element.FieldNames) > 0, somecall("(*format.baseVisitor).AddFailure", w, p, f, a, w == v.baseVisitor && p == element.Position))
  ensures implies(!(len(element.Ranges) > 0 && len(element.FieldNames) > 0), somecall("(*format.baseVisitor).PComment", w, c, w == v.baseVisitor && c == element.Comment))
  ensures allcalls("(*format.baseVisitor).PComment", w, c, w == v.baseVisitor && c == element.Comment)
  ensures allcalls("(*format.baseVisitor).PWithInlineComment", w, c, a, w == v.baseVisitor && c == element.InlineComment && len(a) == 3 && pitem(a[0]) == "reserved " && pitem(a[2]) == ";")
  ensures implies(len(element.Ranges) > 0 && len(element.FieldNames) == 0, somecall("(*format.baseVisitor).PWithInlineComment", w, c, a, true))
  ensures implies(len(element.Ranges) == 0 && len(element.FieldNames) > 0, somecall("(*format.baseVisitor).PWithInlineComment", w, c, a, true))
  ensures allcalls("strings.Join", s, sep, sep == ", ")
  ensures implies(len(element.Ranges) > 0 && len(element.FieldNames) == 0, somecall("strings.Join", s, sep, len(s) == len(element.Ranges) && forall(i, int, implies(0 <= i && i < len(s), s[i] == element.Ranges[i].SourceRepresentation()))))
  ensures implies(len(element.Ranges) == 0 && len(element.FieldNames) > 0, somecall("strings.Join", s, sep, len(s) == len(element.FieldNames) && forall(i, int, implies(0 <= i && i < len(s), s[i] == "\"" + element.FieldNames[i] + "\""))))

func (*format.mainVisitor).VisitExtensions
  requires pvm(v) && element != nil
  modifies fields(v), fields(v.baseVisitor), fields(v.baseVisitor.Printer)
  ensures samem(v)
  ensures v.haveHitNonComment
  ensures somecall("(*format.baseVisitor).PComment", w, c, w == v.baseVisitor && c == element.Comment)
  ensures allcalls("(*format.baseVisitor).PComment", w, c, w == v.baseVisitor && c == element.Comment)
  ensures somecall("(*format.baseVisitor).PWithInlineComment", w, c, a, w == v.baseVisitor && c == element.InlineComment && len(a) == 3 && pitem(a[0]) == "extensions " && pitem(a[2]) == ";")

func (*format.mainVisitor).VisitRPC
  requires pvm(v) && element != nil
  modifies fields(v), fields(v.baseVisitor), fields(v.baseVisitor.Printer)
  ensures samem(v)
  requires nonnil(element.Options)
  ensures v.haveHitNonComment
  ensures somecall("(*format.baseVisitor).PComment", w, c, w == v.baseVisitor && c == element.Comment)
  ensures allcalls("(*format.baseVisitor).PComment", w, c, w == v.baseVisitor && c == element.Comment)
  ensures somecall("(*format.baseVisitor).PWithInlineComment", w, c, a, w == v.baseVisitor && c == element.InlineComment && len(a) == 9 && pitem(a[0]) == "rpc " && pitem(a[1]) == element.Name && pitem(a[2]) == "(" && pitem(a[3]) == ite(element.StreamsRequest, "stream ", "") && pitem(a[4]) == element.RequestType && pitem(a[5]) == ") returns (" && pitem(a[6]) == ite(element.StreamsReturns, "stream ", "") && pitem(a[7]) == element.ReturnsType && pitem(a[8]) == ");") ||
      somecall("(*buf.Printer).P", w, a, w == v.baseVisitor.Printer && len(a) == 9 && pitem(a[0]) == "rpc " && pitem(a[1]) == element.Name && pitem(a[2]) == "(" && pitem(a[3]) == ite(element.StreamsRequest, "stream ", "") && pitem(a[4]) == element.RequestType && pitem(a[5]) == ") returns (" && pitem(a[6]) == ite(element.StreamsReturns, "stream ", "") && pitem(a[7]) == element.ReturnsType && pitem(a[8]) == ") {") && somecall("(*format.baseVisitor).PWithInlineComment", w, c, a, w == v.baseVisitor && c == element.InlineComment && len(a) == 1 && pitem(a[0]) == "}")
  ensures forall(j, int, implies(0 <= j && j < len(element.Options) && format.hasContent(element.Options[j].Constant), somecall("(*format.baseVisitor).POptions", w, o, w == v.baseVisitor && contains(o, element.Options[j]))))
  ensures allcalls("(*format.baseVisitor).POptions", w, o, forall(j, int, implies(0 <= j && j < len(o), contains(element.Options, o[j]))))

def pvf(v *format.firstPassVisitor) bool = v != nil && v.baseVisitor != nil && pv(v.baseVisitor) && v.baseVisitor.Printer.indentCount >= 0
def samef(v *format.firstPassVisitor) bool = v.baseVisitor == old(v.baseVisitor) && v.baseVisitor.Printer == old(v.baseVisitor.Printer) && v.baseVisitor.Printer.indentCount == old(v.baseVisitor.Printer.indentCount) && v.baseVisitor.Printer.buffer == old(v.baseVisitor.Printer.buffer) && v.filename == old(v.filename) && v.fix == old(v.fix) && v.fileHeader == old(v.fileHeader) && v.javaPackagePrefix == old(v.javaPackagePrefix)

func (*format.firstPassVisitor).VisitMessage
  requires pvf(v)
  requires element != nil
  modifies fields(v), fields(v.baseVisitor), fields(v.baseVisitor.Printer)
  ensures samef(v)
  ensures v.Syntax == old(v.Syntax) && v.Package == old(v.Package) && v.Options == old(v.Options) && v.Imports == old(v.Imports) && v.filename == old(v.filename) && v.fix == old(v.fix) && v.fileHeader == old(v.fileHeader) && v.javaPackagePrefix == old(v.javaPackagePrefix) && v.csharpNamespaceOption == old(v.csharpNamespaceOption) && v.goPackageOption == old(v.goPackageOption) && v.javaMultipleFilesOption == old(v.javaMultipleFilesOption) && v.javaOuterClassnameOption == old(v.javaOuterClassnameOption) && v.javaPackageOption == old(v.javaPackageOption) && v.objcClassPrefixOption == old(v.objcClassPrefixOption) && v.phpNamespaceOption == old(v.phpNamespaceOption)
  ensures v.haveHitNonComment
  ensures onlycalls("none")

func (*format.firstPassVisitor).VisitService
  requires pvf(v)
  requires element != nil
  modifies fields(v), fields(v.baseVisitor), fields(v.baseVisitor.Printer)
  ensures samef(v)
  ensures v.Syntax == old(v.Syntax) && v.Package == old(v.Package) && v.Options == old(v.Options) && v.Imports == old(v.Imports) && v.filename == old(v.filename) && v.fix == old(v.fix) && v.fileHeader == old(v.fileHeader) && v.javaPackagePrefix == old(v.javaPackagePrefix) && v.csharpNamespaceOption == old(v.csharpNamespaceOption) && v.goPackageOption == old(v.goPackageOption) && v.javaMultipleFilesOption == old(v.javaMultipleFilesOption) && v.javaOuterClassnameOption == old(v.javaOuterClassnameOption) && v.javaPackageOption == old(v.javaPackageOption) && v.objcClassPrefixOption == old(v.objcClassPrefixOption) && v.phpNamespaceOption == old(v.phpNamespaceOption)
  ensures v.haveHitNonComment
  ensures onlycalls("none")

func (*format.firstPassVisitor).VisitNormalField
  requires pvf(v)
  requires element != nil
  modifies fields(v), fields(v.baseVisitor), fields(v.baseVisitor.Printer)
  ensures samef(v)
  ensures v.Syntax == old(v.Syntax) && v.Package == old(v.Package) && v.Options == old(v.Options) && v.Imports == old(v.Imports) && v.filename == old(v.filename) && v.fix == old(v.fix) && v.fileHeader == old(v.fileHeader) && v.javaPackagePrefix == old(v.javaPackagePrefix) && v.csharpNamespaceOption == old(v.csharpNamespaceOption) && v.goPackageOption == old(v.goPackageOption) && v.javaMultipleFilesOption == old(v.javaMultipleFilesOption) && v.javaOuterClassnameOption == old(v.javaOuterClassnameOption) && v.javaPackageOption == old(v.javaPackageOption) && v.objcClassPrefixOption == old(v.objcClassPrefixOption) && v.phpNamespaceOption == old(v.phpNamespaceOption)
  ensures v.haveHitNonComment
  ensures onlycalls("none")

func (*format.firstPassVisitor).VisitEnumField
  requires pvf(v)
  requires element != nil
  modifies fields(v), fields(v.baseVisitor), fields(v.baseVisitor.Printer)
  ensures samef(v)
  ensures v.Syntax == old(v.Syntax) && v.Package == old(v.Package) && v.Options == old(v.Options) && v.Imports == old(v.Imports) && v.filename == old(v.filename) && v.fix == old(v.fix) && v.fileHeader == old(v.fileHeader) && v.javaPackagePrefix == old(v.javaPackagePrefix) && v.csharpNamespaceOption == old(v.csharpNamespaceOption) && v.goPackageOption == old(v.goPackageOption) && v.javaMultipleFilesOption == old(v.javaMultipleFilesOption) && v.javaOuterClassnameOption == old(v.javaOuterClassnameOption) && v.javaPackageOption == old(v.javaPackageOption) && v.objcClassPrefixOption == old(v.objcClassPrefixOption) && v.phpNamespaceOption == old(v.phpNamespaceOption)
  ensures v.haveHitNonComment
  ensures onlycalls("none")

func (*format.firstPassVisitor).VisitEnum
  requires pvf(v)
  requires element != nil
  modifies fields(v), fields(v.baseVisitor), fields(v.baseVisitor.Printer)
  ensures samef(v)
  ensures v.Syntax == old(v.Syntax) && v.Package == old(v.Package) && v.Options == old(v.Options) && v.Imports == old(v.Imports) && v.filename == old(v.filename) && v.fix == old(v.fix) && v.fileHeader == old(v.fileHeader) && v.javaPackagePrefix == old(v.javaPackagePrefix) && v.csharpNamespaceOption == old(v.csharpNamespaceOption) && v.goPackageOption == old(v.goPackageOption) && v.javaMultipleFilesOption == old(v.javaMultipleFilesOption) && v.javaOuterClassnameOption == old(v.javaOuterClassnameOption) && v.javaPackageOption == old(v.javaPackageOption) && v.objcClassPrefixOption == old(v.objcClassPrefixOption) && v.phpNamespaceOption == old(v.phpNamespaceOption)
  ensures v.haveHitNonComment
  ensures onlycalls("none")

func (*format.firstPassVisitor).VisitOneof
  requires pvf(v)
  requires element != nil
  modifies fields(v), fields(v.baseVisitor), fields(v.baseVisitor.Printer)
  ensures samef(v)
  ensures v.Syntax == old(v.Syntax) && v.Package == old(v.Package) && v.Options == old(v.Options) && v.Imports == old(v.Imports) && v.filename == old(v.filename) && v.fix == old(v.fix) && v.fileHeader == old(v.fileHeader) && v.javaPackagePrefix == old(v.javaPackagePrefix) && v.csharpNamespaceOption == old(v.csharpNamespaceOption) && v.goPackageOption == old(v.goPackageOption) && v.javaMultipleFilesOption == old(v.javaMultipleFilesOption) && v.javaOuterClassnameOption == old(v.javaOuterClassnameOption) && v.javaPackageOption == old(v.javaPackageOption) && v.objcClassPrefixOption == old(v.objcClassPrefixOption) && v.phpNamespaceOption == old(v.phpNamespaceOption)
  ensures v.haveHitNonComment
  ensures onlycalls("none")

func (*format.firstPassVisitor).VisitOneofField
  requires pvf(v)
  requires element != nil
  modifies fields(v), fields(v.baseVisitor), fields(v.baseVisitor.Printer)
  ensures samef(v)
  ensures v.Syntax == old(v.Syntax) && v.Package == old(v.Package) && v.Options == old(v.Options) && v.Imports == old(v.Imports) && v.filename == old(v.filename) && v.fix == old(v.fix) && v.fileHeader == old(v.fileHeader) && v.javaPackagePrefix == old(v.javaPackagePrefix) && v.csharpNamespaceOption == old(v.csharpNamespaceOption) && v.goPackageOption == old(v.goPackageOption) && v.javaMultipleFilesOption == old(v.javaMultipleFilesOption) && v.javaOuterClassnameOption == old(v.javaOuterClassnameOption) && v.javaPackageOption == old(v.javaPackageOption) && v.objcClassPrefixOption == old(v.objcClassPrefixOption) && v.phpNamespaceOption == old(v.phpNamespaceOption)
  ensures v.haveHitNonComment
  ensures onlycalls("none")

func (*format.firstPassVisitor).VisitReserved
  requires pvf(v)
  requires element != nil
  modifies fields(v), fields(v.baseVisitor), fields(v.baseVisitor.Printer)
  ensures samef(v)
  ensures v.Syntax == old(v.Syntax) && v.Package == old(v.Package) && v.Options == old(v.Options) && v.Imports == old(v.Imports) && v.filename == old(v.filename) && v.fix == old(v.fix) && v.fileHeader == old(v.fileHeader) && v.javaPackagePrefix == old(v.javaPackagePrefix) && v.csharpNamespaceOption == old(v.csharpNamespaceOption) && v.goPackageOption == old(v.goPackageOption) && v.javaMultipleFilesOption == old(v.javaMultipleFilesOption) && v.javaOuterClassnameOption == old(v.javaOuterClassnameOption) && v.javaPackageOption == old(v.javaPackageOption) && v.objcClassPrefixOption == old(v.objcClassPrefixOption) && v.phpNamespaceOption == old(v.phpNamespaceOption)
  ensures v.haveHitNonComment
  ensures onlycalls("none")

func (*format.firstPassVisitor).VisitRPC
  requires pvf(v)
  requires element != nil
  modifies fields(v), fields(v.baseVisitor), fields(v.baseVisitor.Printer)
  ensures samef(v)
  ensures v.Syntax == old(v.Syntax) && v.Package == old(v.Package) && v.Options == old(v.Options) && v.Imports == old(v.Imports) && v.filename == old(v.filename) && v.fix == old(v.fix) && v.fileHeader == old(v.fileHeader) && v.javaPackagePrefix == old(v.javaPackagePrefix) && v.csharpNamespaceOption == old(v.csharpNamespaceOption) && v.goPackageOption == old(v.goPackageOption) && v.javaMultipleFilesOption == old(v.javaMultipleFilesOption) && v.javaOuterClassnameOption == old(v.javaOuterClassnameOption) && v.javaPackageOption == old(v.javaPackageOption) && v.objcClassPrefixOption == old(v.objcClassPrefixOption) && v.phpNamespaceOption == old(v.phpNamespaceOption)
  ensures v.haveHitNonComment
  ensures onlycalls("none")

func (*format.firstPassVisitor).VisitMapField
  requires pvf(v)
  requires element != nil
  modifies fields(v), fields(v.baseVisitor), fields(v.baseVisitor.Printer)
  ensures samef(v)
  ensures v.Syntax == old(v.Syntax) && v.Package == old(v.Package) && v.Options == old(v.Options) && v.Imports == old(v.Imports) && v.filename == old(v.filename) && v.fix == old(v.fix) && v.fileHeader == old(v.fileHeader) && v.javaPackagePrefix == old(v.javaPackagePrefix) && v.csharpNamespaceOption == old(v.csharpNamespaceOption) && v.goPackageOption == old(v.goPackageOption) && v.javaMultipleFilesOption == old(v.javaMultipleFilesOption) && v.javaOuterClassnameOption == old(v.javaOuterClassnameOption) && v.javaPackageOption == old(v.javaPackageOption) && v.objcClassPrefixOption == old(v.objcClassPrefixOption) && v.phpNamespaceOption == old(v.phpNamespaceOption)
  ensures v.haveHitNonComment
  ensures onlycalls("none")

func (*format.firstPassVisitor).VisitGroup
  requires pvf(v)
  requires element != nil
  modifies fields(v), fields(v.baseVisitor), fields(v.baseVisitor.Printer)
  ensures samef(v)
  ensures v.Syntax == old(v.Syntax) && v.Package == old(v.Package) && v.Options == old(v.Options) && v.Imports == old(v.Imports) && v.filename == old(v.filename) && v.fix == old(v.fix) && v.fileHeader == old(v.fileHeader) && v.javaPackagePrefix == old(v.javaPackagePrefix) && v.csharpNamespaceOption == old(v.csharpNamespaceOption) && v.goPackageOption == old(v.goPackageOption) && v.javaMultipleFilesOption == old(v.javaMultipleFilesOption) && v.javaOuterClassnameOption == old(v.javaOuterClassnameOption) && v.javaPackageOption == old(v.javaPackageOption) && v.objcClassPrefixOption == old(v.objcClassPrefixOption) && v.phpNamespaceOption == old(v.phpNamespaceOption)
  ensures v.haveHitNonComment
  ensures onlycalls("none")

func (*format.firstPassVisitor).VisitExtensions
  requires pvf(v)
  requires element != nil
  modifies fields(v), fields(v.baseVisitor), fields(v.baseVisitor.Printer)
  ensures samef(v)
  ensures v.Syntax == old(v.Syntax) && v.Package == old(v.Package) && v.Options == old(v.Options) && v.Imports == old(v.Imports) && v.filename == old(v.filename) && v.fix == old(v.fix) && v.fileHeader == old(v.fileHeader) && v.javaPackagePrefix == old(v.javaPackagePrefix) && v.csharpNamespaceOption == old(v.csharpNamespaceOption) && v.goPackageOption == old(v.goPackageOption) && v.javaMultipleFilesOption == old(v.javaMultipleFilesOption) && v.javaOuterClassnameOption == old(v.javaOuterClassnameOption) && v.javaPackageOption == old(v.javaPackageOption) && v.objcClassPrefixOption == old(v.objcClassPrefixOption) && v.phpNamespaceOption == old(v.phpNamespaceOption)
  ensures v.haveHitNonComment
  ensures onlycalls("none")

func (*format.firstPassVisitor).VisitSyntax
  requires pvf(v)
  requires element != nil
  modifies fields(v), fields(v.baseVisitor), fields(v.baseVisitor.Printer)
  ensures samef(v)
  ensures v.Package == old(v.Package) && v.Options == old(v.Options) && v.Imports == old(v.Imports) && v.filename == old(v.filename) && v.fix == old(v.fix) && v.fileHeader == old(v.fileHeader) && v.javaPackagePrefix == old(v.javaPackagePrefix) && v.csharpNamespaceOption == old(v.csharpNamespaceOption) && v.goPackageOption == old(v.goPackageOption) && v.javaMultipleFilesOption == old(v.javaMultipleFilesOption) && v.javaOuterClassnameOption == old(v.javaOuterClassnameOption) && v.javaPackageOption == old(v.javaPackageOption) && v.objcClassPrefixOption == old(v.objcClassPrefixOption) && v.phpNamespaceOption == old(v.phpNamespaceOption)
  ensures v.haveHitNonComment
  ensures implies(old(v.Syntax == nil), v.Syntax == element)
  ensures implies(old(v.Syntax == nil), onlycalls("none"))
  ensures implies(old(v.Syntax != nil), v.Syntax == old(v.Syntax) && somecall("(*format.baseVisitor).AddFailure", w, p, f, a, w == v.baseVisitor && p == element.Position))

func (*format.firstPassVisitor).VisitPackage
  requires pvf(v)
  requires element != nil
  modifies fields(v), fields(v.baseVisitor), fields(v.baseVisitor.Printer)
  ensures samef(v)
  ensures v.Syntax == old(v.Syntax) && v.Options == old(v.Options) && v.Imports == old(v.Imports) && v.filename == old(v.filename) && v.fix == old(v.fix) && v.fileHeader == old(v.fileHeader) && v.javaPackagePrefix == old(v.javaPackagePrefix) && v.csharpNamespaceOption == old(v.csharpNamespaceOption) && v.goPackageOption == old(v.goPackageOption) && v.javaMultipleFilesOption == old(v.javaMultipleFilesOption) && v.javaOuterClassnameOption == old(v.javaOuterClassnameOption) && v.javaPackageOption == old(v.javaPackageOption) && v.objcClassPrefixOption == old(v.objcClassPrefixOption) && v.phpNamespaceOption == old(v.phpNamespaceOption)
  ensures v.haveHitNonComment
  ensures implies(old(v.Package == nil), v.Package == element)
  ensures implies(old(v.Package == nil), onlycalls("none"))
  ensures implies(old(v.Package != nil), v.Package == old(v.Package) && somecall("(*format.baseVisitor).AddFailure", w, p, f, a, w == v.baseVisitor && p == element.Position))

func (*format.firstPassVisitor).VisitImport
  requires pvf(v)
  requires element != nil
  modifies fields(v), fields(v.baseVisitor), fields(v.baseVisitor.Printer), elems(v.Imports)
  ensures samef(v)
  ensures v.Syntax == old(v.Syntax) && v.Package == old(v.Package) && v.Options == old(v.Options) && v.filename == old(v.filename) && v.fix == old(v.fix) && v.fileHeader == old(v.fileHeader) && v.javaPackagePrefix == old(v.javaPackagePrefix) && v.csharpNamespaceOption == old(v.csharpNamespaceOption) && v.goPackageOption == old(v.goPackageOption) && v.javaMultipleFilesOption == old(v.javaMultipleFilesOption) && v.javaOuterClassnameOption == old(v.javaOuterClassnameOption) && v.javaPackageOption == old(v.javaPackageOption) && v.objcClassPrefixOption == old(v.objcClassPrefixOption) && v.phpNamespaceOption == old(v.phpNamespaceOption)
  ensures v.haveHitNonComment
  ensures onlycalls("none")
  ensures len(v.Imports) == old(len(v.Imports)) + 1 && v.Imports[old(len(v.Imports))] == element && forall(i, int, implies(0 <= i && i < old(len(v.Imports)), v.Imports[i] == old(v.Imports[i])))

func (*format.firstPassVisitor).VisitOption
  requires pvf(v)
  requires element != nil
  modifies fields(v), fields(v.baseVisitor), fields(v.baseVisitor.Printer), elems(v.Options)
  ensures samef(v)
  ensures v.Syntax == old(v.Syntax) && v.Package == old(v.Package) && v.Imports == old(v.Imports) && v.filename == old(v.filename) && v.fix == old(v.fix) && v.fileHeader == old(v.fileHeader) && v.javaPackagePrefix == old(v.javaPackagePrefix)
  ensures v.haveHitNonComment
  ensures onlycalls("none")
  ensures implies(v.fix == 0 || !(element.Name == "csharp_namespace" || element.Name == "go_package" || element.Name == "java_multiple_files" || element.Name == "java_outer_classname" || element.Name == "java_package" || element.Name == "objc_class_prefix" || element.Name == "php_namespace"), len(v.Options) == old(len(v.Options)) + 1 && v.Options[old(len(v.Options))] == element && forall(i, int, implies(0 <= i && i < old(len(v.Options)), v.Options[i] == old(v.Options[i]))))
  ensures implies(v.fix == 0 || !(element.Name == "csharp_namespace" || element.Name == "go_package" || element.Name == "java_multiple_files" || element.Name == "java_outer_classname" || element.Name == "java_package" || element.Name == "objc_class_prefix" || element.Name == "php_namespace"), v.csharpNamespaceOption == old(v.csharpNamespaceOption) && v.goPackageOption == old(v.goPackageOption) && v.javaMultipleFilesOption == old(v.javaMultipleFilesOption) && v.javaOuterClassnameOption == old(v.javaOuterClassnameOption) && v.javaPackageOption == old(v.javaPackageOption) && v.objcClassPrefixOption == old(v.objcClassPrefixOption) && v.phpNamespaceOption == old(v.phpNamespaceOption))
  ensures implies(v.fix != 0 && (element.Name == "csharp_namespace" || element.Name == "go_package" || element.Name == "java_multiple_files" || element.Name == "java_outer_classname" || element.Name == "java_package" || element.Name == "objc_class_prefix" || element.Name == "php_namespace"), v.Options == old(v.Options))
  ensures v.csharpNamespaceOption == ite(v.fix != 0 && element.Name == "csharp_namespace", element, old(v.csharpNamespaceOption))
  ensures v.goPackageOption == ite(v.fix != 0 && element.Name == "go_package", element, old(v.goPackageOption))
  ensures v.javaMultipleFilesOption == ite(v.fix != 0 && element.Name == "java_multiple_files", element, old(v.javaMultipleFilesOption))
  ensures v.javaOuterClassnameOption == ite(v.fix != 0 && element.Name == "java_outer_classname", element, old(v.javaOuterClassnameOption))
  ensures v.javaPackageOption == ite(v.fix != 0 && element.Name == "java_package", element, old(v.javaPackageOption))
  ensures v.objcClassPrefixOption == ite(v.fix != 0 && element.Name == "objc_class_prefix", element, old(v.objcClassPrefixOption))
  ensures v.phpNamespaceOption == ite(v.fix != 0 && element.Name == "php_namespace", element, old(v.phpNamespaceOption))

func (*format.firstPassVisitor).VisitComment
  requires pvf(v)
  requires element != nil
  modifies fields(v), fields(v.baseVisitor), fields(v.baseVisitor.Printer)
  ensures samef(v)
  ensures v.Syntax == old(v.Syntax) && v.Package == old(v.Package) && v.Options == old(v.Options) && v.Imports == old(v.Imports) && v.filename == old(v.filename) && v.fix == old(v.fix) && v.fileHeader == old(v.fileHeader) && v.javaPackagePrefix == old(v.javaPackagePrefix) && v.csharpNamespaceOption == old(v.csharpNamespaceOption) && v.goPackageOption == old(v.goPackageOption) && v.javaMultipleFilesOption == old(v.javaMultipleFilesOption) && v.javaOuterClassnameOption == old(v.javaOuterClassnameOption) && v.javaPackageOption == old(v.javaPackageOption) && v.objcClassPrefixOption == old(v.objcClassPrefixOption) && v.phpNamespaceOption == old(v.phpNamespaceOption)
  ensures v.haveHitNonComment == old(v.haveHitNonComment)
  ensures implies(!old(v.haveHitNonComment) && (v.fix == 0 || v.fileHeader == ""), somecall("(*format.baseVisitor).PComment", w, c, w == v.baseVisitor && c == element))
  ensures implies(!(!old(v.haveHitNonComment) && (v.fix == 0 || v.fileHeader == "")), onlycalls("none"))
  ensures allcalls("(*format.baseVisitor).PComment", w, c, w == v.baseVisitor && c == element)
  ensures allcalls("(*buf.Printer).P", p, a, len(a) == 0)
  ensures onlycalls("(*format.baseVisitor).PComment", "(*buf.Printer).P")

func (*format.firstPassVisitor).PImports
  event
  requires pvf(v)
  requires forall(i, int, implies(0 <= i && i < len(imports), imports[i] != nil))
  modifies elems(imports), fields(v.baseVisitor.Printer)
  ensures samef(v)
  ensures forall(i, int, implies(0 <= i && i < len(imports), somecall("(*format.baseVisitor).PComment", w, c, w == v.baseVisitor && c == old(imports[i]).Comment)))
  ensures forall(i, int, implies(0 <= i && i < len(imports), somecall("(*format.baseVisitor).PWithInlineComment", w, c, a, w == v.baseVisitor && c == old(imports[i]).InlineComment && len(a) == 5 && pitem(a[0]) == "import " && pitem(a[1]) == ite(old(imports[i]).Kind == "", "", old(imports[i]).Kind + " ") && pitem(a[2]) == "\"" && pitem(a[3]) == old(imports[i]).Filename && pitem(a[4]) == "\";")))
  ensures onlycalls("(*format.baseVisitor).PComment", "(*format.baseVisitor).PWithInlineComment")

def pvdo(v *format.firstPassVisitor) bool = pvf(v) && nonnil(v.Options) && forall(i, int, implies(0 <= i && i < len(v.Imports), v.Imports[i] != nil)) && (v.goPackageOption == nil || v.goPackageOption != v.javaMultipleFilesOption) && (v.goPackageOption == nil || v.goPackageOption != v.javaOuterClassnameOption) && (v.goPackageOption == nil || v.goPackageOption != v.javaPackageOption) && (v.goPackageOption == nil || v.goPackageOption != v.csharpNamespaceOption) && (v.goPackageOption == nil || v.goPackageOption != v.objcClassPrefixOption) && (v.goPackageOption == nil || v.goPackageOption != v.phpNamespaceOption) && (v.javaMultipleFilesOption == nil || v.javaMultipleFilesOption != v.javaOuterClassnameOption) && (v.javaMultipleFilesOption == nil || v.javaMultipleFilesOption != v.javaPackageOption) && (v.javaMultipleFilesOption == nil || v.javaMultipleFilesOption != v.csharpNamespaceOption) && (v.javaMultipleFilesOption == nil || v.javaMultipleFilesOption != v.objcClassPrefixOption) && (v.javaMultipleFilesOption == nil || v.javaMultipleFilesOption != v.phpNamespaceOption) && (v.javaOuterClassnameOption == nil || v.javaOuterClassnameOption != v.javaPackageOption) && (v.javaOuterClassnameOption == nil || v.javaOuterClassnameOption != v.csharpNamespaceOption) && (v.javaOuterClassnameOption == nil || v.javaOuterClassnameOption != v.objcClassPrefixOption) && (v.javaOuterClassnameOption == nil || v.javaOuterClassnameOption != v.phpNamespaceOption) && (v.javaPackageOption == nil || v.javaPackageOption != v.csharpNamespaceOption) && (v.javaPackageOption == nil || v.javaPackageOption != v.objcClassPrefixOption) && (v.javaPackageOption == nil || v.javaPackageOption != v.phpNamespaceOption) && (v.csharpNamespaceOption == nil || v.csharpNamespaceOption != v.objcClassPrefixOption) && (v.csharpNamespaceOption == nil || v.csharpNamespaceOption != v.phpNamespaceOption) && (v.objcClassPrefixOption == nil || v.objcClassPrefixOption != v.phpNamespaceOption)
func (*format.firstPassVisitor).Do
  event
  requires pvdo(v)
  modifies fields(v), fields(v.baseVisitor), fields(v.baseVisitor.Printer), elems(v.Options), elems(v.Imports), fields(v.goPackageOption), fields(v.javaMultipleFilesOption), fields(v.javaOuterClassnameOption), fields(v.javaPackageOption), fields(v.csharpNamespaceOption), fields(v.objcClassPrefixOption), fields(v.phpNamespaceOption)
  loop 0 invariant samef(v) && v.Imports == old(v.Imports)
  loop 0 invariant nonnil(v.Options) && len(v.Options) >= old(len(v.Options))
  ensures samef(v)
  ensures v.Syntax == old(v.Syntax) && v.Package == old(v.Package)

func (*format.firstPassVisitor).Do variant prints
  requires pvdo(v)
  modifies fields(v), fields(v.baseVisitor), fields(v.baseVisitor.Printer), elems(v.Options), elems(v.Imports), fields(v.goPackageOption), fields(v.javaMultipleFilesOption), fields(v.javaOuterClassnameOption), fields(v.javaPackageOption), fields(v.csharpNamespaceOption), fields(v.objcClassPrefixOption), fields(v.phpNamespaceOption)
  loop 0 invariant samef(v) && v.Imports == old(v.Imports)
  loop 0 invariant nonnil(v.Options) && len(v.Options) >= old(len(v.Options))
  loop 0 invariant forall(i, int, implies(0 <= i && i < old(len(v.Options)), v.Options[i] == old(v.Options[i])))
  loop 0 invariant implies(rangeindex >= 0 && v.goPackageOption != nil, contains(v.Options, v.goPackageOption))
  loop 0 invariant implies(rangeindex >= 1 && v.javaMultipleFilesOption != nil, contains(v.Options, v.javaMultipleFilesOption))
  loop 0 invariant implies(rangeindex >= 2 && v.javaOuterClassnameOption != nil, contains(v.Options, v.javaOuterClassnameOption))
  loop 0 invariant implies(rangeindex >= 3 && v.javaPackageOption != nil, contains(v.Options, v.javaPackageOption))
  loop 0 invariant implies(rangeindex >= 4 && v.csharpNamespaceOption != nil, contains(v.Options, v.csharpNamespaceOption))
  loop 0 invariant implies(rangeindex >= 5 && v.objcClassPrefixOption != nil, contains(v.Options, v.objcClassPrefixOption))
  loop 0 invariant implies(rangeindex >= 6 && v.phpNamespaceOption != nil, contains(v.Options, v.phpNamespaceOption))
  ensures implies(v.fix != 0 && v.fileHeader != "", somecall("(*buf.Printer).P", p, a, len(a) == 1 && pitem(a[0]) == v.fileHeader))
  ensures implies(v.Syntax != nil, somecall("(*format.baseVisitor).PWithInlineComment", w, c, a, w == v.baseVisitor && c == v.Syntax.InlineComment && len(a) == 3 && pitem(a[0]) == "syntax = \"" && pitem(a[1]) == v.Syntax.Value && pitem(a[2]) == "\";"))
  ensures implies(v.Syntax != nil && v.Syntax.Comment != nil && (v.fix == 0 || v.fileHeader == ""), somecall("(*format.baseVisitor).PComment", w, c, w == v.baseVisitor && c == v.Syntax.Comment))
  ensures implies(v.Package != nil, somecall("(*format.baseVisitor).PComment", w, c, w == v.baseVisitor && c == v.Package.Comment))
  ensures implies(v.Package != nil, somecall("(*format.baseVisitor).PWithInlineComment", w, c, a, w == v.baseVisitor && c == v.Package.InlineComment && len(a) == 3 && pitem(a[0]) == "package " && pitem(a[1]) == v.Package.Name && pitem(a[2]) == ";"))
  ensures forall(i, int, implies(0 <= i && i < old(len(v.Options)) && format.hasContent(old(v.Options[i]).Constant), somecall("(*format.baseVisitor).POptions", w, o, w == v.baseVisitor && contains(o, old(v.Options[i])))))
  ensures implies(v.goPackageOption != nil && format.hasContent(v.goPackageOption.Constant), somecall("(*format.baseVisitor).POptions", w, o, w == v.baseVisitor && contains(o, v.goPackageOption)))
  ensures implies(old(v.goPackageOption) != nil, v.goPackageOption == old(v.goPackageOption))
  ensures implies(v.javaMultipleFilesOption != nil && format.hasContent(v.javaMultipleFilesOption.Constant), somecall("(*format.baseVisitor).POptions", w, o, w == v.baseVisitor && contains(o, v.javaMultipleFilesOption)))
  ensures implies(old(v.javaMultipleFilesOption) != nil, v.javaMultipleFilesOption == old(v.javaMultipleFilesOption))
  ensures implies(v.javaOuterClassnameOption != nil && format.hasContent(v.javaOuterClassnameOption.Constant), somecall("(*format.baseVisitor).POptions", w, o, w == v.baseVisitor && contains(o, v.javaOuterClassnameOption)))
  ensures implies(old(v.javaOuterClassnameOption) != nil, v.javaOuterClassnameOption == old(v.javaOuterClassnameOption))
  ensures implies(v.javaPackageOption != nil && format.hasContent(v.javaPackageOption.Constant), somecall("(*format.baseVisitor).POptions", w, o, w == v.baseVisitor && contains(o, v.javaPackageOption)))
  ensures implies(old(v.javaPackageOption) != nil, v.javaPackageOption == old(v.javaPackageOption))
  ensures implies(v.csharpNamespaceOption != nil && format.hasContent(v.csharpNamespaceOption.Constant), somecall("(*format.baseVisitor).POptions", w, o, w == v.baseVisitor && contains(o, v.csharpNamespaceOption)))
  ensures implies(old(v.csharpNamespaceOption) != nil, v.csharpNamespaceOption == old(v.csharpNamespaceOption))
  ensures implies(v.objcClassPrefixOption != nil && format.hasContent(v.objcClassPrefixOption.Constant), somecall("(*format.baseVisitor).POptions", w, o, w == v.baseVisitor && contains(o, v.objcClassPrefixOption)))
  ensures implies(old(v.objcClassPrefixOption) != nil, v.objcClassPrefixOption == old(v.objcClassPrefixOption))
  ensures implies(v.phpNamespaceOption != nil && format.hasContent(v.phpNamespaceOption.Constant), somecall("(*format.baseVisitor).POptions", w, o, w == v.baseVisitor && contains(o, v.phpNamespaceOption)))
  ensures implies(old(v.phpNamespaceOption) != nil, v.phpNamespaceOption == old(v.phpNamespaceOption))
  ensures implies(len(v.Imports) > 0, somecall("(*format.firstPassVisitor).PImports", w, i, w == v && i == old(v.Imports)))

func (*format.firstPassVisitor).Do variant fixv1
  requires pvdo(v)
  modifies fields(v), fields(v.baseVisitor), fields(v.baseVisitor.Printer), elems(v.Options), elems(v.Imports), fields(v.goPackageOption), fields(v.javaMultipleFilesOption), fields(v.javaOuterClassnameOption), fields(v.javaPackageOption), fields(v.csharpNamespaceOption), fields(v.objcClassPrefixOption), fields(v.phpNamespaceOption)
  loop 0 invariant samef(v) && v.Imports == old(v.Imports)
  loop 0 invariant nonnil(v.Options) && len(v.Options) >= old(len(v.Options))
  requires v.fix == 1 && v.Package != nil
  ensures v.goPackageOption != nil && v.goPackageOption.Constant.Source == protostrs.GoPackage(v.Package.Name) && v.goPackageOption.Constant.IsString == true && len(v.goPackageOption.Constant.Array) == 0 && len(v.goPackageOption.Constant.OrderedMap) == 0 && implies(old(v.goPackageOption) == nil, v.goPackageOption.Name == "go_package")
  ensures v.javaMultipleFilesOption != nil && v.javaMultipleFilesOption.Constant.Source == "true" && v.javaMultipleFilesOption.Constant.IsString == false && len(v.javaMultipleFilesOption.Constant.Array) == 0 && len(v.javaMultipleFilesOption.Constant.OrderedMap) == 0 && implies(old(v.javaMultipleFilesOption) == nil, v.javaMultipleFilesOption.Name == "java_multiple_files")
  ensures v.javaOuterClassnameOption != nil && v.javaOuterClassnameOption.Constant.Source == protostrs.JavaOuterClassname(v.filename) && v.javaOuterClassnameOption.Constant.IsString == true && len(v.javaOuterClassnameOption.Constant.Array) == 0 && len(v.javaOuterClassnameOption.Constant.OrderedMap) == 0 && implies(old(v.javaOuterClassnameOption) == nil, v.javaOuterClassnameOption.Name == "java_outer_classname")
  ensures v.javaPackageOption != nil && v.javaPackageOption.Constant.Source == protostrs.JavaPackagePrefixOverride(v.Package.Name, v.javaPackagePrefix) && v.javaPackageOption.Constant.IsString == true && len(v.javaPackageOption.Constant.Array) == 0 && len(v.javaPackageOption.Constant.OrderedMap) == 0 && implies(old(v.javaPackageOption) == nil, v.javaPackageOption.Name == "java_package")

func (*format.firstPassVisitor).Do variant fixv2new
  requires pvdo(v)
  modifies fields(v), fields(v.baseVisitor), fields(v.baseVisitor.Printer), elems(v.Options), elems(v.Imports), fields(v.goPackageOption), fields(v.javaMultipleFilesOption), fields(v.javaOuterClassnameOption), fields(v.javaPackageOption), fields(v.csharpNamespaceOption), fields(v.objcClassPrefixOption), fields(v.phpNamespaceOption)
  loop 0 invariant samef(v) && v.Imports == old(v.Imports)
  loop 0 invariant nonnil(v.Options) && len(v.Options) >= old(len(v.Options))
  requires v.fix == 2 && v.Package != nil
  requires v.goPackageOption == nil
  requires v.javaMultipleFilesOption == nil
  requires v.javaOuterClassnameOption == nil
  requires v.javaPackageOption == nil
  requires v.csharpNamespaceOption == nil
  requires v.objcClassPrefixOption == nil
  requires v.phpNamespaceOption == nil
  ensures v.goPackageOption != nil && v.goPackageOption.Constant.Source == protostrs.GoPackageV2(v.Package.Name) && v.goPackageOption.Constant.IsString == true && len(v.goPackageOption.Constant.Array) == 0 && len(v.goPackageOption.Constant.OrderedMap) == 0 && implies(old(v.goPackageOption) == nil, v.goPackageOption.Name == "go_package")
  ensures v.javaMultipleFilesOption != nil && v.javaMultipleFilesOption.Constant.Source == "true" && v.javaMultipleFilesOption.Constant.IsString == false && len(v.javaMultipleFilesOption.Constant.Array) == 0 && len(v.javaMultipleFilesOption.Constant.OrderedMap) == 0 && implies(old(v.javaMultipleFilesOption) == nil, v.javaMultipleFilesOption.Name == "java_multiple_files")
  ensures v.javaOuterClassnameOption != nil && v.javaOuterClassnameOption.Constant.Source == protostrs.JavaOuterClassname(v.filename) && v.javaOuterClassnameOption.Constant.IsString == true && len(v.javaOuterClassnameOption.Constant.Array) == 0 && len(v.javaOuterClassnameOption.Constant.OrderedMap) == 0 && implies(old(v.javaOuterClassnameOption) == nil, v.javaOuterClassnameOption.Name == "java_outer_classname")
  ensures v.javaPackageOption != nil && v.javaPackageOption.Constant.Source == protostrs.JavaPackagePrefixOverride(v.Package.Name, v.javaPackagePrefix) && v.javaPackageOption.Constant.IsString == true && len(v.javaPackageOption.Constant.Array) == 0 && len(v.javaPackageOption.Constant.OrderedMap) == 0 && implies(old(v.javaPackageOption) == nil, v.javaPackageOption.Name == "java_package")
  ensures v.csharpNamespaceOption != nil && v.csharpNamespaceOption.Constant.Source == protostrs.CSharpNamespace(v.Package.Name) && v.csharpNamespaceOption.Constant.IsString == true && len(v.csharpNamespaceOption.Constant.Array) == 0 && len(v.csharpNamespaceOption.Constant.OrderedMap) == 0 && implies(old(v.csharpNamespaceOption) == nil, v.csharpNamespaceOption.Name == "csharp_namespace")
  ensures v.objcClassPrefixOption != nil && v.objcClassPrefixOption.Constant.Source == protostrs.OBJCClassPrefix(v.Package.Name) && v.objcClassPrefixOption.Constant.IsString == true && len(v.objcClassPrefixOption.Constant.Array) == 0 && len(v.objcClassPrefixOption.Constant.OrderedMap) == 0 && implies(old(v.objcClassPrefixOption) == nil, v.objcClassPrefixOption.Name == "objc_class_prefix")
  ensures v.phpNamespaceOption != nil && v.phpNamespaceOption.Constant.Source == protostrs.PHPNamespace(v.Package.Name) && v.phpNamespaceOption.Constant.IsString == true && len(v.phpNamespaceOption.Constant.Array) == 0 && len(v.phpNamespaceOption.Constant.OrderedMap) == 0 && implies(old(v.phpNamespaceOption) == nil, v.phpNamespaceOption.Name == "php_namespace")

func (*format.firstPassVisitor).Do variant fixv2given
  requires pvdo(v)
  modifies fields(v), fields(v.baseVisitor), fields(v.baseVisitor.Printer), elems(v.Options), elems(v.Imports), fields(v.goPackageOption), fields(v.javaMultipleFilesOption), fields(v.javaOuterClassnameOption), fields(v.javaPackageOption), fields(v.csharpNamespaceOption), fields(v.objcClassPrefixOption), fields(v.phpNamespaceOption)
  loop 0 invariant samef(v) && v.Imports == old(v.Imports)
  loop 0 invariant nonnil(v.Options) && len(v.Options) >= old(len(v.Options))
  requires v.fix == 2 && v.Package != nil
  requires v.goPackageOption != nil
  requires v.javaMultipleFilesOption != nil
  requires v.javaOuterClassnameOption != nil
  requires v.javaPackageOption != nil
  requires v.csharpNamespaceOption != nil
  requires v.objcClassPrefixOption != nil
  requires v.phpNamespaceOption != nil
  ensures v.goPackageOption != nil && v.goPackageOption.Constant.Source == protostrs.GoPackageV2(v.Package.Name) && v.goPackageOption.Constant.IsString == true && len(v.goPackageOption.Constant.Array) == 0 && len(v.goPackageOption.Constant.OrderedMap) == 0
  ensures v.javaMultipleFilesOption != nil && v.javaMultipleFilesOption.Constant.Source == "true" && v.javaMultipleFilesOption.Constant.IsString == false && len(v.javaMultipleFilesOption.Constant.Array) == 0 && len(v.javaMultipleFilesOption.Constant.OrderedMap) == 0
  ensures v.javaOuterClassnameOption != nil && v.javaOuterClassnameOption.Constant.Source == protostrs.JavaOuterClassname(v.filename) && v.javaOuterClassnameOption.Constant.IsString == true && len(v.javaOuterClassnameOption.Constant.Array) == 0 && len(v.javaOuterClassnameOption.Constant.OrderedMap) == 0
  ensures v.javaPackageOption != nil && v.javaPackageOption.Constant.Source == protostrs.JavaPackagePrefixOverride(v.Package.Name, v.javaPackagePrefix) && v.javaPackageOption.Constant.IsString == true && len(v.javaPackageOption.Constant.Array) == 0 && len(v.javaPackageOption.Constant.OrderedMap) == 0
  ensures v.csharpNamespaceOption != nil && v.csharpNamespaceOption.Constant.Source == protostrs.CSharpNamespace(v.Package.Name) && v.csharpNamespaceOption.Constant.IsString == true && len(v.csharpNamespaceOption.Constant.Array) == 0 && len(v.csharpNamespaceOption.Constant.OrderedMap) == 0
  ensures v.objcClassPrefixOption != nil && v.objcClassPrefixOption.Constant.Source == protostrs.OBJCClassPrefix(v.Package.Name) && v.objcClassPrefixOption.Constant.IsString == true && len(v.objcClassPrefixOption.Constant.Array) == 0 && len(v.objcClassPrefixOption.Constant.OrderedMap) == 0
  ensures v.phpNamespaceOption != nil && v.phpNamespaceOption.Constant.Source == protostrs.PHPNamespace(v.Package.Name) && v.phpNamespaceOption.Constant.IsString == true && len(v.phpNamespaceOption.Constant.Array) == 0 && len(v.phpNamespaceOption.Constant.OrderedMap) == 0
