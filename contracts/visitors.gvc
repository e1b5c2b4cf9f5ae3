// Generated by tools/genvisitors.py. The visitors of the lint rules (C17):
// what each of them flags, where, and that everything declared inside of a
// node is visited.
package github.com/uber/prototool/internal/lint
props C17
extern (proto.Visitee).Accept event
extern (*proto.Option).Accept event
extern (lint.extendedVisitor).OnStart pureevent
extern (lint.extendedVisitor).Finally pureevent
extern unicode.IsUpper pure
extern strings.HasSuffix pure
extern strings.Trim pure
extern strings.Title pure
extern unicode.IsDigit pure
extern utf8.DecodeRuneInString pure
def at(f *text.Failure, p scanner.Position) bool = f.Line == p.Line && f.Column == p.Column && f.Filename == p.Filename
def atFile(f *text.Failure, name string) bool = f.Filename == name

func lint.hasGolangStyleComment
  pure
  ensures result == (comment != nil && len(comment.Lines) > 0 && strings.HasPrefix(comment.Lines[0], fmt.Sprintf(" %s ", name)))

func lint.commentStartsWithUppercaseLetter
  pure
  ensures result == (comment != nil && len(comment.Lines) > 0 && strings.TrimSpace(comment.Lines[0]) != "" && (unicode.IsUpper(tup(utf8.DecodeRuneInString(strings.TrimSpace(comment.Lines[0])), 0)) || unicode.IsDigit(tup(utf8.DecodeRuneInString(strings.TrimSpace(comment.Lines[0])), 0))))

func lint.commentContainsPeriod
  pure
  loop 0 invariant forall(i, int, implies(0 <= i && i <= rangeindex, !strings.Contains(comment.Lines[i], ".")))
  ensures result == (comment != nil && exists(i, int, 0 <= i && i < len(comment.Lines) && strings.Contains(comment.Lines[i], ".")))

func lint.hasCompleteSentenceComment
  pure
  ensures result == (commentStartsWithUppercaseLetter(comment) && commentContainsPeriod(comment))

func lint.runVisitor
  loop 0 invariant true
  loop 1 invariant true
  ensures implies(err == nil, forall(d, int, i, int, implies(0 <= d && d < len(descriptors) && 0 <= i && i < len(descriptors[d].Elements), somecall("(proto.Visitee).Accept", c, w, c == descriptors[d].Elements[i] && w == visitor))))
  ensures implies(err == nil, forall(d, int, implies(0 <= d && d < len(descriptors), somecall("(lint.extendedVisitor).OnStart", w, x, x == descriptors[d] && w == visitor))))
  ensures implies(err == nil && len(descriptors) > 0, somecall("(lint.extendedVisitor).Finally", w, w == visitor))

func (lint.commentsNoCStyleVisitor).VisitMessage
  nopanic
  requires element != nil
  requires forall(i, int, implies(0 <= i && i < len(element.Elements), element.Elements[i] != nil))
  ensures allcalls(v.add, f, element.Comment != nil && element.Comment.Cstyle && at(f, element.Position))
  ensures implies(element.Comment != nil && element.Comment.Cstyle, somecall(v.add, f, at(f, element.Position)))
  ensures forall(i, int, implies(0 <= i && i < len(element.Elements), somecall("(proto.Visitee).Accept", c, w, c == element.Elements[i])))

func (lint.commentsNoCStyleVisitor).VisitService
  nopanic
  requires element != nil
  requires forall(i, int, implies(0 <= i && i < len(element.Elements), element.Elements[i] != nil))
  ensures allcalls(v.add, f, element.Comment != nil && element.Comment.Cstyle && at(f, element.Position))
  ensures implies(element.Comment != nil && element.Comment.Cstyle, somecall(v.add, f, at(f, element.Position)))
  ensures forall(i, int, implies(0 <= i && i < len(element.Elements), somecall("(proto.Visitee).Accept", c, w, c == element.Elements[i])))

func (lint.commentsNoCStyleVisitor).VisitEnum
  nopanic
  requires element != nil
  requires forall(i, int, implies(0 <= i && i < len(element.Elements), element.Elements[i] != nil))
  ensures allcalls(v.add, f, element.Comment != nil && element.Comment.Cstyle && at(f, element.Position))
  ensures implies(element.Comment != nil && element.Comment.Cstyle, somecall(v.add, f, at(f, element.Position)))
  ensures forall(i, int, implies(0 <= i && i < len(element.Elements), somecall("(proto.Visitee).Accept", c, w, c == element.Elements[i])))

func (lint.commentsNoCStyleVisitor).VisitOneof
  nopanic
  requires element != nil
  requires forall(i, int, implies(0 <= i && i < len(element.Elements), element.Elements[i] != nil))
  ensures allcalls(v.add, f, element.Comment != nil && element.Comment.Cstyle && at(f, element.Position))
  ensures implies(element.Comment != nil && element.Comment.Cstyle, somecall(v.add, f, at(f, element.Position)))
  ensures forall(i, int, implies(0 <= i && i < len(element.Elements), somecall("(proto.Visitee).Accept", c, w, c == element.Elements[i])))

func (lint.commentsNoCStyleVisitor).VisitGroup
  nopanic
  requires element != nil
  requires forall(i, int, implies(0 <= i && i < len(element.Elements), element.Elements[i] != nil))
  ensures allcalls(v.add, f, element.Comment != nil && element.Comment.Cstyle && at(f, element.Position))
  ensures implies(element.Comment != nil && element.Comment.Cstyle, somecall(v.add, f, at(f, element.Position)))
  ensures forall(i, int, implies(0 <= i && i < len(element.Elements), somecall("(proto.Visitee).Accept", c, w, c == element.Elements[i])))

func (lint.commentsNoCStyleVisitor).VisitSyntax
  nopanic
  requires element != nil
  ensures allcalls(v.add, f, (((element.Comment != nil && element.Comment.Cstyle) || (element.InlineComment != nil && element.InlineComment.Cstyle))) && at(f, element.Position))
  ensures implies(((element.Comment != nil && element.Comment.Cstyle) || (element.InlineComment != nil && element.InlineComment.Cstyle)), somecall(v.add, f, at(f, element.Position)))

func (lint.commentsNoCStyleVisitor).VisitPackage
  nopanic
  requires element != nil
  ensures allcalls(v.add, f, (((element.Comment != nil && element.Comment.Cstyle) || (element.InlineComment != nil && element.InlineComment.Cstyle))) && at(f, element.Position))
  ensures implies(((element.Comment != nil && element.Comment.Cstyle) || (element.InlineComment != nil && element.InlineComment.Cstyle)), somecall(v.add, f, at(f, element.Position)))

func (lint.commentsNoCStyleVisitor).VisitOption
  nopanic
  requires element != nil
  ensures allcalls(v.add, f, (((element.Comment != nil && element.Comment.Cstyle) || (element.InlineComment != nil && element.InlineComment.Cstyle))) && at(f, element.Position))
  ensures implies(((element.Comment != nil && element.Comment.Cstyle) || (element.InlineComment != nil && element.InlineComment.Cstyle)), somecall(v.add, f, at(f, element.Position)))

func (lint.commentsNoCStyleVisitor).VisitImport
  nopanic
  requires element != nil
  ensures allcalls(v.add, f, (((element.Comment != nil && element.Comment.Cstyle) || (element.InlineComment != nil && element.InlineComment.Cstyle))) && at(f, element.Position))
  ensures implies(((element.Comment != nil && element.Comment.Cstyle) || (element.InlineComment != nil && element.InlineComment.Cstyle)), somecall(v.add, f, at(f, element.Position)))

func (lint.commentsNoCStyleVisitor).VisitReserved
  nopanic
  requires element != nil
  ensures allcalls(v.add, f, (((element.Comment != nil && element.Comment.Cstyle) || (element.InlineComment != nil && element.InlineComment.Cstyle))) && at(f, element.Position))
  ensures implies(((element.Comment != nil && element.Comment.Cstyle) || (element.InlineComment != nil && element.InlineComment.Cstyle)), somecall(v.add, f, at(f, element.Position)))

func (lint.commentsNoCStyleVisitor).VisitExtensions
  nopanic
  requires element != nil
  ensures allcalls(v.add, f, (((element.Comment != nil && element.Comment.Cstyle) || (element.InlineComment != nil && element.InlineComment.Cstyle))) && at(f, element.Position))
  ensures implies(((element.Comment != nil && element.Comment.Cstyle) || (element.InlineComment != nil && element.InlineComment.Cstyle)), somecall(v.add, f, at(f, element.Position)))

func (lint.commentsNoCStyleVisitor).VisitNormalField
  nopanic
  requires element != nil
  requires element.Field != nil
  requires forall(i, int, implies(0 <= i && i < len(element.Options), element.Options[i] != nil))
  ensures allcalls(v.add, f, (((element.Comment != nil && element.Comment.Cstyle) || (element.InlineComment != nil && element.InlineComment.Cstyle))) && at(f, element.Position))
  ensures implies(((element.Comment != nil && element.Comment.Cstyle) || (element.InlineComment != nil && element.InlineComment.Cstyle)), somecall(v.add, f, at(f, element.Position)))
  ensures forall(i, int, implies(0 <= i && i < len(element.Options), somecall("(*proto.Option).Accept", c, w, c == element.Options[i])))

func (lint.commentsNoCStyleVisitor).VisitOneofField
  nopanic
  requires element != nil
  requires element.Field != nil
  requires forall(i, int, implies(0 <= i && i < len(element.Options), element.Options[i] != nil))
  ensures allcalls(v.add, f, (((element.Comment != nil && element.Comment.Cstyle) || (element.InlineComment != nil && element.InlineComment.Cstyle))) && at(f, element.Position))
  ensures implies(((element.Comment != nil && element.Comment.Cstyle) || (element.InlineComment != nil && element.InlineComment.Cstyle)), somecall(v.add, f, at(f, element.Position)))
  ensures forall(i, int, implies(0 <= i && i < len(element.Options), somecall("(*proto.Option).Accept", c, w, c == element.Options[i])))

func (lint.commentsNoCStyleVisitor).VisitMapField
  nopanic
  requires element != nil
  requires element.Field != nil
  requires forall(i, int, implies(0 <= i && i < len(element.Options), element.Options[i] != nil))
  ensures allcalls(v.add, f, (((element.Comment != nil && element.Comment.Cstyle) || (element.InlineComment != nil && element.InlineComment.Cstyle))) && at(f, element.Position))
  ensures implies(((element.Comment != nil && element.Comment.Cstyle) || (element.InlineComment != nil && element.InlineComment.Cstyle)), somecall(v.add, f, at(f, element.Position)))
  ensures forall(i, int, implies(0 <= i && i < len(element.Options), somecall("(*proto.Option).Accept", c, w, c == element.Options[i])))

func (lint.commentsNoCStyleVisitor).VisitEnumField
  nopanic
  requires element != nil
  requires forall(i, int, implies(0 <= i && i < len(element.Elements), element.Elements[i] != nil))
  ensures allcalls(v.add, f, (((element.Comment != nil && element.Comment.Cstyle) || (element.InlineComment != nil && element.InlineComment.Cstyle))) && at(f, element.Position))
  ensures implies(((element.Comment != nil && element.Comment.Cstyle) || (element.InlineComment != nil && element.InlineComment.Cstyle)), somecall(v.add, f, at(f, element.Position)))
  ensures forall(i, int, implies(0 <= i && i < len(element.Elements), somecall("(proto.Visitee).Accept", c, w, c == element.Elements[i])))

func (lint.commentsNoCStyleVisitor).VisitRPC
  nopanic
  requires element != nil
  requires forall(i, int, implies(0 <= i && i < len(element.Elements), element.Elements[i] != nil))
  ensures allcalls(v.add, f, (((element.Comment != nil && element.Comment.Cstyle) || (element.InlineComment != nil && element.InlineComment.Cstyle))) && at(f, element.Position))
  ensures implies(((element.Comment != nil && element.Comment.Cstyle) || (element.InlineComment != nil && element.InlineComment.Cstyle)), somecall(v.add, f, at(f, element.Position)))
  ensures forall(i, int, implies(0 <= i && i < len(element.Elements), somecall("(proto.Visitee).Accept", c, w, c == element.Elements[i])))

func (lint.commentsNoCStyleVisitor).VisitComment
  nopanic
  requires element != nil
  ensures allcalls(v.add, f, element.Cstyle && at(f, element.Position))
  ensures implies(element.Cstyle, somecall(v.add, f, at(f, element.Position)))

func (lint.commentsNoInlineVisitor).VisitSyntax
  nopanic
  requires element != nil
  ensures allcalls(v.add, f, element.InlineComment != nil && at(f, element.InlineComment.Position))
  ensures implies(element.InlineComment != nil, somecall(v.add, f, at(f, element.InlineComment.Position)))

func (lint.commentsNoInlineVisitor).VisitPackage
  nopanic
  requires element != nil
  ensures allcalls(v.add, f, element.InlineComment != nil && at(f, element.InlineComment.Position))
  ensures implies(element.InlineComment != nil, somecall(v.add, f, at(f, element.InlineComment.Position)))

func (lint.commentsNoInlineVisitor).VisitOption
  nopanic
  requires element != nil
  ensures allcalls(v.add, f, element.InlineComment != nil && at(f, element.InlineComment.Position))
  ensures implies(element.InlineComment != nil, somecall(v.add, f, at(f, element.InlineComment.Position)))

func (lint.commentsNoInlineVisitor).VisitImport
  nopanic
  requires element != nil
  ensures allcalls(v.add, f, element.InlineComment != nil && at(f, element.InlineComment.Position))
  ensures implies(element.InlineComment != nil, somecall(v.add, f, at(f, element.InlineComment.Position)))

func (lint.commentsNoInlineVisitor).VisitReserved
  nopanic
  requires element != nil
  ensures allcalls(v.add, f, element.InlineComment != nil && at(f, element.InlineComment.Position))
  ensures implies(element.InlineComment != nil, somecall(v.add, f, at(f, element.InlineComment.Position)))

func (lint.commentsNoInlineVisitor).VisitExtensions
  nopanic
  requires element != nil
  ensures allcalls(v.add, f, element.InlineComment != nil && at(f, element.InlineComment.Position))
  ensures implies(element.InlineComment != nil, somecall(v.add, f, at(f, element.InlineComment.Position)))

func (lint.commentsNoInlineVisitor).VisitNormalField
  nopanic
  requires element != nil
  requires element.Field != nil
  requires forall(i, int, implies(0 <= i && i < len(element.Options), element.Options[i] != nil))
  ensures allcalls(v.add, f, element.InlineComment != nil && at(f, element.InlineComment.Position))
  ensures implies(element.InlineComment != nil, somecall(v.add, f, at(f, element.InlineComment.Position)))
  ensures forall(i, int, implies(0 <= i && i < len(element.Options), somecall("(*proto.Option).Accept", c, w, c == element.Options[i])))

func (lint.commentsNoInlineVisitor).VisitOneofField
  nopanic
  requires element != nil
  requires element.Field != nil
  requires forall(i, int, implies(0 <= i && i < len(element.Options), element.Options[i] != nil))
  ensures allcalls(v.add, f, element.InlineComment != nil && at(f, element.InlineComment.Position))
  ensures implies(element.InlineComment != nil, somecall(v.add, f, at(f, element.InlineComment.Position)))
  ensures forall(i, int, implies(0 <= i && i < len(element.Options), somecall("(*proto.Option).Accept", c, w, c == element.Options[i])))

func (lint.commentsNoInlineVisitor).VisitMapField
  nopanic
  requires element != nil
  requires element.Field != nil
  requires forall(i, int, implies(0 <= i && i < len(element.Options), element.Options[i] != nil))
  ensures allcalls(v.add, f, element.InlineComment != nil && at(f, element.InlineComment.Position))
  ensures implies(element.InlineComment != nil, somecall(v.add, f, at(f, element.InlineComment.Position)))
  ensures forall(i, int, implies(0 <= i && i < len(element.Options), somecall("(*proto.Option).Accept", c, w, c == element.Options[i])))

func (lint.commentsNoInlineVisitor).VisitEnumField
  nopanic
  requires element != nil
  requires forall(i, int, implies(0 <= i && i < len(element.Elements), element.Elements[i] != nil))
  ensures allcalls(v.add, f, element.InlineComment != nil && at(f, element.InlineComment.Position))
  ensures implies(element.InlineComment != nil, somecall(v.add, f, at(f, element.InlineComment.Position)))
  ensures forall(i, int, implies(0 <= i && i < len(element.Elements), somecall("(proto.Visitee).Accept", c, w, c == element.Elements[i])))

func (lint.commentsNoInlineVisitor).VisitRPC
  nopanic
  requires element != nil
  requires forall(i, int, implies(0 <= i && i < len(element.Elements), element.Elements[i] != nil))
  ensures allcalls(v.add, f, element.InlineComment != nil && at(f, element.InlineComment.Position))
  ensures implies(element.InlineComment != nil, somecall(v.add, f, at(f, element.InlineComment.Position)))
  ensures forall(i, int, implies(0 <= i && i < len(element.Elements), somecall("(proto.Visitee).Accept", c, w, c == element.Elements[i])))

func (lint.enumFieldNamesUpperSnakeCaseVisitor).VisitEnumField
  nopanic
  requires field != nil
  ensures allcalls(v.add, f, !strs.IsUpperSnakeCase(field.Name) && at(f, field.Position))
  ensures implies(!strs.IsUpperSnakeCase(field.Name), somecall(v.add, f, at(f, field.Position)))

func (lint.enumFieldNamesUppercaseVisitor).VisitEnumField
  nopanic
  requires field != nil
  ensures allcalls(v.add, f, !strs.IsUppercase(field.Name) && at(f, field.Position))
  ensures implies(!strs.IsUppercase(field.Name), somecall(v.add, f, at(f, field.Position)))

func (lint.enumFieldsHaveCommentsVisitor).VisitEnumField
  nopanic
  requires enumField != nil
  ensures allcalls(v.add, f, !hasGolangStyleComment(enumField.Comment, enumField.Name) && at(f, enumField.Position))
  ensures implies(!hasGolangStyleComment(enumField.Comment, enumField.Name), somecall(v.add, f, at(f, enumField.Position)))

func (lint.enumFieldsHaveSentenceCommentsVisitor).VisitEnumField
  nopanic
  requires enumField != nil
  ensures allcalls(v.add, f, !hasCompleteSentenceComment(enumField.Comment) && at(f, enumField.Position))
  ensures implies(!hasCompleteSentenceComment(enumField.Comment), somecall(v.add, f, at(f, enumField.Position)))

func (*lint.enumFieldPrefixesVisitor).VisitEnumField
  nopanic
  requires enumField != nil
  requires v != nil
  modifies *
  ensures allcalls(v.add, f, !strings.HasPrefix(enumField.Name, strings.Join(v.nestedNames, "_") + "_") && at(f, enumField.Position))
  ensures implies(!strings.HasPrefix(enumField.Name, strings.Join(v.nestedNames, "_") + "_"), somecall(v.add, f, at(f, enumField.Position)))

func (*lint.enumFieldPrefixesExceptMessageVisitor).VisitEnumField
  nopanic
  requires enumField != nil
  requires v != nil
  modifies *
  requires enumField.Parent != nil
  requires typeis(enumField.Parent, *proto.Enum)
  requires as(enumField.Parent, *proto.Enum) != nil
  ensures allcalls(v.add, f, !strings.HasPrefix(enumField.Name, strs.ToUpperSnakeCase(as(enumField.Parent, *proto.Enum).Name) + "_") && at(f, enumField.Position))
  ensures implies(!strings.HasPrefix(enumField.Name, strs.ToUpperSnakeCase(as(enumField.Parent, *proto.Enum).Name) + "_"), somecall(v.add, f, at(f, enumField.Position)))

func (*lint.enumZeroValuesInvalidVisitor).VisitEnumField
  nopanic
  requires enumField != nil
  requires v != nil
  modifies *
  ensures allcalls(v.add, f, enumField.Integer == 0 && enumField.Name != strings.Join(v.nestedNames, "_") + "_INVALID" && at(f, enumField.Position))
  ensures implies(enumField.Integer == 0 && enumField.Name != strings.Join(v.nestedNames, "_") + "_INVALID", somecall(v.add, f, at(f, enumField.Position)))

func (*lint.enumZeroValuesInvalidExceptMessageVisitor).VisitEnumField
  nopanic
  requires enumField != nil
  requires v != nil
  modifies *
  requires enumField.Parent != nil
  requires typeis(enumField.Parent, *proto.Enum)
  requires as(enumField.Parent, *proto.Enum) != nil
  ensures allcalls(v.add, f, enumField.Integer == 0 && enumField.Name != strs.ToUpperSnakeCase(as(enumField.Parent, *proto.Enum).Name) + "_INVALID" && at(f, enumField.Position))
  ensures implies(enumField.Integer == 0 && enumField.Name != strs.ToUpperSnakeCase(as(enumField.Parent, *proto.Enum).Name) + "_INVALID", somecall(v.add, f, at(f, enumField.Position)))

func (lint.enumNamesCamelCaseVisitor).VisitEnum
  nopanic
  requires enum != nil
  ensures allcalls(v.add, f, !strs.IsCamelCase(enum.Name) && at(f, enum.Position))
  ensures implies(!strs.IsCamelCase(enum.Name), somecall(v.add, f, at(f, enum.Position)))

func (lint.enumNamesCapitalizedVisitor).VisitEnum
  nopanic
  requires enum != nil
  ensures allcalls(v.add, f, !strs.IsCapitalized(enum.Name) && at(f, enum.Position))
  ensures implies(!strs.IsCapitalized(enum.Name), somecall(v.add, f, at(f, enum.Position)))

func (lint.enumsHaveCommentsVisitor).VisitEnum
  nopanic
  requires enum != nil
  ensures allcalls(v.add, f, !hasGolangStyleComment(enum.Comment, enum.Name) && at(f, enum.Position))
  ensures implies(!hasGolangStyleComment(enum.Comment, enum.Name), somecall(v.add, f, at(f, enum.Position)))

func (lint.enumsHaveSentenceCommentsVisitor).VisitEnum
  nopanic
  requires enum != nil
  ensures allcalls(v.add, f, !hasCompleteSentenceComment(enum.Comment) && at(f, enum.Position))
  ensures implies(!hasCompleteSentenceComment(enum.Comment), somecall(v.add, f, at(f, enum.Position)))

func (lint.enumsNoAllowAliasVisitor).VisitOption
  nopanic
  requires element != nil
  ensures allcalls(v.add, f, element.Parent != nil && typeis(element.Parent, *proto.Enum) && element.Name == "allow_alias" && at(f, element.Position))
  ensures implies(element.Parent != nil && typeis(element.Parent, *proto.Enum) && element.Name == "allow_alias", somecall(v.add, f, at(f, element.Position)))

func (*lint.enumFieldPrefixesVisitor).VisitMessage
  nopanic
  requires message != nil
  requires v != nil
  modifies *
  loop 0 invariant len(v.nestedNames) == len(old(v.nestedNames)) + 1 && v.nestedNames[len(old(v.nestedNames))] == strs.ToUpperSnakeCase(message.Name) && forall(i, int, implies(0 <= i && i < len(old(v.nestedNames)), v.nestedNames[i] == old(v.nestedNames[i])))
  requires forall(i, int, implies(0 <= i && i < len(message.Elements), message.Elements[i] != nil))
  ensures allcalls(v.add, f, false)
  ensures forall(i, int, implies(0 <= i && i < len(message.Elements), somecall("(proto.Visitee).Accept", c, w, c == message.Elements[i])))
  ensures len(v.nestedNames) == len(old(v.nestedNames)) && forall(i, int, implies(0 <= i && i < len(old(v.nestedNames)), v.nestedNames[i] == old(v.nestedNames[i])))

func (*lint.enumFieldPrefixesVisitor).VisitGroup
  nopanic
  requires group != nil
  requires v != nil
  modifies *
  loop 0 invariant len(v.nestedNames) == len(old(v.nestedNames)) + 1 && v.nestedNames[len(old(v.nestedNames))] == strs.ToUpperSnakeCase(group.Name) && forall(i, int, implies(0 <= i && i < len(old(v.nestedNames)), v.nestedNames[i] == old(v.nestedNames[i])))
  requires forall(i, int, implies(0 <= i && i < len(group.Elements), group.Elements[i] != nil))
  ensures allcalls(v.add, f, false)
  ensures forall(i, int, implies(0 <= i && i < len(group.Elements), somecall("(proto.Visitee).Accept", c, w, c == group.Elements[i])))
  ensures len(v.nestedNames) == len(old(v.nestedNames)) && forall(i, int, implies(0 <= i && i < len(old(v.nestedNames)), v.nestedNames[i] == old(v.nestedNames[i])))

func (*lint.enumFieldPrefixesVisitor).VisitEnum
  nopanic
  requires enum != nil
  requires v != nil
  modifies *
  loop 0 invariant len(v.nestedNames) == len(old(v.nestedNames)) + 1 && v.nestedNames[len(old(v.nestedNames))] == strs.ToUpperSnakeCase(enum.Name) && forall(i, int, implies(0 <= i && i < len(old(v.nestedNames)), v.nestedNames[i] == old(v.nestedNames[i])))
  requires forall(i, int, implies(0 <= i && i < len(enum.Elements), enum.Elements[i] != nil))
  ensures allcalls(v.add, f, false)
  ensures forall(i, int, implies(0 <= i && i < len(enum.Elements), somecall("(proto.Visitee).Accept", c, w, c == enum.Elements[i])))
  ensures len(v.nestedNames) == len(old(v.nestedNames)) && forall(i, int, implies(0 <= i && i < len(old(v.nestedNames)), v.nestedNames[i] == old(v.nestedNames[i])))

func (*lint.enumZeroValuesInvalidVisitor).VisitMessage
  nopanic
  requires message != nil
  requires v != nil
  modifies *
  loop 0 invariant len(v.nestedNames) == len(old(v.nestedNames)) + 1 && v.nestedNames[len(old(v.nestedNames))] == strs.ToUpperSnakeCase(message.Name) && forall(i, int, implies(0 <= i && i < len(old(v.nestedNames)), v.nestedNames[i] == old(v.nestedNames[i])))
  requires forall(i, int, implies(0 <= i && i < len(message.Elements), message.Elements[i] != nil))
  ensures allcalls(v.add, f, false)
  ensures forall(i, int, implies(0 <= i && i < len(message.Elements), somecall("(proto.Visitee).Accept", c, w, c == message.Elements[i])))
  ensures len(v.nestedNames) == len(old(v.nestedNames)) && forall(i, int, implies(0 <= i && i < len(old(v.nestedNames)), v.nestedNames[i] == old(v.nestedNames[i])))

func (*lint.enumZeroValuesInvalidVisitor).VisitGroup
  nopanic
  requires group != nil
  requires v != nil
  modifies *
  loop 0 invariant len(v.nestedNames) == len(old(v.nestedNames)) + 1 && v.nestedNames[len(old(v.nestedNames))] == strs.ToUpperSnakeCase(group.Name) && forall(i, int, implies(0 <= i && i < len(old(v.nestedNames)), v.nestedNames[i] == old(v.nestedNames[i])))
  requires forall(i, int, implies(0 <= i && i < len(group.Elements), group.Elements[i] != nil))
  ensures allcalls(v.add, f, false)
  ensures forall(i, int, implies(0 <= i && i < len(group.Elements), somecall("(proto.Visitee).Accept", c, w, c == group.Elements[i])))
  ensures len(v.nestedNames) == len(old(v.nestedNames)) && forall(i, int, implies(0 <= i && i < len(old(v.nestedNames)), v.nestedNames[i] == old(v.nestedNames[i])))

func (*lint.enumZeroValuesInvalidVisitor).VisitEnum
  nopanic
  requires enum != nil
  requires v != nil
  modifies *
  loop 0 invariant len(v.nestedNames) == len(old(v.nestedNames)) + 1 && v.nestedNames[len(old(v.nestedNames))] == strs.ToUpperSnakeCase(enum.Name) && forall(i, int, implies(0 <= i && i < len(old(v.nestedNames)), v.nestedNames[i] == old(v.nestedNames[i])))
  requires forall(i, int, implies(0 <= i && i < len(enum.Elements), enum.Elements[i] != nil))
  ensures allcalls(v.add, f, false)
  ensures forall(i, int, implies(0 <= i && i < len(enum.Elements), somecall("(proto.Visitee).Accept", c, w, c == enum.Elements[i])))
  ensures len(v.nestedNames) == len(old(v.nestedNames)) && forall(i, int, implies(0 <= i && i < len(old(v.nestedNames)), v.nestedNames[i] == old(v.nestedNames[i])))

func (lint.fieldsNotReservedVisitor).VisitMessage
  nopanic
  requires message != nil
  requires forall(i, int, implies(0 <= i && i < len(message.Elements), message.Elements[i] != nil))
  ensures allcalls(v.add, f, false)
  ensures forall(i, int, implies(0 <= i && i < len(message.Elements), somecall("(proto.Visitee).Accept", c, w, c == message.Elements[i])))

func (lint.fieldsNotReservedVisitor).VisitGroup
  nopanic
  requires group != nil
  requires forall(i, int, implies(0 <= i && i < len(group.Elements), group.Elements[i] != nil))
  ensures allcalls(v.add, f, false)
  ensures forall(i, int, implies(0 <= i && i < len(group.Elements), somecall("(proto.Visitee).Accept", c, w, c == group.Elements[i])))

func (lint.fieldsNotReservedVisitor).VisitEnum
  nopanic
  requires enum != nil
  requires forall(i, int, implies(0 <= i && i < len(enum.Elements), enum.Elements[i] != nil))
  ensures allcalls(v.add, f, false)
  ensures forall(i, int, implies(0 <= i && i < len(enum.Elements), somecall("(proto.Visitee).Accept", c, w, c == enum.Elements[i])))

func (lint.fieldsNotReservedVisitor).VisitReserved
  nopanic
  requires reserved != nil
  ensures allcalls(v.add, f, true && at(f, reserved.Position))
  ensures implies(true, somecall(v.add, f, at(f, reserved.Position)))

func (lint.messageFieldNamesFilenameVisitor).VisitNormalField
  nopanic
  requires field != nil
  requires field.Field != nil
  ensures allcalls(v.add, f, strings.Contains(field.Name, "file_name") && at(f, field.Position))
  ensures implies(strings.Contains(field.Name, "file_name"), somecall(v.add, f, at(f, field.Position)))

func (lint.messageFieldNamesFilenameVisitor).VisitOneofField
  nopanic
  requires field != nil
  requires field.Field != nil
  ensures allcalls(v.add, f, strings.Contains(field.Name, "file_name") && at(f, field.Position))
  ensures implies(strings.Contains(field.Name, "file_name"), somecall(v.add, f, at(f, field.Position)))

func (lint.messageFieldNamesFilenameVisitor).VisitMapField
  nopanic
  requires field != nil
  requires field.Field != nil
  ensures allcalls(v.add, f, strings.Contains(field.Name, "file_name") && at(f, field.Position))
  ensures implies(strings.Contains(field.Name, "file_name"), somecall(v.add, f, at(f, field.Position)))

func (lint.messageFieldNamesFilepathVisitor).VisitNormalField
  nopanic
  requires field != nil
  requires field.Field != nil
  ensures allcalls(v.add, f, strings.Contains(field.Name, "file_path") && at(f, field.Position))
  ensures implies(strings.Contains(field.Name, "file_path"), somecall(v.add, f, at(f, field.Position)))

func (lint.messageFieldNamesFilepathVisitor).VisitOneofField
  nopanic
  requires field != nil
  requires field.Field != nil
  ensures allcalls(v.add, f, strings.Contains(field.Name, "file_path") && at(f, field.Position))
  ensures implies(strings.Contains(field.Name, "file_path"), somecall(v.add, f, at(f, field.Position)))

func (lint.messageFieldNamesFilepathVisitor).VisitMapField
  nopanic
  requires field != nil
  requires field.Field != nil
  ensures allcalls(v.add, f, strings.Contains(field.Name, "file_path") && at(f, field.Position))
  ensures implies(strings.Contains(field.Name, "file_path"), somecall(v.add, f, at(f, field.Position)))

func (lint.messageFieldNamesLowerSnakeCaseVisitor).VisitNormalField
  nopanic
  requires field != nil
  requires field.Field != nil
  ensures allcalls(v.add, f, !strs.IsLowerSnakeCase(field.Name) && at(f, field.Position))
  ensures implies(!strs.IsLowerSnakeCase(field.Name), somecall(v.add, f, at(f, field.Position)))

func (lint.messageFieldNamesLowerSnakeCaseVisitor).VisitOneofField
  nopanic
  requires field != nil
  requires field.Field != nil
  ensures allcalls(v.add, f, !strs.IsLowerSnakeCase(field.Name) && at(f, field.Position))
  ensures implies(!strs.IsLowerSnakeCase(field.Name), somecall(v.add, f, at(f, field.Position)))

func (lint.messageFieldNamesLowerSnakeCaseVisitor).VisitMapField
  nopanic
  requires field != nil
  requires field.Field != nil
  ensures allcalls(v.add, f, !strs.IsLowerSnakeCase(field.Name) && at(f, field.Position))
  ensures implies(!strs.IsLowerSnakeCase(field.Name), somecall(v.add, f, at(f, field.Position)))

func (lint.messageFieldNamesLowercaseVisitor).VisitNormalField
  nopanic
  requires field != nil
  requires field.Field != nil
  ensures allcalls(v.add, f, !strs.IsLowercase(field.Name) && at(f, field.Position))
  ensures implies(!strs.IsLowercase(field.Name), somecall(v.add, f, at(f, field.Position)))

func (lint.messageFieldNamesLowercaseVisitor).VisitOneofField
  nopanic
  requires field != nil
  requires field.Field != nil
  ensures allcalls(v.add, f, !strs.IsLowercase(field.Name) && at(f, field.Position))
  ensures implies(!strs.IsLowercase(field.Name), somecall(v.add, f, at(f, field.Position)))

func (lint.messageFieldNamesLowercaseVisitor).VisitMapField
  nopanic
  requires field != nil
  requires field.Field != nil
  ensures allcalls(v.add, f, !strs.IsLowercase(field.Name) && at(f, field.Position))
  ensures implies(!strs.IsLowercase(field.Name), somecall(v.add, f, at(f, field.Position)))

func (lint.messageFieldNamesNoDescriptorVisitor).VisitNormalField
  nopanic
  requires field != nil
  requires field.Field != nil
  ensures allcalls(v.add, f, strings.Trim(strings.ToLower(field.Name), "_") == "descriptor" && at(f, field.Position))
  ensures implies(strings.Trim(strings.ToLower(field.Name), "_") == "descriptor", somecall(v.add, f, at(f, field.Position)))

func (lint.messageFieldNamesNoDescriptorVisitor).VisitOneofField
  nopanic
  requires field != nil
  requires field.Field != nil
  ensures allcalls(v.add, f, strings.Trim(strings.ToLower(field.Name), "_") == "descriptor" && at(f, field.Position))
  ensures implies(strings.Trim(strings.ToLower(field.Name), "_") == "descriptor", somecall(v.add, f, at(f, field.Position)))

func (lint.messageFieldNamesNoDescriptorVisitor).VisitMapField
  nopanic
  requires field != nil
  requires field.Field != nil
  ensures allcalls(v.add, f, strings.Trim(strings.ToLower(field.Name), "_") == "descriptor" && at(f, field.Position))
  ensures implies(strings.Trim(strings.ToLower(field.Name), "_") == "descriptor", somecall(v.add, f, at(f, field.Position)))

func (lint.messageFieldsDurationVisitor).VisitNormalField
  nopanic
  requires field != nil
  requires field.Field != nil
  ensures allcalls(v.add, f, strings.Contains(field.Name, "duration") && field.Type != "google.protobuf.Duration" && at(f, field.Position))
  ensures implies(strings.Contains(field.Name, "duration") && field.Type != "google.protobuf.Duration", somecall(v.add, f, at(f, field.Position)))

func (lint.messageFieldsDurationVisitor).VisitOneofField
  nopanic
  requires field != nil
  requires field.Field != nil
  ensures allcalls(v.add, f, strings.Contains(field.Name, "duration") && field.Type != "google.protobuf.Duration" && at(f, field.Position))
  ensures implies(strings.Contains(field.Name, "duration") && field.Type != "google.protobuf.Duration", somecall(v.add, f, at(f, field.Position)))

func (lint.messageFieldsTimeVisitor).VisitNormalField
  nopanic
  requires field != nil
  requires field.Field != nil
  ensures allcalls(v.add, f, strings.Contains(field.Name, "time") && field.Type != "google.protobuf.Timestamp" && at(f, field.Position))
  ensures implies(strings.Contains(field.Name, "time") && field.Type != "google.protobuf.Timestamp", somecall(v.add, f, at(f, field.Position)))

func (lint.messageFieldsTimeVisitor).VisitOneofField
  nopanic
  requires field != nil
  requires field.Field != nil
  ensures allcalls(v.add, f, strings.Contains(field.Name, "time") && field.Type != "google.protobuf.Timestamp" && at(f, field.Position))
  ensures implies(strings.Contains(field.Name, "time") && field.Type != "google.protobuf.Timestamp", somecall(v.add, f, at(f, field.Position)))

func (lint.messageFieldsHaveCommentsVisitor).VisitNormalField
  nopanic
  requires field != nil
  requires field.Field != nil
  ensures allcalls(v.add, f, !hasGolangStyleComment(field.Comment, field.Name) && at(f, field.Position))
  ensures implies(!hasGolangStyleComment(field.Comment, field.Name), somecall(v.add, f, at(f, field.Position)))

func (lint.messageFieldsHaveCommentsVisitor).VisitOneofField
  nopanic
  requires field != nil
  requires field.Field != nil
  ensures allcalls(v.add, f, !hasGolangStyleComment(field.Comment, field.Name) && at(f, field.Position))
  ensures implies(!hasGolangStyleComment(field.Comment, field.Name), somecall(v.add, f, at(f, field.Position)))

func (lint.messageFieldsHaveCommentsVisitor).VisitMapField
  nopanic
  requires field != nil
  requires field.Field != nil
  ensures allcalls(v.add, f, !hasGolangStyleComment(field.Comment, field.Name) && at(f, field.Position))
  ensures implies(!hasGolangStyleComment(field.Comment, field.Name), somecall(v.add, f, at(f, field.Position)))

func (lint.messageFieldsHaveSentenceCommentsVisitor).VisitNormalField
  nopanic
  requires field != nil
  requires field.Field != nil
  ensures allcalls(v.add, f, !hasCompleteSentenceComment(field.Comment) && at(f, field.Position))
  ensures implies(!hasCompleteSentenceComment(field.Comment), somecall(v.add, f, at(f, field.Position)))

func (lint.messageFieldsHaveSentenceCommentsVisitor).VisitOneofField
  nopanic
  requires field != nil
  requires field.Field != nil
  ensures allcalls(v.add, f, !hasCompleteSentenceComment(field.Comment) && at(f, field.Position))
  ensures implies(!hasCompleteSentenceComment(field.Comment), somecall(v.add, f, at(f, field.Position)))

func (lint.messageFieldsHaveSentenceCommentsVisitor).VisitMapField
  nopanic
  requires field != nil
  requires field.Field != nil
  ensures allcalls(v.add, f, !hasCompleteSentenceComment(field.Comment) && at(f, field.Position))
  ensures implies(!hasCompleteSentenceComment(field.Comment), somecall(v.add, f, at(f, field.Position)))

func (lint.messageFieldsNoJSONNameVisitor).VisitNormalField
  nopanic
  requires field != nil
  requires field.Field != nil
  requires forall(i, int, implies(0 <= i && i < len(field.Options), field.Options[i] != nil))
  ensures allcalls(v.add, f, exists(i, int, 0 <= i && i < len(field.Options) && field.Options[i].Name == "json_name") && at(f, field.Position))
  ensures forall(i, int, implies(0 <= i && i < len(field.Options) && field.Options[i].Name == "json_name", somecall(v.add, f, at(f, field.Position))))

func (lint.messageFieldsNoJSONNameVisitor).VisitOneofField
  nopanic
  requires field != nil
  requires field.Field != nil
  requires forall(i, int, implies(0 <= i && i < len(field.Options), field.Options[i] != nil))
  ensures allcalls(v.add, f, exists(i, int, 0 <= i && i < len(field.Options) && field.Options[i].Name == "json_name") && at(f, field.Position))
  ensures forall(i, int, implies(0 <= i && i < len(field.Options) && field.Options[i].Name == "json_name", somecall(v.add, f, at(f, field.Position))))

func (lint.messageFieldsNoJSONNameVisitor).VisitMapField
  nopanic
  requires field != nil
  requires field.Field != nil
  requires forall(i, int, implies(0 <= i && i < len(field.Options), field.Options[i] != nil))
  ensures allcalls(v.add, f, exists(i, int, 0 <= i && i < len(field.Options) && field.Options[i].Name == "json_name") && at(f, field.Position))
  ensures forall(i, int, implies(0 <= i && i < len(field.Options) && field.Options[i].Name == "json_name", somecall(v.add, f, at(f, field.Position))))

func (*lint.messageFieldsNotFloatsVisitor).VisitNormalField
  nopanic
  requires field != nil
  requires field.Field != nil
  requires v != nil
  modifies *
  requires v.baseAddSuppressableVisitor != nil
  requires v.fileDescriptor != nil
  ensures allcalls(v.add, ps, c, f, field.Type == "float" && at(f, field.Position) && ps == v.fileDescriptor.ProtoSet && c == field.Comment)
  ensures implies(field.Type == "float", somecall(v.add, ps, c, f, at(f, field.Position) && ps == v.fileDescriptor.ProtoSet && c == field.Comment))

func (*lint.messageFieldsNotFloatsVisitor).VisitOneofField
  nopanic
  requires field != nil
  requires field.Field != nil
  requires v != nil
  modifies *
  requires v.baseAddSuppressableVisitor != nil
  requires v.fileDescriptor != nil
  ensures allcalls(v.add, ps, c, f, field.Type == "float" && at(f, field.Position) && ps == v.fileDescriptor.ProtoSet && c == field.Comment)
  ensures implies(field.Type == "float", somecall(v.add, ps, c, f, at(f, field.Position) && ps == v.fileDescriptor.ProtoSet && c == field.Comment))

func (*lint.messageFieldsNotFloatsVisitor).VisitMapField
  nopanic
  requires field != nil
  requires field.Field != nil
  requires v != nil
  modifies *
  requires v.baseAddSuppressableVisitor != nil
  requires v.fileDescriptor != nil
  ensures allcalls(v.add, ps, c, f, field.Type == "float" && at(f, field.Position) && ps == v.fileDescriptor.ProtoSet && c == field.Comment)
  ensures implies(field.Type == "float", somecall(v.add, ps, c, f, at(f, field.Position) && ps == v.fileDescriptor.ProtoSet && c == field.Comment))

func (lint.wktDurationSuffixVisitor).VisitNormalField
  nopanic
  requires field != nil
  requires field.Field != nil
  ensures allcalls(v.add, f, field.Type == "google.protobuf.Duration" && field.Name != "duration" && !strings.HasSuffix(field.Name, "_duration") && at(f, field.Position))
  ensures implies(field.Type == "google.protobuf.Duration" && field.Name != "duration" && !strings.HasSuffix(field.Name, "_duration"), somecall(v.add, f, at(f, field.Position)))

func (lint.wktDurationSuffixVisitor).VisitOneofField
  nopanic
  requires field != nil
  requires field.Field != nil
  ensures allcalls(v.add, f, field.Type == "google.protobuf.Duration" && field.Name != "duration" && !strings.HasSuffix(field.Name, "_duration") && at(f, field.Position))
  ensures implies(field.Type == "google.protobuf.Duration" && field.Name != "duration" && !strings.HasSuffix(field.Name, "_duration"), somecall(v.add, f, at(f, field.Position)))

func (lint.wktTimestampSuffixVisitor).VisitNormalField
  nopanic
  requires field != nil
  requires field.Field != nil
  ensures allcalls(v.add, f, field.Type == "google.protobuf.Timestamp" && field.Name != "time" && !strings.HasSuffix(field.Name, "_time") && at(f, field.Position))
  ensures implies(field.Type == "google.protobuf.Timestamp" && field.Name != "time" && !strings.HasSuffix(field.Name, "_time"), somecall(v.add, f, at(f, field.Position)))

func (lint.wktTimestampSuffixVisitor).VisitOneofField
  nopanic
  requires field != nil
  requires field.Field != nil
  ensures allcalls(v.add, f, field.Type == "google.protobuf.Timestamp" && field.Name != "time" && !strings.HasSuffix(field.Name, "_time") && at(f, field.Position))
  ensures implies(field.Type == "google.protobuf.Timestamp" && field.Name != "time" && !strings.HasSuffix(field.Name, "_time"), somecall(v.add, f, at(f, field.Position)))

func (lint.messageNamesCamelCaseVisitor).VisitMessage
  nopanic
  requires message != nil
  requires forall(i, int, implies(0 <= i && i < len(message.Elements), message.Elements[i] != nil))
  ensures allcalls(v.add, f, !message.IsExtend && !strs.IsCamelCase(message.Name) && at(f, message.Position))
  ensures implies(!message.IsExtend && !strs.IsCamelCase(message.Name), somecall(v.add, f, at(f, message.Position)))
  ensures forall(i, int, implies(0 <= i && i < len(message.Elements), somecall("(proto.Visitee).Accept", c, w, c == message.Elements[i])))

func (lint.messageNamesCapitalizedVisitor).VisitMessage
  nopanic
  requires message != nil
  requires forall(i, int, implies(0 <= i && i < len(message.Elements), message.Elements[i] != nil))
  ensures allcalls(v.add, f, !message.IsExtend && !strs.IsCapitalized(message.Name) && at(f, message.Position))
  ensures implies(!message.IsExtend && !strs.IsCapitalized(message.Name), somecall(v.add, f, at(f, message.Position)))
  ensures forall(i, int, implies(0 <= i && i < len(message.Elements), somecall("(proto.Visitee).Accept", c, w, c == message.Elements[i])))

func (lint.messagesHaveCommentsVisitor).VisitMessage
  nopanic
  requires message != nil
  requires forall(i, int, implies(0 <= i && i < len(message.Elements), message.Elements[i] != nil))
  ensures allcalls(v.add, f, !message.IsExtend && !hasGolangStyleComment(message.Comment, message.Name) && at(f, message.Position))
  ensures implies(!message.IsExtend && !hasGolangStyleComment(message.Comment, message.Name), somecall(v.add, f, at(f, message.Position)))
  ensures forall(i, int, implies(0 <= i && i < len(message.Elements), somecall("(proto.Visitee).Accept", c, w, c == message.Elements[i])))

func (lint.oneofNamesLowerSnakeCaseVisitor).VisitOneof
  nopanic
  requires oneof != nil
  requires forall(i, int, implies(0 <= i && i < len(oneof.Elements), oneof.Elements[i] != nil))
  ensures allcalls(v.add, f, !strs.IsLowerSnakeCase(oneof.Name) && at(f, oneof.Position))
  ensures implies(!strs.IsLowerSnakeCase(oneof.Name), somecall(v.add, f, at(f, oneof.Position)))
  ensures forall(i, int, implies(0 <= i && i < len(oneof.Elements), somecall("(proto.Visitee).Accept", c, w, c == oneof.Elements[i])))

func (*lint.namesVisitor).VisitMessage
  nopanic
  requires element != nil
  requires v != nil
  modifies *
  requires v.baseAddSuppressableVisitor != nil
  requires v.fileDescriptor != nil
  requires forall(i, int, implies(0 <= i && i < len(element.Elements), element.Elements[i] != nil))
  ensures allcalls(v.add, ps, c, f, strings.Contains(strings.ToLower(element.Name), v.outlawedName) && at(f, element.Position) && ps == v.fileDescriptor.ProtoSet && c == element.Comment)
  ensures implies(strings.Contains(strings.ToLower(element.Name), v.outlawedName), somecall(v.add, ps, c, f, at(f, element.Position) && ps == v.fileDescriptor.ProtoSet && c == element.Comment))
  ensures forall(i, int, implies(0 <= i && i < len(element.Elements), somecall("(proto.Visitee).Accept", c, w, c == element.Elements[i])))

func (*lint.namesVisitor).VisitService
  nopanic
  requires element != nil
  requires v != nil
  modifies *
  requires v.baseAddSuppressableVisitor != nil
  requires v.fileDescriptor != nil
  requires forall(i, int, implies(0 <= i && i < len(element.Elements), element.Elements[i] != nil))
  ensures allcalls(v.add, ps, c, f, strings.Contains(strings.ToLower(element.Name), v.outlawedName) && at(f, element.Position) && ps == v.fileDescriptor.ProtoSet && c == element.Comment)
  ensures implies(strings.Contains(strings.ToLower(element.Name), v.outlawedName), somecall(v.add, ps, c, f, at(f, element.Position) && ps == v.fileDescriptor.ProtoSet && c == element.Comment))
  ensures forall(i, int, implies(0 <= i && i < len(element.Elements), somecall("(proto.Visitee).Accept", c, w, c == element.Elements[i])))

func (*lint.namesVisitor).VisitEnumField
  nopanic
  requires element != nil
  requires v != nil
  modifies *
  requires v.baseAddSuppressableVisitor != nil
  requires v.fileDescriptor != nil
  requires forall(i, int, implies(0 <= i && i < len(element.Elements), element.Elements[i] != nil))
  ensures allcalls(v.add, ps, c, f, strings.Contains(strings.ToLower(element.Name), v.outlawedName) && at(f, element.Position) && ps == v.fileDescriptor.ProtoSet && c == element.Comment)
  ensures implies(strings.Contains(strings.ToLower(element.Name), v.outlawedName), somecall(v.add, ps, c, f, at(f, element.Position) && ps == v.fileDescriptor.ProtoSet && c == element.Comment))
  ensures forall(i, int, implies(0 <= i && i < len(element.Elements), somecall("(proto.Visitee).Accept", c, w, c == element.Elements[i])))

func (*lint.namesVisitor).VisitEnum
  nopanic
  requires element != nil
  requires v != nil
  modifies *
  requires v.baseAddSuppressableVisitor != nil
  requires v.fileDescriptor != nil
  requires forall(i, int, implies(0 <= i && i < len(element.Elements), element.Elements[i] != nil))
  ensures allcalls(v.add, ps, c, f, strings.Contains(strings.ToLower(element.Name), v.outlawedName) && at(f, element.Position) && ps == v.fileDescriptor.ProtoSet && c == element.Comment)
  ensures implies(strings.Contains(strings.ToLower(element.Name), v.outlawedName), somecall(v.add, ps, c, f, at(f, element.Position) && ps == v.fileDescriptor.ProtoSet && c == element.Comment))
  ensures forall(i, int, implies(0 <= i && i < len(element.Elements), somecall("(proto.Visitee).Accept", c, w, c == element.Elements[i])))

func (*lint.namesVisitor).VisitOneof
  nopanic
  requires element != nil
  requires v != nil
  modifies *
  requires v.baseAddSuppressableVisitor != nil
  requires v.fileDescriptor != nil
  requires forall(i, int, implies(0 <= i && i < len(element.Elements), element.Elements[i] != nil))
  ensures allcalls(v.add, ps, c, f, strings.Contains(strings.ToLower(element.Name), v.outlawedName) && at(f, element.Position) && ps == v.fileDescriptor.ProtoSet && c == element.Comment)
  ensures implies(strings.Contains(strings.ToLower(element.Name), v.outlawedName), somecall(v.add, ps, c, f, at(f, element.Position) && ps == v.fileDescriptor.ProtoSet && c == element.Comment))
  ensures forall(i, int, implies(0 <= i && i < len(element.Elements), somecall("(proto.Visitee).Accept", c, w, c == element.Elements[i])))

func (*lint.namesVisitor).VisitRPC
  nopanic
  requires element != nil
  requires v != nil
  modifies *
  requires v.baseAddSuppressableVisitor != nil
  requires v.fileDescriptor != nil
  requires forall(i, int, implies(0 <= i && i < len(element.Elements), element.Elements[i] != nil))
  ensures allcalls(v.add, ps, c, f, strings.Contains(strings.ToLower(element.Name), v.outlawedName) && at(f, element.Position) && ps == v.fileDescriptor.ProtoSet && c == element.Comment)
  ensures implies(strings.Contains(strings.ToLower(element.Name), v.outlawedName), somecall(v.add, ps, c, f, at(f, element.Position) && ps == v.fileDescriptor.ProtoSet && c == element.Comment))
  ensures forall(i, int, implies(0 <= i && i < len(element.Elements), somecall("(proto.Visitee).Accept", c, w, c == element.Elements[i])))

func (*lint.namesVisitor).VisitGroup
  nopanic
  requires element != nil
  requires v != nil
  modifies *
  requires v.baseAddSuppressableVisitor != nil
  requires v.fileDescriptor != nil
  requires forall(i, int, implies(0 <= i && i < len(element.Elements), element.Elements[i] != nil))
  ensures allcalls(v.add, ps, c, f, strings.Contains(strings.ToLower(element.Name), v.outlawedName) && at(f, element.Position) && ps == v.fileDescriptor.ProtoSet && c == element.Comment)
  ensures implies(strings.Contains(strings.ToLower(element.Name), v.outlawedName), somecall(v.add, ps, c, f, at(f, element.Position) && ps == v.fileDescriptor.ProtoSet && c == element.Comment))
  ensures forall(i, int, implies(0 <= i && i < len(element.Elements), somecall("(proto.Visitee).Accept", c, w, c == element.Elements[i])))

func (*lint.namesVisitor).VisitNormalField
  nopanic
  requires element != nil
  requires element.Field != nil
  requires v != nil
  modifies *
  requires v.baseAddSuppressableVisitor != nil
  requires v.fileDescriptor != nil
  requires forall(i, int, implies(0 <= i && i < len(element.Options), element.Options[i] != nil))
  ensures allcalls(v.add, ps, c, f, strings.Contains(strings.ToLower(element.Name), v.outlawedName) && at(f, element.Position) && ps == v.fileDescriptor.ProtoSet && c == element.Comment)
  ensures implies(strings.Contains(strings.ToLower(element.Name), v.outlawedName), somecall(v.add, ps, c, f, at(f, element.Position) && ps == v.fileDescriptor.ProtoSet && c == element.Comment))
  ensures forall(i, int, implies(0 <= i && i < len(element.Options), somecall("(*proto.Option).Accept", c, w, c == element.Options[i])))

func (*lint.namesVisitor).VisitOneofField
  nopanic
  requires element != nil
  requires element.Field != nil
  requires v != nil
  modifies *
  requires v.baseAddSuppressableVisitor != nil
  requires v.fileDescriptor != nil
  requires forall(i, int, implies(0 <= i && i < len(element.Options), element.Options[i] != nil))
  ensures allcalls(v.add, ps, c, f, strings.Contains(strings.ToLower(element.Name), v.outlawedName) && at(f, element.Position) && ps == v.fileDescriptor.ProtoSet && c == element.Comment)
  ensures implies(strings.Contains(strings.ToLower(element.Name), v.outlawedName), somecall(v.add, ps, c, f, at(f, element.Position) && ps == v.fileDescriptor.ProtoSet && c == element.Comment))
  ensures forall(i, int, implies(0 <= i && i < len(element.Options), somecall("(*proto.Option).Accept", c, w, c == element.Options[i])))

func (*lint.namesVisitor).VisitMapField
  nopanic
  requires element != nil
  requires element.Field != nil
  requires v != nil
  modifies *
  requires v.baseAddSuppressableVisitor != nil
  requires v.fileDescriptor != nil
  requires forall(i, int, implies(0 <= i && i < len(element.Options), element.Options[i] != nil))
  ensures allcalls(v.add, ps, c, f, strings.Contains(strings.ToLower(element.Name), v.outlawedName) && at(f, element.Position) && ps == v.fileDescriptor.ProtoSet && c == element.Comment)
  ensures implies(strings.Contains(strings.ToLower(element.Name), v.outlawedName), somecall(v.add, ps, c, f, at(f, element.Position) && ps == v.fileDescriptor.ProtoSet && c == element.Comment))
  ensures forall(i, int, implies(0 <= i && i < len(element.Options), somecall("(*proto.Option).Accept", c, w, c == element.Options[i])))

func (*lint.namesVisitor).VisitPackage
  nopanic
  requires element != nil
  requires v != nil
  modifies *
  requires v.baseAddSuppressableVisitor != nil
  requires v.fileDescriptor != nil
  ensures allcalls(v.add, ps, c, f, strings.Contains(strings.ToLower(element.Name), v.outlawedName) && at(f, element.Position) && ps == v.fileDescriptor.ProtoSet && c == element.Comment)
  ensures implies(strings.Contains(strings.ToLower(element.Name), v.outlawedName), somecall(v.add, ps, c, f, at(f, element.Position) && ps == v.fileDescriptor.ProtoSet && c == element.Comment))

func (*lint.namesVisitor).VisitOption
  nopanic
  requires element != nil
  requires v != nil
  modifies *
  requires v.baseAddSuppressableVisitor != nil
  requires v.fileDescriptor != nil
  ensures allcalls(v.add, ps, c, f, strings.Contains(strings.ToLower(element.Name), v.outlawedName) && at(f, element.Position) && ps == v.fileDescriptor.ProtoSet && c == element.Comment)
  ensures implies(strings.Contains(strings.ToLower(element.Name), v.outlawedName), somecall(v.add, ps, c, f, at(f, element.Position) && ps == v.fileDescriptor.ProtoSet && c == element.Comment))

func (*lint.namesVisitor).VisitSyntax
  nopanic
  requires element != nil
  requires v != nil
  modifies *
  requires v.baseAddSuppressableVisitor != nil
  requires v.fileDescriptor != nil
  ensures allcalls(v.add, ps, c, f, false)

func (*lint.namesVisitor).VisitImport
  nopanic
  requires element != nil
  requires v != nil
  modifies *
  requires v.baseAddSuppressableVisitor != nil
  requires v.fileDescriptor != nil
  ensures allcalls(v.add, ps, c, f, false)

func (*lint.namesVisitor).VisitComment
  nopanic
  requires element != nil
  requires v != nil
  modifies *
  requires v.baseAddSuppressableVisitor != nil
  requires v.fileDescriptor != nil
  ensures allcalls(v.add, ps, c, f, false)

func (*lint.namesVisitor).VisitExtensions
  nopanic
  requires element != nil
  requires v != nil
  modifies *
  requires v.baseAddSuppressableVisitor != nil
  requires v.fileDescriptor != nil
  ensures allcalls(v.add, ps, c, f, false)

func (*lint.namesVisitor).VisitReserved
  nopanic
  requires element != nil
  requires v != nil
  modifies *
  requires v.baseAddSuppressableVisitor != nil
  requires v.fileDescriptor != nil
  ensures allcalls(v.add, ps, c, f, exists(i, int, 0 <= i && i < len(element.FieldNames) && strings.Contains(strings.ToLower(element.FieldNames[i]), v.outlawedName)) && at(f, element.Position) && ps == v.fileDescriptor.ProtoSet && c == element.Comment)
  ensures forall(i, int, implies(0 <= i && i < len(element.FieldNames) && strings.Contains(strings.ToLower(element.FieldNames[i]), v.outlawedName), somecall(v.add, ps, c, f, at(f, element.Position) && ps == v.fileDescriptor.ProtoSet && c == element.Comment)))

func (lint.gogoNotImportedVisitor).VisitImport
  nopanic
  requires element != nil
  ensures allcalls(v.add, f, strings.HasSuffix(element.Filename, "gogo.proto") && at(f, element.Position))
  ensures implies(strings.HasSuffix(element.Filename, "gogo.proto"), somecall(v.add, f, at(f, element.Position)))

func (lint.importsNotPublicVisitor).VisitImport
  nopanic
  requires element != nil
  ensures allcalls(v.add, f, element.Kind == "public" && at(f, element.Position))
  ensures implies(element.Kind == "public", somecall(v.add, f, at(f, element.Position)))

func (lint.importsNotWeakVisitor).VisitImport
  nopanic
  requires element != nil
  ensures allcalls(v.add, f, element.Kind == "weak" && at(f, element.Position))
  ensures implies(element.Kind == "weak", somecall(v.add, f, at(f, element.Position)))

func (lint.wktDirectlyImportedVisitor).VisitImport
  nopanic
  requires element != nil
  ensures allcalls(v.add, f, exists(k, string, has(wkt.Filenames, k) && strings.HasSuffix(element.Filename, k) && element.Filename != k) && at(f, element.Position))
  ensures forall(k, string, implies(has(wkt.Filenames, k) && strings.HasSuffix(element.Filename, k) && element.Filename != k, somecall(v.add, f, at(f, element.Position))))

func (lint.fileHeaderVisitor).OnStart
  requires descriptor != nil
  requires descriptor.ProtoSet != nil
  ensures err == nil
  ensures allcalls(v.add, f, descriptor.ProtoSet.Config.Lint.FileHeader != "" && !strings.HasPrefix(descriptor.FileData, descriptor.ProtoSet.Config.Lint.FileHeader) && atFile(f, descriptor.Filename))
  ensures implies(descriptor.ProtoSet.Config.Lint.FileHeader != "" && !strings.HasPrefix(descriptor.FileData, descriptor.ProtoSet.Config.Lint.FileHeader), somecall(v.add, f, atFile(f, descriptor.Filename)))

func (lint.fileNamesLowerSnakeCaseVisitor).OnStart
  requires descriptor != nil
  ensures err == nil
  ensures allcalls(v.add, f, !strs.IsLowerSnakeCase(strings.TrimSuffix(filepath.Base(descriptor.Filename), filepath.Ext(filepath.Base(descriptor.Filename)))) && atFile(f, descriptor.Filename))
  ensures implies(!strs.IsLowerSnakeCase(strings.TrimSuffix(filepath.Base(descriptor.Filename), filepath.Ext(filepath.Base(descriptor.Filename)))), somecall(v.add, f, atFile(f, descriptor.Filename)))

func (*lint.fileOptionsEqualVisitor).OnStart
  requires v != nil
  modifies *
  requires descriptor != nil
  ensures err == nil
  ensures allcalls(v.add, f, false)
  ensures v.descriptor == descriptor && v.pkg == nil && v.option == nil && v.fileOption == old(v.fileOption)

func (*lint.fileOptionsRequireVisitor).OnStart
  requires v != nil
  modifies *
  requires descriptor != nil
  ensures err == nil
  ensures allcalls(v.add, f, false)
  ensures v.filename == descriptor.Filename && !v.seen && v.fileOption == old(v.fileOption)

func (*lint.fileOptionsSameInDirVisitor).OnStart
  requires v != nil
  modifies *
  ensures err == nil
  ensures allcalls(v.add, f, false)
  ensures v.option == nil && v.fileOption == old(v.fileOption) && v.fileOptionValues == old(v.fileOptionValues)

func (*lint.fileOptionsUnsetVisitor).OnStart
  requires v != nil
  modifies *
  requires descriptor != nil
  ensures err == nil
  ensures allcalls(v.add, f, false)
  ensures !v.seen && v.fileOption == old(v.fileOption)

func (*lint.fileOptionsGoPackageNotLongFormVisitor).OnStart
  requires v != nil
  modifies *
  requires descriptor != nil
  ensures err == nil
  ensures allcalls(v.add, f, false)
  ensures v.option == nil

func (*lint.packageIsDeclaredVisitor).OnStart
  requires v != nil
  modifies *
  requires descriptor != nil
  ensures err == nil
  ensures allcalls(v.add, f, false)
  ensures v.pkg == nil && v.filename == descriptor.Filename

func (*lint.packageLowerCaseVisitor).OnStart
  requires v != nil
  modifies *
  requires descriptor != nil
  ensures err == nil
  ensures allcalls(v.add, f, false)
  ensures v.pkg == nil && v.filename == descriptor.Filename

func (*lint.packageLowerSnakeCaseVisitor).OnStart
  requires v != nil
  modifies *
  requires descriptor != nil
  ensures err == nil
  ensures allcalls(v.add, f, false)
  ensures v.pkg == nil && v.filename == descriptor.Filename

func (*lint.packageMajorBetaVersionedVisitor).OnStart
  requires v != nil
  modifies *
  requires descriptor != nil
  ensures err == nil
  ensures allcalls(v.add, f, false)
  ensures v.pkg == nil && v.filename == descriptor.Filename

func (*lint.packagesSameInDirVisitor).OnStart
  requires v != nil
  modifies *
  ensures err == nil
  ensures allcalls(v.add, f, false)
  ensures v.pkg == nil && v.pkgs == old(v.pkgs)

func (*lint.messagesHaveCommentsExceptRequestResponseTypesVisitor).OnStart
  requires v != nil
  modifies *
  ensures err == nil
  ensures allcalls(v.add, f, false)
  ensures len(v.messageNameToMessage) == 0 && len(v.requestResponseTypes) == 0 && len(v.nestedMessageNames) == 0

func (*lint.messagesHaveSentenceCommentsExceptRequestResponseTypesVisitor).OnStart
  requires v != nil
  modifies *
  ensures err == nil
  ensures allcalls(v.add, f, false)
  ensures len(v.messageNameToMessage) == 0 && len(v.requestResponseTypes) == 0 && len(v.nestedMessageNames) == 0

func (*lint.messagesNotEmptyExceptRequestResponseTypesVisitor).OnStart
  requires v != nil
  modifies *
  ensures err == nil
  ensures allcalls(v.add, f, false)
  ensures len(v.messageNameToWrapper) == 0 && len(v.requestResponseTypes) == 0 && len(v.nestedMessageNames) == 0 && v.curFieldCount == 0

func (*lint.requestResponseTypesAfterServiceVisitor).OnStart
  requires v != nil
  modifies *
  ensures err == nil
  ensures allcalls(v.add, f, false)
  ensures len(v.messageNameToMessage) == 0 && len(v.rpcs) == 0

func (*lint.requestResponseTypesInSameFileVisitor).OnStart
  requires v != nil
  modifies *
  ensures err == nil
  ensures allcalls(v.add, f, false)
  ensures len(v.messageTypes) == 0 && len(v.rpcs) == 0 && len(v.nestedMessageNames) == 0

func (*lint.requestResponseTypesOnlyInFileVisitor).OnStart
  requires v != nil
  modifies *
  ensures err == nil
  ensures allcalls(v.add, f, false)
  ensures len(v.messageNameToMessage) == 0 && len(v.rpcs) == 0 && len(v.enumNameToEnum) == 0

func (*lint.requestResponseTypesUniqueVisitor).OnStart
  requires v != nil
  modifies *
  ensures err == nil
  ensures allcalls(v.add, f, false)
  ensures len(v.seenTypes) == 0

func (*lint.rpcOptionsNoGoogleAPIHTTPVisitor).OnStart
  requires v != nil
  modifies *
  requires descriptor != nil
  requires v.baseAddSuppressableVisitor != nil
  ensures err == nil
  ensures allcalls(v.add, ps, c, f, false)
  ensures v.rpc == nil && v.fileDescriptor == descriptor

func (*lint.serviceNamesMatchFileNameVisitor).OnStart
  requires v != nil
  modifies *
  requires descriptor != nil
  ensures err == nil
  ensures allcalls(v.add, f, false)
  ensures v.filename == descriptor.Filename && len(v.services) == 0

func (*lint.syntaxProto3Visitor).OnStart
  requires v != nil
  modifies *
  requires descriptor != nil
  ensures err == nil
  ensures allcalls(v.add, f, false)
  ensures v.filename == descriptor.Filename && v.syntax == nil

func (*lint.fileOptionsEqualVisitor).VisitPackage
  nopanic
  requires element != nil
  requires v != nil
  modifies *
  ensures allcalls(v.add, f, false)
  ensures v.pkg == element && v.option == old(v.option) && v.descriptor == old(v.descriptor)

func (*lint.fileOptionsEqualVisitor).VisitOption
  nopanic
  requires element != nil
  requires v != nil
  modifies *
  ensures allcalls(v.add, f, false)
  ensures v.option == ite(element.Name == v.fileOption, element, old(v.option)) && v.pkg == old(v.pkg) && v.fileOption == old(v.fileOption) && v.descriptor == old(v.descriptor)

func (*lint.fileOptionsRequireVisitor).VisitOption
  nopanic
  requires element != nil
  requires v != nil
  modifies *
  ensures allcalls(v.add, f, false)
  ensures v.seen == (old(v.seen) || element.Name == v.fileOption) && v.fileOption == old(v.fileOption) && v.filename == old(v.filename)

func (*lint.fileOptionsRequireVisitor).Finally
  requires v != nil
  modifies *
  ensures err == nil
  ensures allcalls(v.add, f, !v.seen && atFile(f, v.filename))
  ensures implies(!v.seen, somecall(v.add, f, atFile(f, v.filename)))

func (*lint.fileOptionsUnsetVisitor).VisitOption
  nopanic
  requires element != nil
  requires v != nil
  modifies *
  ensures allcalls(v.add, f, false)
  ensures v.seen == (old(v.seen) || element.Name == v.fileOption) && v.fileOption == old(v.fileOption)
  ensures implies(element.Name == v.fileOption, v.position == element.Position) && implies(element.Name != v.fileOption, v.position == old(v.position))

func (*lint.fileOptionsUnsetVisitor).Finally
  requires v != nil
  modifies *
  ensures err == nil
  ensures allcalls(v.add, f, v.seen && at(f, v.position))
  ensures implies(v.seen, somecall(v.add, f, at(f, v.position)))

func (*lint.fileOptionsGoPackageNotLongFormVisitor).VisitOption
  nopanic
  requires element != nil
  requires v != nil
  modifies *
  ensures allcalls(v.add, f, false)
  ensures v.option == ite(element.Name == "go_package", element, old(v.option))

func (*lint.fileOptionsGoPackageNotLongFormVisitor).Finally
  requires v != nil
  modifies *
  ensures err == nil
  ensures allcalls(v.add, f, v.option != nil && strings.Contains(v.option.Constant.Source, ";") && at(f, v.option.Position))
  ensures implies(v.option != nil && strings.Contains(v.option.Constant.Source, ";"), somecall(v.add, f, at(f, v.option.Position)))

func (*lint.fileOptionsSameInDirVisitor).VisitOption
  nopanic
  requires element != nil
  requires v != nil
  modifies *
  ensures allcalls(v.add, f, element.Name == v.fileOption && old(v.option) != nil && at(f, element.Position))
  ensures implies(element.Name == v.fileOption && old(v.option) != nil, somecall(v.add, f, at(f, element.Position)))
  ensures v.option == ite(element.Name == v.fileOption && old(v.option) == nil, element, old(v.option)) && v.fileOption == old(v.fileOption) && v.fileOptionValues == old(v.fileOptionValues)

func (*lint.fileOptionsSameInDirVisitor).Finally
  requires v != nil
  modifies *
  requires v.fileOptionValues != nil
  ensures err == nil
  ensures forall(k, string, iff(has(v.fileOptionValues, k), old(has(v.fileOptionValues, k)) || k == ite(v.option == nil, "", v.option.Constant.Source)))
  ensures allcalls(v.add, f, false)

func (*lint.packageIsDeclaredVisitor).VisitPackage
  nopanic
  requires pkg != nil
  requires v != nil
  modifies *
  ensures allcalls(v.add, f, old(v.pkg) != nil && at(f, pkg.Position))
  ensures implies(old(v.pkg) != nil, somecall(v.add, f, at(f, pkg.Position)))
  ensures v.pkg == ite(old(v.pkg) == nil, pkg, old(v.pkg))

func (*lint.packageIsDeclaredVisitor).Finally
  requires v != nil
  modifies *
  ensures err == nil
  ensures allcalls(v.add, f, v.pkg == nil && atFile(f, v.filename))
  ensures implies(v.pkg == nil, somecall(v.add, f, atFile(f, v.filename)))

func (*lint.packageLowerCaseVisitor).VisitPackage
  nopanic
  requires pkg != nil
  requires v != nil
  modifies *
  ensures allcalls(v.add, f, old(v.pkg) != nil && at(f, pkg.Position))
  ensures implies(old(v.pkg) != nil, somecall(v.add, f, at(f, pkg.Position)))
  ensures v.pkg == ite(old(v.pkg) == nil, pkg, old(v.pkg))

func (*lint.packageLowerCaseVisitor).Finally
  requires v != nil
  modifies *
  ensures err == nil
  ensures allcalls(v.add, f, v.pkg != nil && !isPackageLowerCase(v.pkg.Name) && at(f, v.pkg.Position))
  ensures implies(v.pkg != nil && !isPackageLowerCase(v.pkg.Name), somecall(v.add, f, at(f, v.pkg.Position)))

func (*lint.packageLowerSnakeCaseVisitor).VisitPackage
  nopanic
  requires pkg != nil
  requires v != nil
  modifies *
  ensures allcalls(v.add, f, old(v.pkg) != nil && at(f, pkg.Position))
  ensures implies(old(v.pkg) != nil, somecall(v.add, f, at(f, pkg.Position)))
  ensures v.pkg == ite(old(v.pkg) == nil, pkg, old(v.pkg))

func (*lint.packageLowerSnakeCaseVisitor).Finally
  requires v != nil
  modifies *
  ensures err == nil
  ensures allcalls(v.add, f, v.pkg != nil && !strs.IsLowerSnakeCase(strings.Replace(v.pkg.Name, ".", "", -1)) && at(f, v.pkg.Position))
  ensures implies(v.pkg != nil && !strs.IsLowerSnakeCase(strings.Replace(v.pkg.Name, ".", "", -1)), somecall(v.add, f, at(f, v.pkg.Position)))

func (*lint.packageMajorBetaVersionedVisitor).VisitPackage
  nopanic
  requires pkg != nil
  requires v != nil
  modifies *
  ensures allcalls(v.add, f, old(v.pkg) != nil && at(f, pkg.Position))
  ensures implies(old(v.pkg) != nil, somecall(v.add, f, at(f, pkg.Position)))
  ensures v.pkg == ite(old(v.pkg) == nil, pkg, old(v.pkg))

func (*lint.packageMajorBetaVersionedVisitor).Finally
  requires v != nil
  modifies *
  ensures err == nil
  ensures allcalls(v.add, f, (v.pkg == nil && atFile(f, v.filename)) || (v.pkg != nil && !tup(protostrs.MajorBetaVersion(v.pkg.Name), 2) && at(f, v.pkg.Position)))
  ensures implies(v.pkg == nil, somecall(v.add, f, atFile(f, v.filename)))
  ensures implies(v.pkg != nil && !tup(protostrs.MajorBetaVersion(v.pkg.Name), 2), somecall(v.add, f, at(f, v.pkg.Position)))

func (*lint.packagesSameInDirVisitor).VisitPackage
  nopanic
  requires pkg != nil
  requires v != nil
  modifies *
  ensures allcalls(v.add, f, old(v.pkg) != nil && at(f, pkg.Position))
  ensures implies(old(v.pkg) != nil, somecall(v.add, f, at(f, pkg.Position)))
  ensures v.pkg == ite(old(v.pkg) == nil, pkg, old(v.pkg))

func (*lint.packagesSameInDirVisitor).Finally
  requires v != nil
  modifies *
  requires v.pkgs != nil
  ensures err == nil
  ensures forall(k, string, iff(has(v.pkgs, k), old(has(v.pkgs, k)) || (v.pkg != nil && k == v.pkg.Name)))
  ensures allcalls(v.add, f, false)

func lint.isPackageLowerCase
  pure
  ensures result == forall(i, int, implies(0 <= i && i < runes(packageName), okPackageRune(rune(packageName, i))))
def okPackageRune(r rune) bool = (97 <= r && r <= 122) || (48 <= r && r <= 57) || r == 46

func (*lint.packageNoKeywordsVisitor).VisitPackage
  nopanic
  requires pkg != nil
  requires v != nil
  modifies *
  requires v.baseAddSuppressableVisitor != nil
  requires v.fileDescriptor != nil
  ensures allcalls(v.add, ps, c, f, exists(i, int, 0 <= i && i < len(strings.Split(pkg.Name, ".")) && has(packageNoKeywordsKeywordsMap, strings.ToLower(strings.Split(pkg.Name, ".")[i]))) && at(f, pkg.Position) && ps == v.fileDescriptor.ProtoSet && c == pkg.Comment)
  ensures forall(i, int, implies(0 <= i && i < len(strings.Split(pkg.Name, ".")) && has(packageNoKeywordsKeywordsMap, strings.ToLower(strings.Split(pkg.Name, ".")[i])), somecall(v.add, ps, c, f, at(f, pkg.Position) && ps == v.fileDescriptor.ProtoSet && c == pkg.Comment)))

func (*lint.syntaxProto3Visitor).VisitSyntax
  nopanic
  requires syntax != nil
  requires v != nil
  modifies *
  ensures allcalls(v.add, f, old(v.syntax) != nil && at(f, syntax.Position))
  ensures implies(old(v.syntax) != nil, somecall(v.add, f, at(f, syntax.Position)))
  ensures v.syntax == ite(old(v.syntax) == nil, syntax, old(v.syntax))

func (*lint.syntaxProto3Visitor).Finally
  requires v != nil
  modifies *
  ensures err == nil
  ensures allcalls(v.add, f, (v.syntax == nil && atFile(f, v.filename)) || (v.syntax != nil && v.syntax.Value != "proto3" && at(f, v.syntax.Position)))
  ensures implies(v.syntax == nil, somecall(v.add, f, atFile(f, v.filename)))
  ensures implies(v.syntax != nil && v.syntax.Value != "proto3", somecall(v.add, f, at(f, v.syntax.Position)))

func (lint.requestResponseNamesMatchRPCVisitor).VisitRPC
  nopanic
  requires rpc != nil
  ensures allcalls(v.add, f, (rpc.RequestType != rpc.Name + "Request" || rpc.ReturnsType != rpc.Name + "Response") && at(f, rpc.Position))
  ensures implies(rpc.RequestType != rpc.Name + "Request" || rpc.ReturnsType != rpc.Name + "Response", somecall(v.add, f, at(f, rpc.Position)))

func (lint.rpcNamesCamelCaseVisitor).VisitRPC
  nopanic
  requires rpc != nil
  ensures allcalls(v.add, f, !strs.IsCamelCase(rpc.Name) && at(f, rpc.Position))
  ensures implies(!strs.IsCamelCase(rpc.Name), somecall(v.add, f, at(f, rpc.Position)))

func (lint.rpcNamesCapitalizedVisitor).VisitRPC
  nopanic
  requires rpc != nil
  ensures allcalls(v.add, f, !strs.IsCapitalized(rpc.Name) && at(f, rpc.Position))
  ensures implies(!strs.IsCapitalized(rpc.Name), somecall(v.add, f, at(f, rpc.Position)))

func (lint.rpcsHaveCommentsVisitor).VisitRPC
  nopanic
  requires rpc != nil
  ensures allcalls(v.add, f, !hasGolangStyleComment(rpc.Comment, rpc.Name) && at(f, rpc.Position))
  ensures implies(!hasGolangStyleComment(rpc.Comment, rpc.Name), somecall(v.add, f, at(f, rpc.Position)))

func (lint.rpcsHaveSentenceCommentsVisitor).VisitRPC
  nopanic
  requires rpc != nil
  ensures allcalls(v.add, f, !hasCompleteSentenceComment(rpc.Comment) && at(f, rpc.Position))
  ensures implies(!hasCompleteSentenceComment(rpc.Comment), somecall(v.add, f, at(f, rpc.Position)))

func (lint.rpcsNoStreamingVisitor).VisitRPC
  nopanic
  requires rpc != nil
  ensures allcalls(v.add, f, (rpc.StreamsRequest || rpc.StreamsReturns) && at(f, rpc.Position))
  ensures implies(rpc.StreamsRequest || rpc.StreamsReturns, somecall(v.add, f, at(f, rpc.Position)))

func (lint.serviceNamesAPISuffixVisitor).VisitService
  nopanic
  requires service != nil
  ensures allcalls(v.add, f, !strings.HasSuffix(service.Name, "API") && at(f, service.Position))
  ensures implies(!strings.HasSuffix(service.Name, "API"), somecall(v.add, f, at(f, service.Position)))

func (lint.serviceNamesCamelCaseVisitor).VisitService
  nopanic
  requires service != nil
  ensures allcalls(v.add, f, !strs.IsCamelCase(service.Name) && at(f, service.Position))
  ensures implies(!strs.IsCamelCase(service.Name), somecall(v.add, f, at(f, service.Position)))

func (lint.serviceNamesCapitalizedVisitor).VisitService
  nopanic
  requires service != nil
  ensures allcalls(v.add, f, !strs.IsCapitalized(service.Name) && at(f, service.Position))
  ensures implies(!strs.IsCapitalized(service.Name), somecall(v.add, f, at(f, service.Position)))

func (lint.servicesHaveCommentsVisitor).VisitService
  nopanic
  requires service != nil
  ensures allcalls(v.add, f, !hasGolangStyleComment(service.Comment, service.Name) && at(f, service.Position))
  ensures implies(!hasGolangStyleComment(service.Comment, service.Name), somecall(v.add, f, at(f, service.Position)))

func (lint.servicesHaveSentenceCommentsVisitor).VisitService
  nopanic
  requires service != nil
  ensures allcalls(v.add, f, !hasCompleteSentenceComment(service.Comment) && at(f, service.Position))
  ensures implies(!hasCompleteSentenceComment(service.Comment), somecall(v.add, f, at(f, service.Position)))

func (*lint.rpcOptionsNoGoogleAPIHTTPVisitor).VisitRPC
  nopanic
  requires rpc != nil
  requires v != nil
  modifies *
  requires v.baseAddSuppressableVisitor != nil
  requires v.fileDescriptor != nil
  loop 0 invariant v.rpc == rpc && v.baseAddSuppressableVisitor == old(v.baseAddSuppressableVisitor)
  requires forall(i, int, implies(0 <= i && i < len(rpc.Elements), rpc.Elements[i] != nil))
  ensures allcalls(v.add, ps, c, f, false)
  ensures forall(i, int, implies(0 <= i && i < len(rpc.Elements), somecall("(proto.Visitee).Accept", c, w, c == rpc.Elements[i])))
  ensures v.rpc == nil

func (*lint.rpcOptionsNoGoogleAPIHTTPVisitor).VisitOption
  nopanic
  requires option != nil
  requires v != nil
  modifies *
  requires v.baseAddSuppressableVisitor != nil
  requires v.fileDescriptor != nil
  ensures allcalls(v.add, ps, c, f, (v.rpc != nil && (strings.HasPrefix(option.Name, "(google.api.http)") || strings.HasPrefix(option.Name, "(.google.api.http)"))) && at(f, option.Position) && ps == v.fileDescriptor.ProtoSet && c == v.rpc.Comment)
  ensures implies(v.rpc != nil && (strings.HasPrefix(option.Name, "(google.api.http)") || strings.HasPrefix(option.Name, "(.google.api.http)")), somecall(v.add, ps, c, f, at(f, option.Position) && ps == v.fileDescriptor.ProtoSet && c == v.rpc.Comment))
  ensures v.rpc == old(v.rpc)

func (*lint.serviceNamesMatchFileNameVisitor).VisitService
  nopanic
  requires service != nil
  requires v != nil
  modifies *
  ensures allcalls(v.add, f, false)
  ensures v.filename == old(v.filename) && len(v.services) == len(old(v.services)) + 1 && v.services[len(old(v.services))] == service && forall(i, int, implies(0 <= i && i < len(old(v.services)), v.services[i] == old(v.services[i])))

func (*lint.serviceNamesMatchFileNameVisitor).Finally
  requires v != nil
  modifies *
  requires forall(i, int, implies(0 <= i && i < len(v.services), v.services[i] != nil))
  ensures err == nil
  ensures allcalls(v.add, f, exists(i, int, 0 <= i && i < len(v.services) && (len(v.services) > 1 || (len(v.services) == 1 && filepath.Base(v.filename) != strs.ToLowerSnakeCase(v.services[0].Name) + ".proto")) && at(f, v.services[i].Position)))
  ensures forall(i, int, implies(0 <= i && i < len(v.services) && (len(v.services) > 1 || (len(v.services) == 1 && filepath.Base(v.filename) != strs.ToLowerSnakeCase(v.services[0].Name) + ".proto")), somecall(v.add, f, at(f, v.services[i].Position))))

func (*lint.messagesHaveCommentsExceptRequestResponseTypesVisitor).VisitRPC
  nopanic
  requires rpc != nil
  requires v != nil
  modifies *
  ensures allcalls(v.add, f, false)
  ensures forall(k, string, iff(has(v.requestResponseTypes, k), old(has(v.requestResponseTypes, k)) || k == rpc.RequestType || k == rpc.ReturnsType))

func (*lint.messagesHaveCommentsExceptRequestResponseTypesVisitor).VisitGroup
  nopanic
  requires group != nil
  requires v != nil
  modifies *
  loop 0 invariant len(v.nestedMessageNames) == len(old(v.nestedMessageNames)) + 1 && v.nestedMessageNames[len(old(v.nestedMessageNames))] == group.Name && forall(i, int, implies(0 <= i && i < len(old(v.nestedMessageNames)), v.nestedMessageNames[i] == old(v.nestedMessageNames[i])))
  requires forall(i, int, implies(0 <= i && i < len(group.Elements), group.Elements[i] != nil))
  ensures allcalls(v.add, f, false)
  ensures forall(i, int, implies(0 <= i && i < len(group.Elements), somecall("(proto.Visitee).Accept", c, w, c == group.Elements[i])))
  ensures len(v.nestedMessageNames) == len(old(v.nestedMessageNames)) && forall(i, int, implies(0 <= i && i < len(old(v.nestedMessageNames)), v.nestedMessageNames[i] == old(v.nestedMessageNames[i])))

func (*lint.messagesHaveCommentsExceptRequestResponseTypesVisitor).VisitMessage
  nopanic
  requires message != nil
  requires v != nil
  modifies *
  loop 0 invariant len(v.nestedMessageNames) == len(old(v.nestedMessageNames)) + 1 && v.nestedMessageNames[len(old(v.nestedMessageNames))] == message.Name && forall(i, int, implies(0 <= i && i < len(old(v.nestedMessageNames)), v.nestedMessageNames[i] == old(v.nestedMessageNames[i])))
  loop 0 invariant v.messageNameToMessage == old(v.messageNameToMessage)
  requires forall(i, int, implies(0 <= i && i < len(message.Elements), message.Elements[i] != nil))
  ensures allcalls(v.add, f, false)
  ensures forall(i, int, implies(0 <= i && i < len(message.Elements), somecall("(proto.Visitee).Accept", c, w, c == message.Elements[i])))
  ensures len(v.nestedMessageNames) == len(old(v.nestedMessageNames)) && forall(i, int, implies(0 <= i && i < len(old(v.nestedMessageNames)), v.nestedMessageNames[i] == old(v.nestedMessageNames[i])))
  ensures implies(!message.IsExtend && len(old(v.nestedMessageNames)) == 0, has(v.messageNameToMessage, message.Name) && v.messageNameToMessage[message.Name] == message)
  ensures implies(message.IsExtend, v.messageNameToMessage == old(v.messageNameToMessage))

func (*lint.messagesHaveCommentsExceptRequestResponseTypesVisitor).Finally
  requires v != nil
  modifies *
  requires forall(k, string, implies(has(v.messageNameToMessage, k), v.messageNameToMessage[k] != nil))
  ensures err == nil
  ensures allcalls(v.add, f, exists(k, string, has(v.messageNameToMessage, k) && !v.messageNameToMessage[k].IsExtend && !has(v.requestResponseTypes, k) && !hasGolangStyleComment(v.messageNameToMessage[k].Comment, v.messageNameToMessage[k].Name) && at(f, v.messageNameToMessage[k].Position)))
  ensures forall(k, string, implies(has(v.messageNameToMessage, k) && !v.messageNameToMessage[k].IsExtend && !has(v.requestResponseTypes, k) && !hasGolangStyleComment(v.messageNameToMessage[k].Comment, v.messageNameToMessage[k].Name), somecall(v.add, f, at(f, v.messageNameToMessage[k].Position))))

func (*lint.messagesHaveSentenceCommentsExceptRequestResponseTypesVisitor).VisitRPC
  nopanic
  requires rpc != nil
  requires v != nil
  modifies *
  ensures allcalls(v.add, f, false)
  ensures forall(k, string, iff(has(v.requestResponseTypes, k), old(has(v.requestResponseTypes, k)) || k == rpc.RequestType || k == rpc.ReturnsType))

func (*lint.messagesHaveSentenceCommentsExceptRequestResponseTypesVisitor).VisitGroup
  nopanic
  requires group != nil
  requires v != nil
  modifies *
  loop 0 invariant len(v.nestedMessageNames) == len(old(v.nestedMessageNames)) + 1 && v.nestedMessageNames[len(old(v.nestedMessageNames))] == group.Name && forall(i, int, implies(0 <= i && i < len(old(v.nestedMessageNames)), v.nestedMessageNames[i] == old(v.nestedMessageNames[i])))
  requires forall(i, int, implies(0 <= i && i < len(group.Elements), group.Elements[i] != nil))
  ensures allcalls(v.add, f, false)
  ensures forall(i, int, implies(0 <= i && i < len(group.Elements), somecall("(proto.Visitee).Accept", c, w, c == group.Elements[i])))
  ensures len(v.nestedMessageNames) == len(old(v.nestedMessageNames)) && forall(i, int, implies(0 <= i && i < len(old(v.nestedMessageNames)), v.nestedMessageNames[i] == old(v.nestedMessageNames[i])))

func (*lint.messagesHaveSentenceCommentsExceptRequestResponseTypesVisitor).VisitMessage
  nopanic
  requires message != nil
  requires v != nil
  modifies *
  loop 0 invariant len(v.nestedMessageNames) == len(old(v.nestedMessageNames)) + 1 && v.nestedMessageNames[len(old(v.nestedMessageNames))] == message.Name && forall(i, int, implies(0 <= i && i < len(old(v.nestedMessageNames)), v.nestedMessageNames[i] == old(v.nestedMessageNames[i])))
  loop 0 invariant v.messageNameToMessage == old(v.messageNameToMessage)
  requires forall(i, int, implies(0 <= i && i < len(message.Elements), message.Elements[i] != nil))
  ensures allcalls(v.add, f, false)
  ensures forall(i, int, implies(0 <= i && i < len(message.Elements), somecall("(proto.Visitee).Accept", c, w, c == message.Elements[i])))
  ensures len(v.nestedMessageNames) == len(old(v.nestedMessageNames)) && forall(i, int, implies(0 <= i && i < len(old(v.nestedMessageNames)), v.nestedMessageNames[i] == old(v.nestedMessageNames[i])))
  ensures implies(!message.IsExtend && len(old(v.nestedMessageNames)) == 0, has(v.messageNameToMessage, message.Name) && v.messageNameToMessage[message.Name] == message)
  ensures implies(message.IsExtend, v.messageNameToMessage == old(v.messageNameToMessage))

func (*lint.messagesHaveSentenceCommentsExceptRequestResponseTypesVisitor).Finally
  requires v != nil
  modifies *
  requires forall(k, string, implies(has(v.messageNameToMessage, k), v.messageNameToMessage[k] != nil))
  ensures err == nil
  ensures allcalls(v.add, f, exists(k, string, has(v.messageNameToMessage, k) && !v.messageNameToMessage[k].IsExtend && !has(v.requestResponseTypes, k) && !hasCompleteSentenceComment(v.messageNameToMessage[k].Comment) && at(f, v.messageNameToMessage[k].Position)))
  ensures forall(k, string, implies(has(v.messageNameToMessage, k) && !v.messageNameToMessage[k].IsExtend && !has(v.requestResponseTypes, k) && !hasCompleteSentenceComment(v.messageNameToMessage[k].Comment), somecall(v.add, f, at(f, v.messageNameToMessage[k].Position))))

func (*lint.messagesNotEmptyExceptRequestResponseTypesVisitor).VisitRPC
  nopanic
  requires rpc != nil
  requires v != nil
  modifies *
  ensures allcalls(v.add, f, false)
  ensures forall(k, string, iff(has(v.requestResponseTypes, k), old(has(v.requestResponseTypes, k)) || k == rpc.RequestType || k == rpc.ReturnsType))

func (*lint.messagesNotEmptyExceptRequestResponseTypesVisitor).VisitNormalField
  nopanic
  requires field != nil
  requires field.Field != nil
  requires v != nil
  modifies *
  ensures allcalls(v.add, f, false)
  ensures v.curFieldCount == old(v.curFieldCount) + 1

func (*lint.messagesNotEmptyExceptRequestResponseTypesVisitor).VisitOneofField
  nopanic
  requires field != nil
  requires field.Field != nil
  requires v != nil
  modifies *
  ensures allcalls(v.add, f, false)
  ensures v.curFieldCount == old(v.curFieldCount) + 1

func (*lint.messagesNotEmptyExceptRequestResponseTypesVisitor).VisitMapField
  nopanic
  requires field != nil
  requires field.Field != nil
  requires v != nil
  modifies *
  ensures allcalls(v.add, f, false)
  ensures v.curFieldCount == old(v.curFieldCount) + 1

func (*lint.messagesNotEmptyExceptRequestResponseTypesVisitor).VisitGroup
  nopanic
  requires group != nil
  requires v != nil
  modifies *
  loop 0 invariant len(v.nestedMessageNames) == len(old(v.nestedMessageNames)) + 1 && v.nestedMessageNames[len(old(v.nestedMessageNames))] == group.Name && forall(i, int, implies(0 <= i && i < len(old(v.nestedMessageNames)), v.nestedMessageNames[i] == old(v.nestedMessageNames[i])))
  requires forall(i, int, implies(0 <= i && i < len(group.Elements), group.Elements[i] != nil))
  ensures allcalls(v.add, f, false)
  ensures forall(i, int, implies(0 <= i && i < len(group.Elements), somecall("(proto.Visitee).Accept", c, w, c == group.Elements[i])))
  ensures len(v.nestedMessageNames) == len(old(v.nestedMessageNames)) && forall(i, int, implies(0 <= i && i < len(old(v.nestedMessageNames)), v.nestedMessageNames[i] == old(v.nestedMessageNames[i])))
  ensures v.curFieldCount == old(v.curFieldCount) + 1

func (*lint.messagesNotEmptyExceptRequestResponseTypesVisitor).VisitMessage
  nopanic
  requires message != nil
  requires v != nil
  modifies *
  loop 0 invariant len(v.nestedMessageNames) == len(old(v.nestedMessageNames)) + 1 && v.nestedMessageNames[len(old(v.nestedMessageNames))] == message.Name && forall(i, int, implies(0 <= i && i < len(old(v.nestedMessageNames)), v.nestedMessageNames[i] == old(v.nestedMessageNames[i])))
  loop 0 invariant v.messageNameToWrapper == old(v.messageNameToWrapper)
  requires forall(i, int, implies(0 <= i && i < len(message.Elements), message.Elements[i] != nil))
  ensures allcalls(v.add, f, false)
  ensures forall(i, int, implies(0 <= i && i < len(message.Elements), somecall("(proto.Visitee).Accept", c, w, c == message.Elements[i])))
  ensures len(v.nestedMessageNames) == len(old(v.nestedMessageNames)) && forall(i, int, implies(0 <= i && i < len(old(v.nestedMessageNames)), v.nestedMessageNames[i] == old(v.nestedMessageNames[i])))
  ensures v.curFieldCount == old(v.curFieldCount)
  ensures implies(!message.IsExtend && len(old(v.nestedMessageNames)) == 0, has(v.messageNameToWrapper, message.Name) && v.messageNameToWrapper[message.Name] != nil && v.messageNameToWrapper[message.Name].message == message)
  ensures implies(message.IsExtend, v.messageNameToWrapper == old(v.messageNameToWrapper))

func (*lint.messagesNotEmptyExceptRequestResponseTypesVisitor).Finally
  requires v != nil
  modifies *
  requires forall(k, string, implies(has(v.messageNameToWrapper, k), v.messageNameToWrapper[k] != nil && v.messageNameToWrapper[k].message != nil))
  ensures err == nil
  ensures allcalls(v.add, f, exists(k, string, has(v.messageNameToWrapper, k) && !has(v.requestResponseTypes, k) && v.messageNameToWrapper[k].fieldCount == 0 && at(f, v.messageNameToWrapper[k].message.Position)))
  ensures forall(k, string, implies(has(v.messageNameToWrapper, k) && !has(v.requestResponseTypes, k) && v.messageNameToWrapper[k].fieldCount == 0, somecall(v.add, f, at(f, v.messageNameToWrapper[k].message.Position))))

func (*lint.requestResponseTypesInSameFileVisitor).VisitRPC
  nopanic
  requires rpc != nil
  requires v != nil
  modifies *
  ensures allcalls(v.add, f, false)
  ensures len(v.rpcs) == len(old(v.rpcs)) + 1 && v.rpcs[len(old(v.rpcs))].RequestType == rpc.RequestType && v.rpcs[len(old(v.rpcs))].ResponseType == rpc.ReturnsType && v.rpcs[len(old(v.rpcs))].Position == rpc.Position
  ensures forall(i, int, implies(0 <= i && i < len(old(v.rpcs)), v.rpcs[i] == old(v.rpcs[i])))

func (*lint.requestResponseTypesInSameFileVisitor).VisitGroup
  nopanic
  requires group != nil
  requires v != nil
  modifies *
  loop 0 invariant len(v.nestedMessageNames) == len(old(v.nestedMessageNames)) + 1 && v.nestedMessageNames[len(old(v.nestedMessageNames))] == group.Name && forall(i, int, implies(0 <= i && i < len(old(v.nestedMessageNames)), v.nestedMessageNames[i] == old(v.nestedMessageNames[i])))
  requires forall(i, int, implies(0 <= i && i < len(group.Elements), group.Elements[i] != nil))
  ensures allcalls(v.add, f, false)
  ensures forall(i, int, implies(0 <= i && i < len(group.Elements), somecall("(proto.Visitee).Accept", c, w, c == group.Elements[i])))
  ensures len(v.nestedMessageNames) == len(old(v.nestedMessageNames)) && forall(i, int, implies(0 <= i && i < len(old(v.nestedMessageNames)), v.nestedMessageNames[i] == old(v.nestedMessageNames[i])))

func (*lint.requestResponseTypesInSameFileVisitor).VisitMessage
  nopanic
  requires message != nil
  requires v != nil
  modifies *
  loop 0 invariant len(v.nestedMessageNames) == len(old(v.nestedMessageNames)) + 1 && v.nestedMessageNames[len(old(v.nestedMessageNames))] == message.Name && forall(i, int, implies(0 <= i && i < len(old(v.nestedMessageNames)), v.nestedMessageNames[i] == old(v.nestedMessageNames[i])))
  loop 0 invariant v.messageTypes == old(v.messageTypes)
  requires forall(i, int, implies(0 <= i && i < len(message.Elements), message.Elements[i] != nil))
  ensures allcalls(v.add, f, false)
  ensures forall(i, int, implies(0 <= i && i < len(message.Elements), somecall("(proto.Visitee).Accept", c, w, c == message.Elements[i])))
  ensures len(v.nestedMessageNames) == len(old(v.nestedMessageNames)) && forall(i, int, implies(0 <= i && i < len(old(v.nestedMessageNames)), v.nestedMessageNames[i] == old(v.nestedMessageNames[i])))
  ensures implies(!message.IsExtend && len(old(v.nestedMessageNames)) == 0, has(v.messageTypes, message.Name))
  ensures implies(message.IsExtend, v.messageTypes == old(v.messageTypes))
extern strings.ContainsRune pure
def badRPCType(m map[string]struct{}, t string) bool = !has(m, t) || strings.ContainsRune(t, 46)

func (*lint.requestResponseTypesInSameFileVisitor).Finally
  requires v != nil
  modifies *
  requires forall(i, int, implies(0 <= i && i < len(v.rpcs), v.rpcs[i] != nil))
  ensures err == nil
  ensures allcalls(v.add, f, exists(i, int, 0 <= i && i < len(v.rpcs) && (badRPCType(v.messageTypes, v.rpcs[i].RequestType) || badRPCType(v.messageTypes, v.rpcs[i].ResponseType)) && at(f, v.rpcs[i].Position)))
  ensures forall(i, int, implies(0 <= i && i < len(v.rpcs) && (badRPCType(v.messageTypes, v.rpcs[i].RequestType) || badRPCType(v.messageTypes, v.rpcs[i].ResponseType)), somecall(v.add, f, at(f, v.rpcs[i].Position))))

func (*lint.requestResponseTypesAfterServiceVisitor).VisitRPC
  nopanic
  requires rpc != nil
  requires v != nil
  modifies *
  ensures allcalls(v.add, f, false)
  ensures len(v.rpcs) == len(old(v.rpcs)) + 1 && v.rpcs[len(old(v.rpcs))].RequestType == rpc.RequestType && v.rpcs[len(old(v.rpcs))].ResponseType == rpc.ReturnsType && v.rpcs[len(old(v.rpcs))].Position == rpc.Position
  ensures forall(i, int, implies(0 <= i && i < len(old(v.rpcs)), v.rpcs[i] == old(v.rpcs[i])))

func (*lint.requestResponseTypesAfterServiceVisitor).VisitMessage
  nopanic
  requires message != nil
  requires v != nil
  modifies *
  ensures allcalls(v.add, f, false)
  ensures implies(!message.IsExtend, has(v.messageNameToMessage, message.Name) && v.messageNameToMessage[message.Name] == message)
  ensures implies(message.IsExtend, v.messageNameToMessage == old(v.messageNameToMessage))
  ensures forall(k, string, implies(k != message.Name, has(v.messageNameToMessage, k) == old(has(v.messageNameToMessage, k))))

func (*lint.requestResponseTypesOnlyInFileVisitor).VisitRPC
  nopanic
  requires rpc != nil
  requires v != nil
  modifies *
  ensures allcalls(v.add, f, false)
  ensures len(v.rpcs) == len(old(v.rpcs)) + 1 && v.rpcs[len(old(v.rpcs))].RequestType == rpc.RequestType && v.rpcs[len(old(v.rpcs))].ResponseType == rpc.ReturnsType && v.rpcs[len(old(v.rpcs))].Position == rpc.Position
  ensures forall(i, int, implies(0 <= i && i < len(old(v.rpcs)), v.rpcs[i] == old(v.rpcs[i])))

func (*lint.requestResponseTypesOnlyInFileVisitor).VisitMessage
  nopanic
  requires message != nil
  requires v != nil
  modifies *
  ensures allcalls(v.add, f, false)
  ensures implies(!message.IsExtend, has(v.messageNameToMessage, message.Name) && v.messageNameToMessage[message.Name] == message)
  ensures implies(message.IsExtend, v.messageNameToMessage == old(v.messageNameToMessage))

func (*lint.requestResponseTypesOnlyInFileVisitor).VisitEnum
  nopanic
  requires enum != nil
  requires v != nil
  modifies *
  ensures allcalls(v.add, f, false)
  ensures has(v.enumNameToEnum, enum.Name) && v.enumNameToEnum[enum.Name] == enum

func (*lint.requestResponseTypesUniqueVisitor).VisitRPC
  nopanic
  requires rpc != nil
  requires v != nil
  modifies *
  ensures allcalls(v.add, f, (old(has(v.seenTypes, rpc.RequestType)) || old(has(v.seenTypes, rpc.ReturnsType)) || rpc.RequestType == rpc.ReturnsType) && at(f, rpc.Position))
  ensures implies(old(has(v.seenTypes, rpc.RequestType)) || old(has(v.seenTypes, rpc.ReturnsType)) || rpc.RequestType == rpc.ReturnsType, somecall(v.add, f, at(f, rpc.Position)))
  ensures has(v.seenTypes, rpc.RequestType) && has(v.seenTypes, rpc.ReturnsType)

func (*lint.requestResponseTypesAfterServiceVisitor).Finally
  requires v != nil
  modifies *
  requires forall(i, int, implies(0 <= i && i < len(v.rpcs), v.rpcs[i] != nil))
  requires forall(k, string, implies(has(v.messageNameToMessage, k), v.messageNameToMessage[k] != nil))
  ensures err == nil
  ensures allcalls(v.add, f, exists(i, int, 0 <= i && i < len(v.rpcs) && ((has(v.messageNameToMessage, v.rpcs[i].RequestType) && v.rpcs[i].Position.Line > v.messageNameToMessage[v.rpcs[i].RequestType].Position.Line && at(f, v.messageNameToMessage[v.rpcs[i].RequestType].Position)) || ((has(v.messageNameToMessage, v.rpcs[i].ResponseType) && v.rpcs[i].Position.Line > v.messageNameToMessage[v.rpcs[i].ResponseType].Position.Line || (has(v.messageNameToMessage, v.rpcs[i].RequestType) && has(v.messageNameToMessage, v.rpcs[i].ResponseType) && v.messageNameToMessage[v.rpcs[i].RequestType].Position.Line > v.messageNameToMessage[v.rpcs[i].ResponseType].Position.Line)) && at(f, v.messageNameToMessage[v.rpcs[i].ResponseType].Position)))))
  ensures forall(i, int, implies(0 <= i && i < len(v.rpcs) && has(v.messageNameToMessage, v.rpcs[i].RequestType) && v.rpcs[i].Position.Line > v.messageNameToMessage[v.rpcs[i].RequestType].Position.Line, somecall(v.add, f, at(f, v.messageNameToMessage[v.rpcs[i].RequestType].Position))))
  ensures forall(i, int, implies(0 <= i && i < len(v.rpcs) && (has(v.messageNameToMessage, v.rpcs[i].ResponseType) && v.rpcs[i].Position.Line > v.messageNameToMessage[v.rpcs[i].ResponseType].Position.Line || (has(v.messageNameToMessage, v.rpcs[i].RequestType) && has(v.messageNameToMessage, v.rpcs[i].ResponseType) && v.messageNameToMessage[v.rpcs[i].RequestType].Position.Line > v.messageNameToMessage[v.rpcs[i].ResponseType].Position.Line)), somecall(v.add, f, at(f, v.messageNameToMessage[v.rpcs[i].ResponseType].Position))))

func (*lint.fileOptionsEqualVisitor).Finally
  requires v != nil
  modifies *
  ensures implies(v.descriptor == nil || v.pkg == nil || v.option == nil || v.descriptor.Filename != "", err == nil)
  ensures allcalls(v.add, f, v.descriptor != nil && v.pkg != nil && v.option != nil && v.descriptor.Filename != "" && ret(v.expectedValueFunc, v.descriptor, v.pkg) != v.option.Constant.Source && at(f, v.option.Position))
  ensures implies(v.descriptor != nil && v.pkg != nil && v.option != nil && v.descriptor.Filename != "" && ret(v.expectedValueFunc, v.descriptor, v.pkg) != v.option.Constant.Source, somecall(v.add, f, at(f, v.option.Position)))

func (*lint.requestResponseTypesOnlyInFileVisitor).Finally
  requires v != nil
  modifies *
  requires forall(i, int, implies(0 <= i && i < len(v.rpcs), v.rpcs[i] != nil))
  requires forall(k, string, implies(has(v.messageNameToMessage, k), v.messageNameToMessage[k] != nil))
  requires forall(k, string, implies(has(v.enumNameToEnum, k), v.enumNameToEnum[k] != nil))
  loop 0 invariant forall(k, string, iff(has(v.messageNameToMessage, k), old(has(v.messageNameToMessage, k)) && forall(i, int, implies(0 <= i && i <= rangeindex, v.rpcs[i].RequestType != k && v.rpcs[i].ResponseType != k))))
  ensures err == nil
  ensures allcalls(v.add, f, (len(v.rpcs) > 0 && exists(k, string, has(v.enumNameToEnum, k) && at(f, v.enumNameToEnum[k].Position))) || exists(k, string, len(old(v.rpcs)) > 0 && old(has(v.messageNameToMessage, k)) && forall(i, int, implies(0 <= i && i < len(v.rpcs), v.rpcs[i].RequestType != k && v.rpcs[i].ResponseType != k)) && at(f, old(v.messageNameToMessage[k].Position))))
  ensures forall(k, string, implies(len(v.rpcs) > 0 && has(v.enumNameToEnum, k), somecall(v.add, f, at(f, v.enumNameToEnum[k].Position))))
  ensures forall(k, string, implies(len(old(v.rpcs)) > 0 && old(has(v.messageNameToMessage, k)) && forall(i, int, implies(0 <= i && i < len(v.rpcs), v.rpcs[i].RequestType != k && v.rpcs[i].ResponseType != k)), somecall(v.add, f, at(f, old(v.messageNameToMessage[k].Position)))))

func lint.isAllowedServiceNamePlural
  pure
  ensures result == (strings.ToUpper(word) == word || has(allowedServiceNamePlurals, strings.ToLower(word)))
extern flect.New pure
extern (flect.Ident).Singularize pure
extern (flect.Ident).String pure
func strs.SplitCamelCaseWord
  opaque

func (*lint.serviceNamesNoPluralsVisitor).VisitService
  nopanic
  requires service != nil
  requires v != nil
  modifies *
  requires v.baseAddSuppressableVisitor != nil
  requires v.fileDescriptor != nil
  ensures allcalls(v.add, ps, c, f, exists(i, int, 0 <= i && i < len(strs.SplitCamelCaseWord(service.Name)) && flect.New(strings.ToLower(strs.SplitCamelCaseWord(service.Name)[i])).Singularize().String() != strings.ToLower(strs.SplitCamelCaseWord(service.Name)[i]) && !isAllowedServiceNamePlural(strs.SplitCamelCaseWord(service.Name)[i])) && at(f, service.Position) && ps == v.fileDescriptor.ProtoSet && c == service.Comment)
  ensures forall(i, int, implies(0 <= i && i < len(strs.SplitCamelCaseWord(service.Name)) && flect.New(strings.ToLower(strs.SplitCamelCaseWord(service.Name)[i])).Singularize().String() != strings.ToLower(strs.SplitCamelCaseWord(service.Name)[i]) && !isAllowedServiceNamePlural(strs.SplitCamelCaseWord(service.Name)[i]), somecall(v.add, ps, c, f, at(f, service.Position) && ps == v.fileDescriptor.ProtoSet && c == service.Comment)))

func lint.checkCommentsNoCStyle
  ensures somecall("lint.runVisitor", v, d, typeis(v, *commentsNoCStyleVisitor) && d == descriptors && as(v, *commentsNoCStyleVisitor).add == add)

func lint.checkCommentsNoInline
  ensures somecall("lint.runVisitor", v, d, typeis(v, *commentsNoInlineVisitor) && d == descriptors && as(v, *commentsNoInlineVisitor).add == add)

func lint.checkEnumFieldNamesUpperSnakeCase
  ensures somecall("lint.runVisitor", v, d, typeis(v, enumFieldNamesUpperSnakeCaseVisitor) && d == descriptors && as(v, enumFieldNamesUpperSnakeCaseVisitor).add == add)

func lint.checkEnumFieldNamesUppercase
  ensures somecall("lint.runVisitor", v, d, typeis(v, enumFieldNamesUppercaseVisitor) && d == descriptors && as(v, enumFieldNamesUppercaseVisitor).add == add)

func lint.checkEnumFieldPrefixes
  ensures somecall("lint.runVisitor", v, d, typeis(v, *enumFieldPrefixesVisitor) && d == descriptors && as(v, *enumFieldPrefixesVisitor).add == add)

func lint.checkEnumFieldPrefixesExceptMessage
  ensures somecall("lint.runVisitor", v, d, typeis(v, *enumFieldPrefixesExceptMessageVisitor) && d == descriptors && as(v, *enumFieldPrefixesExceptMessageVisitor).add == add)

func lint.checkEnumFieldsHaveComments
  ensures somecall("lint.runVisitor", v, d, typeis(v, enumFieldsHaveCommentsVisitor) && d == descriptors && as(v, enumFieldsHaveCommentsVisitor).add == add)

func lint.checkEnumFieldsHaveSentenceComments
  ensures somecall("lint.runVisitor", v, d, typeis(v, enumFieldsHaveSentenceCommentsVisitor) && d == descriptors && as(v, enumFieldsHaveSentenceCommentsVisitor).add == add)

func lint.checkEnumNamesCamelCase
  ensures somecall("lint.runVisitor", v, d, typeis(v, enumNamesCamelCaseVisitor) && d == descriptors && as(v, enumNamesCamelCaseVisitor).add == add)

func lint.checkEnumNamesCapitalized
  ensures somecall("lint.runVisitor", v, d, typeis(v, enumNamesCapitalizedVisitor) && d == descriptors && as(v, enumNamesCapitalizedVisitor).add == add)

func lint.checkEnumZeroValuesInvalid
  ensures somecall("lint.runVisitor", v, d, typeis(v, *enumZeroValuesInvalidVisitor) && d == descriptors && as(v, *enumZeroValuesInvalidVisitor).add == add)

func lint.checkEnumZeroValuesInvalidExceptMessage
  ensures somecall("lint.runVisitor", v, d, typeis(v, *enumZeroValuesInvalidExceptMessageVisitor) && d == descriptors && as(v, *enumZeroValuesInvalidExceptMessageVisitor).add == add)

func lint.checkEnumsHaveComments
  ensures somecall("lint.runVisitor", v, d, typeis(v, enumsHaveCommentsVisitor) && d == descriptors && as(v, enumsHaveCommentsVisitor).add == add)

func lint.checkEnumsHaveSentenceComments
  ensures somecall("lint.runVisitor", v, d, typeis(v, enumsHaveSentenceCommentsVisitor) && d == descriptors && as(v, enumsHaveSentenceCommentsVisitor).add == add)

func lint.checkEnumsNoAllowAlias
  ensures somecall("lint.runVisitor", v, d, typeis(v, enumsNoAllowAliasVisitor) && d == descriptors && as(v, enumsNoAllowAliasVisitor).add == add)

func lint.checkFieldsNotReserved
  ensures somecall("lint.runVisitor", v, d, typeis(v, fieldsNotReservedVisitor) && d == descriptors && as(v, fieldsNotReservedVisitor).add == add)

func lint.checkFileHeader
  ensures somecall("lint.runVisitor", v, d, typeis(v, fileHeaderVisitor) && d == descriptors && as(v, fileHeaderVisitor).add == add)

func lint.checkFileNamesLowerSnakeCase
  ensures somecall("lint.runVisitor", v, d, typeis(v, fileNamesLowerSnakeCaseVisitor) && d == descriptors && as(v, fileNamesLowerSnakeCaseVisitor).add == add)

func lint.newCheckFileOptionsEqual$1
  ensures somecall("lint.runVisitor", v, d, typeis(v, *fileOptionsEqualVisitor) && d == descriptors && as(v, *fileOptionsEqualVisitor).add == add)

func lint.newCheckFileOptionsRequire$1
  ensures somecall("lint.runVisitor", v, d, typeis(v, *fileOptionsRequireVisitor) && d == descriptors && as(v, *fileOptionsRequireVisitor).add == add)

func lint.newCheckFileOptionsUnset$1
  ensures somecall("lint.runVisitor", v, d, typeis(v, *fileOptionsUnsetVisitor) && d == descriptors && as(v, *fileOptionsUnsetVisitor).add == add)

func lint.checkFileOptionsGoPackageNotLongForm
  ensures somecall("lint.runVisitor", v, d, typeis(v, *fileOptionsGoPackageNotLongFormVisitor) && d == descriptors && as(v, *fileOptionsGoPackageNotLongFormVisitor).add == add)

func lint.checkGogoNotImported
  ensures somecall("lint.runVisitor", v, d, typeis(v, *gogoNotImportedVisitor) && d == descriptors && as(v, *gogoNotImportedVisitor).add == add)

func lint.checkImportsNotPublic
  ensures somecall("lint.runVisitor", v, d, typeis(v, *importsNotPublicVisitor) && d == descriptors && as(v, *importsNotPublicVisitor).add == add)

func lint.checkImportsNotWeak
  ensures somecall("lint.runVisitor", v, d, typeis(v, *importsNotWeakVisitor) && d == descriptors && as(v, *importsNotWeakVisitor).add == add)

func lint.checkMessageFieldNamesFilename
  ensures somecall("lint.runVisitor", v, d, typeis(v, messageFieldNamesFilenameVisitor) && d == descriptors && as(v, messageFieldNamesFilenameVisitor).add == add)

func lint.checkMessageFieldNamesFilepath
  ensures somecall("lint.runVisitor", v, d, typeis(v, messageFieldNamesFilepathVisitor) && d == descriptors && as(v, messageFieldNamesFilepathVisitor).add == add)

func lint.checkMessageFieldNamesLowerSnakeCase
  ensures somecall("lint.runVisitor", v, d, typeis(v, messageFieldNamesLowerSnakeCaseVisitor) && d == descriptors && as(v, messageFieldNamesLowerSnakeCaseVisitor).add == add)

func lint.checkMessageFieldNamesLowercase
  ensures somecall("lint.runVisitor", v, d, typeis(v, messageFieldNamesLowercaseVisitor) && d == descriptors && as(v, messageFieldNamesLowercaseVisitor).add == add)

func lint.checkMessageFieldNamesNoDescriptor
  ensures somecall("lint.runVisitor", v, d, typeis(v, messageFieldNamesNoDescriptorVisitor) && d == descriptors && as(v, messageFieldNamesNoDescriptorVisitor).add == add)

func lint.checkMessageFieldsDuration
  ensures somecall("lint.runVisitor", v, d, typeis(v, messageFieldsDurationVisitor) && d == descriptors && as(v, messageFieldsDurationVisitor).add == add)

func lint.checkMessageFieldsHaveComments
  ensures somecall("lint.runVisitor", v, d, typeis(v, messageFieldsHaveCommentsVisitor) && d == descriptors && as(v, messageFieldsHaveCommentsVisitor).add == add)

func lint.checkMessageFieldsHaveSentenceComments
  ensures somecall("lint.runVisitor", v, d, typeis(v, messageFieldsHaveSentenceCommentsVisitor) && d == descriptors && as(v, messageFieldsHaveSentenceCommentsVisitor).add == add)

func lint.checkMessageFieldsNoJSONName
  ensures somecall("lint.runVisitor", v, d, typeis(v, messageFieldsNoJSONNameVisitor) && d == descriptors && as(v, messageFieldsNoJSONNameVisitor).add == add)

func lint.checkMessageFieldsNotFloats
  ensures somecall("lint.runVisitor", v, d, typeis(v, *messageFieldsNotFloatsVisitor) && d == descriptors && as(v, *messageFieldsNotFloatsVisitor).add == add)

func lint.checkMessageFieldsTime
  ensures somecall("lint.runVisitor", v, d, typeis(v, messageFieldsTimeVisitor) && d == descriptors && as(v, messageFieldsTimeVisitor).add == add)

func lint.checkMessageNamesCamelCase
  ensures somecall("lint.runVisitor", v, d, typeis(v, messageNamesCamelCaseVisitor) && d == descriptors && as(v, messageNamesCamelCaseVisitor).add == add)

func lint.checkMessageNamesCapitalized
  ensures somecall("lint.runVisitor", v, d, typeis(v, messageNamesCapitalizedVisitor) && d == descriptors && as(v, messageNamesCapitalizedVisitor).add == add)

func lint.checkMessagesHaveComments
  ensures somecall("lint.runVisitor", v, d, typeis(v, messagesHaveCommentsVisitor) && d == descriptors && as(v, messagesHaveCommentsVisitor).add == add)

func lint.checkMessagesHaveCommentsExceptRequestResponseTypes
  ensures somecall("lint.runVisitor", v, d, typeis(v, *messagesHaveCommentsExceptRequestResponseTypesVisitor) && d == descriptors && as(v, *messagesHaveCommentsExceptRequestResponseTypesVisitor).add == add)

func lint.checkMessagesHaveSentenceCommentsExceptRequestResponseTypes
  ensures somecall("lint.runVisitor", v, d, typeis(v, *messagesHaveSentenceCommentsExceptRequestResponseTypesVisitor) && d == descriptors && as(v, *messagesHaveSentenceCommentsExceptRequestResponseTypesVisitor).add == add)

func lint.checkMessagesNotEmptyExceptRequestResponseTypes
  ensures somecall("lint.runVisitor", v, d, typeis(v, *messagesNotEmptyExceptRequestResponseTypesVisitor) && d == descriptors && as(v, *messagesNotEmptyExceptRequestResponseTypesVisitor).add == add)

func lint.newCheckNames$1
  ensures somecall("lint.runVisitor", v, d, typeis(v, *namesVisitor) && d == descriptors && as(v, *namesVisitor).add == add)

func lint.checkOneofNamesLowerSnakeCase
  ensures somecall("lint.runVisitor", v, d, typeis(v, oneofNamesLowerSnakeCaseVisitor) && d == descriptors && as(v, oneofNamesLowerSnakeCaseVisitor).add == add)

func lint.checkPackageIsDeclared
  ensures somecall("lint.runVisitor", v, d, typeis(v, *packageIsDeclaredVisitor) && d == descriptors && as(v, *packageIsDeclaredVisitor).add == add)

func lint.checkPackageLowerCase
  ensures somecall("lint.runVisitor", v, d, typeis(v, *packageLowerCaseVisitor) && d == descriptors && as(v, *packageLowerCaseVisitor).add == add)

func lint.checkPackageLowerSnakeCase
  ensures somecall("lint.runVisitor", v, d, typeis(v, *packageLowerSnakeCaseVisitor) && d == descriptors && as(v, *packageLowerSnakeCaseVisitor).add == add)

func lint.checkPackageMajorBetaVersioned
  ensures somecall("lint.runVisitor", v, d, typeis(v, *packageMajorBetaVersionedVisitor) && d == descriptors && as(v, *packageMajorBetaVersionedVisitor).add == add)

func lint.checkPackageNoKeywords
  ensures somecall("lint.runVisitor", v, d, typeis(v, *packageNoKeywordsVisitor) && d == descriptors && as(v, *packageNoKeywordsVisitor).add == add)

func lint.checkRequestResponseNamesMatchRPC
  ensures somecall("lint.runVisitor", v, d, typeis(v, requestResponseNamesMatchRPCVisitor) && d == descriptors && as(v, requestResponseNamesMatchRPCVisitor).add == add)

func lint.checkRequestResponseTypesAfterService
  ensures somecall("lint.runVisitor", v, d, typeis(v, *requestResponseTypesAfterServiceVisitor) && d == descriptors && as(v, *requestResponseTypesAfterServiceVisitor).add == add)

func lint.checkRequestResponseTypesInSameFile
  ensures somecall("lint.runVisitor", v, d, typeis(v, *requestResponseTypesInSameFileVisitor) && d == descriptors && as(v, *requestResponseTypesInSameFileVisitor).add == add)

func lint.checkRequestResponseTypesOnlyInFile
  ensures somecall("lint.runVisitor", v, d, typeis(v, *requestResponseTypesOnlyInFileVisitor) && d == descriptors && as(v, *requestResponseTypesOnlyInFileVisitor).add == add)

func lint.checkRequestResponseTypesUnique
  ensures somecall("lint.runVisitor", v, d, typeis(v, *requestResponseTypesUniqueVisitor) && d == descriptors && as(v, *requestResponseTypesUniqueVisitor).add == add)

func lint.checkRPCNamesCamelCase
  ensures somecall("lint.runVisitor", v, d, typeis(v, rpcNamesCamelCaseVisitor) && d == descriptors && as(v, rpcNamesCamelCaseVisitor).add == add)

func lint.checkRPCNamesCapitalized
  ensures somecall("lint.runVisitor", v, d, typeis(v, rpcNamesCapitalizedVisitor) && d == descriptors && as(v, rpcNamesCapitalizedVisitor).add == add)

func lint.checkRPCOptionsNoGoogleAPIHTTP
  ensures somecall("lint.runVisitor", v, d, typeis(v, *rpcOptionsNoGoogleAPIHTTPVisitor) && d == descriptors && as(v, *rpcOptionsNoGoogleAPIHTTPVisitor).add == add)

func lint.checkRPCsHaveComments
  ensures somecall("lint.runVisitor", v, d, typeis(v, rpcsHaveCommentsVisitor) && d == descriptors && as(v, rpcsHaveCommentsVisitor).add == add)

func lint.checkRPCsHaveSentenceComments
  ensures somecall("lint.runVisitor", v, d, typeis(v, rpcsHaveSentenceCommentsVisitor) && d == descriptors && as(v, rpcsHaveSentenceCommentsVisitor).add == add)

func lint.checkRPCsNoStreaming
  ensures somecall("lint.runVisitor", v, d, typeis(v, rpcsNoStreamingVisitor) && d == descriptors && as(v, rpcsNoStreamingVisitor).add == add)

func lint.checkServiceNamesAPISuffix
  ensures somecall("lint.runVisitor", v, d, typeis(v, serviceNamesAPISuffixVisitor) && d == descriptors && as(v, serviceNamesAPISuffixVisitor).add == add)

func lint.checkServiceNamesCamelCase
  ensures somecall("lint.runVisitor", v, d, typeis(v, serviceNamesCamelCaseVisitor) && d == descriptors && as(v, serviceNamesCamelCaseVisitor).add == add)

func lint.checkServiceNamesCapitalized
  ensures somecall("lint.runVisitor", v, d, typeis(v, serviceNamesCapitalizedVisitor) && d == descriptors && as(v, serviceNamesCapitalizedVisitor).add == add)

func lint.checkServiceNamesMatchFileName
  ensures somecall("lint.runVisitor", v, d, typeis(v, *serviceNamesMatchFileNameVisitor) && d == descriptors && as(v, *serviceNamesMatchFileNameVisitor).add == add)

func lint.checkServiceNamesNoPlurals
  ensures somecall("lint.runVisitor", v, d, typeis(v, *serviceNamesNoPluralsVisitor) && d == descriptors && as(v, *serviceNamesNoPluralsVisitor).add == add)

func lint.checkServicesHaveComments
  ensures somecall("lint.runVisitor", v, d, typeis(v, servicesHaveCommentsVisitor) && d == descriptors && as(v, servicesHaveCommentsVisitor).add == add)

func lint.checkServicesHaveSentenceComments
  ensures somecall("lint.runVisitor", v, d, typeis(v, servicesHaveSentenceCommentsVisitor) && d == descriptors && as(v, servicesHaveSentenceCommentsVisitor).add == add)

func lint.checkSyntaxProto3
  ensures somecall("lint.runVisitor", v, d, typeis(v, *syntaxProto3Visitor) && d == descriptors && as(v, *syntaxProto3Visitor).add == add)

func lint.checkWKTDirectlyImported
  ensures somecall("lint.runVisitor", v, d, typeis(v, *wktDirectlyImportedVisitor) && d == descriptors && as(v, *wktDirectlyImportedVisitor).add == add)

func lint.checkWKTDurationSuffix
  ensures somecall("lint.runVisitor", v, d, typeis(v, wktDurationSuffixVisitor) && d == descriptors && as(v, wktDurationSuffixVisitor).add == add)

func lint.checkWKTTimestampSuffix
  ensures somecall("lint.runVisitor", v, d, typeis(v, wktTimestampSuffixVisitor) && d == descriptors && as(v, wktTimestampSuffixVisitor).add == add)

func (lint.commentsNoInlineVisitor).VisitEnum
  nopanic
  requires element != nil
  requires forall(i, int, implies(0 <= i && i < len(element.Elements), element.Elements[i] != nil))
  ensures allcalls(v.add, f, false)
  ensures forall(i, int, implies(0 <= i && i < len(element.Elements), somecall("(proto.Visitee).Accept", c, w, c == element.Elements[i])))

func (lint.commentsNoInlineVisitor).VisitGroup
  nopanic
  requires element != nil
  requires forall(i, int, implies(0 <= i && i < len(element.Elements), element.Elements[i] != nil))
  ensures allcalls(v.add, f, false)
  ensures forall(i, int, implies(0 <= i && i < len(element.Elements), somecall("(proto.Visitee).Accept", c, w, c == element.Elements[i])))

func (lint.commentsNoInlineVisitor).VisitMessage
  nopanic
  requires element != nil
  requires forall(i, int, implies(0 <= i && i < len(element.Elements), element.Elements[i] != nil))
  ensures allcalls(v.add, f, false)
  ensures forall(i, int, implies(0 <= i && i < len(element.Elements), somecall("(proto.Visitee).Accept", c, w, c == element.Elements[i])))

func (lint.commentsNoInlineVisitor).VisitOneof
  nopanic
  requires element != nil
  requires forall(i, int, implies(0 <= i && i < len(element.Elements), element.Elements[i] != nil))
  ensures allcalls(v.add, f, false)
  ensures forall(i, int, implies(0 <= i && i < len(element.Elements), somecall("(proto.Visitee).Accept", c, w, c == element.Elements[i])))

func (lint.commentsNoInlineVisitor).VisitService
  nopanic
  requires element != nil
  requires forall(i, int, implies(0 <= i && i < len(element.Elements), element.Elements[i] != nil))
  ensures allcalls(v.add, f, false)
  ensures forall(i, int, implies(0 <= i && i < len(element.Elements), somecall("(proto.Visitee).Accept", c, w, c == element.Elements[i])))

func (lint.enumFieldNamesUpperSnakeCaseVisitor).VisitEnum
  nopanic
  requires enum != nil
  requires forall(i, int, implies(0 <= i && i < len(enum.Elements), enum.Elements[i] != nil))
  ensures allcalls(v.add, f, false)
  ensures forall(i, int, implies(0 <= i && i < len(enum.Elements), somecall("(proto.Visitee).Accept", c, w, c == enum.Elements[i])))

func (lint.enumFieldNamesUpperSnakeCaseVisitor).VisitGroup
  nopanic
  requires group != nil
  requires forall(i, int, implies(0 <= i && i < len(group.Elements), group.Elements[i] != nil))
  ensures allcalls(v.add, f, false)
  ensures forall(i, int, implies(0 <= i && i < len(group.Elements), somecall("(proto.Visitee).Accept", c, w, c == group.Elements[i])))

func (lint.enumFieldNamesUpperSnakeCaseVisitor).VisitMessage
  nopanic
  requires message != nil
  requires forall(i, int, implies(0 <= i && i < len(message.Elements), message.Elements[i] != nil))
  ensures allcalls(v.add, f, false)
  ensures forall(i, int, implies(0 <= i && i < len(message.Elements), somecall("(proto.Visitee).Accept", c, w, c == message.Elements[i])))

func (lint.enumFieldNamesUpperSnakeCaseVisitor).VisitOneof
  nopanic
  requires oneof != nil
  requires forall(i, int, implies(0 <= i && i < len(oneof.Elements), oneof.Elements[i] != nil))
  ensures allcalls(v.add, f, false)
  ensures forall(i, int, implies(0 <= i && i < len(oneof.Elements), somecall("(proto.Visitee).Accept", c, w, c == oneof.Elements[i])))

func (lint.enumFieldNamesUppercaseVisitor).VisitEnum
  nopanic
  requires enum != nil
  requires forall(i, int, implies(0 <= i && i < len(enum.Elements), enum.Elements[i] != nil))
  ensures allcalls(v.add, f, false)
  ensures forall(i, int, implies(0 <= i && i < len(enum.Elements), somecall("(proto.Visitee).Accept", c, w, c == enum.Elements[i])))

func (lint.enumFieldNamesUppercaseVisitor).VisitGroup
  nopanic
  requires group != nil
  requires forall(i, int, implies(0 <= i && i < len(group.Elements), group.Elements[i] != nil))
  ensures allcalls(v.add, f, false)
  ensures forall(i, int, implies(0 <= i && i < len(group.Elements), somecall("(proto.Visitee).Accept", c, w, c == group.Elements[i])))

func (lint.enumFieldNamesUppercaseVisitor).VisitMessage
  nopanic
  requires message != nil
  requires forall(i, int, implies(0 <= i && i < len(message.Elements), message.Elements[i] != nil))
  ensures allcalls(v.add, f, false)
  ensures forall(i, int, implies(0 <= i && i < len(message.Elements), somecall("(proto.Visitee).Accept", c, w, c == message.Elements[i])))

func (lint.enumFieldNamesUppercaseVisitor).VisitOneof
  nopanic
  requires oneof != nil
  requires forall(i, int, implies(0 <= i && i < len(oneof.Elements), oneof.Elements[i] != nil))
  ensures allcalls(v.add, f, false)
  ensures forall(i, int, implies(0 <= i && i < len(oneof.Elements), somecall("(proto.Visitee).Accept", c, w, c == oneof.Elements[i])))

func (*lint.enumFieldPrefixesExceptMessageVisitor).VisitEnum
  nopanic
  requires enum != nil
  requires v != nil
  modifies *
  requires forall(i, int, implies(0 <= i && i < len(enum.Elements), enum.Elements[i] != nil))
  ensures allcalls(v.add, f, false)
  ensures forall(i, int, implies(0 <= i && i < len(enum.Elements), somecall("(proto.Visitee).Accept", c, w, c == enum.Elements[i])))

func (*lint.enumFieldPrefixesExceptMessageVisitor).VisitGroup
  nopanic
  requires group != nil
  requires v != nil
  modifies *
  requires forall(i, int, implies(0 <= i && i < len(group.Elements), group.Elements[i] != nil))
  ensures allcalls(v.add, f, false)
  ensures forall(i, int, implies(0 <= i && i < len(group.Elements), somecall("(proto.Visitee).Accept", c, w, c == group.Elements[i])))

func (*lint.enumFieldPrefixesExceptMessageVisitor).VisitMessage
  nopanic
  requires message != nil
  requires v != nil
  modifies *
  requires forall(i, int, implies(0 <= i && i < len(message.Elements), message.Elements[i] != nil))
  ensures allcalls(v.add, f, false)
  ensures forall(i, int, implies(0 <= i && i < len(message.Elements), somecall("(proto.Visitee).Accept", c, w, c == message.Elements[i])))

func (*lint.enumFieldPrefixesExceptMessageVisitor).VisitOneof
  nopanic
  requires oneof != nil
  requires v != nil
  modifies *
  requires forall(i, int, implies(0 <= i && i < len(oneof.Elements), oneof.Elements[i] != nil))
  ensures allcalls(v.add, f, false)
  ensures forall(i, int, implies(0 <= i && i < len(oneof.Elements), somecall("(proto.Visitee).Accept", c, w, c == oneof.Elements[i])))

func (*lint.enumFieldPrefixesVisitor).VisitOneof
  nopanic
  requires oneof != nil
  requires v != nil
  modifies *
  requires forall(i, int, implies(0 <= i && i < len(oneof.Elements), oneof.Elements[i] != nil))
  ensures allcalls(v.add, f, false)
  ensures forall(i, int, implies(0 <= i && i < len(oneof.Elements), somecall("(proto.Visitee).Accept", c, w, c == oneof.Elements[i])))

func (lint.enumFieldsHaveCommentsVisitor).VisitEnum
  nopanic
  requires enum != nil
  requires forall(i, int, implies(0 <= i && i < len(enum.Elements), enum.Elements[i] != nil))
  ensures allcalls(v.add, f, false)
  ensures forall(i, int, implies(0 <= i && i < len(enum.Elements), somecall("(proto.Visitee).Accept", c, w, c == enum.Elements[i])))

func (lint.enumFieldsHaveCommentsVisitor).VisitGroup
  nopanic
  requires group != nil
  requires forall(i, int, implies(0 <= i && i < len(group.Elements), group.Elements[i] != nil))
  ensures allcalls(v.add, f, false)
  ensures forall(i, int, implies(0 <= i && i < len(group.Elements), somecall("(proto.Visitee).Accept", c, w, c == group.Elements[i])))

func (lint.enumFieldsHaveCommentsVisitor).VisitMessage
  nopanic
  requires message != nil
  requires forall(i, int, implies(0 <= i && i < len(message.Elements), message.Elements[i] != nil))
  ensures allcalls(v.add, f, false)
  ensures forall(i, int, implies(0 <= i && i < len(message.Elements), somecall("(proto.Visitee).Accept", c, w, c == message.Elements[i])))

func (lint.enumFieldsHaveCommentsVisitor).VisitOneof
  nopanic
  requires oneof != nil
  requires forall(i, int, implies(0 <= i && i < len(oneof.Elements), oneof.Elements[i] != nil))
  ensures allcalls(v.add, f, false)
  ensures forall(i, int, implies(0 <= i && i < len(oneof.Elements), somecall("(proto.Visitee).Accept", c, w, c == oneof.Elements[i])))

func (lint.enumFieldsHaveSentenceCommentsVisitor).VisitEnum
  nopanic
  requires enum != nil
  requires forall(i, int, implies(0 <= i && i < len(enum.Elements), enum.Elements[i] != nil))
  ensures allcalls(v.add, f, false)
  ensures forall(i, int, implies(0 <= i && i < len(enum.Elements), somecall("(proto.Visitee).Accept", c, w, c == enum.Elements[i])))

func (lint.enumFieldsHaveSentenceCommentsVisitor).VisitGroup
  nopanic
  requires group != nil
  requires forall(i, int, implies(0 <= i && i < len(group.Elements), group.Elements[i] != nil))
  ensures allcalls(v.add, f, false)
  ensures forall(i, int, implies(0 <= i && i < len(group.Elements), somecall("(proto.Visitee).Accept", c, w, c == group.Elements[i])))

func (lint.enumFieldsHaveSentenceCommentsVisitor).VisitMessage
  nopanic
  requires message != nil
  requires forall(i, int, implies(0 <= i && i < len(message.Elements), message.Elements[i] != nil))
  ensures allcalls(v.add, f, false)
  ensures forall(i, int, implies(0 <= i && i < len(message.Elements), somecall("(proto.Visitee).Accept", c, w, c == message.Elements[i])))

func (lint.enumFieldsHaveSentenceCommentsVisitor).VisitOneof
  nopanic
  requires oneof != nil
  requires forall(i, int, implies(0 <= i && i < len(oneof.Elements), oneof.Elements[i] != nil))
  ensures allcalls(v.add, f, false)
  ensures forall(i, int, implies(0 <= i && i < len(oneof.Elements), somecall("(proto.Visitee).Accept", c, w, c == oneof.Elements[i])))

func (lint.enumNamesCamelCaseVisitor).VisitGroup
  nopanic
  requires group != nil
  requires forall(i, int, implies(0 <= i && i < len(group.Elements), group.Elements[i] != nil))
  ensures allcalls(v.add, f, false)
  ensures forall(i, int, implies(0 <= i && i < len(group.Elements), somecall("(proto.Visitee).Accept", c, w, c == group.Elements[i])))

func (lint.enumNamesCamelCaseVisitor).VisitMessage
  nopanic
  requires message != nil
  requires forall(i, int, implies(0 <= i && i < len(message.Elements), message.Elements[i] != nil))
  ensures allcalls(v.add, f, false)
  ensures forall(i, int, implies(0 <= i && i < len(message.Elements), somecall("(proto.Visitee).Accept", c, w, c == message.Elements[i])))

func (lint.enumNamesCamelCaseVisitor).VisitOneof
  nopanic
  requires oneof != nil
  requires forall(i, int, implies(0 <= i && i < len(oneof.Elements), oneof.Elements[i] != nil))
  ensures allcalls(v.add, f, false)
  ensures forall(i, int, implies(0 <= i && i < len(oneof.Elements), somecall("(proto.Visitee).Accept", c, w, c == oneof.Elements[i])))

func (lint.enumNamesCapitalizedVisitor).VisitGroup
  nopanic
  requires group != nil
  requires forall(i, int, implies(0 <= i && i < len(group.Elements), group.Elements[i] != nil))
  ensures allcalls(v.add, f, false)
  ensures forall(i, int, implies(0 <= i && i < len(group.Elements), somecall("(proto.Visitee).Accept", c, w, c == group.Elements[i])))

func (lint.enumNamesCapitalizedVisitor).VisitMessage
  nopanic
  requires message != nil
  requires forall(i, int, implies(0 <= i && i < len(message.Elements), message.Elements[i] != nil))
  ensures allcalls(v.add, f, false)
  ensures forall(i, int, implies(0 <= i && i < len(message.Elements), somecall("(proto.Visitee).Accept", c, w, c == message.Elements[i])))

func (lint.enumNamesCapitalizedVisitor).VisitOneof
  nopanic
  requires oneof != nil
  requires forall(i, int, implies(0 <= i && i < len(oneof.Elements), oneof.Elements[i] != nil))
  ensures allcalls(v.add, f, false)
  ensures forall(i, int, implies(0 <= i && i < len(oneof.Elements), somecall("(proto.Visitee).Accept", c, w, c == oneof.Elements[i])))

func (*lint.enumZeroValuesInvalidExceptMessageVisitor).VisitEnum
  nopanic
  requires enum != nil
  requires v != nil
  modifies *
  requires forall(i, int, implies(0 <= i && i < len(enum.Elements), enum.Elements[i] != nil))
  ensures allcalls(v.add, f, false)
  ensures forall(i, int, implies(0 <= i && i < len(enum.Elements), somecall("(proto.Visitee).Accept", c, w, c == enum.Elements[i])))

func (*lint.enumZeroValuesInvalidExceptMessageVisitor).VisitGroup
  nopanic
  requires group != nil
  requires v != nil
  modifies *
  requires forall(i, int, implies(0 <= i && i < len(group.Elements), group.Elements[i] != nil))
  ensures allcalls(v.add, f, false)
  ensures forall(i, int, implies(0 <= i && i < len(group.Elements), somecall("(proto.Visitee).Accept", c, w, c == group.Elements[i])))

func (*lint.enumZeroValuesInvalidExceptMessageVisitor).VisitMessage
  nopanic
  requires message != nil
  requires v != nil
  modifies *
  requires forall(i, int, implies(0 <= i && i < len(message.Elements), message.Elements[i] != nil))
  ensures allcalls(v.add, f, false)
  ensures forall(i, int, implies(0 <= i && i < len(message.Elements), somecall("(proto.Visitee).Accept", c, w, c == message.Elements[i])))

func (*lint.enumZeroValuesInvalidExceptMessageVisitor).VisitOneof
  nopanic
  requires oneof != nil
  requires v != nil
  modifies *
  requires forall(i, int, implies(0 <= i && i < len(oneof.Elements), oneof.Elements[i] != nil))
  ensures allcalls(v.add, f, false)
  ensures forall(i, int, implies(0 <= i && i < len(oneof.Elements), somecall("(proto.Visitee).Accept", c, w, c == oneof.Elements[i])))

func (*lint.enumZeroValuesInvalidVisitor).VisitOneof
  nopanic
  requires oneof != nil
  requires v != nil
  modifies *
  requires forall(i, int, implies(0 <= i && i < len(oneof.Elements), oneof.Elements[i] != nil))
  ensures allcalls(v.add, f, false)
  ensures forall(i, int, implies(0 <= i && i < len(oneof.Elements), somecall("(proto.Visitee).Accept", c, w, c == oneof.Elements[i])))

func (lint.enumsHaveCommentsVisitor).VisitGroup
  nopanic
  requires group != nil
  requires forall(i, int, implies(0 <= i && i < len(group.Elements), group.Elements[i] != nil))
  ensures allcalls(v.add, f, false)
  ensures forall(i, int, implies(0 <= i && i < len(group.Elements), somecall("(proto.Visitee).Accept", c, w, c == group.Elements[i])))

func (lint.enumsHaveCommentsVisitor).VisitMessage
  nopanic
  requires message != nil
  requires forall(i, int, implies(0 <= i && i < len(message.Elements), message.Elements[i] != nil))
  ensures allcalls(v.add, f, false)
  ensures forall(i, int, implies(0 <= i && i < len(message.Elements), somecall("(proto.Visitee).Accept", c, w, c == message.Elements[i])))

func (lint.enumsHaveCommentsVisitor).VisitOneof
  nopanic
  requires oneof != nil
  requires forall(i, int, implies(0 <= i && i < len(oneof.Elements), oneof.Elements[i] != nil))
  ensures allcalls(v.add, f, false)
  ensures forall(i, int, implies(0 <= i && i < len(oneof.Elements), somecall("(proto.Visitee).Accept", c, w, c == oneof.Elements[i])))

func (lint.enumsHaveSentenceCommentsVisitor).VisitGroup
  nopanic
  requires group != nil
  requires forall(i, int, implies(0 <= i && i < len(group.Elements), group.Elements[i] != nil))
  ensures allcalls(v.add, f, false)
  ensures forall(i, int, implies(0 <= i && i < len(group.Elements), somecall("(proto.Visitee).Accept", c, w, c == group.Elements[i])))

func (lint.enumsHaveSentenceCommentsVisitor).VisitMessage
  nopanic
  requires message != nil
  requires forall(i, int, implies(0 <= i && i < len(message.Elements), message.Elements[i] != nil))
  ensures allcalls(v.add, f, false)
  ensures forall(i, int, implies(0 <= i && i < len(message.Elements), somecall("(proto.Visitee).Accept", c, w, c == message.Elements[i])))

func (lint.enumsHaveSentenceCommentsVisitor).VisitOneof
  nopanic
  requires oneof != nil
  requires forall(i, int, implies(0 <= i && i < len(oneof.Elements), oneof.Elements[i] != nil))
  ensures allcalls(v.add, f, false)
  ensures forall(i, int, implies(0 <= i && i < len(oneof.Elements), somecall("(proto.Visitee).Accept", c, w, c == oneof.Elements[i])))

func (lint.enumsNoAllowAliasVisitor).VisitEnum
  nopanic
  requires element != nil
  requires forall(i, int, implies(0 <= i && i < len(element.Elements), element.Elements[i] != nil))
  ensures allcalls(v.add, f, false)
  ensures forall(i, int, implies(0 <= i && i < len(element.Elements), somecall("(proto.Visitee).Accept", c, w, c == element.Elements[i])))

func (lint.enumsNoAllowAliasVisitor).VisitGroup
  nopanic
  requires group != nil
  requires forall(i, int, implies(0 <= i && i < len(group.Elements), group.Elements[i] != nil))
  ensures allcalls(v.add, f, false)
  ensures forall(i, int, implies(0 <= i && i < len(group.Elements), somecall("(proto.Visitee).Accept", c, w, c == group.Elements[i])))

func (lint.enumsNoAllowAliasVisitor).VisitMessage
  nopanic
  requires element != nil
  requires forall(i, int, implies(0 <= i && i < len(element.Elements), element.Elements[i] != nil))
  ensures allcalls(v.add, f, false)
  ensures forall(i, int, implies(0 <= i && i < len(element.Elements), somecall("(proto.Visitee).Accept", c, w, c == element.Elements[i])))

func (lint.enumsNoAllowAliasVisitor).VisitOneof
  nopanic
  requires oneof != nil
  requires forall(i, int, implies(0 <= i && i < len(oneof.Elements), oneof.Elements[i] != nil))
  ensures allcalls(v.add, f, false)
  ensures forall(i, int, implies(0 <= i && i < len(oneof.Elements), somecall("(proto.Visitee).Accept", c, w, c == oneof.Elements[i])))

func (lint.fieldsNotReservedVisitor).VisitOneof
  nopanic
  requires oneof != nil
  requires forall(i, int, implies(0 <= i && i < len(oneof.Elements), oneof.Elements[i] != nil))
  ensures allcalls(v.add, f, false)
  ensures forall(i, int, implies(0 <= i && i < len(oneof.Elements), somecall("(proto.Visitee).Accept", c, w, c == oneof.Elements[i])))

func (lint.messageFieldNamesFilenameVisitor).VisitGroup
  nopanic
  requires group != nil
  requires forall(i, int, implies(0 <= i && i < len(group.Elements), group.Elements[i] != nil))
  ensures allcalls(v.add, f, false)
  ensures forall(i, int, implies(0 <= i && i < len(group.Elements), somecall("(proto.Visitee).Accept", c, w, c == group.Elements[i])))

func (lint.messageFieldNamesFilenameVisitor).VisitMessage
  nopanic
  requires message != nil
  requires forall(i, int, implies(0 <= i && i < len(message.Elements), message.Elements[i] != nil))
  ensures allcalls(v.add, f, false)
  ensures forall(i, int, implies(0 <= i && i < len(message.Elements), somecall("(proto.Visitee).Accept", c, w, c == message.Elements[i])))

func (lint.messageFieldNamesFilenameVisitor).VisitOneof
  nopanic
  requires oneof != nil
  requires forall(i, int, implies(0 <= i && i < len(oneof.Elements), oneof.Elements[i] != nil))
  ensures allcalls(v.add, f, false)
  ensures forall(i, int, implies(0 <= i && i < len(oneof.Elements), somecall("(proto.Visitee).Accept", c, w, c == oneof.Elements[i])))

func (lint.messageFieldNamesFilepathVisitor).VisitGroup
  nopanic
  requires group != nil
  requires forall(i, int, implies(0 <= i && i < len(group.Elements), group.Elements[i] != nil))
  ensures allcalls(v.add, f, false)
  ensures forall(i, int, implies(0 <= i && i < len(group.Elements), somecall("(proto.Visitee).Accept", c, w, c == group.Elements[i])))

func (lint.messageFieldNamesFilepathVisitor).VisitMessage
  nopanic
  requires message != nil
  requires forall(i, int, implies(0 <= i && i < len(message.Elements), message.Elements[i] != nil))
  ensures allcalls(v.add, f, false)
  ensures forall(i, int, implies(0 <= i && i < len(message.Elements), somecall("(proto.Visitee).Accept", c, w, c == message.Elements[i])))

func (lint.messageFieldNamesFilepathVisitor).VisitOneof
  nopanic
  requires oneof != nil
  requires forall(i, int, implies(0 <= i && i < len(oneof.Elements), oneof.Elements[i] != nil))
  ensures allcalls(v.add, f, false)
  ensures forall(i, int, implies(0 <= i && i < len(oneof.Elements), somecall("(proto.Visitee).Accept", c, w, c == oneof.Elements[i])))

func (lint.messageFieldNamesLowerSnakeCaseVisitor).VisitGroup
  nopanic
  requires group != nil
  requires forall(i, int, implies(0 <= i && i < len(group.Elements), group.Elements[i] != nil))
  ensures allcalls(v.add, f, false)
  ensures forall(i, int, implies(0 <= i && i < len(group.Elements), somecall("(proto.Visitee).Accept", c, w, c == group.Elements[i])))

func (lint.messageFieldNamesLowerSnakeCaseVisitor).VisitMessage
  nopanic
  requires message != nil
  requires forall(i, int, implies(0 <= i && i < len(message.Elements), message.Elements[i] != nil))
  ensures allcalls(v.add, f, false)
  ensures forall(i, int, implies(0 <= i && i < len(message.Elements), somecall("(proto.Visitee).Accept", c, w, c == message.Elements[i])))

func (lint.messageFieldNamesLowerSnakeCaseVisitor).VisitOneof
  nopanic
  requires oneof != nil
  requires forall(i, int, implies(0 <= i && i < len(oneof.Elements), oneof.Elements[i] != nil))
  ensures allcalls(v.add, f, false)
  ensures forall(i, int, implies(0 <= i && i < len(oneof.Elements), somecall("(proto.Visitee).Accept", c, w, c == oneof.Elements[i])))

func (lint.messageFieldNamesLowercaseVisitor).VisitGroup
  nopanic
  requires group != nil
  requires forall(i, int, implies(0 <= i && i < len(group.Elements), group.Elements[i] != nil))
  ensures allcalls(v.add, f, false)
  ensures forall(i, int, implies(0 <= i && i < len(group.Elements), somecall("(proto.Visitee).Accept", c, w, c == group.Elements[i])))

func (lint.messageFieldNamesLowercaseVisitor).VisitMessage
  nopanic
  requires message != nil
  requires forall(i, int, implies(0 <= i && i < len(message.Elements), message.Elements[i] != nil))
  ensures allcalls(v.add, f, false)
  ensures forall(i, int, implies(0 <= i && i < len(message.Elements), somecall("(proto.Visitee).Accept", c, w, c == message.Elements[i])))

func (lint.messageFieldNamesLowercaseVisitor).VisitOneof
  nopanic
  requires oneof != nil
  requires forall(i, int, implies(0 <= i && i < len(oneof.Elements), oneof.Elements[i] != nil))
  ensures allcalls(v.add, f, false)
  ensures forall(i, int, implies(0 <= i && i < len(oneof.Elements), somecall("(proto.Visitee).Accept", c, w, c == oneof.Elements[i])))

func (lint.messageFieldNamesNoDescriptorVisitor).VisitGroup
  nopanic
  requires group != nil
  requires forall(i, int, implies(0 <= i && i < len(group.Elements), group.Elements[i] != nil))
  ensures allcalls(v.add, f, false)
  ensures forall(i, int, implies(0 <= i && i < len(group.Elements), somecall("(proto.Visitee).Accept", c, w, c == group.Elements[i])))

func (lint.messageFieldNamesNoDescriptorVisitor).VisitMessage
  nopanic
  requires message != nil
  requires forall(i, int, implies(0 <= i && i < len(message.Elements), message.Elements[i] != nil))
  ensures allcalls(v.add, f, false)
  ensures forall(i, int, implies(0 <= i && i < len(message.Elements), somecall("(proto.Visitee).Accept", c, w, c == message.Elements[i])))

func (lint.messageFieldNamesNoDescriptorVisitor).VisitOneof
  nopanic
  requires oneof != nil
  requires forall(i, int, implies(0 <= i && i < len(oneof.Elements), oneof.Elements[i] != nil))
  ensures allcalls(v.add, f, false)
  ensures forall(i, int, implies(0 <= i && i < len(oneof.Elements), somecall("(proto.Visitee).Accept", c, w, c == oneof.Elements[i])))

func (lint.messageFieldsDurationVisitor).VisitGroup
  nopanic
  requires group != nil
  requires forall(i, int, implies(0 <= i && i < len(group.Elements), group.Elements[i] != nil))
  ensures allcalls(v.add, f, false)
  ensures forall(i, int, implies(0 <= i && i < len(group.Elements), somecall("(proto.Visitee).Accept", c, w, c == group.Elements[i])))

func (lint.messageFieldsDurationVisitor).VisitMessage
  nopanic
  requires message != nil
  requires forall(i, int, implies(0 <= i && i < len(message.Elements), message.Elements[i] != nil))
  ensures allcalls(v.add, f, false)
  ensures forall(i, int, implies(0 <= i && i < len(message.Elements), somecall("(proto.Visitee).Accept", c, w, c == message.Elements[i])))

func (lint.messageFieldsDurationVisitor).VisitOneof
  nopanic
  requires oneof != nil
  requires forall(i, int, implies(0 <= i && i < len(oneof.Elements), oneof.Elements[i] != nil))
  ensures allcalls(v.add, f, false)
  ensures forall(i, int, implies(0 <= i && i < len(oneof.Elements), somecall("(proto.Visitee).Accept", c, w, c == oneof.Elements[i])))

func (lint.messageFieldsHaveCommentsVisitor).VisitGroup
  nopanic
  requires group != nil
  requires forall(i, int, implies(0 <= i && i < len(group.Elements), group.Elements[i] != nil))
  ensures allcalls(v.add, f, false)
  ensures forall(i, int, implies(0 <= i && i < len(group.Elements), somecall("(proto.Visitee).Accept", c, w, c == group.Elements[i])))

func (lint.messageFieldsHaveCommentsVisitor).VisitMessage
  nopanic
  requires message != nil
  requires forall(i, int, implies(0 <= i && i < len(message.Elements), message.Elements[i] != nil))
  ensures allcalls(v.add, f, false)
  ensures forall(i, int, implies(0 <= i && i < len(message.Elements), somecall("(proto.Visitee).Accept", c, w, c == message.Elements[i])))

func (lint.messageFieldsHaveCommentsVisitor).VisitOneof
  nopanic
  requires oneof != nil
  requires forall(i, int, implies(0 <= i && i < len(oneof.Elements), oneof.Elements[i] != nil))
  ensures allcalls(v.add, f, false)
  ensures forall(i, int, implies(0 <= i && i < len(oneof.Elements), somecall("(proto.Visitee).Accept", c, w, c == oneof.Elements[i])))

func (lint.messageFieldsHaveSentenceCommentsVisitor).VisitGroup
  nopanic
  requires group != nil
  requires forall(i, int, implies(0 <= i && i < len(group.Elements), group.Elements[i] != nil))
  ensures allcalls(v.add, f, false)
  ensures forall(i, int, implies(0 <= i && i < len(group.Elements), somecall("(proto.Visitee).Accept", c, w, c == group.Elements[i])))

func (lint.messageFieldsHaveSentenceCommentsVisitor).VisitMessage
  nopanic
  requires message != nil
  requires forall(i, int, implies(0 <= i && i < len(message.Elements), message.Elements[i] != nil))
  ensures allcalls(v.add, f, false)
  ensures forall(i, int, implies(0 <= i && i < len(message.Elements), somecall("(proto.Visitee).Accept", c, w, c == message.Elements[i])))

func (lint.messageFieldsHaveSentenceCommentsVisitor).VisitOneof
  nopanic
  requires oneof != nil
  requires forall(i, int, implies(0 <= i && i < len(oneof.Elements), oneof.Elements[i] != nil))
  ensures allcalls(v.add, f, false)
  ensures forall(i, int, implies(0 <= i && i < len(oneof.Elements), somecall("(proto.Visitee).Accept", c, w, c == oneof.Elements[i])))

func (lint.messageFieldsNoJSONNameVisitor).VisitGroup
  nopanic
  requires group != nil
  requires forall(i, int, implies(0 <= i && i < len(group.Elements), group.Elements[i] != nil))
  ensures allcalls(v.add, f, false)
  ensures forall(i, int, implies(0 <= i && i < len(group.Elements), somecall("(proto.Visitee).Accept", c, w, c == group.Elements[i])))

func (lint.messageFieldsNoJSONNameVisitor).VisitMessage
  nopanic
  requires message != nil
  requires forall(i, int, implies(0 <= i && i < len(message.Elements), message.Elements[i] != nil))
  ensures allcalls(v.add, f, false)
  ensures forall(i, int, implies(0 <= i && i < len(message.Elements), somecall("(proto.Visitee).Accept", c, w, c == message.Elements[i])))

func (lint.messageFieldsNoJSONNameVisitor).VisitOneof
  nopanic
  requires oneof != nil
  requires forall(i, int, implies(0 <= i && i < len(oneof.Elements), oneof.Elements[i] != nil))
  ensures allcalls(v.add, f, false)
  ensures forall(i, int, implies(0 <= i && i < len(oneof.Elements), somecall("(proto.Visitee).Accept", c, w, c == oneof.Elements[i])))

func (*lint.messageFieldsNotFloatsVisitor).VisitGroup
  nopanic
  requires group != nil
  requires v != nil
  modifies *
  requires v.baseAddSuppressableVisitor != nil
  requires v.fileDescriptor != nil
  requires forall(i, int, implies(0 <= i && i < len(group.Elements), group.Elements[i] != nil))
  ensures allcalls(v.add, ps, c, f, false)
  ensures forall(i, int, implies(0 <= i && i < len(group.Elements), somecall("(proto.Visitee).Accept", c, w, c == group.Elements[i])))

func (*lint.messageFieldsNotFloatsVisitor).VisitMessage
  nopanic
  requires message != nil
  requires v != nil
  modifies *
  requires v.baseAddSuppressableVisitor != nil
  requires v.fileDescriptor != nil
  requires forall(i, int, implies(0 <= i && i < len(message.Elements), message.Elements[i] != nil))
  ensures allcalls(v.add, ps, c, f, false)
  ensures forall(i, int, implies(0 <= i && i < len(message.Elements), somecall("(proto.Visitee).Accept", c, w, c == message.Elements[i])))

func (*lint.messageFieldsNotFloatsVisitor).VisitOneof
  nopanic
  requires oneof != nil
  requires v != nil
  modifies *
  requires v.baseAddSuppressableVisitor != nil
  requires v.fileDescriptor != nil
  requires forall(i, int, implies(0 <= i && i < len(oneof.Elements), oneof.Elements[i] != nil))
  ensures allcalls(v.add, ps, c, f, false)
  ensures forall(i, int, implies(0 <= i && i < len(oneof.Elements), somecall("(proto.Visitee).Accept", c, w, c == oneof.Elements[i])))

func (lint.messageFieldsTimeVisitor).VisitGroup
  nopanic
  requires group != nil
  requires forall(i, int, implies(0 <= i && i < len(group.Elements), group.Elements[i] != nil))
  ensures allcalls(v.add, f, false)
  ensures forall(i, int, implies(0 <= i && i < len(group.Elements), somecall("(proto.Visitee).Accept", c, w, c == group.Elements[i])))

func (lint.messageFieldsTimeVisitor).VisitMessage
  nopanic
  requires message != nil
  requires forall(i, int, implies(0 <= i && i < len(message.Elements), message.Elements[i] != nil))
  ensures allcalls(v.add, f, false)
  ensures forall(i, int, implies(0 <= i && i < len(message.Elements), somecall("(proto.Visitee).Accept", c, w, c == message.Elements[i])))

func (lint.messageFieldsTimeVisitor).VisitOneof
  nopanic
  requires oneof != nil
  requires forall(i, int, implies(0 <= i && i < len(oneof.Elements), oneof.Elements[i] != nil))
  ensures allcalls(v.add, f, false)
  ensures forall(i, int, implies(0 <= i && i < len(oneof.Elements), somecall("(proto.Visitee).Accept", c, w, c == oneof.Elements[i])))

func (lint.messageNamesCamelCaseVisitor).VisitGroup
  nopanic
  requires group != nil
  requires forall(i, int, implies(0 <= i && i < len(group.Elements), group.Elements[i] != nil))
  ensures allcalls(v.add, f, false)
  ensures forall(i, int, implies(0 <= i && i < len(group.Elements), somecall("(proto.Visitee).Accept", c, w, c == group.Elements[i])))

func (lint.messageNamesCamelCaseVisitor).VisitOneof
  nopanic
  requires oneof != nil
  requires forall(i, int, implies(0 <= i && i < len(oneof.Elements), oneof.Elements[i] != nil))
  ensures allcalls(v.add, f, false)
  ensures forall(i, int, implies(0 <= i && i < len(oneof.Elements), somecall("(proto.Visitee).Accept", c, w, c == oneof.Elements[i])))

func (lint.messageNamesCapitalizedVisitor).VisitGroup
  nopanic
  requires group != nil
  requires forall(i, int, implies(0 <= i && i < len(group.Elements), group.Elements[i] != nil))
  ensures allcalls(v.add, f, false)
  ensures forall(i, int, implies(0 <= i && i < len(group.Elements), somecall("(proto.Visitee).Accept", c, w, c == group.Elements[i])))

func (lint.messageNamesCapitalizedVisitor).VisitOneof
  nopanic
  requires oneof != nil
  requires forall(i, int, implies(0 <= i && i < len(oneof.Elements), oneof.Elements[i] != nil))
  ensures allcalls(v.add, f, false)
  ensures forall(i, int, implies(0 <= i && i < len(oneof.Elements), somecall("(proto.Visitee).Accept", c, w, c == oneof.Elements[i])))

func (*lint.messagesHaveCommentsExceptRequestResponseTypesVisitor).VisitOneof
  nopanic
  requires oneof != nil
  requires v != nil
  modifies *
  requires forall(i, int, implies(0 <= i && i < len(oneof.Elements), oneof.Elements[i] != nil))
  ensures allcalls(v.add, f, false)
  ensures forall(i, int, implies(0 <= i && i < len(oneof.Elements), somecall("(proto.Visitee).Accept", c, w, c == oneof.Elements[i])))

func (*lint.messagesHaveCommentsExceptRequestResponseTypesVisitor).VisitService
  nopanic
  requires service != nil
  requires v != nil
  modifies *
  requires forall(i, int, implies(0 <= i && i < len(service.Elements), service.Elements[i] != nil))
  ensures allcalls(v.add, f, false)
  ensures forall(i, int, implies(0 <= i && i < len(service.Elements), somecall("(proto.Visitee).Accept", c, w, c == service.Elements[i])))

func (lint.messagesHaveCommentsVisitor).VisitGroup
  nopanic
  requires group != nil
  requires forall(i, int, implies(0 <= i && i < len(group.Elements), group.Elements[i] != nil))
  ensures allcalls(v.add, f, false)
  ensures forall(i, int, implies(0 <= i && i < len(group.Elements), somecall("(proto.Visitee).Accept", c, w, c == group.Elements[i])))

func (lint.messagesHaveCommentsVisitor).VisitOneof
  nopanic
  requires oneof != nil
  requires forall(i, int, implies(0 <= i && i < len(oneof.Elements), oneof.Elements[i] != nil))
  ensures allcalls(v.add, f, false)
  ensures forall(i, int, implies(0 <= i && i < len(oneof.Elements), somecall("(proto.Visitee).Accept", c, w, c == oneof.Elements[i])))

func (*lint.messagesHaveSentenceCommentsExceptRequestResponseTypesVisitor).VisitOneof
  nopanic
  requires oneof != nil
  requires v != nil
  modifies *
  requires forall(i, int, implies(0 <= i && i < len(oneof.Elements), oneof.Elements[i] != nil))
  ensures allcalls(v.add, f, false)
  ensures forall(i, int, implies(0 <= i && i < len(oneof.Elements), somecall("(proto.Visitee).Accept", c, w, c == oneof.Elements[i])))

func (*lint.messagesHaveSentenceCommentsExceptRequestResponseTypesVisitor).VisitService
  nopanic
  requires service != nil
  requires v != nil
  modifies *
  requires forall(i, int, implies(0 <= i && i < len(service.Elements), service.Elements[i] != nil))
  ensures allcalls(v.add, f, false)
  ensures forall(i, int, implies(0 <= i && i < len(service.Elements), somecall("(proto.Visitee).Accept", c, w, c == service.Elements[i])))

func (*lint.messagesNotEmptyExceptRequestResponseTypesVisitor).VisitOneof
  nopanic
  requires oneof != nil
  requires v != nil
  modifies *
  requires forall(i, int, implies(0 <= i && i < len(oneof.Elements), oneof.Elements[i] != nil))
  ensures allcalls(v.add, f, false)
  ensures forall(i, int, implies(0 <= i && i < len(oneof.Elements), somecall("(proto.Visitee).Accept", c, w, c == oneof.Elements[i])))

func (*lint.messagesNotEmptyExceptRequestResponseTypesVisitor).VisitService
  nopanic
  requires service != nil
  requires v != nil
  modifies *
  requires forall(i, int, implies(0 <= i && i < len(service.Elements), service.Elements[i] != nil))
  ensures allcalls(v.add, f, false)
  ensures forall(i, int, implies(0 <= i && i < len(service.Elements), somecall("(proto.Visitee).Accept", c, w, c == service.Elements[i])))

func (lint.oneofNamesLowerSnakeCaseVisitor).VisitGroup
  nopanic
  requires group != nil
  requires forall(i, int, implies(0 <= i && i < len(group.Elements), group.Elements[i] != nil))
  ensures allcalls(v.add, f, false)
  ensures forall(i, int, implies(0 <= i && i < len(group.Elements), somecall("(proto.Visitee).Accept", c, w, c == group.Elements[i])))

func (lint.oneofNamesLowerSnakeCaseVisitor).VisitMessage
  nopanic
  requires message != nil
  requires forall(i, int, implies(0 <= i && i < len(message.Elements), message.Elements[i] != nil))
  ensures allcalls(v.add, f, false)
  ensures forall(i, int, implies(0 <= i && i < len(message.Elements), somecall("(proto.Visitee).Accept", c, w, c == message.Elements[i])))

func (lint.requestResponseNamesMatchRPCVisitor).VisitService
  nopanic
  requires service != nil
  requires forall(i, int, implies(0 <= i && i < len(service.Elements), service.Elements[i] != nil))
  ensures allcalls(v.add, f, false)
  ensures forall(i, int, implies(0 <= i && i < len(service.Elements), somecall("(proto.Visitee).Accept", c, w, c == service.Elements[i])))

func (*lint.requestResponseTypesAfterServiceVisitor).VisitService
  nopanic
  requires service != nil
  requires v != nil
  modifies *
  requires forall(i, int, implies(0 <= i && i < len(service.Elements), service.Elements[i] != nil))
  ensures allcalls(v.add, f, false)
  ensures forall(i, int, implies(0 <= i && i < len(service.Elements), somecall("(proto.Visitee).Accept", c, w, c == service.Elements[i])))

func (*lint.requestResponseTypesInSameFileVisitor).VisitOneof
  nopanic
  requires oneof != nil
  requires v != nil
  modifies *
  requires forall(i, int, implies(0 <= i && i < len(oneof.Elements), oneof.Elements[i] != nil))
  ensures allcalls(v.add, f, false)
  ensures forall(i, int, implies(0 <= i && i < len(oneof.Elements), somecall("(proto.Visitee).Accept", c, w, c == oneof.Elements[i])))

func (*lint.requestResponseTypesInSameFileVisitor).VisitService
  nopanic
  requires service != nil
  requires v != nil
  modifies *
  requires forall(i, int, implies(0 <= i && i < len(service.Elements), service.Elements[i] != nil))
  ensures allcalls(v.add, f, false)
  ensures forall(i, int, implies(0 <= i && i < len(service.Elements), somecall("(proto.Visitee).Accept", c, w, c == service.Elements[i])))

func (*lint.requestResponseTypesOnlyInFileVisitor).VisitService
  nopanic
  requires service != nil
  requires v != nil
  modifies *
  requires forall(i, int, implies(0 <= i && i < len(service.Elements), service.Elements[i] != nil))
  ensures allcalls(v.add, f, false)
  ensures forall(i, int, implies(0 <= i && i < len(service.Elements), somecall("(proto.Visitee).Accept", c, w, c == service.Elements[i])))

func (*lint.requestResponseTypesUniqueVisitor).VisitService
  nopanic
  requires service != nil
  requires v != nil
  modifies *
  requires forall(i, int, implies(0 <= i && i < len(service.Elements), service.Elements[i] != nil))
  ensures allcalls(v.add, f, false)
  ensures forall(i, int, implies(0 <= i && i < len(service.Elements), somecall("(proto.Visitee).Accept", c, w, c == service.Elements[i])))

func (lint.rpcNamesCamelCaseVisitor).VisitService
  nopanic
  requires service != nil
  requires forall(i, int, implies(0 <= i && i < len(service.Elements), service.Elements[i] != nil))
  ensures allcalls(v.add, f, false)
  ensures forall(i, int, implies(0 <= i && i < len(service.Elements), somecall("(proto.Visitee).Accept", c, w, c == service.Elements[i])))

func (lint.rpcNamesCapitalizedVisitor).VisitService
  nopanic
  requires service != nil
  requires forall(i, int, implies(0 <= i && i < len(service.Elements), service.Elements[i] != nil))
  ensures allcalls(v.add, f, false)
  ensures forall(i, int, implies(0 <= i && i < len(service.Elements), somecall("(proto.Visitee).Accept", c, w, c == service.Elements[i])))

func (*lint.rpcOptionsNoGoogleAPIHTTPVisitor).VisitService
  nopanic
  requires service != nil
  requires v != nil
  modifies *
  requires v.baseAddSuppressableVisitor != nil
  requires v.fileDescriptor != nil
  requires forall(i, int, implies(0 <= i && i < len(service.Elements), service.Elements[i] != nil))
  ensures allcalls(v.add, ps, c, f, false)
  ensures forall(i, int, implies(0 <= i && i < len(service.Elements), somecall("(proto.Visitee).Accept", c, w, c == service.Elements[i])))

func (lint.rpcsHaveCommentsVisitor).VisitService
  nopanic
  requires service != nil
  requires forall(i, int, implies(0 <= i && i < len(service.Elements), service.Elements[i] != nil))
  ensures allcalls(v.add, f, false)
  ensures forall(i, int, implies(0 <= i && i < len(service.Elements), somecall("(proto.Visitee).Accept", c, w, c == service.Elements[i])))

func (lint.rpcsHaveSentenceCommentsVisitor).VisitService
  nopanic
  requires service != nil
  requires forall(i, int, implies(0 <= i && i < len(service.Elements), service.Elements[i] != nil))
  ensures allcalls(v.add, f, false)
  ensures forall(i, int, implies(0 <= i && i < len(service.Elements), somecall("(proto.Visitee).Accept", c, w, c == service.Elements[i])))

func (lint.rpcsNoStreamingVisitor).VisitService
  nopanic
  requires service != nil
  requires forall(i, int, implies(0 <= i && i < len(service.Elements), service.Elements[i] != nil))
  ensures allcalls(v.add, f, false)
  ensures forall(i, int, implies(0 <= i && i < len(service.Elements), somecall("(proto.Visitee).Accept", c, w, c == service.Elements[i])))

func (lint.wktDurationSuffixVisitor).VisitGroup
  nopanic
  requires group != nil
  requires forall(i, int, implies(0 <= i && i < len(group.Elements), group.Elements[i] != nil))
  ensures allcalls(v.add, f, false)
  ensures forall(i, int, implies(0 <= i && i < len(group.Elements), somecall("(proto.Visitee).Accept", c, w, c == group.Elements[i])))

func (lint.wktDurationSuffixVisitor).VisitMessage
  nopanic
  requires message != nil
  requires forall(i, int, implies(0 <= i && i < len(message.Elements), message.Elements[i] != nil))
  ensures allcalls(v.add, f, false)
  ensures forall(i, int, implies(0 <= i && i < len(message.Elements), somecall("(proto.Visitee).Accept", c, w, c == message.Elements[i])))

func (lint.wktDurationSuffixVisitor).VisitOneof
  nopanic
  requires oneof != nil
  requires forall(i, int, implies(0 <= i && i < len(oneof.Elements), oneof.Elements[i] != nil))
  ensures allcalls(v.add, f, false)
  ensures forall(i, int, implies(0 <= i && i < len(oneof.Elements), somecall("(proto.Visitee).Accept", c, w, c == oneof.Elements[i])))

func (lint.wktTimestampSuffixVisitor).VisitGroup
  nopanic
  requires group != nil
  requires forall(i, int, implies(0 <= i && i < len(group.Elements), group.Elements[i] != nil))
  ensures allcalls(v.add, f, false)
  ensures forall(i, int, implies(0 <= i && i < len(group.Elements), somecall("(proto.Visitee).Accept", c, w, c == group.Elements[i])))

func (lint.wktTimestampSuffixVisitor).VisitMessage
  nopanic
  requires message != nil
  requires forall(i, int, implies(0 <= i && i < len(message.Elements), message.Elements[i] != nil))
  ensures allcalls(v.add, f, false)
  ensures forall(i, int, implies(0 <= i && i < len(message.Elements), somecall("(proto.Visitee).Accept", c, w, c == message.Elements[i])))

func (lint.wktTimestampSuffixVisitor).VisitOneof
  nopanic
  requires oneof != nil
  requires forall(i, int, implies(0 <= i && i < len(oneof.Elements), oneof.Elements[i] != nil))
  ensures allcalls(v.add, f, false)
  ensures forall(i, int, implies(0 <= i && i < len(oneof.Elements), somecall("(proto.Visitee).Accept", c, w, c == oneof.Elements[i])))
