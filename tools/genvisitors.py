#!/usr/bin/env python3
"""Writes contracts/visitors.gvc: the contracts of the visitors of the lint rules.

The table below states, per visitor and kind of node, what is flagged, where,
and which children are visited; the contract text is the same for all of them.
Run by hand when the table changes; the result is committed.
"""
import glob
import os
import re

REPO = os.environ.get("REPO", "/repo")
OUT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "contracts", "visitors.gvc")

sig = {}      # (visitor, method) -> (receiver text, parameter name)
for fn in sorted(glob.glob(REPO + "/internal/lint/check_*.go")):
    for m in re.finditer(r"^func \((?:v )?(\*?)(\w+Visitor)\) (\w+)\((\w*) ?[^)]*\)", open(fn).read(), re.M):
        sig[(m.group(2), m.group(3))] = (m.group(1), m.group(4))

out = []


def w(*ls):
    out.extend(ls)


def key(v, m):
    star, _ = sig[(v, m)]
    return "(%slint.%s).%s" % (star, v, m)


SUPPR = {"messageFieldsNotFloatsVisitor", "namesVisitor", "packageNoKeywordsVisitor",
         "rpcOptionsNoGoogleAPIHTTPVisitor", "serviceNamesNoPluralsVisitor"}
FIELD = ("VisitNormalField", "VisitOneofField", "VisitMapField")
CHILDREN = {"VisitNormalField": "Options", "VisitOneofField": "Options", "VisitMapField": "Options"}
done = set()


def flag(v, m, cond="false", pos="$.Position", comment="$.Comment", descend=False, pre=(), extra=(), nopanic=True, bound=None, state=()):
    """visitor v flags a node given to m exactly when cond, at pos."""
    p = sig[(v, m)][1]
    done.add((v, m))
    sub = lambda s: s.replace("$", p or "_")
    w("", "func " + key(v, m))
    if nopanic:
        w("  nopanic")
    if p and p != "_" and m.startswith("Visit"):
        w("  requires %s != nil" % p)
        if m in FIELD:
            w("  requires %s.Field != nil" % p)
    if sig[(v, m)][0]:
        w("  requires v != nil", "  modifies *")
    if v in SUPPR:
        if sig[(v, m)][0]:
            w("  requires v.baseAddSuppressableVisitor != nil")
        w("  requires v.fileDescriptor != nil")
    for s in pre:
        w("  " + sub(s))
    el = CHILDREN.get(m, "Elements")
    acc = "(*proto.Option).Accept" if m in CHILDREN else "(proto.Visitee).Accept"
    if descend and nopanic:
        w("  requires forall(i, int, implies(0 <= i && i < len(%s.%s), %s.%s[i] != nil))" % (p, el, p, el))
    args = "f"
    at = "at(f, %s)" % sub(pos)
    if v in SUPPR:
        args = "ps, c, f"
        at += " && ps == v.fileDescriptor.ProtoSet && c == " + sub(comment)
    c = sub(cond)
    if c == "false":
        w("  ensures allcalls(v.add, %s, false)" % args)
    elif bound:
        # one failure per element of a collection
        decl, guard = bound
        decl, guard = sub(decl), sub(guard)
        w("  ensures allcalls(v.add, %s, exists(%s, %s && %s) && %s)" % (args, decl, guard, c, at))
        w("  ensures forall(%s, implies(%s && %s, somecall(v.add, %s, %s)))" % (decl, guard, c, args, at))
    else:
        w("  ensures allcalls(v.add, %s, %s && %s)" % (args, par(c), at))
        w("  ensures implies(%s, somecall(v.add, %s, %s))" % (c, args, at))
    if descend:
        w('  ensures forall(i, int, implies(0 <= i && i < len(%s.%s), somecall("%s", c, w, c == %s.%s[i])))' % (p, el, acc, p, el))
    for s in list(extra) + list(state):
        w("  " + sub(s))


def par(c):
    return "(" + c + ")" if "||" in c else c


def fields(v, cond, comment="$.Comment", kinds=FIELD, **kw):
    for m in kinds:
        flag(v, m, cond, comment=comment, **kw)


w("// Generated by tools/genvisitors.py. The visitors of the lint rules (C17):",
  "// what each of them flags, where, and that everything declared inside of a",
  "// node is visited.",
  "package github.com/uber/prototool/internal/lint",
  "props C17",
  "extern (proto.Visitee).Accept event",
  "extern (*proto.Option).Accept event",
  "extern (lint.extendedVisitor).OnStart pureevent",
  "extern (lint.extendedVisitor).Finally pureevent",
  "extern unicode.IsUpper pure",
  "extern strings.HasSuffix pure",
  "extern strings.Trim pure",
  "extern strings.Title pure",
  "extern unicode.IsDigit pure",
  "extern utf8.DecodeRuneInString pure",
  "def at(f *text.Failure, p scanner.Position) bool = f.Line == p.Line && f.Column == p.Column && f.Filename == p.Filename",
  "def atFile(f *text.Failure, name string) bool = f.Filename == name",
  "",
  "func lint.hasGolangStyleComment",
  "  pure",
  '  ensures result == (comment != nil && len(comment.Lines) > 0 && strings.HasPrefix(comment.Lines[0], fmt.Sprintf(" %s ", name)))',
  "",
  "func lint.commentStartsWithUppercaseLetter",
  "  pure",
  '  ensures result == (comment != nil && len(comment.Lines) > 0 && strings.TrimSpace(comment.Lines[0]) != "" && (unicode.IsUpper(tup(utf8.DecodeRuneInString(strings.TrimSpace(comment.Lines[0])), 0)) || unicode.IsDigit(tup(utf8.DecodeRuneInString(strings.TrimSpace(comment.Lines[0])), 0))))',
  "",
  "func lint.commentContainsPeriod",
  "  pure",
  "  loop 0 invariant forall(i, int, implies(0 <= i && i <= rangeindex, !strings.Contains(comment.Lines[i], \".\")))",
  '  ensures result == (comment != nil && exists(i, int, 0 <= i && i < len(comment.Lines) && strings.Contains(comment.Lines[i], ".")))',
  "",
  "func lint.hasCompleteSentenceComment",
  "  pure",
  "  ensures result == (commentStartsWithUppercaseLetter(comment) && commentContainsPeriod(comment))",
  "",
  "func lint.runVisitor",
  "  loop 0 invariant true",
  "  loop 1 invariant true",
  '  ensures implies(err == nil, forall(d, int, i, int, implies(0 <= d && d < len(descriptors) && 0 <= i && i < len(descriptors[d].Elements), somecall("(proto.Visitee).Accept", c, w, c == descriptors[d].Elements[i] && w == visitor))))',
  '  ensures implies(err == nil, forall(d, int, implies(0 <= d && d < len(descriptors), somecall("(lint.extendedVisitor).OnStart", w, x, x == descriptors[d] && w == visitor))))',
  '  ensures implies(err == nil && len(descriptors) > 0, somecall("(lint.extendedVisitor).Finally", w, w == visitor))',
  )

# ---- comments ----
V = "commentsNoCStyleVisitor"
cst = "(($.Comment != nil && $.Comment.Cstyle) || ($.InlineComment != nil && $.InlineComment.Cstyle))"
cs1 = "$.Comment != nil && $.Comment.Cstyle"
for m in ("VisitMessage", "VisitService", "VisitEnum", "VisitOneof", "VisitGroup"):
    flag(V, m, cs1, descend=True)
for m in ("VisitSyntax", "VisitPackage", "VisitOption", "VisitImport", "VisitReserved", "VisitExtensions"):
    flag(V, m, cst)
for m in FIELD + ("VisitEnumField", "VisitRPC"):
    flag(V, m, cst, descend=True)
flag(V, "VisitComment", "$.Cstyle")
V = "commentsNoInlineVisitor"
for m in ("VisitSyntax", "VisitPackage", "VisitOption", "VisitImport", "VisitReserved", "VisitExtensions"):
    flag(V, m, "$.InlineComment != nil", pos="$.InlineComment.Position")
for m in FIELD + ("VisitEnumField", "VisitRPC"):
    flag(V, m, "$.InlineComment != nil", pos="$.InlineComment.Position", descend=True)

# ---- enums ----
flag("enumFieldNamesUpperSnakeCaseVisitor", "VisitEnumField", "!strs.IsUpperSnakeCase($.Name)")
flag("enumFieldNamesUppercaseVisitor", "VisitEnumField", "!strs.IsUppercase($.Name)")
flag("enumFieldsHaveCommentsVisitor", "VisitEnumField", "!hasGolangStyleComment($.Comment, $.Name)")
flag("enumFieldsHaveSentenceCommentsVisitor", "VisitEnumField", "!hasCompleteSentenceComment($.Comment)")
flag("enumFieldPrefixesVisitor", "VisitEnumField", '!strings.HasPrefix($.Name, strings.Join(v.nestedNames, "_") + "_")')
par_enum = ["requires $.Parent != nil", "requires typeis($.Parent, *proto.Enum)", "requires as($.Parent, *proto.Enum) != nil"]
flag("enumFieldPrefixesExceptMessageVisitor", "VisitEnumField", '!strings.HasPrefix($.Name, strs.ToUpperSnakeCase(as($.Parent, *proto.Enum).Name) + "_")', pre=par_enum)
flag("enumZeroValuesInvalidVisitor", "VisitEnumField", '$.Integer == 0 && $.Name != strings.Join(v.nestedNames, "_") + "_INVALID"')
flag("enumZeroValuesInvalidExceptMessageVisitor", "VisitEnumField", '$.Integer == 0 && $.Name != strs.ToUpperSnakeCase(as($.Parent, *proto.Enum).Name) + "_INVALID"', pre=par_enum)
flag("enumNamesCamelCaseVisitor", "VisitEnum", "!strs.IsCamelCase($.Name)")
flag("enumNamesCapitalizedVisitor", "VisitEnum", "!strs.IsCapitalized($.Name)")
flag("enumsHaveCommentsVisitor", "VisitEnum", "!hasGolangStyleComment($.Comment, $.Name)")
flag("enumsHaveSentenceCommentsVisitor", "VisitEnum", "!hasCompleteSentenceComment($.Comment)")
flag("enumsNoAllowAliasVisitor", "VisitOption", '$.Parent != nil && typeis($.Parent, *proto.Enum) && $.Name == "allow_alias"')


def stack(v, field, upper, ms):
    """methods that keep the names of the enclosing declarations on a stack"""
    for m in ms:
        p = sig[(v, m)][1]
        name = "strs.ToUpperSnakeCase(%s.Name)" % p if upper else "%s.Name" % p
        s = "v." + field
        inv = "  loop 0 invariant len(%s) == len(old(%s)) + 1 && %s[len(old(%s))] == %s && forall(i, int, implies(0 <= i && i < len(old(%s)), %s[i] == old(%s[i])))" % (s, s, s, s, name, s, s, s)
        st = []
        if sig[(v, m)][0]:
            st = ["ensures len(%s) == len(old(%s)) && forall(i, int, implies(0 <= i && i < len(old(%s)), %s[i] == old(%s[i])))" % (s, s, s, s, s)]
        yield m, inv[2:], st


for V in ("enumFieldPrefixesVisitor", "enumZeroValuesInvalidVisitor"):
    for m, inv, st in stack(V, "nestedNames", True, ("VisitMessage", "VisitGroup", "VisitEnum")):
        flag(V, m, "false", descend=True, pre=[inv], state=st)
V = "fieldsNotReservedVisitor"
for m in ("VisitMessage", "VisitGroup", "VisitEnum"):
    flag(V, m, "false", descend=True)
flag(V, "VisitReserved", "true")

# ---- fields ----
fields("messageFieldNamesFilenameVisitor", 'strings.Contains($.Name, "file_name")')
fields("messageFieldNamesFilepathVisitor", 'strings.Contains($.Name, "file_path")')
fields("messageFieldNamesLowerSnakeCaseVisitor", "!strs.IsLowerSnakeCase($.Name)")
fields("messageFieldNamesLowercaseVisitor", "!strs.IsLowercase($.Name)")
fields("messageFieldNamesNoDescriptorVisitor", 'strings.Trim(strings.ToLower($.Name), "_") == "descriptor"')
fields("messageFieldsDurationVisitor", 'strings.Contains($.Name, "duration") && $.Type != "google.protobuf.Duration"', kinds=FIELD[:2])
fields("messageFieldsTimeVisitor", 'strings.Contains($.Name, "time") && $.Type != "google.protobuf.Timestamp"', kinds=FIELD[:2])
fields("messageFieldsHaveCommentsVisitor", "!hasGolangStyleComment($.Comment, $.Name)")
fields("messageFieldsHaveSentenceCommentsVisitor", "!hasCompleteSentenceComment($.Comment)")
for m in FIELD:
    flag("messageFieldsNoJSONNameVisitor", m, '$.Options[i].Name == "json_name"', bound=("i, int", "0 <= i && i < len($.Options)"),
         pre=["requires forall(i, int, implies(0 <= i && i < len($.Options), $.Options[i] != nil))"])
fields("messageFieldsNotFloatsVisitor", '$.Type == "float"')
fields("wktDurationSuffixVisitor", '$.Type == "google.protobuf.Duration" && $.Name != "duration" && !strings.HasSuffix($.Name, "_duration")', kinds=FIELD[:2])
fields("wktTimestampSuffixVisitor", '$.Type == "google.protobuf.Timestamp" && $.Name != "time" && !strings.HasSuffix($.Name, "_time")', kinds=FIELD[:2])

# ---- messages, oneofs ----
flag("messageNamesCamelCaseVisitor", "VisitMessage", "!$.IsExtend && !strs.IsCamelCase($.Name)", descend=True)
flag("messageNamesCapitalizedVisitor", "VisitMessage", "!$.IsExtend && !strs.IsCapitalized($.Name)", descend=True)
flag("messagesHaveCommentsVisitor", "VisitMessage", "!$.IsExtend && !hasGolangStyleComment($.Comment, $.Name)", descend=True)
flag("oneofNamesLowerSnakeCaseVisitor", "VisitOneof", "!strs.IsLowerSnakeCase($.Name)", descend=True)

# ---- names ----
V = "namesVisitor"
bad = "strings.Contains(strings.ToLower($.Name), v.outlawedName)"
for m in ("VisitMessage", "VisitService", "VisitEnumField", "VisitEnum", "VisitOneof", "VisitRPC", "VisitGroup") + FIELD:
    flag(V, m, bad, descend=True)
for m in ("VisitPackage", "VisitOption"):
    flag(V, m, bad)
for m in ("VisitSyntax", "VisitImport", "VisitComment", "VisitExtensions"):
    flag(V, m, "false")
flag(V, "VisitReserved", "strings.Contains(strings.ToLower($.FieldNames[i]), v.outlawedName)", bound=("i, int", "0 <= i && i < len($.FieldNames)"))

# ---- imports, syntax, options ----
flag("gogoNotImportedVisitor", "VisitImport", 'strings.HasSuffix($.Filename, "gogo.proto")')
flag("importsNotPublicVisitor", "VisitImport", '$.Kind == "public"')
flag("importsNotWeakVisitor", "VisitImport", '$.Kind == "weak"')
flag("wktDirectlyImportedVisitor", "VisitImport", "strings.HasSuffix($.Filename, k) && $.Filename != k", bound=("k, string", "has(wkt.Filenames, k)"))


def onstart(v, *ens, **kw):
    done.add((v, "OnStart"))
    p = sig[(v, "OnStart")][1]
    w("", "func " + key(v, "OnStart"), *(["  requires v != nil", "  modifies *"] if sig[(v, "OnStart")][0] else []))
    if p and not p.startswith("_") and p != "":
        w("  requires %s != nil" % p)
    for s in kw.get("pre", ()):
        w("  requires " + s.replace("$", p))
    w("  ensures err == nil")
    if not kw.get("calls"):
        w("  ensures allcalls(v.add, %s, false)" % ("ps, c, f" if v in SUPPR else "f"))
    for e in ens:
        w("  ensures " + e.replace("$", p))


onstart("fileHeaderVisitor",
        'allcalls(v.add, f, $.ProtoSet.Config.Lint.FileHeader != "" && !strings.HasPrefix($.FileData, $.ProtoSet.Config.Lint.FileHeader) && atFile(f, $.Filename))',
        'implies($.ProtoSet.Config.Lint.FileHeader != "" && !strings.HasPrefix($.FileData, $.ProtoSet.Config.Lint.FileHeader), somecall(v.add, f, atFile(f, $.Filename)))',
        calls=True, pre=["$.ProtoSet != nil"])
snake = "!strs.IsLowerSnakeCase(strings.TrimSuffix(filepath.Base($.Filename), filepath.Ext(filepath.Base($.Filename))))"
onstart("fileNamesLowerSnakeCaseVisitor",
        "allcalls(v.add, f, %s && atFile(f, $.Filename))" % snake,
        "implies(%s, somecall(v.add, f, atFile(f, $.Filename)))" % snake, calls=True)
onstart("fileOptionsEqualVisitor", "v.descriptor == $ && v.pkg == nil && v.option == nil && v.fileOption == old(v.fileOption)")
onstart("fileOptionsRequireVisitor", "v.filename == $.Filename && !v.seen && v.fileOption == old(v.fileOption)")
onstart("fileOptionsSameInDirVisitor", "v.option == nil && v.fileOption == old(v.fileOption) && v.fileOptionValues == old(v.fileOptionValues)")
onstart("fileOptionsUnsetVisitor", "!v.seen && v.fileOption == old(v.fileOption)")
onstart("fileOptionsGoPackageNotLongFormVisitor", "v.option == nil")
for V in ("packageIsDeclaredVisitor", "packageLowerCaseVisitor", "packageLowerSnakeCaseVisitor", "packageMajorBetaVersionedVisitor"):
    onstart(V, "v.pkg == nil && v.filename == $.Filename")
onstart("packagesSameInDirVisitor", "v.pkg == nil && v.pkgs == old(v.pkgs)")
for V in ("messagesHaveCommentsExceptRequestResponseTypesVisitor", "messagesHaveSentenceCommentsExceptRequestResponseTypesVisitor"):
    onstart(V, "len(v.messageNameToMessage) == 0 && len(v.requestResponseTypes) == 0 && len(v.nestedMessageNames) == 0")
onstart("messagesNotEmptyExceptRequestResponseTypesVisitor", "len(v.messageNameToWrapper) == 0 && len(v.requestResponseTypes) == 0 && len(v.nestedMessageNames) == 0 && v.curFieldCount == 0")
onstart("requestResponseTypesAfterServiceVisitor", "len(v.messageNameToMessage) == 0 && len(v.rpcs) == 0")
onstart("requestResponseTypesInSameFileVisitor", "len(v.messageTypes) == 0 && len(v.rpcs) == 0 && len(v.nestedMessageNames) == 0")
onstart("requestResponseTypesOnlyInFileVisitor", "len(v.messageNameToMessage) == 0 && len(v.rpcs) == 0 && len(v.enumNameToEnum) == 0")
onstart("requestResponseTypesUniqueVisitor", "len(v.seenTypes) == 0")
onstart("rpcOptionsNoGoogleAPIHTTPVisitor", "v.rpc == nil && v.fileDescriptor == $", pre=["v.baseAddSuppressableVisitor != nil"])
onstart("serviceNamesMatchFileNameVisitor", "v.filename == $.Filename && len(v.services) == 0")
onstart("syntaxProto3Visitor", "v.filename == $.Filename && v.syntax == nil")


def final(v, cond=None, pos=None, file=None, pre=(), ens=(), err="err == nil", bound=None, invs=()):
    done.add((v, "Finally"))
    w("", "func " + key(v, "Finally"), "  requires v != nil", "  modifies *")
    if v in SUPPR:
        w("  requires v.baseAddSuppressableVisitor != nil")
    for s in pre:
        w("  requires " + s)
    for s in invs:
        w("  " + s)
    if err:
        w("  ensures " + err)
    if cond:
        at = "at(f, %s)" % pos if pos else "atFile(f, %s)" % file
        if bound:
            decl, guard = bound
            w("  ensures allcalls(v.add, f, exists(%s, %s && %s && %s))" % (decl, guard, cond, at))
            w("  ensures forall(%s, implies(%s && %s, somecall(v.add, f, %s)))" % (decl, guard, cond, at))
        else:
            w("  ensures allcalls(v.add, f, %s && %s)" % (par(cond), at), "  ensures implies(%s, somecall(v.add, f, %s))" % (cond, at))
    for e in ens:
        w("  ensures " + e)


def first(v, m, field):
    """remembers the first declaration; a second one is flagged"""
    flag(v, m, "old(v.%s) != nil" % field, state=["ensures v.%s == ite(old(v.%s) == nil, $, old(v.%s))" % (field, field, field)])


def remember(v, m, cond, *ens):
    flag(v, m, "false", state=["ensures " + e for e in ens])


first("fileOptionsSameInDirVisitor", "VisitOption", "option") if False else None
V = "fileOptionsEqualVisitor"
remember(V, "VisitPackage", None, "v.pkg == $ && v.option == old(v.option) && v.descriptor == old(v.descriptor)")
remember(V, "VisitOption", None, "v.option == ite($.Name == v.fileOption, $, old(v.option)) && v.pkg == old(v.pkg) && v.fileOption == old(v.fileOption) && v.descriptor == old(v.descriptor)")
V = "fileOptionsRequireVisitor"
remember(V, "VisitOption", None, "v.seen == (old(v.seen) || $.Name == v.fileOption) && v.fileOption == old(v.fileOption) && v.filename == old(v.filename)")
final(V, "!v.seen", file="v.filename")
V = "fileOptionsUnsetVisitor"
remember(V, "VisitOption", None, "v.seen == (old(v.seen) || $.Name == v.fileOption) && v.fileOption == old(v.fileOption)",
         "implies($.Name == v.fileOption, v.position == $.Position) && implies($.Name != v.fileOption, v.position == old(v.position))")
final(V, "v.seen", pos="v.position")
V = "fileOptionsGoPackageNotLongFormVisitor"
remember(V, "VisitOption", None, 'v.option == ite($.Name == "go_package", $, old(v.option))')
final(V, 'v.option != nil && strings.Contains(v.option.Constant.Source, ";")', pos="v.option.Position")
V = "fileOptionsSameInDirVisitor"
flag(V, "VisitOption", "$.Name == v.fileOption && old(v.option) != nil",
     state=["ensures v.option == ite($.Name == v.fileOption && old(v.option) == nil, $, old(v.option)) && v.fileOption == old(v.fileOption) && v.fileOptionValues == old(v.fileOptionValues)"])
final(V, pre=["v.fileOptionValues != nil"],
      ens=['forall(k, string, iff(has(v.fileOptionValues, k), old(has(v.fileOptionValues, k)) || k == ite(v.option == nil, "", v.option.Constant.Source)))',
           "allcalls(v.add, f, false)"])
for V, cond in (("packageIsDeclaredVisitor", None),
                ("packageLowerCaseVisitor", "v.pkg != nil && !isPackageLowerCase(v.pkg.Name)"),
                ("packageLowerSnakeCaseVisitor", 'v.pkg != nil && !strs.IsLowerSnakeCase(strings.Replace(v.pkg.Name, ".", "", -1))')):
    first(V, "VisitPackage", "pkg")
    if cond:
        final(V, cond, pos="v.pkg.Position")
    else:
        final(V, "v.pkg == nil", file="v.filename")
V = "packageMajorBetaVersionedVisitor"
first(V, "VisitPackage", "pkg")
mb = "v.pkg != nil && !tup(protostrs.MajorBetaVersion(v.pkg.Name), 2)"
final(V, ens=["allcalls(v.add, f, (v.pkg == nil && atFile(f, v.filename)) || (%s && at(f, v.pkg.Position)))" % mb,
              "implies(v.pkg == nil, somecall(v.add, f, atFile(f, v.filename)))",
              "implies(%s, somecall(v.add, f, at(f, v.pkg.Position)))" % mb])
V = "packagesSameInDirVisitor"
first(V, "VisitPackage", "pkg")
final(V, pre=["v.pkgs != nil"], ens=["forall(k, string, iff(has(v.pkgs, k), old(has(v.pkgs, k)) || (v.pkg != nil && k == v.pkg.Name)))", "allcalls(v.add, f, false)"])
w("", "func lint.isPackageLowerCase", "  pure",
  "  ensures result == forall(i, int, implies(0 <= i && i < runes(packageName), okPackageRune(rune(packageName, i))))",
  "def okPackageRune(r rune) bool = (97 <= r && r <= 122) || (48 <= r && r <= 57) || r == 46")
V = "packageNoKeywordsVisitor"
flag(V, "VisitPackage", 'has(packageNoKeywordsKeywordsMap, strings.ToLower(strings.Split($.Name, ".")[i]))', bound=("i, int", '0 <= i && i < len(strings.Split($.Name, "."))'))
V = "syntaxProto3Visitor"
first(V, "VisitSyntax", "syntax")
final(V, ens=['allcalls(v.add, f, (v.syntax == nil && atFile(f, v.filename)) || (v.syntax != nil && v.syntax.Value != "proto3" && at(f, v.syntax.Position)))',
              "implies(v.syntax == nil, somecall(v.add, f, atFile(f, v.filename)))",
              'implies(v.syntax != nil && v.syntax.Value != "proto3", somecall(v.add, f, at(f, v.syntax.Position)))'])

# ---- services ----
flag("requestResponseNamesMatchRPCVisitor", "VisitRPC", '$.RequestType != $.Name + "Request" || $.ReturnsType != $.Name + "Response"')
flag("rpcNamesCamelCaseVisitor", "VisitRPC", "!strs.IsCamelCase($.Name)")
flag("rpcNamesCapitalizedVisitor", "VisitRPC", "!strs.IsCapitalized($.Name)")
flag("rpcsHaveCommentsVisitor", "VisitRPC", "!hasGolangStyleComment($.Comment, $.Name)")
flag("rpcsHaveSentenceCommentsVisitor", "VisitRPC", "!hasCompleteSentenceComment($.Comment)")
flag("rpcsNoStreamingVisitor", "VisitRPC", "$.StreamsRequest || $.StreamsReturns")
flag("serviceNamesAPISuffixVisitor", "VisitService", '!strings.HasSuffix($.Name, "API")')
flag("serviceNamesCamelCaseVisitor", "VisitService", "!strs.IsCamelCase($.Name)")
flag("serviceNamesCapitalizedVisitor", "VisitService", "!strs.IsCapitalized($.Name)")
flag("servicesHaveCommentsVisitor", "VisitService", "!hasGolangStyleComment($.Comment, $.Name)")
flag("servicesHaveSentenceCommentsVisitor", "VisitService", "!hasCompleteSentenceComment($.Comment)")
V = "rpcOptionsNoGoogleAPIHTTPVisitor"
flag(V, "VisitRPC", "false", descend=True, pre=["loop 0 invariant v.rpc == $ && v.baseAddSuppressableVisitor == old(v.baseAddSuppressableVisitor)"], state=["ensures v.rpc == nil"])
flag(V, "VisitOption", 'v.rpc != nil && (strings.HasPrefix($.Name, "(google.api.http)") || strings.HasPrefix($.Name, "(.google.api.http)"))', comment="v.rpc.Comment", state=["ensures v.rpc == old(v.rpc)"])
V = "serviceNamesMatchFileNameVisitor"
flag(V, "VisitService", "false", state=["ensures v.filename == old(v.filename) && len(v.services) == len(old(v.services)) + 1 && v.services[len(old(v.services))] == $ && forall(i, int, implies(0 <= i && i < len(old(v.services)), v.services[i] == old(v.services[i])))"])
nm = 'len(v.services) == 1 && filepath.Base(v.filename) != strs.ToLowerSnakeCase(v.services[0].Name) + ".proto"'
final(V, "(len(v.services) > 1 || (%s))" % nm, pos="v.services[i].Position", bound=("i, int", "0 <= i && i < len(v.services)"),
      pre=["forall(i, int, implies(0 <= i && i < len(v.services), v.services[i] != nil))"])

# ---- requests and responses ----
for V, cond in (("messagesHaveCommentsExceptRequestResponseTypesVisitor", "!hasGolangStyleComment(v.messageNameToMessage[k].Comment, v.messageNameToMessage[k].Name)"),
                ("messagesHaveSentenceCommentsExceptRequestResponseTypesVisitor", "!hasCompleteSentenceComment(v.messageNameToMessage[k].Comment)")):
    rpcTypes = "forall(k, string, iff(has(v.requestResponseTypes, k), old(has(v.requestResponseTypes, k)) || k == $.RequestType || k == $.ReturnsType))"
    flag(V, "VisitRPC", "false", state=["ensures " + rpcTypes])
    for m, inv, st in stack(V, "nestedMessageNames", False, ("VisitGroup",)):
        flag(V, m, "false", descend=True, pre=[inv], state=st)
    for m, inv, st in stack(V, "nestedMessageNames", False, ("VisitMessage",)):
        flag(V, m, "false", descend=True, pre=[inv, "loop 0 invariant v.messageNameToMessage == old(v.messageNameToMessage)"],
             state=st + ["ensures implies(!$.IsExtend && len(old(v.nestedMessageNames)) == 0, has(v.messageNameToMessage, $.Name) && v.messageNameToMessage[$.Name] == $)",
                         "ensures implies($.IsExtend, v.messageNameToMessage == old(v.messageNameToMessage))"])
    final(V, "!v.messageNameToMessage[k].IsExtend && !has(v.requestResponseTypes, k) && " + cond, pos="v.messageNameToMessage[k].Position",
          bound=("k, string", "has(v.messageNameToMessage, k)"),
          pre=["forall(k, string, implies(has(v.messageNameToMessage, k), v.messageNameToMessage[k] != nil))"])
V = "messagesNotEmptyExceptRequestResponseTypesVisitor"
flag(V, "VisitRPC", "false", state=["ensures " + rpcTypes])
for m in FIELD:
    flag(V, m, "false", state=["ensures v.curFieldCount == old(v.curFieldCount) + 1"])
for m, inv, st in stack(V, "nestedMessageNames", False, ("VisitGroup",)):
    flag(V, m, "false", descend=True, pre=[inv], state=st + ["ensures v.curFieldCount == old(v.curFieldCount) + 1"])
for m, inv, st in stack(V, "nestedMessageNames", False, ("VisitMessage",)):
    flag(V, m, "false", descend=True, pre=[inv, "loop 0 invariant v.messageNameToWrapper == old(v.messageNameToWrapper)"],
         state=st + ["ensures v.curFieldCount == old(v.curFieldCount)",
                     "ensures implies(!$.IsExtend && len(old(v.nestedMessageNames)) == 0, has(v.messageNameToWrapper, $.Name) && v.messageNameToWrapper[$.Name] != nil && v.messageNameToWrapper[$.Name].message == $)",
                     "ensures implies($.IsExtend, v.messageNameToWrapper == old(v.messageNameToWrapper))"])
final(V, "!has(v.requestResponseTypes, k) && v.messageNameToWrapper[k].fieldCount == 0", pos="v.messageNameToWrapper[k].message.Position",
      bound=("k, string", "has(v.messageNameToWrapper, k)"),
      pre=["forall(k, string, implies(has(v.messageNameToWrapper, k), v.messageNameToWrapper[k] != nil && v.messageNameToWrapper[k].message != nil))"])
V = "requestResponseTypesInSameFileVisitor"
rpcApp = ["ensures len(v.rpcs) == len(old(v.rpcs)) + 1 && v.rpcs[len(old(v.rpcs))].RequestType == $.RequestType && v.rpcs[len(old(v.rpcs))].ResponseType == $.ReturnsType && v.rpcs[len(old(v.rpcs))].Position == $.Position",
          "ensures forall(i, int, implies(0 <= i && i < len(old(v.rpcs)), v.rpcs[i] == old(v.rpcs[i])))"]
flag(V, "VisitRPC", "false", state=rpcApp)
for m, inv, st in stack(V, "nestedMessageNames", False, ("VisitGroup",)):
    flag(V, m, "false", descend=True, pre=[inv], state=st)
for m, inv, st in stack(V, "nestedMessageNames", False, ("VisitMessage",)):
    flag(V, m, "false", descend=True, pre=[inv, "loop 0 invariant v.messageTypes == old(v.messageTypes)"],
         state=st + ["ensures implies(!$.IsExtend && len(old(v.nestedMessageNames)) == 0, has(v.messageTypes, $.Name))",
                     "ensures implies($.IsExtend, v.messageTypes == old(v.messageTypes))"])
w("extern strings.ContainsRune pure")
for t in ("RequestType", "ResponseType"):
    pass
rt = "badRPCType(v.messageTypes, v.rpcs[i].%s)"
w("def badRPCType(m map[string]struct{}, t string) bool = !has(m, t) || strings.ContainsRune(t, 46)")
final(V, "(%s || %s)" % (rt % "RequestType", rt % "ResponseType"), pos="v.rpcs[i].Position", bound=("i, int", "0 <= i && i < len(v.rpcs)"),
      pre=["forall(i, int, implies(0 <= i && i < len(v.rpcs), v.rpcs[i] != nil))"])
V = "requestResponseTypesAfterServiceVisitor"
flag(V, "VisitRPC", "false", state=rpcApp)
flag(V, "VisitMessage", "false", state=["ensures implies(!$.IsExtend, has(v.messageNameToMessage, $.Name) && v.messageNameToMessage[$.Name] == $)",
                                       "ensures implies($.IsExtend, v.messageNameToMessage == old(v.messageNameToMessage))",
                                       "ensures forall(k, string, implies(k != $.Name, has(v.messageNameToMessage, k) == old(has(v.messageNameToMessage, k))))"])
V = "requestResponseTypesOnlyInFileVisitor"
flag(V, "VisitRPC", "false", state=rpcApp)
flag(V, "VisitMessage", "false", state=["ensures implies(!$.IsExtend, has(v.messageNameToMessage, $.Name) && v.messageNameToMessage[$.Name] == $)",
                                       "ensures implies($.IsExtend, v.messageNameToMessage == old(v.messageNameToMessage))"])
flag(V, "VisitEnum", "false", state=["ensures has(v.enumNameToEnum, $.Name) && v.enumNameToEnum[$.Name] == $"])
V = "requestResponseTypesUniqueVisitor"
flag(V, "VisitRPC", "old(has(v.seenTypes, $.RequestType)) || old(has(v.seenTypes, $.ReturnsType)) || $.RequestType == $.ReturnsType",
     state=["ensures has(v.seenTypes, $.RequestType) && has(v.seenTypes, $.ReturnsType)"])

# ---- Finally of the rest ----
V = "requestResponseTypesAfterServiceVisitor"
late = "has(v.messageNameToMessage, v.rpcs[i].%s) && v.rpcs[i].Position.Line > v.messageNameToMessage[v.rpcs[i].%s].Position.Line"
req, res = late % (("RequestType",) * 2), late % (("ResponseType",) * 2)
order = "(has(v.messageNameToMessage, v.rpcs[i].RequestType) && has(v.messageNameToMessage, v.rpcs[i].ResponseType) && v.messageNameToMessage[v.rpcs[i].RequestType].Position.Line > v.messageNameToMessage[v.rpcs[i].ResponseType].Position.Line)"
rpcsOK = "forall(i, int, implies(0 <= i && i < len(v.rpcs), v.rpcs[i] != nil))"
final(V, pre=[rpcsOK, "forall(k, string, implies(has(v.messageNameToMessage, k), v.messageNameToMessage[k] != nil))"],
      ens=["allcalls(v.add, f, exists(i, int, 0 <= i && i < len(v.rpcs) && ((%s && at(f, v.messageNameToMessage[v.rpcs[i].RequestType].Position)) || ((%s || %s) && at(f, v.messageNameToMessage[v.rpcs[i].ResponseType].Position)))))" % (req, res, order),
           "forall(i, int, implies(0 <= i && i < len(v.rpcs) && %s, somecall(v.add, f, at(f, v.messageNameToMessage[v.rpcs[i].RequestType].Position))))" % req,
           "forall(i, int, implies(0 <= i && i < len(v.rpcs) && (%s || %s), somecall(v.add, f, at(f, v.messageNameToMessage[v.rpcs[i].ResponseType].Position))))" % (res, order)])
V = "fileOptionsEqualVisitor"
eqc = "v.descriptor != nil && v.pkg != nil && v.option != nil && v.descriptor.Filename != \"\" && ret(v.expectedValueFunc, v.descriptor, v.pkg) != v.option.Constant.Source"
final(V, eqc, pos="v.option.Position", err="implies(v.descriptor == nil || v.pkg == nil || v.option == nil || v.descriptor.Filename != \"\", err == nil)")
V = "requestResponseTypesOnlyInFileVisitor"
left = "len(old(v.rpcs)) > 0 && old(has(v.messageNameToMessage, k)) && forall(i, int, implies(0 <= i && i < len(v.rpcs), v.rpcs[i].RequestType != k && v.rpcs[i].ResponseType != k))"
final(V, pre=[rpcsOK, "forall(k, string, implies(has(v.messageNameToMessage, k), v.messageNameToMessage[k] != nil))", "forall(k, string, implies(has(v.enumNameToEnum, k), v.enumNameToEnum[k] != nil))"],
      invs=["loop 0 invariant forall(k, string, iff(has(v.messageNameToMessage, k), old(has(v.messageNameToMessage, k)) && forall(i, int, implies(0 <= i && i <= rangeindex, v.rpcs[i].RequestType != k && v.rpcs[i].ResponseType != k))))"],
      ens=["allcalls(v.add, f, (len(v.rpcs) > 0 && exists(k, string, has(v.enumNameToEnum, k) && at(f, v.enumNameToEnum[k].Position))) || exists(k, string, %s && at(f, old(v.messageNameToMessage[k].Position))))" % left,
           "forall(k, string, implies(len(v.rpcs) > 0 && has(v.enumNameToEnum, k), somecall(v.add, f, at(f, v.enumNameToEnum[k].Position))))",
           "forall(k, string, implies(%s, somecall(v.add, f, at(f, old(v.messageNameToMessage[k].Position)))))" % left])
V = "serviceNamesNoPluralsVisitor"
w("", "func lint.isAllowedServiceNamePlural", "  pure",
  "  ensures result == (strings.ToUpper(word) == word || has(allowedServiceNamePlurals, strings.ToLower(word)))",
  "extern flect.New pure", "extern (flect.Ident).Singularize pure", "extern (flect.Ident).String pure",
  "func strs.SplitCamelCaseWord", "  opaque")
sing = "strings.ToLower(strs.SplitCamelCaseWord($.Name)[i])"
flag(V, "VisitService", "flect.New(%s).Singularize().String() != %s && !isAllowedServiceNamePlural(strs.SplitCamelCaseWord($.Name)[i])" % (sing, sing),
     bound=("i, int", "0 <= i && i < len(strs.SplitCamelCaseWord($.Name))"))

# ---- the checks run their visitors ----
for fn in sorted(glob.glob(REPO + "/internal/lint/check_*.go")):
    src = open(fn).read()
    for m in re.finditer(r"^func (check\w+|newCheck\w+)\((.*?)^}", src, re.M | re.S):
        mm = re.search(r"return runVisitor\(&?(\w+Visitor)\{", m.group(2))
        if not mm:
            continue
        amp = "&" in m.group(2)[mm.start():mm.end()]
        name = "lint." + m.group(1) + ("$1" if m.group(1).startswith("new") else "")
        t = ("*" if amp else "") + mm.group(1)
        a = "as(v, %s)" % t
        w("", "func " + name,
          '  ensures somecall("lint.runVisitor", v, d, typeis(v, %s) && d == descriptors && %s.add == add)' % (t, a))

# ---- everything else only descends ----
SKIP = {("messagesHaveCommentsVisitor", "x")}
for (V, m), (star, p) in sorted(sig.items()):
    if (V, m) in done or not m.startswith("Visit"):
        continue
    body = None
    for fn in glob.glob(REPO + "/internal/lint/check_*.go"):
        mm = re.search(r"^func \((?:v )?\*?%s\) %s\(.*?^}" % (V, m), open(fn).read(), re.M | re.S)
        if mm:
            body = mm.group(0)
    if body.count("Accept(v)") == 1 and "if" not in re.sub(r"\w+", lambda x: x.group(0), body).split():
        flag(V, m, "false", descend=True)
    else:
        print("no contract:", V, m)

open(OUT, "w").write("\n".join(out) + "\n")
print(sum(1 for l in out if l.startswith("func ")), "contracts")
