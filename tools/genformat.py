#!/usr/bin/env python3
"""Writes contracts/formatvisitors.gvc: what format prints for each node."""
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BV = '(*format.baseVisitor).'
out = ['package github.com/uber/prototool/internal/format', 'props C25', '',
       '// generated by tools/genformat.py', '',
       'def pvm(v *format.mainVisitor) bool = v != nil && v.baseVisitor != nil && pv(v.baseVisitor) && v.baseVisitor.Printer.indentCount >= 0',
       'def samem(v *format.mainVisitor) bool = v.baseVisitor == old(v.baseVisitor) && v.baseVisitor.Printer == old(v.baseVisitor.Printer) && v.baseVisitor.Printer.indentCount == old(v.baseVisitor.Printer.indentCount) && v.baseVisitor.Printer.buffer == old(v.baseVisitor.Printer.buffer) && v.parent == old(v.parent) && v.isProto2 == old(v.isProto2)',
       '']
def w(s): out.append(s)
def head(m, mods=True):
    w('func (*format.mainVisitor).' + m)
    w('  requires pvm(v) && element != nil')
    if mods:
        w('  modifies fields(v), fields(v.baseVisitor), fields(v.baseVisitor.Printer)')
    w('  ensures samem(v)')
def hit():
    w('  ensures v.haveHitNonComment')
def comment(cond=None, expr='element.Comment'):
    s = 'somecall("%sPComment", w, c, w == v.baseVisitor && c == %s)' % (BV, expr)
    w('  ensures %s' % (('implies(%s, %s)' % (cond, s)) if cond else s))
    w('  ensures allcalls("%sPComment", w, c, w == v.baseVisitor && c == %s)' % (BV, expr))
def only(*names):
    w('  ensures onlycalls(%s)' % ', '.join('"%s"' % n for n in names))

def container(name, ty, open_, trailing):
    """open_ is the text of the declaration up to the name (an expression)"""
    head('Visit' + name)
    w('  loop 0 invariant v.baseVisitor.Printer.indentCount == old(v.baseVisitor.Printer.indentCount) + 1')
    w('  loop 0 invariant typeis(v.parent, *proto.%s) && as(v.parent, *proto.%s) == element' % (ty, ty))
    hit()
    comment()
    n, e = 'len(element.Elements) > 0', 'len(element.Elements) == 0'
    P = '(*buf.Printer).P'
    w('  ensures implies(%s, somecall("%s", p, a, p == v.baseVisitor.Printer && ptext(a) == %s + " {}"))' % (e, P, open_))
    w('  ensures implies(%s, somecall("%s", p, a, p == v.baseVisitor.Printer && ptext(a) == %s + " {"))' % (n, P, open_))
    w('  ensures implies(%s, somecall("%s", p, a, p == v.baseVisitor.Printer && ptext(a) == "}"))' % (n, P))
    w('  ensures implies(%s, allcalls("%s", p, a, ptext(a) == %s + " {" || ptext(a) == "}" || len(a) == 0))' % (n, P, open_))
    w('  ensures implies(%s, allcalls("%s", p, a, ptext(a) == %s + " {}" || len(a) == 0))' % (e, P, open_))
    w('  ensures forall(i, int, implies(0 <= i && i < len(element.Elements), somecall("(proto.Visitee).Accept", c, w, c == element.Elements[i] && w == v)))')
    w('  ensures allcalls("(proto.Visitee).Accept", c, w, contains(element.Elements, c) && w == v)')
    only(BV + 'PComment', P, '(*buf.Printer).In', '(*buf.Printer).Out', '(proto.Visitee).Accept')
    w('')

container('Message', 'Message', 'ite(element.IsExtend, "extend ", "message ") + element.Name', True)
container('Service', 'Service', '"service " + element.Name', True)
container('Enum', 'Enum', '"enum " + element.Name', True)
container('Oneof', 'Oneof', '"oneof " + element.Name', False)
container('Group', 'Group', 'ite(element.Repeated, "repeated ", ite(element.Required, "required ", ite(element.Optional, "optional ", ""))) + "group " + element.Name + " = " + strconv.Itoa(element.Sequence)', False)

for m in ('Syntax', 'Package', 'Import'):
    head('Visit' + m)
    hit()
    only('none')
    w('')

def pfield(name, prefix, ty, expr='element.Field'):
    head('Visit' + name)
    w('  requires element.Field != nil && nonnil(element.Field.Options)')
    hit()
    c = 'somecall("%sPField", w, p, t, f, w == v.baseVisitor && p == %s && t == %s && f == %s)' % (BV, prefix, ty, expr)
    w('  ensures ' + c)
    w('  ensures allcalls' + c[8:])
    only(BV + 'PField')
    w('')
pfield('NormalField', 'ite(element.Repeated, "repeated ", ite(v.isProto2, ite(element.Required, "required ", "optional "), ite(element.Optional, "optional ", "")))', 'element.Type')
pfield('OneofField', '""', 'element.Type')
pfield('MapField', '""', 'fmt.Sprintf("map<%s, %s>", element.KeyType, element.Type)')

head('VisitEnumField')
w('  requires forall(i, int, implies(0 <= i && i < len(element.Elements), element.Elements[i] != nil && implies(typeis(element.Elements[i], *proto.Option), as(element.Elements[i], *proto.Option) != nil)))')
hit()
w('  ensures somecall("%sPEnumField", w, e, w == v.baseVisitor && e == element)' % BV)
w('  ensures allcalls("%sPEnumField", w, e, w == v.baseVisitor && e == element)' % BV)
only(BV + 'PEnumField')
w('')

head('VisitOption')
hit()
inside = '(typeis(old(v.parent), *proto.Enum) || typeis(old(v.parent), *proto.Message) || typeis(old(v.parent), *proto.Oneof) || typeis(old(v.parent), *proto.Service) || typeis(old(v.parent), *proto.Group))'
w('  ensures implies(old(v.parent == nil), onlycalls("none"))')
w('  ensures implies(%s, somecall("%sPOptions", w, o, w == v.baseVisitor && len(o) == 1 && o[0] == element))' % (inside, BV))
w('  ensures allcalls("%sPOptions", w, o, w == v.baseVisitor && len(o) == 1 && o[0] == element)' % BV)
w('  ensures implies(old(v.parent != nil) && !%s, somecall("%sAddFailure", w, p, f, a, w == v.baseVisitor && p == element.Position))' % (inside, BV))
only(BV + 'POptions', BV + 'AddFailure')
w('')

head('VisitComment')
w('  ensures implies(old(v.haveHitNonComment), somecall("%sPComment", w, c, w == v.baseVisitor && c == element))' % BV)
w('  ensures allcalls("%sPComment", w, c, w == v.baseVisitor && c == element)' % BV)
w('  ensures implies(!old(v.haveHitNonComment), onlycalls("none"))')
only(BV + 'PComment', '(*buf.Printer).P')
w('  ensures allcalls("(*buf.Printer).P", p, a, len(a) == 0)')
w('')

W = BV + 'PWithInlineComment'
head('VisitReserved')
hit()
both = 'len(element.Ranges) > 0 && len(element.FieldNames) > 0'
w('  ensures implies(%s, somecall("%sAddFailure", w, p, f, a, w == v.baseVisitor && p == element.Position))' % (both, BV))
comment('!(%s)' % both)
w('  ensures allcalls("%s", w, c, a, w == v.baseVisitor && c == element.InlineComment && len(a) == 3 && pitem(a[0]) == "reserved " && pitem(a[2]) == ";")' % W)
w('  ensures implies(len(element.Ranges) > 0 && len(element.FieldNames) == 0, somecall("%s", w, c, a, true))' % W)
w('  ensures implies(len(element.Ranges) == 0 && len(element.FieldNames) > 0, somecall("%s", w, c, a, true))' % W)
w('  ensures allcalls("strings.Join", s, sep, sep == ", ")')
w('  ensures implies(len(element.Ranges) > 0 && len(element.FieldNames) == 0, somecall("strings.Join", s, sep, len(s) == len(element.Ranges) && forall(i, int, implies(0 <= i && i < len(s), s[i] == element.Ranges[i].SourceRepresentation()))))')
w('  ensures implies(len(element.Ranges) == 0 && len(element.FieldNames) > 0, somecall("strings.Join", s, sep, len(s) == len(element.FieldNames) && forall(i, int, implies(0 <= i && i < len(s), s[i] == "\\"" + element.FieldNames[i] + "\\""))))')
w('')

head('VisitExtensions')
hit()
comment()
w('  ensures somecall("%s", w, c, a, w == v.baseVisitor && c == element.InlineComment && len(a) == 3 && pitem(a[0]) == "extensions " && pitem(a[2]) == ";")' % W)
w('')

head('VisitRPC')
w('  requires nonnil(element.Options)')
hit()
comment()
sig = 'pitem(a[0]) == "rpc " && pitem(a[1]) == element.Name && pitem(a[2]) == "(" && pitem(a[3]) == ite(element.StreamsRequest, "stream ", "") && pitem(a[4]) == element.RequestType && pitem(a[5]) == ") returns (" && pitem(a[6]) == ite(element.StreamsReturns, "stream ", "") && pitem(a[7]) == element.ReturnsType'
w('  ensures somecall("%s", w, c, a, w == v.baseVisitor && c == element.InlineComment && len(a) == 9 && %s && pitem(a[8]) == ");") ||\n      somecall("(*buf.Printer).P", w, a, w == v.baseVisitor.Printer && len(a) == 9 && %s && pitem(a[8]) == ") {") && somecall("%s", w, c, a, w == v.baseVisitor && c == element.InlineComment && len(a) == 1 && pitem(a[0]) == "}")' % (W, sig, sig, W))
w('  ensures forall(j, int, implies(0 <= j && j < len(element.Options) && format.hasContent(element.Options[j].Constant), somecall("%sPOptions", w, o, w == v.baseVisitor && contains(o, element.Options[j]))))' % BV)
w('  ensures allcalls("%sPOptions", w, o, forall(j, int, implies(0 <= j && j < len(o), contains(element.Options, o[j]))))' % BV)
w('')

# ---- first pass ----
F = ['Syntax', 'Package', 'Options', 'Imports', 'filename', 'fix', 'fileHeader', 'javaPackagePrefix']
SET = {'csharp_namespace': 'csharpNamespaceOption', 'go_package': 'goPackageOption', 'java_multiple_files': 'javaMultipleFilesOption',
       'java_outer_classname': 'javaOuterClassnameOption', 'java_package': 'javaPackageOption', 'objc_class_prefix': 'objcClassPrefixOption', 'php_namespace': 'phpNamespaceOption'}
A = sorted(SET.values())
ALL = F + A
def same(fields): return ' && '.join('v.%s == old(v.%s)' % (f, f) for f in fields)
w('def pvf(v *format.firstPassVisitor) bool = v != nil && v.baseVisitor != nil && pv(v.baseVisitor) && v.baseVisitor.Printer.indentCount >= 0')
w('def samef(v *format.firstPassVisitor) bool = v.baseVisitor == old(v.baseVisitor) && v.baseVisitor.Printer == old(v.baseVisitor.Printer) && v.baseVisitor.Printer.indentCount == old(v.baseVisitor.Printer.indentCount) && v.baseVisitor.Printer.buffer == old(v.baseVisitor.Printer.buffer) && v.filename == old(v.filename) && v.fix == old(v.fix) && v.fileHeader == old(v.fileHeader) && v.javaPackagePrefix == old(v.javaPackagePrefix)')
w('')
def fhead(m, keep=ALL, extra=()):
    w('func (*format.firstPassVisitor).' + m)
    w('  requires pvf(v)')
    if m.startswith('Visit'):
        w('  requires element != nil')
    w('  modifies fields(v), fields(v.baseVisitor), fields(v.baseVisitor.Printer)' + ''.join(', ' + e for e in extra))
    w('  ensures samef(v)')
    if keep:
        w('  ensures ' + same(keep))
def without(*fs): return [f for f in ALL if f not in fs]
for m in ['Message', 'Service', 'NormalField', 'EnumField', 'Enum', 'Oneof', 'OneofField', 'Reserved', 'RPC', 'MapField', 'Group', 'Extensions']:
    fhead('Visit' + m)
    hit()
    only('none')
    w('')
for m in ('Syntax', 'Package'):
    fhead('Visit' + m, without(m))
    hit()
    w('  ensures implies(old(v.%s == nil), v.%s == element)' % (m, m))
    w('  ensures implies(old(v.%s == nil), onlycalls("none"))' % m)
    w('  ensures implies(old(v.%s != nil), v.%s == old(v.%s) && somecall("%sAddFailure", w, p, f, a, w == v.baseVisitor && p == element.Position))' % (m, m, m, BV))
    w('')
fhead('VisitImport', without('Imports'), ['elems(v.Imports)'])
hit()
only('none')
def appended(f, cond=None):
    s = 'len(v.%s) == old(len(v.%s)) + 1 && v.%s[old(len(v.%s))] == element && forall(i, int, implies(0 <= i && i < old(len(v.%s)), v.%s[i] == old(v.%s[i])))' % ((f,) * 7)
    w('  ensures ' + (s if cond is None else 'implies(%s, %s)' % (cond, s)))
appended('Imports')
w('')
fhead('VisitOption', without('Options', *A), ['elems(v.Options)'])
hit()
only('none')
aside = '(' + ' || '.join('element.Name == "%s"' % n for n in sorted(SET)) + ')'
appended('Options', 'v.fix == 0 || !' + aside)
w('  ensures implies(v.fix == 0 || !%s, %s)' % (aside, same(A)))
w('  ensures implies(v.fix != 0 && %s, v.Options == old(v.Options))' % aside)
for n, f in sorted(SET.items()):
    w('  ensures v.%s == ite(v.fix != 0 && element.Name == "%s", element, old(v.%s))' % (f, n, f))
w('')
fhead('VisitComment')
w('  ensures v.haveHitNonComment == old(v.haveHitNonComment)')
shown = '!old(v.haveHitNonComment) && (v.fix == 0 || v.fileHeader == "")'
w('  ensures implies(%s, somecall("%sPComment", w, c, w == v.baseVisitor && c == element))' % (shown, BV))
w('  ensures implies(!(%s), onlycalls("none"))' % shown)
w('  ensures allcalls("%sPComment", w, c, w == v.baseVisitor && c == element)' % BV)
w('  ensures allcalls("(*buf.Printer).P", p, a, len(a) == 0)')
only(BV + 'PComment', '(*buf.Printer).P')
w('')
w('func (*format.firstPassVisitor).PImports')
w('  event')
w('  requires pvf(v)')
w('  requires forall(i, int, implies(0 <= i && i < len(imports), imports[i] != nil))')
w('  modifies elems(imports), fields(v.baseVisitor.Printer)')
w('  ensures samef(v)')
w('  ensures forall(i, int, implies(0 <= i && i < len(imports), somecall("%sPComment", w, c, w == v.baseVisitor && c == old(imports[i]).Comment)))' % BV)
w('  ensures forall(i, int, implies(0 <= i && i < len(imports), somecall("%s", w, c, a, w == v.baseVisitor && c == old(imports[i]).InlineComment && len(a) == 5 && pitem(a[0]) == "import " && pitem(a[1]) == ite(old(imports[i]).Kind == "", "", old(imports[i]).Kind + " ") && pitem(a[2]) == "\\"" && pitem(a[3]) == old(imports[i]).Filename && pitem(a[4]) == "\\";")))' % W)
only(BV + 'PComment', W)
w('')

DEP = {'goPackageOption': 'ite(v.fix == 2, protostrs.GoPackageV2(v.Package.Name), protostrs.GoPackage(v.Package.Name))', 'javaMultipleFilesOption': '"true"',
       'javaOuterClassnameOption': 'protostrs.JavaOuterClassname(v.filename)', 'javaPackageOption': 'protostrs.JavaPackagePrefixOverride(v.Package.Name, v.javaPackagePrefix)'}
DEP2 = {'csharpNamespaceOption': 'protostrs.CSharpNamespace(v.Package.Name)', 'objcClassPrefixOption': 'protostrs.OBJCClassPrefix(v.Package.Name)', 'phpNamespaceOption': 'protostrs.PHPNamespace(v.Package.Name)'}
ORDER = ['goPackageOption', 'javaMultipleFilesOption', 'javaOuterClassnameOption', 'javaPackageOption', 'csharpNamespaceOption', 'objcClassPrefixOption', 'phpNamespaceOption']
NAME = {f: n for n, f in SET.items()}
# what Do needs to hold of what the elements of the file have set
w('def pvdo(v *format.firstPassVisitor) bool = pvf(v) && nonnil(v.Options) && forall(i, int, implies(0 <= i && i < len(v.Imports), v.Imports[i] != nil)) && '
  + ' && '.join('(v.%s == nil || v.%s != v.%s)' % (f, f, g) for j, f in enumerate(ORDER) for g in ORDER[j + 1:]))
def dohead(variant='', full=True):
    w('func (*format.firstPassVisitor).Do' + variant)
    if not variant:
        w('  event')
    w('  requires pvdo(v)')
    w('  modifies fields(v), fields(v.baseVisitor), fields(v.baseVisitor.Printer), elems(v.Options), elems(v.Imports), ' + ', '.join('fields(v.%s)' % f for f in ORDER))
    w('  loop 0 invariant samef(v) && v.Imports == old(v.Imports)')
    w('  loop 0 invariant nonnil(v.Options) && len(v.Options) >= old(len(v.Options))')
    if full:
        w('  loop 0 invariant forall(i, int, implies(0 <= i && i < old(len(v.Options)), v.Options[i] == old(v.Options[i])))')
    for j, f in enumerate(ORDER if full else []):
        w('  loop 0 invariant implies(rangeindex >= %d && v.%s != nil, contains(v.Options, v.%s))' % (j, f, f))
# what callers see
dohead('', False)
w('  ensures samef(v)')
w('  ensures v.Syntax == old(v.Syntax) && v.Package == old(v.Package)')
w('')
dohead(' variant prints')
w('  ensures implies(v.fix != 0 && v.fileHeader != "", somecall("(*buf.Printer).P", p, a, len(a) == 1 && pitem(a[0]) == v.fileHeader))')
w('  ensures implies(v.Syntax != nil, somecall("%s", w, c, a, w == v.baseVisitor && c == v.Syntax.InlineComment && len(a) == 3 && pitem(a[0]) == "syntax = \\"" && pitem(a[1]) == v.Syntax.Value && pitem(a[2]) == "\\";"))' % W)
w('  ensures implies(v.Syntax != nil && v.Syntax.Comment != nil && (v.fix == 0 || v.fileHeader == ""), somecall("%sPComment", w, c, w == v.baseVisitor && c == v.Syntax.Comment))' % BV)
w('  ensures implies(v.Package != nil, somecall("%sPComment", w, c, w == v.baseVisitor && c == v.Package.Comment))' % BV)
w('  ensures implies(v.Package != nil, somecall("%s", w, c, a, w == v.baseVisitor && c == v.Package.InlineComment && len(a) == 3 && pitem(a[0]) == "package " && pitem(a[1]) == v.Package.Name && pitem(a[2]) == ";"))' % W)
w('  ensures forall(i, int, implies(0 <= i && i < old(len(v.Options)) && format.hasContent(old(v.Options[i]).Constant), somecall("%sPOptions", w, o, w == v.baseVisitor && contains(o, old(v.Options[i])))))' % BV)
for f in ORDER:
    w('  ensures implies(v.%s != nil && format.hasContent(v.%s.Constant), somecall("%sPOptions", w, o, w == v.baseVisitor && contains(o, v.%s)))' % (f, f, BV, f))
    w('  ensures implies(old(v.%s) != nil, v.%s == old(v.%s))' % (f, f, f))
w('  ensures implies(len(v.Imports) > 0, somecall("(*format.firstPassVisitor).PImports", w, i, w == v && i == old(v.Imports)))')
w('')
# the values --fix sets: --fix=v1 for all sets of options, --fix=v2 for none
# and for all of the options given (the paths are the product of the seven
# nil checks otherwise)
for var, fix, given in (('fixv1', 1, None), ('fixv2new', 2, False), ('fixv2given', 2, True)):
    dohead(' variant ' + var, False)
    w('  requires v.fix == %d && v.Package != nil' % fix)
    if given is not None:
        for f in ORDER:
            w('  requires v.%s %s nil' % (f, '!=' if given else '=='))
    vals = dict(DEP)
    vals['goPackageOption'] = 'protostrs.GoPackageV2(v.Package.Name)' if fix == 2 else 'protostrs.GoPackage(v.Package.Name)'
    if fix == 2:
        vals.update(DEP2)
    for f, e in vals.items():
        c = 'v.%s != nil && v.%s.Constant.Source == %s && v.%s.Constant.IsString == %s && len(v.%s.Constant.Array) == 0 && len(v.%s.Constant.OrderedMap) == 0' % (f, f, e, f, 'false' if f == 'javaMultipleFilesOption' else 'true', f, f)
        if not given:
            c += ' && implies(old(v.%s) == nil, v.%s.Name == "%s")' % (f, f, NAME[f])
        w('  ensures ' + c)
    w('')
open(os.path.join(V if os.environ.get('OUT') is None else os.environ['OUT'], 'contracts/formatvisitors.gvc' if os.environ.get('OUT') is None else 'formatvisitors.gvc'), 'w').write('\n'.join(out))
