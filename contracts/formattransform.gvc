package github.com/uber/prototool/internal/format
props C25

extern proto.NewParser pure
extern (*proto.Parser).Parse pure
extern (*bytes.Buffer).Bytes fresh

func format.newBaseVisitor variant init
  ensures result != nil && isfresh(result) && pv(result) && isfresh(result.Printer) && result.Printer.indentCount == 0 && result.Printer.indent == "  " && len(result.Failures) == 0

func format.newFirstPassVisitor variant init
  ensures result != nil && isfresh(result) && pv(result.baseVisitor) && result.baseVisitor.Printer.indentCount == 0
  ensures result.filename == filename && result.fix == fix && result.fileHeader == fileHeader && result.javaPackagePrefix == javaPackagePrefix
  ensures result.Syntax == nil && result.Package == nil && len(result.Options) == 0 && len(result.Imports) == 0 && !result.haveHitNonComment
  ensures result.goPackageOption == nil && result.javaMultipleFilesOption == nil && result.javaOuterClassnameOption == nil && result.javaPackageOption == nil && result.csharpNamespaceOption == nil && result.objcClassPrefixOption == nil && result.phpNamespaceOption == nil

func format.newMainVisitor variant init
  ensures result != nil && isfresh(result) && pv(result.baseVisitor) && result.baseVisitor.Printer.indentCount == 0
  ensures result.isProto2 == isProto2 && result.parent == nil && !result.haveHitNonComment

func format.checkFix
  pure
  ensures iff(err == nil, fix == 0 || fix == 1 || fix == 2)

def parsed(data []byte) *proto.Proto = tup(proto.NewParser(bytes.NewReader(data)).Parse(), 0)
def parseErr(data []byte) error = tup(proto.NewParser(bytes.NewReader(data)).Parse(), 1)
def first(v *format.firstPassVisitor, t *format.transformer, filename string) bool = v.fix == t.fix && v.filename == filename && v.fileHeader == t.fileHeader && v.javaPackagePrefix == t.javaPackagePrefix
def unknownSyntax(v *format.firstPassVisitor) bool = v.Syntax != nil && v.Syntax.Value != "" && v.Syntax.Value != "proto2" && v.Syntax.Value != "proto3"
def isProto3(v *format.firstPassVisitor) bool = v.Syntax != nil && v.Syntax.Value == "proto3"

func (*format.mainVisitor).Do
  event
  requires v != nil && v.baseVisitor != nil
  ensures result == v.Failures

// every element of the file goes through both passes, with the settings given
// and the syntax the first pass found
func (*format.transformer).Transform
  requires t != nil
  requires parsed(data) != nil
  modifies *
  callbacks modify except filename fix fileHeader javaPackagePrefix baseVisitor isProto2
  callbacks assume *format.firstPassVisitor: pvdo(changed)
  loop 0 invariant pvdo(firstPassVisitor)
  loop 0 invariant first(firstPassVisitor, t, filename)
  ensures implies(t.fix != 0 && t.fix != 1 && t.fix != 2, err != nil && onlycalls("none"))
  ensures implies(parseErr(data) != nil, err != nil)
  ensures implies(err == nil, forall(i, int, implies(0 <= i && i < old(len(parsed(data).Elements)), somecall("(proto.Visitee).Accept", c, w, c == old(parsed(data).Elements[i]) && somecall("(*format.firstPassVisitor).Do", v, w == v)))))
  ensures allcalls("(*format.firstPassVisitor).Do", v, first(v, t, filename))
  ensures implies(err == nil, forall(i, int, implies(0 <= i && i < old(len(parsed(data).Elements)), somecall("(proto.Visitee).Accept", c, w, c == old(parsed(data).Elements[i]) && somecall("(*format.mainVisitor).Do", v, w == v)))))
  ensures allcalls("(*format.mainVisitor).Do", m, allcalls("(*format.firstPassVisitor).Do", v, m.isProto2 == !isProto3(v)))
  ensures allcalls("(*format.firstPassVisitor).Do", v, implies(unknownSyntax(v), err != nil))
  ensures implies(err != nil, (t.fix != 0 && t.fix != 1 && t.fix != 2) || parseErr(data) != nil || somecall("(*format.firstPassVisitor).Do", v, unknownSyntax(v)))
  ensures allcalls("(proto.Visitee).Accept", c, w, contains(old(parsed(data).Elements), c))
  ensures implies(err == nil, forall(i, int, j, int, implies(0 <= i && i < j && j < len(result1), !fless(result1[j], result1[i]))))
