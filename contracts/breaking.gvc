package breaking
props C01, C02

// ---- which elements are on both sides ----
def pkgpair(from *extract.PackageSet, to *extract.PackageSet, a *extract.Package, b *extract.Package) bool =
      exists(n, string, has(from.packageNameToPackage, n) && has(to.packageNameToPackage, n) && a == from.packageNameToPackage[n] && b == to.packageNameToPackage[n])

// messages at the same path, at any depth below the two maps
uf msgpair(F map[string]*extract.Message, T map[string]*extract.Message, a *extract.Message, b *extract.Message) bool
axiom msgpair-unfold: forall(F, map[string]*extract.Message, T, map[string]*extract.Message, a, *extract.Message, b, *extract.Message,
      iff(msgpair(F, T, a, b), exists(n, string, has(F, n) && has(T, n) && (a == F[n] && b == T[n] ||
      msgpair(F[n].nestedMessageNameToMessage, T[n].nestedMessageNameToMessage, a, b)))))

def msgs(from *extract.PackageSet, to *extract.PackageSet, a *extract.Message, b *extract.Message) bool =
      exists(n, string, has(from.packageNameToPackage, n) && has(to.packageNameToPackage, n) &&
      msgpair(from.packageNameToPackage[n].messageNameToMessage, to.packageNameToPackage[n].messageNameToMessage, a, b))

func breaking.forEachMessagePairRec
  emits f(addFailure, a, b) for a *extract.Message, b *extract.Message where msgpair(fromMessageNameToMessage, toMessageNameToMessage, a, b)

// ---- pairs of elements of those ----
def fieldpair(from *extract.PackageSet, to *extract.PackageSet, a *extract.MessageField, b *extract.MessageField) bool =
      exists(m, *extract.Message, n, *extract.Message, k, int32, msgs(from, to, m, n) && has(m.fieldNumberToField, k) && has(n.fieldNumberToField, k) &&
      a == m.fieldNumberToField[k] && b == n.fieldNumberToField[k])
def oneofpair(from *extract.PackageSet, to *extract.PackageSet, a *extract.MessageOneof, b *extract.MessageOneof) bool =
      exists(m, *extract.Message, n, *extract.Message, k, string, msgs(from, to, m, n) && has(m.oneofNameToOneof, k) && has(n.oneofNameToOneof, k) &&
      a == m.oneofNameToOneof[k] && b == n.oneofNameToOneof[k])
def topenum(from *extract.PackageSet, to *extract.PackageSet, a *extract.Enum, b *extract.Enum) bool =
      exists(m, *extract.Package, n, *extract.Package, k, string, pkgpair(from, to, m, n) && has(m.enumNameToEnum, k) && has(n.enumNameToEnum, k) &&
      a == m.enumNameToEnum[k] && b == n.enumNameToEnum[k])
def nestedenum(from *extract.PackageSet, to *extract.PackageSet, a *extract.Enum, b *extract.Enum) bool =
      exists(m, *extract.Message, n, *extract.Message, k, string, msgs(from, to, m, n) && has(m.nestedEnumNameToEnum, k) && has(n.nestedEnumNameToEnum, k) &&
      a == m.nestedEnumNameToEnum[k] && b == n.nestedEnumNameToEnum[k])
def enumpair(from *extract.PackageSet, to *extract.PackageSet, a *extract.Enum, b *extract.Enum) bool = topenum(from, to, a, b) || nestedenum(from, to, a, b)
def valuepair(from *extract.PackageSet, to *extract.PackageSet, a *extract.EnumValue, b *extract.EnumValue) bool =
      exists(m, *extract.Enum, n, *extract.Enum, k, string, enumpair(from, to, m, n) && has(m.valueNameToValue, k) && a == m.valueNameToValue[k] &&
      has(n.valueNumberToValue, a.protoMessage.Number) && b == ite(has(n.valueNameToValue, k) && n.valueNameToValue[k].protoMessage.Number == a.protoMessage.Number,
      n.valueNameToValue[k], n.valueNumberToValue[a.protoMessage.Number]))
def servicepair(from *extract.PackageSet, to *extract.PackageSet, a *extract.Service, b *extract.Service) bool =
      exists(m, *extract.Package, n, *extract.Package, k, string, pkgpair(from, to, m, n) && has(m.serviceNameToService, k) && has(n.serviceNameToService, k) &&
      a == m.serviceNameToService[k] && b == n.serviceNameToService[k])
def methodpair(from *extract.PackageSet, to *extract.PackageSet, a *extract.ServiceMethod, b *extract.ServiceMethod) bool =
      exists(m, *extract.Service, n, *extract.Service, k, string, servicepair(from, to, m, n) && has(m.methodNameToMethod, k) && has(n.methodNameToMethod, k) &&
      a == m.methodNameToMethod[k] && b == n.methodNameToMethod[k])

// ---- deletions ----
func breaking.checkPackagesNotDeleted
  ensures err == nil
  ensures allcalls(addFailure, f, exists(n, string,
      has(from.packageNameToPackage, n) && !has(to.packageNameToPackage, n) && mentions(f.Message, n)))
  ensures implies(err == nil, forall(n, string, implies(has(from.packageNameToPackage, n) && !has(to.packageNameToPackage, n),
      somecall(addFailure, f, mentions(f.Message, n)))))
func breaking.checkEnumValuesNotDeleted
  ensures err == nil
  ensures allcalls(addFailure, f, exists(a, *extract.Enum, b, *extract.Enum, n, int32,
      enumpair(from, to, a, b) && has(a.valueNumberToValue, n) && !has(b.valueNumberToValue, n) && mentions(f.Message, n) && mentions(f.Message, a.fullyQualifiedName)))
  ensures implies(err == nil, forall(a, *extract.Enum, b, *extract.Enum, n, int32, implies(enumpair(from, to, a, b) && has(a.valueNumberToValue, n) && !has(b.valueNumberToValue, n),
      somecall(addFailure, f, mentions(f.Message, n) && mentions(f.Message, a.fullyQualifiedName)))))
func breaking.checkMessageFieldsNotDeleted
  ensures err == nil
  ensures allcalls(addFailure, f, exists(a, *extract.Message, b, *extract.Message, n, int32,
      msgs(from, to, a, b) && has(a.fieldNumberToField, n) && !has(b.fieldNumberToField, n) && mentions(f.Message, n) && mentions(f.Message, a.fullyQualifiedName)))
  ensures implies(err == nil, forall(a, *extract.Message, b, *extract.Message, n, int32, implies(msgs(from, to, a, b) && has(a.fieldNumberToField, n) && !has(b.fieldNumberToField, n),
      somecall(addFailure, f, mentions(f.Message, n) && mentions(f.Message, a.fullyQualifiedName)))))
func breaking.checkMessageOneofsNotDeleted
  ensures err == nil
  ensures allcalls(addFailure, f, exists(a, *extract.Message, b, *extract.Message, n, string,
      msgs(from, to, a, b) && has(a.oneofNameToOneof, n) && !has(b.oneofNameToOneof, n) && mentions(f.Message, n) && mentions(f.Message, a.fullyQualifiedName)))
  ensures implies(err == nil, forall(a, *extract.Message, b, *extract.Message, n, string, implies(msgs(from, to, a, b) && has(a.oneofNameToOneof, n) && !has(b.oneofNameToOneof, n),
      somecall(addFailure, f, mentions(f.Message, n) && mentions(f.Message, a.fullyQualifiedName)))))
func breaking.checkServiceMethodsNotDeleted
  ensures err == nil
  ensures allcalls(addFailure, f, exists(a, *extract.Service, b, *extract.Service, n, string,
      servicepair(from, to, a, b) && has(a.methodNameToMethod, n) && !has(b.methodNameToMethod, n) && mentions(f.Message, n) && mentions(f.Message, a.fullyQualifiedName)))
  ensures implies(err == nil, forall(a, *extract.Service, b, *extract.Service, n, string, implies(servicepair(from, to, a, b) && has(a.methodNameToMethod, n) && !has(b.methodNameToMethod, n),
      somecall(addFailure, f, mentions(f.Message, n) && mentions(f.Message, a.fullyQualifiedName)))))
func breaking.checkServicesNotDeleted
  ensures err == nil
  ensures allcalls(addFailure, f, exists(a, *extract.Package, b, *extract.Package, n, string,
      pkgpair(from, to, a, b) && has(a.serviceNameToService, n) && !has(b.serviceNameToService, n) && mentions(f.Message, a.serviceNameToService[n].fullyQualifiedName)))
  ensures implies(err == nil, forall(a, *extract.Package, b, *extract.Package, n, string, implies(pkgpair(from, to, a, b) && has(a.serviceNameToService, n) && !has(b.serviceNameToService, n),
      somecall(addFailure, f, mentions(f.Message, a.serviceNameToService[n].fullyQualifiedName)))))
def enumgone(from *extract.PackageSet, to *extract.PackageSet, e *extract.Enum) bool =
      exists(a, *extract.Package, b, *extract.Package, n, string, pkgpair(from, to, a, b) && has(a.enumNameToEnum, n) && !has(b.enumNameToEnum, n) && e == a.enumNameToEnum[n]) ||
      exists(a, *extract.Message, b, *extract.Message, n, string, msgs(from, to, a, b) && has(a.nestedEnumNameToEnum, n) && !has(b.nestedEnumNameToEnum, n) && e == a.nestedEnumNameToEnum[n])
func breaking.checkEnumsNotDeleted
  ensures err == nil
  ensures allcalls(addFailure, f, exists(e, *extract.Enum,
      enumgone(from, to, e) && mentions(f.Message, e.fullyQualifiedName)))
  ensures implies(err == nil, forall(e, *extract.Enum, implies(enumgone(from, to, e),
      somecall(addFailure, f, mentions(f.Message, e.fullyQualifiedName)))))

// messages that are gone below a pair of messages that is still there
uf msggone(F map[string]*extract.Message, T map[string]*extract.Message, e *extract.Message) bool
axiom msggone-unfold: forall(F, map[string]*extract.Message, T, map[string]*extract.Message, e, *extract.Message,
      iff(msggone(F, T, e), exists(n, string, has(F, n) && (!has(T, n) && e == F[n] ||
      has(T, n) && msggone(F[n].nestedMessageNameToMessage, T[n].nestedMessageNameToMessage, e)))))
func breaking.checkMessagesNotDeletedMap
  emits addFailure(f) for e *extract.Message where msggone(from, to, e) with mentions(f.Message, e.fullyQualifiedName)
  ensures err == nil

func breaking.getMessageOneofFieldNumbersMap
  optional
  pure
  ensures forall(n, int32, iff(has(result, n), contains(fieldNumbers, n)))

def msgdeleted(from *extract.PackageSet, to *extract.PackageSet, e *extract.Message) bool =
      exists(n, string, has(from.packageNameToPackage, n) && has(to.packageNameToPackage, n) &&
      msggone(from.packageNameToPackage[n].messageNameToMessage, to.packageNameToPackage[n].messageNameToMessage, e))
func breaking.checkMessagesNotDeleted
  ensures err == nil
  ensures allcalls(addFailure, f, exists(e, *extract.Message, msgdeleted(from, to, e) && mentions(f.Message, e.fullyQualifiedName)))
  ensures implies(err == nil, forall(e, *extract.Message, implies(msgdeleted(from, to, e), somecall(addFailure, f, mentions(f.Message, e.fullyQualifiedName)))))

// ---- changes ----
func breaking.checkEnumValuesSameName
  ensures err == nil
  ensures allcalls(addFailure, f, exists(a, *extract.EnumValue, b, *extract.EnumValue,
      valuepair(from, to, a, b) && a.protoMessage.Name != b.protoMessage.Name && mentions(f.Message, a.enum.fullyQualifiedName) && mentions(f.Message, a.protoMessage.Number) && mentions(f.Message, a.protoMessage.Name) && mentions(f.Message, b.protoMessage.Name)))
  ensures implies(err == nil, forall(a, *extract.EnumValue, b, *extract.EnumValue, implies(valuepair(from, to, a, b) && a.protoMessage.Name != b.protoMessage.Name,
      somecall(addFailure, f, mentions(f.Message, a.enum.fullyQualifiedName) && mentions(f.Message, a.protoMessage.Number) && mentions(f.Message, a.protoMessage.Name) && mentions(f.Message, b.protoMessage.Name)))))
func breaking.checkMessageFieldsSameName
  ensures err == nil
  ensures allcalls(addFailure, f, exists(a, *extract.MessageField, b, *extract.MessageField,
      fieldpair(from, to, a, b) && a.protoMessage.Name != b.protoMessage.Name && mentions(f.Message, a.message.fullyQualifiedName) && mentions(f.Message, a.protoMessage.Number) && mentions(f.Message, a.protoMessage.Name) && mentions(f.Message, b.protoMessage.Name)))
  ensures implies(err == nil, forall(a, *extract.MessageField, b, *extract.MessageField, implies(fieldpair(from, to, a, b) && a.protoMessage.Name != b.protoMessage.Name,
      somecall(addFailure, f, mentions(f.Message, a.message.fullyQualifiedName) && mentions(f.Message, a.protoMessage.Number) && mentions(f.Message, a.protoMessage.Name) && mentions(f.Message, b.protoMessage.Name)))))
func breaking.checkMessageFieldsSameOneof
  ensures err == nil
  ensures allcalls(addFailure, f, exists(a, *extract.MessageField, b, *extract.MessageField,
      fieldpair(from, to, a, b) && a.messageOneof == nil && b.messageOneof != nil && mentions(f.Message, a.message.fullyQualifiedName) && mentions(f.Message, a.protoMessage.Number) && mentions(f.Message, b.messageOneof.protoMessage.Name)))
  ensures implies(err == nil, forall(a, *extract.MessageField, b, *extract.MessageField, implies(fieldpair(from, to, a, b) && a.messageOneof == nil && b.messageOneof != nil,
      somecall(addFailure, f, mentions(f.Message, a.message.fullyQualifiedName) && mentions(f.Message, a.protoMessage.Number) && mentions(f.Message, b.messageOneof.protoMessage.Name)))))
func breaking.checkMessageFieldsSameLabel
  ensures allcalls(addFailure, f, exists(a, *extract.MessageField, b, *extract.MessageField,
      fieldpair(from, to, a, b) && a.protoMessage.Label != b.protoMessage.Label && mentions(f.Message, a.message.fullyQualifiedName) && mentions(f.Message, a.protoMessage.Number)))
  ensures implies(err == nil, forall(a, *extract.MessageField, b, *extract.MessageField, implies(fieldpair(from, to, a, b) && a.protoMessage.Label != b.protoMessage.Label,
      somecall(addFailure, f, mentions(f.Message, a.message.fullyQualifiedName) && mentions(f.Message, a.protoMessage.Number)))))
def named(t reflectv1.MessageField_Type) bool = t == reflectv1.MessageField_TYPE_ENUM || t == reflectv1.MessageField_TYPE_GROUP || t == reflectv1.MessageField_TYPE_MESSAGE
func breaking.checkMessageFieldsSameType
  ensures allcalls(addFailure, f, exists(a, *extract.MessageField, b, *extract.MessageField,
      fieldpair(from, to, a, b) && (a.protoMessage.Type != b.protoMessage.Type || named(a.protoMessage.Type) && a.protoMessage.TypeName != b.protoMessage.TypeName) && mentions(f.Message, a.message.fullyQualifiedName) && mentions(f.Message, a.protoMessage.Number)))
  ensures implies(err == nil, forall(a, *extract.MessageField, b, *extract.MessageField, implies(fieldpair(from, to, a, b) && (a.protoMessage.Type != b.protoMessage.Type || named(a.protoMessage.Type) && a.protoMessage.TypeName != b.protoMessage.TypeName),
      somecall(addFailure, f, mentions(f.Message, a.message.fullyQualifiedName) && mentions(f.Message, a.protoMessage.Number)))))
func breaking.checkServiceMethodsSameClientStreaming
  ensures err == nil
  ensures allcalls(addFailure, f, exists(a, *extract.ServiceMethod, b, *extract.ServiceMethod,
      methodpair(from, to, a, b) && a.protoMessage.ClientStreaming != b.protoMessage.ClientStreaming && mentions(f.Message, a.service.fullyQualifiedName) && mentions(f.Message, a.protoMessage.Name)))
  ensures implies(err == nil, forall(a, *extract.ServiceMethod, b, *extract.ServiceMethod, implies(methodpair(from, to, a, b) && a.protoMessage.ClientStreaming != b.protoMessage.ClientStreaming,
      somecall(addFailure, f, mentions(f.Message, a.service.fullyQualifiedName) && mentions(f.Message, a.protoMessage.Name)))))
func breaking.checkServiceMethodsSameServerStreaming
  ensures err == nil
  ensures allcalls(addFailure, f, exists(a, *extract.ServiceMethod, b, *extract.ServiceMethod,
      methodpair(from, to, a, b) && a.protoMessage.ServerStreaming != b.protoMessage.ServerStreaming && mentions(f.Message, a.service.fullyQualifiedName) && mentions(f.Message, a.protoMessage.Name)))
  ensures implies(err == nil, forall(a, *extract.ServiceMethod, b, *extract.ServiceMethod, implies(methodpair(from, to, a, b) && a.protoMessage.ServerStreaming != b.protoMessage.ServerStreaming,
      somecall(addFailure, f, mentions(f.Message, a.service.fullyQualifiedName) && mentions(f.Message, a.protoMessage.Name)))))
func breaking.checkServiceMethodsSameRequestType
  ensures err == nil
  ensures allcalls(addFailure, f, exists(a, *extract.ServiceMethod, b, *extract.ServiceMethod,
      methodpair(from, to, a, b) && a.protoMessage.RequestTypeName != b.protoMessage.RequestTypeName && mentions(f.Message, a.service.fullyQualifiedName) && mentions(f.Message, a.protoMessage.Name) && mentions(f.Message, a.protoMessage.RequestTypeName) && mentions(f.Message, b.protoMessage.RequestTypeName)))
  ensures implies(err == nil, forall(a, *extract.ServiceMethod, b, *extract.ServiceMethod, implies(methodpair(from, to, a, b) && a.protoMessage.RequestTypeName != b.protoMessage.RequestTypeName,
      somecall(addFailure, f, mentions(f.Message, a.service.fullyQualifiedName) && mentions(f.Message, a.protoMessage.Name) && mentions(f.Message, a.protoMessage.RequestTypeName) && mentions(f.Message, b.protoMessage.RequestTypeName)))))
func breaking.checkServiceMethodsSameResponseType
  ensures err == nil
  ensures allcalls(addFailure, f, exists(a, *extract.ServiceMethod, b, *extract.ServiceMethod,
      methodpair(from, to, a, b) && a.protoMessage.ResponseTypeName != b.protoMessage.ResponseTypeName && mentions(f.Message, a.service.fullyQualifiedName) && mentions(f.Message, a.protoMessage.Name) && mentions(f.Message, a.protoMessage.ResponseTypeName) && mentions(f.Message, b.protoMessage.ResponseTypeName)))
  ensures implies(err == nil, forall(a, *extract.ServiceMethod, b, *extract.ServiceMethod, implies(methodpair(from, to, a, b) && a.protoMessage.ResponseTypeName != b.protoMessage.ResponseTypeName,
      somecall(addFailure, f, mentions(f.Message, a.service.fullyQualifiedName) && mentions(f.Message, a.protoMessage.Name) && mentions(f.Message, a.protoMessage.ResponseTypeName) && mentions(f.Message, b.protoMessage.ResponseTypeName)))))
func breaking.checkMessageOneofsFieldsNotRemoved
  ensures err == nil
  ensures allcalls(addFailure, f, exists(a, *extract.MessageOneof, b, *extract.MessageOneof, n, int32,
      oneofpair(from, to, a, b) && contains(a.protoMessage.FieldNumbers, n) && !contains(b.protoMessage.FieldNumbers, n) && mentions(f.Message, n) && mentions(f.Message, a.message.fullyQualifiedName) && mentions(f.Message, a.protoMessage.Name)))
  ensures implies(err == nil, forall(a, *extract.MessageOneof, b, *extract.MessageOneof, n, int32, implies(oneofpair(from, to, a, b) && contains(a.protoMessage.FieldNumbers, n) && !contains(b.protoMessage.FieldNumbers, n),
      somecall(addFailure, f, mentions(f.Message, n) && mentions(f.Message, a.message.fullyQualifiedName) && mentions(f.Message, a.protoMessage.Name)))))

// ---- beta packages ----
def isbeta(n string) bool = tup(protostrs.MajorBetaVersion(n), 2) && tup(protostrs.MajorBetaVersion(n), 1) > 0
func breaking.checkPackagesNoBetaDeps
  props C03
  ensures err == nil
  ensures allcalls(addFailure, f, exists(k, string, i, int, has(to.packageNameToPackage, k) && 0 <= i && i < len(to.packageNameToPackage[k].protoMessage.DependencyNames) &&
      isbeta(to.packageNameToPackage[k].protoMessage.DependencyNames[i]) && mentions(f.Message, to.packageNameToPackage[k].protoMessage.Name) && mentions(f.Message, to.packageNameToPackage[k].protoMessage.DependencyNames[i])))
  ensures implies(err == nil, forall(k, string, i, int, implies(has(to.packageNameToPackage, k) && 0 <= i && i < len(to.packageNameToPackage[k].protoMessage.DependencyNames) &&
      isbeta(to.packageNameToPackage[k].protoMessage.DependencyNames[i]),
      somecall(addFailure, f, mentions(f.Message, to.packageNameToPackage[k].protoMessage.Name) && mentions(f.Message, to.packageNameToPackage[k].protoMessage.DependencyNames[i])))))

// every failure carries the id of its checker and is kept, in order
func (*breaking.runner).Run$1
  optional
  modifies *
  props C01, C03
  requires failure != nil && failures != nil && checker != nil
  ensures failure.LintID == checker.ID && failure.Message == old(failure.Message)
  ensures len(*failures) == old(len(*failures)) + 1 && (*failures)[len(*failures)-1] == failure
  ensures forall(i, int, implies(0 <= i && i < old(len(*failures)),  (*failures)[i] == old((*failures)[i])))
