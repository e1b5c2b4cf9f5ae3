package extract
props C04

def fullname(outer string, name string) string = ite(outer == "", name, outer + "." + name)

func extract.getFullyQualifiedName
  pure
  ensures result == ite(encapsulatingFullyQualifiedName == "", name, encapsulatingFullyQualifiedName + "." + name)

func extract.newEnum
  requires protoMessage != nil
  ensures isfresh(result) && result.protoMessage == protoMessage
  ensures result.fullyQualifiedName == fullname(encapsulatingFullyQualifiedName, protoMessage.Name)
  ensures forall(n, int32, iff(has(result.valueNumberToValue, n), exists(i, int, 0 <= i && i < len(protoMessage.EnumValues) && protoMessage.EnumValues[i].Number == n)))
  ensures forall(s, string, iff(has(result.valueNameToValue, s), exists(i, int, 0 <= i && i < len(protoMessage.EnumValues) && protoMessage.EnumValues[i].Name == s)))
  loop 0 invariant forall(n, int32, implies(has(enum.valueNumberToValue, n), enum.valueNumberToValue[n].enum == enum && enum.valueNumberToValue[n].protoMessage.Number == n))
  ensures forall(n, int32, implies(has(result.valueNumberToValue, n), result.valueNumberToValue[n].enum == result && result.valueNumberToValue[n].protoMessage.Number == n))

func extract.newService
  requires protoMessage != nil
  ensures isfresh(result) && result.protoMessage == protoMessage
  ensures result.fullyQualifiedName == fullname(encapsulatingFullyQualifiedName, protoMessage.Name)
  ensures forall(s, string, iff(has(result.methodNameToMethod, s), exists(i, int, 0 <= i && i < len(protoMessage.ServiceMethods) && protoMessage.ServiceMethods[i].Name == s)))
  loop 0 invariant forall(s, string, implies(has(service.methodNameToMethod, s), service.methodNameToMethod[s].service == service && service.methodNameToMethod[s].protoMessage.Name == s))
  ensures forall(s, string, implies(has(result.methodNameToMethod, s), result.methodNameToMethod[s].service == result && result.methodNameToMethod[s].protoMessage.Name == s))

func extract.ignorePackage
  props C03
  ensures iff(result, withoutBeta && isbeta(packageName))

// ---- fields and oneofs ----
def onemapN(O map[string]*extract.MessageOneof, m map[string]*extract.MessageField) bool = exists(s, string, has(O, s) && O[s].fieldNameToField == m)
def onemapI(O map[string]*extract.MessageOneof, m map[int32]*extract.MessageField) bool = exists(s, string, has(O, s) && O[s].fieldNumberToField == m)
func extract.linkMessageFieldsOneofs
  modifies *
  requires forall(s, string, implies(has(oneofNameToOneof, s), oneofNameToOneof[s] != nil && oneofNameToOneof[s].fieldNumberToField != fieldNumberToField))
  loop 0 invariant forall(s, string, i, int, implies(visited(s) && 0 <= i && i < len(oneofNameToOneof[s].protoMessage.FieldNumbers), has(fieldNumberToField, oneofNameToOneof[s].protoMessage.FieldNumbers[i]) && fieldNumberToField[oneofNameToOneof[s].protoMessage.FieldNumbers[i]].messageOneof != nil))
  loop 1 invariant forall(s, string, i, int, implies(visited_0(s) && 0 <= i && i < len(oneofNameToOneof[s].protoMessage.FieldNumbers), has(fieldNumberToField, oneofNameToOneof[s].protoMessage.FieldNumbers[i]) && fieldNumberToField[oneofNameToOneof[s].protoMessage.FieldNumbers[i]].messageOneof != nil))
  loop 1 invariant forall(i, int, implies(0 <= i && i <= rangeindex, has(fieldNumberToField, oneof.protoMessage.FieldNumbers[i]) && fieldNumberToField[oneof.protoMessage.FieldNumbers[i]].messageOneof != nil))
  loop 0 invariant forall(f, *extract.MessageField, f.messageOneof == old(f.messageOneof) || exists(s, string, i, int, has(oneofNameToOneof, s) && f.messageOneof == oneofNameToOneof[s] && 0 <= i && i < len(oneofNameToOneof[s].protoMessage.FieldNumbers) && has(fieldNumberToField, oneofNameToOneof[s].protoMessage.FieldNumbers[i]) && fieldNumberToField[oneofNameToOneof[s].protoMessage.FieldNumbers[i]] == f))
  loop 1 invariant forall(f, *extract.MessageField, f.messageOneof == old(f.messageOneof) || exists(s, string, i, int, has(oneofNameToOneof, s) && f.messageOneof == oneofNameToOneof[s] && 0 <= i && i < len(oneofNameToOneof[s].protoMessage.FieldNumbers) && has(fieldNumberToField, oneofNameToOneof[s].protoMessage.FieldNumbers[i]) && fieldNumberToField[oneofNameToOneof[s].protoMessage.FieldNumbers[i]] == f))
  loop 0 invariant forall(m, map[string]*extract.MessageField, k, string, implies(!onemapN(oneofNameToOneof, m), has(m, k) == old(has(m, k)) && m[k] == old(m[k])))
  loop 1 invariant forall(m, map[string]*extract.MessageField, k, string, implies(!onemapN(oneofNameToOneof, m), has(m, k) == old(has(m, k)) && m[k] == old(m[k])))
  loop 0 invariant forall(m, map[int32]*extract.MessageField, k, int32, implies(!onemapI(oneofNameToOneof, m), has(m, k) == old(has(m, k)) && m[k] == old(m[k])))
  loop 1 invariant forall(m, map[int32]*extract.MessageField, k, int32, implies(!onemapI(oneofNameToOneof, m), has(m, k) == old(has(m, k)) && m[k] == old(m[k])))
  ensures implies(err == nil, forall(s, string, i, int, implies(has(oneofNameToOneof, s) && 0 <= i && i < len(oneofNameToOneof[s].protoMessage.FieldNumbers), has(fieldNumberToField, oneofNameToOneof[s].protoMessage.FieldNumbers[i]) && fieldNumberToField[oneofNameToOneof[s].protoMessage.FieldNumbers[i]].messageOneof != nil)))
  ensures forall(f, *extract.MessageField, f.messageOneof == old(f.messageOneof) || exists(s, string, i, int, has(oneofNameToOneof, s) && f.messageOneof == oneofNameToOneof[s] && 0 <= i && i < len(oneofNameToOneof[s].protoMessage.FieldNumbers) && has(fieldNumberToField, oneofNameToOneof[s].protoMessage.FieldNumbers[i]) && fieldNumberToField[oneofNameToOneof[s].protoMessage.FieldNumbers[i]] == f))
  ensures forall(m, map[string]*extract.MessageField, k, string, implies(!onemapN(oneofNameToOneof, m), has(m, k) == old(has(m, k)) && m[k] == old(m[k])))
  ensures forall(m, map[int32]*extract.MessageField, k, int32, implies(!onemapI(oneofNameToOneof, m), has(m, k) == old(has(m, k)) && m[k] == old(m[k])))

func extract.newMessage
  modifies *
  requires protoMessage != nil
  loop 0 invariant forall(s, string, iff(has(message.nestedEnumNameToEnum, s), exists(i, int, 0 <= i && i <= rangeindex && protoMessage.NestedEnums[i].Name == s)))
  loop 0 invariant forall(s, string, implies(has(message.nestedEnumNameToEnum, s), isfresh(message.nestedEnumNameToEnum[s]) && message.nestedEnumNameToEnum[s].protoMessage.Name == s && message.nestedEnumNameToEnum[s].fullyQualifiedName == fullname(message.fullyQualifiedName, s)))
  loop 1 invariant forall(s, string, iff(has(message.nestedMessageNameToMessage, s), exists(i, int, 0 <= i && i <= rangeindex && protoMessage.NestedMessages[i].Name == s)))
  loop 1 invariant forall(s, string, implies(has(message.nestedMessageNameToMessage, s), isfresh(message.nestedMessageNameToMessage[s]) && message.nestedMessageNameToMessage[s].protoMessage.Name == s && message.nestedMessageNameToMessage[s].fullyQualifiedName == fullname(message.fullyQualifiedName, s)))
  loop 2 invariant forall(s, string, iff(has(message.fieldNameToField, s), exists(i, int, 0 <= i && i <= rangeindex && protoMessage.MessageFields[i].Name == s)))
  loop 2 invariant forall(s, string, implies(has(message.fieldNameToField, s), isfresh(message.fieldNameToField[s]) && message.fieldNameToField[s].protoMessage.Name == s && message.fieldNameToField[s].message == message))
  loop 2 invariant forall(n, int32, iff(has(message.fieldNumberToField, n), exists(i, int, 0 <= i && i <= rangeindex && protoMessage.MessageFields[i].Number == n)))
  loop 2 invariant forall(n, int32, implies(has(message.fieldNumberToField, n), isfresh(message.fieldNumberToField[n]) && message.fieldNumberToField[n].protoMessage.Number == n && message.fieldNumberToField[n].message == message && message.fieldNumberToField[n].messageOneof == nil))
  loop 3 invariant forall(s, string, iff(has(message.oneofNameToOneof, s), exists(i, int, 0 <= i && i <= rangeindex && protoMessage.MessageOneofs[i].Name == s)))
  loop 3 invariant forall(s, string, implies(has(message.oneofNameToOneof, s), isfresh(message.oneofNameToOneof[s]) && message.oneofNameToOneof[s].protoMessage.Name == s && message.oneofNameToOneof[s].message == message && message.oneofNameToOneof[s].fieldNumberToField != message.fieldNumberToField && message.oneofNameToOneof[s].fieldNameToField != message.fieldNameToField && isfresh(message.oneofNameToOneof[s].fieldNumberToField) && isfresh(message.oneofNameToOneof[s].fieldNameToField)))
  ensures implies(err == nil, isfresh(result0) && result0.protoMessage == protoMessage)
  ensures implies(err == nil, result0.fullyQualifiedName == fullname(encapsulatingFullyQualifiedName, protoMessage.Name))
  ensures implies(err == nil, forall(s, string, iff(has(result0.nestedEnumNameToEnum, s), exists(i, int, 0 <= i && i < len(protoMessage.NestedEnums) && protoMessage.NestedEnums[i].Name == s))))
  ensures implies(err == nil, forall(s, string, implies(has(result0.nestedEnumNameToEnum, s), result0.nestedEnumNameToEnum[s].protoMessage.Name == s && result0.nestedEnumNameToEnum[s].fullyQualifiedName == fullname(result0.fullyQualifiedName, s))))
  ensures implies(err == nil, forall(s, string, iff(has(result0.nestedMessageNameToMessage, s), exists(i, int, 0 <= i && i < len(protoMessage.NestedMessages) && protoMessage.NestedMessages[i].Name == s))))
  ensures implies(err == nil, forall(s, string, implies(has(result0.nestedMessageNameToMessage, s), result0.nestedMessageNameToMessage[s].protoMessage.Name == s && result0.nestedMessageNameToMessage[s].fullyQualifiedName == fullname(result0.fullyQualifiedName, s))))
  ensures implies(err == nil, forall(s, string, iff(has(result0.fieldNameToField, s), exists(i, int, 0 <= i && i < len(protoMessage.MessageFields) && protoMessage.MessageFields[i].Name == s))))
  ensures implies(err == nil, forall(s, string, implies(has(result0.fieldNameToField, s), result0.fieldNameToField[s].protoMessage.Name == s && result0.fieldNameToField[s].message == result0)))
  ensures implies(err == nil, forall(n, int32, iff(has(result0.fieldNumberToField, n), exists(i, int, 0 <= i && i < len(protoMessage.MessageFields) && protoMessage.MessageFields[i].Number == n))))
  ensures implies(err == nil, forall(n, int32, implies(has(result0.fieldNumberToField, n), result0.fieldNumberToField[n].protoMessage.Number == n && result0.fieldNumberToField[n].message == result0)))
  ensures implies(err == nil, forall(s, string, iff(has(result0.oneofNameToOneof, s), exists(i, int, 0 <= i && i < len(protoMessage.MessageOneofs) && protoMessage.MessageOneofs[i].Name == s))))
  ensures implies(err == nil, forall(s, string, implies(has(result0.oneofNameToOneof, s), result0.oneofNameToOneof[s].protoMessage.Name == s && result0.oneofNameToOneof[s].message == result0)))
