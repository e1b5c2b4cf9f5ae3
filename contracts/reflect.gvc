package reflect
props C05

func reflect.verifyFullyQualifiedNameAndStrip
  pure
  ensures iff(err == nil, s != "" && s[0] == '.')
  ensures implies(err == nil, result0 == s[1:])

def fqn(s string) bool = s != "" && s[0] == '.'
def sameMethod(m *reflectv1.ServiceMethod, d *descriptor.MethodDescriptorProto) bool = m.Name == d.GetName() && m.RequestTypeName == d.GetInputType()[1:] && m.ResponseTypeName == d.GetOutputType()[1:] && m.ClientStreaming == d.GetClientStreaming() && m.ServerStreaming == d.GetServerStreaming()

func reflect.newServiceMethod
  ensures iff(err == nil, fqn(methodDescriptorProto.GetInputType()) && fqn(methodDescriptorProto.GetOutputType()))
  ensures implies(err == nil, isfresh(result0) && sameMethod(result0, methodDescriptorProto))

func reflect.newService
  opaque
  loop 0 invariant service.Name == serviceDescriptorProto.GetName()
  loop 0 invariant implies(len(service.ServiceMethods) > 0, isfresh(service.ServiceMethods)) && len(service.ServiceMethods) == rangeindex + 1
  loop 0 invariant forall(k, int, implies(0 <= k && k <= rangeindex, isfresh(service.ServiceMethods[k]) && sameMethod(service.ServiceMethods[k], serviceDescriptorProto.GetMethod()[k])))
  loop 0 invariant forall(k, int, implies(0 <= k && k <= rangeindex, fqn(serviceDescriptorProto.GetMethod()[k].GetInputType()) && fqn(serviceDescriptorProto.GetMethod()[k].GetOutputType())))
  ensures iff(err == nil, forall(k, int, implies(0 <= k && k < len(serviceDescriptorProto.GetMethod()), fqn(serviceDescriptorProto.GetMethod()[k].GetInputType()) && fqn(serviceDescriptorProto.GetMethod()[k].GetOutputType()))))
  ensures implies(err == nil, isfresh(result0) && result0.Name == serviceDescriptorProto.GetName() && len(result0.ServiceMethods) == len(serviceDescriptorProto.GetMethod()))
  ensures implies(err == nil, forall(k, int, implies(0 <= k && k < len(serviceDescriptorProto.GetMethod()), exists(j, int, 0 <= j && j < len(result0.ServiceMethods) && sameMethod(result0.ServiceMethods[j], serviceDescriptorProto.GetMethod()[k])))))
  ensures implies(err == nil, forall(j, int, implies(0 <= j && j < len(result0.ServiceMethods), exists(k, int, 0 <= k && k < len(serviceDescriptorProto.GetMethod()) && sameMethod(result0.ServiceMethods[j], serviceDescriptorProto.GetMethod()[k])))))
  ensures implies(err == nil, forall(i, int, j, int, implies(0 <= i && i < j && j < len(result0.ServiceMethods), result0.ServiceMethods[i].Name <= result0.ServiceMethods[j].Name)))

def sameValue(v *reflectv1.EnumValue, d *descriptor.EnumValueDescriptorProto) bool = v.Name == d.GetName() && v.Number == d.GetNumber()
func reflect.newEnum
  opaque
  loop 0 invariant enum.Name == enumDescriptorProto.GetName()
  loop 0 invariant implies(len(enum.EnumValues) > 0, isfresh(enum.EnumValues)) && len(enum.EnumValues) == rangeindex + 1
  loop 0 invariant forall(k, int, implies(0 <= k && k <= rangeindex, isfresh(enum.EnumValues[k]) && sameValue(enum.EnumValues[k], enumDescriptorProto.GetValue()[k])))
  ensures err == nil
  ensures isfresh(result0) && result0.Name == enumDescriptorProto.GetName() && len(result0.EnumValues) == len(enumDescriptorProto.GetValue())
  ensures forall(k, int, implies(0 <= k && k < len(enumDescriptorProto.GetValue()), exists(j, int, 0 <= j && j < len(result0.EnumValues) && sameValue(result0.EnumValues[j], enumDescriptorProto.GetValue()[k]))))
  ensures forall(j, int, implies(0 <= j && j < len(result0.EnumValues), exists(k, int, 0 <= k && k < len(enumDescriptorProto.GetValue()) && sameValue(result0.EnumValues[j], enumDescriptorProto.GetValue()[k]))))
  ensures forall(i, int, j, int, implies(0 <= i && i < j && j < len(result0.EnumValues), result0.EnumValues[i].Number <= result0.EnumValues[j].Number))

// each enum once, sorted
func reflect.getEnums
  opaque
  immutable
  loop 0 invariant isfresh(enums) && len(enums) == rangeindex + 1
  loop 0 invariant forall(k, int, implies(0 <= k && k <= rangeindex, enums[k] == tup(newEnum(enumDescriptorProtos[k]), 0)))
  loop 0 invariant forall(k, int, implies(0 <= k && k <= rangeindex, tup(newEnum(enumDescriptorProtos[k]), 1) == nil))
  ensures iff(err == nil, forall(k, int, implies(0 <= k && k < len(enumDescriptorProtos), tup(newEnum(enumDescriptorProtos[k]), 1) == nil)))
  ensures implies(err == nil, len(result0) == len(enumDescriptorProtos))
  ensures implies(err == nil, forall(k, int, implies(0 <= k && k < len(enumDescriptorProtos), exists(j, int, 0 <= j && j < len(result0) && result0[j] == tup(newEnum(enumDescriptorProtos[k]), 0)))))
  ensures implies(err == nil, forall(j, int, implies(0 <= j && j < len(result0), exists(k, int, 0 <= k && k < len(enumDescriptorProtos) && result0[j] == tup(newEnum(enumDescriptorProtos[k]), 0)))))
  ensures implies(err == nil, forall(i, int, j, int, implies(0 <= i && i < j && j < len(result0), result0[i].Name <= result0[j].Name)))

// each service once, sorted
func reflect.getServices
  opaque
  immutable
  loop 0 invariant isfresh(services) && len(services) == rangeindex + 1
  loop 0 invariant forall(k, int, implies(0 <= k && k <= rangeindex, services[k] == tup(newService(serviceDescriptorProtos[k]), 0)))
  loop 0 invariant forall(k, int, implies(0 <= k && k <= rangeindex, tup(newService(serviceDescriptorProtos[k]), 1) == nil))
  ensures iff(err == nil, forall(k, int, implies(0 <= k && k < len(serviceDescriptorProtos), tup(newService(serviceDescriptorProtos[k]), 1) == nil)))
  ensures implies(err == nil, len(result0) == len(serviceDescriptorProtos))
  ensures implies(err == nil, forall(k, int, implies(0 <= k && k < len(serviceDescriptorProtos), exists(j, int, 0 <= j && j < len(result0) && result0[j] == tup(newService(serviceDescriptorProtos[k]), 0)))))
  ensures implies(err == nil, forall(j, int, implies(0 <= j && j < len(result0), exists(k, int, 0 <= k && k < len(serviceDescriptorProtos) && result0[j] == tup(newService(serviceDescriptorProtos[k]), 0)))))
  ensures implies(err == nil, forall(i, int, j, int, implies(0 <= i && i < j && j < len(result0), result0[i].Name <= result0[j].Name)))

def goodType(s string) bool = s == "" || fqn(s)
def sameField(m *reflectv1.MessageField, d *descriptor.FieldDescriptorProto) bool = m.Name == d.GetName() && m.Number == d.GetNumber() && m.Type == d.GetType() && m.Label == d.GetLabel() && m.TypeName == ite(d.GetTypeName() == "", "", d.GetTypeName()[1:])
// outside the contract: the field numbers of oneofs (and with them the frame)
func reflect.newMessage
  modifies *
  opaque
  loop 0 invariant forall(o, *reflectv1.MessageOneof, implies(!isfresh(o), o.FieldNumbers == old(o.FieldNumbers)))
  loop 1 invariant forall(o, *reflectv1.MessageOneof, implies(!isfresh(o), o.FieldNumbers == old(o.FieldNumbers)))
  loop 2 invariant forall(o, *reflectv1.MessageOneof, implies(!isfresh(o), o.FieldNumbers == old(o.FieldNumbers)))
  loop 0 invariant forall(n, string, implies(has(nameToMessageOneof, n), isfresh(nameToMessageOneof[n]) && nameToMessageOneof[n].Name == n && (nameToMessageOneof[n].FieldNumbers == nil || isfresh(nameToMessageOneof[n].FieldNumbers))))
  loop 1 invariant forall(n, string, implies(has(nameToMessageOneof, n), isfresh(nameToMessageOneof[n]) && nameToMessageOneof[n].Name == n && (nameToMessageOneof[n].FieldNumbers == nil || isfresh(nameToMessageOneof[n].FieldNumbers))))
  loop 2 invariant forall(n, string, implies(has(nameToMessageOneof, n), isfresh(nameToMessageOneof[n]) && nameToMessageOneof[n].Name == n && (nameToMessageOneof[n].FieldNumbers == nil || isfresh(nameToMessageOneof[n].FieldNumbers))))
  loop 2 invariant implies(len(message.MessageOneofs) > 0, isfresh(message.MessageOneofs))
  loop 0 invariant forall(k, int, implies(0 <= k && k <= rangeindex, has(nameToMessageOneof, descriptorProto.GetOneofDecl()[k].GetName())))
  loop 0 invariant forall(n, string, implies(has(nameToMessageOneof, n), exists(k, int, 0 <= k && k <= rangeindex && descriptorProto.GetOneofDecl()[k].GetName() == n)))
  loop 1 invariant forall(k, int, implies(0 <= k && k < len(descriptorProto.GetOneofDecl()), has(nameToMessageOneof, descriptorProto.GetOneofDecl()[k].GetName())))
  loop 2 invariant forall(n, string, implies(visited(n), exists(j, int, 0 <= j && j < len(message.MessageOneofs) && message.MessageOneofs[j].Name == n)))
  loop 2 invariant forall(j, int, implies(0 <= j && j < len(message.MessageOneofs), isfresh(message.MessageOneofs[j]) && exists(k, int, 0 <= k && k < len(descriptorProto.GetOneofDecl()) && descriptorProto.GetOneofDecl()[k].GetName() == message.MessageOneofs[j].Name)))
  ensures implies(err == nil, forall(k, int, implies(0 <= k && k < len(descriptorProto.GetOneofDecl()), exists(j, int, 0 <= j && j < len(result0.MessageOneofs) && result0.MessageOneofs[j].Name == descriptorProto.GetOneofDecl()[k].GetName()))))
  ensures implies(err == nil, forall(j, int, implies(0 <= j && j < len(result0.MessageOneofs), exists(k, int, 0 <= k && k < len(descriptorProto.GetOneofDecl()) && result0.MessageOneofs[j].Name == descriptorProto.GetOneofDecl()[k].GetName()))))
  ensures implies(err == nil, forall(i, int, j, int, implies(0 <= i && i < j && j < len(result0.MessageOneofs), result0.MessageOneofs[i].Name <= result0.MessageOneofs[j].Name)))
  loop 1 invariant message.Name == descriptorProto.GetName() && message.NestedMessages == tup(getMessages(descriptorProto.GetNestedType()), 0) && message.NestedEnums == tup(getEnums(descriptorProto.GetEnumType()), 0)
  loop 1 invariant implies(len(message.MessageFields) > 0, isfresh(message.MessageFields)) && len(message.MessageFields) == rangeindex + 1
  loop 1 invariant forall(k, int, implies(0 <= k && k <= rangeindex, isfresh(message.MessageFields[k]) && sameField(message.MessageFields[k], descriptorProto.GetField()[k]) && goodType(descriptorProto.GetField()[k].GetTypeName())))
  loop 2 invariant message.Name == descriptorProto.GetName() && message.NestedMessages == tup(getMessages(descriptorProto.GetNestedType()), 0) && message.NestedEnums == tup(getEnums(descriptorProto.GetEnumType()), 0)
  loop 2 invariant implies(len(message.MessageFields) > 0, isfresh(message.MessageFields)) && len(message.MessageFields) == len(descriptorProto.GetField())
  loop 2 invariant forall(k, int, implies(0 <= k && k < len(descriptorProto.GetField()), isfresh(message.MessageFields[k]) && sameField(message.MessageFields[k], descriptorProto.GetField()[k]) && goodType(descriptorProto.GetField()[k].GetTypeName())))
  ensures iff(err == nil, tup(getMessages(descriptorProto.GetNestedType()), 1) == nil && tup(getEnums(descriptorProto.GetEnumType()), 1) == nil && forall(k, int, implies(0 <= k && k < len(descriptorProto.GetField()), goodType(descriptorProto.GetField()[k].GetTypeName()))))
  ensures implies(err == nil, isfresh(result0) && result0.Name == descriptorProto.GetName() && result0.NestedMessages == tup(getMessages(descriptorProto.GetNestedType()), 0) && result0.NestedEnums == tup(getEnums(descriptorProto.GetEnumType()), 0))
  ensures implies(err == nil, len(result0.MessageFields) == len(descriptorProto.GetField()))
  ensures implies(err == nil, forall(k, int, implies(0 <= k && k < len(descriptorProto.GetField()), exists(j, int, 0 <= j && j < len(result0.MessageFields) && sameField(result0.MessageFields[j], descriptorProto.GetField()[k])))))
  ensures implies(err == nil, forall(j, int, implies(0 <= j && j < len(result0.MessageFields), exists(k, int, 0 <= k && k < len(descriptorProto.GetField()) && sameField(result0.MessageFields[j], descriptorProto.GetField()[k])))))
  ensures implies(err == nil, forall(i, int, j, int, implies(0 <= i && i < j && j < len(result0.MessageFields), result0.MessageFields[i].Number <= result0.MessageFields[j].Number)))
// each message once, sorted
func reflect.getMessages
  opaque
  immutable
  loop 0 invariant isfresh(messages) && len(messages) == rangeindex + 1
  loop 0 invariant forall(k, int, implies(0 <= k && k <= rangeindex, messages[k] == tup(newMessage(descriptorProtos[k]), 0)))
  loop 0 invariant forall(k, int, implies(0 <= k && k <= rangeindex, tup(newMessage(descriptorProtos[k]), 1) == nil))
  ensures iff(err == nil, forall(k, int, implies(0 <= k && k < len(descriptorProtos), tup(newMessage(descriptorProtos[k]), 1) == nil)))
  ensures implies(err == nil, len(result0) == len(descriptorProtos))
  ensures implies(err == nil, forall(k, int, implies(0 <= k && k < len(descriptorProtos), exists(j, int, 0 <= j && j < len(result0) && result0[j] == tup(newMessage(descriptorProtos[k]), 0)))))
  ensures implies(err == nil, forall(j, int, implies(0 <= j && j < len(result0), exists(k, int, 0 <= k && k < len(descriptorProtos) && result0[j] == tup(newMessage(descriptorProtos[k]), 0)))))
  ensures implies(err == nil, forall(i, int, j, int, implies(0 <= i && i < j && j < len(result0), result0[i].Name <= result0[j].Name)))


// one package per package name, empty but for its name
func reflect.getBasePackageNameToPackage
  loop 0 invariant forall(k, string, iff(has(packageNameToPackage, k), visited(k)))
  loop 0 invariant forall(k, string, implies(visited(k), packageNameToPackage[k] != nil && isfresh(packageNameToPackage[k]) && packageNameToPackage[k].Name == k && len(packageNameToPackage[k].Enums) == 0 && len(packageNameToPackage[k].Messages) == 0 && len(packageNameToPackage[k].Services) == 0 && len(packageNameToPackage[k].DependencyNames) == 0))
  ensures err == nil
  ensures forall(k, string, iff(has(result0, k), has(packageNameToFileNameToFileDescriptorProto, k)))
  ensures forall(k, string, implies(has(result0, k), result0[k] != nil && result0[k].Name == k && len(result0[k].Enums) == 0 && len(result0[k].Messages) == 0 && len(result0[k].Services) == 0 && len(result0[k].DependencyNames) == 0))

// every package once, sorted by name
func reflect.getPackageSet
  requires forall(k, string, implies(has(packageNameToPackage, k), packageNameToPackage[k] != nil))
  loop 0 invariant isfresh(packageSet.Packages)
  loop 0 invariant forall(k, string, implies(visited(k), exists(j, int, 0 <= j && j < len(packageSet.Packages) && packageSet.Packages[j] == packageNameToPackage[k])))
  loop 0 invariant forall(j, int, implies(0 <= j && j < len(packageSet.Packages), exists(k, string, has(packageNameToPackage, k) && packageSet.Packages[j] == packageNameToPackage[k])))
  ensures err == nil && result0 != nil
  ensures forall(k, string, implies(has(packageNameToPackage, k), exists(j, int, 0 <= j && j < len(result0.Packages) && result0.Packages[j] == packageNameToPackage[k])))
  ensures forall(j, int, implies(0 <= j && j < len(result0.Packages), exists(k, string, has(packageNameToPackage, k) && result0.Packages[j] == packageNameToPackage[k])))
  ensures forall(i, int, j, int, implies(0 <= i && i < j && j < len(result0.Packages), result0.Packages[i].Name <= result0.Packages[j].Name))

// which file belongs to which package; a file of two packages is an error
func reflect.getFileNameToPackageName
  loop 0 invariant forall(f, string, implies(has(fileNameToPackageName, f), has(packageNameToFileNameToFileDescriptorProto, fileNameToPackageName[f]) && has(packageNameToFileNameToFileDescriptorProto[fileNameToPackageName[f]], f)))
  loop 0 invariant forall(k, string, f, string, implies(visited(k) && has(packageNameToFileNameToFileDescriptorProto[k], f), has(fileNameToPackageName, f) && fileNameToPackageName[f] == k))
  loop 1 invariant forall(f, string, implies(has(fileNameToPackageName, f), has(packageNameToFileNameToFileDescriptorProto, fileNameToPackageName[f]) && has(packageNameToFileNameToFileDescriptorProto[fileNameToPackageName[f]], f)))
  loop 1 invariant forall(f, string, implies(visited(f), has(fileNameToPackageName, f) && fileNameToPackageName[f] == packageName))
  loop 1 invariant forall(k, string, f, string, implies(visited_0(k) && has(packageNameToFileNameToFileDescriptorProto[k], f), has(fileNameToPackageName, f) && fileNameToPackageName[f] == k))
  ensures implies(err == nil, forall(k, string, f, string, implies(has(packageNameToFileNameToFileDescriptorProto, k) && has(packageNameToFileNameToFileDescriptorProto[k], f), has(result0, f) && result0[f] == k)))
  ensures implies(err == nil, forall(f, string, implies(has(result0, f), has(packageNameToFileNameToFileDescriptorProto, result0[f]) && has(packageNameToFileNameToFileDescriptorProto[result0[f]], f))))
