package grpc
props C27

// SERVICE/METHOD
func grpc.getServiceForMethod
  pure
  ensures iff(err == nil, len(strings.Split(method, "/")) == 2)
  ensures implies(err == nil, result0 == strings.Split(method, "/")[0])

func grpc.getNetworkAddress
  props C26
  pure
  ensures iff(err == nil, len(strings.SplitN(address, "://", 2)) != 2 || strings.SplitN(address, "://", 2)[0] == "tcp" || strings.SplitN(address, "://", 2)[0] == "unix")
  ensures implies(len(strings.SplitN(address, "://", 2)) != 2, result0 == "tcp" && result1 == address)
  ensures implies(err == nil && len(strings.SplitN(address, "://", 2)) == 2, result0 == strings.SplitN(address, "://", 2)[0] && result1 == strings.SplitN(address, "://", 2)[1])

// accessors of descriptors by name (their bodies are part of the program)
func (*descriptor.FileDescriptorProto).GetPackage
  opaque
  ensures implies(m == nil || m.Package == nil, result == "")
  ensures implies(m != nil && m.Package != nil, result == *m.Package)
func (*descriptor.ServiceDescriptorProto).GetName
  opaque
  ensures implies(m == nil || m.Name == nil, result == "")
  ensures implies(m != nil && m.Name != nil, result == *m.Name)
axiom package-is-a-prefix: forall(s, string, p, string, n, string, implies(p + "." + n == s, strings.HasPrefix(s, p)))
def svcname(f *descriptor.FileDescriptorProto, i int) string = f.GetPackage() + "." + f.GetService()[i].GetName()
def svcnamed(f *descriptor.FileDescriptorProto, i int, p string) bool = f.GetService()[i] != nil && svcname(f, i) == p
// the one service of that full name in the file
func grpc.findServiceDescriptorProto
  pure
  loop 0 invariant implies(foundServiceDescriptorProto == nil, forall(i, int, implies(0 <= i && i <= rangeindex, !svcnamed(fileDescriptorProto, i, path))))
  loop 0 invariant implies(foundServiceDescriptorProto != nil, exists(i, int, 0 <= i && i <= rangeindex && svcnamed(fileDescriptorProto, i, path) && foundServiceDescriptorProto == fileDescriptorProto.GetService()[i] && forall(j, int, implies(0 <= j && j <= rangeindex && svcnamed(fileDescriptorProto, j, path), j == i))))
  ensures implies(err == nil && result0 == nil, forall(i, int, implies(0 <= i && i < len(fileDescriptorProto.GetService()), !svcnamed(fileDescriptorProto, i, path))))
  ensures implies(err == nil && result0 != nil, exists(i, int, 0 <= i && i < len(fileDescriptorProto.GetService()) && svcnamed(fileDescriptorProto, i, path) && result0 == fileDescriptorProto.GetService()[i] && forall(j, int, implies(0 <= j && j < len(fileDescriptorProto.GetService()) && svcnamed(fileDescriptorProto, j, path), j == i))))

def svchit(p string, f *descriptor.FileDescriptorProto) bool = tup(findServiceDescriptorProto(p, f), 0) != nil
def plain(p string) string = ite(p[0] == '.', p[1:], p)
def infile(sets []*descriptor.FileDescriptorSet, s int, k int) bool = 0 <= s && s < len(sets) && 0 <= k && k < len(sets[s].File)
// the one service of that name in the first set that has it
func grpc.getServiceInfo
  requires forall(s, int, implies(0 <= s && s < len(fileDescriptorSets), fileDescriptorSets[s] != nil))
  loop 0 invariant serviceDescriptorProto == nil && forall(s, int, k, int, implies(s <= rangeindex && infile(fileDescriptorSets, s, k), !svchit(path, fileDescriptorSets[s].File[k]) && tup(findServiceDescriptorProto(path, fileDescriptorSets[s].File[k]), 1) == nil))
  loop 1 invariant forall(k, int, implies(0 <= k && k <= rangeindex_1, tup(findServiceDescriptorProto(path, iFileDescriptorSet.File[k]), 1) == nil))
  loop 1 invariant implies(serviceDescriptorProto == nil, forall(k, int, implies(0 <= k && k <= rangeindex_1, !svchit(path, iFileDescriptorSet.File[k]))))
  loop 1 invariant implies(serviceDescriptorProto != nil, exists(k, int, 0 <= k && k <= rangeindex_1 && svchit(path, iFileDescriptorSet.File[k]) && fileDescriptorProto == iFileDescriptorSet.File[k] && serviceDescriptorProto == tup(findServiceDescriptorProto(path, iFileDescriptorSet.File[k]), 0) && forall(j, int, implies(0 <= j && j <= rangeindex_1 && j != k, !svchit(path, iFileDescriptorSet.File[j])))))
  ensures implies(err == nil, path != "" && result0 != nil && exists(s, int, k, int, infile(fileDescriptorSets, s, k) && result0.FileDescriptorSet == fileDescriptorSets[s] && result0.FileDescriptorProto == fileDescriptorSets[s].File[k] && result0.ServiceDescriptorProto == tup(findServiceDescriptorProto(plain(path), fileDescriptorSets[s].File[k]), 0) && svchit(plain(path), fileDescriptorSets[s].File[k]) &&
      forall(j, int, implies(0 <= j && j < len(fileDescriptorSets[s].File) && j != k, !svchit(plain(path), fileDescriptorSets[s].File[j]))) && forall(t, int, j, int, implies(t < s && infile(fileDescriptorSets, t, j), !svchit(plain(path), fileDescriptorSets[t].File[j])))))

// it fails only on a missing package, a duplicate or an unknown name
func grpc.findServiceDescriptorProto variant ok
  requires fileDescriptorProto.GetPackage() != ""
  requires forall(i, int, j, int, implies(0 <= i && i < j && j < len(fileDescriptorProto.GetService()) && svcname(fileDescriptorProto, i) == path, svcname(fileDescriptorProto, j) != path))
  loop 0 invariant implies(foundServiceDescriptorProto != nil, exists(i, int, 0 <= i && i <= rangeindex && svcnamed(fileDescriptorProto, i, path)))
  ensures err == nil
func grpc.getServiceInfo variant ok
  requires path != "" && path[0] != '.'
  requires forall(s, int, implies(0 <= s && s < len(fileDescriptorSets), fileDescriptorSets[s] != nil))
  requires forall(s, int, k, int, implies(infile(fileDescriptorSets, s, k), tup(findServiceDescriptorProto(path, fileDescriptorSets[s].File[k]), 1) == nil))
  requires forall(s, int, k, int, j, int, implies(infile(fileDescriptorSets, s, k) && infile(fileDescriptorSets, s, j) && j < k && svchit(path, fileDescriptorSets[s].File[j]), !svchit(path, fileDescriptorSets[s].File[k])))
  requires exists(s, int, k, int, infile(fileDescriptorSets, s, k) && svchit(path, fileDescriptorSets[s].File[k]))
  loop 0 invariant serviceDescriptorProto == nil && forall(s, int, k, int, implies(s <= rangeindex && infile(fileDescriptorSets, s, k), !svchit(path, fileDescriptorSets[s].File[k])))
  loop 1 invariant implies(serviceDescriptorProto == nil, forall(k, int, implies(0 <= k && k <= rangeindex_1, !svchit(path, iFileDescriptorSet.File[k]))))
  loop 1 invariant implies(serviceDescriptorProto != nil, exists(k, int, 0 <= k && k <= rangeindex_1 && svchit(path, iFileDescriptorSet.File[k])))
  ensures err == nil
