package desc
props C21

extern bytes.Equal pure
func (*descriptor.FileDescriptorProto).GetName
  opaque
  ensures implies(m == nil || m.Name == nil, result == "")
  ensures implies(m != nil && m.Name != nil, result == *m.Name)

func desc.sha256ProtoMessage
  trusted
  opaque
  immutable
def fname(f *descriptor.FileDescriptorProto) string = f.GetName()
def sumeq(a *descriptor.FileDescriptorProto, b *descriptor.FileDescriptorProto) bool = bytes.Equal(tup(sha256ProtoMessage(a), 0), tup(sha256ProtoMessage(b), 0))

// the files come once each, in their order, with the one asked for at the end
func desc.SortFileDescriptorSet
  requires fileDescriptorSet != nil
  loop 0 invariant forall(k, int, implies(0 <= k && k <= rangeindex, has(names, fname(fileDescriptorSet.File[k])) && fname(fileDescriptorSet.File[k]) != ""))
  loop 0 invariant forall(n, string, implies(has(names, n), exists(k, int, 0 <= k && k <= rangeindex && fname(fileDescriptorSet.File[k]) == n)))
  loop 0 invariant forall(i, int, j, int, implies(0 <= i && i < j && j <= rangeindex, fname(fileDescriptorSet.File[i]) != fname(fileDescriptorSet.File[j])))
  loop 1 invariant exists(t, int, 0 <= t && t < len(fileDescriptorSet.File) && fname(fileDescriptorSet.File[t]) == fname(fileDescriptorProto) &&
          implies(rangeindex < t, len(newFileDescriptorSet.File) == rangeindex + 1) && implies(rangeindex >= t, len(newFileDescriptorSet.File) == rangeindex) &&
          forall(k, int, implies(0 <= k && k < t && k <= rangeindex, newFileDescriptorSet.File[k] == fileDescriptorSet.File[k])) &&
          forall(k, int, implies(t < k && k <= rangeindex, newFileDescriptorSet.File[k-1] == fileDescriptorSet.File[k])))
  ensures iff(err == nil, !exists(k, int, 0 <= k && k < len(fileDescriptorSet.File) && fname(fileDescriptorSet.File[k]) == "") &&
          forall(i, int, j, int, implies(0 <= i && i < j && j < len(fileDescriptorSet.File), fname(fileDescriptorSet.File[i]) != fname(fileDescriptorSet.File[j]))) &&
          exists(k, int, 0 <= k && k < len(fileDescriptorSet.File) && fname(fileDescriptorSet.File[k]) == fname(fileDescriptorProto)))
  ensures implies(err == nil, len(result0.File) == len(fileDescriptorSet.File))
  ensures implies(err == nil, exists(t, int, 0 <= t && t < len(fileDescriptorSet.File) && fname(fileDescriptorSet.File[t]) == fname(fileDescriptorProto) &&
          forall(k, int, implies(0 <= k && k < t, result0.File[k] == fileDescriptorSet.File[k])) &&
          forall(k, int, implies(t < k && k < len(fileDescriptorSet.File), result0.File[k-1] == fileDescriptorSet.File[k]))))
  ensures implies(err == nil, result0.File[len(result0.File)-1] == fileDescriptorProto)


def bad(f *descriptor.FileDescriptorProto) bool = f == nil || fname(f) == "" || tup(sha256ProtoMessage(f), 1) != nil
// file k of set s is among the files before file n of set m
def before(s int, k int, m int, n int) bool = s < m || (s == m && k < n)
def innm(sets []*descriptor.FileDescriptorSet, s int, k int) bool = 0 <= s && s < len(sets) && 0 <= k && k < len(sets[s].File)

// any property that holds of all input files holds of all files of the result
uf input(f *descriptor.FileDescriptorProto) bool
func desc.MergeFileDescriptorSets
  assumes forall(f, *descriptor.FileDescriptorProto, sumeq(f, f))
  requires forall(s, int, k, int, implies(innm(fileDescriptorSets, s, k), input(fileDescriptorSets[s].File[k])))
  loop 0 invariant isfresh(result.File)
  loop 0 invariant forall(s, int, implies(0 <= s && s < len(fileDescriptorSets), fileDescriptorSets[s].File == old(fileDescriptorSets[s].File)))
  loop 0 invariant forall(s, int, k, int, implies(innm(fileDescriptorSets, s, k), fileDescriptorSets[s].File[k] == old(fileDescriptorSets[s].File[k])))
  loop 1 invariant isfresh(result.File)
  loop 1 invariant forall(s, int, implies(0 <= s && s < len(fileDescriptorSets), fileDescriptorSets[s].File == old(fileDescriptorSets[s].File)))
  loop 1 invariant forall(s, int, k, int, implies(innm(fileDescriptorSets, s, k), fileDescriptorSets[s].File[k] == old(fileDescriptorSets[s].File[k])))
  loop 0 invariant forall(s, int, implies(0 <= s && s <= rangeindex, fileDescriptorSets[s] != nil))
  loop 0 invariant forall(s, int, k, int, implies(0 <= s && s <= rangeindex && innm(fileDescriptorSets, s, k), !bad(fileDescriptorSets[s].File[k]) && has(nameToSum, fname(fileDescriptorSets[s].File[k]))))
  loop 0 invariant forall(s, int, k, int, implies(0 <= s && s <= rangeindex && innm(fileDescriptorSets, s, k), bytes.Equal(nameToSum[fname(fileDescriptorSets[s].File[k])], tup(sha256ProtoMessage(fileDescriptorSets[s].File[k]), 0))))
  loop 0 invariant forall(p, int, implies(0 <= p && p < len(result.File), input(result.File[p])))
  loop 0 invariant forall(p, int, implies(0 <= p && p < len(result.File), has(nameToSum, fname(result.File[p])) && nameToSum[fname(result.File[p])] == tup(sha256ProtoMessage(result.File[p]), 0)))
  loop 0 invariant forall(n, string, implies(has(nameToSum, n), exists(p, int, 0 <= p && p < len(result.File) && fname(result.File[p]) == n)))
  loop 0 invariant forall(p, int, q, int, implies(0 <= p && p < q && q < len(result.File), fname(result.File[p]) != fname(result.File[q])))
  loop 1 invariant forall(s, int, k, int, implies(innm(fileDescriptorSets, s, k) && (s <= rangeindex_0 || (s == rangeindex_0 + 1 && k <= rangeindex)), !bad(fileDescriptorSets[s].File[k]) && has(nameToSum, fname(fileDescriptorSets[s].File[k]))))
  loop 1 invariant forall(s, int, k, int, implies(innm(fileDescriptorSets, s, k) && (s <= rangeindex_0 || (s == rangeindex_0 + 1 && k <= rangeindex)), bytes.Equal(nameToSum[fname(fileDescriptorSets[s].File[k])], tup(sha256ProtoMessage(fileDescriptorSets[s].File[k]), 0))))
  loop 1 invariant forall(p, int, implies(0 <= p && p < len(result.File), input(result.File[p])))
  loop 1 invariant forall(p, int, implies(0 <= p && p < len(result.File), has(nameToSum, fname(result.File[p])) && nameToSum[fname(result.File[p])] == tup(sha256ProtoMessage(result.File[p]), 0)))
  loop 1 invariant forall(n, string, implies(has(nameToSum, n), exists(p, int, 0 <= p && p < len(result.File) && fname(result.File[p]) == n)))
  loop 1 invariant forall(p, int, q, int, implies(0 <= p && p < q && q < len(result.File), fname(result.File[p]) != fname(result.File[q])))
  ensures implies(err == nil, forall(s, int, implies(0 <= s && s < len(fileDescriptorSets), fileDescriptorSets[s] != nil)))
  ensures implies(err == nil, forall(s, int, k, int, implies(innm(fileDescriptorSets, s, k), !bad(fileDescriptorSets[s].File[k]) && exists(p, int, 0 <= p && p < len(result0.File) && fname(result0.File[p]) == fname(fileDescriptorSets[s].File[k]) && sumeq(result0.File[p], fileDescriptorSets[s].File[k])))))
  ensures implies(err == nil, forall(p, int, implies(0 <= p && p < len(result0.File), input(result0.File[p]))))
  ensures implies(err == nil, forall(p, int, q, int, implies(0 <= p && p < q && q < len(result0.File), fname(result0.File[p]) < fname(result0.File[q]))))

// no failure without a reason for one
func desc.MergeFileDescriptorSets variant ok
  assumes forall(f, *descriptor.FileDescriptorProto, sumeq(f, f))
  requires forall(s, int, k, int, implies(innm(fileDescriptorSets, s, k), input(fileDescriptorSets[s].File[k])))
  loop 0 invariant isfresh(result.File)
  loop 0 invariant forall(s, int, implies(0 <= s && s < len(fileDescriptorSets), fileDescriptorSets[s].File == old(fileDescriptorSets[s].File)))
  loop 0 invariant forall(s, int, k, int, implies(innm(fileDescriptorSets, s, k), fileDescriptorSets[s].File[k] == old(fileDescriptorSets[s].File[k])))
  loop 1 invariant isfresh(result.File)
  loop 1 invariant forall(s, int, implies(0 <= s && s < len(fileDescriptorSets), fileDescriptorSets[s].File == old(fileDescriptorSets[s].File)))
  loop 1 invariant forall(s, int, k, int, implies(innm(fileDescriptorSets, s, k), fileDescriptorSets[s].File[k] == old(fileDescriptorSets[s].File[k])))
  loop 0 invariant forall(s, int, implies(0 <= s && s <= rangeindex, fileDescriptorSets[s] != nil))
  loop 0 invariant forall(s, int, k, int, implies(0 <= s && s <= rangeindex && innm(fileDescriptorSets, s, k), !bad(fileDescriptorSets[s].File[k]) && has(nameToSum, fname(fileDescriptorSets[s].File[k]))))
  loop 0 invariant forall(s, int, k, int, implies(0 <= s && s <= rangeindex && innm(fileDescriptorSets, s, k), bytes.Equal(nameToSum[fname(fileDescriptorSets[s].File[k])], tup(sha256ProtoMessage(fileDescriptorSets[s].File[k]), 0))))
  loop 0 invariant forall(p, int, implies(0 <= p && p < len(result.File), input(result.File[p])))
  loop 0 invariant forall(p, int, implies(0 <= p && p < len(result.File), has(nameToSum, fname(result.File[p])) && nameToSum[fname(result.File[p])] == tup(sha256ProtoMessage(result.File[p]), 0)))
  loop 0 invariant forall(n, string, implies(has(nameToSum, n), exists(p, int, 0 <= p && p < len(result.File) && fname(result.File[p]) == n)))
  loop 0 invariant forall(p, int, q, int, implies(0 <= p && p < q && q < len(result.File), fname(result.File[p]) != fname(result.File[q])))
  loop 1 invariant forall(s, int, k, int, implies(innm(fileDescriptorSets, s, k) && (s <= rangeindex_0 || (s == rangeindex_0 + 1 && k <= rangeindex)), !bad(fileDescriptorSets[s].File[k]) && has(nameToSum, fname(fileDescriptorSets[s].File[k]))))
  loop 1 invariant forall(s, int, k, int, implies(innm(fileDescriptorSets, s, k) && (s <= rangeindex_0 || (s == rangeindex_0 + 1 && k <= rangeindex)), bytes.Equal(nameToSum[fname(fileDescriptorSets[s].File[k])], tup(sha256ProtoMessage(fileDescriptorSets[s].File[k]), 0))))
  loop 1 invariant forall(p, int, implies(0 <= p && p < len(result.File), input(result.File[p])))
  loop 1 invariant forall(p, int, implies(0 <= p && p < len(result.File), has(nameToSum, fname(result.File[p])) && nameToSum[fname(result.File[p])] == tup(sha256ProtoMessage(result.File[p]), 0)))
  loop 1 invariant forall(n, string, implies(has(nameToSum, n), exists(p, int, 0 <= p && p < len(result.File) && fname(result.File[p]) == n)))
  loop 1 invariant forall(p, int, q, int, implies(0 <= p && p < q && q < len(result.File), fname(result.File[p]) != fname(result.File[q])))
  requires forall(s, int, implies(0 <= s && s < len(fileDescriptorSets), fileDescriptorSets[s] != nil))
  requires forall(s, int, k, int, implies(innm(fileDescriptorSets, s, k), !bad(fileDescriptorSets[s].File[k])))
  requires forall(s, int, k, int, g, *descriptor.FileDescriptorProto, implies(innm(fileDescriptorSets, s, k) && input(g) && fname(g) == fname(fileDescriptorSets[s].File[k]), sumeq(g, fileDescriptorSets[s].File[k])))
  ensures err == nil
