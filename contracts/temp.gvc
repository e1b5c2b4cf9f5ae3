package github.com/uber/prototool/internal/protoc
props C28

extern ioutil.TempFile event
extern os.Remove event
extern (*os.File).Name pure
extern (*sync.WaitGroup).Add nop
extern (*sync.WaitGroup).Done nop
extern (*sync.WaitGroup).Wait nop
extern (*sync.Mutex).Lock nop
extern (*sync.Mutex).Unlock nop
extern (error).Error pure
extern runtime.NumCPU fresh
extern (*protoc.compiler).getCmdMetas pure
extern (*protoc.compiler).runCmdMeta pureevent
extern (*protoc.compiler).makeGenDirs pure
extern protoc.getFileDescriptorSet pure

func protoc.tryRemoveTempFile variant removes
  nopanic
  ensures implies(tempFilePath != "", somecall("os.Remove", p, p == tempFilePath))
  ensures allcalls("os.Remove", p, p == tempFilePath)

func protoc.cleanCmdMetas
  event
  requires forall(i, int, implies(0 <= i && i < len(cmdMetas), cmdMetas[i] != nil))
  ensures forall(i, int, implies(0 <= i && i < len(cmdMetas) && cmdMetas[i].descriptorSetTempFilePath != "", somecall("os.Remove", p, p == cmdMetas[i].descriptorSetTempFilePath)))
  ensures allcalls("os.Remove", p, exists(i, int, 0 <= i && i < len(cmdMetas) && p == cmdMetas[i].descriptorSetTempFilePath))

// a temporary file is what is returned as one
func (*protoc.compiler).getDescriptorSetFilePath
  requires c != nil && protoSet != nil
  ensures implies(!c.doFileDescriptorSet, onlycalls("none") && !result1)
  ensures implies(c.doFileDescriptorSet && err == nil, result1 && somecall("ioutil.TempFile", d, p, d == "" && p == "prototool"))
  ensures implies(!c.doFileDescriptorSet && c.doGen && len(protoSet.Config.Gen.Plugins) > 0, result0 == "" && err == nil)

def metas(c *protoc.compiler, s *file.ProtoSet) []*protoc.cmdMeta = tup(c.getCmdMetas(s), 0)
def sameMetas(a []*protoc.cmdMeta, b []*protoc.cmdMeta) bool = len(a) == len(b) && forall(i, int, implies(0 <= i && i < len(a), a[i] == b[i]))
def runFailures(c *protoc.compiler, m *protoc.cmdMeta) []*text.Failure = tup(c.runCmdMeta(m), 0)
def runErr(c *protoc.compiler, m *protoc.cmdMeta) error = tup(c.runCmdMeta(m), 1)

func (*protoc.compiler).ProtocCommands
  requires c != nil && protoSet != nil
  requires forall(i, int, implies(0 <= i && i < len(metas(c, protoSet)), metas(c, protoSet)[i] != nil && metas(c, protoSet)[i].execCmd != nil))
  loop 0 invariant len(cmdMetaStrings) == rangeindex + 1
  loop 0 invariant forall(k, int, implies(0 <= k && k <= rangeindex, cmdMetaStrings[k] == metas(c, protoSet)[k].String()))
  ensures err == tup(c.getCmdMetas(protoSet), 1)
  ensures somecall("protoc.cleanCmdMetas", m, sameMetas(m, metas(c, protoSet)))
  ensures implies(err == nil, len(result0) == len(metas(c, protoSet)) && forall(k, int, implies(0 <= k && k < len(result0), result0[k] == metas(c, protoSet)[k].String())))

// goroutines: see the assumption reported
func (*protoc.compiler).Compile
  goroutines
  requires c != nil && protoSet != nil
  requires forall(i, int, implies(0 <= i && i < len(metas(c, protoSet)), metas(c, protoSet)[i] != nil))
  modifies *
  loop 0 invariant failures == nil || isfresh(failures)
  loop 0 invariant off(failures) == 0
  loop 0 invariant forall(k, int, implies(0 <= k && k <= rangeindex && len(runFailures(c, metas(c, protoSet)[k])) > 0, len(failures) > 0))
  loop 0 invariant forall(k, int, implies(0 <= k && k <= rangeindex && runErr(c, metas(c, protoSet)[k]) != nil, contains(errs, runErr(c, metas(c, protoSet)[k]))))
  loop 0 invariant implies(len(errs) > 0, exists(k, int, 0 <= k && k <= rangeindex && runErr(c, metas(c, protoSet)[k]) != nil))
  ensures somecall("protoc.cleanCmdMetas", m, sameMetas(m, metas(c, protoSet)))
  ensures implies(tup(c.getCmdMetas(protoSet), 1) != nil, err == tup(c.getCmdMetas(protoSet), 1))
  ensures forall(k, int, implies(0 <= k && k < len(metas(c, protoSet)) && err == nil, somecall("(*protoc.compiler).runCmdMeta", w, m, m == metas(c, protoSet)[k])))
  ensures implies(err == nil, forall(k, int, implies(0 <= k && k < len(metas(c, protoSet)), runErr(c, metas(c, protoSet)[k]) == nil)))
  ensures implies(err == nil, forall(k, int, implies(0 <= k && k < len(metas(c, protoSet)) && len(runFailures(c, metas(c, protoSet)[k])) > 0, len(result0.Failures) > 0 && len(result0.FileDescriptorSets) == 0)))
  ensures implies(err == nil, forall(i, int, j, int, implies(0 <= i && i < j && j < len(result0.Failures), !fless(result0.Failures[j], result0.Failures[i]))))

  ensures implies(err != nil && tup(c.getCmdMetas(protoSet), 1) == nil && !c.doGen, somecall("(*protoc.compiler).runCmdMeta", w, m, runErr(c, m) != nil) || somecall("protoc.cleanCmdMetas", ms, exists(k, int, 0 <= k && k < len(ms) && tup(protoc.getFileDescriptorSet(ms[k]), 1) != nil)))

package github.com/uber/prototool/internal/git
props C28

extern ioutil.TempDir pureevent
extern os.RemoveAll event
extern (*exec.Cmd).CombinedOutput fresh
extern exec.Command pure

// a clone that failed leaves no directory behind
func git.TemporaryClone variant leaves
  ensures allcalls("ioutil.TempDir", d, p, implies(err != nil && tup(ioutil.TempDir(d, p), 1) == nil, somecall("os.RemoveAll", r, r == tup(ioutil.TempDir(d, p), 0))))
  ensures allcalls("os.RemoveAll", r, err != nil && somecall("ioutil.TempDir", d, p, r == tup(ioutil.TempDir(d, p), 0)))
  ensures implies(err == nil, somecall("ioutil.TempDir", d, p, result0 == tup(ioutil.TempDir(d, p), 0)))

package github.com/uber/prototool/internal/diff
props C28

extern ioutil.TempFile event
extern os.Remove event
extern (*os.File).Name pure
extern (*os.File).Write event
extern (*os.File).Close event
extern exec.Command pure
extern (*exec.Cmd).CombinedOutput fresh
extern diff.replaceTempFilename pure
extern diff.writeTempFile pureevent

// the two files compared are removed, also if comparing them fails
func diff.Do variant leaves
  ensures allcalls("diff.writeTempFile", d, p, b, implies(tup(diff.writeTempFile(d, p, b), 1) == nil, somecall("os.Remove", r, r == tup(diff.writeTempFile(d, p, b), 0))))
  ensures allcalls("os.Remove", r, somecall("diff.writeTempFile", d, p, b, r == tup(diff.writeTempFile(d, p, b), 0)))

// a file that could not be written is removed
func diff.writeTempFile variant leaves
  ensures implies(err != nil, onlycalls("ioutil.TempFile", "(*os.File).Write", "(*os.File).Close", "os.Remove"))
  ensures allcalls("(*os.File).Write", f, b, somecall("(*os.File).Close", g, f == g) && implies(err != nil, somecall("os.Remove", r, r == f.Name())) && implies(err == nil, result0 == f.Name()))
  ensures allcalls("os.Remove", r, err != nil)
