package exec

// these stand for the steps of a command; what they do is described by other
// contracts or checked end to end
extern (*exec.runner).getMeta pureevent
extern (*exec.runner).printAffectedFiles event
extern (*exec.runner).compile pureevent
extern (*exec.runner).printFailures pureevent
extern (*exec.runner).newTransformer pure
extern (format.Transformer).Transform pure
extern bytes.NewReader pure
extern io.Copy event
extern diff.Do pure

func exec.moreThanOneSet
  props C24, C26
  pure
  loop 0 invariant numSet >= 0 && iff(numSet == 0, forall(i, int, implies(0 <= i && i <= rangeindex, !values[i])))
  loop 0 invariant iff(numSet > 1, exists(i, int, j, int, 0 <= i && i < j && j <= rangeindex && values[i] && values[j]))
  ensures iff(result, exists(i, int, j, int, 0 <= i && i < j && j < len(values) && values[i] && values[j]))

def other(m *meta, f *file.ProtoFile) bool = m.SingleFilename != "" && f.Path != tup(file.AbsClean(m.SingleFilename), 0)
def content(f *file.ProtoFile) []byte = tup(ioutil.ReadFile(f.Path), 0)
def formatted(r *runner, fix int, header string, java string, f *file.ProtoFile) []byte = tup(r.newTransformer(fix, header, java).Transform(f.Path, content(f)), 0)
def parses(r *runner, fix int, header string, java string, f *file.ProtoFile) bool = len(tup(r.newTransformer(fix, header, java).Transform(f.Path, content(f)), 1)) == 0 && tup(r.newTransformer(fix, header, java).Transform(f.Path, content(f)), 2) == nil
def changes(r *runner, fix int, header string, java string, f *file.ProtoFile) bool = !bytes.Equal(content(f), formatted(r, fix, header, java, f))

func (*exec.runner).formatFile
  opaque
  props C24
  ensures allcalls("ioutil.WriteFile", n, d, p, overwrite && !other(meta, protoFile) && parses(r, fix, fileHeader, javaPackagePrefix, protoFile) && changes(r, fix, fileHeader, javaPackagePrefix, protoFile) && n == protoFile.Path && len(d) == len(formatted(r, fix, fileHeader, javaPackagePrefix, protoFile)) && forall(k, int, implies(0 <= k && k < len(d), d[k] == formatted(r, fix, fileHeader, javaPackagePrefix, protoFile)[k])))
  ensures implies(err == nil && overwrite && !other(meta, protoFile) && parses(r, fix, fileHeader, javaPackagePrefix, protoFile) && changes(r, fix, fileHeader, javaPackagePrefix, protoFile), somecall("ioutil.WriteFile", n, d, p, n == protoFile.Path))
  ensures implies(err == nil, iff(result0, other(meta, protoFile) || (parses(r, fix, fileHeader, javaPackagePrefix, protoFile) && (overwrite || !changes(r, fix, fileHeader, javaPackagePrefix, protoFile)))))
  ensures allcalls("io.Copy", w, s, !overwrite && !lintMode && !other(meta, protoFile) && parses(r, fix, fileHeader, javaPackagePrefix, protoFile) && w == r.output)
  ensures allcalls("io.Copy", w, s, implies(diffMode, changes(r, fix, fileHeader, javaPackagePrefix, protoFile) && s == bytes.NewReader(tup(diff.Do(content(protoFile), formatted(r, fix, fileHeader, javaPackagePrefix, protoFile), protoFile.DisplayPath), 0))))
  ensures allcalls("io.Copy", w, s, implies(!diffMode, s == bytes.NewReader(formatted(r, fix, fileHeader, javaPackagePrefix, protoFile))))
  ensures implies(err == nil && !overwrite && !lintMode && !other(meta, protoFile) && parses(r, fix, fileHeader, javaPackagePrefix, protoFile) && (!diffMode || changes(r, fix, fileHeader, javaPackagePrefix, protoFile)), somecall("io.Copy", w, s, w == r.output))

// every file below the requested directory is formatted; the exit status is
// non-zero exactly when one of them calls for it
func (*exec.runner).format
  props C24
  ensures allcalls("(*exec.runner).formatFile", q, o, d, l, x, hd, j, m, f, q == r && o == overwrite && d == diffMode && l == lintMode && x == fix && hd == fileHeader && j == javaPackagePrefix && m == meta && exists(k, string, i, int, has(meta.ProtoSet.DirPathToFiles, k) && file.IsWithinDir(k, meta.ProtoSet.DirPath) && 0 <= i && i < len(meta.ProtoSet.DirPathToFiles[k]) && f == meta.ProtoSet.DirPathToFiles[k][i]))
  loop 0 invariant success == forall(k, string, i, int, implies(visited(k) && file.IsWithinDir(k, meta.ProtoSet.DirPath) && 0 <= i && i < len(meta.ProtoSet.DirPathToFiles[k]), tup(r.formatFile(overwrite, diffMode, lintMode, fix, fileHeader, javaPackagePrefix, meta, meta.ProtoSet.DirPathToFiles[k][i]), 0)))
  loop 0 invariant forall(k, string, i, int, implies(visited(k) && file.IsWithinDir(k, meta.ProtoSet.DirPath) && 0 <= i && i < len(meta.ProtoSet.DirPathToFiles[k]), tup(r.formatFile(overwrite, diffMode, lintMode, fix, fileHeader, javaPackagePrefix, meta, meta.ProtoSet.DirPathToFiles[k][i]), 1) == nil))
  loop 1 invariant success == (forall(k, string, i, int, implies(visited_0(k) && file.IsWithinDir(k, meta.ProtoSet.DirPath) && 0 <= i && i < len(meta.ProtoSet.DirPathToFiles[k]), tup(r.formatFile(overwrite, diffMode, lintMode, fix, fileHeader, javaPackagePrefix, meta, meta.ProtoSet.DirPathToFiles[k][i]), 0))) && forall(i, int, implies(0 <= i && i <= rangeindex, tup(r.formatFile(overwrite, diffMode, lintMode, fix, fileHeader, javaPackagePrefix, meta, protoFiles[i]), 0))))
  loop 1 invariant forall(i, int, implies(0 <= i && i <= rangeindex, tup(r.formatFile(overwrite, diffMode, lintMode, fix, fileHeader, javaPackagePrefix, meta, protoFiles[i]), 1) == nil))
  ensures iff(err == nil, forall(k, string, i, int, implies(has(meta.ProtoSet.DirPathToFiles, k) && file.IsWithinDir(k, meta.ProtoSet.DirPath) && 0 <= i && i < len(meta.ProtoSet.DirPathToFiles[k]), tup(r.formatFile(overwrite, diffMode, lintMode, fix, fileHeader, javaPackagePrefix, meta, meta.ProtoSet.DirPathToFiles[k][i]), 0) && tup(r.formatFile(overwrite, diffMode, lintMode, fix, fileHeader, javaPackagePrefix, meta, meta.ProtoSet.DirPathToFiles[k][i]), 1) == nil)))

extern (*exec.runner).listAllLintGroups pureevent
extern (*exec.runner).diffLintGroups pureevent
extern (*exec.runner).listAllLinters pureevent
extern (*exec.runner).listLinters pureevent
extern (*exec.runner).listLintGroup pureevent
extern (*exec.runner).generateIgnores pureevent
extern (*exec.runner).lint pureevent
extern (*exec.runner).getInputReader pure
extern (*exec.runner).newGRPCHandler pureevent
extern (grpc.Handler).Invoke pureevent
extern time.ParseDuration pure
extern strings.SplitN pure

// more than one mode is refused before anything happens, otherwise the one
// asked for runs, lint and its ignores only after the files compile
def compiles(r *runner, m *meta) bool = tup(r.compile(false, false, false, m), 1) == nil
func (*exec.runner).Lint
  props C26
  ensures implies(exec.moreThanOneSet(listAllLinters, listLinters, listAllLintGroups, listLintGroup != "", diffLintGroups != "", generateIgnores), err != nil && onlycalls("none"))
  ensures implies(err == nil && listAllLintGroups, somecall("(*exec.runner).listAllLintGroups", q, q == r) && onlycalls("(*exec.runner).listAllLintGroups"))
  ensures implies(err == nil && diffLintGroups != "", somecall("(*exec.runner).diffLintGroups", q, g, g == diffLintGroups) && onlycalls("(*exec.runner).diffLintGroups"))
  ensures implies(err == nil && listAllLinters, somecall("(*exec.runner).listAllLinters", q, m, m == tup(r.getMeta(args), 0)) && onlycalls("(*exec.runner).listAllLinters", "(*exec.runner).getMeta"))
  ensures implies(err == nil && listLinters, somecall("(*exec.runner).listLinters", q, m, m == tup(r.getMeta(args), 0)) && onlycalls("(*exec.runner).listLinters", "(*exec.runner).getMeta"))
  ensures implies(err == nil && listLintGroup != "", somecall("(*exec.runner).listLintGroup", q, m, g, m == tup(r.getMeta(args), 0) && g == listLintGroup) && onlycalls("(*exec.runner).listLintGroup", "(*exec.runner).getMeta"))
  ensures implies(err == nil && generateIgnores, somecall("(*exec.runner).generateIgnores", q, m, m == tup(r.getMeta(args), 0)))
  ensures implies(err == nil && !(listAllLinters || listLinters || listAllLintGroups || listLintGroup != "" || diffLintGroups != "" || generateIgnores), somecall("(*exec.runner).lint", q, m, m == tup(r.getMeta(args), 0)))
  ensures allcalls("(*exec.runner).lint", q, m, compiles(r, m) && !(listAllLinters || listLinters || listAllLintGroups || listLintGroup != "" || diffLintGroups != "" || generateIgnores))
  ensures allcalls("(*exec.runner).generateIgnores", q, m, compiles(r, m) && generateIgnores)

func exec.getFormatFixValue
  props C24
  pure
  ensures result == ite(fixFlag, ite(meta.ProtoSet.Config.Lint.Group == "uber2", 2, 1), 0)
func exec.getFormatFileHeaderValue
  props C24
  pure
  ensures result == ite(fixFlag, meta.ProtoSet.Config.Lint.FileHeader, "")
func exec.getFormatJavaPackagePrefixValue
  props C24
  pure
  ensures result == ite(fixFlag, meta.ProtoSet.Config.Lint.JavaPackagePrefix, "")

// two modes are refused before any file is touched; nothing is formatted
// unless the files compile
func (*exec.runner).Format
  props C24, C26
  requires implies(tup(r.getMeta(args), 1) == nil, tup(r.getMeta(args), 0) != nil && tup(r.getMeta(args), 0).ProtoSet != nil)
  ensures implies(exec.moreThanOneSet(overwrite, diffMode, lintMode), err != nil && onlycalls("none"))
  ensures allcalls("(*exec.runner).format", q, o, d, l, x, h, j, m, o == overwrite && d == diffMode && l == lintMode && m == tup(r.getMeta(args), 0) && compiles(r, m) && x == getFormatFixValue(fixFlag, m) && h == getFormatFileHeaderValue(fixFlag, m) && j == getFormatJavaPackagePrefixValue(fixFlag, m))
  ensures implies(err == nil, somecall("(*exec.runner).format", q, o, d, l, x, h, j, m, q == r))

def tlsdetails(insecure bool, cacert string, cert string, key string, serverName string) bool = insecure || cacert != "" || cert != "" || key != "" || serverName != ""
def refused(address string, method string, data string, stdin bool, tls bool, insecure bool, cacert string, cert string, key string, serverName string) bool = address == "" || method == "" || (data != "") == stdin || (!tls && tlsdetails(insecure, cacert, cert, key, serverName)) || (tls && (insecure && (cacert != "" || cert != "" || key != "" || serverName != "") || (cert != "") != (key != "")))
def duration(s string) int = ite(s == "", 0, tup(time.ParseDuration(s), 0))
def badduration(s string) bool = s != "" && tup(time.ParseDuration(s), 1) != nil
func (*exec.runner).GRPC
  props C26
  loop 0 invariant forall(i, int, implies(0 <= i && i <= rangeindex, len(strings.SplitN(headers[i], ":", 2)) == 2))
  ensures implies(refused(address, method, data, stdin, tls, insecure, cacert, cert, key, serverName), err != nil && onlycalls("none"))
  ensures implies(badduration(callTimeout) || badduration(connectTimeout) || badduration(keepaliveTime), err != nil && onlycalls("none"))
  ensures implies(exists(i, int, 0 <= i && i < len(headers) && len(strings.SplitN(headers[i], ":", 2)) != 2), err != nil && onlycalls("none"))
  ensures implies(!refused(address, method, data, stdin, tls, insecure, cacert, cert, key, serverName) && !badduration(callTimeout) && !badduration(connectTimeout) && !badduration(keepaliveTime) && !exists(i, int, 0 <= i && i < len(headers) && len(strings.SplitN(headers[i], ":", 2)) != 2), somecall("(*exec.runner).getMeta", q, a, q == r))
  ensures allcalls("(*exec.runner).newGRPCHandler", q, h, ct, co, ka, de, tl, ins, ca, ce, ke, sn, ct == duration(callTimeout) && co == duration(connectTimeout) && ka == duration(keepaliveTime) && de == details && tl == tls && ins == insecure && ca == cacert && ce == cert && ke == key && sn == serverName)
  ensures allcalls("(grpc.Handler).Invoke", g, fs, ad, me, rd, w, ad == address && me == method && rd == r.getInputReader(data, stdin) && w == r.output)
  ensures implies(err == nil, somecall("(grpc.Handler).Invoke", g, fs, ad, me, rd, w, ad == address && me == method))

extern (*exec.runner).getPackageSetAndConfig pureevent
extern (*exec.runner).println pureevent
extern (*exec.runner).compileFullControl pureevent

// ---- inspection (C27) ----
func exec.extractSortPackageNames
  props C27
  pure
  loop 0 invariant isfresh(s)
  loop 0 invariant forall(i, int, implies(0 <= i && i < len(s), s[i] != "" && visited(s[i])))
  loop 0 invariant forall(k, string, implies(visited(k) && k != "", contains(s, k)))
  loop 0 invariant forall(i, int, j, int, implies(0 <= i && i < j && j < len(s), s[i] != s[j]))
  ensures forall(k, string, iff(contains(result, k), has(m, k) && k != ""))
  ensures forall(i, int, j, int, implies(0 <= i && i < j && j < len(result), result[i] < result[j]))

func (*exec.runner).printPackageNames
  props C27
  ensures onlycalls("(*exec.runner).println")
  ensures allcalls("(*exec.runner).println", q, s, q == r && has(m, s) && s != "")
  ensures implies(err == nil, forall(k, string, implies(has(m, k) && k != "", somecall("(*exec.runner).println", q, s, s == k))))

// the package of that name, an error when there is none
func (*exec.runner).getPackage
  props C26, C27
  ensures implies(name == "", err != nil && onlycalls("none"))
  ensures iff(err == nil, name != "" && tup(r.getPackageSetAndConfig(args), 2) == nil && tup(r.getPackageSetAndConfig(args), 0) != nil && has(tup(r.getPackageSetAndConfig(args), 0).PackageNameToPackage(), name))
  ensures implies(err == nil, result0 == tup(r.getPackageSetAndConfig(args), 0).PackageNameToPackage()[name])

func (*exec.runner).InspectPackageDeps
  props C26, C27
  ensures implies(name == "", err != nil && onlycalls("(*exec.runner).getPackage"))
  ensures allcalls("(*exec.runner).printPackageNames", q, m, forall(p, *extract.Package, implies(p == tup(r.getPackageSetAndConfig(args), 0).PackageNameToPackage()[name], m == p.DependencyNameToDependency())))
  ensures implies(err == nil, somecall("(*exec.runner).printPackageNames", q, m, q == r))
func (*exec.runner).InspectPackageImporters
  props C26, C27
  ensures implies(name == "", err != nil && onlycalls("(*exec.runner).getPackage"))
  ensures allcalls("(*exec.runner).printPackageNames", q, m, forall(p, *extract.Package, implies(p == tup(r.getPackageSetAndConfig(args), 0).PackageNameToPackage()[name], m == p.ImporterNameToImporter())))
  ensures implies(err == nil, somecall("(*exec.runner).printPackageNames", q, m, q == r))
func (*exec.runner).InspectPackages
  props C27
  ensures allcalls("(*exec.runner).printPackageNames", q, m, m == tup(r.getPackageSetAndConfig(args), 0).PackageNameToPackage())
  ensures implies(err == nil, tup(r.getPackageSetAndConfig(args), 0) == nil || somecall("(*exec.runner).printPackageNames", q, m, q == r))

extern proto.Marshal pure
extern bytes.NewBuffer new
extern (*bytes.Buffer).Bytes fresh
extern (*jsonpb.Marshaler).Marshal event
extern (io.Writer).Write event
extern os.Create event
extern ioutil.TempFile event
extern (*os.File).Write event
extern (*os.File).Close event
extern (*os.File).Name pure
extern multierr.Append pure
extern (protoc.FileDescriptorSets).Unwrap pure
extern desc.MergeFileDescriptorSets pure
func (*exec.runner).DescriptorSet
  props C26
  assumes forall(f, *descriptor.FileDescriptorProto, input(f))
  event
  ensures implies(outputPath != "" && tmp, err != nil && onlycalls("none"))
func (*exec.runner).BreakDescriptorSet
  props C26
  ensures implies(outputPath == "", err != nil && onlycalls("none"))
  ensures allcalls("(*exec.runner).DescriptorSet", q, a, i, s, o, t, q == r && i && !s && o == outputPath && !t)
  ensures implies(outputPath != "", somecall("(*exec.runner).DescriptorSet", q, a, i, s, o, t, o == outputPath))

extern (*exec.runner).getPackageSetForDescriptorSetPath pureevent
extern git.TemporaryClone pureevent
extern os.RemoveAll event
extern (*exec.runner).cloneForWorkDirPath pure
extern (*exec.runner).getPackageSetAndConfigForRelDirPath pureevent
extern (*exec.runner).newBreakingRunner pure
extern (*exec.runner).printFailuresForErrorFormat pureevent
extern (breaking.Runner).Run pureevent
extern (*zap.Logger).Sugar pure
extern (*zap.SugaredLogger).Debugf nop
// a branch and a descriptor set together are refused; only the clone made for
// the comparison is removed
func (*exec.runner).BreakCheck
  props C26, C28
  ensures implies(gitBranch != "" && descriptorSetPath != "", err != nil && onlycalls("none"))
  ensures allcalls("os.RemoveAll", p, descriptorSetPath == "" && p == tup(git.TemporaryClone(r.logger, r.workDirPath, gitBranch), 0))
  ensures allcalls("git.TemporaryClone", l, w, b, descriptorSetPath == "" && w == r.workDirPath && b == gitBranch)
  ensures implies(err == nil && descriptorSetPath == "", somecall("os.RemoveAll", p, true))
  ensures allcalls("git.TemporaryClone", l, w, b, implies(tup(git.TemporaryClone(l, w, b), 1) == nil, somecall("os.RemoveAll", p, p == tup(git.TemporaryClone(l, w, b), 0))))
