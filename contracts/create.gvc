package create
props C23

extern errors.New error
extern os.Stat pure
extern ioutil.ReadFile pure
extern ioutil.WriteFile event
extern (os.FileInfo).IsDir pure
extern filepath.Rel pure
extern (settings.ConfigProvider).GetForDir pure
extern (settings.ConfigProvider).GetForData pure
// executing a template: what it writes is a function of the data
extern create.getDataV1 pureevent
extern create.getDataV2 pureevent

func create.isWithinDir
  pure
  ensures result == (absPath == absDirPath || strings.HasPrefix(absPath, strings.TrimSuffix(absDirPath, "/") + "/"))

// the package of a path relative to a directory with a base package
func create.getPkgFromRel
  pure
  ensures result == ite(rel == ".", ite(basePkg == "", defaultPackage, basePkg), ite(basePkg == "", strings.Join(strings.Split(rel, "/"), "."), basePkg + "." + strings.Join(strings.Split(rel, "/"), ".")))

def dirOf(f string) string = filepath.Dir(tup(filepath.Abs(f), 0))
def cfg(h *handler, f string) settings.Config = ite(h.configData != "", tup(h.configProvider.GetForData(dirOf(f), h.configData), 0), tup(h.configProvider.GetForDir(dirOf(f)), 0))
def cfgErr(h *handler, f string) error = ite(h.configData != "", tup(h.configProvider.GetForData(dirOf(f), h.configData), 1), tup(h.configProvider.GetForDir(dirOf(f)), 1))

// the configuration is the one for the directory of the file
func (*create.handler).getConfig
  pure
  ensures iff(err == nil, tup(filepath.Abs(filePath), 1) == nil && cfgErr(h, filePath) == nil)
  ensures implies(err == nil, result0 == cfg(h, filePath))

func (*create.handler).isV2
  pure
  ensures implies(err == nil, result0 == (cfg(h, filePath).DirPath != "" && strings.ToLower(cfg(h, filePath).Lint.Group) == "uber2"))
  ensures iff(err == nil, tup(filepath.Abs(filePath), 1) == nil && cfgErr(h, filePath) == nil)

func (*create.handler).getFileHeader
  pure
  ensures implies(err == nil, result0 == ite(cfg(h, filePath).DirPath == "", "", cfg(h, filePath).Lint.FileHeader))
  ensures iff(err == nil, tup(filepath.Abs(filePath), 1) == nil && cfgErr(h, filePath) == nil)

func (*create.handler).getJavaPackagePrefix
  pure
  ensures implies(err == nil, result0 == ite(cfg(h, filePath).DirPath == "", "", cfg(h, filePath).Lint.JavaPackagePrefix))
  ensures iff(err == nil, tup(filepath.Abs(filePath), 1) == nil && cfgErr(h, filePath) == nil)

// a configured directory above the file (or its own)
def mapped(h *handler, f string, d string) bool = d != "" && has(cfg(h, f).Create.DirPathToBasePackage, d) && isWithinDir(dirOf(f), d)

// the package given, or that of the longest configured directory at or above
// the file joined with the rest, or the path from the configuration
func (*create.handler).getPkg
  loop 0 invariant implies(longestCreateDirPath == "", longestBasePkg == "" && forall(d, string, !(visited(d) && mapped(h, filePath, d))))
  loop 0 invariant implies(longestCreateDirPath != "", visited(longestCreateDirPath) && mapped(h, filePath, longestCreateDirPath) && longestBasePkg == cfg(h, filePath).Create.DirPathToBasePackage[longestCreateDirPath])
  loop 0 invariant forall(d, string, implies(visited(d) && mapped(h, filePath, d), len(d) <= len(longestCreateDirPath)))
  ensures implies(h.pkg != "", err == nil && result0 == h.pkg)
  ensures implies(h.pkg == "" && err == nil && cfg(h, filePath).DirPath == "", result0 == defaultPackage)
  ensures implies(h.pkg == "" && err == nil && cfg(h, filePath).DirPath != "" && exists(d, string, mapped(h, filePath, d)),
      exists(d, string, mapped(h, filePath, d) && forall(e, string, implies(mapped(h, filePath, e), len(e) <= len(d))) && result0 == getPkgFromRel(tup(filepath.Rel(d, dirOf(filePath)), 0), cfg(h, filePath).Create.DirPathToBasePackage[d], defaultPackage)))
  ensures implies(h.pkg == "" && err == nil && cfg(h, filePath).DirPath != "" && !exists(d, string, mapped(h, filePath, d)),
      result0 == ite(isWithinDir(dirOf(filePath), cfg(h, filePath).DirPath), getPkgFromRel(tup(filepath.Rel(cfg(h, filePath).DirPath, dirOf(filePath)), 0), "", defaultPackage), defaultPackage))

// a target is accepted only in an existing directory and when it has no content
func (*create.handler).checkFilePath
  pure
  ensures implies(err == nil, filePath != "" && tup(os.Stat(filepath.Dir(filePath)), 1) == nil && tup(os.Stat(filepath.Dir(filePath)), 0).IsDir())
  ensures implies(err == nil, implies(tup(os.Stat(filePath), 1) == nil, tup(ioutil.ReadFile(filePath), 1) == nil && len(tup(ioutil.ReadFile(filePath), 0)) == 0))

// only the file asked for is written, once, with the text of its template
func (*create.handler).create
  opaque
  ensures allcalls("ioutil.WriteFile", n, d, p, n == filePath && p == 420)
  ensures implies(err == nil, somecall("ioutil.WriteFile", n, d, p, n == filePath))
  ensures allcalls("create.getDataV2", t, tup(h.isV2(filePath), 0))
  ensures allcalls("create.getDataV1", t, !tup(h.isV2(filePath), 0))

// nothing is written when any target is refused, and only targets are created
func (*create.handler).Create
  ensures implies(exists(i, int, 0 <= i && i < len(filePaths) && h.checkFilePath(filePaths[i]) != nil), err != nil && onlycalls("none"))
  ensures onlycalls("(*create.handler).create")
  ensures allcalls("(*create.handler).create", g, n, g == h && exists(i, int, 0 <= i && i < len(filePaths) && n == filePaths[i]))
  ensures implies(err == nil, forall(i, int, implies(0 <= i && i < len(filePaths), somecall("(*create.handler).create", g, n, n == filePaths[i]))))
