package file
props C12 C18

extern filepath.IsAbs pure
extern filepath.Clean pure
extern filepath.Abs pure
extern filepath.Dir pure
extern filepath.Join pure
extern filepath.Rel pure
extern strings.HasPrefix pure

// a path is excluded by e when it is strictly inside the configuration
// directory and it, or a parent directory that still is inside, is e
uf under(p string, cfg string, e string) bool
axiom under-def: forall(p, string, cfg, string, e, string, iff(under(p, cfg, e),
      p != cfg && p != "/" && (p == e || under(filepath.Dir(p), cfg, e))))
axiom root: filepath.Dir("/") == "/"

func file.IsExcluded
  inits file
  pure
  loop 0 invariant !exists(k, int, 0 <= k && k <= rangeindex && under(absFilePath, absConfigDirPath, absExcludePaths[k]))
  loop 1 invariant iff(under(absFilePath, absConfigDirPath, absExcludePath), under(curFilePath, absConfigDirPath, absExcludePath))
  ensures iff(result, exists(i, int, 0 <= i && i < len(absExcludePaths) && under(absFilePath, absConfigDirPath, absExcludePaths[i])))

func file.IsWithinDir
  props C18 C19
  pure
  nopanic
  ensures iff(result, absPath == absDirPath || strings.HasPrefix(absPath, strings.TrimSuffix(absDirPath, "/") + "/"))

func file.AbsClean
  props C12 C18
  pure
  ensures implies(path == "", result0 == "" && err == nil)
  ensures implies(path != "" && filepath.IsAbs(path), result0 == filepath.Clean(path) && err == nil)
  ensures implies(path != "" && !filepath.IsAbs(path), result0 == tup(filepath.Abs(path), 0) && err == tup(filepath.Abs(path), 1))
