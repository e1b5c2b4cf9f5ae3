package settings
props C12 C14

def norm(d string, p string) string = filepath.Clean(ite(filepath.IsAbs(p), p, filepath.Join(d, p)))
def inside(d string, p string) bool = p != d && strings.HasPrefix(p, strings.TrimSuffix(d, "/") + "/")

func settings.getExcludePrefixes
  nopanic
  ensures implies(err == nil, forall(e, string, iff(contains(result0, e), exists(i, int, 0 <= i && i < len(excludes) && excludes[i] != "" && norm(dirPath, excludes[i]) == e))))
  ensures off(result0) == 0
  ensures iff(err == nil, forall(i, int, implies(0 <= i && i < len(excludes) && excludes[i] != "", inside(dirPath, norm(dirPath, excludes[i])))))

// ---- nearest configuration file (C13) ----
extern os.Stat pure
def present(p string) bool = tup(os.Stat(p), 1) == nil
def yamlf(d string) string = filepath.Join(d, "prototool.yaml")
def jsonf(d string) string = filepath.Join(d, "prototool.json")
func settings.getSingleFilePathForDir
  props C13
  inits settings
  pure
  nopanic
  ensures iff(err != nil, present(yamlf(dirPath)) && present(jsonf(dirPath)))
  ensures implies(err != nil, result0 == "")
  ensures implies(present(yamlf(dirPath)) && !present(jsonf(dirPath)), result0 == yamlf(dirPath))
  ensures implies(!present(yamlf(dirPath)) && present(jsonf(dirPath)), result0 == jsonf(dirPath))
  ensures implies(!present(yamlf(dirPath)) && !present(jsonf(dirPath)), result0 == "")

uf nearest(d string) string
uf ambiguous(d string) bool
def none(d string) bool = !present(yamlf(d)) && !present(jsonf(d))
axiom nearest-def: forall(d, string, nearest(d) == ite(!none(d), ite(present(yamlf(d)), yamlf(d), jsonf(d)), ite(d == "/", "", nearest(filepath.Dir(d)))))
axiom ambiguous-def: forall(d, string, iff(ambiguous(d), present(yamlf(d)) && present(jsonf(d)) || none(d) && d != "/" && ambiguous(filepath.Dir(d))))
axiom join-not-empty: forall(d, string, n, string, implies(n != "", filepath.Join(d, n) != ""))
func settings.getFilePathForDir
  props C13
  pure
  loop 0 invariant nearest(dirPath) == nearest(old(dirPath)) && iff(ambiguous(dirPath), ambiguous(old(dirPath)))
  ensures iff(err != nil, ambiguous(dirPath))
  ensures implies(err == nil, result0 == nearest(dirPath))
  ensures implies(err != nil, result0 == "")
func (*settings.configProvider).GetFilePathForDir
  props C13
  ensures implies(!filepath.IsAbs(dirPath), err != nil)
  ensures implies(filepath.IsAbs(dirPath), result0 == tup(settings.getFilePathForDir(filepath.Clean(dirPath)), 0) && iff(err == nil, tup(settings.getFilePathForDir(filepath.Clean(dirPath)), 1) == nil))

// ---- configuration (C14) ----
extern ioutil.ReadFile pure
func settings.getFileHeaderLines
  props C14
  nopanic
  ensures off(result) == 0
  ensures len(result) == len(strings.Split(strings.TrimSpace(content), "\n"))
  ensures isfresh(result)
  ensures forall(i, int, implies(0 <= i && i < len(result), result[i] == strings.TrimSpace(strings.Split(strings.TrimSpace(content), "\n")[i])))
func settings.getPluginPathFunc
  props C14
  trusted
  pure
func settings.ParseGenPluginType
  props C14
  inits settings
  pure
  ensures iff(err == nil, strings.ToLower(s) == "" || strings.ToLower(s) == "go" || strings.ToLower(s) == "gogo")
  ensures implies(err == nil && strings.ToLower(s) == "", result0 == 1)
  ensures implies(err == nil && strings.ToLower(s) == "go", result0 == 2)
  ensures implies(err == nil && strings.ToLower(s) == "gogo", result0 == 3)
func settings.externalConfigToConfig
  props C14
  inits settings
  loop 2 frames
  loop 3 frames
  loop 4 frames
  loop 5 frames
  loop 6 frames
  loop 7 frames
  modifies *
  ensures implies(err == nil, result0.DirPath == dirPath)
  ensures implies(err == nil, result0.Compile.ProtobufVersion == e.Protoc.Version && result0.Compile.AllowUnusedImports == e.Protoc.AllowUnusedImports && result0.Compile.IncludeWellKnownTypes)
  ensures implies(err == nil, result0.Lint.Group == strings.ToLower(e.Lint.Group) && result0.Lint.NoDefault == e.Lint.Rules.NoDefault && result0.Lint.JavaPackagePrefix == e.Lint.JavaPackagePrefix && result0.Lint.AllowSuppression == e.Lint.AllowSuppression)
  ensures implies(err == nil, result0.Break.IncludeBeta == e.Break.IncludeBeta && result0.Break.AllowBetaDeps == e.Break.AllowBetaDeps)
  ensures implies(err == nil, result0.Gen.GoPluginOptions.ImportPath == e.Generate.GoOptions.ImportPath && result0.Gen.GoPluginOptions.ExtraModifiers == e.Generate.GoOptions.ExtraModifiers)
  ensures implies(err == nil, forall(p, string, iff(contains(result0.ExcludePrefixes, p), exists(i, int, 0 <= i && i < len(e.Excludes) && e.Excludes[i] != "" && norm(dirPath, e.Excludes[i]) == p))))
  ensures implies(err == nil, forall(p, string, iff(contains(result0.Compile.IncludePaths, p), exists(i, int, 0 <= i && i < len(e.Protoc.Includes) && e.Protoc.Includes[i] != "" && norm(dirPath, e.Protoc.Includes[i]) == p))))
  ensures implies(err == nil, forall(p, string, iff(contains(result0.Lint.IncludeIDs, p), p != "" && exists(i, int, 0 <= i && i < len(e.Lint.Rules.Add) && strings.ToUpper(e.Lint.Rules.Add[i]) == p))))
  ensures implies(err == nil, forall(p, string, iff(contains(result0.Lint.ExcludeIDs, p), p != "" && exists(i, int, 0 <= i && i < len(e.Lint.Rules.Remove) && strings.ToUpper(e.Lint.Rules.Remove[i]) == p))))
  ensures implies(err == nil, forall(p, string, !(contains(result0.Lint.IncludeIDs, p) && contains(result0.Lint.ExcludeIDs, p))))
  ensures implies(err == nil, !(e.Lint.FileHeader.Path != "" && e.Lint.FileHeader.Content != ""))
  ensures implies(err == nil, implies(e.Lint.AllowSuppression, develMode))
