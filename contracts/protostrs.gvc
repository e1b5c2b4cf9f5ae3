package protostrs
props C06

def lastpart(p string) string = strings.Split(p, ".")[len(strings.Split(p, "."))-1]
def number(s string, n uint64) bool = tup(strconv.ParseUint(s, 10, 64), 1) == nil && n == tup(strconv.ParseUint(s, 10, 64), 0) && n > 0
def stablev(p string, major uint64) bool =
      p != "" && len(strings.Split(p, ".")) >= 2 && len(lastpart(p)) >= 2 && lastpart(p)[0] == 'v' &&
      len(strings.Split(lastpart(p)[1:], "beta")) == 1 && number(lastpart(p)[1:], major)
def betav(p string, major uint64, beta uint64) bool =
      p != "" && len(strings.Split(p, ".")) >= 2 && len(lastpart(p)) >= 2 && lastpart(p)[0] == 'v' &&
      len(strings.Split(lastpart(p)[1:], "beta")) == 2 && strings.Split(lastpart(p)[1:], "beta")[0] != "" && strings.Split(lastpart(p)[1:], "beta")[1] != "" &&
      number(strings.Split(lastpart(p)[1:], "beta")[0], major) && number(strings.Split(lastpart(p)[1:], "beta")[1], beta)

func protostrs.MajorBetaVersion
  optional
  pure
  nopanic
  ensures implies(result2, stablev(packageName, result0) && result1 == 0 || betav(packageName, result0, result1))
  ensures implies(!result2, result0 == 0 && result1 == 0)
  ensures implies(exists(m, uint64, stablev(packageName, m)) || exists(m, uint64, b, uint64, betav(packageName, m, b)), result2)

// ---- derived file options (C07) ----
def isbetav(p string) bool = tup(protostrs.MajorBetaVersion(p), 2) && tup(protostrs.MajorBetaVersion(p), 0) != 0 && tup(protostrs.MajorBetaVersion(p), 1) != 0
def parts(p string) []string = strings.Split(p, ".")
func protostrs.CSharpNamespace
  props C07
  pure
  ensures implies(packageName == "", result == "")
  ensures implies(packageName != "" && !isbetav(packageName), result == strings.Title(packageName))
  ensures implies(packageName != "" && isbetav(packageName), result == strings.Title(strings.Join(parts(packageName)[:len(parts(packageName))-1], ".")) + ".V" +
      strconv.FormatUint(tup(protostrs.MajorBetaVersion(packageName), 0), 10) + "Beta" + strconv.FormatUint(tup(protostrs.MajorBetaVersion(packageName), 1), 10))
func protostrs.PHPNamespace
  props C07
  ensures result == strings.Replace(protostrs.CSharpNamespace(packageName), ".", `\\`, -1)
func protostrs.GoPackage
  props C07
  pure
  nopanic
  ensures result == ite(packageName == "", "", parts(packageName)[len(parts(packageName))-1] + "pb")
func protostrs.GoPackageV2
  props C07
  pure
  nopanic
  ensures implies(packageName == "", result == "")
  ensures implies(packageName != "" && !tup(protostrs.MajorBetaVersion(packageName), 2), result == protostrs.GoPackage(packageName))
  ensures implies(packageName != "" && tup(protostrs.MajorBetaVersion(packageName), 2),
      result == parts(packageName)[len(parts(packageName))-2] + parts(packageName)[len(parts(packageName))-1])
func strs.ToUpperCamelCase
  props C07
  trusted
  pure
def filebase(f string) string = filepath.Base(f)
func protostrs.JavaOuterClassname
  props C07
  ensures result == ite(filename == "", "", strs.ToUpperCamelCase(strings.TrimSuffix(filebase(filename), filepath.Ext(filebase(filename)))) + "Proto")
func protostrs.JavaPackage
  props C07
  ensures result == ite(packageName == "", "", "com." + packageName)
func protostrs.JavaPackagePrefixOverride
  props C07
  ensures result == ite(packageName == "", "", ite(prefixOverride == "", "com." + packageName, prefixOverride + "." + packageName))

// the first letters of the first n parts, capitalised
uf initials(p string, n int) string
axiom initials-zero: forall(p, string, initials(p, 0) == "")
axiom initials-step: forall(p, string, n, int, implies(0 <= n, initials(p, n+1) ==
      ite(parts(p)[n] == "", initials(p, n), initials(p, n) + strings.ToUpper(parts(p)[n][0:1]))))
def kept(p string) int = len(parts(p)) - ite(tup(protostrs.MajorBetaVersion(p), 2), 1, 0)
func protostrs.OBJCClassPrefix
  props C07
  pure
  nopanic
  loop 0 invariant s == initials(packageName, rangeindex+1)
  ensures implies(packageName == "", result == "")
  ensures implies(packageName != "" && len(initials(packageName, kept(packageName))) == 0, result == "")
  ensures implies(packageName != "" && len(initials(packageName, kept(packageName))) == 1, result == initials(packageName, kept(packageName)) + "XX")
  ensures implies(packageName != "" && len(initials(packageName, kept(packageName))) == 2, result == initials(packageName, kept(packageName)) + "X")
  ensures implies(packageName != "" && initials(packageName, kept(packageName)) == "GPB", result == "GPX")
  ensures implies(packageName != "" && len(initials(packageName, kept(packageName))) > 2 && initials(packageName, kept(packageName)) != "GPB", result == initials(packageName, kept(packageName)))
