package protoc
props C19

extern (protoc.Downloader).WellKnownTypesIncludePath pure

// the directory of the files is covered by one of the first n includes
def covered(config settings.Config, dirPath string, configDirPath string, n int) bool = exists(i, int, 0 <= i && i < n && (old(config.Compile.IncludePaths[i]) == configDirPath || file.IsWithinDir(dirPath, old(config.Compile.IncludePaths[i]))))
def wktpath(d protoc.Downloader) string = tup(d.WellKnownTypesIncludePath(), 0)
def nwkt(config settings.Config) int = ite(config.Compile.IncludeWellKnownTypes, 1, 0)
def needcfg(d protoc.Downloader, config settings.Config, dirPath string, configDirPath string) bool = !covered(config, dirPath, configDirPath, len(config.Compile.IncludePaths)) && !(config.Compile.IncludeWellKnownTypes && file.IsWithinDir(dirPath, filepath.Clean(wktpath(d))))

func protoc.getIncludes
  loop 0 invariant len(includes) == rangeindex + 1
  loop 0 invariant forall(k, int, implies(0 <= k && k <= rangeindex, includes[k] == old(config.Compile.IncludePaths[k])))
  loop 0 invariant iff(fileInIncludePath, exists(i, int, 0 <= i && i <= rangeindex && file.IsWithinDir(dirPath, old(config.Compile.IncludePaths[i]))))
  loop 0 invariant iff(includedConfigDirPath, exists(i, int, 0 <= i && i <= rangeindex && old(config.Compile.IncludePaths[i]) == configDirPath))
  ensures implies(!config.Compile.IncludeWellKnownTypes, err == nil)
  ensures implies(config.Compile.IncludeWellKnownTypes, err == tup(downloader.WellKnownTypesIncludePath(), 1))
  ensures implies(err == nil, len(result0) == len(config.Compile.IncludePaths) + nwkt(config) + ite(needcfg(downloader, config, dirPath, configDirPath), 1, 0))
  ensures implies(err == nil, forall(k, int, implies(0 <= k && k < len(config.Compile.IncludePaths), result0[k] == old(config.Compile.IncludePaths[k]))))
  ensures implies(err == nil && config.Compile.IncludeWellKnownTypes, result0[len(config.Compile.IncludePaths)] == wktpath(downloader))
  ensures implies(err == nil && needcfg(downloader, config, dirPath, configDirPath), result0[len(config.Compile.IncludePaths) + nwkt(config)] == configDirPath)

// ---- plugin flags ----
def relfile(protoSet *file.ProtoSet, dirPath string, fileSuffix string) string = filepath.Join(rel(protoSet, dirPath), ite(rel(protoSet, dirPath) == "" || rel(protoSet, dirPath) == ".", ite(protoSet.Config.DirPath == "/", "default", filepath.Base(protoSet.Config.DirPath)), filepath.Base(rel(protoSet, dirPath))) + "." + fileSuffix)
def rel(protoSet *file.ProtoSet, dirPath string) string = tup(filepath.Rel(protoSet.Config.DirPath, dirPath), 0)

func protoc.getRelOutputFilePath
  pure
  nopanic
  requires protoSet != nil
  ensures iff(err == nil, tup(filepath.Rel(protoSet.Config.DirPath, dirPath), 1) == nil)
  ensures implies(err == nil, result0 == relfile(protoSet, dirPath, fileSuffix))

func protoc.getPluginFlagSetProtoFlags
  opaque
  inits settings
  loop 0 invariant forall(p, string, iff(has(modifiers, p), exists(d, string, i, int, visited(d) && d != dirPath && 0 <= i && i < len(protoSet.DirPathToFiles[d]) && relimport(protoSet, protoSet.DirPathToFiles[d][i]) == p)))
  loop 0 invariant forall(p, string, implies(has(modifiers, p), modifiers[p] == gopath(protoSet, genPlugin, p)))
  requires protoSet != nil
  ensures implies(!genPlugin.Type.IsGo() && !genPlugin.Type.IsGogo(), result0 == genPlugin.Flags && err == nil)
  ensures implies(genPlugin.Type.IsGo() || genPlugin.Type.IsGogo(), err == nil)
  ensures implies(genPlugin.Type.IsGo() || genPlugin.Type.IsGogo(), allcalls("strings.Join", a, sep, sep == "," && forall(s, string, iff(contains(a, s), goflag(protoSet, dirPath, genPlugin, s)))))
def relimport(protoSet *file.ProtoSet, f *file.ProtoFile) string = ite(tup(filepath.Rel(protoSet.Config.DirPath, f.Path), 1) == nil, tup(filepath.Rel(protoSet.Config.DirPath, f.Path), 0), f.Path)
def gopath(protoSet *file.ProtoSet, g settings.GenPlugin, path string) string = filepath.Clean(filepath.Join(protoSet.Config.Gen.GoPluginOptions.ImportPath, g.OutputPath.RelPath, filepath.Dir(path)))
def goflag(protoSet *file.ProtoSet, dirPath string, g settings.GenPlugin, s string) bool = (g.Flags != "" && s == g.Flags) || exists(d, string, i, int, has(protoSet.DirPathToFiles, d) && d != dirPath && 0 <= i && i < len(protoSet.DirPathToFiles[d]) && s == fmt.Sprintf("M%s=%s", relimport(protoSet, protoSet.DirPathToFiles[d][i]), gopath(protoSet, g, relimport(protoSet, protoSet.DirPathToFiles[d][i])))) || (protoSet.Config.Compile.IncludeWellKnownTypes && g.Type.IsGo() && exists(k, string, has(wkt.FilenameToGoModifierMap, k) && s == fmt.Sprintf("M%s=%s", k, wkt.FilenameToGoModifierMap[k]))) || (protoSet.Config.Compile.IncludeWellKnownTypes && g.Type.IsGogo() && exists(k, string, has(wkt.FilenameToGogoModifierMap, k) && s == fmt.Sprintf("M%s=%s", k, wkt.FilenameToGogoModifierMap[k]))) || exists(k, string, has(protoSet.Config.Gen.GoPluginOptions.ExtraModifiers, k) && s == fmt.Sprintf("M%s=%s", k, protoSet.Config.Gen.GoPluginOptions.ExtraModifiers[k]))

def pflags(protoSet *file.ProtoSet, dirPath string, genPlugin settings.GenPlugin) string = tup(getPluginFlagSetProtoFlags(protoSet, dirPath, genPlugin), 0)
def outpath(protoSet *file.ProtoSet, dirPath string, genPlugin settings.GenPlugin) string = ite(genPlugin.FileSuffix == "", genPlugin.OutputPath.AbsPath, filepath.Join(genPlugin.OutputPath.AbsPath, relfile(protoSet, dirPath, genPlugin.FileSuffix)))

func protoc.getPluginFlagSet
  requires protoSet != nil
  ensures implies(err == nil, len(result0) >= 1)
  ensures implies(err == nil && len(pflags(protoSet, dirPath, genPlugin)) == 0, result0[0] == fmt.Sprintf("--%s_out=%s", genPlugin.Name, outpath(protoSet, dirPath, genPlugin)))
  ensures implies(err == nil && len(pflags(protoSet, dirPath, genPlugin)) > 0, result0[0] == fmt.Sprintf("--%s_out=%s:%s", genPlugin.Name, pflags(protoSet, dirPath, genPlugin), outpath(protoSet, dirPath, genPlugin)))
  ensures implies(err == nil, len(result0) == 1 + nplug(genPlugin) + b2i(genPlugin.IncludeImports) + b2i(genPlugin.IncludeSourceInfo))
  ensures implies(err == nil && plugpath(genPlugin) != "", result0[1] == fmt.Sprintf("--plugin=protoc-gen-%s=%s", genPlugin.Name, plugpath(genPlugin)))
  ensures implies(err == nil && genPlugin.IncludeImports, result0[1 + nplug(genPlugin)] == "--include_imports")
  ensures implies(err == nil && genPlugin.IncludeSourceInfo, result0[1 + nplug(genPlugin) + b2i(genPlugin.IncludeImports)] == "--include_source_info")
def b2i(b bool) int = ite(b, 1, 0)
def plugpath(g settings.GenPlugin) string = ret(g.GetPath)
def nplug(g settings.GenPlugin) int = ite(plugpath(g) != "", 1, 0)

// ---- protoc output (C20) ----
extern (*regexp.Regexp).FindStringSubmatch pure
extern strconv.Atoi pure
extern (*zap.Logger).Warn nop
extern (*zap.Logger).Debug nop
extern zap.String pure

func protoc.getDisplayFilePath
  props C20
  trusted
  opaque
func protoc.bestFilePath
  props C20
  opaque
  ensures result == ite(tup(getDisplayFilePath(cmdMeta, match), 1) == nil, tup(getDisplayFilePath(cmdMeta, match), 0), match)

func (*protoc.compiler).handleUninterpretedProtocLine
  props C20
  pure
  ensures result != nil
  ensures result.Message == protocLine && result.Filename == "" && result.Line == 0 && result.Column == 0

def sub(re *regexp.Regexp, line string, i int) string = re.FindStringSubmatch(line)[i]
def hit(re *regexp.Regexp, line string, n int) bool = len(re.FindStringSubmatch(line)) > n
def plugin(line string) bool = hit(pluginFailedRegexp, line, 2) || hit(otherPluginFailureRegexp, line, 2) || hit(fullPluginFailedRegexp, line, 3)
def nparts(line string) int = len(strings.Split(line, ":"))
def part(line string, i int) string = strings.Split(line, ":")[i]
def unused(line string) bool = hit(extraImport3110Regexp, line, 4) || hit(extraImport380Regexp, line, 4) || hit(extraImportRegexp, line, 2)
def located(line string) bool = tup(strconv.Atoi(part(line, 1)), 1) == nil && tup(strconv.Atoi(part(line, 2)), 1) == nil && strings.TrimSpace(part(line, 3)) != ""

func (*protoc.compiler).parseProtocLine
  props C20
  opaque
  ensures implies(result == nil, !plugin(protocLine) && nparts(protocLine) != 4 && ((unused(protocLine) && cmdMeta.protoSet.Config.Compile.AllowUnusedImports) || hit(importNotFoundRegexp, protocLine, 2)))
  ensures implies(!plugin(protocLine) && nparts(protocLine) == 4 && located(protocLine), result.Message == strings.TrimSpace(part(protocLine, 3)) && result.Line == tup(strconv.Atoi(part(protocLine, 1)), 0) && result.Column == tup(strconv.Atoi(part(protocLine, 2)), 0) && result.Filename == bestFilePath(cmdMeta, part(protocLine, 0)))
  ensures implies(!plugin(protocLine) && nparts(protocLine) == 4 && !located(protocLine), result.Message == protocLine)
  ensures implies(hit(pluginFailedRegexp, protocLine, 2), result.Message == fmt.Sprintf("protoc-gen-%s failed with status code %s.", sub(pluginFailedRegexp, protocLine, 1), sub(pluginFailedRegexp, protocLine, 2)))
  ensures implies(!hit(pluginFailedRegexp, protocLine, 2) && hit(otherPluginFailureRegexp, protocLine, 2), result.Message == fmt.Sprintf("protoc-gen-%s: %s", sub(otherPluginFailureRegexp, protocLine, 1), sub(otherPluginFailureRegexp, protocLine, 2)))
  ensures implies(!hit(pluginFailedRegexp, protocLine, 2) && !hit(otherPluginFailureRegexp, protocLine, 2) && hit(fullPluginFailedRegexp, protocLine, 3), result.Message == fmt.Sprintf("protoc-gen-%s failed with status code %s: %s", sub(fullPluginFailedRegexp, protocLine, 2), sub(fullPluginFailedRegexp, protocLine, 3), sub(fullPluginFailedRegexp, protocLine, 1)))
  ensures implies(!plugin(protocLine) && nparts(protocLine) != 4 && !known(protocLine), result.Message == protocLine)
  ensures implies(!plugin(protocLine) && nparts(protocLine) != 4 && result != nil, result.Message == protocLine || saysso(protocLine, result.Message))
def known(line string) bool = hit(noSyntaxSpecifiedRegexp, line, 1) || unused(line) || hit(recursiveImport380Regexp, line, 4) || hit(recursiveImportRegexp, line, 2) || hit(directoryDoesNotExistRegexp, line, 1) || hit(fileNotFoundRegexp, line, 1) || hit(explicitDefaultValuesProto3Regexp, line, 1) || hit(importNotFoundRegexp, line, 2) || hit(jsonCamelCase380Regexp, line, 4) || hit(jsonCamelCaseRegexp, line, 2) || hit(isNotDefinedRegexp, line, 2) || hit(seemsToBeDefinedRegexp, line, 2) || hit(optionValueRegexp, line, 2) || hit(programNotFoundRegexp, line, 1) || hit(firstEnumValueZeroRegexp, line, 1)
def saysso(line string, m string) bool = hit(noSyntaxSpecifiedRegexp, line, 1) || (hit(extraImport3110Regexp, line, 4) && m == fmt.Sprintf("Import \"%s\" was not used.", sub(extraImport3110Regexp, line, 4))) || (hit(extraImport380Regexp, line, 4) && m == fmt.Sprintf("Import \"%s\" was not used.", sub(extraImport380Regexp, line, 4))) || (hit(extraImportRegexp, line, 2) && m == fmt.Sprintf("Import \"%s\" was not used.", sub(extraImportRegexp, line, 2)))
      || (hit(recursiveImport380Regexp, line, 4) && m == fmt.Sprintf("File recursively imports itself %s.", sub(recursiveImport380Regexp, line, 4))) || (hit(recursiveImportRegexp, line, 2) && m == fmt.Sprintf("File recursively imports itself %s.", sub(recursiveImportRegexp, line, 2)))
      || (hit(directoryDoesNotExistRegexp, line, 1) && m == fmt.Sprintf("Directory \"%s\" does not exist.", sub(directoryDoesNotExistRegexp, line, 1))) || (hit(fileNotFoundRegexp, line, 1) && m == fmt.Sprintf("Import \"%s\" was not found.", sub(fileNotFoundRegexp, line, 1)))
      || (hit(explicitDefaultValuesProto3Regexp, line, 1) && m == "Explicit default values are not allowed in proto3.") || (hit(jsonCamelCase380Regexp, line, 4) && m == sub(jsonCamelCase380Regexp, line, 4)) || (hit(jsonCamelCaseRegexp, line, 2) && m == sub(jsonCamelCaseRegexp, line, 2))
      || (hit(isNotDefinedRegexp, line, 2) && m == fmt.Sprintf("%s is not defined.", sub(isNotDefinedRegexp, line, 2))) || (hit(seemsToBeDefinedRegexp, line, 2) && m == sub(seemsToBeDefinedRegexp, line, 2)) || (hit(optionValueRegexp, line, 2) && m == fmt.Sprintf("Error while parsing option value for %s", sub(optionValueRegexp, line, 2)))
      || (hit(programNotFoundRegexp, line, 1) && m == fmt.Sprintf("protoc-gen-%s not found or is not executable.", sub(programNotFoundRegexp, line, 1))) || (hit(firstEnumValueZeroRegexp, line, 1) && m == "The first enum value must be zero in proto3.")

def lines(output string, i int) string = strings.TrimSpace(strings.Split(strings.TrimSpace(output), "\n")[i])
func (*protoc.compiler).parseProtocOutput
  props C20
  ensures forall(i, int, implies(0 <= i && i < len(strings.Split(strings.TrimSpace(output), "\n")) && lines(output, i) != "" && c.parseProtocLine(cmdMeta, lines(output, i)) != nil, contains(result, c.parseProtocLine(cmdMeta, lines(output, i)))))
  ensures forall(f, *text.Failure, implies(contains(result, f), exists(i, int, 0 <= i && i < len(strings.Split(strings.TrimSpace(output), "\n")) && lines(output, i) != "" && f == c.parseProtocLine(cmdMeta, lines(output, i)))))

// ---- which files (C18) ----
func (*protoc.compiler).getPluginFlagSets
  props C19
  requires c != nil && protoSet != nil
  loop 0 invariant len(pluginFlagSets) == rangeindex + 1
  ensures implies(!c.doGen, len(result0) == 0 && err == nil)
  ensures implies(err == nil && c.doGen, len(result0) == len(protoSet.Config.Gen.Plugins))
