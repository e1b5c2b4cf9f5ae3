package github.com/uber/prototool/internal/lint

// ---- which rules run (C15) ----
props C15
extern (lint.Linter).ID pure

func lint.checkLintID
  props C15 C14
  pure
  nopanic
  ensures iff(err == nil, has(allLintIDs, lintID))

def ingroup(ls []lint.Linter, id string) bool = exists(i, int, 0 <= i && i < len(ls) && ls[i].ID() == id)
def inbase(c settings.LintConfig, id string) bool = (contains(c.IncludeIDs, id) && ingroup(AllLinters, id)) || basegroup(c, id)
def basegroup(c settings.LintConfig, id string) bool = (c.Group != "" && ingroup(GroupToLinters[c.Group], id)) || (c.Group == "" && !c.NoDefault && ingroup(DefaultLinters, id))

func lint.GetLinters
  props C15 C14
  loop 3 invariant forall(k, string, implies(has(linterMap, k), linterMap[k].ID() == k))
  loop 4 invariant forall(k, string, implies(has(linterMap, k), linterMap[k].ID() == k))
  loop 4 invariant forall(k, string, iff(has(linterMap, k), basegroup(config, k) || (contains(config.IncludeIDs, k) && exists(j, int, 0 <= j && j <= rangeindex && AllLinters[j].ID() == k))))
  loop 7 invariant forall(k, string, implies(has(linterMap, k), linterMap[k].ID() == k))
  loop 5 invariant forall(k, string, implies(has(linterMap, k), linterMap[k].ID() == k))
  loop 6 invariant forall(k, string, implies(has(linterMap, k), linterMap[k].ID() == k))
  ensures implies(config.Group != "" && !has(GroupToLinters, config.Group), err != nil)
  ensures implies(exists(i, int, 0 <= i && i < len(config.IncludeIDs) && !has(allLintIDs, config.IncludeIDs[i])), err != nil)
  ensures implies(exists(i, int, 0 <= i && i < len(config.ExcludeIDs) && !has(allLintIDs, config.ExcludeIDs[i])), err != nil)
  ensures implies(exists(k, string, has(config.IgnoreIDToFilePaths, k) && !has(allLintIDs, k)), err != nil)
  ensures implies(err != nil, (config.Group != "" && !has(GroupToLinters, config.Group)) || exists(i, int, 0 <= i && i < len(config.IncludeIDs) && !has(allLintIDs, config.IncludeIDs[i])) || exists(i, int, 0 <= i && i < len(config.ExcludeIDs) && !has(allLintIDs, config.ExcludeIDs[i])) || exists(k, string, has(config.IgnoreIDToFilePaths, k) && !has(allLintIDs, k)))
  ensures implies(err == nil && len(config.IncludeIDs) == 0 && len(config.ExcludeIDs) == 0 && config.Group != "", result0 == GroupToLinters[config.Group])
  ensures implies(err == nil && len(config.IncludeIDs) == 0 && len(config.ExcludeIDs) == 0 && config.Group == "" && !config.NoDefault, result0 == DefaultLinters)
  ensures implies(err == nil && len(config.IncludeIDs) == 0 && len(config.ExcludeIDs) == 0 && config.Group == "" && config.NoDefault, len(result0) == 0)
  ensures implies(err == nil && (len(config.IncludeIDs) > 0 || len(config.ExcludeIDs) > 0), forall(id, string, iff(exists(i, int, 0 <= i && i < len(result0) && result0[i].ID() == id), inbase(config, id) && !contains(config.ExcludeIDs, id))))
  ensures implies(err == nil && (len(config.IncludeIDs) > 0 || len(config.ExcludeIDs) > 0), forall(i, int, j, int, implies(0 <= i && i < j && j < len(result0), result0[i].ID() != result0[j].ID())))

// ---- ignores and suppressions (C16) ----
func (*lint.baseLinter).allowSuppression
  props C16
  pure
  nopanic
  requires c != nil
  ensures iff(result, c.suppressableAnnotation != "" && protoSet != nil && protoSet.Config.Lint.AllowSuppression)

extern strings.Contains pure
func (*lint.baseLinter).isSuppressed
  props C16
  nopanic
  requires c != nil
  ensures iff(result, c.suppressableAnnotation != "" && protoSet != nil && protoSet.Config.Lint.AllowSuppression && comment != nil && exists(i, int, 0 <= i && i < len(comment.Lines) && strings.Contains(comment.Lines[i], "@suppresswarnings " + c.suppressableAnnotation)))

func (*lint.baseLinter).ID
  props C16 C15
  nopanic
  requires c != nil
  ensures result == c.id

func lint.newBaseSuppressableLinter
  props C16 C15
  nopanic
  ensures isfresh(result) && result.id == strings.ToUpper(id) && result.suppressableAnnotation == suppressableAnnotation && result.purpose == purpose

func lint.newBaseLinter
  props C16 C15
  nopanic
  ensures isfresh(result) && result.id == strings.ToUpper(id) && result.suppressableAnnotation == "" && result.purpose == purpose

func (*lint.baseLinter).Check$1
  props C16
  requires failures != nil && c != nil && *c != nil && failure != nil
  modifies *
  ensures implies(suppressed(*c, protoSet, comment), *failures == old(*failures))
  ensures implies(!suppressed(*c, protoSet, comment), len(*failures) == old(len(*failures)) + 1 && (*failures)[len(*failures) - 1] == failure)
  ensures implies(!suppressed(*c, protoSet, comment), forall(i, int, implies(0 <= i && i < old(len(*failures)), (*failures)[i] == old((*failures)[i]))))
def suppressed(c *lint.baseLinter, protoSet *file.ProtoSet, comment *proto.Comment) bool = c.suppressableAnnotation != "" && protoSet != nil && protoSet.Config.Lint.AllowSuppression && comment != nil && exists(i, int, 0 <= i && i < len(comment.Lines) && strings.Contains(comment.Lines[i], "@suppresswarnings " + c.suppressableAnnotation))

def absname(d *lint.FileDescriptor) string = ite(filepath.IsAbs(d.Proto.Filename), d.Proto.Filename, tup(filepath.Abs(d.Proto.Filename), 0))
def ignored(l lint.Linter, d *lint.FileDescriptor, m map[string][]string) bool = has(m, l.ID()) && exists(i, int, 0 <= i && i < len(m[l.ID()]) && under(absname(d), d.ProtoSet.Config.DirPath, m[l.ID()][i]))

func lint.shouldIgnore
  props C16 C12
  opaque
  ensures iff(err == nil, filepath.IsAbs(descriptor.Proto.Filename) || tup(filepath.Abs(descriptor.Proto.Filename), 1) == nil)
  ensures implies(err == nil, iff(result0, ignored(linter, descriptor, ignoreIDToFilePaths)))

func lint.filterIgnores
  props C16 C12
  ensures implies(err == nil, forall(d, *lint.FileDescriptor, iff(contains(result0, d), contains(descriptors, d) && !tup(shouldIgnore(linter, d, ignoreIDToFilePaths), 0))))
