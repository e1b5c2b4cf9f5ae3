#!/usr/bin/env python3
# Writes /verif/properties.jsonl (the committed list of properties).
import json,sys,os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=state
    if observe: a["observe_at"]=observe
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","The break checker reports exactly the documented breaking changes",
 "For any two sets of Protobuf packages, the break checker reports a failure for every deleted package, message, enum, service, field, enum value, oneof or method, and for every change of a field's name, label, type or oneof, of an enum value's name, or of a method's request type, response type or streaming mode, at every nesting depth. It reports nothing for an element that is present on both sides and unchanged in the checked attribute, nor for an element that was only added.",
 ["inputs"],"all pairs of package sets, of any size and nesting depth",
 "The stable tests never run the break checker at all, and no sample of schema pairs covers every kind of element at every nesting depth with every attribute change.",
 ["internal/breaking/helpers.go","internal/breaking/check_*.go","internal/breaking/strings.go","internal/breaking/breaking.go"],
 [("pair enumeration by name and number, recursive over nested messages","internal/breaking/helpers.go"),("one check function per documented rule","internal/breaking/check_*.go"),("label and type numbers mapped to names","internal/breaking/strings.go")],
 observe="failures returned by the break-check runner")
p("C02","Self-comparison and purely additive changes are never breaking",
 "Comparing a set of packages with itself reports no failure and no error, whatever the configuration, when no checked package depends on a beta package it may not use. Adding packages, messages, enums, services, fields, enum values, oneofs or methods while leaving everything existing unchanged also reports no failure.",
 ["inputs","configurations"],"all package sets, all additive extensions of them, both settings of each break-check option",
 "It relates two runs over arbitrary schemas; a test only fixes a few schema pairs.",
 ["internal/breaking/check_*.go","internal/breaking/runner.go"],
 [("all checks composed over the same two sets","internal/breaking/runner.go:Run")],observe="failures returned by the break-check runner")
p("C03","Beta packages are ignored or checked exactly as configured",
 "Unless beta checking is included, packages whose name ends in a beta version are left out on both sides of a break check and from every dependency list, and unless beta dependencies are allowed or beta checking is included, a failure is reported for exactly the non-beta packages that depend on a beta package. With beta checking included every package is compared. Every failure carries the id of the rule that found it.",
 ["inputs","configurations"],"all package sets and all four combinations of the two beta options",
 "Break checking has no stable test; the interaction of filtering, options and dependencies is combinatorial.",
 ["internal/breaking/runner.go","internal/breaking/check_packages_no_beta_deps.go","internal/extract/extract.go"],
 [("option gating and id stamping","internal/breaking/runner.go"),("filtering of beta packages and their edges","internal/extract/extract.go:newPackageSet")],observe="failures returned by the break-check runner")
p("C04","Extraction preserves every schema element exactly once, correctly keyed",
 "The linked view built from a package set contains exactly the packages, messages, nested messages, enums, fields, oneofs, enum values, services and methods of the input, each reachable under its own name and, for fields and enum values, under its own number (one of them, for enum values that share a number), with its fully qualified name being its path from the package. A field is linked to a oneof exactly when the input says so, and package A is listed as an importer of B exactly when B is listed as a dependency of A.",
 ["inputs"],"all package sets, of any size and nesting depth",
 "The only test asks for one pre-existing package set; dropped or mis-keyed elements in deeper nesting go unnoticed.",
 ["internal/extract/extract.go"],
 [("maps built from the serialised package set","internal/extract/extract.go:newPackageSet"),("field/oneof linking","internal/extract/extract.go:linkMessageFieldsOneofs")],observe="maps of the extracted package set")
p("C05","Reflection of descriptors loses nothing and does not depend on file order",
 "For any descriptor sets that it accepts, the reflected package set has one package per distinct Protobuf package name, containing every enum, message and service that any file of the package declares, and depends on exactly the other packages whose files its files import. The result is sorted and is the same whatever the order of files and sets or the repetition of equal files; a file without a package, or two different files with the same name, is an error and never a partial result.",
 ["inputs"],"all lists of file descriptor sets, in every order",
 "Permutation invariance and completeness quantify over all descriptor sets; tests fix a handful and stable tests cover none.",
 ["internal/reflect/reflect.go"],
 [("grouping of files by package and merging","internal/reflect/reflect.go:NewPackageSet"),("dependency resolution","internal/reflect/reflect.go")],observe="reflected package set")
p("C06","Package versions are recognised exactly by the vN / vNbetaM grammar",
 "A package name counts as versioned exactly when it has at least two dot-separated components and the last one is v followed by a positive decimal number, or v, a positive number, beta and a positive number; the reported major and beta numbers are those numbers. Every other name counts as unversioned.",
 ["inputs"],"all strings",
 "The set of names is infinite and the tests list a few dozen.",
 ["internal/protostrs/protostrs.go"],[("version parser","internal/protostrs/protostrs.go:MajorBetaVersion")],observe="result of the version parser")
p("C07","File options derived from a package are the documented functions of it",
 "The go_package, java_package, java_outer_classname, csharp_namespace, objc_class_prefix and php_namespace values that creation, format fixing and linting use are the documented functions of the package name and file name alone, for every package name and file name. The same value is written by creation and by format fixing and accepted by the corresponding lint rule.",
 ["inputs"],"all package names and file names",
 "Tests sample a few names; agreement between three independent consumers for every name is never tested.",
 ["internal/protostrs/protostrs.go","internal/create/handler.go","internal/exec/runner.go","internal/format/first_pass_visitor.go","internal/lint/check_file_options_equal.go"],
 [("derivation functions","internal/protostrs/protostrs.go"),("consumers","internal/lint/check_file_options_equal.go, internal/format/first_pass_visitor.go, internal/create/handler.go")],observe="derived strings; written option values; lint failures")
p("C08","Naming predicates and case conversions follow the documented definitions",
 "A name is accepted as camel case, lower or upper snake case, capitalised, lowercase or uppercase exactly when each of its characters and its first and last character satisfy the documented definition. A conversion of an identifier made of letters, digits and inner underscores yields a name accepted by the predicate of the target case and keeps its letters and digits in order.",
 ["inputs"],"all strings, including non-ASCII and empty ones",
 "The tests list example strings; the claim is for every string.",
 ["internal/strs/strs.go"],[("predicates over characters","internal/strs/strs.go")],observe="results of the string helpers")
p("C09","Sorted unique lists are exactly the set of their inputs",
 "Helpers that deduplicate, sort, intersect or list the keys of a set return a strictly increasing list that contains exactly the elements of the specified set, without the empty string where documented, and do not change their input.",
 ["inputs"],"all string lists and sets",
 "Membership and ordering for every input, including duplicates and empties, cannot be sampled.",
 ["internal/strs/strs.go"],[("set helpers","internal/strs/strs.go")],observe="returned slices")
p("C10","Failures are reported in one total, deterministic order",
 "Sorting failures orders them by file, then line, then column, then rule id, then message, for every list of failures, and the sorted list contains exactly the failures given. The comparison is a strict weak order, so the order of reporting never depends on the order in which failures were found.",
 ["inputs","schedules"],"all lists of failures in all orders of discovery",
 "A comparison that is wrong for one combination of ties breaks only rarely and only for some orders.",
 ["internal/text/text.go"],[("comparison and stable sort","internal/text/text.go:sortFailures")],observe="order of reported failures")
p("C11","Failures are printed with exactly the requested fields, unambiguously",
 "A failure prints as one line with the requested fields in the requested order separated by colons, an unknown file, line or column printing as its documented default. A field specification is accepted exactly when every colon-separated name in it is a known field, in any letter case, and the empty specification means file, line, column and message.",
 ["inputs"],"all failures and all field lists",
 "Combinatorial in fields, defaults and orders.",
 ["internal/text/text.go"],[("field printing","internal/text/text.go:Fprintln"),("field parsing","internal/text/text.go:ParseColonSeparatedFailureFields")],observe="printed lines")
p("C12","Excludes and ignores apply to a path and everything under it, and nothing else",
 "A file is excluded exactly when an exclude path is the file itself or one of its parent directories within the configuration directory, compared component by component. A path that merely shares a name prefix with an exclude is never excluded.",
 ["inputs"],"all absolute file paths, configuration directories and exclude lists",
 "Tests use a few paths; sibling-prefix and depth cases are unbounded.",
 ["internal/file/file.go","internal/settings/config_provider.go"],[("walk up the parents","internal/file/file.go:IsExcluded"),("exclude prefix computation","internal/settings/config_provider.go:getExcludePrefixes")],observe="set of processed files; suppressed failures")
p("C13","The nearest configuration file governs a directory, and ambiguity is an error",
 "The configuration for a directory is the one in the nearest ancestor, itself included, that holds a configuration file, and the default configuration when none does. Two configuration files in that nearest directory are an error, as is a relative starting directory.",
 ["inputs","configurations"],"all directory trees and starting directories",
 "Depth of the tree and placement of files are unbounded.",
 ["internal/settings/config_provider.go"],[("upward search","internal/settings/config_provider.go:getFilePathForDir")],observe="path of the configuration used")
p("C14","Configuration is either rejected or fully normalised",
 "A configuration that is accepted has absolute cleaned include and exclude paths, upper-case rule ids, plugins with a valid name, type and output sorted by name, and no rule id both added and removed; everything the user wrote is carried over unchanged otherwise. Contradictory or malformed settings (both file-header sources, an unknown plugin type or flags, absolute or empty create packages or paths, suppression outside development mode, unknown lint groups or ids) are errors and never silently dropped.",
 ["configurations"],"all configuration files",
 "The space of configurations is combinatorial and stable tests barely touch validation.",
 ["internal/settings/config_provider.go","internal/settings/settings.go"],[("translation and validation","internal/settings/config_provider.go:externalConfigToConfig")],observe="resolved configuration or error")
p("C15","Exactly the configured lint rules run",
 "The rules run for a configuration are the rules of the configured group, or of the default group when none is configured, or none for the empty group or when no defaults are requested, plus every added id, minus every removed id, each once. An unknown group or id is an error.",
 ["configurations"],"all groups, additions and removals over all rule ids",
 "There are more subsets of the rule ids than can be sampled.",
 ["internal/lint/lint.go"],[("rule selection","internal/lint/lint.go:GetLinters")],observe="ids of the rules that run")
p("C16","Lint ignores and suppressions silence exactly what they name",
 "A failure is dropped only if the configuration ignores its rule for its file or a parent directory of it, or if suppression is allowed, the rule can be suppressed and the comment of the offending element names the rule's annotation. Every other failure that a rule finds is reported, with the id of the rule that found it and the name of the file it is in.",
 ["inputs","configurations"],"all files, rules, ignore maps and comments",
 "Each of about a hundred rules meets every ignore and suppression combination.",
 ["internal/lint/lint.go","internal/lint/base_linter.go","internal/lint/base_visitor.go"],[("ignore filter","internal/lint/lint.go:filterIgnores"),("suppression","internal/lint/base_visitor.go:isSuppressed"),("id stamping","internal/lint/base_linter.go:Check")],observe="reported lint failures")
p("C17","Each lint rule flags exactly the elements that violate it, at any nesting",
 "For every parseable file, a naming, comment, option, import, streaming or field-type rule reports one failure at the position of each element that violates its documented condition, and none elsewhere. Elements nested in messages, oneofs, groups and enums at any depth are checked like top-level ones.",
 ["inputs"],"all Protobuf files and all selected rules",
 "Golden tests have one or two files per rule with shallow nesting.",
 ["internal/lint/check_*.go"],[("one visitor per rule","internal/lint/check_*.go")],observe="reported lint failures")
p("C18","A command touches exactly the files it was pointed at",
 "A command given a file processes that file, and a command given a directory processes exactly the Protobuf files at or under it that are not excluded by the configuration governing them, each once and grouped under that configuration. Files in sibling directories whose names merely start with the given directory's name are never linted, formatted, listed, compiled for failures or generated.",
 ["inputs","configurations"],"all directory trees, configurations and arguments",
 "Tree shapes and exclude placements are unbounded.",
 ["internal/file/proto_set_provider.go","internal/lint/lint.go","internal/protoc/compiler.go","internal/exec/runner.go"],[("file collection","internal/file/proto_set_provider.go"),("restriction to the requested directory","internal/lint/lint.go:GetDirPathToDescriptors, internal/protoc/compiler.go:getCmdMetas, internal/exec/runner.go:Files")],observe="files listed, linted, formatted or passed to protoc")
p("C19","Generation passes protoc exactly the configured includes and plugin flags",
 "For every plugin of the configuration protoc gets one output flag with the configured output path and flags, and for Go plugins the configured import path and one mapping for every file of the set outside the directory being generated, from its include-relative path to its import path, explicitly configured mappings being kept. The include paths are exactly the configured includes and the well-known types and, when neither covers the directory being processed, the configuration directory.",
 ["configurations","inputs"],"all plugin configurations and file sets",
 "Golden generate tests use one or two plugin configurations.",
 ["internal/protoc/compiler.go"],[("plugin flags","internal/protoc/compiler.go:getPluginFlagSet"),("import mappings","internal/protoc/compiler.go:getPluginFlagSetProtoFlags"),("includes","internal/protoc/compiler.go:getIncludes")],observe="protoc command lines (dry run)")
p("C20","No protoc message is lost",
 "Every non-empty line that protoc prints becomes a reported failure carrying the text of the message, or an error that quotes the line, unless it is an unused-import warning that the configuration allows or a redundant consequence of an import that could not be found. A protoc run that fails or is interrupted never ends in success. A command given a single file prints the failures of that file and those that name no file.",
 ["inputs","fault_sequences"],"all outputs and exit states of protoc",
 "protoc's output is an open set of lines; tests have a few recorded ones.",
 ["internal/protoc/compiler.go","internal/protoc/protoc.go"],[("line classification","internal/protoc/compiler.go:parseProtocLine"),("run result handling","internal/protoc/compiler.go:runCmdMeta")],observe="reported failures and exit status of compile")
p("C21","Merging or sorting descriptor sets loses and duplicates no file, or fails",
 "Merging descriptor sets yields every file of every input exactly once, sorted by name, whatever the order of the sets, and fails exactly when a set or file is nil, a file has no name, or two files of one name differ in content. Sorting a set for one file yields every file of the set exactly once, the others in their given order and the requested file last, and fails exactly when a file has no name, two files share one, or the requested file is not in the set. Neither changes its input.",
 ["inputs"],"all lists of descriptor sets",
 "Graph shapes and conflicts are unbounded, and the code has no unit test.",
 ["internal/desc/desc.go"],[("merge","internal/desc/desc.go:MergeFileDescriptorSets"),("sort","internal/desc/desc.go:SortFileDescriptorSet")],observe="merged descriptor set")
p("C22","protoc is fetched only as configured and only into its cache",
 "Conflicting or incomplete locations for protoc and its includes are rejected, a pre-installed protoc is used as given without any download, and otherwise the release for the configured version, operating system and architecture is requested, from the configured location when there is one. Unpacking never writes outside the directory of that version in the cache.",
 ["configurations","inputs"],"all option combinations, versions, platforms and archive contents",
 "Option combinations and hostile or damaged archives are not exercised offline.",
 ["internal/protoc/downloader.go"],[("option validation","internal/protoc/downloader.go:newDownloader"),("URL and cache path","internal/protoc/downloader.go:getProtocURL"),("unpacking","internal/protoc/downloader.go:downloadInternal")],observe="requested URL; files written")
p("C23","Creating files never overwrites and gives each file the right package",
 "Creating files writes nothing at all if any target already exists with content or has no existing directory. Otherwise each file gets the package given, or the package derived from the most specific configured directory at or above it joined with the remaining path, or from its path relative to the configuration.",
 ["inputs","configurations"],"all lists of target paths and package mappings",
 "Overlapping mappings and partially invalid target lists are combinatorial.",
 ["internal/create/handler.go"],[("checks before writes","internal/create/handler.go:Create"),("package derivation","internal/create/handler.go:getPkg")],observe="files written and their package lines")
p("C24","Formatting modes write and exit exactly as documented",
 "Formatting writes a file only in overwrite mode and only when its content would change, prints the formatted file or a diff only in the modes that ask for it, and ends in a non-zero status in diff and lint mode exactly when some file is not formatted. Mutually exclusive modes are rejected before any file is touched, and a file that does not parse is never rewritten.",
 ["inputs","configurations"],"all files, all mode flag combinations",
 "Golden tests compare outputs but not the write and exit discipline over all combinations.",
 ["internal/exec/runner.go"],[("per-file mode handling","internal/exec/runner.go:formatFile"),("flag checks","internal/exec/runner.go:Format")],observe="file writes, output, exit status")
p("C25","Formatting loses no declaration and is idempotent",
 "Formatting a parseable file yields a file that parses to the same declarations, imports, package, syntax, options and comments up to the documented reordering and fixes, ends in exactly one newline, and is unchanged by formatting it again.",
 ["inputs"],"all parseable Protobuf files",
 "Golden files cover a fixed set of syntax; the claim is for every file.",
 ["internal/format/transformer.go","internal/format/first_pass_visitor.go","internal/format/main_visitor.go","internal/format/base_visitor.go"],[("header pass","internal/format/first_pass_visitor.go"),("body pass","internal/format/main_visitor.go"),("printing","internal/buf/buf.go")],observe="formatted bytes")
p("C26","Invalid flag combinations are rejected before anything happens",
 "Each command rejects the flag combinations that its documentation rules out, and runs otherwise; a gRPC invocation needs an address and a method, exactly one data source, and TLS details only with TLS, and its timeouts must parse. Network addresses other than tcp and unix are rejected.",
 ["configurations"],"all combinations of command-line flags",
 "There are thousands of flag combinations; tests try a few.",
 ["internal/exec/runner.go","internal/grpc/handler.go"],[("flag checks","internal/exec/runner.go:GRPC, Lint, Format, All, DescriptorSet, BreakCheck"),("address parsing","internal/grpc/handler.go:getNetworkAddress")],observe="exit status and error message")
p("C27","gRPC invocations and inspections resolve to the one matching definition",
 "A gRPC method resolves to the single service of that fully qualified name in the first descriptor set that has it, and an unknown, malformed or duplicate name is an error and never a call to another service; files without a package are refused. Listing packages, dependencies and importers shows exactly what the reflected schema says, sorted, and an unknown package is an error.",
 ["inputs"],"all descriptor sets and all method and package names",
 "Name prefixes and duplicates across sets are unbounded.",
 ["internal/grpc/handler.go","internal/exec/runner.go"],[("service lookup","internal/grpc/handler.go:getServiceInfo"),("inspection","internal/exec/runner.go:InspectPackages")],observe="service invoked; printed package lists")
p("C28","Parallel compilation has order-independent results and leaves no temporary files",
 "The failures and errors of a compilation, generation or download do not depend on the order in which its parallel protoc runs finish, and when a command has ended, whether it succeeded or failed, no temporary file or clone of it remains.",
 ["schedules","inputs"],"all orders of protoc runs and all results of them",
 "Tests run one schedule and do not look at what is left behind.",
 ["internal/protoc/compiler.go","internal/protoc/downloader.go","internal/git/git.go","internal/file/proto_set_provider.go"],[("worker pool and joining","internal/protoc/compiler.go:Compile"),("file lock on the cache","internal/protoc/downloader.go"),("temporary clones","internal/git/git.go")],observe="failures, exit status, leftover temporary files")
p("C29","An interrupted or concurrent download never leaves a cache that is later used",
 "Whatever the point at which a prototool process is killed while it downloads protoc, and however two processes downloading the same version interleave, a later run uses a cached protoc only if it was unpacked completely.",
 ["crash_points","schedules"],"all interruption points and interleavings of processes",
 "Tests never interrupt a download.",
 ["internal/protoc/downloader.go"],[("check of the cache","internal/protoc/downloader.go:checkDownloaded"),("file lock","internal/protoc/downloader.go:Download")],observe="the cache directory after a kill")
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
