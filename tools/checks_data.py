CHECKS = {
 'C08': {'note': 'Proved for every string: the seven naming predicates of internal/strs. Bounded: the case conversions and word splitting (string building loops are outside the verifier\'s reach) are compared with an independent reference on all words up to a length.'},
 'C09': {'note': 'Proved for all inputs: MapToSortedSlice, SortUniq, SortUniqModify and Intersection return a strictly increasing list that holds exactly the specified set and write to no memory of the caller.'},
 'C10': {'note': 'Proved for every list of failures: the comparator is the documented lexicographic order, is a strict weak order, and after SortFailures no later element is smaller and the elements are the ones given. Trusted: sort.Sort sorts when its Less is a strict weak order.'},
 'C11': {'note': 'Proved for every failure and every field list: exactly what Fprintln writes (ghost output), and which field specifications parse to what. Trusted: strings.Split/ToLower, strconv.Itoa, fmt.Sprintf.'},
}

CHECKS.update({
 'C01': {'note': 'Proved for all package sets: each of the 18 checkers emits exactly the failures of its documented rule, for every pair the enumeration visits, including nested messages through the recursive callee contract. Bounded: the pair enumeration plus runner end to end against an independent oracle on generated package-set pairs.'},
 'C02': {'note': 'Corollary of the C01 contracts (equal attributes and no deletion give an empty emission set), discharged per checker; bounded: self-comparison and additive extension of generated package sets through the runner.'},
 'C03': {'note': 'Proved: the dependency rule reports exactly the non-beta packages with beta dependencies, the beta filter is exactly the version grammar and options, the runner stamps the rule id. Bounded: all four option combinations end to end.'},
 'C04': {'note': 'Proved: names, enum, service and message extraction (nested messages and enums, fields by name and number, oneofs and the links of their fields, fully qualified names) and the beta filter. Bounded (not proved): the loops that collect the elements of a package set and its dependency links, compared with an independent oracle on generated sets.'},
 'C06': {'note': 'Proved for every string: the parser accepts exactly the vN / vNbetaM grammar and returns the numbers. Trusted: strings.Split/Index and strconv.ParseUint contracts.'},
 'C07': {'note': 'Proved for every package and file name: each derivation is its documented function (versions below 2^63). Bounded: agreement of create, format --fix and lint on generated names. Trusted: strings/filepath contracts, ToUpperCamelCase (bounded under C08).'},
})

CHECKS.update({
 'C12': {'note': 'Proved for all paths: IsExcluded is exactly "an exclude is the file or one of its parents below the configuration directory", the exclude list is exactly the normalised one and every entry is strictly inside. Bounded: discovery and lint ignores end to end. Trusted: filepath contracts.'},
 'C13': {'note': 'Proved for all directories: the lookup returns the file of the nearest ancestor holding one, an error when that directory has two, and none otherwise. Trusted: os.Stat as a function of the path during one lookup, filepath contracts. Bounded: lookups in real directory chains.'},
 'C14': {'note': 'Proved for all configurations: what an accepted configuration holds (paths, ids, flags, group, options) as a function of what was written, exclusiveness of the header sources, disjointness of added and removed ids, plugin type parsing. Bounded: plugins, create packages, ignores and header text against an independent oracle on random configurations.'},
})
CHECKS.update({
 'C15': {'note': 'Proved for all configurations: GetLinters returns exactly the group (or default) rules plus the added minus the removed ids, without duplicates, and fails exactly on unknown groups and ids; the rule tables are evaluated from their initialisers. Bounded: membership of the rule groups (frozen list), the command line listings and the rules that actually run. Trusted: strings.ToUpper.'},
 'C16': {'note': 'Proved: the ignore filter keeps exactly the files whose path is not under an ignored path of the rule, suppression holds exactly when allowed, suppressable and annotated, the collector drops exactly suppressed failures and keeps the others in order. Bounded: random ignore maps and annotations end to end (ids, file names and positions of all remaining failures).'},
})
CHECKS.update({
 'C18': {'note': 'Proved for all paths: containment in the requested directory is by whole path components, excludes likewise, paths are made absolute and clean. Bounded (directory walk, maps of files and command loops are outside the verifier\'s reach): every command on random trees with name-prefix siblings, excludes and argument spellings, against an independent oracle.'},
 'C19': {'note': 'Proved for all configurations and file sets: the exact include list, the exact set of go parameters, the exact flag list of every plugin, one flag list per plugin, the output file of a suffix plugin. Bounded: whole command lines (dry run and recorded runs) against an independent oracle. Trusted: filepath, fmt.Sprintf and strings.Join contracts, exec.LookPath.'},
 'C20': {'note': 'Proved for every output: each non-empty line is parsed, and parsing yields a failure for every line except allowed unused imports and the redundant import message; the failures are exactly those; messages that fit no form are kept verbatim. Bounded: process outcomes (exit states, signals, goroutines) and printing, with a recording protoc. Trusted: regexp matching as a function of pattern and line.'},
})
CHECKS.update({
 'C21': {'note': 'Proved for all inputs (nil and malformed ones included, up to the nil arguments the code dereferences): merging keeps every file once, strictly sorted by name, adds none, and fails only for a reason; sorting keeps every file once in order with the requested one last and fails exactly as stated. Trusted: proto.Marshal and sha256 as a function of the message (equal sums mean equal content), sort.Slice. Bounded: real descriptor contents, inputs unchanged.'},
})
CHECKS.update({
 'C05': {'note': 'Proved for all descriptors: every enum, service, method and message (nested ones through the callee contract) becomes exactly the reflected element of its declaration, sorted, with type names stripped; one package per package name; the package list is complete and sorted; a file in two packages is an error. Bounded (not proved): the grouping of files, the concatenation per package, the dependencies and the oneof field numbers, compared with a walk of the descriptors for random sets in random orders with repetitions.'},
})
CHECKS.update({
 'C23': {'note': 'Proved for all configurations and paths: the package of a new file (given, longest configured directory joined with the rest, relative path, default), the configuration consulted, when a target is accepted, that nothing is written when any target is refused and that only targets are written. Trusted: os.Stat and reads as functions of the path during one command, filepath contracts, template execution. Bounded: the written text and exit status on real directory trees.'},
})
CHECKS.update({
 'C24': {'note': 'Proved for every flag combination and file: exclusive modes are refused before anything is called, a file is written exactly in overwrite mode when its formatted content differs, what is printed in each mode, when the status is non-zero, which files are formatted and that every one of them is. Trusted: the transformer, file reads and printing as functions of their arguments. Bounded: real trees with all mode combinations, file times and exit status.'},
 'C26': {'note': 'Proved for every flag combination of lint, format, grpc, descriptor-set, break and inspect: exactly which are refused, and that nothing is called when they are; network addresses for every string. Trusted: time.ParseDuration, strings.SplitN. Bounded: the same matrix through the command line with a recording protoc.'},
 'C27': {'note': 'Proved for all descriptor sets and names: the service found is the single one of that full name in the first set that has it, lookups fail exactly as stated, package lists are sorted and complete, unknown packages are errors. Trusted: the gRPC library resolves the name it is given (bounded: a recording local server).'},
})
CHECKS.update({
 'C22': {'note': 'Proved for all options, versions, platforms and archives: accepted options are no conflict and complete, a given protoc is returned without any call, the URL asked for, that only this URL is fetched, the directory of the cache, that a download is accepted only after a check of that directory, that this check runs the protoc there and wants exactly the configured version, and that every file and directory made while unpacking is below it (name by name, defers included). Trusted: filepath, zip and http as arbitrary results, os.Stat as a function of the path, option functions change only the downloader. Bounded: contents unpacked, http statuses, damaged and hostile archives in scratch directories with an in-memory transport.'},
})
CHECKS.update({
 'C17': {'note': 'Proved for every node of every kind and each of the about 80 visitors: a failure is added exactly when the documented condition holds, at the position of the node, and every element declared inside of the node is visited; the stack of enclosing names is exact while the elements are visited and restored afterwards; what is remembered per file starts empty; every check runs its own visitor over the given files. Trusted: dispatch of Accept to the method of the node (the parser), unicode, strings and flect functions. Bounded: composition over whole files, the table of rules and the messages about request and response types of nested messages, against independent oracles of all rules on random nested files.'},
})
CHECKS.update({
 'C25': {'note': 'Proved for every node of every kind, each method of both passes and the printer: what is written for it, that each comment, option, label and nested element of it is handed on, what the header pass sets aside and prints again, the values --fix sets, and that every element of the file goes through both passes with the settings given. Assumed: visiting elements leaves the visitor well formed (each Visit method proves that it keeps indentation, parent and printer; the facts assumed of the seven options are written in the contract of Transform). Trusted: the parser, fmt, strings. Bounded: order, white space and bytes, that the output parses to the same declarations (own parser comparison and descriptors of protoc) and idempotence, on random files of every construct in all fix modes. Two known findings, both from the vendored parser.'},
})
CHECKS.update({
 'C28': {'note': 'Proved for all inputs: Compile runs every command, fails if one of them fails, gives sorted failures and removes what was made for the commands on every path (deferred calls included), the same for printing the commands, break check for every exit after a clone, a failed clone, diff and its files. Assumed: goroutines run as a whole at their go statement, one after the other (they share only what is changed under the lock; blocking and the order are not modelled), and that the commands carry the temporary files made for them. Bounded: random results of protoc with random delays give the same output, and the temporary directory is empty after every command, succeeding and failing.'},
})
NA = {
 'C29': 'The states after a kill and the interleavings of processes on the file system are no executions a contract of a function talks about: a postcondition holds at returns. Known from reading: a kill while unpacking leaves a partial directory whose bin/protoc may be accepted by the check of a later run.',
}

