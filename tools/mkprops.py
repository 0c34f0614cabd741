#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            mechanism=[dict(name=a, where=b) for a, b in mech],
            state=[dict(name=a, meaning=b, where=c) for a, b, c in (state or [])],
            observe_at=observe, hook_needed=None)))

p("C01", "Formatting never changes what a Protobuf file means",
  "Whenever protoc accepts a set of Protobuf files and `prototool format` accepts one of them, the formatted text is accepted by protoc too and compiles to the same descriptor as the original: same package, syntax, imports with their public and weak marks, messages, groups, fields with their labels, numbers, types, defaults and options, oneofs, maps, enums, services, streaming flags, extensions, reserved and extension ranges. Only the order in which file options, element options and imports are written may change; when format rejects a file it says so, exits non-zero and leaves the file as it was.",
  ["programs", "inputs"], "all proto2 and proto3 sources protoc accepts, all layouts of them",
  "Golden tests format three hand-written files and compare text; none of them compiles the output or covers the product of syntax, labels, groups, options, literals and layouts.",
  ["internal/format/transformer.go", "internal/format/first_pass_visitor.go", "internal/format/main_visitor.go", "internal/format/base_visitor.go", "internal/buf/buf.go"],
  [("two-pass visitor that re-prints every parsed element", "internal/format/transformer.go"), ("element printers", "internal/format/main_visitor.go"), ("option and field printing", "internal/format/base_visitor.go"), ("header, file option and import printing", "internal/format/first_pass_visitor.go")],
  ["stdout and overwritten files of `prototool format`", "FileDescriptorSet from protoc before and after"])

p("C02", "Formatting is canonical: a formatted file formats to itself",
  "Formatting the output of `prototool format` gives the same bytes again, so `format -l` and `format -d` are silent and exit 0 right after `format -w`. The result depends only on the tokens of the file, not on its layout: two comment-free files that differ only in white space, and files whose file options, imports or element options are only reordered, format to the same bytes, and no output line has trailing white space or a tab indent.",
  ["inputs", "programs"], "all accepted sources and all re-layouts of them",
  "The golden test checks idempotence only on its own three outputs; canonicity is a relation over pairs of inputs that no test samples.",
  ["internal/format/transformer.go", "internal/format/main_visitor.go", "internal/format/base_visitor.go", "internal/format/first_pass_visitor.go", "internal/buf/buf.go"],
  [("sorted file options and imports", "internal/format/first_pass_visitor.go"), ("sorted element options", "internal/format/base_visitor.go"), ("indenting printer that trims lines", "internal/buf/buf.go")],
  ["output bytes of `prototool format`"])

p("C03", "Formatting never loses a comment",
  "Every comment of an accepted file is still there after `prototool format`, with the same text and the same multiplicity, and no comment is invented; only comment delimiters, indentation, blank space around the text, and the position relative to sorted options and imports may change. This holds for leading, trailing, detached, inline and block comments on every kind of element and inside every kind of body.",
  ["inputs"], "all placements of comments that the parser keeps",
  "Comments appear in the golden files only where they are known to work; nothing enumerates comment kind times element kind times position.",
  ["internal/format/main_visitor.go", "internal/format/base_visitor.go", "internal/format/first_pass_visitor.go"],
  [("comment and inline comment printing", "internal/format/base_visitor.go"), ("comment elements visited inside bodies", "internal/format/main_visitor.go")],
  ["comment text of the formatted output"])

p("C04", "format --fix produces the file header and options that lint demands",
  "After `prototool format --fix -w` a file with a package carries exactly one of each managed file option with the value derived from its package, file name, lint group and java package prefix, begins with the configured file header, and passes the lint rules about those options and the header that its lint group turns on (under uber1 with a java_package_prefix the fixed java_package follows the prefix); fixing again changes nothing. Apart from the managed options and whatever stood before the syntax line when a header is configured, nothing in the file changes meaning.",
  ["inputs", "configurations"], "all packages, file names, prior option values, lint groups, headers and java prefixes",
  "Two golden files cover two packages and one prior state each; values are derived strings over arbitrary package names, and agreement between fixer and linter is only implied.",
  ["internal/format/first_pass_visitor.go", "internal/format/transformer.go", "internal/exec/runner.go", "internal/lint/check_file_options_equal.go", "internal/protostrs/protostrs.go", "internal/settings/config_provider.go"],
  [("option injection for fix modes", "internal/format/first_pass_visitor.go"), ("derived option values", "internal/protostrs/protostrs.go"), ("same derivation used by lint", "internal/lint/check_file_options_equal.go")],
  ["descriptor options of fixed files", "lint verdict on fixed files"])

p("C05", "format -l, -d, -w and stdout agree, and touch only what they should",
  "For every file or directory argument: `format -w` rewrites exactly the selected files whose formatted text differs, to exactly the text plain `format` prints for them, keeps their permissions and exits 0; plain, -d and -l write no file and exit non-zero exactly when some selected file would change; -l names exactly those files and the -d output, applied as a patch, turns the originals into the formatted files. Two of the three flags together are refused. If any file fails to compile nothing is rewritten.",
  ["inputs", "configurations"], "all workspaces, arguments and modes",
  "Tests run each mode on fixed directories and never compare the modes with each other.",
  ["internal/exec/runner.go", "internal/diff/diff.go", "internal/file/proto_set_provider.go"],
  [("mode selection per file", "internal/exec/runner.go"), ("unified diff", "internal/diff/diff.go")],
  ["file contents, modes, exit code and stdout"])

p("C06", "Every documented breaking change is reported",
  "If the old and the new version of a schema differ by a documented breaking change in a checked package - a deleted or renamed package, enum, enum value, message, field, service or method, a changed field type, number or label, a field moved into or out of a oneof (that of a proto3 optional field included), a changed method signature or streaming flag, at any nesting depth - then `prototool break check` exits non-zero and prints a message for that change naming the element. The reported set is the one computed from the two schemas alone, whichever files the definitions live in.",
  ["histories", "programs"], "all pairs of compiling schema versions",
  "The breaking tests use fixed one/two directories for one kind of change each and do not run green in this environment at all; combinations, nesting and oneof or map cases are not reached.",
  ["internal/breaking/breaking.go", "internal/breaking/runner.go", "internal/breaking/helpers.go", "internal/breaking/strings.go", "internal/extract/extract.go", "internal/reflect/reflect.go"],
  [("one checker per documented change", "internal/breaking"), ("package extraction", "internal/extract/extract.go"), ("grouping of descriptors by package", "internal/reflect/reflect.go")],
  ["stdout and exit code of `prototool break check`"])

p("C07", "Compatible changes are never reported as breaking",
  "`prototool break check` exits 0 with no output when the new version has everything the old one has: the same version, additions of packages, files, messages, enums, values, fields, services or methods, definitions moved between files of one package or reordered, renamed or reordered files, changed comments, layout, options, imports, reserved ranges or defaults. In a mixed history only the breaking part is reported, with one message per broken element.",
  ["histories", "programs"], "all sequences of compatible edits from any compiling schema",
  "No test runs break check on a pair built from compatible edits; the claim covers every sequence of them.",
  ["internal/breaking/runner.go", "internal/breaking/helpers.go", "internal/extract/extract.go", "internal/reflect/reflect.go"],
  [("per-package, name-keyed comparison", "internal/breaking/helpers.go"), ("extraction keyed by full name", "internal/extract/extract.go")],
  ["stdout and exit code of `prototool break check`"])

p("C08", "Beta packages are exempt and stable packages may not depend on them",
  "A package is beta exactly when its last component is vMAJORbetaBETA with both numbers at least 1. Without include_beta no change inside a beta package is reported, however large, and every stable package of the new version that depends on a beta package is reported once per such dependency unless allow_beta_deps is set; with include_beta all packages are treated alike and no dependency is reported.",
  ["configurations", "histories"], "all package names, dependency graphs and the four settings",
  "Beta handling is tested only in tests that do not pass here, on one package name each.",
  ["internal/breaking/breaking.go", "internal/breaking/check_packages_no_beta_deps.go", "internal/breaking/helpers.go", "internal/protostrs/protostrs.go", "internal/settings/config_provider.go"],
  [("beta package removal before checks", "internal/breaking/helpers.go"), ("beta dependency check", "internal/breaking/check_packages_no_beta_deps.go"), ("version component parser", "internal/protostrs/protostrs.go")],
  ["stdout and exit code of `prototool break check`"])

p("C09", "break check gives the same answer from git and from a saved state",
  "Checking the working tree against a git branch or tag gives the same verdict and messages as checking it against a descriptor set saved with `break descriptor-set` at that commit, and the same as checking against a `descriptor-set --include-imports` of it. The command compares the committed state of that branch with the current working tree including uncommitted edits, changes nothing in the repository or working tree, and leaves no temporary clone behind whether it succeeds or fails.",
  ["histories", "inputs"], "all commit histories, branches and tags, uncommitted edits, and failing runs",
  "The git path has no passing test; agreement between the two sources of the old state is a relation between runs.",
  ["internal/git/git.go", "internal/exec/runner.go", "internal/reflect/reflect.go"],
  [("temporary shallow clone", "internal/git/git.go"), ("clone removal", "internal/exec/runner.go"), ("descriptor set merge", "internal/reflect/reflect.go")],
  ["stdout and exit code", "contents of TMPDIR and of the repository"])

p("C10", "Each lint rule reports exactly the documented offences",
  "For every lint rule, `prototool lint` reports a failure of that rule at an element exactly when the element offends against the documented rule, at any nesting depth and in every kind of container the rule covers, with the position of the offending element, once; the @suppresswarnings annotation hides nothing, as no configuration can turn it on. Rules never influence each other.",
  ["programs", "configurations"], "all compiling sources and all lint rules",
  "The lint tests have one small fixture for most rules; nesting, combinations, near misses and the position claim are sampled at single points, and some rules have no fixture.",
  ["internal/lint", "internal/strs/strs.go", "internal/protostrs/protostrs.go"],
  [("one visitor per rule", "internal/lint"), ("suppression", "internal/lint/base_linter.go"), ("case predicates", "internal/strs/strs.go")],
  ["id, file and line of the failures printed by `prototool lint`"])

p("C11", "The active lint rules are group plus add minus remove, and ignores are exact",
  "The rules that run, and that `lint --list-linters` shows, are those of the configured group (uber1 when none is given, none with no_default) plus added minus removed ones, and the failures printed are the union of what each active rule reports alone. An ignore entry removes the failures of exactly that rule for exactly the files it names or that lie below a directory it names, matched by whole path components relative to the configuration file, and unknown rules or groups are errors.",
  ["configurations", "inputs"], "all groups, add and remove sets and ignore lists, over all workspaces",
  "Tests pin a handful of configurations; set algebra over about 95 rules and path matching over arbitrary trees is out of reach of examples.",
  ["internal/lint/lint.go", "internal/settings/config_provider.go", "internal/file/file.go", "internal/exec/runner.go"],
  [("rule selection", "internal/lint/lint.go"), ("ignore filter", "internal/lint/lint.go"), ("path exclusion", "internal/file/file.go")],
  ["failures of `prototool lint`", "`lint --list-linters` and --list-lint-group output"])

p("C12", "Generated lint ignores silence exactly the current failures",
  "Adding the output of `prototool lint --generate-ignores` to the configuration makes `prototool lint` pass on the same files, for every configuration and workspace; the output lists exactly the pairs of rule and file that fail without ignores, sorted, and is empty when there is none. A later new failure of another rule or in another file is still reported.",
  ["inputs", "configurations"], "all workspaces and lint configurations",
  "No test feeds the generated ignores back; the property is a round trip over arbitrary failures.",
  ["internal/exec/runner.go", "internal/lint/lint.go", "internal/settings/config_provider.go"],
  [("ignore generation from failures", "internal/exec/runner.go"), ("ignore filter", "internal/lint/lint.go")],
  ["stdout of `lint --generate-ignores`", "lint verdict with them applied"])

p("C13", "Exactly the right Protobuf files are processed",
  "The files a command processes are exactly the .proto files at or below the given directory - not in a sibling directory that merely shares a name prefix - minus those that are, or lie below, a path excluded by the configuration, matched by whole path components; `prototool files` lists each once, sorted, relative to where it is run. The configuration used is the prototool.yaml or prototool.json in the nearest enclosing directory, a directory holding both is an error, as is a tree governed by more than one configuration, and an argument with no configuration around it must be at or below the working directory; --config-data replaces all configuration files.",
  ["inputs", "configurations"], "all directory trees, configuration placements, excludes, arguments and working directories",
  "Unit tests cover one fixed tree; prefixes, nested configurations and exclude forms multiply.",
  ["internal/file/proto_set_provider.go", "internal/file/file.go", "internal/settings/config_provider.go", "internal/exec/runner.go"],
  [("directory walk with excludes", "internal/file/proto_set_provider.go"), ("configuration lookup", "internal/settings/config_provider.go"), ("restriction to the argument directory", "internal/exec/runner.go")],
  ["stdout of `prototool files`", "files compiled, linted and formatted"])

p("C14", "Configuration means the same in YAML, JSON and --config-data, and is strict",
  "A configuration given as prototool.yaml, as the equivalent prototool.json, or inline with --config-data in the same directory leads to the same behaviour of every command. Unknown keys and invalid values (rules both added and removed, ignores without id, absolute or escaping paths where relative ones are required, both header path and content, unknown plugin types, missing go import path and the like) are rejected with an error and a non-zero exit before any file is touched; the order and repetition of list entries never matters, that of the include paths aside, which protoc searches in order.",
  ["configurations"], "all configurations over the documented keys and their corruptions",
  "The settings tests do not exercise the three carriers against each other and list a few invalid shapes.",
  ["internal/settings/config_provider.go", "internal/settings/settings.go"],
  [("strict decoding and validation", "internal/settings/config_provider.go")],
  ["behaviour and exit code of files, lint, compile and generate --dry-run"])

p("C15", "Created files have the package their location implies and pass lint",
  "`prototool create` writes a file whose package is the --package value, else the mapped name of the nearest enclosing create.packages directory (by whole path components) joined with the remaining path, else the path relative to the configuration file, else the default package; every directory of the remaining path becomes one component. The file compiles, is already formatted (its final line end aside), carries the options and header that the configured lint group and settings demand, and passes that group's lint.",
  ["inputs", "configurations"], "all locations, mappings, lint groups, headers and java prefixes",
  "The create tests check a few fixed locations in one mapping and never lint or compile the result under other settings.",
  ["internal/create/handler.go", "internal/create/create.go", "internal/settings/settings.go", "internal/protostrs/protostrs.go"],
  [("package derivation", "internal/create/handler.go"), ("templates per lint group", "internal/create/create.go")],
  ["content of created files", "lint, format and compile verdicts on them"])

p("C16", "create never overwrites and is all-or-nothing on bad arguments",
  "`prototool create` never changes a file that already has content, and when any argument is unusable - existing content, a directory, a missing parent directory, a configuration that cannot be read - it exits non-zero and creates or changes none of the files. Otherwise it exits 0 and exactly the requested files appear.",
  ["inputs", "histories"], "all argument lists and prior states of the file system",
  "One test covers an existing file; argument lists mixing good and bad entries in all orders are not covered.",
  ["internal/create/handler.go"],
  [("checks before the first write", "internal/create/handler.go")],
  ["directory tree before and after `prototool create`"])

p("C17", "compile accepts exactly what protoc accepts, and reports why not",
  "`prototool compile` exits 0 exactly when protoc, run on each directory with the configured include paths, accepts the files and - unless allow_unused_imports is set - no import is unused; every other command refuses to go on when it fails. Each protoc error and unused import becomes one failure with the file, line, column and message protoc gave, on a path relative to where the command runs - the message normalised where it names paths, and of a directory those failures that protoc gives before it stops - and no run that protoc fails ends with exit code 0.",
  ["programs", "configurations"], "all sources, broken in any way, and include settings",
  "Compile tests list a few error fixtures; protoc's outputs are open-ended and parsed with patterns.",
  ["internal/protoc/compiler.go", "internal/protoc/protoc.go", "internal/exec/runner.go"],
  [("one protoc command per directory", "internal/protoc/compiler.go"), ("parsing protoc output", "internal/protoc/compiler.go")],
  ["stdout and exit code of compile and of the commands that compile first"])

p("C18", "Failure output is complete, ordered and machine-readable",
  "Every failing command prints each failure on one line, sorted by file, line, column, with exactly the fields named by --error-format in that order, or with --json as one JSON object per line carrying the same values; the same run repeated prints the same bytes, also when several things are wrong and it stops at one of them. A file argument prints the subset of the directory's failures that belong to that file or to no file, whatever relative or absolute form the path has, and the exit code is non-zero whenever a failure is printed.",
  ["inputs", "configurations"], "all sets of failures, field lists and path forms",
  "Tests compare a few fixed outputs in the default format; order, field subsets and JSON agreement over many failures are not sampled.",
  ["internal/text/text.go", "internal/exec/runner.go"],
  [("sorting and printing", "internal/text/text.go"), ("failure printing for commands", "internal/exec/runner.go")],
  ["stdout of lint, compile and format -l"])

p("C19", "descriptor-set yields the descriptors protoc would produce",
  "`prototool descriptor-set` outputs one FileDescriptorSet with each selected file exactly once, each equal to what protoc itself produces for it, with source information and the transitive imports present exactly when asked for, in a deterministic order. The bytes on stdout, in the -o file, in the --tmp file and the parsed --json output (which has no place for custom options) are the same set, and `break descriptor-set` equals `descriptor-set --include-imports`.",
  ["programs", "configurations"], "all multi-directory workspaces and flag combinations",
  "One test checks file names for one directory; merging across directories with shared imports and the flag product is not covered.",
  ["internal/exec/runner.go", "internal/protoc/compiler.go", "internal/desc/desc.go"],
  [("per-directory descriptor sets", "internal/protoc/compiler.go"), ("merge with duplicate check", "internal/desc/desc.go")],
  ["FileDescriptorSet bytes and JSON"])

p("C20", "generate hands each plugin exactly the files and options configured",
  "For every configured plugin `prototool generate` invokes it once per directory with exactly that directory's files, the configured flags, for go plugins one import modifier per file of the other directories under the configuration, of the form import path plus relative directory, well-known-type and extra modifiers included, and writes what the plugin returns below the configured output, which is created if missing. `generate --dry-run` and `compile --dry-run` execute nothing, write nothing and print commands that, run by hand, have the same effect.",
  ["configurations", "programs"], "all plugin lists, types, outputs, suffixes, modifiers and workspaces",
  "Generate tests use one descriptor_set plugin configuration; modifier computation is visible only to a plugin.",
  ["internal/protoc/compiler.go", "internal/settings/config_provider.go", "internal/wkt/wkt.go"],
  [("plugin flags and output directories", "internal/protoc/compiler.go"), ("import modifiers", "internal/protoc/compiler.go"), ("well-known types table", "internal/wkt/wkt.go")],
  ["CodeGeneratorRequests seen by a recording plugin", "files written", "dry-run output"])

p("C21", "The protoc cache survives corruption, interruption and concurrency",
  "Whatever state the cache directory is in - absent, empty, with a truncated, wrong-version, non-executable or missing protoc, or left by an interrupted or concurrent download - a run that can download ends with a working protoc of the configured version and complete well-known types from the archive, and concurrent runs all succeed. A valid cache is reused without downloading, a failed download exits non-zero and is not remembered as success, and nothing is written outside the cache directory.",
  ["crash_points", "schedules", "fault_sequences", "histories"], "all cache states, interruption points of a download and numbers of concurrent runs",
  "The only download test needs the network and fails here; corruption and concurrency have no test.",
  ["internal/protoc/downloader.go"],
  [("file lock", "internal/protoc/downloader.go"), ("version check of the cached binary", "internal/protoc/downloader.go"), ("unzip", "internal/protoc/downloader.go")],
  ["cache directory contents, exit codes and archive reads"],
  [("cache directory", "the unpacked protoc archive per version or URL", "internal/protoc/downloader.go")])

p("C22", "cache delete removes only the default cache",
  "`prototool cache delete` removes the default cache directory derived from XDG_CACHE_HOME or HOME and nothing else. It never touches a cache the user manages through --cache-path or PROTOTOOL_CACHE_PATH, and a later command works again from a fresh download.",
  ["configurations", "histories"], "all settings of the cache environment variables",
  "No test runs cache delete; its safety concerns directories outside the one it should delete.",
  ["internal/protoc/downloader.go", "internal/cmd/templates.go", "internal/exec/runner.go"],
  [("default cache path", "internal/protoc/downloader.go"), ("delete command", "internal/exec/runner.go")],
  ["directory tree after `prototool cache delete`"])

p("C23", "A gRPC call sends the JSON given and prints the JSON received",
  "For every method kind `prototool grpc` sends the server exactly the messages encoded by the JSON input, in order, with the given headers, and prints every response message as JSON in the order received, each on its own line (a message without any set field prints nothing); with --details also headers, trailers and status. A non-OK status, malformed input, unknown method or unreachable server ends in a non-zero exit with the error, and inconsistent flags are refused before connecting.",
  ["inputs", "programs"], "all message values, message counts, method kinds, headers and server outcomes",
  "The grpc tests do not pass here and use fixed string messages; JSON to wire fidelity ranges over all types and values.",
  ["internal/grpc/handler.go", "internal/grpc/invocation_event_handler.go", "internal/grpc/grpc.go", "internal/exec/runner.go", "internal/desc/desc.go"],
  [("descriptor source for the method", "internal/grpc/handler.go"), ("JSON decode and encode", "internal/grpc/handler.go"), ("event printing", "internal/grpc/invocation_event_handler.go")],
  ["requests recorded by a loopback server", "stdout and exit code"])

p("C24", "Package inspection reports the true import graph between packages",
  "`x inspect packages` lists exactly the packages declared by the compiled files and their imports, sorted, once each; `package-deps P` lists exactly the other packages imported by some file of P and `package-importers P` exactly those with a file importing P. Deps and importers are converses of each other and do not depend on how a package is split into files.",
  ["programs"], "all import graphs over all splits of packages into files",
  "The inspect tests look at one fixed tree.",
  ["internal/exec/runner.go", "internal/extract/extract.go", "internal/reflect/reflect.go"],
  [("package dependency extraction", "internal/reflect/reflect.go"), ("importers as inverse", "internal/extract/extract.go")],
  ["stdout of x inspect commands"])

p("C25", "Names and case conversions follow the documented derivations everywhere",
  "Go, Java, C#, PHP and Objective-C file option values derived from a package or file name are the documented functions of it - the same ones in create, format --fix and lint - for every legal package, including version components and multi-digit versions. Case predicates and conversions behind the naming rules are consistent: a converted name satisfies the predicate for its case and converting again changes nothing.",
  ["inputs"], "all legal identifiers, packages and file names",
  "Table tests list a few dozen names; the functions are total over strings.",
  ["internal/protostrs/protostrs.go", "internal/strs/strs.go"],
  [("option value derivation", "internal/protostrs/protostrs.go"), ("case conversion", "internal/strs/strs.go")],
  ["file options in created and fixed files", "lint messages naming the expected value"])

p("C26", "config init writes a configuration that works and never overwrites one",
  "`prototool config init` creates, in the given or current directory, a configuration that the tool itself accepts, for every flag combination and directory state, and with the documented recommended settings in effect; the documented form means the same as the short form, and the uncommented example of every setting is accepted once one of the two header settings that exclude each other, as it says, is taken out. If a configuration file is already there it exits non-zero and changes nothing.",
  ["configurations", "histories"], "all flag combinations and prior directory states",
  "Init tests compare generated text, not whether the tool accepts it or what it does afterwards.",
  ["internal/cfginit/cfginit.go", "internal/exec/runner.go"],
  [("templates", "internal/cfginit/cfginit.go"), ("existence check", "internal/exec/runner.go")],
  ["created file and behaviour of later commands"])

p("C27", "all is compile, format, generate and lint, stopping at the first failure",
  "`prototool all` has exactly the effect, output and exit code of compile, format -w (with --fix if given), generate and lint run in turn and stopped at the first one that fails; --disable-format and --disable-lint leave out exactly that step. In particular a file that does not compile is never rewritten and nothing is generated.",
  ["programs", "configurations"], "all workspaces and flag combinations",
  "One test runs all on a good and a bad directory; equivalence with the separate steps is a relation between runs.",
  ["internal/exec/runner.go"],
  [("step sequence", "internal/exec/runner.go")],
  ["file system, stdout and exit code"])

p("C28", "Checking commands leave no trace and do not depend on where they run",
  "compile, lint, format without -w, files, inspect, descriptor-set to stdout and break check modify no file of the workspace and leave nothing in the temporary directory, whether they succeed or fail. Their verdict and failures, paths taken relative to the same place, are the same whether the argument is relative or absolute (break check takes only relative ones), has redundant components, or the command runs from another directory, also one outside the workspace, and repeating a run prints the same bytes, the times in diff headers aside. --debug changes neither what is printed on stdout nor the exit code.",
  ["inputs", "configurations", "fault_sequences"], "all workspaces, working directories, path spellings and failing inputs",
  "Tests run from one directory with one spelling and never look for leftovers.",
  ["internal/exec/runner.go", "internal/protoc/compiler.go", "internal/file/proto_set_provider.go", "internal/git/git.go"],
  [("temporary descriptor files removed", "internal/protoc/compiler.go"), ("display paths", "internal/file/file.go")],
  ["workspace tree and TMPDIR before and after", "stdout across spellings"])

p("C29", "An interrupted run stops at once, kills its protocs, leaves nothing behind",
  "When a command receives SIGINT or SIGTERM while protoc runs, it ends promptly and non-zero whatever the number of directories: the protocs that run are killed, no further one is started, and nothing is left in the temporary directory. No source, and no descriptor set that it was to write, is changed by the interrupted step; running the command again has exactly the result of a run that was never interrupted.",
  ["schedules", "fault_sequences", "inputs"], "all commands that call protoc, all numbers of directories, and all of these calls as the point of interruption",
  "No test sends a signal; the guarantee is about any point in a run of many concurrent child processes.",
  ["internal/protoc/compiler.go", "internal/exec/runner.go", "internal/git/git.go"],
  [("signal handling", "internal/protoc/compiler.go"), ("bounded concurrency over directories", "internal/protoc/compiler.go")],
  ["processes alive after the exit", "exit code", "workspace tree and TMPDIR after the signal and after a second run"])

p("C30", "The schedule never shows: timing and processors do not change a result",
  "For the same files, configuration and arguments every command prints the same, exits the same and leaves the same files, whichever of the protocs that it runs at once ends first, however many processors there are, and also where some protocs break; steps that run at the same time share no unsynchronised data. With --walk-timeout a run either processes all selected files or fails and writes nothing; it never goes on with some of them.",
  ["schedules", "inputs", "fault_sequences"], "all workspaces, orders in which child processes end, numbers of processors and walk timeouts",
  "Tests run each command once on small directories, where one order of events is all they see, and without the race detector.",
  ["internal/protoc/compiler.go", "internal/file/proto_set_provider.go", "internal/text/text.go"],
  [("failures and errors of concurrent protocs", "internal/protoc/compiler.go"), ("walk with a timeout", "internal/file/proto_set_provider.go")],
  ["stdout, exit code and workspace across schedules", "reports of the race detector"])

p("C31", "No input makes a command crash, hang or fail without a word",
  "Whatever the Protobuf files, the configuration, the saved descriptor set, the request and the answer of a gRPC server, the flags and the arguments are, valid or not, every command ends in time with exit code 0, 1 or 255, never in a panic or an internal error, and when it fails it says why (a file argument, for which only the failures of that file are printed, may fail without a word). A refused configuration or descriptor set changes no file, commands that only check change none on any input, and none writes outside of the directories it was given.",
  ["inputs", "configurations"], "all byte strings as Protobuf files, configurations, saved descriptor sets and command lines",
  "Tests give well-formed inputs and the few malformed ones somebody thought of; a crash hides where nobody looked.",
  ["internal/format", "internal/lint", "internal/settings/config_provider.go", "internal/reflect/reflect.go", "internal/extract", "internal/breaking", "internal/cmd", "internal/exec/runner.go", "internal/protoc"],
  [("options anywhere", "internal/lint"), ("descriptor sets from a file", "internal/reflect/reflect.go"), ("paths to protoc", "internal/protoc/downloader.go")],
  ["exit code and output of every command on damaged inputs", "workspace tree afterwards"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
