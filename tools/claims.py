NA = {}
t("C16", "property-based testing: generated import blocks against an exact list oracle", "generated programs; the oracle is the list of listed import paths by construction")
t("C17", "property-based testing: generated programs from placed gadgets, findings known by construction", "every gadget in every syntactic context enumerated, random combinations and aliases beyond")
t("C01", "property-based testing and grammar/mutation fuzzing of whole packages, crash and hang oracle", "each case is scanned by every rule and analyzer in a process whose stack, memory and processor time are bounded")
t("C03", "property-based testing: metamorphic relation between a package scanned alone and among others", "generated programs from gadgets, corpus functions and nosec comments; differential oracle")
t("C04", "property-based testing: random placement of suppression comments against an independent model", "the model works on token positions and comment text, not on gosec's code")
t("C05", "property-based testing: metamorphic relations between suppression switches", "stripped sources, tracking and showing variants, alternative tags")
t("C06", "property-based testing: projection of the full scan as oracle for include and exclude lists", "flags, configuration files, the library, tracked suppressions")
t("C07", "property-based testing of the command line against a model of thresholds and exit status", "real binary on generated modules, broken packages included")
t("C13", "property-based testing: generated directory trees against a model of file selection", "real binary; constraints decided with go/build on the generated tree")
t("C25", "property-based testing: stateful sequences of scans and resets against fresh analyzers", "model-based histories of the library interface")
t("C02", "property-based testing: differential runs over concurrency, argument order, processes and the race detector", "real binary on generated modules, repeated in-process scans")
t("C18", "property-based testing: generated calls, modes and maxima against bit arithmetic", "all nine-bit modes of every function enumerated, random modes, notations and maxima beyond")
t("C24", "property-based testing: metrics against counts made from the source text", "library and command line, additivity over packages")
t("C08", "property-based testing: round trip of generated issue sets through the JSON, YAML and CSV reports, exact model of golint and text", "messages, names and code of arbitrary bytes; yaml.v3 block indentation is a known finding")
t("C09", "property-based testing: generated issue sets against the structure required of a SARIF report", "nulls, rule indexes, taxa, regions, snippets and paths; roots as given on the command line enumerated")
t("C10", "property-based testing: generated issue sets read back from JUnit, HTML and SonarQube reports", "strict XML parser, script extraction, exact issue list below the roots")
t("C11", "property-based testing: positions and snippets of issues against the tokens, nodes and lines of the source", "programs under random layout, line directives, CRLF, byte order marks, long lines, broken packages")
t("C12", "property-based testing: metamorphic relations between a program and its meaning-preserving rewrites", "layout, comments, renamed locals, aliased imports, reordered declarations, functions moved between files; generated programs and repository corpus")
t("C19", "property-based testing: generated guards and conversions against exact interval evaluation", "all pairs of integer types enumerated; random control flow, bounds at the edges of the types")
t("C20", "property-based testing: generated slice programs against an interpreter of lengths and capacities, and guarded accesses against the lengths which the guards admit", "sizes, capacities, re-slicings, constant bounds and compared lengths around the limits")
t("C15", "property-based testing: generated sets of broken and healthy packages against Go's own parser and type checker", "directories of any name, templates and token-level mutants, real binary; differential for the healthy packages")
t("C22", "property-based testing: generated TLS configurations against a per-configuration model", "literals and assignments in many shapes, versions written in nineteen ways, several configurations per program")
t("C14", "property-based testing: generated configurations and operation histories against a model, round trips, flags against files", "sections, globals, rule options of every accepted type; include, exclude and global flags on the real binary")
t("C26", "property-based testing: fault sequences of a loopback provider against a model of the requests", "repeated messages, empty and refused answers, failures at any position, key/flag/environment combinations on the real binary")
t("C23", "property-based testing: generated bindings of literals to names against a model of pattern, entropy and formats", "all binding forms, names, secret formats and configurations; entropy computed by the same library on the truncated value")
t("C27", "property-based testing: generated call statements and assignments, findings known by construction", "functions, methods, closures, embedded packages, whitelists and audit mode; every statement position")
t("C28", "property-based testing: generated nonces and data flows against their origin by construction", "all listed cipher functions; constants, crypto/rand, variables, parameters, results, captures and recursion")
t("C21", "property-based testing: generated programs passing data to sinks, findings known by construction", "all listed sinks x argument shapes x origins x statement contexts, several parts in one package, one scan per program for four rules")
t("C29", "property-based testing: generated constants and notations at every sink, findings known by construction", "values on both sides of each limit, written as literals, constants, expressions, conversions; every statement context")
t("C30", "property-based testing: generated data flows through variables, findings known by construction", "declaration forms, multiple assignments, shadowing and same names; http.Server literals in all positions and forms")
t("C31", "property-based testing: generated loops, copies, closures and shadowing against a model of the loop variables", "all language versions through GOSECGOVERSION, nesting and address expressions")
t("C32", "property-based testing: generated combinations of output flags on the real binary against the JSON report of the same analysis", "four runs per program; formats, destinations, colours, logs, existing files, quiet and terse")
t("C33", "property-based testing and fuzzing of configuration values and flags, metamorphic: unusable settings act as if absent", "JSON values of any type in every section (in process), hostile flag values, folders with exotic names (command line)")
t("C34", "property-based testing: generated sets of recording rules and analyzers against an independent walk of the program", "53 node types, rules with issues and errors, excluded rules, SSA analyzers with all kinds of results, one or two packages")
t("C35", "property-based testing, metamorphic: one tree scanned from several directories with the paths written in several ways", "modules whose packages import each other, nested modules, broken packages, tests; four working directories, six notations")
t("C36", "property-based testing: every helper called on every node of generated programs, compared with go/types and go/constant", "literals in all notations, concatenations, calls under aliases, package names like imports, ill-typed files for crashes")
t("C37", "property-based testing: gosecutil run on generated lists of files and tools against go/parser and go/types", "usable, broken, ill-typed and missing files, directories, odd names; one or two tools, unknown tools")
t("C38", "property-based testing: tlsconfig run with generated recommendations from a stand-in for the server, the written file parsed and compared", "all known ciphers, unknown ones, versions in any order, missing profiles, faults of the server, packages, names, directories; some files compiled with the rules")
t("C39", "property-based testing, metamorphic: generated packages with and without cgo, scanned with the command line tool", "the same code with Go declarations in the place of the C ones; several files of which some import C, suppression comments, tracking, generated files, severity and confidence")
