#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (kept as a program so that it stays easy to edit)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe or [], hook_needed=None)))

p("C01", "Scanning never crashes, whatever Go source it is given",
  "For any package that the Go parser can read, well-typed, ill-typed or syntactically broken, every rule and analyzer runs to completion: no panic, no unbounded recursion, no endless loop. A package that does not compile is scanned as far as its syntax allows, never abandoned with a crash.",
  ["programs"], "all Go packages: mutated rule samples, generated call/operand shapes with wrong arity and wrong types, cyclic declarations, recursive functions",
  "The tests scan a few hundred fixed, almost always well-typed samples; the crash sites are unchecked index and type assertions that only malformed or unusual code reaches.",
  ["analyzer.go", "rules/", "analyzers/", "resolve.go", "helpers.go", "issue/issue.go"],
  [("AST walk dispatching to rules", "analyzer.go Visit/CheckRules"), ("SSA analyzers", "analyzer.go CheckAnalyzers"), ("value resolution", "resolve.go TryResolve")],
  ["scan of a package through the analyzer API in a child process"])

p("C02", "Scan results do not depend on schedule, argument order or repetition",
  "Scanning the same packages with the same configuration always yields the same multiset of issues, the same errors and the same metrics, whatever the concurrency value, the order of the package arguments, the process it runs in or the number of times it is repeated.",
  ["schedules", "programs", "configurations"], "all multi-package trees x concurrency values x permutations of the package list x build tags",
  "The tests run each sample once with concurrency 1 or 4 and check only a count; they never compare two runs.",
  ["analyzer.go", "helpers.go", "cmd/gosec/main.go"],
  [("worker pool loading packages", "analyzer.go Process"), ("shared loader configuration", "analyzer.go load")],
  ["JSON report of the command line tool", "analyzer Report()"])

p("C03", "What is found in a package or file does not depend on other packages",
  "The issues reported for a package are the same whether it is scanned alone or together with (before or after) any other packages in one run, and an issue local to one function does not depend on unrelated declarations, files or packages placed before or after it.",
  ["programs", "histories"], "all sequences of packages, files and functions put together in one scan",
  "Rules keep per-rule state between nodes, and one analyzer object is reused for all packages; each test sample is scanned by a fresh analyzer.",
  ["analyzer.go", "rules/", "analyzers/"],
  [("rule instances shared across files", "analyzer.go LoadRules/CheckRules"), ("state kept by rules", "rules/tls.go, rules/readfile.go, rules/rand.go, rules/decompression-bomb.go")],
  ["analyzer Report()"])

p("C04", "#nosec suppresses exactly what it names, exactly where it stands",
  "A #nosec or //gosec:disable comment attached to a piece of code (the syntax node go/ast associates it with) suppresses the issues on the lines of that code: all of them when it lists no rule, otherwise exactly the listed rules. No issue outside the lines of the annotated code, and no unlisted rule inside it, is ever suppressed, and every suppression is recorded with kind inSource and the justification written after the dashes.",
  ["programs"], "all placements (line, preceding line, function, declaration, block), tag spellings, rule lists and justifications, over all rules and analyzers, including several annotations in one file",
  "The tests use a handful of hand-written comments on one statement each and look only at counts.",
  ["analyzer.go"],
  [("directive parsing", "analyzer.go ignore/findNoSecDirective"), ("ignore ranges per file", "analyzer.go ignores add/get, getSuppressionsAtLineInFile")],
  ["analyzer Report() with and without suppression tracking"])

p("C05", "Suppression switches: -nosec, alternative tag, show-ignored, tracking",
  "With comments disabled (-nosec) the result equals that of the source with its suppression comments removed; an alternative tag suppresses exactly as the default tag does and the default tag stays valid. With -track-suppressions no issue disappears: the issues without suppressions are exactly those reported without tracking and the others carry at least one suppression; with -show-ignored the suppressed issues are reported too, marked nosec, and are not counted as found.",
  ["configurations", "programs"], "all sources with suppression comments x all combinations of the suppression options",
  "Tests switch on one option at a time for one sample.",
  ["analyzer.go", "config.go", "cmd/gosec/main.go"],
  [("global options", "config.go"), ("issue filtering", "analyzer.go updateIssues")],
  ["analyzer Report()", "command line tool output and exit status"])

p("C06", "Including and excluding rules is a projection of the full scan",
  "The issues found with an include and an exclude list (flags or configuration file, rules and analyzers alike) are exactly the issues of the full scan whose rule is in the include list, when there is one, and not in the exclude list. A rule's findings never depend on which other rules are enabled, and with suppression tracking on an excluded rule's issues are all reported as externally suppressed instead.",
  ["configurations", "programs"], "all subsets of rule ids as include and exclude lists x programs with findings of many rules",
  "Tests exclude or include one rule on one sample; there are about 40 rules and 2^40 subsets.",
  ["rules/rulelist.go", "analyzers/analyzerslist.go", "cmd/gosec/main.go", "analyzer.go"],
  [("filters", "rules.NewRuleFilter, analyzers.NewAnalyzerFilter"), ("external suppression", "analyzer.go getSuppressionsAtLineInFile")],
  ["analyzer Report()", "command line tool"])

p("C07", "Severity and confidence thresholds and exit status",
  "The tool reports exactly the issues whose severity and confidence both reach the given thresholds, the reported count equals the number of unsuppressed ones, and the exit status is 1 when an unsuppressed issue or a Golang error was reported and 0 otherwise. -no-fail makes it 0 without changing the report, -quiet changes nothing when there are issues, and -sort only permutes the issues, by descending severity.",
  ["configurations", "programs"], "all threshold pairs x all option combinations x programs with any mix of issues, suppressions and errors",
  "The command's main function has no tests apart from the sort order of three issues.",
  ["cmd/gosec/main.go", "cmd/gosec/sort_issues.go", "issue/issue.go"],
  [("threshold filter", "main.go filterIssues"), ("exit status", "main.go exit"), ("ordering", "sort_issues.go")],
  ["command line tool: exit status, report on stdout and in the output file"])

p("C08", "JSON, YAML, CSV, golint and text reports carry every issue faithfully",
  "For any set of issues, metrics and errors, the JSON and YAML reports parse back to exactly the same issues, metrics and errors, the CSV report parses back to one record per issue with the same fields, and the golint and text reports list every unsuppressed issue with its file, line, rule, severity, confidence and message. Nothing is dropped, duplicated, reordered or altered, whatever characters the data holds, and writing a report leaves the data unchanged.",
  ["inputs"], "all issue lists, metrics and error maps with arbitrary strings (quotes, commas, newlines, markup, non-ASCII)",
  "Tests format one issue per rule with fixed tame strings.",
  ["report/formatter.go", "report/json", "report/yaml", "report/csv", "report/golint", "report/text"],
  [("writers", "report/*/writer.go"), ("suppressed issue filter", "report/formatter.go")],
  ["report.CreateReport output parsed by independent parsers"])

p("C09", "SARIF report is structurally valid and refers to the right things",
  "For any set of issues the SARIF report is valid JSON in which every issue is one result whose ruleId, message, level, line and column range, snippet and suppressions are those of the issue, whose ruleIndex points at the rule with that id, whose file URI is relative to the scanned root that contains the file, and whose rule's CWE reference resolves to a taxon of the CWE taxonomy. Rules and taxa are listed once each and no list holds a null.",
  ["inputs", "configurations"], "all issue lists in any order of rule ids, line ranges, roots and suppressions",
  "Tests check one or two issues by substring; index consistency needs several rules in adverse order.",
  ["report/sarif/formatter.go", "report/sarif/builder.go"],
  [("rule table and indices", "sarif/formatter.go GenerateReport, addRuleInOrder"), ("locations", "sarif/formatter.go parseSarifLocation, parseSarifRegion")],
  ["report.CreateReport(sarif) parsed as JSON"])

p("C10", "XML, HTML and SonarQube reports stay well formed and complete",
  "For any issue data the JUnit report is well-formed XML with one failing test case per unsuppressed issue grouped by message with correct counts, the HTML report embeds all issues as data that decodes to the same issues and that cannot break out of its script element, and the SonarQube report has exactly one issue per reported issue below a scanned root with matching rule, path relative to that root, line range, severity and effort.",
  ["inputs", "configurations"], "all issue lists with arbitrary strings, file paths and roots",
  "Tests use tame strings; markup characters in source snippets, messages and paths decide this.",
  ["report/junit", "report/html", "report/sonar"],
  [("junit builder", "report/junit/builder.go, formatter.go"), ("html template", "report/html/writer.go, template.html"), ("sonar", "report/sonar/formatter.go")],
  ["report.CreateReport output parsed by encoding/xml, html tokenizer, encoding/json"])

p("C11", "Every issue points at the offending code and carries its metadata",
  "Every reported issue names an existing scanned file, a line range inside it and a column at which code starts, a snippet that consists of exactly the source lines of that range plus one line of context on each side prefixed with their numbers, a documented rule id, a severity and confidence, and the CWE assigned to its rule.",
  ["programs"], "all programs with findings of every rule and analyzer, any layout, line lengths and file names",
  "Tests count the issues of a sample and look at neither positions nor snippets.",
  ["issue/issue.go", "analyzers/util.go", "cwe/"],
  [("issue construction", "issue.New, analyzers newIssue"), ("CWE table", "issue.GetCweByRule, cwe.Get")],
  ["analyzer Report()"])

p("C12", "Findings are invariant under layout, comments, renaming, reordering and moving",
  "Reformatting, inserting comments and blank lines, renaming local identifiers, renaming imports (aliasing), reordering top-level declarations or moving a function that uses no package-level variable or constant into another file of the package changes no finding except for its position: the same rules are reported on the same code.",
  ["programs"], "all programs x all meaning-preserving rewrites of layout, names and order",
  "Each test sample exists in one layout and one naming.",
  ["rules/", "analyzers/", "helpers.go", "import_tracker.go", "call_list.go"],
  [("call and import resolution", "helpers.go GetCallInfo, import_tracker.go")],
  ["analyzer Report() before and after the rewrite"])

p("C13", "The right files are scanned, once each",
  "A recursive scan analyses every directory with Go files under the root except those excluded with -exclude-dir, vendor and .git, each file is analysed once, _test.go files only with -tests, generated files not at all with -exclude-generated, and files guarded by build constraints exactly when the given -tags (or the platform) satisfy them, in every scanned package. Explicit directory arguments give the same result as the recursive scan restricted to them.",
  ["configurations", "inputs"], "all directory trees, file names, build constraints, tags and exclusion options",
  "Tests cover two tags on a single package and two excluded directory names.",
  ["helpers.go", "analyzer.go", "cmd/gosec/main.go"],
  [("directory walk", "helpers.go PackagePaths, ExcludedDirsRegExp"), ("file selection", "analyzer.go load, CheckRules")],
  ["marker issues found per file by the command line tool / analyzer API"])

p("C14", "Configuration files round-trip and take effect with the documented precedence",
  "Any configuration written out and read back is equivalent: every section and every global option has the same value and effect. Global options in a file act as the corresponding flags, flags override the file for include and exclude lists, and options not mentioned, or set to null, keep their defaults. A number in a configuration file means the same as the same digits in a string.",
  ["configurations", "histories"], "all sequences of set, set-global, write, read on configurations and all flag/file combinations",
  "Tests read three literal JSON documents.",
  ["config.go", "cmd/gosec/main.go"],
  [("serialisation", "config.go ReadFrom, WriteTo, convertGlobals"), ("flag merging", "main.go loadConfig")],
  ["gosec.Config API", "command line tool"])

p("C15", "Broken packages are reported, and the rest of the scan is unaffected",
  "When a package has syntax, type or import errors, each is reported under its file with the right line and column, sorted (or under its directory, when the directory cannot be read as a package at all), the tool exits non-zero, and the other packages of the run yield exactly the issues they yield alone. A broken package never hides, alters or aborts the results of another one, whatever the names of files and directories.",
  ["programs", "fault_sequences", "configurations"], "all mixtures of healthy packages and packages broken in various ways, in every order, in directories of any name",
  "Tests parse two hand-written error records and scan one broken package alone.",
  ["analyzer.go", "errors.go"],
  [("error collection", "analyzer.go ParseErrors, AppendError, Process"), ("sorting", "errors.go sortErrors")],
  ["analyzer Report()", "command line tool"])

p("C16", "Imports of weak crypto and pprof packages are always reported",
  "Every import of crypto/md5, crypto/des, crypto/rc4, net/http/cgi, crypto/sha1, golang.org/x/crypto/md4, golang.org/x/crypto/ripemd160 (G501-G507) and net/http/pprof (G108), in any form the language allows (plain, aliased, dot, blank, grouped, repeated, raw or quoted path; G108: the blank import that installs the handlers), is reported once at that import, and no other import is.",
  ["programs"], "all import declarations over the listed packages and near misses, in any grouping, alias and quoting",
  "Tests have one sample per package in the plain form.",
  ["rules/blocklist.go", "rules/pprof.go", "import_tracker.go"],
  [("blocklist match", "rules/blocklist.go"), ("pprof import", "rules/pprof.go")],
  ["analyzer Report()"])

p("C17", "Calls to listed dangerous functions are reported wherever they occur, no others",
  "Every call through the package name of a function on the rules' lists (weak hashes and ciphers G401, G405, G406, weak random numbers G404, unsafe pointer operations G103, insecure host keys G106, servers without timeouts G114, short RSA keys G403, predictable temp files G303 and the like) is reported with the right rule in any statement or expression context and under any import alias. Similar functions of other packages, shadowing variables, and safe functions of the same package are not reported by these rules.",
  ["programs"], "all (package, function) pairs of the lists and their near misses x statement contexts x import aliases",
  "Tests have one or two calls per rule, in a main function.",
  ["rules/weakcrypto.go", "rules/weakcryptohash.go", "rules/weakdepricatedcryptohash.go", "rules/rand.go", "rules/unsafe.go", "rules/ssh.go", "rules/http_serve.go", "rules/rsa.go", "rules/tempfiles.go", "rules/bind.go", "rules/slowloris.go", "rules/templates.go", "rules/directory-traversal.go", "rules/archive.go", "rules/decompression-bomb.go", "rules/integer_overflow.go", "call_list.go", "helpers.go"],
  [("call lists", "call_list.go"), ("call resolution", "helpers.go GetCallInfo")],
  ["analyzer Report()"])

p("C18", "File and directory permission rules compare the mode correctly",
  "A call that creates or changes a file or directory with a permission written as a literal or os.ModePerm is reported (G301, G302, G306, and G307 for os.Create) exactly when the mode grants a permission bit beyond the configured maximum, for every mode value and notation (octal, 0o, hex, decimal, binary, os.ModePerm), every function on the rule's list and every configured maximum (defaults 0750, 0600, 0600, 0666).",
  ["inputs", "configurations"], "all 12-bit modes x notations x functions x configured maxima",
  "Tests contain about ten mode values with the default limits.",
  ["rules/fileperms.go"],
  [("subset test", "rules/fileperms.go modeIsSubset"), ("limits from configuration", "rules/fileperms.go getConfiguredMode")],
  ["analyzer Report()"])

p("C19", "Integer conversion overflow (G115) is reported iff the value can overflow",
  "An explicit conversion between integer types of a value with no known range (a parameter, a call result, a field or an element) is reported exactly when the destination type cannot represent every value of the source type; a constant, or a conversion that is only reached when comparisons of the converted value with constants prove that it fits, is not reported, and comparisons that leave an unrepresentable value possible do not silence the report. (Ranges with holes and comparisons stored in boolean variables may be treated as unknown.)",
  ["programs"], "all pairs of integer types x value origins x guarding comparisons and bounds x control flow shapes",
  "Tests have a few dozen functions with selected type pairs and guards; the arithmetic of bounds has many off-by-one positions.",
  ["analyzers/conversion_overflow.go"],
  [("type ranges", "conversion_overflow.go isIntOverflow"), ("range checks", "conversion_overflow.go hasExplicitRangeCheck, walkBranchForConvs, explicitValsInRange")],
  ["analyzer Report()"])

p("C20", "Slice bounds findings (G602) agree with running the program",
  "For straight-line code that makes slices of constant size and indexes or re-slices them without guards, every index or slice expression with a constant bound that is out of range is reported, and none that is in range is (an index into an empty slice is compared with its capacity). An access that is guarded by comparisons of the length of the slice with constants is reported exactly when it is out of range and the comparisons which hold on the way to it do not ensure that it is in range (or that it is never reached).",
  ["programs"], "all sizes, capacities, re-slicings, indices and bounds in generated straight-line programs, and generated guards (if, else, early return or panic, either operand order, loops and branches in between)",
  "Tests have about thirty samples with fixed numbers.",
  ["analyzers/slice_bounds.go"],
  [("bound tracking", "slice_bounds.go runSliceBounds, trackSliceBounds, smallestLength")],
  ["analyzer Report()", "reference evaluation of the same expressions"])

p("C21", "Injection rules: constants are never reported, external data is",
  "SQL text passed to a method of sql.DB or sql.Tx that takes a query (G201 formatting, G202 concatenation), a command (G204), a path that is opened (G304) and a requested URL (G107) are never reported when every part is a compile-time constant (in a format also an identifier quoted by lib/pq), for G107, G204 and G304 also a local variable declared with one. They are reported, in whatever statement the call stands, when the argument is a variable that was declared with data from a call, the environment or os.Args, or (not for G204) is a parameter; for SQL and G304 also when such a variable is an operand of a concatenation, a format argument (%s or %v) or an argument of filepath.Join; a path variable that was passed to filepath.Clean before, or is declared as its result, is not reported by G304. SQL is concerned when it starts with a constant SQL statement and is written in place or held by a variable declared with it.",
  ["programs"], "all listed sink functions x argument shapes (literals, constants, local and package variables, concatenations, format strings) x origins of the data",
  "Tests cover selected combinations of sink, shape and origin; the product is large.",
  ["rules/sql.go", "rules/subproc.go", "rules/readfile.go", "rules/ssrf.go", "resolve.go", "helpers.go"],
  [("value resolution", "resolve.go TryResolve, DeclaredValue"), ("sinks", "rules/sql.go, subproc.go, readfile.go, ssrf.go")],
  ["analyzer Report()"])

p("C22", "TLS configuration rule (G402) judges each configuration on its own",
  "Every tls.Config literal that sets InsecureSkipVerify true or PreferServerCipherSuites false (or to a value that is not a literal), has a minimum version below the required one or none, sets a maximum version below the required one, or lists a cipher suite outside the allowed list is reported, as is an assignment of such a value to the field InsecureSkipVerify, PreferServerCipherSuites or CipherSuites of a configuration, and a configuration with only acceptable values is not, independently of any other configuration in the program and of how versions are written (constant, literal, constant expression, variable declared with one). The rules for the modern and the old profile, which a program can build instead, follow their own versions and cipher suites in the same way.",
  ["programs"], "all combinations of fields, values, order, pointer or value literals, and sequences of several configurations",
  "Tests have single configurations; the rule keeps state from one literal to the next.",
  ["rules/tls.go", "rules/tls_config.go"],
  [("field processing", "rules/tls.go processTLSConf, checkVersion, resetVersion")],
  ["analyzer Report()"])

p("C23", "Hard-coded credentials (G101) follow name pattern, entropy and secret patterns",
  "A string literal that is the value declared for, assigned to or compared with a variable or constant whose name matches the configured pattern, or that matches a known secret format whatever the name, is reported exactly when entropy checks are disabled or the entropy of the value, cut at the configured length, passes the configured thresholds; each variable is judged with its own value, thresholds may be numbers or strings, and names that do not match with ordinary values are never reported.",
  ["programs", "configurations"], "all names x values x declaration forms x configurations",
  "Tests have tens of fixed names and values with one alternative configuration.",
  ["rules/hardcoded_credentials.go"],
  [("pattern and entropy", "rules/hardcoded_credentials.go")],
  ["analyzer Report()"])

p("C24", "Metrics count exactly what was scanned",
  "The reported number of files is the number of Go files analysed, lines the sum of their line counts, nosec the number of suppression comments seen, and found the number of unsuppressed issues reported; they add up over packages and files and do not depend on which rules are enabled.",
  ["programs", "configurations"], "all file sets, line counts (empty files, missing final newline), suppression comments and options",
  "Tests check one two-file package.",
  ["analyzer.go", "cmd/gosec/main.go"],
  [("counters", "analyzer.go CheckRules, ignore, updateIssues")],
  ["analyzer Report()", "reports"])

p("C25", "A reset analyzer behaves like a new one; scans accumulate otherwise",
  "After a reset, loading rules and scanning gives exactly what a freshly built analyzer gives, with nothing (issues, metrics, errors, suppressions) left over from any earlier history; without a reset the results of successive scans accumulate as the sum of the separate scans. Results reported before a reset stay as they were.",
  ["histories"], "all sequences of load, scan (healthy and broken packages), report and reset",
  "Tests reset between samples but never compare with a fresh analyzer after errors or suppressions.",
  ["analyzer.go"],
  [("reset", "analyzer.go Reset"), ("accumulation", "analyzer.go Process, Report")],
  ["analyzer Report() against a model"])

p("C26", "Generated fixes: one request per distinct finding, attached to the right issues",
  "When automatic fixes are requested, the provider is asked exactly once per distinct issue message, every issue receives the answer given for its own message, nothing but the fix text is changed, and a provider failure stops further requests, is reported and still leaves the scan report complete. The feature stays off unless a provider and a key (flag or environment) are given.",
  ["inputs", "fault_sequences", "configurations"], "all issue lists with repeated messages x provider answers and failures x key/flag/endpoint combinations",
  "Tests use one issue with a mock and never the tool's flags.",
  ["autofix/ai.go", "cmd/gosec/main.go"],
  [("cache and requests", "autofix/ai.go generateSolution"), ("flag handling", "main.go")],
  ["requests seen by a loopback provider", "issues after the call, JSON report"])

p("C27", "Unhandled errors (G104) are found for every unassigned error",
  "A call statement with a result of type error is reported, wherever the statement stands and however the function is called, unless the function is on the default or configured whitelist under the name of its package or receiver type, and a call without a result of type error is not; an assignment statement giving an error to the blank identifier is reported exactly in audit mode.",
  ["programs", "configurations"], "all function signatures x call forms (function, method, closure, package function) x assignment forms x whitelist configurations x audit mode",
  "Tests have four samples.",
  ["rules/errors.go"],
  [("error position", "rules/errors.go returnsError"), ("whitelist", "rules/errors.go NewNoErrorCheck")],
  ["analyzer Report()"])

p("C28", "Hard-coded nonces (G407) are found for constant data, not for random data",
  "A constant byte slice, array or string conversion that reaches the nonce or IV argument of a listed cipher function, directly, through variables, slices, or the parameters, results and captured variables of functions of the package, is reported, and a nonce filled from crypto/rand or coming from a caller outside the package is not.",
  ["programs"], "all listed cipher functions x nonce constructions x data flow through variables and functions, including recursion",
  "Tests have about twenty samples with AES-GCM mostly.",
  ["analyzers/hardcoded_nonce.go"],
  [("tracking of arguments", "hardcoded_nonce.go raiseIssue, iterateThroughReferrers")],
  ["analyzer Report()"])

p("C29", "Rules on constant arguments judge the value, however it is written",
  "A compile-time constant passed to net.Listen or tls.Listen as the address (G102), rsa.GenerateKey as the length (G403), a function creating files as the path or the start of the path (G303), or http.Dir (G111) is reported exactly when its value is bad: all interfaces, less than 2048 bits, in a shared temporary directory, the root. It does not matter how the constant is written (literal, named constant of any file, constant expression, conversion, parentheses) nor where the call stands; for addresses the same holds for a variable declared with a constant. An argument of the unescaped types of html/template (G203) is reported exactly when it is not a constant.",
  ["programs"], "all sinks x values x notations x statement contexts",
  "Tests have one or two literals per rule.",
  ["rules/bind.go", "rules/rsa.go", "rules/tempfiles.go", "rules/templates.go", "rules/directory-traversal.go", "helpers.go"],
  [("values", "rules/constants.go constantString, constantInt, isConstant; resolve.go DeclaredValue")],
  ["analyzer Report()"])

p("C30", "Rules that follow a variable follow that variable",
  "A conversion to int16 or int32 of a variable that got its value from strconv.Atoi (G109), an io.Copy or io.CopyBuffer from a decompressing reader (G110), and a path joined with a field of an archive entry (G305) are reported when the value is used in place or through the variable declared with it, however declared, and other conversions, copies and joins, also of other variables of the same declaration or name, are not. A literal of http.Server is reported exactly when it sets neither ReadHeaderTimeout nor ReadTimeout (G112), also where its type is left out.",
  ["programs"], "all sources x declaration forms x sinks x statement contexts, variables of the same name in other scopes",
  "Tests have one or two programs per rule.",
  ["rules/integer_overflow.go", "rules/decompression-bomb.go", "rules/archive.go", "rules/slowloris.go"],
  [("tracking", "rules/decompression-bomb.go assignedCalls, resolve.go DeclaredValue")],
  ["analyzer Report()"])

p("C31", "Addresses of loop variables (G601) are found before Go 1.22",
  "For Go versions before 1.22 (as told by GOSECGOVERSION), taking the address of the value variable declared by a range loop, or of a field of it, is reported wherever it is done in the loop, also in nested loops and closures, except as a direct result of a return statement. Addresses of copies, keys, elements, parameters, variables of the same name in other scopes, and of fields reached through a pointer value are not, and nothing is from Go 1.22 on.",
  ["programs", "configurations"], "all nestings of loops, closures, copies and shadowing x address expressions x uses x versions",
  "Tests have a dozen samples.",
  ["rules/implicit_aliasing.go", "helpers.go"],
  [("tracking", "rules/implicit_aliasing.go Match"), ("versions", "helpers.go GoVersion, parseGoVersion")],
  ["analyzer Report()"])

p("C32", "Reports and logs go where they are asked to go, in the format asked for",
  "A run writes the report of its findings to the file of -out in the format of -fmt, without colours and in place of what the file held, and to standard output if there is no -out or with -stdout, there in the format of -verbose when it is given; nothing else goes to standard output, and an unknown format means text. The log goes to standard error or to the file of -log, and nowhere with -quiet or -terse; -quiet leaves out the report only if there is neither a finding nor an error. None of these flags changes the findings, their order or the exit status, and neither does running again.",
  ["inputs", "configurations"], "all combinations of the output flags x formats x programs x existing files",
  "No test runs the tool with two destinations; the formats are tested one at a time in memory.",
  ["cmd/gosec/main.go", "report/formatter.go"],
  [("destinations", "cmd/gosec/main.go printReport, saveReport, getPrintedFormat"), ("formats", "report/formatter.go CreateReport")],
  ["standard output, standard error, exit status and files of the command line tool"])

p("C33", "Settings that cannot be used never crash the tool nor change other settings",
  "Whatever values a configuration file and the command line hold, gosec ends without a crash. Settings that leave it without a meaning (an unknown threshold or flag, an unreadable or malformed configuration, no known rule, no package, a report or log that cannot be written) end the run with a status other than 0 and nothing on standard output; other unusable values (of a wrong type, no number, no regular expression, unknown sections and options) act as if they were not there, and a folder to exclude that is no regular expression is the name of the folder.",
  ["configurations", "inputs"], "all JSON values in all sections of the configuration, all flag values",
  "Tests pass valid settings and two or three invalid ones.",
  ["config.go", "cmd/gosec/main.go", "helpers.go", "rules/hardcoded_credentials.go", "rules/directory-traversal.go", "rules/fileperms.go", "rules/errors.go"],
  [("start of the tool", "cmd/gosec/main.go main, loadConfig"), ("excluded folders", "helpers.go ExcludedDirsRegExp"), ("rule settings", "rules NewHardcodedCredentials, NewDirectoryTraversal, getConfiguredMode, NewNoErrorCheck")],
  ["gosec.Config API", "command line tool"])

p("C34", "Rules and analyzers added to the library see the whole program and get reported",
  "A rule loaded into an analyzer is built once with its ID and the configuration, and is called once for each node of the types it registered for in every scanned file, in the order of the source, with the type information, package, file, comments and imports of that file and the values it stored earlier in the same file and in no other. Every issue it returns is reported once as given, also along with an error; issues of excluded rules only with tracking (marked external) or shown as ignored. An added SSA analyzer runs once per well-typed package with that package and its SSA form, and its issues are reported whatever other analyzers return.",
  ["inputs", "programs", "configurations"], "all sets of own rules (node types, issues, errors) and analyzers x programs, also ill-typed ones x tracking, show-ignored, generated files",
  "Tests use one recording rule on one or two samples.",
  ["analyzer.go", "rule.go", "analyzers/analyzers_set.go", "import_tracker.go"],
  [("walk", "analyzer.go CheckRules, Visit"), ("registration", "rule.go Register, RegisteredFor"), ("analyzers", "analyzer.go CheckAnalyzers, buildSSA"), ("recording", "analyzer.go updateIssues")],
  ["Context passed to Rule.Match", "analysis.Pass", "analyzer Report()"])

p("C35", "Findings do not depend on the directory gosec is started in",
  "A package is analysed with the module it belongs to: its findings, errors and metrics are the same whether gosec is started in the module, in one of its folders, above or beside it, with relative, absolute, recursive or explicit paths, and whether a module inside another one is scanned alone or together with it. (The language version for G601 is that of the current directory or GOSECGOVERSION.)",
  ["configurations", "inputs"], "all module trees with imports between packages x working directories x notations of the paths",
  "Every test runs in the directory of the module it scans.",
  ["analyzer.go", "helpers.go", "cmd/gosec/main.go"],
  [("loading", "analyzer.go load"), ("paths", "helpers.go PackagePaths, GetPkgAbsPath"), ("scanning a package once", "cmd/gosec/main.go main")],
  ["JSON report and exit status of the command line tool"])

p("C36", "What the library tells rules about a program is what the compiler knows",
  "The readers of constants return the value of a literal of their kind and an error for everything else, and the operands, literals and variables found in an expression are its own, in their order. A call is found under the path and name of the function it calls, whatever the aliases, and under no other: not a method, nor a function of the scanned package that has a name like one of its imports. An expression counts as resolvable when it is constant or is made of constants and of local variables declared with such values, and not when a call or a parameter is part of it; no helper crashes on code with type errors.",
  ["programs"], "all nodes of all programs (well-typed, ill-typed) x all helpers",
  "Tests call a helper on one or two snippets; every rule is built on them.",
  ["helpers.go", "call_list.go", "resolve.go", "import_tracker.go"],
  [("constants", "helpers.go GetInt, GetFloat, GetChar, GetString, GetStringRecursive, ConcatString"), ("calls", "helpers.go GetCallInfo, MatchCallByPackage; call_list.go ContainsPkgCallExpr, ContainsCallExpr"), ("resolution", "resolve.go TryResolve, DeclaredValue"), ("imports", "import_tracker.go, helpers.go GetImportPath, GetPackageName")],
  ["the exported functions of package gosec, called from a rule"])

p("C37", "gosecutil prints what the compiler knows of every file, whatever the others are",
  "For each file it is given, in order, each -tool of gosecutil prints what it is named for: the syntax tree, the objects of identifiers and calls, the definitions, the uses, the type of every expression, every comment, the imported packages with their names. A file that cannot be used (missing, a directory, not Go, for all tools but ast with type errors) is named on standard error and changes nothing for the files and tools after it. A tool that does not exist is refused with a list of those which do.",
  ["programs"], "all lists of files (usable, broken, ill-typed, missing, directories) x all sequences of tools",
  "The utility has no tests at all.",
  ["cmd/gosecutil/tools.go"],
  [("files and tools", "cmd/gosecutil/tools.go run, shouldSkip, createContext, checkContext"), ("output", "cmd/gosecutil/tools.go dumpAst, dumpCallObj, dumpUses, dumpTypes, dumpDefs, dumpComments, dumpImports")],
  ["standard output and standard error of gosecutil"])

p("C38", "tlsconfig writes exactly the recommended versions and ciphers, or nothing",
  "From the recommendations served by Mozilla, tlsconfig writes the checks for the profiles modern, intermediate and old with the lowest and the highest of the known TLS versions of the profile and with all its ciphers: the names of TLS 1.3 as they are, the others under their IANA name and, where it differs, their NSS name, unknown ones left out. The file is in the package given by -pkg, under the name given by -outputFile, in the directory given as argument, and compiles in place of the file of the rules. When the recommendations cannot be loaded, lack a profile or its versions, or the output cannot be written, the exit status is not 0 and an existing file keeps its content.",
  ["inputs", "configurations"], "all recommendations (ciphers, versions, profiles) x flags and arguments x failures of the server",
  "The generator has no tests and needs a server.",
  ["cmd/tlsconfig/"],
  [("recommendations", "cmd/tlsconfig/tlsconfig.go getTLSConfFromURL, getGoCipherConfig, getGoTLSConf; tls_version.go mapTLSVersions"), ("output", "cmd/tlsconfig/tlsconfig.go main, getCurrentDir; header_template.go, rule_template.go")],
  ["the written file and the exit status of tlsconfig"])

p("C39", "Findings in files that use cgo point at the source and obey its comments",
  "For a file that imports \"C\", the SSA analyzers (G115, G407, G602) report exactly what they report for the same code with Go declarations in the place of the C ones: the same rules at the same lines and columns of the file itself with its own text as snippet, and with the same effect of its #nosec comments, of -track-suppressions, -show-ignored and -nosec, of -exclude-generated (which goes by the file itself, not by what cgo makes of it) and of the thresholds. Nothing is reported for code which cgo generates. (The rules on syntax trees leave such files alone.)",
  ["programs", "configurations"], "all packages some of whose files import C x suppression comments x flags",
  "One test demands that a file with cgo has no findings of a rule on syntax trees.",
  ["analyzer.go", "analyzers/util.go"],
  [("position and snippet", "analyzers/util.go newIssue, sourcePosition, issueCodeSnippet"), ("suppressions and generated files", "analyzer.go CheckRules, cgoSource, generatedFiles")],
  ["JSON reports of the two variants of the package"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for x in P:
        assert x["statement"].count(". ") <= 2, x["id"]
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x) + "\n")
print(len(P))
