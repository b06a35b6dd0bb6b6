prop("C12", "Replacement functions change exactly the attributes they name",
     "A function made by ChangeKey, ChangeValue, ChangeCase, RemoveKey or Multiple of package replace does its one change to an attribute exactly when the key matches (folding case only if asked to) and the group check, if there is one, accepts the groups; every other attribute comes back as it was. Multiple applies its functions in order, each to the result of the one before, and stops once the attribute is removed. The functions remember nothing between calls, leave their arguments alone, may be used from several goroutines, and have the same effect inside a handler.",
     ["inputs", "configurations"], "all keys, values of any kind, groups, group checks and nestings of Multiple",
     "Tests apply a few fixed functions to the built-in fields of one record.",
     ["replace/change.go", "replace/multiple.go", "replace/group.go"], [("matching", "replace/change.go checkFieldGroups"), ("composition", "replace Multiple")],
     "runtime monitor comparing each call with a plain description of the function, alone, concurrently and inside three handlers",
     "Held on the generated functions and attributes.", (), ["the attribute each function returns", "lines of handlers that use it"])
prop("C13", "Every line gin writes becomes exactly one matching log record",
     "Each line written to a gin writer leads to exactly one record on the default logger, or none if its level is not enabled: with the level the line names in brackets (else debug for debug lines, else the configured one), the text without those prefixes as message, and, for a traffic line when parsing is requested, the configured traffic level, message and the five fields, embedded or in the configured group. Write reports the whole line as written; only a line with an unknown level is refused, without a record. This holds for lines written from several goroutines at once, without data races.",
     ["inputs", "configurations", "schedules"], "all lines, writer options, thresholds and interleavings of writers",
     "Tests write about ten fixed lines from one goroutine.",
     ["gin/writer.go", "gin/parser.go"], [("line to record", "gin/writer.go Write"), ("options", "gin/writer.go NewWriter")],
     "race detector and a recording default handler as oracle for generated, real and concurrent gin lines",
     "Held on generated lines and on the schedules that occurred. Coloured traffic and traffic with error texts attached are left open.", (), ["records on the default logger", "results of Write"])
prop("C14", "Parsed gin traffic has the values of the request",
     "For each request gin serves and logs in its default format, the parsed traffic has the status code, elapsed time, client address, method and the URL of that request, whatever characters the URL has. Text that is not traffic never crashes the parser and never yields a code that is not in the text.",
     ["inputs"], "all requests and all texts",
     "Tests parse three fixed lines.", ["gin/parser.go", "gin/writer.go"], [("traffic parser", "gin/parser.go Parse")],
     "runtime monitor comparing parsed fields with the request, on rendered lines and on requests through a real gin engine",
     "Held on generated requests; trusts gin's rendering of its own line.", (), ["result of gin.Parse", "records for requests served by a gin engine"])
prop("C15", "Duplicate fields of a record are counted exactly",
     "For each valid JSON object the field counter reports exactly the member names of the top level as a JSON parser reads them, with how often each occurs, so that a name is a duplicate exactly when it occurs more than once; members of nested objects and text inside strings do not count, except that members of an object named fields at the top level do. Text that is not valid ends without a crash, and the source is not modified. Its status text shows position, surroundings, number of fields and duplicates, and asking for it changes nothing.",
     ["inputs"], "all JSON texts",
     "Tests count fields in a dozen fixed records.", ["internal/json/field.go", "internal/json/parse.go"], [("tokenizer", "internal/json/field.go Parse")],
     "runtime monitor comparing with an independent count over parsed tokens, plus malformed text for crashes",
     "Held on generated texts.", (), ["result of Parse, Fields, Duplicates, NumFields and String"])
DATA = "internal/data/"
prop("C16", "Benchmark output is read completely and exactly",
     "From the output of go test -bench, the parser takes exactly the result lines of handler benchmarks: every number it keeps (runs, time, bytes, allocations, throughput in all units) is the one printed, the same by test and by handler, the last line counting when one repeats. Handlers and tests are listed once each in order of their names, configured handler names map to their tags and back, all other lines are ignored, warning text is kept line by line, however long lines are, whatever CPU suffix or custom metrics they have and in whatever pieces they arrive; read errors are reported.",
     ["inputs"], "all outputs that package testing can print for the benchmark suite, in any chunking",
     "No test parses benchmark output at all.", [DATA + "bench_parser.go", DATA + "bench.go", DATA + "tags.go"],
     [("line patterns", DATA + "bench_parser.go"), ("tables by test and handler", DATA + "bench.go")],
     "runtime monitor comparing all accessors with an independent reading of generated and recorded outputs",
     "Held on the generated and recorded outputs; trusts the result formatting of package testing.", (), ["accessors of data.Benchmarks"])
prop("C17", "Warnings survive the way through text unchanged",
     "Whatever warnings the managers of the benchmark and verification suites report as text, parsing that text yields exactly those warnings again: for each handler each warning with its level and summary and all its instances with test, source, text and log record; the same grouped by test, and counted by warning and handler; handlers without warnings stay known, and both sources add up in either order. Handler summaries and links arrive as written. As HTML a text shows the same words, line by line; only the place of a line of Go's own tests is shown as a link to it.",
     ["inputs", "histories"], "all sets of warnings, texts, records, handlers and both sources",
     "One test parses one recorded file and looks at a few counts.",
     [DATA + "warnings_parser.go", DATA + "warnings.go", "infra/warning/manager.go", "internal/markdown/html.go"],
     [("writer", "infra/warning/manager.go ShowWarnings"), ("reader", DATA + "warnings_parser.go ParseWarningData")],
     "round-trip monitor from real managers through both parsers, compared with what was reported",
     "Held on generated reports: records of one line that begins with a brace, text lines without surrounding white space, test names other than level names.", (),
     ["text written by ShowWarnings", "accessors of data.Warnings"])
prop("C18", "A warning manager reports exactly what was issued",
     "After any sequence of operations a manager reports each warning that was added with all its instances (function found on the call stack, text, record) and their count, ordered by level from required to administrative and by name; unused marks are reported only for warnings never issued. A test is skipped, with the two warnings that explain it, exactly when one of the warnings named is marked as warn-only and warnings are enabled. The list by warning names each handler that showed the warning, once, in order.",
     ["histories", "configurations"], "all sequences of operations on several managers, with warnings enabled or not",
     "Tests check properties of the warning table; the manager's own behaviour is untested.",
     ["infra/warning/manager.go", "infra/warning/warning.go", "infra/warning/level.go", "internal/misc/function.go"],
     [("recording", "infra/warning/manager.go AddWarningFnText"), ("reporting", "infra/warning/manager.go GetWarnings, ShowWarnings"), ("list by warning", "infra/warning/manager.go ShowHandlersByWarning")],
     "model-based monitor over random operation histories, reading back all reports",
     "Held on the generated histories.", [("byWarning", "handlers by warning shown so far in the process", "infra/warning/manager.go")], ["GetWarnings, HasWarning(s), SkipTestIf", "text of ShowWarnings and ShowHandlersByWarning"])
prop("C25", "The tabular report shows the data it was given",
     "The tabular command prints, for each test in order, a table with one row for each handler that has a result, holding its runs, time, allocations, bytes and throughput in the format of the chosen language, and for each handler in order its warnings by level with their counts, instances, texts and records, and prints nothing that is not in its input, whether that comes from a file or standard input.",
     ["inputs", "configurations"], "all benchmark and verification outputs and languages",
     "The command has no test.", ["cmd/tabular/tabular.go", "internal/data/setup.go", "internal/language/setup.go"],
     [("tables", "cmd/tabular/tabular.go main"), ("input", DATA + "setup.go Setup")],
     "end-to-end monitor which runs the built command and reads its output back", "Held on generated inputs; trusts golang.org/x/text for number formats.", (), ["standard output of the command"])
SC = "internal/scoring/"
prop("C20", "Benchmark scores follow the documented algorithm and stay between 0 and 100",
     "For any benchmark data, weights and choice of tests, each handler that ran a test in scope has scores from 0 to 100 which follow the documented algorithm: every value is placed on the range of all handlers for its test, 100 for the best and 0 for the worst; data in which all handlers are the same do not count, and if nothing tells them apart the score is 100. Scores by test, by data item, original and default combine these as documented, tests out of scope have no influence and no score, and a handler that is nowhere worse than another one in the same tests never scores less. The exhibits show the weights and tests used.",
     ["inputs", "configurations"], "all benchmark data, weights and included and excluded tests",
     "One test compares the scores of one recorded file.",
     [SC + "axis/benchmarks.go", SC + "axis/bench/original.go", SC + "axis/bench/data.go", SC + "axis/common/range.go", SC + "score/average.go"],
     [("scoring", SC + "axis/benchmarks.go Setup"), ("original scoring", SC + "axis/bench/original.go HandlerTest")],
     "runtime monitor comparing all scores with an independent computation, and checking order by dominance, on generated data",
     "Held on the generated data; handlers without any test in scope are left open.", (), ["ScoreFor, ScoreForType, ScoreForTest, HasTest, Exhibits of axis.Benchmarks"])
prop("C21", "Warning scores follow the documented algorithm and stay between 0 and 100",
     "For any reported warnings and weights of levels, each handler has a score from 0 to 100: at each level 100 less the share of the warnings issued by anyone at that level which the handler issued, combined by the weights; a handler without warnings scores 100, and one whose warnings are among those of another never scores less than that one. The original score and the counts by level are as documented, however often a warning was issued and whichever suite reported it.",
     ["inputs", "configurations"], "all sets of warnings by handler and weights of levels",
     "No test scores warnings.",
     [SC + "axis/warnings.go", SC + "axis/warn/original.go", SC + "axis/warn/data.go", SC + "axis/common/range.go"],
     [("scoring", SC + "axis/warnings.go Setup")],
     "runtime monitor comparing all scores with an independent computation, and checking order by inclusion, on generated reports",
     "Held on the generated reports of predefined and other warnings.", (), ["ScoreFor, ScoreForType, ScoreForLevel, CountForLevel, Exhibits of axis.Warnings"])
prop("C22", "Score keepers compare the handlers they name, whoever reads them",
     "A filter keeps exactly the names it includes, or all but those it excludes, through any nesting of groups. A score keeper lists exactly the benchmarked handlers its filter keeps, in order, with the scores its axes give on their own; the keepers of the repository compare the handlers and use the weights and tests their pages name. Keepers are found under their tag, refused when the tag is taken, and listed by name with special ones last. Any number of goroutines can read keepers and axes at once, without data races, and see the same.",
     ["inputs", "configurations", "schedules"], "all filters, groups, axes and data, and all interleavings of readers",
     "Tests ask a few filters for fixed names; keepers are untested, and nothing is read concurrently.",
     [SC + "score/filter.go", SC + "score/keeper.go", SC + "keeper/setup.go", SC + "group/dedup.go", SC + "filter/basic.go", SC + "axis/common/data.go"],
     [("filters and groups", SC + "score/filter.go"), ("choice of handlers", SC + "score/keeper.go Setup"), ("registry", SC + "score/keeper.go AddKeeper")],
     "race detector and model-based monitor over generated filters and keepers, read concurrently",
     "Held on generated filters, keepers and data and on the schedules that occurred; snqk/meld is represented by its name only, since its module is not available offline.", (), ["results of all accessors of keepers, axes and filters"])
prop("C26", "The web server shows the data it was given, on every page and to everyone",
     "From any benchmark and verification output the server offers, for each test and handler, a page holding exactly its results, warnings and instances, with names, texts and records shown as text; the scores, charts, weights and texts of a score page are those of its keeper, and each control of a page shows the part it names. Every link of a page leads to a page that exists, of something that exists; unknown pages and charts are refused, and the page of an unknown test, handler or file shows no results; no request makes the server fail or answer with nothing. Answers do not depend on what was requested before, how many requests are served at once, or which process serves them.",
     ["inputs", "histories", "schedules"], "all benchmark and verification outputs, all requests, their orders and interleavings",
     "The command has no test.",
     ["cmd/server/server.go", "cmd/server/text.go", "cmd/server/chart/bar.go", "cmd/server/chart/score.go", "cmd/server/chart/cache.go", "internal/data/setup.go", "internal/scoring/keeper/setup.go"],
     [("pages", "cmd/server/server.go pageFunction"), ("charts", "cmd/server/chart/bar.go, cmd/server/chart/score.go")],
     "end-to-end monitor which runs the server under the race detector, follows every link in turn and concurrently, runs the scripts of its pages and uses their controls, and compares pages and charts with its own reading of the input",
     "Held on generated sites and one recorded site; how charts look beyond the length, order and labels of bars and points is left open.", (), ["HTTP answers", "log of the server"])
VT = "verify/tests/"
prop("C23", "The verification suite passes exactly the handlers that keep to the documentation",
     "The verification suite passes a handler that does what the documentation of log/slog asks for, without a warning, however its lines look: order of fields, white space, escapes, number of writes, with or without access to the handler. A handler that breaks the contract fails, unless the warnings for just that are marked and enabled: then the suite passes and reports the warning, and nothing that was not marked. Marks of other warnings never hide a flaw; a mark without reason changes no verdict and is reported as unused. What is printed is what was reported, each with the name of the test that found it.",
     ["inputs", "configurations", "histories"], "all handlers and sets of marks",
     "The suite runs on twenty handlers of the world as they are; nothing tests what it says about handlers that are right or wrong in a known way.",
     [VT + "suite.go", VT + "checks.go", VT + "documented.go", VT + "slogtest.go", VT + "replace.go", VT + "other.go", VT + "complex.go", VT + "duplicate.go", "infra/warning/manager.go", "internal/json/counter.go"],
     [("tests", VT + "documented.go"), ("marks", "infra/warning/manager.go HasWarning")],
     "runtime monitor which runs the suite on handlers with known behaviour in many looks and compares the verdict with what is known",
     "Held on the listed flaws and their combinations, apart from the known findings; marks which change what the suite expects from a handler without the flaw are left open.", (), ["verdict of the tests", "GetWarnings", "text of ShowWarnings"])
BT = "bench/tests/"
prop("C24", "The benchmark suite measures what it says and notices handlers that do not log",
     "For every benchmark the suite makes a logger of its own, runs it once on trial and then as often as the result line says, and every run is one record handled and written; records lost or doubled fail the benchmark, which then has no result. Throughput belongs to the length of the output. A handler that leaves out or changes what a benchmark looks at is named by just that benchmark, others are not; a handler without fault gets no complaint. Benchmarks that need a handler are skipped and named if there is none. The output names the handler, and parsing it yields these results.",
     ["inputs", "configurations", "schedules"], "all handlers, numbers of runs and interleavings of parallel runs",
     "The baseline runs no benchmark.",
     [BT + "suite.go", BT + "benchmarks.go", BT + "checks.go", BT + "utility.go", "internal/test/writer.go", "internal/misc/function.go", "internal/data/bench_parser.go"],
     [("harness", BT + "suite.go Run"), ("trial run", BT + "checks.go")],
     "race detector and runtime monitor which runs the suite on handlers with known behaviour that count their work",
     "Held on the listed flaws, apart from the known findings; trusts package testing for the measured times.", (), ["results printed by package testing", "GetWarnings", "records handled by the handlers"])
CR = "creator/"
prop("C11", "Creators make the handlers they name, with the options they are given",
     "A creator makes, for the writer and options given, the handler its name stands for: it logs what that handler logs when made directly. Every handler of a creator writes to its writer only, logs records exactly if their level is at or above the level of the options, also while a variable level changes, and keeps message, level, attributes, source and replacements; the options stay as they are. Levels of other libraries have the same thresholds. Creators tell name, summary and links as given, can make a handler if they have the function for it, and a logger always; one without a name or without any function is refused.",
     ["inputs", "configurations", "histories"], "all options, level changes and records",
     "Tests build a handler with one set of options each, and never change a level.",
     [CR + "madkinsflash/creator.go", CR + "madkinsreplattr/creator.go", CR + "phusluslog/creator.go", CR + "phsymzerolog/creator.go", CR + "samberzap/creator.go", CR + "samberlogrus/creator.go", CR + "samberzerolog/creator.go", CR + "veqryndedup/creator.go", CR + "veqryndedup/mode_enumer.go", CR + "utilzap/conversion.go", CR + "utillogrus/conversion.go", "infra/creator.go", "infra/options.go"],
     [("creators", "infra/creator.go NewHandler, NewLogger"), ("levels", CR + "utilzap, " + CR + "utillogrus")],
     "runtime monitor comparing created handlers with handlers made directly, over histories of level changes and records",
     "Held on generated options, level changes and records; chanchal, svcrunner and snqk/meld cannot be built offline.", (), ["lines written", "Enabled", "options after use"])
prop("C19", "The trace handler shows every call once, in order, where it was made",
     "Every call of Enabled, Handle, WithAttrs or WithGroup on a trace handler puts exactly one line on standard output before it returns: the indent of the handler, the method, and the arguments, for a record its level, message and attributes. Handlers derived from it are indented by two more spaces; a handler itself keeps its indent. Enabled is always true and Handle never fails. Lines of concurrent calls stay whole.",
     ["inputs", "histories", "schedules"], "all trees of handlers, calls and interleavings (texts without line breaks)",
     "The trace handler has no test.",
     ["handlers/trace/handler.go"],
     [("calls", "handlers/trace/handler.go show, recordImage")],
     "race detector and trace checker reading standard output after every call",
     "Held on the generated trees and calls.", (), ["standard output"])
WA = "infra/warning/"
prop("C27", "Every warning made is kept, found by its name and listed with its level, and its text is shown as written",
     "A warning made is found by its name, as it was made, from then on; whoever makes a warning of the same name, later or at the same time, gets that same warning unchanged. The lists of the levels together hold every warning made until then exactly once, each list sorted by name, with those made after an earlier listing as well. Names of levels are read in any case of letters, anything else is refused. Descriptions are shown as the HTML of their Markdown without its common indentation, whatever their length, with carets read as back quotes; a text is rendered alike every time, in any order and concurrently. All of this may be used from several goroutines.",
     ["inputs", "histories", "schedules"], "all warnings, histories of making, finding and listing, documents and interleavings",
     "Tests count the predefined warnings and render one description.",
     [WA + "warning.go", WA + "level.go", WA + "required.go", WA + "implied.go", WA + "suggested.go", WA + "admin.go", WA + "benchmark.go", "internal/markdown/html.go"],
     [("registry", WA + "warning.go NewWarning, ByName, WarningsForLevel"), ("text", WA + "warning.go fixDescription, internal/markdown/html.go")],
     "race detector and history monitor of the warning registry; documents with known HTML",
     "Held on generated histories, races and documents; indentation is made of spaces and tabs.", (), ["lists", "warnings found by name", "HTML of descriptions"])
