"""Source of properties.jsonl and MANIFEST.json (run tools/gen.py)."""
PROPS = []
TECH = {}


def P(id, title, statement, over, text, why, files, mechanism, observe, technique, level, note, state=()):
    PROPS.append({"id": id, "title": title, "statement": statement,
                  "quantifier": {"over": over.split(), "text": text},
                  "why_tests_cant": why,
                  "anchors": {"files": files.split(),
                              "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                              "mechanism": [dict(zip(("name", "where"), m)) for m in mechanism],
                              "observe_at": observe, "hook_needed": None}})
    TECH[id] = (technique, level, note)


CACHE_STATE = [("the cache directory of a trace", "metadata (md5, basetime, params) and one file per event", "trappy/ftrace.py")]

P("C07", "A load served from the cache equals a fresh parse",
  "Whatever was loaded before (also by the other of FTrace and SysTrace), loading a trace with the cache enabled gives exactly the events, times, columns, values and "
  "kinds of values (integer, float, text, missing), basetime, endtime and duration that parsing it afresh with the same "
  "arguments gives. Loading never changes the trace file.",
  "histories inputs configurations",
  "every sequence of loads of a trace, over load configurations (scope, events, window, abs_window, normalize_time, parser "
  "registrations) and payloads that a textual store could confuse",
  "Tests load one trace twice with one configuration; the guarantee is about every order of partially overlapping loads and "
  "every value that can appear in a payload.",
  "trappy/ftrace.py trappy/base.py",
  [("cache lookup keyed by the parameters of the load", "GenericFTrace.__init__/_check_trace_cache"),
   ("typed serialisation of the event tables", "Base.write_cache/read_cache")],
  ["FTrace/SysTrace constructor arguments and the data_frame of every event"],
  "explicit-state model checking of the real code: BFS to fixpoint over cache directory states", "model_checking",
  "Fixpoint over the reachable directory states, so load histories of every length over the alphabet of configurations and "
  "payloads; nothing is said about payload values outside the alphabet.", CACHE_STATE)

P("C08", "A cache never serves data of a superseded trace",
  "However a trace file has been replaced since its cache was written (same size, same modification time, header only, "
  "appended, swapped with another trace, cache files missing or copied from another trace), a load returns the data of the "
  "current content of the file. An unchanged trace is served from its cache.",
  "histories configurations",
  "every sequence of loads, replacements, swaps and removals of cache files over six trace contents and up to four load "
  "configurations",
  "Tests check one modification of one trace; staleness depends on the whole history of files and caches.",
  "trappy/ftrace.py", [("content checksum in the cache metadata and in each cached table", "GenericFTrace._check_trace_cache")],
  ["event tables after each load", "cached flag of the events"],
  "explicit-state model checking of the real code: BFS to fixpoint over directory states", "model_checking",
  "Fixpoint of the reachable directory states for the alphabet; two contents with equal MD5 are taken to be equal.", CACHE_STATE)

P("C09", "A load that dies at any point leaves nothing that falsifies later loads",
  "If the process that loads a trace is killed at any moment, every later load of that trace succeeds and returns what a fresh "
  "parse returns, and so does every load after that, even if the recovering load is killed too.",
  "crash_points histories configurations",
  "every mutating file operation and every byte boundary of every write of the load, from cold, warm, partly warm and stale "
  "caches; thorough: two consecutive crashes",
  "No test kills a load; the states left behind by torn writes are never produced.",
  "trappy/ftrace.py trappy/base.py", [("cache files appear only complete, by atomic replacement", "GenericFTrace._update_cache/_replace_cache_file")],
  ["event tables of the loads that follow the crash"],
  "exhaustive crash-point enumeration on the real code under an interposed libc", "fault_enumeration",
  "All crash points of the process (not power loss: the code promises no fsync) within the stated scenarios.", CACHE_STATE)

P("C10", "File system errors around the cache never fail or falsify a load",
  "A load of a readable trace succeeds with the data of a fresh parse even if any file operation on its cache fails (no space, "
  "read-only, no permission, I/O error, damaged or alien cache contents), once or persistently, and later loads are right too.",
  "fault_sequences configurations",
  "every file operation that a load performs on the cache, times every errno of the alphabet, once or followed by failure of "
  "every later modification, from cold, warm, stale and damaged caches",
  "Tests only use a healthy file system.",
  "trappy/ftrace.py trappy/base.py", [("cache errors are warnings, the trace is then parsed", "GenericFTrace._load_cache_metadata/_create_cache/_update_cache")],
  ["event tables of the disturbed load and of the loads that follow"],
  "exhaustive fault injection on the real code under an interposed libc", "fault_enumeration",
  "Every single fault, and every fault followed by a persistently failing file system; not arbitrary pairs of faults.", CACHE_STATE)

P("C11", "Concurrent loads of a trace never produce wrong data",
  "When two processes load the same trace at the same time, or one loads it while another replaces it, each load of an "
  "unchanging trace returns what a fresh parse returns, and every load that starts afterwards returns the data of the then "
  "current content.",
  "schedules configurations",
  "every interleaving of the file operations of two processes with at most 1 (thorough: 2) preemptions, per scenario",
  "Tests are sequential; the orderings of two loads are never controlled.",
  "trappy/ftrace.py trappy/base.py", [("checksum computed before parsing and re-checked before publishing; atomic replacement",
                                      "GenericFTrace.__init__/_update_cache")],
  ["event tables of both loads and of the loads that follow"],
  "stateless model checking of two real processes: all schedules up to a preemption bound", "model_checking",
  "All schedules up to the preemption bound with a scheduling point at each file operation.", CACHE_STATE)

P("C01", "Every line that reports a selected event becomes exactly one row",
  "Loading a text trace yields, for each selected event, exactly one row per line that reports it, in file order, with the printed "
  "command name, pid, cpu, tgid (when printed), line number and time, whatever the optional parts of the line (flags, tgid, "
  "placeholders) and the characters of the command name; lines that do not report a selected event (headers, comments, lost-event "
  "notices, other events) yield none.",
  "inputs configurations",
  "every combination of the optional parts of a line, every command name up to a length over the delimiting characters, every file "
  "of up to N lines over an alphabet of line kinds",
  "Tests parse a few well-formed lines; the regular expression that splits a line is ambiguous for unusual names and optional parts.",
  "trappy/ftrace.py trappy/base.py",
  [("line splitting", "GenericFTrace.populate_data_from_file/__add_trace..., FTRACE line regexps"), ("row assembly", "Base.append_data/create_dataframe")],
  ["__comm, __pid, __cpu, __tgid, __line columns and index of every event's data_frame"],
  "bounded exhaustive model checking: every input of the bounded language run on the real parser against a reference model",
  "model_checking", "All inputs of the bounded language; a command name that starts with a blank is excluded.")

P("C02", "An event payload is decoded into exactly the fields it prints",
  "The key=value payload of an event without a special parser becomes one column per printed field: integers (decimal, or with a "
  "0x, 0o or 0b prefix, signed or not) as integers, exact at any magnitude, everything else (decimals and zero-padded numbers too) as "
  "the printed text; the last of repeated fields wins; a word without '=' continues the text value before it; an array 'k={1 2 3}' "
  "becomes columns k0, k1, ... padded with 0 to the longest k of the event, nothing where it is empty, wherever in the trace the "
  "empty or longest ones stand; fields a line does not print are missing. A payload that starts with a bare word raises TrappyParseError.",
  "inputs histories",
  "every value text up to a length over the characters of numbers, every sequence of field shapes, every file of up to N lines "
  "over array payloads, every pair of large integers",
  "Value texts that are almost numbers, mixed types in a column and arrays that appear late are never combined in tests.",
  "trappy/base.py trappy/ftrace.py", [("field splitting and conversion", "Base.append_data/generate_data_dict/parse_raw arrays")],
  ["cells of the data_frame"],
  "bounded exhaustive model checking: every payload of the bounded language run on the real parser against a reference decoder",
  "model_checking", "All payloads of the bounded language; integers beyond 2**53 only in columns without missing values.")

P("C03", "Events with a built-in parser give their documented columns",
  "Every event with a built-in parser (sched, cpufreq, cpu_idle, thermal power allocator and actor, devfreq, fs, function-graph, "
  "syscall, tracing_mark_write ...) loaded from what trace-cmd prints for it has exactly its documented columns with the printed "
  "values: renamed cpu columns, the __-free names, cpu masks, unpacked per-cpu loads and requests, state -1 for an idle exit; "
  "alone, in any pair, and mixed with all other events. The grammar takes the data of an event apart by the event's pivot (its cpu, mask, zone or task column).",
  "inputs histories configurations",
  "35 built-in events; every combination of small field domains, all ordered pairs of rows, all rotations of a trace with all events",
  "Tests check one or two lines of some of the events.",
  "trappy/sched.py trappy/thermal.py trappy/pid_controller.py trappy/cpu_power.py trappy/devfreq_power.py trappy/fs.py "
  "trappy/idle.py trappy/function.py trappy/syscall.py trappy/systrace.py trappy/base.py",
  [("finalize_object / generate_data_dict of each event class", "trappy/*.py event classes")],
  ["columns and cells of trace.<event>.data_frame"],
  "bounded exhaustive model checking: all printed field combinations run on the real parsers against per-event reference tables",
  "model_checking", "All combinations of the field domains, pairs of rows bounded as stated in the evidence.")

P("C04", "Event times are unique, increasing, ordered and consistently normalised",
  "In every loaded trace the times of the rows strictly increase in the order of the file, over all events together. A line that prints a "
  "time later than all before it has exactly that time; one that repeats or goes back has a time less than 1 ns after the latest "
  "printed before it. basetime is the time of the first event of the trace, selected or not, endtime that of the last; get_duration "
  "is the span of the loaded rows; normalised times are absolute times minus basetime, for us, ns-decimal and integer-ns clocks alike.",
  "inputs histories",
  "every sequence of up to N lines over repeated, increasing and backwards times, three clock formats, selected and unselected "
  "events, normalised or not",
  "Tests use one trace with a few duplicate timestamps.",
  "trappy/ftrace.py trappy/base.py", [("deduplication and unit of times", "GenericFTrace.__populate_data/Base.append_data"),
                                      ("normalisation", "BareTrace._normalize_time, get_duration")],
  ["index of every data_frame, basetime, endtime, get_duration()"],
  "bounded exhaustive model checking: all line sequences run on the real code against the timing rule",
  "model_checking", "All sequences within the bounds; times below 1e6 s.")

P("C05", "A time window keeps exactly the events inside it",
  "Loading with window=(a, b) keeps exactly the events with basetime+a <= time <= basetime+b, abs_window=(c, d) those with "
  "c <= time <= d (an end of None is open), both given keep the intersection; the rows are those of the unrestricted load, for "
  "normalised and absolute times, with unchanged basetime and endtime, and get_duration is the span of what is kept.",
  "inputs configurations",
  "the full product of window and abs_window bounds before, at, between and after the events, times normalisation, for several traces",
  "Tests use a handful of windows and never both kinds.",
  "trappy/ftrace.py", [("window tests while reading", "GenericFTrace.__populate_data")],
  ["rows of every event, basetime, endtime, get_duration()"],
  "bounded exhaustive model checking: full product of window bounds on the real code against a filter of the unrestricted load",
  "model_checking", "Exact binary times, full product of the bounds.")

P("C06", "Scopes, event lists and registrations select exactly what is parsed",
  "After any history of register_dynamic_ftrace, register_ftrace_parser and unregister_ftrace_parser (and the deprecated names), a load has exactly "
  "the events its scope ('all', 'sched', 'thermal', 'custom') and events=[...] select, each served by the latest registered parser (or a generic one), "
  "with the rows of that event only; get_event/getattr by name finds them; parsers whose unique words overlap are refused; one "
  "trace's event list never leaks into another load. Text written to the trace marker is the row of a selected event it names, else of "
  "tracing_mark_write.",
  "histories configurations",
  "all histories of registrations and unregistrations up to a depth (merged by registry state), times the load configurations in every state",
  "The registry is global state; tests register a few events once.",
  "trappy/dynamic.py trappy/ftrace.py", [("registry", "dynamic.register_*/FTrace class_definitions"), ("selection", "GenericFTrace.__init__")],
  ["class_definitions, attributes and tables of loaded traces"],
  "explicit-state model checking: BFS over registry states of the real code", "model_checking",
  "All histories up to the depth over the alphabet of parsers.",
  [("parser registries", "event classes per scope", "GenericFTrace.thermal_classes/sched_classes/dynamic_classes")])

P("C12", "A SysTrace load parses exactly the trace section and its markers",
  "From an HTML page, SysTrace parses exactly the event lines of the trace section (after the begin marker or legacy title, from "
  "the first event line after the opening of the data script up to the next line that ends a script), wherever look-alike lines stand, counting lines from the "
  "first event. tracing_mark_write payloads 'X|pid|func|data' (X one capital letter) are decoded into event, pid (integer), func and data, as far as "
  "they are given; any other text stays in the column string unchanged. With the same arguments (or their defaults) rows, times and windows are those of an FTrace of the section. The number of cpus is one more than the highest cpu that "
  "reports a sched_switch, and unset without any.",
  "inputs",
  "every page of up to N lines over an alphabet of structural and look-alike lines, every marker of an alphabet, alone and in pairs, every placement of sched_switch lines",
  "Tests load two pages.",
  "trappy/systrace.py trappy/ftrace.py", [("section automaton", "SysTrace.trace_hasnt_started/trace_hasnt_finished"),
                                          ("marker decoding", "tracing_mark_write.generate_data_dict")],
  ["tracing_mark_write and event tables of a SysTrace; _cpus"],
  "bounded exhaustive model checking: all pages and markers on the real code against a three-state model of the page",
  "model_checking", "All pages and markers of the bounded languages.")

P("C13", "A load reads the right file, and leaves nothing behind when it fails",
  "Given a file or directory (then trace.dat or trace.txt), a load reads the documented file: NAME.dat if it exists beside the "
  "requested NAME, converted by one run of trace-cmd report, else the text NAME.txt, running nothing; only a raw text is a "
  "RuntimeError, no trace an IOError. When trace-cmd fails, is missing, or prints text that cannot be decoded or parsed, the load raises; "
  "no load leaves or alters files besides its cache, and the next good load is right. version and cpus are those that the header "
  "lines before the first event print first; the trace has the name asked for.",
  "inputs configurations fault_sequences",
  "every subset of candidate files x path argument x trace-cmd behaviour x cache state; all headers up to N lines",
  "Tests need a real trace-cmd and only cover its success.",
  "trappy/ftrace.py", [("file discovery and conversion", "FTrace.__init__/__generate_trace_txt/_do_parse")],
  ["contents loaded, exceptions raised, files in the trace directory and temporary directory"],
  "bounded exhaustive model checking: full product of file layouts and faults on the real code", "model_checking",
  "trace-cmd is imitated by a program found through PATH.")

P("C14", "Callbacks are called once per row, in the order of the trace, with the whole row",
  "apply_callbacks({event: fn}) calls fn exactly once for each row of its event, with a dict of every column of the row (names that are no "
  "Python identifiers too) and its time as Index; over several events the calls follow the order of the lines in the file, events that "
  "did not occur are never called, and an exception of a callback reaches the caller. It holds for plain, windowed and cached loads.",
  "inputs configurations",
  "every file of up to N lines over three events, equal and increasing times, an unselected event; every subset and order of the callbacks; "
  "plain, windowed, cold and cached loads",
  "Tests call it with one file and two events.",
  "trappy/bare_trace.py trappy/ftrace.py", [("merge of the events by line", "GenericFTrace.apply_callbacks")],
  ["calls of the callbacks: order, event, row contents"],
  "bounded exhaustive model checking: all files and callback maps on the real code against the lines of the file", "model_checking",
  "All files of the bounded language.")

P("C15", "A trace assembled by hand behaves as its events say",
  "After any history of add_parsed_event(name, table[, pivot]) and normalisations on a BareTrace, or on a loaded FTrace, the trace has exactly the "
  "events added, each with the given table, name and pivot; a name that the trace already has (an event, attribute or method) is refused "
  "with ValueError and nothing changes; get_duration is the latest minus the earliest time of all tables (0 without rows); get_filters(key) "
  "are the event names that the regular expression key matches somewhere; normalising subtracts the base from the times of every event; other traces are untouched.",
  "histories",
  "every history of up to N operations over six tables (one empty, one with repeated times), taken names and normalisations, from three initial traces",
  "Tests add one event to one trace.",
  "trappy/bare_trace.py trappy/base.py trappy/dynamic.py", [("adding events", "BareTrace.add_parsed_event"), ("duration, filters, normalisation", "BareTrace.get_duration/get_filters/_normalize_time")],
  ["attributes, tables, class_definitions, get_duration(), get_filters() of the trace"],
  "explicit-state model checking: BFS over the histories of operations on the real object", "model_checking",
  "All histories up to the depth, merged by the state of the trace.",
  [("events of the trace", "class_definitions, trace_classes and attributes", "BareTrace")])

P("C16", "Duplicate times are made unique and nothing else changes",
  "handle_duplicate_index(data, max_delta) of a Series or DataFrame with sorted times returns the same values in the same order (rows of one time in order of "
  "their __line, if there is one) on strictly increasing times: the first of equal times stays where it is, each further one comes after the one before "
  "it, at most max_delta (1e-6 by default) later, and before the next different time. Data without repeats keep their times. Names of columns and index stay. The data passed in are not altered.",
  "inputs", "every sorted index of up to N times over gaps far below, at and far above the increment, repeats at the end and in long runs, four increments, three kinds of data",
  "Tests have one index with a few repeats.",
  "trappy/utils.py", [("increments between equal times", "utils.handle_duplicate_index")],
  ["returned index and values; data passed in"],
  "bounded exhaustive model checking: all short indexes on the real code", "model_checking",
  "All indexes of the bounded language; distinct times at least 1e-7 s apart.")

P("C17", "A topology returns the levels that were put into it",
  "After any history of constructing a Topology(clusters) and add_to_level(name, groups), get_level(name) is the list of groups in the order added, 'cluster' and "
  "'cpu' levels follow from the clusters (one group per cpu), 'all' is one group of all nodes; flatten, get_node, get_index, has_level, level_span agree with them: "
  "level_span(level) is the number of its groups, and of 'all' the number of nodes. Unknown levels raise KeyError and topologies do not share levels.",
  "histories", "every history of up to N additions of seven group lists to three levels from five constructors; every query in every state",
  "Tests build two topologies.",
  "trappy/stats/Topology.py", [("levels", "Topology.add_to_level/get_level/flatten/level_span")],
  ["results of all queries"], "explicit-state model checking: BFS over the histories of operations on the real object", "model_checking",
  "All histories up to the depth over the alphabet.", [("level map", "groups per level name", "Topology")])

P("C18", "Triggers select the matching rows and aggregators combine them per group",
  "Trigger.generate(p) has exactly the times of the rows whose pivot is p and whose columns all match the filters (equal to a value, in a list, accepted by a "
  "function; value and list filters of columns the event lacks are ignored, a row without a value matches none of those), with the trigger's value: the constant, or the row's own value of the named column. MultiTriggerAggregator.aggregate(level, "
  "**kw) gives, per group of the level, the sum over the group's nodes of aggfunc(series of the node, **kw), where that series has the value of the trigger at its times and 0 "
  "at the other times of all triggers' events (a later trigger overrides an earlier one). Calls in any order and number do not influence each other, and filters are not altered.",
  "inputs histories",
  "every table of up to N rows over pivots, states and values x 13 filter sets x constant and column values; lists of up to three triggers over two events x four aggregation "
  "functions x topologies x all histories of up to three aggregate() calls",
  "Tests aggregate one table once with one trigger.",
  "trappy/stats/Trigger.py trappy/stats/Aggregator.py trappy/stats/Indexer.py", [("row selection", "Trigger.generate"), ("base series and combination", "MultiTriggerAggregator._aggregate/aggregate")],
  ["series returned by generate and aggregate"],
  "bounded exhaustive model checking: all tables, filters and call histories on the real code against sums computed from the rows", "model_checking",
  "All tables of the bounded language.")

P("C19", "Series are put on common times, aligned and correlated as specified",
  "get_unified_indexer and MultiTriggerIndexer have the sorted union of all times, series() is zero on it, get_uniform(d) steps by d from its first time up to before its last. shift_series(a, b, k) delays b by "
  "k samples (a by -k when k is negative), filling with NaN and cutting to the original length. align moves b so that the first ('front') or last ('back') non-zero samples of both coincide and returns that "
  "shift, 0 if one has none (NaN is not an event). Correlator.correlate(level) gives, per group, corrfunc of both group series resampled and shifted by the alignment that makes the 'all' level correlate best, "
  "and as total their mean, weighted by the number of samples of the group that are not 0 (no correlation counts as 0). plot() draws, for each group in rows of per_line, both series as they were correlated.",
  "inputs", "every pair of short series over {0, 1, NaN} x shifts x ends; every list of up to three indexes; every pair of small event histories of two traces x levels x two functions",
  "Tests align one pair and correlate one pair of traces.",
  "trappy/stats/Correlator.py trappy/stats/Indexer.py", [("shift and align", "Correlator.shift_series/align"), ("unified index", "Indexer.get_unified_indexer/get_uniform"), ("resampling and choice of shift", "Correlator.correlate")],
  ["returned series, shifts, indexes, correlations"],
  "bounded exhaustive model checking: all short series and event histories on the real code against plain list arithmetic", "model_checking",
  "All series of the bounded language; the weighting of the total is only bounded.")

P("C20", "Grammar expressions follow the table of operators",
  "Parser.solve evaluates operands (numbers, variables of pvars, calls of functions of pvars or of importable modules with any number of arguments) and operators as documented: ** binds tighter than prefix + and -, then * / // %, then "
  "+ -, then comparisons, then && || & |, each level from left to right, parentheses first, blanks ignored; the operators mean what they mean in Python. Text that is not an expression and unknown names raise an error, as do the operators themselves.",
  "inputs", "every sequence of up to three of 17 binary operators (four over one per level), prefixes at all places, all parenthesisings, nested calls with up to three arguments, number formats",
  "Tests solve about ten expressions; precedence and associativity only show in combinations.",
  "trappy/stats/grammar.py", [("operator table", "grammar.get_parse_expression/eval_binary_op/eval_unary_op"), ("calls and variables", "Parser._parse_func/_parse_var_id")],
  ["value or error of Parser.solve"],
  "bounded exhaustive model checking: all expressions of a bounded size on the real parser against a precedence climbing evaluator", "model_checking",
  "All expressions of the bounded language. Text after the parsable part of an expression is ignored by the code (known findings).")

P("C21", "Grammar accessors give each event's latest value at every time",
  "Whatever was solved before, event:column (by event name, pvars alias or class path) is a table with one column per pivot value of the event (one default column without pivot) on the sorted union of the times of all events accessed so far "
  "with that parser; its value at a time is the latest sample of that event, column and pivot value at or before it, missing before the first. Columns of the same name of different events stay apart. Only rows inside the parser's window "
  "(ends included) that match its filters (values or lists; columns an event lacks are ignored) count; an event without such rows raises. Operators and functions apply per time and pivot; ref(mask) gives all accessed data at the times where "
  "the mask holds; inspect() reports the class, number of rows, pivot and its values, and presence of the column.",
  "histories inputs configurations",
  "every history of up to N accessors of events that share times and column names, over all placements of their samples on three times; windows x filters; 30 expressions after all histories",
  "Tests super-index two events once; the result depends on what was accessed before and on how samples interleave.",
  "trappy/stats/grammar.py", [("super-indexing", "Parser._pivot/_pre_process"), ("window and filters", "Parser._get_data_frame"), ("inspect and ref", "Parser._parse_for_info/ref")],
  ["tables returned by solve and ref, dict returned by inspect"],
  "explicit-state model checking: all histories of accessors on the real parser against a model of the samples", "model_checking",
  "All histories up to the depth over the alphabet of tables; default fill, method and limit.",
  [("aggregated data of a parser", "columns accessed so far on the union of their times", "Parser._agg_df")])

P("C22", "A constraint selects the data that match its filters and window, per pivot value",
  "A plot constraint over a table (a DataFrame or an event of a trace), a column, a pivot, filters and a window gives, for each value of the pivot column (one series if there is no pivot), the column's values at the times of the rows with that "
  "pivot value whose every filtered column has one of the listed values, in order of time; filters on columns the table lacks are ignored, a row without a value matches no filter, missing values of the column itself stay, and a pivot value listed in no filter or without any row left is not a pivot value of the constraint. "
  "A window [start, end] keeps the rows inside it, ends included, together with the last time before it and the first after it; where nothing precedes or follows, nothing is added, and data all before or all after keep that one time. A table that lacks the column or the pivot gives no series. Tables, filters and windows passed in are not altered.",
  "inputs configurations",
  "all tables of up to N rows over pivot values, flags, equal and different times, missing values x 14 filters x 4 pivots x 2 columns, as DataFrame and as event; all windows of a half-step grid",
  "Tests build a handful of constraints over one table and never a window that starts before the data.",
  "trappy/plotter/Constraint.py trappy/plotter/Utils.py", [("row selection and pivot", "Constraint._apply"), ("window", "Constraint / AttrConf window handling"), ("pivot values", "Constraint.get_all_pivots/_get_pivots")],
  ["Constraint.result, Constraint.get_all_pivots"],
  "bounded exhaustive model checking: all tables, filters and windows on the real code against a loop over the rows", "model_checking",
  "All tables of the bounded language.")

P("C23", "Traces, columns and templates are combined into constraints as documented",
  "ConstraintManager pairs traces with columns and templates: zipped (the default), lists of equal length are paired one to one and a list of one (or a single value) is repeated; permuted (zip_constraints=False), every trace is combined with every column (each column with its template), traces first. "
  "Lists whose lengths neither agree nor are 1 raise an error. Each constraint knows its trace and its column's data; its label names trace, event and column. "
  "generate_pivots lists every pivot value of any constraint once, sorted as numbers if all are numbers (also in text, decimal or hexadecimal), else as texts; permuted, the pairs of each trace with each of them.",
  "inputs configurations",
  "all numbers of traces, columns and templates from 0 to N, single values and lists, zipped and permuted, frames and traces; all sets of up to N pivot values out of five kinds, in every distribution over up to three traces",
  "Tests have one shape each of zip and permutation, with pivots that are small whole numbers.",
  "trappy/plotter/Constraint.py trappy/plotter/Utils.py trappy/plotter/AbstractDataPlotter.py", [("expansion", "ConstraintManager._expand/_constraints"), ("pivot order", "ConstraintManager.generate_pivots")],
  ["constraints, labels and pivots of a ConstraintManager"],
  "bounded exhaustive model checking: all shapes of arguments on the real code against nested loops", "model_checking",
  "All shapes up to the bound; pivot values of one plot are all numbers or all texts.")

P("C24", "LinePlot and BarPlot draw every series once, in the right place",
  "LinePlot(...).view() and BarPlot draw, for any traces, columns and pivot: by default one axes per pivot value (titled 'pivot: value', or not at all without pivot) with the series of that value of every constraint; with concat=True one axes per constraint, titled with its label, with the series of all pivot values; "
  "with permute=True one axes per trace and pivot value, titled with the trace's name, with each column's series. Axes are laid out in rows of at most per_line; cells left over are removed. Every series is drawn exactly once with the values of C22 at their times, "
  "in the color and under the legend entry of its number (constraint, or pivot value if concatenated). Bars are grouped side by side or stacked. xlim and ylim limit the axes; colors, drawstyle, scatter, fill, map_label, title, legend_ncol, width and length are honoured, arguments registered for forwarding reach matplotlib; with no data at all an error is raised. view() again draws the same, and matplotlib's style is as before.",
  "inputs configurations",
  "all placements of up to 4 pivot values on up to 3 traces x 8 shapes of traces and columns x three modes x 1 to 4 plots per line, lines and bars; options on a subset",
  "Tests only check that plotting does not raise; what is drawn is never looked at.",
  "trappy/plotter/StaticPlot.py trappy/plotter/LinePlot.py trappy/plotter/BarPlot.py trappy/plotter/PlotLayout.py trappy/plotter/AbstractDataPlotter.py trappy/plotter/ColorMap.py",
  [("assignment of series to axes", "StaticPlot._resolve"), ("drawing", "LinePlot/BarPlot.plot_axis"), ("layout", "PlotLayout")],
  ["axes, lines, collections, patches, titles and legends of the matplotlib figure"],
  "bounded exhaustive model checking: all plots of a bounded language drawn by the real code, the figure compared with the rows", "model_checking",
  "All plots of the bounded language with the Agg backend; pixels are matplotlib's business.")

P("C25", "ILinePlot hands each figure the data of its series",
  "The page that ILinePlot displays has, for the same figures in the same order as LinePlot (zipped, permuted, concatenated, rows of per_line), the data of the figure's series as JSON: on the sorted union of their times, each series' own values at its own times (a repeated time made unique as by C16), "
  "between two of its samples the straight line in time (for step styles the value that a step of that style has), after its last sample that last value (the last one stays for steps), before its first one nothing. Labels, titles, colors, drawstyle, fill, scatter, limits, per_line, sync and group settings reach the page; "
  "xlim restricts the data as a window of C22; more data points than max_datapoints raise ValueError. Viewing again gives the same.",
  "inputs configurations",
  "all placements of two series on 4 times (with repeats) and of three on 3 x 4 draw styles; all placements of 3 pivot values on up to 3 traces x shapes x modes x per_line; all windows of a grid; options",
  "Tests only check that a page is produced.",
  "trappy/plotter/ILinePlot.py trappy/plotter/ILinePlotGen.py trappy/plotter/Utils.py trappy/plotter/AbstractDataPlotter.py",
  [("merge and interpolation", "ILinePlot._plot / ILinePlotGen._wrap_data"), ("page", "ILinePlotGen.add_plot/_add_graph_cell")],
  ["data and options in the displayed HTML"],
  "bounded exhaustive model checking: all plots of a bounded language displayed by the real code, the JSON compared with the rows", "model_checking",
  "All plots of the bounded language; what its JavaScript does with them is C36.")

P("C26", "get_trace_event_data gives the times each task ran, per cpu",
  "get_trace_event_data(trace, execnames, pids) returns, per task named 'comm-pid', one interval [start, end, cpu] for each sched_switch to it: from that time to the next sched_switch away from that pid or, if there is none, to the end of the trace; an interval during which the pid is switched in again before "
  "it is switched out (the switch out is missing) is dropped with a warning, other intervals of any task are not affected. Pid 0 and tasks named migration* are left out; execnames (one or a list) and pids (one or a list) select the tasks that match both. The names returned are those of the selected tasks and the domain is from the first to the last switch.",
  "histories inputs", "all histories of up to N switches over two cpus from 3 previous to 5 next tasks (renamed tasks, idle, migration, equal times, missing switches) x 9 filters; also through the parser",
  "Tests have two short traces; lost and renamed switches depend on the order of events.",
  "trappy/plotter/Utils.py", [("intervals from switches", "get_trace_event_data")],
  ["intervals, names and domain returned; warnings"],
  "explicit-state model checking: all histories of switches on the real code against looking ahead from each switch", "model_checking",
  "All histories up to the depth.", [("open interval of a task", "start time and cpu of the last switch to it", "get_trace_event_data")])

P("C27", "EventPlot hands all intervals over, by name and lane",
  "The page that EventPlot displays has, for data {name: [[start, end, lane], ...]}, under every name exactly its intervals grouped by lane in the order given; keys are the names given as keys whose total duration is not zero, those of greatest average duration (total/(count+1)) first; lanes are the lanes given, or num_lanes lanes "
  "named lane_prefix plus number; domain, stride, height, width, color map and summary settings reach the page. Without lanes and num_lanes, or with lanes not as documented, an error is raised. The data passed in are not altered.",
  "inputs configurations", "all lists of up to 3 intervals over 3 lanes x 3 durations for one name, of up to 2 for two names, 1 for three; all subsets of keys; 4 kinds of lanes; 6 sets of options",
  "Tests check lane grouping and averages for one data set.",
  "trappy/plotter/EventPlot.py", [("grouping and page", "EventPlot.__init__/_group"), ("order of names", "EventPlot average")],
  ["JSON in the displayed HTML"],
  "bounded exhaustive model checking: all data sets of a bounded language on the real code", "model_checking",
  "All data sets of the bounded language; what its JavaScript does with them is C35.")

P("C28", "Frequency and load tables have each cluster's latest value",
  "pivot_with_labels gives one column per label, on the sorted union of times, with the latest value of that label's mask (missing before its first); a mask without a label raises KeyError, a label without a mask has no column. num_cpus_in_mask counts the cpus of any mask as the kernel prints it. "
  "CpuInPower/CpuOutPower.get_all_freqs are the latest frequencies in MHz, those of the devfreq events the GPU's; get_load_data is the sum of the cpus' loads in percent; get_normalized_load_data is load*freq/(highest frequency seen for the cluster*its number of cpus), clusters of different size included. "
  "FTrace.get_all_freqs_data gives, per label, the latest input and output frequency, and the GPU's if both devfreq events are there. The events are not altered by asking.",
  "inputs histories", "all short tables over masks, values and mappings; all masks of 8 cpus and all single cpus up to 127; all sequences of up to N power events of two clusters and a GPU",
  "Tests look at one or two rows of one trace; which value is the latest of which cluster depends on how the events interleave.",
  "trappy/cpu_power.py trappy/devfreq_power.py trappy/ftrace.py",
  [("latest value per label", "pivot_with_labels"), ("cpus of a mask", "num_cpus_in_mask"), ("loads", "CpuInPower.get_load_data/get_normalized_load_data"), ("tables of a trace", "FTrace.get_all_freqs_data")],
  ["the tables returned; the data_frame of the events afterwards"],
  "explicit-state model checking: all sequences of power events parsed by the real code, against the latest event of each cluster", "model_checking",
  "All sequences up to the depth over an alphabet of ten events.")

P("C29", "Thermal plots draw each run's own data, in its own place",
  "For any list of runs, every function of plot_utils draws for each run its own axes (histograms: its own figure part), titled 'name - what', with exactly that run's data: plot_temperature the temperatures of the given thermal zone only (of all zones if none is given) and the governor's control temperature, "
  "or the governor's current temperature if there are no thermal events; plot_temperature_hist one histogram for each run that has temperatures; plot_load, plot_allfreqs, plot_freq_hists (outputs, then inputs, named by actor, with mean and deviation); plot_controller, plot_input_power, plot_output_power, "
  "plot_inout_power by actor; plot_weighted_input_power the requested power times the weight of that actor/1024, for the runs that have weights. Limits, sizes and axes given are used, also by the plot methods of the events themselves, which without axes make a figure of their own. The runs are not altered.",
  "inputs configurations", "all runs over contents (zones, clusters, GPU, governor, weights, number of actors), alone, in all pairs and triples, x zones, limits and axes",
  "Tests only check that plotting does not raise; the mixtures of runs that have and lack events are never plotted.",
  "trappy/plot_utils.py trappy/thermal.py trappy/pid_controller.py trappy/cpu_power.py trappy/devfreq_power.py",
  [("one axes per run", "plot_utils.plot_*"), ("lines of the governor", "ThermalGovernor.plot_*"), ("lines of the zones", "Thermal.plot_temperature")],
  ["axes, lines, patches and titles of the matplotlib figures"],
  "bounded exhaustive model checking: all lists of runs over an alphabet of contents plotted by the real code, the figures compared with the events", "model_checking",
  "All lists of the bounded language with the Agg backend.")

P("C30", "Plotters take the data they are told to, and refuse what is no data",
  "A signal 'event:column' or 'event:column:r,g,b' (numbers decimal or 0x) draws that column of that event of every trace, in that color; a signal of an unknown event or with missing, too many or malformed parts raises ValueError. Signals together with column or templates, tables without column, "
  "traces without signals and templates, and empty data raise ValueError, for all of LinePlot, BarPlot and ILinePlot. Exactly the keyword arguments registered as forwarding arguments (and not unregistered since) reach matplotlib. "
  "plot_trace of an FTrace, SysTrace, BareTrace or the path of one displays the intervals of C26 for the tasks selected, with a lane for each cpu.",
  "inputs configurations histories", "all signals over parts; all combinations of kinds of data, column, templates and signals; all histories of up to N registrations; plot_trace of all pairs of switches x kinds of traces x filters",
  "Tests try a handful of signals and check that something raises or not.",
  "trappy/plotter/AbstractDataPlotter.py trappy/plotter/StaticPlot.py trappy/plotter/ILinePlot.py trappy/plotter/PlotLayout.py trappy/plotter/Utils.py trappy/plotter/__init__.py",
  [("parsing of signals", "AbstractDataPlotter._parse_value/_describe_signals"), ("checks of the input", "AbstractDataPlotter._check_data"), ("forwarded arguments", "plotter.register_forwarding_arg"), ("tasks of a trace", "plotter.plot_trace")],
  ["what is drawn or displayed; exceptions"],
  "bounded exhaustive model checking: all inputs of a bounded language and all histories of registrations on the real code", "model_checking",
  "All inputs of the bounded language.", [("forwarded arguments", "names of the arguments that reach matplotlib", "trappy/plotter/AttrConf.py")])

P("C31", "Results and parameters of Workload Automation are read exactly",
  "get_results(path[, name]) of a results.csv (or a directory with one) has exactly, per workload and run id (the id without its _number, or name), the value of each run: the rows whose metric starts with Overall_Score, score or FPS, of run N for 'metric_N' or 'metric N' (N-1 for Overall_Score), else run 0; "
  "if a run is reported twice the first counts. combine_results has the columns of all results. plot_results(_benchmark) draws a bar of that height per run and run id, and enlarge_axis makes all results fit. SysfsExtractor.get_parameters gives each thermal parameter, cdevN_weight and trip_point_N_temp with "
  "the content of its file without the trailing newline, as an integer if it is one, nothing without a dump; pretty_print_in_ipython shows exactly them.",
  "inputs", "all metrics of a language; all results.csv of up to N rows; all pairs of results; all contents of parameter files",
  "Tests read one results file and one dump.",
  "trappy/wa/results.py trappy/wa/sysfs_extractor.py",
  [("run of a metric", "results.get_run_number"), ("tables", "results.get_results/combine_results"), ("parameters", "SysfsExtractor.get_parameters")],
  ["the tables, dicts, figures and pages returned"],
  "bounded exhaustive model checking: all files of a bounded language read by the real code", "model_checking",
  "All files of the bounded language.")

P("C32", "Exported notebooks keep everything but the marked lines",
  "Exporting a notebook keeps all lines of the HTML displays of its code cells in order, except those between the REMOVE_START and REMOVE_STOP marks and those with a REMOVE_LINE mark; each line with an IMPORT mark is replaced by the whole content of that file, and each with a SOURCE_LIB mark by a script tag of that library, "
  "the first time that file or library occurs in the notebook, and removed later. Other cells and outputs are not touched. Every notebook that an exporter exports gets its own copies.",
  "inputs histories", "all texts of up to N lines of 12 kinds; all pairs of texts as cells and as notebooks; all sequences of up to three pages of real plots, exported twice",
  "No test covers the exporter.",
  "trappy/nbexport/exporter.py trappy/plotter/ILinePlotGen.py trappy/plotter/EventPlot.py",
  [("filter", "TrappyPlotterPreprocessor.filter_output"), ("cells", "TrappyPlotterPreprocessor.preprocess_cell"), ("marks of the plots", "EventPlot._init_html/ILinePlotGen._add_graph_cell")],
  ["outputs of the cells; the exported HTML page"],
  "explicit-state model checking: all sequences of lines, cells and notebooks through the real exporter", "model_checking",
  "All sequences up to the depth.", [("inlined files and libraries", "what the page has already", "TrappyPlotterPreprocessor")])

P("C33", "compare_runs shows every kind of plot for all runs, and their parameters",
  "compare_runs(actor_order, map_label, [(name, path), ...]) loads every run under its name and draws exactly the figures of plot_temperature (of tz_id, if given), plot_load, plot_allfreqs, plot_controller, plot_input_power, plot_output_power, plot_freq_hists and plot_temperature_hist for all of them, in the size asked for "
  "(20 by 5 by default), and displays the sysfs parameters of the runs that have any. summary_plots does so for one run (title and path, the current directory by default). An actor_order that is no list or a map_label that is no dict raises TypeError, runs without power allocator events ValueError.",
  "inputs configurations", "all lists of one or two runs over contents x zones x sizes",
  "Tests check that some calls do not raise; on current pandas versions they could not run.",
  "trappy/compare_runs.py trappy/plot_utils.py trappy/wa/sysfs_extractor.py trappy/thermal.py",
  [("sequence of plots", "compare_runs"), ("summary", "summary_plots")],
  ["all matplotlib figures; displayed tables; exceptions"],
  "bounded exhaustive model checking: all lists of runs of a bounded language on the real code, the figures against those of the single functions (decided by C29)", "model_checking",
  "All lists of the bounded language.")

P("C34", "Event tables survive a CSV file, and tasks are found by name",
  "What write_csv of an event writes, read_csv of any event reads: the same times, columns, rows and values (integers, floats to the last digit, texts, missing values). SchedLoadAvgTask.get_pids(key) lists every (comm, pid) of the trace whose comm contains key once; without key, all.",
  "inputs", "all tables of up to N rows of 14 kinds of values; all sequences of up to N tasks x keys",
  "Tests write one trace.",
  "trappy/base.py trappy/sched.py", [("CSV", "Base.write_csv/read_csv"), ("search", "SchedLoadAvgTask.get_pids")],
  ["data_frame after read_csv; the list returned"],
  "bounded exhaustive model checking: all tables of a bounded language written and read by the real code", "model_checking",
  "All tables of the bounded language; texts that look like numbers or missing values are excluded.")

P("C35", "The page of EventPlot shows the intervals of the visible window",
  "At any time the EventPlot page draws, in the lane and color of each name (its color of color_map, if it has one), the intervals that lie in the visible window, clipped to it, at the positions its axis gives; those of at least 0.01 pixels are at least one pixel wide. Zooming, panning and brushing move the window within the domain; "
  "resizing keeps it. The summary shows the whole domain and marks the window. Markers A and B (right click, Ctrl + right click) stay at their times and their times and difference are shown; Ctrl + Alt + right click on an interval shows its name, start, end and duration and highlights it. Plots on one page don't affect each other; exported pages behave alike.",
  "histories inputs", "all lists of up to N disjoint intervals in one or two lanes, seen through all windows of a grid; all sequences of up to N of 17 user actions, with and without summary; options and pairs of plots",
  "The tests run no JavaScript.",
  "trappy/plotter/js/EventPlot.js trappy/plotter/EventPlot.py",
  [("search and clipping", "EventPlot.js search_data/_get_path/_process"), ("zoom, brush, resize", "EventPlot.js zoomed/_brushed_event/resize"), ("markers and information", "EventPlot.js contextMenuHandler/getCurrentInfo/updateInfo"), ("colors", "EventPlot.js colourAxis")],
  ["paths, axes, markers, rectangles and texts on the page after every action"],
  "explicit-state model checking: all sequences of user actions on the real page and JavaScript (node, stand-ins for the libraries), compared with a model of the view after every action", "model_checking",
  "All histories up to the depth; d3 and jQuery are stand-ins, no pixels are rendered.", [("window", "start and end of what is visible", "EventPlot.js zoomScale"), ("markers", "times of A and B, interval selected", "EventPlot.js startGuider/endGuider/contextRect")])

P("C36", "The page of ILinePlot draws every figure, joined with those of its group",
  "For every figure with data the page makes one Dygraph in the figure's element, with exactly its data, labels, title, legend, colors and options, as wide as the output area divided by the plots per line, also after the page was resized. Figures of a group (those of one ILinePlot, or of all with the same group) show a common window, that covers what each of "
  "them showed; if all of them ask for it they are synchronized, once. Joining never hides or reorders data: zooming out shows all of it. Figures without data and figures that left the page don't disturb others; plots that name no group share none. Exported pages behave alike.",
  "histories inputs", "all combinations of the values of 9 options; all sequences of up to N of: showing one of 6 plots, clearing the first or last one, resizing, zooming into a figure; 60 plots without group after each other",
  "The tests run no JavaScript.",
  "trappy/plotter/js/ILinePlot.js trappy/plotter/ILinePlotGen.py trappy/plotter/ILinePlot.py",
  [("graphs", "ILinePlot.js create_graph"), ("joining", "ILinePlot.js sync/purge"), ("groups", "ILinePlotGen.add_plot")],
  ["arguments and state of every Dygraph on the page after every action; live synchronizers"],
  "explicit-state model checking: all sequences of pages and user actions on the real pages and JavaScript (node, stand-ins for the libraries), compared with a model of the groups after every action", "model_checking",
  "All histories up to the depth; Dygraph and jQuery are stand-ins, no pixels are rendered.", [("graphs", "element, group and window of each graph", "ILinePlot.js graphs"), ("synchronizer of a group", "graphs it joins", "ILinePlot.js syncObjs")])

P("C37", "A second load of the same trace is served from the cache",
  "Whatever was in the cache directory before (nothing, the cache of another version of the trace, what a killed or failed load left behind, damaged, missing or unrelated files), once a load has completed undisturbed, loading that trace again (from any path, with any window or normalisation, by FTrace or SysTrace) for the same events or some of them is served "
  "from the cache, without parsing the trace again, and gives the same data; loads of other traces in the directory don't change that. A load with the cache disabled neither uses nor changes the directory.",
  "histories crash_points faults", "all sequences of up to N loads, changes of the trace, kills and failures at each file operation, leftovers, sibling traces and overlapping loads, then all pairs of configurations",
  "A cache that silently never works gives right data: no test notices. Which leftovers disable it depends on the history.",
  "trappy/ftrace.py trappy/base.py",
  [("use and renewal of the cache", "GenericFTrace._load_cache/_update_cache/_prepare_cache_dir"), ("cached events", "Base.write_cache/read_cache")],
  ["whether a load executes trappy code per line of the trace and reads it again after its checksum", "data of the loads", "the directory"],
  "explicit-state model checking: breadth first over the directories reached by all histories on the real code with an interposed libc, every pair of loads from each", "model_checking",
  "All histories up to the depth.", [("cache of a trace", "set of events whose cached data are those of the current trace", "ftrace.py _trace_cache_path")])

P("C38", "The scripts of the plotters are installed whole, or an error is raised",
  "iplot_install puts every resource of the plotter where the page refers to it: scripts of trappy are copied on every install, libraries are downloaded unless they are there already (so that no network is needed then). If a library can't be received, ImportError is raised. Whatever failed, was killed or runs at the same time, a resource that is in place is "
  "whole, none is lost, failures leave no other files, and the next install with a working network completes it.",
  "histories crash_points faults schedules", "all sequences of up to N installs of both plotters x 6 behaviours of the network at each library, kills at every modification of the directory, file system errors at every operation; all schedules of two installs, or an install and a reader, up to N preemptions",
  "No test installs anything; what is left behind by failures shows at the next install only.",
  "trappy/plotter/IPythonConf.py trappy/plotter/EventPlot.py trappy/plotter/ILinePlotGen.py trappy/plotter/ILinePlot.py",
  [("install", "IPythonConf.iplot_install/install_resource"), ("module paths", "EventPlot._init_html, ILinePlotGen._add_graph_cell")],
  ["files of the data directory after every action", "downloads made", "exceptions", "module paths in the pages"],
  "explicit-state model checking: all histories and schedules of installs on the real code with an interposed libc and a stand-in for the network", "model_checking",
  "All histories and schedules within the bounds.", [("installed resource", "missing, whole or outdated", "IPythonConf.install_resource")])

P("C39", "A published notebook needs no local script and is the same otherwise",
  "publish_interactive_plots.py writes a notebook (named with -o, or published_NAME in the working directory) that equals the given one except that every script that its plots located in the local plotter_scripts directory is located in the web, at the path from which require.js gets the library that the plotters install. The result is UTF-8 in any locale and is "
  "trusted; the source is not altered.",
  "inputs configurations", "all notebooks of up to N cells out of 7 kinds (pages of both plotters, text, other outputs) x 6 ways to name the result; 3 locales",
  "The script has no tests.",
  "scripts/publish_interactive_plots.py trappy/plotter/IPythonConf.py",
  [("replaced paths", "change_resource_paths"), ("files and trust", "publish")],
  ["the published notebook, its signature, the source"],
  "bounded exhaustive model checking: all notebooks of a bounded language published by the real script", "model_checking",
  "All notebooks of the bounded language.")
