#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source of the property texts)."""
import json, os

T = "pipit/trace.py"
P = []


def prop(id, title, statement, over, qtext, tests, files, mech, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append(
        dict(
            id=id, title=title, statement=" ".join(statement.split()),
            quantifier=dict(over=over, text=" ".join(qtext.split())),
            why_tests_cant=" ".join(tests.split()),
            anchors=dict(
                files=files,
                state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                mechanism=[dict(name=n, where=w) for n, w in mech],
                observe_at=list(observe), hook_needed=None,
            ),
        )
    )


prop("C01", "Every leave is paired with the right enter, and only with that",
     """At every process and thread, a leave event is paired with the most recent earlier, still unpaired enter event
     of the same name at the same process and thread, and with nothing if there is none. The pairing is mutual: both rows
     of a pair name each other's row and each other's timestamp, and every other row (unmatched enters and leaves, instant and
     other events) names nothing. Computing it changes none of the recorded columns and not the order of the rows.""",
     ["inputs", "schedules"],
     """every recorded trace: any number of processes and threads, with or without threads, interleaved in any order, recursive,
     overlapping and unmatched calls, equal timestamps, any names, other event types""",
     """the one test pairs a single well-nested ping-pong trace with distinct timestamps; recursion, overlap, unmatched
     events, threads and ties are never paired there""",
     [T], [("event matching per execution location", T + ":_match_events")],
     [("open calls", "enters not left yet, per location", T + ":_match_events"),
      ("matching columns", "row and timestamp of the partner", T + ":_match_events")],
     ["the events table after matching"])

prop("C02", "Caller, callees and depth follow the calls open at the same location",
     """The parent of a completed call is the most recently entered completed call that is still open at its enter
     at the same process and thread, its depth is the number of such open calls, and the children of a call are exactly the
     calls that have it as parent, in the order they were entered. Calls that never complete take no part, and rows that
     are not the enter of a completed call have neither parent, nor depth, nor children.""",
     ["inputs", "schedules"],
     """every recorded trace, well nested or not, of any depth, width, and interleaving of processes and threads""",
     """the one test checks parents and children on a single trace of depth three, with no unmatched or overlapping calls,
     and no threads""",
     [T], [("caller/callee matching", T + ":_match_caller_callee")],
     [("call stack", "completed calls still open, per location", T + ":_match_caller_callee")],
     ["the events table after caller/callee matching"])

prop("C03", "A location's results depend on that location's own events only",
     """What is computed for the events of one process and thread (pairing, depth, parent, children, inclusive and
     exclusive metrics, calling context) is the same whichever other processes and threads the trace records, and however their events
     are interleaved with its own. In particular it is the same as in a trace that holds that process and thread alone.""",
     ["schedules", "inputs"],
     "every trace, every interleaving of its locations that keeps each location's own order, every subset of its locations",
     "the tests read a trace in one fixed interleaving and never compare it with another one or with a part of it",
     [T, "pipit/util/cct.py"],
     [("per-location filtering", T + ":_match_events, _match_caller_callee"), ("per-location walk", "pipit/util/cct.py:create_cct")],
     [], ["the events table after matching, metrics and CCT creation"])

prop("C04", "Inclusive metrics are the change from a call's enter to its leave",
     """The inclusive value of a completed call is, for the time and for every other numeric column of the trace or for the columns asked for, the value recorded at its
     leave minus the value recorded at its enter, on the enter's row. Every other row has no inclusive value, and the recorded columns are
     left as they are.""",
     ["inputs"],
     "every trace and every numeric column, including missing readings, negative changes, recursion and unmatched calls",
     "no test looks at an inclusive value directly; the time profile test sums exclusive ones of one trace",
     [T], [("inclusive metrics", T + ":calc_inc_metrics")], [], ["the .inc columns"])

prop("C05", "Exclusive metrics are inclusive minus the children, and add up",
     """The exclusive value of a completed call is its inclusive value minus the inclusive values of its direct
     children, for the time and for every other numeric column, and every other row has none. Hence the exclusive values of all the calls under a call, itself included,
     add up to its inclusive value: nothing is counted twice or lost.""",
     ["inputs"],
     "every trace (any depth and fan-out, recursion, unmatched calls) and every numeric column, asked for in any order",
     """the only test involved compares sums of exclusive times with the time profile, which uses the same code, on one trace""",
     [T], [("exclusive metrics", T + ":calc_exc_metrics")], [], ["the .exc columns"])

prop("C06", "The calling context tree has one node per distinct calling context",
     """Two enter events belong to the same node of the calling context tree if and only if they are of the same function and the innermost
     calls open around them belong to the same node, or there are no such calls; at whichever process or thread they are recorded. A call is open from its enter to
     the leave paired with it. A node's parent is the node of the innermost open call, its level is the parent's plus one (roots have zero), every
     node is listed once under its parent or as a root, and every enter row, and no other row, refers to its node; there are no other nodes.""",
     ["inputs", "schedules"],
     """every trace: any names (including ones that contain separators), recursion, overlapping and unmatched calls, any number of processes and threads""",
     "no test creates a calling context tree from a trace",
     ["pipit/util/cct.py", T, "pipit/graph.py"],
     [("CCT creation", "pipit/util/cct.py:create_cct")],
     [("node map", "calling context to node", "pipit/util/cct.py:create_cct")], ["the tree and the node column"])

prop("C07", "The flat profile sums per process and averages over the processes",
     """Per process, the flat profile gives for every function (or other grouping, of one or several columns) the sum of the metric over the calls
     that were entered at that process, where calls without a value count as nothing. Otherwise it gives the mean of these sums over the processes that entered the function at least once.
     No entered function is left out and no call is counted in another group.""",
     ["inputs", "configurations"],
     "every trace, one or several metrics (inclusive, exclusive, recorded), one or several grouping columns, per process or not",
     "no test calls the flat profile",
     [T], [("flat profile", T + ":flat_profile")], [], ["the returned DataFrame"])

prop("C08", "Load imbalance is maximum over mean, with the heaviest processes first",
     """For every entered function, load imbalance reports the mean over the processes that entered it of the per-process sum of the metric, the
     largest such sum divided by that mean, and the processes with the largest sums in descending order: as many as asked for, or as entered the function if these are fewer.
     Functions are listed by descending mean.""",
     ["inputs", "configurations"],
     "every trace, metric, and number of processes to show (including more than there are)",
     "no test calls it; on the original tree it failed for every trace",
     [T], [("load imbalance", T + ":load_imbalance")], [], ["the returned DataFrame"])

prop("C09", "Idle time adds up the idle calls of each process, and nothing else",
     """For every process of the trace once, idle time is the sum of the inclusive times of the completed calls at that
     process whose function is one of the idle functions given, and with MPI events requested also of the MPI wait, wait-all and receive functions. It depends on the trace
     and the arguments of that call only, and leaves the caller's list as it is.""",
     ["inputs", "histories", "configurations"],
     "every trace, every list of idle functions, with and without MPI events, after any earlier calls",
     "no test calls it; on the original tree the answer depended on earlier calls",
     [T], [("idle time", T + ":idle_time")], [], ["the returned DataFrame and the argument list"])

prop("C10", "The time profile accounts for all time of every interval exactly once",
     """The time profile splits the time from the first to the last event into intervals of equal length, and gives for each of them and each function the time
     during which a completed call of that function was running and none of its completed callees was, summed over all processes; amounts below a hundredth are shown as zero.
     The idle time of an interval is what remains of its length times the number of processes that entered a function; normalized, all amounts are divided by that product.""",
     ["inputs", "configurations"],
     "every trace whose completed calls are well nested, with incomplete ones or without, every number of intervals, normalized or not",
     "one test compares only the total per function over all intervals, on one trace; a wrong interval, idle time or normalization goes unnoticed",
     [T], [("time profile", T + ":time_profile")], [], ["the returned DataFrame"])

prop("C11", "The communication matrix counts every message once, at sender and receiver",
     """The communication matrix holds at row s and column r the number, or total size in bytes, of the messages whose send (blocking or not) is recorded at
     process s with receiver r, and zero elsewhere. The per-process totals are, for every process, the row sum as sent and the column sum as received,
     so both totals over all processes equal the number or size of all messages sent.""",
     ["inputs", "configurations"],
     "every trace with processes numbered from zero, any senders, receivers, sizes, self-messages, repeated pairs, receives and other instants in between",
     "two tests check one two-process ping-pong trace, where the matrix is symmetric and has one message size mix",
     [T], [("communication matrix", T + ":comm_matrix"), ("totals", T + ":comm_by_process")], [], ["returned array and DataFrame"])

prop("C12", "Communication histograms put every message in exactly one bin",
     """Communication over time splits the time from the first to the last event of the whole trace into equal intervals and gives the number, or total size, of the messages sent (or of those received) in each of them; the message
     histogram gives the number of sent messages in each equal interval of the range of their sizes (or in the intervals given). Intervals are closed below and open above, except that the last is closed, so every message is in exactly one of them.""",
     ["inputs", "configurations"],
     "every trace with messages, sends or receives, by size or count, every number of bins, messages on bin edges and at the ends",
     "one test checks one trace with one bin layout",
     [T], [("over time", T + ":comm_over_time"), ("histogram", T + ":message_histogram")], [], ["returned histogram and edges"])

prop("C13", "Multi-run analysis shows each run's own profile, by number of processes",
     """The multi-run table has one row per trace given, in the order given and labelled with that trace's number of processes, and one column per function (or other
     group) entered in any of the traces. An entry is the value of the metric's exclusive flat profile in that trace, missing exactly where that trace did not enter the function,
     and the columns are in descending order of their sums.""",
     ["inputs", "configurations", "histories"],
     "every list of traces, also of equal numbers of processes and of disjoint functions, every numeric metric and grouping column",
     "no test calls it",
     [T], [("multi-run", T + ":multirun_analysis")], [], ["the returned DataFrame"])

prop("C14", "Analyses give the same results whatever was called before, and how often",
     """Every analysis of a trace returns the same result whether it is the first call on that trace or follows any sequence of other analyses, and calling it again returns the
     same again. No analysis changes, reorders or removes recorded rows or columns, and a column it adds keeps the values it had when it was added,
     also when the caller changes what was returned. The trace's lists of calculated metrics name the columns calculated, each once.""",
     ["histories"],
     "every sequence of analysis calls (matching, metrics of any columns, profiles, idle time, communication, export, calling context tree) on every trace",
     "each test makes one analysis call on a freshly read trace",
     [T, "pipit/util/cct.py", "pipit/writers/chrome_writer.py"],
     [("columns cached in the events table", T)],
     [("derived columns", "present or absent", T)], ["results and events table after every call"])

prop("C15", "Options always hold a valid value that was set, or their default",
     """Reading an option returns the value most recently set successfully since the last reset of it (or of all options), or the default if there is none. Setting
     an unknown option, or a value that is not valid for it, raises an error and changes nothing; setting or resetting one option leaves the others alone.""",
     ["histories", "inputs"],
     "every sequence of get, set and reset calls with known and unknown names and valid and invalid values",
     "two tests try one valid set and one get per option, no reset and no failing set in between",
     ["pipit/util/config.py"], [("options", "pipit/util/config.py:get_option, set_option, reset_option")],
     [("current values", "per option", "pipit/util/config.py:global_config")], ["return values and errors"])

prop("C16", "The Chrome export has one faithful record per event, in order",
     """The Chrome Tracing export is a JSON array with one record per event in the order of the trace: its name, its phase (begin for enters, end for leaves, instant for instants, any other type as it is), its time in whole
     microseconds rounded down, its process, and where the trace has them its thread and attributes. It is returned as text when no file is named, the file named holds the same, and the trace is not changed.""",
     ["inputs", "configurations"],
     "every trace: any names, any event types and timestamps, with or without threads and attributes, with or without a file",
     "no test exports a trace",
     ["pipit/writers/chrome_writer.py", T], [("writer", "pipit/writers/chrome_writer.py:write")], [], ["returned text, written file"])

prop("C17", "Reading CSV keeps every event, in time order and recorded order at ties",
     """Reading a CSV trace yields one event per line with the values recorded there, whether times are given in nanoseconds or in seconds (which become nanoseconds).
     Events are in order of time, and events with equal times are in the order of the file.""",
     ["inputs"],
     "every CSV file of a trace, sorted or not, with equal times, with seconds or nanoseconds, threads or other columns, spaces after commas",
     "the tests read one file and never look at the order of equal times (which the original code shuffled)",
     [T], [("CSV reading", T + ":from_csv")], [], ["the events table"])

prop("C18", "Reading OTF2 yields each location's events, complete, in order, with origin",
     """Reading an OTF2 archive yields exactly one row for every recorded non-metric event of a CPU thread, with its kind (enter, leave, else instant), name (the region's for enters and leaves, else
     the kind of event) and attributes (none for leaves), at its process (location group) and thread (numbered within the process from its lowest location number). Times are nanoseconds from the clock's
     global offset at its resolution, rows are in order of time, and events of one location with equal times stay in recorded order.""",
     ["inputs", "configurations"],
     "every archive: any processes, threads, regions, clock resolution and offset, equal times, messages, calling context tree asked for or not",
     "two archives are read in the tests and the numbers of rows of two kinds compared",
     ["pipit/readers/otf2_reader.py"],
     [("serial reader", "pipit/readers/otf2_reader.py:events_reader"), ("merge", "pipit/readers/otf2_reader.py:read_events")], [], ["the events table"])

prop("C19", "OTF2 metric readings stay with the event they were taken for",
     """When an OTF2 archive records metrics, every metric that has a reading is a numeric column of the trace, and an event's row holds the values of the metric readings recorded immediately before it at its location
     at the same time, and is empty for an event that has no such reading. Metric readings make no rows of their own, however many metrics and classes of metrics there are.""",
     ["inputs"],
     "every archive with any number of metric classes and members, events with and without readings, equal times, several locations",
     "one archive with three metrics is read in the tests; values per event are not compared",
     ["pipit/readers/otf2_reader.py"], [("metric columns", "pipit/readers/otf2_reader.py:events_reader")],
     [("pending readings", "read, not attached to an event yet", "pipit/readers/otf2_reader.py:events_reader")], ["metric columns"])

prop("C20", "Reading Projections logs yields the log's records as events",
     """Reading Charm++ Projections logs yields one event for each record of a kind that is known (begin records enter, end records leave, others instant; a bracketed note is an enter and a leave), named after the entry method, user event or
     kind, with the record's time in nanoseconds, the processor of its log, and its details as attributes. A log whose last record is not the end of the computation gets that leave at the time of its last record;
     events are in order of time, and those of one processor with equal times in log order.""",
     ["inputs", "configurations"],
     "every directory of one or more logs with any sequence of records",
     "one directory is read in the tests; about ten of the record kinds never occur in it (four of them failed on the original tree)",
     ["pipit/readers/projections_reader.py"],
     [("log reader", "pipit/readers/projections_reader.py:_read_log_file"), ("symbol table", "pipit/readers/projections_reader.py:STSReader")], [], ["the events table"])

prop("C21", "The HPCToolkit timeline is properly nested and follows the samples",
     """For every trace line of an HPCToolkit database, after the events up to a sample's time the calls open are exactly the calling context of that sample, from the root down, and none while it is idle; only the calls in which
     two successive samples differ are left (innermost first) and entered (outermost first), at the time of the later one. All calls still open at the end are left at the time the database ends; times count from its beginning, and process and thread are the trace line's (process 0 without a rank).""",
     ["inputs", "histories"],
     "every calling context tree (functions, loops, lines, instructions) and every sequence of samples of any number of trace lines, with idle samples, repeats and equal times",
     "one database is read in the tests and some counts compared",
     ["pipit/readers/hpctoolkit_reader.py", "pipit/graph.py"],
     [("sample differencing", "pipit/readers/hpctoolkit_reader.py:TraceReader"), ("common ancestor", "pipit/graph.py:get_intersection")],
     [("open context", "context of the last sample", "pipit/readers/hpctoolkit_reader.py:TraceReader")], ["the events table"])

prop("C22", "HPCToolkit contexts keep their tree, names, files and lines",
     """The calling context tree read from an HPCToolkit database has a node for each entry point, function and loop context, under the nearest enclosing such context; line and
     instruction contexts stand for the node around them. Events of a context carry its function's name (the entry point's name, "loop" for loops, a placeholder if unknown), and its source file and line: its own, for functions called
     from an entry point the function's, else for functions those of the context around it.""",
     ["inputs"],
     "every database: any tree, any combination of function and source information, any text in names, any line numbers",
     "one database is read in the tests; names and nesting of one small tree are compared",
     ["pipit/readers/hpctoolkit_reader.py", "pipit/graph.py"],
     [("context tree", "pipit/readers/hpctoolkit_reader.py:MetaReader")], [], ["the events table and the tree"])

prop("C23", "Reading Nsight ranges yields balanced calls with consistent origins",
     """Reading an Nsight report of ranges yields one enter at each range's start and one leave at its end, with the range's name and other columns, in order of time. Processes are numbered from zero, one per process id, and
     threads, where thread ids differ from process ids, from zero within their process, one per thread id. Where the ranges of a thread are nested, so are the calls: each is a child of the smallest range around it, and ranges
     that follow each other, even at the same time, are siblings.""",
     ["inputs"],
     "every report: any nesting, equal starts and ends, empty ranges, one or several processes and threads, lines in any order",
     "no test reads a report",
     ["pipit/readers/nsight_reader.py"], [("reader", "pipit/readers/nsight_reader.py:read")], [], ["the events table"])

prop("C24", "Reading in parallel gives the same trace with any number of processes",
     """A trace read with any number of worker processes, more or fewer than its locations, is the same as read with one: every location is read exactly once, and the events,
     their order and their columns do not depend on how many workers there were or which finished first.""",
     ["schedules", "configurations"],
     "every number of worker processes, every number of locations, every order in which the workers finish, for both parallel readers (OTF2, Projections)",
     "the tests read each trace with one setting, and do not compare settings",
     ["pipit/readers/otf2_reader.py", "pipit/readers/projections_reader.py"],
     [("block partition", "events_reader, _read_log_file"), ("ordered collection", "read_events, read")],
     [("share of a worker", "consecutive locations", "events_reader")], ["the events table"])

prop("C25", "Common ancestors and paths in a context tree are the right ones",
     """The intersection of two nodes of a context tree is their deepest common ancestor, a node counting as its own ancestor, and is nothing if their roots differ or there is no second node; it is the same in
     either order. The path from a node down to a level lists the node and its ancestors with greater levels, from the node upwards, and a node's level is the number of its ancestors.""",
     ["inputs"],
     "every tree (or forest), every pair of nodes, every level",
     "the tests use the operation on one small tree through the HPCToolkit reader, never on nodes of different depths or roots by themselves",
     ["pipit/graph.py"], [("nodes", "pipit/graph.py:Node")], [], ["return values"])

prop("C26", "Patterns found are separate windows of consecutive calls, most similar first",
     """Pattern detection gives, for an event that is called repeatedly in a process, portions of the trace, each made of exactly the recorded rows of the trace at the times of a window of consecutive calls of the process
     between the event's first enter and its last leave. The windows have the asked-for number of calls, or else the number of calls divided by the number of iterations, which is the number of the event's enters
     unless it is given. The first window belongs to the pair of windows with the most similar series of metric values (correlation after normalising) among those far enough apart; the others follow in descending
     similarity to it, do not overlap an earlier one, and are no more than there are iterations. Recorded rows are not changed.""",
     ["inputs", "configurations"], "every trace with a repeated event, any window, iterations, process and metric",
     "no test calls it, and it takes a search over all pairs of windows to know which are the most similar",
     [T], [("pattern detection", T + ":detect_pattern")], [("window", "consecutive calls", "detect_pattern, window_size")], ["the returned list of tables"])

prop("C27", "OTF2 definitions: one row per definition, and references resolve",
     """After reading an OTF2 archive, the definitions table has exactly one row for every definition recorded in the archive, with its type, its number where it has one, and all its attributes as recorded, whatever
     the kinds of definitions and however they refer to each other. A reference is written as the type and number of what it refers to, so that it names exactly one row; the region a function event refers to is the
     row with that function's name.""",
     ["inputs"], "every archive: any definitions of any kinds, referring to earlier ones in any way",
     "the tests read two archives, and look at a handful of their definitions",
     ["pipit/readers/otf2_reader.py"], [("definitions", "read_definitions, fields_to_dict"), ("references", "field_to_val, handle_data")],
     [("registry", "definitions of one kind", "read_definitions")], ["the definitions table", "attributes of events"])

prop("C28", "The same recording in any format gives the same table and the same analyses",
     """Reading the same recording gives the same table whatever format it was written in (CSV, OTF2, Projections, HPCToolkit, Nsight): the same events at every process and thread, in order of time (events of different
     locations at one time in any order). Every analysis of the table read then gives what it gives for that recording: pairing, nesting, metrics, profiles, imbalance, idle time, time bins, messages, comparison of runs;
     its Chrome export has one record per event of it.
     Asking a reader for the calling context tree gives the same table, and the tree and links that creating it afterwards gives.""",
     ["inputs", "configurations"],
     "every recording that a format can express, in each of the five formats, any number of locations, any workers, any order in which the records of different locations are stored",
     "the tests read one fixed archive per format, most of which record different programs, and run most analyses on CSV traces written for them only",
     ["pipit/readers/otf2_reader.py", "pipit/readers/projections_reader.py", "pipit/readers/hpctoolkit_reader.py", "pipit/readers/nsight_reader.py", T],
     [("readers", "pipit/readers/*.read, pipit/trace.py:from_csv"), ("analyses", T), ("calling context tree on reading", "create_cct argument of the readers, pipit/util/cct.py:create_cct")],
     [("streams", "events of one location in order", "the recording"), ("table", "events of all locations merged by time", "Trace.events")],
     ["the events table, the tree, results of the analyses"])

prop("C29", "Incomplete, ambiguous or foreign recordings are refused, extra files ignored",
     """Reading Projections logs fails with a ValueError unless the path is a directory with exactly one .sts file and a log of that run for each processor it states. Otherwise exactly these logs are read, whatever other files
     there are and in whatever order the directory lists them. Reading an HPCToolkit database fails unless each of its three files (meta, profile, trace) exists and states to be HPCToolkit's of that kind. A recording is read as a
     whole or not at all, and reading never changes the files.""",
     ["inputs", "faults"],
     "every directory: missing, several or foreign descriptions, any logs missing or left over from other runs, unrelated files, files cut off before their format is stated, files of another kind or program, swapped files",
     "the tests read complete recordings in clean directories only",
     ["pipit/readers/projections_reader.py", "pipit/readers/hpctoolkit_reader.py"],
     [("checks of the directory", "pipit/readers/projections_reader.py:ProjectionsReader.__init__"), ("checks of file formats", "pipit/readers/hpctoolkit_reader.py")],
     [("found", "descriptions and logs in the directory", "ProjectionsReader.__init__")],
     ["whether reading raises, and the events read"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for p in P:
            n = p["statement"].count(". ") + 1
            f.write(json.dumps(p, ensure_ascii=False) + "\n")
    print(len(P), "properties")
