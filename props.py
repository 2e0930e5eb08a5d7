"""The properties: one source for properties.jsonl, MANIFEST.json and the evidence's rules."""

P = []


def prop(id, title, statement, over, text, why, files, mechanism, observe, technique, rule, note, assume=()):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mechanism=mechanism, observe=observe, technique=technique, rule=rule, note=note,
                  assume=list(assume)))


VIRTUAL = ("Go's testing/synctest is trusted for virtual time: a run is only said to hang when every goroutine in it "
           "is durably blocked, never because of a deadline")
RECORD = "the recording targets stand in for the demo package, through a build overlay; parser, scheduler and runner are the real ones"
RBOOK = "internal/runbook/runbook.go"
RUNNER = "internal/runbook/runner.go"
SCHED = "internal/runbook/scheduler/scheduler.go"
DEPS = "internal/dag/dependency.go"
PARSER = "internal/runbook/parser/parser.go"

prop("C01", "A task never starts before everything it depends on has succeeded",
     "When a runbook is run, no task is started until every task it comes after has already finished successfully, on whatever targets they run. "
     "This holds for every shape of runbook, every order in which tasks happen to finish, and also for unusual task ids.",
     ["schedules", "inputs"],
     "every valid runbook (any number of targets, tasks and edges) and every relative order in which tasks can finish",
     "TestRunBookRun executes one fixed runbook, whose tasks finish in one order; whether a start overtakes a completion depends on the schedule.",
     [RBOOK, RUNNER, SCHED, DEPS],
     [dict(name="dependents are released on completion only", where=SCHED), dict(name="dependency bookkeeping", where=DEPS)],
     ["start and end of each task, as seen by its target"],
     "event log of real runs in virtual time, with a happens-before oracle",
     "A case is a generated (or enumerated small) runbook run once with seeded task durations and failures; non-trivial: at least one edge, and the "
     "interleaving (order of start/end events) was not seen before.",
     "exploration of generated runbooks and seeded schedules in virtual time; every start is judged against the transitive closure of the runbook's edges",
     [VIRTUAL, RECORD])

prop("C02", "A run executes every task exactly once and reports a truthful result",
     "If nothing fails, running a valid runbook executes each of its tasks exactly once, on the target the task belongs to and with the configuration given for it, and reports success. "
     "A task's message is announced exactly once, before the task begins, and only if the task is executed. "
     "Success is reported if and only if every task was executed and succeeded.",
     ["schedules", "inputs", "fault_sequences"],
     "every valid runbook, schedule, and combination of failing tasks and targets, including runbooks without tasks and several runs in a row",
     "The tests run one runbook that succeeds; they can't tell a lost, repeated or misrouted task in another shape, nor an error that is dropped when it races with another completion.",
     [RBOOK, RUNNER, SCHED, DEPS],
     [dict(name="every ready task is dispatched once", where=RUNNER), dict(name="result of the run", where=RBOOK)],
     ["calls to targets and the error the run returns"],
     "event log of real runs in virtual time, with an exactly-once and result oracle",
     "A case is one run of a generated runbook with a seeded set of failing tasks/targets; non-trivial: at least two tasks, distinct interleaving.",
     "exploration; each event log is compared with the multiset of tasks in the runbook, and the result with the failures that were injected",
     [VIRTUAL, RECORD])

prop("C03", "A failing task stops everything that depends on it, and the run reports it",
     "After a task has failed, no task that depends on it, directly or indirectly, is ever started, and the target which failed it executes nothing more. "
     "Other targets finish at most the tasks they had already been assigned: nothing is started because of a completion that comes after the failure. "
     "The run reports the error of a task that really failed.",
     ["schedules", "fault_sequences"],
     "every runbook, every task that may fail (one or more), and every moment of failing relative to the other tasks",
     "No existing test fails a task.",
     [RUNNER, SCHED],
     [dict(name="failed tasks release nobody", where=SCHED), dict(name="drain after an error", where=RUNNER)],
     ["events after the first failure"],
     "event log of real runs with injected failures, in virtual time",
     "A case is one run with at least one failing task; non-trivial: the failing task has a dependent or another task was running at the time.",
     "exploration of failure points and schedules; the oracle judges what starts after each failure and that started tasks end before the run returns",
     [VIRTUAL, RECORD])

prop("C04", "A run always ends, stops its targets, and leaves nothing behind",
     "Running a valid runbook always returns, whatever the number of tasks and targets, whatever fails, and however long tasks take. "
     "Every target that was started is stopped exactly once, after its last task has ended and before the run returns; if a target fails to start, no task is executed. "
     "Once the run has returned, nothing started by it keeps running.",
     ["schedules", "inputs", "fault_sequences"],
     "every valid runbook (also empty ones, and ones with many tasks or unused targets), schedule and combination of failing starts, stops and tasks",
     "Deadlocks and leaks depend on counts and schedules; the one runbook that is run by a test has two targets and never fails.",
     [RUNNER, RBOOK],
     [dict(name="channel sizes and the final wait", where=RUNNER)],
     ["start/stop of targets, return of the run, goroutines alive afterwards"],
     "virtual-time deadlock detection, target life-cycle automaton, goroutine-leak monitor",
     "A case is one run with seeded failures of starts, stops and tasks; non-trivial: at least one target was started, distinct interleaving.",
     "exploration; a hang is decided by synctest (all goroutines durably blocked), a leak by goroutines that survive the bubble",
     [VIRTUAL, RECORD])

prop("C05", "Concurrency limits are respected, and running is free of data races",
     "A target never executes more of its tasks at the same time than its concurrency setting allows, which is one unless the runbook says otherwise. "
     "Executing a runbook involves no data race, whatever its targets do concurrently.",
     ["schedules", "inputs"],
     "every runbook, concurrency setting and schedule",
     "The tests are run without looking at overlap, and the race detector only reports on executions that happen; the one runbook that is run has no contention.",
     [RUNNER, RBOOK, PARSER],
     [dict(name="one worker per target", where=RUNNER)],
     ["overlap of tasks on a target; race detector reports"],
     "overlap monitor over event logs, plus the Go race detector on unsynchronized real-time runs",
     "A case is one run; non-trivial: some target had at least two tasks ready at the same time, distinct interleaving.",
     "exploration; overlap is judged on virtual-time logs, data races by -race on runs which the monitors do not synchronize",
     [VIRTUAL, RECORD, "the race detector reports only races of executed accesses"])

prop("C06", "A task that can start is not kept waiting without need",
     "A task whose predecessors have all succeeded is started as soon as its target is free to execute it, without waiting for anything else: in particular not for tasks of other targets. "
     "A target never sits idle while one of its tasks could start, unless a task has failed.",
     ["schedules", "inputs"],
     "every valid runbook and schedule in which nothing fails",
     "Needless waiting changes no result, so only the timing of a schedule reveals it; no test looks at timing.",
     [RUNNER, SCHED],
     [dict(name="ready tasks are offered to all targets independently", where=RUNNER)],
     ["virtual time at which each task becomes startable, and is started"],
     "virtual-time event log with an idle-while-ready oracle",
     "A case is one failure-free run; non-trivial: at least two targets or an edge, distinct interleaving.",
     "exploration; in virtual time any needless wait is visible as time that passes while a target is idle and has a startable task",
     [VIRTUAL, RECORD, "targets are only judged at the default concurrency of one"])

prop("C07", "Runbooks that can't be scheduled are refused before anything runs",
     "Running a runbook whose dependencies form a cycle, or whose tasks refer to tasks that don't exist, reports an error, and neither starts a target nor executes a task. "
     "The reported cycle is a genuine one: every task it lists depends on the next, and the last on the first; a reported missing dependency is one which the runbook really has.",
     ["inputs"],
     "every runbook with a cycle (of any length, also of a task with itself, in any position) or an unknown dependency, anywhere in an otherwise valid runbook",
     "The tests reject three fixed graphs in the scheduler, and never run such a runbook.",
     [RBOOK, SCHED, DEPS, "internal/dag/tsort.go"],
     [dict(name="topological sort before running", where=RBOOK)],
     ["the error, and calls to targets"],
     "generated invalid runbooks run for real, with an independent cycle/unknown-edge oracle",
     "A case is a valid generated runbook with a planted cycle or dangling edge; non-trivial: distinct runbook.",
     "exploration; validity is decided by an independent reference and the diagnostics are checked against the edges",
     [RECORD])

prop("C08", "The scheduler hands out each startable task exactly once",
     "Whatever the order in which tasks are completed, the scheduler releases each task exactly once, to the target it belongs to, never before everything it depends on is completed, and never more tasks at a time than the target's limit. "
     "A task is released as soon as its dependencies are completed and its target is below its limit. "
     "Once all tasks have been released the scheduler says so, and not earlier; no task is lost.",
     ["histories", "inputs"],
     "every acyclic graph of tasks over targets and every order of completions",
     "The tests play one order of completions on a few fixed graphs.",
     [SCHED, DEPS],
     [dict(name="dependency release", where=DEPS), dict(name="completion by target", where=SCHED)],
     ["requests and replies of the scheduler"],
     "online reference-model monitor over request/reply histories",
     "A case plays completions on a graph (small graphs and their orders are enumerated, larger ones random); non-trivial: distinct history with at least one release.",
     "exploration, exhaustive for small graphs; each reply is compared with a set-based model")

prop("C09", "Topological sorting and the graph types match their mathematical models",
     "Sorting an acyclic graph yields every node exactly once, each after all its dependencies, and always the same order for the same graph; sorting any other graph yields an error that names a genuine cycle or a genuine missing dependency. "
     "Graphs, node sets and dependency trackers behave like the mathematical objects they represent under every history of operations, and never change values they have already returned.",
     ["inputs", "histories"],
     "every directed graph (including self loops, disconnected parts and any spelling of ids) and every history of operations",
     "The tests sort a few fixed graphs; Go's random map order makes nondeterminism visible only by chance.",
     ["internal/dag/tsort.go", "internal/dag/directed.go", "internal/dag/nodeset.go", DEPS],
     [dict(name="depth-first search with sorted nodes", where="internal/dag/tsort.go")],
     ["results of operations"],
     "differential monitor against set-based reference models",
     "A case is one graph or one history of operations; non-trivial: distinct graph/history with at least one edge or operation of effect.",
     "exploration, exhaustive for small graphs")

prop("C11", "Loading a runbook is strict and faithful",
     "Loading a runbook yields exactly the targets, tasks, orderings and settings the document describes, with imports and files resolved relative to the file that refers to them, and independent of the current directory. "
     "A document with an unknown field, a value of the wrong type, an unknown class, a task of an undefined target or a missing import is rejected with an error; no document makes loading panic.",
     ["inputs"],
     "every runbook document (also ones that use Jsonnet features), mistake in it, location of it, and way of referring to it",
     "The tests load a handful of documents with one mistake each, from one directory.",
     [PARSER, "internal/runbook/sh/sh.go", "internal/runbook/pg/pg.go", "internal/runbook/demo/demo.go"],
     [dict(name="strict decoding", where=PARSER)],
     ["the loaded runbook, as delivered to its targets' code, or the error"],
     "generated documents with known meaning, known-mistake mutations, crash monitor on garbled documents",
     "A case is one document; non-trivial: distinct document with at least one target or one planted mistake.",
     "exploration; the generator knows the meaning of each document, so that no second parser is needed",
     ["go-jsonnet is trusted to evaluate documents"])

prop("C13", "The dot graph shows exactly the runbook",
     "The graph of a valid runbook is syntactically valid DOT, has exactly one node for each task, inside the cluster of its target, and exactly one edge for each ordering between tasks; names are preserved, whatever characters they contain. "
     "The same runbook always results in the same output, and a dependency on a task that doesn't exist is reported, by name, instead of drawn.",
     ["inputs"],
     "every runbook, including ids with quotes, backslashes, spaces, keywords and other unusual characters",
     "One fixed runbook with harmless names is compared with an expected graph; determinism depends on map order.",
     ["internal/commands/runbook_dot.go", RBOOK],
     [dict(name="sorting and quoting of ids", where=RBOOK)],
     ["output of the command, read by an independent DOT reader"],
     "generated runbooks, with an independent DOT reader as oracle",
     "A case is one runbook drawn twice; non-trivial: distinct runbook with at least one task.",
     "exploration; the DOT reader follows the published grammar",
     ["unusual tasks of the graph are judged by our own reading of the DOT language"])

prop("C14", "Evaluating a runbook prints exactly its JSON value",
     "Evaluating a runbook prints a single valid JSON document that has exactly the value of the runbook: every key, string, number, boolean, null, array and object, whatever characters strings and keys contain. "
     "Terminal colors are only added when they are requested, or left to be decided and the output is a terminal, and are the only difference then. Runbooks that can't be evaluated are reported as errors.",
     ["inputs"],
     "every Jsonnet document that evaluates to an object, with any strings and numbers",
     "One fixed document of harmless strings is compared with its expected output.",
     ["internal/commands/runbook_eval.go"],
     [dict(name="JSON formatting", where="internal/commands/runbook_eval.go")],
     ["output of the command, read by an independent JSON reader"],
     "generated documents of known value, with an exact JSON comparison",
     "A case is one document; non-trivial: distinct value.",
     "exploration; the output (with color: without its escape sequences, for keys that needn't be escaped) is compared, key by key, with the value the document was generated from",
     ["numbers are those a double can represent, as Jsonnet has no others"])

prop("C15", "The list of a runbook is complete, sorted and aligned",
     "Listing a runbook prints a header and each of its tasks exactly once, one per line, with the target it runs on, sorted by id, and with all targets starting in the same column. "
     "The same runbook always results in the same list; nothing else is printed.",
     ["inputs"],
     "every runbook, with any number of tasks and any printable ids",
     "One fixed runbook is listed by a test.",
     ["internal/commands/runbook_list.go"],
     [dict(name="sorting and padding", where="internal/commands/runbook_list.go")],
     ["output of the command"],
     "generated runbooks, with an independent reader of the list",
     "A case is one runbook listed; non-trivial: distinct runbook with at least one task.",
     "exploration")

prop("C16", "Output that can't be written is an error, and failing commands spare files",
     "If a runbook command (dot, eval, list) can't write all of its output, it reports an error instead of succeeding. "
     "With an output file, a successful command leaves exactly its complete output in the file, and a command that fails because of the runbook leaves an existing file as it was. "
     "No command changes the runbook it reads: with -O the graph is written to a file of its own next to the runbook.",
     ["fault_sequences", "inputs"],
     "every runbook and every point at which writing fails, with output to a stream or to a file",
     "No existing test makes a write fail or uses an output file.",
     ["internal/commands/runbook_dot.go", "internal/commands/runbook_eval.go", "internal/commands/runbook_list.go", "internal/cli/runbook.go"],
     [dict(name="output file is opened lazily", where="internal/commands/base.go"), dict(name="write errors are returned", where="internal/commands/runbook_list.go")],
     ["result of the command, bytes accepted by the writer, content of files"],
     "fault injection at every write, plus /dev/full, with result and file monitors",
     "A case is one command on one runbook with a writer that fails after a number of bytes (or a file); non-trivial: distinct runbook, command and failing point.",
     "exploration of failing points (all points for small outputs)")

prop("C17", "Commands see exactly the environment the runbook allows",
     "The environment of a shell task's command is the program's own environment, filtered by the target and then by the task: with an allow list only the variables on it remain, otherwise the variables on the deny list are removed. "
     "Variables that are set explicitly are always present with the given value, a task's settings win over its target's, and nothing else is passed on, even if nothing remains.",
     ["inputs", "configurations"],
     "every environment, every combination of allow, deny and set at target and task",
     "The tests filter three small environments.",
     ["internal/runbook/sh/env.go", "internal/runbook/sh/sh.go", "internal/runbook/sh/exec.go"],
     [dict(name="filter", where="internal/runbook/sh/env.go")],
     ["environment observed by child processes, result of filtering"],
     "child processes record their environment, compared with a reference filter",
     "A case is one environment and filter(s), applied in process or observed by a child; non-trivial: at least one variable was removed, set or overridden.",
     "exploration")

prop("C18", "Shell tasks execute exactly the command the runbook describes",
     "A shell task executes the given program once, with exactly the given arguments in order, without interpretation by a shell, in the directory of the runbook, with an empty standard input. "
     "The task succeeds if and only if the command starts and exits with status zero.",
     ["inputs", "fault_sequences"],
     "every list of arguments (also empty ones, and with spaces, quotes or wildcards) and every way a command can end",
     "The tests run two commands that succeed.",
     ["internal/runbook/sh/exec.go", "internal/runbook/sh/sh.go"],
     [dict(name="exec", where="internal/runbook/sh/exec.go")],
     ["calls recorded by the executed program, result of the task"],
     "child processes record how they were called, compared with the runbook",
     "A case is one runbook of shell tasks; non-trivial: distinct command with at least one argument or a failing end.",
     "exploration")

prop("C19", "No output of shell tasks is lost, repeated or misplaced",
     "Everything a command writes to its standard output appears, complete and in order, on the program's standard output, and everything it writes to its standard error on the program's standard error, before the run ends. "
     "This holds for any amount of output, also of failing commands, and output of tasks that don't run at the same time isn't mixed.",
     ["schedules", "inputs"],
     "every amount and interleaving of output to both streams by any number of commands",
     "The tests print single lines.",
     ["internal/runbook/sh/exec.go"],
     [dict(name="streams are handed to the command", where="internal/runbook/sh/exec.go")],
     ["bytes that arrive on both streams"],
     "self-identifying output lines, checked by a stream monitor",
     "A case is one runbook whose commands write seeded amounts; non-trivial: at least two writers or more than a pipe's capacity.",
     "exploration")

prop("C20", "Demo tasks transform, print and sleep exactly as configured",
     "The demo tasks rev (reverse by characters) and rot13 (letters only) transform their target's string exactly, each starting from the result of the tasks before it on that target, and echo prints the current string and a newline, also for non-ASCII text. "
     "Targets don't affect each other, fail always fails, and sleep takes exactly the configured number of seconds (at least one).",
     ["inputs", "schedules"],
     "every message and every runbook of demo tasks",
     "The tests transform one word.",
     ["internal/runbook/demo/tasks.go", "internal/runbook/demo/demo.go"],
     [dict(name="transformations", where="internal/runbook/demo/tasks.go")],
     ["printed lines, virtual time"],
     "virtual-time runs with a reference transformation",
     "A case is one runbook of demo tasks; non-trivial: distinct messages.",
     "exploration",
     [VIRTUAL])

FAKE = ("the server is a stand-in that speaks PostgreSQL's protocol; it was written from the protocol's and the catalogs' documentation, "
        "no PostgreSQL is available here")
PGGO = "internal/pg/pg.go"

prop("C21", "SQL tasks are executed verbatim, once, in order, on the right database",
     "Each SQL task of a runbook sends exactly its SQL, once, over one connection to the server and database its target describes; tasks of a target share the connection, and no SQL is sent that isn't part of a task. "
     "SQL of a task isn't sent before the SQL of everything it comes after was executed successfully. "
     "If the server reports an error for any statement, or the connection breaks, the task and the run fail and nothing that depends on it is executed. Every connection is closed when the run ends.",
     ["inputs", "schedules", "fault_sequences"],
     "every runbook of SQL tasks, on any number of servers, and every statement that may fail",
     "The tests for SQL tasks need a server, and execute three statements one by one.",
     ["internal/runbook/pg/exec.go", "internal/runbook/pg/pg.go", PGGO, RBOOK],
     [dict(name="exec task", where="internal/runbook/pg/exec.go"), dict(name="one connection per target", where="internal/runbook/pg/pg.go")],
     ["protocol messages received by the servers, result of the run"],
     "stand-in servers record every message; an offline checker compares the logs with the runbook",
     "A case is one runbook run against its own servers, with seeded faults; non-trivial: at least one statement executed, distinct runbook.",
     "exploration",
     [FAKE])

prop("C22", "Connections are encrypted and verified as the SSL mode demands",
     "With sslmode disable the connection is never encrypted; with require it always is; with verify-full it always is, and only to a server whose certificate is valid for its host; allow and prefer may fall back as documented. "
     "Credentials are never sent over a connection the mode forbids. A mode given explicitly wins over PGSSLMODE, a password without a mode implies verify-full, and an unknown mode is an error before any server is contacted.",
     ["configurations", "inputs"],
     "every SSL mode, from options or the environment, with or without password, against every kind of server",
     "The tests use a single mode, and need a server.",
     [PGGO],
     [dict(name="applySSLMode", where=PGGO)],
     ["what servers receive before and after TLS is negotiated"],
     "stand-in servers with good, untrusted, expired and mismatched certificates record what they receive",
     "A case is one combination of mode, password, environment and server; non-trivial: distinct combination.",
     "all combinations of a matrix; each connection attempt is judged against a table of what the mode allows",
     [FAKE, "the TLS implementation of the standard library"])

prop("C23", "Connecting uses the given settings, and retries as often as configured",
     "Explicit settings win over the environment (PGHOST, PGPORT, PGUSER, PGPASSWORD, PGDATABASE), for each setting separately. Connecting is tried at most once more than the configured number of retries, with pauses that aren't zero and never shrink, and stops at the first success; it succeeds if and only if one of these attempts does. "
     "Exactly one connection is kept, and no other is left open. Ping prints exactly the server's version, and closes its connection.",
     ["configurations", "fault_sequences"],
     "every combination of options and environment, and every sequence of failing attempts",
     "The tests need a server, and it never refuses a connection.",
     [PGGO, "internal/commands/ping.go"],
     [dict(name="retry loop", where=PGGO), dict(name="firstOf", where=PGGO)],
     ["connections and startup messages received by servers, time between attempts"],
     "stand-in servers that fail on a schedule record each attempt; pauses are measured in virtual time",
     "A case is one combination of settings and failures; non-trivial: distinct combination.",
     "exploration, with all combinations of failures and retries up to a bound",
     [FAKE, VIRTUAL])

prop("C24", "Inspecting a database describes exactly its visible user objects",
     "The description contains every schema that isn't one of the system's, and every function, sequence, table (also partitioned), column, check constraint, foreign key, storage parameter, index and user trigger that is visible on the search path, each exactly once, with the values the catalogs have for it, and the names on the search path in order; and nothing else: no system objects, views, dropped columns or internal triggers, nor comments of other objects. "
     "Objects are listed in the documented order. The HCL the inspect command writes describes the same database.",
     ["inputs", "configurations"],
     "every catalog, also of servers before version 10, with any names",
     "The tests need a server, and only check that lists aren't empty.",
     ["internal/pg/inspect.go", "internal/pg/tables.go", "internal/pg/columns.go", "internal/pg/sequence.go", "internal/pg/functions.go", "internal/pg/schemas.go",
      "internal/pg/check.go", "internal/pg/foreign_key.go", "internal/pg/index.go", "internal/pg/triggers.go", "internal/pg/table_storage_parameters.go", "internal/pg/parameters.go", "internal/commands/inspect.go"],
     [dict(name="catalog queries", where="internal/pg"), dict(name="assembly", where="internal/pg/inspect.go")],
     ["result of inspecting, output of the command"],
     "a stand-in server executes the real queries on generated catalogs, and the result is compared with the database they were generated from",
     "A case is one generated database that is inspected through the package and the command; non-trivial: distinct database.",
     "exploration of generated databases",
     [FAKE, "the queries are executed by a small SQL engine, which refuses (without a verdict) what it doesn't know"])

prop("C25", "An interrupted or misunderstood inspection is an error, never a partial result",
     "If any of the queries of an inspection fails, at any point of its results, or the connection breaks, or an object's definition can't be understood, inspecting returns an error and no description; the inspect command writes nothing, and leaves an existing output file as it was.",
     ["fault_sequences"],
     "every query of an inspection, every number of rows received before it is interrupted, every kind of fault",
     "No existing test makes a query fail.",
     ["internal/pg/inspect.go", "internal/pg/tables.go", "internal/pg/columns.go", "internal/pg/check.go", "internal/pg/index.go", "internal/commands/inspect.go"],
     [dict(name="rows.Err is consulted", where="internal/pg")],
     ["result of inspecting, output and files of the command"],
     "a stand-in server injects faults at every point of the protocol exchange",
     "A case is one generated database, which is inspected once per point of failure; non-trivial: distinct point.",
     "enumeration of the points of failure of generated databases (sampled for larger ones)",
     [FAKE])

prop("C26", "Sort options only change the order they are about",
     "With --sort-columns the columns of each table are in order of their names, with --sort-check-constraints its check constraints in order of their expressions. All else is described as without these options; --sort-indexes neither loses nor changes an index.",
     ["inputs", "configurations"],
     "every database and every combination of the options",
     "No existing test uses the options.",
     ["internal/pg/inspect.go", "internal/commands/inspect.go", "internal/cli/inspect.go"],
     [dict(name="sorting", where="internal/pg/inspect.go")],
     ["result of inspecting"],
     "reference sort over generated databases served by a stand-in server",
     "A case is one generated database inspected with a combination of options; non-trivial: the options changed the order.",
     "exploration",
     [FAKE])

DDL = "internal/ddl"
GRAMMAR = "the *_parser.rl files document which syntax is supported; the reference grammar of the monitors restates it independently"

prop("C27", "Definitions of constraints, indexes and triggers are understood exactly",
     "Parsing a check constraint, foreign key, index or trigger in the supported syntax (the one of the *_parser.rl files) yields all of what its definition says, in order, and nothing that it doesn't say: names as written, keywords in any case, any whitespace where whitespace is allowed, expressions verbatim (except for whitespace around them, and whitespace outside of quotes in an index's predicate, which is collapsed), text inside of expressions is never mistaken for options. "
     "Any other text is rejected. Options are understood as PostgreSQL prints them.",
     ["inputs"],
     "every string; every combination of options, names, expressions and whitespace",
     "The tests parse sixteen definitions; the parsers are machines with hundreds of states, and a wrong transition shows only for a specific option, letter, or whitespace.",
     [DDL + "/check_parser.go", DDL + "/foreign_key_parser.go", DDL + "/index_parser.go", DDL + "/trigger_parser.go", DDL + "/check.go", DDL + "/foreign_key.go", DDL + "/index.go", DDL + "/trigger.go", DDL + "/parser_utils.go"],
     [dict(name="state machines and their actions", where=DDL + "/*_parser.go"), dict(name="setters", where=DDL)],
     ["what the parsers return"],
     "differential monitor: an automaton and regular expressions made from an independent grammar, and a generator that knows what it wrote",
     "A case is a definition that is parsed, or one whose one-byte edits are all parsed; non-trivial: distinct definition.",
     "enumeration of options, all one-byte edits of representative definitions, and generated ones",
     [GRAMMAR])

prop("C28", "Parsers of definitions survive any input, and point at what's wrong with it",
     "Parsing any bytes as a check constraint, foreign key, index or trigger returns either a result or an error, never both, neither, or a panic. "
     "If the text isn't a definition, the error shows the line with the first character that can't be part of one, and marks that character; if the text ends too early, the error says so.",
     ["inputs"],
     "every sequence of bytes",
     "One test checks the message of an error made by hand, none what a parser reports.",
     [DDL + "/parser_utils.go", DDL + "/check_parser.go", DDL + "/foreign_key_parser.go", DDL + "/index_parser.go", DDL + "/trigger_parser.go"],
     [dict(name="error positions", where=DDL + "/parser_utils.go")],
     ["what the parsers return, and the text of errors"],
     "hostile inputs; positions are compared with those where an independent automaton gets stuck",
     "A case is a text, or all one-byte edits of one; non-trivial: distinct text.",
     "all one-byte edits of representative definitions, mutated sentences of the grammar, random bytes, huge definitions",
     [GRAMMAR])

prop("C29", "A description of a database survives being written and read",
     "Writing any description of a database as HCL, and reading it again, from bytes or from a file, yields the same description: every block and attribute, with any text and numbers. Reading HCL that uses the documented names yields what it says. "
     "Writing is deterministic and reports errors of the underlying writer. Invalid HCL, unknown attributes and missing ones result in an error that names the file, without a description.",
     ["inputs"],
     "every description (any number of objects, any valid text in Unicode's normal form C, any number), every invalid file",
     "The tests read and write one file.",
     [DDL + "/ddl.go", DDL + "/database.go", DDL + "/table.go", DDL + "/sequence.go", DDL + "/function.go", DDL + "/index.go", DDL + "/trigger.go", DDL + "/foreign_key.go", DDL + "/check.go", DDL + "/table_storage_parameters.go"],
     [dict(name="names of attributes", where=DDL), dict(name="encoding and decoding", where=DDL + "/ddl.go")],
     ["bytes written, descriptions and errors returned"],
     "round trips, and an own writer of the documented format as the second opinion",
     "A case is one generated description, or one invalid file; non-trivial: distinct description.",
     "exploration of generated descriptions",
     ["github.com/hashicorp/hcl2 is what the code uses; its own defects with text the monitor doesn't generate are out of scope"])

prop("C30", "Storage parameters are recorded exactly, or rejected",
     "Setting a table's storage parameter records that value in that parameter and changes no other. Numbers are exact, booleans may be spelled in every way PostgreSQL accepts. A value that isn't valid for the parameter results in an error; unknown parameters are ignored.",
     ["inputs"],
     "every sequence of parameters and values",
     "No existing test sets a parameter.",
     [DDL + "/table_storage_parameters.go"],
     [dict(name="dispatch by name", where=DDL + "/table_storage_parameters.go")],
     ["the parameters after each assignment"],
     "reference model of the parameters, compared after every step",
     "A case is a sequence of assignments; non-trivial: distinct sequence.",
     "enumeration of parameters and spellings, and random sequences")

prop("C31", "Generated SQL means what the description says",
     "The SQL generated for a table, primary key or trigger is one complete statement, whose names, when read like PostgreSQL reads them, are exactly those of the description, whatever characters they contain; it has every column with its type, nullability and default, every check, every key column in order, and every event, column and option of a trigger, and nothing else. "
     "The function a trigger executes is written as is. A function's SQL has its name, result, language and body verbatim, the latter on lines of its own. Generating SQL is deterministic and changes nothing.",
     ["inputs"],
     "every description, with any names",
     "TestToSQL compares the SQL of one file, without unusual names.",
     [DDL + "/table.go", DDL + "/index.go", DDL + "/trigger.go", DDL + "/function.go", DDL + "/util.go"],
     [dict(name="quoting", where=DDL + "/util.go"), dict(name="generators", where=DDL)],
     ["generated SQL"],
     "an own reader of SQL reconstructs the description; the triggers' SQL is also read by the real parser",
     "A case is one generated object; non-trivial: distinct SQL.",
     "exploration")

LOGGER = "internal/logger/logger.go"

prop("C32", "Logs contain exactly the messages of the requested verbosity",
     "With verbosity 0 or less a logger writes errors only, with 1 also warnings, with 2 also informational messages, with 3 or more also debug messages: "
     "each once, in the order they were logged, on a line of its own that begins with its level, with its text and fields (durations as in 1m30s). A debug log gets all of the messages, with the time, whatever the verbosity, and even if the default log can't be written (and vice versa). Only terminals get colors.",
     ["inputs", "configurations"],
     "every sequence of messages, every verbosity, every kind of destination",
     "TestNew logs two messages with one verbosity.",
     [LOGGER, "internal/cli/cli.go"],
     [dict(name="thresholds", where=LOGGER), dict(name="tee", where=LOGGER)],
     ["bytes written to both logs"],
     "reference filter over sequences of messages",
     "A case is a sequence of messages sent to one logger; non-trivial: distinct sequence and configuration.",
     "exploration of generated sequences over all verbosities and destinations")

prop("C33", "A logger can be shared by concurrent tasks",
     "When any number of goroutines use a logger at the same time, every message is written exactly once to each log it belongs to, in one piece; those of one goroutine stay in order; and the writers, which needn't be safe for concurrent use, are never used by two goroutines at once. There are no data races.",
     ["schedules"],
     "every number of goroutines and every interleaving",
     "No existing test shares a logger; lines only interleave under specific schedules.",
     [LOGGER],
     [dict(name="locked writers", where=LOGGER)],
     ["bytes written to both logs, overlapping writes, the race detector's reports"],
     "exactly-once and ordering monitor over the logs, overlap detector in the writers, and the race detector",
     "A case is one burst of concurrent messages; non-trivial: interleaving with more switches than goroutines, not seen before.",
     "stress with yielding writers, with and without the race detector")

SET = "internal/taskset"

prop("C34", "Targets of task sets execute every task once, within their limit",
     "A target of a task set executes every task of every batch it's given exactly once and delivers exactly one result for it, with the task's own error and only after it has ended. "
     "No more tasks than the target's limit (at least one) run at once, but up to the limit they do run at once whenever results are received; no task is started before all of an earlier batch. "
     "After the queue is closed, the remaining results are delivered, however slowly they are received, then the results end, and nothing is left behind. "
     "The demo target's tasks have their effect (echo, reverse, rotate, fail, sleep) even when executed at once; tasks of another kind of target end with an error. There are no data races.",
     ["schedules", "inputs"],
     "every sequence of batches, every duration, every limit, every receiver",
     "TestDemoTaskExecution awaits each result before it goes on; no test closes a queue early, exceeds a limit or receives late.",
     [SET + "/base/base.go", SET + "/demo/demo.go", SET + "/sh/sh.go", SET + "/pg/pg.go"],
     [dict(name="executor", where=SET + "/base/base.go"), dict(name="targets", where=SET)],
     ["starts and ends of tasks, results, output of the demo target, goroutines"],
     "exactly-once, limit and work-conservation monitors of the real executor at every quiescent state of a virtual clock, plus stress runs under the race detector",
     "A case is one sequence of batches; non-trivial: distinct plan, or distinct order of results under stress.",
     "exploration of generated plans over virtual time; stress of real schedules")

prop("C35", "Task set files are loaded completely, or refused",
     "Loading a task set file yields exactly its targets and tasks, plus a default target (named \"\") for every registered type: each target of its type with its settings; "
     "each task of its type (what follows the first slash of its label), made by the target it names (the default one if it names none), with its settings; it depends on the tasks it names in `after` and what it names in `requires`, in order, and provides what it names in `provides`. "
     "A file with an unknown type or target, two targets of the same type and name, two tasks with the same name, unknown or missing settings, values of the wrong type, or a syntax error, and a missing file, is refused with an error. Loading a file again yields an independent task set.",
     ["inputs"],
     "every file",
     "TestParser only compares the number of targets; no test looks at dependencies or has a mistake.",
     [SET + "/parser/parser.go", SET + "/base/base.go", SET + "/demo/demo.go"],
     [dict(name="parser", where=SET + "/parser/parser.go"), dict(name="relations", where=SET + "/base/base.go")],
     ["loaded task sets, the targets' own record of the tasks they made, errors"],
     "compared with the generated description each file was written from; files with one mistake must be refused",
     "A case is one file; non-trivial: distinct file.",
     "exploration of generated files")

prop("C36", "The command line does what it says, and the exit status tells how it ended",
     "pgutil executes exactly the command its arguments describe, with exactly their options, in whatever order and form flags are written; `runbook FILE` is `runbook run FILE`, and `ls` is `list`. "
     "It exits with status 0 if the command succeeded and all of its output was written, and otherwise prints a message and exits with 1. Arguments with a mistake (unknown commands, flags or values, missing, repeated or superfluous ones, missing files) are refused, without any other effect; asking for help has no other effect, either. "
     "Each -v and -q raises or lowers the verbosity by one, starting from warnings; --debug appends the complete log, with pgutil's version, to a file. Standard output has nothing but the command's output and the log.",
     ["inputs"],
     "every command line",
     "TestArgParser parses eleven command lines in the usual form and executes none.",
     ["main.go", "internal/cli/cli.go", "internal/cli/runbook.go", "internal/cli/inspect.go", "internal/cli/ping.go", "internal/cli/version.go", "internal/commands/inspect.go", "internal/commands/ping.go", "internal/commands/version.go"],
     [dict(name="argument parser", where="internal/cli"), dict(name="exit status", where="main.go")],
     ["exit status, stdout, stderr, output files, debug logs, traces of executed tasks, sessions at a server"],
     "the built program is executed with generated command lines; its effects are compared with those of the same command without a command line, of traces its tasks leave, and of what a fake server sees",
     "A case is one execution of the program; non-trivial: distinct arguments.",
     "exploration of generated command lines")

prop("C37", "Passwords are never disclosed",
     "Whatever happens while connecting (any way of giving a password, any authentication, TLS, retries, failures, verbosity), inspecting or executing a runbook: "
     "a password of a database, from a runbook, PGPASSWORD or a password file, is sent to the server it is meant for, as its authentication asks for it, and appears nowhere else: "
     "not in the log or debug log at any level, in error messages, in output (but that of `runbook eval`, which prints all of a runbook), lists, graphs or statements; "
     "and a runbook's passwords are not in the arguments or environment of the commands its tasks execute.",
     ["inputs", "fault_sequences"],
     "every password, configuration and failure",
     "No test has a password.",
     ["internal/pg/pg.go", "internal/pg/errors.go", "internal/logger/logger.go", "internal/runbook/pg/pg.go", "internal/runbook/pg/exec.go", "internal/runbook/parser/parser.go", "internal/runbook/sh/env.go", "internal/runbook/sh/exec.go", "internal/commands/ping.go"],
     [dict(name="connections", where="internal/pg"), dict(name="runbooks", where="internal/runbook")],
     ["logs at every level, errors in every format, output, graphs, startup messages, passwords and statements that reach a server, environment and arguments of executed commands"],
     "random passwords are given to the real code and the built program while a fake server fails in every way; everything that leaves the process is searched for them, in plain and in common encodings",
     "A case is one connection, or one command with a runbook; non-trivial: distinct configuration, or runbook with a password.",
     "exploration of generated configurations, runbooks and faults")

prop("C38", "Inspecting and pinging a database only reads",
     "`inspect` and `ping`, and describing a function or trigger or asking for the version, send a server only statements that read: whatever the database contains and whichever statement fails, "
     "they never change data, definitions, sequences or statistics, never lock rows or tables, never create anything, not even temporarily, and never act on other sessions.",
     ["inputs", "fault_sequences"],
     "every database and failure",
     "The tests compare what is returned.",
     ["internal/pg/inspect.go", "internal/pg/tables.go", "internal/pg/columns.go", "internal/pg/sequence.go", "internal/pg/functions.go", "internal/pg/triggers.go", "internal/pg/version.go", "internal/pg/pg.go", "internal/commands/inspect.go", "internal/commands/ping.go"],
     [dict(name="statements", where="internal/pg")],
     ["every statement that reaches the server, in every session"],
     "a fake server that serves generated databases judges each statement as it arrives, by its tokens: those not known to only read are violations",
     "A case is one command with one database; non-trivial: distinct database, command and fault.",
     "exploration of generated databases and faults")

prop("C39", "Looking at a runbook, or refusing it, has no effects",
     "`runbook list`, `dot` and `eval` of any runbook, and `runbook run` of one with a mistake anywhere, have no effects but their output: "
     "no task is executed or announced, no database is connected to, no process is started, and no file is created or changed (but the one given with --output). A runbook with a mistake is never executed in part.",
     ["inputs"],
     "every runbook",
     "The tests' runbooks have tasks of the demo target only, which have no effects.",
     ["internal/runbook/runbook.go", "internal/runbook/parser/parser.go", "internal/runbook/pg/pg.go", "internal/runbook/sh/sh.go", "internal/commands/runbook_list.go", "internal/commands/runbook_dot.go", "internal/commands/runbook_eval.go"],
     [dict(name="commands", where="internal/commands"), dict(name="parser", where="internal/runbook/parser")],
     ["connections at the servers of a runbook's targets, marks its tasks would leave, files, log, output, exit status"],
     "generated runbooks whose every task leaves a mark are given to the real commands and the built program, most with one mistake; any mark, connection or changed file is a violation",
     "A case is one command with one runbook; non-trivial: distinct runbook and command.",
     "exploration of generated runbooks and mistakes")
