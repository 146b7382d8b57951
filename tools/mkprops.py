#!/usr/bin/env python3
"""Writes properties.jsonl (the single source of the property texts)."""
import json, os
FH = "sqlvalidator/file_handler.py"
SV = "sqlvalidator/sql_validator.py"
SQ = "sqlvalidator/grammar/sql.py"
LX = "sqlvalidator/grammar/lexer.py"
TK = "sqlvalidator/grammar/tokeniser.py"
MA = "sqlvalidator/main.py"
FM = "sqlvalidator/sql_formatter.py"
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
         "observe_at": observe or [], "hook_needed": None}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

p("C01", "Formatting a source file is atomic under crashes and failures",
  "At every instant of a `--format` run, every source file holds either its complete previous content or its complete reformatted content, as seen by any concurrent reader. This stays true when the process is killed or interrupted between any two system operations, when any read, write, close or rename fails or is short, when the disk fills up, when the text cannot be encoded, and after a power loss that discards or tears whatever was not made durable.",
  ["crash_points", "fault_sequences", "inputs"],
  "every kill / power-loss / errno / short-write / interrupt point of every format run, over every tree of Python files",
  "No existing test writes a file at all: the file tests run on StringIO; no crash point, full disk or torn write is ever reached.",
  [FH], [("replacement of the file by the new content", FH + ": analyse_file, the `if format_input` branch")],
  ["bytes reachable through each source path after every simulated system call and after the simulated reboot"])

p("C02", "A failed file operation changes nothing and leaves nothing behind",
  "When opening, reading, decoding, parsing, encoding or writing a file fails during a run, that file keeps its previous content and permission bits, and the run leaves no additional file behind (only a run that is killed outright may leave one unfinished, non-Python temporary file). The failed file is not announced as reformatted and is not counted in the summary as a changed or invalid file.",
  ["fault_sequences", "inputs"],
  "every single failing system operation (errno at any call), full disk at any byte, unreadable/undecodable/unparsable files, and combinations",
  "The tests never make an operation fail.",
  [FH], [("error handling round analyse_file", FH + ": handle_one_input / analyse_dir except clauses"), ("write path", FH + ": analyse_file")],
  ["directory listing, bytes and modes after the run", "standard output"])

p("C03", "Check and validate modes never modify the filesystem",
  "A run without `--format` (any combination of `--check-format`, `--validate`, `--verbose-validate`) never creates, modifies, truncates, renames, re-permissions or removes any file or directory, not even temporarily. This holds for every tree, for overlapping arguments, under I/O failures, interruption, and while other processes modify the same tree.",
  ["inputs", "schedules", "fault_sequences", "configurations"],
  "every read-only flag combination, every tree, fault sequence and interleaving with other processes",
  "No test runs the command line; `--check-format` is tested only through compute_file_content on StringIO.",
  [FH, MA], [("the write is guarded by format_input", FH + ": analyse_file"), ("flag plumbing", MA + ": _main")],
  ["every mutating system call issued by the process"])

p("C04", "A file that cannot be processed never affects the other files",
  "Whatever goes wrong with one input (missing, unreadable, undecodable, not valid Python, SQL that cannot be parsed, a failing read or write, memory exhaustion while parsing, a vanished file, an unprintable name), the run goes on: every other selected file is rewritten or reported exactly as if the failing input had not been given. The failing input never aborts the run with a traceback.",
  ["inputs", "fault_sequences", "histories"],
  "every position of the failing file in the run (argument or directory entry, first/middle/last), every failure cause, several failures per run",
  "No test covers handle_inputs, analyse_dir or an error path.",
  [FH], [("per-file exception barrier", FH + ": handle_one_input and analyse_dir try/except")],
  ["final bytes of the other files, report lines and summary"])

p("C05", "No failure is silent",
  "Every command-line input, and every Python file or sub-directory below a directory input, that the run could not process for any reason is identified by its path in the output of the run. A run never presents such a file as processed and never omits it without a word.",
  ["inputs", "fault_sequences"],
  "every cause of failure including nonexistent arguments, permission problems on files and directories, directory listings that fail midway, dangling links, files that vanish during the run, and every errno at every call",
  "No test looks at the printed output.",
  [FH], [("error messages", FH + ": handle_one_input, analyse_dir")], ["standard output/error"])

p("C06", "Reports, summary counts and exit status tell what happened",
  "For every run that ends normally, `reformatted F (n changed SQL)` is printed exactly for the files whose bytes were replaced, `would reformat F (n ...)` exactly for those a format run with the same options would change, and `invalid queries in F (n invalid SQL)` exactly for the files with n SELECT strings that the validation API calls invalid (with `--verbose-validate` each of them follows as `Lx - errors` with its line number); the summary line gives the totals of these lines. The exit status is 1 exactly when `--check-format` found something to reformat or `--validate`/`--verbose-validate` found an invalid query, and 0 otherwise, whatever failures hit other files during the run.",
  ["inputs", "configurations", "fault_sequences"],
  "every tree, every flag combination, every set of failing files",
  "Counting, printing, summary and exit code have no test; only compute_file_content's count is asserted on eleven one-line inputs.",
  [FH, MA], [("counter aggregation", FH + ": InputSQLAnalyseInfo.update, handle_inputs"), ("summaries and exit", FH + ": print_format_summary, print_validation_summary, handle_inputs")],
  ["stdout lines, exit status, bytes on disk"])

p("C07", "Every file is processed at most once per run",
  "However often and in whatever spelling (relative, absolute, with `.` or `..` parts that name it lexically, through overlapping directories, file plus its directory, in any order) a file is reached from the command line, one run reports it at most once, counts it at most once and rewrites it at most once. This includes files that fail and files that need no change.",
  ["inputs", "configurations", "fault_sequences"],
  "every multiset and order of overlapping inputs and spellings, every failure of a file on its first visit",
  "The tests never pass two inputs.",
  [FH], [("seen_files set shared through the run", FH + ": analyse_file, analyse_dir, handle_inputs, InputSQLAnalyseInfo")],
  ["report lines per absolute path, totals, number of replacements per path"],
  [("seen_files", "absolute paths already analysed in this run", FH)])

p("C08", "Results do not depend on listing order or argument order",
  "For the same tree and the same set of inputs, the final contents of all files, the set of files reported with their counts, the summary and the exit status are identical for every order in which the operating system lists directory entries and every order of the command-line inputs. This also holds when the tree contains files that fail, as long as no two selected paths lead to the same file.",
  ["schedules", "configurations", "inputs"],
  "every permutation of directory listings and of arguments",
  "Directory walking is untested; a test runs with one listing order.",
  [FH], [("per-file independence of the walk", FH + ": analyse_dir, handle_inputs")], ["final tree, report multiset, exit status"])

p("C09", "Interrupted formatting converges once faults stop",
  "Provided the embedded SQL is of the syntax that the formatter supports (so that formatting it twice is formatting it once), after any sequence of `--format` runs that were killed, interrupted, hit by I/O failures or by a power loss, one undisturbed `--format` run leaves every source file that the user can read and write byte-identical to what a single undisturbed run on the original tree produces. From then on, `--check-format` exits 0 with `No file would be reformatted.` and further `--format` runs change no byte.",
  ["crash_points", "histories", "fault_sequences", "inputs"],
  "every sequence of crashed/failed runs at any crash point followed by undisturbed runs",
  "The README promises the format/check/format sequence; no test runs it, and none with a crash in between. Idempotence is only sampled per query.",
  [FH, SQ, LX], [("idempotence of the rewrite of a literal", FH + ": handle_sql_string"), ("whole-or-nothing replacement", FH + ": analyse_file")],
  ["bytes of every source file after the history, exit status of the check run"])

p("C10", "Concurrent runs over one tree do not corrupt or mislead each other",
  "When several sqlvalidator processes (formatting, checking, validating) run at the same time over overlapping trees whose embedded SQL is of the syntax that the formatter supports, every source file ends up exactly as after one sequential format run (or untouched if none formats), and no extra file remains. No run fails on, or misreports, a file because another run is working on it: each reports a file either with its true counts for the old content or as already formatted.",
  ["schedules", "inputs"],
  "every interleaving of the system operations of 2-4 processes over every tree",
  "No test starts two runs.",
  [FH], [("replacement of the file by the new content", FH + ": analyse_file"), ("directory walk", FH + ": analyse_dir")],
  ["final tree, per-process stdout and exit status, bytes after every step"])

p("C11", "A parsed query shared between threads gives every caller the true verdict",
  "When threads call `is_valid()`, read `errors` after their own call, or call `format()` on the same object returned by `sqlvalidator.parse`, every call in every interleaving returns exactly what it returns on an unshared object. In particular an invalid query is never called valid and its error list is never seen empty, partial or duplicated after a call that returned.",
  ["schedules", "programs"],
  "every interleaving (at bytecode granularity) of 2-4 threads issuing any mix of calls on one shared object",
  "All tests are single-threaded and call is_valid once.",
  [SV], [("lazy parse and lazy validation caches", SV + ": SQLQuery.sql_query, is_valid, _validate")],
  ["return values and exceptions of the calls"],
  [("validated / errors", "cached verdict", SV), ("_sql_query", "cached parse tree", SV)])

p("C12", "An aborted call never leaves a wrong verdict behind",
  "When a call on a query object is aborted at any point (memory exhaustion, recursion limit, keyboard interrupt, or the parser rejecting the text with an exception), the call either raises or returns the right answer, and every later call on the same object behaves exactly as on a fresh object. A query whose validation failed to complete is never reported as valid afterwards.",
  ["fault_sequences", "histories", "programs"],
  "every abort point (at bytecode granularity) of every call, any number of aborts, any later sequence of calls",
  "No test aborts a call or repeats one after an exception.",
  [SV, LX, SQ], [("lazy parse and lazy validation caches", SV + ": SQLQuery")],
  ["return values and exceptions of later calls"])

p("C13", "Calls are independent of each other",
  "The result of `format_sql`, of every call on a parsed query that one thread uses, and of a command-line entry call depends only on its own arguments (and the files it reads): never on which calls were made before in the same process, on whether earlier calls raised or were aborted midway, or on which calls run concurrently in other threads.",
  ["histories", "schedules", "fault_sequences"],
  "every history of calls on arbitrary queries in one process, with aborts, and every interleaving with calls on other threads",
  "Each test looks at one call; cross-call state would only show in particular orders.",
  [FM, SV, LX, SQ, TK, FH], [("no module-level or class-level mutable state in parser, AST and file handler", "sqlvalidator/")],
  ["results compared with a fresh copy of the package"])

p("C14", "Results are the same in every process",
  "Formatting, validation verdicts, error lists, rewritten files, report order and exit status for the same input are identical in every process of the same interpreter started with the same options, whatever the interpreter's hash randomisation, directory inode numbers, process ids, clock or environment variables such as the terminal's width, the home or the temporary directory. In particular no verdict or error depends on the iteration order of a set of known columns.",
  ["configurations", "inputs"],
  "every hash seed, process id, clock value, inode assignment and environment; every query including ones with duplicate or ambiguous column names",
  "Tests run under PYTHONHASHSEED=0.",
  [SQ, FH], [("sets of known fields", SQ + ": known_fields, resolve_return_type, Column.validate, GroupByClause.validate"), ("seen_files set", FH)],
  ["results under many hash seeds in separate interpreters"])

p("C15", "A rewrite touches nothing but the SQL literals it reports",
  "A rewritten file keeps its permission bits, its owner (as far as the user has the privilege to set it), its line-ending convention (LF or CRLF), its text encoding and every line of code outside the reformatted SELECT strings, in every locale; a file reached through a symbolic link is updated at the link's target and the link stays a link. A file the user may not write is left as it is and reported.",
  ["configurations", "inputs", "fault_sequences"],
  "every mode, owner, umask, locale encoding, line ending, symlink layout and I/O chunking",
  "The tests use StringIO, so there are no modes, links, encodings or line endings.",
  [FH], [("reading and writing of the file", FH + ": analyse_file"), ("replacement of tokens", FH + ": compute_file_content")],
  ["bytes, mode, owner and link structure after the run"])

p("C16", "Only selected Python files are ever modified",
  "A `--format` run modifies only files named on the command line and files with the `.py` suffix found below named directories, without descending into symbolic links to directories; every other file, directory or link keeps its content, mode and name. This holds under failures, crashes and interruption at any point, except that a killed process may leave an unfinished temporary file that is not a Python file.",
  ["inputs", "crash_points", "fault_sequences"],
  "every tree with decoy files (other suffixes, caches, hidden files, linked directories, siblings outside the inputs) and every fault point",
  "No test walks a directory.",
  [FH], [("file selection", FH + ": analyse_dir suffix test, os.walk without following links")],
  ["set of paths modified, created or removed during the run"])

p("C17", "Benign I/O behaviour is invisible",
  "Short reads, short writes, arbitrarily small or large I/O buffers, slow operations and pauses of the process never change the outcome of a run: bytes written, report, summary and exit status equal those of the same run with every operation completing in full.",
  ["fault_sequences", "configurations"],
  "every chunking of reads and writes and every delay",
  "StringIO never returns short and never delays.",
  [FH], [("file reading and writing", FH + ": analyse_file, compute_file_content")], ["bytes, stdout, exit status"])

p("C18", "Every run terminates with bounded work",
  "A run over a finite tree of regular files, directories, named pipes, sockets and links (including links that form cycles) terminates after a number of file operations proportional to the number of directory entries and bytes below its inputs, whatever failures occur, and an interrupt (SIGINT) ends it. No failure sequence makes it retry forever or deadlock.",
  ["fault_sequences", "inputs"],
  "every finite fault sequence, including persistent failures, and every link structure",
  "No test walks a tree or injects a failure.",
  [FH], [("os.walk without following links", FH + ": analyse_dir"), ("no retry loops", FH)], ["number of system calls until exit"])

p("C19", "A failing output stream harms nothing and is not taken for success",
  "When the report cannot be written (closed pipe, full disk, I/O error or would-block on standard output, at any write, once or for good), every source file still holds its complete previous or complete reformatted content with its attributes, no additional file is left behind, a run without `--format` modifies nothing, and the run terminates. When standard output stays broken so that part of the report is lost, the exit status is not 0.",
  ["fault_sequences", "inputs", "configurations"],
  "every failing write or flush of standard output and standard error, at every point of the run, with every buffer size, alone and together with file failures",
  "The tests capture standard output in memory, which never fails.",
  [FH, MA], [("reports printed between the file operations", FH + ": analyse_file, handle_one_input, print_format_summary, print_validation_summary"), ("entry point", MA + ": _main")],
  ["files and directory listing after the run", "exit status"])

p("C20", "Open descriptors stay bounded",
  "A run never has more than a small fixed number of files and directories open at the same time, plus a few per level of directory nesting, whatever the number of inputs, files, directories, SQL strings and failures, and at its end it has closed everything it opened, also on the paths where opening, decoding, parsing, writing or replacing a file failed.",
  ["inputs", "fault_sequences"],
  "every tree size and every failing system operation",
  "The tests use StringIO and open no file.",
  [FH], [("with statements around the opened files", FH + ": analyse_file"), ("directory walk", FH + ": analyse_dir")],
  ["descriptors held by the process after every system call and at exit"])

p("C21", "A reported change has happened and stays",
  "Whenever a line `reformatted F` has reached the output, F already holds its complete reformatted content: at that instant, for whoever reads the line, and from then on, also when the run is killed, interrupted or fails later. Nothing later in the run takes a reported change back (loss of power excluded).",
  ["crash_points", "fault_sequences", "schedules"],
  "every instant of every format run, with every later failure, kill or interrupt",
  "The tests read no output of a run that fails or dies later, and never write a file.",
  [FH], [("replacement, then report", FH + ": analyse_file"), ("order of the report lines", FH + ": handle_one_input / analyse_dir")],
  ["bytes of the file named by each line, from the moment the line leaves the process"])

p("C22", "Library calls have no effect outside their result",
  "`parse`, `is_valid`, `errors`, `format` and `format_sql` read and write no file, print nothing, start no thread or process, and leave every setting of the interpreter as they found it (recursion limit, signal handlers and timers, warnings filters, locale, environment, working directory, garbage collector, hooks, random state, logging), whether they return, raise, or are aborted by KeyboardInterrupt, MemoryError or the recursion limit at any point.",
  ["inputs", "fault_sequences"],
  "every query, every history of calls, and every abort point inside a call",
  "The tests compare return values of calls that run to their end; none looks at the process around them or aborts a call.",
  [SV, FM, SQ, LX], [("entry points", "sqlvalidator/__init__.py; " + FM + "; " + SV), ("recursive parser and transformer", LX + ", " + SQ)],
  ["audit events and standard streams during the call, interpreter settings before and after"])

p("C23", "A file with nothing to reformat is not touched",
  "A `--format` run performs no modifying operation on a file it has nothing to reformat in: already formatted files, files whose queries are suppressed by comments, files without SQL, files that fail before they are replaced, and everything not selected keep their inode, modification time, mode and owner, and a directory in which no file is to be reformatted is not modified, not even temporarily. A second run over formatted files therefore writes nothing. This holds under I/O failures, interrupts and concurrent runs.",
  ["inputs", "fault_sequences", "schedules"],
  "every tree, flag combination, fault sequence and interleaving",
  "The tests write no file and look at no timestamp or inode.",
  [FH], [("decision to write", FH + ": analyse_file, `file_changed`"), ("replacement", FH + ": open_for_replacement")],
  ["modifying system calls by path; inode, mtime, mode, owner before and after"])

p("C24", "It does not matter how the inputs are named or grouped",
  "For the same set of inputs, the final contents of all files, the files reported with their counts, the messages, the summary and the exit status do not depend on the working directory or on whether an input is named by an absolute or a relative path; and for inputs that share no file, one run over all of them equals one run for each (contents and reports are the union, summaries add up, the exit status is the largest). This also holds when some of the inputs or files fail.",
  ["inputs", "configurations", "fault_sequences"],
  "every tree, every working directory and spelling, every partition of the inputs, every failure tied to a file",
  "The tests call the functions for one file in the working directory of the test run.",
  [FH], [("loop over the inputs and accumulation", FH + ": handle_inputs, InputSQLAnalyseInfo.update"), ("paths", FH + ": analyse_dir, analyse_file, open_for_replacement")],
  ["trees, parsed reports, summary and exit status of paired runs"])

# ---- pure functions of their input: not applicable to this family
p("C30", "Formatting preserves the SQL token sequence",
  "For every SELECT statement the formatter accepts, the output has the same tokens as the input, up to whitespace, letter case of keywords and functions and documented normalisations; string literals, quoted identifiers and comments keep their exact text.",
  ["inputs"], "every accepted SQL text", "Examples only.", [FM, SQ, LX, TK],
  [("transform of the AST", SQ), ("tokeniser", TK)], ["format_sql"])
p("C31", "Formatting a query is idempotent",
  "For every SQL text the formatter accepts, formatting its output again returns the same text.",
  ["inputs"], "every accepted SQL text", "Examples only.", [FM, SQ, LX], [("transform of the AST", SQ)], ["format_sql"])
p("C32", "The parser is total",
  "For every text, parsing either yields a statement or fails with the documented parsing error in bounded time; it never fails with an internal error and never accepts text it silently drops parts of.",
  ["inputs"], "every text", "Examples only; malformed input is nearly untested.", [LX, TK], [("recursive-descent parser", LX)], ["format_sql, parse"])
p("C33", "Validation neither misses nor invents column errors",
  "A query is reported invalid for a column exactly when the column cannot come from any of its sources (sub-query, alias, join, star).",
  ["inputs"], "every query", "Examples only.", [SQ], [("known_fields propagation", SQ + ": known_fields, Column.validate, ChainedColumns.validate")], ["SQLQuery.is_valid, errors"])
p("C34", "Clause typing rules are enforced",
  "WHERE and HAVING conditions of a known non-boolean type, out-of-range GROUP BY/ORDER BY positions, and negative or non-constant LIMIT/OFFSET are reported, and nothing else is reported for these clauses.",
  ["inputs"], "every query", "Examples only.", [SQ], [("clause validate methods", SQ)], ["SQLQuery.errors"])
p("C35", "Suppression comments are honoured",
  "A SELECT string whose next comment before any other string contains `nosqlformat` is never rewritten or counted for formatting, and one with `nosqlvalidation` is never counted as invalid.",
  ["inputs"], "every Python source text", "Four examples.", [FH], [("comment look-ahead", FH + ": compute_file_content.handle_string_token")], ["compute_file_content"])
p("C36", "The Python program around rewritten literals keeps its meaning",
  "Rewriting a source text replaces only string tokens that hold SELECT statements, keeps their prefix, never merges or splits tokens, and leaves the value of every other expression unchanged, including implicitly concatenated and escaped strings.",
  ["inputs"], "every Python source text", "A dozen one-line sources.", [FH], [("untokenize of the edited token list", FH + ": compute_file_content"), ("quote handling", FH + ": handle_sql_string")], ["compute_file_content"])
p("C37", "The tokeniser loses nothing",
  "The concatenation of the tokens of any text equals the text without the whitespace outside string literals.",
  ["inputs"], "every text", "Examples only.", [TK], [("recursive splitting", TK + ": split_tokens, split_with_sep")], ["to_tokens"])
p("C38", "API and command line agree per string",
  "For every SELECT string the command line's decision to rewrite or to call it invalid equals the decision of `format_sql` and `parse(...).is_valid()` on its text.",
  ["inputs"], "every SELECT string literal", "Not tested.", [FH, SV], [("handle_sql_string", FH)], ["compute_file_content vs. API"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P))
