#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that ids, anchors and statements stay in step)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "state": [{"name": n, "meaning": m, "where": w} for n, m, w in (state or [])],
                          "observe_at": observe, "hook_needed": hook}})

prop("C01", "An answer never depends on what the process analysed before",
 "Within one process, after any sequence of analyses of other files (language detection, line counts, annotation, entities, licences, diffs, list totals, command-line runs over many paths), the answer for a file is the answer a freshly started process gives for that file alone. This holds for every mix of languages, whatever state the earlier files left the parsers in (unterminated strings and comments, embedded languages, empty or unreadable files) and whatever the memory the program reuses contained.",
 ["histories", "schedules"],
 "every sequence of analyses in one process over files of all languages, every enumeration order, every content of recycled heap memory",
 "Each unit test analyses one file in a process of its own (one fork per test function), so no test ever sees a second file analysed after a first; the space of file sequences is unbounded.",
 ["src/parser_macros.h", "src/parsers/*.rl", "src/parser.c", "src/sourcefile.c", "src/detector.c", "src/licenses.c", "src/diff.c", "src/ohcount.c"],
 [("parser state is reset at the start of each parse", "src/parser_macros.h init, each src/parsers/*.rl parse_* function"),
  ("queued embedded-language callbacks are drained or dropped", "src/parser_macros.h enqueue/free_queue"),
  ("dialect switches are set and restored around a shared parser", "src/parsers/c.rl parse_cpp and friends"),
  ("licence expressions are compiled once and shared", "src/licenses.c ohcount_detect_license"),
  ("diff work areas are rebuilt per comparison", "src/diff.c ohcount_calc_diff")],
 ["library accessors", "command-line output"],
 [("parser globals", "cs, p, pe, ts, te, stack, seen, inqueue, line_start and the callback queue, shared by all parsers", "src/parser_macros.h")])

prop("C02", "Accessors of one source file agree in any order and on any repetition",
 "For one source file object whose file does not change, whether its text is read from disk, from an alternative disk location or was supplied by the caller, every accessor (contents, size, language, parsed languages, line counts, licences, annotation, raw entities, comparison with another file) returns the same answer each time it is called and whatever other accessors were called before it. In particular text supplied by the caller stays the text of that object for its whole life.",
 ["histories"],
 "every call sequence of accessors on one object, with repetitions, for disk-backed and caller-supplied text",
 "Tests call one or two accessors once in a fixed order; lazily computed, cached and discarded fields make the result depend on the call order, and there are unboundedly many orders.",
 ["src/sourcefile.c", "src/parser.c", "src/detector.c", "src/licenses.c"],
 [("lazy caching of contents, language, parsed list, licences and line counts", "src/sourcefile.c"),
  ("contents are dropped after a parse and read again on demand", "src/sourcefile.c ohcount_sourcefile_parse")],
 ["library accessors"],
 [("cached fields", "contents, size, language, language_detected, parsed_language_list, license_list, loc_list", "src/structs.h SourceFile")])

prop("C03", "A file's text is obtained whole and exact, or not at all",
 "Under short reads, interrupted or failing reads, a failing open or seek, unseekable inputs, files of any size, and a file that other processes truncate, or append to, or atomically replace while it is being read (not truncated and extended again within one read), the text and the size obtained for it are exactly the bytes the file held at one instant of that read, or the file counts as unreadable (no text, size zero, no lines). Text and size always agree, no other memory is touched, and once the faults have stopped a new analysis of the file is exact.",
 ["fault_sequences", "schedules"],
 "every sequence of read, seek and open faults, every chunking of the data, every point at which another process changes the file during the read",
 "Tests read small, quiet regular files from a healthy disk; they cannot make a read short, fail or race with a writer.",
 ["src/sourcefile.c"],
 [("size by seek, one read of exactly that size, all or nothing", "src/sourcefile.c ohcount_sourcefile_get_contents")],
 ["contents and size accessors", "line counts"],
 [("contents/size", "the text and the byte count of the object", "src/structs.h SourceFile")])

prop("C04", "A directory scan lists every reachable regular file exactly once",
 "Scanning a directory lists, each exactly once and under its path, all regular files (hidden ones included) that can be reached from it without entering a hidden directory or following a symbolic link, and nothing else, whatever the order in which the system returns the entries and however wide or deep the tree is. If opening or reading a directory, or examining an entry, fails, exactly what lies behind that failure is missing and everything else is still listed, without a crash.",
 ["schedules", "fault_sequences", "inputs"],
 "every enumeration order and entry type reporting, every tree shape (hidden, links, loops, odd and long names, deep nesting), every set of failing directory operations",
 "Tests scan two fixed small directories in whatever order the disk returns; they never meet a failing or racing directory operation.",
 ["src/sourcefile.c", "src/ohcount.c"],
 [("recursive walk", "src/sourcefile.c ohcount_sourcefile_list_add_directory"),
  ("argument dispatch between directories and files", "src/ohcount.c main")],
 ["file list of the library", "detect and individual reports of the command line"],
 [("path buffer and entry status", "path built in place per level; lstat result per entry", "src/sourcefile.c")])

prop("C05", "An unreadable file or directory affects only itself",
 "When some of the files or directories under analysis cannot be opened or read, at any point and for any reason, every report still covers all the other files exactly as if the faulty ones did not exist, and the process finishes normally without crashing. A file whose text can never be read contributes no line of code, comment or blank and no licence.",
 ["fault_sequences", "histories"],
 "every assignment of persistent and transient open, read and directory faults to the files of a tree, in every report mode",
 "One test feeds a missing file to a few detectors; no test runs a report over a set in which some files fail, let alone at chosen calls.",
 ["src/sourcefile.c", "src/detector.c", "src/parser.c", "src/ohcount.c", "src/licenses.c"],
 [("missing contents are represented by no text and size zero", "src/sourcefile.c ohcount_sourcefile_get_contents"),
  ("detectors and parsers accept absent text", "src/detector.c, src/parsers/*.rl")],
 ["command-line reports", "library list totals"])

prop("C06", "Line totals are conserved from single lines up to the summary",
 "For any set of files, the per-language code, comment and blank counts of the summary (and its file counts and grand total) equal the sums of the individual per-file reports, which equal the numbers of lines that annotation labels for those files. This holds for every order in which files are enumerated and every way in which partial line-count lists are merged.",
 ["schedules", "histories"],
 "every enumeration order of a file set and every merge tree of line-count lists",
 "Tests add two or three hand-made lists in one order and never compare the reports with each other over a tree.",
 ["src/loc.c", "src/sourcefile.c", "src/ohcount.c", "src/parsed_language.c"],
 [("merging by language", "src/loc.c ohcount_loc_list_add_loc, ohcount_loc_list_add_loc_list"),
  ("accumulating over a list", "src/sourcefile.c ohcount_sourcefile_list_analyze_languages"),
  ("sorting for display", "src/ohcount.c sort_loc_list_by_code, sort_loc_list_by_language")],
 ["summary, individual and annotate output", "library totals"],
 [("list", "linked list with head and tail kept in the first item", "src/structs.h LocListItem")])

prop("C07", "Revision deltas account exactly for the change in line counts",
 "Comparing two revisions of a file yields, for every language of either, added minus removed lines of code, comments and blanks equal to the difference of the two revisions' line counts; comparing a revision with itself yields no change, and the number of added (removed) lines never exceeds the lines of the newer (older) revision nor falls short of the lines that occur more often there. Lines that both revisions start or end with are never counted as changed, and a comparison in memory counts no more lines than the smallest difference between the two (where the line hash tells different lines apart). Accumulating the deltas of a history of any length, in any grouping, gives per language the sum of its steps and so the difference between its end points, whether a comparison is done in memory or, for large texts, through temporary files.",
 ["histories", "schedules"],
 "every history of revisions (edits, languages appearing and vanishing, size crossing the in-memory limit) and every grouping of the accumulation",
 "Tests compare a handful of fixed pairs and accumulate single-language lists; the large-text path is reached by one test and never in a history.",
 ["src/diff.c", "src/sourcefile.c", "src/loc.c"],
 [("per-language comparison", "src/sourcefile.c ohcount_sourcefile_diff, ohcount_sourcefile_calc_loc_delta"),
  ("line matching in memory and through the external tool", "src/diff.c"),
  ("accumulation", "src/loc.c ohcount_loc_delta_list_add_loc_delta_list")],
 ["delta lists of the library"])

prop("C08", "A comparison under system faults is exact or fails loudly",
 "When anything that the comparison of two revisions needs goes wrong - creating, writing, closing or removing temporary files, starting the external diff tool, the tool missing, failing, being killed or its output breaking off - the comparison either still gives exactly the fault-free result or the process ends with a failure status. It never returns wrong counts as if nothing had happened and never dies of an invalid memory access.",
 ["fault_sequences", "crash_points"],
 "every placement of one or more faults on the calls a comparison makes",
 "Tests run the comparison on a healthy system only.",
 ["src/diff.c", "src/sourcefile.c"],
 [("temporary files are created, written and checked", "src/diff.c tmp_file_from_buf"),
  ("the external tool's output is read and counted", "src/diff.c ohcount_calc_diff_with_disk")],
 ["delta lists of the library", "exit status"])

prop("C09", "Analysis leaves no trace on the file system",
 "Whatever is analysed or compared and whichever operations fail, the analysed tree is left unchanged (names, contents, kinds, permissions), nothing is created, changed or removed outside the temporary directory, and when the operation has completed or the process has ended by itself no temporary file of it remains. Only a temporary file whose removal the system refused, or whose process was killed, may stay.",
 ["histories", "fault_sequences"],
 "every sequence of analyses and comparisons with every placement of faults other than refused removals and kills",
 "Tests never look at the file system afterwards and never make a write fail half way.",
 ["src/diff.c", "src/sourcefile.c", "src/detector.c"],
 [("temporary files are removed after the comparison", "src/diff.c ohcount_calc_diff_with_disk"),
  ("inputs are opened for reading only", "src/sourcefile.c")],
 ["file system state after a run"])

prop("C10", "Concurrent and killed processes never influence each other",
 "Any number of processes that analyse and compare files at the same time, in any interleaving, get the answers each would get alone, and none opens for writing, changes or removes a temporary file of another. This includes processes that are killed at any point and temporary files that earlier processes left behind under any name.",
 ["schedules", "crash_points"],
 "every interleaving of the system calls of several processes, every kill point, every set of stale temporary files",
 "Tests run one process at a time; interleavings and kill points are outside what they can choose.",
 ["src/diff.c"],
 [("exclusive creation of uniquely named temporary files", "src/diff.c tmp_file_from_buf")],
 ["delta lists per process", "temporary directory"])

prop("C11", "Resources return to their level after every analysis",
 "After the objects of an analysis have been freed, the number of open files, directories, pipes and detection handles and the amount of memory in use are what they were before it (data built once per process excepted), for any sequence of analyses, comparisons and scans, including those in which operations failed. Repeating a sequence of operations any number of times therefore does not use up descriptors or memory.",
 ["histories", "fault_sequences"],
 "every sequence of operations and every placement of faults in it",
 "Tests do not measure resources, and each runs in a process of its own that ends after a few calls.",
 ["src/sourcefile.c", "src/detector.c", "src/diff.c", "src/licenses.c", "src/parser_macros.h", "src/loc.c"],
 [("release on every path", "all src/*.c")],
 ["open descriptors and handles", "live allocations"])

prop("C12", "Running out of memory never produces a wrong answer",
 "If any memory allocation that ohcount makes, itself or through its pattern-matching library, fails at any point of detection, counting, licence search, comparison or a scan, the operation gives exactly the result it gives with enough memory or the process ends. It never completes with a result that differs. (A file or directory that the operating system refuses to open for lack of memory is an unreadable one.)",
 ["fault_sequences"],
 "every allocation (of the program and of the pattern-matching library it uses) failing alone or from some point on",
 "Tests cannot make an allocation fail.",
 ["src/detector.c", "src/licenses.c", "src/sourcefile.c", "src/diff.c", "src/parser_macros.h", "src/loc.c", "src/parsed_language.c"],
 [("failed allocations end the process", "src/licenses.c ohcount_detect_license, dereference elsewhere")],
 ["library answers", "exit status"])

prop("C13", "A tree that changes during a scan is reported consistently",
 "While other processes create, delete, rename and atomically replace files and directories during a scan and report, the run ends normally, every file that was not touched is reported exactly once and exactly, and what is reported for a touched file is what a version that existed during the run gives, or nothing.",
 ["schedules"],
 "every placement of atomic tree changes between the system calls of a run, in every report mode",
 "Tests analyse fixed trees; the window between two calls of the scan cannot be hit on purpose by a test.",
 ["src/sourcefile.c", "src/ohcount.c", "src/detector.c"],
 [("status of an entry checked before it is entered or listed", "src/sourcefile.c ohcount_sourcefile_list_add_directory"),
  ("text read once per analysis", "src/sourcefile.c ohcount_sourcefile_get_contents")],
 ["command-line reports"])

prop("C14", "An incomplete report is never presented as success",
 "If the command-line tool cannot write its report completely - disk full, closed pipe, I/O error, at any byte and in any report mode - its exit status is not zero. If everything was written it exits with zero, and the bytes written are the complete report.",
 ["fault_sequences"],
 "every byte position and error kind of a failing output, in every mode",
 "Tests do not run the command line with a failing output.",
 ["src/ohcount.c"],
 [("exit status of main", "src/ohcount.c main")],
 ["exit status", "bytes written"])

prop("C15", "Scripting results do not depend on garbage collection",
 "Through the Ruby binding, every answer (languages, line counts, licences, contents, diffs, list walks) is the same whenever garbage collection runs, including collections that dispose of the object that an earlier result, or a name list given to it, came from. No schedule of collections crashes the interpreter.",
 ["schedules"],
 "every placement of garbage collections and object disposals between and inside binding calls",
 "The Ruby tests run without forced collections and keep every object alive by accident.",
 ["ruby/ohcount.i", "ruby/ohcount.rb"],
 [("native objects are owned by their Ruby wrappers", "ruby/ohcount.i"),
  ("list walking", "ruby/ohcount.rb array_from_list")],
 ["values returned to Ruby"])

prop("C16", "Detected platforms do not depend on file order or earlier runs",
 "The platforms, tools and libraries that are derived from a set of source files are the same for every order in which the files are visited, for every repetition, and whatever other sets were analysed before in the same process.",
 ["schedules", "histories"],
 "every visiting order of a file set and every history of earlier analyses in the process",
 "Each Ruby test analyses one fixed directory in the disk's order, starting from a fixed state.",
 ["ruby/gestalt.rb", "ruby/gestalt/gestalt_engine.rb", "ruby/gestalt/gestalt_facts.rb", "ruby/gestalt/definition.rb", "ruby/gestalt/rules"],
 [("rules are cloned per run and fed file by file", "ruby/gestalt/gestalt_engine.rb"),
  ("facts accumulate over the files", "ruby/gestalt/gestalt_facts.rb")],
 ["list of gestalts"])

prop("C17", "The scripting interface gives native memory back",
 "Whatever a Ruby program does with source files and lists of them - parsing, comparing, walking and totalling them, keeping and dropping results in any order, with the collector running at any time - the memory the native library took for it is released once the program has let go of everything that it was given and the collector has run: doing the same again and again does not make a long-running process grow.",
 ["schedules", "histories"],
 "every sequence of binding calls and every order in which their results are disposed of",
 "Tests run each call once in a short-lived process and never look at memory.",
 ["ruby/ohcount.i", "ruby/ohcount.rb", "src/sourcefile.c", "src/loc.c", "src/licenses.c", "src/parsed_language.c"],
 [("constructors, destructors and ownership of results", "ruby/ohcount.i"), ("list destructors", "src/loc.c")],
 ["live blocks and bytes of the native heap"])

# Properties that hold or fail for one input at a time: listed, but not decided here (see DESIGN.md and MANIFEST.json not_applicable).
prop("N01", "Every line is counted once and as what it is",
 "For every text and every supported language, each line is counted exactly once, under the language it is written in, as code if it holds any code, else as comment if it holds any comment, else as blank. The annotation of a file, without its labels, is the file.",
 ["inputs"], "every text in every language",
 "Tests compare a few hundred sample texts; the space of texts is unbounded.",
 ["src/parsers/*.rl", "src/parser_macros.h"], [("line counting machines", "src/parsers/*.rl"), ("line bookkeeping", "src/parser_macros.h")], ["line counts", "annotation"])
prop("N02", "A file's language is detected from its name and text",
 "For every file the detected language is the one that its emacs mode line, its name and extension and, where these are shared by several languages, its text determine; a binary file or one of unknown kind has none.",
 ["inputs"], "every name and text",
 "Tests sample one or a few files per extension.",
 ["src/detector.c", "src/hash/extensions.gperf", "src/hash/disambiguatefuncs.gperf"], [("extension tables and disambiguation", "src/detector.c")], ["language of a file"])
prop("N03", "Exactly the licences named in a file are found",
 "For every text the licences reported are exactly those whose names or characteristic phrases appear in its comments, each once.",
 ["inputs"], "every text",
 "Tests sample one or a few texts per licence.",
 ["src/licenses.c"], [("licence expressions and exclusions", "src/licenses.c")], ["list of licences"])
prop("N04", "Raw entities cover the text in order",
 "For every text the entities reported by the entity parsers have positions inside the text, in order and without overlap, and each has the kind of the text it covers.",
 ["inputs"], "every text in every language",
 "Tests look at the first few entities of one sample per language.",
 ["src/parsers/*.rl"], [("entity machines", "src/parsers/*.rl")], ["entity callbacks"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
