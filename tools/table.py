"""Which explorers decide which property."""

IMPL = ("every execution runs the real code of /repo; the explored object is the implementation itself, "
        "so each execution is a trace validated against it")

STUBS = ("the crates around the compiler are compiled from /repo's sources against a stand-in for the typst crates, "
         "which cannot be had offline: it has their types and semantics as far as this code uses them")

STATELESS = "stateless model checking of the implementation"
TRUST = "Trusted: the explorer, the specification automaton in the harness and the instrumented replacements of the synchronisation libraries."

HIST = STATELESS + ": exhaustive histories of the real server loop against a specification automaton"
SCHED = " and exhaustive delay-bounded schedules of its threads under a controlled scheduler"

CHECKS = {
    "L01": dict(
        bins=["mc-lsp", "mc-lspsched"],
        technique=HIST + SCHED,
        rule="A case is one complete history or schedule driven through the real server loop; cases are distinct when the explorer's outcome fingerprint (pending requests, state, log, output) differs.",
    ),
    "L02": dict(
        bins=["mc-lsp"],
        technique=HIST,
        rule="A case is one complete history from a fresh server; cases are distinct when the sequence of protocol states the specification automaton went through differs.",
    ),
    "L03": dict(
        bins=["mc-lsp", "mc-lspsched"],
        technique=HIST + SCHED,
        rule="A case is one complete history of sends and replies, or one schedule; cases are distinct when the order of handler calls and messages differs.",
    ),
    "L04": dict(
        bins=["mc-lsp", "mc-lspsched"],
        technique=HIST + SCHED,
        rule="A case is one complete sequence of messages and events, or one schedule; cases are distinct when the order of handler calls differs.",
    ),
    "L05": dict(
        bins=["mc-lsp", "mc-lspsched"],
        technique=HIST + SCHED,
        rule="A case is one complete history or schedule of a debug adapter session; cases are distinct when the outcome fingerprint (state, pending requests, log, output) differs.",
    ),
    "L06": dict(
        bins=["mc-lsp"],
        technique=STATELESS + ": exhaustive fragmentations and concatenations of framed messages",
        rule="A case is one byte stream with one fragmentation into reads or writes; cases are distinct when the sequence of messages, header form or fragmentation differs.",
    ),
    "L07": dict(
        bins=["mc-lsp"],
        technique=STATELESS + ": exhaustive enumeration of malformed, truncated and corrupted streams against a reference parser",
        rule="A case is one byte stream; cases are distinct when the verdict of the reference parser and the messages before it differ.",
    ),
    "L08": dict(
        bins=["mc-lspsched"],
        technique=STATELESS + ": exhaustive delay-bounded schedules of the transport's threads with a fault at every read, write and flush",
        rule="A case is one schedule with one fault placement; cases are distinct when what was received, sent, written and reported differs.",
    ),
    "L09": dict(
        bins=["mc-lspsched"],
        technique=STATELESS + ": exhaustive sessions and delay-bounded schedules of recording and replay",
        rule="A case is one session, one fragmentation and one schedule; cases are distinct when the recorded bytes or the replayed log and output differ.",
    ),
    "L10": dict(
        bins=["mc-lsp"],
        technique=STATELESS + ": exhaustive combinations of message kinds, ids and parameter shapes in both directions",
        rule="A case is one message; cases are distinct when kind, id form, presence and shape of the parameters differ.",
    ),
}
FAULTS = STATELESS + ": exhaustive schedules, failures, cut transfers and crash points of its system calls, on real files"

CHECKS.update({
    "F01": dict(
        bins=["mc-fs"],
        technique=FAULTS,
        rule="A case is one scenario with one schedule and one placement of failures, cut transfers and kills at the system calls; cases are distinct when the result, the file's content and mode and what else is in the directory differ.",
    ),
    "F02": dict(
        bins=["mc-fs"],
        technique=FAULTS,
        rule="A case is one operation on one file with one placement of failures and cut transfers, or one schedule of several; cases are distinct when operation, contents, placement or result differ.",
    ),
    "F03": dict(
        bins=["mc-fs"],
        technique=FAULTS,
        rule="A case is one combination of lockers with one schedule and one placement of failures and kills; cases are distinct when who got which lock in which order, the errors and the files differ.",
    ),
    "F04": dict(
        bins=["mc-fs"],
        technique=FAULTS,
        rule="A case is one tree with one schedule and one placement of failures and kills; cases are distinct when the tree, the result and the files afterwards differ.",
    ),
    "F05": dict(
        bins=["mc-std"],
        technique=STATELESS + ": exhaustive enumeration of paths up to a depth against a reference resolver",
        rule="A case is one path or pair of paths; cases are distinct when the paths differ.",
    ),
    "H01": dict(
        bins=["mc-std"],
        technique=STATELESS + ": exhaustive enumeration of fingerprints over boundary words and of malformed texts",
        rule="A case is one fingerprint or text; cases are distinct when the fingerprint, or the text and its verdict, differ.",
    ),
    "H02": dict(
        bins=["mc-stdsched"],
        technique=STATELESS + ": exhaustive delay-bounded schedules of threads that take fingerprints",
        rule="A case is one assignment of items to threads with one schedule; cases are distinct when the items, the order in which they are resolved or the pattern of equal fingerprints differ.",
    ),
    "H03": dict(
        bins=["mc-std", "mc-stdsched"],
        technique=STATELESS + ": exhaustive operation sequences for every shard count and exhaustive delay-bounded schedules of concurrent insertions",
        rule="A case is one shard count with one sequence or schedule of operations; cases are distinct when the operations and what they return differ.",
    ),
    "Q01": dict(
        bins=["mc-stdsched"],
        technique=STATELESS + ": exhaustive delay-bounded schedules of the threads that ask for a query",
        rule="A case is one set of requests with one schedule; cases are distinct when the requests, their results or their order differ.",
    ),
    "E01": dict(
        bins=["mc-std"],
        technique=STATELESS + ": exhaustive combinations of the ways errors are made and wrapped, up to a depth, against a specification of their parts",
        rule="A case is one chain of constructions with one set of arguments; cases are distinct when the chain, the arguments or the resulting parts differ.",
    ),
    "N01": dict(
        bins=["mc-l10n"],
        technique=STATELESS + ": exhaustive enumeration of messages and arguments over an alphabet of braces, names and other text against a reference expansion",
        rule="A case is one message with one list of arguments; cases are distinct when the message, the arguments or the result differ.",
    ),
    "N02": dict(
        bins=["mc-l10n"],
        technique=STATELESS + ": exhaustive histories of catalogues and locales and exhaustive delay-bounded schedules of translating threads",
        rule="A case is one history or schedule of setting and translating; cases are distinct when the operations, their order or the texts differ.",
    ),
    "N03": dict(
        bins=["mc-l10n"],
        technique=STATELESS + ": exhaustive enumeration of catalogues, files and updates against a reference model of them",
        rule="A case is one catalogue, file or update; cases are distinct when the catalogue or the text and the verdict differ.",
    ),
    "N04": dict(
        bins=["mc-l10n"],
        extra=["tinymist-l10n-mc"],
        technique=STATELESS + ": exhaustive enumeration of sources and of the orders in which the parallel workers of the real program handle them",
        rule="A case is one source tree with one order of the workers; cases are distinct when the tree, the order or the written file differ.",
    ),
    "V01": dict(
        bins=["mc-world"],
        technique=STATELESS + ": exhaustive histories of the real virtual file system against a model of its layers and exhaustive delay-bounded schedules of readers and a writer",
        rule="A case is one history or schedule; cases are distinct when the operations, their order or what was read differ.",
        assumptions=[IMPL, STUBS],
    ),
    "V02": dict(
        bins=["mc-world"],
        technique=STATELESS + ": exhaustive sequences of ids against a reference resolution of roots and paths and exhaustive delay-bounded schedules of threads that make ids",
        rule="A case is one sequence of ids, one name, one entry with a selection, or one schedule; cases are distinct when the ids or what they resolve to differ.",
        assumptions=[IMPL, STUBS],
    ),
    "W01": dict(
        bins=["mc-world"],
        technique=STATELESS + ": exhaustive histories of changes and messages, and delay-bounded schedules, of the real watching actor on real files with a simulated notifier and clock",
        rule="A case is one history of steps with one order of the watcher's work; cases are distinct when the steps or what was reported differ.",
        assumptions=[IMPL, STUBS],
    ),
    "W02": dict(
        bins=["mc-world"],
        technique=STATELESS + ": exhaustive histories of the real project compiler with every order of the steps of editor, watcher and compilations, and delay-bounded schedules of it with the real watching actor",
        rule="A case is one history of steps, or one schedule of one; cases are distinct when the steps or their order differ.",
        assumptions=[IMPL, STUBS],
    ),
    "K01": dict(
        bins=["mc-package"],
        technique=FAULTS + " and an unreliable server",
        rule="A case is one set of callers and answers with one schedule and one placement of failures and kills; cases are distinct when the answers, the results or the system calls differ.",
        assumptions=[IMPL, STUBS],
    ),
    "K02": dict(
        bins=["mc-package"],
        technique=STATELESS + ": exhaustive histories of lookups, of changes to the directories and of answers of the server, on real files, against a reference model of the store",
        rule="A case is one history with one answer per request; cases are distinct when the operations, the answers or the results differ.",
        assumptions=[IMPL, STUBS],
    ),
    "K03": dict(
        bins=["mc-package"],
        technique=STATELESS + ": exhaustive contents and histories of the lock file, and exhaustive schedules and failures of the system calls of concurrent updates, on real files, against a reference model",
        rule="A case is one content, one history of updates, or one schedule or placement of failures of concurrent updates and readers; cases are distinct when the content, the operations or the results differ.",
        assumptions=[IMPL, STUBS],
    ),
    "S01": dict(
        bins=["mc-server"],
        technique=STATELESS + ": exhaustive enumeration of texts, positions and edits against a reference conversion, and exhaustive sessions of the real server state",
        rule="A case is one text with one position or edit, or one session of notifications; cases are distinct when the text, the encoding or the result differ.",
        assumptions=[IMPL, STUBS],
    ),
    "S02": dict(
        bins=["mc-server"],
        technique=STATELESS + ": exhaustive histories and delay-bounded schedules of the real server state, project compiler, export tasks and editor actor",
        rule="A case is one history of steps, or one schedule of one; cases are distinct when the steps, their order or what the client was told at the end differ.",
        assumptions=[IMPL, STUBS],
    ),
    "S04": dict(
        bins=["mc-server"],
        technique=STATELESS + ": exhaustive histories of the real server state against an automaton of the main file",
        rule="A case is one history of requests; cases are distinct when the requests or the main files differ.",
        assumptions=[IMPL, STUBS],
    ),
    "S05": dict(
        bins=["mc-server"],
        technique=STATELESS + ": exhaustive enumeration of paths and names against a reference of the URI syntax",
        rule="A case is one path or name; cases are distinct when the path or its URI differ.",
        assumptions=[IMPL, STUBS],
    ),
    "X01": dict(
        bins=["mc-server"],
        technique=STATELESS + ": exhaustive histories and delay-bounded schedules of the real server state, project compiler and export tasks on real files in a scratch directory",
        rule="A case is one history of steps, or one schedule of one; cases are distinct when the steps, their order or the exported files differ.",
        assumptions=[IMPL, STUBS],
    ),
})
for c in CHECKS.values():
    c.setdefault("level", "model_checking")
    c.setdefault("note", "Exhaustive within the stated depths, alphabets and bounds. " + TRUST)
    c.setdefault("assumptions", [IMPL])

NOT_APPLICABLE = {}
