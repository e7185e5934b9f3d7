"""What each check builds, how long it searches, and what its evidence says."""

REAL = ["the whole pire library compiled from /repo/pire (lexer, bison parser, encodings, classes, Fsm algebra, determination, minimisation, all scanners, glue, runners, serialization)"]
STUB = ["heap (seeded garbage, red zones, quarantine, injectable failure)"]
ASSUME = ["x86-64 with SSE2 (the build the repository ships here)", "the reference models in /verif/sim are right",
          "sampled, not enumerated: a clean run is evidence, not proof"]


def P(sources, rule, measure, flavour="asan", level="exploration", quick_s=45, thorough_s=600, **kw):
    d = dict(sources=sources, rule=rule, measure=measure, flavour=flavour, level=level, quick_s=quick_s, thorough_s=thorough_s)
    d.update(kw)
    return d


PROPS = {
    "P01": P(["p01.cpp"],
             "A run draws a pattern, several scanner kinds and connections (some served by scanners of any kind, counting and capturing ones included), and a delivery schedule with resets, restarts and state copies.",
             "distinct (pattern, sequence of deliveries with their alignment) prefixes reached",
             stub=["network card (deliveries at drawn alignments next to guard pages)"],
             must_reach=["reach.dead_state", "reach.match", "fault.connection_restarted", "reach.followed_result", "op.state_served_another_scanner"]),
    "P04": P(["p04.cpp"],
             "A run draws a pattern, scanner kinds, texts and the placements of every delivered buffer.",
             "distinct (pattern, text, alignment) triples searched",
             stub=["network card (deliveries at drawn alignments next to guard pages)"],
             must_reach=["reach.long_prefix", "reach.nonempty_suffix", "reach.shortest_differs_from_longest"]),
    "P02": P(["p02.cpp"],
             "A run draws a scanner kind, patterns, a history of gluings with drawn state limits, and connections served by parts and glued scanners meanwhile.",
             "distinct (text, position, scanner, accepted set or results) reached",
             stub=["network card (deliveries at drawn alignments next to guard pages)"],
             must_reach=["fault.glue_out_of_states", "reach.several_accepted", "reach.some_accepted", "reach.nonzero_result"]),
    "P03": P(["p03.cpp"],
             "A run draws a history of building, copying, destroying and querying regexps with drawn options, with allocation failures in a third of the runs.",
             "distinct (pattern, text) pairs queried",
             stub=["network card (deliveries at drawn alignments next to guard pages)"],
             must_reach=["reach.fallback_engine", "reach.fallback_match", "reach.match", "reach.no_match", "fault.alloc_failed"]),
}

DISK = "disk (streams over simulated files: drawn transfer sizes, short reads, ends of data, errors)"
PROPS["P06"] = P(["p06.cpp"],
                 "A run draws scanners of any kind, writes them among other bytes into a simulated file with drawn transfer sizes, and loads them into drawn targets with drawn stream behaviour.",
                 "distinct (scanner behaviour, read plan, target) sequences", stub=[DISK],
                 must_reach=["reach.second_generation", "reach.glued_loaded", "reach.empty_loaded", "reach.cross_kind", "reach.accepting"])
MAP = "mapped pages (read-only images at drawn word-aligned addresses between inaccessible pages)"
PROPS["P07"] = P(["p07.cpp"],
                 "A run draws scanners of any mappable kind, lays their images one after another into read-only pages, maps them record by record and then copies, moves, swaps, saves, glues and reloads the mapped scanners.",
                 "distinct (scanner behaviour, image address) sequences", stub=[DISK, MAP],
                 must_reach=["reach.glued_mapped", "reach.empty_mapped", "reach.accepting", "fault.misaligned", "reach.saved_from_mapping", "reach.loaded_over_mapping", "reach.glued_with_mapping", "reach.swapped_with_used"])
PROPS["P08"] = P(["p08.cpp"],
                 "A run draws images of scanners of any kind, damages them (cut anywhere, device error, header field changed, wrong kind) and offers them to scanners in use, by stream and by mapping against an inaccessible page.",
                 "distinct (fault, kinds, position, way of loading)", stub=[DISK, MAP],
                 must_reach=["reach.cut_in_header", "reach.cut_in_sizes", "reach.cut_in_body", "reach.cut_in_last_words", "fault.device_error", "fault.header_damaged", "fault.foreign_image", "reach.recovered"])
PROPS["P09"] = P(["p09.cpp"],
                 "A run is a node that appends scanners to a log on a simulated disk with a write-back cache, with refused writes, syncs, orderly restarts and crashes that keep an arbitrary prefix of the unsynced bytes.",
                 "distinct (surviving file, recovered scanners)", stub=[DISK + " with a write-back cache", MAP],
                 must_reach=["fault.crash", "fault.lost_tail", "fault.write_failed", "reach.failed_append", "reach.records_lost", "reach.torn_tail", "reach.recovered_by_mapping"])
PROPS["P10"] = P(["p10.cpp"],
                 "A run draws scanners and automata, then operations on them; each is first run without faults to count its allocations, then with drawn allocations failing (one, or that one and all later), and again without faults; between them, damaged patterns are parsed.",
                 "distinct (operation with its operands, failing allocation)", stub=[DISK, MAP],
                 must_reach=["fault.alloc_failed", "fault.invalid_pattern", "reach.op_failed"])
PROPS["P05"] = P(["p05.cpp"],
                 "A run draws a small alphabet of bytes and marks and a history of operations (parsing, raw construction, concatenation, alternation, conjunction, complement, iteration, reversal, prefixes, suffixes, appending, copying, swapping, determination within a limit) on a few automata, some of them applied to themselves.",
                 "distinct (sequence of operations, language) prefixes reached",
                 must_reach=["reach.language_nonempty", "reach.language_empty", "reach.large_language", "reach.self_concatenated", "reach.self_alternated", "reach.raw_sparsed", "reach.canonized", "reach.determined_pruned", "fault.out_of_states", "op.append_strings", "op.swap"])
PROPS["P14"] = P(["p14.cpp"],
                 "A run draws patterns and counting modes, builds half-final counters of drawn kinds, glues them in a drawn nesting, and serves several connections carrying several documents each, with checkpoints, crashes and restarts from saved states.",
                 "distinct (text, position, results) reached", stub=["network card (deliveries at drawn alignments next to guard pages)", DISK],
                 must_reach=["reach.counted_several", "reach.greedy_several", "fault.restart_from_saved_state", "op.glue"])
PROPS["P12"] = P(["p12.cpp"],
                 "A run draws counters (pattern and separator), builds them in every counting kind, glues them in drawn nestings, and serves connections carrying several documents, with resets, restarts and state copies.",
                 "distinct (text, position, results of all kinds) reached", stub=["network card (deliveries at drawn alignments next to guard pages)"],
                 must_reach=["reach.chain_of_three", "reach.chain_in_several_documents", "op.glue"])
PROPS["P17"] = P(["p17.cpp"],
                 "A run draws a small alphabet of bytes and marks, builds automata by drawn histories, compiles them with drawn distances into drawn kinds, glues some, and delivers words a drawn number of edits away in drawn chunks.",
                 "distinct (language, distance) pairs", stub=["network card (deliveries at drawn alignments next to guard pages)"],
                 must_reach=["reach.one_edit", "reach.two_edits", "reach.canonized", "reach.within", "reach.outside", "reach.slow", "op.glued"])
PROPS["P16"] = P(["p16.cpp"],
                 "A run keeps a pool of scanners of any kind, some serving connections, and draws a history of copies, assignments, moves, swaps, conversions, gluings, reloads and destructions, some with failing allocations, some of an object with itself.",
                 "distinct (sequence of operations, behaviours) prefixes", stub=["network card (deliveries at drawn alignments next to guard pages)", DISK],
                 must_reach=["fault.alloc_failed", "reach.failed", "reach.assigned_to_itself", "reach.swapped_with_itself", "reach.copy_outlives_original", "reach.connection_progressed", "op.move_assigned", "op.converted", "op.glued", "op.reloaded", "reach.all_destroyed"])
PROPS["P13"] = P(["p13.cpp"],
                 "A run draws a pattern with a capture group (plain, repeated, optional, in an alternative or nested, with greedy and non-greedy repetitions), compiles it for one of the capturing scanners, and streams drawn texts over several connections with chunking, rollbacks and restarts, each served by the compiled scanner, a copy, a reloaded or a mapped one.",
                 "(pattern, text so far, answer)",
                 must_reach=["reach.captured", "reach.captured_empty", "reach.matched_without_group", "reach.no_match", "reach.delimited", "reach.preferred_of_several", "reach.later_group", "op.mapped", "fault.connection_restarted"])
PROPS["P15"] = P(["t_p15.cpp"],
                 "A run draws two to four scripts of library calls (parsing with features, compiling, matching with shared scanners, publishing under a lock, copying, saving, loading, mapping, gluing, converting, default construction) and a schedule with preemptions between any two function entries, loads, stores or atomic operations of the library.",
                 "distinct schedules (digest of every switch with its position)", flavour="sched",
                 stub=["threads (fibers under a seeded scheduler; every function entry, load, store and atomic operation of the library is a scheduling point)", "initialisation guards of local statics, mutexes and one-time calls (same contract, waiting goes to the scheduler)"],
                 must_reach=["reach.cold_start", "reach.warm_start", "reach.interleaved", "reach.shared_used", "reach.compared_with_reference", "sched.static_initialised", "sched.waited_for_static"])
PROPS["P18"] = P(["p18.cpp"],
                 "A run draws a C++ source text (code, literals, comments, PIRE_REGEXP() of drawn patterns and flags, or a damaged one), runs the tool's own main() over it on simulated files with drawn transfer sizes, and then again with reads, writes, opens, closes or allocations failing.",
                 "distinct (patterns, text scanned) and (source, fault) pairs",
                 stub=["files (cookie streams: drawn transfer sizes, read errors, full disk, failing open and close)"],
                 must_reach=["reach.embedded", "reach.embedded_several", "reach.match", "fault.broken_source", "fault.read_error", "fault.write_failed", "fault.close_failed", "fault.open_failed", "fault.alloc_failed"])

PROPS["P19"] = P(["p19.cpp"],
                 "A run is a cluster of two to four machines that run builds of the library for different instruction sets; they build, save, send, lose, load, map, copy and glue scanners of any kind, crash and come back as other machines, and serve texts.",
                 "distinct sequences of (text, build, way the scanner came about) observed", stub=[DISK, MAP, "network between the machines (delay, reordering, loss, duplication, damage)", "instruction sets other than SSE2 (the portable and the MMX code of the library, compiled into the same process)"],
                 must_reach=["op.built", "op.loaded", "op.mapped", "op.glued", "fault.crash", "fault.message_lost", "fault.message_duplicated", "fault.transfer_dropped", "reach.match"])

PROPS["P20"] = P(["p20.cpp"],
                 "A run is a machine on which pigrep or blacklist processes are started one after another with drawn arguments over drawn files; opens, reads, writes, mappings and allocations fail, disks fill up, processes crash and leave part of a dictionary.",
                 "distinct (input, outcome) of the started processes",
                 stub=["the machine under the sample programs (files, descriptors, mappings, standard streams with the buffering of the C++ library, exit)"],
                 must_reach=["reach.line_printed", "reach.line_skipped", "reach.success", "reach.failure", "reach.input_fault", "reach.bad_pattern", "reach.generated", "reach.generate_failed", "reach.filtered", "reach.torn_refused", "fault.crash", "fault.disk_full", "fault.output_failed", "fault.read_failed", "fault.mmap_failed", "fault.alloc_failed"])
