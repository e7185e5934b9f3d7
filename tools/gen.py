#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the definitions below. `CLAIMED` lists the checks that exist."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "sim"))
from table import PROPS

A = []


def prop(id, title, statement, over, text, why, files, mech, observe, state=None, level_note=None, na=None):
    anchors = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": None}
    if state:
        anchors["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    A.append((dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": text}, why_tests_cant=why, anchors=anchors), level_note, na))


prop("P01", "Streaming verdicts do not depend on how the input is delivered",
     "After any sequence of deliveries to a scanning state, the verdict (accepting or not, and whether it is dead) is the one the regular expression gives for the concatenation of everything delivered, with the begin and end marks where the caller put them. "
     "It is the same for every scanner type, for every split of the text into calls, for every address and alignment of the buffers and whatever bytes lie around them. "
     "Copied, assigned and re-initialised states behave as independent states, and a state reported as dead never accepts afterwards.",
     ["inputs", "schedules", "histories", "programs"],
     "every pattern of the language, every scanner kind, every text, every interleaving of many connections' deliveries, chunkings, placements in memory, resets and state copies",
     "Unit tests feed each pattern a handful of short literals in one or two calls from ordinary heap strings; the vectorised skip paths, word-aligned loops, head/tail handling and dead-end shortcuts depend on length, alignment, neighbouring bytes and split points that they never vary.",
     ["pire/run.h", "pire/scanners/multi.h", "pire/scanners/simple.h", "pire/scanners/slow.h", "pire/determine.h", "pire/minimize.h", "pire/fsm.cpp", "pire/re_lexer.cpp", "pire/platform.h"],
     [("chunked run with word-aligned middle and safe head/tail", "pire/run.h Impl::RunChunk / SafeRunChunk, Run()"), ("shortcut exit masks (skip to the next interesting byte)", "pire/scanners/multi.h ExitMasks, ScannerRowHeader, AlignedRunner"), ("determinisation and minimisation", "pire/determine.h, pire/minimize.h")],
     ["Pire::Step", "Pire::Run", "Scanner::Final", "Scanner::Dead", "Scanner::Initialize", "state copy and assignment"],
     [("scanning state", "position in the automaton of one connection", "Scanner::State")])
prop("P02", "Glued scanners report exactly what their parts would report",
     "A scanner obtained by gluing others, in any order and nesting, reports after any input exactly the set of patterns (and per-pattern results) its parts would report separately, numbered in gluing order. "
     "When a state limit is exceeded, gluing yields an empty scanner and leaves its operands fully usable; it never yields a wrong one, and it fails only when the limit could not hold the product of the parts.",
     ["programs", "inputs", "histories", "configurations"],
     "every set of patterns, scanner kind that can be glued, order and nesting of gluing, state limit, text and delivery schedule",
     "The tests glue two to a few dozen fixed patterns and check a few strings in one pass; ordering of ids, merging of accepted sets, nested gluing, dead-state flags of glued products and failing gluings in the middle of a history are not varied.",
     ["pire/glue.h", "pire/scanners/multi.h", "pire/scanners/half_final.h", "pire/extra/count.cpp", "pire/extra/count.h", "pire/partition.h", "pire/determine.h"],
     [("product construction with accepted-set merging", "pire/scanners/multi.h ScannerGlueTask"), ("counting glue with action merging", "pire/extra/count.cpp CountingScannerGlueTask"), ("state limit", "pire/determine.h Determine(task, maxSize)")],
     ["Scanner::Glue", "Scanner::AcceptedRegexps", "Scanner::RegexpsCount", "State::Result"])
prop("P03", "The Regexp facade always gives the language's answer",
     "A regexp object built from any valid pattern and options answers whole-string and substring queries as the pattern's language dictates, including when its automaton is too large and a slower engine is used. "
     "Copies, assignments and destruction of other regexps never change its answers, and an invalid pattern or a failed allocation while building raises an exception, leaks nothing and leaves all other objects working.",
     ["inputs", "programs", "histories", "fault_sequences"],
     "every pattern, option set (encoding, case, and/not), anchored or not, text, history of constructions, copies and destructions, and point of allocation failure",
     "The facade is tested with a dozen fixed pattern/text pairs; neither the fallback engine on generated patterns nor object histories nor failing allocations are reached.",
     ["pire/easy.h", "pire/easy.cpp", "pire/re_lexer.cpp", "pire/re_parser.y", "pire/fsm.cpp", "pire/scanners/slow.h", "pire/determine.h"],
     [("fallback to the slow engine when determination exceeds its budget", "pire/easy.h Regexp constructors"), ("anchors interpreted on the parsed automaton", "pire/easy.h PatternBounds")],
     ["Pire::Regexp", "operator ==~", "Pire::Regexp::Matches"])
prop("P04", "Prefix and suffix searches return the true longest and shortest match",
     "Searching a buffer for the longest or shortest matching prefix (or, on a reversed pattern, suffix) returns the end of exactly the longest or shortest one that belongs to the language, or null when there is none, whether or not the begin and end marks are to be passed. "
     "The answer is the same for every scanner type and for every address of the buffer, and the searches never read outside it.",
     ["inputs", "programs", "configurations"],
     "every pattern, scanner kind, text, combination of marks, direction, and placement of the buffer including flush against inaccessible pages",
     "The tests try a few strings at one alignment; matches that end inside a range the scanner fast-forwards over, empty matches and matches decided by the end mark are not covered. Two such defects were found and repaired.",
     ["pire/run.h", "pire/scanners/multi.h"],
     [("predicate-driven runner", "pire/run.h Impl::LongestPrefixPred, ShortestPrefixPred, DoRun"), ("shortcut ranges entered by the runner", "pire/scanners/multi.h AlignedRunner::RunAligned")],
     ["Pire::LongestPrefix", "Pire::ShortestPrefix", "Pire::LongestSuffix", "Pire::ShortestSuffix"])

prop("P05", "Automaton operations compute exactly the language they are named for",
     "Every way of building and combining automata (parsing, appending, raw construction, concatenation, alternation, conjunction, complement, iteration, powers, reversal, prefixes, suffixes, surrounding) yields exactly the language the operation is named for, whatever operations led to its operands, also when an automaton is applied to itself, and leaves the other operand alone. "
     "Copying, assigning, swapping, removing epsilons or dead ends, and determining, successfully or not, keep the language. "
     "Canonize() arrives at the minimal complete automaton, and every scanner compiled from an automaton accepts exactly its language and is dead exactly when nothing more can match.",
     ["histories", "programs", "inputs"],
     "every history of operations on every set of automata, every operand including the automaton itself, the empty language and the empty word, and every word over bytes and marks",
     "The tests apply an operation or two to a parsed pattern and try a few words. Whether an operation is right depends on the hidden form its operands were left in (divided into letter classes, determined, several final states, a final initial state) and so on the history, and on all words. Several such defects were found and repaired.",
     ["pire/fsm.cpp", "pire/fsm.h", "pire/determine.h", "pire/minimize.h", "pire/partition.h", "pire/re_parser.y"],
     [("automaton algebra", "pire/fsm.cpp Fsm::Import, operator+=, operator|=, operator&=, Iterate, Complement, Reverse, MakePrefix, MakeSuffix"), ("determination and minimisation", "pire/determine.h, pire/minimize.h, pire/fsm.cpp FsmDetermineTask, FsmMinimizeTask"), ("letter classes", "pire/partition.h, pire/fsm.cpp Sparse, Unsparse")],
     ["Pire::Fsm", "Pire::Lexer::Parse"])

prop("P06", "A saved scanner loads back as the same scanner",
     "A scanner of any kind, however it was built, written to a stream and loaded into any object gives back a scanner with the same answers on every input, and a second generation is the same again. "
     "Saving and loading consume exactly one image, so images can stand among other data in one stream; neither depends on how the stream splits its transfers, and loading replaces whatever the target held. "
     "Images of related scanner kinds that share a format load into each other with the same answers, and so do images in the previous version of the format.",
     ["programs", "histories", "configurations", "fault_sequences"],
     "every scanner of every kind (compiled, glued, converted, empty), every split of stream transfers, every position in a stream, every previous content of the target",
     "The tests save and load a few fixed scanners through string streams and compare a few verdicts; short transfers, several images in one stream, reloading over used objects, empty and glued scanners and second generations are not covered.",
     ["pire/scanners/multi.h", "pire/scanners/simple.h", "pire/scanners/slow.h", "pire/scanners/loaded.h", "pire/scanners/half_final.h", "pire/scanners/common.h", "pire/scanner_io.cpp", "pire/stub/saveload.h", "pire/extra/count.cpp", "pire/align.h"],
     [("image formats", "pire/scanner_io.cpp SimpleScanner/SlowScanner/LoadedScanner Save/Load, pire/scanners/multi.h Scanner::Save/Load, pire/extra/count.cpp NoGlueLimitCountingScanner::Save/Load"), ("alignment padding", "pire/align.h AlignSave, AlignLoad, AlignedSaveArray, AlignedLoadArray")],
     ["Scanner::Save", "Scanner::Load", "answers of the loaded scanner", "stream position after loading"])
prop("P07", "A scanner mapped from memory is the scanner that was saved",
     "Mapping an image that lies in read-only memory at any word-aligned address gives a scanner with the answers of the one saved, touches nothing outside the image, writes nothing, and returns the address just behind the image so that images can be mapped one after another. "
     "A mapped scanner can be copied, moved, swapped, saved, glued and loaded over like any other. A misaligned address is refused with an error and leaves the scanner as it was.",
     ["programs", "histories", "configurations", "fault_sequences"],
     "every mappable scanner, every word-aligned placement between inaccessible pages, every sequence of images, every history of operations on mapped scanners",
     "The tests map one image from a heap buffer at one address; placements against page ends, sequences of images, empty images and operations on mapped scanners are not covered. Several of those were defects and were repaired.",
     ["pire/scanners/multi.h", "pire/scanners/simple.h", "pire/scanners/slow.h", "pire/scanners/loaded.h", "pire/scanners/common.h", "pire/align.h", "pire/extra/count.cpp", "pire/extra/capture.h"],
     [("pointers into the image instead of copies", "Mmap() of every scanner, pire/align.h MapPtr"), ("ownership: mapped scanners free nothing", "pire/scanners/multi.h m_buffer, pire/scanners/slow.h m_pool, pire/scanners/loaded.h m_buffer")],
     ["Scanner::Mmap", "return value of Mmap", "answers of the mapped scanner"])
prop("P08", "A damaged or foreign image is refused without harm",
     "Loading from a stream that ends early or fails, or mapping a memory range that is too short, and offering an image whose header is damaged or belongs to an incompatible scanner kind, raises an error instead of producing a scanner. "
     "Nothing outside the given range is read, nothing leaks, and the scanner object can afterwards be used as a target again; other scanners are not affected.",
     ["fault_sequences", "inputs", "histories"],
     "every image of every scanner kind, every point at which it is cut, every stream failure, every damaged header field, every pair of kinds, and every history of such failures",
     "The tests damage one header field of one image; truncation at every point and recovery after it are not covered. Silent acceptance of truncated images was a defect and was repaired.",
     ["pire/scanners/common.h", "pire/align.h", "pire/stub/saveload.h", "pire/scanner_io.cpp", "pire/scanners/multi.h", "pire/scanners/slow.h", "pire/scanners/simple.h", "pire/extra/count.cpp"],
     [("header validation", "pire/scanners/common.h Header::Validate"), ("bounds of mapped ranges", "pire/align.h MapPtr, Impl::AdvancePtr"), ("stream failures", "pire/stub/saveload.h LoadPodArray")],
     ["Scanner::Load", "Scanner::Mmap", "Pire::Error"])
prop("P09", "A log of scanners survives crashes up to the last complete record",
     "A process that appends scanners to a file, with refused writes, syncs, restarts and crashes that keep an arbitrary prefix of the unsynced bytes, recovers after every crash, by loading or by mapping, exactly the scanners whose images survived completely, in order. "
     "Every synced image is among them, and the torn tail is recognised as such and never yields a scanner.",
     ["crash_points", "fault_sequences", "histories"],
     "every history of appends, syncs, failures, crashes and recoveries, and every surviving length of the file",
     "No test restarts from a file that a crash or a full disk cut short.",
     ["pire/scanners/common.h", "pire/align.h", "pire/stub/saveload.h", "pire/scanner_io.cpp", "pire/scanners/multi.h"],
     [("self-delimiting images", "Save()/Load()/Mmap() of every scanner"), ("detection of torn images", "pire/stub/saveload.h, pire/align.h, pire/scanners/common.h")],
     ["Scanner::Save", "Scanner::Load", "Scanner::Mmap"])

prop("P10", "Running out of memory or a bad pattern harms nothing",
     "When an allocation fails at any point inside any library operation, or a pattern is invalid (or not text in its encoding), the operation raises an exception, leaks nothing and leaves every other object as it was. "
     "A scanner that was to be copied over, loaded into or mapped keeps its old value; any other object that was being changed can be destroyed or given a new value. "
     "The same operation gives its usual result once memory is back, and a parser object that refused a pattern accepts the next valid one.",
     ["fault_sequences", "inputs", "histories"],
     "every operation (parsing, automaton algebra, compiling, gluing, copying, loading, mapping, saving, scanning, converting), every failing allocation within it, every invalid pattern",
     "No test makes an allocation fail; the tests try about a dozen invalid patterns and never look at leaks or at using the parser again. Several such defects were found and repaired.",
     ["pire/re_parser.y", "pire/re_lexer.cpp", "pire/fsm.cpp", "pire/determine.h", "pire/minimize.h", "pire/scanners/multi.h", "pire/scanners/slow.h", "pire/scanners/simple.h", "pire/scanners/loaded.h", "pire/extra/count.cpp", "pire/easy.h", "pire/scanner_io.cpp"],
     [("values of grammar symbols", "pire/re_parser.y ParserValues"), ("build aside and swap", "operator = and Load()/Mmap() of every scanner"), ("ownership of raw buffers", "m_buffer, m_pool of the scanners")],
     ["std::bad_alloc and Pire::Error out of any call", "live allocations", "answers of all other objects"])

prop("P12", "Counting scanners report the longest chain of separated matches",
     "After any input, split and delivered in any way, a counting scanner reports for every pattern it was built or glued from the number of matches in the longest chain in which each match follows the previous one at exactly a separator, over one or several documents. "
     "This holds for every counting scanner type on tokens (letters, runs of letters, words that cannot overlap themselves), and for the advanced types on all patterns and separators without common letters; on all others the advanced types agree with each other. "
     "The answer does not depend on the scanner type, on what else was glued in, or on the delivery.",
     ["inputs", "programs", "histories", "configurations"],
     "every pattern and separator within the stated classes, every gluing, text, sequence of documents and delivery schedule",
     "The tests count a few fixed words in a few fixed strings, one counter kind and one pass at a time.",
     ["pire/extra/count.cpp", "pire/extra/count.h"],
     [("construction of counting automata", "pire/extra/count.cpp CountingFsm, CountingFsmDetermineTask, BuildAction"), ("action tables of the scanners", "pire/extra/count.h CountingState, NoGlueLimitCountingScanner::TakeActionImpl"), ("minimisation with actions", "pire/extra/count.cpp CountingFsm::Minimize")],
     ["CountingScanner::State::Result", "AdvancedCountingScanner::State::Result", "NoGlueLimitCountingScanner::State::Result"])

prop("P14", "Half-final scanners and counters count what they document",
     "A half-final counter reports for every pattern, in every document, the number of matches its mode is defined by: the earliest-ending matches one after another (non-greedy without intersections), the positions at which some match ends (non-greedy with intersections, not simplified), or the leftmost-longest matches that do not overlap (greedy, not simplified, up to the depth it can hold back; simplified: on tokens). "
     "A plain half-final scanner reports at the end mark exactly the patterns that match. All of this holds for every gluing, every delivery, and for a position that was saved and loaded back after a failure.",
     ["inputs", "programs", "histories", "fault_sequences"],
     "every pattern, counting mode, scanner kind and gluing, every sequence of documents, delivery schedule and restart from a saved state",
     "The tests count a few fixed patterns in a few fixed strings. Double counting when a longer match overtook shorter ones, and saving a state, were defects and were repaired.",
     ["pire/half_final_fsm.cpp", "pire/half_final_fsm.h", "pire/scanners/half_final.h", "pire/scanners/multi.h"],
     [("counting automata", "pire/half_final_fsm.cpp MakeGreedyCounter, MakeNonGreedyCounter, DisconnectFinals, HalfFinalDetermineState"), ("counts per state", "pire/scanners/half_final.h TakeAction, BuildFinals"), ("saved positions", "pire/scanners/half_final.h State::Save, State::Load")],
     ["HalfFinalScanner::State::Result", "HalfFinalScanner::AcceptedRegexps", "State::Save", "State::Load"])

prop("P17", "Approximate matching accepts exactly the words within the given distance",
     "A scanner compiled with distance k accepts exactly the strings that at most k edits (inserting, deleting or replacing a character, or swapping two neighbours; begin and end marks count as characters, and no part is edited twice) turn into a string the automaton accepts. "
     "This holds for every automaton, however it was built (parsed, combined, complemented, determined), for every scanner kind and for gluings; CreateApproxFsm() leaves its operand as it was, and distance 0 changes nothing.",
     ["inputs", "programs", "histories"],
     "every automaton and building history, distance, scanner kind, gluing, and delivered word",
     "The tests try a dozen words on parsed patterns. Insertions after the last letter, swaps across epsilon transitions, and determined or complemented automata were handled wrongly and were repaired.",
     ["pire/approx_matching.cpp", "pire/approx_matching.h", "pire/fsm.cpp"],
     [("edit layers", "pire/approx_matching.cpp CreateApproxFsm"), ("compiling with a distance", "pire/fsm.h Fsm::Compile(distance), pire/scanners/*.h constructors")],
     ["CreateApproxFsm", "Fsm::Compile<Scanner>(distance)"])

prop("P13", "Captures are spans the group really takes; greedy and lazy choices hold",
     "What SlowCapturingScanner reports after any prefix of a text is the span its group takes in some match of the searched pattern on that prefix, nothing is reported without a match, something is whenever every match goes through the group, and greedy and non-greedy repetitions decide between several. "
     "CapturingScanner reports exactly the delimited span for delimited groups; copies, saved, loaded and mapped scanners report the same.",
     ["inputs", "histories", "configurations"],
     "every pattern with a capture group (repeated, optional, alternative, nested, next to line marks), every text, cut into any chunks over any number of connections",
     "The tests capture from a dozen literal texts; wrong spans show only with line marks, empty groups, several candidates or particular repetitions.",
     ["pire/extra/capture.h", "pire/extra/capture.cpp", "pire/scanners/slow.h", "pire/scanners/loaded.h", "pire/re_parser.y"],
     [("threads in order of priority", "pire/extra/capture.h SlowCapturingScanner::NextAndGetToGroups, UpdateNList, GetCapture"), ("marks in the automaton", "pire/extra/capture.cpp CaptureImpl::SetCaptureMark, SetRepetitionMark"), ("flagged transitions", "CapturingScanner::TakeAction")],
     ["SlowCapturingScanner::GetCapture", "CapturingScanner::State::Captured/Begin/End", "Features::Capture"])
prop("P15", "Threads may share const objects and build their own at the same time",
     "Any number of threads may at the same time match with one scanner or regexp, copy, save, convert or glue it, and parse, combine and compile patterns of their own, including as the very first users of the library: no access of one is unordered with a conflicting access of another, and none blocks for ever. "
     "Every thread gets the results it would get alone.",
     ["schedules", "inputs", "histories"],
     "every interleaving, at the grain of single memory accesses, of any scripts of library calls on shared const objects and private ones, from a cold or a warm start",
     "No test starts a second thread; scanners are const at match time precisely so that servers can share them, and the tables of character classes and glyphs are created on first use.",
     ["pire/stub/singleton.h", "pire/classes.cpp", "pire/extra/glyphs.cpp", "pire/encoding.cpp", "pire/re_lexer.cpp", "pire/re_parser.y", "pire/scanners/multi.h", "pire/scanners/slow.h", "pire/run.h"],
     [("lazily created tables", "pire/stub/singleton.h Singleton()"), ("reentrant parser", "pire/re_parser.y %pure-parser"), ("const matching", "const Scanner::Next/TakeAction/Final of every scanner")],
     ["Run", "Scanner::Next", "Lexer::Parse", "Features::CharClasses", "Features::GlueSimilarGlyphs", "Encodings::Utf8"])
prop("P16", "Scanners are values: copies are independent, nothing leaks or changes unasked",
     "Copying, assigning, moving, swapping, converting between address modes, gluing and reloading give an object that answers exactly as its source did, leave every other object as it was (also when operands are the same object, or when an allocation fails midway), and keep no reference to their source. "
     "Connections served by an object that was not itself replaced go on undisturbed, and when all objects are destroyed, in any order, all their memory is returned.",
     ["histories", "inputs", "fault_sequences"],
     "every scanner kind and content, every sequence of value operations with every aliasing, allocation failure and order of destruction, with connections being served meanwhile",
     "The tests copy and assign one or two scanners once; nothing covers histories, aliasing, moved-from objects or destruction order.",
     ["pire/scanners/loaded.h", "pire/scanners/multi.h", "pire/scanners/simple.h", "pire/scanners/slow.h", "pire/scanners/half_final.h", "pire/extra/capture.h", "pire/extra/count.h"],
     [("copying", "pire/scanners/multi.h Scanner::DeepCopy; pire/scanners/simple.h, slow.h, loaded.h copy constructors"), ("swapping", "Swap() of every scanner class")],
     ["scanner copy/move constructors and assignment", "Swap", "Glue", "Load"])

prop("P18", "pire_inline embeds the scanners it is asked for or fails loudly",
     "For every source file, pire_inline replaces each PIRE_REGEXP() by an expression that gives the scanner the library would build at run time from the same patterns and flags, and passes everything else (code, literals, comments, longer names) through unchanged, every line still attributed to its own file and line. "
     "The output does not depend on how input and output are transferred. Malformed or unfinished sources, invalid patterns, files that cannot be opened or read, and output that cannot be written completely end with a message and a failing exit status, never in a hang or a silent success.",
     ["inputs", "programs", "fault_sequences"],
     "every source text with any number of PIRE_REGEXP(), every way to write the literals, comments and line breaks in and around them, every pattern and flag, and every point at which an open, read, write, close or allocation fails",
     "One test file goes through the tool when the tests are built: nine fixed patterns without escapes, full buffers, no error of any kind. Mangled escapes, comments and literals, lost write errors and an endless loop on an unclosed comment were defects and were repaired.",
     ["pire/inline.lpp", "pire/stub/memstreams.h", "pire/run.h", "pire/align.h"],
     [("lexing of the surrounding C++", "pire/inline.lpp rules and eatComment"), ("decoding of literals and flags", "pire/inline.lpp <Regexp> rules"), ("embedding of the image", "pire/inline.lpp BufferOutput, AlignedOutput; pire/run.h MmappedScanner; pire/defs.h PIRE_LITERAL")],
     ["output of pire_inline", "exit status of pire_inline", "scanner mapped from the embedded literal"])

prop("P19", "Builds for different instruction sets answer alike and share images",
     "Builds of the library for machines with SSE2, with MMX only and with neither give the same answers for every pattern, text and delivery: verdicts, accepted sets, results, captures and prefix searches, from scanners compiled, glued, loaded or mapped. "
     "An image saved by one such build is read by every other one (by loading or by mapping) as the same scanner, has the same size, and can be saved, copied and glued again there.",
     ["inputs", "histories", "configurations"],
     "every scanner type, every pattern and text, every combination of builds that write, pass on and read images, every address at which texts and images lie",
     "The tests are built for one instruction set, with the others' code compiled out; the serialization tests read images in the process that wrote them.",
     ["pire/platform.h", "pire/scanners/multi.h", "pire/scanners/common.h", "pire/align.h", "pire/run.h", "pire/scanner_io.cpp"],
     [("comparison of words with exit masks", "pire/platform.h BasicInstructionSet, AvailMMX, AvailSSE2"), ("the largest word of all builds in the layout of images", "pire/platform.h MaxSizeWord; pire/scanners/multi.h RowSize, ExitMasks; pire/align.h"), ("which images are refused", "pire/scanners/common.h Header")],
     ["answers of the same scanner in every build", "images exchanged between builds"])

prop("P20", "pigrep and blacklist print what they should or report that they could not",
     "pigrep, given any pattern, options and list of files, prints exactly the lines that match, in order and under the right name, and blacklist prints exactly the URLs that its dictionary covers. "
     "What was printed is a beginning of that in every case, and the exit status says success only if everything was read and written: files that cannot be opened or read, lost output, full disks, failed mappings and allocations, invalid patterns and unfinished dictionaries end with a message and a failing status. "
     "A dictionary whose writing was cut short by a crash or a full disk is refused or works as the complete one.",
     ["inputs", "fault_sequences", "crash_points", "histories"],
     "every pattern, option and sequence of files, every list of domains and URLs, every point at which an open, read, write, mapping or allocation fails or the process dies, and every surviving part of a dictionary",
     "The programs have no tests. Read errors taken for ends of files, output and dictionaries lost in silence and an error message that names the wrong file were defects and were repaired.",
     ["samples/pigrep/pigrep.cpp", "samples/blacklist/blacklist.cpp", "tools/common/filemap.h", "pire/run.h", "pire/re_lexer.cpp", "pire/fsm.cpp", "pire/scanners/multi.h"],
     [("lines and options", "samples/pigrep/pigrep.cpp main, GrepStream"), ("dictionary made and used", "samples/blacklist/blacklist.cpp Generate, Use, Filter"), ("mapping of the dictionary", "tools/common/filemap.h FileMmap, Scanner::Mmap")],
     ["standard output, messages and exit status of pigrep and blacklist", "the dictionary file"])

TECH = "deterministic simulation with fault injection: seeded search over workloads, schedules, placements and faults against an executable reference model"
NOTE = ("Seeded search over simulated runs of the real library code; every run is one exactly repeatable execution and is compared with a reference model. A clean result is evidence over the explored "
        "seeds, not proof. Trusts the reference models in sim/, the compiler, and AddressSanitizer for memory errors.")

NA_EXTRA = []


def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p, _, _ in A:
            assert len(p["title"]) <= 80, p["id"]
            f.write(json.dumps(p) + "\n")
    checks, na = [], []
    for p, note, reason in A:
        if p["id"] in PROPS:
            checks.append({"property": p["id"], "quick_cmd": "./check %s quick" % p["id"], "thorough_cmd": "./check %s thorough" % p["id"],
                           "technique": TECH, "level": PROPS[p["id"]]["level"], "level_note": (note + " " if note else "") + NOTE})
        else:
            assert reason, p["id"]
            na.append({"property": p["id"], "reason": reason})
    m = {"version": 1, "setup_cmd": "./check --setup", "checks": checks, "not_applicable": na,
         "notes": "No hooks were needed in /repo: the seams are the library's own types (streams, memory ranges, allocator, compiler instrumentation). See DESIGN.md."}
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    print("%d properties, %d checks, %d not applicable" % (len(A), len(checks), len(na)))


main()
