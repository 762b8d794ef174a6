#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a program so that the long lines stay editable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                          "observe_at": list(observe), "hook_needed": hook}})
U, R, RC, PT, PC, PD, PE, PN, IC, SP = ("lib/uri/uri.cpp", "include/uri/rule.hpp", "lib/uri/rule.cpp",
    "include/uri/parts.hpp", "lib/uri/parts.cpp", "include/uri/pctdecode.hpp", "include/uri/pctencode.hpp",
    "include/uri/punycode.hpp", "include/uri/icubaby.hpp", "tools/uri-split/uri-split.cpp")
PEC, PNC, UH = "lib/uri/pctencode.cpp", "lib/uri/punycode.cpp", "include/uri/uri.hpp"

prop("C01", "Concurrent callers never disturb one another",
     "Any number of threads may call the library at the same time - parsing, resolving, composing, comparing and checking URIs, and percent-, Punycode- and UTF-transcoding, each with its own mutable objects (cursors and transcoders included) and with freely shared read-only ones - and every call returns exactly what it would have returned had it run alone. No interleaving produces a data race, a crash, a deadlock or a call that never returns.",
     ["schedules", "inputs"], "every interleaving of any set of threads calling the public API on private or shared-const objects, from the very first call in the process onwards",
     "The unit tests are single-threaded, so they never execute two calls at once: hidden shared state (a cache, a function-local static, a reused buffer) is invisible to them and usually invisible to stress tests too.",
     [U, R, RC, PT, PC, PEC, PNC, PD, PE, PN, IC],
     [("no mutable static state; results are built in locals captured by the grammar's acceptors", U), ("constant table", PEC), ("error category singleton", PNC), ("decoding iterators keep their scratch octet per object", PD)],
     [("error category", "function-local static, the only lazily initialised object", PNC), ("encode", "function-local static table", PEC)],
     ["return values of every public function", "every load and store the library makes"])
prop("C02", "A failed allocation leaves no partial effect",
     "If memory runs out at any point inside parsing, reference resolution, path normalisation or conversion to a string, or the string forms of percent-, Punycode- and UTF-transcoding, the call either still returns the complete correct answer or reports std::bad_alloc; it never returns a truncated, wrong or 'invalid' answer. Its arguments are unchanged, nothing leaks, and the same call made again with memory available gives the correct answer.",
     ["fault_sequences", "inputs"], "every allocation of every call, for every failure pattern (one-shot, persistent, size-dependent, exhausted budget), and every history of failed and successful calls",
     "No unit test makes an allocation fail; there are dozens of allocation points per call and their number depends on the input.",
     [U, R, RC, PEC, PE, PD, PN, PNC, IC],
     [("values built in locals and returned by value; RAII containers only", U), ("acceptors run only after the whole input has matched", RC)],
     [], ["return value or exception", "argument values after the call", "balance of operator new/delete"])
prop("C03", "Composition is complete or its failure is reported",
     "Writing a URI, an authority or a path to an output stream delivers bytes which are at every moment an exact prefix of its text, and unless all of the text was accepted the stream is left in a failed state (or throws, if it is set to). Composing to a string returns the entire text or throws. This holds whatever the stream does - refuses bytes after any point, refuses to flush, throws - and whenever memory runs out.",
     ["fault_sequences", "inputs"], "every failure point of every sink, every allocation failure, every URI",
     "The unit tests compose to healthy string streams with unlimited memory.",
     [U, UH], [("stream insertions in component order", U), ("compose to string through a string stream", U)],
     [("stream state", "fail/bad bits and the exception mask", "std::ostream")], ["bytes the sink accepted", "stream state", "returned string or exception"])
prop("C04", "Encoded and decoded URIs stay valid while their store lives",
     "After encoding or decoding a URI into a caller's store, every component of the result equals the correctly encoded or decoded text and refers either to the store or to the original text, for any number and size of components, any amount of earlier use of the same store, and any growth policy of the store. If memory runs out or the text cannot be decoded, the call says so, and the same store can be used again at once.",
     ["histories", "fault_sequences", "inputs"], "every sequence of encode/decode operations sharing stores, with every allocation failure and store growth/relocation policy",
     "The tests use one small fixed URI per fresh store; whether views survive depends on component counts, sizes, capacity left over from earlier calls and on where memory ran out.",
     [PT, PC, PN, PE, PD], [("two passes: size, reserve, then fill", PT), ("per-component needs_encoding flags", PT)],
     [("store", "owner of the text produced", PT), ("needs_encoding", "which components live in the store", PT)],
     ["views in the returned parts", "store contents, capacity and relocations", "error code or exception"])
prop("C05", "Operations that promise not to throw never abort the program",
     "Checking whether a URI, an authority or a path is valid, and every other operation the library declares non-throwing, completes with the correct answer however little memory is available: it never terminates the process, throws, or changes its verdict because an allocation failed.",
     ["fault_sequences", "inputs"], "every allocation-failure pattern during every call declared noexcept, for every input",
     "A noexcept function that allocates works in every test and kills the process the first time memory is short.",
     [U, R, RC, PEC, PNC, PE, PD], [("validity checks use rules without acceptors, which need no memory", U), ("table lookup", PEC)],
     [], ["verdict", "process survival"])
prop("C06", "Grammar actions run exactly once, in order, only on a full match",
     "When a grammar written with the rule combinators is run, the attached actions fire only if the entire input matched, each exactly once, in input order, with exactly the text its element matched, and none of those from abandoned alternatives; and the outcome is the one the documented left-to-right, first-match, greedy semantics give. If a matcher throws, nothing has fired; if an action throws or memory runs out, exactly the preceding actions have fired and the exception reaches the caller unchanged.",
     ["programs", "inputs", "fault_sequences"], "every grammar built from the combinators (with no unbounded repetition of an element that can match nothing), every input, and every point at which a matcher, an action or an allocation fails",
     "The tests run a handful of fixed grammars whose callbacks never fail; ordering across nesting, backtracking and failure is a property of all grammars.",
     [R, RC], [("acceptors collected along the matched path", R), ("done() runs them after a full match", RC)],
     [("acceptors_", "actions gathered so far", R), ("tail_", "unmatched input or failure", R)], ["sequence of (action, text) calls", "result of done()", "exception identity"])
prop("C07", "uri-split reports every line or says that it failed",
     "For any way in which the operating system delivers its input and accepts its output (short reads and writes, interruptions, read errors, missing files, full disks, memory exhaustion), what uri-split writes is an exact prefix of the correct report for the lines of its inputs, each record being correct for its line. It exits 0 only if every input was read to its end, every line was a URI, and the whole report was accepted by the output; otherwise it exits non-zero and does not crash or hang.",
     ["fault_sequences", "inputs"], "every input content, every chunking of reads and writes, every error at every read, write, open and allocation",
     "The only test of the tool feeds it healthy files; nothing tests what happens when I/O fails.",
     [SP, U], [("getline loop, one record per line", SP), ("exit status from read_stream and open checks", SP)],
     [("std::cin / ifstream / std::cout", "the only channels to the outside", SP)], ["bytes accepted by the output", "exit status", "diagnostics on stderr"])
prop("C08", "Streaming UTF transcoding is independent of how text arrives",
     "Feeding a text to a transcoder one unit at a time, in chunks, through a copied or suspended-and-resumed transcoder, or through the lazy view by any pattern of cursor steps yields the same output as converting it whole, and intact text converts exactly. Damage in transit (lost, repeated, altered or truncated units) never goes unreported by the well-formedness flag when the delivered text is ill-formed, always yields well-formed output, leaves everything before it exact, and costs at most one intact character after it; text cut off in mid-character is always detected at the end.",
     ["schedules", "fault_sequences", "inputs"], "every text, every chunking and checkpoint schedule, every sequence of transmission faults, all nine UTF-8/16/32 pairs",
     "The tests push fixed sequences through a fresh transcoder once; state carried across unit boundaries, copies and errors is a property of all schedules.",
     [IC], [("transcoder state machines with explicit end_cp()", IC), ("lazy transcode_view iterator", IC)],
     [("state_ / code_point_ / high_ / has_high_ / well_formed_", "partial character and damage flag", IC)], ["output units", "well_formed()", "partial()"])
prop("C09", "Failing sinks and sources receive no wrong or extra data",
     "When an algorithm that writes to a caller's output iterator or reads from a caller's range (percent-, Punycode- and UTF-transcoding) meets a sink or source that throws at any point, the exception reaches the caller unchanged, the process survives, and what the sink had received is an exact prefix of the complete output. When nothing fails the sink receives exactly the complete output, in order, each element once, and single-pass sources are read once, in order and never past their end.",
     ["fault_sequences", "inputs"], "every element at which a sink or source can fail, every input, every iterator category the algorithm accepts",
     "The tests write to vectors and strings that never fail, through iterators that tolerate being copied, re-read or over-read.",
     [PE, PD, PN, PT, IC], [("algorithms take and return output iterators by value", PE), ("transcoder call operators", IC)],
     [], ["elements received by the sink", "accesses made to the source", "exception identity"])
prop("C10", "A URI survives being encoded, sent, parsed and decoded",
     "Component text that is encoded, composed, transmitted intact and then split and decoded comes back exactly as it was: any octets in any component when each is percent-encoded with the component or form set; and, when a whole URI is encoded and decoded, all text whose characters are either in the component's documented encode set or allowed there by RFC 3986, with a host in UTF-8 which contains no '%' and whose labels do not already begin \"xn--\". If the transmission loses, repeats, reorders, alters or truncates octets, the receiver either rejects the text, precisely when it is not a URI under RFC 3986, or obtains precisely the components that RFC assigns to the text it received, and composing these gives that text back; it never crashes and never sees a mixture with other messages.",
     ["fault_sequences", "inputs", "histories"], "every set of component texts, every sequence of channel faults, every number of messages in flight",
     "The tests split and encode fixed well-formed examples; they never run the whole path on arbitrary text nor on text damaged at arbitrary points.",
     [U, PT, PE, PD, PN, PEC, IC], [("encode / compose / split / decode pipeline", PT), ("RFC 3986 grammar", U)],
     [], ["components recovered by the receiver", "accept/reject verdict", "recomposed text"])
prop("C11", "Navigation survives crashes: the stored URI is the whole state",
     "A client that follows any sequence of relative references from a base URI, storing the current URI as text and restarting from that text after a crash at any point, is always exactly where RFC 3986 reference resolution puts it: as if no crash had happened or at the previous step. Resolved URIs always compose to text that is read back as the same location (the same components, apart from the \"/.\" that keeps a path beginning \"//\" from becoming an authority), so restarting never moves the client; failed steps (memory exhaustion, references that are not URI references, torn stored text) leave it where it was.",
     ["histories", "crash_points", "fault_sequences"], "every base URI, every sequence of references in strict and non-strict mode, every crash point, torn or lost store write and allocation failure",
     "The tests resolve the RFC's examples one at a time against one base; they never chain resolutions, recompose and reparse the result, or interrupt the chain.",
     [U, UH], [("join / merge / remove_dot_segments", U), ("compose then split", U)],
     [("base parts", "views into the stored text", UH)], ["stored text after each step", "result of resolution"])
prop("C12", "Results do not depend on the process locale",
     "Whatever locale the process is using - and even if another task switches it between or during calls - the library accepts, rejects, splits, resolves, composes, encodes and decodes exactly as in the \"C\" locale; no octet outside US-ASCII ever becomes acceptable in a URI, and case-insensitive matching never follows national rules.",
     ["configurations", "schedules", "inputs"], "every locale, every point at which the locale can be switched, every input",
     "All tests run in the \"C\" locale, where locale-dependent classification happens to be right.",
     [U, R, PEC, PN, PD], [("character classification in the grammar", R), ("single_char / char_range case folding", R)],
     [("C locale and global C++ locale", "ambient process state", "setlocale / std::locale::global")], ["return values of every public function"])

prop("C13", "Byte streams of unknown encoding are decoded by their mark, however they arrive",
     "A byte stream is decoded in the encoding its byte order mark announces (UTF-8 without one), with the same output, detected encoding and well-formedness verdict whatever the portions in which its bytes arrive, also through copied, suspended, rolled-back transcoders and through the lazy view. A sound stream converts exactly; one that is damaged or ends within a character, a code unit or the mark itself is always reported, its output is still well-formed, everything before the damage is exact, and damage that keeps later code units aligned costs at most one intact character after it.",
     ["schedules", "fault_sequences", "inputs"], "every text in five encodings with and without mark, every cut and damage, every schedule of portions, checkpoints and cursors, all three outputs",
     "The tests push a few complete streams through a fresh transcoder; ends and damage within the mark, restarts and the view over bytes are not covered.",
     [IC], [("byte-order-mark state machine in front of a transcoder variant", IC), ("run16 / run32 unit assembly", IC), ("lazy transcode_view iterator", IC)],
     [("state_ / buffer_ / transcoder_variant_", "mark detection and partial code unit", IC)], ["output units", "selected_encoding()", "well_formed()", "partial()"])

prop("C14", "A hostile peer cannot stall or exhaust a receiver",
     "Whatever text a peer sends and however many messages came before it, every call - parsing, resolving, composing, comparing, checking, percent- and UTF-transcoding, repetition in a grammar - finishes within work and memory proportional to the length of its inputs, and within a fixed amount of stack; only conversion to and from Punycode may cost the square of the length of a label. Each code unit given to a transcoder and each step of a lazy view costs a bounded amount of work. A call during which memory runs out costs no more than one which succeeds, and nothing accumulates from one message to the next.",
     ["inputs", "histories", "fault_sequences"], "every family of messages of growing length, every operation on them, every allocation-failure pattern, every history of messages",
     "Tests check answers on short inputs: work that grows with the square of the length, recursion per character and state kept per message give the right answers there.",
     [U, UH, R, RC, PT, PC, PD, PE, PEC, PN, IC],
     [("predictive grammar: one pass over each component, alternatives decided by a bounded look-ahead", U), ("star loops rather than recurses; acceptors are appended in place", R),
      ("remove_dot_segments compacts in place", U), ("sizes computed first, then one reservation", PT), ("transcoders keep at most one partial character", IC)],
     [("acceptors_", "one entry per action on the matched path", R), ("transcode_view iterator state", "output units of one code point", IC)],
     ["control-flow edges executed", "octets moved and allocated, peak allocation", "stack depth", "bytes held after each message"])

def na(id, title, statement, why, files, mech):
    prop(id, title, statement, ["inputs"], "every input", why, files, mech)
na("N01", "The accepted language is exactly RFC 3986", "Splitting accepts exactly the URIs (or URI references) of RFC 3986 and assigns each component the text the grammar assigns it.",
   "Tests sample a few hundred strings of an infinite language.", [U], [("grammar rules", U)])
na("N02", "Percent-encode sets are those of the URL standard", "For each component, exactly the octets of the corresponding WHATWG percent-encode set are encoded.",
   "Tests look at a few octets per set.", [PEC], [("table", PEC)])
na("N03", "Punycode follows RFC 3492 and inverts itself", "Punycode encoding produces RFC 3492 output for every sequence of Unicode scalar values, and decoding inverts it.",
   "Tests use the RFC's samples.", [PN], [("encode/decode", PN)])
na("N04", "All percent-decoding interfaces agree", "The iterator, the view, the decoder object and the string form yield the same characters for the same input.",
   "Tests sample a few strings.", [PD], [("shared deref/increment", PD)])
na("N05", "Equality of parsed URIs is an equivalence", "Comparing parsed URIs is reflexive, symmetric and transitive and agrees with the composed text up to the implied leading slash after an authority.",
   "Tests compare a few pairs.", [U], [("operator==", U)])
na("N06", "Search helpers equal their standard definitions", "The find-last and starts-with helpers give the results of the C++23 standard algorithms they stand in for.",
   "Tests sample a few ranges.", ["include/uri/find_last.hpp", "include/uri/starts_with.hpp"], [("fallback implementations", "include/uri/find_last.hpp")])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
