"""What each check builds and runs."""
import os, subprocess

ASAN = ("instrumented with AddressSanitizer and UndefinedBehaviorSanitizer; built by clang with assertions, and for a fifth of "
        "the runs by g++ without")
CHECKS = {}


def prepare_locales(work):
    """National locales, compiled from the system's sources (the sandbox has none installed)."""
    d = os.path.join(work, "locale")
    os.makedirs(d, exist_ok=True)
    ps = []
    for n, m in (("tr_TR", "ISO-8859-9"), ("de_DE", "ISO-8859-1"), ("ru_RU", "KOI8-R"), ("el_GR", "ISO-8859-7"), ("tr_TR", "UTF-8"),
                 ("ja_JP", "EUC-JP"), ("th_TH", "TIS-620"), ("lt_LT", "UTF-8")):
        try:
            ps.append(subprocess.Popen(["localedef", "-i", n, "-f", m, os.path.join(d, n + "." + m)], stdout=subprocess.DEVNULL,
                                       stderr=subprocess.DEVNULL))
        except OSError:
            pass  # facets of the simulator's own remain
    for p in ps:
        p.wait()
    return {"LOCPATH": d}


CHECKS["C01"] = dict(
    sources=["$SIM/c01.cpp", ("$SIM/tsan_rt.cpp", ["-fno-builtin"], False)], variants=["tsan"], chunk=1,
    runs={"quick": 40000, "thorough": 1500000},
    rule="A run is a fresh process in which 2-4 real threads make 1-3 calls each of any public operation, on private and on "
         "shared const objects. Every load, store and atomic operation of the library outside the thread's own stack is a "
         "point at which a drawn schedule may switch threads; mutexes, once-flags, guards of static objects and futexes "
         "block in the simulator. A vector-clock detector watches all of these accesses; answers are compared with the "
         "models and with the same call made alone. Some threads' allocations fail. Non-trivial: at least as many switches "
         "inside library calls as threads.",
    distinct="hash of the operations and of (thread, access count) at every switch",
    real=["the whole library (lib/uri, include/uri), compiled with -fsanitize=thread against the simulator's runtime",
          "libstdc++ templates, instrumented", "operating-system threads"],
    stub=["thread scheduler: one thread runs at a time, by a seeded baton", "ThreadSanitizer runtime: the simulator's race detector",
          "pthread mutex, rwlock, condition variable, once; futex; static-object guards: blocking is simulated",
          "operator new/delete: simulator allocator which decides which request fails"],
    assumptions=["Sequentially consistent interleavings; weaker orders are covered by the happens-before check, not executed.",
                 "Compiled code inside libstdc++.so and libc is atomic (switches happen in instrumented code only).",
                 "A cursor (an iterator of a view or decoder) and a transcoder are mutable objects: each thread has its own; views, decoders, rules, URIs and texts are shared."])

CHECKS["C02"] = dict(
    sources=["$SIM/c02.cpp"], chunk=16, runs={"quick": 60000, "thorough": 2000000},
    rule="A run makes 1-4 calls with generated (URI-grammar, mutated or random) inputs. Each call is made with memory "
         "available, then 1-4 times under a drawn allocation-failure pattern (n-th, from n-th on, by size, byte budget), "
         "each followed by a fault-free retry. Non-trivial: at least one injected failure surfaced as std::bad_alloc.",
    distinct="hash of the sequence of (operation, allocation count, failure pattern)",
    real=["the whole library (lib/uri, include/uri), " + ASAN, "libstdc++"],
    stub=["operator new/delete: simulator allocator which decides which request fails"],
    assumptions=["Only failures of operator new are injected; malloc itself and the exception allocator do not fail.",
                 "RFC/WHATWG/Unicode models in sim/model.hpp are right."])

CHECKS["C05"] = dict(
    sources=["$SIM/c05.cpp"], chunk=16, runs={"quick": 60000, "thorough": 4000000},
    rule="A run builds 1-3 URIs component by component from valid, nearly valid, absent, empty, null and very long texts "
         "(whose memory it rewrites in place) and makes 2-13 calls of non-throwing operations on them, each while "
         "allocations fail by a drawn pattern. Non-trivial: every run (each makes such calls).",
    distinct="hash of the sequence of (operation, failure pattern, allocations attempted, answer)",
    real=["the whole library (lib/uri, include/uri), " + ASAN, "libstdc++"],
    stub=["operator new/delete: simulator allocator which decides which request fails"],
    assumptions=["Only failures of operator new are injected.",
                 "Operations other than the validity checks are held to the property while they are declared noexcept."])

CHECKS["C03"] = dict(
    sources=["$SIM/c03.cpp"], chunk=16, runs={"quick": 100000, "thorough": 4000000},
    rule="A run composes 1-4 URIs, authorities or paths (valid or arbitrary texts) to one stream whose sink fails as drawn "
         "(refuses for ever or once, throws one of four exceptions at a drawn byte, fails a flush; any buffering, any "
         "exception mask, retries after clear()) with allocations failing, or composes one URI to a string under several "
         "allocation-failure patterns. Non-trivial: at least one injected fault was met.",
    distinct="hash of sink plan, exception mask, and per call its kind, the bytes delivered and the stream state",
    real=["the whole library (lib/uri, include/uri), " + ASAN, "libstdc++ iostreams"],
    stub=["std::streambuf: simulated sink", "operator new/delete: simulator allocator"],
    assumptions=["libstdc++'s ostream inserters behave as the standard says; unit-buffered streams are not combined with sinks or masks that throw, for which libstdc++ "
                 "itself terminates.", "No field width is set on the stream."])

CHECKS["C04"] = dict(
    sources=["$SIM/c04.cpp"], chunk=16, runs={"quick": 60000, "thorough": 3000000},
    rule="A run makes 1-8 encode and decode calls on 1-3 stores (vector, string, and containers which allocate exactly, "
         "generously, free on clear(), move on reserve(), or have a hard limit), from fresh component texts (raw octets, "
         "Unicode hosts, up to 100 segments) or from earlier results, with allocations failing; after every call each "
         "result still in use is compared with the models and each of its views located. Non-trivial: memory ran out, or "
         "something was put into a store.",
    distinct="hash of store kinds and, per call, its direction, segment count, store size and failures",
    real=["the whole library (lib/uri, include/uri), " + ASAN, "libstdc++ containers"],
    stub=["store containers with simulated growth policies", "operator new/delete: simulator allocator"],
    assumptions=["A store keeps its elements in place while it does not exceed the capacity it was asked to reserve.",
                 "Hosts which are not UTF-8 (encode) and Punycode outside the Unicode range (decode) have no defined text."])

CHECKS["C06"] = dict(
    sources=["$SIM/c06.cpp"], chunk=32, runs={"quick": 120000, "thorough": 6000000},
    rule="A run draws 1-3 grammars (nesting up to 5, every combinator, actions of several kinds), an input sampled from "
         "them and perhaps altered, and one fault (a matcher throws at its n-th call, the n-th action throws, an allocation "
         "fails); it matches the grammars in sequence, sometimes continuing an older rule, and runs done(). A "
         "reference interpreter of the documented semantics gives the expected extent and actions. Non-trivial: an action "
         "ran or a fault was met.",
    distinct="hash of the grammars and of the outcome of every step",
    real=["include/uri/rule.hpp, lib/uri/rule.cpp, " + ASAN],
    stub=["matchers and actions supplied by the simulator", "operator new/delete: simulator allocator"],
    assumptions=["Actions of an element run after those of the elements inside it."])

CHECKS["C08"] = dict(
    sources=[("$SIM/c08.cpp", ["-DPART=8"]), ("$SIM/c08.cpp", ["-DPART=16"]), ("$SIM/c08.cpp", ["-DPART=32"])], lib=False, chunk=32, runs={"quick": 200000, "thorough": 8000000},
    rule="A run sends 1-3 texts through a channel which loses, repeats, alters, inserts or cuts off code units, and lets a "
         "seeded scheduler interleave their receivers: transcoders fed in drawn portions, copied, assigned, moved, crashed "
         "back to a checkpoint, reused; lazy views walked by several cursors; receivers which join late. Non-trivial: every "
         "receiver finished within the step budget.",
    distinct="hash of the encodings and of the order in which receivers ran",
    real=["include/uri/icubaby.hpp, " + ASAN], stub=["the channel which damages text"],
    assumptions=["A transcoder is not reused after a text which ended in mid-character.",
                 "How many U+FFFD stand for damage is left open."])

CHECKS["C13"] = dict(
    sources=[("$SIM/c13.cpp", ["-DPART=8"]), ("$SIM/c13.cpp", ["-DPART=16"]), ("$SIM/c13.cpp", ["-DPART=32"])],
    lib=False, chunk=32, runs={"quick": 200000, "thorough": 8000000},
    rule="A run sends 1-3 texts as UTF-8/16/32 bytes of either endianness, with or without a byte order mark, which are cut "
         "off (often within the mark), spliced or damaged, and lets a seeded scheduler interleave their receivers: byte "
         "transcoders fed in drawn portions, copied, assigned, moved, crashed back to a checkpoint; lazy views walked by "
         "several cursors. Non-trivial: every receiver finished within the step budget.",
    distinct="hash of the encodings and of the order in which receivers ran",
    real=["include/uri/icubaby.hpp, " + ASAN], stub=["the channel which damages text"],
    assumptions=["A byte transcoder is not reused after end_cp().", "How many U+FFFD stand for damage is left open.",
                 "FF FE 00 00 is the mark of UTF-32LE; text without a mark is UTF-8."])

CHECKS["C10"] = dict(
    sources=["$SIM/c10.cpp"], chunk=16, runs={"quick": 45000, "thorough": 3000000},
    rule="A run has 1-5 messages of arbitrary octets sent to 1-3 receivers through a network which delivers packets in a drawn "
         "order and loses, repeats, reorders, alters or truncates them or closes the connection; receivers use the same memory "
         "again and may run out of it. Verdict, components, recomposed and decoded text are compared with the models, and with "
         "what was sent if it arrived intact. Non-trivial: at least one message was received.",
    distinct="hash of the delivery order, packet counts, faults and the outcome of each message",
    real=["the whole library (lib/uri, include/uri), " + ASAN], stub=["the network", "operator new/delete"],
    assumptions=["Texts given to encode() avoid the characters which its documented sets leave alone although RFC 3986 does "
                 "not allow them there; any octets go through pctencode() with the component or form set."])

CHECKS["C11"] = dict(
    sources=["$SIM/c11.cpp"], chunk=16, runs={"quick": 60000, "thorough": 4000000},
    rule="A run is a client which starts at a generated URI and makes 1-25 steps: it follows generated, special, same-scheme or "
         "damaged references (strictly or not, by text or by components carried along for up to 64 steps), removes dot segments, "
         "rereads or synchronises its store, or crashes. Each place is written to a log of framed records (by string or stream) which "
         "a crash leaves cut off or corrupted behind the last synchronised record; disks fill up and allocations fail. Non-trivial: "
         "the client made all of its steps.",
    distinct="hash of the steps, their faults and outcomes",
    real=["the whole library (lib/uri, include/uri), " + ASAN],
    stub=["the log the client keeps and its recovery", "the disk (std::streambuf)", "operator new/delete"],
    assumptions=["The client's records carry a length and a checksum, so that torn records are recognised.",
                 "Whether schemes which differ only in case count as the same in lenient resolution is left open."])

CHECKS["C09"] = dict(
    sources=[("$SIM/c09.cpp", ["-DPART=%d" % p]) for p in (0, 1, 8, 16, 32)], chunk=32, runs={"quick": 200000, "thorough": 8000000},
    rule="A run makes 1-3 transfers (percent-encoding and decoding, Punycode, transcoders, lazy views and pipelines of these) from "
         "sources of a drawn iterator category to a sink, each access to which is an event; first undisturbed and compared with the "
         "models, then 1-5 times with one access throwing (six kinds of exception), other transfers run in the middle of it, or an "
         "allocation failing, then once more undisturbed. Non-trivial: at least one disturbance took place.",
    distinct="hash of (transfer, access at which it was disturbed, how)",
    real=["include/uri/{pctencode,pctdecode,punycode,icubaby}.hpp, lib/uri, " + ASAN],
    stub=["sources and sinks (iterators)", "operator new/delete"],
    assumptions=["An element of a source may be read more than once while it is the current one; sinks behave as pointers do.",
                 "Comparing and copying iterators does not throw.", "Output for ill-formed text is what an undisturbed run delivers (C08, C13 judge it)."])

CHECKS["C12"] = dict(
    sources=["$SIM/c12.cpp"], chunk=32, runs={"quick": 100000, "thorough": 4000000}, prepare=prepare_locales,
    rule="A run makes 1-5 calls - of any public function, with inputs in which national letters stand for ASCII ones, or of the "
         "grammar's character classes - first in the C locale (compared with the models), then 1-4 times each while 1-3 switches to "
         "drawn locales (setlocale, uselocale, std::locale::global, custom facets) happen before the call or at a drawn control-flow "
         "edge in the middle of it. Non-trivial: every run.",
    distinct="hash of the calls and of the switches (to what, at which edge)",
    real=["the whole library (lib/uri, include/uri), " + ASAN, "glibc locales compiled from the system's sources", "libstdc++ locales"],
    stub=["the task which switches locales", "a C++ locale with hostile facets"],
    assumptions=["In the C locale the models are right."])

CHECKS["C07"] = dict(
    sources=["$SIM/c07.cpp", ("$REPO/tools/uri-split/*.cpp", ["-Dmain=uri_split_main"])], chunk=8, runs={"quick": 8000, "thorough": 400000},
    rule="A run draws standard input or 1-4 files (generated URIs, now and then lines which are none, empty or very long lines, no "
         "final newline, CRLF) and executes the whole program 2-4 times, each in a process of its own: once undisturbed, then with "
         "drawn portions of every read and write, interruptions, a read error at a drawn offset, files missing, unreadable or "
         "directories, standard output failing after a drawn number of bytes, standard error failing, or allocations failing. "
         "Non-trivial: something was cut short, interrupted or failed.",
    distinct="hash of the sequence of system calls (kind, object, sign of the result) and the allocation failure pattern",
    real=["tools/uri-split from main() to exit(), and the whole library, " + ASAN, "libstdc++ iostreams", "files in a scratch directory"],
    stub=["read, write, open, lseek (trapped by seccomp and answered by the simulator)", "operator new/delete"],
    assumptions=["A write of n bytes never accepts 0 bytes without an error.", "Failures of close() are not injected.",
                 "Reading on after a missing file counts neither for nor against the program."])

CHECKS["C14"] = dict(
    sources=["$SIM/c14.cpp", ("$SIM/memwork.cpp", ["-fno-builtin"], False)], variants=["cost"], chunk=16,
    runs={"quick": 20000, "thorough": 800000},
    rule="A run is a receiver to which a hostile peer sends messages of 1-3 drawn shapes (a prefix which reaches a component, one to "
         "three units repeated, a tail which may make all of it invalid) and which performs a drawn operation on each: at one "
         "length and at 4 to 32 times that length, then with memory running out, then in a history of up to 117 more messages, or a flood of 2500 short ones, all different. "
         "Non-trivial: at least one pair of lengths was compared.",
    distinct="hash of the operations, the units repeated, the lengths and the failure patterns",
    real=["the whole library (lib/uri, include/uri), without sanitizers", "libstdc++, linked statically"],
    stub=["the peer", "operator new/delete: simulator allocator", "memcpy, memmove, memset, memcmp, memchr, strlen: counted, then real",
          "the clock: control-flow edges of the library and of the templates it instantiates, and octets passed to those functions / 16"],
    assumptions=["Work done inside libstdc++'s compiled code other than through the memory functions and the allocator is not counted.",
                 "Punycode may cost the square of the length of a label."])
