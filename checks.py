"""Per-property configuration of the checks (see run_check.py)."""

import os

_SAN = ["-fsanitize=address,undefined", "-fno-sanitize=nonnull-attribute", "-fno-sanitize-recover=all",
        "-fno-omit-frame-pointer", "-g1"]

_WIN = ["-DASIOEXT_STANDALONE", "-DASIOEXT_WINDOWS", "-I" + os.path.dirname(os.path.abspath(__file__)) + "/props/fakewin"]

# opt: optimisation level in the quick and thorough tier (the quick tier's time is mostly compilation)
CONFIGS = {
    # standalone Asio, separately compiled library, sanitizers and coverage guidance
    "san": dict(cxx="clang++", cov=True, libs=[],
                opt=("-O0", "-O1"), flags=["-DASIOEXT_STANDALONE", "-DASIOEXT_SEPARATE_COMPILATION"] + _SAN),
    # Boost.Asio, header-only, optimised
    "boost": dict(cxx="g++", libs=["-lboost_filesystem", "-lboost_system"],
                  opt=("-O1", "-O2"), flags=["-DASIOEXT_USE_BOOST_ASIO"]),
    # standalone Asio, header-only, debug-ish with g++ sanitizers
    "gsan": dict(cxx="g++", libs=["-lboost_filesystem", "-lboost_system"], opt=("-O1", "-O1"), flags=list(_SAN)),
    # data race detection
    "tsan": dict(cxx="clang++", libs=[],
                 opt=("-O1", "-O1"), flags=["-g1", "-fsanitize=thread", "-DASIOEXT_STANDALONE", "-DASIOEXT_SEPARATE_COMPILATION"]),
    # the Windows code over a model of its system functions (props/fakewin): Windows 7 with UTF-8 names, Windows XP, an app
    "win": dict(cxx="clang++", cov=True, libs=[], opt=("-O1", "-O1"),
                flags=_WIN + ["-D_WIN32_WINNT=0x0601", "-DASIOEXT_WINDOWS_USE_UTF8_FILENAMES"] + _SAN),
    "winxp": dict(cxx="g++", libs=[], opt=("-O0", "-O2"), flags=_WIN + ["-D_WIN32_WINNT=0x0502"]),
    "winapp": dict(cxx="g++", libs=[], opt=("-O0", "-O2"), flags=_WIN + ["-D_WIN32_WINNT=0x0602", "-DASIOEXT_WINDOWS_APP"]),
    # what other systems use instead of preadv, pwritev and futimens
    "mac": dict(cxx="g++", libs=[], opt=("-O1", "-O2"), flags=["-DASIOEXT_STANDALONE", "-D__MACH__", "-DASIOEXT_DISABLE_FUTIMENS"]),
    # Boost.Chrono and boost::shared_ptr instead of the standard library's, without noexcept and constexpr
    "alt": dict(cxx="g++", libs=["-lboost_chrono", "-lboost_system"], opt=("-O1", "-O2"),
                flags=["-DASIOEXT_STANDALONE", "-DASIOEXT_USE_BOOST_CHRONO", "-DASIOEXT_DISABLE_STD_SHARED_PTR", "-DASIOEXT_DISABLE_NOEXCEPT",
                       "-DASIOEXT_DISABLE_CONSTEXPR", "-DASIOEXT_DISABLE_CONSTEXPR14"]),
    # only the second version of Asio's DynamicBuffer requirements
    "dynv2": dict(cxx="g++", libs=[], opt=("-O1", "-O2"), flags=["-DASIOEXT_STANDALONE", "-DASIO_NO_DYNAMIC_BUFFER_V1"]),
    # the code for FreeBSD and macOS, with their file flags and struct stat kept by props/bsd_model.hpp
    "freebsd": dict(cxx="clang++", cov=True, libs=[], opt=("-O1", "-O1"), flags=["-DASIOEXT_STANDALONE", "-DVERIF_FREEBSD"] + _SAN),
    "macos": dict(cxx="g++", libs=[], opt=("-O1", "-O2"), flags=["-DASIOEXT_STANDALONE", "-DVERIF_MACOS"]),
}
LEVELS = ("exploration", "fault_enumeration")

CHECKS = {}


def check(pid, rule, quick, thorough, **kw):
    CHECKS[pid] = dict(rule=rule, cases=quick if isinstance(quick, dict) else dict(quick=quick, thorough=thorough),
                       configs=kw.pop("configs", ["san", "boost"]),
                       thorough_configs=kw.pop("thorough_configs", ["gsan"]), **kw)


check("P01", "A case is a generated operation history over up to three buffers, compared step by step with a "
      "byte-vector model. Non-trivial: at least four state-changing operations, with at least one growth beyond "
      "the capacity or one rejected growth.", 375000, 6000000,
      opt=("-O1", "-O2"), technique="stateful model-based testing against a byte-vector model",
      note="Histories of up to 24 operations over up to three buffers of up to about 10 KiB; exploration, not exhaustive.")
check("P02", "A case is a history over up to three buffers with tracking allocators (equal/unequal, propagating or not), "
      "some allocations failing; all live blocks are accounted for after every step. Non-trivial: at least three "
      "operations, two allocations and one copy or move.", 300000, 4000000,
      opt=("-O1", "-O2"), technique="stateful model-based testing with tracking allocators and allocation-failure injection",
      note="Histories of up to 16 operations; every operation may have its allocation fail.")
check("P03", "A case is a history of DynamicBuffer operations (one of the two versions), compared with a string model, or "
      "a composed Asio read over a randomly fragmenting stream. Non-trivial: bytes were committed/grown or a request "
      "beyond the maximum was rejected.", 250000, 4000000, configs=["san", "boost", "dynv2"],
      opt=("-O1", "-O2"), technique="stateful model-based testing against a string model",
      note="Histories of up to 16 operations; operations of both versions are not mixed in one history.")
check("P04", "A case is a URL assembled from generated components; every accessor of every constructor's result is compared "
      "with the text it was assembled from. All 65536 ports are enumerated. Non-trivial: at least two non-empty "
      "components besides the scheme.", 600000, 20000000,
      opt=("-O1", "-O2"), technique="grammar-based generation with the assembled components as oracle",
      note="Components of up to some 200 characters; all ports enumerated.")
check("P05", "A case is a mutated well-formed URL, a soup of delimiters, or arbitrary bytes, held in a buffer of exactly its "
      "size and compared with an independent reference parser; short strings and single-byte changes are enumerated. "
      "Non-trivial: at least two (mutated: four) characters long.", 250000, 30000000,
      opt=("-O1", "-O2"), technique="mutation-based fuzzing against a reference parser, plus bounded enumeration",
      note="All strings of up to four characters over 14 representatives after nine prefixes are enumerated; longer ones are sampled.")
check("P06", "A case is one or several SOCKS requests with generated arguments, sent over a stream that accepts arbitrary "
      "portions; the bytes sent are compared with an encoder written from the protocol documents. Every string and list "
      "length up to 299 is enumerated. All generated cases are non-trivial; enumerated ones are not counted.", 80000, 2000000,
      technique="generated requests against an independent encoder, plus enumeration of lengths",
      note="Strings up to 400 bytes; the stream is a scripted stand-in for a socket.")
check("P07", "A case is a reply (any byte values, truncated, or followed by application data), delivered in random portions; "
      "outcome and bytes consumed are compared with a decoder written from the protocol documents. All values of each header "
      "byte and all truncations are enumerated. All generated cases are non-trivial; enumerated ones are not counted.", 80000, 2000000,
      technique="fuzzed replies against an independent decoder, plus enumeration of header bytes and truncations",
      note="The stream is a scripted stand-in for a socket; fragmentation and errors are generated.")
check("P08", "A case is a history over up to six handles of all kinds (also sharing open files) for two files, compared after "
      "every step with byte arrays and positions, as seen through independent descriptors. Non-trivial: the history "
      "transferred data in both directions.", 30000, 1500000,
      opt=("-O1", "-O2"), configs=["san", "boost", "mac"], technique="stateful model-based testing against byte-array files",
      note="Histories of up to 24 operations on files of up to some 300 KiB; writes beyond that only where they must fail.")
check("P09", "A case opens a target in a generated state (missing, regular, restricted, directory, links, bad paths) and is compared "
      "with a twin opened by plain system calls from an independent flag table: result, error, descriptor flags and the directory "
      "afterwards. All 512 flag sets crossed with 12 states are enumerated. Non-trivial: the flags are valid.", 60000, 1000000,
      technique="bounded enumeration and generated arguments, differential against plain system calls and a disposition table",
      note="Flag sets and target states are enumerated completely; permissions, umasks, user and open form are sampled.")
_WRAP = ["readv", "writev", "preadv", "preadv64", "pwritev", "pwritev64", "read", "write", "pread", "pread64", "pwrite",
         "pwrite64", "open", "open64", "close", "fstat", "fstat64", "lseek", "lseek64", "ftruncate", "ftruncate64",
         "fchmod", "futimens", "dup", "openat", "openat64", "fcntl", "fcntl64", "preadv2", "pwritev2"]
check("P10", "A case is up to six read or write operations (single, composed, asynchronous; up to 200 buffers) on a file, with a "
      "generated plan of partial, interrupted and failing system calls injected; results are compared with what the calls "
      "logged really transferred. Non-trivial: at least one system call was tampered with.", 40000, 2000000,
      wrap=_WRAP, flags=["-U_FORTIFY_SOURCE"], level="fault_enumeration", cov=False,
      configs=["san", "boost", "mac"], technique="generated buffer sequences with system call fault injection against a byte-array model",
      note="Up to twelve injected faults per operation; faults are injected at the libc boundary.")
check("P11", "A case is a history of whole-file reads and writes (containers, buffers; paths, handles) with faults injected into the "
      "system calls, files changing size meanwhile and memory running out; results are compared with the file's contents and what "
      "the logged calls really transferred. Non-trivial: at least one system call was tampered with.", 40000, 2000000,
      wrap=_WRAP, flags=["-U_FORTIFY_SOURCE"], level="fault_enumeration", cov=False,
      configs=["san", "boost", "mac"], technique="generated round trips with system call fault injection against a model file",
      note="Up to four operations of up to some 200 KiB and eight injected faults each; faults are injected at the libc boundary.")
check("P12", "A case is a history over up to a dozen plain handles, owning handles and file objects (two contexts) in which opening, "
      "duplicating and closing may fail; after every step the close calls made, each object and each live descriptor are compared "
      "with an ownership model. Non-trivial: something was moved and something was closed.", 24000, 2000000,
      wrap=_WRAP, flags=["-U_FORTIFY_SOURCE"], level="fault_enumeration",
      technique="stateful model-based testing of ownership with system call interposition and failing closes",
      note="Histories of up to 24 operations over at most twelve objects.")
check("P13", "A case converts one generated duration (also at the limits of every unit) or sets and gets times of a file, compared with "
      "128-bit arithmetic and with a twin file changed by plain system calls. Non-trivial: a conversion of a value other than zero "
      "and whole seconds, or both times were set at least once.", 400000, 20000000,
      opt=("-O1", "-O2"), configs=["san", "boost", "mac", "alt"], technique="generated values against 128-bit arithmetic, differential against plain system calls",
      note="Integral tick counts of 32 and 64 bits; Linux has no creation time to set, so it is only checked to be ignored.")
check("P14", "A case is a history of permission changes through up to four handles of all kinds for up to two files, with failing "
      "system calls, compared after each step with the modes another descriptor sees, or a set operation on generated flags. All 4096 "
      "modes crossed with all 512 permission sets and three options are enumerated. Non-trivial: at least two changes of a mode, or "
      "both operands are not empty.", 60000, 4000000,
      wrap=_WRAP, flags=["-U_FORTIFY_SOURCE"], level="fault_enumeration",
      technique="enumeration of modes and masks, and generated histories with fault injection against a mode model",
      note="Only the nine permission bits can be changed; file attributes don't exist on this platform.")
check("P15", "A case is a history of operations on up to four handles, files by path, streams and URLs, each performed in its throwing "
      "form in one world and in its error-code form in a twin world under the same injected faults; outcomes, results, errors, files "
      "and positions are compared after each. Non-trivial: some operation succeeded and some failed.", 11000, 1000000,
      wrap=_WRAP, flags=["-U_FORTIFY_SOURCE"], level="fault_enumeration", cov=False,
      technique="differential testing of both forms in twin worlds with system call fault injection",
      note="Histories of up to 14 operations with up to three injected faults each.")
check("P16", "A case is up to three files driven by chains of asynchronous operations (single, composed, batches of positional ones) "
      "on one or two contexts with up to four threads and handlers bound to various executors and allocators; every completion is compared "
      "with a model file; or up to six operations queued behind busy service threads while their files are cancelled, closed or destroyed; or a single operation "
      "(also with empty buffers, on closed files, and at offsets up to 2^64-1) compared with its synchronous counterpart. Non-trivial: "
      "more than two operations, or at least two some of which were aborted or had handlers bound to another context; single ones: a far offset, or initiated from a background thread.", 18000, 400000, cov=False,
      technique="generated concurrent operation chains against a model file, checked in every completion handler",
      note="Up to three chains of up to five steps; schedules are those the operating system produces.")
check("P17", "A case is a history over up to five files on two contexts in which operations are started, cancelled, and their files closed, "
      "moved, swapped and destroyed, while the background threads are held back at generated points (also within a system call); results and files are "
      "compared with a model after each step. Non-trivial: some operation was aborted and some completed.", 24000, 1000000, cov=False,
      wrap=_WRAP, flags=["-U_FORTIFY_SOURCE"],
      technique="stateful model-based testing with controlled schedules of the background threads",
      note="Histories of up to 40 steps; the schedules are chosen by the generator, down to single operations.")
check("P18", "A case is a history over up to five sources and twenty tokens, compared with a model of epochs after each step, or sources being "
      "cancelled, destroyed and moved while other threads poll their tokens (also under ThreadSanitizer). Non-trivial: something was cancelled while there "
      "were at least two tokens, or threads were involved.", dict(quick=dict(san=40000, boost=60000, tsan=8000, alt=40000), thorough=dict(san=1500000, boost=3000000, tsan=300000, gsan=500000, alt=1500000)), None,
      configs=["san", "boost", "tsan", "alt"], technique="stateful model-based testing, and generated concurrent programs with per-thread assertions under ThreadSanitizer",
      note="Histories of up to 40 operations; threads: what the operating system schedules.")
check("P19", "A case is a history over up to four objects that store, replace, move, swap and complete tracked handlers (re-entrantly, too; some allocations "
      "fail), compared with a model of who stores what. Non-trivial: a handler was completed and one was moved.", 160000, 6000000,
      opt=("-O1", "-O2"), technique="stateful model-based testing with lifetime- and memory-tracking handlers",
      note="Histories of up to 30 operations plus nested ones.")
check("P20", "A case is up to four composed operations following generated scripts (posts, dispatches, timers, nested operations) over three contexts, whose "
      "handlers are bound to various executors and allocators and run one at a time; or a bound handler, or a history over work tuples. Non-trivial: "
      "an operation with at least two asynchronous steps completed; a bound handler with arguments was invoked; at least three operations on work tuples.", 72000, 2000000,
      cov=False, technique="generated composed operations with work-counting executors and tracking allocators",
      note="Scripts of up to six steps, nested ones of up to three; one thread, with the contexts run in generated order.")
check("P21", "A case is a history of appends, (asynchronous) flushes and fills and consumption over a scripted stream that transfers arbitrary portions, fails and "
      "completes at generated points, or over a file; the bytes written and read are compared with strings after each step. Non-trivial: at least "
      "one successful flush and fill; over a file: something was written.", 40000, 3000000,
      technique="stateful model-based testing against byte strings with fault injection in the underlying stream",
      note="Histories of up to 30 steps, buffer limits from 1 byte to unlimited.")
check("P22", "A case connects to one or several names whose lookup yields generated errors or lists of up to six endpoints that accept, refuse or "
      "fail, with a fresh, open, bound or connected socket; the attempts made, the result and the peer are compared with the list. "
      "Non-trivial: at least two attempts were made for one name.", 100000, 1500000,
      wrap=["connect", "getaddrinfo", "freeaddrinfo"], cov=False,
      technique="generated resolver answers and connection failures against a model of the attempts",
      note="getaddrinfo() is replaced and connect() may be made to fail; accepted and refused connections are real ones over the loopback interface.")
check("P23", "A case is a history of files created (also within handlers, timers and posted functions), operations started and partly executed and delivered, "
      "ended by destroying the context while the service is held, within a system call, or running; handlers, their memory and all closes are accounted for. "
      "Non-trivial: at least two handlers were pending then.", 10000, 300000, configs=["san", "boost", "tsan"],
      wrap=_WRAP + ["pthread_join"], flags=["-U_FORTIFY_SOURCE"], cov=False, replays=20, need=1,
      technique="generated histories and destruction points with handler and descriptor accounting, under sanitizers",
      note="The service's thread is held in gates or system calls and let go on before, during or after the beginning of the destruction; some cases run freely.")
check("P24", "A case runs a script of up to 20 steps on files, handles, tokens and whole files of its own in each of up to four threads, on one or two shared "
      "contexts run by up to two threads each; each thread compares all results with byte arrays of its own. Non-trivial: at least two threads completed "
      "asynchronous and other operations.", 10000, 400000, configs=["tsan", "san"],
      wrap=["fstat", "fstat64", "futimens", "fchmod"], cov=False, replays=30, need=1,
      technique="generated per-thread scripts against per-thread models, under ThreadSanitizer",
      note="Schedules are those the operating system produces, observed by ThreadSanitizer; files with operations under way are only cancelled and moved, not closed.")
check("P25", "A case makes up to eight error codes from defined and other values in two translation units, throws and passes them around, and compares all of them with "
      "each other; or parses a URL, or asks for the file services of up to three contexts, in both units. Non-trivial: equal codes came from different units, "
      "a URL was rejected, or a service was asked for again.", dict(quick=dict(san=45000, boost=60000, gsan=22500), thorough=dict(san=2000000, boost=2000000, gsan=1000000)), None,
      configs=["san", "boost", "gsan"], extra=["P25b"], technique="metamorphic relations between codes and services obtained in different translation units",
      note="Two translation units in one program; shared libraries are not covered.")
check("P26", "A case is a history of up to 40 constructions (some failing), moves, assignments across contexts, calls, asynchronous calls and destructions of up to five "
      "file objects over a service that records every call, for one of three kinds of executors; or a conversion of an io_object_holder. Non-trivial: an object was moved "
      "or assigned and called, or a holder converted.", dict(quick=dict(san=60000, boost=60000), thorough=dict(san=1500000, boost=1500000, gsan=500000)), None,
      technique="stateful model-based testing with a recording file service and counting executors",
      note="The service completes asynchronous operations at once; what the library's own service does is decided by the other properties.")
check("P27", "A case is a history of up to 20 reads, writes, seeks and size changes through up to three handles on up to two files of a modelled Windows system some of whose "
      "functions fail, a few asynchronous operations, or a whole-file read or write. Non-trivial: at least two transfers and another operation (asynchronous: a transfer; "
      "whole files: always).", dict(quick=dict(win=20000, winxp=10000, winapp=10000), thorough=dict(win=800000, winxp=600000, winapp=600000)), None,
      configs=["win", "winxp", "winapp"], thorough_configs=[],
      technique="stateful model-based testing over a model of the Windows file functions, with fault injection",
      note="Windows itself is modelled from its documentation; the library's Windows code runs unchanged.")
check("P28", "A case is a history of up to 14 openings (with generated flags, permissions, attributes and names), duplications, moves, closings and destructions on a modelled "
      "Windows system some of whose functions, or memory, fail; or a name that isn't UTF-8, or a use of the standard streams. Non-trivial: at least two files were opened "
      "(others: one was opened; streams: always).", dict(quick=dict(win=80000, winxp=50000, winapp=50000), thorough=dict(win=1000000, winxp=1000000, winapp=1000000)), None,
      configs=["win", "winxp", "winapp"], thorough_configs=[],
      technique="stateful testing against a prediction from the flags' documentation, over a model of the Windows file functions, with fault injection",
      note="Windows itself is modelled from its documentation; the library's Windows code runs unchanged.")
check("P29", "A case is a history of up to 12 readings and changes of the permissions, attributes and times of up to three open or closed files (of the three kinds of file objects) "
      "with generated attributes on a modelled Windows system some of whose functions fail; or a conversion between file times and time_t. Non-trivial: a change and a reading "
      "succeeded, or a time other than zero was converted.", dict(quick=dict(win=160000, winxp=80000, winapp=120000), thorough=dict(win=2000000, winxp=1000000, winapp=2000000)), None,
      configs=["win", "winxp", "winapp"], thorough_configs=[], opt=("-O1", "-O2"),
      technique="stateful model-based testing over a model of the Windows file functions, with fault injection",
      note="Windows itself is modelled from its documentation; the library's Windows code runs unchanged.")
check("P30", "A case is a history of up to 14 openings, readings and changes of attributes and times, and closings of up to three files (through handles and file objects) whose "
      "flags and creation times are kept by a table, some of the functions concerned failing. Non-trivial: a change and a reading (or opening) succeeded.",
      dict(quick=dict(freebsd=120000, macos=160000), thorough=dict(freebsd=3000000, macos=4000000)), None,
      configs=["freebsd", "macos"], thorough_configs=[], level="fault_enumeration",
      technique="stateful model-based testing over emulated file flags, with fault injection",
      note="File flags and creation times are emulated; the library's code for these systems runs unchanged over real files otherwise.")
check("P31", "A case is a sequence of asynchronous operations (SOCKS requests, flushes and fills of a buffered stream, connects, file reads and writes), each run with a callback and, in an "
      "identical world, with a generated completion token: bound callbacks, futures, coroutines awaiting it at once, later (arguments gone, the file closed meanwhile) or never. "
      "Non-trivial: an operation completed through a future or coroutine.", dict(quick=dict(san=30000, boost=120000), thorough=dict(san=600000, boost=1500000, gsan=300000)), None,
      libs=dict(boost=["-lboost_coroutine", "-lboost_context", "-lboost_thread"]),
      technique="differential testing of completion tokens over generated operation sequences",
      note="Streams are scripted stand-ins, connections use the loopback interface, files are real; stackful coroutines are covered with Boost.Asio only.")
