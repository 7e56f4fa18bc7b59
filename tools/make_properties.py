#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source of the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=["include/asioext/" + f for f in files],
                               **({"state": [dict(zip(("name", "meaning", "where"), s)) for s in state]} if state else {}),
                               mechanism=[dict(name=n, where="include/asioext/" + w) for n, w in mech],
                               observe_at=observe or [], hook_needed=None)))

LB = ["linear_buffer.hpp", "impl/linear_buffer.hpp"]
prop("P01", "A linear buffer behaves like a byte vector with a maximum size",
     "After any sequence of appends, insertions, erasures, resizes, reservations, clears, copies, swaps and moves, a linear buffer holds exactly the bytes a byte vector would hold. "
     "Growing (or reserving) beyond its maximum size throws a length error and changes nothing; growth within the maximum always succeeds, and existing bytes neither move nor change as long as the new size fits the reported capacity. "
     "Capacity never falls below the size, never shrinks except by moving the contents away, clearing keeps it, and many small appends need only few reallocations.",
     ["histories", "inputs"], "All operation sequences over up to three buffers, all offsets and sizes up to a few KiB (including 0, the end, the exact capacity and the exact maximum), unlimited and tiny maximum sizes.",
     "The tests run a handful of fixed calls with one size each; which branch (in-place shift or reallocation) runs, and what the tail looks like afterwards, depends on the size/capacity history.",
     LB, [("append/insert/erase/resize with in-place and reallocating paths", "impl/linear_buffer.hpp"), ("max_size check before growth", "impl/linear_buffer.hpp"), ("calculate_capacity", "linear_buffer.hpp")],
     ["size(), capacity(), max_size(), data(), iterators, operator[], as_buffers(), buffer()"])
prop("P02", "Linear buffers own their storage exactly once, whatever the allocator",
     "Every block a linear buffer obtains from its allocator is returned exactly once, with the size it was requested with and through an allocator equal to the one it came from, under copies, moves and failing allocations. "
     "Copies are independent of the original; a moved-from buffer is empty, owns no memory and can be used again; move assignment transfers the contents for every allocator, keeping the target's allocator unless the allocator type asks for propagation. "
     "An operation that fails because memory cannot be allocated leaves the contents of all involved buffers unchanged.",
     ["histories", "fault_sequences", "configurations"], "All operation sequences over up to three buffers whose allocators are equal or unequal, propagating or not, with any subset of allocations failing.",
     "The tests only use std::allocator, never make an allocation fail, and do not account for memory.",
     LB, [("copy constructor/assignment", "impl/linear_buffer.hpp"), ("move_assign overloads for (non-)propagating allocators", "impl/linear_buffer.hpp"), ("reallocate", "impl/linear_buffer.hpp")],
     ["calls made to the allocator", "contents of all live buffers"])
prop("P03", "Dynamic buffers over a linear buffer follow the DynamicBuffer contract",
     "Under any sequence of prepare/commit/consume (or grow/shrink/consume), the readable bytes are exactly those committed (or grown and written) and not yet consumed, in order, starting with the data the underlying buffer held at first. "
     "Prepare and grow provide exactly the requested number of writable bytes without disturbing the readable ones, or fail with a length error (an out-of-memory error code in the non-throwing form) without changing anything exactly if readable plus requested bytes exceed the smaller of both maximum sizes; committing or consuming more than there is takes all there is. "
     "Byte ranges requested by position are clamped to the available bytes for every position and length.",
     ["histories", "inputs"], "All legal operation sequences of both DynamicBuffer versions (not mixed), all sizes up to a few KiB and up to the largest representable number where an operation must reject or clamp it, all initial contents and maximum sizes; also as the buffer of Asio's composed read operations.",
     "Tests use single prepare/commit pairs; maximum sizes, over-large arguments, repeated cycles and the first use of an adapter over a non-empty buffer are not covered.",
     LB, [("dynamic_linear_buffer prepare/commit/consume/grow/shrink/data", "linear_buffer.hpp"), ("overflow-safe length checks", "impl/linear_buffer.hpp")],
     ["size(), max_size(), data(), the underlying buffer's contents"])

URL = ["url_view.hpp", "impl/url_view.cpp", "detail/url_parser.hpp", "detail/impl/url_parser.cpp"]
prop("P04", "Parsing a well-formed URL yields exactly its components",
     "For every URL assembled from a scheme and optional user information, host (name, IPv4 or bracketed IPv6 literal), port, path, query and fragment, parsing succeeds and each accessor returns exactly the text that component was assembled from, absent components being empty. "
     "The textual port equals the numeric port when one is present; otherwise the effective port is that of the scheme (http 80, https 443, ftp 21), and empty and zero for other schemes. "
     "This holds for every constructor and for the returned views pointing into the original string.",
     ["inputs"], "All URLs generated by the grammar: any legal scheme, user info, host, port 0-65535, path/query/fragment characters, and every combination of present and absent components.",
     "The tests parse a fixed list of URLs; component boundaries depend on the combination of optional parts and on delimiter characters occurring inside other components.",
     URL, [("url_parser state machine", "detail/impl/url_parser.cpp"), ("component(), default ports", "impl/url_view.cpp")], ["url_view accessors"])
prop("P05", "Any string is either parsed consistently or rejected with an error",
     "For every byte string, parsing terminates without reading outside the string and reports either success or an error; the throwing and the error-code form agree on which. "
     "On success the components appear in order, do not overlap, and together with their delimiters make up the whole input; ports that are not numbers or exceed 65535, IP literals that are unterminated or contain other characters than addresses do, and characters a component does not allow are rejected. "
     "Parsing the same characters again yields the same result.",
     ["inputs"], "All byte strings, in particular mutations of well-formed URLs (dropped, duplicated, exchanged and arbitrary bytes), held in buffers of exactly their size.",
     "The tests list a few invalid URLs; the state machine's behaviour at every truncation point and for every unexpected byte is not covered.",
     URL, [("url_parser::parse_char, finish", "detail/impl/url_parser.cpp"), ("url_view::parse", "impl/url_view.cpp")], ["url_view constructors and accessors, error_code"])

SO = ["socks/client.hpp", "socks/impl/client.hpp", "socks/detail/client.hpp", "socks/detail/protocol.hpp", "socks/detail/impl/protocol.cpp", "socks/constants.hpp", "socks/error.hpp", "socks/impl/socks_error.cpp"]
prop("P06", "SOCKS requests are encoded byte for byte as the protocols prescribe",
     "For every command, endpoint or host name, port, user name and password, the bytes the SOCKS4, SOCKS4a and SOCKS5 operations send are exactly those the protocol specifies (version, command, address type, length-prefixed or terminated strings, network byte order), and nothing else is sent. "
     "Arguments the protocol cannot express (SOCKS5 strings or method lists of more than 255 entries, IPv6 addresses and strings containing zero bytes in SOCKS4) are refused with an invalid-argument error before anything is sent.",
     ["inputs"], "All commands, IPv4/IPv6 endpoints, ports, and non-empty host names and strings of every length from 0 (where legal) to beyond 255.",
     "The tests send one fixed request per message kind.",
     SO, [("encoders (get_*_packet_size/encode_*)", "socks/detail/impl/protocol.cpp"), ("greet/login/execute and async forms", "socks/impl/client.hpp")], ["bytes written to the stream"])
prop("P07", "SOCKS replies are consumed exactly and mapped to the right outcome",
     "For every byte stream a proxy may send, in any fragmentation, a SOCKS operation succeeds exactly if the reply reports success; each documented status code yields its documented error, every other non-success status a generic SOCKS error, and a wrong version or address type is an error as well. "
     "An operation that succeeds has consumed exactly the bytes of its reply, so data following it is left for the application; a connection ending early or failing yields that error. "
     "The handler is called exactly once, and not from within the initiating call.",
     ["inputs", "schedules", "fault_sequences"], "All 256 values of the version, status, method and address-type bytes, all bound address lengths, trailing application data, every way of splitting the reply into reads, and truncation at every byte.",
     "The tests replay a few complete, well-formed replies; fragmentation, truncation, trailing data and most status codes are not covered.",
     SO, [("reply parsing and status mapping", "socks/detail/impl/protocol.cpp"), ("read loops", "socks/detail/client.hpp"), ("error category", "socks/impl/socks_error.cpp")], ["error codes", "bytes left in the stream"])

FH = ["file_handle.hpp", "impl/file_handle.hpp", "impl/file_handle.cpp", "impl/file_handle_posix.hpp", "impl/file_handle_posix.cpp", "unique_file_handle.hpp", "basic_file.hpp", "detail/impl/posix_file_ops.cpp", "detail/posix_file_ops.hpp"]
prop("P08", "File reads, writes, seeks and sizes match a byte-array file with a position",
     "For any sequence of sequential and positional reads and writes (with one or many buffers), seeks, position queries, truncations and size queries through a file handle, owning handle or file object, the returned counts, end-of-file conditions, positions, sizes and transferred bytes are those of a byte array with a file position. "
     "Positional operations never move the file position; a read reports end-of-file exactly if it asked for data and nothing was left; gaps created by writing or growing past the end read as zeros. "
     "Operations on a handle not opened for that access, or seeking before the start, fail and change neither contents nor position.",
     ["histories", "inputs"], "All operation sequences, offsets (including beyond the end and near the largest offset), buffer counts and sizes (including zero and empty sequences), over handles of all three kinds, also several handles for the same file.",
     "The tests do one read/write round per function on a small fixed file.",
     FH, [("read_some/write_some/_at, seek, position, size", "detail/impl/posix_file_ops.cpp"), ("buffer_sequence_adapter", "detail/buffer_sequence_adapter.hpp")], ["return values, error codes, buffers, the file's contents as seen by the OS"])
prop("P09", "Opening a file honours disposition, access, permissions and flag validity",
     "For every combination of open flags and initial file state, opening succeeds, fails, creates, preserves or truncates the file exactly as the requested disposition says, grants exactly the requested access, creates files with the requested (umask-filtered) permissions and never passes the descriptor to child processes. "
     "Invalid combinations are rejected with an invalid-argument error without touching the file system, and opening through an object that already holds a file reports 'already open' and leaves that file untouched. "
     "Native open arguments set by hand take effect as given.",
     ["configurations", "inputs"], "All subsets of the documented flags crossed with a missing, empty, non-empty, read-only and directory target, arbitrary permission masks and umasks, every open form (throwing, error code, handle, file object).",
     "Tests open a few fixed combinations; the product of disposition, access, flags and target state is not enumerated.",
     ["open.hpp", "impl/open.cpp", "open_flags.hpp", "impl/open_flags.cpp", "open_args.hpp", "impl/open_args.hpp", "detail/impl/posix_file_ops.cpp", "basic_file.hpp"],
     [("validation and conversion of flags", "impl/open_flags.cpp"), ("native open arguments", "impl/open_args.hpp"), ("open()", "detail/impl/posix_file_ops.cpp")], ["error codes, the file system afterwards, descriptor flags"])
prop("P10", "Scatter/gather I/O transfers the right bytes under every OS outcome",
     "When the operating system transfers fewer bytes than asked, is interrupted by a signal or fails, read and write operations over any buffer sequence report exactly the number of bytes transferred, place or take exactly these bytes in buffer order, retry interrupted calls without losing or repeating data, and report other errors unchanged with a count of zero. "
     "Buffers beyond the bytes transferred are not modified, and sequences longer than what one OS call accepts are transferred partially and never out of order. "
     "Composed operations that must transfer everything continue after partial transfers and stop at the first error with the exact number of bytes transferred so far.",
     ["fault_sequences", "inputs"], "All sequences of partial transfers, interruptions and error codes for each system call, all buffer sequences from zero to several hundred buffers of any size including empty ones.",
     "Regular files never produce short or interrupted transfers in a test run; buffer sequences in the tests have one or two elements.",
     ["detail/buffer_sequence_adapter.hpp", "detail/impl/posix_file_ops.cpp", "impl/file_handle_posix.hpp"], [("EINTR loops and error translation", "detail/impl/posix_file_ops.cpp"), ("buffer_sequence_adapter limits", "detail/buffer_sequence_adapter.hpp")], ["system calls made, return values, buffers"])
prop("P11", "Whole-file reads and writes are complete or report why not",
     "Writing a container, string or buffer sequence to a file and reading it back yields exactly the same bytes, replacing any previous contents. "
     "Reading into fixed-size buffers fills them completely or reports end-of-file; reading into a growable container gives it exactly the file's size and contents, or an error (for files too large for it: message-size, with the container left as it was); no success is ever reported for partially transferred data. "
     "This also holds when system calls transfer less than asked, are interrupted, or fail at any point, in which case the error is reported (a failing allocation: as an exception) and no descriptor stays open.",
     ["inputs", "fault_sequences"], "All contents and sizes up to some hundred KiB, all container kinds and buffer shapes, previous file contents, maximum sizes, and faults injected at any system call.",
     "The tests round-trip one small string without faults.",
     ["read_file.hpp", "impl/read_file.hpp", "write_file.hpp", "impl/write_file.hpp", "is_raw_byte_container.hpp"], [("read_file/write_file overloads", "impl/read_file.hpp"), ("write_file", "impl/write_file.hpp")], ["container contents, error codes, file contents, open descriptors"])
prop("P12", "Owning handles close each descriptor exactly once; plain handles never do",
     "Under any sequence of opens, moves, releases, resets, duplications, closes and destructions of owning handles and file objects, every descriptor is closed exactly once when its last owner lets go of it, never used or closed after that, and released or plain handles are never closed implicitly. "
     "Ownership moves completely: the source is empty afterwards, and closing an empty object does nothing. "
     "When the operating system reports a failure while closing, the object is empty nevertheless and the descriptor is not closed twice.",
     ["histories", "fault_sequences"], "All operation sequences over several handles and file objects, with any subset of close (and duplicate) calls failing.",
     "The tests check a single close/release each and never make close fail.",
     ["unique_file_handle.hpp", "impl/unique_file_handle.cpp", "file_handle.hpp", "duplicate.hpp", "impl/duplicate.cpp", "basic_file.hpp", "io_object_holder.hpp", "impl/thread_pool_file_service.cpp", "standard_streams.hpp", "impl/standard_streams.cpp"],
     [("unique_file_handle move/reset/release", "unique_file_handle.hpp"), ("close", "detail/impl/posix_file_ops.cpp"), ("service move/destroy", "impl/thread_pool_file_service.cpp")], ["open and close system calls", "is_open()"])
prop("P13", "File times survive conversion and setting without corruption",
     "Casting durations, splitting file times into seconds and smaller parts and composing them again is exact where representable, rounds toward zero otherwise, and is refused instead of wrapping on overflow; the file clock's time_t conversions truncate toward zero, and its now() lies between readings of the system clock. "
     "Setting any subset of a file's access and modification time changes these to exactly the given values, keeps those given as zero, and reading them back yields what the system holds; times that the file clock cannot represent are reported as an error. The creation time is not available here: it reads as zero, and setting it is ignored.",
     ["inputs"], "All 64-bit tick counts, seconds/nanoseconds pairs, duration ratios, and all subsets of times to set, including times before 1970.",
     "The tests convert a few recent time points.",
     ["chrono.hpp", "impl/chrono.cpp", "detail/chrono.hpp", "detail/impl/chrono.hpp", "file_attrs.hpp", "detail/impl/posix_file_ops.cpp"], [("compose/decompose time, safe_duration_cast", "detail/impl/chrono.hpp"), ("file_time_type conversions", "chrono.hpp"), ("times setter/getter", "detail/impl/posix_file_ops.cpp")], ["conversion results, stat() of the file"])
prop("P14", "Permission changes affect exactly the requested permission bits",
     "Replacing the permissions of an open file leaves it with exactly the given read/write/execute bits; adding or removing changes exactly the given ones and keeps all others, including special bits; reading them back returns what the operating system holds. Changes the system refuses are reported and change nothing; file attributes read as none and setting them has no effect here. "
     "Permission sets obey set algebra (union, intersection, difference, complement) for every value.",
     ["inputs", "histories"], "All 4096 initial modes crossed with all permission masks and options, via handles of all kinds; sequences of changes.",
     "The tests set one or two fixed masks.",
     ["file_perms.hpp", "file_attrs.hpp", "file_handle.hpp", "detail/impl/posix_file_ops.cpp"], [("permissions(options)", "detail/impl/posix_file_ops.cpp"), ("flag operators", "detail/enum.hpp")], ["stat() of the file"])
prop("P15", "Throwing and error-code forms of every operation agree",
     "For every operation offered in both forms, the throwing form throws a system error exactly if the error-code form reports an error, carrying the same error code, and otherwise returns the same result with the same side effects. "
     "The error-code form never throws such an error and always resets the passed code on success, whatever it held before.",
     ["inputs", "histories", "fault_sequences"], "All paired file, open, whole-file, standard-stream and URL operations, on valid, empty and read-only or write-only handles, with and without injected system errors.",
     "The tests call one of the forms per case, usually with a fresh error code, so stale codes go unnoticed.",
     ["file_handle.hpp", "impl/file_handle.cpp", "unique_file_handle.hpp", "basic_file.hpp", "open.hpp", "impl/open.cpp", "read_file.hpp", "write_file.hpp", "standard_streams.hpp", "duplicate.hpp", "url_view.hpp", "detail/throw_error.hpp"],
     [("throw_error", "detail/throw_error.hpp"), ("ec = error_code() on success", "detail/impl/posix_file_ops.cpp")], ["exceptions, error codes, results"])

AS = ["basic_file.hpp", "thread_pool_file_service.hpp", "impl/thread_pool_file_service.hpp", "impl/thread_pool_file_service.cpp", "detail/service_base.hpp", "io_object_holder.hpp", "bind_handler.hpp", "detail/bound_handler.hpp", "cancellation_token.hpp"]
prop("P16", "Asynchronous file operations complete exactly once with the synchronous result",
     "Every asynchronous file operation invokes its handler exactly once, never from within the initiating call, on the handler's associated executor (by default that of the context), and not before the operation is done; the result and effects are those of the corresponding synchronous operation. "
     "The event loop does not run out of work before all handlers have run; memory from the handler's allocator is returned before the handler is invoked, and the handler object is destroyed exactly once. "
     "Callbacks, futures and bound executors observe the same outcome.",
     ["schedules", "histories", "inputs"], "All mixes of asynchronous reads and writes (sequential, positional, composed), on several files and contexts, single- and multi-threaded event loops, strands and other executors, handlers that start further operations, destroy or move the file.",
     "The tests await one operation at a time on one thread.",
     AS, [("operation objects posted to the pool", "impl/thread_pool_file_service.hpp"), ("outstanding work tracking", "detail/bound_handler.hpp")], ["handler invocations, threads, results"])
prop("P17", "Cancelling, closing, moving or destroying a file settles its operations",
     "After cancelling or closing a file, or destroying or assigning to its object, every operation already started on it still completes exactly once: those that had not begun executing report 'operation aborted', transfer nothing and have no effect on any file, even if the descriptor is reused; those executing or executed when the file is cancelled deliver their results, and operations started afterwards work normally. "
     "Other files are not affected. "
     "Moving or swapping file objects (also between contexts) moves the pending operations and the executor along, so that cancelling the new owner aborts them, and all objects remain usable.",
     ["schedules", "histories"], "All sequences of starting, cancelling, closing, reopening, moving, swapping and destroying several files (also from within completion handlers) with operations held back in or released from the background threads at any point, also within a system call.",
     "Whether an operation was queued or already executing when it is cancelled depends on the schedule; the tests do not control it and never move files with pending operations.",
     AS, [("cancellation token checked before executing", "impl/thread_pool_file_service.hpp"), ("cancel/close/move in the service", "impl/thread_pool_file_service.cpp")], ["handler results, file contents"])
prop("P18", "Cancellation tokens report exactly the cancellation of their source",
     "A token reports 'cancelled' from the moment its source is cancelled, destroyed (by its destroy function or its destructor) or assigned to, for ever, no matter how tokens were copied; before that it reports 'not cancelled'. Moving or swapping sources takes their tokens along. "
     "Tokens issued after cancelling start out uncancelled; a destroyed or moved-from source issues cancelled tokens until it is reset, which neither revives earlier tokens nor affects sources that are alive. "
     "Cancelling is visible to other threads holding tokens, without data races.",
     ["histories", "schedules"], "All operation sequences over several sources and tokens (create, copy, move, swap, assign, cancel, reset, destroy), also with tokens polled by other threads.",
     "The tests exercise one source with one token.",
     ["cancellation_token.hpp", "impl/cancellation_token.cpp"], [("shared state and reference count", "impl/cancellation_token.cpp")], ["cancelled()"])
prop("P19", "A unique handler invokes its stored handler at most once and releases it",
     "A type-erased unique handler invokes the stored handler at most once, with the arguments given; completing an empty one throws and invokes nothing, and only an object storing a handler converts to true. "
     "The stored handler is destroyed exactly once and its memory comes from its associated allocator and is returned exactly once: before the invocation when completing, otherwise upon reset, reassignment or destruction; moving transfers it leaving the source empty. If no memory can be allocated for a new handler, the current one is kept and the new one not moved from. "
     "The handler may be replaced, reset, completed again or the object destroyed from within the invocation or a stored handler's destructor.",
     ["histories"], "All sequences of constructions, assignments (of handlers, of other unique handlers, of null), moves, swaps, completions (including re-entrant ones) and destructions with handlers of different sizes and associated allocators, and failing allocations.",
     "The tests complete one handler once.",
     ["unique_handler.hpp", "impl/unique_handler.cpp", "associated_allocator.hpp"], [("type-erased base and in-place move before invocation", "unique_handler.hpp")], ["handler lifetimes, allocator calls, invocations"])
prop("P20", "Composed and bound handlers keep associated executor, allocator and work",
     "A composed operation invokes its completion handler exactly once with the operation's results, in the handler's associated executor, after any number of intermediate steps, each of which also runs in that executor and takes its memory from the handler's associated allocator; the executors it was created with have outstanding work from its creation until the handler was invoked, or the operation is destroyed, and none afterwards. "
     "Binding arguments to a handler stores decayed copies and delivers exactly these, keeps the handler's associated executor and allocator, and keeps the given work until after the invocation. "
     "A work tuple holds one unit of work for each executor until reset or destroyed; copies hold their own.",
     ["programs", "schedules"], "All composed operations of random length mixing timers, posts, dispatches and nested composed operations, completing directly or through a bound handler, throwing or abandoned, with every kind of associated executor and allocator and zero to three executors to keep busy; bound handlers of arities zero to four, also with move-only arguments.",
     "The tests run one composed operation on the default executor.",
     ["compose.hpp", "bind_handler.hpp", "detail/bound_handler.hpp", "associated_allocator.hpp", "async_result.hpp", "detail/coroutine.hpp"], [("composed operation wrapper", "compose.hpp"), ("bound_handler executor work", "detail/bound_handler.hpp")], ["handler calls, executor on which they run, arguments"])
prop("P21", "Buffered streams neither lose, repeat nor reorder bytes",
     "Through a buffered stream, under any sequence of appending to its write buffer, flushing, filling and consuming its read buffer, the bytes given to the underlying stream are exactly those appended, in order, each once, and those filled are exactly the bytes the underlying stream delivered, appended to what is still buffered; filling completes as soon as the stream delivered something or failed. "
     "Flushing succeeds only once what it set out to write has been written, and otherwise reports the stream's error and the number of bytes written, keeping the rest for a later flush; can_flush() tells whether there is something left to flush and no flush pending. "
     "Data can be appended while an asynchronous flush is pending, but a second flush is refused with 'already started'. The buffers never exceed their maximum sizes, closing drops what they hold, and handlers are invoked exactly once, on their executor and never from within the initiating function.",
     ["histories", "fault_sequences", "inputs"], "All sequences of operations with sizes around the buffer limits, all limits, underlying streams with partial transfers, errors and completions at any point.",
     "There are no tests for the buffered stream.",
     ["experimental/buffered_stream.hpp"], [("flush/fill and buffer locking", "experimental/buffered_stream.hpp")], ["returned data, underlying stream contents"])
prop("P22", "Connecting by host name tries each endpoint in order and reports the truth",
     "Connecting a socket to a host looks the name up once, with the given service and flags, and tries the resulting endpoints strictly in order, each once, until one accepts; the socket, whether it was open or connected before or not, is then connected to exactly that one and success is reported, whatever error code was passed in. "
     "If none accepts, or there are none, or resolving fails, it reports an error (that of the last attempt, 'not found', or the resolver's), and a socket for which attempts were made isn't connected. "
     "The throwing and asynchronous forms have the same outcome; the asynchronous handler is invoked exactly once, on its executor, never from within the call, with the endpoint connected to. No descriptor is left open.",
     ["inputs", "fault_sequences"], "All lists of up to several endpoints with any subset of accepting, refusing and unreachable ones, resolver failures, both forms.",
     "There are no tests of connecting by name.",
     ["connect.hpp", "impl/connect.cpp"], [("endpoint loop", "connect.hpp")], ["error codes, peer endpoint, order of connection attempts"])
prop("P23", "Destroying an execution context discards pending file operations cleanly",
     "When an execution context is destroyed while files exist and file operations are queued, executing, or completed but not yet delivered, destruction terminates, all handlers on that context are destroyed exactly once without being invoked, and their memory is returned. "
     "Every descriptor owned by a file is closed exactly once, also if the file is owned by a pending handler, timer or posted function and thus destroyed along with the context. Operations executing at that time use their file and buffers only until the context is gone; those still queued behind them never execute; handlers on another context are invoked at most once, and files of another context remain as they are.",
     ["schedules", "histories"], "All numbers and kinds of pending operations on several files, held back, running or completed at the time of destruction, files living outside or inside handlers, moved within or between contexts before.",
     "The tests always run operations to completion before tearing down.",
     AS, [("service shutdown", "impl/thread_pool_file_service.cpp")], ["handler destruction, open descriptors"])
prop("P24", "Distinct files and handles can be used from different threads without races",
     "Using distinct file objects, handles, tokens and sources from different threads at the same time, on shared execution contexts run by several threads, is free of data races and gives each thread the same results as running alone. "
     "This includes creating, opening, moving, swapping and destroying files, moving them between contexts, starting and cancelling asynchronous operations, closing files that have no operation under way, and reading and writing whole files.",
     ["schedules"], "All assignments of random operation sequences on distinct objects to several threads sharing one execution context and background service.",
     "The tests are single-threaded apart from the library's own worker thread.",
     AS, [("service list mutex", "impl/thread_pool_file_service.cpp"), ("atomic token state", "impl/cancellation_token.cpp")], ["ThreadSanitizer reports, per-thread results"])

prop("P25", "Error codes and file services mean the same in every translation unit",
     "Every value of the library's error enumerations converts to an error code of its own category that equals, compares and orders like the code made from the same value in any other translation unit or thread, or thrown and caught elsewhere, and differs from all other codes. "
     "Each defined value has a fixed non-empty message that no other value has, asking for any value's message succeeds, and the categories have distinct names. "
     "Each execution context has exactly one file service, whichever translation unit asks for it first. This holds for header-only and separately compiled use.",
     ["inputs", "configurations"], "All defined and arbitrary other integer values of both categories, in two translation units, and all orders in which these ask for the file services of several contexts.",
     "The tests compare codes within one translation unit, for a few values.",
     ["error.hpp", "impl/error.cpp", "socks/error.hpp", "socks/impl/socks_error.cpp", "detail/service_base.hpp"],
     [("ASIOEXT_DECLARE/DEFINE_ERRORCATEGORY", "error_code.hpp"), ("io_context_service_base::id", "detail/service_base.hpp")], ["error_code comparisons, messages", "service addresses"])

prop("P26", "File objects use exactly the file service and executor they were given",
     "For any file service and any executor, constructed from a context or an executor, a file object (or the I/O object holder beneath it) uses the service of its executor's context. Each implementation it sets up is destroyed exactly once, by the service it belongs to at that time, "
     "also after moves, conversions, self-assignment, assignments between contexts and constructors that throw; an implementation whose set-up failed isn't destroyed. Every call reaches that service exactly once, with the arguments given, and its value, error and completion token's result come back unchanged, "
     "the throwing forms throwing exactly the errors reported. Moves take the executor along.",
     ["inputs", "histories"], "All services, executors and results of their operations, and all histories of constructions, moves, assignments, calls and destructions over them.",
     "The tests use one service with one context and its own executor.",
     ["basic_file.hpp", "io_object_holder.hpp", "execution_context.hpp"],
     [("io_object_holder", "io_object_holder.hpp"), ("basic_file's members", "basic_file.hpp")], ["calls a recording service gets", "get_executor()", "get_service()"])

WA = ["detail/impl/win_file_ops.cpp", "impl/file_handle_win.cpp", "impl/file_handle_win.hpp"]
prop("P27", "Windows: reads, writes, seeks and sizes match a byte array",
     "In the library's Windows code, too, reads and writes at the file pointer or at an offset, over any buffer sequence, transfer exactly the bytes a byte array would, return the number transferred, report eof exactly at the end of the file, and fail with the system's error if it reports one, "
     "as do seeking, position, size and changing the size, which leaves the file pointer where it is. Successful calls reset the error code. Asynchronous operations and reading or writing whole files give the same results. This holds for Windows XP, later versions and apps, given that Windows' functions do what they are documented to do. (Whether operations at an offset move the file pointer is open.)",
     ["inputs", "histories", "faults"], "All histories of transfers, seeks and size changes through several handles, with all buffers and offsets, partial transfers and failing system functions.",
     "The tests don't run the Windows code here, and elsewhere use a few short files without faults.",
     WA + ["basic_file.hpp", "read_file.hpp", "write_file.hpp"], [("read/write/pread/pwrite/seek/size", "detail/impl/win_file_ops.cpp"), ("buffer splitting", "impl/file_handle_win.hpp")],
     ["return values, error codes, file contents on a modelled Windows"])
prop("P28", "Windows: opening honours flags and names; handles are closed exactly once",
     "In the library's Windows code, opening a file by a UTF-8 (or code page) or wide name of any length does what disposition, access and sharing flags, permissions and attributes say: it creates, truncates or opens the file of exactly that name with exactly these access rights and sharing, sets the attributes of new files, and otherwise fails with the system's error, without effect. "
     "Invalid flags are detected and open nothing; opening an open file fails with already_open. Each handle opened or duplicated is closed exactly once, by close, destruction or assignment, unless released; afterwards the object is closed and using it fails. "
     "Standard streams are the process's handles, and the throwing forms throw if there are none.",
     ["inputs", "histories", "faults"], "All flags, permissions, attributes and names, and all histories of opening, duplicating, moving, closing and destroying, with failing system functions and memory.",
     "The tests don't run the Windows code here, and elsewhere open a few short ASCII names.",
     WA + ["detail/impl/win_path.cpp", "impl/open.cpp", "impl/open_args.hpp", "impl/duplicate.cpp", "impl/standard_streams.cpp", "impl/unique_file_handle.cpp"],
     [("parse_open_flags, open", "detail/impl/win_file_ops.cpp"), ("win_path", "detail/impl/win_path.cpp"), ("standard streams", "impl/standard_streams.cpp")],
     ["files, handles and attributes on a modelled Windows, error codes"])
prop("P29", "Windows: permissions, attributes and times are set and read back exactly",
     "In the library's Windows code, a file is read-only exactly if its permissions lack all write bits: setting, adding or removing permissions changes just that, and they read back as 0777 or 0555. Setting, adding or removing attributes changes the hidden, system and not-indexed attributes as asked and leaves permissions alone; adding and removing leave all others alone. "
     "Times read back exactly, and zero times aren't changed. No change affects anything else or another file, failures report the system's error and change nothing, and what Windows XP lacks isn't supported. "
     "File times convert to and from time_t without loss, and the clock agrees with the system's.",
     ["inputs", "histories", "faults"], "All histories of reading and changing permissions, attributes and times of several files with all attributes, with failing system functions, and all times since 1601.",
     "The tests don't run the Windows code here, and elsewhere use a few values and one file.",
     WA + ["chrono.hpp", "impl/chrono.cpp"], [("permissions, attributes, get_times, set_times", "detail/impl/win_file_ops.cpp"), ("file_clock", "chrono.hpp")],
     ["attributes and times on a modelled Windows, error codes"])
prop("P30", "BSD and macOS: file attributes and creation times are set and read exactly",
     "In the library's code for FreeBSD and macOS, each file attribute stands for the file flag of that name; those the system lacks are ignored. Setting attributes leaves a file with exactly those flags; adding and removing change the ones given and keep all others, including flags without an attribute; and they read back as set. "
     "Files created by opening get the attributes asked for, while existing ones keep theirs; if they can't be set, opening fails and no descriptor stays open. File times include the time of creation, which setting times doesn't change; a time the file clock can't represent is reported as an error. "
     "Nothing else and no other file is changed. A failure of the system is reported with its error in both forms and changes nothing.",
     ["inputs", "histories", "faults"], "All histories of opening, reading and changing attributes and times of several files through several kinds of handles, with all flags and failing system functions.",
     "The tests run on systems without file flags only.",
     ["detail/impl/posix_file_ops.cpp", "detail/config.hpp", "file_attrs.hpp", "open_args.hpp", "impl/open_args.hpp", "file_handle.hpp", "basic_file.hpp"],
     [("file_attrs_to_native, attributes, open, stat_to_times", "detail/impl/posix_file_ops.cpp")],
     ["flags, times and contents of files with emulated flags, error codes, descriptors"])
prop("P31", "Asynchronous operations have the same outcome with every completion token",
     "The SOCKS operations, buffered_stream's async_fill and async_flush, async_connect and the asynchronous operations of files have the same effects and deliver the same error and value, exactly once, "
     "whether they are given a plain callback, a callback bound to an executor or strand, use_future, use_awaitable, or redirect_error of it (async_connect also as_tuple, deferred, and the socket's own default token). "
     "Callbacks run, and coroutines resume, on their associated executor; failures are thrown as system_error with the operation's error. "
     "An operation whose awaitable (or deferred function) is created but not yet started has touched neither stream nor socket nor file, and never does so if it is discarded. Started later, it has its usual outcome even if the names, "
     "strings, lists, endpoints and buffer sequences passed to it are gone by then; but one of a file's own operations whose file was closed, reopened or destroyed before it was started completes with operation_aborted and accesses no file.",
     ["inputs", "histories", "schedules"], "All sequences of operations and tokens, arguments and replies, and orders in which the execution contexts concerned run.",
     "The tests use callbacks and futures only, and keep all arguments alive.",
     ["connect.hpp", "compose.hpp", "async_result.hpp", "bind_handler.hpp", "socks/client.hpp", "socks/impl/client.hpp", "socks/detail/client.hpp", "experimental/buffered_stream.hpp", "impl/thread_pool_file_service.hpp", "basic_file.hpp"],
     [("async_connect, connect_op", "connect.hpp"), ("async_greet, async_login, async_execute", "socks/impl/client.hpp"), ("async_fill, async_flush", "experimental/buffered_stream.hpp"),
      ("thread_pool_fs_init", "impl/thread_pool_file_service.hpp"), ("make_composed_operation", "compose.hpp")],
     ["errors, values, bytes and file contents with each token against those with a callback", "the executor of each completion"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        for x in p["anchors"]["files"] + [m["where"] for m in p["anchors"]["mechanism"]]:
            assert os.path.exists("/repo/" + x), (p["id"], x)
        f.write(json.dumps(p) + "\n")
