#!/usr/bin/env python3
"""Generates properties.jsonl and MANIFEST.json (the committed files come from here)."""
import json, os, subprocess
from checks import CHECKS

P = []


def p(id, title, statement, over, text, why, files, mech, observe=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if observe:
        d["anchors"]["observe_at"] = observe
    P.append(d)


p("C01", "Every hash map type is an exact finite map",
  "After any history of put, get, del, clear and re-creation, each map type answers exactly like a finite map from keys to their latest values: the returned (previous or current) value, the found flag and the size are right for every key, including key zero / NULL, colliding keys and keys with equal hashes. "
  "The three foreach forms visit every stored pair exactly once and stop on break. This holds for every accepted initial capacity and load factor (25 to 95, 0 for the default), and other load factors are rejected.",
  ["histories", "inputs", "configurations"],
  "all operation histories over colliding key sets, all 14 map types, initial capacities and load factors",
  "Tests insert and delete a few random or sequential keys; backward shift deletion, wrap-around probing and growth interact only in particular histories of colliding keys.",
  ["map/sc_map.c", "map/sc_map.h"],
  [("linear probing put/get", "map/sc_map.c sc_map_put/sc_map_get"), ("backward shift deletion", "map/sc_map.c sc_map_del"),
   ("growth and rehash", "map/sc_map.c sc_map_remap"), ("zero key slot", "map/sc_map.c mem[-1]")],
  ["sc_map_get/put/del results, sc_map_found, sc_map_size, sc_map_foreach*"])
p("C02", "A hash map survives allocation failure and its size limit unharmed",
  "When memory allocation fails or the size limit is reached during a put, the put reports out of memory, reports nothing as found and leaves every stored pair, the size and later operations unaffected; a later put succeeds once memory is available. "
  "Creation that fails leaves nothing allocated, every accepted creation yields a working map for any requested capacity, and destroying a map releases all memory.",
  ["fault_sequences", "histories", "inputs"],
  "every single allocation failing in every explored state, every initial capacity of the 32 bit range's boundary values",
  "The fail tests make one allocation fail in one state and do not look at the contents afterwards.",
  ["map/sc_map.c"], [("growth with limit and allocation check", "map/sc_map.c sc_map_alloc/sc_map_remap/sc_map_put")],
  ["sc_map_oom, sc_map_found, contents, live heap blocks"])
p("C03", "The queue is an exact double ended queue, also across failures",
  "After any history of adds and deletes at both ends, clear and re-creation, the queue holds exactly the elements of a double ended queue in order: size, emptiness, peeks, indexed access, index iteration and foreach agree, for every element type, also when an added element is read from or deleted from the queue itself, when arguments have side effects (each is evaluated once) and when loops are nested. "
  "An add that fails for lack of memory or at the size limit says so and changes nothing, a later add succeeds once memory is available, and termination releases all memory.",
  ["histories", "fault_sequences"],
  "all operation histories over queues up to 36 elements, each allocation failing",
  "Tests push and pop in a few fixed orders; ring wrap-around at each offset combined with growth and failed growth is not covered.",
  ["queue/sc_queue.h"], [("ring growth", "queue/sc_queue.h sc_queue_expand"), ("masked indices", "queue/sc_queue.h add/del/at/foreach")])
p("C04", "The array is an exact growable sequence, also across failures",
  "After any history of add, ordered and unordered delete, delete last, assignment, sort and clear, the array holds exactly the elements of a sequence: size, indexed access, last and foreach agree, for every element type, also when elements and indexes are given by expressions over the array itself or with side effects (each is evaluated once) and when loops are nested. "
  "An add that fails for lack of memory or at the size limit says so and changes nothing, a later add succeeds, and termination releases all memory.",
  ["histories", "fault_sequences"],
  "all operation histories to a depth from sizes around each growth boundary, each allocation failing",
  "Tests use a handful of sequences; deletes at every index around growth boundaries and failed growth are not combined.",
  ["array/sc_array.h"], [("growth", "array/sc_array.h sc_array_add"), ("deletes", "array/sc_array.h sc_array_del/del_unordered/del_last")])
p("C05", "The heap always yields a least key with its own data",
  "For any history of adds, pops, peeks and clears, peek and pop return an element of least key, with the data it was added with, and every added element is returned exactly once; an empty heap returns NULL. "
  "An add that fails for lack of memory or at the size limit says so and leaves size and contents unchanged, for every initial capacity, and termination releases all memory.",
  ["histories", "inputs", "fault_sequences"],
  "all add/pop/peek/clear histories within bounds over keys with ties and extreme values, initial capacities 0 to 16, each allocation failing",
  "Tests pop a few pre-computed sequences; ties, shapes and failed growth are not enumerated.",
  ["heap/sc_heap.c"], [("sift up", "heap/sc_heap.c sc_heap_add"), ("sift down", "heap/sc_heap.c sc_heap_pop")])
p("C06", "Intrusive lists keep exactly their elements in order",
  "For any history of adds at head, tail, before or after an element, deletes, pops and clears over several lists sharing elements, every list contains exactly the elements of the reference sequence in order, seen from both directions, and count, emptiness, head and tail agree. "
  "Adding an element that is already in a list moves it, deleting an element that is in no list changes nothing, and the safe iterators visit every element once while visited elements are deleted.",
  ["histories"], "all operation histories over two lists sharing up to six elements (fixpoint)",
  "Tests build one list in a few ways; moves between lists and self-neighbouring inserts are not enumerated.",
  ["linked-list/sc_list.c", "linked-list/sc_list.h"], [("link/unlink", "linked-list/sc_list.c sc_list_add_*/sc_list_del")])
p("C07", "Timers fire exactly once, never early and at most a tick late",
  "A timer added with delay d when the latest timestamp given was t is delivered exactly once, with its own data, type and due time t+d, never by a poll before t+d and by the first poll at or after t+d+16 unless cancelled or cleared before; delays that do not fit the clock never fire. "
  "Cancelled and cleared timers never fire, cancelling invalidates the id, ids of pending timers differ, and a poll never asks to be called again later than the next 16 ms tick.",
  ["histories", "inputs"],
  "all histories of add, poll, cancel, clear and term to a depth over delays and time jumps around every tick and wheel boundary, and many pre-filled wheels",
  "Tests use real time and random delays below 100 ms; wheel wrap-around, long jumps and polls between ticks never occur.",
  ["timer/sc_timer.c", "timer/sc_timer.h"],
  [("wheel placement", "timer/sc_timer.c sc_timer_add"), ("wheel scan", "timer/sc_timer.c sc_timer_timeout"), ("cancel by id", "timer/sc_timer.c sc_timer_cancel")])
p("C08", "Timer callbacks may add and cancel timers; failed adds hurt no timer",
  "When callbacks add timers (even so many that storage has to grow) or cancel other pending timers during a poll, every timer still fires exactly once, never early, at most one 16 ms tick late, and cancelled ones never. "
  "An add that fails for lack of memory or at the size limit returns the invalid id and affects no other timer, and termination releases all memory.",
  ["histories", "fault_sequences"],
  "all histories to a depth in which a callback of a poll performs one of seven bursts of adds and cancels, each allocation failing",
  "No test adds or cancels from a callback, and the fail test does not poll afterwards.",
  ["timer/sc_timer.c"], [("position recomputed after callbacks", "timer/sc_timer.c sc_timer_timeout"), ("growth", "timer/sc_timer.c expand")])
p("C09", "Buffer values round-trip exactly and in order",
  "Whatever typed values (bool, integers, double, string, NULL string, formatted string, blob, raw bytes) are written to a buffer, reading them back in the same order returns exactly those values, across growth, compact, shrink, reserve, moving bytes between buffers and raw access through the read and write pointers. "
  "Every write adds exactly the encoded length of the value, integers are little endian, size, positions, quota and capacity stay consistent, peeking and setting move nothing, and appended text is the concatenation of its pieces. "
  "Reading beyond the end is reported.",
  ["histories", "inputs"],
  "all histories of writes, reads and maintenance calls to a depth, with item lengths around the free space and growth boundaries, from 17 set-ups",
  "Tests round-trip a few values in a large buffer; values that end exactly at a growth boundary, after compaction or shrinking, are not combined.",
  ["buffer/sc_buf.c", "buffer/sc_buf.h"],
  [("growth", "buffer/sc_buf.c sc_buf_reserve"), ("codecs", "buffer/sc_buf.c put/get/peek/set"), ("compact/shrink/move", "buffer/sc_buf.c")])
p("C10", "Decoding arbitrary bytes never leaves the buffer",
  "For any content of a buffer and any sequence of reads, peeks, sets, position changes and reservations with any position or length (also ones that overflow), nothing outside the buffer's memory is read or written, and reads return exactly the bytes written or report an error. "
  "A returned string lies within the written bytes and is terminated at its stored length, a returned blob lies within the written bytes, and after an error all reads return zero or NULL until the buffer is cleared.",
  ["inputs", "histories"],
  "all contents over an alphabet of boundary lengths for buffers of 0 to 20 bytes, all operation sequences up to 3 operations over boundary positions and lengths",
  "Tests decode well formed data; hostile lengths near 2^64, missing terminators and their combination with earlier reads are not tried.",
  ["buffer/sc_buf.c"], [("bounds checks", "buffer/sc_buf.c sc_buf_peek_*_pos/sc_buf_set_*_pos/sc_buf_get_str/sc_buf_get_blob")])
p("C11", "Buffer failures are flagged, sticky and contained",
  "A write or reservation that cannot get memory, would exceed the limit or does not fit wrapped memory makes the buffer invalid, and it stays invalid, returning zero or NULL, until cleared, after which it works again; a write with enough memory never fails. "
  "The capacity never exceeds the limit, wrapped memory is never overrun, replaced or freed, shrinking never grows the buffer, and termination releases all memory.",
  ["fault_sequences", "histories"],
  "every single allocation failing in every explored state of C09's histories, limits and wrapped buffers of several sizes",
  "Tests make one allocation fail in a fresh buffer.",
  ["buffer/sc_buf.c"], [("limit and allocation checks", "buffer/sc_buf.c sc_buf_reserve/sc_buf_shrink"), ("wrapped memory", "buffer/sc_buf.c sc_buf_wrap")])
p("C12", "String operations compute exactly the string they name, or change nothing",
  "Every string operation (create, set, append, format, trim, substring, replace, compare) yields exactly the result defined on plain byte strings, including formatted text of any length and replacing every leftmost non-overlapping occurrence, and the recorded length equals the contents; arguments may be the string itself or a part of it. "
  "When an operation fails for lack of memory, an invalid range or the length limit it says so and the string is unchanged, and destroying strings releases all memory.",
  ["histories", "inputs", "fault_sequences"],
  "all histories of string operations within a length bound, all patterns and subjects over small alphabets, each allocation failing",
  "Tests check about a dozen replacements and a few trims; overlapping patterns, growth against shrinkage and failed allocations are not enumerated.",
  ["string/sc_str.c"], [("replace", "string/sc_str.c sc_str_replace"), ("trim and substring", "string/sc_str.c sc_str_trim/sc_str_substring"),
   ("formatting", "string/sc_str.c sc_str_create_va")])
p("C13", "Tokenizing visits every token and restores the string",
  "Iterating a string with token_begin yields exactly the fields between delimiter characters in order, including empty fields, even if the delimiter set changes between calls. "
  "After the last token, or after token_end at any point, the string is byte for byte what it was, and its length never changes in between.",
  ["inputs", "histories"],
  "all strings over delimiters and letters up to a length, all delimiter sets, all stopping points",
  "Tests tokenize a few strings to the end; stopping early, changing delimiters and adjacent delimiters are combined only by enumeration.",
  ["string/sc_str.c"], [("in place termination and restore", "string/sc_str.c sc_str_token_begin/sc_str_token_end")])
p("C14", "Parsed URIs decompose exactly by the grammar, or are rejected",
  "For every input string, parsing either yields the unique decomposition into scheme, userinfo, host, port, path, query and fragment of scheme ':' ['//' [userinfo '@'] host [':' port]] path ['?' query] ['#' fragment], each as terminated string, or rejects the input. "
  "Accepted ports are decimal numbers up to 65535, bracketed hosts are closed within the authority, the stored text equals the input, and a failed allocation returns NULL.",
  ["inputs", "fault_sequences"],
  "all strings over the delimiter alphabet up to a length after several prefixes, all ports, long components, failing allocation",
  "Tests parse some forty URIs; delimiters of one component occurring inside another are only covered by enumeration.",
  ["uri/sc_uri.c"], [("component scan", "uri/sc_uri.c sc_uri_create"), ("size computation and copy", "uri/sc_uri.c sc_uri_create")])
p("C15", "An ini text is reported item by item, the same from file and string",
  "For every text the parser reports exactly the items of the documented format in order, with line number, section, key and value (comments, continuation lines, byte order mark and white space treated as documented), and stops at the first syntax error or when the callback asks for it, returning that line number; a callback may parse another text meanwhile. "
  "A file is reported like the same text given as a string however it is read, over-long lines are truncated without affecting other lines, and open and read errors are reported with the file closed.",
  ["inputs", "fault_sequences"],
  "all texts over the delimiter alphabet, all sequences of line forms, all read chunkings and error offsets within bounds",
  "Tests parse a few files; line forms interacting with sections, continuations and comments, and read errors, are not combined.",
  ["ini/sc_ini.c"], [("line parser", "ini/sc_ini.c"), ("file reader", "ini/sc_ini.c sc_ini_parse_file")])
p("C16", "Options are recognised exactly in their documented forms",
  "For every option table and argument, '-l', '-l=value', '--name' and '--name=value' yield the letter of the first matching option, with value pointing behind the '=' or at the terminating zero; any other argument yields '?'. "
  "Names match only as a whole, arguments are never changed and nothing outside them is read.",
  ["inputs"], "all tables of up to 3 options and all arguments up to a length over the characters that matter",
  "Tests look at a dozen arguments; prefixes of names, repeated signs and shared letters are not enumerated.",
  ["option/sc_option.c"], [("matching", "option/sc_option.c sc_option_at")])
p("C17", "Sizes convert exactly between bytes and text, powers of two are exact",
  "Parsing a size yields number times unit (blanks before the unit allowed) whenever that is a non-negative 64 bit number and -1 for every other text; formatting a byte count yields the value in the largest fitting unit, correct to two decimals, or NULL if it does not fit the given space, which is never exceeded. "
  "sc_is_pow2 is true exactly for powers of two and sc_to_pow2 yields the least power of two that is not below its argument.",
  ["inputs"], "all values of dense sets covering every magnitude, all short texts, all limits of each unit",
  "Tests look at some forty values; overflow limits per unit, rounding at unit changes and malformed texts are not enumerated.",
  ["sc/sc.c"], [("parser", "sc/sc.c sc_size_to_bytes"), ("formatter", "sc/sc.c sc_bytes_to_size"), ("powers of two", "sc/sc.c sc_to_pow2/sc_is_pow2")])
p("C18", "The random stream depends on the seed and the position alone",
  "The generator yields the RC4 stream of its 256 byte seed (identity permutation keyed by the seed, index j carried on, as in SQLite), and the byte at each position is the same however the reads are split and whatever other generators do. "
  "Reads of zero, negative size or into NULL consume nothing, and exactly the requested bytes are written.",
  ["inputs", "histories"], "many seeds, all ways to split the reads of the first bytes",
  "Tests only compare two equally read streams for equality.",
  ["sc/sc.c"], [("key schedule", "sc/sc.c sc_rand_init"), ("output", "sc/sc.c sc_rand_read")])
p("C19", "The checksum is CRC-32C for every length, alignment and split",
  "sc_crc32 equals the bitwise CRC-32C of the message for every length, alignment, content and initial value, in the table driven and in the hardware variant. "
  "Computing a message in parts gives the same value as at once, and no byte outside the message is read.",
  ["inputs", "configurations"], "every length and alignment up to several thousand, every single-bit message of the lengths around the block sizes, all splits",
  "Tests compare a few buffers; the block, tail and alignment paths depend on the exact length.",
  ["crc32/sc_crc32.c"], [("table variant", "crc32/sc_crc32.c crc32_sw_le"), ("hardware variant", "crc32/sc_crc32.c crc32_hw")])
p("C20", "The signal safe formatter writes the exact text for every size",
  "For every format of text, %%, %s, %d, %u, %ld, %lu, %lld, %llu and %p and all arguments, sc_signal_snprintf writes the text printf defines (NULL strings as (null), pointers in hexadecimal), cut to the given size, always terminated, and returns the number of characters written; nothing is written beyond the size, nor at all for size zero. "
  "Other conversions return -1, and sc_signal_log writes exactly that text to the descriptor and nothing beyond the buffer.",
  ["inputs"], "all sequences of up to 3 conversions with boundary arguments and all buffer sizes",
  "Tests format ten values into a large buffer; truncation at each position and extreme values are not enumerated.",
  ["signal/sc_signal.c"], [("formatter", "signal/sc_signal.c sc_signal_vsnprintf"), ("log", "signal/sc_signal.c sc_signal_log")])
p("C21", "The signal safe formatter is reentrant at every instruction",
  "A call of the formatter or the signal log arriving at any machine instruction of another call leaves both results exact: no shared state, no allocation, no change of errno.",
  ["schedules"], "every instruction boundary of the calls, all pairs of a set of calls",
  "Tests never interrupt a call.",
  ["signal/sc_signal.c"], [("formatter state on the stack only", "signal/sc_signal.c sc_signal_vsnprintf")])
p("C22", "One byte on the first shutdown signal, immediate exit on the second",
  "After init, the first SIGINT or SIGTERM writes one byte to the shutdown descriptor and returns with errno preserved, or exits with 0 when no descriptor is set and with 1 when the write fails; a further shutdown signal, wherever it arrives, also within the handler of the first, exits with 1 and never sends a second byte. "
  "The handlers call only async signal safe functions and log to the log descriptor or standard output; SIGHUP and SIGPIPE are ignored, and init returns -1 if any registration fails.",
  ["schedules", "fault_sequences"], "every instruction of the first handler as arrival point, all pairs of signals, all answers of write, every registration failing",
  "Tests raise one signal or two in sequence in a child and do not look at how it ends.",
  ["signal/sc_signal.c"], [("shutdown handler", "signal/sc_signal.c sc_signal_on_shutdown"), ("registration", "signal/sc_signal.c sc_signal_init")])
p("C23", "A fatal signal is reported and ends the process with that signal",
  "SIGSEGV, SIGABRT, SIGBUS, SIGFPE and SIGILL, raised or caused by a fault, write a report naming the signal to the log descriptor or standard error and then terminate the process by the same signal, even if the report cannot be written. "
  "If further signals arrive at any instruction of the handler the process still dies from one of the fatal signals, and the handler calls only async signal safe functions.",
  ["schedules", "fault_sequences"], "every instruction of the handler as arrival point of a second signal, all signals, failing writes",
  "Tests run the handlers in a mode in which the process does not die, and accept every outcome.",
  ["signal/sc_signal.c"], [("fatal handler", "signal/sc_signal.c sc_signal_on_fatal")])
p("C24", "A signalled event reaches exactly one waiter and is never lost",
  "Under every interleaving, concurrent signals and waits behave as a single event slot used atomically: a signal stores its data and sets the event (a later signal replaces it), a wait returns the stored data of a set event and clears it. "
  "A wait never sleeps while the event is set, never returns without a signal, also with spurious wakeups, and a signal never blocks. "
  "Initialisation that fails returns negative with errno and leaves nothing behind, term reports errors as negative with errno, and a second term does nothing.",
  ["schedules", "fault_sequences"], "all interleavings up to a preemption bound of all programs of 2 to 3 threads, spurious wakeups, each pthread call failing",
  "Tests run one producer and one consumer under the kernel's schedule; a lost wakeup needs a particular preemption.",
  ["condition/sc_cond.c"], [("signal/wait under the mutex", "condition/sc_cond.c sc_cond_signal/sc_cond_wait"), ("cleanup", "condition/sc_cond.c sc_cond_init/sc_cond_term")])
p("C25", "The mutex excludes all others and publishes what was written",
  "Under every interleaving at most one thread is between lock and unlock of a mutex, what it wrote there is visible to the next owner, and every lock is eventually granted once the owner unlocks. "
  "Initialisation that fails returns -1 and leaves nothing behind, term reports a failing destroy as -1.",
  ["schedules", "fault_sequences"], "all interleavings up to a preemption bound of 2 to 4 threads over one and two mutexes, each pthread call failing",
  "Tests run two threads under the kernel's schedule.",
  ["mutex/sc_mutex.c"], [("lock/unlock", "mutex/sc_mutex.c")])
p("C26", "A started thread runs once and join returns its result",
  "For every interleaving and history of start, join and term on thread objects, a successful start runs the function exactly once with its argument, and the next join or term returns 0 after the function has ended, with its result and its writes visible. "
  "Joining an object without running thread returns 0 and NULL at once, also after a failed start. "
  "A failing start or join returns -1 with the system's error text, the error text is empty before, and nothing is leaked.",
  ["schedules", "histories", "fault_sequences"], "all interleavings of all programs of up to 4 calls on two thread objects, each pthread call failing",
  "Tests start and join one thread in order.",
  ["thread/sc_thread.c"], [("start/join", "thread/sc_thread.c sc_thread_start/sc_thread_join")])
p("C27", "Concurrent log calls never tear, lose, duplicate or misdirect lines",
  "Under every interleaving of log calls with changes of level, standard output, file, callback and thread name, each call that passes the level is written to each sink in effect exactly once as one whole line with the caller's own level, thread name and arguments, in an order that respects program order, also across file rotation. "
  "Some sequential order of the calls explains every filter decision and every sink, a replaced callback is not called after its replacement returned, and no call races, deadlocks, writes to a closed file or leaves more than one file open.",
  ["schedules", "configurations"], "all interleavings up to a preemption bound of all programs of up to 4 calls of 2 threads and 3 calls of 3 threads, in both builds (with and without C11 atomics)",
  "Tests log from one thread.",
  ["logger/sc_log.c"], [("lock around sinks", "logger/sc_log.c sc_log_log"), ("atomic level", "logger/sc_log.c sc_log_set_level"), ("rotation", "logger/sc_log.c sc_log_file")])
p("C28", "Each log line reaches exactly its sinks and files rotate at the limit",
  "For every history of log and configuration calls, a line at or above the level is written with its header to standard output (errors to standard error), to the end of the current file and to the callback, as far as enabled, and nothing else is written; the call returns 0, or a negative value if a sink failed, which does not keep the line from the other sinks. "
  "Once the current file has reached SC_LOG_FILE_SIZE it becomes the previous file and a new one starts, never earlier. "
  "A failing or invalid call reports -1 with errno where documented, disables the file only, and leaks neither files nor mutexes.",
  ["histories", "fault_sequences"], "all call histories to a depth over 26 calls, every environment call failing alone and in pairs, several limits",
  "Tests follow one history with a few failures and do not look at file contents.",
  ["logger/sc_log.c"], [("sinks", "logger/sc_log.c sc_log_log/sc_log_stdout/sc_log_file"), ("file change", "logger/sc_log.c sc_log_set_file")])
p("C29", "A file is mapped as asked or left alone, whatever call fails",
  "sc_mmap_init maps exactly the requested range of the file (up to the end of the file for length zero) so that its content is visible, expands the file to offset plus length if PROT_WRITE is given and it is smaller, never shrinks or alters it otherwise, and what is written through a shared mapping is in the file after term. "
  "If any system call fails it returns -1 with that call's error text, and leaves no descriptor and no mapping, so that term does nothing; an interrupted file allocation is continued. "
  "msync, mlock and munlock cover every page of their range inside the mapping and report errors the same way, term releases mapping and descriptor once, and further calls of it do nothing.",
  ["inputs", "configurations", "fault_sequences"], "all file sizes, open modes, protections, offsets and lengths around the page boundaries, every pair of system calls failing",
  "Tests map a fresh file in a few ways and make one call fail at a time, without looking at size, content, descriptors or error text.",
  ["memory-map/sc_mmap.c"], [("open, expand, map", "memory-map/sc_mmap.c sc_mmap_init"), ("release", "memory-map/sc_mmap.c sc_mmap_term"), ("page ranges", "memory-map/sc_mmap.c sc_mmap_msync/mlock/munlock")])
p("C30", "Synced bytes survive a crash at any point",
  "After sc_mmap_msync(offset, len) returned 0, every byte of that range written before it is found in the file after a crash at any later point, whatever subset of other dirty pages was written back, for every offset and length inside the mapping. "
  "A failed sync returns -1 and does not take back what earlier syncs guaranteed.",
  ["crash_points", "histories", "fault_sequences"], "all histories of writes and syncs to a depth around the page boundaries, all crash points with every subset of pages written back, syncs failing after each page",
  "Tests sync the first page and never crash.",
  ["memory-map/sc_mmap.c"], [("page alignment of the range", "memory-map/sc_mmap.c sc_mmap_msync")])
p("C31", "Sleep lasts the requested time however it is interrupted, and clocks are exact",
  "sc_time_sleep sleeps exactly the requested number of milliseconds in total and returns 0, no matter how often and when signals interrupt it, for every 64 bit duration, and returns -1 if the system call fails otherwise. "
  "The clock functions return the milliseconds (rounded down) and nanoseconds of the real time and the monotonic clock for every clock value that fits.",
  ["fault_sequences", "inputs"], "all sequences of up to 5 interruptions at 5 positions, boundary durations up to 2^64-1, boundary clock values",
  "Tests call the functions without interruptions and do not check values.",
  ["time/sc_time.c"], [("restart with the remaining time", "time/sc_time.c sc_time_sleep"), ("clock conversion", "time/sc_time.c sc_time_*")])
p("C32", "Performance counters report what happened while running",
  "For every history of start, pause and end, end prints for each configured event the number of events of this thread and the threads it starts, scaled up for the share of the time it was really counted, and the wall time, both summed over exactly the periods between start and pause or end; counting is off otherwise. "
  "end closes every counter, and a new measurement starts from zero. "
  "Pausing or ending without start, or any failing system call, ends the program instead of printing results.",
  ["histories", "fault_sequences"], "all histories of up to 6 calls and periods of work, forms of counter multiplexing, each system call failing",
  "There are no tests for this module.",
  ["perf/sc_perf.c"], [("enable/disable", "perf/sc_perf.c sc_perf_start/sc_perf_pause"), ("scaling", "perf/sc_perf.c sc_read")])
p("C33", "The poller watches the recorded interest and reports exactly the ready events",
  "For every history of add, del, waits, readiness changes and closed sockets, a descriptor is watched iff its recorded interest contains READ or WRITE, for exactly these events, for the peer's hangup, edge triggered iff EDGE was added, and with the data of the last change; add and del never fail by themselves. "
  "A wait reports each ready descriptor once with its data, READ and WRITE as they are ready, and both for a closed or broken one; it continues when interrupted. "
  "If a system call or allocation fails, the call returns -1 with its error text, changes nothing, and init and term leak nothing.",
  ["histories", "fault_sequences"], "all histories (fixpoint) over two descriptors, all event sets, forms of readiness and failing system calls; the model compared with the kernel on all short histories",
  "Tests add and delete a few masks in order; rollbacks, stale data and combinations of edge mode, partial deletes and failures are not enumerated.",
  ["socket/sc_sock.c"], [("interest mask", "socket/sc_sock.c sc_sock_poll_add/sc_sock_poll_del"), ("event mapping", "socket/sc_sock.c sc_sock_poll_event"), ("wait", "socket/sc_sock.c sc_sock_poll_wait")])
p("C34", "A descriptor may be handled and freed as soon as its poll change is visible",
  "Under every interleaving, a thread that gets an event may read, change, delete and free the descriptor at once, also while the call of another thread that added it has not returned, and after a full delete its owner may free it while others wait: no call touches it any more, sees it half updated, or loses an event. "
  "Error texts of concurrent failing calls belong to the calling thread.",
  ["schedules"], "all interleavings up to a preemption bound of 12 programs of 2 to 3 threads, with happens-before race detection",
  "Tests add and delete from several threads under the kernel's schedule; the window after epoll_ctl is a few instructions.",
  ["socket/sc_sock.c"], [("update before epoll_ctl", "socket/sc_sock.c sc_sock_poll_add/sc_sock_poll_del"), ("thread local error text", "socket/sc_sock.c sc_sock_poll_errstr")])
p("C35", "Sockets own exactly the descriptors they report, set up as asked, in all cases",
  "For every resolver answer, outcome per address and failing system call: listen, connect, accept and pipe init either succeed with exactly their descriptors open, in the blocking mode asked for, with address reuse, IPv6-only and no-delay as needed, on a resolved address, or return -1 with the error's text and no descriptor left; term closes once. "
  "connect tries addresses of its own family first, each once, and only a connection in progress leaves errno EAGAIN. "
  "A Unix listener deletes no file but its own path, which is never cut; timeouts are exact.",
  ["fault_sequences", "inputs"], "all address lists up to 3, outcomes, sources, modes and every two failing calls", 
  "Tests fail one call at a time in a few set-ups and check the return value; descriptor leaks, modes and options are not observed.",
  ["socket/sc_sock.c"], [("listening", "socket/sc_sock.c sc_sock_bind/sc_sock_listen"), ("connecting", "socket/sc_sock.c sc_sock_connect"), ("accepting", "socket/sc_sock.c sc_sock_accept")])
p("C36", "Bytes sent and received are exactly those reported, however interrupted",
  "For every sequence of answers of the kernel, send, recv and the pipe calls retry interruptions, and the count they return is the number of bytes moved, in order and unchanged. "
  "A call that would block returns negative with errno EAGAIN; an error or, for sockets, the peer's close returns negative with another errno; lengths of zero or less move nothing.",
  ["fault_sequences", "histories"], "all histories of 3 to 4 calls with all answers and up to 3 interruptions per call",
  "Tests inject single failures and do not compare the stream with the counts.",
  ["socket/sc_sock.c"], [("retry", "socket/sc_sock.c sc_sock_send/sc_sock_recv"), ("pipe", "socket/sc_sock.c sc_sock_pipe_write/sc_sock_pipe_read")])
p("C37", "Socket addresses print as they are, and systemd is notified at its address",
  "For every local and remote name, the text is the address and port, or the path, cut only to the buffer and always terminated; a socket without a name prints nothing, and a failing lookup returns NULL with the error's text. "
  "sc_sock_notify_systemd sends the message once, to exactly the path or abstract name of NOTIFY_SOCKET, or returns -1, and keeps no descriptor.",
  ["inputs", "fault_sequences"], "boundary addresses, ports and path lengths, buffer sizes, environment values, failing calls",
  "Tests print loopback sockets into large buffers.",
  ["socket/sc_sock.c"], [("printing", "socket/sc_sock.c sc_sock_print_storage"), ("notification", "socket/sc_sock.c sc_sock_notify_systemd")])
p("C38", "Containers hold memory in proportion to what they store, for ever",
  "For every history of a map, array, queue, heap, timer or buffer, the memory held is at most a fixed multiple of the largest number of elements held at once (plus the capacity asked for), so adding and removing for ever never makes it grow. "
  "Growing to n elements takes a logarithmic number of allocations (for the buffer, one per page), every element survives, and termination releases everything.",
  ["histories", "configurations"], "all sequences of phases (single operations, fills, drains, long cycles, clear) on every container and set-up",
  "Tests fill a container once and never measure its memory; a growth rule that goes wrong only after a certain history still passes them.",
  ["map/sc_map.c", "array/sc_array.h", "queue/sc_queue.h", "heap/sc_heap.c", "timer/sc_timer.c", "buffer/sc_buf.c"],
  [("growth", "map/sc_map.c sc_map_remap, array/sc_array.h sc_array_add, queue/sc_queue.h sc_queue_expand, heap/sc_heap.c sc_heap_add, timer/sc_timer.c expand, buffer/sc_buf.c sc_buf_reserve")])
p("C39", "Threads working on different objects never disturb each other",
  "For any two threads that call functions on containers, strings, texts, number conversions, synchronisation objects, files, sockets or pollers of their own (input texts may be the same), under every schedule, no memory written by one of them is touched by the other without synchronisation, and no function with state of the whole process is used. "
  "Every call returns exactly what it returns when its thread runs alone. Process wide services (logging, signal set-up, sc_crc32_init) are not part of this.",
  ["schedules", "pairs"], "all pairs of scripts and all schedules with a preemption between any two calls and at every synchronisation",
  "Tests run one thread, or threads on one object; hidden static state only shows when two users of a module interleave.",
  ["map/sc_map.c", "string/sc_str.c", "uri/sc_uri.c", "ini/sc_ini.c", "option/sc_option.c", "sc/sc.c", "buffer/sc_buf.c", "memory-map/sc_mmap.c", "socket/sc_sock.c", "timer/sc_timer.c", "heap/sc_heap.c"],
  [("no shared state", "every module: no static variable is written outside of initialisation; map/sc_map.c empty items are constant; socket/sc_sock.c sc_sock_poll_errstr is thread local")])

p("C40", "All memory comes from the configured allocators and goes back to them",
  "In a program built with SC_HAVE_CONFIG_H, whose config.h names allocation functions per module, every history of calls of the containers, strings, URIs, buffers and pollers, with any allocation, formatting or poller creation failing, takes memory only from the functions named for that module and gives it back only to them. "
  "Every block is released exactly once, by the pointer that was given out, none is left when the objects are destroyed, and the library itself calls no allocating function of the C library.",
  ["histories", "allocation failures"], "all histories of up to 4-6 calls of each module with each of the first allocations failing",
  "The tests are built without config.h, where every wrong function is the right one.",
  ["array/sc_array.h", "buffer/sc_buf.c", "heap/sc_heap.c", "map/sc_map.c", "queue/sc_queue.h", "socket/sc_sock.c", "string/sc_str.c", "timer/sc_timer.c", "uri/sc_uri.c"],
  [("sc_*_malloc", "macros of every header below SC_HAVE_CONFIG_H; all allocations of the sources go through them")])
