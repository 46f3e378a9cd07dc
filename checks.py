"""Which harness builds decide which property, and what they cover."""
import os

MODDIR = dict(array="array", buf="buffer", cond="condition", crc32="crc32", heap="heap",
              ini="ini", list="linked-list", log="logger", map="map", mmap="memory-map",
              mutex="mutex", option="option", perf="perf", queue="queue", sc="sc",
              signal="signal", sock="socket", str="string", thread="thread", time="time",
              timer="timer", uri="uri")

BFS = "explicit-state breadth-first search over the real object code (every operation and " \
      "allocation-failure point from every reachable heap state), against a reference model"

ALLOC = ["malloc", "calloc", "realloc", "free"]
CHECKS = {}


def check(pid, **kw):
    CHECKS[pid] = kw


check("C01", technique=BFS, level="model_checking",
      rule="a state is the byte image of the map object, its heap and the reference map; every "
           "operation is executed from every state; distinct = distinct images",
      bounds="14 map types x 2 colliding key sets (5-8 keys) x initial capacity {0,1,8,9} x load "
             "factor {25,50,75,95}, operation sequences to the fixpoint of the state graph or to the "
             "state cap; 17 capacities x 130 load factors for creation; string keys that differ after 600 bytes or only above 127, nested loops, 6 key patterns in every "
             "linear order over up to 1021 keys with deletes in between; up to 200001 keys of every type with growth, clear, reuse",
      level_note="Exhaustive within the listed key sets and capacities; larger maps only by the "
                 "uniformity of the code. Trusts the harness allocator and ASan.",
      builds=[dict(mods=["map"], harness="map.c", defs=["-DFAULTS=0"])])
check("C02", technique=BFS, level="model_checking",
      rule="as C01, and each allocation of each operation fails in turn",
      bounds="as C01 with every single allocation failure, also each growth up to 200001 keys; a second build with a capacity limit of 32",
      level_note="Every single allocation failure from every explored state; multiple failures only "
                 "across operations.",
      builds=[dict(mods=["map"], harness="map.c", defs=["-DFAULTS=1"]),
              dict(mods=["map"], harness="map.c", defs=["-DFAULTS=1", "-DLIMIT=1", "-DSC_MAP_MAX=32u"])])
check("C03", technique=BFS, level="model_checking",
      rule="a state is the byte image of the queue, its heap and the reference deque",
      bounds="11 predefined and 2 user element types; all sequences of add/delete at both ends, clear and "
             "re-creation over queues of up to 20 (quick, 10 for some types) or 36 (thorough) elements, with and without each "
             "allocation failing; nested loops, elements computed from the queue itself; queues of 16 to 65536 slots filled from every kind of rotation with each growth failing; more than 2^31 elements and 2^32 bytes",
      level_note="Fixpoint of the state graph for the listed sizes; elements are numbered by position.",
      builds=[dict(mods=["queue"], harness="queue.c", h_redef=ALLOC)])
check("C04", technique=BFS, level="model_checking",
      rule="a state is the byte image of the array, its heap and the reference sequence",
      bounds="13 element types; from 10 sizes around every growth boundary up to 32, all operation "
             "sequences to depth 2-5 (quick) or 3-7 (thorough), each allocation failing; nested loops, elements and indexes given by "
             "expressions over the array itself, fills of up to 70001 elements with each growth failing once; more than 2^32 elements",
      level_note="Exhaustive to the stated depth from each starting size.",
      builds=[dict(mods=["array"], harness="array.c", h_redef=ALLOC)])
check("C05", technique=BFS, level="model_checking",
      rule="a state is the byte image of the heap object, its memory and the reference multiset",
      bounds="8 initial capacities x {2 keys up to 18 elements, 3 keys x 2 payloads up to 7, 5 keys up to 8}; keys "
             "include INT64_MIN/MAX; plus all add/pop words to length 7-12; each allocation failing; all linear orders of "
             "larger heaps (i*k mod p) with each growth failing, more than 2^32 bytes",
      level_note="Exhaustive within the bounds or to the state cap reported in the evidence.",
      builds=[dict(mods=["heap"], harness="heap.c"),
              dict(mods=["heap"], harness="heap.c", defs=["-DSC_HEAP_MAX=9"]),
              dict(mods=["heap"], harness="heap.c", defs=["-DSC_HEAP_MAX=12"])])
check("C06", technique=BFS, level="model_checking",
      rule="a state is the byte image of both list heads, all elements and the reference sequences",
      bounds="2 lists sharing up to 5 (quick) or 6 (thorough) elements, all operation sequences (also next to the list itself and moving "
             "elements while iterating), fixpoint; 70003 elements with nested loops",
      level_note="Complete for the listed element counts.",
      builds=[dict(mods=["list"], harness="list.c")])
check("C07", technique=BFS, level="model_checking",
      rule="a state is the byte image of the timer, its wheel and the reference schedule",
      bounds="12 sets of delays, time steps (up to 2^60 ms), start times and pre-filled wheels; all histories of add, poll, "
             "cancel, clear, term to depth 4-6 (quick) or 5-8 (thorough); 66000 timers in one tick and in 5 spreads over the wheel with each growth failing",
      level_note="Delivery deadline as stated in the property; time only moves forward.",
      builds=[dict(mods=["timer"], harness="timer.c", defs=["-DCB=0"])])
check("C08", technique=BFS, level="model_checking",
      rule="as C07; polls whose first or second callback adds or cancels timers; each allocation failing",
      bounds="12 sets, 7 callback actions, histories to depth 3-5 (quick) or 4-7 (thorough)",
      level_note="As C07.",
      builds=[dict(mods=["timer"], harness="timer.c", defs=["-DCB=1"]),
              dict(mods=["timer"], harness="timer.c", defs=["-DCB=1", "-DSC_TIMER_MAX=8"])])
check("C09", technique=BFS, level="model_checking",
      rule="a state is the byte image of the buffer, its memory and the reference item sequence",
      bounds="21 set-ups (initial capacities 0..4100, read offsets, wrapped memory, limits) x 4 operation sets; "
             "histories to depth 4 (quick) or 6 (thorough), up to 2-3 unread items, item lengths around the "
             "free space and the growth boundary; all moves between buffers of up to 8 bytes; texts with zero bytes; positions and lengths around 2^31 and 2^32, moving more than 2^32 bytes",
      level_note="Exhaustive to the stated depth or to the state cap reported in the evidence.",
      builds=[dict(mods=["buf"], harness="buf.c", defs=["-DMODE=0"])])
check("C10", technique="stateless enumeration of all wrapped byte contents and operation sequences over the "
                       "real code under AddressSanitizer, against a reference reader",
      level="exploration",
      rule="one evaluation is one content, wrap mode and operation sequence; distinct = distinct final contents",
      bounds="all buffers of 0..20 bytes whose length prefix is one of 19 boundary values and whose first bytes are "
             "zero or not; single operations with 13 positions x 10 lengths, sequences of 2-3 operations over reduced alphabets; thorough: all pairs over the full alphabets; wrapped memory of 10000 bytes, partly written and read, compacted and read with lengths up to 2^64-1",
      level_note="Content beyond the alphabet is not enumerated.",
      builds=[dict(mods=["buf"], harness="buf.c", defs=["-DMODE=2"])])
check("C11", technique=BFS, level="model_checking",
      rule="as C09, and each allocation of each operation fails in turn",
      bounds="as C09 with each allocation failing",
      level_note="As C09.",
      builds=[dict(mods=["buf"], harness="buf.c", defs=["-DMODE=1"])])
check("C12", technique=BFS, level="model_checking",
      rule="a state is the byte image of the string and its memory; distinct = distinct images",
      bounds="all histories (fixpoint or state cap) over strings up to 7 (quick) or 9 (thorough) bytes of 112 operations, each "
             "allocation failing; all replacements of patterns up to 3 in strings up to 8 (11) bytes over {a,b}, all trims "
             "and substrings of strings up to 6 (9) bytes over 3 letters, formatted lengths around 1024; all "
             "operations on 13 lengths around 2^8, 2^16 and 2^17; every byte value at every position; arguments that are the string itself "
             "or a part of it; the formatter failing",
      level_note="Complete within these lengths; longer strings by the uniformity of the code.",
      builds=[dict(mods=["str"], harness="str.c", redef=["vsnprintf"]),
              dict(mods=["str"], harness="str.c", redef=["vsnprintf"], defs=["-DSC_STR_MAX=12"], shards=1)])
check("C13", technique="stateless enumeration of all strings, delimiter choices and stopping points over the real code",
      level="exploration",
      rule="one evaluation is one string, delimiter sequence and stopping point; distinct = distinct strings",
      bounds="all strings up to length 6 (quick) or 8 (thorough) over two delimiters and two letters, 6 delimiter sets, "
             "delimiters changing between tokens, stopping after every token count; every byte value",
      level_note="Complete within the bounds.",
      builds=[dict(mods=["str"], harness="str.c", defs=["-DTOK"])])
check("C14", technique="stateless enumeration of all strings over the delimiter alphabet through the real parser, "
                       "against a reference grammar",
      level="exploration",
      rule="one evaluation is one input string; distinct = distinct accepted strings",
      bounds="all strings of up to 6 (quick) or 7 (thorough) characters over {a,1,:,/,@,?,#,[,]} after 6 prefixes and before 2 "
             "suffixes, all port strings up to 5 (6) characters over 12 characters, all ports 0..65999, component lengths "
             "up to 5000, every byte value at every position, failing allocation",
      level_note="Complete within the bounds.",
      builds=[dict(mods=["uri"], harness="uri.c")])
check("C15", technique="stateless enumeration of all texts over the delimiter alphabet, all sequences of line forms and all "
                       "read errors through the real parser, against a reference reader",
      level="exploration",
      rule="one evaluation is one text (and read pattern); distinct = distinct reported items",
      bounds="all texts of up to 6 (quick) or 7 (thorough) characters over 11 characters after 4 prefixes, all sequences of up to "
             "4 (5) lines out of 21 line forms with byte order mark, missing last newline and stopping callbacks, as string "
             "and as file; all read chunkings 1-3 and error offsets of files of up to 2 (3) lines; line lengths around 1024 and 2048, every byte value at every position, also in the part of a line beyond the limit; 5 values by which a callback stops; texts of up to 70000 lines of 6 kinds",
      level_note="Complete within the bounds; key and section names up to 255 bytes.",
      builds=[dict(mods=["ini"], harness="ini.c", redef=["fopen"])])
check("C16", technique="stateless enumeration of all option tables and argument strings over the real code, against "
                       "the documented forms",
      level="exploration",
      rule="one evaluation is one table and argument; distinct = distinct recognised arguments",
      bounds="all tables of up to 3 out of 8 options (shared letters, names that are prefixes, no name), all arguments of "
             "up to 6 (5 for 3 options; one more in thorough) characters over {-,=,a,b,c,d} and 25 longer ones; every byte value; tables of up to 300 options; arguments at 32 places of a command line of 100000",
      level_note="Complete within the bounds; an option letter followed by a space in the same argument is left open.",
      builds=[dict(mods=["option"], harness="option.c", san=["-fsanitize=address,undefined", "-fno-sanitize-recover=all"])])
check("C17", technique="stateless enumeration of all values of stated sets and all short texts over the real code, "
                       "against exact integer arithmetic",
      level="exploration",
      rule="one evaluation is one value or text; distinct = distinct accepted texts",
      bounds="all values below 2^21, every value of 12 (thorough 14) significant bits at every position with low bits 0, 1 or "
             "all ones, +-5000 around every power of two and unit change, the last 100000 values; all texts of up to 5 "
             "(6) characters over 19 characters, limits of each unit with every spelling; every buffer length",
      level_note="Complete within the listed sets; the shown number may be off by 0.006 units.",
      builds=[dict(mods=["sc"], harness="conv.c", san=["-fsanitize=address,undefined", "-fno-sanitize-recover=all"])])
check("C18", technique="stateless enumeration of all ways to split the reads over the real code, against RC4 as in SQLite",
      level="exploration",
      rule="one evaluation is one seed and one sequence of reads; distinct = distinct generator states",
      bounds="1280 seeds (constant, linear, single byte, quadratic), all 1024 (thorough 8192) ways to read the first 11 (14) bytes mixed with empty "
             "reads, NULL buffers and a second generator, 70000 bytes of each seed in growing reads",
      level_note="Complete for the listed seeds.",
      builds=[dict(mods=["sc"], harness="conv.c", defs=["-DRAND"], san=["-fsanitize=address,undefined", "-fno-sanitize-recover=all"])])
check("C19", technique="stateless enumeration of all lengths, alignments, splits and single-bit messages through the real "
                       "code (table and hardware variants), against the bitwise definition",
      level="exploration",
      rule="one evaluation is one message, alignment and initial value; distinct = explored groups",
      bounds="every length 0..7400 (thorough 16000) at every alignment for 4 contents and up to 5 initial values, all "
             "messages of 1 and 2 (3) bytes, a single bit at every position of 21 lengths around the block sizes, every split of "
             "lengths up to 80 and of 20 lengths up to 900; messages around 2^31 and 2^32 bytes",
      level_note="The checksum is affine in the message bits, so the single-bit messages determine each length; reads outside the message are caught by ASan.",
      builds=[dict(mods=["crc32"], harness="crc.c", shards=4),
              dict(mods=["crc32"], harness="crc.c", shards=4, repo_flags=["-msse4.2", "-DHAVE_CRC32C"])])
UB = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all"]
check("C20", technique="stateless enumeration of all sequences of conversions, arguments and buffer sizes through the real "
                       "formatter, against the C library's formatter",
      level="exploration",
      rule="one evaluation is one format, argument list and buffer size; distinct = distinct texts",
      bounds="all sequences of up to 3 (thorough 4) out of 40 conversions with boundary arguments, every buffer size up to 2 "
             "more than needed (for 3, quick: around each conversion's end), 17 unsupported conversions after each; literal texts and arguments of 38 lengths up to 10^6, 23 conversions in one "
             "format, the va_list form",
      level_note="Complete within the bounds; x86-64 argument passing.",
      builds=[dict(mods=["signal"], harness="fmt.c", lib=["step.c"], redef=["write", "_Exit"], san=UB)])
check("C21", technique="exhaustive preemption of the real machine code: single stepping, a second call arriving at every "
                       "instruction boundary of a first one",
      level="exploration",
      rule="one evaluation is one pair of calls and one instruction boundary; distinct = pairs of calls",
      bounds="36 pairs of calls, the second one arriving at each instruction of the first one, and at all of them",
      level_note="Complete for the listed calls as compiled by gcc -O1; includes memcpy and strlen of the C library.",
      builds=[dict(mods=["signal"], harness="fmt.c", defs=["-DSTEP"], lib=["step.c"], redef=["write", "_Exit"], san=[])])
SIGRE = ["write", "_Exit", "sigaction", "signal", "sigemptyset", "printf", "fprintf", "snprintf",
         "vsnprintf", "puts", "fflush", "exit"]
check("C22", technique="exhaustive preemption of the real machine code: single stepping, a second signal delivered by the kernel at "
                       "every instruction boundary of the first handler; all answers of the environment",
      level="exploration",
      rule="one evaluation is one history of signals, arrival instruction and environment; distinct = distinct outcomes",
      bounds="2 signals x 2 signals x every instruction of the handler, a third signal afterwards, 6 answers of the shutdown "
             "descriptor, log descriptor set, unset and failing; every registration call failing",
      level_note="Real kernel delivery with the library's masks and flags in one thread; write() and _Exit() are stand-ins.",
      builds=[dict(mods=["signal"], harness="sig.c", lib=["step.c"], redef=SIGRE, san=[])])
check("C23", technique="exhaustive preemption of the real machine code: a second fatal signal delivered at every instruction "
                       "boundary of the fatal signal handler, in a process of its own",
      level="fault_enumeration",
      rule="one evaluation is one process, pair of signals and arrival instruction; distinct = distinct outcomes",
      bounds="5 fatal signals (raised and by real faults), interrupted by itself, the next one or SIGINT in turn at every instruction of the handler (thorough: all 6 at every instruction)",
      level_note="Interrupted handlers without HAVE_BACKTRACE; single crashes also with it.",
      builds=[dict(mods=["signal"], harness="sig.c", defs=["-DFATAL"], lib=["step.c"], redef=SIGRE, san=[]),
              dict(mods=["signal"], harness="sig.c", defs=["-DFATAL", "-DALONE", "-DHAVE_BACKTRACE"], lib=["step.c"],
                   redef=SIGRE, san=[], alloc=False, shards=1)])

PT = ["pthread_" + n for n in (
    "mutexattr_init mutexattr_destroy mutexattr_settype condattr_init condattr_destroy attr_init attr_destroy "
    "attr_setdetachstate attr_setstacksize mutex_init mutex_destroy mutex_lock mutex_trylock mutex_unlock cond_init "
    "cond_destroy cond_wait cond_timedwait cond_signal cond_broadcast create join detach self once").split()]
MEM = ["memcpy", "memmove", "memset", "strlen", "strncpy", "strcpy"]
SCHED = "stateless model checking of the real code: every schedule of cooperative model threads at every " \
        "synchronisation point up to a preemption bound, with happens-before race detection on every memory access"
TS = dict(repo_san=["-fsanitize=thread"], h_san=[], ld_san=[], lib=["csched.c"])
check("C24", technique=SCHED, level="exploration",
      rule="one evaluation is one program and one complete schedule; distinct = distinct outcomes (results of the waits)",
      bounds="all programs of 2 threads with up to 3 calls and 3 threads with up to 2 (5 in total, thorough 6) of signal and wait, "
             "6 preemptions (thorough 12; 3 threads: 3, thorough 4), with and without spurious wakeups; each init and term call failing",
      level_note="Sequentially consistent interleavings of the real object code over modelled pthread functions.",
      builds=[dict(mods=["cond"], harness="sync.c", defs=["-DCOND"], redef=PT + MEM, **TS)])
check("C25", technique=SCHED, level="exploration",
      rule="one evaluation is one program and one complete schedule; distinct = distinct schedule lengths per program",
      bounds="2 threads x up to 4 rounds (8 preemptions, thorough 40), 3 threads x 2 rounds (4, thorough 5; thorough also 4 threads), "
             "one, nested and alternating mutexes; each init and term call failing",
      level_note="As C24.",
      builds=[dict(mods=["mutex"], harness="sync.c", defs=["-DMUTEX"], redef=PT + MEM, **TS)])
check("C26", technique=SCHED, level="exploration",
      rule="one evaluation is one program, failing call and complete schedule; distinct = distinct programs and schedule lengths",
      bounds="all programs of up to 4 (thorough 5) start, join, term calls on 2 thread objects, 4 (6) preemptions, each pthread call failing",
      level_note="As C24; strerror() and thread creation are the C library's and a model's.",
      builds=[dict(mods=["thread"], harness="sync.c", defs=["-DTHREAD"], redef=PT + MEM, **TS)])

LOGENV = ["fopen", "fclose", "fprintf", "vfprintf", "printf", "vprintf", "fputs", "fputc", "puts", "fwrite", "fflush",
          "ftell", "ftello", "ftello64", "fseek", "fseeko", "fseeko64", "rewind", "rename", "time", "clock_gettime", "gettimeofday", "freopen", "localtime_r", "putc", "putchar",
          "setvbuf", "setbuf", "ferror", "feof", "clearerr", "flockfile", "funlockfile"]
check("C27", technique=SCHED, level="exploration",
      rule="one evaluation is one program and one complete schedule; distinct = distinct outcomes (sinks and order of the lines)",
      bounds="all programs of 2 threads with 3-4 calls and of 3 threads with one call each out of 13 (logging at 3 levels, level, stdout, "
             "file, callback, name changes), plus 2-3 threads logging 2-3 times, 3 preemptions (thorough 5), rotation after "
             "every second line; built with and without C11 atomics",
      level_note="Sequentially consistent interleavings; stdio is an in-memory model whose calls are atomic.",
      builds=[dict(mods=["log"], harness="log.c", defs=["-DCONC", "-DLOGLIMIT=110"], redef=PT + MEM + LOGENV,
                   repo_flags=["-include", "log_small.h"], **TS),
              dict(mods=["log"], harness="log.c", defs=["-DCONC", "-DLOGLIMIT=110"], redef=PT + MEM + LOGENV,
                   repo_flags=["-std=c11", "-include", "log_small.h"], **TS)])
check("C28", technique="stateless enumeration of all call histories and failing environment calls of the real code over an "
                       "in-memory file system, against a reference logger", level="fault_enumeration",
      rule="one evaluation is one history and one pattern of failures; distinct = distinct histories",
      bounds="all histories of 4 (thorough 5) out of 26 calls without and with every environment call failing, of 3 (4) with "
             "every two failing, of 7 (8) out of 6 calls about files without and with one failing, three rotation limits (one with file "
             "names in the lines), clock values; built with and without C11 atomics; the real limit of 2 MB with lines of up to 2.5 MB and files that are there before; all histories of 3 (4) out of 28 calls and of 6 (7) out of 6 on real files",
      level_note="Complete within the bounds; file contents of a run with a failing write are only checked up to that point.",
      builds=[dict(mods=["log"], harness="log.c", defs=["-DLOGLIMIT=%d" % n] + (["-DSC_LOG_PRINT_FILE_NAME"] if n == 200 else []), redef=PT + MEM + LOGENV,
                   repo_flags=["-include", "log_small.h"], **TS) for n in (40, 90, 200)] +
             [dict(mods=["log"], harness="log.c", defs=["-DLOGLIMIT=90", "-DC11"], redef=PT + MEM + LOGENV,
                   repo_flags=["-std=c11", "-include", "log_small.h"], **TS),
              dict(mods=["log"], harness="log.c", defs=["-DLOGLIMIT=90", "-DREAL"], redef=PT + MEM + LOGENV,
                   repo_flags=["-include", "log_small.h"], **TS),
              dict(mods=["log"], harness="log.c", defs=["-DLOGBIG"], redef=PT + MEM + LOGENV, **TS)])

MMENV = ["open", "open64", "openat", "openat64", "close", "stat", "stat64", "fstat", "fstat64", "ftruncate", "ftruncate64",
         "posix_fallocate", "posix_fallocate64", "mmap", "mmap64", "munmap", "msync", "mlock", "munlock", "sysconf", "getpagesize"]
check("C29", technique="stateless enumeration of all initial files, modes, ranges and failing system calls of the real code on real "
                       "files, against the documented effect", level="fault_enumeration",
      rule="one evaluation is one configuration, one further call and one pattern of failures; distinct = distinct successful configurations",
      bounds="8 file sizes x 6 open modes x 4 protections x shared/private x 4 offsets x 6 lengths x 18 further calls, every pair "
             "(thorough: triple) of system calls failing or interrupted; sparse files of 9 sizes, 6 offsets and 9 lengths around 2^31 and 2^32 bytes",
      level_note="Complete within the bounds on a real file system; msync, mlock and munlock are stand-ins that record their range.",
      builds=[dict(mods=["mmap"], harness="mmap.c", redef=MMENV)])
check("C30", technique="stateless enumeration of all histories of writes, syncs and failing syncs of the real code over a page cache "
                       "model, with all crash points and all subsets of pages written back", level="fault_enumeration",
      rule="one evaluation is one history, transitions count the crash states checked; distinct = distinct disk images after a crash",
      bounds="all histories of 4 (thorough 5) out of 10 writes and 20 sync ranges around the page boundaries of 5 mappings, one failing "
             "sync after each number of pages, every subset of the 4 pages reaching the disk at each crash; long mappings of 17, 32, 300 and 1200 pages",
      level_note="Complete within the bounds; pages are atomic, as msync() promises nothing smaller.",
      builds=[dict(mods=["mmap"], harness="mmap.c", defs=["-DCRASH"], redef=MMENV)])

check("C31", technique="stateless enumeration of all patterns of interruptions and failures of the sleep system call, and of clock "
                       "values, through the real code", level="fault_enumeration",
      rule="one evaluation is one request and one pattern of interruptions, or one clock value; distinct = distinct requests with their number of interruptions, and clock values",
      bounds="37 durations up to 2^64-1 ms, up to 5 (thorough 7) interruptions after nothing, 1 ns, half, all but 1 ns or all of the rest, a failure "
             "at each; 240 values of both clocks",
      level_note="Complete within the bounds; the system calls are stand-ins on a virtual clock.",
      builds=[dict(mods=["time"], harness="tim.c", redef=["nanosleep", "clock_nanosleep", "usleep", "clock_gettime", "gettimeofday"], san=UB)])
check("C32", technique="stateless enumeration of all call histories and failing system calls of the real code over a model of the kernel's counters",
      level="fault_enumeration",
      rule="one evaluation is one history and at most one failing call; distinct = distinct histories",
      bounds="all histories of up to 6 (thorough 7) of start, pause, end and two amounts of work, 5 forms of counter multiplexing, each system call failing",
      level_note="Complete within the bounds for the counters enabled in the header.",
      builds=[dict(mods=["perf"], harness="perf.c", redef=["syscall", "prctl", "read", "close", "ioctl", "clock_gettime", "printf", "fprintf",
                                                          "vfprintf", "puts", "fputs", "fflush", "abort"])])
POLLENV = ["epoll_create1", "epoll_create", "epoll_ctl", "epoll_wait", "epoll_pwait", "close"]
check("C33", technique=BFS, level="model_checking",
      rule="a state is the byte image of the poller, two descriptors and the model of the kernel's poller",
      bounds="all histories (fixpoint or state cap) of add and del with every event set, two data pointers and failing system calls, 7 forms of "
             "readiness, waits, interrupted and failing waits, closing and reopening, over 2 descriptors; room for 1 and 4 events; 30 numbers of descriptors up to 2100 ready at once",
      level_note="The kernel's poller is a model; the REAL build executes all histories of up to 3 (4 for one descriptor; one more in thorough) calls "
                 "against the model and the kernel's epoll side by side.",
      builds=[dict(mods=["sock"], harness="poll.c", redef=POLLENV, defs=["-DSC_SOCK_POLL_MAX_EVENTS=4"], shards=2),
              dict(mods=["sock"], harness="poll.c", redef=POLLENV, defs=["-DSC_SOCK_POLL_MAX_EVENTS=1"], shards=2),
              dict(mods=["sock"], harness="poll.c", redef=POLLENV, defs=["-DREAL", "-DSC_SOCK_POLL_MAX_EVENTS=4"], shards=2),
              dict(mods=["sock"], harness="poll.c", redef=POLLENV, defs=["-DMANY"])])
check("C34", technique=SCHED, level="exploration",
      rule="one evaluation is one program and one complete schedule; distinct = distinct programs and schedule lengths",
      bounds="12 programs of 2-3 threads (adding, handling and freeing, changing interest, failing) with 12 (3 threads: 6) preemptions, thorough two more",
      level_note="Sequentially consistent interleavings; the kernel's poller is the model of C33.",
      builds=[dict(mods=["sock"], harness="poll.c", redef=PT + MEM + POLLENV + ["vsnprintf"], defs=["-DCONC", "-DSC_SOCK_POLL_MAX_EVENTS=4"], **TS)])

SOCKENV = ["getaddrinfo", "freeaddrinfo", "socket", "setsockopt", "getsockopt", "fcntl", "fcntl64", "ioctl", "bind", "connect", "listen",
           "accept", "accept4", "close", "unlink", "getsockname", "getpeername", "send", "sendto", "recv", "recvfrom", "read", "write",
           "pipe", "pipe2", "sendmsg", "recvmsg", "readv", "writev", "getenv", "secure_getenv"]
check("C35", technique="stateless enumeration of all configurations, resolver answers and failing system calls of the real code over a "
                       "model of the kernel's sockets", level="fault_enumeration",
      rule="one evaluation is one configuration and one pattern of failures; distinct = distinct results per configuration class",
      bounds="listen and connect over up to 3 addresses of both families, every outcome per address, 4 forms of source address, Unix paths "
             "of 6 lengths, accept with 5 results, pipes, options; every two (thorough three) system calls failing; names of 39 numbers of addresses "
             "up to 304 of which all but one, or all, cannot be used; on the machine: 3 families x blocking mode x 9 situations",
      level_note="Complete within the bounds; the answers of the kernel are enumerated, not modelled.",
      builds=[dict(mods=["sock"], harness="sock.c", redef=SOCKENV), dict(mods=["sock"], harness="sockreal.c")])
check("C36", technique="stateless enumeration of all answers of the kernel to the transfer calls of the real code", level="fault_enumeration",
      rule="one evaluation is one history of calls and answers; distinct = distinct sequences of results",
      bounds="all histories of 3 (thorough 4) sends and receives of 7 lengths with 7 answers each, up to 3 interruptions in each; 4 sets of flags; single calls of 20 lengths up to 2^32-1; on "
             "the machine: all histories of 4 out of 14 calls on the two ends of Unix, IPv4 and IPv6 connections, of 4 (5) out of 12 on pipes",
      level_note="Complete within the bounds.",
      builds=[dict(mods=["sock"], harness="sock.c", redef=SOCKENV, defs=["-DXFER"]),
              dict(mods=["sock"], harness="sockreal.c", defs=["-DXFER"])])
check("C37", technique="stateless enumeration of all socket names the kernel can return, buffer sizes and failing system calls through the real code",
      level="fault_enumeration",
      rule="one evaluation is one pair of names, operation and buffer size, or one notification; distinct = distinct texts",
      bounds="4 IPv4 and 6 IPv6 addresses x 8 ports, Unix names without a name, abstract, and of 1-108 characters with and without end, 8 buffer "
             "sizes; 41 values of NOTIFY_SOCKET, every two calls failing; names of real sockets x 129 buffer sizes, 636 real notifications",
      level_note="Complete within the bounds.",
      builds=[dict(mods=["sock"], harness="sock.c", redef=SOCKENV, defs=["-DADDR"]),
              dict(mods=["sock"], harness="sockreal.c", defs=["-DADDR"])])
check("C38", technique="stateless enumeration of all sequences of phases over the real containers with a counting allocator",
      level="exploration",
      rule="one evaluation is one sequence of phases on one container; distinct = distinct (container, size, largest size)",
      bounds="11 containers (3 maps x 16 set-ups, 2 arrays, 2 queues x 2 directions, heap x 8, timer x 2, buffer x 4), all sequences of 4 "
             "(quick) or 5 (thorough) out of 10 phases of up to 150 operations; of 4 (5) phases of up to 70000; requested capacities 2^24..2^28, growth to 2^26",
      level_note="Complete within the bounds; the limits leave room for other growth factors (twice what doubling needs).",
      builds=[dict(mods=["map", "array", "queue", "heap", "timer", "buf"], harness="grow.c", h_redef=ALLOC)])
UNSAFE = ("strtok rand srand random srandom drand48 lrand48 mrand48 gethostbyname gethostbyaddr getservbyname inet_ntoa "
          "localtime gmtime asctime ctime setlocale tmpnam setenv putenv unsetenv chdir umask ecvt fcvt l64a hsearch "
          "hcreate sigprocmask alarm setrlimit").split()
WRITERS = ["vsnprintf", "snprintf", "vsprintf", "sprintf", "strcat", "strncat", "stpcpy", "read", "recv", "fgets", "strerror_r", "mmap",
           "inet_ntop", "inet_pton", "getsockname", "getpeername", "getsockopt", "accept", "pipe", "clock_gettime", "localtime_r",
           "gmtime_r", "epoll_wait"]
check("C39", technique=SCHED, level="exploration",
      rule="one evaluation is one pair of threads with their calls and one complete schedule; distinct = distinct pairs and variants",
      bounds="all pairs of 39 scripts of up to 25 calls (every container type, strings, texts, numbers, synchronisation objects, files, "
             "sockets, poller) x same or different data; preemption between any two calls and at every synchronisation, 1 preemption "
             "(2 within a module, 3 for two users of the same calls), thorough one more",
      level_note="Within calls the race detector shows that no memory is shared, so that other interleavings change nothing; C library functions "
                 "with hidden or process wide state are reported by name.",
      builds=[dict(mods=["map", "array", "queue", "list", "heap", "timer", "buf", "str", "uri", "ini", "option", "sc", "crc32", "mmap",
                         "time", "signal", "cond", "mutex", "thread", "sock"], harness="indep.c", extra=["indep_ops.c"],
                   x_inst=["indep_ops.c"], redef=PT + MEM + WRITERS + UNSAFE, opt="-O0", **TS)])
check("C40", technique="stateless enumeration of all histories of calls of every allocating module, each allocation failing, over real code "
                       "compiled with a config.h that gives every module an allocator of its own", level="exploration",
      rule="one evaluation is one complete history with one allocation (or it and all later ones) failing; distinct = distinct (module, "
           "failing allocation, last call, number of allocations)",
      bounds="strings, URIs, arrays, queues, 14 map types, heap, timer, buffers, poller, sockets and pipes: all histories of up to 4-5 (thorough 5-6) "
             "calls out of 8-22 kinds, formatting failures, including failing creations and re-creation, and each of the first 2-8 allocations failing",
      level_note="Complete within the bounds. Memory the C library allocates for itself (getaddrinfo) is not part of it.",
      builds=[dict(mods=["str", "uri", "array", "queue", "map", "heap", "timer", "buf", "sock"], harness="owner.c", alloc=False,
                   defs=["-DSC_HAVE_CONFIG_H", "-I" + os.path.dirname(os.path.abspath(__file__)) + "/harness/conf"],
                   redef=["epoll_create", "epoll_create1", "vsnprintf", "snprintf"],
                   bad="malloc calloc realloc free strdup strndup asprintf vasprintf getline getdelim aligned_alloc posix_memalign "
                       "memalign valloc reallocarray open_memstream __strdup __strndup mmap mmap64 sbrk".split())])
