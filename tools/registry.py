"""Which explorations decide which property."""


def R(harness, variant, srcs=None, **kw):
    d = dict(harness=harness, variant=variant, srcs=srcs or [harness + ".cpp"])
    d.update(kw)
    return d


CHECKS = {}


def check(pid, runs, level, technique, bounds, rule, note, assumptions=()):
    CHECKS[pid] = dict(runs=runs, level=level, technique=technique, bounds=bounds, rule=rule, note=note,
                       assumptions=list(assumptions))


check("C01",
      [R("num", "rel"), R("num", "alt"), R("num", "nocell")],
      "model_checking",
      "Exhaustive enumeration of every scalar numeric opcode over a boundary-complete operand alphabet, executed in the "
      "real interpreter and compared with a spec-derived bit-level reference",
      "all 136 opcodes x all operand tuples over 66-230 boundary values per type (all pairs); operands from locals, "
      "from immediates and in constant expressions; three build configurations",
      "non-trivial: distinct (opcode, result class) outcomes, including each trap kind and NaN class",
      "Exhaustive over opcodes and the operand alphabet, not over all 2^64 operand pairs.")

check("C02",
      [R("simd", "rel"), R("simd", "alt"), R("simd", "nocell"), R("simd", "asan")],
      "model_checking",
      "Exhaustive enumeration of every SIMD opcode, immediate and lane position over lane alphabets (all 65536 pairs for "
      "8-bit lanes), executed in the real interpreter and compared with a lane-wise spec reference",
      "all 236 SIMD opcodes; binary lane ops over all pairs of the lane alphabet in every lane; all lane immediates; all "
      "swizzle/shuffle selectors per position; memory forms at all addresses around both ends x 15 offsets x alignments x 2 memories",
      "distinct (opcode, result) outcomes",
      "Exhaustive over opcodes, lanes and the lane alphabets; 32/64-bit lanes use boundary alphabets, not all values.")

check("C05",
      [R("valid", "rel"), R("seq", "rel", args=["--check", "valid"]), R("valid", "asan", quick_args=["--stack", "2"]), R("valid", "alt"),
       R("scale", "rel", args=["--part", "funcs,decl,names"])],
      "model_checking",
      "Exhaustive enumeration of instruction sequences, operand stacks, immediates and module-level structures; every module "
      "is given to the real loader and the verdict compared with an independent implementation of the specification's "
      "validation algorithm",
      "all sequences up to 4-8 tokens over 8 alphabets (prefix-pruned), every opcode x every operand stack of length 0..3 over 7 "
      "types x result type x polymorphic base, all immediates/indices at their bounds, all constant expressions up to 3 tokens, "
      "14 families of module-level rules; every count of functions, types and declared references up to 70 (300) and 2^k, 2^k +- 1 up to 17,000 (70,000)",
      "distinct validator verdict messages; both accepted and rejected modules in every family",
      "Exhaustive within the token alphabets and lengths; larger bodies are not enumerated.")

check("C06",
      [R("seq", "rel", args=["--check", "exec", "--set", "noeh"]), R("flow", "rel"), R("flow", "alt"), R("flow", "nocell"),
       R("flow", "asan"), R("xflow", "rel"), R("xflow", "alt"), R("seq", "alt", args=["--check", "exec", "--set", "noeh"]),
       R("seq", "nocell", args=["--check", "exec", "--set", "noeh"]),
       R("seq", "asan", args=["--check", "exec", "--set", "noeh", "--len", "-1"]),
       R("scale", "rel", args=["--part", "control,funcs"]),
       R("scale", "alt", args=["--part", "control,funcs"]),
       R("scale", "nocell", args=["--part", "control,funcs", "--noeh", "1"]),
       R("scale", "asan", args=["--part", "control,funcs", "--cap", "600"])],
      "model_checking",
      "Exhaustive enumeration of programs (all instruction sequences up to a length; all value-type lists x junk x branch and "
      "call shapes), each run in the real interpreter under several load options and build configurations and compared "
      "with a reference interpreter on results, traps, globals and host calls",
      "all valid token sequences up to 4-8 tokens over 6 alphabets; 156 value lists x 13 junk lists x 14 branch shapes; "
      "156 x 31 call signatures x 6 call forms; 156 x 156 tail calls; 12 x 12 block shapes x 81 paddings x 3 call forms over 2-3 "
      "linked modules with coinciding addresses; 2-8 load-option sets; 4 build configurations; every number of locals, parameters, values, nested and sequential blocks, br_table entries, frames, functions and types up to 70 (300), and 2^k, 2^k +- 1 up to 1,030-70,000, and code of up to 1 (5) MB",
      "distinct (results, trap, trace) outcomes",
      "Exhaustive within the stated program shapes and lengths.")

check("C03",
      [R("opseq", "rel", args=["--set", "mem", "--large", "1"]), R("opseq", "alt", args=["--set", "mem"]),
       R("opseq", "nocell", args=["--set", "mem"], tiers=["thorough"]), R("opseq", "asan", args=["--set", "mem", "--large", "2"]),
       R("scale", "rel", args=["--part", "mems"]),
       R("scale", "alt", args=["--part", "mems"]),
       R("scale", "asan", args=["--part", "mems", "--cap", "600"])],
      "model_checking",
      "Exhaustive enumeration of operation sequences (grow, size, fill, copy, init, drop, load, store) with boundary "
      "arguments on fresh instances of seven memory configurations, executed in the real interpreter and compared step by "
      "step and in full final state with a byte-array model; plus every load/store opcode at every boundary address",
      "all sequences of up to 3 (quick) or 4 (thorough) operations over 57-61 operation instances per configuration; 23 access "
      "opcodes x offsets x alignments x ~60 addresses x 3 allocation histories; the full 4 GiB address space for 4 memories; up to 260 memories, 17,000 data segments and 2,000 pages, every count up to 70 and around powers of two",
      "distinct (results, traps) histories",
      "Exhaustive within the operation alphabet and depth.")

check("C04",
      [R("opseq", "rel", args=["--set", "tab"]), R("opseq", "alt", args=["--set", "tab"]), R("opseq", "nocell", args=["--set", "tab"]),
       R("opseq", "asan", args=["--set", "tab"]),
       R("scale", "rel", args=["--part", "tables,funcs"]),
       R("scale", "alt", args=["--part", "tables"]),
       R("scale", "asan", args=["--part", "tables", "--cap", "600"])],
      "model_checking",
      "Exhaustive enumeration of operation sequences on tables, element segments, reference globals, select and "
      "call_indirect, executed in the real interpreter and compared step by step and in full final state with an array model",
      "all sequences of up to 3 (quick) or 4 (thorough) operations over 51-91 operation instances in three table "
      "configurations; globals of all 7 types and both selects to depth 2-3; up to 1,030 tables and element segments, 17,000 globals and functions, 140,000 entries, every count up to 70 and around powers of two",
      "distinct (results, traps) histories",
      "Exhaustive within the operation alphabet and depth.")

check("C07",
      [R("seq", "rel", args=["--check", "exec", "--set", "eh"]), R("ehx", "rel"), R("ehx", "alt"), R("ehx", "asan"),
       R("seq", "alt", args=["--check", "exec", "--set", "eh"]),
       R("seq", "asan", args=["--check", "exec", "--set", "eh", "--len", "-1"]),
       R("scale", "rel", args=["--part", "tags"]),
       R("scale", "alt", args=["--part", "tags"]),
       R("scale", "asan", args=["--part", "tags", "--cap", "600"])],
      "model_checking",
      "Exhaustive enumeration of exception programs (all instruction sequences over throw/try_table/throw_ref alphabets; all "
      "clause lists x throw sites x handler actions x payload types over two linked modules), executed in the real "
      "interpreter and compared with a reference interpreter",
      "all valid token sequences up to 6-7 tokens; 157 inner x 13 outer clause lists (2041/157 thorough) x 43 throw actions x "
      "3 handler actions x 7 payload shapes across two instances; 3 build configurations; up to 1,030 tags and clauses, every count up to 70 and around powers of two",
      "distinct outcomes per module",
      "Exhaustive within the stated program shapes.")

HOSTC = ("common/tw.c", "common/hostc.c")
check("C22",
      [R("hostcall", "rel", csrcs=HOSTC), R("hostcall", "alt", csrcs=HOSTC), R("hostcall", "nocell", csrcs=HOSTC, args=["--noeh", "1"]),
       R("hostcall", "asan", csrcs=HOSTC)],
      "model_checking",
      "Exhaustive enumeration of host-function signatures, call forms and host behaviours (return, restart, trap, errno, tail call, "
      "callbacks into wasm and host functions, nested), each executed in the real interpreter through the public host-function API "
      "and compared with the values sent and the required invocation history",
      "all signatures with up to 2 parameters x 2 results and 3 x 1 / 1 x 3 over 7 value types (3 x 2 thorough) x 7 call forms x 6 host behaviours x 3 "
      "value patterns; callbacks: 8^4 signature pairs x 7 callee kinds x 6 behaviours x 7 call forms; 20-value lists; exnref; start "
      "functions; several host modules; malformed type strings; 4 build configurations",
      "distinct (result values, outcome) pairs",
      "Exhaustive within the stated signatures, forms and behaviours.")

check("C23",
      [R("cli", "cli", cli=True), R("cli", "cli-asan", cli=True, args=["--depth", "3"])],
      "model_checking",
      "Exhaustive enumeration of REPL command sequences against a reference model of the module list, registrations and global state, "
      "and of argument lists, export names, options and programs on the command line; every case runs the real toywasm executable and "
      "its output, exit status and saved files are compared with the model",
      "all sequences of 34 REPL commands up to depth 4 (5 thorough; 3 with AddressSanitizer), with and without dummy functions for unresolved "
      "imports; of 7 commands about registrations up to depth 6 (8 thorough); and all of depth 2 (3 thorough) in processes of their own under 3 option sets; all parameter lists of up to 3 values over 7 types "
      "and lists of 8, 40 and 300 values, with valid and invalid texts; all sequences of 4 options (5 thorough) out of 10; all 256 exit codes; argument, environment and directory lists; limits (also in start functions), timeouts, trap messages; output to a pipe which does not block",
      "distinct expected outputs",
      "Exhaustive within the stated commands, texts and options; not judged: saving over a file that is loaded, reuse of a module name, "
      "an import which only an earlier registration of the same name provides, octal forms of numbers.")

check("C08",
      [R("seq", "rel", args=["--check", "exec", "--set", "all", "--intr", "1", "--len", "-1"]),
       R("flow", "rel", args=["--intr", "1"]), R("ehx", "rel", args=["--intr", "1"]), R("xflow", "rel", args=["--intr", "1"]),
       R("hostcall", "rel", csrcs=HOSTC, args=["--intr", "1"]),
       R("flow", "alt", args=["--intr", "1"], tiers=["thorough"]), R("xflow", "alt", args=["--intr", "1"]),
       R("hostcall", "alt", csrcs=HOSTC, args=["--intr", "1"]), R("ehx", "alt", args=["--intr", "1"], tiers=["thorough"]),
       R("xflow", "asan", args=["--intr", "1"]), R("hostcall", "asan", csrcs=HOSTC, args=["--intr", "1"])],
      "model_checking",
      "Enumeration of interruption points: programs from the control-flow, exception, cross-module and host-call enumerations are run "
      "with a user interrupt at every check point in turn and periodically, then continued (or abandoned), and compared with an "
      "uninterrupted reference",
      "every program of the C06/C07/C22 enumerations (reduced depth) x interrupts every 2nd/3rd check and single interrupts at the first "
      "2-5 checks (up to 12 in thorough), and abandonment at each; non-terminating loops, tail recursion and host callback loops",
      "distinct outcomes under interruption",
      "Exhaustive over interruption points of the stated programs; one or periodic interrupts, not all subsets.")

WASIC = ("common/tw.c", "common/wasic.c")
WRAPCLOSE = ["-Wl,--wrap=close", "-Wl,--wrap=closedir"]
OOMC = WASIC + ("common/dyldc.c",)
WRAPOOM = ["-Wl,--wrap=" + f for f in "xlog_error malloc calloc realloc strdup strndup asprintf vasprintf fopen fdopendir".split()]
DYLDC = ("common/tw.c", "common/dyldc.c")
WRAPDYLD = ["-Wl,--wrap=open", "-Wl,--wrap=xlog_error"]
THRC = ("common/tw.c", "common/threadsc.c")
WRAPMS = ["-Wl,--wrap=" + f for f in (
    "xlog_error malloc calloc realloc free clock_gettime nanosleep poll __assert_fail sched_yield "
    "pthread_mutex_init pthread_mutex_destroy pthread_mutex_lock pthread_mutex_trylock pthread_mutex_unlock "
    "pthread_cond_init pthread_cond_destroy pthread_cond_wait pthread_cond_timedwait pthread_cond_signal "
    "pthread_cond_broadcast pthread_create pthread_detach pthread_join pthread_self").split()]

check("C21",
      [R("dyld", "asan", csrcs=DYLDC, ldflags=WRAPDYLD),
       R("dyld", "rel", csrcs=DYLDC, ldflags=WRAPDYLD, tiers=["thorough"])],
      "model_checking",
      "Exhaustive enumeration of small sets of dynamically linked modules, loaded and run by the real linker; the modules report what "
      "they see, and a model of load order, symbol resolution and initialisation decides what that has to be. Sequences of libraries "
      "opened while running, interleaved with growth of the memory and table, are enumerated the same way",
      "main (PIE and not) and up to 3 libraries: all dependency lists of up to 2 (main 3) including cycles and self-dependencies; all "
      "definitions (4 forms of a function, 5 of a datum) in 3 modules by users, weakness and binding time; sizes and alignments "
      "including impossible ones; 13 kinds of unusable library at each place; all library names of up to 5 characters over {a . / NUL}; "
      "all sequences of up to 3 of 11 operations at run time; calls by 8 forms over all signatures of up to 2 parameters and results",
      "distinct module sets or call sequences",
      "Exhaustive within the bounds. After a library fails to load at run time, libraries it had brought in are not judged "
      "(the linker documents that it does not clean up).")

check("C11",
      [R("oom", "asan", csrcs=OOMC, ldflags=WRAPOOM, defs=("-DVERIF_OOM",)),
       R("oom", "rel", csrcs=OOMC, ldflags=WRAPOOM, defs=("-DVERIF_OOM",), tiers=["thorough"]),
       R("thrmem", "sched", csrcs=THRC, ldflags=WRAPMS)],
      "model_checking",
      "Exhaustive fault enumeration on the real code: every allocation of a scenario is refused in turn (alone, or from then on "
      "including during tear-down), and every heap limit at which an allocation of an undisturbed run could fail is set on every "
      "memory context and their parent; each step has to report the lack of memory or give the undisturbed result, and repeated with "
      "memory available the run has to continue as the undisturbed one did. Accounting shared by threads: stateless exploration of "
      "schedules of the real accounting code under a controlled scheduler",
      "17 scenarios of up to 40 steps: loading (valid, truncated and damaged modules), linking, initialising, executing (recursion, "
      "growth, tables, exceptions, waits, traps, interrupts), writing modules, WASI set-up and 50 WASI calls; 7 memory contexts; "
      "threads: pairs and triples of threads on 2 contexts with a parent under 9 sets of limits, up to 3 deviations",
      "distinct (scenario, fault) runs",
      "Exhaustive over single refusals, persistent refusals and limits within the scenarios. Kernel resources other than memory "
      "are not refused.")

check("C12",
      [R("limits", "rel", csrcs=HOSTC), R("limits", "alt", csrcs=HOSTC, args=["--localsonstack", "1"]),
       R("limits", "nocell", csrcs=HOSTC, args=["--nocell", "1", "--noeh", "1"]), R("limits", "asan", csrcs=HOSTC)],
      "model_checking",
      "Exhaustive exploration of limits: recursive programs of every small shape (parameter, local and operand lists over all types; direct, "
      "indirect, cross-instance, in-try and tail-call-forwarded recursion) are run under every frame limit and every cell limit around the "
      "exact threshold of a resource model; loops that must run in constant space are run under their exact limit; all growth sequences",
      "depth 0..4, lists of up to 3 values (up to 5 in total in thorough), all limits from 1 to 3 above the threshold, with and without "
      "interruption; 10 constant-space loop forms x all parameter list pairs x up to 40 rounds; growth sequences of length 3 (4) over 10 deltas "
      "for 7 kinds of memories and tables with every min/max up to 5/7; runaway recursion under a sweep of heap limits; 10 oversized locals lists",
      "distinct (shape threshold, growth history) outcomes",
      "Exact within the bounds for the default, locals-on-stack and fixed-cell configurations; limits far above the thresholds are not enumerated.",
      ["Separate-locals configurations do not count locals against the cell limit (they are bounded by the heap limit)"])

check("C09",
      [R("binload", "rel"), R("binload", "asan", quick_args=["--pairs", "0", "--four", "0"]), R("binload", "alt", quick_args=["--pairs", "0"]),
       R("scale", "rel", args=["--part", "names"])],
      "model_checking",
      "Exhaustive enumeration of malformed binaries: every truncation, byte replacement, insertion and deletion, integer re-encoding, section "
      "subset / move / duplication / insertion, range overwrite and copy, pair of byte replacements and short arbitrary section contents, each "
      "judged by an independent decoder and validator; plus debug-name lookups in every accepted module with a name section",
      "24 base modules using every section and immediate kind; all 256 values per byte, pairs over 10 (27) values, integers in 1..7 bytes over 29 "
      "values x 6 unused-bit patterns with enclosing sizes fixed up, section contents of up to 2 (3) arbitrary bytes and up to 4 (5) bytes from 22 values; up to 5,000 names, every count up to 70 and around powers of two",
      "distinct (verdict, reason, message) outcomes",
      "Exhaustive within the stated edits of the base modules; binaries further away are not enumerated.",
      ["Encodings the specification leaves to implementations (over-long negative block types, malformed dylink.0) are only checked for safety"])

check("C10",
      [R("link", "rel"), R("link", "asan"), R("link", "alt", tiers=["thorough"]),
       R("scale", "rel", args=["--part", "link"]),
       R("scale", "asan", args=["--part", "link"])],
      "model_checking",
      "Exhaustive enumeration of (provided external, required import type) pairs, export/import name pairs, import lists, "
      "constant expressions and instantiation histories (segments x start function x failure point x private or imported "
      "objects), each executed in the real library and compared with a reference implementation of instantiation on "
      "outcome, every object reachable afterwards, and later calls",
      "240 external types of all five kinds x 240 required types x 6 ways of providing (direct, grown by 1 or 2, re-exported "
      "through a weaker or exact import, host function); 13 x 13 names x 25 module names; 0-2 of 11 element and 0-2 of 10 data "
      "segments x 9 start functions x private/imported; import lists up to 4 over 10 externals; constant expressions up to "
      "5 instructions; up to 520 exports and imports of each of three kinds, every count up to 70 and around powers of two",
      "distinct (pair, linked) and (initialisation outcome, later call results) outcomes",
      "Exhaustive within the alphabets. Maximum 0xffffffff and several identical providers of one name are left out.")

check("C20",
      [R("writer", "rel"), R("writer", "asan"), R("writer", "alt", tiers=["thorough"]),
       R("scale", "rel", args=["--part", "all", "--write", "1"])],
      "model_checking",
      "Exhaustive enumeration of module shapes per section (all segment forms and pairs of them, all import/export kinds, all "
      "subsets of sections, all LEB128 size boundaries) written by the real writer and compared, through an independent decoder, "
      "with what was loaded; enumeration of every file-size limit as the point at which writing fails",
      "16,000 modules in 16 families, each written, decoded, loaded and written again; 16,000 write-failure points (every byte "
      "offset of a 13 KB output) and failing paths; 4,900 modules with many of everything written, loaded and run again",
      "distinct written files and (failure point, reported) outcomes",
      "Exhaustive within the families; bodies are copied verbatim by design, so only their sizes are enumerated.")

check("C16",
      [R("wasifd", "rel", csrcs=WASIC, ldflags=WRAPCLOSE, quick_args=["--depth", "3", "--full", "1"], thorough_args=["--depth", "4"]),
       R("wasifd", "asan", csrcs=WASIC, ldflags=WRAPCLOSE, quick_args=["--depth", "3"], thorough_args=["--depth", "3", "--full", "1"]),
       R("thrfd", "sched", csrcs=THRC + ("common/wasic.c",), ldflags=WRAPMS + WRAPCLOSE)],
      "model_checking",
      "Exhaustive exploration of operation sequences on the real descriptor table against a model table, with the identity, offset "
      "and flags of every descriptor probed after every operation and the host descriptors of the process watched (every close is "
      "intercepted and its number occupied, so that a double release shows); concurrently: stateless exploration of thread schedules "
      "of the real table under a controlled scheduler, each outcome compared with those an atomic table can produce",
      "all sequences of 3 (thorough: 4) over 41 (full: 49) operations: open file/directory, failing open, accept, close, renumber "
      "(including to itself, to closed and out-of-range numbers), listing, adding host descriptors, and calling every function on a "
      "closed descriptor; 15 descriptor numbers probed after each. Concurrent: close, renumber, read, open, stat and directory "
      "listing on shared numbers, all pairs of operations with up to 3 deviations from the default schedule, all triples and "
      "one-against-two with 2, two-against-two with 1 (thorough: one more each)",
      "distinct table states reached",
      "Exhaustive for sequential histories within the depth and concurrent ones within the deviation bound.")

check("C17",
      [R("wasifs", "rel", csrcs=WASIC, args=["--part", "flags"]), R("wasifs", "rel", csrcs=WASIC, args=["--part", "fd"]),
       R("wasifs", "rel", csrcs=WASIC, args=["--part", "dir"]),
       R("wasifs", "rel", csrcs=WASIC, args=["--part", "seq"], quick_args=["--depth", "3"], thorough_args=["--depth", "4"]),
       R("wasifs", "asan", csrcs=WASIC, args=["--part", "flags"]), R("wasifs", "asan", csrcs=WASIC, args=["--part", "fd"]),
       R("wasifs", "asan", csrcs=WASIC, args=["--part", "dir"]),
       R("wasifs", "asan", csrcs=WASIC, args=["--part", "seq", "--depth", "3"], tiers=["thorough"])],
      "model_checking",
      "Exhaustive enumeration of WASI file operations and of operation sequences, executed by a guest on one directory tree through "
      "the real implementation and mirrored by an independent reference making the corresponding POSIX calls on a second tree; errors, "
      "values and complete tree snapshots are compared after every history",
      "path_open: 42 paths x 16 open flags x 4 rights x 4 descriptor flags x 2 lookup flags, each probed by 7 calls; every path "
      "operation x 44 paths x 5 directory descriptors; all pairs of paths for link and rename; descriptor operations over 87 vector "
      "shapes, 9 offsets, 6 whence values, 33 flag values, 8 ways of opening; listings with every buffer size and cookie; all "
      "sequences of 3 (thorough: 4) over 34 operations",
      "executed operations and distinct trees",
      "Exhaustive within the alphabets. Synchronised-I/O flags have no observable effect and are not judged; descriptors of renamed "
      "directories are left out (see DESIGN.md).")

check("C18",
      [R("wasiptr", "asan", csrcs=WASIC, args=["--giant", "1"], thorough_args=["--alphabet", "full"]),
       R("wasiptr", "rel", csrcs=WASIC, args=["--alphabet", "full"], tiers=["thorough"])],
      "model_checking",
      "Exhaustive enumeration of pointer, length and count arguments: every WASI function taking a pointer (both interfaces) is run "
      "with each of its pointers, and each pair of them, over a boundary alphabet, in memories of different sizes and allocation "
      "states; the call has to fail when a designated range is outside or misaligned, to behave as at the canonical placement when "
      "all are inside, and to change nothing but its outputs (complete memory comparison, under AddressSanitizer)",
      "578 calls (functions x ABI x length/count/vector variants) x 7 memories (written, untouched, grown, empty, three pages, "
      "shared) x every pointer over about 25 addresses and every pair over 9 x 9 (thorough: 25 x 25); path lengths of 2^32-1 in a "
      "memory of 65536 pages",
      "calls, by what they are required to do",
      "Exhaustive within the alphabets; lengths, counts and vector contents are varied in the call variants.")

WRAPTIME = ["-Wl,--wrap=clock_gettime", "-Wl,--wrap=clock_getres", "-Wl,--wrap=poll", "-Wl,--wrap=ppoll", "-Wl,--wrap=getrandom"]
check("C19",
      [R("wasimisc", "rel", csrcs=WASIC, ldflags=WRAPTIME, args=["--part", "lists", "--depth", "4"], thorough_args=["--depth", "5"]),
       R("wasimisc", "rel", csrcs=WASIC, ldflags=WRAPTIME, args=["--part", "poll", "--depth", "3"]),
       R("wasimisc", "rel", csrcs=WASIC, ldflags=WRAPTIME, args=["--part", "block"]),
       R("wasimisc", "rel", csrcs=WASIC, ldflags=WRAPTIME, args=["--part", "sock"], quick_args=["--depth", "4"], thorough_args=["--depth", "5"]),
       R("wasimisc", "asan", csrcs=WASIC, ldflags=WRAPTIME, args=["--part", "lists", "--depth", "3"]),
       R("wasimisc", "asan", csrcs=WASIC, ldflags=WRAPTIME, args=["--part", "poll", "--depth", "3"]),
       R("wasimisc", "asan", csrcs=WASIC, ldflags=WRAPTIME, args=["--part", "block"]),
       R("wasimisc", "asan", csrcs=WASIC, ldflags=WRAPTIME, args=["--part", "sock"], quick_args=["--depth", "3"], thorough_args=["--depth", "4"])],
      "model_checking",
      "Exhaustive exploration of calls, lists and operation sequences on the real implementation. Clocks and poll are replaced by a "
      "virtual clock, so that all combinations of timeouts, instants at which descriptors become ready, clock granularity and "
      "interruption points are explored and judged to the nanosecond; sockets are compared with the host's own calls on a second pair; "
      "the random source is scripted",
      "all argument, environment and preopen lists of up to 4 (thorough: 5) entries over 8 strings; 4 clocks x 42 values and unknown "
      "ids; random sources with up to 3 interruptions or short counts; all lists of up to 3 subscriptions over 31 kinds (descriptor "
      "states, 18 clock settings, invalid ones) x 5 readiness instants x 2 granularities x up to 4 interruption points; 6 blocking "
      "operations x 5 instants x 12 interruption points x up to 4 interruptions, continued or abandoned; all sequences of 4 "
      "(thorough: 5) over 23 socket operations on stream and datagram pairs; 11 exit codes",
      "distinct inputs and observed results",
      "Exhaustive within the alphabets. Timeouts of more than 24 days are rejected by the implementation and not judged.")

# ---------------------------------------------------------------- threads
check("C13",
      [R("thrgrow", "sched", csrcs=THRC, ldflags=WRAPMS),
       R("thrgrow", "sched-prealloc", csrcs=THRC, ldflags=WRAPMS, args=["--bound", "2"])],
      "model_checking",
      "Stateless exploration of the real interpreter's threads under a controlled scheduler: the library is compiled with race detector "
      "instrumentation that is served by the harness's own runtime, all synchronisation, time and heap calls are replaced, and every "
      "schedule with a bounded number of deviations (running another thread, a timeout, a spurious wakeup) from a fair default schedule "
      "is executed. Each outcome must be one of those of some sequential order of the operations; data races, deadlocks, endless "
      "executions, assertions, use after free and leaks are violations as well",
      "all pairs of programs with up to 2 operations (3 operations in total in the quick tier) out of 10 (growth by different amounts, "
      "growth followed by use of the new pages, size, probe of the first byte beyond, private writes, atomic counter, wait, notify), all "
      "triples of single operations, 2 or 3 threads terminated at any time while growing, looping or waiting, growth during waits; "
      "1-byte and 64 KiB pages; at most 3 deviations with two threads and 2 with three (thorough: 4 and 3); on-demand and preallocated "
      "shared memories",
      "outcomes (final size, all results) per scenario",
      "Exhaustive within the deviation bound. Switches happen at lock operations, waits, thread starts and atomic accesses to locations "
      "that more than one thread uses; plain accesses in between are covered by the race detector.")
check("C14",
      [R("atomics", "rel"), R("atomics", "alt"), R("atomics", "asan"),
       R("thratom", "sched", csrcs=THRC, ldflags=WRAPMS, args=["--part", "ops"]),
       R("thratom", "sched", csrcs=THRC, ldflags=WRAPMS, args=["--part", "wait"]),
       R("thratom", "sched", csrcs=THRC, ldflags=WRAPMS, args=["--part", "intr"])],
      "model_checking",
      "Exhaustive enumeration of every atomic instruction over boundary operands, memory contents, addresses and offsets against a "
      "reference, and stateless exploration of threads under a controlled scheduler (see C13): each outcome of each schedule must be "
      "one that a sequential model of atomic instructions, waiter queues and timeouts can produce, including which waits never end; "
      "time is virtual",
      "63 instructions x 5 memories (shared, unshared, several memories, 1-byte pages) x 9 contents x 32 operands and 28 offsets x 40 "
      "addresses; all pairs of instructions on overlapping bytes, two instructions in each of two threads, triples, at most 2 "
      "deviations (thorough: 3); waits (both widths, two addresses, two memories, several timeouts), notifies (0, 1, 2, 3, all), stores "
      "and growth: all pairs and triples, two operations against one, up to 4 threads, at most 2 deviations (thorough: 3); single "
      "waits with up to 3 interruptions at 5 points lasting 7 different times",
      "outcomes (final memory, all results, waits that never end) per scenario",
      "Exhaustive within the deviation bound and the alphabets.")
check("C15",
      [R("thrwasi", "sched", csrcs=THRC, ldflags=WRAPMS)],
      "model_checking",
      "Stateless exploration of real wasi-threads programs under a controlled scheduler (see C13), with failing thread creation and "
      "failing allocations. A log written by the guest through a host function says what each thread did; the log, the reported status, "
      "the exit code, heap accounting and the scheduler's own view (deadlock, endless execution, data race, use after free, leak) are "
      "checked after each execution",
      "all programs of a main thread (return, trap, exit, thread exit, loop or wait, after optional growth and joins) with one or two "
      "children out of 9 and 6 kinds spawned by the main thread or by each other, with both spawn interfaces, three children of 6 "
      "kinds each, ends that are ordered by the host; at most 2 deviations with one child and 1 with more (thorough: 3 and 2); creation "
      "of each thread failing, each allocation between start and end failing; 200 failing and 9 successive successful spawns",
      "reported statuses, exit codes and per-thread progress",
      "Exhaustive within the deviation bound.")
