#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (run by hand; no check runs it)."""
import json, os

P = []


def prop(id, title, statement, over, qtext, why, files, mech, state=None,
         observe=None, hook=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "mechanism": [{"name": n, "where": w} for n, w in mech],
            "state": [{"name": n, "meaning": m, "where": w}
                      for n, m, w in (state or [])],
            "observe_at": observe or [],
            "hook_needed": hook,
        },
    })


prop("C01", "Scalar numeric instructions compute exactly what the WebAssembly spec says",
     "Every scalar integer, floating-point, comparison, sign-extension, conversion and saturating-truncation instruction, executed on any operand values, yields the result the WebAssembly specification defines (for NaN results, one of the NaNs it allows). The instructions that can trap (integer division and remainder, non-saturating float-to-int truncation) trap exactly on the operands the specification lists, with the matching trap kind. Reinterpretation and constants preserve every bit, and the same operators used in constant initialiser expressions give the same results.",
     ["inputs"], "all operand tuples of every scalar instruction",
     "The spec test suite is not part of the runnable tests; wasm programs in the tests use a narrow range of operands and no NaN, overflow or boundary operand of most instructions.",
     ["lib/insn_impl_base.h", "lib/insn_impl_fc.h", "lib/insn_op.h", "lib/insn_op_helpers.h", "lib/insn_macros.h"],
     [("operator definitions", "lib/insn_op.h"), ("operator helpers (rounding, min/max, truncation)", "lib/insn_op_helpers.h"),
      ("trapping conversion and division checks", "lib/insn_macros.h")],
     observe=["results and trap kind of a call of an exported function"])

prop("C02", "SIMD instructions compute exactly what the WebAssembly spec says",
     "Every 128-bit SIMD instruction (lane-wise arithmetic, saturating, widening, narrowing, comparison, shuffle/swizzle, shift, bitwise, conversion, splat, extract/replace lane, and the v128 load/store/splat/lane variants) produces, on any operand vectors and immediates, the bits the specification defines for every lane. Memory-accessing variants read or write exactly the specified bytes and trap, without any effect, when any of those bytes is out of bounds.",
     ["inputs"], "all operand vectors, lane indices and addresses of every SIMD instruction",
     "No test in the runnable suite executes SIMD instructions systematically; there are 236 of them and an error in one lane or one boundary value is invisible to any sampled program.",
     ["lib/insn_impl_simd.h", "lib/insn_list_simd.h", "lib/insn_op_helpers.h", "lib/endian.c"],
     [("SIMD instruction definitions", "lib/insn_impl_simd.h"), ("opcode table", "lib/insn_list_simd.h")],
     observe=["results, memory contents and trap kind of a call of an exported function"])

prop("C03", "Linear memory behaves as a bounds-checked little-endian byte array",
     "Any sequence of loads, stores, memory.size/grow/fill/copy/init and data.drop on any number of memories behaves as the same operations on a plain little-endian byte array of the current size: new pages read as zero, and effective addresses are computed without wrap-around. An access or bulk operation that touches any byte outside the current size traps with no byte changed, and growth beyond the declared or implementation limit returns -1 and changes nothing.",
     ["inputs", "histories", "configurations"], "all operation sequences up to a bound over boundary addresses, offsets, lengths, page sizes and memory indices",
     "Bugs sit at page boundaries, at addr+offset wrap-around, in lazily allocated pages and in overlapping copies; only a history that grows, drops or copies across such a boundary shows them.",
     ["lib/instance.c", "lib/exec_insn_subr.c", "lib/insn_macros.h", "lib/insn_impl_base.h", "lib/insn_impl_fc.h"],
     [("effective address and bounds check", "lib/exec_insn_subr.c memory_getptr*"), ("lazy sub-page allocation", "lib/instance.c memory_instance_getptr2"),
      ("growth", "lib/exec_insn_subr.c memory_grow"), ("bulk operations", "lib/insn_impl_fc.h")],
     [("size_in_pages / allocated", "logical and physically allocated size", "lib/type.h struct meminst")],
     ["load results, traps, memory.size and the bytes of memory"])

prop("C04", "Tables, references, globals and element segments follow the spec",
     "Any sequence of table.get/set/size/grow/fill/copy/init, elem.drop, ref.null/is_null/func, global.get/set, typed and untyped select and call_indirect behaves as on a plain array of references: entries keep their identity and null-ness, out-of-bounds operations trap with no entry changed, and failed growth returns -1 and changes nothing. call_indirect calls exactly the function stored in the entry and traps exactly when the index is out of range, the entry is null or its type differs structurally.",
     ["inputs", "histories"], "all operation sequences up to a bound over boundary indices, lengths, tables and segments",
     "None of the runnable tests grows, copies or fills tables or drops element segments; errors depend on combinations of earlier operations and boundary indices.",
     ["lib/instance.c", "lib/exec_insn_subr.c", "lib/insn_impl_base.h", "lib/insn_impl_fc.h", "lib/insn_impl_control.h", "lib/cell.c"],
     [("table operations", "lib/exec_insn_subr.c table_*"), ("indirect call checks", "lib/exec_insn_subr.c get_func_indirect / lib/instance.c table_get_func")],
     observe=["results and trap kinds of exported functions"])

prop("C05", "Validation accepts exactly the well-typed modules",
     "A module is accepted exactly when it satisfies the typing rules of the WebAssembly specification with the enabled proposals: operand-stack typing including unreachable code, label and result types, index bounds of every index space, alignment, mutability, constant-expression restrictions, declared function references, unique export names, limits and the data-count rule. An ill-typed module is rejected with an error, never executed, and rejecting it leaves nothing behind and does not crash the host.",
     ["programs"], "all instruction sequences and module shapes up to a bound over an alphabet that contains every opcode",
     "Tests only load modules produced by correct compilers; an unsound acceptance appears only for modules no compiler emits, and for every opcode separately.",
     ["lib/validation.c", "lib/expr.c", "lib/module.c", "lib/insn.c", "lib/insn_macros.h", "lib/insn_impl_base.h", "lib/insn_impl_control.h", "lib/insn_impl_eh.h", "lib/insn_impl_simd.h", "lib/insn_impl_threads.h", "lib/insn_impl_tailcall.h", "lib/insn_impl_fc.h"],
     [("operand/control stack typing", "lib/validation.c"), ("per-instruction typing", "lib/insn_impl_*.h"), ("module-level checks", "lib/module.c")],
     observe=["success or error of module loading"])

prop("C06", "Control flow, calls and locals execute as specified in every configuration",
     "For every valid program built from blocks, loops, if/else, br/br_if/br_table, return, direct, indirect and tail calls, multi-value results, locals of every value type, drop and select, the values returned, the traps raised and the side effects performed are those the specification defines. The outcome does not depend on load options or build options that only trade speed for memory (jump tables, local/result offset tables, jump caches, cell layout), nor on code having been executed before.",
     ["programs", "configurations"], "all programs up to a bound from a control-flow grammar, in each load/build configuration",
     "Tests run a few compiler-generated programs, in which branches never drop values of mixed width past multi-value labels; wrong heights, arities or cached jump targets need particular nestings.",
     ["lib/exec.c", "lib/expr.c", "lib/cell.c", "lib/insn_impl_control.h", "lib/insn_impl_tailcall.h", "lib/validation.c"],
     [("branch execution and stack rewinding", "lib/exec.c do_branch/rewind_stack"), ("jump tables and caches", "lib/exec.c, lib/validation.c"), ("type annotations for polymorphic instructions", "lib/expr.c, lib/cell.c"), ("frames and tail calls", "lib/exec.c")],
     [("label stack", "saved pc and operand height per block", "lib/exec_context.h struct label"), ("frame", "caller pc, heights, locals", "lib/exec_context.h struct funcframe")],
     ["results, traps and global side effects of exported functions"])

prop("C07", "Exceptions unwind to exactly the specified handler with their payload",
     "throw and throw_ref transfer control to the innermost enclosing try_table clause, in this or a calling function, that matches the tag (catch, catch_ref) or any tag (catch_all, catch_all_ref), in clause order, delivering exactly the thrown payload values (and exception reference) to the clause's label with the operand stack cut to that label's height. Tags match by identity, not by type, including across module instances and imports; an exception no one catches ends the call with the uncaught-exception trap, and throw_ref of null traps.",
     ["programs"], "all nestings of handlers, throws, calls and rethrows up to a bound, over tags of different payload types",
     "The shipped EH modules cover a handful of shapes; handler selection depends on nesting depth, clause order, call depth and payload width together.",
     ["lib/insn_impl_eh.h", "lib/exec.c", "lib/exec_insn_subr.c", "lib/validation.c"],
     [("handler search", "lib/exec.c find_catch / do_exception"), ("throw / throw_ref", "lib/insn_impl_eh.h")],
     [("pending exception", "payload cells and tag copied onto the operand stack", "lib/type.h struct wasm_exception")],
     ["results and traps of exported functions"])

prop("C08", "Interrupting and resuming execution at any point never changes the outcome",
     "If execution is suspended by a user interrupt or an internal restart request at any of the points where the interpreter checks for one, and later continued, any number of times, the program produces the same results, traps, side effects and host-call sequence as an uninterrupted run. A pending interrupt request is honoured: even a non-terminating loop, recursion, wait or blocking host call returns control to the embedder, and an execution that is abandoned instead of continued can be torn down cleanly.",
     ["schedules", "programs"], "all sets of interrupt points (each single point, each pair, and every point at once) of each program in a set covering every restartable operation",
     "The debug build injects restarts at a fixed cadence only; a lost or repeated step shows only when the interrupt lands on one particular instruction.",
     ["lib/exec.c", "lib/instance.c", "lib/restart.c", "lib/host_instance.c", "lib/exec_insn_subr.c", "libwasi/wasi_poll_subr.c", "doc/check_interrupt.md"],
     [("restart events", "lib/exec.c exec_expr_continue / lib/exec_context.h enum exec_event"), ("interrupt check", "lib/exec.c check_interrupt"), ("restart records", "lib/restart.c")],
     [("restarts", "stack of restart records", "lib/exec_context.h")],
     ["return code sequence, results, memory, host call log"])

prop("C09", "Malformed binaries are rejected and never crash or hang the loader",
     "For every byte string, loading either succeeds or fails with an error, without reading outside the bytes given, crashing, hanging or leaking. It succeeds for every well-formed valid encoding, including non-minimal LEB128 and custom sections anywhere, and fails for every malformed one: truncation at any byte, wrong magic or version, over-long or out-of-range LEB128, sections out of order, duplicated, or whose size disagrees with their contents, invalid UTF-8 names, unknown opcodes, types or flags, and mismatched function/code/data counts. Debug-name lookups on a loaded module return the names its name section records (falling back to export names), and are harmless when that section is malformed.",
     ["inputs"], "all truncations, all single-byte replacements and all structural edits of a set of seed modules covering every section and immediate kind, plus all short byte strings",
     "Tests contain almost no malformed module; each decoder branch has its own malformed inputs.",
     ["lib/module.c", "lib/decode.c", "lib/leb128.c", "lib/expr.c", "lib/insn.c", "lib/util.c", "lib/name.c"],
     [("section reader", "lib/module.c module_load"), ("LEB128 decoding", "lib/leb128.c"), ("UTF-8 check and vectors", "lib/decode.c / lib/module.c")],
     observe=["success or error of module loading; memory-safety under a sanitizer"])

prop("C10", "Instantiation links imports and initialises state exactly as specified",
     "Instantiation succeeds exactly when every import is satisfied by an external value of the right kind whose type matches by the specification's rules (function and tag types equal, table/memory limits within the required range against the current size, global type and mutability equal, sharedness and page size equal). It then evaluates globals, applies active element and data segments in order and runs the start function, each visible through shared imports; a failing step reports an error, keeps the effects of completed earlier steps on imported objects, and leaves later steps undone.",
     ["inputs", "configurations"], "all pairs of provided and required external types from an alphabet, and all module shapes of active segments, globals and start functions up to a bound",
     "Tests link a single module against complete imports; the accept/reject decision for near-miss types and partially failing instantiation are never exercised.",
     ["lib/instance.c", "lib/import_object.c", "lib/host_instance.c", "lib/type.c"],
     [("import matching", "lib/instance.c check_*_import / import_object_find_entry"), ("initialisation", "lib/instance.c instance_execute_init")],
     observe=["instantiation result, contents of imported and exported memories, tables and globals"])

prop("C11", "Running out of heap at any allocation is reported and leaks nothing",
     "If any single allocation during loading, linking (dynamic linking included), initialising, executing, or setting up and using the WASI environment is refused, or the configured heap limit is reached, the operation fails with an out-of-memory error (or, for growth instructions, -1), the host process does not crash, everything can be torn down, and every byte accounted to a memory context is returned to it. Heap accounting never exceeds a configured limit, and after everything is destroyed it is exactly zero in every context of the hierarchy.",
     ["fault_sequences"], "every k-th allocation failing, for every k, in each scenario; every heap limit up to the scenario's peak",
     "Tests never exhaust memory; each allocation site has its own clean-up path that runs only when that allocation fails.",
     ["lib/mem.c", "lib/module.c", "lib/instance.c", "lib/exec.c", "lib/vec.c", "lib/bitmap.c", "lib/idalloc.c", "libwasi/wasi.c", "libwasi/wasi_table.c", "libdyld/dyld.c"],
     [("heap accounting and limits", "lib/mem.c"), ("error clean-up paths", "lib/module.c, lib/instance.c")],
     [("allocated / limit / peak", "accounted bytes per context", "lib/mem.h")],
     ["return codes, accounted bytes, leak detection"])

prop("C12", "Execution limits stop runaway programs cleanly and exactly",
     "A call chain deeper than the configured frame limit, or needing more operand/local cells than the configured limit, stops with the corresponding trap, and a program that stays within the limits is never stopped by them. Tail calls do not consume frames, growth of memory and tables respects declared maxima, and after a limit trap the instance remains usable for further calls with correct results.",
     ["programs", "configurations"], "all call chains around each limit value (depth 1..N, each limit 1..N), for direct, indirect, tail and host calls and mixed local types",
     "Tests only run with the default limits and never reach them; off-by-one and state left behind by a limit trap show only at the exact boundary.",
     ["lib/exec.c", "lib/options.c", "lib/exec_context.h"],
     [("frame limit", "lib/exec.c frame_enter"), ("stack cell limit", "lib/exec.c stack_prealloc")],
     observe=["trap kind, results of later calls"])

prop("C13", "Growing shared memory while other threads run is atomic and never deadlocks",
     "For every interleaving of threads that access, measure and grow a shared memory of one cluster, each memory.grow takes effect atomically (sizes returned form one sequential order, the limit is never exceeded), no thread ever touches stale or unmapped storage or loses a write, and every thread that was parked for a growth is released afterwards so that all threads finish. Requests to terminate the cluster arriving at any time during a growth still end all threads.",
     ["schedules"], "all interleavings of 2-3 threads with 1-2 operations each up to a preemption bound",
     "The windows are a few instructions long; free-running tests have no threads at all in the runnable suite.",
     ["lib/suspend.c", "lib/cluster.c", "lib/exec_insn_subr.c", "lib/exec.c", "lib/shared_memory.c", "lib/lock.c"],
     [("stop-the-world protocol", "lib/suspend.c"), ("shared growth", "lib/exec_insn_subr.c memory_grow_impl"), ("safe point", "lib/exec.c check_interrupt")],
     [("suspend_state / nparked / nrunners", "protocol state", "lib/cluster.h")],
     ["returned sizes, memory contents, termination of every thread"])

prop("C14", "Atomic instructions, wait and notify behave as specified under all schedules",
     "Atomic loads, stores, read-modify-writes and compare-exchanges of every width are indivisible, return the old value zero-extended, wrap narrow operands (the expected operand of a narrow compare-exchange is compared unwrapped), and trap on misaligned or out-of-bounds addresses without touching memory. memory.atomic.wait traps on an unshared memory; it returns not-equal only if the value differed at some moment of the wait, and at once if it differs at the start; it returns ok exactly when a notify counted it, and timed-out only after its timeout has passed, which interruptions do not prolong. memory.atomic.notify wakes at most the requested number of current waiters on exactly that address of that memory and returns how many it woke. No waiter is woken twice, and none that is waiting is missed; only a waiter that is suspended at that moment (for another thread's memory.grow or by a user interrupt) can miss a notify, and it still ends if the value was changed before.",
     ["schedules", "inputs"], "all interleavings of 2-3 threads waiting and notifying up to a preemption bound; all atomic opcodes over boundary operands",
     "Lost wake-ups and miscounted notifies need one specific interleaving; no runnable test executes an atomic instruction.",
     ["lib/waitlist.c", "lib/shared_memory.c", "lib/exec_insn_subr.c", "lib/insn_impl_threads.h", "lib/insn_list_threads.h"],
     [("waiter queues", "lib/waitlist.c"), ("wait/notify", "lib/exec_insn_subr.c memory_wait / memory_notify"), ("atomic operators", "lib/insn_impl_threads.h")],
     [("waiter list", "threads blocked per address", "lib/waitlist.c")],
     ["results of wait and notify, final memory"])

prop("C15", "WASI threads start, exit, trap and join correctly under all schedules",
     "thread-spawn, in either of its interfaces, starts exactly one new thread with the given argument and a thread id that is positive, within range, equal to the one the spawner gets and different from that of every live thread, or reports failure and leaves nothing behind: no id, instance or memory stays in use after failed spawns or ended threads. thread_exit ends only the calling thread. When any thread traps or calls proc_exit, or the main thread returns or exits, all other threads terminate wherever they are (looping, waiting, growing memory, spawning), and the embedder's wait returns only after every thread has finished with its resources released, and never hangs. The reported status is one that a thread caused itself, never that of a thread which was only told to terminate: the first one to request the end decides which trap or exit it is. Where several threads call proc_exit, the exit code is one they passed; where the main thread returns normally before it notices a request, that may be reported as success.",
     ["schedules", "fault_sequences"], "all interleavings of a main thread and up to 3 spawned threads up to a deviation bound, with thread creation and allocations failing at each step",
     "Requires racing exits, spawns and traps; the runnable tests never start a wasi thread.",
     ["libwasi_threads/wasi_threads.c", "lib/cluster.c", "lib/idalloc.c", "libwasi/wasi_abi_proc.c"],
     [("spawn and teardown", "libwasi_threads/wasi_threads.c"), ("thread id allocation", "lib/idalloc.c"), ("join", "lib/cluster.c")],
     [("cluster nrunners / interrupt", "live threads and termination request", "lib/cluster.h")],
     ["thread ids, exit status, termination, leak detection"])

prop("C16", "WASI file descriptors are allocated, shared and closed as a POSIX-like table",
     "Over any sequence of opening, accepting, renumbering, closing and using descriptors, each open descriptor refers to the object it was opened for, an operation on a closed or never-opened number fails with BADF and affects nothing, new descriptors take the lowest free number not reserved for standard streams, and renumbering atomically moves a descriptor over an open one. The underlying host descriptor is released exactly once, when its last user is done, whatever order of operations, and destroying the environment releases all.",
     ["histories", "schedules", "fault_sequences"], "all sequences of descriptor operations up to a bound over a small set of descriptor numbers including invalid ones, and concurrent use and close",
     "Tests open a few files in straight-line order; slot reuse, renumber corner cases and double closes need particular histories.",
     ["libwasi/wasi_fdtable.c", "libwasi/wasi_table.c", "libwasi/wasi_fdinfo.c", "libwasi/wasi_abi_fd.c", "libwasi/wasi_host_fdop.c", "libwasi/wasi.c"],
     [("descriptor table", "libwasi/wasi_table.c"), ("reference counting of descriptors", "libwasi/wasi_fdinfo.c"), ("renumber and close", "libwasi/wasi_abi_fd.c")],
     [("fdtable", "slots of open descriptors", "libwasi/wasi_impl.h")],
     ["errno results, data read through descriptors, host descriptors open at the end"])

prop("C17", "WASI file and directory calls have the effects their specification describes",
     "Reading, writing, seeking, truncating, stat, directory listing, creating, linking, renaming and removing through WASI calls have the effect and return the values and error codes of the corresponding POSIX operations on the preopened directory, for every combination of flags WASI defines and the implementation supports; unsupported combinations fail with an error and have no effect. Paths are resolved relative to the directory the given descriptor was opened on (as long as that directory keeps its name); absolute paths and paths containing NUL are refused without touching the host file system.",
     ["histories", "inputs"], "all sequences of file operations up to a bound over a small directory tree, file contents, offsets, flags and path shapes",
     "The runnable tests use only the calls a C runtime needs for simple programs; flag combinations and error codes are not exercised.",
     ["libwasi/wasi_abi_fd.c", "libwasi/wasi_abi_path.c", "libwasi/wasi_path_subr.c", "libwasi/wasi_host_fdop.c", "libwasi/wasi_host_pathop.c", "libwasi/wasi_host_dirent.c", "libwasi/wasi_host_subr.c", "libwasi/wasi_vfs.c", "libwasi/wasi_uio.c"],
     [("path conversion", "libwasi/wasi_path_subr.c"), ("host operations", "libwasi/wasi_host_*.c"), ("structure conversion", "libwasi/wasi_subr.c, libwasi/wasi_host_subr.c")],
     observe=["errno, returned structures, host directory contents"])

prop("C18", "WASI calls never touch memory outside what the guest named",
     "For every WASI function and every value of its pointer, length and count arguments, the call accesses only guest bytes inside the linear memory that the arguments designate. Arguments designating a byte the call has to access that is outside the memory (including by wrapping past 2^32), or violating the required alignment, make the call trap or fail with an error and never corrupt or disclose host memory; output is written only to the designated output locations and to nothing else, however the memory is moved by growth.",
     ["inputs"], "all combinations of pointer, length and count arguments from a boundary alphabet for every WASI function, with memories of different sizes",
     "Programs pass only valid pointers; each argument of each call has its own bounds check that can be missing or off by one.",
     ["lib/host_instance.c", "libwasi/wasi_uio.c", "libwasi/wasi_abi_fd.c", "libwasi/wasi_abi_path.c", "libwasi/wasi_abi_poll.c", "libwasi/wasi_abi_environ.c", "libwasi/wasi_abi_prestat.c", "libwasi/wasi_abi_random.c", "libwasi/wasi_abi_clock.c", "libwasi/wasi_abi_sock.c"],
     [("guest pointer translation", "lib/host_instance.c host_func_getptr/copyin/copyout"), ("iovec translation", "libwasi/wasi_uio.c")],
     observe=["trap/errno, bytes changed in guest memory, memory-safety under a sanitizer"])

prop("C19", "WASI args, environment, clocks, polling, sockets and exit match their contract",
     "The guest sees exactly the arguments, environment variables and preopen names the embedder set, in order and NUL-terminated; clocks report the host clocks in nanoseconds and reject unknown ids; random_get fills exactly the requested bytes. poll_oneoff reports exactly the subscriptions that are ready (or the elapsed clock, never early) with their user data and error, sockets transfer bytes as requested, and proc_exit ends the execution with exactly the given exit code visible to the embedder and runs nothing afterwards.",
     ["inputs", "histories"], "all small argument/environment/preopen lists, clock ids, subscription lists and exit codes up to a bound",
     "Tests pass one argument list and hardly use poll, clocks or sockets; packing and ordering errors need empty strings, several entries or mixed subscriptions.",
     ["libwasi/wasi_abi_environ.c", "libwasi/wasi_abi_clock.c", "libwasi/wasi_abi_poll.c", "libwasi/wasi_poll_subr.c", "libwasi/wasi_abi_random.c", "libwasi/wasi_abi_proc.c", "libwasi/wasi_abi_prestat.c", "libwasi/wasi_abi_sock.c", "libwasi/wasi.c", "lib/timeutil.c"],
     [("argument/environment packing", "libwasi/wasi_abi_environ.c"), ("polling", "libwasi/wasi_abi_poll.c, libwasi/wasi_poll_subr.c"), ("time conversion", "lib/timeutil.c")],
     observe=["errno, guest memory after the call, exit code"])

prop("C20", "Writing a loaded module back yields an equivalent module",
     "For every valid module, writing it out succeeds and the written file loads again as a module with the same types, imports, functions, tables, memories, tags, globals, exports, start function, element and data segments and code bodies, behaving identically (custom sections need not survive, and the implied maximum of a memory may be made explicit). An I/O failure while writing is reported as an error.",
     ["inputs", "programs"], "all module shapes up to a bound covering every section, import/export kind, segment form, limit and flag, including empty names and empty segments",
     "The only test writes one compiler-produced module; most segment forms, tags and empty items never occur in it.",
     ["lib/module_writer.c", "lib/module.c"],
     [("section writers", "lib/module_writer.c")],
     observe=["result of writing, section-by-section comparison of the reloaded module"])

prop("C21", "Dynamic linking resolves every symbol, address and initialiser order correctly",
     "For every set of position-independent or main modules with needed-library lists (including diamonds and cycles), loading brings in each needed library once, gives each module its own aligned, non-overlapping memory and table region inside the grown memory and table, and binds every function, data-address and function-address import to the first module in load order that exports it, one table slot per function. Relocation and constructor functions run exactly once per module, dependencies first; missing or mistyped strong symbols and unloadable libraries are reported as errors, missing weak ones bind to null, and library names cannot escape the search paths.",
     ["configurations", "inputs"], "all dependency graphs of up to 3-4 modules, symbol definition/use assignments, alignments and sizes up to a bound",
     "No runnable test loads a dynamically linked module.",
     ["libdyld/dyld.c", "libdyld/dyld_plt.c", "libdyld/dyld_dlfcn.c", "lib/module.c"],
     [("object loading and layout", "libdyld/dyld.c"), ("symbol resolution", "libdyld/dyld.c dyld_resolve_symbol*"), ("lazy binding", "libdyld/dyld_plt.c")],
     observe=["results of calls across modules, values of address globals, order of constructor side effects"])

prop("C22", "Values cross the host boundary unchanged in both directions",
     "Any wasm function called by the embedder, and any host function called from wasm (directly, by indirect call, by tail call, or calling back into wasm), receives exactly the argument values passed and its results arrive exactly, in order, for every combination of value types. A host error or trap propagates to the embedder without further wasm instructions running, and a host function requesting a restart is re-invoked with the same arguments.",
     ["inputs", "programs"], "all parameter/result type lists up to a bound over all value types, call forms and host outcomes",
     "Tests use host functions of WASI only, whose parameters are at most i32/i64.",
     ["lib/host_instance.c", "lib/cell.c", "lib/exec.c", "lib/cconv.c", "lib/type.c"],
     [("value/cell conversion", "lib/cell.c"), ("host call", "lib/exec.c do_host_call"), ("type strings", "lib/type.c functype_from_string")],
     observe=["arguments recorded by the host function, results returned to the embedder"])

prop("C23", "The command line tool runs what it is told to, with the values it is given",
     "For every module, export name, argument list and option set, the toywasm command and its REPL (load, load-hex, register, invoke, global-get, save, init) call exactly the named function of the named, or the latest, module with exactly the values written in the arguments, or refuse the command when the name does not exist, the number of arguments is wrong, or a value is not valid for its type. They print the exact results, or the trap under the name the specification tests use. Registered modules satisfy the imports of modules loaded later, the latest registration of a name winning, and a failed command leaves earlier modules and later commands unaffected. Limits, timeouts and feature options take effect as given. A program run with --wasi sees exactly the arguments, environment and directories given; its exit code becomes the exit status of the process, and a failed run never exits with status 0.",
     ["inputs", "histories"], "all REPL command sequences up to a depth, all parameter type lists up to a bound with valid and invalid argument texts, all exit codes, option combinations",
     "Tests use a handful of command lines; the REPL is driven only by the specification test scripts, which do not run here, and only with well-formed input.",
     ["cli/main.c", "cli/repl.c", "cli/str_to_uint.c", "lib/nbio.c", "lib/dummy_host_func.c", "lib/exec_debug.c"],
     [("option parsing and exit status", "cli/main.c"), ("REPL commands and module list", "cli/repl.c"), ("argument parsing", "cli/str_to_uint.c")],
     observe=["standard output and standard error of the process", "exit status", "files saved"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
print(len(P))
