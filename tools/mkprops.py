import json
P=[]
def p(id,title,st,over,txt,why,files,mech,observe=None,state=None):
    d=dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=txt),why_tests_cant=why,anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech]))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    if observe: d['anchors']['observe_at']=observe
    P.append(d)
p("C01","A scope owns its memory and defers: released once, in reverse order",
"Every block requested from a smart pointer scope is usable, disjoint from every other live block, keeps what the caller wrote (and starts zeroed when requested with calloc) until the scope is unwound or deleted. Unwinding runs every deferred function and release function bound to that scope, and to no other, exactly once, with the argument it was bound with, in the reverse order of binding, including those bound by a deferred function while unwinding; afterwards nothing of it is left allocated. A scope that was unwound, but not deleted, can be used again with the same guarantees.",
["histories","inputs"],"all sequences of allocations (malloc/calloc, default or custom release function, any size and count), defers (also from inside deferred functions), unwinds, deletes and reuse over several interleaved scopes",
"The tests make one scope with a handful of entries, unwind it once, and look at printed order; they never cross the growth boundary of the deferred list, interleave scopes, reuse one, or check that nothing leaks or is freed twice.",
["src/raii.c","include/raii.h"],[("malloc_full/calloc_full/malloc_by/calloc_by bind a block by deferring its release","src/raii.c"),("raii_deferred_any / raii_array_append","src/raii.c"),("raii_deferred_run, raii_deferred_free, raii_delete","src/raii.c")],
["calls of the deferred functions","calls of RAII_MALLOC/CALLOC/REALLOC/FREE"],[("memory_s.defer","array of deferred functions","include/raii.h")])
p("C02","Cancelling or firing a deferred function affects exactly that one",
"The index returned when a function is deferred identifies it: after it is cancelled it never runs, after it is fired it has run once, at that moment and with its own argument, and never again. Every other deferred function and block of the scope is unaffected: it still runs once when the scope is unwound, in reverse order. The identifier of the last allocation of a scope names that block's release in the same way.",
["histories"],"all sequences of defers, allocations, cancels and fires of any live index, and unwinds of a scope, explicit or the thread's default one",
"No test cancels or fires by a returned index in any position but the trivial one; the guarantee is about every position in every history.",
["src/raii.c","include/raii.h"],[("raii_deferred_array_get_index/get_element","src/raii.c"),("raii_deferred_cancel, raii_deferred_fire, raii_defer_cancel, raii_defer_fire, raii_mid, raii_last_mid","src/raii.c")],["calls of the deferred functions"])
p("C03","The thread's default scope keeps its promises until cleaned or exit",
"What is deferred to, allocated from, or returned by a string helper through the calling thread's default scope stays valid until that scope is cleaned or destroyed, the thread's process exits, or an uncaught exception ends it. It is then released exactly once, in reverse order of binding, and never released by exceptions that are caught nor by leaving a guarded section. The default scope can be used again after each cleaning.",
["histories","programs"],"all programs mixing default-scope defers/allocations/string helpers with guarded sections, caught exceptions and cleanings, ended by return from main or exit()",
"Tests use the default scope once, straight-line, and look at nothing at exit.",
["src/raii.c","src/except.c","include/raii.h"],[("raii_init, raii_local, raii_defer, malloc_default, calloc_default","src/raii.c"),("raii_deferred_clean, raii_destroy, atexit registration","src/raii.c"),("ex_unwind_stack","src/except.c")],["calls of the deferred functions","tracked allocator at process exit"])
p("C04","A guarded section runs its defers exactly once however it is left",
"Whichever way a guarded section is left - reaching its end, break, returning a value early, or an exception raised in it or in anything it calls - every function deferred in it runs exactly once in reverse order, before control leaves the section, and all memory requested in it is freed exactly once. Nested sections unwind from the inside out, a section's defers are never run by an exception that is caught inside it, an early return yields the given value, and afterwards the enclosing section and its own defers work as before. A deferred function that itself raises an exception neither runs again nor prevents the remaining ones from running.",
["programs","histories"],"all programs of nested and sequential guarded sections (also recursive and inside try blocks) with defers, allocations, breaks, early returns, throws and panics at any point",
"Tests and examples are a few fixed programs with one or two sections; the guarantee quantifies over every exit path, nesting and position of a throw.",
["include/raii.h","src/raii.c","src/except.c"],[("guard / guarded / unguarded / block / _return macros","include/raii.h"),("guard_set, guard_reset, guard_delete","src/raii.c"),("raii_deferred_run","src/raii.c"),("ex_throw, ex_unwind_stack","src/except.c")],["trace of body steps and deferred calls against a model","tracked allocator"])
p("C05","Panic and recover: the first section that recovers stops the panic",
"While a guarded section unwinds because of a panic or a thrown exception, its deferred functions can read the panic message (or the exception's name). If one of them recovers it, execution continues right after that section as if it had ended normally and no enclosing section sees the exception; otherwise the exception continues to the next enclosing section or try block with the same name and message. A recover that names a different error recovers nothing.",
["programs"],"all programs of nested guarded sections whose deferred functions do or do not recover, matching or not, with panics and throws from any depth, with and without memory allocated in the sections",
"The README's single example is the only shape tests come near; recovery must work at every nesting level, with any mix of allocations and other defers.",
["include/raii.h","src/raii.c","src/except.c"],[("_recover, _is_caught, _get_message, raii_is_caught, raii_message_by, raii_recover_by","src/raii.c"),("guard_set","src/raii.c"),("ex_end_try rethrow","include/exception.h")],["trace of body steps, messages and continuation points against a model"])
p("C06","try/catch/finally follow structured exception semantics",
"A thrown exception transfers control to the nearest enclosing try block: of its catch clauses only the first that names the exception (or catches any) runs, exactly once, and code after the throw point does not. A finally part runs exactly once on every path; an exception nothing in the block handles, or one thrown or rethrown by a handler, continues to the next enclosing block. Handlers observe the name (with a conditional catch, the message of a panic) and, for a throw, the file and line of the throw itself, however often it was rethrown.",
["programs"],"all programs of nested and sequential try blocks with catch, catch_any, conditional catch and finally parts, throws, rethrows and panics in bodies, handlers, finally parts and called functions, repeated in loops",
"The tests check a dozen fixed shapes; control flow of setjmp-based macros depends on the state left by earlier blocks and on nesting, which only a model over generated programs can cover.",
["include/exception.h","include/raii.h","src/except.c"],[("ex_try, ex_catch, ex_catch_any, ex_catch_if, ex_finally, ex_end_try, rethrow","include/exception.h"),("ex_throw, ex_init, ex_update","src/except.c"),("raii_caught, raii_message","src/raii.c")],["trace of executed parts and observed err/err_file/err_line against a model"],[("ex_context_s.state","try/throw/catch state of a block","include/exception.h")])
p("C07","A signal raised inside a try block becomes its named exception",
"Each supported signal raised by the program while inside a try block or guarded section arrives there as the exception named after the signal (or by the name the program registered for it), is handled, propagated and unwound exactly like a thrown one, and leaves no signal blocked. This keeps working for any number of signals, the same or different, in any nesting and mixed with ordinary throws, until default handling is restored, for that signal alone or for all; signals the program ignores otherwise keep the program state intact.",
["programs","histories"],"all sequences of supported signals (SIGSEGV, SIGABRT, SIGFPE, SIGILL, SIGINT, SIGTERM, SIGQUIT, SIGHUP, SIGWINCH, SIGTRAP, SIGALRM, SIGBUS) and program-named ones (any of these, SIGUSR1, SIGUSR2) raised at any point of generated try/guard programs",
"Tests raise SIGSEGV and SIGFPE once each; repeated delivery, all signals, nesting and the signal mask are untested.",
["src/except.c","include/exception.h"],[("ex_signal_setup, ex_signal, ex_handler, ex_sig table","src/except.c"),("ex_signal_block/unblock, sigsetjmp","include/exception.h")],["trace against a model","signal mask and dispositions"])
p("C08","Protected pointers are released once, only when an exception passes",
"When an exception leaves a try block, or ends the program, each pointer protected in that block and not unprotected is released exactly once, by its own function, with the value the pointer has at that moment, most recently protected first; one that is null at that moment is skipped without affecting others. If the block is left normally, nothing is released, and a pointer protected in an enclosing block is released only when an exception leaves that one.",
["programs","histories"],"all programs of nested try blocks protecting, changing, nulling and unprotecting any number of pointers with different release functions, left normally or by an exception",
"Examples print one protected pointer; order, null entries, reassignment, nesting and repeated blocks are never checked.",
["src/except.c","include/exception.h"],[("protected / unprotected macros","include/exception.h"),("ex_protect_ptr, ex_unprotected_ptr, ex_unwind_stack","src/except.c")],["calls of release functions against a model"],[("ex_context_s.stack","protected pointers of a block","include/exception.h")])
p("C09","An uncaught exception ends the program with failure, after unwinding",
"An exception that no try block or guarded section handles terminates the process with a failure exit status and a diagnostic that names the panic message or the exception, and never returns to the program. Before the process ends, everything bound to the guarded sections and the thread's default scope and every protected pointer is released exactly once, and the installed terminate callback runs exactly once, as does the interrupt callback if an interrupt signal was received. The same holds for signals and for exceptions raised by deferred functions; one raised by a protected pointer's release function ends the program likewise, the default scope being released.",
["programs"],"all generated programs of nested sections, try blocks, defers and protected pointers whose last exception (throw, panic, signal, or a throw from a release function) is not handled",
"Tests must survive to report, so none ends by an uncaught exception; the examples that do are only compiled.",
["src/except.c","src/raii.c"],[("ex_terminate, ex_print","src/except.c"),("ex_throw base context case","src/except.c"),("raii_destroy","src/raii.c")],["exit status, stderr and shared-memory trace of a child process"])
p("C10","Failing allocations surface as a panic and lose or break nothing",
"When the underlying allocator fails at any point, or more is asked for than there can be, the request through a scope (by an allocation, a guarded section, an arena, a string helper, packed arguments, or a thread started or awaited) raises a panic that enclosing guarded sections and try blocks can handle like any other; the failing call binds nothing. Everything bound before stays valid until its scope unwinds and is then released exactly once, nothing is freed twice or leaked, and the scope can be used again once memory is available.",
["fault_sequences","histories"],"for generated programs over scopes, guarded sections, arenas, string helpers, packed arguments, futures and spawn scopes: a failure injected at every allocation in turn, and random sets of failures",
"No test makes an allocation fail.",
["src/raii.c","src/arena.c","include/raii.h"],[("try_malloc, try_calloc, try_realloc","src/raii.c"),("raii_array_append, realloc_array","src/raii.c"),("guard macro's scope creation","include/raii.h"),("arena_alloc","src/arena.c")],["fault-injecting tracked allocator"])
p("C11","Arena allocations are disjoint, stay intact, and are reclaimed as a whole",
"Every block obtained from an arena, or from a scope backed by one, lies in memory of its own: live blocks of the same or of any other arena, used by whichever thread, never overlap, keep their content, and are zero when requested zeroed. Clearing an arena invalidates only that arena's blocks and leaves it usable, freeing it returns what it holds, and nothing is freed twice; the reported remaining capacity decreases by what is handed out.",
["histories","inputs"],"all sequences of init (any threshold), alloc/calloc (sizes from 1 byte to many times the chunk size), clear and free over several arenas and arena-backed scopes",
"The test stops at its first chunk overflow; clearing with several chunks, reuse of cleared chunks by other arenas and freeing are not reached.",
["src/arena.c","src/raii.c"],[("arena_init, arena_alloc, arena_calloc, arena_clear, arena_free, free_list","src/arena.c"),("unique_init_arena, malloc_arena, calloc_arena, malloc_by, calloc_by, free_arena","src/raii.c")],["returned pointers and content against an interval model","tracked allocator with canaries"])
p("C12","Integer parsing returns exactly the number written, at any length",
"Parsing decimal text of any length the function is documented for (up to 8 characters for the short form, 20 for the long one, with an optional sign for the signed one) returns exactly the value of its digits; parsing hexadecimal text of up to 8 or 16 digits, in either case, does too. The given length alone decides what is read: characters after it, readable or not, and the alignment of the text never influence the result, and an empty text is zero.",
["inputs"],"all digit strings of every documented length, any sign, letter case, alignment and following bytes, also at the edges of readable memory",
"Tests parse prefixes of one fixed string followed by more digits; every length/value/trailing-byte combination matters for branch-free word arithmetic.",
["src/swar.c","include/swar.h"],[("atou8, simd_atou, simd_atoi, htou8, simd_htou","src/swar.c")],["returned value against an arithmetic reference"])
p("C13","Integer formatting is exact, bounded, and round-trips",
"Formatting any integer in the documented range of a conversion writes exactly its decimal representation (zero-padded to the requested width for the padded forms), terminated, returns the length where one is documented, and writes nothing outside the documented buffer. Parsing the text gives the number back.",
["inputs"],"all 64-bit signed values for the long form, all values of up to 8 digits for the short one, all widths 1 to 20 and values that fit them for the padded form, all two-digit values, any buffer alignment",
"Tests compare some values below 2^31 for the long form; extremes, all digit counts and buffer bounds are untested.",
["src/swar.c","include/swar.h"],[("simd_itoa, itoa8, utoap, _utoap, utoa2p, utoa2p_ex","src/swar.c")],["buffer content and canaries against snprintf"])
p("C14","Decimal fraction parsing agrees with the written number",
"Parsing decimal text with an optional sign, up to 18 integer digits and any number of decimals returns the written number with its sign, to within double rounding of the digits that can matter; text without a decimal point gives the integer. Characters after the given length, readable or not, never influence the result.",
["inputs"],"all texts [sign]digits[.digits] of any length split, any following bytes and alignment, also at the edges of readable memory",
"It is not tested at all.",
["src/swar.c","include/swar.h"],[("simd_atod","src/swar.c")],["returned value against strtod of the same text"])
p("C15","Byte search finds the first (or last) occurrence or reports none",
"Searching memory for a byte returns the position of the first occurrence within the given length, or of the last for the reverse search, and reports absence exactly when the byte does not occur there; the variants for known-present bytes and for printable text agree wherever they apply. Bytes outside the given length, readable or not, and alignment never influence the answer, and the word-level helpers (has-byte, has-zero, partial word cast, bit positions) agree with their byte-by-byte definitions.",
["inputs"],"all contents, lengths, needle bytes (including 0, 0x80 and 0xff) and alignments, with the needle present or not just before and after the range, or no readable memory there",
"Tests search one 16-byte string; the mask arithmetic depends on length modulo 8, neighbours and byte values.",
["src/swar.c","include/swar.h"],[("_memchr8, _memchr, _memrchr, hasbyte, haszero, cast8, extend, countr_zero, countl_zero, countr_index","src/swar.c")],["returned position against a byte loop"])
p("C16","String length and comparison agree with the C library",
"The length of any string equals the number of bytes before its terminator, and comparing any two strings yields zero exactly if they are equal, otherwise a value with the sign of the first differing byte taken as unsigned. Equality, emptiness and containment predicates follow from that and treat a null string as equal to nothing. What lies outside the strings, readable or not, has no influence.",
["inputs"],"all pairs of strings of any bytes, length (around word boundaries), common prefix, alignment and following bytes, also at the edges of readable memory",
"Tests compare a few short, different strings; prefixes, word-sized strings and bytes above 0x7f decide the word-wise code.",
["src/swar.c","src/raii.c"],[("simd_strlen, simd_strcmp","src/swar.c"),("is_str_eq, is_str_empty, is_str_in, strpos","src/raii.c")],["returned values against strlen/strcmp/strstr"])
p("C17","Split, concat, replace, copy and find compute what they say",
"Splitting a string by a delimiter yields exactly the fields between its non-overlapping occurrences, null-terminated and counted; concatenation yields the arguments joined in order; replacement yields the text with every non-overlapping occurrence replaced, or nothing if there is none; duplication yields an equal, terminated copy; search yields the first position or a negative value. Inputs are never modified, results never exceed their allocation, and results bound to a scope are released with it exactly once.",
["inputs"],"all texts and non-empty delimiters/needles/replacements of any length (including growing, shrinking and empty replacements, self-overlapping needles, adjacent and trailing delimiters), any number of concatenated strings, with and without scope",
"None of the helpers but base64 is tested.",
["src/swar.c","src/raii.c"],[("str_split_ex, str_concat_ex, str_replace_ex, str_copy, str_memdup_ex, strpos","src/swar.c"),("raii_split, raii_concat, raii_replace, raii_memdup","src/raii.c")],["results against reference implementations","tracked allocator with canaries"])
p("C18","Base64 encoding is standard and decoding inverts it",
"Encoding any string yields its standard padded Base64 text, decoding that text yields the original, and text so encoded is recognised as Base64. Decoding ignores characters outside the alphabet, returns nothing when the number of significant characters is zero or not a multiple of four, and for any input whatever stays within the result's allocation.",
["inputs"],"all byte strings without NUL of any length for encoding and round-trip, arbitrary byte strings for decoding, as first use of the thread's default scope or with an explicit scope",
"The test encodes and decodes a few ASCII strings.",
["src/swar.c","src/raii.c"],[("str_encode64_ex, str_decode64_ex, is_base64, base64 tables","src/swar.c"),("raii_encode64, raii_decode64","src/raii.c")],["results against a reference codec","tracked allocator with canaries"])
p("C19","Packed arguments come back unchanged and are freed exactly once",
"A set of arguments packed by a format description can be read back by position any number of times, each with exactly the value and type passed, including strings of any length and pointers, whose targets are left untouched. Releasing it explicitly, or reading it through the scoped accessor and then unwinding the scope, frees it exactly once; in a set bound to a scope, that scope.",
["inputs","histories"],"all format strings over the documented type letters (0 to 32 arguments) with arbitrary values, read in any order, released explicitly or by scope",
"One test packs two sets of four arguments.",
["src/raii.c","include/raii.h"],[("args_for, raii_args_for, raii_args_ex, get_args, raii_get_args, args_in, get_arg, args_free","src/raii.c")],["values read back","tracked allocator"])
p("C20","A future delivers its own thread's value or exception, exactly once",
"Getting the result of a future yields the value its function returned (empty if it returned none; a heap object handed over by the function stays valid until the creator's scope is unwound), or raises, in the getting thread, the exception or panic that ended the function. This holds for any number of futures running at once, gotten in any order, whatever the others do; once a future is reported done, or its value was gotten, its function and everything deferred in its thread has run exactly once and its thread's memory is released.",
["schedules","programs"],"any number of concurrent futures with generated bodies (values, heap objects, throws, panics, defers, allocations, guarded sections, nested futures), created, polled, waited for and gotten in any order, under randomised delays",
"The tests that use futures are compiled but not run, and use one future each.",
["src/future.c","include/raii.h"],[("thrd_async, thrd_get, thrd_is_done, thrd_wait, thrd_returning","src/future.c"),("promise_create/set/get/close, thrd_raii_wrapper","src/future.c"),("guarded_exception","include/raii.h")],["values, exceptions and defer traces per future","tracked allocator"])
p("C21","Spawned threads are all awaited and every result is paired with its task",
"Synchronising a spawn scope returns only after every function spawned in it has ended; each spawn handle, and the continuation callback in order of spawning, then yields exactly the value that function returned, including heap objects. If a function ended by an exception, synchronising still waits for all of them, the exception is raised in the synchronising thread, and the results of the others remain available. Spawning without a scope is refused, reading a result not yet synchronised raises, and destroying the scope releases all of its memory but nothing else the thread holds.",
["schedules","programs"],"any number of tasks (also more than the number of CPUs, in several rounds on one scope, from inside guarded sections or other spawned threads) returning values, heap objects, nothing, or throwing, under randomised delays",
"The tests that spawn are compiled but not run; the one program spawns four equal tasks.",
["src/future.c","include/raii.h"],[("thrd_scope, thrd_spawn, thrd_spawn_ex, thrd_sync, thrd_then, thrd_result, thrd_is_finish, thrd_destroy","src/future.c")],["results and traces","tracked allocator"])
p("C22","Exceptions, guards and scopes of one thread never affect another",
"Each thread that uses guarded sections, try blocks, protected pointers and its default scope behaves exactly as if it ran alone: exceptions are delivered to handlers of the raising thread only, its defers run in that thread exactly once, and its error messages and the signals it names for itself are its own, however the threads interleave.",
["schedules","programs"],"2 to 8 threads each running a generated guard/try/defer program, under randomised yields at every step",
"No test that runs uses more than one thread.",
["src/except.c","src/raii.c","include/raii.h","include/cthread.h"],[("thread-local except/raii contexts","include/cthread.h"),("guard's unwinding functions","include/raii.h")],["per-thread trace against the single-threaded model"])
p("C23","Atomic operations and spinlocks are atomic",
"Each atomic operation, on integers of every width, floating-point numbers and pointers, returns and stores what its sequential definition says for every operand and changes nothing next to it. Concurrent read-modify-write operations from any number of threads lose no update: additions sum up, exchanged tokens are neither lost nor duplicated, a compare-and-swap succeeds only for the expected value, a flag is set by one thread only; a spinlock admits one thread at a time and makes its writes visible to the next, and operations without an explicit order are sequentially consistent; who reads, by an acquiring operation, what another stored by a releasing one sees all that the other wrote before.",
["schedules","inputs"],"all operands and sequences of load, store, exchange, compare-exchange, fetch-add/sub/and/or/xor, flag and spinlock operations, sequentially against a model and from 2 to 8 threads",
"Atomics are exercised by one example that is compiled and not checked.",
["include/catomic.h"],[("atomic_* macros, c89atomic_* functions, atomic_lock/atomic_unlock","include/catomic.h")],["returned and final values"])
p("C24","Thread-local storage is per thread, initialised, and reset by none other",
"A variable declared with the thread-local storage macros is separate in every thread: a thread sees the declared initial state until it first uses or sets the variable, and afterwards exactly what it last stored itself, at a stable address disjoint from every other thread's, whatever other threads do and also when threads are created and end repeatedly; deleting it returns the calling thread, and no other, to the initial state.",
["schedules","histories"],"all sequences of emptiness queries, accesses, writes, updates and deletions on several variables (pointer-like and plain) from up to 8 threads, successive and concurrent",
"The storage tests need a library not present here and are not run.",
["include/cthread.h"],[("thrd_local, thrd_local_plain, thrd_static, thrd_static_plain, thrd_local_extern","include/cthread.h")],["values read per thread against a per-thread model"])
p("C25","Functions a program installs for exceptions are told of each one, in order",
"While a thread has its own set-up function installed (`exception_setup_func`) it is called exactly once for each exception raised, rethrown or passed on, by signal too, before anything is released, with the context, name, message (`NULL` for a throw), line and file of that exception (but not for one thrown by a release function, which ends the program); the unwind function (`exception_unwind_func`) is called exactly once afterwards, when the protected pointers are released and before a handler runs or the program ends, with the data the set-up function left in the context, if and only if that asked for it with `ex_unwind_set`. Both are suspended inside `guard` sections and back in force however a section ends, and a thread's functions are never called for another thread's exceptions.",
["histories","inputs"],"all programs that install, change and remove such functions among nested try blocks, guards, protected pointers, default-scope cleanup, signals, rethrows and exceptions in the functions' own code, ending normally or not",
"No test installs such functions.",
["src/except.c","src/raii.c","include/raii.h"],[("ex_throw, ex_unwind_stack, ex_unwind_set, ex_swap_set","src/except.c"),("guard_set, guard_reset","src/raii.c"),("guard, guarded, unguarded, _return","include/raii.h")],["calls of the functions with their arguments, order relative to releases, handlers and deferred functions"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,s); assert x['statement'].count('. ')<=2,(x['id'],x['statement'].count('. '))
print(len(P))
