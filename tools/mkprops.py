#!/usr/bin/env python3
"""Author of properties.jsonl (run by hand; the output is committed)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None,state=None,hook=False):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m} for n,m in state]
    if observe: a["observe_at"]=observe
    if len(title)>80: raise SystemExit(id+" title too long")
    P.append(dict(id=id,title=title,statement=statement,quantifier={"over":over,"text":qtext},why_tests_cant=why,anchors=a))

NT="No existing test starts a thread"
# ---------------------------------------------------------------- concurrency
p("C01","Every accepted job runs exactly once; done is never reported early",
 "As long as its owner keeps processing the pool, every job the pool accepted runs exactly once, with the procedure and data pointer it was enqueued with, on whatever worker count, queue limit, priority mix and thread interleaving; a refused job never runs. "
 "The pool reports done only when no accepted job is still waiting or running, and it does report done after finitely many steps once the owner stops adding jobs. This holds too when the system refuses some of the memory or threads the pool is made of: what such a pool accepts still runs. As many jobs as the pool has workers can run at the same time, so jobs that wait for each other finish when there is a worker for each.",
 ["schedules","histories"],"all interleavings of the owner and 1-32 workers, all enqueue/process/done histories, all priorities and limits",
 NT+": the job system has no test at all, and its hand-over protocol can only fail under particular interleavings.",
 ["code/header/jobs.h","code/source/jobs.c"],
 [("worker loop and status hand-over","code/source/jobs.c: zpl__jobs_entry, zpl_jobs_process"),("done/empty predicates","code/source/jobs.c: zpl_jobs_done, zpl_jobs_empty_all")],
 state=[("worker status","READY/BUSY/WAITING/TERM word shared by owner and worker")])
p("C02","Freeing a job pool always terminates, at any moment, and stops all work",
 "Whenever the owner frees a job pool - idle, with jobs queued, just after handing work out, or while jobs run - the call returns after finitely many steps once running jobs return. "
 "After it returned no job starts or is still running, every worker thread has ended, all memory taken from the pool's allocator has been given back, and no job has run twice. This holds too for a pool some of whose memory or threads the system refused.",
 ["schedules","histories"],"every point of the pool's life at which it can be freed, under every interleaving with its workers",
 NT+"; a shutdown that hangs needs the owner's stop request to fall between two instructions of a worker.",
 ["code/source/jobs.c","code/source/threading/thread.c"],
 [("stop request and join","code/source/jobs.c: zpl_jobs_free"),("worker transition to running","code/source/jobs.c: zpl__jobs_entry")])
p("C03","Job queues are bounded, FIFO per priority, and report full and empty exactly",
 "Enqueueing at a priority succeeds exactly when fewer jobs than the configured limit (100 when none is given) are waiting at that priority, and a refusal leaves the waiting jobs untouched. "
 "Jobs of equal priority start in the order they were accepted when one worker serves them, and the per-priority and all-priority full and empty queries, and the value returned by processing, always agree with the jobs actually waiting.",
 ["histories","schedules"],"every history of enqueue/process/query calls over all priorities and limits 1-128, workers progressing at any speed",
 "No test covers the job queues; wrap-around, limits and hand-out order depend on the history of enqueues and on when workers become free.",
 ["code/source/jobs.c","code/header/essentials/collections/ring.h"],
 [("bounded ring per priority","code/header/essentials/collections/ring.h"),("dispatch by priority chance","code/source/jobs.c: zpl_jobs_process"),("limit","code/source/jobs.c: zpl_jobs_enqueue_with_priority")])
p("C04","A lock is held by at most one thread, and a released lock can be taken again",
 "Between a successful acquire and the matching release of a mutex or of a 32-bit, 64-bit or pointer-sized spin lock, no other thread's acquire of that lock succeeds, by blocking, spinning or trying, and everything written under the lock is seen by the next holder. "
 "A timed spin or a try gives up in bounded time and reports failure exactly when it did not get the lock; a blocked or untimed waiter gets the lock once the holders release it.",
 ["schedules"],"all interleavings of 2-5 threads using blocking, timed and trying acquires on the same lock",
 NT+"; locks are never contended in the suite.",
 ["code/source/threading/atomic.c","code/source/threading/mutex.c","code/header/threading/atomic.h","code/header/threading/mutex.h"],
 [("spin and try locks","code/source/threading/atomic.c: zpl_atomic32_spin_lock, zpl_atomic32_try_acquire_lock and 64-bit/pointer forms"),("mutex","code/source/threading/mutex.c")])
p("C05","A semaphore never loses or invents a wake-up",
 "The number of waits that have returned (plus successful trywaits) never exceeds the number of posted units, and while unconsumed units exist a waiter returns after finitely many steps; waits interrupted by signals resume waiting. "
 "Posting a count adds exactly that many units (none for zero or a negative count), release adds one, and trywait never blocks, returning zero exactly when it consumed a unit.",
 ["schedules","fault_sequences"],"all interleavings of posters and waiters, with signal interruptions at any wait",
 NT+"; interrupted waits in particular never happen in the suite.",
 ["code/source/threading/sem.c","code/header/threading/sem.h"],
 [("wait retry on interruption","code/source/threading/sem.c: zpl_semaphore_wait"),("post count","code/source/threading/sem.c: zpl_semaphore_post")])
p("C06","A started thread runs its procedure once; join and destroy wait for its result",
 "A start that reports success runs the procedure exactly once in a new thread with the given user data and stack size and, unless created as no-wait, returns only after that thread has begun, without waiting for the procedure to finish; a start the system refuses does not report success, runs nothing, and the thread object can still be destroyed or started again. "
 "After join or destroy returns the procedure has finished, its return value is visible and the thread no longer counts as running; threads alive at the same time have different ids, and no thread, semaphore or attribute object is left behind.",
 ["schedules","fault_sequences"],"all interleavings of starters, joiners and thread bodies, with thread creation failing at any point",
 NT+", and none makes thread creation fail.",
 ["code/source/threading/thread.c","code/header/threading/thread.h"],
 [("start and its handshake","code/source/threading/thread.c: zpl_thread_start_with_stack, zpl__thread_run"),("join/destroy","code/source/threading/thread.c: zpl_thread_join, zpl_thread_destroy")])
p("C07","A merge barrier releases nobody before the last arrival, then everybody",
 "With a target of N, no thread waiting at the merge point continues before N threads have reached it, and once they have, every waiter continues after finitely many steps; reaching without waiting returns each arrival number 1..N exactly once and never blocks on the merge. "
 "The barrier can be reused: setting a new target waits until the previous merge has completely drained, so no thread of one round is counted in or released by another.",
 ["schedules"],"all interleavings of N=1-6 arriving threads over several rounds, with waiting and non-waiting arrivals mixed",
 NT+"; the merge primitive has no test.",
 ["code/source/threading/sync.c","code/header/threading/sync.h"],
 [("arrival and chain release","code/source/threading/sync.c: zpl_sync_reach, zpl_sync_reach_and_wait, zpl_sync_release"),("round gate","code/source/threading/sync.c: zpl_sync_set_target")])
p("C08","Atomic operations are indivisible and return the value they replaced",
 "Every history of concurrent 32-bit, 64-bit and pointer-sized atomic operations (load, store, exchange, compare-exchange, fetch-add, fetch-and, fetch-or) on one word is linearizable: there is one order of the operations, consistent with real time, in which each returned value is the word's value just before it took effect. "
 "Compare-exchange stores the desired value exactly when the word equals the expected value, and neighbouring memory is never touched. What a thread wrote before an operation on the word is there for a thread whose later operation sees the result, also where the compiler inlines the operations into the code around them.",
 ["schedules","histories"],"all instruction-level interleavings of 2-4 threads issuing atomic operations with arbitrary operands",
 NT+"; atomicity cannot be observed from one thread.",
 ["code/source/threading/atomic.c","code/header/threading/atomic.h"],
 [("inline-assembly and compiler-builtin operations","code/source/threading/atomic.c")])
p("C36","A full memory fence makes earlier writes visible before later reads",
 "A write a thread makes before a full memory fence is visible to every other thread before the thread makes any read after the fence, however long the processor would otherwise hold writes back. "
 "So two threads that each write one word, fence, and read the other's word never both read the old value, and locks made of plain words and full fences exclude each other.",
 ["schedules"],"all interleavings of 2-4 simulated processors with store buffers that drain at any point",
 NT+"; a missing fence shows only under a particular timing of two processors' store buffers.",
 ["code/source/threading/fence.c","code/header/threading/fence.h"],
 [("full fence","code/source/threading/fence.c: zpl_mfence")])
p("C37","The processor count is honest and pinning a thread does what it claims",
 "The library counts exactly the processors the machine has online, or says its count is inaccurate and assumes one; the threads of all cores add up to the count. "
 "Pinning the calling thread to a core's thread reports success only if the thread is then confined to one single processor, and otherwise leaves it as it was; different cores and threads are different processors, together all that are online where processors are numbered without gaps (of more than 1024, the first 1024), and no other thread is affected.",
 ["fault_sequences","schedules"],"machines of 1 to 64 processors, contiguous or not; the count or the pinning refused; all interleavings of 1-4 threads pinning themselves",
 "The suite runs on one machine, whose system never refuses; nothing tests pinning.",
 ["code/source/threading/affinity.c","code/header/threading/affinity.h"],
 [("count","code/source/threading/affinity.c: zpl_affinity_init"),("pinning","code/source/threading/affinity.c: zpl_affinity_set"),("threads of a core","code/source/threading/affinity.c: zpl_affinity_thread_count_for_core")])
p("C38","Dynamic libraries stay loaded exactly until the last unload",
 "Loading a library gives its handle exactly when the system loaded it and null otherwise; it stays loaded until it has been unloaded as often as it was loaded, also when its file disappears. "
 "Looking up a name gives the address it has in that very library, or null when that library has none.",
 ["histories","fault_sequences"],"all histories of loads, unloads and look-ups over several libraries that come and go; loads refused at any point",
 "No test loads a library.",
 ["code/source/dll.c","code/header/dll.h"],
 [("load and unload","code/source/dll.c: zpl_dll_load, zpl_dll_unload"),("look-up","code/source/dll.c: zpl_dll_proc_address")])
p("C09","Threads formatting or parsing separate data do not disturb each other",
 "When several threads at once format text to buffers, bounded buffers, strings or their own in-memory files, convert encodings, parse, query or write their own documents, addresses and options, sort, hash, use their own containers, generators and allocators, or print, each thread gets exactly the results it gets when running alone. "
 "Text returned in a per-thread scratch buffer stays intact until the same thread formats into that buffer again (printing to a file, writing an address or querying a document tree may do so), whatever other threads do.",
 ["schedules"],"all interleavings of 2-4 threads running formatting/parsing/querying workloads on unshared objects",
 NT+", so hidden state shared between calls is never exposed.",
 ["code/source/core/print.c","code/source/adt.c","code/source/core/string.c","code/source/parsers/json.c","code/source/core/file_stream.c"],
 [("per-thread scratch buffers","code/source/core/print.c: zpl_bprintf_va, zpl_fprintf_va; code/source/adt.c: zpl_adt_query; code/source/core/stringlib.c")])
p("C10","Relative time never runs backwards, wall time is true, no sleep is short",
 "Relative time starts near zero, never decreases as seen by any thread or across threads, advances exactly with the system's monotonic clock, and ignores jumps of the wall clock; UTC time is the current wall clock in milliseconds since 1601 and local time differs from it by the zone offset only; the time stamp counter is read whole. "
 "A sleep of n milliseconds returns after at least n milliseconds even when signals interrupt it, and after no more than n plus what the system itself oversleeps.",
 ["schedules","fault_sequences"],"all interleavings of first use and later reads in several threads; signal interruptions of sleeps; wall clock jumps and arbitrary monotonic stalls",
 "The time tests read a well-behaved clock from one thread; no interruption, jump or concurrent first use occurs.",
 ["code/source/core/time.c","code/header/core/time.h"],
 [("process-relative origin","code/source/core/time.c: zpl_time_rel_ms"),("sleep","code/source/core/time.c: zpl_sleep_ms"),("wall clock","code/source/core/time.c: zpl_time_utc_ms, zpl_time_tz_ms")])
p("C11","Seeding a random generator always finishes; ranged draws stay in range",
 "Initialising a random generator finishes after finitely many steps for every behaviour of the clocks - stalls, coarse ticks, jumps - and every thread interleaving, and two generators initialised in the same process, even at the same instant or in different threads, do not produce the same sequence. "
 "A generator's output depends only on its own state (a copied generator repeats its original), unique draws do not repeat, successive draws neither get stuck nor leave any bit of their type untouched, and a ranged draw lies within its inclusive bounds.",
 ["schedules","fault_sequences"],"all stall and jump patterns of the clocks during initialisation, all interleavings of initialisations in several threads, all ranges whose width fits the type",
 "Random number generation is untested, and a stall of the initialising thread cannot be arranged in a unit test.",
 ["code/source/core/random.c","code/header/core/random.h"],
 [("time noise loop","code/source/core/random.c: zpl__get_noise_from_time"),("shared counter","code/source/core/random.c: zpl_random_init"),("ranged draws","code/source/core/random.c: zpl_random_range_i64, zpl_random_range_isize, zpl_random_range_f64")])
# ---------------------------------------------------------------- files
p("C12","File reads and writes behave like a byte array with a cursor, and never lie",
 "Over any sequence of opens in every mode, reads, writes, positional reads and writes, seeks, skips, tells, size queries, truncations and closes, files and cursors behave like byte arrays with a cursor (appending handles always write at the end), however the system splits or interrupts transfers. "
 "A write that reports success stored every byte at its place and a read that reports success delivered every byte present in the requested span and reports how many; when the system refuses part of a transfer the call reports failure, and the cursor moves only past bytes actually transferred. Closing a file, temporary ones included, leaves nothing behind, and descriptor 0 is a file like any other.",
 ["histories","fault_sequences"],"all operation sequences; short, interrupted and failing reads and writes, full disk and failing opens at any point",
 "The suite never touches a file on disk and never sees a short or interrupted transfer.",
 ["code/source/core/file.c","code/header/core/file.h"],
 [("positional transfer","code/source/core/file.c: zpl__posix_file_read, zpl__posix_file_write, zpl__posix_file_seek"),("cursor wrappers","code/header/core/file.h: zpl_file_read, zpl_file_write, zpl_file_seek"),("open modes","code/source/core/file.c: zpl__posix_file_open")])
p("C13","Writing a whole file succeeds only if the file then holds exactly those bytes",
 "When a whole-file write reports success, reading the file back yields exactly the given bytes, whatever the file held before; when any step fails - opening, a partial or refused write, a full disk, closing - it reports failure and stores a non-success error code if the caller asked for one. "
 "No descriptor or memory is left behind either way.",
 ["fault_sequences","inputs"],"all contents and previous contents; every failing, short or interrupted system call",
 "No test writes a file; disk-full and short writes cannot be provoked by a unit test.",
 ["code/source/core/file.c"],
 [("whole-file write","code/source/core/file.c: zpl_file_write_contents"),("transfer","code/source/core/file.c: zpl__posix_file_write")])
p("C14","Reading a whole file yields exactly its bytes or nothing, never invented data",
 "Reading a whole file, as bytes or as lines, returns exactly the file's content (zero-terminated when asked, split at line ends for lines) or reports that nothing was read; a missing file, a folder, a failing or short read, or a failing allocation never produces made-up, stale or partly filled data and never crashes. "
 "No descriptor is left open, nothing stays allocated beyond what the caller is given to free, and released contents are empty.",
 ["fault_sequences","inputs"],"all file contents and sizes; every failing, short or interrupted system call and every failing allocation",
 "No test reads a file from disk, and read errors and allocation failures never occur in the suite.",
 ["code/source/core/file.c","code/header/core/file.h","code/header/core/string.h"],
 [("whole-file read","code/source/core/file.c: zpl_file_read_contents, zpl_file_read_lines"),("line splitting","code/source/core/string.c: zpl_str_split_lines")])
p("C15","Copying a file is complete or reported failed, and never harms the source",
 "A file copy that reports success leaves the destination with exactly the source's bytes, whatever it held before (a new one also with the source's permissions), and the source untouched; a transfer that is merely split or interrupted is carried on; with fail-if-exists it refuses an existing destination and leaves it unchanged. "
 "A missing source, a copy the system cuts short or refuses, an unwritable destination or data lost on closing it is reported as failure, without creating a destination for a missing source and without leaving descriptors open.",
 ["fault_sequences","inputs"],"all source and destination contents; every failing, short or interrupted system call",
 "No test copies a file; partial kernel copies and refused opens do not happen in a unit test.",
 ["code/source/core/file_misc.c"],
 [("copy loop","code/source/core/file_misc.c: zpl_fs_copy")])
p("C16","Moving or removing a file never loses data at any crash point",
 "At every point at which the process can die during a move, the file's bytes are reachable under the old name, the new name or both; a move that reports success leaves them under the new name only, a failed move leaves them under the old name, and an existing destination is never overwritten. "
 "Remove reports success exactly when the name is gone because of it, and existence and type queries agree with the file system.",
 ["crash_points","fault_sequences","histories"],"a crash or an error at every system call of every history of moves, removes and queries",
 "Crash points cannot be tested from inside the process, and no test moves or removes a file.",
 ["code/source/core/file_misc.c","code/source/core/file.c"],
 [("move as link then unlink","code/source/core/file_misc.c: zpl_fs_move"),("remove","code/source/core/file_misc.c: zpl_fs_remove"),("queries","code/source/core/file.c: zpl_fs_exists; code/source/core/file_misc.c: zpl_fs_get_type")])
p("C17","A changed file is reported as changed once, an unchanged one never",
 "The last-write time reported for an existing file is the file system's modification time, and zero for one that cannot be examined. "
 "Asked whether an open file has changed, the library answers yes exactly when that time differs from the one at the previous question (the first question counts as changed), over every history of writes, touches, replacements, deletions and clock jumps.",
 ["histories","fault_sequences"],"all histories of modifications and questions; clock jumps backwards and forwards; failing examinations",
 "No test modifies a file between two questions.",
 ["code/source/core/file.c","code/source/core/file_misc.c"],
 [("modification time","code/source/core/file_misc.c: zpl_fs_last_write_time"),("change detection","code/source/core/file.c: zpl_file_has_changed")])
p("C18","Directory listings are complete and exact; directory creation tells the truth",
 "A listing of a directory names every entry except the two self links exactly once, recursively every entry of every subdirectory, and nothing else, for all names without line breaks; directory information gives the same entries with their true types. "
 "Creating a directory path recursively reports success only if the whole path then exists as directories, created directories carry the requested permissions, single creation and removal report the system's verdict, resolving a full path gives the system's absolute name (or a copy of the input when there is none) in the caller's allocator, and no directory handle or memory is left behind, also when opening a directory or allocating fails.",
 ["inputs","fault_sequences"],"all directory trees and names; failing opens, creations and examinations at any point",
 "No test lists or creates a directory.",
 ["code/source/core/file_misc.c"],
 [("listing","code/source/core/file_misc.c: zpl__file_direntry, zpl_path_dirlist"),("directory information","code/source/core/file_misc.c: zpl_dirinfo_init, zpl_dirinfo_step, zpl_file_dirinfo_refresh"),("creation","code/source/core/file_misc.c: zpl_path_mkdir_recursive, zpl_path_mkdir, zpl_path_rmdir")])
p("C19","A packed archive unpacks to the same files, or packing reports failure",
 "When packing a list of files or a directory tree (names relative, without line breaks) reports success, unpacking the archive into an empty directory recreates exactly the same regular files with the same relative names and bytes, and any tar reader finds well-formed records with correct sizes, last write times and checksums and an end mark. "
 "If any file cannot be opened or read, a name does not fit the format, or the archive cannot be written in full, packing reports an error instead; files and handles are released either way.",
 ["inputs","fault_sequences"],"all sets of names, sizes and contents; every failing or short system call on the files and on the archive",
 "No test packs an archive; a disk filling up in the middle of one cannot be unit-tested.",
 ["code/source/core/file_tar.c","code/header/core/file_tar.h"],
 [("packing","code/source/core/file_tar.c: zpl_tar_pack, zpl_tar_pack_dir"),("unpacking","code/source/core/file_tar.c: zpl_tar_unpack, zpl_tar_default_unpack_file")])
p("C20","Unpacking a damaged archive terminates, reports it and stays inside its target",
 "For every byte sequence taken as an archive - truncated anywhere, corrupted, or hostile - unpacking terminates, visits each intact record in order with its true name, offset and length, flags records whose checksum is wrong, and reports an error if the archive ends inside a record or cannot be read; the supplied lister prints a line for every intact regular file and nothing else. "
 "Unpacking into a directory whose contents hold no links out of it never creates or changes anything outside that directory, writes only bytes that are in the archive, and reports an error if a file could not be created or written in full.",
 ["inputs","fault_sequences"],"all truncation points, corruptions and crafted names; failing and short reads and writes at any point",
 "No test unpacks an archive, least of all a damaged one.",
 ["code/source/core/file_tar.c"],
 [("record loop","code/source/core/file_tar.c: zpl_tar_unpack"),("extraction","code/source/core/file_tar.c: zpl_tar_default_unpack_file")])
p("C21","An in-memory file behaves like a byte array and survives allocation failure",
 "Over any sequence of reads, writes, positional reads and writes and seeks, an in-memory file behaves like a byte array with a cursor clamped to its size: writable copies grow as needed, writable caller buffers never grow or overflow, read-only ones refuse writes, and reads never go past the end and report how many bytes they delivered. "
 "When an allocation fails the call reports failure, content and cursor are unchanged, and closing releases everything.",
 ["histories","fault_sequences"],"all operation sequences on all three kinds of stream; allocation failure at any point",
 "The stream tests use a handful of in-range accesses and one allocator that never fails.",
 ["code/source/core/file_stream.c","code/header/core/file_stream.h"],
 [("memory file operations","code/source/core/file_stream.c: zpl__memory_file_read, zpl__memory_file_write, zpl__memory_file_seek"),("creation","code/source/core/file_stream.c: zpl_file_stream_new, zpl_file_stream_open")])
p("C22","Formatted output reaches the file in full or the call says it did not",
 "Printing formatted text to a file or standard stream appends exactly the formatted bytes, in call order and however the system splits or interrupts the writes, and returns their number plus one for the closing zero byte; if the text could not be written in full, or does not fit the print buffer, the call returns a negative number. "
 "Formatting into a bounded buffer never writes past its end, always closes the text with a zero byte and returns a negative number when the text does not fit, the buffer then holding as much of its start as fits; formatting into a new block gives the whole text, or null and a negative number when memory runs out; of text under a precision no byte beyond it is read; a printed floating-point number of any size is within one unit of its last printed digit, infinities and not-a-number are named.",
 ["fault_sequences","histories"],"all print sequences to on-disk files, in-memory files and pipes; short, interrupted and failing writes at any point",
 "The print tests write to a healthy terminal and check only formatting.",
 ["code/source/core/print.c","code/source/core/file.c"],
 [("print to file","code/source/core/print.c: zpl_fprintf_va, zpl_printf_va"),("transfer","code/source/core/file.c: zpl__posix_file_write")])
# ---------------------------------------------------------------- memory
p("C23","Live blocks of any allocator are disjoint, aligned, in bounds and keep bytes",
 "Over any history of allocations, frees, resizes, clears and scopes, every live block handed out by the heap, arena, sub-arena, pool, scratch or stack allocator has the requested size and alignment, starts zeroed, lies inside memory that allocator owns, overlaps no other live block, and keeps its content until freed, across resizes included. "
 "A request that cannot be met returns null and leaves all live blocks and the allocator usable, everything taken from a backing allocator is returned to it, and heap usage statistics equal the live blocks.",
 ["histories","fault_sequences"],"all sequences of operations with all sizes and power-of-two alignments; backing allocation failure at any point",
 "The memory and pool tests use a few fixed sizes, one alignment, and allocations that always succeed.",
 ["code/source/essentials/memory_custom.c","code/header/essentials/memory_custom.h","code/source/essentials/memory.c"],
 [("allocators","code/source/essentials/memory_custom.c"),("arena scopes","code/header/essentials/memory_custom.h: zpl_arena_snapshot_begin, zpl_arena_sub"),("resize","code/header/essentials/memory.h: zpl_default_resize_align")])
p("C24","Virtual memory trimming and release affect exactly the pages named",
 "Allocated virtual memory is readable, writable and zeroed over its whole size; trimming keeps exactly the requested middle part, with its content, and releases exactly the rest; freeing releases exactly the region; purging keeps the region mapped and reports success exactly when the system accepted it. "
 "When the system has no memory, allocation yields a null region, and no call ever touches pages outside the region it was given.",
 ["histories","fault_sequences"],"all sequences of allocate/trim/purge/free over all page-multiple sizes; mapping failures at any point",
 "No test uses virtual memory, and failing mappings cannot be provoked in one.",
 ["code/source/core/memory_virtual.c","code/header/core/memory_virtual.h"],
 [("mapping calls","code/source/core/memory_virtual.c: zpl_vm_alloc, zpl_vm_free, zpl_vm_trim, zpl_vm_purge")])
p("C25","Arrays, buffers and rings match their models and survive allocation failure",
 "Over any history of operations a growable array behaves like a sequence, a fixed buffer like a bounded sequence, a linked list like a linked list, and a ring like a queue that drops its oldest element when it overflows, with counts and capacities to match. "
 "When an allocation fails during an array operation the operation reports failure, the previous content is intact and usable, and freeing returns every block.",
 ["histories","fault_sequences"],"all operation histories; allocation failure at any point",
 "Container tests are few fixed sequences and allocation never fails in them.",
 ["code/header/essentials/collections/array.h","code/header/essentials/collections/buffer.h","code/header/essentials/collections/ring.h","code/header/essentials/collections/list.h"],
 [("growth","code/header/essentials/collections/array.h: zpl__array_set_capacity and callers"),("ring indices","code/header/essentials/collections/ring.h")])
p("C26","A hash table behaves as a map through growth, removal and allocation failure",
 "Over any history of set, get, remove, clear, grow, rehash and iteration, a hash table behaves as a map from 64-bit keys to values: get finds exactly the last value set and not removed, iteration visits every pair once, and values are never mixed between keys, whatever the collisions. "
 "When an allocation fails no existing pair is lost or changed, the table stays usable, a set that could not be stored leaves the table as it was, and destroying it returns every block.",
 ["histories","fault_sequences"],"all operation histories including colliding keys; allocation failure at any point",
 "The table test runs one short history without collisions, removals under growth, or failing allocations.",
 ["code/header/essentials/collections/hashtable.h"],
 [("insertion and growth","code/header/essentials/collections/hashtable.h: set, rehash"),("removal","code/header/essentials/collections/hashtable.h: remove, rehash_fast")])
p("C27","Growable strings match a model string and survive allocation failure",
 "Over any history of appends (of other text or of parts of the string itself), formatted appends, trims, sets, duplications, joins, space reservations and clears, a growable string equals the model string, is zero-terminated, and reports true length and capacity. "
 "When an allocation fails the call signals it with a null result, nothing is written out of bounds, no memory is leaked, and the string passed in is intact and still owned by the caller.",
 ["histories","fault_sequences"],"all operation histories; allocation failure at any point",
 "Strings are only used incidentally by other tests; allocation never fails there.",
 ["code/header/core/stringlib.h","code/source/core/stringlib.c"],
 [("reservation","code/source/core/stringlib.c: zpl_string_make_space_for"),("operations","code/source/core/stringlib.c, code/header/core/stringlib.h")])
# ---------------------------------------------------------------- documents
p("C28","JSON survives a write and re-parse, and failures are reported without damage",
 "A document tree of any shape that is written as JSON to a file, in memory or on disk, and parsed again yields the same tree in names, order, types and values (a real number without exponent to six decimals; names free of quotes and backslashes), in the style it was parsed in (quotes of names, assignment signs, delimiters between members, outer braces or none) and with every brace closed; writing reports success only if every byte reached the file. Damaged or cut-short text never makes the parser read or write outside of it. "
 "If an allocation, a read or a write fails at any point, the parse or write reports an error, never a partial result as success, and after the tree is freed nothing is leaked, corrupted or freed twice.",
 ["inputs","fault_sequences"],"all document shapes; every failing allocation and every short or failing write",
 "The JSON tests parse fixed texts; only two of them have an allocator that fails, at fixed points.",
 ["code/source/parsers/json.c","code/source/adt.c","code/header/parsers/json.h"],
 [("parser","code/source/parsers/json.c: zpl_json_parse and helpers"),("writer","code/source/parsers/json.c: zpl_json_write, zpl__json_write_value"),("tree","code/source/adt.c")])
p("C29","CSV survives a write and re-parse, and failures are reported without damage",
 "A table of fields written as CSV, with or without header and with any of the delimiters , ; : | and tab, and parsed again yields the same columns (members of an object with a header, of an array without), rows and cells: quoted cells keep their exact text, unquoted cells that are a number as a whole keep their value (to six decimals) and all others their text. Parsing text without a cell, with ragged rows or with unfinished quotes reports an error. "
 "If an allocation or a write fails at any point the call reports an error rather than partial data as success, and after freeing nothing is leaked or corrupted.",
 ["inputs","fault_sequences"],"all tables including quoting and delimiters; every failing allocation and every short or failing write",
 "The CSV tests parse a few fixed texts with allocations and writes that always succeed.",
 ["code/source/parsers/csv.c","code/header/parsers/csv.h"],
 [("parser","code/source/parsers/csv.c: zpl_csv_parse_delimiter"),("writer","code/source/parsers/csv.c: zpl_csv_write_delimiter, zpl_csv_write_string_delimiter")])
p("C30","A document tree stays consistent under every edit history",
 "Over any history of adding, inserting, finding, querying, moving, swapping and removing nodes, the document tree equals a model tree: children keep their order, every node's parent link names the node that holds it, queries return exactly the node the path denotes, and numbers keep their values. "
 "When an allocation fails the edit reports failure and the tree is unchanged; freeing the root returns every block.",
 ["histories","fault_sequences"],"all edit histories over nested objects and arrays; allocation failure at any point",
 "The tree tests build one small fixed document; node arrays never grow past their first capacity.",
 ["code/source/adt.c","code/header/adt.h"],
 [("editing","code/source/adt.c: zpl_adt_alloc_at, zpl_adt_append_*, zpl_adt_move_node_at, zpl_adt_swap_nodes, zpl_adt_remove_node"),("queries","code/source/adt.c: zpl_adt_query, zpl_adt_find")])
# ---------------------------------------------------------------- network and processes
p("C31","Sockets carry bytes and addresses faithfully and report every failure",
 "Bytes received on a connection are, in order and without gaps or repeats, a prefix of the bytes the peer's sends reported as sent; datagrams arrive whole or not at all with the true sender address; a send reports how much was taken; and bound and peer addresses are reported truthfully. "
 "Creation failures, resets, would-block and interruptions are reported as the documented error value without leaking a descriptor or ending the process, and waiting for data returns 1 or more only if data or a connection is ready, 0 only after at least the given time.",
 ["fault_sequences","schedules"],"all interleavings of two endpoints over a simulated network with delay, loss and duplication of datagrams, partial transfers, resets, would-block, interruptions and failing system calls",
 "No test opens a socket.",
 ["code/source/socket.c","code/header/socket.h"],
 [("creation","code/source/socket.c: zpl_socket_create"),("transfer","code/source/socket.c: zpl_socket_send, zpl_socket_receive, zpl_socket_send_to, zpl_socket_receive_from"),("waiting","code/source/socket.c: zpl_socket_select, zpl_socket_multi_select")])
p("C32","Captured command output is exact, bounded and complete",
 "Running a command and capturing its output into a buffer stores the first bytes of the output, never more than the buffer holds; capturing it into a string stores all of it, zero bytes included; both consume the stream to its end or close it exactly once. "
 "If the command cannot be started, its output cannot be read to the end, or memory runs out, the call reports failure and nothing is leaked or corrupted.",
 ["fault_sequences","inputs"],"all outputs and buffer sizes; failing start, output arriving in pieces, failing allocations",
 "No test runs a command.",
 ["code/source/core/misc.c"],
 [("capture","code/source/core/misc.c: zpl_system_command, zpl_system_command_str")])
p("C33","Command-line options are parsed as declared, also when memory runs out",
 "For every set of declared options (added in any order, positional or not, few or many) and every argument list, parsed once or repeatedly, each option holds the last value given to it by its short name, its long name or its position, options not given yield the caller's fallback, flags are reported as present exactly when given, and every wrong argument is reported as an error of the right kind that names it; parsing succeeds exactly when there is none. "
 "The arguments are only read within their bounds, the help and error screens name every option and error, and when memory runs out while parsing, parsing reports failure, no option counts as given without a value and nothing is leaked.",
 ["inputs","fault_sequences"],"all option sets, argument lists, repeated parses and allocation failures while parsing",
 "No test covers options.",["code/source/opts.c","code/header/opts.h"],
 [("declaring","code/source/opts.c: zpl_opts_add, zpl_opts_positional_add"),("parsing","code/source/opts.c: zpl_opts_compile, zpl__opts_set_value, zpl__opts_find"),("lookup","code/source/opts.c: zpl_opts_string, zpl_opts_integer, zpl_opts_real, zpl_opts_has_arg, zpl_opts_positionals_filled")])
p("C34","Addresses (URIs) and their trees carry the same origin and parameters",
 "Writing a tree of an origin and named parameters (text, numbers, bare names) gives the origin and the percent-encoded parameters in order, and parsing that text, or any equally valid encoding of it, gives the same origin, names and values in order, text staying text unless all of it is a number, and a malformed escape staying as it is written. "
 "Parsing any text stays within its bytes, and when memory runs out or a write fails, building, writing and parsing report it and nothing is leaked.",
 ["inputs","fault_sequences"],"all trees and texts, all allocation and write failures",
 "The tests parse a handful of well-formed texts with memory to spare.",["code/source/parsers/uri.c","code/source/adt.c"],
 [("parsing","code/source/parsers/uri.c: zpl_uri_parse, zpl__uri_decode_str"),("writing","code/source/parsers/uri.c: zpl_uri_write, zpl_uri_write_string"),("numbers","code/source/adt.c: zpl_adt_parse_number_strict")])
p("C35","Copied, split, encoded and looked-up text is exact, or its failure is reported",
 "A duplicated text equals its source, cut to the given size and terminated; splitting a text into lines gives every line once and in order; base64 encoding gives the published encoding and decoding gives back the data while malformed encodings are refused; the value of an environment variable is the one last set. "
 "Results are independent of each other and of later changes of their source, source data is read only within its bounds, and when memory runs out the call returns nothing and leaks nothing.",
 ["inputs","fault_sequences"],"all texts, sizes, data, histories of environment changes and allocation failures",
 "The tests encode one text with memory to spare.",["code/header/core/string.h","code/source/hashing.c","code/source/core/misc.c"],
 [("duplicate, split","code/header/core/string.h: zpl_strdup, zpl_str_split_lines"),("base64","code/source/hashing.c: zpl_base64_encode, zpl_base64_decode"),("environment","code/source/core/misc.c: zpl_get_env, zpl_get_env_str, zpl_set_env, zpl_unset_env")])
# ---------------------------------------------------------------- not applicable
NAWHY="Existing tests sample a handful of inputs."
p("C39","Shuffling, sorting and reversing an array lose nothing and order as promised",
 "Whatever the clocks and random seeds are, and however many threads do it at once to arrays of their own, shuffling leaves every element of the array present exactly once and whole, touches nothing outside the array, can give every order of its elements, and gives different orders when repeated. "
 "Reversing puts element i at place n-1-i; zpl_sort with any of the supplied comparators orders the elements and keeps each exactly once; every radix sort leaves its items ordered; binary search of a sorted array returns a place holding the key when there is one and -1 when there is none.",
 ["inputs","schedules"],"all seeds the simulated clocks and threads can produce, element sizes from 1 to 600 bytes, arrays of up to 400 elements",
 "No test covers sorting or shuffling, and a random seed differs on every run.",
 ["code/source/core/sort.c","code/header/core/sort.h"],
 [("shuffle and reverse","code/source/core/sort.c: zpl_shuffle, zpl_reverse"),("sorts","code/source/core/sort.c: zpl_sort, zpl_radix_sort_*"),("search","code/header/core/sort.h: zpl_binary_search")])
p("C40","Memory comes from the allocator that was given and goes back to it alone",
 "Whatever is made with an allocator of the caller's own (array, string, buffer, ring, hash table, JSON, CSV and URI trees and their written text, options, memory file, file contents and lines, directory listing, path, captured output, duplicated, encoded or formatted text, arena, pool, stack) keeps all its memory in that allocator: it is taken from there, grown there and given back there, never to another allocator and never twice; other allocators' books do not change, also when objects of several allocators are used together or one is copied or written out into another. "
 "When an allocator refuses, the call says so and leaves nothing behind; once everything is released every allocator has all its blocks back.",
 ["histories","fault_sequences"],"all histories over three allocators with refused allocations at any point",
 "The tests use the process heap only, where a block returned to the wrong place goes unnoticed.",
 ["code/header/essentials","code/source/adt.c","code/source/core","code/source/parsers","code/source/opts.c"],
 [("containers","code/header/essentials/collections/array.h, buffer.h, ring.h, hashtable.h"),("strings","code/source/core/stringlib.c"),("trees","code/source/adt.c: zpl_adt_make_branch; code/source/parsers"),("files and streams","code/source/core/file.c, file_stream.c, file_tar.c, file_misc.c"),("options","code/source/opts.c: zpl_opts_init, zpl_opts_free")])
p("N01","JSON and CSV grammars are accepted and rejected as specified",
 "Every text of the JSON5 and CSV grammars parses to the value the grammar gives it, and every other text is rejected with an error.",
 ["inputs"],"all input texts",NAWHY,["code/source/parsers/json.c","code/source/parsers/csv.c"],[("parsers","code/source/parsers")])
p("N02","Hashes and checksums equal their published definitions",
 "Adler32, CRC, FNV and murmur results equal their published definitions for every input.",
 ["inputs"],"all byte strings",NAWHY,["code/source/hashing.c"],[("functions","code/source/hashing.c")])
p("N03","The regular expression engine matches exactly the language of its pattern",
 "For every pattern that compiles and every text, a match is reported exactly when the text contains a substring of the pattern's language, and captures delimit it.",
 ["inputs"],"all patterns and texts","No test covers the engine.",["code/source/regex.c"],[("engine","code/source/regex.c")])
p("N05","Vector, matrix and scalar math agree with real arithmetic within tolerance",
 "Vector, matrix, quaternion and scalar functions agree with exact arithmetic within floating-point tolerance, and inverse pairs cancel.",
 ["inputs"],"all finite arguments","No test covers math.",["code/source/math.c"],[("functions","code/source/math.c")])
p("N06","Character, number and UTF-8 conversions are exact and inverse to each other",
 "Number parsing and printing, case mapping, tokenising and UTF-8/UCS-2 conversion give exact results and inverse pairs cancel.",
 ["inputs"],"all strings",NAWHY,["code/source/core/string.c","code/source/core/stringlib.c"],[("functions","code/source/core/string.c")])
p("N08","Child processes are started, joined and their exit codes reported",
 "A started child process runs the given command with the given streams, and waiting returns its exit code.",
 ["schedules","fault_sequences"],"all child behaviours","No test covers processes.",["code/source/process.c"],[("process control","code/source/process.c")])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
