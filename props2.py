ILVT = "stateless model checking of the real code under a controlled scheduler (preemption-bounded / sleep-set exhaustive DFS over interleavings) with vector-clock race detection"
prop("T01", "Mutexes, locks, condition variables and atomics keep their promises",
     "At most one thread at a time is inside a critical section of a mutex, whatever mix of lock, try_lock and scoped locks guards it; every lock object releases its mutex exactly once, including when it is moved or assigned over, and try_lock succeeds on a free mutex. A waiter on a condition variable holds the mutex again when it wakes, no signal or broadcast is lost, and no waiter sleeps forever once its condition was signalled. Every atomic read-modify-write returns the value its own step saw, and what was written before a hand-over through one is visible after it.",
     ["schedules", "histories"], "all interleavings of 2-4 threads running each usage pattern",
     "The thread test runs each primitive under the one schedule the machine happens to produce.",
     ["rpp/thread.h", "rpp/thread0.h", "rpp/pos/thread_pos.cpp"],
     [("mutex and condition variable", "rpp/pos/thread_pos.cpp Mutex/Cond"), ("scoped lock", "rpp/thread.h Lock"), ("atomics", "rpp/thread.h Atomic, rpp/pos/thread_pos.cpp atomic_*")],
     "Exhaustive over the interleavings of small thread programs of the real code; the operating system primitives underneath are modelled.", technique=ILVT)
prop("T02", "Threads, flags, promises and futures deliver exactly once",
     "A thread started or spawned runs its function exactly once, with its arguments; joining waits for it, and its future yields its result, after which everything it wrote is visible. Blocking on a flag or future returns only after, and always after, the corresponding signal or fill, for any number of waiters and whoever drops its handle first; interruptions by signal handlers change nothing. Functions, arguments and results are destroyed exactly once and all memory is returned.",
     ["schedules", "histories"], "all interleavings of 2-4 threads running each usage pattern, with EINTR and spurious wake-ups injected",
     "Lost wake-ups, early returns and use of a freed promise need a particular interleaving; tests see one.",
     ["rpp/thread.h", "rpp/thread1.h", "rpp/pos/thread_pos.cpp"],
     [("futex flag", "rpp/pos/thread_pos.cpp Flag"), ("promise hand-over", "rpp/thread.h Promise/Future"), ("thread lifetime", "rpp/thread.h Thread, spawn")],
     "Exhaustive over interleavings of small programs of the real code; futex and pthread calls are modelled.", technique=ILVT)
prop("T03", "Arc objects live exactly as long as some handle does",
     "However handles to a shared object are copied, moved, replaced and dropped by any number of threads, the object stays usable while any handle to it exists and is destroyed exactly once, when the last one goes. Everything any owner did to the object happens before its destruction. The reported reference count is exact when no other thread is changing handles.",
     ["schedules", "histories"], "all interleavings of 2-3 threads duplicating, moving and dropping handles",
     "A double free or use after free at the last reference needs two drops to interleave.",
     ["rpp/rc.h"], [("reference counting", "rpp/rc.h Arc dup/drop")],
     "Exhaustive over interleavings of small programs of the real code.", technique=ILVT)
prop("T04", "Async tasks run once, complete once and hand over their result",
     "A task's coroutine body runs exactly once, its result reaches every form of consumer (awaiting coroutine, blocking thread, polling) exactly once and with everything written before completion visible. An awaiting coroutine is resumed exactly once and after completion, whichever of awaiting and completing happens first, and dropping an unfinished task lets it finish by itself. Every coroutine frame, argument and result is destroyed exactly once.",
     ["schedules", "histories"], "all interleavings of up to 5 coroutines and 3 threads over 12 usage patterns",
     "The await/complete/drop race has three outcomes per pair of steps; the async test observes the common one.",
     ["rpp/async.h"], [("completion state machine", "rpp/async.h Promise continuation states, final_suspend, Task::await/block/destructor")],
     "Exhaustive over interleavings (sleep sets) of small coroutine programs of the real code resumed by hand.", technique=ILVT)
prop("T05", "Every job given to a thread pool runs exactly once, even through shutdown",
     "Every coroutine that suspends onto a live pool is resumed exactly once on one of its workers, no worker sleeps while work it should do is queued, and results arrive as for any task, for any number of workers including a single-core machine and for jobs submitted by workers, by other threads or concurrently. Destroying the pool terminates, resumes nothing twice or afterwards, and destroys jobs that never ran exactly once without leaking.",
     ["schedules", "histories"], "all interleavings within a preemption bound of 1-3 workers, the event thread and 1-2 submitters over 15 job patterns",
     "A lost wake-up or a shutdown race needs a worker preempted between looking at its queue and going to sleep.",
     ["rpp/pool.h", "rpp/async.h"], [("job queues and wake-up", "rpp/pool.h enqueue/do_work"), ("shutdown", "rpp/pool.h ~Pool")],
     "Exhaustive within a preemption bound over small job patterns on the real pool; nested tasks pending at shutdown are excluded (documented leak).", technique=ILVT)
prop("T06", "Events and timed waits wake exactly the coroutines and threads waiting for them",
     "A signalled event stays signalled until reset and releases every thread or coroutine waiting for it, waiting on several returns one that was really signalled, polling agrees with signalling, and moved events keep working. A coroutine awaiting an event or a delay on a pool is resumed exactly once, after the signal or not before the delay, even when signals, waits, resets and shutdown race. Sleeping threads sleep as long as asked, signal-handler interruptions change nothing, and descriptors are all closed.",
     ["schedules", "histories"], "all interleavings within a preemption bound of 1-3 events, their signallers, waiters and the pool's event thread; EINTR injected",
     "Tests signal one event once; races between registering, signalling and resetting do not occur in them.",
     ["rpp/pool.h", "rpp/async.h", "rpp/pos/async_pos.cpp", "rpp/asyncio.h", "rpp/pos/asyncio_pos.cpp"],
     [("event descriptors", "rpp/pos/async_pos.cpp Event"), ("event thread", "rpp/pool.h do_events"), ("timed waits", "rpp/pos/asyncio_pos.cpp wait"), ("sleep", "rpp/pos/thread_pos.cpp sleep")],
     "Exhaustive within a preemption bound; eventfd, timerfd, epoll and poll are modelled.", technique=ILVT)
prop("T08", "Log messages are whole, complete and delivered to the live subscribers",
     "Every logged message is printed once, whole and unmixed with others, indented by the scopes open in its own thread, and is given exactly once, with its text and location, to each subscriber registered throughout the call, in each thread's own order. A subscriber is never called after unsubscribing returned, and tokens are never confused.",
     ["schedules", "histories"], "all interleavings within a preemption bound of two logging threads and 1-3 subscribers; every subscribe/unsubscribe/log sequence up to a depth",
     "The log test logs from one thread with one subscriber.",
     ["rpp/log.h", "rpp/impl/log.cpp", "rpp/log0.h"], [("subscribers", "rpp/impl/log.cpp subscribe/unsubscribe/output"), ("scope indentation", "rpp/log.h Scope")],
     "Exhaustive within the bounds on the real code; output is captured at printf.", technique=ILVT)
prop("M01", "Region allocations are disjoint, stable and fully returned",
     "Memory allocated in a region is properly aligned for its size, overlaps no other live allocation and keeps its contents until its region ends, across any nesting of regions and any sizes around the chunk size. When a region ends everything allocated since it began, and nothing else, is released, and the reported size and depth are restored. Containers on a region behave as on the heap, and each thread has regions of its own.",
     ["histories", "inputs", "schedules"], "all sequences of opening, allocating and closing within the depth, with sizes around the chunk boundaries",
     "The region tests use small sizes in one nesting; chunk boundaries are not crossed in each position.",
     ["rpp/alloc.h", "rpp/impl/alloc.cpp", "rpp/alloc1.h"], [("chunk list", "rpp/impl/alloc.cpp Region_Allocator::make/new_chunk"), ("closing", "rpp/impl/alloc.cpp Region_Allocator::end")],
     "Exhaustive within the depth over the real allocator.")
prop("M02", "Range_Allocator hands out disjoint ranges and forgets nothing",
     "Every range handed out is inside the heap, has the requested size, is aligned as requested (in its data part), and overlaps no other live range; a request is granted whenever a free stretch large enough for the size with its worst-case padding exists in its size class or above. Freed ranges merge so that after freeing everything one stretch of the whole capacity is available again, and the statistics agree with what is live. All this holds for concurrent callers and after a move.",
     ["histories", "inputs", "schedules"], "all allocate/free sequences within the depth over small heaps, all fragmentation patterns of up to 8 ranges, and all interleavings of 2-3 threads within a preemption bound",
     "The test performs one allocation pattern; splitting and merging depend on order and sizes.",
     ["rpp/range_allocator.h"], [("size-class search", "rpp/range_allocator.h allocate"), ("merging", "rpp/range_allocator.h free"), ("bookkeeping", "rpp/range_allocator.h statistics")],
     "Exhaustive within the depth over the real allocator.")
prop("P01", "Profiler timings are exact trees per frame and thread",
     "For every sequence of scopes within a frame the recorded timing tree has one node per distinct path of scopes (name, file and line), with the number of times it was entered, its inclusive time and its inclusive time less its children's, for each thread separately, and frames are kept in order up to the configured history. Reading the timings from any thread while others profile, start or exit sees only finished frames and never freed memory.",
     ["histories", "schedules", "inputs"], "all sequences of frame and scope steps within the depth, and all interleavings of 1-3 threads within a preemption bound",
     "Tests only exercise Prof_Scope incidentally; re-entered paths, history overflow and reader races are not looked at.",
     ["rpp/profile.h", "rpp/impl/profile.cpp"], [("timing tree", "rpp/impl/profile.cpp Frame_Profile::enter/exit/compute"), ("thread registry", "rpp/impl/profile.cpp Thread_Profile, begin_frame/end_frame/iterate_timings")],
     "Exhaustive within the depth on the real code with a virtual clock.", technique=ILVT)
prop("M03", "Typed pools and free lists never hand out an object twice",
     "An object taken from a pool allocator or free list is of the requested size and alignment and disjoint from every other live object; releasing it makes exactly it available again, in whatever order and by whichever thread. The allocation report counts an object as live exactly while it is. Nothing is lost or handed out twice under concurrent use.",
     ["histories", "schedules"], "all allocate/release sequences within the depth and all interleavings of 2-3 threads within a preemption bound",
     "Tests take and release one object at a time on one thread.",
     ["rpp/alloc0.h", "rpp/alloc1.h", "rpp/impl/alloc.cpp"], [("free lists", "rpp/alloc0.h Free_List, rpp/alloc1.h Mpool"), ("shared pool", "rpp/impl/alloc.cpp")],
     "Exhaustive within the bounds on the real code under the controlled scheduler.", technique=ILVT)
prop("M04", "Every tracked allocation is accounted for and leaks are reported exactly",
     "At any moment the net allocation count of the profiler equals the number and size of live tracked allocations, per allocator, whatever threads allocated and freed them. At finalisation every allocator that still owns memory is reported as leaking, with what it leaks, and none that does not; frees are never counted twice. The numbers and sizes of allocations and frees and the high water mark it reports are those of the whole run.",
     ["histories", "schedules"], "all allocate/free sequences within the depth over several allocators and all interleavings of 2-3 threads within a preemption bound",
     "Tests call finalize after leak-free runs only.",
     ["rpp/impl/profile.cpp", "rpp/profile.h", "rpp/impl/alloc.cpp", "rpp/alloc1.h"], [("accounting", "rpp/impl/profile.cpp alloc/finalize"), ("tracked allocator", "rpp/alloc0.h Mallocator")],
     "Exhaustive within the bounds on the real code.", technique=ILVT)
prop("O01", "Boxes and reference-counted handles own their value exactly once",
     "Through any history of creating, moving, cloning, duplicating, assigning and clearing handles - including structures of handles such as lists and nested containers, and assigning a handle from one inside the value it owns - a value lives exactly while a handle to it does, is destroyed exactly once and never used afterwards. A handle refers to what was put in it, and a moved-from or cleared one is empty. Reference counts are exact and all memory is returned.",
     ["histories"], "all operation sequences within the depth on 2-3 handles and on handle structures",
     "The pointers test runs one sequence per handle type; self- and child-assignment and every ordering of drops are not visited.",
     ["rpp/box.h", "rpp/rc.h", "rpp/vec.h", "rpp/queue.h", "rpp/map.h", "rpp/heap.h"], [("unique ownership", "rpp/box.h"), ("shared ownership", "rpp/rc.h Rc/Arc"), ("move assignment", "operator=(T&&) of handles and containers")],
     "Exhaustive within the depth with instrumented values under AddressSanitizer.")
prop("O02", "Options, variants, tuples and pairs hold exactly what was put in",
     "After any history of construction, assignment, moves, clones and clearing, an option is either empty or holds the last value, a variant holds exactly one alternative, the last one stored, and matching calls exactly the handler for it, and tuples and pairs keep each component in its place. Every value put in is destroyed exactly once, also when a value is replaced by itself or by part of itself.",
     ["histories"], "all operation sequences within the depth over up to 11 alternatives and every ownership kind of value",
     "Tests construct and match a few fixed values; alternatives change type in every order with non-trivial values nowhere.",
     ["rpp/opt.h", "rpp/variant.h", "rpp/tuple.h", "rpp/pair.h", "rpp/storage.h"], [("option", "rpp/opt.h"), ("variant dispatch", "rpp/variant.h Accessor/Index_Of"), ("tuple", "rpp/tuple.h")],
     "Exhaustive within the depth with instrumented values under AddressSanitizer.")
prop("O03", "Stored functions call what was stored, with its captures",
     "Calling a stored function runs the callable last stored in it with exactly the arguments passed and returns its result, after any history of storing, moving, assigning and replacing callables of any size that fits. Captures are kept intact and destroyed exactly once, and a moved-from function is empty.",
     ["histories", "inputs"], "all operation sequences within the depth over callables of every capture kind and size",
     "The function test stores a few small lambdas and moves one.",
     ["rpp/function.h"], [("type-erased storage", "rpp/function.h FunctionN")],
     "Exhaustive within the depth with instrumented captures under AddressSanitizer.")
prop("S01", "Strings and views are exact byte strings",
     "Comparison, hashing, slicing, copying, concatenation, writing and moving of strings and string views follow the bytes they hold, whatever these are, including zero and non-ASCII bytes, and for any mix of strings and views: equal exactly when all bytes are equal, ordered lexicographically by unsigned byte, equal strings hash equally. Copies are independent of their source, views alias theirs, and buffers are never over-read, overrun, leaked or freed twice.",
     ["inputs", "histories"], "all strings and pairs of strings up to a length over a byte alphabet, all operation sequences within the depth",
     "The string test copies one ASCII text.",
     ["rpp/string0.h", "rpp/string1.h", "rpp/format.h", "rpp/hash.h"], [("comparison", "rpp/string0.h operator==, operator<"), ("building", "rpp/string1.h append/write/terminate, rpp/format.h concat")],
     "Exhaustive within the lengths over a small byte alphabet, under AddressSanitizer with exactly sized buffers.")
prop("S02", "Formatting writes exactly the text of every value",
     "For every value of a reflectable type - numbers, strings, pointers, arrays, records, enumerations, handles, containers, tuples, variants, vectors and any nesting of them - format produces the documented text: decimal numbers, `Name{field : value, ...}`, `Name::case`, `Vec[a, b]`, `Opt{None}` and so on, substituting arguments for % in order and %% by %. The announced length always equals the length written. Type names spell the type as written, and reflection visits each field or case once, in order.",
     ["inputs"], "all values of the small types, boundary values of the large ones, all format strings up to a length, all small containers and nestings",
     "The format test prints one value per type and compares with a recording.",
     ["rpp/format.h", "rpp/format1.h", "rpp/reflect.h", "rpp/string1.h", "rpp/vmath.h", "rpp/map.h", "rpp/opt.h", "rpp/variant.h"], [("measure and write", "rpp/format.h Measure/Write and their specialisations"), ("placeholders", "rpp/format.h write, parse_fmt"), ("type names", "rpp/format.h Typename")],
     "Exhaustive within the bounds against an independently written model of the text.")
prop("S03", "Parsers take the longest valid prefix and return the rest",
     "Reading an integer, float, word or enumeration case from any text succeeds exactly when one is there (after optional white space), yields its value, and returns precisely the text after it; the input is never read beyond its end. Values written by formatting are read back unchanged, and splitting a text word by word yields each of its words once.",
     ["inputs"], "all inputs up to a length over the significant characters, all integer boundaries and float exponents",
     "No test parses anything beyond trivial input; what happens at the end of the text is not covered.",
     ["rpp/format1.h"], [("numbers", "rpp/format1.h parse_i64/parse_f32"), ("words", "rpp/format1.h parse_string/parse_enum/skip_whitespace")],
     "Exhaustive over short inputs in exactly sized buffers under AddressSanitizer.")
prop("S04", "Path helpers split at the last separator",
     "For every path, the directory part is everything up to and including the last / or \\, the file part everything after it, and the extension everything after the last dot of the file part, or the whole file part if it has none. Directory and file part together are the path, and no helper looks outside it.",
     ["inputs"], "all paths up to a length over letters, dots and both separators",
     "No test calls them on a path whose separator is first or last.",
     ["rpp/string1.h"], [("path helpers", "rpp/string1.h file_suffix/file_extension/remove_file_suffix")],
     "Exhaustive over short paths in exactly sized buffers under AddressSanitizer.")
prop("N01", "Arithmetic helpers return the mathematically defined result",
     "Bit counts, logarithms, the nearest power of two below or above, alignment up and down, integer powers, minima, maxima, clamping, rounding, sign, roots and interpolation return exactly the defined result for every argument for which it is representable, and trigonometric and exponential functions are right to the precision of their type. Type limits are the true limits.",
     ["inputs"], "every 32-bit argument (thorough) of the one-argument functions, all boundary arguments of the others",
     "No test calls them except indirectly with a handful of sizes.",
     ["rpp/math.h", "rpp/impl/math.cpp", "rpp/limits.h"], [("bit functions", "rpp/impl/math.cpp popcount..next_pow2"), ("alignment, pow, clamp", "rpp/math.h")],
     "Exhaustive over 32-bit arguments in the thorough run; lattices and boundaries for wider types.")
prop("N02", "Vectors, matrices, quaternions and boxes compute their definitions",
     "Every vector operation acts lane by lane like the scalar operation, in the written operand order, for every size and element type, vectorised or not, and leaves its operands unchanged. Matrix products, inverses, transposes, transformations and cameras, and quaternion products, rotations and Euler conversions, agree with the mathematical definition and with each other up to rounding. A box is empty or the tightest box around what it encloses, also after transformation.",
     ["inputs"], "all pairs of vectors over small lane values, all products of up to 4-5 matrices, all pairs of quaternions and all box point sets over lattices",
     "The tests compare one inverse and a few sums; four-lane float vectors take a separate code path that they barely visit.",
     ["rpp/vmath.h", "rpp/impl/vmath.cpp", "rpp/simd.h", "rpp/impl/simd.cpp"], [("vectors", "rpp/vmath.h Vect"), ("matrices", "rpp/impl/vmath.cpp Mat4"), ("quaternions", "rpp/vmath.h Quat"), ("boxes", "rpp/vmath.h BBox"), ("lanes", "rpp/impl/simd.cpp F32x4")],
     "Exhaustive over lattices of arguments against double precision reference computations.")
prop("N03", "Random streams are reproducible, in bounds and reach every value",
     "Two streams with the same seed yield the same draws, and a stream does not repeat itself early. Unit draws lie in [0, 1) and spread over it, draws from a range lie in it for every integer type and reach every value of it about equally often, a biased coin comes up as often as asked, and shuffling yields every order equally often and never loses or duplicates an element, for any number of elements including none.",
     ["inputs", "histories"], "all seeds in blocks of up to 2^24, the extreme generator outputs, all pairs of range boundaries of each integer type, all orders of up to 5-6 elements",
     "Tests only draw sizes for an allocator and would not notice any distribution.",
     ["rpp/rng.h", "rpp/hash.h"], [("draws", "rpp/rng.h unit/range/integer/coin_flip"), ("shuffle", "rpp/rng.h shuffle")],
     "Exhaustive over the stated seeds, boundaries and lengths.")
prop("F01", "File reads and writes are complete or reported as failed",
     "A successful read returns exactly the file's bytes and a successful write leaves exactly the given bytes in it, created or replaced, whatever partial transfers or interruptions the system makes; an operation fails only if some system call did, and then says so. No descriptor stays open on any path, and file times and watchers notice every later write once.",
     ["fault_sequences", "histories", "inputs"], "all placements of up to 3-5 faults over the system calls of an operation, all operation sequences within the depth",
     "No test touches a file; partial transfers and errors never occur on the developer's machine.",
     ["rpp/files.h", "rpp/pos/files_pos.cpp"], [("transfer loops", "rpp/pos/files_pos.cpp read/write"), ("watcher", "rpp/files.h Write_Watcher")],
     "Exhaustive over fault placements at the system call boundary, on real files in a scratch directory.")
prop("F02", "Async file operations are complete or reported as failed",
     "A task that reads or writes a file completes with exactly the file's bytes, or with exactly the given bytes stored, whatever partial transfers or interruptions the system makes; it fails only if some system call did. It closes every descriptor it opens, and works from any thread and from coroutines on a pool.",
     ["fault_sequences", "histories"], "all placements of up to 3-5 faults over the system calls of an operation, all operation sequences within the depth",
     "The tests do not exercise failing or partial transfers.",
     ["rpp/asyncio.h", "rpp/pos/asyncio_pos.cpp"], [("transfer loops", "rpp/pos/asyncio_pos.cpp read/write")],
     "Exhaustive over fault placements at the system call boundary, on real files in a scratch directory.")
prop("F03", "Datagrams arrive whole, in order, with their sender",
     "Every packet sent to a bound socket is received once, with its exact length and bytes, in order, together with an address that reaches its sender; receiving from an empty or failing socket returns nothing. Moving and assigning sockets transfers them and closes what they replace, so exactly the sockets of live objects are open, and an address is read from exactly the characters given.",
     ["histories", "fault_sequences", "inputs"], "all sequences of 4-5 operations on up to 3 sockets with receive failures injected, every packet length",
     "The test sends one five-byte packet from a socket to itself.",
     ["rpp/net.h", "rpp/pos/net_pos.cpp"], [("sockets", "rpp/pos/net_pos.cpp Udp"), ("addresses", "rpp/pos/net_pos.cpp Address")],
     "Exhaustive within the depth on real loopback sockets.")
