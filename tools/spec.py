"""Source of properties.jsonl and MANIFEST.json (tools/gen.py writes both)."""
MEM = "core/include/vecmem/memory/"
SRC = "core/src/memory/"
DET = "core/src/memory/details/"

RES_FILES = [DET + f for f in (
    "pool_memory_resource_impl.cpp", "binary_page_memory_resource_impl.cpp",
    "arena_memory_resource_impl.cpp", "contiguous_memory_resource_impl.cpp",
    "debug_memory_resource_impl.cpp", "instrumenting_memory_resource_impl.cpp",
    "choice_memory_resource_impl.cpp", "coalescing_memory_resource_impl.cpp",
    "conditional_memory_resource_impl.cpp")] + [
    SRC + "identity_memory_resource.cpp", SRC + "synchronized_memory_resource.cpp"]

TECH = "deterministic simulation with fault injection (seeded search)"

SPEC = []


def P(id, title, statement, over, qtext, why, files, mechanism, state=(),
      observe=(), hook=None, note="", na=None):
    assert len(title) <= 80, (id, len(title))
    SPEC.append(dict(id=id, title=title, statement=statement, over=list(over),
                     qtext=qtext, why=why, files=list(files),
                     mechanism=[dict(name=n, where=w) for n, w in mechanism],
                     state=[dict(name=n, meaning=m, where=w)
                            for n, m, w in state],
                     observe=list(observe), hook=hook, note=note, na=na))


HIST = ["inputs", "histories", "configurations", "fault_sequences"]
NOTE_MR = ("Seeded search over operation histories, tuning options and injected "
           "failures on the real resources above a simulated upstream and a "
           "simulated heap; sampling, no proof.")

P("C01", "Live allocations never overlap and lie inside memory held from upstream",
  "Whatever sequence of allocations and deallocations a memory resource has "
  "served, every live allocation it returned lies completely inside memory the "
  "resource currently holds from its upstream resource(s), and no two live "
  "allocations share a byte. Memory of a live allocation is never returned "
  "upstream while it is live, including after failed requests and after the "
  "resource was moved.",
  HIST, "every history of allocate/deallocate/move calls of any size and "
  "alignment, every tuning option, every refusal of upstream or of bookkeeping "
  "memory, for every resource and stack of resources in the library",
  "the tests allocate a few blocks of a few sizes and never look at the "
  "addresses of a long mixed history, nor continue after a failure",
  RES_FILES,
  [("free lists, superblocks and pages are split, merged and recycled",
    DET + "arena_memory_resource_impl.cpp, " + DET +
    "binary_page_memory_resource_impl.cpp, " + DET +
    "pool_memory_resource_impl.cpp")],
  observe=["allocate() return value", "upstream allocate/deallocate calls"],
  note=NOTE_MR)

P("C02", "Every allocation honours the requested alignment",
  "Every non-empty allocation returned by a memory resource starts at an "
  "address that is a multiple of the requested alignment, whatever power of two "
  "was asked for and whatever was allocated and freed before. The upstream "
  "resource only promises the alignment that it was itself asked for.",
  HIST, "every size and power-of-two alignment, every preceding history, every "
  "tuning option; upstream placement is adversarial (only as aligned as asked)",
  "the tests use natural alignments and a real malloc which over-aligns",
  RES_FILES,
  [("alignment of what is handed out is derived from block size and upstream "
    "alignment", DET + "pool_memory_resource_impl.cpp"),
   ("pages are aligned to their own size", DET +
    "binary_page_memory_resource_impl.cpp"),
   ("block search by aligned size", DET + "arena_memory_resource_impl.cpp")],
  observe=["allocate() return value"], note=NOTE_MR)

P("C03", "Upstream memory is returned exactly once with matching arguments",
  "Every block that a memory resource obtains from its upstream is returned to "
  "the same upstream exactly once, at the latest when the resource is destroyed, "
  "with the size and alignment it was requested with; caching resources "
  "return it even when allocations were outstanding at destruction. "
  "Bookkeeping memory is released as well. Moving a resource transfers these obligations.",
  HIST, "every history of allocate/deallocate/move and destruction at every "
  "point of it, with failures of upstream and bookkeeping at any call",
  "the tests never count upstream returns, and never destroy after a failure "
  "or with outstanding allocations", RES_FILES,
  [("destructors and move operations of the implementations", DET)],
  observe=["upstream allocate/deallocate calls", "heap"], note=NOTE_MR)

P("C04", "Failed requests are reported by exception and lose nothing",
  "A request that cannot be satisfied is reported by an exception (std::bad_alloc "
  "or the upstream's own), never by a null or wrong pointer, and only when "
  "something really refused (upstream, bookkeeping memory, a limit, the predicate). "
  "Returning memory never fails. A failed request loses no memory, and once memory is available "
  "again the resource serves requests as before.",
  HIST, "every position of a refused upstream request or bookkeeping "
  "allocation within every history",
  "no test makes an upstream or bookkeeping allocation fail",
  RES_FILES,
  [("exception safety of growth and bookkeeping updates", DET)],
  observe=["exceptions", "upstream calls", "later requests"], note=NOTE_MR)

P("C05", "Freed memory is reused: repeating a workload has a bounded footprint",
  "On the caching resources (pool with caching, binary page, arena), repeating the same sequence of "
  "requests and returning all of them stops asking upstream for more memory after a "
  "few rounds, whatever history came before. A pool that does not cache oversized blocks "
  "holds no more memory after a round than before it. None of them asks upstream while it has what was "
  "requested: a returned block of the same class (pool), a free page (binary page), a free stretch (arena).",
  ["inputs", "histories", "configurations"],
  "every workload of mixed sizes, alignments and return orders after every "
  "prior history", "the tests check reuse of a single block at most",
  [DET + f for f in ("pool_memory_resource_impl.cpp",
                     "binary_page_memory_resource_impl.cpp",
                     "arena_memory_resource_impl.cpp")],
  [("free lists, page merging, coalescing of adjacent blocks", DET)],
  observe=["upstream allocate calls"], note=NOTE_MR)

P("C06", "Fixed-budget resources use exactly their budget",
  "The contiguous resource takes one upstream block of the configured size, hands "
  "out consecutive aligned pieces of it, grants every request that still fits and "
  "refuses every other with std::bad_alloc. The arena resource takes its initial size from "
  "upstream when it is made, and never holds more than its configured maximum.",
  HIST, "every budget, request sequence, alignment and failure",
  "the tests fill a contiguous resource once with one size",
  [DET + "contiguous_memory_resource_impl.cpp",
   DET + "arena_memory_resource_impl.cpp"],
  [("bump pointer and remaining-space computation",
    DET + "contiguous_memory_resource_impl.cpp"),
   ("maximum size of the arena", DET + "arena_memory_resource_impl.cpp")],
  observe=["allocate() results", "upstream calls"], note=NOTE_MR)

P("C16", "A pool resource stays within its configured options",
  "Each chunk that a pool_memory_resource requests from upstream holds blocks of one size, "
  "as many as its options' minimum and maximum (in blocks and in bytes) allow, and at least one. "
  "Requests above the largest block size or alignment get a block of their own, of exactly the size and alignment "
  "asked for, or one from the cache that is below the cutoff factors for size and alignment; with caching "
  "disabled such blocks are returned at once, otherwise they are kept. Contradictory options are refused with std::invalid_argument.",
  ["inputs", "histories", "configurations", "fault_sequences"],
  "every set of valid options, every history of requests and returns, with failures",
  "the tests use the default options and a handful of requests",
  [DET + "pool_memory_resource_impl.cpp", MEM + "pool_memory_resource.hpp"],
  [("chunk growth, oversized blocks and the cache of them", DET +
    "pool_memory_resource_impl.cpp")],
  observe=["upstream requests", "allocate() results"], note=NOTE_MR)

P("C17", "Empty requests and null pointers are harmless on every resource",
  "At any point of any history, also while neither upstream nor the process has memory left, a request "
  "for zero bytes to a resource of the core library returns a null pointer, and returning a null "
  "pointer does nothing: no exception, no call to upstream or to a routing function, no change of what later requests observe. "
  "(The synchronized resource answers as the wrapped one does; the terminal resource always throws.)",
  HIST, "every history and failure, every alignment, every resource and stack of resources",
  "the tests make such requests on fresh resources, if at all",
  RES_FILES, [("early returns of the implementations", DET)],
  observe=["allocate(0)", "deallocate(nullptr)", "upstream calls"], note=NOTE_MR)

P("C07", "Memory resources never touch the memory they manage",
  "No memory resource in the core library reads or writes the bytes of the memory it obtained "
  "from its upstream, whether free, cached or handed out. They can therefore "
  "manage device memory that the host cannot access.",
  HIST, "every history of operations and failures on every resource",
  "the tests run on host memory, where a stray access goes unnoticed",
  RES_FILES, [("all bookkeeping lives outside of the managed memory", DET)],
  observe=["memory accesses of the library code"],
  note=NOTE_MR + " Every load/store of the library is instrumented; the "
  "simulated upstream memory is unmapped.")

SCHED = ["inputs", "schedules", "configurations"]
NOTE_DEV = ("Seeded search over interleavings of simulated device threads at "
            "every atomic operation (and every memory access), on the real "
            "header code for every back-end flavour; sampling, no proof.")
ATOM = "core/include/vecmem/memory/"
DREF = ATOM + "details/"
CONT = "core/include/vecmem/containers/"

P("C20", "Concurrent atomic operations are linearizable on every back-end",
  "Operations of device_atomic_ref (load, store, exchange, compare-exchange, "
  "fetch_add/sub/and/or/xor) and vecmem::atomic from any number of threads take "
  "effect one at a time in an order consistent with real time: no update is lost "
  "or torn, each operation returns the value that it replaced, a compare-exchange "
  "succeeds exactly if the expected value was there and otherwise reports the "
  "value found. This holds for all value types of all back-ends; the purely "
  "sequential fallbacks (dummy reference, host vecmem::atomic) promise it for a single thread only.",
  SCHED, "every interleaving of every mix of operations, operands (including "
  "wrap-around) and memory orders, in the posix, C++20, CUDA, HIP and SYCL code paths",
  "the tests run on whatever schedule the machine produces, only check final "
  "sums, and never run the accelerator code paths without the hardware",
  [ATOM + "device_atomic_ref.hpp", ATOM + "impl/atomic.ipp", ATOM + "atomic.hpp"] +
  [DREF + f for f in ("posix_device_atomic_ref.hpp", "cuda_device_atomic_ref.hpp",
                      "hip_device_atomic_ref.hpp", "sycl_builtin_device_atomic_ref.hpp",
                      "sycl_custom_device_atomic_ref.hpp",
                      "dummy_device_atomic_ref.hpp")],
  [("mapping of each operation to the intrinsics of the back-end", DREF)],
  observe=["return values of the operations", "final value"], note=NOTE_DEV)

P("C21", "Atomic operations provide the memory ordering that was asked for",
  "On the host (compiler built-ins and std::atomic_ref) an operation of "
  "device_atomic_ref orders memory at least as strongly as the memory_order passed "
  "to it, or as the documented default (sequentially consistent): data published before a release is visible "
  "after an acquire that observed it, and sequentially consistent operations have "
  "one total order. On CUDA and HIP devices, what was written before a store is visible after a "
  "load that saw it, also with vecmem::atomic.",
  SCHED, "every interleaving and every outcome the C++ memory model allows, for "
  "every operation and order (also the failure order of a compare-exchange)",
  "hardware of the test machine hides missing ordering, and no test uses an "
  "order other than the default",
  [ATOM + "device_atomic_ref.hpp", DREF + "posix_device_atomic_ref.hpp",
   "core/include/vecmem/memory/impl/posix_device_atomic_ref.ipp"],
  [("mapping of vecmem::memory_order to the built-ins' orders",
    "core/include/vecmem/memory/impl/posix_device_atomic_ref.ipp")],
  observe=["values read by other threads"],
  note=NOTE_DEV + " The simulated machine implements stale loads, fences and "
  "release sequences of the C++ memory model, but no reordering beyond "
  "that (no load buffering).")

P("C22", "Concurrent appends to a device vector neither lose nor clobber elements",
  "Any number of threads may use push_back, emplace_back, bulk_append, "
  "bulk_append_implicit(_unsafe) and pop_back of device_vector as documented at the same time, on "
  "the same or different views of one resizable buffer: each call that stays within capacity gets its own, "
  "different elements, every element appended is in the vector with its value "
  "exactly once, and the size ends as the number of elements. The vector never "
  "touches memory beyond its capacity, also in resize, assign, reserve-like and "
  "element access calls.",
  SCHED, "every interleaving of every mix of appends and removals, every "
  "capacity, element type (trivial and not) and size pointer type",
  "the tests append from one thread, or on one actual GPU schedule",
  [CONT + "device_vector.hpp", CONT + "impl/device_vector.ipp",
   CONT + "data/vector_view.hpp"],
  [("atomic reservation of elements through the size", CONT +
    "impl/device_vector.ipp")],
  observe=["returned indices / iterators", "content", "size"], note=NOTE_DEV)

P("C23", "Concurrent jagged and SoA containers behave as independent vectors",
  "Appending concurrently to the inner vectors of a jagged_device_vector fills each "
  "inner vector as if it was alone; concurrent push_back_default on an SoA "
  "(edm) device container hands out each index once, and size() stays within the capacity, "
  "agreeing for all variables. Element access through objects (proxies) and through variables reaches the "
  "same memory.",
  SCHED, "every interleaving of appends, size queries and element accesses of "
  "any number of threads, for every layout of the jagged and SoA data",
  "the tests append from one thread, or on one actual GPU schedule",
  [CONT + "jagged_device_vector.hpp", CONT + "impl/jagged_device_vector.ipp",
   "core/include/vecmem/edm/device.hpp", "core/include/vecmem/edm/impl/device.ipp",
   "core/include/vecmem/edm/details/device_traits.hpp"],
  [("one shared size for all of the variables",
    "core/include/vecmem/edm/impl/device.ipp")],
  observe=["returned indices", "content", "sizes"], note=NOTE_DEV)

P("C11", "A synchronized resource makes any resource safe to share by threads",
  "Any number of threads may allocate from and deallocate to one "
  "synchronized_memory_resource at any time, including each other's blocks: calls reach the wrapped "
  "resource one at a time with unchanged arguments and results, so that blocks "
  "never overlap, nothing is lost, and an exception of the wrapped resource "
  "reaches its caller without blocking anyone. No call waits forever. Copies and moved-to "
  "wrappers work on the same wrapped resource.",
  ["inputs", "schedules", "fault_sequences"],
  "every interleaving of calls of any threads, with failures inside any call, for every wrapped resource",
  "the tests allocate from a few threads on the schedule that the machine "
  "happens to produce, never with a failing upstream",
  [SRC + "synchronized_memory_resource.cpp",
   MEM + "synchronized_memory_resource.hpp"],
  [("mutex held around each call of the wrapped resource",
    SRC + "synchronized_memory_resource.cpp")],
  observe=["allocate()/deallocate() results", "calls of the wrapped resource"],
  note="Seeded search over interleavings at every lock operation and memory "
  "access, with happens-before race detection on the wrapped resources' data; "
  "sampling, no proof.")

P("C24", "Separate resources and containers can be used by separate threads",
  "Threads that use different memory resources, containers and buffers do not "
  "influence each other: each observes exactly what it would observe alone "
  "(addresses relative to its upstream, failures, contents, statistics), without data races. "
  "The host memory resource and a copy object may be shared by any threads.",
  ["inputs", "schedules", "configurations", "fault_sequences"],
  "every interleaving of operations of threads on resource stacks of their own",
  "the tests are single threaded here, and hidden shared state needs a "
  "particular interleaving to show",
  RES_FILES + [SRC + "host_memory_resource.cpp",
               "core/include/vecmem/utils/copy.hpp"],
  [("no global mutable state in the library", "core/src")],
  observe=["results of all operations"],
  note="Each thread's observations are compared with its own run without the "
  "others; happens-before race detection on all memory; sampling, no proof.")

P("C08", "The debug resource reports misuse and only misuse",
  "A debug_memory_resource refuses (throws, without passing it on) each deallocation of a pointer that is "
  "not live, or with a size or alignment other than it was allocated with, "
  "and complains about upstream memory that overlaps a live allocation. It never refuses a correct request, "
  "hands out exactly the upstream's pointers, and loses no memory "
  "when it refuses or fails.",
  HIST, "every history of correct and incorrect requests, of any size and "
  "alignment, with failures of upstream and of the resource's bookkeeping",
  "the tests make a few mistakes on a fresh resource, and never combine them "
  "with a history, overlapping upstream memory or failures",
  [DET + "debug_memory_resource_impl.cpp", DET +
   "debug_memory_resource_impl.hpp", SRC + "debug_memory_resource.cpp"],
  [("map of live allocations", DET + "debug_memory_resource_impl.cpp")],
  observe=["exceptions", "upstream calls"], note=NOTE_MR)

P("C09", "Instrumentation records exactly what happened and changes nothing",
  "An instrumenting_memory_resource passes requests on unchanged, records each non-empty "
  "request as one event in order, failed allocations "
  "included (pointer null), with its size, alignment, pointer and a duration "
  "that the request to upstream really took (neither changes of the wall clock nor the time spent in hooks count), and calls every hook once, in order, with those "
  "values, before or after the upstream call as registered. An "
  "exception thrown by a hook reaches the caller, and leaks no memory.",
  HIST,
  "every history of requests, any number of hooks, failures of upstream, of "
  "bookkeeping and in hooks, and clock steps at any point",
  "the tests record a handful of successful requests with well-behaved hooks "
  "and clocks",
  [DET + "instrumenting_memory_resource_impl.cpp",
   SRC + "instrumenting_memory_resource.cpp",
   MEM + "instrumenting_memory_resource.hpp"],
  [("event list and hooks", DET + "instrumenting_memory_resource_impl.cpp")],
  observe=["get_events()", "hook calls", "upstream calls"], note=NOTE_MR)

P("C10", "memory_monitor statistics are exact",
  "The total, outstanding, maximum and average numbers of a memory_monitor are at any point those of the "
  "history of successful allocations and deallocations of the resource it "
  "watches, whatever requests failed in between; nothing is outstanding when everything was returned.",
  HIST, "every history of requests, monitors attached at any point, "
  "failures of upstream and of bookkeeping",
  "the tests check one short successful history",
  ["core/src/utils/memory_monitor.cpp",
   "core/include/vecmem/utils/memory_monitor.hpp",
   DET + "instrumenting_memory_resource_impl.cpp"],
  [("hooks update the statistics", "core/src/utils/memory_monitor.cpp")],
  observe=["total_allocation()", "outstanding_allocation()",
           "maximum_allocation()", "average_allocation()"], note=NOTE_MR)

P("C12", "The host resource provides usable, aligned memory or throws",
  "Each successful non-empty allocation of host_memory_resource (and of the "
  "host default) is writable in full, keeps its content, is aligned as asked for (any power of two), and "
  "every block is given back to the C library exactly once, by any host resource. A request that "
  "cannot be served (refused by the C library, or absurdly large) throws std::bad_alloc and "
  "leaks nothing; a null pointer is never returned for bytes.",
  HIST, "every history of requests of any size and alignment, with refusals "
  "of the C library; with and without std::aligned_alloc",
  "the tests use a real C library that never refuses, few alignments and no "
  "huge sizes", [SRC + "host_memory_resource.cpp"],
  [("size and alignment arithmetic; pointer stored in front of the block",
    SRC + "host_memory_resource.cpp")],
  observe=["allocate() results", "calls of the C library", "block content"],
  note="Two builds (with and without std::aligned_alloc), above a simulated C "
  "library as strict as ISO C permits. Seeded search; sampling, no proof.")

P("C13", "Smart pointers and allocators construct and destroy exactly once",
  "unique_obj_ptr, unique_alloc_ptr and vecmem::allocator construct each object exactly once in aligned memory of the "
  "right size from the given resource, and destroy it and return its memory "
  "exactly once, with matching size and alignment, through moves, swaps, resets and "
  "releases. When a constructor or an allocation throws, what was constructed is destroyed, the memory is "
  "returned, and the exception reaches the caller.",
  HIST, "every history of creations, moves, swaps, resets and releases of "
  "every object type and array size, with throwing constructors and refused memory",
  "the tests create a few trivial objects and nothing fails",
  [MEM + "unique_ptr.hpp", MEM + "details/unique_alloc_deleter.hpp",
   MEM + "details/unique_obj_deleter.hpp", MEM + "allocator.hpp",
   MEM + "impl/allocator.ipp", SRC + "allocator.cpp",
   MEM + "polymorphic_allocator.hpp"],
  [("deleters remember resource, size and alignment", MEM +
    "details/unique_alloc_deleter.hpp, " + MEM +
    "details/unique_obj_deleter.hpp")],
  observe=["constructor and destructor calls", "resource calls"], note=NOTE_MR)

P("C14", "Choosing resources route every request as documented",
  "A choice resource asks its function for each request and uses the resource it names; "
  "a coalescing resource uses the first of its resources that can serve the "
  "request; a conditional resource passes a request on if its predicate holds "
  "and throws otherwise; a terminal resource refuses everything; an identity resource changes nothing. Each block returns to the resource that it came "
  "from, even if the function or predicate has changed its mind, and failures at any point leave nothing behind.",
  HIST, "every history of requests, every (stateful) function and predicate, "
  "failures of any upstream, of bookkeeping, of the function itself",
  "the tests use constant functions and a few requests, and nothing fails",
  [DET + f for f in ("choice_memory_resource_impl.cpp",
                     "coalescing_memory_resource_impl.cpp",
                     "conditional_memory_resource_impl.cpp")] +
  [SRC + "identity_memory_resource.cpp", SRC + "terminal_memory_resource.cpp"],
  [("map from pointer to the resource it came from",
    DET + "choice_memory_resource_impl.cpp, " + DET +
    "coalescing_memory_resource_impl.cpp")],
  observe=["upstream calls", "exceptions"], note=NOTE_MR)

P("C15", "Memory resources that compare equal are interchangeable",
  "A memory resource that says it is equal to another one (is_equal, operator==) can return the "
  "memory of the other: the block reaches the upstream or C library it came from, once, with the "
  "original arguments, so containers may hand memory from one to the other by moves and swaps. "
  "A resource is always equal to itself; host resources equal each other, as do terminal ones, and identity "
  "(synchronized) resources if their upstreams do; resources with a state of their own equal no other. "
  "The answer does not depend on the history, and threads may ask at any time.",
  ["inputs", "histories", "configurations", "fault_sequences", "schedules"],
  "every graph of resources, every pair of them, every history of requests, moves and swaps of containers",
  "the tests compare a few pairs of fresh resources and return no memory through another one",
  [f if "/" in f else SRC + f for f in (DET + "memory_resource_base.cpp", "host_memory_resource.cpp",
                     "identity_memory_resource.cpp", "synchronized_memory_resource.cpp",
                     "terminal_memory_resource.cpp")],
  [("do_is_equal of the memory resources",
    DET + "memory_resource_base.cpp, " + SRC + "identity_memory_resource.cpp, " +
    SRC + "synchronized_memory_resource.cpp")],
  observe=["is_equal()", "upstream calls"], note=NOTE_MR)

CIPP = "core/include/vecmem/utils/impl/copy.ipp"
CFILES = [CIPP, "core/include/vecmem/utils/copy.hpp", "core/src/utils/copy.cpp"]
CNOTE = ("Seeded search; vecmem::copy, containers, views and buffers are real, the "
         "accelerator is a simulated asynchronous queue (in order or out of "
         "order) whose progress the scheduler decides, with device memory that the host must "
         "not touch. Sampling, no proof.")
COVER = ["inputs", "configurations", "schedules", "fault_sequences"]

P("C30", "Copies of 1D vectors are exact",
  "After a copy between vector views or buffers (fixed or resizable, on host, "
  "device or managed memory) has completed, or one into a host vector, the target's size (if it can change) and first elements equal "
  "the source's, its remaining elements and all other memory are unchanged. A copy that "
  "does not fit is refused with std::length_error before anything is written; "
  "one that fits, empty ones included, is accepted.",
  COVER, "every size, capacity, element type, memory kind, resizability, copy "
  "type and history of previous copies",
  "the tests copy a few fixed vectors between host buffers with a synchronous "
  "copy object",
  CFILES + [CONT + "data/vector_buffer.hpp", CONT + "data/vector_view.hpp"],
  [("size transfer, capacity check and payload transfer", CIPP)],
  observe=["content and size of every container after each operation"],
  note=CNOTE)

P("C31", "Copies of jagged vectors are exact",
  "After a copy between jagged vector views or buffers of the same outer size has completed, "
  "or one into a host jagged vector, every inner vector of the target has the "
  "size and the elements of the source's, whatever the memory layout "
  "of the two (contiguous, scattered, different capacities, empty inner vectors). Copies "
  "that do not fit are refused with an exception; those that fit are accepted. "
  "No memory other than the target's inner vectors is written.",
  COVER, "every shape, layout, resizability, element type, memory kind, copy type and "
  "history of previous copies",
  "the tests copy one or two fixed shapes; the optimised path for contiguous layouts "
  "depends on the combination of layouts, capacities and sizes",
  CFILES + [CONT + "data/jagged_vector_buffer.hpp",
            CONT + "data/jagged_vector_view.hpp",
            CONT + "details/resize_jagged_vector.hpp"],
  [("is_contiguous / one-go copy / copy of each inner vector", CIPP)],
  observe=["content and sizes of every inner vector after each operation"],
  note=CNOTE)

P("C32", "Copies of SoA containers are exact",
  "After a copy between edm views or buffers has completed, or one into an edm host "
  "container, every variable (scalar, vector, jagged vector) of the target has the size and the values of the "
  "source's, also if the two have different capacities, layouts or "
  "resizability. Copies that do not fit are refused with an exception, and "
  "those that fit are accepted.",
  COVER, "every combination of sizes, capacities, layouts, resizability, "
  "memory kinds, copy types and previous operations, for schemas with and "
  "without jagged vectors",
  "the tests copy one container of one size; the one-go copy of the payload is "
  "only right for some combinations of layouts",
  CFILES + ["core/include/vecmem/edm/" + f for f in
            ("buffer.hpp", "view.hpp", "data.hpp", "host.hpp")],
  [("one-go payload copy / copy of each variable, transfer of sizes", CIPP)],
  observe=["content and sizes of every variable after each operation"],
  note=CNOTE)

P("C33", "Asynchronous operations are complete when their event is",
  "Every copy, memset, setup and set_sizes returns an event, and once it was "
  "waited for, all of the work of the call is done, on in-order and out-of-order back-ends; functions "
  "that return no event have finished their work. No operation that is still "
  "queued refers to a temporary of the library, and the library never drops "
  "an event that was neither waited for nor ignored, so events abort programs "
  "only when the user lost one.",
  COVER, "every operation, every moment at which the back-end executes each of the queued "
  "operations, every way of using the event",
  "the host copy of the tests is synchronous, and real devices are usually faster "
  "than the host can leave the function",
  CFILES + ["core/include/vecmem/utils/abstract_event.hpp"],
  [("waits for internal operations on temporaries", CIPP)],
  observe=["queue of the back-end at wait() and at return", "destroyed events"],
  note=CNOTE)

P("C34", "setup() and memset() initialise exactly what they are given",
  "After setup() has completed every (inner) vector of a resizable buffer has size zero and the "
  "description of inner vectors and SoA variables is usable on the device; memset() "
  "sets every byte of every element of vectors, jagged vectors and SoA containers and nothing else. "
  "Both work for empty containers and can be repeated.",
  COVER, "every container kind, shape (zero capacities included), "
  "memory kind, initial content and byte value",
  "the tests set up a few non-empty containers in fresh memory that often is "
  "zero already",
  CFILES, [("do_memset of sizes / payload, copy of the layout", CIPP)],
  observe=["sizes, layout and content after the operation"], note=CNOTE)

P("C35", "Copies are labelled with the direction in which they really go",
  "Each transfer that a copy object asks its back-end for has a direction "
  "(host/device to host/device) that agrees with the memory the operands are "
  "in, provided the direction passed by the user is right, including transfers of sizes and layouts; "
  "the host side of the library never reads or writes device memory itself.",
  COVER, "every operation, container kind, memory kind and direction",
  "all memory is host memory in tests without accelerator, so wrong directions and "
  "accesses work",
  CFILES, [("choice of copy type for size variables", CIPP)],
  observe=["do_copy arguments", "memory accesses of library code"], note=CNOTE)

P("C36", "Buffers made from views and size transfers match their source",
  "to() returns a buffer with the shape and content of its source that is ready to use, "
  "get_size() and get_sizes() return the current sizes wherever the data is, and "
  "set_sizes() sets each of the sizes, refusing lists that do not fit without "
  "changing anything.",
  COVER, "every shape (empty and zero-capacity inner vectors included), "
  "resizability, memory kind and history",
  "the tests use host memory and one shape",
  CFILES, [("get_sizes_impl / set_sizes / to", CIPP)],
  observe=["returned values", "sizes and content of the buffer"], note=CNOTE)

P("C37", "Failed transfers leave nothing broken behind",
  "When the back-end or an allocation fails in the middle of an operation, the "
  "exception reaches the caller, no memory or event is leaked, nothing outside the "
  "target was changed, every size in the target is one that it had or should have got (or zero), and the "
  "same operation succeeds when it is repeated.",
  COVER, "every operation with a failure at every back-end call or allocation "
  "inside it",
  "no test lets a transfer fail",
  CFILES, [("RAII of events, buffers and temporaries", CIPP)],
  observe=["exceptions", "live blocks and events", "sizes and content after a retry"],
  note=CNOTE)

ACCF = ["cuda/src/memory/device_memory_resource.cpp",
        "cuda/src/memory/host_memory_resource.cpp",
        "cuda/src/memory/managed_memory_resource.cpp",
        "hip/src/memory/device_memory_resource.cpp",
        "hip/src/memory/host_memory_resource.cpp",
        "hip/src/memory/managed_memory_resource.cpp",
        "sycl/src/memory/memory_resource_base.sycl",
        "sycl/src/memory/device_memory_resource.sycl",
        "sycl/src/memory/host_memory_resource.sycl",
        "sycl/src/memory/shared_memory_resource.sycl",
        "cuda/src/utils/select_device.cpp", "hip/src/utils/select_device.cpp",
        "hip/src/utils/run_on_device.hpp"]
ASTR = ["cuda/src/utils/stream_wrapper.cpp", "cuda/src/utils/opaque_stream.cpp",
        "cuda/src/utils/cuda_wrappers.cpp", "cuda/src/utils/cuda/async_copy.cpp",
        "sycl/src/utils/sycl/queue_wrapper.sycl",
        "sycl/src/utils/sycl/get_queue.sycl",
        "sycl/src/utils/sycl/async_copy.sycl"]
ANOTE = ("The CUDA, HIP and SYCL libraries of the repository are compiled for the "
         "host against stand-ins for the runtimes of the vendors (no device or "
         "SDK is available); what the stand-ins promise follows the documentation "
         "of the runtimes. Seeded search; sampling, no proof.")

P("C40", "Accelerator memory resources give memory of the right kind and device",
  "Each CUDA, HIP or SYCL memory resource allocates memory of its kind "
  "(host, device, managed/shared) on its own device or queue, large and aligned enough, "
  "whatever device is current on the calling thread, and leaves that "
  "one current. Nothing is allocated for size zero, a refusal of the driver is an exception and "
  "leaks nothing, every block is freed exactly once with the right "
  "function, and equal resources can free each other's blocks.",
  ["inputs", "schedules", "histories", "fault_sequences"],
  "every sequence of allocations and deallocations on any number of devices, from "
  "any number of threads, with the driver failing at any call",
  "the tests of these libraries need a device, and never let a driver call fail",
  ACCF, [("select_device / run_on_device around every driver call",
          "cuda/src/utils/select_device.cpp, hip/src/utils/run_on_device.hpp")],
  observe=["driver calls", "current device of the thread", "returned pointers"],
  note=ANOTE)

P("C41", "Stream and queue wrappers own and share streams as documented",
  "Copies of an owning stream_wrapper or queue_wrapper (also assigned or moved ones, and "
  "those in copy objects and resources) refer to the same stream, which lives on the "
  "requested device until its last owner is gone, and not longer; non-owning ones "
  "follow the stream they were given. Waiting for an event or a stream covers all work "
  "submitted before. Events are destroyed exactly once, and failures "
  "leave no stream, event or pending work behind.",
  ["inputs", "schedules", "histories", "fault_sequences"],
  "every history of making, copying, assigning, moving and dropping wrappers, copy "
  "objects and events, on any number of devices and threads, with failing drivers",
  "the tests make one wrapper on the default device and never assign or fail",
  ASTR, [("shared_ptr to the stream; a queue of its own in every wrapper",
          "cuda/src/utils/stream_wrapper.cpp, "
          "sycl/src/utils/sycl/queue_wrapper.sycl")],
  observe=["streams and events that exist in the driver", "stream()/queue()",
           "completion of work"], note=ANOTE)

P("C42", "Copies through the CUDA, HIP and SYCL back-ends move data correctly",
  "What holds for copies in general holds with the real back-ends (cuda::copy, "
  "cuda::async_copy, hip::copy, sycl::copy, sycl::async_copy) and memory resources: exactly "
  "the right bytes are transferred in the right direction on the stream or queue of the copy "
  "object, synchronous operations are finished when they return, events cover "
  "their operations and none is dropped, failures are reported as exceptions (never by "
  "terminating) and leave nothing pending or leaked.",
  COVER, "every operation, shape, memory kind, order of completion and failing driver call",
  "the tests of these libraries need a device; in-order, idle devices hide missing waits",
  [*CFILES, "cuda/src/utils/cuda/copy.cpp", "cuda/src/utils/cuda/async_copy.cpp",
   "hip/src/utils/hip/copy.cpp", "sycl/src/utils/sycl/copy.sycl",
   "sycl/src/utils/sycl/async_copy.sycl"],
  [("do_copy, do_memset and create_event of the back-ends",
    "cuda/src/utils/cuda/async_copy.cpp, sycl/src/utils/sycl/async_copy.sycl")],
  observe=["driver calls", "events", "content after synchronisation"], note=ANOTE)

P("C50", "Buffers own memory of the right size, alignment and kind",
  "Each 1D, jagged and SoA buffer makes every element of its full capacity (and every size "
  "variable) accessible in memory from the resources it was given (device data "
  "from the main one, host bookkeeping from the host one), aligned for "
  "the element type, and no two elements or variables of any buffers "
  "overlap. Capacities, sizes, kinds and the layout on the device are as asked for. "
  "Moves and assignments keep this, the memory is returned once, and a creation "
  "that fails returns everything.",
  HIST, "every shape (empty and zero-capacity variables included), element size and "
  "alignment, resizability, pair of resources, history of moves, refused allocations",
  "the tests create a few small buffers of ints and floats in memory that is more aligned "
  "than it has to be",
  [CONT + "data/vector_buffer.hpp", CONT + "impl/vector_buffer.ipp",
   CONT + "data/jagged_vector_buffer.hpp", CONT + "impl/jagged_vector_buffer.ipp",
   "core/include/vecmem/edm/buffer.hpp", "core/include/vecmem/edm/impl/buffer.ipp",
   CONT + "details/aligned_multiple_placement.hpp"],
  [("one allocation split into aligned parts", CONT +
    "impl/vector_buffer.ipp, " + CONT + "impl/jagged_vector_buffer.ipp, "
    "core/include/vecmem/edm/impl/buffer.ipp")],
  observe=["addresses, capacities and sizes of views", "resource calls"], note=NOTE_MR)

P("C51", "Host containers and the views of them agree, in any history",
  "After any history of operations and failures all (non-scalar) variables "
  "of an SoA host container have the same size, which size() "
  "returns, hold the values that were written, and are in memory from the "
  "resource of the container. Views made by get_data() of SoA containers, vectors, "
  "jagged vectors and arrays have the sizes of their container and see exactly its "
  "elements. at() refuses every index beyond the end, front() and back() of an empty array "
  "throw, and size() throws if the user gave the variables different sizes. vecmem::array constructs and destroys each element once, and nothing is "
  "leaked or returned twice.",
  HIST, "every history of resizes, writes, moves, copies, views and destruction, with "
  "refused memory or throwing constructors at any point",
  "the tests resize one container of one type, and nothing fails",
  ["core/include/vecmem/edm/host.hpp", "core/include/vecmem/edm/impl/host.ipp",
   "core/include/vecmem/edm/details/host_traits.hpp",
   CONT + "array.hpp", CONT + "impl/array.ipp",
   CONT + "data/jagged_vector_data.hpp", CONT + "impl/jagged_vector_data.ipp",
   CONT + "impl/jagged_vector.ipp"],
  [("resize of every variable; views of every variable",
    "core/include/vecmem/edm/details/host_traits.hpp, "
    "core/include/vecmem/edm/impl/host.ipp")],
  observe=["sizes, values and addresses of elements", "resource calls"], note=NOTE_MR)

P("C52", "static_vector behaves like a vector of limited capacity",
  "Every operation of static_vector (construction, copy, assignment, insertion and "
  "erasure anywhere, also of its own elements, resizing, iteration) leaves it with the elements that "
  "a std::vector would have, constructs each element before "
  "use and destroys it once, aligns it, never touches memory outside of its "
  "storage, and stays usable and leaks nothing if a constructor of an element throws.",
  HIST, "every history of operations up to the capacity, element alignments "
  "and constructors that throw at any point",
  "the tests run one short history on ints and trivial objects",
  [CONT + "static_vector.hpp", CONT + "impl/static_vector.ipp"],
  [("bytewise moves of the elements behind a position; construct / destruct",
    CONT + "impl/static_vector.ipp")],
  observe=["elements after each operation", "constructor and destructor calls"],
  note=NOTE_MR)

P("C53", "Device containers, iterators and views reach exactly their elements",
  "Every way to reach element i of a device_vector, jagged_device_vector, device_array or "
  "static_array (at, [], front, back, data and forward, reverse and constant iterators, also after conversions, "
  "copies and assignments of views, containers and iterators) reaches the same object, the i-th of the viewed "
  "memory, with the size that the vector has at that time. It touches no other element, so threads may use all elements that no "
  "other thread writes. Views (also SoA ones) convert to constant ones of the same memory, and compare equal exactly if they describe the same memory.",
  ["inputs", "histories", "configurations", "schedules"],
  "every shape and history of shapes, every path to every element, every schedule of readers and writers of different elements",
  "the tests walk through a few fixed vectors in one thread, mostly forwards",
  [CONT + f for f in ("device_vector.hpp", "impl/device_vector.ipp",
                      "impl/jagged_device_vector.ipp", "impl/jagged_device_vector_iterator.ipp",
                      "impl/reverse_iterator.ipp", "impl/device_array.ipp", "impl/static_array.ipp",
                      "impl/vector_view.ipp", "impl/jagged_vector_view.ipp")],
  [("iterators over views; sizes read through the view",
    CONT + "impl/jagged_device_vector_iterator.ipp, " + CONT + "impl/reverse_iterator.ipp, " +
    CONT + "impl/device_vector.ipp")],
  observe=["addresses and values of the elements reached", "data races"],
  note=NOTE_MR)
