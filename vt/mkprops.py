#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the list stays reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": m[0], "where": m[1]} for m in mech]}
    if observe: a["observe_at"] = observe
    if state: a["state"] = [{"name": s[0], "meaning": s[1], "where": s[2]} for s in state]
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

T = "tcmalloc/"
prop("P01", "Live blocks never overlap and keep their contents",
 "At every moment, the address ranges [p, p+usable size) of all live heap blocks, whichever allocation function, thread or size produced them, are pairwise disjoint and readable and writable. "
 "The bytes a program stored in a block stay unchanged until the program overwrites them or frees the block, whatever other threads allocate, free or release to the operating system meanwhile.",
 ["inputs", "schedules", "histories", "configurations"],
 "All allocation/free histories over all size classes and large sizes, by any number of threads, in per-CPU, per-thread and every page-size/size-class configuration, with maintenance actions running concurrently.",
 "A test frees and checks a handful of blocks; overlap needs a particular history through several cache layers and the page heap.",
 [T+"tcmalloc.cc", T+"cpu_cache.h", T+"transfer_cache_internals.h", T+"central_freelist.h", T+"span.h", T+"huge_page_aware_allocator.h"],
 [("per-CPU slab, transfer cache, central free list, span bitmaps/free lists", T+"internal/percpu_tcmalloc.h"), ("page heap never hands out a page twice", T+"huge_page_filler.h")],
 ["malloc/new family return values", "free/delete family arguments", "block contents"])

prop("P02", "Every block has at least the alignment requested or implied",
 "Every allocation function returns a pointer aligned to the requested alignment or, where none is given, to what the C and C++ standards imply for the requested size (16 bytes for malloc-family blocks of 16 bytes or more, the default new alignment for operator new, the page size for valloc and pvalloc). "
 "Every power-of-two alignment up to the huge-page size (2 MiB, the documented limit of the page heap) is honoured for every size, including sizes of zero and sizes smaller than the alignment, in every build and run-time configuration.",
 ["inputs", "configurations"],
 "All (size, alignment, function) triples in all supported page-size, size-class, partition and hot/cold configurations, sampled or not.",
 "The size-class table is large and generated; tests try few (size, alignment) pairs in few configurations.",
 [T+"tcmalloc.cc", T+"tcmalloc_policy.h", T+"sizemap.h", T+"sizemap.cc", T+"size_classes.cc"],
 [("size class lookup by (size, alignment)", T+"sizemap.h"), ("aligned page allocations", T+"huge_page_aware_allocator.h")],
 ["returned pointers"])

prop("P03", "All reported block sizes agree and cover the request",
 "For every live block the size reported by the block-size query functions is at least the requested size, is the same through every query function and for the whole life of the block, and all of those bytes may be used. "
 "For an unsampled block it equals the size predicted beforehand for the same request and the size returned by the size-returning allocation functions; predictions are monotone in the requested size.",
 ["inputs", "configurations"],
 "All sizes from 0 to multi-megabyte, all alignments and all allocation functions (malloc, aligned, size-returning, hot/cold, alloc_at_least).",
 "Agreement must hold at each size-class boundary of each table; tests sample a few sizes.",
 [T+"tcmalloc.cc", T+"malloc_extension.cc", T+"sizemap.h", T+"alloc_at_least.cc", T+"new_extension.h"],
 [("class-to-size lookup by span", T+"tcmalloc.cc"), ("nallocx/estimated size", T+"tcmalloc.cc")],
 ["malloc_usable_size, nallocx, GetAllocatedSize, size-returning new, alloc_at_least"])

prop("P04", "realloc, calloc and array functions preserve and zero as specified",
 "Resizing a block preserves the first min(old, new) bytes, returns a block able to hold the new size and sized like a fresh block of it, leaves the old block intact when it fails, and ends the old block's life exactly once when it succeeds. "
 "Zeroing allocation returns only zero bytes even when recycling dirty memory, and element-count functions whose product overflows fail without side effects; resizing to zero frees, and resizing null allocates.",
 ["inputs", "histories"],
 "All (old size, new size) pairs and chains of resizes, over recycled dirty memory, sampled and unsampled blocks, in concurrent use.",
 "Depends on the size-class transition, on sampling state, and on whether the recycled memory is dirty; tests cover a few pairs.",
 [T+"tcmalloc.cc"], [("do_realloc / calloc / reallocarray", T+"tcmalloc.cc")], ["block contents before/after", "errno"])

prop("P05", "Unsatisfiable requests fail cleanly and leave the heap usable",
 "A request that cannot be satisfied (size too large, arithmetic overflow, invalid alignment, or the operating system refusing memory) fails exactly as its interface specifies: null with errno ENOMEM or EINVAL for the C functions, the POSIX error code with the output untouched, null (with a zero size from size-returning functions) for nothrow forms, and for throwing forms of operator new, where this allocator documents termination instead of std::bad_alloc, an abort with a diagnostic naming the size. "
 "After any number of such failures, existing blocks keep their contents, no memory is lost, and later satisfiable requests succeed.",
 ["inputs", "fault_sequences"],
 "All allocation entry points with sizes from the small to SIZE_MAX, all alignments valid and invalid, and refusal of system memory at any point of a history.",
 "OS refusal is never injected by the tests, and overflow corners exist per entry point.",
 [T+"tcmalloc.cc", T+"tcmalloc_policy.h", T+"internal/system_allocator.h", T+"page_allocator.cc"],
 [("policy-specific OOM handling", T+"tcmalloc_policy.h"), ("growth failure propagation", T+"huge_page_aware_allocator.h")],
 ["return values, errno, process termination"])

prop("P06", "Freed memory is reusable through every matching free function",
 "A block may be returned by any deallocation function that matches how it was allocated (plain; sized with the requested size or, for size-returning allocations, with any size between the requested and the returned one; aligned; sized and aligned; nothrow; array; null pointer), from any thread, and each such call is accepted and makes the memory available again. "
 "Hence a program whose live data is bounded has a bounded heap: repeating a workload any number of times does not keep growing memory obtained from the system, and the caches hand back all memory of exited threads and idle CPUs.",
 ["inputs", "schedules", "histories"],
 "All pairs of allocation and matching deallocation functions and sizes; producer/consumer histories, thread churn, CPU migration, of any length.",
 "Leaks and refused frees show only for particular pairings and after long or cross-thread histories.",
 [T+"tcmalloc.cc", T+"cpu_cache.h", T+"thread_cache.cc", T+"transfer_cache_internals.h", T+"central_freelist.h"],
 [("free fast/slow paths", T+"tcmalloc.cc"), ("drain and thread-exit paths", T+"thread_cache.cc")],
 ["generic.* properties, process footprint, survival of the call"])

prop("P07", "Memory accounting adds up",
 "When no other thread is running, the reported bytes in use by the application equal exactly the sum of the sizes of the live blocks (allocator internals aside), and rise and fall by exactly the block's reported size on each allocation and free. "
 "The reported components (in use, cached in each tier, page-heap free, unmapped, metadata) are never negative or wrapped, and add up to the reported totals, in every statistics interface consistently.",
 ["histories", "configurations"],
 "All allocation histories (small, large, sampled, guarded, aligned, resized), observed at any quiescent point through GetNumericProperty, GetProperties, mallinfo and the statistics dump.",
 "Drift accumulates over histories and per code path (sampling, guarded pages, resizing); tests check a few sizes loosely.",
 [T+"global_stats.cc", T+"tcmalloc.cc", T+"malloc_extension.cc", T+"stats.h", T+"central_freelist.h"],
 [("ExtractStats", T+"global_stats.cc"), ("span/page-heap counters", T+"page_allocator_interface.h")],
 ["GetNumericProperty, GetProperties, mallinfo2, GetStats"])

prop("P08", "Memory limits are honoured",
 "With a soft limit set, the allocator keeps its backed memory at or below the limit whenever free cached pages could be released to get there, and allocation still succeeds beyond it; the limits read back as set. "
 "With a hard limit set, memory usage never exceeds it: an allocation that would exceed it even after releasing all free pages does not succeed (the process is terminated with a diagnostic), and one that would fit does succeed.",
 ["histories", "inputs", "configurations"],
 "All limits and allocation/free histories approaching them, for small and large blocks, limits set before or after growth, raised, lowered or removed.",
 "Limit enforcement interacts with every source of growth and with fragmentation; tests try one limit and pattern.",
 [T+"page_allocator.cc", T+"page_allocator.h", T+"malloc_extension.cc"],
 [("ShrinkToUsageLimit", T+"page_allocator.cc")],
 ["SetMemoryLimit, physical memory statistics, RSS"])

prop("P09", "Releasing memory is safe, effective and reported truthfully",
 "Releasing free memory to the operating system (on request, at a rate in the background, on limit pressure) only ever gives back pages that hold no live block. "
 "A request to release at least N bytes releases that much when that much is free in releasable form, the kernel's residency of the process drops accordingly, and the reported free and unmapped byte counts match what the kernel shows; released pages are usable again when reallocated.",
 ["histories", "schedules", "fault_sequences"],
 "All histories of allocation, free and release calls of any size from any thread, including failing release system calls.",
 "Needs page-level histories and kernel-visible residency; tests check return counts in mocks.",
 [T+"huge_page_filler.h", T+"huge_page_aware_allocator.h", T+"huge_cache.cc", T+"huge_region.h", T+"internal/system_allocator.h", T+"malloc_extension.cc"],
 [("HugePageFiller::ReleasePages, HugeCache::ReleaseCachedPages", T+"huge_page_filler.h"), ("madvise wrapper", T+"internal/system_allocator.h")],
 ["/proc/self/pagemap, smaps, generic/tcmalloc properties"])

prop("P10", "Per-CPU caches neither lose nor duplicate objects",
 "Every object put into a per-CPU cache comes out exactly once: by a later allocation of the same class, or by a drain, shrink, steal, resize, slab change or flush back to the tier below; this holds under preemption, CPU migration, signals and concurrent remote operations. "
 "Each CPU's capacity equals its allocated plus unallocated bytes, capacity moves between CPUs without being created or lost, and no class holds more than its capacity or its maximum capacity.",
 ["schedules", "histories", "fault_sequences"],
 "All interleavings of local push/pop/batch operations with remote drain, capacity stealing, size-class resizing, slab growth/shrink, max-capacity updates and release of drained metadata.",
 "Restartable sequences and cross-CPU stopping are timing dependent; a test samples few interleavings.",
 [T+"cpu_cache.h", T+"internal/percpu_tcmalloc.h", T+"internal/percpu.cc", T+"internal/percpu_rseq_x86_64.S", T+"internal/percpu.h"],
 [("rseq critical sections", T+"internal/percpu_rseq_x86_64.S"), ("StopCpu/StartCpu protocol", T+"internal/percpu_tcmalloc.h"), ("capacity accounting", T+"cpu_cache.h")],
 ["objects entering and leaving each tier", "Capacity/Allocated/Unallocated queries"])

prop("P11", "Transfer caches and central free lists conserve objects",
 "Objects inserted into the middle-tier caches (transfer caches, sharded transfer caches, per-thread caches, central free lists) are returned exactly once, only for their own size class, and only while free; nothing is lost, duplicated or mixed between classes under any concurrent mix of insertion, removal, plundering, resizing and thread exit. "
 "Reported lengths, free-object counts and overheads equal the true contents at quiescence, and capacities stay within their configured bounds.",
 ["schedules", "histories"],
 "All batch sizes, size classes and concurrent histories, including empty/full transitions and memory exhaustion of the tier below.",
 "Ring-buffer wraparound, partial fills and class-capacity trading arise in long histories only.",
 [T+"transfer_cache_internals.h", T+"transfer_cache.h", T+"central_freelist.h", T+"central_freelist.cc", T+"thread_cache.cc", T+"thread_cache.h"],
 [("RingBuffer transfer cache, Plunder, capacity make-room", T+"transfer_cache_internals.h"), ("span lists by occupancy", T+"central_freelist.h")],
 ["objects in and out", "tc_length, length, OverheadBytes, stats"])

prop("P12", "A span hands out each of its objects once and knows its free count",
 "A span carved into N equal objects yields each of its N in-range, correctly spaced objects at most once until it is returned, accepts each back, and reports exactly when it is empty and full. "
 "This holds for every object size and count, both bookkeeping formats, any batch sizes and any order of returns.",
 ["inputs", "histories"],
 "All size classes, object counts and permutations of batched pops and pushes.",
 "The bookkeeping packs indices and caches in spare bits; order-dependent corner cases are innumerable.",
 [T+"span.h", T+"span.cc", T+"internal/range_tracker.h"],
 [("bitmap and embedded freelist formats", T+"span.h")], ["FreelistPopBatch, FreelistPushBatch results"])

prop("P13", "The page heap hands out disjoint page runs and accounts for every page",
 "Every page run handed out has at least the requested length and alignment, lies in memory obtained from the system, overlaps no other outstanding run and becomes reusable when returned, through whichever internal strategy served it. "
 "Pages in use, free and unmapped always add up to the memory obtained from the system, and per-size span statistics equal a recount of the outstanding runs.",
 ["inputs", "histories", "fault_sequences"],
 "All sequences of page-run requests (any length and alignment), returns, and releases, over all tags and strategy options, and with system refusal or release failure injected.",
 "The strategies (packing, regions, donated tails, cached huge pages) interact over long histories.",
 [T+"huge_page_aware_allocator.h", T+"huge_page_filler.h", T+"huge_region.h", T+"huge_cache.cc", T+"huge_allocator.cc", T+"page_allocator.h"],
 [("AllocRawHugepages, Delete, donation", T+"huge_page_aware_allocator.h")], ["New/NewAligned/Delete/ReleaseAtLeastNPages results, stats()"])

prop("P14", "Huge-page packing keeps exact use and release records",
 "Within a huge page shared by many runs, a page is never in use twice, never recorded released while in use, and is unbacked only after release succeeded; used, free and unmapped page counts, huge-page counts and longest-free-range information equal a recount at all times. "
 "A huge page is handed back exactly when its last run is returned, and requested releases subrelease only free pages, densest-last, without exceeding what is free.",
 ["inputs", "histories", "fault_sequences"],
 "All sequences of allocations, frees, releases, donations, hard and soft releases, with failing release calls and all option combinations.",
 "State depends on order of partial frees and releases; tests follow scripted sequences.",
 [T+"huge_page_filler.h", T+"huge_page_tracker.h", T+"hinted_tracker_lists.h", T+"internal/range_tracker.h"],
 [("PageTracker bitmaps", T+"huge_page_tracker.h"), ("filler lists", T+"huge_page_filler.h")], ["TryGet, Put, Contribute, ReleasePages results and counters"])

prop("P15", "Huge-page caches, regions and address ranges conserve memory",
 "Ranges of huge pages taken from the system, cached, carved into large regions, split and merged are never handed out twice, never lost and always aligned; freed adjacent ranges coalesce. "
 "Backed/unbacked status follows what was actually released, cache size stays within its limit, and reported usage, size, in-use and free totals equal a recount.",
 ["inputs", "histories", "fault_sequences"],
 "All histories of range allocation, return, release (successful or failing) and demand-driven shrinking, with arbitrary time steps and address layouts.",
 "Coalescing and limit adaptation depend on the whole history and on time.",
 [T+"huge_cache.cc", T+"huge_cache.h", T+"huge_allocator.cc", T+"huge_address_map.cc", T+"huge_region.h"],
 [("HugeAddressMap merge", T+"huge_address_map.cc"), ("HugeRegion tracker and backing bits", T+"huge_region.h"), ("HugeCache limits", T+"huge_cache.cc")],
 ["Get/Release/MaybeGet/MaybePut, stats"])

prop("P16", "Address and index bookkeeping structures equal their models",
 "The building-block containers (page map, range and bit maps, intrusive lists, hinted lists, address maps) behave as the mathematical map, set or sequence they represent for every sequence of operations. "
 "Lookups return exactly what was stored, range searches return exactly the maximal free or marked ranges, and iteration visits each element once.",
 ["inputs", "histories"],
 "All operation sequences over all valid keys, ranges and boundaries (word boundaries, first/last element, full/empty).",
 "Bit-parallel code has boundary cases at each word edge.",
 [T+"pagemap.h", T+"internal/range_tracker.h", T+"internal/linked_list.h", T+"hinted_tracker_lists.h", T+"huge_address_map.cc"],
 [("Bitmap/RangeTracker", T+"internal/range_tracker.h"), ("TList", T+"internal/linked_list.h"), ("PageMap2/3", T+"pagemap.h")], ["return values of each operation"])

prop("P17", "Size classes serve every request size within bounded waste",
 "For every request size and alignment up to the largest small size, the chosen size class is at least the request, satisfies the alignment, is the smallest that does so, and its class index is valid in every partition and in the hot and cold variants. "
 "Class sizes are increasing, lie on the alignment granularity, fit their span with bounded internal and tail waste, and batch sizes are within the supported limits, in every table that can be selected.",
 ["inputs", "configurations"],
 "All sizes, alignments and every selectable size-class table and page size.",
 "Each table has about a hundred classes times every size; tests check the default build.",
 [T+"sizemap.h", T+"sizemap.cc", T+"size_classes.cc", T+"legacy_size_classes.cc", T+"experimental_pow2_size_class.cc", T+"reuse_relaxed_below_64_size_classes.cc", T+"common.h"],
 [("SizeMap::Init, ValidSizeClasses", T+"sizemap.cc")], ["nallocx over all sizes, size map queries"])

prop("P18", "Allocation hooks see every allocation and free exactly once",
 "With allocation and deallocation hooks installed, each application allocation is reported exactly once, with its address, requested and actual size and a matching handle, before the caller sees the block, and each free exactly once before the memory can be reused; resizing reports as the corresponding free and allocation. "
 "Hooks may be added and removed at any time from any thread without missing or duplicating reports for calls that started after installation and finished before removal, and without corrupting the hook set (a thread other than the installing one notices a first hook when it is next switched out).",
 ["inputs", "schedules", "histories"],
 "All allocation and free functions, small/large/sampled/aligned/hot-cold blocks, and concurrent installation and removal.",
 "Each fast path must divert to the hooked path; missing one is invisible unless that path is exercised.",
 [T+"malloc_hook.cc", T+"malloc_hook.h", T+"malloc_hook_invoke.h", T+"internal/hook_list.h", T+"tcmalloc.cc"],
 [("slow path diversion when hooks present", T+"tcmalloc.cc"), ("HookList", T+"internal/hook_list.h")], ["hook callbacks"])

prop("P19", "Heap and peak profiles describe exactly the sampled live blocks",
 "The current-heap profile contains one record for each sampled block that is live and none for freed ones, with its true requested size, alignment, allocated size, allocation kind, access hint and allocating call stack. "
 "Weights estimate live bytes and counts without bias (each record's count is its weight rounded to whole blocks); the peak profile describes the live set at a past moment whose total was within the stated fraction of the maximum, and profiling never alters program-visible allocation behaviour.",
 ["inputs", "schedules", "histories"],
 "All allocation histories, kinds, sizes and sampling intervals, with frees and snapshots on concurrent threads.",
 "Bias and stale records show only statistically or over specific histories.",
 [T+"allocation_sampling.h", T+"allocation_sampling.cc", T+"peak_heap_tracker.cc", T+"stack_trace_table.cc", T+"internal/sampled_allocation_recorder.h", T+"sampler.cc"],
 [("sampled allocation recorder", T+"internal/sampled_allocation_recorder.h"), ("weights", T+"sampler.cc")], ["SnapshotCurrent(kHeap/kPeakHeap)"])

prop("P20", "Allocation, lifetime and event profiles record the session truthfully",
 "An allocation profile holds exactly the sampled allocations made between its start and stop. A lifetime profile pairs each sampled block's allocation with its own free, reports lifetimes within the time the block was really live (up to the stop) with their true mean and standard deviation at the stated resolution, includes blocks already live at the start, marks those still live at the stop as censored, and attributes sizes and counts to the right call stacks. "
 "Any number of sessions may overlap, start and stop concurrently without affecting each other or losing events.",
 ["schedules", "histories"],
 "All placements of starts and stops relative to allocations and frees, on any threads, with overlapping sessions.",
 "Session boundaries race with allocation and free events.",
 [T+"deallocation_profiler.cc", T+"deallocation_profiler.h", T+"allocation_sample.cc", T+"allocation_sample.h", T+"malloc_extension.cc"],
 [("allocation sample list", T+"allocation_sample.cc"), ("lifetime pairing", T+"deallocation_profiler.cc")], ["AllocationProfilingToken::Stop results"])

prop("P21", "Sampling is memoryless, unbiased and controllable",
 "Allocations are sampled so that each requested byte is equally likely to trigger a sample, at on average one sample per configured interval, independent of allocation size pattern, thread or history; each sample's weight makes the estimate of allocated bytes unbiased. "
 "An interval of zero stops sampling, an interval of one samples every allocation, and changes take effect on all threads.",
 ["inputs", "histories", "configurations"],
 "All allocation size sequences and sampling intervals.",
 "A statistical property over long runs; tests use loose fixed thresholds.",
 [T+"sampler.h", T+"sampler.cc", T+"internal/exponential_biased.h", T+"parameters.cc"],
 [("exponential skip", T+"internal/exponential_biased.h"), ("RecordAllocation weights", T+"sampler.h")], ["profile samples, Sampler"])

prop("P22", "Guarded allocations catch overflow, underflow, reuse and double free",
 "For every guarded sampled block, a read or write just outside it beyond the guard page, any access after free, and a second free terminate the process with a report naming the right kind of error, the block, and its allocation (and free) stacks. "
 "Correct programs never trigger a report, guarded blocks obey size, alignment and content rules like any other, and the number of simultaneously guarded blocks never exceeds the limit, with slots recycled after free.",
 ["inputs", "histories", "schedules"],
 "All sizes up to a page, alignments, offsets of the bad access, and histories of guarded slot reuse.",
 "Depends on slot recycling, random placement at either page end, and the access offset.",
 [T+"guarded_page_allocator.cc", T+"guarded_page_allocator.h", T+"segv_handler.cc", T+"error_reporting.cc"],
 [("GuardedPageAllocator slots and magic bytes", T+"guarded_page_allocator.cc"), ("SEGV handler", T+"segv_handler.cc")], ["process termination, stderr report"])

prop("P23", "Detectable misuse is reported, valid use never is",
 "Freeing an address outside every live block (wild or misaligned, or not at the start of a large, sampled or guarded block), freeing a large or sampled block twice, and passing a wrong size, alignment or mismatched kind to a deallocation of a block for which the allocator keeps that information (sampled and guarded blocks, and the page count of large ones) terminate the process with a diagnostic naming the error and the pointer, instead of silently corrupting the heap; small blocks returned in bulk with a wrong size are diagnosed when they reach the shared lists. (An optimised build does not look up the record of a block freed with a small size.) "
 "No sequence of valid calls is ever diagnosed.",
 ["inputs", "histories"],
 "All misuse kinds against sampled, guarded and large blocks of all sizes; all valid pairings of allocation and deallocation.",
 "The cross product of misuse kind, size and allocation path is large.",
 [T+"tcmalloc.cc", T+"error_reporting.cc", T+"error_reporting.h", T+"span.h"],
 [("corruption reports", T+"error_reporting.cc"), ("sized-delete checks", T+"tcmalloc.cc")], ["process termination, stderr report"])

prop("P24", "Hot/cold, security-partition and NUMA placement is segregated",
 "Blocks allocated with a cold hint (below the least hot hint), with different security-partition tokens, or on CPUs of different NUMA partitions live on pages and huge pages that never serve another of these groups, when the respective feature is active: with full partitioning token 0 and every other allocation (token 1 or none) are kept apart, including their sampled blocks, and only token-0 blocks go to the cold heap; in light mode malloc-type token-0 blocks are kept apart from the rest; with NUMA awareness memory of each partition is bound to its nodes. realloc keeps a block's security partition, also when the block was or becomes sampled. "
 "The hint or token never changes alignment, usable size guarantees or content, and memory so allocated can be freed by any matching free function, also after the least hot hint was changed. (Guarded samples have pages of their own; a cold request for 0 bytes may be served hot.)",
 ["inputs", "histories", "configurations"],
 "All hints, tokens, sizes and alignments, before and after reuse and release.",
 "Tag selection occurs per path (small, large, sampled, resized); tests check few.",
 [T+"internal/memory_tag.h", T+"tcmalloc_policy.h", T+"tcmalloc.cc", T+"page_allocator.h", T+"internal/numa.h", T+"sizemap.h"],
 [("address tags", T+"internal/memory_tag.h"), ("partition policies", T+"tcmalloc_policy.h")], ["returned addresses"])

prop("P25", "The allocator makes progress across threads, signals and fork",
 "Allocation and free calls always complete: no combination of concurrent allocation, statistics, profiling, release, background maintenance, parameter changes, thread creation and exit deadlocks or livelocks, and allocation remains possible in early initialisation, thread-local destructors and late process exit. "
 "No internal lock is held when a call returns or a hook runs, and no two threads take internal locks in opposite orders. "
 "After a fork made at a moment when no other thread is inside the allocator, the child can use the heap and sees the parent's blocks unchanged, and the parent is unaffected.",
 ["schedules", "fault_sequences"],
 "All interleavings of these activities, including signals (whose handlers do not allocate) at arbitrary instructions.",
 "Lock-order and fork problems appear in rare interleavings.",
 [T+"static_vars.cc", T+"tcmalloc.cc", T+"background.cc", T+"thread_cache.cc", T+"internal/percpu.cc", T+"central_freelist.h"],
 [("lock order, fork handlers", T+"static_vars.cc"), ("background loop", T+"background.cc")], ["completion of calls"])

prop("P26", "System memory is obtained, placed and handed over as configured",
 "All heap memory comes through the installed region factory: every request it receives is for reserved, properly aligned, non-overlapping address space with the right usage hint, memory is used only within what the factory returned, and a failing factory makes allocation fail cleanly. "
 "Memory handed out by the system layer has at least the requested size and alignment, does not overlap, is zero-filled when fresh, and its accounting matches.",
 ["inputs", "histories", "fault_sequences"],
 "All sizes, alignments and tags requested, with default and user factories, short or failing answers.",
 "Placement (alignment trimming, region exhaustion) depends on history and address layout.",
 [T+"internal/system_allocator.h", T+"internal/system_allocator.cc", T+"malloc_extension.cc"],
 [("SystemAllocator regions, MmapAligned", T+"internal/system_allocator.h")], ["factory callbacks, returned ranges"])

prop("P27", "Concurrent use has no data races",
 "Any concurrent use of the thread-safe parts (allocation and free fast and slow paths, shared caches, statistics, parameters, profiling, hooks, metadata allocation, sampled-allocation recording) synchronises all conflicting accesses: no execution contains a data race on allocator state.",
 ["schedules"],
 "All concurrent call combinations on shared allocator components.",
 "A race rarely changes a test's outcome; it needs a detector and diverse schedules.",
 [T+"central_freelist.h", T+"transfer_cache_internals.h", T+"internal/sampled_allocation_recorder.h", T+"internal/hook_list.h", T+"stack_trace_table.cc", T+"guarded_page_allocator.cc", T+"internal/atomic_stats_counter.h"],
 [("spinlocks and atomics", T+"central_freelist.h")], ["ThreadSanitizer reports"])

prop("P28", "No undefined behaviour or invalid memory access on any valid input",
 "For every valid call sequence and every input file or text the code parses, the allocator and its support libraries execute without out-of-bounds or use-after-free access, signed overflow, invalid shift, misaligned or null dereference, or other undefined behaviour, and never write beyond caller-supplied buffers.",
 ["inputs", "histories"],
 "All inputs of the parsing and formatting code and all operation sequences on the data structures.",
 "Undefined behaviour usually produces the expected result in tests.",
 [T+"internal/logging.h", T+"internal/sysinfo.cc", T+"internal/proc_maps.cc", T+"internal/memory_stats.cc", T+"internal/profile_builder.cc", T+"huge_page_filler.h", T+"span.h"],
 [("bounds checks", T+"internal/logging.h")], ["AddressSanitizer / UndefinedBehaviorSanitizer reports"])

prop("P29", "System information is parsed and interpreted correctly",
 "CPU lists, affinity masks, process memory maps, memory statistics, page flags, page residency and cache topology obtained from kernel files are interpreted exactly as the kernel formats define for every well-formed input; entries that are not numbers or are out of range, and files that are missing or cannot be read, yield a clean failure, and no input whatever leads to a crash or an access out of bounds.",
 ["inputs", "fault_sequences"],
 "All well-formed and malformed contents, read-chunk boundaries and unreadable files.",
 "Tests contain a few canned files of particular machines.",
 [T+"internal/sysinfo.cc", T+"internal/proc_maps.cc", T+"internal/memory_stats.cc", T+"internal/pageflags.cc", T+"internal/residency.cc", T+"internal/cache_topology.cc", T+"internal/mincore.cc", T+"internal/numa.cc"],
 [("ParseCpulist etc.", T+"internal/sysinfo.h"), ("ProcMapsIterator", T+"internal/proc_maps.cc")], ["parser results"])

prop("P30", "Metadata memory is disjoint, aligned and accounted",
 "Memory handed out for allocator metadata has the requested size and alignment, never overlaps other metadata or application blocks, is recycled only after being returned, and the reported metadata usage (allocated, unavailable, nonresident, blocks, objects in use and free) equals what was handed out.",
 ["inputs", "histories"],
 "All sizes and alignments of metadata requests, object recycle orders, and growth across block boundaries.",
 "Bump allocation has corner cases at block ends and alignments.",
 [T+"arena.cc", T+"arena.h", T+"metadata_object_allocator.h", T+"internal/explicitly_constructed.h"],
 [("Arena::Alloc", T+"arena.cc"), ("MetadataObjectAllocator freelist", T+"metadata_object_allocator.h")], ["returned ranges, stats()"])

prop("P31", "Statistics dumps are complete, well-formed and bounded",
 "The human-readable and machine-readable statistics dumps are syntactically well formed at any moment, contain each documented section, never write beyond the supplied buffer and report the length that would have been needed, and agree with the property interfaces on the same quantities at quiescence.",
 ["inputs", "histories", "configurations"],
 "All heap states, configurations and buffer sizes, also while other threads allocate.",
 "The dump is assembled by many printers; truncation points are innumerable.",
 [T+"global_stats.cc", T+"internal/logging.h", T+"internal/logging.cc", T+"malloc_extension.cc", T+"stats.cc"],
 [("Printer/PbtxtRegion", T+"internal/logging.h")], ["GetStats, pbtxt dump text"])

prop("P32", "Run-time parameters take effect and read back",
 "Every run-time parameter set through the public or parameter interface reads back as set (clamped only as documented), takes effect on subsequent behaviour, and can be changed at any time under load without harming live blocks. "
 "Experiments and environment selections are parsed as documented: unknown or disabled names are ignored, and enabled ones are reported as active.",
 ["inputs", "configurations", "schedules"],
 "All parameters and values, experiment strings, concurrent changes.",
 "Each setter is individually trivial, and cross-wired ones pass tests that check another.",
 [T+"parameters.cc", T+"parameters.h", T+"malloc_extension.cc", T+"experiment.cc", T+"experiment_config.h"],
 [("Parameters setters", T+"parameters.cc"), ("SelectExperiments", T+"experiment.cc")], ["getters, GetProperties, GetStats"])

prop("P33", "Profiles export to the standard format without loss",
 "A profile exported to the standard profile format is well formed: every referenced string, location, function and mapping exists, sample values and labels equal those of the in-memory profile, equal stacks are merged without losing or double-counting values, and addresses fall into the mapping that contains them.",
 ["inputs"],
 "All sets of samples: any stacks, depths, sizes, alignments, lifetimes and types.",
 "Merging and string/ID tables depend on the sample set.",
 [T+"internal/profile_builder.cc", T+"internal/profile_builder.h", T+"profile_marshaler.cc", T+"stack_trace_table.cc"],
 [("ProfileBuilder", T+"internal/profile_builder.cc")], ["exported proto"])

prop("P34", "Demand history and time-based decisions follow the recorded history",
 "Time-windowed statistics (demand peaks, minima and maxima over intervals, skipped-release decisions and their correctness accounting) equal a recount of the recorded samples in the window for every sequence of reports and clock steps. "
 "Cycle and time arithmetic, saturating counters and rate limits never go backwards, wrap or divide by zero, whatever the clock frequency or gap length.",
 ["inputs", "histories"],
 "All sequences of values, clock advances (zero, tiny, huge gaps) and window lengths.",
 "Epoch wraparound and gaps longer than the window need long or odd clock histories.",
 [T+"internal/timeseries_tracker.h", T+"huge_page_subrelease.h", T+"internal/clock.h", T+"stats.h", T+"stats.cc", T+"internal/bytes.h", T+"internal/overflow.h"],
 [("TimeSeriesTracker epochs", T+"internal/timeseries_tracker.h"), ("subrelease trackers", T+"huge_page_subrelease.h")], ["tracker outputs"])

prop("P35", "Call-stack and event filters give consistent decisions",
 "The call-stack filter that decides which sampled allocations are guarded reports every stack with insertions outstanding or not yet decayed as present, reports absent stacks as present no more often than its documented rate, and reports none once all insertions are removed and decayed, from any threads. "
 "A sampled allocation is guarded exactly when the documented rate, the share of the pool in use, the stack's coverage and the free slots allow it, for any settings of the intervals. "
 "Concurrent recorders visit every registered element and no unregistered one, and statistics counters lose no addition.",
 ["inputs", "schedules", "histories"],
 "All stacks and interleavings of insert, query, remove, register, unregister and iterate.",
 "Collisions and races need many stacks and threads.",
 [T+"internal/stacktrace_filter.h", T+"internal/sampled_allocation_recorder.h", T+"internal/sampled_allocation.h", T+"internal/atomic_stats_counter.h"],
 [("counting filter", T+"internal/stacktrace_filter.h"), ("SampleRecorder graveyard", T+"internal/sampled_allocation_recorder.h")], ["filter and recorder results"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
