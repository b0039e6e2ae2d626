"""The registry: property id -> what to build, what to run, how cases are made."""
from .runner import Job, RSEQ
CHECKS = {}
XF = ["-fno-builtin"]
def env(*ds, **kw):
    e = {}
    for d in ds: e.update(d)
    e.update(kw); return e
def check(pid, builds, jobs, rule, technique, parallel=4, assumptions=(), note=None):
    CHECKS[pid] = dict(builds=builds, jobs=jobs, rule=rule, parallel=parallel, assumptions=list(assumptions), technique=technique, note=note)

def b(variant, name, srcs=None, extra=(), flags=XF):
    return (variant, name, srcs or [name.split("@")[0] + ".cc"], list(extra), list(flags))

def p01(seed, tier):
    J = []
    th = tier == "thorough"
    J.append(Job("h_blocks@fast", ["C"], RSEQ, "percpu"))
    J.append(Job("h_blocks@fast", ["L"], {}, "thread-cache, large"))
    J.append(Job("h_blocks@fast", ["CGB"], RSEQ, "percpu, sampled+guarded, background"))
    J.append(Job("h_blocks@dbg", ["CS"], env(RSEQ, VT_OPS="25000"), "percpu, internal assertions on"))
    J.append(Job("h_blocks@p4", ["C"], RSEQ, "4k pages small-but-slow"))
    for j in J: j.timeout = 1500 if th else 240
    return J
check("P01", [b("fast", "h_blocks@fast"), b("dbg", "h_blocks@dbg"), b("p4", "h_blocks@p4")], p01,
      "random histories over all 55 allocation entry points and their matching frees, 6 threads, cross-thread handover, realloc, concurrent maintenance; "
      "distinct = (entry point, size class/usable size, alignment) triples whose content was verified",
      "stress workload with a shadow model of every live block (owner table and content patterns)")

PART = {"TCMALLOC_HEAP_PARTITIONING": "true"}
POW2 = {"BORG_EXPERIMENTS": "TEST_ONLY_TCMALLOC_POW2_SIZECLASS"}
REUSE = {"TCMALLOC_REUSE_SIZE_CLASSES": "reuserelaxedbelow64"}
NUMA = {"TCMALLOC_NUMA_AWARE": "1"}
def sizes(letter):
    def jobs(seed, tier):
        J = [Job("h_sizes@fast", [letter + "C"], RSEQ, "default"),
             Job("h_sizes@fast", [letter], {}, "thread cache"),
             Job("h_sizes@fast", [letter + "P"], RSEQ, "every block sampled"),
             Job("h_sizes@fast", [letter + "G"], RSEQ, "guarded sampling"),
             Job("h_sizes@fast", [letter], env(RSEQ, PART), "heap partitioning"),
             Job("h_sizes@fast", [letter], env(RSEQ, POW2), "power-of-two classes"),
             Job("h_sizes@fast", [letter], env(RSEQ, REUSE), "reuse-tuned classes")]
        if letter == "A": J.append(Job("h_sizes@p4", [letter], RSEQ, "4k pages")); J.append(Job("h_sizes@p32", [letter], RSEQ, "32k pages"))
        else: J.append(Job("h_sizes@p256", [letter], RSEQ, "256k pages")); J.append(Job("h_sizes@numa", [letter], env(RSEQ, NUMA), "NUMA aware"))
        for j in J: j.timeout = 1500 if tier == "thorough" else 240
        return J
    return jobs
check("P02", [b("fast", "h_sizes@fast"), b("p4", "h_sizes@p4"), b("p32", "h_sizes@p32")], sizes("A"),
      "sweep over all entry points x sizes x alignments, several objects each, in each size-class table; distinct = (entry point, alignment, size)",
      "alignment monitor on every returned pointer over an exhaustive-where-small sweep", parallel=8)
check("P03", [b("fast", "h_sizes@fast"), b("p256", "h_sizes@p256"), b("numa", "h_sizes@numa")], sizes("S"),
      "sweep over all entry points x sizes x alignments; distinct = (entry point, alignment, usable size)",
      "cross-checking monitor over all block-size queries and predictions", parallel=8)

def p04(seed, tier):
    J = [Job("h_realloc@fast", ["C"], RSEQ, "percpu"), Job("h_realloc@fast", ["T"], {}, "thread cache"),
         Job("h_realloc@fast", ["P"], RSEQ, "every block sampled"), Job("h_realloc@fast", ["G"], RSEQ, "guarded"),
         Job("h_realloc@fast", ["M"], env(RSEQ, PART), "partitioned, mixed sampling"), Job("h_realloc@p32", ["M"], RSEQ, "32k pages, mixed sampling")]
    for j in J: j.timeout = 1500 if tier == "thorough" else 240
    return J
check("P04", [b("fast", "h_realloc@fast"), b("p32", "h_realloc@p32")], p04,
      "class-boundary pairs of resizes, random resize chains on 4 threads, zeroing over dirtied memory for every size to 2100 and random larger ones, "
      "overflowing and oversized requests; distinct = (old usable size, new usable size, moved or not) and zeroed sizes",
      "byte-exact reference model of resizing and zeroing", parallel=4)

def p05(seed, tier):
    J = [Job("h_fail@fast", ["C"], RSEQ, "percpu"), Job("h_fail@fast", ["T"], {}, "thread cache"),
         Job("h_fail@fast", ["P"], RSEQ, "sampled"), Job("h_fail@dbg", ["P"], RSEQ, "sampled, internal assertions on"), Job("h_fail@fast", ["G"], RSEQ, "guarded"),
         Job("h_fail@fast", ["R"], env(RSEQ, PART), "partitioned")]
    for j in J: j.timeout = 1500 if tier == "thorough" else 240
    return J
check("P05", [b("fast", "h_fail@fast"), b("dbg", "h_fail@dbg")], p05,
      "every entry point with sizes near SIZE_MAX, PTRDIFF_MAX and powers of two, invalid alignments, and random histories during which mmap or mprotect is refused; "
      "distinct = (entry point, size, alignment) requests that failed and were judged",
      "fault injection at the system-call boundary judged by an outcome table and a shadow model of survivors", parallel=5)

def p07(seed, tier):
    J = [Job("h_account@fast", ["C"], RSEQ, "percpu"), Job("h_account@fast", ["T"], {}, "thread cache"), Job("h_account@fast", ["CP"], RSEQ, "sampled"), Job("h_account@fast", ["CG"], RSEQ, "guarded"),
         Job("h_account@fast", ["C"], env(RSEQ, PART), "partitioned"), Job("h_account@dbg", ["C"], RSEQ, "internal assertions on")]
    for j in J: j.timeout = 1500 if tier == "thorough" else 240
    return J
check("P07", [b("fast", "h_account@fast"), b("dbg", "h_account@dbg")], p07,
      "every single operation of random histories over all entry points, and paused points of 6-thread histories with concurrent maintenance; distinct = (entry point, signed size moved) and in-use totals judged",
      "exact-sum model of live blocks against every statistics interface; component identities", parallel=6)

def p06(seed, tier):
    J = [Job("h_free@fast", ["C"], RSEQ, "percpu"), Job("h_free@fast", ["T"], {}, "thread cache"), Job("h_free@fast", ["CP"], RSEQ, "sampled"), Job("h_free@fast", ["CG"], RSEQ, "guarded"),
         Job("h_free@fast", ["C"], env(RSEQ, PART), "partitioned"), Job("h_free@p32", ["C"], RSEQ, "32k pages"), Job("h_free@dbg", ["C"], RSEQ, "internal assertions on")]
    for j in J: j.timeout = 1500 if tier == "thorough" else 300
    return J
check("P06", [b("fast", "h_free@fast"), b("dbg", "h_free@dbg"), b("p32", "h_free@p32")], p06,
      "all entry points x matching frees x sizes x alignments, then 8 repeated bounded workloads with exact in-use comparison after each round and complete drains; distinct = (entry point, free function, alignment, size)",
      "conservation monitor: bytes in use, drained caches and system footprint after repeated identical rounds", parallel=7)

def p08(seed, tier):
    J = [Job("h_limit@fast", ["CY"], RSEQ, "percpu"), Job("h_limit@fast", ["T_"], {}, "thread cache"), Job("h_limit@fast", ["CN"], RSEQ, "subrelease off"),
         Job("h_limit@fast", ["C_"], env(RSEQ, PART), "partitioned"), Job("h_limit@p32", ["C_"], RSEQ, "32k pages"), Job("h_limit@dbg", ["C_"], RSEQ, "internal assertions on")]
    for j in J: j.timeout = 1500 if tier == "thorough" else 300
    return J
check("P08", [b("fast", "h_limit@fast"), b("dbg", "h_limit@dbg"), b("p32", "h_limit@p32")], p08,
      "child processes with random soft and hard limits, four block-size styles, limits moved up and down at run time, growth beyond a hard limit, 6 threads; distinct = (style, backed MiB) points judged",
      "limit monitor after every page-heap allocation; expected-termination oracle with diagnostic check", parallel=6)

def p09(seed, tier):
    J = [Job("h_release@fast", ["CB"], RSEQ, "percpu, background thread"), Job("h_release@fast", ["T_"], {}, "thread cache"), Job("h_release@fast", ["CN"], RSEQ, "subrelease off"),
         Job("h_release@fast", ["CP"], env(RSEQ, PART), "partitioned, sampled"), Job("h_release@p256", ["C_"], RSEQ, "256k pages"), Job("h_release@dbg", ["C_"], RSEQ, "internal assertions on")]
    for j in J: j.timeout = 1500 if tier == "thorough" else 300
    return J
check("P09", [b("fast", "h_release@fast"), b("dbg", "h_release@dbg"), b("p256", "h_release@p256")], p09,
      "release requests of all sizes over four block-size styles, with refused and partly refused system calls, small-step and background rates, 6 threads with releases, limits and maintenance; "
      "distinct = (address, length) ranges given back and block shapes allocated",
      "monitor on every release system call against a shadow of live memory; kernel residency (mincore) against reported counts", parallel=6)

def p10(seed, tier):
    V = env(RSEQ, BORG_EXPERIMENTS="TEST_ONLY_MM_VCPU")
    J = [Job("h_slab@comp", ["S"], RSEQ, "slab model"), Job("h_slab@comp", ["T"], RSEQ, "slab, threads"), Job("h_slab@comp", ["T"], V, "slab, threads, virtual CPUs"),
         Job("h_cpucache@comp", ["Sd"], RSEQ, "cache model"), Job("h_cpucache@comp", ["SPdG"], RSEQ, "cache model, partitions"), Job("h_cpucache@comp", ["SLd"], RSEQ, "cache model, large classes bypass"),
         Job("h_cpucache@comp", ["Td"], RSEQ, "cache, threads"), Job("h_cpucache@compn", ["TPd"], RSEQ, "cache, threads, partitions"), Job("h_cpucache@compn", ["T"], V, "cache, threads, virtual CPUs")]
    for j in J: j.timeout = 1500 if tier == "thorough" else 300
    return J
check("P10", [b("comp", "h_slab@comp"), b("comp", "h_cpucache@comp"), b("compn", "h_cpucache@compn")], p10,
      "random push/pop/batch/grow/shrink/drain/stop/resize histories on fake CPUs, judged after every step; real threads with timers, migrations and remote operations; the whole cache over a tier that may refuse or hand out part; "
      "distinct = (operation, class, fill and spare capacity) on the slab and (class, CPU, capacity) in the cache",
      "exact stack model of each per-CPU list; ownership token on every object; capacity accounting identities at every quiet point", parallel=4)

def p11(seed, tier):
    J = [Job("h_tiers@comp", ["T"], RSEQ, "transfer caches"), Job("h_tiers@comp", ["L"], RSEQ, "sharded, large classes"), Job("h_tiers@comp", ["G"], RSEQ, "sharded, all classes"), Job("h_tiers@comp", ["C"], RSEQ, "central lists"),
         Job("h_tiers@compn", ["Tt"], RSEQ, "transfer caches, threads"), Job("h_tiers@comp", ["Gt"], RSEQ, "sharded, threads"), Job("h_tiers@comp", ["Lt"], RSEQ, "sharded large classes, threads"), Job("h_tiers@compp32", ["Tt"], RSEQ, "32k pages, threads"), Job("h_tiers@compp32", ["G"], RSEQ, "32k pages, sharded")]
    for j in J: j.timeout = 1500 if tier == "thorough" else 300
    return J
check("P11", [b("comp", "h_tiers@comp"), b("compn", "h_tiers@compn"), b("compp32", "h_tiers@compp32")], p11,
      "random batches of every size through the real caches and lists of every size class, with growth, shrinking, plundering, resizing and refused pages; 3-12 threads plus a maintenance thread; distinct = (class, batch, spans, fill) situations",
      "ownership state of every object at every tier boundary; exact counts of every tier at rest; complete recovery after everything is returned", parallel=5)

def p12(seed, tier):
    V = ["comp", "compp4", "compp32", "compp256", "compleg"]
    J = [Job("h_span@" + v, [], {}, "spans " + v) for v in V]
    J += [Job("h_tiers@" + v, ["C"], RSEQ, "lists " + v) for v in ("comp", "compp256")] + [Job("h_tiers@comp", ["Ct"], RSEQ, "lists, threads"), Job("h_tiers@compleg", ["Ct"], RSEQ, "legacy locking, lists, threads"), Job("h_tiers@compleg", ["C"], RSEQ, "legacy locking, lists")]
    for j in J: j.timeout = 1500 if tier == "thorough" else 300
    return J
check("P12", [b(v, "h_span@" + v) for v in ("comp", "compp4", "compp32", "compp256", "compleg")] + [b(v, "h_tiers@" + v) for v in ("comp", "compp256", "compleg")], p12,
      "random build/pop/push histories on one span for every class of the current and power-of-two tables and for invented valid sizes, and histories on whole central lists, in five page-size and locking builds; distinct = (size, batch, free) situations",
      "set model of each span judged after every operation; content patterns in live objects and around the span", parallel=6)

def p13(seed, tier):
    J = [Job("h_hpaa@comp", ["S"], {}, "sequential"), Job("h_hpaa@comp", ["Sr"], {}, "sequential, regions"), Job("h_hpaa@comp", ["T"], {}, "threads"), Job("h_hpaa@compn", ["Tr"], {}, "threads, regions"),
         Job("h_hpaa@compp256", ["S"], {}, "256k pages"), Job("h_hpaa@compleg", ["S"], {}, "legacy locking"), Job("h_hpaa@compleg", ["Tr"], {}, "legacy locking, threads")]
    for j in J: j.timeout = 1500 if tier == "thorough" else 300
    return J
check("P13", [b(v, "h_hpaa@" + v) for v in ("comp", "compn", "compp256", "compleg")], p13,
      "random allocation, alignment, free, release, collapse and parameter histories on fresh page heaps with refused system calls, operations re-entered during releases, and threads; distinct = (pages, alignment, position in hugepage)",
      "shadow page table consulted at every page-heap and system-call boundary; exact totals after each step and per-hugepage maps", parallel=7)

def p14(seed, tier):
    J = [Job("h_filler@" + v, [m], {}, "filler %s %s" % (v, m)) for v in ("comp", "compn", "compp4", "compp32", "compp256") for m in ("N", "U")]
    for j in J: j.timeout = 1500 if tier == "thorough" else 300
    return J
check("P14", [b(v, "h_filler@" + v) for v in ("comp", "compn", "compp4", "compp32", "compp256")], p14,
      "random run/release/treatment histories on fresh fillers of up to 120 hugepages with refused system calls, invented residency reports and operations re-entered at every point where the lock is dropped; distinct = (length, offset, category of the hugepage)",
      "per-page model of every hugepage judged at each call, at each system-call hook and against every total and list", parallel=8)

def p15(seed, tier):
    J = [Job("h_hugemem@" + v, [m], {}, "%s %s" % (n, v)) for v in ("comp", "compn", "compp256") for m, n in (("A", "address map"), ("B", "range allocator"), ("C", "cache"), ("R", "region"), ("S", "region set")) if not (v == "compp256" and m in "AB")]
    for j in J: j.timeout = 1500 if tier == "thorough" else 300
    return J
check("P15", [b(v, "h_hugemem@" + v) for v in ("comp", "compn", "compp256")], p15,
      "random histories on fresh address maps, range allocators, hugepage caches (with refused releases, operations re-entered while the lock is dropped, moving clock), regions and region sets; distinct = (length, fragmentation) situations",
      "exact model of every hugepage's (region: page's) owner and backing, compared after each operation with results, totals, tree structure and span tables", parallel=8)

def p16(seed, tier):
    J = [Job("h_struct@comp", [m], {}, "structures " + m) for m in "BRLHP"] + [Job("h_struct@compn", [m], {}, "optimised structures " + m) for m in "BRHP"]
    J += [Job("h_struct@compleg", [m], {}, "legacy locking " + m) for m in "BH"] + [Job("h_struct@compp256", ["P"], {}, "256k pages"), Job("h_hugemem@comp", ["A"], {}, "address map")]
    J += [Job("h_spans@fast", [], {}, "allocated ranges"), Job("h_spans@dbg", [], RSEQ, "allocated ranges, assertions"), Job("h_spans@fast", ["T"], RSEQ, "allocated ranges under load"), Job("h_spans@dbg", ["T"], RSEQ, "allocated ranges under load, assertions"), Job("h_spans@fast", ["G"], RSEQ, "guarded ranges")]
    for j in J: j.timeout = 1500 if tier == "thorough" else 300
    return J
check("P16", [b(v, "h_struct@" + v) for v in ("comp", "compn", "compleg", "compp256")] + [b("comp", "h_hugemem@comp"), b("fast", "h_spans@fast"), b("dbg", "h_spans@dbg")], p16,
      "random operation histories on bit maps of 15 sizes, range trackers of 10, singly and doubly linked lists, hinted lists of 7 widths, page maps of 4 depths (with refused memory) and hugepage address maps, keys biased to word and node edges; distinct = (size, index, neighbour) situations",
      "byte-per-bit, set, map and sequence models compared after each operation; live-block model against the list of allocated ranges", parallel=8)

def p17(seed, tier):
    LIGHT = {"TCMALLOC_HEAP_PARTITIONING": "light"}; PLAIN = {"TCMALLOC_REUSE_SIZE_CLASSES": "reuse"}
    J = [Job("h_sizemap@comp", [], e, n) for e, n in (({}, "default"), (PART, "partitioned"), (LIGHT, "lightly partitioned"), (POW2, "power-of-two in use"), (PLAIN, "reuse table in use"))]
    J += [Job("h_sizemap@" + v, [], {}, v) for v in ("compp4", "compp32", "compp256", "compnuma")] + [Job("h_sizemap@compp256", [], PART, "256k pages, partitioned"), Job("h_sizemap@compp4", [], LIGHT, "4k pages, partitioned")]
    J += [Job("h_classes@fast", ["C"], env(RSEQ, e), "end to end, " + n) for e, n in (({}, "default"), (PART, "partitioned"), (LIGHT, "lightly partitioned"), (POW2, "power-of-two"), (PLAIN, "reuse table"))]
    for j in J: j.timeout = 1500 if tier == "thorough" else 300
    return J
check("P17", [b(v, "h_sizemap@" + v, ["h_sizemap.cc", "tables8.cc"]) for v in ("comp", "compp4", "compp32", "compp256", "compnuma")] + [b("fast", "h_classes@fast")], p17,
      "every size 0..256 KiB (+300) x every power-of-two alignment x kind of request (type, partition, node, hot/cold) on the map in use and, in strides that touch every index boundary, on all tables and their 8-byte-new versions, with tables altered at random; distinct = (class, span) pairs and accepted altered tables",
      "lookup results compared with the list of class sizes; table predicate; usable size of real blocks from every entry point", parallel=8)

def p18(seed, tier):
    J = [Job("h_hooks@fast", [m], e, n) for m, e, n in (("SCW", RSEQ, "one thread, hooks that write"), ("SPW", {}, "one thread, every block sampled"), ("SG", {}, "one thread, guarded sampling"), ("TC", RSEQ, "threads, hooks toggled"), ("TPW", {}, "threads, every block sampled, thread caches"),
         ("ZC", RSEQ, "threads, hooks all removed at times"), ("Z", {}, "threads, thread caches"), ("H", {}, "hook set"), ("HC", RSEQ, "hook set, per-CPU"), ("I", {}, "page and central-list hooks, thread caches"))]
    J += [Job("h_hooks@fast", ["SCP"], env(RSEQ, PART), "partitioned, every block sampled"), Job("h_hooks@p256", ["SCW"], RSEQ, "256k pages"), Job("h_hooks@p256", ["IC"], RSEQ, "256k pages, page and central-list hooks")]
    for j in J: j.timeout = 1500 if tier == "thorough" else 300
    return J
check("P18", [b("fast", "h_hooks@fast"), b("p256", "h_hooks@p256")], p18,
      "random histories over all entry points with hooks installed, one thread and six, hooks added and removed by two more threads; distinct = (entry point, size, sampled) triples and hook-set states",
      "each call's reports compared with the call; per-address alternation shadow; handle table; installation epochs; shadow ownership of page runs and central-list objects", parallel=6)

def p19(seed, tier):
    J = [Job("h_heapprof@fast", [m], e, n) for m, e, n in (("SP", {}, "one thread, every block sampled"), ("SC", RSEQ, "one thread, per-CPU"), ("SG", RSEQ, "one thread, guarded sampling"), ("TP", {}, "threads, every block sampled"), ("TC", RSEQ, "threads, per-CPU"), ("TG", RSEQ, "threads, guarded"),
         ("BC", RSEQ, "bias, per-CPU"), ("B", {}, "bias, thread caches"), ("KP", {}, "peak, every block sampled"), ("KC", RSEQ, "peak, per-CPU"), ("XC", RSEQ, "sampling is invisible"), ("X", {}, "sampling is invisible, thread caches"))]
    J += [Job("h_heapprof@fast", ["SCP"], env(RSEQ, PART), "partitioned"), Job("h_heapprof@p256", ["SCP"], RSEQ, "256k pages"), Job("h_heapprof@p256", ["X"], {}, "256k pages, sampling is invisible")]
    for j in J: j.timeout = 1500 if tier == "thorough" else 300
    return J
check("P19", [b("fast", "h_heapprof@fast"), b("p256", "h_heapprof@p256")], p19,
      "random histories over all entry points under ten sampling set-ups with snapshots between and during operations; distinct = (entry point, size, guarded) descriptions and snapshots",
      "snapshot records compared one by one with a shadow of the live blocks and the caller's own stack trace; unbiasedness by z-test; peak profiles against the replayed live set", parallel=8)

def p20(seed, tier):
    J = [Job("h_sessions@fast", [m], e, n) for m, e, n in (("Q", {}, "exact, thread caches"), ("QC", RSEQ, "exact, per-CPU"), ("E", {}, "racing event traces"), ("EC", RSEQ, "racing event traces, per-CPU"), ("A", RSEQ, "racing allocation profiles"), ("L", {}, "racing lifetime profiles"), ("LC", RSEQ, "racing lifetime profiles, per-CPU"), ("EL", RSEQ, "racing traces and lifetimes"), ("LA", {}, "racing lifetimes and allocations"), ("U", {}, "truncated traces"))]
    for j in J: j.timeout = 1500 if tier == "thorough" else 300
    return J
check("P20", [b("fast", "h_sessions@fast")], p20,
      "random histories with up to three overlapping sessions of the three kinds started and stopped between operations (exact) and against six working threads (racing); distinct = event descriptions and sessions",
      "session records compared with the events between start and stop: exactly in single-step histories, by start/stop intervals in racing ones", parallel=5)

def p21(seed, tier):
    J = [Job("h_sampler@comp", ["C"], {}, "sampler"), Job("h_sampler@compn", ["C"], {}, "sampler, optimised", ), Job("h_sampler@fast", ["FP"], RSEQ, "allocator, per-CPU"), Job("h_sampler@fast", ["F"], {}, "allocator, thread caches"), Job("h_sampler@opt", ["FP"], RSEQ, "allocator, optimised"), Job("h_sampler@p4", ["F"], {}, "4k pages")]
    for j in J: j.timeout = 1500 if tier == "thorough" else 300
    return J
check("P21", [b(v, "h_sampler@" + v) for v in ("comp", "compn")] + [b(v, "h_sampler@" + v, flags=XF + ["-DVT_FULL"]) for v in ("fast", "opt", "p4")], p21,
      "request streams of random, periodic, bursty and mixed sizes at six intervals on the sampler, and six threads plus hundreds of short-lived ones through thirteen entry points; distinct = (size, pattern, interval, thread) cases and statistical tests",
      "exact sampling probabilities and weights of the Poisson model: z-tests at 8 standard deviations, Kolmogorov-Smirnov on gaps, prediction and control rules checked on every request", parallel=4)

def p22(seed, tier):
    J = [Job("h_guard@fast", ["VC"], RSEQ, "valid use, per-CPU"), Job("h_guard@fast", ["V"], {}, "valid use, thread caches"), Job("h_guard@fast", ["R"], {}, "reports"), Job("h_guard@fast", ["RC"], RSEQ, "reports, per-CPU"), Job("h_guard@fast", ["H"], RSEQ, "handlers"), Job("h_guard@fast", ["M"], {}, "other sizes"),
         Job("h_guard@p4", ["R"], {}, "reports, 4k pages"), Job("h_guard@p32", ["RC"], RSEQ, "reports, 32k pages"), Job("h_guard@p32", ["M"], {}, "other sizes, 32k pages"), Job("h_guard@dbg", ["R"], {}, "reports, assertions on"), Job("h_guard@dbg", ["M"], {}, "other sizes, assertions on")]
    for j in J: j.timeout = 1500 if tier == "thorough" else 300
    return J
check("P22", [b(v, "h_guard@" + v) for v in ("fast", "p4", "p32", "dbg")], p22,
      "blocks of random size, alignment and entry point; bad accesses at random offsets, by reads, writes, wide accesses and second frees, in the same or another thread, at once or after other blocks have come and gone; distinct = (error, access, size, alignment, placement)",
      "every bad access runs in a child whose end and report are compared with what was done; live guarded blocks counted and their guard pages probed", parallel=6)

def p23(seed, tier):
    J = [Job("h_misuse@fast", ["MC"], RSEQ, "misuse, per-CPU"), Job("h_misuse@fast", ["M"], {}, "misuse, thread caches"), Job("h_misuse@fast", ["VC"], RSEQ, "valid controls"), Job("h_misuse@p4", ["M"], {}, "misuse, 4k pages"), Job("h_misuse@p256", ["MC"], RSEQ, "misuse, 256k pages"), Job("h_misuse@fast", ["M"], env(PART), "misuse, partitioned"), Job("h_misuse@fast", ["V"], env(PART), "valid controls, partitioned"), Job("h_misuse@dbg", ["MD"], {}, "misuse, assertions on"), Job("h_misuse@dbg", ["VD"], {}, "valid controls, assertions on"), Job("h_misuse@opt", ["MC"], RSEQ, "misuse, optimised")]
    for j in J: j.timeout = 1500 if tier == "thorough" else 300
    return J
check("P23", [b(v, "h_misuse@" + v) for v in ("fast", "p4", "p256", "dbg", "opt")], p23,
      "small, large, sampled and guarded blocks of every entry point, freed at a wrong address, twice, with a wrong size, kind or alignment, after random valid traffic; distinct = (misuse, block kind, call, size) cases",
      "each misuse runs in a child of its own whose end and diagnostic are compared with what was done; valid frees of the same blocks must be silent", parallel=6)

def p29(seed, tier):
    J = [Job("h_sysinfo@comp", [m], RSEQ, "files " + m) for m in "CLNMSFRIAX"] + [Job("h_sysinfo@compn", [m], RSEQ, "optimised " + m) for m in "CLNMSFRI"]
    for j in J: j.timeout = 1500 if tier == "thorough" else 300
    return J
check("P29", [b(v, "h_sysinfo@" + v) for v in ("comp", "compn")], p29,
      "generated kernel files (CPU lists, cache and NUMA topology, memory maps, status, page flags, residency, mincore vectors), whole, malformed, truncated and missing, delivered through short, interrupted and failing reads; distinct = distinct inputs",
      "an independent reading of every generated file compared with what the parser reports", parallel=8)

def p30(seed, tier):
    J = [Job("h_arena@" + v, [m], {}, "%s %s" % (n, v)) for v in ("comp", "compn") for m, n in (("A", "arena"), ("O", "objects"), ("T", "threads"))] + [Job("h_arena@fast", ["G"], e, "whole allocator" + n) for e, n in ((RSEQ, " per-CPU"), ({}, ""))] + [Job("h_arena@dbg", ["G"], RSEQ, "whole allocator, assertions")]
    J += [Job("h_cpucache@comp", [m], RSEQ, "slabs of the per-CPU caches, " + n) for m, n in (("Sd", "resized"), ("SPdG", "resized, partitions"), ("Td", "threads"))]
    for j in J: j.timeout = 1500 if tier == "thorough" else 300
    return J
check("P30", [b(v, "h_arena@" + v) for v in ("comp", "compn")] + [b("comp", "h_cpucache@comp")] + [b(v, "h_arena@" + v, flags=XF + ["-DVT_FULL"]) for v in ("fast", "dbg")], p30,
      "random request sizes and alignments on fresh arenas (block ends, stashed remainders, big requests, bytes moved to nonresident), recycled objects of seven types, several threads, the allocator's own arena under application load, and the per-CPU caches' slabs through resizes and changes of class limits; distinct = (size, alignment, new block) and object-count states",
      "interval map of everything handed out, content patterns, and conservation of allocated + free + unavailable + nonresident against the blocks obtained; a new block only when no remainder would do; slabs not in use reported nonresident", parallel=8)

# P26 ------------------------------------------------------------------------------------------------------------------
def p26(seed, tier):
    js = [Job("h_sysalloc@" + v, [m] + a, RSEQ, "%s-%s%s" % (v, m, "".join(a))) for v in ("comp", "compn") for m, a in (("S", []), ("U", []), ("R", []), ("T", []), ("K", []))]
    js += [Job("h_sysalloc@comp", ["S", "u"], RSEQ, "comp-S-unlock"), Job("h_sysalloc@comp", ["R", "n"], RSEQ, "comp-R-nolocked")]
    return js + [Job("h_sysalloc@" + v, ["G"], e, "%s-G-%d" % (v, i)) for v, es in (("fast", [{}, dict(RSEQ, **PART)]), ("dbg", [RSEQ]), ("numa", [dict(RSEQ, **NUMA)])) for i, e in enumerate(es)]
def p24(seed, tier):
    LT = {"TCMALLOC_HEAP_PARTITIONING": "light"}; nd = lambda n, how="1": env(RSEQ, {"TCMALLOC_NUMA_AWARE": how, "VT_FAKE_NODES": str(n)})
    L = [("fast", "off", "s", RSEQ), ("fast", "off", "", {}), ("fast", "full", "s", env(RSEQ, PART)), ("fast", "full", "g", env(RSEQ, PART)), ("fast", "light", "", env(RSEQ, LT)), ("fast", "light", "sg", env(RSEQ, LT)), ("fast", "full", "", PART),
         ("dbg", "full", "sg", env(RSEQ, PART)), ("dbg", "light", "s", env(RSEQ, LT)), ("p4", "full", "s", env(RSEQ, PART)), ("p4", "off", "sg", RSEQ), ("p256", "full", "s", env(RSEQ, PART)), ("p32", "light", "s", env(RSEQ, LT)), ("p32", "off", "s", RSEQ),
         ("numa", "numa", "", nd(2)), ("numa", "numa", "sg", nd(3)), ("numa", "numa", "b", nd(4, "no-binding")), ("numa", "numa", "us", nd(4, "strict-binding"))]
    return [Job("h_place@" + v, [m, f] if f else [m], e, "%s-%s-%s%s" % (v, m, f, "" if "GLIBC_TUNABLES" in e else "-threadcache")) for v, m, f, e in L]
check("P24", [b(v, "h_place@" + v) for v in ("fast", "dbg", "p4", "p32", "p256", "numa")], p24,
      "threads allocate with every entry point, hint, token, size and alignment, resize and free each other's blocks, with sampling, guarded sampling, maintenance and release between rounds; each block's group is computed from the request and compared with its address and with the group every huge page was first seen with; NUMA machines of 2-4 nodes are presented to the real allocator through interposed open and mbind; distinct = (entry point, group, sampled, guarded, size class)",
      "online placement monitor: expected group per request, and a permanent huge page to group map, over stress runs of the real allocator", parallel=4)

# P25 ------------------------------------------------------------------------------------------------------------------
def p25(seed, tier):
    L = [("lk", "P", "sdg", RSEQ), ("lk", "P", "dl", RSEQ), ("lk", "P", "sl", {}), ("lk", "P", "sd", env(RSEQ, PART)), ("lk", "P", "sdl", env(RSEQ, SHARD)), ("lkdbg", "P", "sdg", RSEQ), ("lkleg", "P", "sdl", RSEQ), ("lkthr", "P", "sdg", {}), ("lkp4", "P", "sdl", RSEQ), ("fast", "P", "sl", RSEQ), ("numa", "P", "sg", env(RSEQ, NUMA)),
         ("fast", "X", "", RSEQ), ("fast", "X", "", {}), ("lk", "X", "", RSEQ), ("lkthr", "X", "", {}), ("lk", "F", "", RSEQ), ("lk", "F", "", {}), ("fast", "F", "", env(RSEQ, PART)), ("lkdbg", "F", "", RSEQ)]
    return [Job("h_progress@" + v, [m, f] if f else [m], e, "%s-%s-%s%s" % (v, m, f, "" if "GLIBC_TUNABLES" in e else "-threadcache")) for v, m, f, e in L]
check("P25", [b(v, "h_progress@" + v) for v in ("lk", "lkdbg", "lkleg", "lkthr", "lkp4", "fast", "numa")], p25,
      "eight workers, a background loop, thread churn with thread-local destructors that allocate, and a storm of signals mix all public operations (allocation, statistics, profiles, sessions, release, parameters, limits, hooks, sampling) with sleeps inserted while internal locks are held; processes that allocate before any constructor and until after the last destructor, with running threads; forks with parked threads, repeated in children; distinct = (operation, what two other threads were doing)",
      "watchdog on every call; monitor of every internal lock: acquisition-order graph with gates (cycles, self-deadlock), locks held at return or in a hook; contents of all blocks; completion of every late use", parallel=4)
check("P26", [b(v, "h_sysalloc@" + v) for v in ("comp", "compn")] + [b(v, "h_sysalloc@" + v, flags=XF + ["-DVT_FULL"]) for v in ("fast", "dbg", "numa")], p26,
      "random sizes, alignments, tags, NUMA settings and region sizes against recorded system calls, with obstacles in the way, refused and interrupted calls, kernels without MAP_FIXED_NOREPLACE or MADV_DONTNEED_LOCKED, user factories that refuse, answer short or are exchanged; distinct = request class, outcome and call pattern",
      "recorded system calls, factory and region calls judged against an interval model of reservations and results; zero and content checks; /proc/self/maps for what is accessible", parallel=8)


# P34 ------------------------------------------------------------------------------------------------------------------
def p34(seed, tier):
    return [Job("h_history@" + v, [m], {}, "%s-%s" % (v, m)) for v, ms in (("comp", "TSCI"), ("compn", "TSCI"), ("compp32", "I"), ("compp256", "I"), ("compp4", "I")) for m in ms]
check("P34", [b(v, "h_history@" + v) for v in ("comp", "compn", "compp32", "compp256", "compp4")], p34,
      "random histories of demand reports, skipped-release reports, peaks and queries over clocks of many frequencies advanced by nothing, one tick, exact epoch borders, many epochs, huge jumps and regressions; timestamps over the whole range; page statistics of every size class and reason; distinct = query windows with their answers, sizes and timestamps seen",
      "recount of the recorded samples that lie in the window, in exact integer arithmetic; dumps are parsed back and compared with the recount", parallel=8)

# P35 ------------------------------------------------------------------------------------------------------------------
def p35(seed, tier):
    return [Job("h_filter@" + v, [m], {}, "%s-%s" % (v, m)) for v in ("comp", "compn") for m in "FDTGRC"]
check("P35", [b(v, "h_filter@" + v) for v in ("comp", "compn")], p35,
      "random call stacks inserted, removed and decayed in filters of many geometries, by one and by many threads; guarded admission over random pool sizes, intervals, sample counts and stacks; recorders and counters used by up to 8 threads with concurrent visits; distinct = filter and pool states, sessions",
      "exact reference counts of outstanding and not yet decayed insertions, false-positive counts against the documented rate, per-element state table around every visit", parallel=8)

# P27 ------------------------------------------------------------------------------------------------------------------
TS = {"TSAN_OPTIONS": "exitcode=66 report_signal_unsafe=0 history_size=5"}
def p27(seed, tier):
    full = [("h_progress", "P", "g"), ("h_progress", "P", "l"), ("h_progress", "P", ""), ("h_spans", "G", None), ("h_spans", "T", None), ("h_stats", "C", None), ("h_sessions", "L", None), ("h_guard", "V", None), ("h_release", "T_", None)]
    comp = [("h_tiers", "Tt"), ("h_tiers", "Gt"), ("h_tiers", "Lt"), ("h_tiers", "Ct"), ("h_hpaa", "T"), ("h_hpaa", "Tr"), ("h_filter", "T"), ("h_filter", "R"), ("h_filter", "C"), ("h_filter", "G"), ("h_arena", "T")]
    js = [Job(h + "@tsanf", [m, f] if f is not None else [m], TS, "%s-%s-%s" % (h, m, f or "")) for h, m, f in full]
    return js + [Job(h + "@tsan", [m], TS, "%s-%s" % (h, m)) for h, m in comp]
check("P27", [b("tsanf", h + "@tsanf", flags=XF) for h in ("h_progress", "h_spans", "h_stats", "h_sessions", "h_guard", "h_release")] + [b("tsan", h + "@tsan") for h in ("h_tiers", "h_hpaa", "h_filter", "h_arena")], p27,
      "the whole allocator, beside the race detector's own malloc, under mixed public operations from eight threads (allocation, statistics, profiles, sessions, release, parameters, limits, hooks, sampling, guarded sampling, thread churn); and the transfer caches, central lists, per-CPU caches' shared parts, page heap with filler, regions and cache, arena, filter, recorders and guarded admission by themselves, with maintenance and visits; distinct = states as counted by each harness",
      "ThreadSanitizer (clang) over the real code with every shared access instrumented; the installed library's uninstrumented locks are made visible to it; the harness's own oracles stay on", parallel=4)

# P28 ------------------------------------------------------------------------------------------------------------------
UB_FULL = [("h_blocks", "ubsan", ["CGB"], RSEQ), ("h_blocks", "ubsann", ["L"], {}), ("h_sizes", "ubsan", ["AP"], RSEQ), ("h_sizes", "ubsann", ["SG"], {}), ("h_sizes", "ubsan", ["S"], env(RSEQ, PART)), ("h_realloc", "ubsan", ["G"], RSEQ), ("h_realloc", "ubsann", ["M"], env(PART)),
    ("h_free", "ubsan", ["CG"], RSEQ), ("h_fail", "ubsan", ["P"], RSEQ), ("h_fail", "ubsann", ["R"], env(RSEQ, PART)), ("h_account", "ubsan", ["CP"], RSEQ), ("h_limit", "ubsan", ["C_"], env(RSEQ, PART)), ("h_release", "ubsan", ["CB"], RSEQ), ("h_release", "ubsann", ["T_"], {}),
    ("h_stats", "ubsan", ["Q"], RSEQ), ("h_stats", "ubsann", ["Q"], env(PART, VT_GUARD="1")), ("h_stats", "ubsan", ["B"], env(RSEQ, PART)), ("h_stats", "ubsan", ["C"], RSEQ), ("h_sessions", "ubsan", ["QC"], RSEQ), ("h_sessions", "ubsann", ["U"], {}), ("h_sessions", "ubsan", ["LA"], {}),
    ("h_guard", "ubsan", ["VC"], RSEQ), ("h_guard", "ubsann", ["M"], {}), ("h_guard", "ubsan", ["R"], {}), ("h_heapprof", "ubsan", ["SP"], {}), ("h_heapprof", "ubsann", ["TC"], RSEQ), ("h_hooks", "ubsann", ["TC"], RSEQ), ("h_hooks", "ubsann", ["SCP"], env(RSEQ, PART)), ("h_hooks", "ubsan", ["I"], {}),
    ("h_params", "ubsan", ["V"], RSEQ), ("h_params", "ubsan", ["S"], RSEQ), ("h_params", "ubsan", ["E"], RSEQ), ("h_params", "ubsan", ["X"], RSEQ), ("h_spans", "ubsan", ["T"], RSEQ), ("h_misuse", "ubsan", ["VC"], RSEQ), ("h_place", "ubsan", ["full", "sg"], env(RSEQ, PART)), ("h_progress", "ubsan", ["P", "sg"], RSEQ),
    ("h_samplerF", "ubsan", ["FP"], RSEQ), ("h_sysallocF", "ubsan", ["G"], {}), ("h_exportF", "ubsan", ["M"], RSEQ)]
AS_COMP = {"h_slab": ["S", "T"], "h_cpucache": ["Sd", "SPdG", "Td"], "h_tiers": ["T", "L", "G", "C", "Ct"], "h_span": [""], "h_hpaa": ["S", "Tr"], "h_filler": ["N", "U"], "h_hugemem": ["A", "B", "C", "R", "S"], "h_struct": ["B", "R", "L", "H", "P"], "h_sampler": ["C"],
    "h_sysinfo": list("CLNMSFRIAX"), "h_arena": ["A", "O", "T"], "h_sysalloc": ["S", "U", "R", "T", "K"], "h_history": list("TSCI"), "h_filter": list("FDTRCG"), "h_export": list("SBIZ")}
def p28(seed, tier):
    return [Job(h + "@" + v, list(a), e, "%s-%s-%s-%d" % (h, v, "".join(a), i)) for i, (h, v, a, e) in enumerate(UB_FULL)] + [Job(h + "@asan", [m] if m else [], RSEQ if h in ("h_cpucache", "h_slab", "h_sysinfo") else {}, "%s-asan-%s" % (h, m)) for h, ms in AS_COMP.items() for m in ms] + [Job("h_sizemap@asan", [], e, "h_sizemap-asan-%d" % i) for i, e in enumerate([{}, PART, POW2])]
def ubuilds():
    out = []
    for v in ("ubsan", "ubsann"):
        for h in sorted({h for h, w, a, e in UB_FULL if w == v}): out.append(b(v, h + "@" + v, [h.rstrip("F") + ".cc"], flags=XF + (["-DVT_FULL"] if h.endswith("F") else [])))
    return out + [b("asan", h + "@asan") for h in AS_COMP] + [b("asan", "h_sizemap@asan", ["h_sizemap.cc", "tables8.cc"])]
check("P28", ubuilds(), p28,
      "the workloads of the other properties' checks, with their own oracles, over the whole allocator compiled by two compilers with every check for undefined behaviour (with and without internal assertions), and over each data structure, parser, formatter and support library by itself compiled for out-of-bounds and use-after-free accesses as well; distinct = states as counted by each workload",
      "UndefinedBehaviorSanitizer with handlers that do not allocate, over the allocator serving as malloc; AddressSanitizer and UndefinedBehaviorSanitizer over the components", parallel=7)

# P31 ------------------------------------------------------------------------------------------------------------------
SHARD = {"BORG_EXPERIMENTS": "TEST_ONLY_TCMALLOC_SHARDED_TRANSFER_CACHE"}
LIGHT = {"TCMALLOC_HEAP_PARTITIONING": "light"}
def p31(seed, tier):
    q = [("opt", RSEQ), ("opt", PART), ("opt", env(RSEQ, {"VT_GUARD": "1"})), ("fast", env(RSEQ, SHARD)), ("fast", env(RSEQ, PART)), ("fast", env(RSEQ, {"BORG_EXPERIMENTS": "TEST_ONLY_MM_VCPU"})), ("dbg", RSEQ), ("dbg", env(RSEQ, LIGHT, SHARD)), ("p4", RSEQ), ("p256", env(RSEQ, PART)), ("numa", env(RSEQ, NUMA)), ("perthr", {"VT_GUARD": "1"})]
    js = [Job("h_stats@" + v, ["Q"], env(e, {"VT_SUB": str(i)}), "%s-Q-%d" % (v, i)) for i, (v, e) in enumerate(q)]
    js += [Job("h_stats@" + v, ["B"], e, "%s-B-%d" % (v, i)) for i, (v, e) in enumerate([("fast", env(RSEQ, PART)), ("dbg", RSEQ), ("p4", {})])]
    return js + [Job("h_stats@" + v, ["C"], e, "%s-C-%d" % (v, i)) for i, (v, e) in enumerate([("fast", env(RSEQ, PART)), ("dbg", env(RSEQ, {"VT_GUARD": "1"})), ("perthr", {})])]
check("P31", [b(v, "h_stats@" + v, flags=XF) for v in ("opt", "fast", "dbg", "p4", "p256", "numa", "perthr")], p31,
      "random heap states (traffic of every entry point from several threads, maintenance, released memory, changed parameters, limits, hooks and sampling) dumped as text, protobuf text and properties and judged against each other; buffers of every length against an unmapped page; dumps while threads allocate and change settings; distinct = class, component and counter values seen",
      "parser of both dump formats; arithmetic identities of the totals, classes, caches, components and reasons; text against protobuf text against properties; parameters against the values the harness set; prefixes and guard pages for the buffers", parallel=5)

# P32 ------------------------------------------------------------------------------------------------------------------
def p32(seed, tier):
    js = [Job("h_params@" + v, [m], RSEQ, "%s-%s" % (v, m)) for v, ms in (("fast", "XVSE"), ("dbg", "VSE"), ("p4", "VSE"), ("numa", "V")) for m in ms]
    return js + [Job("h_params@fast", ["S"], env(RSEQ, PART), "fast-S-partitioned"), Job("h_params@fast", ["E"], env(RSEQ, LIGHT), "fast-E-light"), Job("h_params@fast", ["E"], {}, "fast-E-threadcache"), Job("h_params@perthr", ["ST"], {}, "perthr-S")]
check("P32", [b(v, "h_params@" + v) for v in ("fast", "dbg", "p4", "numa", "perthr")], p32,
      "generated experiment lists (empty, padded, wrong case, prefixes, the all-words alone and inside lists) and test targets; fresh processes under generated environments; every setter of 25 parameters and both limits with boundary and random values, from four threads under traffic and a background loop, then one at a time with all others read; scenarios per parameter in child processes with the parameter at several settings; distinct = selections, environments and (parameter, value) pairs",
      "independent reading of the experiment lists; shadow of all parameters compared through every getter; effects observed at the system-call boundary, the background loop's sleeps, block addresses, counters and profiles", parallel=6)

# P33 ------------------------------------------------------------------------------------------------------------------
def p33(seed, tier):
    return [Job("h_export@" + v, [m], {}, "%s-%s" % (v, m)) for v, ms in (("comp", "SBIZ"), ("compn", "SBIZ")) for m in ms] + [Job("h_export@" + v, ["M"], e, "%s-M-%d" % (v, i)) for v, es in (("fast", [{}, env(RSEQ, PART)]), ("dbg", [RSEQ])) for i, e in enumerate(es)]
check("P33", [b(v, "h_export@" + v) for v in ("comp", "compn")] + [b(v, "h_export@" + v, flags=XF + ["-DVT_FULL"]) for v in ("fast", "dbg")], p33,
      "generated profiles of every type with repeated entries and entries that differ in one field, frames inside, at the ends of and outside the process's mappings, fakes for residency and page flags; strings, mappings, locations and ELF notes added in random order, malformed notes at the end of readable memory; real heap, peak, allocation and lifetime profiles of running traffic exported, compressed and read back; distinct = profiles exported",
      "every reference in the export resolved; samples, labels and values rebuilt independently from the entries and compared as multisets; mappings and build ids compared with the loader's", parallel=8)
