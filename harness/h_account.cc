// P07: the accounting monitor. A model of live blocks (their reported sizes) against every statistics interface.
#include <thread>
#include <string>
#include "vt_api.h"
#include "vt_maint.h"
#include "tcmalloc/global_stats.h"
#include "tcmalloc/pagemap.h"
#include "tcmalloc/span.h"
#include "tcmalloc/guarded_page_allocator.h"
using namespace vt;
using tcmalloc::MallocExtension;
static long long n_exact, n_ident, n_props, n_conc;
static Distinct dist; static bool mode_P, mode_G;
static size_t prop(const char* n) { auto v = MallocExtension::GetNumericProperty(n); if (!v) FATAL("missing", "property %s does not exist", n); return *v; }
static size_t in_use() { return prop("generic.current_allocated_bytes"); }
static constexpr size_t kPg = tcmalloc::tcmalloc_internal::kPageSize;
static bool is_guarded(void* p) { return tcmalloc::tcmalloc_internal::tc_globals.guardedpage_allocator().PointerIsMine(p); }
static bool is_sampled(void* p) { auto* s = tcmalloc::tcmalloc_internal::tc_globals.pagemap().GetDescriptor(tcmalloc::tcmalloc_internal::PageIdContaining(p)); return s && s->sampled(); }
// What a live block adds to bytes in use: its reported size; a sampled block occupies whole pages; a guarded block lives outside the page heap.
static size_t weight(void* p) {
  size_t us = malloc_usable_size(p);
  if (is_guarded(p)) return 0;
  if (is_sampled(p)) return (us + kPg - 1) / kPg * kPg;
  return us;
}
static const char* kNames[] = {"generic.virtual_memory_used", "generic.physical_memory_used", "generic.current_allocated_bytes", "generic.bytes_in_use_by_app", "generic.heap_size", "generic.peak_memory_usage",
  "tcmalloc.central_cache_free", "tcmalloc.cpu_free", "tcmalloc.sharded_transfer_cache_free", "tcmalloc.slack_bytes", "tcmalloc.pageheap_free_bytes", "tcmalloc.page_heap_free",
  "tcmalloc.pageheap_unmapped_bytes", "tcmalloc.page_heap_unmapped", "tcmalloc.sampled_internal_fragmentation", "tcmalloc.max_total_thread_cache_bytes", "tcmalloc.current_total_thread_cache_bytes",
  "tcmalloc.thread_cache_free", "tcmalloc.thread_cache_count", "tcmalloc.local_bytes", "tcmalloc.external_fragmentation_bytes", "tcmalloc.metadata_bytes", "tcmalloc.transfer_cache_free",
  "tcmalloc.hard_usage_limit_bytes", "tcmalloc.desired_usage_limit_bytes", "tcmalloc.soft_limit_hits", "tcmalloc.hard_limit_hits", "tcmalloc.successful_shrinks_after_soft_limit_hit",
  "tcmalloc.successful_shrinks_after_hard_limit_hit", "tcmalloc.num_released_total_bytes", "tcmalloc.num_released_release_memory_to_system_bytes", "tcmalloc.num_released_process_background_actions_bytes",
  "tcmalloc.num_released_soft_limit_exceeded_bytes", "tcmalloc.num_released_hard_limit_exceeded_bytes", "tcmalloc.required_bytes", "tcmalloc.per_cpu_caches_active", "generic.realized_fragmentation"};
constexpr int kN = sizeof(kNames) / sizeof(kNames[0]);
static bool is_limit(const char* n) { return strstr(n, "limit_bytes") != nullptr; }
static bool depends_on_residence(const char* n) {  // GetProperties asks the kernel about metadata residency, single properties do not
  return !strcmp(n, "generic.virtual_memory_used") || !strcmp(n, "generic.physical_memory_used") || !strcmp(n, "tcmalloc.external_fragmentation_bytes") || !strcmp(n, "tcmalloc.metadata_bytes") || !strcmp(n, "tcmalloc.required_bytes"); }
// Retried: reading properties itself allocates (map nodes), so equality is asserted on values that settle.
static void identities(const char* where) {
  using namespace tcmalloc::tcmalloc_internal;
  // Identity among the components of one snapshot taken at quiescence without allocating.
  TCMallocStats s; ExtractTCMallocStats(s, false);
  size_t sys_ = s.pageheap.system_bytes, fr = s.pageheap.free_bytes, un = s.pageheap.unmapped_bytes;
  size_t cpu = prop("tcmalloc.cpu_free"), cen = prop("tcmalloc.central_cache_free"), tra = prop("tcmalloc.transfer_cache_free"), sha = prop("tcmalloc.sharded_transfer_cache_free"), thr = prop("tcmalloc.thread_cache_free");
  size_t pf = prop("tcmalloc.pageheap_free_bytes"), pu = prop("tcmalloc.pageheap_unmapped_bytes"), app = in_use(), heap = prop("generic.heap_size");
  size_t comp[] = {cpu, cen, tra, sha, thr, pf, pu, app, heap, prop("generic.virtual_memory_used"), prop("generic.physical_memory_used"), prop("tcmalloc.metadata_bytes"), prop("tcmalloc.required_bytes"), prop("tcmalloc.external_fragmentation_bytes"), prop("tcmalloc.sampled_internal_fragmentation")};
  for (size_t v : comp) if (v >> 46) FATAL("wrapped", "%s: a component reads %zu", where, v);
  if (cpu + cen + tra + sha + thr + fr + un + app != sys_)
    FATAL("sum", "%s: in use %zu + cpu %zu + central %zu + transfer %zu + sharded %zu + thread %zu + page heap free %zu + unmapped %zu != %zu obtained from the system", where, app, cpu, cen, tra, sha, thr, fr, un, sys_);
  if (pf != fr) FATAL("sum", "%s: pageheap_free_bytes %zu, page heap statistics %zu", where, pf, fr);
  if (pu != un) FATAL("unmapped", "%s: pageheap_unmapped_bytes %zu, page heap statistics %zu (arena nonresident %zu)", where, pu, un, (size_t)s.arena.bytes_nonresident);
  if (prop("tcmalloc.slack_bytes") != pf + pu) FATAL("sum", "%s: slack %zu, free %zu + unmapped %zu", where, prop("tcmalloc.slack_bytes"), pf, pu);
  if (heap != sys_ - un) FATAL("sum", "%s: heap_size %zu, system %zu - unmapped %zu", where, heap, sys_, un);
  if (prop("tcmalloc.local_bytes") != thr + cpu + sha) FATAL("sum", "%s: local_bytes %zu, thread %zu + cpu %zu + sharded %zu", where, prop("tcmalloc.local_bytes"), thr, cpu, sha);
  size_t vm = prop("generic.virtual_memory_used"), ph = prop("generic.physical_memory_used");
  if (vm - ph != un + s.arena.bytes_nonresident) FATAL("sum", "%s: virtual %zu - physical %zu != unmapped %zu + arena %zu", where, vm, ph, un, (size_t)s.arena.bytes_nonresident);
  if (vm != sys_ + s.metadata_bytes + s.arena.bytes_unallocated + s.arena.bytes_unavailable + s.arena.bytes_nonresident) FATAL("sum", "%s: virtual_memory_used %zu does not add up", where, vm);
  if (prop("tcmalloc.required_bytes") != ph - fr) FATAL("sum", "%s: required %zu, physical %zu - free %zu", where, prop("tcmalloc.required_bytes"), ph, fr);
  struct mallinfo2 mi = mallinfo2(); struct mallinfo m1 = mallinfo();
  if (mi.arena != sys_ || mi.uordblks != app || mi.fordblks != fr + un) FATAL("mallinfo", "%s: mallinfo2 arena %zu in use %zu free %zu; properties %zu %zu %zu", where, mi.arena, mi.uordblks, mi.fordblks, sys_, app, fr + un);
  if (mi.arena != mi.uordblks + mi.fsmblks + mi.fordblks) FATAL("mallinfo", "%s: mallinfo2 arena %zu != uordblks %zu + fsmblks %zu + fordblks %zu", where, mi.arena, mi.uordblks, mi.fsmblks, mi.fordblks);
  if (m1.arena != (int)mi.arena || m1.uordblks != (int)mi.uordblks || m1.fordblks != (int)mi.fordblks || m1.fsmblks != (int)mi.fsmblks) FATAL("mallinfo", "%s: mallinfo and mallinfo2 differ", where);
  // independent recount of the cached objects, class by class
  size_t c2 = 0, t2 = 0; uint64_t p2 = 0;
  for (int c = 0; c < kNumClasses; c++) { size_t z = tc_globals.sizemap().class_to_size(c); c2 += z * tc_globals.central_freelist(c).length() + tc_globals.central_freelist(c).OverheadBytes(); t2 += z * tc_globals.transfer_cache().tc_length(c); if (UsePerCpuCache(tc_globals)) p2 += z * tc_globals.cpu_cache().TotalObjectsOfClass(c); }
  if (c2 != cen || t2 != tra) FATAL("recount", "%s: central %zu / transfer %zu, recounted %zu / %zu", where, cen, tra, c2, t2);
  if (UsePerCpuCache(tc_globals)) { if (p2 != cpu) FATAL("recount", "%s: cpu_free %zu, recounted by class %zu", where, cpu, (size_t)p2);
    size_t u = 0; for (int i = 0; i < NumCPUs(); i++) u += tc_globals.cpu_cache().UsedBytes(i); if (u != cpu) FATAL("recount", "%s: cpu_free %zu, recounted by CPU %zu", where, cpu, u); }
  // per-tag page-heap statistics sum to the total
  { BackingStats tot; PageHeapSpinLockHolder l; tot = tc_globals.page_allocator().stats(); if (tot.free_bytes + tot.unmapped_bytes > tot.system_bytes) FATAL("sum", "%s: free %zu + unmapped %zu > system %zu", where, (size_t)tot.free_bytes, (size_t)tot.unmapped_bytes, (size_t)tot.system_bytes); }
  n_ident++;
}
// The text dump, the property map and the single properties agree at quiescence.
static void interfaces(const char* where) {
  static size_t before[kN], after[kN];
  static char text[1 << 20];
  static MallocExtension::PropertyMap pm;
  pm = MallocExtension::GetProperties(); pm.clear(); { auto q = MallocExtension::GetProperties(); pm.swap(q); }
  for (int tries = 0; tries < 6; tries++) {
    for (int i = 0; i < kN; i++) before[i] = prop(kNames[i]);
    extern size_t vt_get_stats(char*, size_t); size_t n = vt_get_stats(text, sizeof text - 1); text[n < sizeof text - 1 ? n : sizeof text - 1] = 0;
    for (int i = 0; i < kN; i++) after[i] = prop(kNames[i]);
    bool same = true; for (int i = 0; i < kN; i++) if (before[i] != after[i] && !depends_on_residence(kNames[i])) same = false;
    if (same) break;
    if (tries == 5) return;
  }
  struct { const char* line; const char* p; } L[] = {{"Bytes in use by application", "generic.current_allocated_bytes"}, {"Bytes in page heap freelist", "tcmalloc.pageheap_free_bytes"}, {"Bytes in central cache freelist", "tcmalloc.central_cache_free"},
    {"Bytes in per-CPU cache freelist", "tcmalloc.cpu_free"}, {"Bytes in Sharded cache freelist", "tcmalloc.sharded_transfer_cache_free"}, {"Bytes in transfer cache freelist", "tcmalloc.transfer_cache_free"}, {"Bytes in thread cache freelists", "tcmalloc.thread_cache_free"},
    {"Actual memory used at peak", "generic.peak_memory_usage"}, {"Thread heaps in use", "tcmalloc.thread_cache_count"}};
  auto val = [&](const char* name) { for (int i = 0; i < kN; i++) if (!strcmp(kNames[i], name)) return before[i]; return (size_t)-1; };
  auto line = [&](const char* what) -> long long { char* e = strstr(text, what); if (!e) { VIOL("dump", "%s: '%s' missing from the dump", where, what); return -1; } char* b = e; while (b > text && b[-1] != '\n') b--; while (b < e && !(*b >= '0' && *b <= '9')) b++; return strtoll(b, nullptr, 10); };
  for (auto& x : L) { long long d = line(x.line); n_props++; if ((size_t)d != val(x.p)) FATAL("dump", "%s: dump says %lld %s, %s is %zu", where, d, x.line, x.p, val(x.p)); }
  long long sum = 0; for (int i = 0; i < 7; i++) sum += line(L[i].line);
  sum += line("Bytes in malloc metadata\n") + line("Bytes in malloc metadata Arena unallocated") + line("Bytes in malloc metadata Arena unavailable");
  long long act = line("Actual memory used (physical + swap)"), unm = line("Bytes released to OS"), vir = line("Virtual address space used");
  if (sum != act || act + unm != vir) FATAL("dump", "%s: the dump's components add to %lld, it reports %lld actual, %lld released, %lld virtual", where, sum, act, unm, vir);
  // the whole map: taken between two identical readings of the single properties
  for (int tries = 0; tries < 8; tries++) {
    for (int i = 0; i < kN; i++) before[i] = prop(kNames[i]);
    pm.clear(); for (int i = 0; i < kN; i++) after[i] = prop(kNames[i]);  // (map storage returns to the caches)
    auto q = MallocExtension::GetProperties();
    for (int i = 0; i < kN; i++) after[i] = prop(kNames[i]);
    size_t app_q = q["generic.current_allocated_bytes"].value;
    for (int i = 0; i < kN; i++) {
      auto it = q.find(kNames[i]);
      if (it == q.end()) { VIOL("missing", "%s: property %s is readable alone but missing from GetProperties", where, kNames[i]); continue; }
      if (depends_on_residence(kNames[i])) continue;
      size_t lo = before[i] < after[i] ? before[i] : after[i], hi = before[i] < after[i] ? after[i] : before[i];
      size_t v = it->second.value; n_props++;
      // building the map allocates at most a few KiB from the caches
      size_t tol = before[i] == after[i] && (is_limit(kNames[i]) || strstr(kNames[i], "count") || strstr(kNames[i], "peak") || strstr(kNames[i], "unmapped") || strstr(kNames[i], "released")) ? 0 : mode_P || mode_G ? 4 << 20 : 256 << 10;
      if (v + tol < lo || (hi + tol < v && hi + tol > hi)) FATAL(strstr(kNames[i], "peak") ? "map-peak" : "map", "%s: GetProperties says %s = %zu, GetNumericProperty %zu (then %zu)", where, kNames[i], v, before[i], after[i]);
    }
    size_t tot = app_q + q["tcmalloc.cpu_free"].value + q["tcmalloc.central_cache_free"].value + q["tcmalloc.transfer_cache_free"].value + q["tcmalloc.sharded_transfer_cache_free"].value + q["tcmalloc.thread_cache_free"].value + q["tcmalloc.pageheap_free_bytes"].value;
    if (tot != q["generic.heap_size"].value) FATAL("map", "%s: GetProperties' components add to %zu, heap_size %zu", where, tot, (size_t)q["generic.heap_size"].value);
    if (q["generic.virtual_memory_used"].value - q["generic.physical_memory_used"].value != q["tcmalloc.page_heap_unmapped"].value && q["generic.virtual_memory_used"].value - q["generic.physical_memory_used"].value < q["tcmalloc.pageheap_unmapped_bytes"].value)
      FATAL("map", "%s: virtual - physical is less than unmapped", where);
    if (q["generic.bytes_in_use_by_app"].value != app_q || q["tcmalloc.page_heap_free"].value != q["tcmalloc.pageheap_free_bytes"].value) FATAL("map", "%s: aliases differ", where);
    break;
  }
}
extern "C" size_t TCMalloc_Internal_GetStats(char*, size_t) __attribute__((weak));
size_t vt_get_stats(char* b, size_t n) { return TCMalloc_Internal_GetStats(b, n); }

struct Slot { Block b; size_t w = 0; };
// Each single operation moves bytes in use by exactly the block's reported size.
static void single_ops(Rng& r, long ops) {
  static Slot sl[512]; size_t model = 0; size_t base = in_use();
  for (long i = 0; i < ops; i++) {
    Slot& s = sl[r.below(512)];
    size_t before = in_use(); const char* what; size_t sz = 0; long long want; int f = -1;
    if (s.b.p && r.chance(1, 8) && fam(s.b.fn) == kC) {
      size_t n = 1 + rand_size(r, 8 << 20); void* q = realloc(s.b.p, n); if (!q) FATAL("null", "realloc(%zu)", n);
      s.b.p = q; s.b.req = n; s.b.fn = F_malloc; size_t w = weight(q); want = (long long)w - (long long)s.w; s.w = w; what = "realloc"; sz = n;
    } else if (s.b.p) { sz = s.b.req; f = s.b.fn; what = do_free(s.b, r.next()); want = -(long long)s.w; s.b.p = nullptr; s.w = 0;
    } else { f = r.below(F_COUNT); sz = rand_size(r, 8 << 20); s.b = do_alloc(f, sz, rand_align(r, 21), is_hc(f) ? (int)r.below(256) : -1); if (!s.b.p) FATAL("null", "%s(%zu)", fn_name(f), sz); s.w = weight(s.b.p); want = s.w; what = fn_name(f); }
    size_t after = in_use(); model += want; n_exact++; dist.add(f * 131071ull + (uint64_t)(want < 0 ? -want * 2 + 1 : want * 2));
    if ((long long)(after - before) != want) FATAL("delta", "%s of %zu bytes moved bytes in use by %lld, the block accounts for %lld", what, sz, (long long)(after - before), want);
    if (after - base != model) FATAL("model", "bytes in use %zu, live blocks account for %zu", after - base, model);
    if (i % 257 == 0) identities("single-threaded");
    if (i % 2500 == 99) { size_t a = in_use(); interfaces("single-threaded"); size_t bb = in_use(); base += bb - a; }
    if (i % 701 == 0) { size_t a = in_use(); if (r.chance(1, 2)) MallocExtension::ReleaseMemoryToSystem(r.below(64 << 20)); else { background_action(r); } if (in_use() != a) FATAL("delta", "maintenance changed bytes in use from %zu to %zu", a, in_use()); }
  }
  for (auto& s : sl) if (s.b.p) { do_free(s.b, r.next()); s.b.p = nullptr; }
  if (in_use() != base) FATAL("leak", "all blocks freed: bytes in use %zu, started at %zu", in_use(), base);
}
// Threads work, pause, and the totals are judged while all are paused.
static constexpr int kT = 6, kS = 700;
static Slot* tab; static pthread_barrier_t bar; static std::atomic<bool> stop{false}, busy{false}, resting{false};
static void worker(int t, int rounds, long ops) {
  Rng r(seed() * 7727 + t);
  for (int k = 0; k < rounds; k++) {
    pthread_barrier_wait(&bar);
    for (long i = 0; i < ops; i++) {
      Slot& s = tab[t * kS + r.below(kS)];
      if (s.b.p) { do_free(s.b, r.next()); s.b.p = nullptr; s.w = 0; }
      else { int f = r.below(F_COUNT); s.b = do_alloc(f, rand_size(r, 2 << 20), rand_align(r, 14), is_hc(f) ? (int)r.below(256) : -1); if (!s.b.p) FATAL("null", "%s", fn_name(f)); s.w = 1; }
      if (r.chance(1, 500)) { cpu_set_t c; CPU_ZERO(&c); CPU_SET(r.below(8), &c); sched_setaffinity(0, sizeof c, &c); }
    }
    pthread_barrier_wait(&bar);  // judged here
    pthread_barrier_wait(&bar);
  }
  for (int i = 0; i < kS; i++) { Slot& s = tab[t * kS + i]; if (s.b.p) do_free(s.b, r.next()); s.b.p = nullptr; }
}
static void churn(int rounds, long ops) {
  Rng r(seed() * 31 + 5); pthread_barrier_init(&bar, nullptr, kT + 1);
  size_t start = in_use();
  std::thread* th = new std::thread[kT];
  for (int t = 0; t < kT; t++) th[t] = std::thread(worker, t, rounds, ops);
  std::thread* mt = new std::thread([&] { Rng q(seed() * 3 + 1); while (!stop) { if (busy) { resting = false; background_action(q); if (q.chance(1, 6)) MallocExtension::ReleaseMemoryToSystem(q.below(32 << 20)); if (q.chance(1, 10)) MallocExtension::ReleaseCpuMemory(q.below(8));
      for (const char* n : {"generic.current_allocated_bytes", "tcmalloc.cpu_free", "tcmalloc.central_cache_free", "tcmalloc.transfer_cache_free", "tcmalloc.sharded_transfer_cache_free", "tcmalloc.thread_cache_free", "tcmalloc.pageheap_free_bytes", "tcmalloc.pageheap_unmapped_bytes", "generic.heap_size", "tcmalloc.metadata_bytes", "generic.physical_memory_used"}) { size_t v = prop(n); n_conc++; if (v >> 46) FATAL("wrapped", "%s read %zu during concurrent use", n, v); } }
      else { resting = true; usleep(500); } } });
  size_t base = 0;
  for (int k = 0; k < rounds; k++) {
    // threads may have allocated their own state; take the base as (reported - model) and require it not to change
    busy = true; pthread_barrier_wait(&bar); pthread_barrier_wait(&bar); busy = false; resting = false; while (!resting) usleep(200);
    size_t sum = 0; for (int i = 0; i < kT * kS; i++) if (tab[i].b.p) sum += weight(tab[i].b.p);
    size_t u = in_use(); if (u < sum) FATAL("model", "round %d: bytes in use %zu below the %zu the live blocks account for", k, u, sum);
    if (k == 0) base = u - sum;
    if (u - sum != base) FATAL("model", "round %d: bytes in use %zu, live blocks %zu, others %zu (was %zu)", k, u, sum, u - sum, base);
    n_exact++; dist.add(u); identities("after concurrent round"); if (k % 4 == 3) { interfaces("after concurrent round"); base += in_use() - u; }
    pthread_barrier_wait(&bar);
  }
  for (int t = 0; t < kT; t++) th[t].join();
  stop = true; mt->join(); delete mt; delete[] th;
  long long left = (long long)in_use() - (long long)start;
  if (left > 65536) FATAL("leak", "threads gone and all blocks freed: bytes in use grew by %lld", left);
  identities("end");
}
int main(int argc, char** argv) {
  bool percpu = strchr(argv[1], 'C'); mode_P = strchr(argv[1], 'P'); mode_G = strchr(argv[1], 'G');
  free(malloc(8));
  if (percpu && !MallocExtension::PerCpuCachesActive()) return inconclusive("per-CPU caches not active");
  tab = (Slot*)mmap(nullptr, sizeof(Slot) * kT * kS, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  MallocExtension::SetProfileSamplingInterval(mode_P ? 1 : mode_G ? 64 : 0);
  if (mode_G) { MallocExtension::SetGuardedSamplingInterval(64); MallocExtension::ActivateGuardedSampling(); } else MallocExtension::SetGuardedSamplingInterval(-1);
  // let the thread's own sampler pick the new interval up
  for (int i = 0; i < 2000; i++) free(malloc(4096)); for (int i = 0; i < 40; i++) free(malloc(1 << 20));
  Rng r(seed() * 101 + argv[1][0]); long scale = thorough() ? 12 : 1;
  single_ops(r, (mode_P || mode_G ? 20000 : 90000) * scale);
  if (argv[1][0] != 'S') churn(24 * scale, mode_P || mode_G ? 2500 : 15000);
  say("SAMPLE %lld exact in-use comparisons, %lld component identities, %lld cross-interface comparisons, %lld concurrent readings", n_exact, n_ident, n_props, n_conc);
  metric("evals", n_exact + n_ident + n_props); metric("concurrent_reads", n_conc); metric("distinct", dist.n); return done();
}
