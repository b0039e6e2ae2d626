// P10: the per-CPU cache over a tier of its own. Every object carries its owner (tier below, cache, user), so a lost,
// duplicated or misfiled object shows at the moment it moves; capacity accounting is compared at every quiet point.
// Modes: S sequential on fake CPUs; T threads on real restartable sequences. Second letter: d dynamic slabs, P partitions,
// L large classes bypass the cache, G generic sharded tier.
#include <algorithm>
#include <mutex>
#include <thread>
#include <vector>
#include "vt.h"
#include "tcmalloc/cpu_cache.h"
#include "vt_fakecpu.h"
using namespace vt;
using namespace tcmalloc::tcmalloc_internal;
static std::atomic<long long> evals, n_alloc, n_free, n_fetch, n_put, n_oom, n_maint, n_mig; static Distinct dist;
static bool f_dyn, f_part, f_large, f_gen; static std::atomic<int> partial{0}; static std::atomic<double> grow_t{0.9}, shrink_t{0.4}; static std::atomic<bool> rel_meta{true};
static SizeMap smap;
enum { BELOW, CACHE, USER };
static constexpr size_t PER = 1 << 17;
static char* area; static std::atomic<uint8_t>* tok;
static void* obj(size_t c, size_t i) { return area + (c * PER + i) * 16; }
static size_t idx(void* p, size_t c, const char* w) {
  size_t i = ((char*)p - area) / 16; if (((char*)p - area) % 16 || i >= kNumClasses * PER) FATAL("foreign", "%s: %p never entered the cache", w, p);
  if (i / PER != c) FATAL("class", "%s: object of class %zu came out as class %zu", w, i / PER, c); return i;
}
static void move_to(void* p, size_t c, int from, int to, const char* w) { size_t i = idx(p, c, w); int o = tok[i].exchange(to); if (o != from) FATAL("owner", "%s: object %zu of class %zu is owned by %s, expected %s", w, i % PER, c, o == BELOW ? "the tier below" : o == CACHE ? "the cache" : "the user", from == BELOW ? "the tier below" : from == CACHE ? "the cache" : "the user"); }
struct Below {
  std::mutex mu[kNumClasses]; std::vector<void*> v[kNumClasses]; uint32_t fresh[kNumClasses] = {};
  bool should_use(int c) const { return (f_large || f_gen) && (f_gen || smap.class_to_size(c) >= 4096); }
  int RemoveRange(size_t c, absl::Span<void*> b) {
    n_fetch++; if (b.empty() || b.size() > kMaxObjectsToMove) FATAL("range", "%zu objects of class %zu requested at once", b.size(), c);
    size_t n = b.size(); int pt = partial; if (pt) { uint64_t z = mix(now_ns() + n); if (pt == 2 && z % 8 == 0) { n_oom++; return 0; } if (z % 3 == 0) n = 1 + z / 3 % n; }
    std::lock_guard<std::mutex> g(mu[c]); size_t k = 0;
    for (; k < n; k++) { void* p; if (v[c].size()) { size_t j = v[c].size() - 1; p = v[c][j]; v[c].pop_back(); } else if (fresh[c] < PER) p = obj(c, fresh[c]++); else break; move_to(p, c, BELOW, CACHE, "fetch"); b[k] = p; }
    return k;
  }
  void InsertRange(size_t c, absl::Span<void*> b) {
    n_put++; if (b.size() > kMaxObjectsToMove || b.empty()) FATAL("range", "%zu objects of class %zu handed back at once", b.size(), c);
    std::lock_guard<std::mutex> g(mu[c]); for (void* p : b) { move_to(p, c, CACHE, BELOW, "hand back"); v[c].push_back(p); }
  }
  void* Pop(size_t c) { void* p = nullptr; int k = RemoveRange(c, {&p, 1}); return k ? p : nullptr; }
  void Push(size_t c, void* p) { InsertRange(c, {&p, 1}); }
  size_t held(size_t c) { size_t n = 0; for (size_t i = 0; i < fresh[c]; i++) n += tok[c * PER + i] == BELOW; if (v[c].size() != n) FATAL("owner", "class %zu: %zu stored below, %zu marked so", c, v[c].size(), n); return n; }
};
static Below below;
static Rlx<long long> m_got{0}, m_alloc{0}, m_nonres{0}, m_base{0}, n_slabmem{0};  // metadata obtained, reported in use, reported nonresident
struct Fwd {
  Fwd() { topo.Init(); }
  static void* Alloc(size_t size, std::align_val_t al) {
    m_got += size; m_alloc += size;
    size_t a = (size_t)al < 4096 ? 4096 : (size_t)al, n = size + a; char* p = (char*)mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); return (void*)(((uintptr_t)p + a - 1) & ~(a - 1));
  }
  int64_t impending = 0;
  void* AllocReportedImpending(size_t n, std::align_val_t a) { m_alloc -= n; return Alloc(n, a); }
  static void Dealloc(void*, size_t, std::align_val_t) {}
  void SetAnonVmaName(void* p, size_t n, std::optional<absl::string_view>) { if ((uintptr_t)p % kHugePageSize || n % kHugePageSize) FATAL("slab", "misaligned slab %p+%zu", p, n); }
  void ArenaUpdateAllocatedAndNonresident(int64_t a, int64_t n) { m_alloc += a; m_nonres += n; if (m_nonres < 0 || m_alloc < 0) FATAL("slabmem", "metadata reported in use %lld, nonresident %lld after an update by %ld and %ld", m_alloc.load(), m_nonres.load(), (long)a, (long)n); }
  bool per_cpu_caches_dynamic_slab_enabled() { return f_dyn; }
  double per_cpu_caches_dynamic_slab_grow_threshold() { return grow_t; }
  double per_cpu_caches_dynamic_slab_shrink_threshold() { return shrink_t; }
  bool release_drained_slab_metadata() const { return rel_meta; }
  bool reuse_size_classes() const { return true; }
  size_t class_to_size(int c) const { return smap.class_to_size(c); }
  absl::Span<const size_t> cold_size_classes() const { return smap.ColdSizeClasses(); }
  size_t num_objects_to_move(int c) const { return smap.num_objects_to_move(c); }
  const NumaTopology<kNumaPartitions, kNumBaseClasses>& numa_topology() const { return topo; }
  Below& sharded_transfer_cache() { return below; }
  const Below& sharded_transfer_cache() const { return below; }
  Below& transfer_cache() { return below; }
  bool UseGenericShardedCache() const { return f_gen; }
  bool UseShardedCacheForLargeClassesOnly() const { return f_large; }
  bool UseWiderSlabs() const { return !f_part; }
  bool HaveHooks() const { return false; }
  unsigned active_partitions() const { return f_part ? kNormalPartitions : 1u; }
  bool multiple_non_numa_partitions() const { return f_part; }
  NumaTopology<kNumaPartitions, kNumBaseClasses> topo;
};
using Cache = cpu_cache_internal::CpuCache<Fwd>;
namespace tcmalloc::tcmalloc_internal { class CpuCachePeer { public: static void uncache(Cache& c) { c.freelist_.UncacheCpuSlab(); } static int shift(Cache& c) { return c.freelist_.GetShift(); } static size_t len(Cache& c, int k, size_t s) { return c.freelist_.Length(k, s); } }; }
static Cache& cache = *new Cache; static int NCPU; static uint64_t limit0; static bool limit_moved; static std::vector<size_t> classes; static std::vector<int> shifts_seen;
static size_t user_of[kNumClasses];

static void quiet_check(const char* w, bool full) {
  evals++; uint64_t cap = 0, used = 0, all = 0; int sh = tcmalloc::tcmalloc_internal::CpuCachePeer::shift(cache);
  for (int k = 0; k < NCPU; k++) {
    uint64_t al = cache.Allocated(k), un = cache.Unallocated(k), cp = cache.Capacity(k); cap += cp;
    if (al + un != cp) FATAL("capacity", "%s: cpu %d: %llu bytes given to classes + %llu spare != capacity %llu", w, k, (long long)al, (long long)un, (long long)cp);
    uint64_t u = 0; if (cache.HasPopulated(k)) for (size_t c : classes) { size_t l = CpuCachePeer::len(cache, k, c), p = cache.GetCapacityOfSizeClass(k, c), m = cache.GetMaxCapacity(c, sh); u += l * smap.class_to_size(c);
      if (l > p || p > m) FATAL("capacity", "%s: cpu %d class %zu: %zu objects, capacity %zu, maximum %zu", w, k, c, l, p, m); }
    if (u != cache.UsedBytes(k)) FATAL("used", "%s: cpu %d: UsedBytes %llu, classes hold %llu", w, k, (long long)cache.UsedBytes(k), (long long)u); used += u; all += al;
  }
  // slabs no longer in use are nonresident, everything else is in use
  long long slab = subtle::percpu::GetSlabsAllocSize(subtle::percpu::ToShiftType(sh), NCPU); n_slabmem += m_nonres > 0; if (m_base == 0) m_base = m_got - slab;
  if (m_alloc + m_nonres != m_got) FATAL("slabmem", "%s: %lld bytes of metadata obtained, %lld reported in use and %lld nonresident", w, m_got.load(), m_alloc.load(), m_nonres.load());
  if (m_alloc != m_base + slab) FATAL("slabmem", "%s: %lld bytes of metadata reported in use, slabs take %lld and the rest %lld", w, m_alloc.load(), slab, m_base.load());
  if (used != cache.TotalUsedBytes()) FATAL("used", "%s: TotalUsedBytes %llu, CPUs hold %llu", w, (long long)cache.TotalUsedBytes(), (long long)used);
  if (!limit_moved && cap != limit0 * NCPU) FATAL("capacity", "%s: capacities of all CPUs sum to %llu, not %llu", w, (long long)cap, (long long)(limit0 * NCPU));
  if (full) for (size_t c : classes) { size_t n[3] = {}; for (size_t i = 0; i < below.fresh[c]; i++) n[tok[c * PER + i]]++;
    if (n[BELOW] != below.v[c].size()) FATAL("owner", "%s: class %zu: %zu objects below, %zu marked so", w, c, below.v[c].size(), n[BELOW]);
    if (n[CACHE] != cache.TotalObjectsOfClass(c)) FATAL("lost", "%s: class %zu: %zu objects went into the cache and did not come out, it holds %zu", w, c, n[CACHE], (size_t)cache.TotalObjectsOfClass(c)); }
}
static void maint(Rng& r, int op) {
  n_maint++;
  switch (op % 9) {
    case 0: cache.ShuffleCpuCaches(); break;
    case 1: cache.TryDrainingCaches(); break;
    case 2: { int k = r.below(NCPU); cache.Drain(k); break; }
    case 3: cache.ResizeSizeClasses(); break;
    case 4: cache.ResizeSizeClassMaxCapacities(); break;
    case 5: { switch (r.below(3)) { case 0: grow_t = -1.0; break; case 1: grow_t = 1e300; shrink_t = 1e300; break; default: grow_t = 0.9; shrink_t = 0.4; } if (f_dyn) cache.ResizeSlabIfNeeded(); shifts_seen.push_back(CpuCachePeer::shift(cache)); break; }
    case 6: cache.ClearTouchedCpus(); break;
    case 7: rel_meta = r.chance(1, 2); break;
    case 8: partial = r.chance(1, 8) ? 2 : r.below(2); break;
  }
}
static void put(size_t c, void* p) { move_to(p, c, USER, CACHE, "free"); cache.Deallocate(p, c); n_free++; }
static void* get(size_t c) { long long o = n_oom; void* p = cache.Allocate(c); if (!p) { if (n_oom == o && partial != 2 && below.fresh[c] < PER) FATAL("null", "class %zu: nothing allocated though the tier below has objects", c); return nullptr; } move_to(p, c, CACHE, USER, "allocate"); n_alloc++; return p; }

static void drain_all(std::vector<void*>* mine) {
  for (size_t c : classes) { for (void* p : mine[c]) put(c, p); mine[c].clear(); }
  for (int k = 0; k < NCPU; k++) { cache.Drain(k); evals++; if (cache.UsedBytes(k) || cache.Allocated(k)) FATAL("drain", "cpu %d still holds %llu bytes (capacity %llu) after a drain", k, (long long)cache.UsedBytes(k), (long long)cache.Allocated(k)); }
  for (size_t c : classes) if (below.held(c) != below.fresh[c]) FATAL("lost", "class %zu: %u objects taken, %zu returned after everything was freed and drained", c, below.fresh[c], below.held(c));
}
static void sequential(Rng& r, long long steps) {
  std::vector<void*> mine[kNumClasses]; FakeCpu fake(0); CpuCachePeer::uncache(cache); int cur = 0; int hot = 0; size_t hc[4]; for (auto& h : hc) h = classes[r.below(classes.size())];
  for (long long i = 0; i < steps; i++) {
    if (r.chance(1, 40)) { CpuCachePeer::uncache(cache); fake.SwitchTo(cur = r.chance(3, 4) ? r.below(3) % NCPU : r.below(NCPU)); }
    if (r.chance(1, 300)) for (auto& h : hc) h = classes[r.below(classes.size())];
    size_t c = r.chance(1, 5) ? classes[r.below(classes.size())] : hc[r.below(4)]; int op = r.below(100); if (hot > 0) hot--; else if (r.chance(1, 100)) hot = r.below(400);
    dist.add(c * 1000 + cur * 100000 + cache.GetCapacityOfSizeClass(cur, c) * (cache.HasPopulated(cur) ? 1 : 0) % 1000);
    if (op < (hot % 2 ? 70 : 46)) { if (mine[c].size() < 6000) { int n = r.chance(1, 20) ? r.below(300) : 1; while (n--) if (void* p = get(c)) mine[c].push_back(p); } }
    else if (op < 92) { int n = r.chance(1, 20) ? r.below(300) : 1; while (n-- && mine[c].size()) { size_t j = r.below(mine[c].size()); void* p = mine[c][j]; mine[c][j] = mine[c].back(); mine[c].pop_back(); put(c, p); } }
    else { int m = r.below(9); maint(r, m); CpuCachePeer::uncache(cache); char w[32]; snprintf(w, 32, "after maintenance %d", m); quiet_check(w, r.chance(1, 20)); }
    if (i % 16 == 0) quiet_check("sequential", i % 256 == 0);
    if (i == steps * 7 / 8) { cache.SetCacheLimit(r.chance(1, 2) ? limit0 / 2 : limit0 * 2); limit_moved = true; }
  }
  partial = 0; drain_all(mine); quiet_check("drained", true);
}
static void tworker(int id, std::atomic<bool>& stop, std::vector<void*>* mine) {
  if (!subtle::percpu::IsFast()) return; Rng r(seed() * 977 + id); size_t hc[4]; for (auto& h : hc) h = classes[r.below(classes.size())]; int n = sysconf(_SC_NPROCESSORS_ONLN);
  while (!stop) {
    if (r.chance(1, 4000)) for (auto& h : hc) h = classes[r.below(classes.size())];
    if (r.chance(1, 3000)) { cpu_set_t s; CPU_ZERO(&s); if (r.chance(1, 3)) for (int q = 0; q < n; q++) CPU_SET(q, &s); else CPU_SET(r.below(n), &s); sched_setaffinity(0, sizeof s, &s); n_mig++; }
    size_t c = r.chance(1, 8) ? classes[r.below(classes.size())] : hc[r.below(4)];
    int k = r.chance(1, 30) ? r.below(200) : 1 + r.below(3); bool a = mine[c].empty() || (mine[c].size() < 2000 && r.chance(1, 2));
    while (k--) if (a) { if (void* p = get(c)) mine[c].push_back(p); } else if (mine[c].size()) { void* p = mine[c].back(); mine[c].pop_back(); put(c, p); }
  }
}
static void threaded(Rng& r) {
  int rounds = thorough() ? 14 : 3; double secs = (thorough() ? 60.0 : 6.0) / rounds;
  for (int rd = 0; rd < rounds; rd++) {
    int W = 3 + r.below(10); std::vector<std::vector<std::vector<void*>>> mine(W, std::vector<std::vector<void*>>(kNumClasses)); std::atomic<bool> stop{false}; std::vector<std::thread> t;
    for (int i = 0; i < W; i++) t.emplace_back(tworker, rd * 64 + i, std::ref(stop), mine[i].data());
    std::thread m([&] { if (!subtle::percpu::IsFast()) return; Rng q(seed() * 31 + rd); while (!stop) { maint(q, q.below(9)); if (q.chance(1, 2)) usleep(q.below(800)); } });
    usleep((useconds_t)(secs * 1e6)); stop = true; for (auto& x : t) x.join(); m.join();
    quiet_check("threads at rest", true); for (auto& x : mine) for (size_t c : classes) for (void* p : x[c]) { if (tok[idx(p, c, "held")] != USER) FATAL("owner", "an object a thread holds is marked otherwise"); }
    for (size_t c : classes) for (int k = 0; k < NCPU; k++) if (cache.HasPopulated(k)) dist.add(c * 977 + k * 100003 + cache.GetCapacityOfSizeClass(k, c) * 7);
    partial = 0; for (size_t i = 1; i < mine.size(); i++) for (size_t c : classes) for (void* p : mine[i][c]) mine[0][c].push_back(p); drain_all(mine[0].data()); quiet_check("drained", true);
  }
}
int main(int argc, char** argv) {
  if (!subtle::percpu::IsFast()) return inconclusive("restartable sequences are not available"); const char* m = argv[1]; f_dyn = strchr(m, 'd'); f_part = strchr(m, 'P'); f_large = strchr(m, 'L'); f_gen = strchr(m, 'G');
  Rng r(seed() * 7919 + m[0] + f_dyn * 3 + f_part * 5); NCPU = NumCPUs(); if (!smap.Init(SizeMap::CurrentClasses().classes)) return inconclusive("no size map");
  area = (char*)mmap(nullptr, kNumClasses * PER * 16, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); tok = (std::atomic<uint8_t>*)mmap(nullptr, kNumClasses * PER, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  cache.Activate(); limit0 = cache.CacheLimit(); m_base = m_got - (long long)subtle::percpu::GetSlabsAllocSize(subtle::percpu::ToShiftType(CpuCachePeer::shift(cache)), NCPU);
  for (size_t c = 1; c < kNumClasses; c++) if (smap.class_to_size(c) && (c < kNumBaseClasses * cache.forwarder().active_partitions() || IsExpandedSizeClass(c))) if (cache.GetMaxCapacity(c, cache.GetPerCpuSlabShiftBounds().max_shift) || f_large) classes.push_back(c);
  if (m[0] == 'S') sequential(r, thorough() ? 1200000 : 60000); else threaded(r);
  metric("allocations", n_alloc); metric("frees", n_free); metric("fetches", n_fetch); metric("hand_backs", n_put); metric("refused_fetches", n_oom); metric("maintenance", n_maint); metric("migrations", n_mig); metric("drains", cache.GetNumDrains()); metric("slab_memory_judged_with_old_slabs", n_slabmem); metric("resizes", cache.GetNumResizes()); metric("unpopulates", cache.GetNumUnpopulates());
  std::sort(shifts_seen.begin(), shifts_seen.end()); metric("slab_shifts", std::unique(shifts_seen.begin(), shifts_seen.end()) - shifts_seen.begin()); evals += n_alloc + n_free;
  say("SAMPLE %s: %lld allocations, %lld frees, %lld maintenance steps; every object accounted for on %d CPUs", m, n_alloc.load(), n_free.load(), n_maint.load(), NCPU);
  metric("evals", evals); metric("distinct", dist.n); return done();
}
