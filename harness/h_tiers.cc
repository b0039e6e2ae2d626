// P11 (and P12): central free lists and transfer caches over an own page supply; every object's owner is tracked, so an
// object lost, handed out twice, misfiled, or living in a span given back shows at that moment. Modes: C central lists only,
// T transfer caches over them, L / G sharded caches on top (large classes / all classes); lower-case t: threads.
#include <algorithm>
#include <thread>
#include "vt_tiers.h"
#include "tcmalloc/transfer_cache.h"
#include "tcmalloc/transfer_cache_internals.h"
using namespace vt;
static bool f_cfl, f_shard, f_gen, f_thr; static Rlx<long long> evals, n_rm, n_in, n_maint, n_hit; static Distinct dist; static std::vector<size_t> classes;
static Cfl* cfls;
struct Mgr {
  static constexpr size_t kNumBaseClasses = tcmalloc::tcmalloc_internal::kNumBaseClasses, kNumClasses = tcmalloc::tcmalloc_internal::kNumClasses;
  static constexpr size_t kNormalPartitions = tcmalloc::tcmalloc_internal::kNormalPartitions, kSecurityPartitions = tcmalloc::tcmalloc_internal::kSecurityPartitions; static constexpr size_t kHasExpandedClasses = tcmalloc::tcmalloc_internal::kHasExpandedClasses, kExpandedClassesStart = tcmalloc::tcmalloc_internal::kExpandedClassesStart;
  static constexpr int kMaxSizeClassesToResize = 8;
  static size_t class_to_size(int c) { return smap.class_to_size(c); }
  static size_t num_objects_to_move(int c) { return smap.num_objects_to_move(c); }
  static void* Alloc(size_t n, std::align_val_t a = std::align_val_t{64}) { return aligned_alloc((size_t)a < 64 ? 64 : (size_t)a, (n + 127) & ~63ull); }
  void Init() {}
  using TC = internal_transfer_cache::TransferCache<Cfl, Mgr>; TC* tc = nullptr;
  void Start() { tc = (TC*)Alloc(sizeof(TC) * kNumClasses); for (size_t i = 0; i < kNumClasses; i++) new (&tc[i]) TC(this, i); }
  void InsertRange(int c, absl::Span<void*> b) { tc[c].InsertRange(c, b); }
  int RemoveRange(int c, absl::Span<void*> b) { return tc[c].RemoveRange(c, b); }
  size_t FetchCommitIntervalMisses(int c) { return tc[c].FetchCommitIntervalMisses(); }
  bool CanIncreaseCapacity(int c) { return tc[c].CanIncreaseCapacity(c); } bool ShrinkCache(int c) { return tc[c].ShrinkCache(c); } bool IncreaseCacheCapacity(int c) { return tc[c].IncreaseCacheCapacity(c); }
};
static Mgr mgr;
struct Sh : Mgr { static bool UseGenericCache() { return f_gen; } static bool EnableCacheForLargeClassesOnly() { return f_shard && !f_gen; } };
struct Back { int c = -1; void Init(int k) { c = k; } int size_class() const { return c; } void InsertRange(absl::Span<void*> b) const { mgr.InsertRange(c, b); } int RemoveRange(absl::Span<void*> b) const { return mgr.RemoveRange(c, b); } };
static thread_local int my_cpu; struct Layout { static unsigned NumShards() { return 4; } static int CurrentCpu() { return my_cpu; } static unsigned CpuShard(int c) { return c % 4; } };
static Sh sh; static Layout layout; using SM = ShardedTransferCacheManagerBase<Sh, Layout, Back>; static SM* sm;

struct Held { void* p; uint64_t id; };
static std::atomic<uint64_t> g_id{1};
static Cfl& central(size_t c) { return f_cfl ? cfls[c] : mgr.tc[c].freelist(); }
static int take(Rng& r, size_t c, size_t n, std::vector<Held>& to) {
  void* b[kMaxObjectsToMove]; int got; bool s = f_shard && sm->should_use(c);
  long long ref0 = tiers.refused; if (f_cfl) got = cfls[c].RemoveRange({b, n}); else if (s && n == 1 && subtle::percpu::IsFast() && r.chance(1, 2)) { b[0] = sm->Pop(c); got = b[0] ? 1 : 0; } else if (s) got = sm->RemoveRange(c, {b, n}); else got = mgr.RemoveRange(c, {b, n});
  if (got < 0 || (size_t)got > n) FATAL("range", "class %zu: %d objects for a request of %zu", c, got, n); if (!got && tiers.refused == ref0) FATAL("null", "class %zu: no object though pages are available", c);
  size_t sz = smap.class_to_size(c); for (int i = 0; i < got; i++) { tiers.move(b[i], c, IN_TIER, AT_USER, "to the user"); uint64_t id = g_id++; fill(b[i], sz, id); to.push_back({b[i], id}); } n_rm += got; return got;
}
static void give(Rng& r, size_t c, size_t n, std::vector<Held>& from) {
  void* b[kMaxObjectsToMove]; size_t sz = smap.class_to_size(c); n = std::min(n, from.size()); if (!n) return;
  for (size_t i = 0; i < n; i++) { size_t j = r.chance(1, 2) ? from.size() - 1 : r.below(from.size()); Held h = from[j]; from[j] = from.back(); from.pop_back(); long o = check(h.p, sz, h.id); if (o >= 0) FATAL("content", "class %zu: a held object changed at byte %ld", c, o); tiers.move(h.p, c, AT_USER, IN_TIER, "from the user"); b[i] = h.p; }
  bool s = f_shard && sm->should_use(c); if (f_cfl) cfls[c].InsertRange({b, n}); else if (s && n == 1 && subtle::percpu::IsFast() && r.chance(1, 2)) sm->Push(c, b[0]); else if (s) sm->InsertRange(c, {b, n}); else mgr.InsertRange(c, {b, n}); n_in += n;
}
static size_t batch(Rng& r, size_t c) { size_t m = smap.num_objects_to_move(c); switch (r.below(4)) { case 0: return m; case 1: return 1; case 2: return 1 + r.below(kMaxObjectsToMove); default: return 1 + r.below(m); } }
static void tc_check(size_t c, const char* w) {
  if (f_cfl) return; auto s = mgr.tc[c].GetStats(); evals++;
  if (s.used > s.capacity || s.capacity > s.max_capacity || mgr.tc[c].tc_length() != s.used) FATAL("capacity", "%s: class %zu: %zu used of %zu of %zu", w, c, (size_t)s.used, (size_t)s.capacity, (size_t)s.max_capacity);
}
static void at_rest(const char* w, const std::vector<size_t>& user) {
  for (size_t c : classes) {
    evals++; Cfl& f = central(c); cfl_check(f, c, w); cfl_exact(f, c, w); if (f_cfl) { if ((size_t)tiers.out_of[c] != user[c]) FATAL("lost", "%s: class %zu: %lld objects out, the user has %zu", w, c, tiers.out_of[c].load(), user[c]); continue; }
    tc_check(c, w); size_t in = mgr.tc[c].tc_length() + (f_shard ? sm->TotalObjectsOfClass(c) : 0); if (in + user[c] != (size_t)tiers.out_of[c]) FATAL("lost", "%s: class %zu: %lld objects left the central list; %zu are in the tiers and %zu with the user", w, c, tiers.out_of[c].load(), in, user[c]);
    if (f_shard) { size_t t = 0; auto s = sm->GetStats(c); for (int k = 0; k < 4; k++) t += sm->tc_length(k, c); if (t != s.used || s.used > s.capacity || s.capacity > s.max_capacity) FATAL("sharded", "%s: class %zu: shards hold %zu, %zu reported of %zu", w, c, t, (size_t)s.used, (size_t)s.capacity); }
  }
}
static size_t batches() { size_t n = 0; for (size_t c = 0; c < kNumBaseClasses; c++) if (smap.class_to_size(c)) n += mgr.tc[c].GetStats().capacity / smap.num_objects_to_move(c); return n; }
static void maint(Rng& r, bool quiet) {
  n_maint++; size_t c = classes[r.below(classes.size())];
  if (f_cfl) { if (r.chance(1, 4)) tiers.refuse = r.below(3) ? 0 : 2 + r.below(6); return; }
  switch (r.below(6)) {
    case 0: { size_t b0 = quiet ? batches() : 0; internal_transfer_cache::ResizeCaches(mgr, 0); if (quiet) { size_t b1 = batches(); evals++; if (b1 > b0) FATAL("grown", "resizing grew the caches from %zu to %zu batches in all", b0, b1); } break; }
    case 1: { size_t len = mgr.tc[c].tc_length(); mgr.tc[c].TryPlunder(c); if (quiet && mgr.tc[c].tc_length() > len) FATAL("plunder", "plundering class %zu grew it", c); break; }
    case 2: { auto a = mgr.tc[c].GetStats(); bool ok = mgr.tc[c].IncreaseCacheCapacity(c); if (quiet) { auto z = mgr.tc[c].GetStats(); if ((z.capacity > a.capacity) != ok || z.used != a.used) FATAL("increase", "class %zu: capacity %zu -> %zu, said %d", c, (size_t)a.capacity, (size_t)z.capacity, ok); } break; }
    case 3: { auto a = mgr.tc[c].GetStats(); bool ok = mgr.tc[c].ShrinkCache(c); if (quiet) { auto z = mgr.tc[c].GetStats(); if ((z.capacity < a.capacity) != ok || z.used > z.capacity) FATAL("shrink", "class %zu: capacity %zu -> %zu, said %d", c, (size_t)a.capacity, (size_t)z.capacity, ok); } break; }
    case 4: if (f_shard) sm->Plunder(); else for (size_t k : classes) if (r.chance(1, 4)) mgr.tc[k].TryPlunder(k); break;
    default: tiers.refuse = r.below(3) ? 0 : 2 + r.below(6);
  }
}
static void empty_all(Rng& r, std::vector<Held>* mine) {
  tiers.refuse = 0; for (size_t c : classes) while (mine[c].size()) give(r, c, kMaxObjectsToMove, mine[c]);
  if (!f_cfl) for (int k = 0; k < 3; k++) { if (f_shard) for (int z = 0; z < 20; z++) sm->Plunder(); for (size_t c : classes) mgr.tc[c].TryPlunder(c); }
  for (size_t c : classes) { evals++; size_t in = f_cfl ? 0 : mgr.tc[c].tc_length() + (f_shard ? sm->TotalObjectsOfClass(c) : 0); if (in) FATAL("plunder", "class %zu: %zu objects stayed in untouched caches through repeated plunders", c, in);
    if (tiers.out_of[c] || tiers.spans_of[c]) FATAL("lost", "class %zu: everything was returned, but %lld objects and %lld spans did not come back", c, tiers.out_of[c].load(), tiers.spans_of[c].load()); }
}
static void sequential(Rng& r, long long steps) {
  std::vector<std::vector<Held>> mine(kNumClasses); size_t hc[5]; for (auto& h : hc) h = classes[r.below(classes.size())]; int bias = 50;
  for (long long i = 0; i < steps; i++) {
    if (r.chance(1, 200)) for (auto& h : hc) h = classes[r.below(classes.size())]; if (r.chance(1, 150)) bias = 20 + r.below(61); if (r.chance(1, 30)) my_cpu = r.below(8);
    size_t c = r.chance(1, 6) ? classes[r.below(classes.size())] : hc[r.below(5)], n = batch(r, c), big = smap.class_to_size(c); long long l0 = f_cfl ? 0 : mgr.tc[c].tc_length(), cap = f_cfl ? 0 : mgr.tc[c].GetStats().capacity; bool plain = !f_cfl && !(f_shard && sm->should_use(c));
    dist.add(c * 1000003 + n * 131 + std::min<size_t>(tiers.spans_of[c], 40) * 7919 + (l0 * 8 / (cap + 1)));
    if ((int)r.below(100) < bias && mine[c].size() * big < (4 << 20) + 64 * big) { int g = take(r, c, n, mine[c]); if (plain && l0) { long long w = std::min<long long>(n, l0); evals++; if (g != w || (long long)mgr.tc[c].tc_length() != l0 - w) FATAL("remove", "class %zu: %d taken for %zu with %lld cached, %zu left", c, g, n, l0, mgr.tc[c].tc_length()); n_hit++; } }
    else { size_t k = std::min(n, mine[c].size()); give(r, c, n, mine[c]); if (plain && k) { long long w = std::min<long long>(k, cap - l0); evals++; if ((long long)mgr.tc[c].tc_length() != l0 + w) FATAL("insert", "class %zu: %zu given with %lld of %lld cached, then %zu", c, k, l0, cap, mgr.tc[c].tc_length()); } }
    cfl_check(central(c), c, "after a step"); tc_check(c, "after a step"); evals++;
    if (r.chance(1, 25)) maint(r, true);
    if (i % 4000 == 3999) { std::vector<size_t> u(kNumClasses); for (size_t k : classes) u[k] = mine[k].size(); at_rest("sequential", u); if (r.chance(1, 3)) empty_all(r, mine.data()); }
  }
  empty_all(r, mine.data());
}
static void threaded(Rng& r) {
  int rounds = thorough() ? 15 : 3; double secs = (thorough() ? 60.0 : 5.0) / rounds;
  for (int rd = 0; rd < rounds; rd++) {
    int W = 3 + r.below(9); std::vector<std::vector<std::vector<Held>>> mine(W, std::vector<std::vector<Held>>(kNumClasses)); std::atomic<bool> stop{false}; std::vector<std::thread> t; size_t shared[3]; for (auto& h : shared) h = classes[r.below(classes.size())];
    for (int w = 0; w < W; w++) t.emplace_back([&, w] { Rng q(seed() * 977 + rd * 64 + w); int bias = 50; while (!stop) { if (q.chance(1, 50)) bias = 25 + q.below(51); my_cpu = q.chance(1, 20) ? q.below(8) : my_cpu; size_t c = q.chance(1, 5) ? classes[q.below(classes.size())] : shared[q.below(3)], n = batch(q, c), big = smap.class_to_size(c);
      if ((int)q.below(100) < bias && mine[w][c].size() * big < (1 << 20) + 40 * big) take(q, c, n, mine[w][c]); else give(q, c, n, mine[w][c]); } });
    std::thread m([&] { Rng q(seed() * 31 + rd); while (!stop) { maint(q, false); for (size_t c : {shared[0], classes[q.below(classes.size())]}) { (void)central(c).GetSpanStats(); (void)central(c).length(); } usleep(q.below(300)); } });
    usleep((useconds_t)(secs * 1e6)); stop = true; for (auto& x : t) x.join(); m.join();
    std::vector<size_t> u(kNumClasses); for (auto& x : mine) for (size_t c : classes) u[c] += x[c].size(); at_rest("threads at rest", u); for (size_t c : classes) dist.add(c * 7919 + tiers.spans_of[c] * 31 + tiers.out_of[c] % 1000);
    for (int w = 1; w < W; w++) for (size_t c : classes) mine[0][c].insert(mine[0][c].end(), mine[w][c].begin(), mine[w][c].end()); empty_all(r, mine[0].data());
  }
}
int main(int argc, char** argv) {
  const char* m = argv[1]; f_cfl = strchr(m, 'C'); f_gen = strchr(m, 'G'); f_shard = f_gen || strchr(m, 'L'); f_thr = strchr(m, 't'); Rng r(seed() * 7919 + m[0] + f_thr);
  if (!smap.Init(SizeMap::CurrentClasses().classes)) return inconclusive("no size map"); tiers.init(32ull << 30);
  if (f_cfl) { cfls = new Cfl[kNumClasses]; for (size_t c = 0; c < kNumClasses; c++) cfls[c].Init(c); } else { mgr.Start(); if (f_shard) { sm = new SM(&sh, &layout); sm->Init(); } }
  for (size_t c = 1; c < kNumBaseClasses; c++) if (smap.class_to_size(c)) classes.push_back(c);
  if (f_thr) threaded(r); else sequential(r, thorough() ? 1500000 : f_cfl ? 120000 : 80000);
  metric("removed", n_rm); metric("inserted", n_in); metric("spans_obtained", tiers.got); metric("spans_returned", tiers.put); metric("spans_refused", tiers.refused); metric("maintenance", n_maint); metric("cache_hits", n_hit);
  say("SAMPLE %s: %lld objects out, %lld back, %lld spans obtained and %lld returned over %zu classes", m, n_rm.load(), n_in.load(), tiers.got.load(), tiers.put.load(), classes.size()); evals += n_rm + n_in;
  metric("evals", evals); metric("distinct", dist.n); return done();
}
