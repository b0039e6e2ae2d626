// P10: the per-CPU slab itself. Mode S: sequential, against an exact stack model on fake CPUs. Mode T: threads on real
// restartable sequences; every object carries its owner state, so that a duplicated, lost or misfiled object shows at once.
#include <algorithm>
#include <mutex>
#include <thread>
#include <vector>
#include "vt.h"
#include "tcmalloc/internal/percpu_tcmalloc.h"
#include "vt_fakecpu.h"
using namespace vt;
using namespace tcmalloc::tcmalloc_internal;
using namespace tcmalloc::tcmalloc_internal::subtle::percpu;
static constexpr size_t NC = 20;
using Slab = TcmallocSlab<NC>;
static void* alloc_slabs(size_t n, std::align_val_t) { size_t a = 2 << 20; void* p = aligned_alloc(a, (n + a - 1) / a * a); memset(p, 0, n); return p; }
static void* alloc_poison(size_t n, std::align_val_t a) { void* p = alloc_slabs(n, a); return p; }
static std::atomic<long long> evals, ops[16]; static Distinct dist;
static Slab slab;  // one process, one slab (the thread-local slab pointer is shared)
static std::atomic<uint16_t> maxcap[NC];
static size_t cap_of(size_t c) { return c && c < NC ? maxcap[c].load(std::memory_order_relaxed) : 0; }
static size_t need() { size_t b = NC * 4 + 16; for (size_t c = 1; c < NC; c++) b += (cap_of(c) + 1) * 8; return b; }

// ---------------------------------------------------------------- sequential model
struct M { std::vector<void*> st; size_t cap = 0; };
static int NCPU; static std::vector<std::vector<M>> mod; static std::vector<bool> inited, stopped;
static Shift init_slabs(Rng& r, bool zero_some) {
  for (size_t c = 1; c < NC; c++) maxcap[c] = zero_some && r.chance(1, 6) ? 0 : r.chance(1, 4) ? 1 + r.below(3) : 1 + r.below(60);
  int sh = 14 + r.below(3); while (need() > (1u << sh)) sh++; Shift s = ToShiftType(sh);
  slab.Init(alloc_slabs, alloc_slabs(GetSlabsAllocSize(s, NCPU), SlabAlignment(s)), cap_of, s); return s;
}
static void* fresh(int c) { static uintptr_t n = 0x100000; static char* area = (char*)mmap(nullptr, 1ull << 36, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); n += 16; return area + (n % (1ull << 35)) * 1 + c * 0; }
static void chk(const char* w) {
  evals++;
  for (int k = 0; k < NCPU; k++) for (size_t c = 1; c < NC; c++) {
    size_t l = inited[k] ? slab.Length(k, c) : 0, p = inited[k] ? slab.Capacity(k, c) : 0;
    if (l != mod[k][c].st.size()) FATAL("length", "%s: cpu %d class %zu: length %zu, holds %zu", w, k, c, l, mod[k][c].st.size());
    if (p != mod[k][c].cap) FATAL("capacity", "%s: cpu %d class %zu: capacity %zu, should be %zu", w, k, c, p, mod[k][c].cap);
    if (p > cap_of(c)) FATAL("capacity", "%s: cpu %d class %zu: capacity %zu above its maximum %zu", w, k, c, p, cap_of(c));
  }
}
static void drained(const char* w, int k, size_t c, void** b, size_t n, size_t cap) {
  M& m = mod[k][c]; if (n != m.st.size()) FATAL("drain", "%s: cpu %d class %zu handed over %zu objects of %zu", w, k, c, n, m.st.size());
  if (cap != m.cap) FATAL("drain", "%s: cpu %d class %zu handed over with capacity %zu, was %zu", w, k, c, cap, m.cap);
  std::vector<void*> x(b, b + n), y = m.st; std::sort(x.begin(), x.end()); std::sort(y.begin(), y.end()); if (x != y) FATAL("drain", "%s: cpu %d class %zu handed over other objects than it held", w, k, c);
  m.st.clear(); m.cap = 0;
}
static void sequential(Rng& r, long long steps) {
  mod.assign(NCPU, std::vector<M>(NC)); inited.assign(NCPU, false); stopped.assign(NCPU, false); bool handled[64][NC];
  init_slabs(r, r.chance(1, 2)); int cur = 0; FakeCpu fake(0); slab.UncacheCpuSlab(); bool cached = false;
  auto initcpu = [&](int k) { if (!inited[k]) { slab.InitCpu(k, cap_of); inited[k] = true; } };
  auto cache = [&] { auto [k, was] = slab.CacheCpuSlab(); if (stopped[cur] && !cached) { if (k != -1 || !was) FATAL("stop", "cpu %d is stopped, caching its slab returned {%d,%d}", cur, k, was); return; }
    if (k != cur || was == cached) FATAL("cache", "caching the slab of cpu %d returned {%d,%d}, cached before: %d", cur, k, was, cached); cached = true; initcpu(cur); };
  cache();
  for (long long i = 0; i < steps; i++) {
    int op = r.below(100); size_t c = 1 + r.below(NC - 1); int k = r.below(NCPU); if (r.chance(1, 2)) k = cur; void* b[64]; size_t n = 1 + r.below(r.chance(1, 5) ? 60 : 12); bool live = cached && !stopped[cur];
    M& m = mod[cur][c]; dist.add(op * 1000003ull + c * 4096 + m.st.size() * 64 + (m.cap - m.st.size()) % 64);
    if (stopped[cur] && cached) { slab.UncacheCpuSlab(); cached = false; }  // a stopped CPU's thread is fenced
    if (op < 22) { void* p = fresh(c); bool ok = slab.Push(c, p), want = live && m.st.size() < m.cap; if (ok != want) FATAL("push", "push to cpu %d class %zu with %zu of %zu: %d", cur, c, m.st.size(), m.cap, ok); if (ok) m.st.push_back(p); ops[0]++; }
    else if (op < 42) { void* p = slab.Pop(c); void* want = live && m.st.size() ? m.st.back() : nullptr; if (p != want) FATAL("pop", "pop from cpu %d class %zu (%zu held) gave %p, not %p", cur, c, m.st.size(), p, want); if (p) m.st.pop_back(); ops[1]++; }
    else if (op < 52) { for (size_t j = 0; j < n; j++) b[j] = fresh(c); std::vector<void*> all(b, b + n); size_t got = slab.PushBatch(c, b, n), want = live ? std::min(n, m.cap - m.st.size()) : 0; if (got != want) FATAL("pushbatch", "cpu %d class %zu with %zu of %zu: %zu of %zu pushed", cur, c, m.st.size(), m.cap, got, n);
      std::vector<void*> left(b, b + n - got), took; for (void* p : all) if (std::find(left.begin(), left.end(), p) == left.end()) took.push_back(p);
      if (took.size() != got) FATAL("pushbatch", "after pushing %zu of %zu the rest is not at the start of the batch", got, n);
      // order inside the cache is not specified: read it back through pops
      if (got) { std::vector<void*> in; for (size_t j = 0; j < got; j++) in.push_back(slab.Pop(c)); std::vector<void*> s1 = in, s2 = took; std::sort(s1.begin(), s1.end()); std::sort(s2.begin(), s2.end()); if (s1 != s2) FATAL("pushbatch", "cpu %d class %zu: other objects came out than went in", cur, c); if (r.chance(1, 2)) for (void* p : in) { if (!slab.Push(c, p)) FATAL("push", "push refused below capacity"); m.st.push_back(p); } } ops[2]++; }
    else if (op < 62) { memset(b, 0, sizeof b); size_t got = slab.PopBatch(c, b, n), want = live ? std::min(n, m.st.size()) : 0; if (got != want) FATAL("popbatch", "cpu %d class %zu with %zu: %zu of %zu popped", cur, c, m.st.size(), got, n);
      std::vector<void*> x(b, b + got), y(m.st.end() - got, m.st.end()); std::sort(x.begin(), x.end()); std::sort(y.begin(), y.end()); if (x != y) FATAL("popbatch", "cpu %d class %zu: popped objects are not the %zu last ones", cur, c, got); m.st.resize(m.st.size() - got); if (got < n && b[got]) FATAL("popbatch", "wrote past the returned count"); ops[3]++; }
    else if (op < 72) { if (!live) continue; size_t got = slab.Grow(cur, c, n, [&](uint8_t sh) { if (sh != slab.GetShift()) FATAL("shift", "capacity asked for shift %d", sh); return cap_of(c); }), want = std::min(n, cap_of(c) - m.cap); if (got != want) FATAL("grow", "cpu %d class %zu capacity %zu of at most %zu grown by %zu of %zu", cur, c, m.cap, cap_of(c), got, n); m.cap += got; ops[4]++; }
    else if (op < 78) { if (!inited[k]) continue; bool s = stopped[k]; if (!s) slab.StopCpu(k); size_t got = slab.GrowOtherCache(k, c, n, [&](uint8_t) { return cap_of(c); }), want = std::min(n, cap_of(c) - mod[k][c].cap); if (got != want) FATAL("growother", "cpu %d class %zu grown by %zu of %zu", k, c, got, want); mod[k][c].cap += got; if (!s) slab.StartCpu(k); ops[5]++; if (k == cur) { slab.UncacheCpuSlab(); cached = false; cache(); } }
    else if (op < 84) { if (!inited[k]) continue; M& o = mod[k][c]; bool s = stopped[k]; if (!s) slab.StopCpu(k); size_t popped = 0; size_t unused = o.cap - o.st.size(), must = unused < n ? std::min(n - unused, o.st.size()) : 0;
      size_t got = slab.ShrinkOtherCache(k, c, n, [&](size_t cc, void** q, size_t z) { if (cc != c) FATAL("shrink", "class %zu handed over while shrinking %zu", cc, c); if (z > o.st.size()) FATAL("shrink", "%zu of %zu objects handed over", z, o.st.size()); std::vector<void*> x(q, q + z), y(o.st.end() - z, o.st.end()); std::sort(x.begin(), x.end()); std::sort(y.begin(), y.end()); if (x != y) FATAL("shrink", "cpu %d class %zu handed over other objects than its last", k, c); o.st.resize(o.st.size() - z); popped += z; });
      size_t want = std::min(n, unused + must); if (popped != must || got != want) FATAL("shrink", "cpu %d class %zu shrunk by %zu (wanted %zu), %zu objects popped (needed %zu)", k, c, got, want, popped, must); o.cap -= got; if (!s) slab.StartCpu(k); ops[6]++; if (k == cur) { slab.UncacheCpuSlab(); cached = false; cache(); } }
    else if (op < 87) { if (!inited[k] || stopped[k]) continue; memset(handled, 0, sizeof handled); slab.Drain(k, [&](int kk, size_t cc, void** q, size_t z, size_t cp) { if (kk != k || cc < 1 || cc >= NC || handled[0][cc]) FATAL("drain", "cpu %d class %zu drained while draining %d", kk, cc, k); handled[0][cc] = true; drained("drain", kk, cc, q, z, cp); }); for (size_t q = 1; q < NC; q++) if (mod[k][q].st.size() || mod[k][q].cap) FATAL("drain", "class %zu of cpu %d not drained", q, k); ops[7]++; if (k == cur) { slab.UncacheCpuSlab(); cached = false; cache(); } }
    else if (op < 92) { slab.UncacheCpuSlab(); cached = false; cur = k; fake.SwitchTo(k); cache(); ops[8]++; }
    else if (op < 94) { if (stopped[k]) { slab.StartCpu(k); stopped[k] = false; } else if (r.chance(1, 3)) { slab.StopCpu(k); stopped[k] = true; if (k == cur) { slab.UncacheCpuSlab(); cached = false; } } if (!stopped[cur] && !cached) cache(); ops[9]++; }
    else if (op < 96) { for (int q = 0; q < NCPU; q++) if (stopped[q]) { slab.StartCpu(q); stopped[q] = false; } int sh = 14 + r.below(5); if (sh == slab.GetShift()) sh = sh == 18 ? 17 : sh + 1; if (need() > (1u << sh)) continue; int osh = slab.GetShift(); Shift ns = ToShiftType(sh); void* mem = alloc_slabs(GetSlabsAllocSize(ns, NCPU), SlabAlignment(ns));
      auto info = slab.ResizeSlabs(ns, mem, cap_of, [&](size_t q) { return (bool)inited[q]; }, [&](int kk, size_t cc, void** q, size_t z, size_t cp) { drained("resize", kk, cc, q, z, cp); });
      if (info.old_slabs_size != GetSlabsAllocSize(ToShiftType(osh), NCPU) || slab.GetShift() != sh) FATAL("resize", "shift %d to %d: old size %zu, shift now %d", osh, sh, info.old_slabs_size, slab.GetShift()); memset(info.old_slabs, 0xA5, info.old_slabs_size); free(info.old_slabs);
      for (auto& v : mod) for (auto& x : v) if (x.st.size() || x.cap) FATAL("resize", "a class was not handed over"); slab.UncacheCpuSlab(); cached = false; cache(); ops[10]++; }
    else if (op < 98) { for (int q = 0; q < NCPU; q++) if (stopped[q]) { slab.StartCpu(q); stopped[q] = false; } PerSizeClassMaxCapacity nc[4]; int w = 1 + r.below(4); uint16_t save[NC]; for (size_t q = 0; q < NC; q++) save[q] = maxcap[q]; size_t nn = need(); for (int j = 0; j < w; j++) { size_t q = 1 + (c + j) % (NC - 1), v = r.below(64); nc[j] = {q, v}; nn += v * 8; } int osh = slab.GetShift(); if (nn > (1u << osh)) continue; Shift ns = ToShiftType(osh);
      auto info = slab.UpdateMaxCapacities(alloc_slabs(GetSlabsAllocSize(ns, NCPU), SlabAlignment(ns)), cap_of, [](int q, uint16_t v) { maxcap[q] = v; }, [&](size_t q) { return (bool)inited[q]; }, [&](int kk, size_t cc, void** q, size_t z, size_t cp) { drained("max capacities", kk, cc, q, z, cp); }, nc, w);
      memset(info.old_slabs, 0xA5, info.old_slabs_size); free(info.old_slabs); for (int j = 0; j < w; j++) save[nc[j].size_class] = nc[j].max_capacity; for (size_t q = 1; q < NC; q++) if (cap_of(q) != save[q]) FATAL("maxcap", "class %zu has maximum %zu, not %d", q, cap_of(q), save[q]); for (auto& v : mod) for (auto& x : v) if (x.st.size() || x.cap) FATAL("maxcap", "a class was not handed over"); slab.UncacheCpuSlab(); cached = false; cache(); ops[11]++; }
    else { for (int q = 0; q < NCPU; q++) if (stopped[q]) { slab.StartCpu(q); stopped[q] = false; } uintptr_t lo = 0, hi = 0; std::vector<int> gone; bool all = r.chance(1, 2); if (all) for (int q = 0; q < NCPU; q++) if (inited[q]) slab.Drain(q, [&](int kk, size_t cc, void** v, size_t z, size_t cp) { drained("drain", kk, cc, v, z, cp); });
      slab.ReleaseSlabMetadataForDrainedCpus([&](size_t q) { return (bool)inited[q]; }, [&](size_t q) { gone.push_back(q); }, [&](void* a, size_t z) { lo = (uintptr_t)a; hi = lo + z; memset(a, 0, z); });
      for (int q : gone) { if (q < 0 || q >= NCPU) FATAL("metadata", "cpu %d unpopulated", q); for (auto& x : mod[q]) if (x.st.size() || x.cap) FATAL("metadata", "slab of cpu %d released, class holds %zu, capacity %zu", q, x.st.size(), x.cap); inited[q] = false; ops[13]++; }
      slab.UncacheCpuSlab(); cached = false; cache(); ops[12]++; }
    if (i % 8 == 0) chk("after a step");
  }
  for (int k = 0; k < NCPU; k++) { if (stopped[k]) slab.StartCpu(k); stopped[k] = false; if (inited[k]) slab.Drain(k, [&](int kk, size_t cc, void** q, size_t z, size_t cp) { drained("final drain", kk, cc, q, z, cp); }); }
  chk("at the end"); slab.UncacheCpuSlab(); slab.Destroy([](void* p, size_t, std::align_val_t) { free(p); });
}

// ---------------------------------------------------------------- threads
static constexpr size_t PER = 700; static std::atomic<uint8_t>* tok; static char* area;  // object of class c, number i
static void* obj(size_t c, size_t i) { return area + (c * PER + i) * 64; }
static size_t idx(void* p, size_t c, const char* w) { size_t o = (char*)p - area; if (o >= NC * PER * 64 || o % 64) FATAL("alien", "%s: class %zu gave %p, which is no object", w, c, p); if (o / 64 / PER != c) FATAL("class", "%s: class %zu gave an object of class %zu", w, c, o / 64 / PER); return o / 64; }
enum { OUT, IN };
static void goes_in(void* p, size_t c) { if (tok[idx(p, c, "push")].exchange(IN) != OUT) FATAL("own", "harness error"); }
static void comes_out(void* p, size_t c, const char* w) { size_t i = idx(p, c, w); if (tok[i].exchange(OUT) != IN) FATAL("duplicate", "%s: object %zu of class %zu came out twice", w, i, c); }
static void undo(void* p, size_t c) { tok[idx(p, c, "undo")] = OUT; }
static std::mutex* cpu_mu; static std::mutex store_mu; static std::vector<void*> store[NC]; static std::atomic<bool>* tinit; static std::atomic<long long> tdr, trs, tsh, tgr, tum, trm, tfail, tmig;
static void keep(size_t c, void** b, size_t n, const char* w) { for (size_t i = 0; i < n; i++) comes_out(b[i], c, w); std::lock_guard<std::mutex> g(store_mu); for (size_t i = 0; i < n; i++) store[c].push_back(b[i]); }
static thread_local volatile sig_atomic_t sigs;
static bool tcache(Rng& r, int& k) {
  auto [cpu, was] = slab.CacheCpuSlab(); k = cpu; if (cpu < 0) { tfail++; return false; }
  if (was && !tinit[cpu]) { std::lock_guard<std::mutex> g(cpu_mu[cpu]); if (!tinit[cpu]) { slab.InitCpu(cpu, cap_of); tinit[cpu] = true; slab.UncacheCpuSlab(); return false; } }
  return true;
}
static void worker(int id, std::atomic<bool>& stop) {
  if (!IsFast()) return; Rng r(seed() * 977 + id); std::vector<void*> mine[NC];
  timer_t tm; sigevent se{}; se.sigev_notify = SIGEV_THREAD_ID; se.sigev_signo = SIGUSR1; se._sigev_un._tid = gettid(); timer_create(CLOCK_MONOTONIC, &se, &tm); itimerspec it{{0, 60000 + (long)r.below(90000)}, {0, 50000}}; timer_settime(tm, 0, &it, nullptr);
  int ncpu = sysconf(_SC_NPROCESSORS_ONLN);
  while (!stop) {
    size_t c = 1 + r.below(NC - 1); if (!cap_of(c) && r.chance(3, 4)) continue; void* b[40]; int k; int op = r.below(64);
    if (op < 24) { if (mine[c].empty()) { std::lock_guard<std::mutex> g(store_mu); for (int j = 0; j < 20 && store[c].size(); j++) mine[c].push_back(store[c].back()), store[c].pop_back(); }
      if (mine[c].empty()) continue; void* p = mine[c].back(); goes_in(p, c); if (slab.Push(c, p)) { mine[c].pop_back(); ops[0]++; } else { undo(p, c); tcache(r, k); } }
    else if (op < 46) { void* p = slab.Pop(c); if (p) { comes_out(p, c, "pop"); mine[c].push_back(p); ops[1]++; } else tcache(r, k); }
    else if (op < 52) { size_t n = std::min<size_t>(mine[c].size(), 1 + r.below(32)); if (!n) continue; for (size_t j = 0; j < n; j++) { b[j] = mine[c].back(); mine[c].pop_back(); goes_in(b[j], c); } void* all[40]; memcpy(all, b, n * 8); size_t got = slab.PushBatch(c, b, n); if (got > n) FATAL("batch", "%zu of %zu pushed", got, n); for (size_t j = 0; j + got < n; j++) { undo(b[j], c); mine[c].push_back(b[j]); } ops[2]++; if (!got) tcache(r, k); }
    else if (op < 58) { size_t n = 1 + r.below(32), got = slab.PopBatch(c, b, n); if (got > n) FATAL("batch", "%zu of %zu popped", got, n); for (size_t j = 0; j < got; j++) { comes_out(b[j], c, "popbatch"); mine[c].push_back(b[j]); } ops[3]++; if (!got) tcache(r, k); }
    else if (op < 61) { if (tcache(r, k)) { size_t n = 1 + r.below(16), got = slab.Grow(k, c, n, [&](uint8_t) { return cap_of(c); }); if (got > n) FATAL("grow", "grown by %zu of %zu", got, n); ops[4]++; } }
    else if (op < 62) slab.UncacheCpuSlab();
    else if (op < 63) { if (r.chance(1, 60)) { cpu_set_t s; CPU_ZERO(&s); if (r.chance(1, 3)) for (int q = 0; q < ncpu; q++) CPU_SET(q, &s); else CPU_SET(r.below(ncpu), &s); sched_setaffinity(0, sizeof s, &s); tmig++; } }
    else if (mine[c].size() > 60) { std::lock_guard<std::mutex> g(store_mu); while (mine[c].size() > 20) store[c].push_back(mine[c].back()), mine[c].pop_back(); }
    if (id % 2 && r.chance(1, 400)) sched_yield();
  }
  timer_delete(tm); std::lock_guard<std::mutex> g(store_mu); for (size_t c = 1; c < NC; c++) for (void* p : mine[c]) store[c].push_back(p);
}
static void remote(int id, std::atomic<bool>& stop) {
  if (!IsFast()) return; Rng r(seed() * 773 + id);
  while (!stop) {
    int k = r.below(NCPU); size_t c = 1 + r.below(NC - 1), n = 1 + r.below(20);
    if (tinit[k]) switch (r.below(3)) {
      case 0: { std::lock_guard<std::mutex> g(cpu_mu[k]); if (!tinit[k]) break; slab.Drain(k, [&](int kk, size_t cc, void** b, size_t z, size_t cp) { if (kk != k || z > cp || cp > cap_of(cc)) FATAL("drain", "cpu %d class %zu: %zu objects, capacity %zu, maximum %zu", kk, cc, z, cp, cap_of(cc)); keep(cc, b, z, "drain"); }); for (size_t q = 1; q < NC; q++) ; tdr++; break; }
      case 1: { std::lock_guard<std::mutex> g(cpu_mu[k]); if (!tinit[k]) break; slab.StopCpu(k); for (int j = r.below(4); j >= 0; j--) { size_t l0 = slab.Length(k, c), c0 = slab.Capacity(k, c), pop = 0; size_t got = slab.ShrinkOtherCache(k, c, n, [&](size_t cc, void** b, size_t z) { if (cc != c) FATAL("class", "shrink"); pop += z; keep(cc, b, z, "shrink"); }); evals++;
          if (slab.Length(k, c) != l0 - pop || slab.Capacity(k, c) != c0 - got || got > n) FATAL("stopped", "cpu %d class %zu stopped: length %zu->%zu (%zu popped), capacity %zu->%zu (%zu shrunk)", k, c, l0, slab.Length(k, c), pop, c0, slab.Capacity(k, c), got); if (r.chance(1, 4)) usleep(r.below(100)); if (slab.Length(k, c) != l0 - pop) FATAL("stopped", "cpu %d changed while stopped", k); c = 1 + r.below(NC - 1); } slab.StartCpu(k); tsh++; break; }
      case 2: { std::lock_guard<std::mutex> g(cpu_mu[k]); if (!tinit[k]) break; slab.StopCpu(k); size_t l0 = slab.Length(k, c), c0 = slab.Capacity(k, c), got = slab.GrowOtherCache(k, c, n, [&](uint8_t) { return cap_of(c); }); evals++; if (slab.Length(k, c) != l0 || slab.Capacity(k, c) != c0 + got || c0 + got > cap_of(c)) FATAL("stopped", "cpu %d class %zu grown %zu->%zu", k, c, c0, slab.Capacity(k, c)); slab.StartCpu(k); tgr++; break; }
    }
    if (id == 0 && r.chance(1, 40)) {  // whole-slab operations need every CPU
      for (int q = 0; q < NCPU; q++) cpu_mu[q].lock();
      // Old slabs stay readable, as in the cache proper: a thread may still read them (its store will not commit).
      static std::vector<std::pair<void*, size_t>> old; auto h = [&](int kk, size_t cc, void** b, size_t z, size_t cp) { if (z > cp) FATAL("drain", "%zu objects, capacity %zu", z, cp); keep(cc, b, z, "resize"); };
      auto pop = [&](size_t q) { return tinit[q].load(); };
      switch (r.below(3)) {
        case 0: { int sh = 14 + r.below(4); if (sh == slab.GetShift() || need() > (1u << sh)) break; Shift ns = ToShiftType(sh); auto i = slab.ResizeSlabs(ns, alloc_slabs(GetSlabsAllocSize(ns, NCPU), SlabAlignment(ns)), cap_of, pop, h); old.push_back({i.old_slabs, i.old_slabs_size}); trs++; break; }
        case 1: { PerSizeClassMaxCapacity nc[2]; size_t nn = need(); for (int j = 0; j < 2; j++) { nc[j] = {1 + (c + j) % (NC - 1), (size_t)r.below(50)}; nn += nc[j].max_capacity * 8; } int sh = slab.GetShift(); if (nn > (1u << sh)) break; Shift ns = ToShiftType(sh); auto i = slab.UpdateMaxCapacities(alloc_slabs(GetSlabsAllocSize(ns, NCPU), SlabAlignment(ns)), cap_of, [](int q, uint16_t v) { maxcap[q] = v; }, pop, h, nc, 2); old.push_back({i.old_slabs, i.old_slabs_size}); tum++; break; }
        default: slab.ReleaseSlabMetadataForDrainedCpus(pop, [&](size_t q) { if (q < (size_t)NCPU) tinit[q] = false; }, [&](void* a, size_t z) { madvise(a, z, MADV_DONTNEED); }); trm++;
      }
      for (int q = 0; q < NCPU; q++) cpu_mu[q].unlock();
      if (old.size() > 40) { usleep(100000); for (size_t q = 0; q < 20; q++) { memset(old[q].first, 0x5a, 0); free(old[q].first); } old.erase(old.begin(), old.begin() + 20); }
    }
    if (r.chance(1, 3)) usleep(r.below(150));
  }
}
static void threaded(Rng& r) {
  area = (char*)mmap(nullptr, NC * PER * 64, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); tok = new std::atomic<uint8_t>[NC * PER](); cpu_mu = new std::mutex[NCPU]; tinit = new std::atomic<bool>[NCPU]();
  for (size_t c = 1; c < NC; c++) for (size_t i = 0; i < PER; i++) store[c].push_back(obj(c, i));
  struct sigaction sa{}; sa.sa_handler = [](int) { sigs++; }; sa.sa_flags = SA_RESTART; sigaction(SIGUSR1, &sa, nullptr);
  init_slabs(r, false); double secs = thorough() ? 40 : 4; int rounds = thorough() ? 10 : 2;
  for (int rd = 0; rd < rounds; rd++) {
    std::atomic<bool> stop{false}; std::vector<std::thread> t; int W = 3 + r.below(10); for (int i = 0; i < W; i++) t.emplace_back(worker, rd * 64 + i, std::ref(stop)); for (int i = 0; i < 2; i++) t.emplace_back(remote, i, std::ref(stop));
    usleep((useconds_t)(secs / rounds * 1e6)); stop = true; for (auto& x : t) x.join();
    // quiescent: everything is where its state says
    size_t in[NC] = {}; for (int k = 0; k < NCPU; k++) if (tinit[k]) for (size_t c = 1; c < NC; c++) { size_t l = slab.Length(k, c), p = slab.Capacity(k, c); in[c] += l; evals++; if (l > p || p > cap_of(c)) FATAL("capacity", "cpu %d class %zu: length %zu capacity %zu maximum %zu", k, c, l, p, cap_of(c)); }
    for (size_t c = 1; c < NC; c++) { size_t w = 0; for (size_t i = 0; i < PER; i++) w += tok[c * PER + i] == IN; if (w != in[c] || store[c].size() + in[c] != PER) FATAL("lost", "class %zu: %zu objects were put in and not taken out, the slabs hold %zu; %zu outside of %zu in all", c, w, in[c], store[c].size(), PER); }
    if (rd % 2 || rd + 1 == rounds) { for (int k = 0; k < NCPU; k++) if (tinit[k]) slab.Drain(k, [&](int, size_t cc, void** b, size_t z, size_t) { keep(cc, b, z, "final drain"); }); for (size_t c = 1; c < NC; c++) { std::sort(store[c].begin(), store[c].end()); if (store[c].size() != PER || std::unique(store[c].begin(), store[c].end()) != store[c].end()) FATAL("lost", "class %zu: %zu of %zu objects after a full drain", c, store[c].size(), PER); } }
  }
  metric("drains", tdr); metric("shrinks", tsh); metric("remote_grows", tgr); metric("slab_resizes", trs); metric("max_capacity_updates", tum); metric("metadata_releases", trm); metric("migrations", tmig); metric("stopped_or_fresh", tfail);
  for (int i = 0; i < 5; i++) evals += ops[i]; for (size_t c = 1; c < NC; c++) for (int k = 0; k < NCPU; k++) dist.add(c * 977 + k * 131 + trs % 50);
  say("SAMPLE threads: %lld pushes %lld pops, %lld drains %lld resizes %lld migrations; all %zu objects accounted for", ops[0].load(), ops[1].load(), tdr.load(), trs.load(), tmig.load(), (NC - 1) * PER);
}
int main(int argc, char** argv) {
  if (!IsFast()) return inconclusive("restartable sequences are not available"); NCPU = NumCPUs(); Rng r(seed() * 7919 + argv[1][0]);
  if (argv[1][0] == 'S') { int n = thorough() ? 400 : 40; for (int i = 0; i < n; i++) sequential(r, 2000); for (int i = 0; i < 14; i++) { char b[32]; snprintf(b, 32, "op%d", i); metric(b, ops[i]); } say("SAMPLE %d histories on %d fake CPUs", n, NCPU); for (int i = 0; i < 13; i++) evals += ops[i]; }
  else threaded(r);
  metric("evals", evals); metric("distinct", dist.n); return done();
}
