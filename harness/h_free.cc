// P06: every matching deallocation is accepted and gives the memory back; a bounded program has a bounded heap.
#include <sys/wait.h>
#include "vt_api.h"
#include "vt_maint.h"
#include "tcmalloc/pagemap.h"
#include "tcmalloc/span.h"
#include "tcmalloc/guarded_page_allocator.h"
using namespace vt;
using tcmalloc::MallocExtension;
using namespace tcmalloc::tcmalloc_internal;
static Distinct dist; static long long n_free, n_round, n_drain; static bool percpu, samp, guard;
static size_t prop(const char* n) { auto v = MallocExtension::GetNumericProperty(n); if (!v) FATAL("missing", "property %s does not exist", n); return *v; }
static size_t in_use() { return prop("generic.current_allocated_bytes"); }
static size_t sys_bytes() { PageHeapSpinLockHolder l; return tc_globals.page_allocator().stats().system_bytes; }
static size_t central() { return prop("tcmalloc.central_cache_free"); }
// Empties every cache tier back to the page heap.
static void drain_all() {
  if (percpu) for (int i = 0; i < NumCPUs(); i++) MallocExtension::ReleaseCpuMemory(i);
  else MallocExtension::MarkThreadIdle();
#ifndef TCMALLOC_INTERNAL_SMALL_BUT_SLOW
  for (int i = 0; i < 3; i++) { tc_globals.sharded_transfer_cache().Plunder(); tc_globals.transfer_cache().TryPlunder(); }
#endif
  n_drain++;
}
static size_t cached() { return prop("tcmalloc.cpu_free") + prop("tcmalloc.thread_cache_free") + prop("tcmalloc.transfer_cache_free") + prop("tcmalloc.sharded_transfer_cache_free"); }

// (a) every function x every matching free x sizes x alignments
static const size_t kSizes[] = {0, 1, 7, 8, 9, 15, 16, 17, 24, 31, 32, 33, 48, 63, 64, 65, 100, 127, 128, 129, 192, 255, 256, 257, 400, 512, 513, 1000, 1024, 1025, 1536, 2048, 2049, 4095, 4096, 4097, 6000, 8191, 8192, 8193, 12288, 16384, 20000, 32768, 40000,
  65536, 65537, 100000, 131072, 200000, 262143, 262144, 262145, 300000, 524288, 1000000, 2097152, 3000000};
static void pairs(Rng& r) {
  const int kBig = 3 << 20; (void)kBig;
  size_t base = in_use(); const char* seen[64]; int ns = 0;
  for (int f = 0; f < F_COUNT; f++) for (size_t sz : kSizes) {
    int nal = is_aligned_fn(f) ? (sz <= 16384 ? 12 : 4) : 1;
    for (int a = 0; a < nal; a++) {
      size_t al = a == 11 ? 65536 : a == 10 ? 8192 : a == 9 ? 4096 : (size_t)1 << (a < 9 && nal == 4 ? r.below(17) : a);
      for (int v = 0; v < 12; v++) {
        size_t s = sz; if (v >= 6 && sz > 1) s = sz - r.below(sz / 8 + 1);
        int n = sz <= 4096 && v < 3 ? 20 : 3; Block bs[20];
        for (int i = 0; i < n; i++) { bs[i] = do_alloc(f, s, al, is_hc(f) ? (int)r.below(256) : -1); if (!bs[i].p) FATAL("null", "%s(%zu, %zu)", fn_name(f), s, al); if (s) { *(volatile char*)bs[i].p = 1; ((volatile char*)bs[i].p)[s - 1] = 1; } }
        for (int i = 0; i < n; i++) {
          uint64_t pick = v; if (bs[i].cap > bs[i].req && is_sr(f)) { size_t d = bs[i].cap - bs[i].req; pick |= (uint64_t)(i % 3 == 0 ? 0 : i % 3 == 1 ? d : r.below(d + 1)) << 20; while ((pick & 0xfffff) != (uint64_t)v) pick = v; }
          const char* w = do_free(bs[i], pick); n_free++; dist.add(f * 1000003ull + (size_t)w % 100003 * 64 + lg2(al) + sz * 77777777ull);
          bool k = false; for (int q = 0; q < ns; q++) if (seen[q] == w) k = true; if (!k && ns < 64) seen[ns++] = w;
        }
      }
    }
    if (size_t u = in_use(); u != base) FATAL("leak", "after freeing every %s(%zu) block: bytes in use %zu, was %zu", fn_name(f), sz, u, base);
  }
  metric("free_functions", ns);
  // null is accepted by all
  std::nothrow_t nt; std::align_val_t al = (std::align_val_t)64;
  free(nullptr); free_sized(nullptr, 8); free_aligned_sized(nullptr, 64, 128); sdallocx(nullptr, 8, 0); sdallocx(nullptr, 64, 6); cfree(nullptr);
  ::operator delete(nullptr); ::operator delete(nullptr, (size_t)8); ::operator delete(nullptr, nt); ::operator delete[](nullptr); ::operator delete[](nullptr, (size_t)8); ::operator delete[](nullptr, nt);
  ::operator delete(nullptr, al); ::operator delete(nullptr, (size_t)8, al); ::operator delete(nullptr, al, nt); ::operator delete[](nullptr, al); ::operator delete[](nullptr, (size_t)8, al); ::operator delete[](nullptr, al, nt);
  if (in_use() != base) FATAL("leak", "freeing null changed bytes in use");
  n_free += 18;
}

// (b) repeated workloads
static constexpr int kB = 3000;
struct Sh { Block b[kB]; int n; } static * sh;
static int scenario; static uint64_t round_seed; static size_t max_size;
static void alloc_all(Rng& r, int n) {
  for (int i = 0; i < n; i++) { int f = r.below(F_COUNT); size_t z = rand_size(r, max_size); if (z > 300000 && i % 8) z %= 3000; sh->b[i] = do_alloc(f, z, rand_align(r, 12), is_hc(f) ? (int)r.below(256) : -1); if (!sh->b[i].p) FATAL("null", "%s(%zu)", fn_name(f), z); }
  sh->n = n;
}
static void free_all(Rng& r) {
  for (int i = sh->n - 1; i > 0; i--) { int j = r.below(i + 1); Block t = sh->b[i]; sh->b[i] = sh->b[j]; sh->b[j] = t; }
  for (int i = 0; i < sh->n; i++) { do_free(sh->b[i], r.next()); n_free++; }
  sh->n = 0;
}
static void* th_alloc(void*) { Rng r(round_seed); alloc_all(r, kB); return nullptr; }
static void* th_free(void*) { Rng r(round_seed * 3); free_all(r); return nullptr; }
static void* th_both(void*) { Rng r(round_seed); alloc_all(r, kB); free_all(r); return nullptr; }
static void* th_keep(void*) { Rng r(round_seed); alloc_all(r, kB / 2); Block k[64]; for (int i = 0; i < 64; i++) k[i] = do_alloc(F_malloc, 64 + i * 100, 0, -1); for (auto& x : k) free(x.p); return nullptr; }
static void run_th(void* (*f)(void*)) { pthread_t t; if (pthread_create(&t, nullptr, f, nullptr)) _exit(3); pthread_join(t, nullptr); }
static void pin(int c) { cpu_set_t s; CPU_ZERO(&s); if (c < 0) for (int i = 0; i < 1024; i++) CPU_SET(i, &s); else CPU_SET(c, &s); sched_setaffinity(0, sizeof s, &s); }
static const char* kScen[] = {"one thread", "producer and consumer threads", "short-lived threads", "CPU migration", "exit with cached blocks", "maintenance between", "large blocks", "resize chains"};
static void one_round(Rng& r, int k) {
  switch (scenario) {
    case 0: { Rng q(round_seed); alloc_all(q, kB); free_all(q); break; }
    case 1: run_th(th_alloc); run_th(th_free); break;
    case 2: run_th(th_both); break;
    case 3: { Rng q(round_seed); pin(k % 8); alloc_all(q, kB); pin((k + 3) % 8); free_all(q); pin(-1); break; }
    case 4: run_th(th_keep); { Rng q(9); free_all(q); } break;
    case 5: { Rng q(round_seed); alloc_all(q, kB); background_action(r); free_all(q); background_action(r); if (k % 3 == 0) MallocExtension::ReleaseMemoryToSystem(r.below(16 << 20)); break; }
    case 6: { Rng q(round_seed); Block b[40]; for (auto& x : b) { int f = q.below(F_COUNT); x = do_alloc(f, (256 << 10) + q.below(6 << 20), rand_align(q, 21), is_hc(f) ? (int)q.below(256) : -1); if (!x.p) FATAL("null", "%s", fn_name(f)); } for (int i = 39; i > 0; i--) { int j = q.below(i + 1); Block t = b[i]; b[i] = b[j]; b[j] = t; } for (auto& x : b) { do_free(x, q.next()); n_free++; } break; }
    case 7: { Rng q(round_seed); for (int i = 0; i < 60; i++) { void* p = nullptr; for (int s = 0; s < 20; s++) { p = realloc(p, 1 + rand_size(q, 1 << 20)); if (!p) FATAL("null", "realloc"); } free(p); n_free++; } break; }
  }
}
static void rounds(Rng& r) {
  int R = thorough() ? 400 : samp || guard ? 18 : 60;
  for (scenario = 0; scenario < 8; scenario++) {
    max_size = 2 << 20; round_seed = seed() * 131 + scenario;
    drain_all(); size_t base = in_use(), base_central = central();
    size_t sys_warm = 0, central_max = 0;
    for (int k = 0; k < R; k++) {
      one_round(r, k); n_round++;
      size_t u = in_use(); if ((long long)(u - base) > 32768 || (long long)(base - u) > 32768) FATAL("leak", "'%s' round %d: everything freed, bytes in use %zu, was %zu", kScen[scenario], k, u, base);
      if (k == R / 3) sys_warm = sys_bytes();
      if (k % 8 == 7 || k == R - 1) {
        drain_all(); size_t c = cached();
        // all blocks were freed: whole spans must have gone back, apart from the few objects the runtime keeps alive
        if (percpu && prop("tcmalloc.cpu_free") > 8192) FATAL("cached", "'%s' round %d: %zu bytes still in per-CPU caches after releasing every CPU", kScen[scenario], k, prop("tcmalloc.cpu_free"));
        if (!percpu && prop("tcmalloc.thread_cache_free") > 65536) FATAL("cached", "'%s' round %d: %zu bytes still in caches of threads that are gone or idle", kScen[scenario], k, prop("tcmalloc.thread_cache_free"));
#ifndef TCMALLOC_INTERNAL_SMALL_BUT_SLOW
        if (c > 131072) FATAL("cached", "'%s' round %d: %zu bytes still in caches after draining", kScen[scenario], k, c);
        size_t ce = central(); if (ce > central_max) central_max = ce;
        if (ce > base_central + 12 * kPageSize + 65536) FATAL("spans", "'%s' round %d: every block freed and every cache drained, but central free lists hold %zu bytes (started at %zu)", kScen[scenario], k, ce, base_central);
#endif
      }
    }
    size_t s = sys_bytes();
    if (s > sys_warm + sys_warm / 8 + (8 << 20)) FATAL("growth", "'%s': memory from the system grew from %zu after %d rounds to %zu after %d identical rounds", kScen[scenario], sys_warm, R / 3, s, R);
    // and the same number of bytes is free again
    if (scenario == 7 || scenario == 0) { drain_all(); size_t u = in_use(); if ((long long)(u - base) > 32768) FATAL("leak", "end of '%s'", kScen[scenario]); }
    say("SAMPLE %s: %d rounds, bytes in use %zu -> %zu, system %zu -> %zu, central after drain <= %zu", kScen[scenario], R, base, in_use(), sys_warm, s, central_max);
  }
}
// Threads that exit or go idle give their cache back; so do idle CPUs.
static void* th_fillcache(void* a) { Rng r((uintptr_t)a); void* p[2000]; size_t z = 16 + r.below(3000); for (auto& x : p) x = malloc(z); for (auto& x : p) free(x); if ((uintptr_t)a & 1) { MallocExtension::MarkThreadIdle(); } return nullptr; }
static void idle_owners(Rng& r) {
  if (!percpu) {
    size_t n0 = prop("tcmalloc.thread_cache_count"), b0 = prop("tcmalloc.thread_cache_free");
    for (int k = 0; k < 200; k++) { pthread_t t; if (pthread_create(&t, nullptr, th_fillcache, (void*)(uintptr_t)(r.below(1 << 20) + 2))) return; pthread_join(t, nullptr);
      size_t n = prop("tcmalloc.thread_cache_count"), b = prop("tcmalloc.thread_cache_free"); n_round++;
      if (n != n0) FATAL("thread-exit", "%zu thread caches after the thread exited, %zu before it started", n, n0);
      if (b > b0 + 65536) FATAL("thread-exit", "thread caches hold %zu bytes after the thread exited, %zu before", b, b0); }
    return;
  }
  for (int k = 0; k < (thorough() ? 60 : 12); k++) {
    int c = k % 8; pin(c); void* p[600]; size_t z = 16 + r.below(2000); for (auto& x : p) x = malloc(z); for (auto& x : p) free(x);
    pin((c + 1) % 8); size_t had = tc_globals.cpu_cache().UsedBytes(c), left = 0;
    if (k % 3 == 0) { size_t got = MallocExtension::ReleaseCpuMemory(c); left = tc_globals.cpu_cache().UsedBytes(c); if (got != had) FATAL("release-cpu", "ReleaseCpuMemory(%d) says it freed %zu bytes; the CPU held %zu", c, got, had); if (left) FATAL("release-cpu", "CPU %d still holds %zu bytes after ReleaseCpuMemory", c, left); }
    else { int tries = 0; for (; tries < 12; tries++) { tc_globals.cpu_cache().TryDrainingCaches(); left = tc_globals.cpu_cache().UsedBytes(c); if (!left) break; } if (left) FATAL("idle-cpu", "CPU %d, idle, still holds %zu of %zu bytes after %d reclaim passes", c, left, had, tries); }
    n_round++;
  }
  pin(-1);
}
int main(int argc, char** argv) {
  percpu = strchr(argv[1], 'C'); samp = strchr(argv[1], 'P'); guard = strchr(argv[1], 'G');
  free(malloc(8)); sh = (Sh*)mmap(nullptr, sizeof(Sh), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  if (percpu && !MallocExtension::PerCpuCachesActive()) return inconclusive("per-CPU caches not active");
  MallocExtension::SetProfileSamplingInterval(samp ? 1 : guard ? 64 : 0);
  if (guard) { MallocExtension::SetGuardedSamplingInterval(64); MallocExtension::ActivateGuardedSampling(); } else MallocExtension::SetGuardedSamplingInterval(-1);
  for (int i = 0; i < 2000; i++) free(malloc(4096)); for (int i = 0; i < 40; i++) free(malloc(1 << 20));
  Rng r(seed() * 71 + argv[1][0]);
  pairs(r); rounds(r); idle_owners(r);
  metric("evals", n_free + n_round); metric("frees", n_free); metric("rounds", n_round); metric("drains", n_drain); metric("distinct", dist.n); return done();
}
