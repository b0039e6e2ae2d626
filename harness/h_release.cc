// P09: what is given back to the operating system, when, and what is reported about it.
#include <sys/prctl.h>
#include <thread>
#include <stddef.h>
namespace vt { namespace sys { enum Op : int; } }
static void on_done(vt::sys::Op, void*, size_t, int, long);
#define VT_SYS_WATCH on_done
#include "vt_sys.h"
#include "vt_live.h"
#include "vt_api.h"
#include "vt_maint.h"
#include "tcmalloc/internal_malloc_extension.h"
#include "tcmalloc/internal/memory_tag.h"
#include "tcmalloc/parameters.h"
using namespace vt;
using tcmalloc::MallocExtension;
using namespace tcmalloc::tcmalloc_internal;
static constexpr size_t MB = 1 << 20;
static std::atomic<long long> rel_calls, rel_bytes, evals, failed_rel; static Distinct dist;
static std::atomic<int> fail_mode{0};
struct Region { uintptr_t a; size_t n; }; static Region regs[4096]; static std::atomic<int> nregs;
static bool in_heap(void* p) { for (int i = 0; i < nregs && i < 4096; i++) if ((uintptr_t)p - regs[i].a < regs[i].n) return true; return false; }  // (one-time probes release a page of their own)
static bool is_release(int advice) { return advice == MADV_REMOVE || advice == MADV_DONTNEED || advice == 24 || advice == MADV_FREE; }
static int on_sys(sys::Op op, void* a, size_t n, int arg, int) {
  if (op == sys::kMunmap) { if (void* q = live::find(a, n)) FATAL("unmap-live", "munmap(%p, %zu) covers the live block page %p", a, n, q); return 0; }
  if (op != sys::kMadvise || !is_release(arg)) return 0;
  evals++; if (void* q = live::find(a, n)) FATAL("release-live", "madvise(%p, %zu, %d) gives back page %p, which holds a live block", a, n, arg, q);
  if (((uintptr_t)a | n) & 4095) FATAL("align", "madvise(%p, %zu, %d): not page aligned", a, n, arg);
  static std::atomic<uint64_t> rs{1}; int f = fail_mode; if (f == 1 || (f == 2 && mix(rs += 7) % 3)) { failed_rel++; return ENOMEM; }
  return 0;
}
static void on_done(sys::Op op, void* a, size_t n, int arg, long r) {
  if (op == sys::kMmap && r > 0 && n >= (1u << 30) && GetMemoryTag(a) != MemoryTag::kMetadata) { int i = nregs++; if (i < 4096) regs[i] = {(uintptr_t)a, n}; }
  if (op == sys::kMadvise && is_release(arg) && r == 0 && in_heap(a)) { rel_calls++; rel_bytes += n; if (dist.bits) dist.add((uintptr_t)a * 31 + n); }
}
static size_t prop(const char* n) { auto v = MallocExtension::GetNumericProperty(n); if (!v) FATAL("missing", "property %s does not exist", n); return *v; }
struct St { size_t sys, free, unmapped, backed, released; };
static St st() { PageHeapSpinLockHolder l; auto s = tc_globals.page_allocator().stats(); return {s.system_bytes, s.free_bytes, s.unmapped_bytes, s.system_bytes - s.unmapped_bytes, 0}; }
// Bytes of heap address space that the kernel holds resident.
static size_t resident() {
  static unsigned char vec[1 << 18]; size_t r = 0;
  for (int i = 0; i < nregs && i < 4096; i++) for (uintptr_t a = regs[i].a; a < regs[i].a + regs[i].n; a += 1u << 30) { size_t n = regs[i].a + regs[i].n - a; if (n > (1u << 30)) n = 1u << 30; if (mincore((void*)a, n, vec)) continue; for (size_t k = 0; k < n / 4096; k++) r += (vec[k] & 1) * 4096ul; }
  return r;
}
static size_t text_free() {
  static char t[1 << 21]; int n = TCMalloc_Internal_GetStats(t, sizeof t); if (n >= (int)sizeof t) n = sizeof t - 1; t[n] = 0; double mib = 0; int found = 0;
  for (char* q = t; (q = strstr(q, "HugePageAware: ")); q++) { double u, f; if (sscanf(q, "HugePageAware: filler %lf MiB used, %lf MiB free", &u, &f) == 2 || sscanf(q, "HugePageAware: cache %lf MiB used, %lf MiB free", &u, &f) == 2) mib += f, found++; }
  if (found < 2) { inconclusive("page-heap sections not found in the statistics text"); _exit(3); }
  return (size_t)(mib * MB);
}
static size_t text_cache_free() {
  static char t[1 << 21]; int n = TCMalloc_Internal_GetStats(t, sizeof t); if (n >= (int)sizeof t) n = sizeof t - 1; t[n] = 0; double mib = 0;
  for (char* q = t; (q = strstr(q, "HugePageAware: cache")); q++) { double u, f; if (sscanf(q, "HugePageAware: cache %lf MiB used, %lf MiB free", &u, &f) == 2) mib += f; }
  return (size_t)(mib * MB);
}
// What huge-page regions and the huge-page cache hold free and backed: given back by whole huge pages on their own rules.
static size_t text_other_free() {
  static char t[1 << 21]; int n = TCMalloc_Internal_GetStats(t, sizeof t); if (n >= (int)sizeof t) n = sizeof t - 1; t[n] = 0; double mib = 0;
  for (char* q = t; (q = strstr(q, "HugePageAware: ")); q++) { double u, f; if (sscanf(q, "HugePageAware: region %lf MiB used, %lf MiB free", &u, &f) == 2 || sscanf(q, "HugePageAware: cache %lf MiB used, %lf MiB free", &u, &f) == 2) mib += f; }
  return (size_t)(mib * MB);
}
static bool resid_ok = true, breaks = true;
// Everything reported as unmapped is really not resident; nothing else is claimed.
static void judge_kernel(const char* w) {
  evals++; if (!resid_ok) return; St a = st(); size_t r = resident(); St b = st(); size_t lim = a.backed > b.backed ? a.backed : b.backed;
  if (r > lim + 4096) FATAL("resident", "%s: kernel holds %zu resident heap bytes, allocator says %zu backed (system %zu, unmapped %zu)", w, r, lim, b.sys, b.unmapped);
}
struct Rec { Block b; };
static Rec tab[6000];
static void put(Rec& x, Rng& r, size_t z) {
  int f = r.below(F_COUNT); x.b = do_alloc(f, z, rand_align(r, 13), is_hc(f) ? (int)r.below(256) : -1); if (!x.b.p) FATAL("null", "%s(%zu) failed", fn_name(f), z);
  x.b.id = r.next(); live::add(x.b.p, z, 1); fill(x.b.p, z, x.b.id);
  for (size_t i = 0; i < z; i += 4096) { volatile char* c = (volatile char*)x.b.p + i; *c = *c; } dist.add(z / 512 + f * 100003);
}
static void drop(Rec& x, Rng& r) { long o = check(x.b.p, x.b.req, x.b.id); if (o >= 0) FATAL("content", "block %p of %zu bytes changed at %ld (a release hit it?)", x.b.p, x.b.req, o); live::add(x.b.p, x.b.req, -1); do_free(x.b, r.next()); x.b.p = nullptr; }
static size_t pick(Rng& r, int style) { switch (style) { case 0: return (260 << 10) + r.below(600 << 10); case 1: return r.below(2) ? r.below(4000) : r.below(300000); case 2: return 8192 * (1 + r.below(200)) + r.below(100); default: return r.chance(1, 4) ? r.below(12 * MB) : (264 << 10) + r.below(MB); } }
static void flush() { for (int c = 0; c < (int)sysconf(_SC_NPROCESSORS_CONF); c++) MallocExtension::ReleaseCpuMemory(c); MallocExtension::MarkThreadIdle(); }
static void sequential(Rng& r) {
  int rounds = thorough() ? 60 : 12;
  for (int k = 0; k < rounds; k++) {
    int style = r.below(4); size_t target = (60 + r.below(120)) * MB, lv = 0; for (auto& x : tab) if (x.b.p) lv += x.b.req;
    for (int t = 0; t < 6000 && lv < target; t++) { Rec& x = tab[r.below(6000)]; if (x.b.p) continue; put(x, r, pick(r, style)); lv += x.b.req; }
    int den = 1 + r.below(5); for (auto& x : tab) if (x.b.p && r.below(6) < (uint64_t)den) drop(x, r);
    flush(); judge_kernel("before release");
    // finite request, after an unlimited one so that nothing is carried over
    if (r.chance(1, 2)) { MallocExtension::ReleaseMemoryToSystem(~0ull); for (auto& x : tab) if (x.b.p && r.chance(1, 3)) drop(x, r); flush(); }
    else { for (int g = 0; g < 3; g++) MallocExtension::ReleaseMemoryToSystem(0); }
    MallocExtension::ReleaseMemoryToSystem(~0ull); long long base = rel_bytes; for (auto& x : tab) if (x.b.p && r.chance(1, 3)) drop(x, r); flush();
    St a = st(); size_t can = breaks ? text_free() : text_cache_free(), want = r.chance(1, 3) ? ~0ull : r.below(2) ? r.below(40 * MB) : r.below(3) * 65536 + r.below(3), rep0 = prop("tcmalloc.num_released_total_bytes"), rms0 = prop("tcmalloc.num_released_release_memory_to_system_bytes"), res0 = resid_ok ? resident() : 0; long long m0 = rel_bytes;
    int fm = r.chance(1, 5) ? 1 : r.chance(1, 6) ? 2 : 0; fail_mode = fm;
    MallocExtension::ReleaseMemoryToSystem(want); St b = st(); size_t got = rel_bytes - base, mine = rel_bytes - m0; fail_mode = 0; evals++;
    size_t exp = want < can ? want : can; if (exp > MB / 2) exp -= MB / 2; else exp = 0;
    if (!fm && got < exp) FATAL("too-little", "request to release %zu with %zu releasable: only %zu bytes given back (%zu since the last full release)", want, can, mine, got);
    if (fm == 1 && b.unmapped > a.unmapped) FATAL("false-release", "every release failed, yet unmapped grew from %zu to %zu", a.unmapped, b.unmapped);
    if (b.unmapped - a.unmapped != mine) FATAL("unmapped", "%zu bytes were given back, unmapped went from %zu to %zu", mine, a.unmapped, b.unmapped);
    if (b.sys != a.sys || a.free + a.unmapped != b.free + b.unmapped) FATAL("conserve", "release changed the totals: system %zu->%zu, free+unmapped %zu->%zu", a.sys, b.sys, a.free + a.unmapped, b.free + b.unmapped);
    size_t rep = prop("tcmalloc.num_released_total_bytes"), rms = prop("tcmalloc.num_released_release_memory_to_system_bytes");
    if (rep > (size_t)rel_bytes) FATAL("report", "reports %zu bytes released in total, %lld really were", rep, rel_bytes.load());
    if (rep - rep0 < mine || rms - rms0 != rep - rep0) FATAL("report", "%zu bytes given back on request, reported %zu in total and %zu for this reason", mine, rep - rep0, rms - rms0);
    if (rep - rep0 > got) FATAL("report", "%zu bytes given back since the last full release, reported %zu", got, rep - rep0);
    if (resid_ok) { size_t res1 = resident(); if (res1 > res0) FATAL("resident", "residency grew from %zu to %zu during a release", res0, res1); }
    judge_kernel("after release");
    if (!fm && want == ~0ull && breaks) { size_t left = text_free(); if (left > MB) FATAL("too-little", "after releasing everything %zu bytes of %zu are still free and backed", left, can); }
    say("SAMPLE round %d style %d: wanted %zu of %zu releasable, gave back %zu in all, resident %zu", k, style, want, can, mine, resid_ok ? resident() : 0);
    if (r.chance(1, 3)) for (auto& x : tab) if (x.b.p) drop(x, r);
  }
  for (auto& x : tab) if (x.b.p) drop(x, r);
}
// Leaves much free memory in hugepages that are partly in use, none in the hugepage cache, nothing carried over.
static Rec frag[700]; static long long frag_base;
static void fragment(Rng& r) {
  TCMalloc_Internal_SetHPAASubrelease(true); MallocExtension::ReleaseMemoryToSystem(~0ull); frag_base = rel_bytes;
  for (auto& x : frag) if (!x.b.p) put(x, r, (260 << 10) + r.below(500 << 10));
  for (int i = 0; i < 700; i++) if (i % 4) drop(frag[i], r);
  flush(); TCMalloc_Internal_SetReleasePartialAllocPagesEnabled(false); TCMalloc_Internal_SetHPAASubrelease(false); MallocExtension::ReleaseMemoryToSystem(~0ull); TCMalloc_Internal_SetHPAASubrelease(true);
}
// Many small requests: in all no more is given back than was asked for (and one hugepage), and no less.
static void constant_rate(Rng& r) {
  for (int rep = 0; rep < (thorough() ? 8 : 3); rep++) {
    fragment(r); long long m0 = rel_bytes; size_t step = 4096 + r.below(200 << 10), asked = 0, can = text_free(), other = text_other_free();
    for (int i = 0; i < 300 && asked < can / 2; i++) {
      MallocExtension::ReleaseMemoryToSystem(step); asked += step; evals++; size_t got = rel_bytes - m0;
      if (got > asked + 5 * MB + other) FATAL("rate", "%d requests of %zu bytes (%zu in all) gave back %zu", i + 1, step, asked, got);
      if (rel_bytes - frag_base + 65536 < (long long)asked) FATAL("too-little", "%d requests of %zu bytes (%zu in all, %zu releasable) gave back %zu", i + 1, step, asked, can, got);
    }
    say("SAMPLE constant rate: asked %zu by steps of %zu of %zu, gave back %lld", asked, step, can, rel_bytes - m0);
  }
  for (auto& x : frag) if (x.b.p) drop(x, r);
}
static void background() {
  // Objects left in the caches would, once a plunder returns them, give up whole spans of partly released huge pages.
  { Rng q(1); flush(); free(malloc(8)); subtle::percpu::IsFast(); for (int i = 0; i < 6; i++) for (int k = 6; k < 9; k++) background_action(q, k); }
  Rng r(seed() + 3); MallocExtension::SetBackgroundProcessSleepInterval(absl::Milliseconds(20)); size_t rate = 8 * MB; MallocExtension::SetBackgroundReleaseRate((MallocExtension::BytesPerSecond)rate); MallocExtension::SetBackgroundProcessActionsEnabled(true);
  fragment(r); size_t other = text_other_free(); uint64_t t0 = now_ns(); long long m0 = rel_bytes; size_t p0 = prop("tcmalloc.num_released_process_background_actions_bytes");
  std::thread([] { MallocExtension::ProcessBackgroundActions(); }).detach();
  double secs = thorough() ? 12 : 2.5; size_t got = 0; double el = 0;
  do { usleep(50000); got = rel_bytes - m0; el = (now_ns() - t0) * 1e-9; evals++; if (got > rate * (el + 0.2) + 12 * MB + other) FATAL("rate", "background thread gave back %zu bytes in %.2f s at a rate of %zu bytes/s (reported: %zu; soft limit %zu)", got, el, rate, prop("tcmalloc.num_released_process_background_actions_bytes") - p0, prop("tcmalloc.num_released_soft_limit_exceeded_bytes")); } while (el < secs || (!got && el < 60));
  if (!got) FATAL("rate", "background release at %zu bytes/s gave back nothing in %.1f s", rate, el);
  size_t p1 = prop("tcmalloc.num_released_process_background_actions_bytes"); if (p1 <= p0) FATAL("report", "background releases are not reported for their reason");
  MallocExtension::SetBackgroundReleaseRate((MallocExtension::BytesPerSecond)0); usleep(300000); for (int i = 0; i < 8; i++) { usleep(40000); evals++; } long long z0 = rel_bytes; usleep(300000); if (rel_bytes - z0 > (long long)(2 * MB)) FATAL("rate", "%lld bytes given back at a background rate of 0", rel_bytes - z0);
  say("SAMPLE background: %zu bytes in %.2f s at %zu bytes/s", got, el, rate); evals++;
  MallocExtension::SetBackgroundReleaseRate((MallocExtension::BytesPerSecond)(400 * MB)); for (auto& x : frag) if (x.b.p) drop(x, r);
}
static void threads(uint64_t sd) {
  static std::atomic<bool> stop; stop = false; std::thread* t = new std::thread[8]; static Rec part[8][250]; size_t secs_ns = (thorough() ? 20ull : 2ull) * 1000000000ull;
  for (int k = 0; k < 6; k++) t[k] = std::thread([k, sd] { Rng r(sd * 31 + k); while (!stop) { Rec& x = part[k][r.below(250)]; if (x.b.p) drop(x, r); else { size_t z = r.chance(1, 3) ? rand_size(r, 2 << 20) : pick(r, 1 + r.below(2)) % (600 << 10); put(x, r, z); } } for (auto& x : part[k]) if (x.b.p) drop(x, r); });
  t[6] = std::thread([sd] { Rng r(sd + 77); while (!stop) { switch (r.below(6)) { case 0: MallocExtension::ReleaseMemoryToSystem(~0ull); break; case 1: MallocExtension::ReleaseMemoryToSystem(r.below(20 * MB)); break; case 2: MallocExtension::ReleaseCpuMemory(r.below(sysconf(_SC_NPROCESSORS_CONF))); break; case 3: fail_mode = r.below(4) == 0 ? 2 : 0; break; case 4: MallocExtension::SetMemoryLimit((30 + r.below(100)) * MB, MallocExtension::LimitKind::kSoft); break; default: usleep(r.below(2000)); } evals++; } fail_mode = 0; });
  t[7] = std::thread([sd] { Rng r(sd + 99); free(malloc(8)); subtle::percpu::IsFast(); while (!stop) { background_action(r); evals++; usleep(r.below(1500)); } });
  uint64_t t0 = now_ns(); while (now_ns() - t0 < secs_ns) usleep(20000); stop = true; for (int k = 0; k < 8; k++) t[k].join(); delete[] t;
  MallocExtension::SetMemoryLimit(0, MallocExtension::LimitKind::kSoft); judge_kernel("after threads");
}
int main(int argc, char** argv) {
  const char* m = argv[1]; if (!live::tab()) return inconclusive("cannot reserve the shadow table");
  prctl(PR_SET_THP_DISABLE, 1, 0, 0, 0);
  free(malloc(8)); if (strchr(m, 'C') && !MallocExtension::PerCpuCachesActive()) return inconclusive("per-CPU caches not active");
  sys::filter = on_sys; if (!nregs) return inconclusive("no heap region seen");
  if (strchr(m, 'F')) { MallocExtension::SetProfileSamplingInterval(4096); }
  TCMalloc_Internal_SetHPAASubrelease(!strchr(m, 'N')); breaks = !strchr(m, 'N');
  Parameters::set_filler_skip_subrelease_short_interval(absl::ZeroDuration()); Parameters::set_filler_skip_subrelease_long_interval(absl::ZeroDuration());
  if (strchr(m, 'P')) MallocExtension::SetProfileSamplingInterval(1 << 18);
  MallocExtension::SetGuardedSamplingInterval(-1);
  Rng r(seed() * 1000003 + m[0] * 7 + m[1]);
  sequential(r); if (breaks) constant_rate(r); threads(seed() * 13 + m[0]); if (strchr(m, 'B')) background();
  metric("evals", evals); metric("distinct", dist.n); metric("release_calls", rel_calls); metric("release_bytes", rel_bytes); metric("refused_releases", failed_rel); metric("heap_regions", nregs);
  return done();
}
