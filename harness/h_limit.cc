// P08: memory limits, each scenario in a fresh child process.
#include <sys/wait.h>
#include <thread>
#include "vt_api.h"
#include "vt_maint.h"
#include "tcmalloc/internal_malloc_extension.h"
using namespace vt;
using tcmalloc::MallocExtension;
using namespace tcmalloc::tcmalloc_internal;
using LK = MallocExtension::LimitKind;
struct Shared { volatile size_t live, req, phase; volatile long long evals, hits, distinct, maxfree, maxfree2; char note[200]; };
static Shared* S; static Distinct dist;
static constexpr size_t MB = 1 << 20;
struct Now { size_t backed, free, unmapped, system; };
static Now now() { PageHeapSpinLockHolder l; auto s = tc_globals.page_allocator().stats(); return {s.system_bytes - s.unmapped_bytes + tc_globals.metadata_bytes(), s.free_bytes, s.unmapped_bytes, s.system_bytes}; }
static size_t rss() { FILE* f = fopen("/proc/self/statm", "r"); size_t a = 0, b = 0; if (!f || fscanf(f, "%zu %zu", &a, &b) != 2) return 0; fclose(f); return b * 4096; }
static size_t prop(const char* n) { auto v = MallocExtension::GetNumericProperty(n); if (!v) FATAL("missing", "property %s does not exist", n); return *v; }
static void touch(void* p, size_t n) { for (size_t i = 0; i < n; i += 4096) ((volatile char*)p)[i] = 1; if (n) ((volatile char*)p)[n - 1] = 1; }
// The soft-limit rule, judged right after an allocation that came from the page heap or after a limit change.
// Memory a shrink can reclaim: free backed pages of the filler and cache and whole backed-and-free hugepages of regions.
// (Partly used hugepages of a region are never broken up, so their free pages do not count.)
static size_t reclaimable() {
  static char t[1 << 21]; int n = TCMalloc_Internal_GetStats(t, sizeof t); if (n >= (int)sizeof t) n = sizeof t - 1; t[n] = 0;
  double mib = 0; int found = 0;
  for (char* q = t; (q = strstr(q, "HugePageAware: filler ")); q++) { double u, f; if (sscanf(q, "HugePageAware: filler %lf MiB used, %lf MiB free", &u, &f) == 2) mib += f, found++; }
  for (char* q = t; (q = strstr(q, "HugePageAware: cache ")); q++) { double u, f; if (sscanf(q, "HugePageAware: cache %lf MiB used, %lf MiB free", &u, &f) == 2) mib += f, found++; }
  for (char* q = t; (q = strstr(q, "HugeRegionSet: ")); q++) { size_t bk, f; if (sscanf(q, "HugeRegionSet: %zu hugepages backed, %zu backed and free", &bk, &f) == 2) mib += 2.0 * f, found++; }
  if (found < 3) { inconclusive("page-heap sections not found in the statistics text"); _exit(3); }
  return (size_t)(mib * MB);
}
// Reclaiming proceeds by whole spans and settles up with memory released eagerly since the last time, so a little may
// stay backed on both sides: neither the excess nor the free backed memory is exact to the byte. The first shrink is
// given kLoose, a repeated one kTight.
// Metadata grown for the new span itself is only counted at the next shrink.
static constexpr size_t kMeta = MB;
static constexpr size_t kLoose = 6 * MB, kTight = 2 * MB;
static void judge_soft(size_t L, const char* what) {
  for (int round = 0; round < 2; round++) {
    Now n = now(); S->evals++; if (n.backed <= L) return;
    S->hits++; size_t both = n.backed - L < n.free ? n.backed - L : n.free, slack = round ? kTight : kLoose;
    if (both > (round ? kTight / 2 : slack / 2)) { size_t rec = reclaimable(); if (rec < both) both = rec; }
    if ((long long)both > (round ? S->maxfree2 : S->maxfree)) (round ? S->maxfree2 : S->maxfree) = both;
    if (both > slack) FATAL("soft", "%s%s: backed memory %zu exceeds the soft limit %zu while %zu bytes (of %zu free) could have been released", what, round ? " (limit set again)" : "", n.backed, L, both, n.free);
    if (!round) MallocExtension::SetMemoryLimit(L, LK::kSoft);
  }
}
struct Rec { Block b; };
static Rec tab[4000];
static size_t pick_size(Rng& r, int style) {
  switch (style) { case 0: return (256 << 10) + 8192 + r.below(3 * MB); case 1: return r.below(4) ? 8192 * (1 + r.below(40)) + (256 << 10) : r.below(9 * MB) + (300 << 10); case 2: return r.below(3) ? r.below(200000) : (512 << 10) + r.below(2 * MB); default: return 3 * MB + r.below(40 * MB); }
}
static void soft_child(uint64_t sd, int style) {
  Rng r(sd); size_t L = (48 + r.below(160)) * MB; MallocExtension::SetMemoryLimit(L, LK::kSoft); judge_soft(L, "SetMemoryLimit");
  size_t live = 0; int n = style == 3 ? 60 : 4000; long ops = (thorough() ? 30000 : 3000); bool grow = true; size_t hi = L + L / 3;
  for (long i = 0; i < ops; i++) {
    int j = r.below(n); Rec& x = tab[j];
    if (live > hi) grow = false; if (live < L / 3) grow = true;
    if (x.b.p && (!grow || r.chance(1, 3))) { long o = check(x.b.p, x.b.req < 256 ? x.b.req : 256, x.b.id); if (o >= 0) FATAL("content", "block changed under limit pressure"); live -= x.b.req; do_free(x.b, r.next()); x.b.p = nullptr; }
    else if (!x.b.p && live < hi + hi / 4 && (grow || r.chance(1, 6))) {
      size_t z = pick_size(r, style); int f = r.below(F_COUNT); x.b = do_alloc(f, z, rand_align(r, 13), is_hc(f) ? (int)r.below(256) : -1);
      if (!x.b.p) FATAL("null", "%s(%zu) failed under a soft limit", fn_name(f), z);
      x.b.id = i + 7; touch(x.b.p, z); fill(x.b.p, z < 256 ? z : 256, x.b.id); live += z;
      if (z > (256 << 10) + 8192) { judge_soft(L, fn_name(f)); dist.add(style * 1000003 + now().backed / MB); }
    }
    if (i % 300 == 299) { L = (48 + r.below(200)) * MB; hi = L + L / 3; if (r.chance(1, 6)) { MallocExtension::SetMemoryLimit(0, LK::kSoft); auto h = prop("tcmalloc.soft_limit_hits"); void* p = malloc(5 * MB); free(p); if (prop("tcmalloc.soft_limit_hits") != h) FATAL("unlimited", "the soft limit was hit after it was removed"); }
      size_t before = prop("tcmalloc.soft_limit_hits"); MallocExtension::SetMemoryLimit(L, LK::kSoft); if (MallocExtension::GetMemoryLimit(LK::kSoft) != L) FATAL("readback", "soft limit %zu reads back %zu", L, MallocExtension::GetMemoryLimit(LK::kSoft)); judge_soft(L, "SetMemoryLimit");
      size_t h1 = prop("tcmalloc.soft_limit_hits"), sh = prop("tcmalloc.successful_shrinks_after_soft_limit_hit"); if (h1 < before || sh > h1) FATAL("hits", "soft limit hits %zu (was %zu), successful shrinks %zu", h1, before, sh); }
  }
  // The kernel agrees: what is resident beyond the process's own pages stays near the limit.
  for (auto& x : tab) if (x.b.p && live > L / 2) { live -= x.b.req; do_free(x.b, r.next()); x.b.p = nullptr; }
  void* p = malloc(3 * MB); judge_soft(L, "final"); size_t k = rss(), b = now().backed; free(p);
  if (k > L + 96 * MB && b <= L) FATAL("rss", "limit %zu, backed memory reported %zu, but the kernel holds %zu resident", L, b, k);
  if (prop("tcmalloc.hard_limit_hits")) FATAL("hits", "hard limit hits %zu without a hard limit", prop("tcmalloc.hard_limit_hits"));
  for (auto& x : tab) if (x.b.p) do_free(x.b, r.next());
}
static void readback_child(uint64_t sd) {
  Rng r(sd); size_t soft = ~0ull, hard = ~0ull;
  if (MallocExtension::GetMemoryLimit(LK::kSoft) != soft || MallocExtension::GetMemoryLimit(LK::kHard) != hard) FATAL("readback", "a fresh process has limits %zu and %zu", MallocExtension::GetMemoryLimit(LK::kSoft), MallocExtension::GetMemoryLimit(LK::kHard));
  for (int i = 0; i < 3000; i++) {
    bool h = r.chance(1, 2); size_t v = r.chance(1, 5) ? 0 : r.chance(1, 5) ? ~0ull : (64 * MB) + r.below(1ull << (30 + r.below(10)));
    MallocExtension::SetMemoryLimit(v, h ? LK::kHard : LK::kSoft); size_t w = v ? v : ~0ull; (h ? hard : soft) = w; if (hard < soft) soft = hard;
    size_t gs = MallocExtension::GetMemoryLimit(LK::kSoft), gh = MallocExtension::GetMemoryLimit(LK::kHard); S->evals++;
    if (gs != soft || gh != hard) FATAL("readback", "after setting %s limit %zu: soft %zu hard %zu, expected %zu %zu", h ? "hard" : "soft", v, gs, gh, soft, hard);
    if (prop("tcmalloc.desired_usage_limit_bytes") != soft || prop("tcmalloc.hard_usage_limit_bytes") != hard) FATAL("readback", "properties report %zu / %zu for limits %zu / %zu", prop("tcmalloc.desired_usage_limit_bytes"), prop("tcmalloc.hard_usage_limit_bytes"), soft, hard);
  }
}
// Live data well inside the hard limit, with heavy churn: must never be terminated, and never exceed the limit.
static void hard_fits_child(uint64_t sd, int style) {
  Rng r(sd); size_t L = (96 + r.below(160)) * MB; MallocExtension::SetMemoryLimit(L, LK::kHard); S->phase = 1; S->req = L;
  size_t live = 0, cap = L * 8 / 10 - 20 * MB; long ops = thorough() ? 40000 : 4000;
  for (long i = 0; i < ops; i++) {
    Rec& x = tab[r.below(4000)];
    if (x.b.p && r.chance(1, 2)) { live -= malloc_usable_size(x.b.p); do_free(x.b, r.next()); x.b.p = nullptr; }
    else if (!x.b.p) { size_t z = pick_size(r, style); int f; do f = r.below(F_COUNT); while (is_aligned_fn(f)); if (live + z + 8192 > cap) { for (int k = 0; k < 40 && live > cap / 2; k++) { Rec& y = tab[r.below(4000)]; if (y.b.p) { live -= malloc_usable_size(y.b.p); do_free(y.b, r.next()); y.b.p = nullptr; } } continue; }
      S->live = live; x.b = do_alloc(f, z, 0, is_hc(f) ? (int)r.below(256) : -1); if (!x.b.p) FATAL("null", "%s(%zu) failed within the hard limit", fn_name(f), z); live += malloc_usable_size(x.b.p); touch(x.b.p, z);
      if (z > (256 << 10) + 8192) { Now n = now(); S->evals++; if (n.backed > L + kMeta) FATAL("hard", "%s(%zu) succeeded with %zu bytes backed, over the hard limit %zu", fn_name(f), z, n.backed, L); dist.add(7000003ull + style * 4096 + n.backed / MB); } }
  }
  size_t hh = prop("tcmalloc.hard_limit_hits"), hs = prop("tcmalloc.successful_shrinks_after_hard_limit_hit"); if (hs > hh) FATAL("hits", "hard limit hits %zu, successful shrinks %zu", hh, hs);
  for (auto& x : tab) if (x.b.p) do_free(x.b, r.next());
}
// Hugepages whose free part was already given back become empty all at once, then one block is requested that does not
// fit under the hard limit any more: it must end the process; one that does fit must not.
static void hard_after_free_child(uint64_t sd, int fits) {
  Rng r(sd); size_t L = (200 + r.below(60)) * MB, bsz = (260 << 10) + r.below(200 << 10); S->req = L; S->phase = 4;
  static void* v[3000]; int n = 0; size_t live = 0; MallocExtension::SetMemoryLimit(L, LK::kHard);
  while (live < L * 3 / 5) { v[n] = malloc(bsz); touch(v[n], bsz); live += bsz; n++; }
  for (int i = 0; i < n; i++) if (i % 4) { free(v[i]); v[i] = nullptr; }
  MallocExtension::SetMemoryLimit(L / 5, LK::kSoft); MallocExtension::SetMemoryLimit(L, LK::kSoft);
  for (int i = 0; i < n; i++) if (!v[i]) { v[i] = malloc(bsz / 2); touch(v[i], bsz / 2); }
  for (int i = 0; i < n; i++) { free(v[i]); v[i] = nullptr; }
  size_t z = fits ? L * 8 / 10 : L + L / 4; S->live = 0; *(volatile size_t*)S->note = z; char* p = (char*)malloc(z);
  Now w = now(); S->evals++; if (w.backed > L + kMeta) FATAL("hard", "malloc(%zu) succeeded with %zu bytes backed, over the hard limit %zu", z, w.backed, L);
  if (!p) FATAL("null", "malloc(%zu) returned null under a hard limit", z); free(p);
}
// Grows until the limit ends the process; nothing may be live beyond the limit at any time.
static void hard_exceed_child(uint64_t sd, int style) {
  Rng r(sd); size_t L = (80 + r.below(100)) * MB; S->req = L; S->phase = 2; MallocExtension::SetMemoryLimit(L, LK::kHard);
  size_t live = 0; void* keep[4000]; int nk = 0;
  while (nk < 4000) {
    if (nk > 4 && r.chance(1, 5)) { int j = r.below(nk); live -= malloc_usable_size(keep[j]); free(keep[j]); keep[j] = keep[--nk]; continue; }
    size_t z = style == 3 ? (300 << 10) + r.below(MB) : pick_size(r, 1) % (4 * MB) + (264 << 10); S->live = live; *(volatile size_t*)S->note = z;
    void* p = malloc(z); if (!p) FATAL("null", "malloc(%zu) returned null instead of ending the process", z); touch(p, z); keep[nk++] = p; live += malloc_usable_size(p);
    Now n = now(); S->evals++; if (n.backed > L + kMeta || live > L) FATAL("hard", "allocation succeeded with %zu live, %zu backed, hard limit %zu", live, n.backed, L);
  }
  S->phase = 3;
}
static void threads_child(uint64_t sd) {
  size_t L = 200 * MB; MallocExtension::SetMemoryLimit(L, LK::kSoft); std::thread* t = new std::thread[6];
  for (int k = 0; k < 6; k++) t[k] = std::thread([k, sd] { Rng r(sd * 17 + k); void* p[60] = {}; for (int i = 0; i < (thorough() ? 8000 : 1200); i++) { void*& q = p[r.below(60)]; if (q) { free(q); q = nullptr; } else { size_t z = (260 << 10) + r.below(MB); q = malloc(z); if (!q) FATAL("null", "malloc under a soft limit"); touch(q, z); S->evals++; } } for (auto q : p) free(q); });
  for (int k = 0; k < 6; k++) t[k].join(); delete[] t;
  void* p = malloc(4 * MB); judge_soft(L, "after threads"); if (now().backed > L) FATAL("soft", "nothing live, backed %zu, limit %zu", now().backed, L); free(p);
}
static void run_child(const char* name, void (*body)(uint64_t, int), uint64_t sd, int style, bool may_die) {
  memset((void*)S, 0, sizeof *S); int pf[2]; if (pipe(pf)) _exit(3); fflush(stdout);
  pid_t c = fork(); if (c < 0) _exit(3);
  if (!c) { dup2(pf[1], 2); close(pf[0]); close(pf[1]); alarm(200); body(sd, style); S->distinct = dist.n; _exit(nviol ? 10 : 0); }
  close(pf[1]); static char err[1 << 16]; size_t n = 0; ssize_t k; while ((k = read(pf[0], err + n, sizeof err - 1 - n)) > 0) { n += k; if (n >= sizeof err - 1) { static char junk[4096]; while (read(pf[0], junk, sizeof junk) > 0) {} break; } } err[n] = 0; close(pf[0]);
  int st; waitpid(c, &st, 0);
  if (WIFEXITED(st) && WEXITSTATUS(st) == 10) _exit(10);
  bool died = WIFSIGNALED(st);
  if (died && WTERMSIG(st) == SIGALRM) _exit(3);
  if (died && WTERMSIG(st) == SIGKILL) _exit(3);
  if (may_die) {
    size_t z = *(volatile size_t*)S->note;
    if (!died) FATAL("hard", "'%s' seed %llu: the process was never ended (limit %zu, live %zu, phase %zu, status %d)", name, (unsigned long long)sd, S->req, S->live, S->phase, st);
    if (!strstr(err, "Hit hard tcmalloc heap limit")) FATAL("diagnostic", "'%s': ended without naming the hard limit: %.300s", name, err);
    char lim[64]; snprintf(lim, sizeof lim, "%zu", (size_t)S->req); if (!strstr(err, lim)) FATAL("diagnostic", "'%s': diagnostic does not name the limit %s: %.300s", name, lim, err);
    // it would really have exceeded the limit: live + request + metadata and rounding
    if (S->live + z + 16 * MB + (S->req / 20) < S->req) FATAL("hard-early", "'%s' seed %llu: ended with %zu live and %zu requested under a limit of %zu", name, (unsigned long long)sd, (size_t)S->live, z, (size_t)S->req);
    S->evals++;
  } else if (died || WEXITSTATUS(st)) FATAL("ended", "'%s' seed %llu style %d: process ended (status %d) with %zu live, limit %zu: %.400s", name, (unsigned long long)sd, style, st, (size_t)S->live, (size_t)S->req, err);
  metric("evals", S->evals); metric("over_limit_observations", S->hits); metric("distinct", S->distinct); say("SAMPLE %s seed %llu style %d: %lld judgements, %lld over the limit, status %d, reclaimable left while over: %lld, after a second shrink %lld", name, (unsigned long long)sd, style, S->evals, S->hits, st, S->maxfree, S->maxfree2);
}
int main(int argc, char** argv) {
  S = (Shared*)mmap(nullptr, sizeof *S, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); free(malloc(8));
  if (strchr(argv[1], 'C') && !MallocExtension::PerCpuCachesActive()) return inconclusive("per-CPU caches not active");
  if (strchr(argv[1], 'N')) TCMalloc_Internal_SetHPAASubrelease(false); else if (strchr(argv[1], 'Y')) TCMalloc_Internal_SetHPAASubrelease(true);
  uint64_t s0 = seed() * 1009 + argv[1][0] * 7 + argv[1][1];
  run_child("readback", [](uint64_t s, int) { readback_child(s); }, s0, 0, false);
  for (int k = 0; k < (thorough() ? 12 : 2); k++) for (int st = 0; st < 4; st++) {
    run_child("soft", soft_child, s0 + k * 31 + st, st, false);
    if (!strchr(argv[1], 'N')) run_child("hard-fits", hard_fits_child, s0 + k * 37 + st, st, false);
    run_child("hard-after-free", hard_after_free_child, s0 + k * 43 + st, st & 1, !(st & 1));
    run_child("hard-exceed", hard_exceed_child, s0 + k * 41 + st, st, true);
  }
  run_child("threads", [](uint64_t s, int) { threads_child(s); }, s0, 0, false);
  return done();
}
