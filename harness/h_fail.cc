// P05: failing requests. Specification table per entry point, refused system memory, survivors checked by content.
#include "vt_api.h"
#include "vt_sys.h"
#include <sys/wait.h>
#include "tcmalloc/internal/memory_tag.h"
using namespace vt;
using tcmalloc::MallocExtension;
namespace ti = tcmalloc::tcmalloc_internal;
extern "C" { void* __alloc_token_0_pvalloc(size_t) noexcept; void* __alloc_token_1_pvalloc(size_t) noexcept; void* __alloc_token_0_valloc(size_t) noexcept; }
static Distinct* dist;
static std::atomic<long long> n_clean, n_abort, n_inval, n_refused, n_ok_after, n_survive;

// --- refusal of system memory -------------------------------------------------
static std::atomic<int> g_mode{0};        // 0 none, 1 mmap, 2 mprotect, 3 either at random
static std::atomic<uint64_t> g_rng{1};
static int refuse(sys::Op op, void* a, size_t n, int prot, int flags) {
  int m = g_mode.load(std::memory_order_relaxed); if (!m || !a) return 0;
  uintptr_t u = (uintptr_t)a; if (u < (1ull << 40) && 0) return 0;
  if (op == sys::kMmap && !(flags & 0x100000)) return 0;               // not one of the allocator's own reservations
  if (op != sys::kMmap && op != sys::kMprotect) return 0;
  if (op == sys::kMprotect && prot != (PROT_READ | PROT_WRITE)) return 0;
  if (ti::GetMemoryTag(a) == ti::MemoryTag::kMetadata) return 0;       // losing internal metadata is documented to be fatal
  uint64_t r = mix(g_rng.fetch_add(1)); 
  if (m == 1 && op == sys::kMmap) return ENOMEM; if (m == 2 && op == sys::kMprotect) return ENOMEM; if (m == 3 && r % 3) return ENOMEM; return 0;
}
// --- expected outcome of a failed request ---------------------------------------
static bool c_family(int f) { return fam(f) == kC || fam(f) == kCAligned; }
static bool sets_errno(int f) { return c_family(f) && f != F_posix_memalign && f != F_tok1_posix_memalign; }
static void expect_fail(int f, size_t sz, size_t al) {
  errno = 0; Block b = do_alloc(f, sz, al, is_hc(f) ? 7 : -1);
  if (b.p) FATAL("succeeded", "%s(%zu, align %zu) returned %p (usable %zu)", fn_name(f), sz, al, b.p, malloc_usable_size(b.p));
  if (sets_errno(f) && errno != ENOMEM) FATAL("errno", "%s(%zu, align %zu): errno %d", fn_name(f), sz, al, errno);
  if (is_sr(f) && b.cap != 0) FATAL("size", "%s(%zu, align %zu): failed with size %zu", fn_name(f), sz, al, b.cap);
  n_clean++; dist->add(f * 7919ull + mix(sz) + lg2(al));
}
// Runs fn in a child; -> wait status, its stderr in buf.
template <class F> static int in_child(F fn, char* buf, size_t n) {
  int pfd[2]; if (pipe(pfd)) return -1; pid_t c = fork();
  if (!c) { dup2(pfd[1], 2); dup2(pfd[1], 1); close(pfd[0]); signal(SIGABRT, SIG_DFL); fn(); _exit(0); }
  close(pfd[1]); size_t got = 0; char tmp[4096]; for (;;) { ssize_t k = read(pfd[0], tmp, sizeof tmp); if (k <= 0) break; size_t m = (size_t)k < n - 1 - got ? k : n - 1 - got; memcpy(buf + got, tmp, m); got += m; }
  buf[got] = 0; close(pfd[0]); int st = 0; waitpid(c, &st, 0); return st;
}
static void expect_abort(int f, size_t sz, size_t al) {
  static char buf[65536]; int st = in_child([&] { bool threw = false; try { do_alloc(f, sz, al, is_hc(f) ? 7 : -1); } catch (...) { threw = true; } say(threw ? "THREW" : "RETURNED"); }, buf, sizeof buf);
  if (!WIFSIGNALED(st) || WTERMSIG(st) != SIGABRT) FATAL("abort", "%s(%zu, align %zu) did not abort: status %x: %.300s", fn_name(f), sz, al, st, buf);
  char want[100]; snprintf(want, sizeof want, "Unable to allocate %zu (new failed)", sz); if (!strstr(buf, want)) FATAL("diagnostic", "%s(%zu): no diagnostic naming the size: %.300s", fn_name(f), sz, buf);
  n_abort++; dist->add(f * 104729ull + mix(sz));
}
static void table(Rng& r) {
  static const size_t big[] = {SIZE_MAX, SIZE_MAX - 1, SIZE_MAX - 7, SIZE_MAX - 15, SIZE_MAX - 100, SIZE_MAX - 4094, SIZE_MAX - 4095, SIZE_MAX - 4096, SIZE_MAX - 8190, SIZE_MAX - 8191, SIZE_MAX - 8192, SIZE_MAX - 65535, SIZE_MAX - (2 << 20) + 1, SIZE_MAX - (2 << 20), SIZE_MAX - (256 << 10) + 1, SIZE_MAX - (4 << 20), (size_t)PTRDIFF_MAX + 1, PTRDIFF_MAX, (size_t)1 << 62, (size_t)3 << 60, (size_t)1 << 56, (size_t)1 << 50, (size_t)1 << 48, (size_t)1 << 47, ((size_t)1 << 47) - 4096, ((size_t)1 << 48) - 1};
  for (int f = 0; f < F_COUNT; f++) for (size_t s : big) for (int j = 0; j < 4; j++) {
    size_t al = (size_t)1 << (j == 0 ? 4 : r.below(22)); if (throws(f)) { if (j == 0 && r.chance(1, 8)) expect_abort(f, s, al); } else expect_fail(f, s, al); }
  // random huge sizes
  for (int i = 0; i < 4000; i++) { int f = r.below(F_COUNT); if (throws(f)) continue; size_t s = r.chance(1, 2) ? SIZE_MAX - r.below((size_t)1 << r.range(1, 46)) : ((size_t)1 << r.range(47, 63)) + r.below((size_t)1 << 40); expect_fail(f, s, (size_t)1 << r.below(22)); }
  for (size_t s : big) { errno = 0; void* p = __alloc_token_0_pvalloc(s); if (p) FATAL("succeeded", "token pvalloc(%zu) -> %p usable %zu", s, p, malloc_usable_size(p)); errno = 0; p = __alloc_token_1_pvalloc(s); if (p || errno != ENOMEM) FATAL("succeeded", "token pvalloc(%zu)", s); if (__alloc_token_0_valloc(s)) FATAL("succeeded", "token valloc(%zu)", s); n_clean += 3; }
  static const size_t bad[] = {0, 3, 5, 6, 7, 9, 12, 20, 24, 40, 48, 56, 96, 100, 1000, 4095, 4097, 6144, 12288, SIZE_MAX, ((size_t)1 << 63) + 8, ((size_t)1 << 40) + 8};
  for (size_t a : bad) for (size_t s : {(size_t)0, (size_t)1, (size_t)24, (size_t)5000, (size_t)300000, SIZE_MAX}) {
    for (int v = 0; v < 3; v++) { errno = 0; void* p = v == 0 ? aligned_alloc(a, s) : v == 1 ? __alloc_token_0_aligned_alloc(a, s) : __alloc_token_1_aligned_alloc(a, s); if (p || errno != EINVAL) FATAL("einval", "aligned_alloc(%zu, %zu) -> %p errno %d", a, s, p, errno); }
    for (int v = 0; v < 3; v++) { void* p = (void*)0x1234; int e = v == 0 ? posix_memalign(&p, a, s) : v == 1 ? __alloc_token_0_posix_memalign(&p, a, s) : __alloc_token_1_posix_memalign(&p, a, s); if (e != EINVAL || p != (void*)0x1234) FATAL("einval", "posix_memalign(%zu, %zu) -> %d, output %p", a, s, e, p); }
    n_inval += 6;
  }
  for (size_t a : {(size_t)1, (size_t)2, (size_t)4}) { void* p = (void*)0x1234; int e = posix_memalign(&p, a, 100); if (e != EINVAL || p != (void*)0x1234) FATAL("einval", "posix_memalign(%zu) -> %d", a, e); n_inval++; }
  for (size_t s : {SIZE_MAX, (size_t)1 << 60, SIZE_MAX - 4095}) for (size_t a : {(size_t)8, (size_t)64, (size_t)4096, (size_t)2 << 20}) { void* p = (void*)0x1234; int e = posix_memalign(&p, a, s); if (e != ENOMEM || p != (void*)0x1234) FATAL("enomem", "posix_memalign(%zu, %zu) -> %d, output %p", a, s, e, p); n_clean++; }
  // boundaries just below the pvalloc/valloc rounding limit must be refused, not wrapped
  for (size_t k = 0; k < 9000; k += 1 + r.below(64)) { void* p = pvalloc(SIZE_MAX - k); if (p) FATAL("succeeded", "pvalloc(SIZE_MAX-%zu) -> %p usable %zu", k, p, malloc_usable_size(p)); p = valloc(SIZE_MAX - k); if (p) FATAL("succeeded", "valloc(SIZE_MAX-%zu)", k); n_clean += 2; }
}

static std::atomic<uint64_t> g_id{1};
static constexpr int kSurv = 1500;
static long long inuse() { return *MallocExtension::GetNumericProperty("generic.current_allocated_bytes"); }
static long long heap() { return *MallocExtension::GetNumericProperty("generic.heap_size"); }

// One storm: survivors hold patterns, allocations run into refused system memory.
static void storm(Rng& r, Block* surv, int n_alloc, bool touch) {
  const int K = 6000; Arr<Block> tmp(K); int k = 0; int fails = 0, firstk = r.below(4);
  for (int i = 0; i < n_alloc && k < K; i++) {
    int f; do f = r.below(F_COUNT); while (throws(f) || f == F_calloc || f == F_tok0_calloc || f == F_tok1_calloc);
    size_t sz; switch (r.below(6)) { case 0: sz = rand_size(r, 1 << 20); break; case 1: sz = r.below(512 << 10); break; case 2: sz = r.below(32 << 20); break; case 3: sz = (size_t)r.range(1, 40) << 21; break; case 4: sz = (size_t)1 << r.range(20, 30); break; default: sz = ((size_t)1 << 30) + r.below((size_t)1 << 31); }
    if (firstk == 0) sz = r.below(2048);
    size_t al = (size_t)1 << r.below(21);
    errno = 0; Block b = do_alloc(f, sz, al, is_hc(f) ? (int)r.below(256) : -1);
    if (!b.p) { fails++; n_refused++; if (sets_errno(f) && errno != ENOMEM) FATAL("errno", "%s(%zu) refused by the system: errno %d", fn_name(f), sz, errno); if (is_sr(f) && b.cap) FATAL("size", "%s(%zu) refused: size %zu", fn_name(f), sz, b.cap); dist->add(f * 31ull + lg2(sz + 1) * 1009); }
    else { size_t us = malloc_usable_size(b.p); if (us < sz) FATAL("small", "%s(%zu) usable %zu while the system refuses memory", fn_name(f), sz, us); b.id = g_id++; b.cap = us < 4096 || touch ? (us > (1 << 20) ? 4096 : us) : 64 < us ? 64 : us; fill(b.p, b.cap, b.id); tmp[k++] = b; }
    if (k && r.chance(1, 3)) { Block& x = tmp[r.below(k)]; long o = check(x.p, x.cap, x.id); if (o >= 0) FATAL("content", "block changed at %ld while the system refuses memory", o); if (is_sr(x.fn)) x.cap = 0; do_free(x, r.next()); x = tmp[--k]; }
    // resizing survivors may fail; they must stay intact
    if (r.chance(1, 4)) { Block& s = surv[r.below(kSurv)]; if (fam(s.fn) == kC) { size_t ns = r.chance(1, 2) ? 1 + r.below(1 << 20) : (size_t)r.range(1, 64) << 20; errno = 0; void* q = realloc(s.p, ns);
      if (!q) { n_refused++; if (errno != ENOMEM) FATAL("errno", "realloc refused: errno %d", errno); long o = check(s.p, s.cap, s.id); if (o >= 0) FATAL("content", "a failed realloc changed byte %ld", o); }
      else { long o = check(q, s.cap, s.id, ns < s.cap ? ns : s.cap); if (o >= 0) FATAL("content", "realloc lost byte %ld", o); s.p = q; s.req = ns; s.fn = F_malloc; size_t us = malloc_usable_size(q); s.cap = us < 65536 ? us : 65536; s.id = g_id++; fill(q, s.cap, s.id); } } }
  }
  for (int i = 0; i < k; i++) { Block& x = tmp[i]; long o = check(x.p, x.cap, x.id); if (o >= 0) FATAL("content", "block changed at %ld while the system refuses memory", o); if (is_sr(x.fn)) x.cap = 0; do_free(x, r.next()); }
  munmap(tmp.p, K * sizeof(Block));
}
static void survivors_ok(Block* s) { for (int i = 0; i < kSurv; i++) { long o = check(s[i].p, s[i].cap, s[i].id); if (o >= 0) FATAL("survivor", "block from %s (%zu) changed at %ld after refusals", fn_name(s[i].fn), s[i].req, o); n_survive++; } }
static void all_succeed(Rng& r) {
  for (int f = 0; f < F_COUNT; f++) for (size_t sz : {(size_t)0, (size_t)33, (size_t)4000, (size_t)100000, (size_t)600000, (size_t)5000000}) { if (sz > (1 << 20) && zeroes(f)) continue; Block b = do_alloc(f, sz, 1ull << r.below(16), is_hc(f) ? 9 : -1); if (!b.p) FATAL("unusable", "%s(%zu) fails although the system no longer refuses", fn_name(f), sz); do_free(b, r.next()); n_ok_after++; }
}
int main(int argc, char** argv) {
  bool percpu = strchr(argv[1], 'C'), samp = strchr(argv[1], 'P'), guard = strchr(argv[1], 'G');
  free(malloc(1)); if (percpu && !MallocExtension::PerCpuCachesActive()) return inconclusive("per-CPU caches not active");
  static Distinct d; dist = &d; Rng r(seed() * 13 + argv[1][0]);
  if (samp) MallocExtension::SetProfileSamplingInterval(3000);
  if (guard) { MallocExtension::SetProfileSamplingInterval(3000); MallocExtension::SetGuardedSamplingInterval(6000); MallocExtension::ActivateGuardedSampling(); }
  long long b0 = inuse();
  table(r);
  if (llabs(inuse() - b0) > (256 << 10)) VIOL("leak", "failed requests changed bytes in use by %lld", inuse() - b0);
  Arr<Block> surv(kSurv); for (int i = 0; i < kSurv; i++) { size_t sz = 1 + rand_size(r, 100000); surv[i] = do_alloc(r.below(F_COUNT), sz, 16, -1); surv[i].cap = malloc_usable_size(surv[i].p); surv[i].id = g_id++; if (is_sr(surv[i].fn)) surv[i].req = surv[i].cap; fill(surv[i].p, surv[i].cap, surv[i].id); }
  sys::filter.store(refuse);
  long long h_first = 0; int rounds = thorough() ? 400 : 30;
  for (int round = 0; round < rounds; round++) {
    g_mode = 1 + r.below(3); storm(r, surv.p, 600, round % 3 == 0); survivors_ok(surv.p);
    if (round % 4 == 0) for (int i = 0; i < 3; i++) { int f; do f = r.below(F_COUNT); while (!throws(f)); g_mode = 2; size_t sz = ((size_t)200 << 30) + r.below(1 << 30); expect_abort(f, sz, 64); }
    g_mode = 0; all_succeed(r); survivors_ok(surv.p);
    MallocExtension::ReleaseMemoryToSystem(~0ull >> 1);
  }
  // The same kind of history repeated must not leak: bytes in use equal the survivors.
  long long sum = 0; for (int i = 0; i < kSurv; i++) sum += malloc_usable_size(surv[i].p);
  long long base = inuse() - sum; if (base > (4 << 20) || base < -(1 << 20)) VIOL("leak", "after refusals bytes in use exceed the live blocks by %lld", base);
  // multi-threaded storm
  static Block* S[4]; for (auto& s : S) { s = Arr<Block>(kSurv).p; for (int i = 0; i < kSurv; i++) { size_t sz = 1 + r.below(2000); s[i] = do_alloc(F_malloc, sz, 16, -1); s[i].cap = malloc_usable_size(s[i].p); s[i].id = g_id++; fill(s[i].p, s[i].cap, s[i].id); } }
  pthread_t t[4]; g_mode = 0; static std::atomic<bool> go{false};
  for (long i = 0; i < 4; i++) pthread_create(&t[i], 0, [](void* a) -> void* { Rng q(seed() * 99 + (uint64_t)a); while (!go) sched_yield(); for (int k = 0; k < (thorough() ? 60 : 6); k++) { storm(q, S[(uint64_t)a], 400, false); survivors_ok(S[(uint64_t)a]); } return nullptr; }, (void*)i);
  g_mode = 3; go = true; for (auto x : t) pthread_join(x, nullptr); g_mode = 0; all_succeed(r); survivors_ok(surv.p);
  metric("evals", n_clean + n_abort + n_inval + n_refused + n_survive + n_ok_after); metric("distinct", d.n); metric("clean_failures", n_clean); metric("aborts_with_diagnostic", n_abort); metric("invalid_alignment", n_inval); metric("refused_by_system", n_refused); metric("survivor_checks", n_survive); metric("successes_after", n_ok_after);
  metric("mmap_refusals", sys::failed[sys::kMmap]); metric("mprotect_refusals", sys::failed[sys::kMprotect]);
  say("SAMPLE mode=%s refused=%lld (mmap %lld, mprotect %lld) aborts=%lld excess bytes=%lld", argv[1], n_refused.load(), sys::failed[sys::kMmap].load(), sys::failed[sys::kMprotect].load(), n_abort.load(), base);
  return done();
}
