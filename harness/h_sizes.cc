// P02 (mode A): alignment of every returned pointer. P03 (mode S): agreement of all size queries.
#include "vt_api.h"
#include <optional>
using namespace vt;
using tcmalloc::MallocExtension;
static Distinct* dist;
static long long n_eval, n_pred, n_sampled;
static bool A, S, sampled_mode, guarded;

static const int kBatchMax = 96;
static void judge(const Block& b, const char* how) {
  n_eval++;
  if (A) {
    size_t need = min_align(b.fn, b.req, b.align);
    // operator new: __STDCPP_DEFAULT_NEW_ALIGNMENT__ bounds what an object of that size can need.
    if (b.fn >= F_new && !is_aligned_fn(b.fn)) need = b.req && b.req % 16 == 0 ? 16 : b.req >= 8 || !guarded ? 8 : b.req <= 1 ? 1 : b.req <= 2 ? 2 : b.req <= 4 ? 4 : 8;
    if ((uintptr_t)b.p & (need - 1)) FATAL("misaligned", "%s(%zu, align %zu, hot %d) -> %p is not %zu-aligned%s", fn_name(b.fn), b.req, b.align, b.hot, b.p, need, how);
    dist->add(b.fn * 1000003ull + lg2(b.align ? b.align : 1) * 7919ull * 64 + (b.req <= 2048 ? b.req : 2048 + lg2(b.req)));
  }
}
static size_t predict(int f, size_t size, size_t al) { return is_aligned_fn(f) && al > 1 ? nallocx(size, lg2(al)) : nallocx(size, 0); }
static void judge_size(Block& b) {
  size_t us = malloc_usable_size(b.p);
  if (us < b.req) FATAL("small", "%s(%zu, align %zu): usable size %zu", fn_name(b.fn), b.req, b.align, us);
  auto a = MallocExtension::GetAllocatedSize(b.p);
  if (!a || *a != us) FATAL("disagree", "%s(%zu, align %zu): GetAllocatedSize %ld, malloc_usable_size %zu", fn_name(b.fn), b.req, b.align, a ? (long)*a : -1L, us);
  if (is_sr(b.fn)) {
    if (b.cap < b.req) FATAL("small", "%s(%zu) returned size %zu", fn_name(b.fn), b.req, b.cap);
    if (b.cap > us) FATAL("disagree", "%s(%zu, align %zu, hot %d): returned size %zu, usable size %zu", fn_name(b.fn), b.req, b.align, b.hot, b.cap, us);
    if (!sampled_mode && b.cap != us) FATAL("disagree", "%s(%zu, align %zu, hot %d): returned size %zu, usable size %zu", fn_name(b.fn), b.req, b.align, b.hot, b.cap, us);
  }
  if (b.req && !sampled_mode && b.fn != F_pvalloc && b.fn != F_valloc && (fam(b.fn) != kC) && b.fn != F_posix_memalign && b.fn != F_tok1_posix_memalign) {
    size_t pr = predict(b.fn, b.req, b.align); n_pred++;
    if (pr != us) VIOL("prediction", "%s(%zu, align %zu, hot %d): usable %zu, predicted %zu", fn_name(b.fn), b.req, b.align, b.hot, us, pr);
    if (!is_aligned_fn(b.fn)) { size_t e = MallocExtension::GetEstimatedAllocatedSize(b.req); if (e != us) VIOL("prediction", "%s(%zu): usable %zu, GetEstimatedAllocatedSize %zu", fn_name(b.fn), b.req, us, e); }
  }
  if (b.req && !sampled_mode && fam(b.fn) == kC) {
    // C allocations may need more alignment than C++ ones of the same size: at least the prediction, at most the 16-byte-aligned one.
    size_t lo = nallocx(b.req, 0), hi = nallocx(b.req, 4); n_pred++;
    if (us < lo || us > hi) VIOL("prediction", "%s(%zu): usable %zu outside predictions %zu..%zu", fn_name(b.fn), b.req, us, lo, hi);
  }
  if (sampled_mode && us > b.req) n_sampled++;
  // every reported byte is usable, and the answer never changes while the block lives
  fill(b.p, us, b.id = n_eval + 17);
  dist->add(b.fn * 1000003ull + lg2(b.align ? b.align : 1) * 524287ull + us);
}
static void group(Rng& r, int f, size_t size, size_t al, int count) {
  Block bs[kBatchMax]; if (count > kBatchMax) count = kBatchMax;
  int hot = -1;
  for (int i = 0; i < count; i++) {
    hot = is_hc(f) ? (int)r.below(256) : -1;
    bs[i] = do_alloc(f, size, al, hot);
    if (!bs[i].p) FATAL("null", "%s(%zu, align %zu) failed", fn_name(f), size, al);
    judge(bs[i], "");
    if (S) judge_size(bs[i]);
  }
  for (int i = 0; i < count; i++) {
    if (S) { size_t us = malloc_usable_size(bs[i].p); long o = check(bs[i].p, us, bs[i].id); if (o >= 0) FATAL("content", "%s(%zu): byte %ld of reported %zu is not the block's own", fn_name(f), size, o, us);
      // resizing within the reported size keeps the block able to hold it
      if (us && fam(f) == kC && r.chance(1, 16)) { void* q = realloc(bs[i].p, us); if (!q) FATAL("null", "realloc to own usable size"); { size_t u2 = malloc_usable_size(q); long o2 = check(q, us, bs[i].id); if (u2 < us || o2 >= 0) VIOL("resized", "%s(%zu): realloc to the reported size %zu left %zu usable bytes, first wrong byte %ld", fn_name(f), size, us, u2, o2); }  /* it may move: the sampler's turn */ bs[i].p = q; bs[i].req = us; bs[i].fn = F_malloc; } }
    do_free(bs[i], r.next());
  }
}
int main(int argc, char** argv) {
  A = strchr(argv[1], 'A'); S = strchr(argv[1], 'S'); bool samp = strchr(argv[1], 'P'), guard = strchr(argv[1], 'G'), percpu = strchr(argv[1], 'C');
  free(malloc(8));
  if (percpu && !MallocExtension::PerCpuCachesActive()) return inconclusive("per-CPU caches not active");
  static Distinct d; dist = &d; Rng r(seed() * 977 + argv[1][0]);
  sampled_mode = samp || guard; guarded = guard;
  MallocExtension::SetProfileSamplingInterval(samp ? 1 : guard ? 64 : 0);
  MallocExtension::SetGuardedSamplingInterval(guard ? 64 : -1); if (guard) MallocExtension::ActivateGuardedSampling();
  free(malloc(64 << 20));  // consume the sampling countdown drawn with the old interval
  for (int i = 0; i < 40; i++) ::operator delete(::operator new(4 << 20));
  int k = thorough() ? 30 : 3; bool heavy = sampled_mode;
  // 1. every size up to 1280 for every entry point, with an alignment drawn per size
  for (int f = 0; f < F_COUNT; f++)
    for (size_t s = 0; s <= 1280; s += (heavy ? 1 + r.below(12) : 1 + r.below(3))) for (int j = 0; j < k; j++) group(r, f, s, (size_t)1 << r.below(j ? 13 : 8), heavy ? 2 : 6);
  // 2. every small (size, alignment) pair, many objects of each so that all span offsets appear
  for (size_t al = 1; al <= 4096; al <<= 1)
    for (size_t s = 0; s <= 512; s += (heavy ? 37 : 1) + (s > 128 ? r.below(7) : 0)) { static const int fs[] = {F_memalign, F_newal, F_aligned_alloc, F_newarral, F_srnewal, F_newal_hc, F_posix_memalign, F_aligned_alloc_at_least, F_newal_nt, F_newarral_nt_hc, F_tok1_newal, F_srnewal_hc, F_srnewal_nt_hc}; group(r, fs[r.below(13)], s, al, heavy ? 6 : 24); }
  // 3. size classes as nallocx shows them: both sides of each boundary, all alignments
  size_t prev = 0; int ncls = 0;
  for (size_t s = 1; s <= (300 << 10); s++) {
    size_t n = nallocx(s, 0);
    if (n < s) FATAL("small", "nallocx(%zu) = %zu", s, n);
    if (n < prev) FATAL("monotone", "nallocx(%zu) = %zu < nallocx(%zu) = %zu", s, n, s - 1, prev);
    if (n != prev) { ncls++; if (nallocx(n, 0) != n) VIOL("idempotent", "nallocx(%zu) = %zu", n, nallocx(n, 0)); 
      for (int j = 0; j < (heavy ? 2 : 8) * k; j++) { size_t v = j % 4 == 0 ? n : j % 4 == 1 ? s : j % 4 == 2 ? (s + n) / 2 : n - 1; int f = r.below(F_COUNT); size_t al = (size_t)1 << r.below(18); if (v > 65536 && al > 65536) al = 64; group(r, f, v, al, n > 65536 ? 2 : heavy ? 6 : (j == 0 ? 90 : 20)); } }
    prev = n; n_pred++;
  }
  for (int lg = 1; lg <= 20; lg++) {  // monotone in size for each alignment, and never below the request
    size_t pv = 0; size_t step = 1; for (size_t s = 1; s <= (600 << 10); s += step) { step = s < 4096 ? 1 : 1 + r.below(200); size_t n = nallocx(s, lg); n_pred++; if (n < s) FATAL("small", "nallocx(%zu, lg %d) = %zu", s, lg, n); if (n < pv) VIOL("monotone", "nallocx(%zu, lg %d) = %zu after %zu", s, lg, n, pv); pv = n; } }
  // 4. random large sizes and alignments
  for (int i = 0; i < 1500 * k; i++) { size_t s = r.below((size_t)1 << r.range(4, 25)); size_t al = (size_t)1 << r.below(22); int f = r.below(F_COUNT); if (is_aligned_fn(f) && al + s > (48u << 20)) s &= 0xfffff; if (S && s > (4 << 20)) s &= 0x3fffff; if (zeroes(f) && s > (1 << 20)) s &= 0xfffff; group(r, f, s, al, s > 262144 ? 1 : 4); }
  // 5. reallocated blocks
  for (int i = 0; i < 20000 * k; i++) { void* p = malloc(rand_size(r, 1 << 20)); size_t s = 1 + rand_size(r, 1 << 20); p = realloc(p, s); Block b; b.p = p; b.req = s; b.fn = F_malloc; judge(b, " (after realloc)"); if (S) { size_t us = malloc_usable_size(p); if (us < s) FATAL("small", "realloc to %zu usable %zu", s, us); auto a = MallocExtension::GetAllocatedSize(p); if (!a || *a != us) FATAL("disagree", "realloc to %zu", s); } free(p); }
  if (S) { if (malloc_usable_size(nullptr) != 0) VIOL("null", "malloc_usable_size(NULL) != 0"); }
  metric("evals", n_eval); metric("distinct", d.n); metric("predictions", n_pred); metric("size_classes_seen", ncls);
  say("SAMPLE mode=%s percpu=%d blocks=%lld classes=%d", argv[1], (int)MallocExtension::PerCpuCachesActive(), n_eval, ncls);
  return done();
}
