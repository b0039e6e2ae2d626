// P04: byte-exact model of realloc / reallocarray / calloc and their token variants.
#include "vt_api.h"
using namespace vt;
using tcmalloc::MallocExtension;
static Distinct* dist; static bool guarded;
static std::atomic<long long> n_re, n_zero, n_fail, n_free0;

struct Live { void* p; size_t n, us; uint64_t id; bool resized; };
static void* re(Rng& r, void* p, size_t n) {
  switch (r.below(6)) {
    case 0: if (n % 4 == 0) return reallocarray(p, n / 4, 4); return reallocarray(p, n, 1);
    case 1: return reallocarray(p, 1, n);
    case 2: return __alloc_token_0_realloc(p, n);
    case 3: return __alloc_token_1_realloc(p, n);
    case 4: return r.chance(1, 2) ? __alloc_token_0_reallocarray(p, n, 1) : __alloc_token_1_reallocarray(p, 1, n);
    default: return realloc(p, n);
  }
}
static void verify(const Live& l, const char* when) { long o = check(l.p, l.us, l.id); if (o >= 0) FATAL("content", "block of %zu (usable %zu) changed at %ld %s", l.n, l.us, o, when); }
static std::atomic<uint64_t> g_id{1};
static void adopt(Live& l, void* p, size_t n) { l.p = p; l.n = n; l.us = malloc_usable_size(p); if (l.us < n) FATAL("small", "request %zu usable %zu", n, l.us); l.id = g_id++; fill(p, l.us, l.id); }
static void resize(Rng& r, Live& l, size_t ns) {
  size_t old = l.n, ous = l.us; void* op = l.p;
  void* q = re(r, l.p, ns);
  if (!q) FATAL("null", "realloc(%zu -> %zu) failed", old, ns);
  size_t us = malloc_usable_size(q); if (us < ns) FATAL("small", "realloc(%zu -> %zu): usable size %zu", old, ns, us);
  // As a block of the new size: sized deletes and size reports must agree with it (guarded blocks report the request).
  size_t want = nallocx(ns, 4); if (us != want && !(us == ns && guarded)) FATAL("size", "realloc(%zu -> %zu) %s: usable size %zu, a block of that size has %zu", old, ns, q == op ? "in place" : "moving", us, want);
  size_t keep = old < ns ? old : ns;
  long o = check(q, ous, l.id, keep);
  if (o < 0 && keep & 7) { // the tail bytes of the preserved prefix
    char tmp[16]; uint8_t* b = (uint8_t*)q; size_t base = keep & ~7ull; if (ous <= kDense) { fill_range((uint8_t*)tmp, 0, 0, 0); uint64_t k = mix(l.id | 1), v = k + base * 0x9E3779B97F4A7C15ull; if (memcmp(b + base, &v, keep & 7)) o = base; } }
  if (o >= 0) FATAL("lost", "realloc(%zu -> %zu) %s lost the byte at %ld", old, ns, q == op ? "in place" : "moving", o);
  n_re++; dist->add((ous * 1000003ull + us) * 2 + (q == op)); adopt(l, q, ns); l.resized = true;
}
// A resized block may be freed with the size it was resized to.
static void release(Rng& r, Live& l) { if (l.resized) { switch (r.below(3)) { case 0: free_sized(l.p, l.n); break; case 1: sdallocx(l.p, l.n, 0); break; default: free(l.p); } } else free(l.p); l.p = nullptr; l.resized = false; }
static void zeroed(Rng& r, size_t n) {
  // Dirty a few blocks of that size first so that recycled memory is not zero.
  void* d[12]; int k = 4 + r.below(8); for (int i = 0; i < k; i++) { d[i] = malloc(n ? n : 1); size_t us = malloc_usable_size(d[i]); if (us > (256 << 10)) { memset(d[i], 0xa5, 65536); memset((char*)d[i] + us - 65536, 0xa5, 65536); for (size_t o = 0; o < us; o += 4096) ((char*)d[i])[o] = 1; } else memset(d[i], 0xa5, us); }
  for (int i = 0; i < k; i++) free(d[i]);
  size_t a = 1, b = n; if (n % 8 == 0 && n) { a = 8; b = n / 8; } else if (n % 3 == 0 && n) { a = n / 3; b = 3; } else if (r.chance(1, 2)) { a = n; b = 1; }
  char* p[6]; int m = n > 100000 ? 2 : 6;
  for (int j = 0; j < m; j++) {
    switch (r.below(4)) { case 0: p[j] = (char*)__alloc_token_0_calloc(a, b); break; case 1: p[j] = (char*)__alloc_token_1_calloc(a, b); break; default: p[j] = (char*)calloc(a, b); }
    if (!p[j]) FATAL("null", "calloc(%zu, %zu) failed", a, b);
    if (malloc_usable_size(p[j]) < n) FATAL("small", "calloc(%zu, %zu): usable %zu", a, b, malloc_usable_size(p[j]));
    for (size_t i = 0; i < n; i++) if (p[j][i]) FATAL("notzero", "calloc(%zu, %zu): byte %zu is %d", a, b, i, p[j][i]);
    n_zero++; memset(p[j], 0x5a, n);
  }
  dist->add(n * 7919ull + 5);
  for (int j = 0; j < m; j++) free(p[j]);
}
// Element-count overflow: fails with ENOMEM, the old block stays intact and owned.
static void overflow(Rng& r) {
  static const uint64_t H = 1ull << 63;
  uint64_t n, e; switch (r.below(7)) { case 0: n = 1ull << 32; e = 1ull << 32; break; case 1: n = SIZE_MAX; e = 2; break; case 2: n = H + 1; e = 2; break; case 3: n = (1ull << 33) + r.below(100); e = (1ull << 31) + r.below(100); break;
    case 4: n = SIZE_MAX / 3 + 1 + r.below(100); e = 3; break; case 5: e = 3 + r.below(1000); n = SIZE_MAX / e + 1; break; default: n = SIZE_MAX; e = SIZE_MAX; }
  if (r.chance(1, 2)) { uint64_t t = n; n = e; e = t; }
  size_t sz = 1 + rand_size(r, 70000); Live l; adopt(l, malloc(sz), sz); errno = 0; void* q;
  switch (r.below(7)) { case 0: q = calloc(n, e); break; case 1: q = __alloc_token_0_calloc(n, e); break; case 2: q = __alloc_token_1_calloc(n, e); break; case 3: q = reallocarray(l.p, n, e); break; case 4: q = __alloc_token_0_reallocarray(l.p, n, e); break; case 5: q = __alloc_token_1_reallocarray(l.p, n, e); break; default: q = reallocarray(nullptr, n, e); }
  if (q) FATAL("overflow", "%lu x %lu elements did not fail", n, e);
  if (errno != ENOMEM) FATAL("errno", "%lu x %lu elements: errno %d", n, e, errno);
  verify(l, "after a failed resize"); if (malloc_usable_size(l.p) != l.us) FATAL("intact", "usable size changed after a failed resize"); free(l.p); n_fail++;
}
static void too_large(Rng& r) {
  size_t sz = 1 + rand_size(r, 300000); Live l; adopt(l, malloc(sz), sz); errno = 0;
  static const size_t big[] = {SIZE_MAX, SIZE_MAX - 1, SIZE_MAX - 4095, SIZE_MAX - 8191, SIZE_MAX - 8192, (size_t)PTRDIFF_MAX + 1, PTRDIFF_MAX, (size_t)1 << 62, (size_t)1 << 48, (size_t)1 << 47};
  size_t n = big[r.below(10)]; void* q = re(r, l.p, n);
  if (q) FATAL("overflow", "realloc to %zu did not fail", n);
  if (errno != ENOMEM) FATAL("errno", "realloc to %zu: errno %d", n, errno);
  verify(l, "after a failed resize"); if (malloc_usable_size(l.p) != l.us) FATAL("intact", "usable size changed after a failed resize"); resize(r, l, sz + 100); free(l.p); n_fail++;
}
static void* worker(void* a) {
  Rng r(seed() * 65537 + (uint64_t)a * 31 + 1); int iters = envu("VT_OPS", 150000) * (thorough() ? 20 : 1);
  const int K = 400; Arr<Live> L(K);
  for (int i = 0; i < iters; i++) {
    Live& l = L[r.below(K)]; size_t n = rand_size(r, 1 << 20); if (!n) n = 1;
    if (!l.p) { Block b = do_alloc(r.below(F_new), n, rand_align(r, r.chance(1, 4) ? 18 : 12), -1); adopt(l, b.p, n); continue; }  // any C allocation may be resized
    verify(l, "before a resize");
    switch (r.below(12)) {
      case 0: release(r, l); break;
      case 1: { void* q = re(r, l.p, 0); if (q) FATAL("zero", "realloc(p, 0) returned %p", q); l.p = nullptr; l.resized = false; n_free0++; break; }
      case 2: resize(r, l, l.us); break;
      case 3: resize(r, l, l.us + 1); break;
      case 4: resize(r, l, l.n > 1 ? l.n - 1 : 1); break;
      case 5: resize(r, l, l.n + l.n / 2 + 1 < (4u << 20) ? l.n + l.n / 2 + 1 : 10); break;
      case 6: resize(r, l, l.n / 2 + 1); break;
      case 7: if (r.chance(1, 3)) overflow(r); else too_large(r); break;
      case 8: zeroed(r, r.chance(1, 12) ? rand_size(r, 2 << 20) : r.below(5000)); break;
      default: resize(r, l, n);
    }
  }
  for (int i = 0; i < K; i++) if (L[i].p) { verify(L[i], "at the end"); release(r, L[i]); }
  return nullptr;
}
int main(int argc, char** argv) {
  bool percpu = strchr(argv[1], 'C'), samp = strchr(argv[1], 'P'), guard = strchr(argv[1], 'G'), mix = strchr(argv[1], 'M');  guarded = guard;
  free(malloc(1)); if (percpu && !MallocExtension::PerCpuCachesActive()) return inconclusive("per-CPU caches not active");
  static Distinct d; dist = &d; Rng r(seed());
  MallocExtension::SetProfileSamplingInterval(samp ? 1 : guard ? 500 : mix ? 3000 : 0);
  MallocExtension::SetGuardedSamplingInterval(guard ? 500 : -1); if (guard) MallocExtension::ActivateGuardedSampling();
  free(malloc(64 << 20)); for (int i = 0; i < 40; i++) ::operator delete(::operator new(4 << 20));
  // 1. all pairs of class boundaries (a sample of them), in both directions
  static size_t bd[600]; int nb = 0; size_t prev = 0;
  for (size_t s = 1; s < (400 << 10) && nb < 590; s++) { size_t n = nallocx(s, 0); if (n != prev && (n < 1024 || n % 3 != 1)) { bd[nb++] = n; if (r.chance(1, 3)) bd[nb++] = n + 1; } prev = n; }
  int step = thorough() ? 1 : samp || guard ? 5 : 2;
  for (int i = 0; i < nb; i++) for (int j = r.below(step); j < nb; j += step) { if (bd[i] + bd[j] > 100000 && !r.chance(1, 8)) continue; Live l; adopt(l, malloc(bd[i]), bd[i]); resize(r, l, bd[j]); free(l.p); }
  // 2. zeroing over dirty memory for every small size and some large ones
  for (size_t n = 0; n <= 2100; n++) zeroed(r, n);
  for (int i = 0; i < 60; i++) zeroed(r, r.below(1 << 20)); for (int i = 0; i < 10; i++) zeroed(r, (1 << 20) + r.below(6 << 20));
  for (int i = 0; i < 400; i++) { overflow(r); too_large(r); }
  // 3. resizing chains must not keep or lose blocks
  auto inuse = [] { auto v = MallocExtension::GetNumericProperty("generic.current_allocated_bytes"); return (long long)*v; };
  { void* w = malloc(10); for (int i = 0; i < 3000; i++) w = re(r, w, 1 + r.below(300000)); free(w); }
  long long before = inuse(); 
  for (int c = 0; c < 50; c++) { Live l; adopt(l, malloc(100), 100); for (int i = 0; i < 200; i++) resize(r, l, 1 + rand_size(r, 1 << 19)); if (r.chance(1, 2)) free(l.p); else if (re(r, l.p, 0)) FATAL("zero", "realloc to zero returned a block"); }
  long long after = inuse(); if (llabs(after - before) > 65536) VIOL("leak", "10000 resizes changed bytes in use by %lld", after - before);
  // 4. blocks aligned above the page size, resized about their usable size and freed by the new size; others of that size share what was freed
  for (int i = 0; i < (thorough() ? 30000 : 3000); i++) {
    size_t al = (size_t)1 << r.range(12, 19), n = 1 + r.below(r.chance(3, 4) ? 70000 : 262144); Live a[3];
    for (auto& l : a) { adopt(l, memalign(al, n), n); l.resized = false; if (r.chance(3, 4)) resize(r, l, l.us > 200 ? l.us - r.below(200) : l.us); }
    size_t ns = a[0].us; Live o[4]; for (auto& l : a) release(r, l);
    for (auto& l : o) { adopt(l, malloc(ns), ns); l.resized = false; } for (auto& l : o) { verify(l, "after its elders were freed"); free(l.p); }
  }
  // 5. concurrent random histories
  pthread_t t[4]; for (long i = 0; i < 4; i++) pthread_create(&t[i], 0, worker, (void*)i); for (auto x : t) pthread_join(x, nullptr);
  metric("evals", n_re + n_zero + n_fail + n_free0); metric("distinct", d.n); metric("resizes", n_re); metric("zeroed_blocks", n_zero); metric("clean_failures", n_fail); metric("resize_to_zero", n_free0);
  say("SAMPLE mode=%s percpu=%d resizes=%lld zeroed=%lld bytes in use moved %lld over 10000 resizes", argv[1], (int)MallocExtension::PerCpuCachesActive(), n_re.load(), n_zero.load(), after - before);
  return done();
}
