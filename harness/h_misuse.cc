// P23: every misuse the allocator can tell is reported with the right text (each in a child of its own, after random valid traffic),
// and valid frees of the same blocks are not. Modes: M misuse, V valid controls only; D assertions on (texts differ); C per-CPU.
#include <sys/syscall.h>
#include <thread>
#include "vt_child.h"
#include "vt_api.h"
#include "tcmalloc/pagemap.h"
#include "tcmalloc/parameters.h"
#include "tcmalloc/span.h"
#include "tcmalloc/static_vars.h"
using namespace vt;
using namespace tcmalloc;
using namespace tcmalloc::tcmalloc_internal;
using vt::kDense; using vt::Block; using vt::Arr;
static Distinct dist; static long long evals = 0, n_kind[16];
static bool strict = true;
enum What { WILD, MISALIGN, DOUBLE_, SIZE_, KIND, BULK, VALID, NWHAT };
static const char* what_name[] = {"wild pointer", "misaligned or interior pointer", "double free", "wrong size", "mismatched kind or alignment", "small blocks freed with a wrong size", "valid free"};
enum Kind { S, L, PS_, PL, G };
static const char* kind_name[] = {"small", "large", "sampled small", "sampled large", "guarded"};
struct Sh { char want[240], desc[400]; int skip; uint64_t sig; };
static Sh* sh;
static int sclass(void* p) { return tc_globals.pagemap().sizeclass(PageIdContainingTagged(p)); }
static Span* span_of(void* p) { return tc_globals.pagemap().GetDescriptor(PageIdContainingTagged(p)); }
static void traffic(Rng& r) { static Block b[64]; int n = 0; for (int i = 0; i < 150; i++) { if (n < 64 && r.chance(3, 5)) { int f = r.below(F_COUNT); b[n] = do_alloc(f, rand_size(r, 1 << 20), rand_align(r, 14), is_hc(f) ? (int)r.below(256) : -1); n++; } else if (n) { int k = r.below(n); do_free(b[k], r.next()); b[k] = b[--n]; } } while (n && r.chance(9, 10)) do_free(b[--n], r.next()); }
static void consume() { for (int i = 0; i < 300; i++) free(malloc(1 << 20)); }
// a block of the wanted kind
static bool make(Rng& r, Kind k, Block& b) {
  MallocExtension::SetGuardedSamplingInterval(k == G ? 0 : -1); MallocExtension::SetProfileSamplingInterval(k >= PS_ ? 1 : 0); if (k == G) MallocExtension::ActivateGuardedSampling(); consume();
  for (int i = 0; i < 200; i++) { int f; do f = r.below(F_COUNT); while (f == F_pvalloc || f == F_valloc); size_t sz, al = rand_align(r, 12);
    switch (k) { case S: sz = rand_size(r, 1 << 17); break; case L: case PL: sz = r.chance(1, 5) ? kMaxSize + 1 + r.below(3) : kMaxSize + 1 + r.below(r.chance(1, 3) ? 8 << 20 : 1 << 19); if (r.chance(1, 6) && is_aligned_fn(f)) al = std::min<size_t>(kPageSize << r.range(1, 4), 2 << 20), sz = r.chance(1, 3) ? r.below(3) : r.below(100000); break; case PS_: sz = rand_size(r, 1 << 17); break; case G: sz = 1 + r.below(kPageSize / 2); break; }
    b = do_alloc(f, sz, al, is_hc(f) ? (int)r.below(256) : -1); if (!b.p) continue; int c = sclass(b.p); Span* s = c ? nullptr : span_of(b.p); bool g = tc_globals.guardedpage_allocator().PointerIsMine(b.p); bool big = sz > kMaxSize || (is_aligned_fn(f) && al > kPageSize);
    if (k == S ? c != 0 : k == L ? !c && !s->sampled() && big : k == PS_ ? !c && !g && s->sampled() && !big : k == PL ? !c && !g && s->sampled() && big : g) return true; }
  return false;
}
// sized free of b claiming `sz` bytes; the alignment and kind are right
static const char* sized_free(const Block& b, size_t sz, uint64_t r) {
  void* p = b.p; std::align_val_t al = (std::align_val_t)b.align;
  switch (fam(b.fn)) { case kC: if (r & 1) { free_sized(p, sz); return "free_sized"; } sdallocx(p, sz, 0); return "sdallocx"; case kCAligned: if (r & 1 || b.align < 2) { free_aligned_sized(p, b.align, sz); return "free_aligned_sized"; } sdallocx(p, sz, lg2(b.align)); return "sdallocx_al";
    case kNew: ::operator delete(p, sz); return "delete_sized"; case kNewArr: ::operator delete[](p, sz); return "delete[]_sized"; case kNewAl: ::operator delete(p, sz, al); return "delete_sized_al"; default: ::operator delete[](p, sz, al); return "delete[]_sized_al"; }
}
// unsized free of the same family
static const char* plain_free(const Block& b, uint64_t r) {
  void* p = b.p; std::align_val_t al = (std::align_val_t)b.align; auto& nt = std::nothrow;
  switch (fam(b.fn)) { case kC: case kCAligned: if (r & 1) { cfree(p); return "cfree"; } free(p); return "free"; case kNew: if (r & 1) { ::operator delete(p, nt); return "delete_nt"; } ::operator delete(p); return "delete"; case kNewArr: if (r & 1) { ::operator delete[](p, nt); return "delete[]_nt"; } ::operator delete[](p); return "delete[]"; case kNewAl: if (r & 1) { ::operator delete(p, al, nt); return "delete_al_nt"; } ::operator delete(p, al); return "delete_al"; default: if (r & 1) { ::operator delete[](p, al, nt); return "delete[]_al_nt"; } ::operator delete[](p, al); return "delete[]_al"; }
}
#define DESC(...) snprintf(sh->desc, sizeof sh->desc, __VA_ARGS__)
#define WANT(...) snprintf(sh->want, sizeof sh->want, __VA_ARGS__)
static char globals[4096] __attribute__((aligned(64)));
static void wild(Rng& r) {
  char stack[256] __attribute__((aligned(64))); uintptr_t a; int src = r.below(7); bool high = false; void* keep = ::operator new(kMaxSize + 1);
  switch (src) { case 0: a = (uintptr_t)stack + 16 * r.below(10); break; case 1: a = (uintptr_t)globals + 16 * r.below(200); break; case 2: { char* m = (char*)mmap(nullptr, 1 << 20, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); a = (uintptr_t)m + 4096 * r.below(200); break; } case 3: a = (1 + r.below(0xfffffff)) * 16; break; case 4: a = ((r.next() >> 17) & ~15ull) | 16; break;
    case 5: a = ((r.next() & ~15ull) | (1ull << (kAddressBits + r.below(64 - kAddressBits)))); high = true; break; default: a = ((uintptr_t)keep & ~((1ull << 30) - 1)) + (1ull << 30) - kPageSize * (1 + r.below(50)); break; }
  if (!high && (sclass((void*)a) || span_of((void*)a))) { sh->skip = 1; _exit(77); }  // happens to be in use
  if (r.chance(1, 5)) a += 1 + r.below(15); void* q = (void*)a; size_t big = kMaxSize + 1 + r.below(1 << 22); int how = r.below(high ? 14 : 12); WANT("Attempted to free corrupted pointer %p", q); sh->sig = src * 16 + how;
  static const char* n[] = {"free", "delete", "delete[]", "delete_nt", "delete_al", "realloc", "reallocarray", "cfree", "delete_sized(large)", "free_sized(large)", "sdallocx(large)", "tok1_realloc", "delete_sized(small)", "free_aligned_sized(small)"}; DESC("%s of %p (source %d)", n[how], q, src); void* volatile z = nullptr;
  switch (how) { case 0: free(q); break; case 1: ::operator delete(q); break; case 2: ::operator delete[](q); break; case 3: ::operator delete(q, std::nothrow); break; case 4: ::operator delete(q, (std::align_val_t)32); break; case 5: z = realloc(q, 1 + r.below(100000)); break; case 6: z = reallocarray(q, 3, 1 + r.below(100)); break; case 7: cfree(q); break; case 8: ::operator delete(q, big); break; case 9: free_sized(q, big); break; case 10: sdallocx(q, big, 0); break; case 11: z = __alloc_token_1_realloc(q, 1 + r.below(1000)); break; case 12: ::operator delete(q, 1 + r.below(1000)); break; case 13: free_aligned_sized(q, 32, 1 + r.below(1000)); break; }
}
static void misalign(Rng& r, Kind k, Block b) {
  size_t n = malloc_usable_size(b.p); size_t d; if (k == S) d = 1 + r.below(7); else if (k == G) { if (n < 2) { sh->skip = 1; _exit(77); } d = 1 + r.below(n - 1); } else { size_t lim = std::min<size_t>(std::max<size_t>(n, 2), kPageSize); d = r.chance(1, 2) ? 1 + r.below(std::min<size_t>(16, lim - 1)) : 1 + r.below(lim - 1); }
  Block c = b; c.p = (char*)b.p + d; uint64_t rr = r.next(); size_t cls; bool sized = r.chance(1, 2); (void)cls; WANT("Attempted to free corrupted pointer %p", c.p);
  bool page = false; if ((k == L || k == PL) && !sized && n > kPageSize && kPageSize != 4096 && r.chance(1, 3)) { c.p = (char*)b.p + kPageSize * (1 + r.below(n / kPageSize - (n % kPageSize ? 0 : 1))); if ((char*)c.p >= (char*)b.p + n) c.p = (char*)b.p + kPageSize; page = true; sh->want[0] = 0; }
  DESC("%s block %s(%zu, align %zu) at %p freed at %p (%s%s)", kind_name[k], fn_name(b.fn), b.req, b.align, b.p, c.p, sized ? "sized" : "unsized", page ? ", whole pages inside" : ""); sh->sig = k * 64 + sized * 32 + page * 16 + (d < 8 ? d : 8 + d % 8);
  if (sized) sized_free(c, b.req, rr); else plain_free(c, rr);
}
static void twice(Rng& r, Kind k, Block b) {
  std::vector<Block> other; static Block o[10]; int no = r.below(8); for (int i = 0; i < no; i++) o[i] = do_alloc(F_malloc, kMaxSize + 1 + r.below(1 << 20), 16, -1); bool sized = r.chance(1, 3) && (k == PS_ || b.req > kMaxSize); int how = sized ? 1 : fam(b.fn) == kC && r.chance(1, 4) ? 2 : 0; uint64_t rr = r.next(); WANT("Possible double free detected of %p", b.p); DESC("%s block %s(%zu, align %zu) at %p freed, then %d other blocks, then %s", kind_name[k], fn_name(b.fn), b.req, b.align, b.p, no, how == 1 ? "a sized free" : how == 2 ? "realloc" : "a free"); sh->sig = k * 8 + how;
  bool other_thread = r.chance(1, 4); do_free(b, r.next()); for (int i = 0; i < no; i++) do_free(o[i], r.next());
  auto second = [&] { if (how == 1) sized_free(b, b.req, rr); else if (how == 2) { void* volatile z = realloc(b.p, 1 + rr % 100000); (void)z; } else plain_free(b, rr); }; (void)other_thread; second();
}
static void size_wrong(Rng& r, Kind k, Block b) {
  size_t us = malloc_usable_size(b.p), lo, hi, X; bool aligned_big = is_aligned_fn(b.fn) && b.align > kPageSize; bool anysize = k == PS_ || k == G || aligned_big;
  if (k == L) { hi = us; lo = hi - kPageSize + 1; } else if (is_sr(b.fn)) { lo = b.req; hi = b.cap; } else lo = hi = b.req;
  for (int t = 0;; t++) { if (t > 200) { sh->skip = 1; _exit(77); } switch (r.below(7)) { case 0: X = hi + 1; break; case 1: X = lo - 1; break; case 2: X = hi * 2 + 1; break; case 3: X = lo / 2; break; case 4: X = r.below(hi * 2 + 2); break; case 5: X = hi + 1 + r.below(kPageSize); break; default: X = r.next() >> r.below(20); break; }
    if (lo <= X && X <= hi) continue; if (!anysize && X <= kMaxSize) continue; if (k == L && X == 0) continue; break; }
  if (k == L) WANT("of %zu bytes (expected between [%zu, %zu] bytes) for %p at:", X, lo, hi, b.p); else if (lo != hi) WANT("of %zu bytes (expected %zu - %zu bytes) at:", X, lo, hi); else WANT("of %zu bytes (expected %zu bytes) at:", X, lo);
  DESC("%s block %s(%zu, align %zu) at %p, usable %zu, freed with size %zu", kind_name[k], fn_name(b.fn), b.req, b.align, b.p, us, X); sh->sig = k * 4096 + (X < lo) * 2048 + lg2(X + 1) * 8 + is_sr(b.fn) * 2 + is_aligned_fn(b.fn);
  sized_free(b, X, r.next());
}
static void kind_wrong(Rng& r, Kind k, Block b) {
  Fam f = fam(b.fn); void* p = b.p; auto A = (std::align_val_t)b.align; size_t sz = b.req; int how = r.below(6); const char* expected = f == kC ? "malloc" : f == kCAligned ? "aligned-malloc" : "new"; uint64_t rr = r.next(); sh->sig = k * 512 + f * 32 + how;
  const char* desc = ""; auto D = [&](const char* s) { desc = s; DESC("%s block %s(%zu, align %zu) at %p freed by %s", kind_name[k], fn_name(b.fn), b.req, b.align, b.p, s); };
  bool small_ok = k == PS_ || k == G || sz > kMaxSize;  // a sized free with a small size does not look at the record of a large block
  if (f == kC || f == kCAligned) { bool sized = how & 1; if (sized && !small_ok) how--;
    if (f == kC && how >= 4 && small_ok) { size_t al = 1ull << r.range(4, 9); while ((uintptr_t)p % al) al >>= 1; if (al < 2) { sh->skip = 1; _exit(77); } WANT("Deallocating %p with alignment", p); D("free_aligned_sized"); free_aligned_sized(p, al, sz); return; }
    if (f == kCAligned && how >= 4 && small_ok) { WANT("Deallocating %p with alignment", p); D("free_sized"); free_sized(p, sz); return; }
    WANT("Deallocating %p with new, expected %s", p, expected); switch (how & 3) { case 0: D("delete"); ::operator delete(p); return; case 1: D("sized delete"); ::operator delete(p, sz); return; case 2: D("delete[]"); ::operator delete[](p); return; default: D("sized delete[]"); ::operator delete[](p, sz); return; } }
  if (how < 2) { WANT("Deallocating %p with malloc, expected new", p); if (how == 0 || !small_ok) { D("free"); free(p); } else { D("free_sized"); free_sized(p, sz); } return; }
  if (f == kNew || f == kNewArr) { size_t al = 1ull << r.range(3, 8); while ((uintptr_t)p % al) al >>= 1; WANT("Deallocating %p with alignment %zu, expected ???", p, al); auto W = (std::align_val_t)al; if (how & 1 && small_ok) { D("sized aligned delete"); ::operator delete(p, sz, W); } else { D("aligned delete"); ::operator delete(p, W); } return; }
  if (how < 4) { WANT("Deallocating %p with alignment ???, expected %zu", p, b.align); if (how & 1 && small_ok) { D("sized delete without alignment"); ::operator delete(p, sz); } else { D("delete without alignment"); ::operator delete(p); } return; }
  size_t al = b.align; while (al == b.align) al = 1ull << r.below(lg2(b.align) + 2); while ((uintptr_t)p % al) al >>= 1; if (al == b.align) al = b.align / 2; if (!al) { sh->skip = 1; _exit(77); } auto W = (std::align_val_t)al; WANT("Deallocating %p with alignment %zu, expected %zu", p, al, b.align); if (how & 1 && small_ok && (k == PS_ || k == G)) { D("sized delete of another alignment"); ::operator delete(p, sz, W); } else { D("delete of another alignment"); ::operator delete(p, W); } (void)rr; (void)desc; (void)A;
}
static void bulk(Rng& r) { // enough of them reach the shared lists
  MallocExtension::SetProfileSamplingInterval(0); consume(); size_t a = 1 + r.below(1024), w; int ca, cw; for (;;) { w = 1 + r.below(1200); void* x = ::operator new(a); void* y = ::operator new(w); ca = sclass(x); cw = sclass(y); ::operator delete(x); ::operator delete(y); if (!ca || !cw) { sh->skip = 1; _exit(77); } if (ca != cw) break; }
  WANT("Mismatched-size-class"); DESC("60000 blocks of %zu bytes freed as if of %zu", a, w); sh->sig = ca * 256 + cw; static void* p[60000]; for (auto& x : p) x = ::operator new(a); for (auto& x : p) ::operator delete(x, w); for (int c = 0; c < 64; c++) MallocExtension::ReleaseCpuMemory(c); MallocExtension::MarkThreadIdle();
}
static void one(uint64_t s, bool controls) {
  Rng r(s); What w = controls ? VALID : r.chance(1, 60) ? BULK : (What)r.below(5); if (!controls && r.chance(1, 12)) w = VALID; Kind k = (Kind)r.below(5); if (w == SIZE_ && k == S) k = PS_; if (w == DOUBLE_ && (k == S || k == G)) k = r.chance(1, 2) ? PS_ : PL; if (w == KIND && k < PS_) k = PS_; Outcome o; memset(sh, 0, sizeof *sh);
  run_child(o, [&] { traffic(r); if (w == WILD) return wild(r); if (w == BULK) return bulk(r); Block b; if (!make(r, k, b)) { sh->skip = 1; _exit(77); }
    switch (w) { case MISALIGN: return misalign(r, k, b); case DOUBLE_: return twice(r, k, b); case SIZE_: return size_wrong(r, k, b); case KIND: return kind_wrong(r, k, b);
      default: { const char* h = nullptr; for (int i = 0; i < 60; i++) { DESC("%s block %s(%zu, align %zu) at %p, the %dth", kind_name[k], fn_name(b.fn), b.req, b.align, b.p, i); h = do_free(b, r.next()); sh->sig = k * 64 + b.fn * 8192 + b.req % 64; if (!make(r, k, b)) return; } (void)h; return; } } });
  if (sh->skip) return; evals++; n_kind[w]++; char t[1000]; o.shown(t, sizeof t); if (o.timeout) FATAL("hang", "%s: %s: still running after a minute", what_name[w], sh->desc); dist.add(w * 100000007ull + sh->sig);
  if (w == VALID) { if (!(WIFEXITED(o.status) && WEXITSTATUS(o.status) == 77)) FATAL("alarm", "valid use (%s) ended with status %x: %s", sh->desc, o.status, t); if (o.n) FATAL("alarm", "valid use (%s) printed: %s", sh->desc, t); return; }
  if (WIFEXITED(o.status)) FATAL("silent", "%s: %s: not noticed (status %x) %s", what_name[w], sh->desc, o.status, t);
  if (!o.killed(SIGABRT)) FATAL("crash", "%s: %s: ended by signal %d instead of a diagnostic: %s", what_name[w], sh->desc, WTERMSIG(o.status), t);
  if (!o.n) FATAL("silent", "%s: %s: died without a word", what_name[w], sh->desc);
  if (strict && !o.has(sh->want)) FATAL("text", "%s: %s: expected \"%s\", got: %s", what_name[w], sh->desc, sh->want, t);
  if (strict && !o.has("corrupted pointer") && !o.has("double free") && !o.has("Mismatched-size") && !o.has("Deallocating")) FATAL("text", "%s: %s: no diagnosis in: %s", what_name[w], sh->desc, t);
}
int main(int argc, char** argv) {
  uint64_t end = now_ns() + (thorough() ? 200ull : 4ull) * 1000000000; const char* m = argv[1]; free(malloc(8)); sh = shared<Sh>(); strict = !strchr(m, 'D');
  if (strchr(m, 'C') && !MallocExtension::PerCpuCachesActive()) return inconclusive("per-CPU caches not active");
  for (uint64_t i = 0; now_ns() < end; i++) one(seed() * 1000003 + i * 7919 + m[0] * 31, m[0] == 'V');
  metric("evals", evals); metric("distinct", dist.n); for (int i = 0; i < NWHAT; i++) if (n_kind[i]) { char b[40]; snprintf(b, 40, "kind_%d", i); metric(b, n_kind[i]); say("SAMPLE %s: %lld children", what_name[i], n_kind[i]); }
  return done();
}
