// P17, end to end: what each allocation entry point hands out has exactly the size of the smallest class that fits and is aligned.
#include "vt_api.h"
#include "tcmalloc/static_vars.h"
#include "tcmalloc/sizemap.h"
using namespace vt;
using namespace tcmalloc::tcmalloc_internal;
using tcmalloc::MallocExtension;
static Distinct dist; static long long evals, blocks;
static size_t want(size_t s, size_t al) { auto& c = SizeMap::CurrentClasses().classes; for (size_t k = 1; k < c.size(); k++) if (c[k].size >= s && c[k].size % al == 0) return c[k].size; return 0; }
int main(int argc, char** argv) {
  free(malloc(8)); if (strchr(argv[1], 'C') && !MallocExtension::PerCpuCachesActive()) return inconclusive("per-CPU caches not active");
  MallocExtension::SetProfileSamplingInterval(0); for (int i = 0; i < 40; i++) ::operator delete(::operator new(64 << 20));
  Rng r(seed() * 131); auto& cls = SizeMap::CurrentClasses().classes; int reps = thorough() ? 40 : 2;
  for (size_t s = 1, st = 1; s <= kMaxSize; s += st) { st = s < 4096 || thorough() ? 1 : 1 + r.below(9); size_t n = nallocx(s, 0), w = want(s, 1); evals++; if (n != w) FATAL("predict", "nallocx(%zu) = %zu, the smallest class is %zu", s, n, w); if (MallocExtension::GetEstimatedAllocatedSize(s) != w) FATAL("predict", "GetEstimatedAllocatedSize(%zu) is not %zu", s, w); }
  for (int f = 0; f < F_COUNT; f++) for (size_t c = 1; c < cls.size(); c++) for (int v = 0; v < 4 * reps; v++) {
    size_t lo = cls[c - 1].size + 1, hi = cls[c].size, s = v % 4 == 0 ? hi : v % 4 == 1 ? lo : r.range(lo, hi); if (f == F_pvalloc || (v % 4 == 3 && r.chance(1, 2) && s > 65536)) continue;
    size_t al = is_aligned_fn(f) ? (size_t)1 << r.below(__builtin_ctzl(kPageSize)) : 1; if (f == F_valloc) al = kPageSize < 4096 ? kPageSize : 4096; if (f == F_posix_memalign || f == F_tok1_posix_memalign) if (al < 8) al = 8;
    if (al >= kPageSize) continue;
    Block b = do_alloc(f, s, al, is_hc(f) ? (int)r.below(256) : -1); if (!b.p) FATAL("null", "%s(%zu) failed", fn_name(f), s);
    size_t a = is_aligned_fn(f) ? al : fam(f) == kC ? 16 : 1, w = want(s, a), w2 = w, us = malloc_usable_size(b.p); blocks++; evals++;
    if (fam(f) == kC && s % 16 && s <= 8) w2 = want(s, 8);  // malloc of at most 8 bytes cannot need 16
    if (us != w && us != w2) FATAL("usable", "%s(%zu, align %zu): %zu usable bytes, the smallest fitting class has %zu", fn_name(f), s, al, us, w);
    dist.add(f * 1000003ull + c * 31 + __builtin_ctzl(al)); do_free(b, r.next());
  }
  metric("evals", evals); metric("distinct", dist.n); metric("blocks", blocks);
  say("SAMPLE classes=%zu blocks=%lld percpu=%d partitions=%d", cls.size(), blocks, (int)MallocExtension::PerCpuCachesActive(), (int)tc_globals.active_partitions());
  return done();
}
