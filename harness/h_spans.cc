// P16: the list of allocated address ranges against the model of live blocks, alone and under concurrent load.
#include <algorithm>
#include <thread>
#include <vector>
#include "vt_api.h"
#include "tcmalloc/malloc_tracing_extension.h"
#include "tcmalloc/malloc_extension.h"
#include "tcmalloc/common.h"
#include "tcmalloc/guarded_page_allocator.h"
#include "tcmalloc/static_vars.h"
using namespace vt; using tcmalloc::MallocExtension;
namespace mte = tcmalloc::malloc_tracing_extension; namespace ti = tcmalloc::tcmalloc_internal;
static long long evals, n_list, n_sp, n_big, n_small; static Distinct dist;
struct B { char* p; size_t n, al; };
static bool mine(const void* p) { return ti::tc_globals.guardedpage_allocator().PointerIsMine(p); }
static long long n_guard;
// guarded blocks (at most one page each) are listed exactly while they live; a few belong to the harness itself
static void judge_guarded(std::vector<mte::AllocatedAddressRanges::SpanDetails>& v, std::vector<B>& live) {
  size_t listed = 0, g = 0; for (auto& s : v) listed += mine((void*)s.start_addr); for (auto& b : live) if (mine(b.p)) { g++; n_guard++; evals++; auto i = std::upper_bound(v.begin(), v.end(), (uintptr_t)b.p, [](uintptr_t a, auto& s) { return a < s.start_addr; }); if (i == v.begin() || (uintptr_t)b.p + b.n > (i - 1)->start_addr + (i - 1)->size) FATAL("missing", "a live guarded block of %zu is in no range", b.n); }
  if (listed > g + 4) FATAL("phantom", "%zu guarded ranges listed, %zu guarded blocks live", listed, g); dist.add(g * 64 + 7);
}
static bool list(std::vector<mte::AllocatedAddressRanges::SpanDetails>& v) {
  auto x = mte::GetAllocatedAddressRanges(); if (!x.ok()) return false; v = std::move(x->spans); n_list++; n_sp += v.size();
  for (size_t i = 0; i < v.size(); i++) { evals++; if (!v[i].size || v[i].start_addr % ti::kPageSize || v[i].size % ti::kPageSize) FATAL("span", "range %zx+%zx", v[i].start_addr, v[i].size); if (i && v[i - 1].start_addr + v[i - 1].size > v[i].start_addr) FATAL("order", "range %zx+%zx before %zx+%zx", v[i - 1].start_addr, v[i - 1].size, v[i].start_addr, v[i].size); if (v[i].object_size > ti::kMaxSize) FATAL("objsize", "object size %zu", v[i].object_size); }
  return true;
}
static void judge(std::vector<mte::AllocatedAddressRanges::SpanDetails>& v, std::vector<B>& live, bool exact) {
  for (auto& b : live) { evals++; auto i = std::upper_bound(v.begin(), v.end(), (uintptr_t)b.p, [](uintptr_t a, auto& s) { return a < s.start_addr; }); if (i == v.begin()) FATAL("missing", "a live block of %zu is in no range", b.n); --i; size_t us = malloc_usable_size(b.p);
    if ((uintptr_t)b.p + us > i->start_addr + i->size) FATAL("missing", "a live block of %zu is in no range", b.n);
    if (us > ti::kMaxSize || (b.al >= ti::kPageSize && !i->object_size)) { n_big++; if ((uintptr_t)b.p != i->start_addr || i->object_size || i->size != us) FATAL("large", "a block of %zu is listed as %zx bytes, object size %zu", b.n, i->size, i->object_size); i->object_size = ~0ull; }
    else { n_small++; if (i->object_size != us) FATAL("small", "a block of %zu with %zu usable bytes lies in a range for objects of %zu", b.n, us, i->object_size); if (((uintptr_t)b.p - i->start_addr) % us) FATAL("small", "a block of %zu lies across objects", us); }
    dist.add(us); }
  if (exact) { size_t tot = 0; for (auto& s : v) if (s.object_size == 0) tot++; if (tot > 2) FATAL("phantom", "%zu large ranges that belong to no live block", tot); }
}
int main(int argc, char** argv) {
  bool conc = argc > 1 && strchr(argv[1], 'T'); bool gd = argc > 1 && strchr(argv[1], 'G'); if (gd) { MallocExtension::SetProfileSamplingInterval(1 << 14); MallocExtension::SetGuardedSamplingInterval(1 << 14); MallocExtension::ActivateGuardedSampling(); } else { MallocExtension::SetProfileSamplingInterval(0); MallocExtension::SetGuardedSamplingInterval(-1); } free(malloc(8 << 20));
  Rng r(seed() * 77 + conc); std::vector<B> live; live.reserve(1 << 16); std::vector<mte::AllocatedAddressRanges::SpanDetails> v; std::atomic<bool> stop{false}; std::vector<std::thread> th;
  if (conc) for (int t = 0; t < 4; t++) th.emplace_back([&, t] { Rng q(seed() * 99 + t); void* a[256] = {}; while (!stop) { int i = q.below(256); if (a[i]) { free(a[i]); a[i] = nullptr; } else a[i] = malloc(q.chance(1, 3) ? q.below(2 << 20) : q.below(4000)); if (q.chance(1, 2000)) MallocExtension::ReleaseMemoryToSystem(q.below(8 << 20)); } for (void* p : a) free(p); });
  double deadline = now_ns() + (thorough() ? 200e9 : 4e9); int bias = 5; long long fails = 0;
  for (int k = 0; now_ns() < deadline; k++) { if (k % 300 == 0) bias = 2 + r.below(7);
    if ((int)r.below(10) < bias && live.size() < (gd ? 600 : 20000)) { size_t n = !gd && r.chance(1, 4) ? r.below(3 << 20) : r.chance(1, 2) ? r.below(ti::kMaxSize) : r.below(2000); void* p; size_t al = 1; if (r.chance(1, 10)) { al = 16ull << r.below(12); if (posix_memalign(&p, al, n)) FATAL("alloc", "posix_memalign"); } else p = malloc(n); live.push_back({(char*)p, n, al}); }
    else if (!live.empty()) { size_t j = r.below(live.size()); free(live[j].p); live[j] = live.back(); live.pop_back(); }
    if (k % 64 == 0) { if (!list(v)) { if (!conc) FATAL("failed", "the ranges cannot be listed at rest"); fails++; continue; } if (gd) judge_guarded(v, live); else judge(v, live, !conc); } }
  stop = true; for (auto& t : th) t.join();
  metric("evals", evals); metric("distinct", dist.n); metric("listings", n_list); metric("ranges", n_sp); metric("large_blocks", n_big); metric("small_blocks", n_small); metric("gave_up", fails); say("SAMPLE %lld listings of %lld ranges", n_list, n_sp); metric("guarded_seen", n_guard); if (!n_list || (gd && !n_guard)) return inconclusive("no listing succeeded"); return done();
}
