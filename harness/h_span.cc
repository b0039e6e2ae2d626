// P12: one real span at a time, over every size class of every table, against a set model: which objects are free, how many
// are out, when the span is wholly free. Contents of live objects and of the memory around the span are watched throughout.
#include <algorithm>
#include <vector>
#include "vt.h"
#include "tcmalloc/sizemap.h"
#include "tcmalloc/span.h"
#include "tcmalloc/central_freelist.h"
using namespace vt; using namespace tcmalloc::tcmalloc_internal; using tcmalloc::tcmalloc_internal::Length;
static long long evals, n_pop, n_push, n_full, n_spans; static Distinct dist;
#ifdef TCMALLOC_INTERNAL_LEGACY_LOCKING
static constexpr bool kLeg = true;
#else
static constexpr bool kLeg = false;
#endif
static bool push(Span& s, const std::vector<void*>& v, size_t size, uint32_t rec) {
#ifdef TCMALLOC_INTERNAL_LEGACY_LOCKING
  return s.FreelistPushBatch(absl::Span<void*>(const_cast<void**>(v.data()), v.size()), size, rec);
#else
  static Span::ObjIdx idx[70000]; size_t n = 0; bool bm = Span::UseBitmapForSize(size);
  for (void* p : v) { idx[n] = bm ? s.BitmapPtrToIdx(p, size, rec) : s.PtrToIdx(p, size); n++; }
  return s.FreelistPushBatch(absl::Span<Span::ObjIdx>(idx, n), size, rec);
#endif
}
static char* area; static constexpr size_t kPad = 4096;
static void one(Rng& r, size_t size, Length len, long steps) {
  n_spans++; size_t bytes = len.in_bytes(), per = bytes / size; uint32_t rec = Span::CalcReciprocal(size); bool bm = Span::UseBitmapForSize(size);
  char* base = area + (1 + r.below(1000)) * kPageSize; fill(base - kPad, kPad, 77); fill(base + bytes, kPad, 78); size_t tail = bytes - per * size; fill(base + per * size, tail, 79);
  alignas(64) char sm[sizeof(Span) + 256]; memset(sm, 0x5a, sizeof sm); char* at = (char*)(((uintptr_t)sm + 127) & ~63ull); memset(at - 32, 0xA7, 32); memset(at + sizeof(Span), 0xA7, 32);
  Span& s = *new (at) Span(Range(PageIdContaining(base), len));
  auto guard = [&](const char* w) { for (int i = 0; i < 32; i++) if ((uint8_t)at[-1 - i] != 0xA7 || (uint8_t)at[sizeof(Span) + i] != 0xA7) FATAL("control", "size %zu x %zu: %s wrote outside the span record", size, per, w); };
  if (s.start_address() != base || s.bytes_in_span() != bytes || s.num_pages() != len || s.first_page() + len != s.last_page() + Length(1)) FATAL("range", "size %zu: span range misreported", size);
  uint64_t time = r.next() >> r.below(20); std::vector<uint8_t> out(per); std::vector<uint32_t> held; std::vector<uint64_t> id(per); size_t nfree = per; uint64_t next = 1;
  auto got = [&](void* p, const char* w) {
    size_t off = (char*)p - base; if ((char*)p < base || off + size > bytes) FATAL("bounds", "size %zu: %s gave offset %zu of a %zu-byte span", size, w, off, bytes); if (off % size) FATAL("position", "size %zu: %s gave offset %zu", size, w, off);
    size_t i = off / size; if (out[i]) FATAL("twice", "size %zu: object %zu handed out while out (%s)", size, i, w); out[i] = 1; nfree--; id[i] = next++; fill(p, size, id[i]); held.push_back(i); n_pop++;
    if (bm && s.BitmapPtrToIdx(p, size, rec) != i) FATAL("index", "size %zu: object %zu has index %d", size, i, s.BitmapPtrToIdx(p, size, rec)); if (bm && s.BitmapIdxToPtr(i, size) != p) FATAL("index", "size %zu: index %zu maps elsewhere", size, i);
  };
  auto state = [&](const char* w) { evals++; if (s.Allocated() != per - nfree) FATAL("count", "size %zu x %zu: %d counted out after %s, %zu are", size, per, s.Allocated(), w, per - nfree); if (s.FreelistEmpty(size, per) != (nfree == 0)) FATAL("empty", "size %zu x %zu: FreelistEmpty=%d after %s with %zu free", size, per, s.FreelistEmpty(size, per), w, nfree); guard(w); };
  std::vector<void*> b(70000); size_t n0 = r.below(4) ? std::min<size_t>(per, 1 + r.below(kMaxObjectsToMove)) : r.below(5) ? r.below(per + 1) : per;
  auto build = [&](size_t k) { std::fill(b.begin(), b.begin() + k + 64, (void*)0xdead); int g = s.BuildFreelist(size, per, {b.data(), k}, time); if (g != (int)std::min(k, per)) FATAL("build", "size %zu x %zu: %d handed out at the start for %zu wanted", size, per, g, k); for (int i = 0; i < g; i++) got(b[i], "building"); for (size_t i = g; i < k + 64; i++) if (b[i] != (void*)0xdead) FATAL("batch", "building wrote entry %zu of a batch of %zu", i, k); state("building");
    uint64_t t = s.AllocTime(), m = kLeg ? 0 : 255; if ((t | m) != (time | m) && (t & ~m) != (time & ((1ull << 56) - 1) & ~m)) FATAL("time", "allocation time %llu recorded as %llu", (unsigned long long)time, (unsigned long long)t); };
  build(n0); int bias = 50;
  for (long st = 0; st < steps; st++) {
    if (r.chance(1, 40)) bias = 15 + r.below(71); uint8_t ni = r.below(kLeg ? 31 : 255); if (r.chance(1, 10)) { s.set_nonempty_index(ni); if (s.nonempty_index() != ni) FATAL("index", "list index %d read back as %d", ni, s.nonempty_index()); }
    if ((int)r.below(100) < bias && nfree) {
      size_t k = 1 + (r.chance(1, 6) ? r.below(per + 3) : r.below(kMaxObjectsToMove)); std::fill(b.begin(), b.begin() + k + 2, (void*)0xdead); size_t f0 = nfree, g = s.FreelistPopBatch({b.data(), k}, size); dist.add(size * 1000003 + k * 131 + std::min<size_t>(f0, 300));
      if (g > k || g > f0) FATAL("popcount", "size %zu: %zu popped for %zu with %zu free", size, g, k, f0); for (size_t i = 0; i < g; i++) got(b[i], "popping"); for (size_t i = g; i < k + 2; i++) if (b[i] != (void*)0xdead) FATAL("batch", "size %zu: popping %zu of %zu wrote entry %zu", size, g, k, i);
      if (g != std::min(k, f0)) FATAL("popcount", "size %zu x %zu: %zu popped for %zu with %zu free", size, per, g, k, f0); state("popping");
    } else if (held.size()) {
      size_t k = std::min(held.size(), 1 + (r.chance(1, 8) ? r.below(per) : r.below(kMaxObjectsToMove))); std::vector<void*> v; std::vector<uint32_t> vi;
      for (size_t i = 0; i < k; i++) { size_t j = r.chance(1, 2) ? held.size() - 1 : r.below(held.size()); uint32_t o = held[j]; held[j] = held.back(); held.pop_back(); char* p = base + o * size; long c = check(p, size, id[o]); if (c >= 0) FATAL("content", "size %zu: live object %u changed at byte %ld", size, o, c); v.push_back(p); vi.push_back(o); }
      bool all = k == per - nfree, kept = push(s, v, size, rec); n_push += k; dist.add(~(size * 1000003 + k * 131 + std::min<size_t>(nfree, 300)));
      if (kept == all) FATAL("full", "size %zu x %zu: returning %zu with %zu out said kept=%d", size, per, k, per - nfree, kept);
      if (!kept) { n_full++; for (auto o : vi) out[o] = 0; nfree = per; guard("the last return"); new (at) Span(Range(PageIdContaining(base), len)); time = r.next() >> r.below(20); build(r.below(2) ? 1 : std::min<size_t>(per, 1 + r.below(kMaxObjectsToMove))); }
      else { for (auto o : vi) out[o] = 0; nfree += k; state("returning"); }
    }
    if (st % 64 == 63) for (auto o : held) { long c = check(base + o * size, size, id[o]); evals++; if (c >= 0) FATAL("content", "size %zu: live object %u changed at byte %ld", size, o, c); }
  }
  // drain completely: every object comes out exactly once
  while (nfree) { size_t g = s.FreelistPopBatch({b.data(), 1 + r.below(kMaxObjectsToMove)}, size); if (!g) FATAL("lost", "size %zu x %zu: %zu objects free, none handed out", size, per, nfree); for (size_t i = 0; i < g; i++) got(b[i], "draining"); state("draining"); }
  for (auto o : held) { long c = check(base + o * size, size, id[o]); if (c >= 0) FATAL("content", "size %zu: live object %u changed at byte %ld", size, o, c); }
  if (check(base - kPad, kPad, 77) >= 0 || check(base + bytes, kPad, 78) >= 0 || check(base + per * size, tail, 79) >= 0) FATAL("outside", "size %zu x %zu: memory around the objects was written", size, per);
}
int main(int argc, char** argv) {
  Rng r(seed() * 104729); area = (char*)mmap((void*)0x300000000000, 2000 * kPageSize, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); area = (char*)(((uintptr_t)area + kPageSize - 1) & ~(kPageSize - 1));
  const SizeClasses* tabs[] = {&SizeMap::CurrentClasses(), &kExperimentalPow2SizeClasses, &kLegacySizeClasses, &kReuseRelaxedBelow64SizeClasses}; long steps = thorough() ? 6000 : 600; int reps = thorough() ? 12 : 1; size_t nc = 0;
  for (auto* t : tabs) { SizeMap m; if (!m.Init(t->classes)) continue; for (int k = 0; k < reps; k++) for (size_t c = 1; c < kNumBaseClasses; c++) { size_t sz = m.class_to_size(c); if (!sz) continue; Length l(m.class_to_pages(c)); if (l.in_bytes() / sz < 2) continue; nc++; if (!Span::IsValidSizeClass(sz, l)) FATAL("valid", "class %zu of %zu bytes x %zu pages is not valid for a span", c, sz, l.raw_num()); one(r, sz, l, steps); } }
  // any accepted (size, pages) pair must work, in a table or not
  int syn = thorough() ? 4000 : 250, okn = 0; for (int i = 0; i < syn * 20 && okn < syn; i++) { size_t sz = 8 * (1 + r.below(r.chance(1, 2) ? 128 : 4096)); Length l(1 + r.below(r.chance(1, 2) ? 4 : 31)); if (l.in_bytes() / sz < 2 || (sz > 1024 && sz % 64) || l.in_bytes() > 256 * kPageSize || !Span::IsValidSizeClass(sz, l)) continue; if (!Span::UseBitmapForSize(sz) && l != Length(1)) continue; okn++; one(r, sz, l, 200); }
  metric("spans", n_spans); metric("popped", n_pop); metric("pushed", n_push); metric("wholly_free", n_full); metric("invented_classes", okn); metric("evals", evals + n_pop + n_push); metric("distinct", dist.n);
  say("SAMPLE %lld spans (%d of invented sizes), %lld objects handed out, %lld returned, %lld times wholly free", n_spans, okn, n_pop, n_push, n_full); return done();
}
