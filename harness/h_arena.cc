// P30: metadata memory. A arenas of their own under random requests, O recycled metadata objects, T both from several threads,
// G (full build) the allocator's own arena while an application allocates.
#include <algorithm>
#include <map>
#include <memory>
#include <mutex>
#include <thread>
#include <vector>
#include "vt.h"
#include "tcmalloc/arena.h"
#include "tcmalloc/internal/explicitly_constructed.h"
#include "tcmalloc/internal/memory_tag.h"
#include "tcmalloc/malloc_extension.h"
#include "tcmalloc/metadata_object_allocator.h"
#include "tcmalloc/span.h"
#include "tcmalloc/static_vars.h"
using namespace vt;
using namespace tcmalloc;
using namespace tcmalloc::tcmalloc_internal;
static Distinct dist; static Rlx<long long> evals{0}, n_alloc{0}, n_block{0}, n_reuse{0}, n_obj{0}, n_recycled{0};
struct Rec { size_t n; uint64_t id; };
static std::mutex all_mu; static std::map<char*, size_t> all_live;  // every range handed out in this process and not taken back
static void claim(char* p, size_t n, const char* who) {
  std::lock_guard<std::mutex> l(all_mu); auto i = all_live.lower_bound(p); if (i != all_live.end() && i->first < p + n) FATAL("overlap", "%s: %p+%zu overlaps %p+%zu, still in use", who, p, n, i->first, i->second); if (i != all_live.begin() && (--i)->first + i->second > p) FATAL("overlap", "%s: %p+%zu overlaps %p+%zu, still in use", who, p, n, i->first, i->second); all_live[p] = n; }
static void unclaim(char* p) { std::lock_guard<std::mutex> l(all_mu); all_live.erase(p); }
static size_t some_bytes(Rng& r) { switch (r.below(9)) { case 0: return 1 + r.below(16); case 1: return sizeof(Span) - 2 + r.below(4); case 2: case 3: case 4: return 1 + r.below(500); case 5: return 1 + r.below(8192); case 6: return 60000 + r.below(10000); case 7: return (128 << 10) - 100 + r.below(200); default: return r.chance(1, 20) ? 1 + r.below(3 << 20) : 64 * (1 + r.below(30)); } }
static size_t some_align(Rng& r) { return r.chance(1, 2) ? 8 : r.chance(1, 40) ? 1ull << r.range(13, 18) : 1ull << r.range(0, 13); }
struct Model { std::vector<std::pair<uintptr_t, uintptr_t>> left; uintptr_t c = 0, e = 0; std::map<char*, size_t> blocks; std::map<char*, Rec> live; size_t handed = 0, sys = 0; int64_t moved = 0, nonres = 0; };
static Rlx<long long> n_full{0};
static void keep(Model& m, size_t stashed) { // the last remainder is kept if it can hold a span and fewer than 100 are
  auto& x = m.left.back(); x.first = (x.first + 7) & ~7ull; if (stashed >= 100 || x.first + sizeof(Span) > x.second) m.left.pop_back(); }
static void arena(Rng& r) {
  auto& a = *new (mmap(nullptr, 8192, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0)) Arena(); Model m; int ops = 50 + r.below(r.chance(1, 8) ? 3000 : 400); bool small_only = r.chance(1, 3); int many = r.chance(1, 25) ? 90 + (int)r.below(60) : 0; /* leave that many remainders */ if (many) ops = many + 400, small_only = false; ArenaStats s0 = a.stats(); if (s0.bytes_allocated || s0.bytes_unallocated || s0.bytes_unavailable || s0.bytes_nonresident || s0.blocks || s0.freelist_blocks) FATAL("stats", "a fresh arena is not empty"); size_t pad = 0; uint64_t id = r.next();
  for (int i = 0; i < ops; i++) {
    if (r.chance(1, 12) && m.handed > 100) { int64_t d = r.below((m.handed - m.moved) / 2 + 1); if (r.chance(1, 3) && m.moved >= d) d = -(int64_t)r.below(m.moved + 1); a.UpdateAllocatedAndNonresident(-d, d); m.moved += d; continue; }
    size_t n = small_only ? 1 + r.below(300) : some_bytes(r), al = small_only && r.chance(3, 4) ? 8 : some_align(r); if (many) { al = r.chance(3, 4) ? 8 : 16; n = i < many ? (2u << 20) - r.below(r.chance(1, 8) ? 100 : 3000) : 1 + r.below(r.chance(1, 20) ? 6000 : 2500); } if (m.sys + n > (many ? 400u << 20 : 64u << 20)) break; if (!many && r.chance(1, 300)) al = 1u << r.range(21, 22); ArenaStats b = a.stats(); char* p = (char*)a.Alloc(n, (std::align_val_t)al); ArenaStats e = a.stats(); evals++; n_alloc++;
    char d[140]; snprintf(d, 140, "Alloc(%zu, align %zu), the %dth", n, al, i); if ((uintptr_t)p % al) FATAL("align", "%s: %p", d, p); claim(p, n, d); if (GetMemoryTag(p) != MemoryTag::kMetadata || GetMemoryTag(p + n - 1) != MemoryTag::kMetadata) FATAL("place", "%s: %p does not lie in the metadata regions", d, p);
    size_t tb = b.bytes_allocated + b.bytes_unallocated + b.bytes_unavailable + b.bytes_nonresident, te = e.bytes_allocated + e.bytes_unallocated + e.bytes_unavailable + e.bytes_nonresident;
    if (e.blocks != b.blocks) { if (e.blocks != b.blocks + 1) FATAL("blocks", "%s: %zu blocks after %zu", d, e.blocks, b.blocks); size_t sz = te - tb; if (te < tb || sz < n || sz < (128u << 10) || sz > (1ull << 31)) FATAL("block", "%s: a new block of %zd bytes", d, (ssize_t)(te - tb)); char* bs = p; m.blocks[bs] = sz; m.sys += sz; n_block++; m.left.push_back({m.c, m.e}); for (auto& x : m.left) { uintptr_t st = (x.first + 7) & ~7ull; if (((st + al - 1) & -al) + n <= x.second) FATAL("unused", "%s: a new block although the %zu bytes left at %p would do", d, (size_t)(x.second - st), (void*)st); } keep(m, b.freelist_blocks); m.c = (uintptr_t)p + n; m.e = (uintptr_t)p + sz; }
    else if (te != tb) FATAL("total", "%s: bytes accounted for change from %zu to %zu without a new block", d, tb, te);
    else { auto x = m.blocks.upper_bound(p); if (x == m.blocks.begin() || (--x, p + n > x->first + x->second)) FATAL("place", "%s: %p lies in no block of this arena", d, p); if ((uintptr_t)p >= m.c && (uintptr_t)p + n <= m.e) m.c = (uintptr_t)p + n; else { n_reuse++; m.left.push_back({m.c, m.e}); keep(m, b.freelist_blocks); auto y = std::find_if(m.left.begin(), m.left.end(), [&](auto& z) { return (uintptr_t)p >= z.first && (uintptr_t)p + n <= z.second; }); if (y == m.left.end()) FATAL("place", "%s: %p is neither next nor in a remainder", d, p); m.c = (uintptr_t)p + n; m.e = y->second; m.left.erase(y); } }
    size_t un = m.e - m.c; for (auto& x : m.left) un += x.second - x.first; if (e.bytes_unallocated != un || e.freelist_blocks != m.left.size()) FATAL("unallocated", "%s: %zu bytes left in %zu remainders, should be %zu in %zu", d, e.bytes_unallocated, e.freelist_blocks, un, m.left.size()); if (m.left.size() >= 100) n_full++;
    size_t grown = e.bytes_allocated - b.bytes_allocated; if (grown < n || grown >= n + al) FATAL("allocated", "%s: bytes in use grow by %zu", d, grown); pad += grown - n; m.handed += n;
    if (e.bytes_allocated != m.handed + pad - m.moved) FATAL("allocated", "%s: %zu bytes in use, %zu handed out, %zu padding, %ld moved", d, e.bytes_allocated, m.handed, pad, (long)m.moved); if ((int64_t)e.bytes_nonresident != m.moved) FATAL("nonresident", "%s: %zu nonresident, %ld reported", d, e.bytes_nonresident, (long)m.moved);
    if (e.blocks != m.blocks.size()) FATAL("blocks", "%s: %zu blocks, %zu seen", d, e.blocks, m.blocks.size()); if (te != m.sys) FATAL("total", "%s: accounts for %zu bytes, owns %zu", d, te, m.sys); if (e.freelist_blocks > e.blocks + i) FATAL("freelist", "%s: %zu free blocks", d, e.freelist_blocks); if (e.bytes_unavailable < b.bytes_unavailable || e.bytes_unavailable > m.sys) FATAL("unavailable", "%s: %zu unavailable after %zu", d, e.bytes_unavailable, b.bytes_unavailable);
    size_t chk = many ? std::min<size_t>(n, 200) : n; id++; fill(p, chk, id); m.live[p] = {chk, id}; dist.add(n * 1000003 + al + (e.blocks != b.blocks) * 77);
    if (m.live.size() > 1 && r.chance(1, 4)) { auto q = m.live.lower_bound(p + 1 - r.below(200)); if (q != m.live.end()) { long o = check(q->first, q->second.n, q->second.id); if (o >= 0) FATAL("content", "%s: changed byte %ld of the earlier %p+%zu", d, o, q->first, q->second.n); } } }
  for (auto& q : m.live) { long o = check(q.first, q.second.n, q.second.id); evals++; if (o >= 0) FATAL("content", "byte %ld of %p+%zu changed", o, q.first, q.second.n); unclaim(q.first); }
  for (auto& b : m.blocks) madvise(b.first, b.second & ~4095ul, MADV_DONTNEED); munmap(&a, 8192);
}
static std::atomic<long> built{0}, gone{0};
template <int S, int A> struct alignas(A) Obj { uint64_t id; char body[S > 8 ? S - 8 : 1]; Obj(uint64_t i) : id(i) { built++; fill(body, sizeof body, id); } ~Obj() { gone++; } void verify(const char* w) { long o = check(body, sizeof body, id); if (o >= 0) FATAL("object", "%s: byte %ld of an object of %zu bytes at %p changed", w, o, sizeof(*this), this); } };
template <class T> static void objects(Rng& r, int threads) {
  static Arena* ar = new (mmap(nullptr, 8192, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0)) Arena(); auto* al = new MetadataObjectAllocator<T>(*ar); std::atomic<long> live_n{0}; std::atomic<uint64_t> ids{r.next() >> 8}; if (al->stats().in_use || al->stats().total) FATAL("objstats", "a fresh allocator has objects"); long peak = 0; long b0 = built, g0 = gone;
  auto work = [&](uint64_t s, int ops, bool alone) { Rng q(s); std::vector<std::pair<T*, uint64_t>> v; size_t lim = 1 + q.below(300); std::vector<T*> freed; for (int i = 0; i < ops; i++) { if (v.size() < lim && q.chance(11, 20)) { uint64_t id = ids++; T* p = al->New(id); evals++; n_obj++; if ((uintptr_t)p % alignof(T)) FATAL("align", "object of alignment %zu at %p", alignof(T), p); claim((char*)p, sizeof(T), "metadata object"); if (p->id != id) FATAL("object", "not constructed"); if (std::find(freed.begin(), freed.end(), p) != freed.end()) n_recycled++; v.push_back({p, id}); long k = ++live_n; if (alone && k > peak) peak = k; }
      else if (!v.empty()) { size_t k = q.below(v.size()); T* p = v[k].first; if (p->id != v[k].second) FATAL("object", "object %p changed identity", p); p->verify("before Delete"); v[k] = v.back(); v.pop_back(); unclaim((char*)p); live_n--; al->Delete(p); freed.push_back(p); if (freed.size() > 50) freed.erase(freed.begin()); }
      if (alone) { auto st = al->stats(); if ((long)st.in_use != live_n || (long)st.total != peak) FATAL("objstats", "%zu in use of %zu, %ld are, %ld were at most", st.in_use, st.total, live_n.load(), peak); dist.add(sizeof(T) * 1000003 + st.in_use * 512 + st.total); }
      if (!v.empty() && q.chance(1, 6)) v[q.below(v.size())].first->verify("live"); }
    for (auto& x : v) { if (x.first->id != x.second) FATAL("object", "object %p changed identity", x.first); x.first->verify("at the end"); unclaim((char*)x.first); live_n--; al->Delete(x.first); } };
  if (threads == 1) work(r.next(), 400 + r.below(1000), true); else { std::vector<std::thread> t; for (int i = 0; i < threads; i++) t.emplace_back(work, r.next(), 3000, false); for (auto& x : t) x.join(); }
  auto st = al->stats(); if (st.in_use) FATAL("objstats", "%zu in use after all were deleted", st.in_use); if (built - b0 != gone - g0) FATAL("object", "%ld constructed, %ld destroyed", built - b0, gone - g0); if ((long)st.total < peak) FATAL("objstats", "%zu ever, %ld at once", st.total, peak);
  // every object ever made can be had again before the arena is asked for more
  size_t before = ar->stats().bytes_allocated; std::vector<T*> v; for (size_t i = 0; i < st.total; i++) { v.push_back(al->New(i)); claim((char*)v.back(), sizeof(T), "recycled object"); } if (al->stats().total != st.total || (threads == 1 && ar->stats().bytes_allocated != before)) FATAL("recycle", "%zu objects deleted, %zu needed anew", st.total, al->stats().total - st.total); for (T* p : v) { p->verify("recycled"); unclaim((char*)p); al->Delete(p); } dist.add(sizeof(T) * 131 + alignof(T) + st.total * 7919); delete al;
  if (ar->stats().bytes_allocated > (400u << 20)) ar = new (mmap(nullptr, 8192, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0)) Arena();
}
static void some_objects(Rng& r, int th) { switch (r.below(7)) { case 0: return objects<Obj<9, 8>>(r, th); case 1: return objects<Obj<16, 16>>(r, th); case 2: return objects<Obj<100, 8>>(r, th); case 3: return objects<Obj<64, 64>>(r, th); case 4: return objects<Obj<1000, 8>>(r, th); case 5: return objects<Obj<5000, 128>>(r, th); default: return objects<Obj<33, 32>>(r, th); }
}
static void threads_on_arena(Rng& r) {
  auto& a = *new (mmap(nullptr, 8192, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0)) Arena(); std::atomic<size_t> lo{0}, hi{0}; std::atomic<bool> stop{false}; std::thread w([&] { while (!stop) { auto s = a.stats(); if (s.freelist_blocks > 100 + 1 || s.bytes_unallocated > (1ull << 33)) FATAL("stats", "%zu free blocks, %zu free", s.freelist_blocks, s.bytes_unallocated); } });
  std::vector<std::thread> t; for (int i = 0; i < 4; i++) t.emplace_back([&](uint64_t s) { Rng q(s); std::vector<std::pair<char*, Rec>> v; for (int k = 0; k < 300; k++) { size_t n = q.chance(1, 2) ? 1 + q.below(200) : std::min<size_t>(some_bytes(q), 100000), al = some_align(q); char* p = (char*)a.Alloc(n, (std::align_val_t)al); n_alloc++; evals++; if ((uintptr_t)p % al) FATAL("align", "%p for %zu", p, al); claim(p, n, "threads"); fill(p, n, s + k); v.push_back({p, {n, s + k}}); lo += n; hi += n + al - 1; } for (auto& x : v) { long o = check(x.first, x.second.n, x.second.id); evals++; if (o >= 0) FATAL("content", "byte %ld of %p+%zu changed", o, x.first, x.second.n); unclaim(x.first); } }, r.next()); for (auto& x : t) x.join(); stop = true; w.join();
  auto s = a.stats(); if (s.bytes_allocated < lo || s.bytes_allocated > hi) FATAL("allocated", "%zu bytes in use, between %zu and %zu are", s.bytes_allocated, lo.load(), hi.load()); munmap(&a, 8192);
}
#ifdef VT_FULL
static void whole(Rng& r) { // the allocator's own metadata beside application blocks
  Arena& a = tc_globals.arena(); static std::vector<std::pair<char*, Rec>>* meta = new std::vector<std::pair<char*, Rec>>(); struct B { char* p; size_t n; uint64_t id; }; static B app[512]; static int na = 0; static uint64_t id = 1;
  for (int i = 0; i < 400; i++) { if (r.chance(1, 8) && meta->size() < 20000) { size_t n = 1 + r.below(r.chance(1, 6) ? 150000 : 300), al = 1ull << r.below(12); auto s = a.stats(); char* p = (char*)a.Alloc(n, (std::align_val_t)al); auto e = a.stats(); evals++; n_alloc++; if ((uintptr_t)p % al) FATAL("align", "%p for %zu", p, al); if (GetMemoryTag(p) != MemoryTag::kMetadata) FATAL("place", "%p is not in the metadata regions", p); if (e.bytes_allocated < s.bytes_allocated + n) FATAL("allocated", "%zu -> %zu for %zu bytes", s.bytes_allocated, e.bytes_allocated, n); fill(p, n, ++id); meta->push_back({p, {n, id}}); }
    if (na < 512 && r.chance(1, 2)) { size_t n = r.chance(1, 10) ? 1 + r.below(4 << 20) : 1 + r.below(5000); char* p = (char*)malloc(n); if (GetMemoryTag(p) == MemoryTag::kMetadata) FATAL("place", "application block %p lies in a metadata region", p); app[na++] = {p, n, ++id}; fill(p, n, id); } else if (na) { int k = r.below(na); long o = check(app[k].p, app[k].n, app[k].id); if (o >= 0) FATAL("content", "byte %ld of the application block %p+%zu changed", o, app[k].p, app[k].n); free(app[k].p); app[k] = app[--na]; evals++; } }
  size_t lim = std::min<size_t>(meta->size(), 200); for (size_t k = 0; k < lim; k++) { auto& x = (*meta)[r.below(meta->size())]; long o = check(x.first, x.second.n, x.second.id); evals++; if (o >= 0) FATAL("content", "byte %ld of metadata %p+%zu changed", o, x.first, x.second.n); } dist.add(id);
  if (r.chance(1, 10)) { MallocExtension::ReleaseMemoryToSystem(~0ull >> 2); auto m = tc_globals.metadata_bytes(); auto s = a.stats(); if (m < s.bytes_allocated) FATAL("metadata", "%zu bytes of metadata, the arena alone has %zu in use", m, s.bytes_allocated); }
}
#endif
int main(int argc, char** argv) {
  uint64_t end = now_ns() + (thorough() ? 150ull : 3ull) * 1000000000; Rng r(seed() * 31337 + argv[1][0]); char m = argv[1][0]; uint64_t used = 0;
  while (now_ns() < end && used < (1ull << 45)) switch (m) { case 'A': arena(r); used += 100 << 20; break; case 'O': some_objects(r, 1); break; case 'T': if (r.chance(1, 2)) threads_on_arena(r); else some_objects(r, 4); break;
#ifdef VT_FULL
    case 'G': whole(r); break;
#endif
    default: return 2; }
  metric("evals", evals); metric("distinct", dist.n); metric("requests", n_alloc); metric("blocks", n_block); metric("reused", n_reuse); metric("full_lists", n_full); metric("objects", n_obj); metric("recycled", n_recycled); say("SAMPLE mode %c: %lld arena requests over %lld blocks (%lld from stashed remainders), %lld objects, %lld recycled", m, n_alloc.load(), n_block.load(), n_reuse.load(), n_obj.load(), n_recycled.load());
  return done();
}
