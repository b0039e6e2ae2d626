// P16: bit maps (B), range trackers (R), intrusive lists (L), hinted lists (H) and the page map (P) against their mathematical models.
#include <algorithm>
#include <deque>
#include <list>
#include <map>
#include <memory>
#include <set>
#include <vector>
#include "vt.h"
#include "tcmalloc/hinted_tracker_lists.h"
#include "tcmalloc/internal/linked_list.h"
#include "tcmalloc/internal/range_tracker.h"
#include "tcmalloc/pagemap.h"
#include "tcmalloc/span.h"
using namespace vt;
using namespace tcmalloc;
using namespace tcmalloc::tcmalloc_internal;

static long long evals, n_op, n_full, n_scale, n_copy, n_find, n_mark, n_refused;
static Distinct dist;

// ---------------------------------------------------------------- bit maps
template <size_t N> struct BM {  // the model: one byte per bit
  uint8_t v[N] = {};
  size_t next(size_t i, uint8_t goal) const { while (i < N && v[i] != goal) i++; return i; }
  ssize_t prev(size_t i, uint8_t goal) const { ssize_t k = i; while (k >= 0 && v[k] != goal) k--; return k; }
  size_t count(size_t i, size_t n) const { size_t c = 0; for (size_t k = i; k < i + n; k++) c += v[k]; return c; }
};
template <size_t N> static void same(const Bitmap<N>& b, const BM<N>& m, const char* what) {
  evals++;
  for (size_t i = 0; i < N; i++) if (b.GetBit(i) != (bool)m.v[i]) FATAL("bit", "Bitmap<%zu>: bit %zu is %d after %s", N, i, (int)b.GetBit(i), what);
}
template <size_t N> static void queries(const Bitmap<N>& b, const BM<N>& m, size_t i, size_t n) {
  n_find++; evals++;
  size_t g = b.FindSet(i), w = m.next(i, 1); if (g != w) FATAL("findset", "Bitmap<%zu>::FindSet(%zu) = %zu, is %zu", N, i, g, w);
  g = b.FindClear(i), w = m.next(i, 0); if (g != w) FATAL("findclear", "Bitmap<%zu>::FindClear(%zu) = %zu, is %zu", N, i, g, w);
  ssize_t h = b.FindSetBackwards(i), x = m.prev(i, 1); if (h != x) FATAL("findsetback", "Bitmap<%zu>::FindSetBackwards(%zu) = %zd, is %zd", N, i, h, x);
  h = b.FindClearBackwards(i), x = m.prev(i, 0); if (h != x) FATAL("findclearback", "Bitmap<%zu>::FindClearBackwards(%zu) = %zd, is %zd", N, i, h, x);
  size_t c = b.CountBits(i, n), d = m.count(i, n); if (c != d) FATAL("count", "Bitmap<%zu>::CountBits(%zu, %zu) = %zu, is %zu", N, i, n, c, d);
  if (b.CountBits() != m.count(0, N)) FATAL("count", "Bitmap<%zu>: %zu bits in all, %zu are", N, b.CountBits(), m.count(0, N));
  if (b.IsZero() != (m.next(0, 1) == N)) FATAL("zero", "Bitmap<%zu>::IsZero", N);
  size_t ix = ~0ull, ln = ~0ull; bool ok = b.NextFreeRange(i, &ix, &ln); size_t s = m.next(i, 0); size_t e = s < N ? m.next(s, 1) : N;
  if (ok != (s < N) || (ok && (ix != s || ln != e - s))) FATAL("freerange", "Bitmap<%zu>::NextFreeRange(%zu) = %zu+%zu, is %zu+%zu", N, i, ix, ln, s, e - s);
  if (b.NextFreeRange(N, &ix, &ln)) FATAL("freerange", "Bitmap<%zu>: a free range after the end", N);
  dist.add(N * 1000003 + i * 701 + (w - i) * 13 + (x < 0 ? 511 : i - x));
}
template <size_t M, size_t N> static void scale(const Bitmap<N>& b, const BM<N>& m, size_t len, bool all) {
  if (len > N || !len || (len % M && M % len)) return;
  n_scale++; evals++; Bitmap<M> r = Scale<M>(b, len, all ? ReductionOp::kAll : ReductionOp::kAny); BM<M> x;
  for (size_t i = 0; i < M; i++) {
    if (len >= M) { size_t q = len / M, c = m.count(i * q, q); x.v[i] = all ? c == q : c > 0; } else x.v[i] = m.v[i / (M / len)];
  }
  same(r, x, all ? "scaling (all)" : "scaling (any)");
}
template <size_t D, size_t N> static void copy(Rng& r, const Bitmap<N>& b, const BM<N>& m) {
  Bitmap<D> d; BM<D> x; for (size_t i = 0; i < D; i++) if (r.chance(1, 2)) { d.SetBit(i); x.v[i] = 1; }
  size_t len = r.below(std::min(D, N) + 1), s = r.below(N - len + 1), t = r.below(D - len + 1);
  if (r.chance(1, 3)) { s &= ~63ull; } if (r.chance(1, 3)) t &= ~63ull;
  n_copy++; CopyBits(d, t, b, s, len); for (size_t i = 0; i < len; i++) x.v[t + i] = m.v[s + i];
  same(d, x, "copying bits");
}
static size_t edge(Rng& r, size_t n) { size_t e = 64 * r.below(n / 64 + 1) + r.below(5); e = e >= 2 ? e - 2 : 0; return r.chance(1, 2) && e < n ? e : r.below(n); }
template <size_t N> static void bitmap(Rng& r) {
  Bitmap<N> b, o; BM<N> m, om; if (b.size() != N) FATAL("size", "Bitmap<%zu>", N);
  for (size_t i = 0; i < N; i++) if (r.chance(1, 2)) { if (o.SetBit(i)) FATAL("bit", "bit %zu of a new bitmap is set", i); om.v[i] = 1; }
  int dens = r.below(4);
  for (int k = 0; k < 400; k++) {
    n_op++; size_t i = edge(r, N), n = r.chance(1, 6) ? N - i : r.chance(1, 2) ? 1 + r.below(std::min<size_t>(N - i, 70)) : 1 + r.below(N - i);
    const char* what = "";
    switch (r.below(9)) {
      case 0: what = "SetBit"; if (b.SetBit(i) != (bool)m.v[i]) FATAL("bit", "Bitmap<%zu>::SetBit(%zu): previous value", N, i); m.v[i] = 1; break;
      case 1: what = "ClearBit"; if (b.ClearBit(i) != (bool)m.v[i]) FATAL("bit", "Bitmap<%zu>::ClearBit(%zu): previous value", N, i); m.v[i] = 0; break;
      case 2: case 3: if (dens == 0 && r.chance(2, 3)) break; what = "SetRange"; b.SetRange(i, n); memset(m.v + i, 1, n); break;
      case 4: case 5: if (dens == 1 && r.chance(2, 3)) break; what = "ClearRange"; b.ClearRange(i, n); memset(m.v + i, 0, n); break;
      case 6: what = "ClearLowestBit"; { b.ClearLowestBit(); size_t j = m.next(0, 1); if (j < N) m.v[j] = 0; } break;
      case 7: if (r.chance(1, 2)) { what = "PopBatch"; size_t lim = r.chance(1, 4) ? r.below(3) : r.below(N + 2), want = std::min(lim, m.count(0, N)), seen = 0;
          size_t got = b.PopBatch([&](size_t j) { if (j >= N || !m.v[j]) FATAL("popbatch", "Bitmap<%zu>::PopBatch visits clear bit %zu", N, j); if (m.next(0, 1) != j) FATAL("popbatch", "Bitmap<%zu>::PopBatch visits bit %zu before lower ones", N, j); m.v[j] = 0; seen++; }, lim);
          if (got != want || seen != want) FATAL("popbatch", "Bitmap<%zu>::PopBatch: %zu reported, %zu visited, %zu due", N, got, seen, want); }
        else if (r.chance(1, 6)) { what = "Clear"; b.Clear(); memset(m.v, 0, N); } break;
      default: { what = "an operator"; BM<N> x; Bitmap<N> y; switch (r.below(4)) { case 0: y = ~b; for (size_t j = 0; j < N; j++) x.v[j] = !m.v[j]; break; case 1: y = b & o; for (size_t j = 0; j < N; j++) x.v[j] = m.v[j] & om.v[j]; break; case 2: y = b | o; for (size_t j = 0; j < N; j++) x.v[j] = m.v[j] | om.v[j]; break; default: y = b ^ o; for (size_t j = 0; j < N; j++) x.v[j] = m.v[j] ^ om.v[j]; }
          same(y, x, what); queries(y, x, i, n); if (r.chance(1, 3)) { b = y; m = x; } }
    }
    queries(b, m, i, n); if (r.chance(1, 4)) queries(b, m, r.below(N), 0);
    if (r.chance(1, 3)) { n_full++; same(b, m, what); for (int q = 0; q < 3; q++) { size_t j = edge(r, N); queries(b, m, j, r.below(N - j + 1)); } }
    if (r.chance(1, 8)) { bool all = r.chance(1, 2); size_t len = r.chance(1, 2) ? N : (size_t)1 << r.below(10); scale<1>(b, m, len, all); scale<8>(b, m, len, all); scale<64>(b, m, len, all); scale<256>(b, m, len, all); scale<512>(b, m, len, all); scale<32>(b, m, len, all); }
    if (r.chance(1, 6)) { copy<1>(r, b, m); copy<64>(r, b, m); copy<100>(r, b, m); copy<256>(r, b, m); copy<512>(r, b, m); }
  }
}
static void modeB(Rng& r) { bitmap<1>(r); bitmap<7>(r); bitmap<8>(r); bitmap<32>(r); bitmap<63>(r); bitmap<64>(r); bitmap<65>(r); bitmap<100>(r); bitmap<127>(r); bitmap<128>(r); bitmap<129>(r); bitmap<192>(r); bitmap<253>(r); bitmap<256>(r); bitmap<512>(r); }

// ---------------------------------------------------------------- range trackers
template <size_t N> static void tracker(Rng& r) {
  RangeTracker<N> t; BM<N> m; std::vector<std::pair<size_t, size_t>> live; size_t used = 0; int bias = 5;
  auto runs = [&](size_t& longest, size_t n, size_t& best) { longest = 0; best = 2 * N; for (size_t i = 0; i < N;) { i = m.next(i, 0); if (i >= N) break; size_t e = m.next(i, 1); longest = std::max(longest, e - i); if (e - i >= n) best = std::min(best, e - i); i = e; } };
  for (int k = 0; k < 500; k++) {
    if (k % 40 == 0) bias = 1 + r.below(9); n_op++; size_t longest, best;
    if ((int)r.below(10) < bias) {
      size_t n = r.chance(2, 3) ? 1 + r.below(std::min<size_t>(N, 12)) : 1 + r.below(N); runs(longest, n, best);
      if (longest < n) { n_refused++; }
      else if (r.chance(1, 5)) { size_t i = r.below(N); while (true) { i = m.next(i, 0); if (i < N) break; i = 0; } size_t e = m.next(i, 1); n = 1 + r.below(e - i); t.Mark(i, n); memset(m.v + i, 1, n); used += n; live.push_back({i, n}); n_mark++; }
      else { size_t i = t.FindAndMark(n); n_mark++; if (i + n > N || m.count(i, n)) FATAL("overlap", "RangeTracker<%zu>: %zu+%zu is not free", N, i, n); size_t s = m.prev(i, 1) + 1, e = m.next(i, 1); if (e - s != best) FATAL("bestfit", "RangeTracker<%zu>: %zu taken from a run of %zu, one of %zu exists", N, n, e - s, best); memset(m.v + i, 1, n); used += n; live.push_back({i, n}); dist.add(N * 31 + n * 1009 + best); }
    } else if (!live.empty()) { size_t j = r.below(live.size()); auto [i, n] = live[j]; live[j] = live.back(); live.pop_back(); t.Unmark(i, n); memset(m.v + i, 0, n); used -= n; }
    else if (r.chance(1, 4)) t.Clear();
    if (k % 200 == 199 && r.chance(1, 4)) { t.Clear(); m = {}; used = 0; live.clear(); }
    runs(longest, 1, best); evals++;
    if (t.longest_free() != longest) FATAL("longest", "RangeTracker<%zu>: longest free run reported %zu, is %zu", N, t.longest_free(), longest);
    if (t.used() != used || t.allocs() != live.size() || t.size() != N) FATAL("totals", "RangeTracker<%zu>: %zu used in %zu ranges, reported %zu in %zu", N, used, live.size(), t.used(), t.allocs());
    size_t i = edge(r, N), ix = 0, ln = 0; bool ok = t.NextFreeRange(i, &ix, &ln); size_t s = m.next(i, 0), e = s < N ? m.next(s, 1) : N; if (ok != (s < N) || (ok && (ix != s || ln != e - s))) FATAL("freerange", "RangeTracker<%zu>::NextFreeRange(%zu)", N, i);
    if (r.chance(1, 5)) { n_full++; same(t.bits(), m, "range operations"); }
  }
}
static void modeR(Rng& r) { tracker<1>(r); tracker<8>(r); tracker<63>(r); tracker<64>(r); tracker<65>(r); tracker<255>(r); tracker<256>(r); tracker<257>(r); tracker<300>(r); tracker<512>(r); }

// ---------------------------------------------------------------- intrusive lists
struct Item : TList<Item>::Elem { int id = 0; long long pad[3]; bool on = false; size_t where = 0; };
static void modeL(Rng& r) {
  { // singly linked
    static constexpr size_t K = 200; std::vector<std::vector<long long>> mem(K, std::vector<long long>(2)); std::set<void*> in, out; for (auto& v : mem) out.insert(v.data()); LinkedList l;
    auto take = [&] { auto i = out.begin(); std::advance(i, r.below(out.size())); void* p = *i; out.erase(i); return p; };
    for (int k = 0; k < 1500; k++) { n_op++; evals++;
      switch (r.below(4)) {
        case 0: if (!out.empty()) { void* p = take(); memset(p, 0xEE, 16); l.Push(p); in.insert(p); } break;
        case 1: { void* p = (void*)1; bool ok = l.TryPop(&p); if (ok != !in.empty()) FATAL("pop", "TryPop on a list of %zu returns %d", in.size(), ok); if (ok) { if (!in.erase(p)) FATAL("pop", "TryPop returns an element that is not in the list"); out.insert(p); } } break;
        case 2: if (!out.empty()) { void* b[64]; int n = 1 + r.below(std::min<size_t>(64, out.size())); for (int i = 0; i < n; i++) { b[i] = take(); memset(b[i], 0xEE, 16); in.insert(b[i]); } l.PushBatch(n, b); } break;
        default: if (!in.empty()) { void* b[64]; int n = 1 + r.below(std::min<size_t>(64, in.size())); l.PopBatch(n, b); for (int i = 0; i < n; i++) { if (!in.erase(b[i])) FATAL("popbatch", "PopBatch returns an element that is not in the list, or twice"); out.insert(b[i]); } } }
      if (l.length() != in.size() || l.empty() != in.empty()) FATAL("length", "list of %zu has length %zu", in.size(), l.length()); dist.add(in.size() * 4 + 1); }
    void* h = nullptr; for (int k = 0; k < 10; k++) SLL_Push(&h, mem[k].data()); for (int k = 9; k >= 0; k--) { void* p = SLL_Pop(&h); if (p != mem[k].data()) FATAL("sll", "SLL_Pop"); } if (h) FATAL("sll", "SLL not empty");
  }
  // doubly linked: exact sequence
  std::vector<Item> it(80); for (size_t i = 0; i < it.size(); i++) it[i].id = i; TList<Item> ls[3]; std::deque<Item*> md[3];
  for (int k = 0; k < 2500; k++) { n_op++; evals++; int a = r.below(3); Item* x = &it[r.below(it.size())];
    if (!x->on) { auto& d = md[a]; int how = r.below(4); if (d.empty() && how >= 2) how -= 2; x->on = true; x->where = a; if (how == 0) { ls[a].prepend(x); d.push_front(x); } else if (how == 1) { ls[a].append(x); d.push_back(x); } else { size_t j = r.below(d.size()); Item* y = d[j]; if (how == 2) { ls[a].prepend(y, x); d.insert(d.begin() + j, x); } else { ls[a].append(y, x); d.insert(d.begin() + j + 1, x); } } }
    else { a = x->where; auto& d = md[a]; d.erase(std::find(d.begin(), d.end(), x)); x->on = false; bool e = ls[a].remove(x); if (e != d.empty()) FATAL("remove", "removing reports %d for a list of %zu left", e, d.size()); }
    for (int q = 0; q < 3; q++) { auto& d = md[q]; auto& l = ls[q]; if (l.empty() != d.empty()) FATAL("empty", "TList::empty"); if (q != a && k % 7) continue; if (l.length() != d.size()) FATAL("length", "TList of %zu has length %zu", d.size(), l.length()); size_t i = 0; for (Item* y : l) { if (i >= d.size() || y != d[i]) FATAL("order", "element %zu of a list of %zu", i, d.size()); i++; } if (i != d.size()) FATAL("order", "%zu of %zu elements visited", i, d.size()); for (auto z = l.rbegin(); z != l.rend(); ++z) { i--; if (*z != d[i]) FATAL("rorder", "element %zu backwards", i); } if (i) FATAL("rorder", "backwards, %zu elements not visited", i); if (!d.empty()) { if (l.first() != d.front() || l.last() != d.back()) FATAL("ends", "first or last"); size_t j = r.below(d.size()); auto z = l.at(d[j]); if (*z != d[j] || z->id != d[j]->id) FATAL("at", "iterator at an element"); ++z; if (j + 1 < d.size() ? *z != d[j + 1] : z != l.end()) FATAL("at", "iterator after an element"); } dist.add(d.size() * 8 + 2); } }
}

// ---------------------------------------------------------------- hinted lists
template <size_t N> static void hinted(Rng& r) {
  auto h = std::make_unique<HintedTrackerLists<Item, N>>(); std::vector<Item> it(120); for (size_t i = 0; i < it.size(); i++) it[i].id = i; std::map<size_t, std::set<Item*>> m; size_t tot = 0;
  auto del = [&](Item* x) { auto i = m.find(x->where); i->second.erase(x); if (i->second.empty()) m.erase(i); x->on = false; tot--; };
  for (int k = 0; k < 2500; k++) { n_op++; evals++; size_t i = edge(r, N); Item* x = &it[r.below(it.size())];
    switch (r.below(6)) {
      case 0: case 1: if (!x->on) { h->Add(x, i); x->on = true; x->where = i; m[i].insert(x); tot++; } break;
      case 2: if (x->on) { size_t w = x->where; del(x); h->Remove(x, w); } break;
      case 3: if (x->on && x->where != i) { size_t w = x->where; del(x); h->Move(x, w, i); x->on = true; x->where = i; m[i].insert(x); tot++; } break;
      case 4: { Item* g = h->GetLeast(i); auto j = m.lower_bound(i); if ((g != nullptr) != (j != m.end())) FATAL("getleast", "GetLeast(%zu) of %zu lists: %s", i, m.size(), g ? "found something below" : "nothing found"); if (g) { if (!j->second.count(g)) FATAL("getleast", "GetLeast(%zu) does not return from list %zu", i, j->first); del(g); } } break;
      default: { auto g = h->PeekLeast(i); auto j = m.lower_bound(i); if ((g.tracker != nullptr) != (j != m.end())) FATAL("peekleast", "PeekLeast(%zu)", i); if (g.tracker) { if (g.index != j->first || !j->second.count(g.tracker)) FATAL("peekleast", "PeekLeast(%zu) is %zu, not %zu", i, g.index, j->first); } else if (g.index != N) FATAL("peekleast", "index of nothing"); } }
    if (h->size() != tot) FATAL("size", "%zu elements reported, %zu exist", h->size(), tot); auto j = m.find(i); size_t l = j == m.end() ? 0 : j->second.size(); if (h->SizeOfList(i) != l || (*h)[i].length() != l || (*h)[i].empty() != !l) FATAL("size", "list %zu has %zu elements, %zu exist", i, h->SizeOfList(i), l);
    if (r.chance(1, 6)) { n_full++; std::map<size_t, std::set<Item*>> left(m.lower_bound(i), m.end()); size_t lastl = 0; h->Iter([&](Item& y) { if (!y.on || y.where < i) FATAL("iter", "an element that is not there, or of list %zu below %zu, is visited", y.where, i); if (y.where < lastl) FATAL("iter", "list %zu visited after %zu", y.where, lastl); lastl = y.where; if (!left[y.where].erase(&y)) FATAL("iter", "an element is visited twice"); }, i); for (auto& [q, s] : left) if (!s.empty()) FATAL("iter", "%zu elements of list %zu are not visited from %zu on", s.size(), q, i); }
    dist.add(N * 77 + i * 5 + m.size()); }
}
static void modeH(Rng& r) { hinted<1>(r); hinted<3>(r); hinted<64>(r); hinted<65>(r); hinted<193>(r); hinted<256>(r); hinted<768>(r); }

// ---------------------------------------------------------------- page map
static size_t pm_fail, pm_given; static std::vector<void*> pm_blocks;
static void* pm_alloc(size_t n) { if (pm_fail && --pm_fail == 0) return nullptr; void* p = mmap(nullptr, n + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); pm_blocks.push_back(p); pm_blocks.push_back((void*)(n + 4096)); memset(p, 0xA5, n); pm_given += n; return p; }
struct PE { Span* s; int sc; bool stale; };
template <int BITS> static void pagemap(Rng& r) {
  using Map = PageMap3<BITS, pm_alloc>; auto m = std::make_unique<Map>(); pm_given = 0; constexpr size_t kKeys = 1ull << BITS; constexpr int kLeafB = (BITS + 2) / 3; constexpr size_t kLeaf = 1ull << kLeafB, kMid = 1ull << (2 * kLeafB); constexpr size_t kHp = kHugePageSize / kPageSize;
  std::map<size_t, PE> md; std::map<size_t, void*> hp; std::set<size_t> leaf, maybe; std::vector<Span*> sp; for (int i = 0; i < 40; i++) sp.push_back((Span*)(0x1000ull + (r.next() & 0x7ffffffffff0ull)));
  size_t homes[4]; for (auto& h : homes) h = r.below(kKeys / kMid) * kMid + (r.chance(1, 2) ? 0 : r.below(kMid)); homes[0] = 0; if (r.chance(1, 2)) homes[1] = kKeys - 1;
  auto key = [&] { size_t k; switch (r.below(8)) { case 0: k = r.below(kKeys); break; case 1: k = kKeys - 1 - r.below(3 * kLeaf); break; case 2: k = r.below(2 * kLeaf); break; default: { size_t unit = r.chance(1, 3) ? kMid : r.chance(1, 2) ? kLeaf : 1; k = homes[r.below(4)] + unit * r.below(3) + r.below(5) - 2; if (r.chance(1, 2)) k = (k / kLeaf) * kLeaf + r.below(4) - 2; } } return k % kKeys; };
  for (int k = 0; k < 600; k++) { n_op++; evals++; size_t a = key(); bool has = leaf.count(a / kLeaf);
    if (!has && r.chance(1, 2)) { size_t n = r.chance(1, 2) ? 1 + r.below(10) : 1 + r.below(3 * kLeaf); n = std::min(n, kKeys - a); pm_fail = r.chance(1, 5) ? 1 + r.below(4) : 0; size_t was = pm_fail; bool ok = m->Ensure(a, n); bool hit = was && !pm_fail; pm_fail = 0; if (ok == hit) FATAL("ensure", "Ensure(%zx, %zx) = %d although memory was %s", a, n, ok, hit ? "refused" : "given"); for (size_t q = a / kLeaf; q <= (a + n - 1) / kLeaf; q++) { if (ok) leaf.insert(q); else if (m->has_leaf(q * kLeaf)) leaf.insert(q); } }
    else if (has) { auto& e = md[a];
      switch (r.below(6)) {
        case 0: case 1: if (!e.sc || e.stale) { Span* s = r.chance(1, 6) ? nullptr : sp[r.below(sp.size())]; m->set(a, s); e = {s, 0, false}; } break;
        case 2: case 3: if (e.s) { int sc = 1 + r.below(kNumClasses - 1); m->set_with_sizeclass(a, e.s, sc); e.sc = sc; e.stale = false; } break;
        case 4: if (e.sc) { m->clear_sizeclass(a); e.stale = true; } break;
        default: { void* v = (void*)r.next(); m->set_hugepage(a, v); hp[a / kHp] = v; } } }
    else if (r.chance(1, 6)) { if (m->Ensure(kKeys + r.below(3 * kLeaf), 1 + r.below(3))) FATAL("ensure", "a page beyond the last one is accepted"); }
    for (int q = 0; q < 4; q++) { size_t b = q ? key() : a; bool lf = leaf.count(b / kLeaf); auto i = md.find(b); Span* want = i == md.end() ? nullptr : i->second.s; int sc = i == md.end() ? 0 : i->second.sc; bool st = i != md.end() && i->second.stale; evals++;
      if (m->has_leaf(b) != lf) FATAL("leaf", "has_leaf(%zx) = %d", b, !lf); if (m->get(b) != want) FATAL("get", "page %zx maps to %p, %p was stored", b, m->get(b), want);
      auto [s1, c1] = m->template get_existing_with_sizeclass<true>(b); if (s1 != want || (!st && c1 != sc)) FATAL("getclass", "page %zx is recorded as class %d of %p, %d of %p was stored", b, (int)c1, s1, sc, want);
      if (!st && m->sizeclass(b) != sc) FATAL("class", "page %zx has class %d, %d was stored", b, (int)m->sizeclass(b), sc);
      if (lf) { if (m->get_existing(b) != want) FATAL("get", "page %zx", b); auto [s2, c2] = m->template get_existing_with_sizeclass<false>(b); if (s2 != want || (!st && c2 != sc)) FATAL("getclass", "page %zx", b); auto h = hp.find(b / kHp); if (m->get_hugepage(b) != (h == hp.end() ? nullptr : h->second)) FATAL("hugepage", "page %zx", b); }
      if (!lf || r.chance(1, 8)) { size_t beyond = kKeys + r.below(kKeys); if (m->get(beyond) || m->has_leaf(beyond) || m->sizeclass(beyond) || m->template get_existing_with_sizeclass<true>(beyond).first) FATAL("beyond", "page %zx beyond the last one", beyond); }
      dist.add(b % kLeaf * 64 + (lf + 2 * (want != nullptr) + 4 * (sc != 0)) + BITS * 7777777); }
    if (r.chance(1, 40)) { n_full++; size_t p = r.chance(1, 2) ? 0 : key(); auto j = md.upper_bound(p); while (true) { auto g = m->get_next_set_page(p); while (j != md.end() && !j->second.s) ++j; if (g.has_value() != (j != md.end())) FATAL("next", "after page %zx: %s", p, g ? "a page that is not set" : "no page found"); if (!g) break; if (*g != j->first) FATAL("next", "after page %zx: page %zx, %zx is the next set", p, (size_t)*g, j->first); p = *g; ++j; } }
    if (m->bytes_used() != pm_given + sizeof(Map)) FATAL("bytes", "%zu bytes reported, %zu obtained", m->bytes_used(), pm_given); }
  m.reset(); for (size_t i = 0; i < pm_blocks.size(); i += 2) munmap(pm_blocks[i], (size_t)pm_blocks[i + 1]); pm_blocks.clear();
}
static void modeP(Rng& r) { pagemap<27>(r); pagemap<28>(r); pagemap<29>(r); if (r.chance(1, 3)) pagemap<kAddressBits - kPageShift>(r); }

int main(int argc, char** argv) {
  const char* m = argc > 1 ? argv[1] : "B"; double deadline = now_ns() + (thorough() ? 300e9 : 4e9); int s = 0;
  do { Rng r(seed() * 7919 + s * 31 + m[0]); s++; switch (m[0]) { case 'B': modeB(r); break; case 'R': modeR(r); break; case 'L': modeL(r); break; case 'H': modeH(r); break; default: modeP(r); } } while (now_ns() < deadline);
  metric("evals", evals); metric("distinct", dist.n); metric("sessions", s); metric("ops", n_op); metric("full_checks", n_full); metric("scales", n_scale); metric("copies", n_copy); metric("searches", n_find); metric("marks", n_mark); metric("no_room", n_refused);
  say("SAMPLE mode %s: %d sessions, %lld operations, %lld comparisons", m, s, n_op, evals); return done();
}
