// P15: hugepage address map (A), range allocator (B), cache (C), region (R) and region set (S) against exact models.
#include <algorithm>
#include <map>
#include <memory>
#include <set>
#include <vector>
#include "vt.h"
#include "tcmalloc/huge_allocator.h"
#include "tcmalloc/huge_cache.h"
#include "tcmalloc/huge_region.h"
#include "tcmalloc/internal/mock_metadata_allocator.h"
using namespace vt; using namespace tcmalloc; using namespace tcmalloc::tcmalloc_internal;
using L = tcmalloc_internal::Length; static constexpr size_t kP = kPagesPerHugePage.raw_num();
static long long evals, n_op, n_ins, n_rem, n_get, n_sys, n_sysfail, n_hit, n_miss, n_unback, n_ubfail, n_rel, n_reent, n_null, n_full; static Distinct dist; static int64_t clk = 1000; static double frq = 1e9; static Rng* R0;
static HugeRange mk(size_t s, size_t n) { return HugeRange::Make(HugePage{s}, NHugePages(n)); }
// set of maximal runs
struct Runs {
  std::map<size_t, size_t> m; std::multiset<size_t> len; size_t tot = 0;
  void add(size_t s, size_t n) { tot += n; auto i = m.lower_bound(s); if (i != m.end() && i->first == s + n) { n += i->second; len.erase(len.find(i->second)); i = m.erase(i); } if (i != m.begin()) { auto p = std::prev(i); if (p->first + p->second > s) FATAL("harness", "runs"); if (p->first + p->second == s) { len.erase(len.find(p->second)); p->second += n; len.insert(p->second); return; } } m[s] = n; len.insert(n); }
  bool has(size_t s, size_t n) { auto i = m.upper_bound(s); if (i == m.begin()) return false; --i; return i->first <= s && s + n <= i->first + i->second; }
  bool overlaps(size_t s, size_t n) { auto i = m.lower_bound(s + n); if (i == m.begin()) return false; --i; return i->first + i->second > s; }
  void del(size_t s, size_t n) { auto i = m.upper_bound(s); --i; size_t a = i->first, l = i->second; len.erase(len.find(l)); m.erase(i); if (a < s) { m[a] = s - a; len.insert(s - a); } if (s + n < a + l) { m[s + n] = a + l - s - n; len.insert(a + l - s - n); } tot -= n; }
  size_t longest() { return len.empty() ? 0 : *len.rbegin(); }
  size_t pick(Rng& r, size_t& s) { auto i = m.lower_bound(r.below(m.empty() ? 1 : m.rbegin()->first + 1)); if (i == m.end()) i = m.begin(); s = i->first; return i->second; }
};
static size_t walk(HugeAddressMap::Node* n, size_t lo, size_t hi, size_t& cnt, size_t& tot, int depth, int& md) { // returns the longest run below n
  if (!n) return 0; md = std::max(md, depth); size_t s = n->range().start().index(), l = n->range().len().raw_num(); if (s < lo || s + l > hi) FATAL("tree", "run %zu+%zu is out of order in the tree", s, l); cnt++; tot += l; size_t a = walk(n->left(), lo, s, cnt, tot, depth + 1, md), b = walk(n->right(), s + l, hi, cnt, tot, depth + 1, md); size_t m = std::max(l, std::max(a, b)); if (n->longest().raw_num() != m) FATAL("tree", "longest run below a node recorded as %zu, is %zu", n->longest().raw_num(), m); return m;
}
static void same(HugeAddressMap& h, Runs& m) {
  evals++; auto i = m.m.begin(); for (auto* n = h.first(); n; n = n->next(), ++i) { if (i == m.m.end() || n->range().start().index() != i->first || n->range().len().raw_num() != i->second) FATAL("map", "run %zu+%zu in the map, %zu+%zu expected", n->range().start().index(), n->range().len().raw_num(), i == m.m.end() ? 0 : i->first, i == m.m.end() ? 0 : i->second); } if (i != m.m.end()) FATAL("map", "run %zu+%zu is missing", i->first, i->second);
  if (h.nranges() != m.m.size() || h.total_mapped().raw_num() != m.tot) FATAL("map", "%zu runs of %zu hugepages recorded, %zu of %zu exist", h.nranges(), h.total_mapped().raw_num(), m.m.size(), m.tot); size_t c = 0, t = 0; int d = 0; size_t lo = walk(h.root(), 0, ~0ull, c, t, 1, d); if (c != m.m.size() || t != m.tot || lo != m.longest()) FATAL("tree", "tree holds %zu runs of %zu", c, t); if (c > 200 && d > (int)c / 2) FATAL("tree", "depth %d for %zu runs", d, c);
}
static void pred(HugeAddressMap& h, Runs& m, Rng& r, size_t span) { for (int k = 0; k < 4; k++) { size_t p = r.below(span); auto i = m.m.upper_bound(p); const auto* n = ((const HugeAddressMap&)h).Predecessor(HugePage{p}); if (i == m.m.begin()) { if (n) FATAL("pred", "a run before hugepage %zu is reported", p); } else { --i; if (!n || n->range().start().index() != i->first) FATAL("pred", "wrong run before hugepage %zu", p); } } }
static void modeA(Rng& r) {
  FakeMetadataAllocator meta; HugeAddressMap h(meta); Runs in, out; size_t span = 50 + r.below(r.chance(1, 2) ? 100 : 5000); out.add(0, span); int N = 200 + r.below(2000), bias = 5;
  for (int i = 0; i < N; i++) { if (i % 100 == 0) bias = 1 + r.below(9); n_op++;
    if ((int)r.below(10) < bias && out.tot) { size_t s, l = out.pick(r, s), n = 1 + r.below(r.chance(1, 2) ? std::min<size_t>(l, 4) : l); size_t o = s + (r.chance(1, 2) ? r.below(l - n + 1) : r.chance(1, 2) ? 0 : l - n); h.Insert(mk(o, n)); in.add(o, n); out.del(o, n); n_ins++; dist.add(in.m.size() * 1000 + n); }
    else if (in.tot) { size_t s, l = in.pick(r, s); auto* n = h.Predecessor(HugePage{s + r.below(l)}); if (!n || n->range().start().index() != s) FATAL("pred", "run %zu not found", s); h.Remove(n); in.del(s, l); out.add(s, l); n_rem++; }
    pred(h, in, r, span + 10); if (r.chance(1, 8)) { same(h, in); h.Check(); } } same(h, in);
}
struct VA : VirtualAllocator {
  Rng r; size_t bump = 8, fail = 0, got = 0, cap = 60000; Runs known; bool refused = false; explicit VA(uint64_t s) : r(s) { fail = r.chance(1, 3) ? 3 + r.below(20) : 0; }
  AddressRange operator()(size_t bytes, size_t align) override { n_sys++; if (!bytes || bytes % kHugePageSize || align != kHugePageSize) FATAL("system", "%zu bytes aligned %zu requested", bytes, align); size_t n = bytes / kHugePageSize; if ((fail && r.below(fail) == 0) || bump + n + 40 > cap) { n_sysfail++; refused = true; return {nullptr, 0}; } if (r.chance(1, 3)) n += r.below(30); if (r.chance(1, 2)) bump += r.below(5); size_t s = bump; bump += n; got += n; known.add(s, n); fresh_s = s; fresh_n = n; return {(void*)(s * kHugePageSize), n * kHugePageSize}; }
  size_t fresh_s = 0, fresh_n = 0;
};
static void allocsame(HugeAllocator& a, VA& va, Runs& fr, size_t used, Rng& r) {
  evals++; if (a.system().raw_num() != va.got || a.size().raw_num() != fr.tot || va.got - fr.tot != used) FATAL("totals", "%zu hugepages from the system and %zu free reported, %zu and %zu expected", a.system().raw_num(), a.size().raw_num(), va.got, fr.tot); auto s = a.stats(); if (s.system_bytes != va.got * kHugePageSize || s.free_bytes || s.unmapped_bytes != fr.tot * kHugePageSize) FATAL("totals", "byte totals"); SmallSpanStats ss{}; LargeSpanStats ls{}; a.AddSpanStats(&ss, &ls); if ((size_t)ls.spans != fr.m.size() || ls.returned_pages.raw_num() != fr.tot * kP || ls.normal_pages.raw_num()) FATAL("totals", "%zu runs of %zu pages reported, %zu of %zu exist", (size_t)ls.spans, ls.returned_pages.raw_num(), fr.m.size(), fr.tot * kP);
  for (int k = 0; k < 4; k++) { size_t p = r.below(va.bump + 5); if (a.Contains(HugePage{p}) != fr.has(p, 1)) FATAL("contains", "hugepage %zu is said to be %s", p, fr.has(p, 1) ? "not free" : "free"); }
}
static void modeB(Rng& r) {
  FakeMetadataAllocator meta; VA va(r.next()); HugeAllocator a(va, meta); Runs fr; std::vector<std::pair<size_t, size_t>> live; size_t used = 0; int N = 200 + r.below(1500), bias = 5;
  for (int i = 0; i < N; i++) { if (i % 60 == 0) bias = 2 + r.below(7); n_op++;
    if ((int)r.below(10) < bias) { size_t n = 1 + r.below(r.chance(3, 4) ? 6 : 100); size_t lng = fr.longest(); long long s0 = n_sys; va.refused = false; HugeRange g = a.Get(NHugePages(n)); n_get++;
      if (n_sys != s0) { if (lng >= n) FATAL("system", "%zu hugepages requested from the system although a free run of %zu exists", n, lng); if (!va.refused) fr.add(va.fresh_s, va.fresh_n); }
      if (!g.valid()) { n_null++; if (!va.refused) FATAL("refused", "no run of %zu hugepages although the system did not refuse", n); continue; }
      size_t s = g.start().index(), m = g.len().raw_num(); if (m != n) FATAL("length", "%zu hugepages wanted, %zu returned", n, m); if (!fr.has(s, n)) FATAL("overlap", "hugepages %zu+%zu handed out are not free", s, n); fr.del(s, n); used += n; live.push_back({s, n}); dist.add(n * 131 + fr.m.size()); }
    else if (!live.empty()) { size_t j = r.below(live.size()); auto [s, n] = live[j]; if (n > 1 && r.chance(1, 3)) { size_t k = 1 + r.below(n - 1); bool front = r.chance(1, 2); live[j] = front ? std::make_pair(s + k, n - k) : std::make_pair(s, n - k); if (!front) s += n - k; n = k; } else { live[j] = live.back(); live.pop_back(); } a.Release(mk(s, n)); fr.add(s, n); used -= n; n_rel++; }
    allocsame(a, va, fr, used, r); }
  for (auto [s, n] : live) { a.Release(mk(s, n)); fr.add(s, n); used -= n; } allocsame(a, va, fr, used, r);
}
// C: cache
struct CS; static CS* G;
struct CUnback : MemoryModifyFunction { MemoryModifyStatus operator()(Range) override; };
struct CS {
  Rng& r; FakeMetadataAllocator meta; VA va; HugeAllocator a; CUnback u; HugeCache* c; Runs fr, cached, rel; std::vector<std::pair<size_t, size_t>> live; size_t used = 0, peak = 0, done = 0, nfail = 0; int depth = 0, failp = 0; long long reent = 0;
  explicit CS(Rng& rr) : r(rr), va(rr.next()), a(va, meta) { static absl::Duration ds[] = {absl::Seconds(1), absl::Milliseconds(100), absl::Seconds(10)}; c = new HugeCache(a, meta, u, ds[r.below(3)], Clock{.now = [] { return clk; }, .freq = [] { return frq; }}); G = this; }
  ~CS() { delete c; }
  void check() {
    evals++; if (c->usage().raw_num() != used) FATAL("usage", "%zu hugepages reported in use, %zu are", c->usage().raw_num(), used); if (c->size().raw_num() != cached.tot) FATAL("size", "%zu hugepages reported cached, %zu are", c->size().raw_num(), cached.tot); auto s = c->stats(); if (s.system_bytes != (used + cached.tot) * kHugePageSize || s.free_bytes != cached.tot * kHugePageSize || s.unmapped_bytes) FATAL("size", "byte totals");
    SmallSpanStats ss{}; LargeSpanStats ls{}; c->AddSpanStats(&ss, &ls); if ((size_t)ls.spans != cached.m.size() || ls.normal_pages.raw_num() != cached.tot * kP || ls.returned_pages.raw_num()) FATAL("spans", "%zu runs of %zu pages reported, %zu of %zu are cached", (size_t)ls.spans, ls.normal_pages.raw_num(), cached.m.size(), cached.tot * kP);
    if (c->limit().raw_num() < 10 || c->limit().raw_num() > std::max<size_t>(10, peak + peak / 10)) FATAL("limit", "limit of %zu hugepages, at most %zu were ever in use", c->limit().raw_num(), peak); for (int k = 0; k < 4; k++) { size_t p = r.below(va.bump + 5); if (c->Contains(HugePage{p}) != cached.has(p, 1)) FATAL("contains", "hugepage %zu", p); }
    if (va.got != used + cached.tot + fr.tot + rel.tot) FATAL("conserve", "%zu hugepages obtained, %zu accounted", va.got, used + cached.tot + fr.tot + rel.tot); allocsame(a, va, fr, used + cached.tot + rel.tot, r);
  }
  void step() {
    n_op++; switch (r.below(8)) {
      case 0: case 1: case 2: { size_t n = 1 + r.below(r.chance(2, 3) ? 5 : 60); size_t lng = cached.longest(); long long s0 = n_sys; va.refused = false; bool fromrel = false; HugeRange g = c->Get(NHugePages(n), &fromrel); n_get++; if (n_sys != s0 && !va.refused) fr.add(va.fresh_s, va.fresh_n);
        if (!g.valid()) { n_null++; if (!va.refused) FATAL("refused", "no run of %zu hugepages although the system did not refuse", n); break; } size_t s = g.start().index(); if (g.len().raw_num() != n) FATAL("length", "%zu wanted, %zu returned", n, g.len().raw_num());
        if (fromrel) { n_miss++; if (lng >= n) FATAL("miss", "%zu hugepages taken unbacked although a backed run of %zu is cached", n, lng); if (!fr.has(s, n)) FATAL("overlap", "hugepages %zu+%zu handed out are %s", s, n, rel.overlaps(s, n) ? "being given back" : cached.overlaps(s, n) ? "cached" : "in use"); fr.del(s, n); } else { n_hit++; if (!cached.has(s, n)) FATAL("overlap", "hugepages %zu+%zu handed out as backed are %s", s, n, rel.overlaps(s, n) ? "being given back" : fr.overlaps(s, n) ? "unbacked" : "in use"); cached.del(s, n); }
        used += n; peak = std::max(peak, used); live.push_back({s, n}); dist.add(n * 131 + cached.m.size() * 7 + fromrel); break; }
      case 3: case 4: case 5: if (!live.empty()) { size_t j = r.below(live.size()); auto [s, n] = live[j]; live[j] = live.back(); live.pop_back(); used -= n; n_rel++; if (r.chance(1, 6)) { fr.add(s, n); c->ReleaseUnbacked(mk(s, n)); break; } cached.add(s, n); failp = r.chance(1, 8) ? 1 + r.below(3) : 0; nfail = 0; long long re = reent; c->Release(mk(s, n)); if (!nfail && re == reent && cached.tot > c->limit().raw_num()) FATAL("limit", "%zu hugepages stay cached, the limit is %zu", cached.tot, c->limit().raw_num()); failp = 0; } break;
      case 6: { size_t n = r.chance(1, 4) ? r.below(3) : r.below(80), sz = cached.tot; failp = r.chance(1, 4) ? 1 + r.below(3) : 0; nfail = 0; size_t d0 = done; long long re = reent; size_t got = c->ReleaseCachedPages(NHugePages(n)).raw_num(); failp = 0; if (re == reent) { if (got != done - d0) FATAL("reported", "a release reports %zu hugepages, %zu were given back", got, done - d0); if (!nfail && got < std::min(n, sz)) FATAL("shortfall", "%zu hugepages wanted, %zu cached, %zu released", n, sz, got); if (got > n && cached.tot < c->limit().raw_num()) FATAL("overshoot", "%zu hugepages wanted, %zu released", n, got); } break; }
      default: if (depth) break; clk += r.chance(1, 3) ? r.below(3 * (int64_t)frq) : r.chance(1, 6) ? r.below(60 * (int64_t)frq) : r.below(50000000); }
    if (r.chance(1, 3)) check();
  }
};
MemoryModifyStatus CUnback::operator()(Range rg) {
  CS& g = *G; n_unback++; size_t s = HugePageContaining(rg.p).index(), n = rg.n.raw_num() / kP; if (rg.p.index() % kP || rg.n.raw_num() % kP || !n) FATAL("unback", "%zu pages at page %zu of a hugepage", rg.n.raw_num(), rg.p.index() % kP); if (!g.cached.has(s, n)) FATAL("live", "hugepages %zu+%zu, given back, are not cached", s, n); g.cached.del(s, n); g.rel.add(s, n); size_t i = 0; (void)i; bool ok = !(g.failp && g.r.chance(1, g.failp));
  if (g.depth < 2 && g.r.chance(1, 4)) { g.depth++; g.reent++; n_reent++; int fp = g.failp; g.failp = 0; for (int k = g.r.below(4); k >= 0; k--) g.step(); g.failp = fp; g.depth--; }
  g.rel.del(s, n); if (ok) { g.fr.add(s, n); g.done += n; } else { g.cached.add(s, n); g.nfail++; n_ubfail++; } return {.success = ok, .error_number = ok ? 0 : ENOMEM};
}
static void modeC(Rng& r) { CS c(r); int N = 300 + r.below(2000); for (int i = 0; i < N; i++) c.step(); c.check(); c.depth = 9; c.failp = 0; while (!c.live.empty()) { auto [s, n] = c.live.back(); c.live.pop_back(); c.used -= n; c.cached.add(s, n); c.c->Release(mk(s, n)); } c.check(); clk += 100 * (int64_t)frq; while (c.cached.tot) c.c->ReleaseCachedPages(NHugePages(1000)); c.check(); if (c.a.size().raw_num() != c.va.got) FATAL("conserve", "%zu of %zu hugepages come back", c.a.size().raw_num(), c.va.got); }
// R, S: regions
static constexpr size_t kRH = HugeRegion::kNumHugePages, kRP = kRH * kP;
struct RUnback : MemoryModifyFunction { MemoryModifyStatus operator()(Range) override; }; struct RTag : MemoryTagFunction { int n = 0; void operator()(Range r, std::optional<absl::string_view> nm) override { n++; if (!nm || nm->find("tcmalloc_huge_region") != 0 || r.n.raw_num() != kRP) FATAL("name", "region named oddly"); } };
struct RM { size_t base; Runs fr; std::vector<uint32_t> used; std::vector<uint8_t> backed; size_t nb = 0, fb = 0; HugeRegion* h; explicit RM(size_t b) : base(b), used(kRH), backed(kRH) { fr.add(0, kRP); } };
static std::vector<std::unique_ptr<RM>>* RS; static int r_failp; static size_t r_done, r_fail; static std::vector<size_t> r_order; static bool r_expect; static Rng* RR;
static RM* rof(size_t page, size_t& off) { for (auto& x : *RS) if (page >= x->base * kP && page < (x->base + kRH) * kP) { off = page - x->base * kP; return x.get(); } return nullptr; }
MemoryModifyStatus RUnback::operator()(Range rg) {
  n_unback++; size_t off; RM* m = rof(rg.p.index(), off); size_t n = rg.n.raw_num(); if (!m || off % kP || n % kP || !n || off + n > kRP) FATAL("unback", "%zu pages at %zu", n, off); if (!r_expect) FATAL("unback", "hugepages given back although not asked to"); for (size_t h = off / kP; h < (off + n) / kP; h++) { if (m->used[h]) FATAL("live", "hugepage %zu, with %u pages in use, is given back", h, m->used[h]); if (!m->backed[h]) FATAL("unback", "hugepage %zu is given back twice", h); r_order.push_back(m->base + h); }
  bool ok = !(r_failp && RR->chance(1, r_failp)); if (!ok) { r_fail++; n_ubfail++; return {.success = false, .error_number = ENOMEM}; } for (size_t h = off / kP; h < (off + n) / kP; h++) { m->backed[h] = 0; m->nb--; m->fb--; r_done++; } return {.success = true, .error_number = 0};
}
struct RP { RM* m; size_t off, n; };
static void rtake(RM* m, size_t off, size_t n, bool fromrel) {
  if (off + n > kRP || !m->fr.has(off, n)) FATAL("overlap", "pages %zu+%zu handed out are in use", off, n); m->fr.del(off, n); bool un = false; for (size_t p = off; p < off + n;) { size_t h = p / kP, e = std::min(off + n, (h + 1) * kP); if (!m->used[h]) { if (m->backed[h]) m->fb--; else { m->backed[h] = 1; m->nb++; un = true; } } m->used[h] += e - p; p = e; } if (un != fromrel) FATAL("released", "a run %s is said to be %s", un ? "with unbacked pages" : "wholly backed", fromrel ? "unbacked" : "backed"); dist.add(n * 1009 + off % kP);
}
static std::vector<size_t> rgive(RM* m, size_t off, size_t n) { std::vector<size_t> em; m->fr.add(off, n); for (size_t p = off; p < off + n;) { size_t h = p / kP, e = std::min(off + n, (h + 1) * kP); m->used[h] -= e - p; if (!m->used[h]) { m->fb++; em.push_back(m->base + h); } p = e; } return em; }
static void rsame(RM* m, bool full) {
  evals++; HugeRegion& h = *m->h; size_t un = (kRH - m->nb) * kP, us = kRP - m->fr.tot; auto s = h.stats(); if (h.used_pages().raw_num() != us || h.unmapped_pages().raw_num() != un || h.free_pages().raw_num() != kRP - un - us || h.free_backed().raw_num() != m->fb || s.system_bytes != kRH * kHugePageSize || s.unmapped_bytes != un * kPageSize || s.free_bytes != (kRP - un - us) * kPageSize) FATAL("totals", "used %zu/%zu unbacked %zu/%zu free and backed hugepages %zu/%zu", h.used_pages().raw_num(), us, h.unmapped_pages().raw_num(), un, h.free_backed().raw_num(), m->fb);
  if (!full) return; n_full++; if (h.backed().raw_num() != m->nb) FATAL("totals", "backed %zu/%zu", h.backed().raw_num(), m->nb); SmallSpanStats ss{}; LargeSpanStats ls{}; h.AddSpanStats(&ss, &ls); std::vector<long long> no(kMaxPages.raw_num()), re(kMaxPages.raw_num()); long long sp = 0, ln = 0, lr = 0; for (auto [o, l] : m->fr.m) for (size_t p = o; p < o + l;) { bool b = m->backed[p / kP]; size_t e = p; while (e < o + l && (bool)m->backed[e / kP] == b) e = std::min(o + l, (e / kP + 1) * kP); size_t n = e - p; if (n < kMaxPages.raw_num()) (b ? no : re)[n]++; else { sp++; (b ? ln : lr) += n; } p = e; }
  for (size_t i = 0; i < kMaxPages.raw_num(); i++) if (ss.normal_length[i] != no[i] || ss.returned_length[i] != re[i]) FATAL("spans", "%lld free and %lld unbacked runs of %zu pages reported, %lld and %lld exist", (long long)ss.normal_length[i], (long long)ss.returned_length[i], i, no[i], re[i]); if ((long long)ls.spans != sp || (long long)ls.normal_pages.raw_num() != ln || (long long)ls.returned_pages.raw_num() != lr) FATAL("spans", "long runs %zu/%lld", (size_t)ls.spans, sp);
  for (size_t k = 0; k < kRH; k++) { PageBitmap b; if (!h.GetPageAllocationStatus(HugePage{m->base + k}, b)) FATAL("status", "no status"); size_t c = 0; for (size_t p = 0; p < kP; p++) if (b.GetBit(p)) c++; if (c != m->used[k]) FATAL("status", "%zu pages of hugepage %zu reported in use, %u are", c, k, m->used[k]); if (c && c < kP) for (size_t p = 0; p < kP; p++) if (b.GetBit(p) == m->fr.has(k * kP + p, 1)) FATAL("status", "page %zu of hugepage %zu", p, k); }
  PageBitmap b; if (h.GetPageAllocationStatus(HugePage{m->base + kRH}, b) || h.GetPageAllocationStatus(HugePage{m->base - 1}, b)) FATAL("status", "a status for foreign hugepages"); if (!h.contains(HugePage{m->base}.first_page()) || h.contains(HugePage{m->base + kRH}.first_page())) FATAL("contains", "region bounds");
}
static size_t rsize(Rng& r) { switch (r.below(6)) { case 0: return 1 + r.below(8); case 1: return kP + r.below(kP); case 2: return 1 + r.below(20 * kP); case 3: return kP * (1 + r.below(5)); case 4: return r.chance(1, 20) ? 1 + r.below(kRP) : std::max<size_t>(1, kP / 2) + r.below(kP); default: return 1 + r.below(4 * kP); } }
static void modeR(Rng& r) {
  std::vector<std::unique_ptr<RM>> rs; RS = &rs; RR = &r; RUnback u; RTag t; size_t base = ((size_t)MemoryTag::kNormal << (kTagShift - kHugePageShift)) + kRH * (1 + r.below(100)); rs.push_back(std::make_unique<RM>(base)); RM* m = rs[0].get(); m->h = new HugeRegion(mk(base, kRH), u, t); std::vector<RP> live; int N = 500 + r.below(1500), bias = 5; bool rel = r.chance(1, 2); if (t.n != 1) FATAL("name", "region not named");
  for (int i = 0; i < N; i++) { if (i % 100 == 0) bias = 2 + r.below(7), rel = r.chance(1, 2); n_op++;
    if ((int)r.below(10) < bias) { size_t n = rsize(r); PageId p; bool fr = false; size_t lng = m->fr.longest(); bool ok = m->h->MaybeGet(L(n), &p, &fr); n_get++; if (ok != (n <= lng)) FATAL("refused", "%zu pages %s, the longest free run is %zu", n, ok ? "handed out" : "refused", lng); if (!ok) { n_null++; continue; } size_t off = p.index() - base * kP; rtake(m, off, n, fr); live.push_back({m, off, n}); }
    else if (r.chance(1, 6)) { size_t want = r.chance(1, 3) ? r.below(3) : r.below(60 * kP); bool ad = r.chance(1, 2); r_expect = true; r_order.clear(); r_done = r_fail = 0; r_failp = r.chance(1, 4) ? 1 + r.below(3) : 0; size_t fb = m->fb; std::vector<size_t> cand; for (size_t h = 0; h < kRH; h++) if (m->backed[h] && !m->used[h]) cand.push_back(base + h); size_t got = m->h->Release(L(want), ad).raw_num(); n_rel++; r_expect = false; size_t exp = std::min(fb, (want + kP - 1) / kP); if (got != r_done) FATAL("reported", "%zu hugepages reported released, %zu were", got, r_done); if (!r_fail && got != exp) FATAL("amount", "%zu pages wanted, %zu hugepages free and backed, %zu released", want, fb, got); if (ad) std::reverse(cand.begin(), cand.end()); std::set<size_t> a(cand.begin(), cand.begin() + std::min(exp, cand.size())), b(r_order.begin(), r_order.end()); if (a != b) FATAL("order", "other hugepages were released than the %s ones", ad ? "last" : "first"); }
    else if (!live.empty()) { size_t j = r.below(live.size()); RP x = live[j]; live[j] = live.back(); live.pop_back(); auto em = rgive(m, x.off, x.n); r_expect = rel; r_order.clear(); r_failp = r.chance(1, 8) ? 1 : 0; m->h->Put(Range(HugePage{base}.first_page() + L(x.off), L(x.n)), rel); r_expect = false; std::sort(r_order.begin(), r_order.end()); if (rel && r_order != em) FATAL("emptied", "%zu hugepages became empty, %zu were given back", em.size(), r_order.size()); }
    rsame(m, r.chance(1, 30)); }
  rsame(m, true); delete m->h;
}
static void modeS(Rng& r) {
  std::vector<std::unique_ptr<RM>> rs; RS = &rs; RR = &r; RUnback u; RTag t; size_t base = ((size_t)MemoryTag::kNormal << (kTagShift - kHugePageShift)) + kRH; bool more = r.chance(1, 2); HugeRegionSet<HugeRegion> set(more ? HugeRegionUsageOption::kUseForAllLargeAllocs : HugeRegionUsageOption::kDefault); std::vector<RP> live; int N = 400 + r.below(1200), bias = 5; size_t lw = 0, maxr = 1 + r.below(6); if (set.UseHugeRegionMoreOften() != more) FATAL("option", "usage option");
  auto fbs = [&] { size_t s = 0; for (auto& m : rs) s += m->fb; return s; };
  for (int i = 0; i < N; i++) { if (i % 100 == 0) bias = 2 + r.below(7); n_op++;
    if ((int)r.below(10) < bias) { size_t n = r.chance(1, 4) ? 1 + r.below(kRP / 2) : rsize(r); PageId p; bool fr = false; size_t best = ~0ull; for (auto& m : rs) if (m->fr.longest() >= n) best = std::min(best, m->fr.longest()); bool ok = set.MaybeGet(L(n), &p, &fr); n_get++; if (ok != (best != ~0ull)) FATAL("refused", "%zu pages %s", n, ok ? "handed out although no region has them" : "refused although a region has them");
      if (!ok) { n_null++; if (rs.size() < maxr) { size_t b = base + kRH * (rs.size() * 2 + r.below(2)); rs.push_back(std::make_unique<RM>(b)); rs.back()->h = new HugeRegion(mk(b, kRH), u, t); set.Contribute(rs.back()->h); } continue; }
      size_t off; RM* m = rof(p.index(), off); if (!m) FATAL("foreign", "pages of no region handed out"); if (m->fr.longest() != best) FATAL("preference", "%zu pages taken from a region with %zu contiguous free pages, one with %zu had room", n, m->fr.longest(), best); rtake(m, off, n, fr); lw = std::min(lw, fbs()); live.push_back({m, off, n}); }
    else if (r.chance(1, 6)) { size_t want = r.chance(1, 3) ? r.below(3 * kP) : r.below(200 * kP); bool ad = r.chance(1, 2), hit = r.chance(1, 2); r_expect = true; r_order.clear(); r_done = r_fail = 0; r_failp = r.chance(1, 5) ? 1 + r.below(3) : 0; size_t fb = fbs(); size_t tgt = hit ? want : ad ? lw * kP : (size_t)(fb * kP * 0.1); size_t got = set.ReleasePages(L(want), ad, hit).raw_num(); n_rel++; r_expect = false; if (got != r_done * kP) FATAL("reported", "%zu pages reported released, %zu were", got, r_done * kP); size_t exp = std::min(fb, (tgt + kP - 1) / kP); if (!r_fail && r_done != exp) FATAL("amount", "%zu hugepages released, %zu of %zu free and backed ones were due", r_done, exp, fb); lw = fbs(); }
    else if (!live.empty()) { size_t j = r.below(live.size()); RP x = live[j]; live[j] = live.back(); live.pop_back(); auto em = rgive(x.m, x.off, x.n); r_expect = !more; r_order.clear(); r_failp = r.chance(1, 8) ? 1 : 0; Range rg(HugePage{x.m->base}.first_page() + L(x.off), L(x.n)); if (!set.MaybePut(rg)) FATAL("refused", "a run of a region is not taken back"); r_expect = false; std::sort(r_order.begin(), r_order.end()); if (!more && r_order != em) FATAL("emptied", "%zu hugepages became empty, %zu were given back", em.size(), r_order.size()); }
    else if (set.MaybePut(Range(HugePage{base + kRH * 100}.first_page(), L(1)))) FATAL("foreign", "foreign pages taken in");
    evals++; if (set.free_backed().raw_num() != fbs()) FATAL("totals", "%zu free and backed hugepages reported, %zu are", set.free_backed().raw_num(), fbs()); if (set.ActiveRegions() != rs.size()) FATAL("totals", "%zu regions", set.ActiveRegions()); size_t us = 0, un = 0; for (auto& m : rs) { us += kRP - m->fr.tot; un += (kRH - m->nb) * kP; } auto s = set.stats(); if (s.system_bytes != rs.size() * kRP * kPageSize || s.unmapped_bytes != un * kPageSize || s.free_bytes != (rs.size() * kRP - un - us) * kPageSize) FATAL("totals", "byte totals"); if (!rs.empty()) { RM* m = rs[r.below(rs.size())].get(); rsame(m, r.chance(1, 40)); PageBitmap b; size_t k = r.below(kRH); if (!set.GetPageAllocationStatus(HugePage{m->base + k}, b) || b.CountBits() != m->used[k]) FATAL("status", "hugepage %zu", k); } }
  for (auto& m : rs) { rsame(m.get(), true); } for (auto& m : rs) delete m->h;
}
int main(int argc, char** argv) {
  const char* m = argc > 1 ? argv[1] : "A"; double deadline = now_ns() + (thorough() ? 300e9 : 4e9); int s = 0; do { Rng r(seed() * 7919 + s * 31 + m[0]); s++; switch (m[0]) { case 'A': modeA(r); break; case 'B': modeB(r); break; case 'C': modeC(r); break; case 'R': modeR(r); break; default: modeS(r); } } while (now_ns() < deadline);
  metric("evals", evals); metric("distinct", dist.n); metric("sessions", s); metric("ops", n_op); metric("inserts", n_ins); metric("removes", n_rem); metric("gets", n_get); metric("refused", n_null); metric("system_requests", n_sys); metric("system_refusals", n_sysfail); metric("hits", n_hit); metric("misses", n_miss); metric("unbacks", n_unback); metric("unback_fails", n_ubfail); metric("releases", n_rel); metric("reentered", n_reent); metric("full_checks", n_full);
  say("SAMPLE mode %s: %d sessions, %lld operations, %lld unbacks (%lld refused)", m, s, n_op, n_unback, n_ubfail); return done();
}
