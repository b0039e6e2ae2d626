// P14: the real HugePageFiller with own unback/collapse/tagging/residency hooks against a per-page model of every hugepage.
// Operations are re-entered wherever the filler drops the page heap lock. Args: U = mark-unbacked mode.
#include <algorithm>
#include <map>
#include <set>
#include <vector>
#include "vt.h"
#include "tcmalloc/huge_page_filler.h"
using namespace vt; using namespace tcmalloc; using namespace tcmalloc::tcmalloc_internal;
using L = tcmalloc_internal::Length;
static constexpr size_t kP = kPagesPerHugePage.raw_num(), kHw = 512, kPer = kHw / kP; static constexpr size_t kBase = 1000;
static long long evals, n_get, n_put, n_rel, n_unback, n_unbackfail, n_treat, n_exam, n_marked, n_collapse, n_colok, n_reent, n_pend, n_tag, n_don, n_rest, n_wl; static Distinct dist; static int64_t clk = 1; static double frq = 1e9;
struct HP {
  PageTracker* pt = nullptr; std::vector<uint32_t> own; std::vector<uint8_t> rel; bool donated = false, dense = false, unbroken = true, mhb = false, ev = false, collapsing = false, pend = false, named = false, emptying = false; double rt = 0; size_t used = 0, nrel = 0, nalloc = 0, nobj = 0, lf = kP;
  // what the fake kernel reported in the current treatment pass
  bool q = false, qback = false, qcol = false, qcolok = false, qfail = false, qraced = false; std::vector<uint8_t> qun; bool qswap = false, qstale = false; size_t qnsw = 0, qnun = 0, lastun = 0; bool qresid = false, qmust = false; double rtq = 0;
  HP() : own(kP), rel(kP), qun(kP) {}
  void scan() { used = nrel = 0; lf = 0; size_t run = 0; for (size_t i = 0; i < kP; i++) { if (own[i]) { used++; run = 0; } else { run++; lf = std::max(lf, run); } nrel += rel[i]; } }
};
struct Sp { size_t h, off, n; uint32_t id; SpanAllocInfo info; };
struct M; static M* g;
struct Unback : MemoryModifyFunction { bool wl; explicit Unback(bool w) : wl(w) {} MemoryModifyStatus operator()(Range r) override; };
struct Coll : MemoryModifyFunction { MemoryModifyStatus operator()(Range r) override; };
struct Tag : MemoryTagFunction { void operator()(Range r, std::optional<absl::string_view> n) override; };
struct PF : PageFlagsBase { std::optional<bool> IsHugepageBacked(const void* a) override; std::optional<PageStats> Get(const void*, size_t) override { return std::nullopt; } PageFlagsBitmaps GetSinglePageBitmaps(const void* a) override; };
struct Res : Residency { std::optional<Info> Get(const void*, size_t) override { return std::nullopt; } size_t GetHardwarePagesInHugePage() const override { return kHw; } SinglePageBitmaps GetUnbackedAndSwappedBitmaps(const void* a) override; };
struct M {
  using F = HugePageFiller<PageTracker>; Rng r; bool mode; Unback u{false}, w{true}; Coll co; Tag tg; PF pf; Res rs; F* f; std::map<size_t, HP> hp; size_t next = 0, maxhp; std::vector<Sp> live; uint32_t nid = 1; int depth = 0;
  int failp = 0; bool in_rel = false, in_treat = false; size_t credit = 0; // release bookkeeping
  size_t rel_pages = 0, rel_before_last = 0, fails = 0; size_t last_h = ~0ull; bool hetero = false; double collat = 0; bool colslow = false; size_t att = 0; bool col_on = false, col_unf = false; long long colok = 0; int maxb = 1, curb = 0; long long n_skip = 0; int resmode = 0;
  size_t un_treat = 0; long long subrel_total = 0;
  M(uint64_t s, bool m) : r(s), mode(m) { maxhp = 3 + r.below(r.chance(1, 3) ? 120 : 20); g = this; f = new F(Clock{.now = [] { return clk; }, .freq = [] { return frq; }}, MemoryTag::kNormal, u, w, co, tg, mode ? SubreleaseUnbackedMode::kEnabled : SubreleaseUnbackedMode::kDisabled); }
  static size_t hpof(PageId p) { return p.index() / kP - kBase; }
  HP& at(size_t h) { auto it = hp.find(h); if (it == hp.end()) FATAL("foreign", "hugepage %zu is not in the filler", h); return it->second; }
  int cat(const HP& x) { if (x.donated) return 1; if (!x.nrel && (x.unbroken || !mode)) return 0; return kP - x.used <= x.nrel ? 3 : 2; }
  bool relable(const HP& x) { return !x.pend && !x.emptying && kP - x.used > x.nrel; }
  void reenter() { if (depth > 0 || !r.chance(1, 3)) return; if (!pageheap_lock.try_lock()) return; pageheap_lock.unlock(); depth++; n_reent++; for (int i = r.below(4); i >= 0; i--) step(); depth--; }
  void add(bool donate, bool dense) {
    size_t h = next++, n = donate ? 1 + r.below(kP - 1) : dense ? 1 : 1 + r.below(r.chance(1, 2) ? kP - 1 : std::max<size_t>(1, kP / 8)); SpanAllocInfo i{1 + (donate || n == 1 ? 0 : 0), dense ? AccessDensityPrediction::kDense : AccessDensityPrediction::kSparse}; if (!donate) i.objects_per_span = 1 + r.below(100);
    PageHeapSpinLockHolder l; auto* pt = new PageTracker(HugePage{kBase + h}, donate, clk); auto a = pt->Get(L(n), i); if (a.page != HugePage{kBase + h}.first_page() || a.previously_unbacked != L(0)) FATAL("fresh", "first allocation of a fresh hugepage at page %zu", a.page.index() % kP);
    HP& x = hp[h]; x.pt = pt; x.dense = dense; x.donated = donate; uint32_t id = nid++; for (size_t k = 0; k < n; k++) x.own[k] = id; x.nalloc = 1; x.nobj = i.objects_per_span; x.scan(); f->Contribute(pt, donate, i); if (donate) n_don++; live.push_back({h, 0, n, id, i});
  }
  void get() {
    bool dense = r.chance(1, 3); size_t n = dense || r.chance(1, 3) ? 1 : r.chance(1, 2) ? 1 + r.below(std::max<size_t>(1, kP / 8)) : 1 + r.below(kP - 1); SpanAllocInfo i{1 + r.below(r.chance(1, 2) ? 4 : 500), dense ? AccessDensityPrediction::kDense : AccessDensityPrediction::kSparse};
    // expectation: category order, then shortest sufficient longest-free range / most allocations
    int bc = 9; size_t blf = 0; int bq = 0; for (auto& [h, x] : hp) { if (x.pend || x.emptying || x.dense != dense || x.lf < n) continue; int c = cat(x); size_t key = dense ? kP - x.nalloc : x.lf; int q = qa(x); if (c < bc || (c == bc && (key < blf || (key == blf && q > bq && c != 1 && !dense)))) { bc = c; blf = key; bq = q; } }
    F::TryGetResult t; { PageHeapSpinLockHolder l; t = f->TryGet(L(n), i); } n_get++; evals++;
    if (!t.pt) { if (bc != 9) FATAL("refused", "no run of %zu pages found although a hugepage (category %d) has one of %zu free", n, bc, dense ? (size_t)1 : blf); bool don = !dense && r.chance(1, 4); if (hp.size() < maxhp) add(don, dense); return; }
    size_t h = hpof(t.page), off = t.page.index() % kP; HP& x = at(h); if (x.pt != t.pt) FATAL("tracker", "run at hugepage %zu is said to belong to another tracker", h); if (bc == 9 || x.pend || x.emptying) FATAL("overlap", "a run of %zu pages was found in hugepage %zu although none is free", n, h); if (x.dense != dense) FATAL("density", "a %s run was placed on a %s hugepage", dense ? "dense" : "sparse", x.dense ? "dense" : "sparse");
    int c = cat(x); size_t key = dense ? kP - x.nalloc : x.lf; if (off + n > kP) FATAL("overlap", "run of %zu pages at page %zu crosses the hugepage", n, off); for (size_t k = off; k < off + n; k++) if (x.own[k]) FATAL("overlap", "page %zu of hugepage %zu handed out while in use", k, h);
    if (c != bc) FATAL("preference", "run of %zu pages taken from a hugepage of category %d, one of category %d had room", n, c, bc); if (key != blf) FATAL("preference", "run of %zu pages (%s) taken from a hugepage with %s %zu, %zu was available", n, dense ? "dense" : "sparse", dense ? "free pages" : "longest free range", key, blf); if (!dense && c != 1 && qa(x) != bq) FATAL("preference", "allocation-count preference ignored (%d against %d)", qa(x), bq);
    if (t.from_released != (c >= 2)) FATAL("released", "a run from a hugepage of category %d is said to be %s", c, t.from_released ? "from a released one" : "from a backed one");
    dist.add(((uint64_t)n * 512 + off) * 4 + c); uint32_t id = nid++; for (size_t k = off; k < off + n; k++) { x.own[k] = id; x.rel[k] = 0; } x.nalloc++; x.nobj += i.objects_per_span; x.donated = false; x.scan(); live.push_back({h, off, n, id, i});
  }
  static int qa(const HP& x) { if (x.dense) return 0; int l = 0; while (((size_t)1 << l) < x.nalloc) l++; return std::min(l, 7); }
  void put() {
    if (live.empty()) return; size_t j = r.chance(1, 4) ? live.size() - 1 : r.below(live.size()); Sp s = live[j]; HP& x0 = at(s.h); if (x0.emptying) return; live[j] = live.back(); live.pop_back(); HP& x = x0; n_put++; evals++;
    for (size_t k = s.off; k < s.off + s.n; k++) { if (x.own[k] != s.id) FATAL("harness", "own"); x.own[k] = 0; } x.nalloc--; x.nobj -= s.info.objects_per_span; x.donated = false; x.scan(); if (!x.used) x.emptying = true; bool part = x.nrel && x.nrel < kP; long long ub = n_wl;
    PageTracker* pt; { PageHeapSpinLockHolder l; pt = f->Put(x.pt, Range(HugePage{kBase + s.h}.first_page() + L(s.off), L(s.n)), s.info); }
    if (x.used) { if (pt) FATAL("lost", "hugepage %zu with %zu pages in use was given up", s.h, x.used); return; }
    if (!part && n_wl != ub && !depth && false) FATAL("release", "x"); x.emptying = false; if (pt && pt != x.pt) FATAL("lost", "another tracker was returned"); if (!pt) { if (!in_treat) FATAL("stuck", "empty hugepage %zu was not given up", s.h); x.pend = true; n_pend++; return; }
    gone(s.h, pt);
  }
  void gone(size_t h, PageTracker* pt) {
    HP& x = at(h); if (x.used || x.collapsing) FATAL("lost", "hugepage %zu given up while %s", h, x.used ? "in use" : "being collapsed"); if (pt->DontFreeTracker()) FATAL("lost", "hugepage %zu given up while under treatment", h); if (x.named) FATAL("name", "hugepage %zu given up still carrying a region name", h); bool rel = pt->released(); if (rel && x.nrel != kP) FATAL("released", "an empty hugepage with %zu of %zu pages released is given up as released", x.nrel, kP); if (!rel && x.nrel == kP) FATAL("released", "a wholly released hugepage is given up as backed"); if (pt->released_pages() > L(kP)) FATAL("released", "count"); delete pt; hp.erase(h);
  }
  void release() {
    n_rel++; size_t want = r.chance(1, 4) ? r.below(40 * kP) : r.below(kP + 1); bool part = r.chance(1, 2), hit = r.chance(1, 3); SkipSubreleaseIntervals iv{}; bool skip = r.chance(1, 4); if (skip) { if (r.chance(1, 2)) iv.peak_interval = absl::Seconds(1 + r.below(600)); else { iv.short_interval = absl::Seconds(1 + r.below(100)); iv.long_interval = absl::Seconds(100 + r.below(500)); } }
    size_t avail = 0, fip = 0; for (auto& [h, x] : hp) { if (!x.pend && !x.emptying && cat(x) >= 2) fip += kP - x.used - x.nrel; if (relable(x) && !x.collapsing) avail += kP - x.used - x.nrel; }
    if (r.chance(1, 3)) failp = 1 + r.below(4); size_t D = want; if (part && !hit) D = std::max<size_t>(D, (size_t)(0.1 * fip)); size_t c0 = credit; if (hit) D += credit; credit = 0;
    in_rel = true; rel_pages = rel_before_last = fails = 0; last_h = ~0ull; hetero = false; size_t got; { PageHeapSpinLockHolder l; got = f->ReleasePages(L(want), iv, part, hit).raw_num(); } in_rel = false; failp = 0; evals++;
    if (got != c0 + rel_pages) FATAL("reported", "a release reports %zu pages; %zu were released in it and %zu were owed from before", got, rel_pages, c0); if (last_h != ~0ull && c0 + rel_before_last >= D) FATAL("overshoot", "released from another hugepage with %zu of %zu pages already released", c0 + rel_before_last, D);
    if ((!skip || hit) && !fails && c0 < D && got < std::min(D, c0 + avail)) FATAL("shortfall", "%zu pages wanted, %zu releasable, %zu released", D, avail, got);
    if (skip && !hit && c0 < D && rel_pages > std::max<size_t>(D, 0) + kP) FATAL("overshoot", "released %zu of %zu", rel_pages, D);
  }
  void treat() {
    if (depth) return; n_treat++; bool en = r.chance(2, 3), unf = r.chance(1, 4), st = r.chance(1, 3); col_on = en; col_unf = unf; colslow = false; collat = 0; att = 0; bool skip = false; double before_max = 0; if (en) { if (++curb < maxb) { skip = true; n_skip++; } else curb = 0; } if (skip) col_on = false; resmode = r.below(5); if (r.chance(1, 4)) failp = 1 + r.below(4);
    size_t elig = 0; std::vector<size_t> el; for (auto& [h, x] : hp) { x.q = x.qmust = x.qback = x.qcol = x.qcolok = x.qfail = x.qresid = x.qraced = false; if (x.pend) continue; int c = cat(x); if (c == 3 && !mode) continue; if (x.mhb) continue; if (x.ev && !(clk - x.rt > 300 * frq)) continue; elig++; el.push_back(h); } std::set<size_t> es(el.begin(), el.end()); std::map<size_t, size_t> nobj0; for (size_t h : el) nobj0[h] = hp[h].nobj;
    int64_t t0 = clk; long long ub0 = n_unback, co0 = n_collapse, ok0 = colok; in_treat = true; un_treat = 0; { PageHeapSpinLockHolder l; f->TreatHugepageTrackers(en ? EnableCollapse::kEnabled : EnableCollapse::kDisabled, unf ? EnableUnfilteredCollapse::kEnabled : EnableUnfilteredCollapse::kDisabled, st ? ReleaseStalePages::kEnabled : ReleaseStalePages::kDisabled, &pf, &rs); } in_treat = false; failp = 0; evals++;
    if (att) { if (collat > 0.030 * frq) maxb = std::min(maxb * 2, 128); else if (collat < 0.015 * frq) maxb = std::max(maxb / 2, 1); }
    // selection
    size_t ex = 0, minsel = ~0ull, maxun = 0; for (auto& [h, x] : hp) if (x.q) { ex++; if (!es.count(h)) FATAL("eligible", "hugepage %zu was examined again too early or needlessly", h); minsel = std::min(minsel, nobj0[h]); } for (size_t h : el) { auto it = hp.find(h); if (it != hp.end() && !it->second.q) maxun = std::max(maxun, nobj0[h]); }
    n_exam += ex; if (n_examlost + ex != std::min<size_t>(64, elig)) FATAL("eligible", "%zu hugepages examined of %zu due", n_examlost + ex, elig); if (elig > 64 && minsel < maxun) FATAL("eligible", "a hugepage with %zu objects was left out, one with %zu was examined", maxun, minsel); n_examlost = 0;
    // effects
    size_t marked = 0; for (auto& [h, x] : hp) { if (!x.q) continue; if (x.pend) continue; bool bk = x.qback || x.qcolok; if (x.qmust && !x.qcol) FATAL("collapse", "hugepage %zu, not backed as one and within the thresholds, was not collapsed", h); x.ev = true; x.rt = x.rtq; x.mhb = bk;
      if (bk) { if (mode) x.unbroken = true; x.scan(); sync(h, x); continue; } if (!x.qresid) FATAL("residency", "hugepage %zu is not backed as a hugepage, its residency was not looked up", h);
      if (x.lastun > 0) x.mhb = false; bool all = x.qswap || (st && x.qstale); PageBitmap rb, al; { PageHeapSpinLockHolder l; rb = x.pt->released_by_page(); al = x.pt->allocated_pages_bitmap(); }
      for (size_t k = 0; k < kP; k++) { bool now = rb.GetBit(k); if (al.GetBit(k) != (x.own[k] != 0)) FATAL("use", "page %zu of hugepage %zu is recorded %s", k, h, x.own[k] ? "free but is in use" : "in use but is free"); if (now && !x.rel[k]) { if (x.own[k]) FATAL("released", "page %zu of hugepage %zu, in use, is recorded released", k, h); if (!mode || !x.qun[k]) FATAL("released", "page %zu of hugepage %zu is recorded released; it was neither given back nor found unbacked", k, h); x.rel[k] = 1; marked++; }
        if (!now && x.rel[k]) FATAL("released", "page %zu of hugepage %zu, given back, is recorded as backed", k, h); if (!now && !x.own[k] && all && !x.qfail) FATAL("treat", "hugepage %zu has %s pages, its free page %zu was not released", h, x.qswap ? "swapped" : "stale", k); if (!now && !x.own[k] && mode && x.qun[k]) FATAL("treat", "free page %zu of hugepage %zu, found unbacked, is not recorded so", k, h); }
      if (mode) { x.unbroken = false; x.donated = false; } x.scan(); x.lastun = 0; }
    n_marked += marked; credit += un_treat + marked; for (auto& [h, x] : hp) x.lastun = 0;
    // hugepages emptied meanwhile come out exactly once
    for (;;) { PageTracker* pt; { PageHeapSpinLockHolder l; pt = f->FetchFullyFreedTracker(); } if (!pt) break; size_t h = hpof(pt->location().first_page()); HP& x = at(h); if (x.pt != pt || !x.pend) FATAL("lost", "hugepage %zu, not emptied, comes out of the filler", h); gone(h, pt); }
    for (auto& [h, x] : hp) { if (x.pend) FATAL("stuck", "hugepage %zu, emptied during a treatment, is never given up", h); if (x.pt->DontFreeTracker()) FATAL("stuck", "hugepage %zu can never be given up after a treatment", h); if (x.collapsing || x.pt->BeingCollapsed()) FATAL("stuck", "hugepage %zu is still marked as being collapsed", h); }
    HugePageTreatmentStats ts; { PageHeapSpinLockHolder l; ts = f->GetHugePageTreatmentStats(); } if ((long long)ts.collapse_succeeded != colok) FATAL("stats", "%zu successful collapses reported, %lld happened", ts.collapse_succeeded, colok); if ((long long)ts.collapse_intervals_skipped != n_skip) FATAL("backoff", "%zu passes reported as skipped, %lld expected", ts.collapse_intervals_skipped, n_skip); if (ts.treated_pages_unbacked_subreleased != marked) FATAL("stats", "%zu pages reported as found unbacked, %zu were", ts.treated_pages_unbacked_subreleased, marked); if (ts.treated_pages_subreleased + ts.treated_pages_stale_subreleased != un_treat) FATAL("stats", "%zu+%zu pages reported as released by the treatment, %zu were", ts.treated_pages_subreleased, ts.treated_pages_stale_subreleased, un_treat);
  }
  size_t n_examlost = 0;
  void sync(size_t h, HP& x) {}
  void maps() {
    std::set<size_t> seen; PageHeapSpinLockHolder l; f->ForEachHugePage([&](PageTracker& pt) { size_t h = hpof(pt.location().first_page()); auto it = hp.find(h); if (it == hp.end() || it->second.pt != &pt) FATAL("lists", "hugepage %zu, not in the filler, is on its lists", h); if (!seen.insert(h).second) FATAL("lists", "hugepage %zu is on two lists", h); });
    for (auto& [h, x] : hp) { if (x.pend || x.emptying) continue; if (!seen.count(h)) FATAL("lists", "hugepage %zu is on no list", h); PageBitmap rb = x.pt->released_by_page(), al = x.pt->allocated_pages_bitmap(); for (size_t k = 0; k < kP; k++) { if (al.GetBit(k) != (x.own[k] != 0)) FATAL("use", "page %zu of hugepage %zu is recorded %s", k, h, x.own[k] ? "free but is in use" : "in use but is free"); if (rb.GetBit(k) != (x.rel[k] != 0)) FATAL("released", "page %zu of hugepage %zu is recorded %s", k, h, x.rel[k] ? "backed but was given back" : "released but is backed"); }
      if (x.pt->used_pages().raw_num() != x.used || x.pt->nallocs() != x.nalloc || x.pt->nobjects() != x.nobj || x.pt->longest_free_range().raw_num() != x.lf || x.pt->released_pages().raw_num() != x.nrel || x.pt->free_pages().raw_num() != kP - x.used) FATAL("counts", "hugepage %zu: used %zu/%zu allocs %zu/%zu objects %zu/%zu longest %zu/%zu released %zu/%zu", h, x.pt->used_pages().raw_num(), x.used, x.pt->nallocs(), x.nalloc, x.pt->nobjects(), x.nobj, x.pt->longest_free_range().raw_num(), x.lf, x.pt->released_pages().raw_num(), x.nrel); }
  }
  void check() {
    evals++; size_t n = 0, use[2] = {0, 0}, un = 0, fullr[2] = {}, part[2] = {}, full[2] = {}, tot[2] = {}, uir = 0, uip = 0, fip = 0, wasrel = 0; SmallSpanStats sm; LargeSpanStats lg; std::vector<long long> no(kMaxPages.raw_num()), ret(kMaxPages.raw_num()); long long lsp = 0, lno = 0, lre = 0;
    for (auto& [h, x] : hp) { if (x.emptying && x.pt->was_released()) wasrel++; if (x.pend || x.emptying) continue; n++; use[x.dense] += x.used; un += x.nrel; int c = cat(x); tot[x.dense]++; if (c == 3) fullr[x.dense]++, uir += x.used; if (c == 2) part[x.dense]++, uip += x.used; if (c == 0 && x.lf == 0) full[x.dense]++; if (c >= 2) fip += kP - x.used - x.nrel; if (x.pt->was_released()) wasrel++;
      for (size_t k = 0; k < kP;) { if (x.own[k]) { k++; continue; } size_t e = k; while (e < kP && !x.own[e] && x.rel[e] == x.rel[k]) e++; size_t m = e - k; if (m < kMaxPages.raw_num()) (x.rel[k] ? ret : no)[m]++; else { lsp++; (x.rel[k] ? lre : lno) += m; } k = e; } }
    PageHeapSpinLockHolder l; BackingStats b = f->stats(); HugePageFillerStats s = f->GetStats(); f->AddSpanStats(&sm, &lg); auto B = [](size_t p) { return p * kPageSize; };
    if (f->size().raw_num() != n) FATAL("size", "%zu hugepages reported, %zu are in the filler", f->size().raw_num(), n); if (f->pages_allocated(AccessDensityPrediction::kSparse).raw_num() != use[0] || f->pages_allocated(AccessDensityPrediction::kDense).raw_num() != use[1]) FATAL("used", "%zu sparse and %zu dense pages reported in use, %zu and %zu are", f->pages_allocated(AccessDensityPrediction::kSparse).raw_num(), f->pages_allocated(AccessDensityPrediction::kDense).raw_num(), use[0], use[1]);
    if (f->unmapped_pages().raw_num() != un) FATAL("unmapped", "%zu pages reported released, %zu are", f->unmapped_pages().raw_num(), un); if (f->free_pages().raw_num() != n * kP - use[0] - use[1] - un) FATAL("free", "%zu pages reported free, %zu are", f->free_pages().raw_num(), n * kP - use[0] - use[1] - un);
    if (b.system_bytes != n * kHugePageSize || b.unmapped_bytes != B(un) || b.free_bytes != B(n * kP - use[0] - use[1] - un)) FATAL("stats", "totals %zu/%zu/%zu", b.system_bytes, b.free_bytes, b.unmapped_bytes);
    if (f->used_pages_in_released().raw_num() != uir || f->used_pages_in_partial_released().raw_num() != uip || f->FreePagesInPartialAllocs().raw_num() != fip) FATAL("partial", "in released hugepages: used %zu/%zu, partially %zu/%zu, free %zu/%zu", f->used_pages_in_released().raw_num(), uir, f->used_pages_in_partial_released().raw_num(), uip, f->FreePagesInPartialAllocs().raw_num(), fip);
    double fr = f->hugepage_frac(), want = (double)(use[0] + use[1] - uir - uip) / std::max<size_t>(1, use[0] + use[1]); if (fr < want - 1e-9 || fr > want + 1e-9) FATAL("frac", "fraction of used pages on whole hugepages reported as %f, is %f", fr, want); if (f->previously_released_huge_pages().raw_num() != wasrel) FATAL("wasrel", "%zu hugepages reported as released before, %zu are", f->previously_released_huge_pages().raw_num(), wasrel);
    for (int d = 0; d < 2; d++) { auto D = d ? AccessDensityPrediction::kDense : AccessDensityPrediction::kSparse; if (s.n_fully_released[D].raw_num() != fullr[d] || s.n_partial_released[D].raw_num() != part[d] || s.n_full[D].raw_num() != full[d] || s.n_total[D].raw_num() != tot[d] || s.n_partial[D].raw_num() != tot[d] - fullr[d] - part[d] - full[d] || s.n_released[D].raw_num() != fullr[d] + part[d]) FATAL("fullness", "density %d: full %zu/%zu partly released %zu/%zu released %zu/%zu total %zu/%zu", d, s.n_full[D].raw_num(), full[d], s.n_partial_released[D].raw_num(), part[d], s.n_fully_released[D].raw_num(), fullr[d], s.n_total[D].raw_num(), tot[d]); }
    auto T = AccessDensityPrediction::kPredictionCounts; if (s.n_total[T].raw_num() != n || s.n_full[T].raw_num() != full[0] + full[1] || s.n_released[T].raw_num() != fullr[0] + fullr[1] + part[0] + part[1] || s.n_partial[T].raw_num() != n - full[0] - full[1] - fullr[0] - fullr[1] - part[0] - part[1]) FATAL("fullness", "the sums over densities are wrong");
    for (size_t i = 0; i < kMaxPages.raw_num(); i++) if (sm.normal_length[i] != no[i] || sm.returned_length[i] != ret[i]) FATAL("spanstats", "%lld free and %lld released runs of %zu pages reported, %lld and %lld exist", (long long)sm.normal_length[i], (long long)sm.returned_length[i], i, no[i], ret[i]); if ((long long)lg.spans != lsp || (long long)lg.normal_pages.raw_num() != lno || (long long)lg.returned_pages.raw_num() != lre) FATAL("spanstats", "long runs: %zu/%lld, free %zu/%lld released %zu/%lld", (size_t)lg.spans, lsp, lg.normal_pages.raw_num(), lno, lg.returned_pages.raw_num(), lre);
  }
  void step() {
    int phase = bias; switch (r.below(10)) { case 0: case 1: case 2: case 3: if (phase < 6) get(); else put(); break; case 4: case 5: case 6: if (phase < 3) get(); else put(); break; case 7: if (r.chance(1, 4)) release(); else put(); break; case 8: if (depth) break; clk += r.chance(1, 10) ? (int64_t)(r.below(400) * frq) : r.below(1000000); if (!depth && r.chance(1, 4)) treat(); break; default: if (hp.size() < maxhp && r.chance(1, 10)) add(r.chance(1, 3), false); else put(); }
    if (r.chance(1, 4)) check(); if (r.chance(1, 12)) maps();
  }
  int bias = 0; void run(int n) {
    for (int i = 0; i < n; i++) { if (i % 200 == 0) bias = r.below(9); step(); if (i % 500 == 499) { clk += (int64_t)(301 * frq); treat(); check(); maps(); } if (r.chance(1, 1500)) { char* b = (char*)buf; Printer p(b, sizeof buf); PageHeapSpinLockHolder l; f->Print(p, r.chance(1, 2), pf0); } }
    while (!live.empty()) put(); check(); maps(); if (!hp.empty()) FATAL("stuck", "%zu hugepages remain after everything was freed", hp.size()); n_rest++; delete f;
  }
  static char buf[1 << 18]; struct PF0 : PageFlagsBase { std::optional<bool> IsHugepageBacked(const void*) override { return true; } std::optional<PageStats> Get(const void*, size_t) override { return std::nullopt; } PageFlagsBitmaps GetSinglePageBitmaps(const void*) override { return {}; } } pf0;
};
char M::buf[1 << 18];
MemoryModifyStatus Unback::operator()(Range rg) {
  M& m = *g; size_t h = M::hpof(rg.p), off = rg.p.index() % kP, n = rg.n.raw_num(); HP& x = m.at(h); n_unback++; if (!n || off + n > kP) FATAL("unback", "%zu pages at %zu", n, off); for (size_t k = off; k < off + n; k++) { if (x.own[k]) FATAL("live", "page %zu of hugepage %zu is given back while in use", k, h); if (!wl && x.rel[k]) FATAL("unback", "page %zu of hugepage %zu is given back twice", k, h); } if (x.collapsing) FATAL("collapsing", "pages of hugepage %zu are given back while it is being collapsed", h);
  if (wl) { n_wl++; if (!x.emptying || n != kP) FATAL("unback", "%zu pages of hugepage %zu given back whole", n, h); bool ok = !m.r.chance(1, 6); m.reenter(); HP& y = m.at(h); size_t before = y.nrel; if (ok) { for (auto& v : y.rel) v = 1; m.credit += kP - before; } else { for (auto& v : y.rel) v = 0; n_unbackfail++; } y.scan(); return {.success = ok, .error_number = ok ? 0 : ENOMEM}; }
  if (!m.in_rel && !m.in_treat) FATAL("unback", "pages given back outside a release");
  if (m.in_rel && h != m.last_h) { m.rel_before_last = m.rel_pages; m.last_h = h; int c = m.cat(x); size_t bu = ~0ull; bool lower = false; for (auto& [k, y] : m.hp) if (m.relable(y) && !y.collapsing) { int d = m.cat(y); if ((d == 2) == (c == 2)) bu = std::min(bu, y.used); if (d == 2 && c != 2) lower = true; }
    if (!m.fails && lower) FATAL("order", "hugepage %zu is broken up while partly released ones could give pages back", h); if (!m.fails && x.used != bu) FATAL("order", "pages are taken from a hugepage with %zu pages in use, one with %zu was available", x.used, bu); }
  x.donated = false; bool ok = !(m.failp && m.r.chance(1, m.failp)); if (!ok) { n_unbackfail++; m.fails++; x.qfail = true; return {.success = false, .error_number = ENOMEM}; } for (size_t k = off; k < off + n; k++) x.rel[k] = 1; x.lastun += n; if (m.in_rel) { m.rel_pages += n; x.mhb = false; } else m.un_treat += n; x.unbroken = false; x.scan(); return {.success = true, .error_number = 0};
}
MemoryModifyStatus Coll::operator()(Range rg) {
  M& m = *g; size_t h = M::hpof(rg.p); HP& x = m.at(h); n_collapse++; x.qcol = true; if (rg.p.index() % kP || rg.n.raw_num() != kP) FATAL("collapse", "collapse of %zu pages at %zu", rg.n.raw_num(), rg.p.index() % kP); if (!m.in_treat || !m.col_on) FATAL("collapse", "hugepage %zu collapsed although collapsing is off for this pass", h); if (m.colslow) FATAL("backoff", "another collapse right after one took too long"); if (x.nrel) FATAL("collapse", "hugepage %zu collapsed with %zu released pages", h, x.nrel); if (!x.q || x.qback) FATAL("collapse", "hugepage %zu collapsed although it %s", h, x.q ? "is backed as one" : "was not looked at"); if (!m.col_unf && (x.qnsw >= 128 || x.qnun >= 64)) FATAL("collapse", "hugepage %zu collapsed with %zu swapped and %zu unbacked pages", h, x.qnsw, x.qnun);
  x.collapsing = true; if (!x.pt->BeingCollapsed()) FATAL("collapse", "hugepage %zu is not marked as being collapsed", h); int64_t c0 = clk; m.reenter(); clk += m.r.chance(1, 12) ? 31000000 : m.r.chance(1, 6) ? 20000000 : m.r.below(14000000); HP& y = m.at(h); m.collat = std::max(m.collat, (double)(clk - c0)); if (m.collat > 30000000) m.colslow = true; y.collapsing = false; bool ok = m.r.chance(2, 3); if (ok) { m.colok++; n_colok++; y.qcolok = true; } return {.success = ok, .error_number = ok ? 0 : m.r.chance(1, 2) ? ENOMEM : EAGAIN};
}
void Tag::operator()(Range rg, std::optional<absl::string_view> nm) { M& m = *g; size_t h = M::hpof(rg.p); HP& x = m.at(h); n_tag++; if (rg.p.index() % kP || rg.n.raw_num() != kP) FATAL("name", "naming %zu pages", rg.n.raw_num()); if (nm && nm->find("tcmalloc_region_") != 0) FATAL("name", "odd region name"); x.named = nm.has_value(); m.reenter(); }

std::optional<bool> PF::IsHugepageBacked(const void* a) {
  M& m = *g; size_t h = (uintptr_t)a / kHugePageSize - kBase; if ((uintptr_t)a % kHugePageSize) FATAL("residency", "query at %p", a); HP& x = m.at(h); if (x.q) FATAL("eligible", "hugepage %zu examined twice in a pass", h); x.q = true; x.rtq = clk; m.reenter(); int k = m.r.below(8); if (k == 0) { x.qback = true; return std::nullopt; } x.qback = k == 1 && !x.nrel; return x.qback;
}
Residency::SinglePageBitmaps Res::GetUnbackedAndSwappedBitmaps(const void* a) {
  M& m = *g; size_t h = (uintptr_t)a / kHugePageSize - kBase; HP& x = m.at(h); x.qresid = true; m.reenter(); SinglePageBitmaps b{}; b.status = absl::StatusCode::kOk; x.qswap = false; x.qnsw = x.qnun = 0; size_t target = m.r.below(5) == 0 ? 60 + m.r.below(8) : 124 + m.r.below(8); bool exact = m.r.chance(1, 4);
  for (size_t k = 0; k < kP; k++) { bool all = true; for (size_t j = 0; j < kPer; j++) { bool un = x.rel[k], sw = false; if (!un) switch (m.resmode) { case 1: un = mix(k * 77 + m.nid) % 8 == 0; break; case 2: un = m.r.chance(1, 3); break; case 3: sw = m.r.chance(1, 60); break; case 4: un = m.r.chance(9, 10); sw = !un && m.r.chance(1, 2); break; default: if (exact && x.qnun < target / 2 && !un) un = true; else if (exact && x.qnsw < target) sw = true; } if (un) { b.unbacked.SetBit(k * kPer + j); x.qnun++; } else all = false; if (sw) { b.swapped.SetBit(k * kPer + j); x.qnsw++; x.qswap = true; } } x.qun[k] = all; }
  return b;
}
PageFlagsBase::PageFlagsBitmaps PF::GetSinglePageBitmaps(const void* a) {
  M& m = *g; size_t h = (uintptr_t)a / kHugePageSize - kBase; HP& x = m.at(h); m.reenter(); PageFlagsBitmaps b{}; b.status = absl::StatusCode::kOk; x.qstale = false; if (m.r.chance(1, 3)) for (int i = m.r.below(5); i >= 0; i--) { b.stale.SetBit(m.r.below(kHw)); x.qstale = true; }
  if (m.col_on && !m.colslow && (m.col_unf || (x.qnsw < 128 && x.qnun < 64))) { m.att++; if (!x.nrel) x.qmust = true; } return b;
}
int main(int argc, char** argv) {
  bool U = argc > 1 && strchr(argv[1], 'U');
  double deadline = now_ns() + (thorough() ? 400e9 : 6e9); int s = 0; do { M* m = new M(seed() * 1000 + s, U ? s % 4 != 3 : s % 4 == 3); m->run(2000 + m->r.below(6000)); delete m; s++; } while (now_ns() < deadline);
  metric("evals", evals); metric("distinct", dist.n); metric("sessions", s); metric("gets", n_get); metric("puts", n_put); metric("releases", n_rel); metric("unbacks", n_unback); metric("unback_fails", n_unbackfail); metric("treatments", n_treat); metric("examined", n_exam); metric("found_unbacked", n_marked); metric("collapses", n_collapse); metric("collapsed", n_colok); metric("reentered", n_reent); metric("emptied_in_treatment", n_pend); metric("whole_unbacks", n_wl); metric("namings", n_tag); metric("donations", n_don);
  say("SAMPLE %d fillers, %lld runs handed out, %lld release calls to the system", s, n_get, n_unback); return done();
}
