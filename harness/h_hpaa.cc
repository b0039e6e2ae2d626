// P13: the real huge-page-aware page heap over an own page supply. A shadow page table (owner, really backed or not) is
// consulted at every page-heap and system-call boundary. Modes: S sequential (with operations re-entered while a release
// drops the lock), T threads; r: regions for all large requests.
#include <algorithm>
#include <mutex>
#include <thread>
#include <vector>
#include <functional>
#include "vt.h"
#include "tcmalloc/huge_page_aware_allocator.h"
#include "tcmalloc/mock_huge_page_static_forwarder.h"
#include "tcmalloc/sizemap.h"
using namespace vt; using namespace tcmalloc; using namespace tcmalloc::tcmalloc_internal;
static constexpr size_t kP = kPagesPerHugePage.raw_num(), kVA = 96ull << 30, kPages = kVA / kPageSize; static constexpr uint32_t REL = 0xffffffff;
static std::atomic<uint32_t>* owner; static std::atomic<uint8_t>*backed, *known, *gone; static std::atomic<long long> n_known, n_unbacked, n_expl, in_release, n_alloc; static std::atomic<uint8_t>* hp_known;
static Rlx<long long> evals, n_new, n_del, n_rel, n_relfail, n_col, n_null, n_reent, n_donated, n_sysalloc, n_status; static Distinct dist; static bool f_thr; static MemoryTag tag;
static size_t pg(PageId p) { return ((p.start_uintptr() & ~kTagMask)) / kPageSize; }
struct Fwd2 : huge_page_allocator_internal::FakeStaticForwarder {
  int fail_alloc = 0, fail_rel = 0; size_t bump = 1; std::mutex* mu = new std::mutex; Rng r{seed() * 31 + 5}; std::function<void()> cb; std::atomic<long long> succ{0};
  AddressRange AllocatePages(size_t bytes, size_t align, MemoryTag t) {
    std::lock_guard<std::mutex> g(*mu); if (t != tag) FATAL("tag", "pages of tag %d requested by the heap of tag %d", (int)t, (int)tag); if (bytes == 0 || bytes % kHugePageSize || align % kHugePageSize) FATAL("system", "%zu bytes aligned %zu requested from the system", bytes, align);
    if (fail_alloc && r.below(fail_alloc) == 0) return {nullptr, 0}; size_t n = bytes / kHugePageSize; n += r.chance(1, 2) ? r.below(20) : 0; if (r.chance(1, 3)) bump += r.below(3); size_t ah = align / kHugePageSize; bump = (bump + ah - 1) / ah * ah;
    if ((bump + n + 4) * kHugePageSize > kVA) { return {nullptr, 0}; } size_t h = bump; bump += n; n_sysalloc++;
    for (size_t i = 0; i < n * kP; i++) { if (known[h * kP + i].exchange(1)) FATAL("harness", "known"); backed[h * kP + i] = 0; } for (size_t i = 0; i < n; i++) hp_known[h + i] = 1; n_known += n * kP; n_unbacked += n * kP; n_expl += 0;
    return {(void*)((h * kHugePageSize) | ((uintptr_t)t << kTagShift)), n * kHugePageSize};
  }
  void Back(Range x) { if (!BackAllocations() || x.in_bytes() > (size_t)BackSizeThresholdBytes()) FATAL("back", "a %zu-byte range was prefaulted", x.in_bytes()); }
  MemoryModifyStatus ReleasePages(Range x) {
    size_t p = pg(x.p), n = x.n.raw_num(); n_rel++; evals++; if (!n || p + n > kPages) FATAL("release", "release of %zu pages at %zu", n, p);
    for (size_t i = 0; i < n; i++) { if (!known[p + i]) FATAL("release", "page %zu, not of this heap, is given back to the system", p + i); uint32_t z = 0; if (!owner[p + i].compare_exchange_strong(z, REL)) FATAL("live", "page %zu is given back to the system while %s", p + i, z == REL ? "already being given back" : "in use"); }
    bool ok = release_succeeds() && !(fail_rel && mix(now_ns()) % fail_rel == 0); in_release += n;
    if (f_thr) { if (mix(now_ns()) % 8 == 0) sched_yield(); } else if (cb) cb();
    for (size_t i = 0; i < n; i++) { if (ok) { if (backed[p + i].exchange(0)) n_unbacked++; if (!gone[p + i].exchange(1)) n_expl++; } else if (gone[p + i].exchange(0)) n_expl--; /* a hugepage only part of which could be released counts as backed */ if (owner[p + i].exchange(0) != REL) FATAL("live", "page %zu was handed out while being given back", p + i); } in_release -= n;
    if (ok) succ += n; else n_relfail++; return {.success = ok, .error_number = ok ? 0 : ENOMEM};
  }
  MemoryModifyStatus CollapsePages(Range x) {
    size_t p = pg(x.p), n = x.n.raw_num(); n_col++; if (n != kP || p % kP) FATAL("collapse", "collapse of %zu pages at %zu", n, p); auto s = FakeStaticForwarder::CollapsePages(x);
    for (size_t i = 0; i < n; i++) { if (!known[p + i]) FATAL("collapse", "collapse of page %zu, not of this heap", p + i); if (s.success) { if (!backed[p + i].exchange(1)) n_unbacked--; if (gone[p + i].exchange(0)) n_expl--; } } return s;
  }
  std::atomic<Span*> set_span; std::atomic<size_t> set_page; void SetSpan(PageId p, Span* s) { set_span = s; set_page = pg(p); }
};
using H = huge_page_allocator_internal::HugePageAwareAllocator<Fwd2>;
struct S { Span* s; size_t p, n; uint32_t id; SpanAllocInfo info; };
static std::atomic<uint32_t> g_id{1};
struct Sess {
  H* h; Rng r; std::vector<S> live; std::vector<std::pair<size_t, bool>> donated; PageReleaseStats exp; int depth = 0; long long ret = 0; std::atomic<long long> allocated{0}; bool releases_ok_since = true;
  explicit Sess(uint64_t s) : r(s) {}
  void occupy(size_t p, size_t n, uint32_t id) {
    size_t h0 = ~0ull; for (size_t i = p; i < p + n; i++) { if (!known[i]) FATAL("foreign", "page %zu handed out was never obtained", i); uint32_t z = 0; if (!owner[i].compare_exchange_strong(z, id)) FATAL("overlap", "page %zu handed out while %s", i, z == REL ? "being given back" : "owned by another run"); if (!backed[i].exchange(1)) n_unbacked--;
      if (i / kP != h0) { h0 = i / kP; for (size_t j = h0 * kP; j < (h0 + 1) * kP; j++) if (gone[j].load(std::memory_order_relaxed) && gone[j].exchange(0)) n_expl--; } }
  }
  bool alloc(Rng& r, std::vector<S>& to, bool thr) {
    size_t n, al = 1; SpanAllocInfo info{1, AccessDensityPrediction::kSparse};
    switch (r.below(12)) { case 0: case 1: case 2: case 3: n = 1 + r.below(4); break; case 4: case 5: case 6: n = 1 + r.below(std::max<size_t>(1, kP / 2)); break; case 7: n = 1 + r.below(kP); break; case 8: n = kP * (1 + r.below(3)); break; case 9: n = 1 + r.below(4 * kP); break; case 10: n = r.chance(1, 12) ? 1 + r.below(600 * kP) : kP + r.below(kP); break; default: n = 1; }
    if (n <= kP / 2 && r.chance(1, 2)) { size_t objs = 1 + r.below(r.chance(1, 2) ? 8 : 1000), osz = n * kPageSize / objs / 8 * 8; if (osz > 1024) osz = osz / 128 * 128; if (osz >= 8 && n <= 32 && osz <= kMaxSize && Span::IsValidSizeClass(osz, tcmalloc_internal::Length(n)) && SizeMap::IsValidSizeClass(osz, tcmalloc_internal::Length(n), kMinObjectsToMove)) { info.objects_per_span = objs; if (r.chance(1, 2)) { info.density = AccessDensityPrediction::kDense; n = 1; } } }
    if (info.objects_per_span == 1 && info.density == AccessDensityPrediction::kSparse && r.chance(1, 6)) { al = (size_t)1 << r.below(lg(kP) + 1); }
    Span* s = al > 1 || r.chance(1, 10) ? h->NewAligned(tcmalloc_internal::Length(n), tcmalloc_internal::Length(al), info) : h->New(tcmalloc_internal::Length(n), info);
    if (!s) { n_null++; return false; } n_new++; evals++; size_t p = pg(s->first_page()), m = s->num_pages().raw_num(); uint32_t id = g_id++; if (id == REL) _exit(3);
    if (m != n && !(al > 1 && m >= n)) FATAL("length", "%zu pages asked, a run of %zu returned", n, m); if (p % al) FATAL("align", "run of %zu pages aligned %zu starts at page %zu", n, al, p); if (GetMemoryTag(s->start_address()) != tag) FATAL("tag", "a run has tag %d, the heap has %d", (int)GetMemoryTag(s->start_address()), (int)tag);
    if (s->sampled()) FATAL("span", "a new run is marked sampled"); occupy(p, m, id); allocated += m; n_alloc += m; if (s->donated()) n_donated++;
    if (s->donated() && !thr) { if ((p + m) % kP == 0) FATAL("donated", "a run of %zu pages is marked as a donor", m); donated.push_back({(p + m) / kP, false}); }
    dist.add(n * 131 + al * 7919 + (p % kP)); to.push_back({s, p, m, id, info}); return true;
  }
  static int lg(size_t a) { int l = 0; while (a > 1) a >>= 1, l++; return l; }
  void free(Rng& r, std::vector<S>& from, bool thr) {
    if (from.empty()) return; size_t j = r.chance(1, 3) ? from.size() - 1 : r.below(from.size()); S x = from[j]; from[j] = from.back(); from.pop_back(); n_del++;
    if (pg(x.s->first_page()) != x.p || x.s->num_pages().raw_num() != x.n) FATAL("span", "the record of a live run changed");
    for (size_t i = x.p; i < x.p + x.n; i++) { uint32_t z = x.id; if (!owner[i].compare_exchange_strong(z, 0)) FATAL("overlap", "page %zu of a live run is owned by %u instead of %u", i, z, x.id); } allocated -= x.n; n_alloc -= x.n;
    SpanAllocInfo info = x.info; if (x.s->donated() && !thr) for (auto& d : donated) if (d.first == (x.p + x.n) / kP) d.second = true;
#ifdef TCMALLOC_INTERNAL_LEGACY_LOCKING
    PageHeapSpinLockHolder l; h->Delete(x.s, info);
#else
    PageAllocatorInterface::AllocationState a{Range(x.s->first_page(), x.s->num_pages()), x.s->donated()}; h->forwarder().DeleteSpan(x.s); PageHeapSpinLockHolder l; h->Delete(a, info);
#endif
  }
  void release(Rng& r, bool thr) {
    size_t want = r.below(4) ? r.below(2 * kP) : r.below(40 * kP); PageReleaseReason reasons[] = {PageReleaseReason::kReleaseMemoryToSystem, PageReleaseReason::kProcessBackgroundActions, PageReleaseReason::kSoftLimitExceeded, PageReleaseReason::kHardLimitExceeded}; int k = r.below(4); auto reason = reasons[k]; bool brk = k >= 2; tcmalloc_internal::Length got; PageReleaseStats st; size_t releasable; long long s0 = h->forwarder().succ, f0 = n_relfail, re0 = n_reent;
    { PageHeapSpinLockHolder l; releasable = h->FillerStats().free_bytes + h->RegionsFreeBacked().in_bytes() + h->CacheStats().free_bytes; got = brk ? h->ReleaseAtLeastNPagesBreakingHugepages(tcmalloc_internal::Length(want), reason) : h->ReleaseAtLeastNPages(tcmalloc_internal::Length(want), reason); st = h->GetReleaseStats(); }
    evals++; if (thr) return; ret += got.raw_num();
    if (ret > h->forwarder().succ) FATAL("overreport", "releases claim %lld pages in all, only %lld were given back", ret, h->forwarder().succ.load()); if ((long long)got.raw_num() < h->forwarder().succ - s0 && n_reent == re0 && false) {}
    exp.total += got; if (k == 0) exp.release_memory_to_system += got; if (k == 1) exp.process_background_actions += got; if (k == 2) exp.soft_limit_exceeded += got; if (k == 3) exp.hard_limit_exceeded += got;
    if (!depth && n_reent == re0 && !(st == exp)) FATAL("relstats", "release totals by reason do not add up (%zu against %zu)", st.total.raw_num(), exp.total.raw_num());
    if (brk && n_relfail == f0 && n_reent == re0 && got.in_bytes() < std::min(want * kPageSize, releasable)) FATAL("release", "%zu pages wanted, %zu bytes free and backed, %zu pages released", want, releasable, got.raw_num());
    // A request that returned less than asked must have been unable to give back more; what was given back must be counted.
    if (n_reent == re0 && (long long)got.raw_num() < h->forwarder().succ - s0) FATAL("underreport", "%lld pages given back, %zu reported", h->forwarder().succ - s0, got.raw_num());
  }
  void statuses(size_t hp0, size_t hp1, const char* w) {
    PageHeapSpinLockHolder l; for (size_t hp = hp0; hp < hp1; hp++) { if (!hp_known[hp]) continue; n_status++; PageBitmap b; HugePage x{((hp * kHugePageSize) | ((uintptr_t)tag << kTagShift)) >> kHugePageShift}; if (!h->GetPageAllocationStatus(x, b)) FATAL("status", "%s: no status for hugepage %zu", w, hp);
      for (size_t i = 0; i < kP; i++) { bool m = owner[hp * kP + i] != 0; if (b.GetBit(i) != m) FATAL("status", "%s: page %zu of hugepage %zu is reported %s", w, i, hp, m ? "free but is in use" : "in use but is free"); } }
  }
  void check(const char* w, bool full) {
    evals++; BackingStats t, f, g, c; SmallSpanStats ss; LargeSpanStats ls; size_t don, ab; { PageHeapSpinLockHolder l; t = h->stats(); f = h->FillerStats(); g = h->RegionsStats(); c = h->CacheStats(); don = h->DonatedHugePages().raw_num(); ab = h->AbandonedPages().raw_num(); if (full) { h->GetSmallSpanStats(&ss); h->GetLargeSpanStats(&ls); } }
    long long used = (long long)(t.system_bytes - t.free_bytes - t.unmapped_bytes) / (long long)kPageSize, pend = in_release; if (t.system_bytes != (size_t)n_known * kPageSize) FATAL("system", "%s: %zu system bytes reported, %lld pages obtained", w, t.system_bytes, n_known.load());
    if (used != allocated + pend) FATAL("used", "%s: %lld pages reported in use, %lld are (%lld being given back)", w, used, allocated.load(), pend);
    long long un = t.unmapped_bytes / kPageSize; if (un > n_unbacked) FATAL("unmapped", "%s: %lld pages reported unbacked, at most %lld are", w, un, n_unbacked.load()); if (!pend && un < n_expl) FATAL("unmapped", "%s: %lld pages reported unbacked, %lld have been given back and not touched since", w, un, n_expl.load());
    if (full && !pend) { long long fr = 0, re = 0; for (size_t i = 0; i < kMaxPages.raw_num(); i++) { if (ss.normal_length[i] < 0 || ss.returned_length[i] < 0) FATAL("spanstats", "%s: a negative count", w); fr += ss.normal_length[i] * i; re += ss.returned_length[i] * i; } fr += ls.normal_pages.raw_num(); re += ls.returned_pages.raw_num();
      if (fr + re != (long long)(t.free_bytes + t.unmapped_bytes) / (long long)kPageSize) FATAL("spanstats", "%s: the span tables hold %lld+%lld pages, %zu free and %zu unmapped bytes are reported", w, fr, re, t.free_bytes, t.unmapped_bytes); if (re != un) FATAL("spanstats", "%s: the span tables hold %lld released pages, %lld are reported unmapped", w, re, un); }
    if (!f_thr) { size_t nd = 0, na = 0; for (size_t i = 0; i < donated.size();) { auto [hp, freed] = donated[i]; HugePage x{((hp * kHugePageSize) | ((uintptr_t)tag << kTagShift)) >> kHugePageShift}; void* t = h->forwarder().GetHugepage(x); if (!t) { donated[i] = donated.back(); donated.pop_back(); continue; } auto* pt = (PageTracker*)t; if (!pt->was_donated()) { donated[i] = donated.back(); donated.pop_back(); continue; } nd++; if (freed) na += pt->abandoned_count().raw_num(); i++; }
      if (!pend && n_reent == 0 && (don != nd || ab != na)) FATAL("donated", "%s: %zu donated hugepages and %zu abandoned pages reported, %zu and %zu are", w, don, ab, nd, na); }
    if (full) statuses(0, h->forwarder().bump, w);
  }
  void params(Rng& r) {
    auto& f = h->forwarder(); switch (r.below(14)) {
      case 0: f.set_filler_skip_subrelease_short_interval(absl::Milliseconds(r.below(3) ? 0 : r.below(2000))); break; case 1: f.set_filler_skip_subrelease_long_interval(absl::Milliseconds(r.below(3) ? 0 : r.below(9000))); break;
      case 2: f.set_release_partial_alloc_pages(r.below(2)); break; case 3: f.set_hpaa_subrelease(r.below(4)); break; case 4: f.set_subrelease_unbacked_hugepages(r.below(2) ? SubreleaseUnbackedMode::kEnabled : SubreleaseUnbackedMode::kDisabled); break;
      case 5: f.set_release_succeeds(r.below(4)); break; case 6: f.set_collapse_succeeds(r.below(3)); break; case 7: f.set_huge_region_adaptive_release(r.below(2)); break; case 8: f.fail_alloc = r.below(4) ? 0 : 1 + r.below(3); break;
      case 9: f.SetBackAllocations(r.below(2)); break; case 10: f.SetBackSizeThresholdBytes(kPageSize << r.below(8)); break; case 11: f.set_enable_unfiltered_collapse(r.below(2)); break; case 12: f.set_release_max_cold_pages(r.below(2)); f.fail_rel = r.below(4) ? 0 : 2 + r.below(5); break; case 13: f.set_release_stale_pages(r.below(2) ? ReleaseStalePages::kEnabled : ReleaseStalePages::kDisabled); break; }
  }
  void finish() {
    auto& f = h->forwarder(); f.cb = nullptr; while (live.size()) free(r, live, f_thr); n_reent += f_thr; check("everything returned", true); f.set_release_succeeds(true); f.fail_rel = 0;
    tcmalloc_internal::Length g; { PageHeapSpinLockHolder l; g = h->ReleaseAtLeastNPagesBreakingHugepages(tcmalloc_internal::Length(1ull << 40), PageReleaseReason::kReleaseMemoryToSystem); } { PageHeapSpinLockHolder l; BackingStats s = h->stats(); evals++; if (s.free_bytes || s.unmapped_bytes != s.system_bytes) FATAL("release", "after everything was returned and released, %zu of %zu bytes are still held", s.free_bytes, s.system_bytes); }
  }
};
static char buf[sizeof(H) + 64] __attribute__((aligned(64)));
static H* fresh(bool reg) { memset((void*)buf, 0, sizeof buf); huge_page_allocator_internal::HugePageAwareAllocatorOptions o; o.tag = tag; o.use_huge_region_more_often = reg ? HugeRegionUsageOption::kUseForAllLargeAllocs : HugeRegionUsageOption::kDefault; return new (buf) H(o); }
static void wipe(H* h) { size_t n = (h->forwarder().bump + 1) * kP; h->~H(); madvise((void*)owner, n * 4, MADV_DONTNEED); for (auto* a : {backed, known, gone}) madvise((void*)a, (n + 4095) & ~4095ull, MADV_DONTNEED); madvise((void*)hp_known, 65536, MADV_DONTNEED); n_known = n_unbacked = n_expl = n_alloc = 0; n_reent = 0; }
int main(int argc, char** argv) {
  const char* m = argv[1]; f_thr = strchr(m, 'T'); bool reg = strchr(m, 'r'); Rng r(seed() * 6007 + f_thr * 2 + reg); owner = Arr<std::atomic<uint32_t>>(kPages + 4096).p; backed = Arr<std::atomic<uint8_t>>(kPages + 4096).p; known = Arr<std::atomic<uint8_t>>(kPages + 4096).p; gone = Arr<std::atomic<uint8_t>>(kPages + 4096).p; hp_known = Arr<std::atomic<uint8_t>>(65536).p; long long reent = 0;
  MemoryTag tags[] = {MemoryTag::kNormalP0, MemoryTag::kSampled, MemoryTag::kCold}; int sessions = thorough() ? (f_thr ? 40 : 120) : f_thr ? 4 : 8; long long steps = thorough() ? 20000 : 7000;
  for (int ses = 0; ses < sessions; ses++) {
    tag = tags[r.below(3)]; H* h = fresh(reg); Sess s(r.next()); s.h = h; auto& f = h->forwarder(); f.r = Rng(r.next()); if (r.chance(1, 2)) { f.set_filler_skip_subrelease_short_interval(absl::ZeroDuration()); f.set_filler_skip_subrelease_long_interval(absl::ZeroDuration()); } f.set_release_partial_alloc_pages(r.below(2)); size_t cap = (1 + r.below(6)) << 30;
    if (!f_thr) {
      bool re = ses % 2; n_reent = re; if (re) f.cb = [&] { if (pageheap_lock.IsHeld() || s.depth >= 3 || s.r.below(2)) return; s.depth++; n_reent++; reent++; for (int i = s.r.below(6); i >= 0; i--) { if (s.r.below(2)) s.alloc(s.r, s.live, true); else s.free(s.r, s.live, true); } s.depth--; };
      int bias = 60; for (long long i = 0; i < steps; i++) { if (r.chance(1, 150)) bias = 25 + r.below(56); if (r.chance(1, 40)) s.params(r);
        if (r.chance(1, 30)) s.release(r, false); else if (r.chance(1, 200)) { h->TreatHugepageTrackers(EnableCollapse(r.below(2))); } else if ((int)r.below(100) < bias && s.allocated * kPageSize < (long long)cap) s.alloc(r, s.live, re); else s.free(r, s.live, re);
         s.check("after a step", i % 250 == 0); }
    } else {
      if (kTsan) for (int i = 0; i < 12; i++) s.params(r);  // the doubles keep their settings in plain fields
      int W = 3 + r.below(5); std::atomic<bool> stop{false}; std::vector<std::thread> t; std::vector<std::vector<S>> mine(W); double secs = thorough() ? 3 : 1.2;
      for (int w = 0; w < W; w++) t.emplace_back([&, w] { Rng q(seed() * 131 + ses * 64 + w); int bias = 55; while (!stop) { if (q.chance(1, 100)) bias = 30 + q.below(41); if ((int)q.below(100) < bias && s.allocated * kPageSize < (long long)cap) s.alloc(q, mine[w], true); else s.free(q, mine[w], true); } });
      std::thread mt([&] { Rng q(seed() * 7 + ses); while (!stop) { if (!kTsan && q.chance(1, 6)) { PageHeapSpinLockHolder l; s.params(q); } if (q.chance(1, 8)) h->TreatHugepageTrackers(EnableCollapse(q.below(2))); s.release(q, true); { PageHeapSpinLockHolder l; BackingStats b = h->stats(); if (b.free_bytes + b.unmapped_bytes > b.system_bytes) FATAL("used", "more free and unmapped bytes than system bytes"); } usleep(q.below(200)); } });
      usleep((useconds_t)(secs * 1e6)); stop = true; for (auto& x : t) x.join(); mt.join(); for (auto& v : mine) s.live.insert(s.live.end(), v.begin(), v.end()); s.check("threads at rest", true);
    }
    s.finish(); wipe(h);
  }
  metric("runs_handed_out", n_new); metric("runs_returned", n_del); metric("system_ranges", n_sysalloc); metric("releases", n_rel); metric("releases_refused", n_relfail); metric("collapses", n_col); metric("requests_refused", n_null); metric("donations", n_donated); metric("reentered", reent); metric("hugepage_maps_compared", n_status);
  metric("evals", evals + n_status); metric("distinct", dist.n); say("SAMPLE %s: %lld runs over %d heaps, %lld releases (%lld refused), %lld collapses, %lld hugepage maps compared", m, n_new.load(), sessions, n_rel.load(), n_relfail.load(), n_col.load(), n_status.load()); return done();
}
