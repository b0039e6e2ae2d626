// P34: demand history and time. Modes: T time series, S subrelease statistics, C clocks and arithmetic, I page statistics.
#include <algorithm>
#include <cmath>
#include <map>
#include <string>
#include <vector>
#include "vt.h"
#include "absl/time/time.h"
#include "tcmalloc/huge_page_subrelease.h"
#include "tcmalloc/huge_pages.h"
#include "tcmalloc/internal/bytes.h"
#include "tcmalloc/internal/clock.h"
#include "tcmalloc/internal/logging.h"
#include "tcmalloc/internal/overflow.h"
#include "tcmalloc/internal/timeseries_tracker.h"
#include "tcmalloc/pages.h"
#include "tcmalloc/stats.h"
using namespace vt;
using namespace tcmalloc;
using namespace tcmalloc::tcmalloc_internal;
using L = tcmalloc_internal::Length;
typedef __int128 I;
static Distinct dist; static long long evals = 0, n_rep = 0, n_jump = 0, n_back = 0, n_query = 0, n_conf = 0, n_hist = 0;
static int64_t t_now; static double t_freq; static int64_t rd() { return t_now; } static double fq() { return t_freq; } static const Clock kClk{rd, fq};
struct Pay { long n = 0; uint64_t sum = 0, mn = ~0ull, mx = 0; static Pay Nil() { return Pay(); } void Report(uint64_t v) { n++; sum += v; mn = std::min(mn, v); mx = std::max(mx, v); } bool empty() const { return !n; } bool operator==(const Pay& o) const { return n == o.n && sum == o.sum && mn == o.mn && mx == o.mx; } };
struct When { uint64_t d; int64_t ms; // ticks per epoch, length of the epoch
  int64_t epoch() const { return t_now / (int64_t)d; } };
static When pick(Rng& r) { for (;;) { static const double fs[] = {1e9, 2.1e9, 1073741824., 4294967296., 65536., 1e3, 1., 2.999999e9, 1e6, 268435456., 3.3333e9}; t_freq = r.chance(2, 3) ? fs[r.below(11)] : 1 + (double)r.below(5000000000ull) + r.below(1000) / 1000.; int64_t ms = r.chance(1, 3) ? 1000 << r.below(8) : r.chance(1, 2) ? 1 + r.below(100000) : 37500; uint64_t d = (uint64_t)(absl::ToDoubleSeconds(absl::Milliseconds(ms)) * t_freq); if (kSan && t_freq < 1e7) continue; if (d >= 1) return {d, ms}; } }
static void start_clock(Rng& r, const When& w) { t_now = r.chance(1, 3) ? 0 : r.chance(1, 2) ? (int64_t)(r.next() >> (2 + r.below(50))) : (int64_t)std::min<I>((I)w.d * (1 + r.below(1000)) - r.below(2), (I)1 << 61); }
static bool advance(Rng& r, const When& w, bool may_regress) { I a = 0; int64_t was = t_now; I d = w.d;
  switch (r.below(11)) { case 0: case 1: a = 0; break; case 2: a = 1; break; case 3: a = d; break; case 4: a = d - t_now % d; break; case 5: a = d - t_now % d - 1; break; case 6: a = d * (1 + (I)r.below(20)); break; case 7: a = (I)r.below(w.d + 1); break; case 8: a = d * (I)r.below(4) + (I)r.below(w.d + 1); break; case 9: if (r.chance(1, 12)) { a = (I)(r.next() >> (2 + r.below(30))); n_jump++; } break; case 10: if (may_regress && r.chance(1, 8)) { t_now -= (int64_t)std::min<I>(t_now, r.chance(1, 2) ? (I)r.below(3) : d * (I)r.below(40)); n_back++; return t_now < was; } break; }
  if ((I)t_now + a < ((I)1 << 62)) t_now += (int64_t)a; return false; }
// ---- time series
template <size_t K> static void series(Rng& r) {
  When w = pick(r); start_clock(r, w); absl::Duration ep = absl::Milliseconds(w.ms); TimeSeriesTracker<Pay, uint64_t, K> t(kClk, ep); struct E { int64_t at; size_t delta; Pay p; }; std::vector<E> m; auto reset = [&] { m.clear(); m.push_back({w.epoch(), 1, Pay()}); }; reset(); int ops = 20 + r.below(400);
  char d[160]; snprintf(d, 160, "epoch %ld ms at %.17g Hz (%lu ticks), %zu slots", (long)w.ms, t_freq, w.d, K);
  auto touch = [&] { int64_t e = w.epoch(); if (e < m.back().at) { reset(); return false; } if (e == m.back().at) return false; m.push_back({e, (size_t)(e - m.back().at), Pay()}); if (m.size() > K) m.erase(m.begin()); return true; };
  for (int i = 0; i < ops; i++) { advance(r, w, true); bool moved; if (r.chance(4, 5)) { uint64_t v = r.below(1 + r.below(100000)); bool got = t.Report(v); moved = touch(); m.back().p.Report(v); n_rep++; if (got != moved) FATAL("epoch", "%s: Report at tick %ld says the epoch %s, it %s", d, (long)t_now, got ? "moved" : "stayed", moved ? "moved" : "stayed"); } else { t.UpdateTimeBase(); touch(); } evals++;
    if (r.chance(1, 3)) { n_query++; std::vector<std::tuple<size_t, size_t, Pay>> got; t.Iter([&](size_t s, size_t dl, const Pay& p) { got.push_back({s, dl, p}); }); size_t k = 0; for (size_t j = 0; j < m.size(); j++) if (m[j].p.n) { size_t seq = K - m.size() + j; if (k >= got.size() || std::get<0>(got[k]) != seq || std::get<1>(got[k]) != m[j].delta || !(std::get<2>(got[k]) == m[j].p)) FATAL("iter", "%s: record %zu differs from the one reported for epoch %ld", d, k, (long)m[j].at); k++; } if (k != got.size()) FATAL("iter", "%s: %zu records, %zu are", d, got.size(), k); evals++; }
    if (r.chance(1, 2)) { n_query++; int64_t ms = r.chance(1, 6) ? 0 : r.chance(1, 2) ? w.ms * (int64_t)r.below(2 * K + 1) : 1 + r.below(3 * K * w.ms); bool inf = r.chance(1, 8); int64_t n = inf ? INT64_MAX : (ms + w.ms - 1) / w.ms; std::vector<std::tuple<size_t, size_t, Pay>> got; t.IterBackwards([&](size_t s, size_t dl, const Pay& p) { got.push_back({s, dl, p}); }, inf ? absl::InfiniteDuration() : absl::Milliseconds(ms)); size_t k = 0; for (size_t j = m.size(); j-- > 0;) { if ((I)m.back().at - m[j].at >= n) break; if (k >= got.size() || std::get<0>(got[k]) != k || std::get<1>(got[k]) != m[j].delta || !(std::get<2>(got[k]) == m[j].p)) FATAL("backwards", "%s: over %ld ms, record %zu of %zu differs from the one reported for epoch %ld (now %ld)", d, (long)ms, k, got.size(), (long)m[j].at, (long)m.back().at); k++; } if (k != got.size()) FATAL("backwards", "%s: over %ld ms %zu records, %zu lie in the window", d, (long)ms, got.size(), k); evals++; dist.add(ms * 1000003 + k * 131 + K); }
    if (r.chance(1, 4)) { auto v = t.GetMostRecentRecord(); evals++; size_t want = m.back().delta; Pay p = m.size() > 1 ? m[m.size() - 2].p : Pay(); if (v.epoch_taken != want || !(v.data == p)) FATAL("recent", "%s: the most recent record is %zu epochs old, it is %zu", d, v.epoch_taken, want); } }
  n_hist++; dist.add(w.d * 31 + ops); }
// ---- subrelease statistics
struct Rep { int64_t e; uint64_t pages, free, unmapped, sub; };
static std::string field(const std::string& s, const char* key) { size_t p = s.find(key); return p == std::string::npos ? "" : s.substr(p + strlen(key), 60); }
template <size_t K> static void subrelease(Rng& r) {
  When w = pick(r); start_clock(r, w); int64_t win = w.ms * (int64_t)K, sum = r.chance(1, 2) ? w.ms * (int64_t)r.range(1, K - 1) : 1 + r.below(win - w.ms), cap = r.chance(1, 2) ? win : w.ms * (int64_t)r.below(K + 1); auto ms = [](int64_t x) { return absl::Milliseconds(x); };
  SubreleaseStatsTracker<K> t(kClk, ms(win), ms(sum), ms(cap)); std::vector<Rep> reps; int64_t last = w.epoch(), skl = last; // epochs the two series stand at
  struct Dec { int64_t e; uint64_t pages, cnt, need; bool ok; }; std::vector<Dec> decs; std::vector<std::pair<int64_t, uint64_t>> peaks; uint64_t tp = 0, tc = 0, cp = 0, cc = 0, pp = 0, pc = 0; int64_t sumep = sum / w.ms; int64_t lpi = 0, lsi = 0, lli = 0;
  char d[200]; snprintf(d, 200, "window %ld ms of %zu, summary %ld ms, cap %ld ms, %lu ticks per epoch", (long)win, K, (long)sum, (long)cap, w.d); auto N = [&](int64_t x) { return (x + w.ms - 1) / w.ms; };
  auto in = [&](int64_t x, auto f) { int64_t n = N(x); for (auto& q : reps) if (last - q.e < n) f(q); };
  auto per = [&](int64_t x) { std::map<int64_t, std::pair<uint64_t, uint64_t>> mm; in(x, [&](Rep& q) { auto it = mm.find(q.e); if (it == mm.end()) mm[q.e] = {q.pages, q.pages}; else { it->second.first = std::min(it->second.first, q.pages); it->second.second = std::max(it->second.second, q.pages); } }); return mm; };
  // the correctness series: decisions of one epoch stand together
  auto sk_touch = [&] { int64_t e = w.epoch(); if (e < skl) { decs.clear(); peaks.clear(); skl = e; } skl = e; };
  auto confirm = [&](uint64_t peak) { sk_touch(); n_conf++; int64_t n = N(sum + w.ms); pp = pc = 0; for (auto& q : decs) { if (q.e == skl) { pp += q.pages; pc += q.cnt; continue; } if (q.ok || skl - q.e >= n) continue; if (q.need <= peak) { q.ok = true; cp += q.pages; cc += q.cnt; } else { pp += q.pages; pc += q.cnt; } } };
  uint64_t level = r.below(5000); int ops = 20 + r.below(500); bool reg = r.chance(1, 4);
  for (int i = 0; i < ops; i++) { advance(r, w, reg); int64_t e = w.epoch();
    if (r.chance(3, 4)) { typename SubreleaseStatsTracker<K>::SubreleaseStats s; level = r.chance(1, 3) ? r.below(6000) : level + r.below(100) - std::min<uint64_t>(level, r.below(100)); uint64_t f = r.below(3000), u = r.below(3000), sb = r.chance(1, 3) ? r.below(100) : 0; s.num_pages = L(level); s.free_pages = L(f); s.unmapped_pages = L(u); s.num_pages_subreleased = L(sb); t.Report(s); n_rep++; bool moved = false; 
      if (e < last) { reps.clear(); last = e; } else if (e > last) { moved = true; } 
      if (moved) { int64_t prev = last; last = e; if (pc > 0) { uint64_t peak = level; if (e - prev <= sumep) for (auto& q : reps) if (q.e == prev) peak = std::max(peak, q.pages); confirm(peak); } } reps.push_back({e, level, f, u, sb}); if (reps.size() > 5000) reps.erase(reps.begin(), reps.begin() + 2500); }
    else { uint64_t p = r.chance(1, 10) ? 0 : r.below(500), need = r.chance(1, 2) ? 1 + level + r.below(300) : 1 + r.below(6000); t.ReportSkippedSubreleasePages(L(p), L(need)); if (p) { sk_touch(); tp += p; tc++; pp += p; pc++; if (!decs.empty() && decs.back().e == skl) { decs.back().pages += p; decs.back().cnt++; decs.back().need = std::max(decs.back().need, need); } else decs.push_back({skl, p, 1, need, false}); } }
    evals++; auto a = t.total_skipped(), b = t.correctly_skipped(), c = t.pending_skipped(); if (a.pages.raw_num() != tp || a.count != tc) FATAL("skipped", "%s: %zu pages in %zu decisions skipped, %lu in %lu were", d, a.pages.raw_num(), a.count, tp, tc); if (b.pages.raw_num() != cp || b.count != cc) FATAL("correct", "%s: %zu pages in %zu decisions confirmed, a recount gives %lu in %lu", d, b.pages.raw_num(), b.count, cp, cc); if (c.pages.raw_num() != pp || c.count != pc) FATAL("pending", "%s: %zu pages in %zu decisions pending, a recount gives %lu in %lu", d, c.pages.raw_num(), c.count, pp, pc);
    auto some = [&]() -> int64_t { return r.chance(1, 8) ? 0 : r.chance(1, 2) ? w.ms * (int64_t)r.below(K + 1) : r.below(win + 1); };
    if (r.chance(1, 3)) { n_query++; int64_t x = r.chance(1, 10) ? win * 5 : some(); uint64_t g = t.GetRecentPeak(ms(x)).raw_num(), want = 0; in(std::min(x, win), [&](Rep& q) { want = std::max(want, q.pages); }); lpi = std::min(x, win); if (g != want) FATAL("peak", "%s: peak over %ld ms is %lu, reported %lu", d, (long)x, want, g); dist.add(g * 1000003 + x); }
    if (r.chance(1, 3)) { n_query++; int64_t s = some(), l = some(), p = r.chance(1, 2) ? cap : some(); if (r.chance(1, 10)) l = win * 3; uint64_t g = (p == cap ? t.GetRecentDemand(ms(s), ms(l)) : t.GetRecentDemand(ms(s), ms(l), ms(p))).raw_num(); int64_t se = s && l ? std::min(s, l) : s; lsi = std::min(se, win); lli = std::min(l, win); uint64_t fl = 0, tr = 0, pk = 0; for (auto& q : per(lsi)) fl = std::max(fl, q.second.second - q.second.first); for (auto& q : per(lli)) tr = std::max(tr, q.second.first); in(p, [&](Rep& q) { pk = std::max(pk, q.pages); }); if (g != std::min(pk, fl + tr)) FATAL("demand", "%s: demand over %ld/%ld ms capped over %ld ms is min(%lu, %lu + %lu), reported %lu", d, (long)s, (long)l, (long)p, pk, fl, tr, g); dist.add(g * 31 + fl); }
    if (r.chance(1, 4)) { n_query++; int64_t x = some(); auto g = t.min_free_pages(ms(x)); uint64_t f = ~0ull, b2 = ~0ull; in(x, [&](Rep& q) { f = std::min(f, q.free + q.unmapped); b2 = std::min(b2, q.free); }); if (f == ~0ull) f = b2 = 0; if (g.free.raw_num() != f || g.free_backed.raw_num() != b2) FATAL("minfree", "%s: over %ld ms at least %lu pages were free (%lu backed), reported %zu (%zu)", d, (long)x, f, b2, g.free.raw_num(), g.free_backed.raw_num()); uint64_t rf = ~0ull; in(sum, [&](Rep& q) { rf = std::min(rf, q.free); }); if (rf == ~0ull) rf = 0; if (t.RealizedFragmentation().raw_num() != rf) FATAL("realized", "%s: realised fragmentation %zu, %lu", d, t.RealizedFragmentation().raw_num(), rf); }
    if (r.chance(1, 30)) { static char buf[20000]; Printer pr(buf, sizeof buf); t.Print(pr, "F"); std::string s = buf; evals++; size_t f, b2; uint64_t mf = ~0ull, mb = ~0ull, pk = 0, pkf = 0, pku = 0, sub = 0; bool any = false; in(sum, [&](Rep& q) { mf = std::min(mf, q.free + q.unmapped); mb = std::min(mb, q.free); }); if (mf == ~0ull) mf = mb = 0; for (auto& q : reps) if (last - q.e < N(sum)) { if (!any || q.pages > pk) pk = q.pages; any = true; } in(win, [&](Rep& q) { sub += q.sub; }); (void)pkf; (void)pku;
      if (sscanf(field(s, "minimum free pages: ").c_str(), "%zu (%zu", &f, &b2) != 2 || f != mf || b2 != mb) FATAL("print", "%s: prints %s", d, field(s, "minimum free pages: ").c_str()); size_t x, y, z, q1, q2; if (sscanf(field(s, "at peak demand: ").c_str(), "%zu pages (and %zu free, %zu", &x, &y, &z) != 3 || x != pk) FATAL("print", "%s: prints %s, the peak is %lu", d, field(s, "at peak demand: ").c_str(), pk); if (any) { bool found = false; for (auto& q : reps) if (last - q.e < N(sum) && q.pages == x && q.free == y && q.unmapped == z) found = true; if (!found) FATAL("print", "%s: at the peak %zu free %zu unmapped were never reported", d, y, z); }
      if (sscanf(field(s, "Since the start of the execution, ").c_str(), "%zu subreleases (%zu", &x, &y) != 2 || x != tc || y != tp) FATAL("print", "%s: %s", d, field(s, "Since the start of the execution, ").c_str()); if (sscanf(field(s, "min: total ").c_str(), "%zu", &x) != 1 || x != sub) FATAL("print", "%s: %s subreleased in the window, %lu were", d, field(s, "min: total ").c_str(), sub); double pc1; size_t n1; if (sscanf(field(s, "% of decisions confirmed correct, ").c_str(), "%zu", &n1) != 1 || n1 != pc) FATAL("print", "%s: pending %s", d, field(s, "confirmed correct, ").c_str()); size_t at = s.find("% of decisions"); size_t b0 = s.rfind(' ', at); pc1 = atof(s.c_str() + b0); double want = tc - pc ? 100.0 * cc / (tc - pc) : 0; if (std::fabs(pc1 - want) > 1e-3) FATAL("print", "%s: %.4f%% confirmed, %.4f%% are", d, pc1, want); (void)q1; (void)q2;
      static char pb[200000]; Printer pp2(pb, sizeof pb); { PbtxtRegion reg2(pp2, kTop); t.PrintSubreleaseStatsInPbtxt(reg2, "a"); t.PrintTimeseriesStatsInPbtxt(reg2, "b"); } std::string q(pb, pp2.SpaceRequired()); auto num = [&](const char* k) { std::string v = field(q, k); return v.empty() ? -1ll : atoll(v.c_str()); };
      if (num(" skipped_subrelease_pages: ") != (long long)tp || num(" correctly_skipped_subrelease_pages: ") != (long long)cp || num(" pending_skipped_subrelease_count: ") != (long long)pc || num(" pending_skipped_subrelease_pages: ") != (long long)pp || num(" correctly_skipped_subrelease_count: ") != (long long)cc || num(" skipped_subrelease_count: ") != (long long)tc) FATAL("pbtxt", "%s: %s", d, q.substr(0, 500).c_str()); if (num(" skipped_subrelease_interval_ms: ") != lpi || num(" skipped_subrelease_short_interval_ms: ") != lsi || num(" skipped_subrelease_long_interval_ms: ") != lli) FATAL("pbtxt", "%s: intervals %lld %lld %lld, used %ld %ld %ld", d, num(" skipped_subrelease_interval_ms: "), num(" skipped_subrelease_short_interval_ms: "), num(" skipped_subrelease_long_interval_ms: "), (long)lpi, (long)lsi, (long)lli); if (num(" window_ms: ") != w.ms || num(" epochs: ") != (long long)K || num(" min_free_pages: ") != (long long)mf || num(" next_peak_interval_ms: ") != sum) FATAL("pbtxt", "%s: %s", d, q.substr(0, 700).c_str());
      size_t meas = 0; for (size_t p = 0; (p = q.find("measurements {", p)) != std::string::npos; p++) meas++; std::map<int64_t, int> eps; for (auto& z2 : reps) eps[z2.e]; size_t want2 = std::min<size_t>(eps.size(), K); if (meas != want2 && !(eps.size() >= K && meas + 1 == want2)) { // the first slot may be empty
        if (meas > want2 || meas + 1 < want2) FATAL("pbtxt", "%s: %zu measurements for %zu epochs", d, meas, eps.size()); } } }
  n_hist++; dist.add(w.d + ops); }
// ---- clocks and arithmetic
static void clocks(Rng& r) {
  for (int i = 0; i < 2000; i++) { evals++; t_freq = r.chance(1, 2) ? 1e9 : 1 + (double)r.below(6000000000ull); uint64_t a = r.next() >> (1 + r.below(40)), gap = r.chance(1, 3) ? r.below(1u << 21) : r.next() >> (2 + r.below(30)); if (r.chance(1, 4)) a = (r.below(8) << 52) - (r.below(4) << 20) + r.below(2); a &= ~0ull >> 1; if (a + gap >= (1ull << 63)) gap = 0; t_now = a; Cycles32 c; if (c || c.raw() || c.AsDuration(kClk) != absl::InfiniteDuration()) FATAL("cycles", "a fresh timestamp is set"); c.Update(kClk); if (!c) FATAL("cycles", "a timestamp taken at %lu counts as unset", a); Cycles32 c2(c.raw()); if (!c2.TimeAfterOrEqual(c) || !c.TimeAfterOrEqual(c2)) FATAL("cycles", "not equal to itself"); t_now = a + gap; auto el = c.AsDuration(kClk); uint64_t t32 = ((uint64_t)t_now >> 20) - (a >> 20); uint64_t lim = 1ull << 32; bool zero = (uint32_t)(a >> 20) == 0; if (t32 < lim - 1) { double want = (double)(zero && t32 ? t32 - 1 : zero ? 0 : t32) * 1048576.0 / t_freq, got = absl::ToDoubleSeconds(el); if (zero && t32 == 0) { } else if (std::fabs(got - want) > 1e-9 + want * 1e-9) FATAL("cycles", "%.9g s after a stamp at %lu, %.9g s passed", got, a, want); if (el < absl::ZeroDuration()) FATAL("cycles", "time goes backwards");
        Cycles32 e; e.Update(kClk); if (t32 < lim / 2 && !(zero && !t32) && !e.TimeAfterOrEqual(c)) FATAL("cycles", "a stamp %lu units later counts as earlier", t32); if (t32 > 1 && t32 < lim / 2 - 2 && c.TimeAfterOrEqual(e)) FATAL("cycles", "a stamp %lu units earlier counts as later", t32); } c.Reset(); if (c) FATAL("cycles", "reset"); dist.add(t32 * 31 + (a >> 40)); }
  for (int i = 0; i < 2000; i++) { evals++; size_t a = r.next() >> r.below(64), b = r.next() >> r.below(64), o = 0; unsigned __int128 p = (unsigned __int128)a * b; bool ov = MultiplyOverflow(a, b, &o); if (ov != (p >> 64 != 0) || o != (size_t)p) FATAL("overflow", "MultiplyOverflow(%zu, %zu) = %d, %zu", a, b, ov, o);
    size_t x = r.next() >> (1 + r.below(60)), y = r.next() >> (1 + r.below(60)); Bytes bx(x), by(y); if ((bx + by).raw_num() != x + y || (x >= y && (bx - by).raw_num() != x - y) || (bx < by) != (x < y) || (bx == by) != (x == y) || (y && (bx / y).raw_num() != x / y) || (y && (bx % by).raw_num() != x % y)) FATAL("bytes", "%zu and %zu", x, y);
    size_t n = x >> (kPageShift + 1); L l(n); if (l.in_bytes() != n * kPageSize || BytesToLengthCeil(x).raw_num() != (x + kPageSize - 1) / kPageSize || BytesToLengthFloor(x).raw_num() != x / kPageSize || std::fabs(l.in_mib() - (double)n * kPageSize / 1048576) > 1e-6 * (1 + l.in_mib())) FATAL("length", "%zu", x); if (HLFromPages(l).raw_num() != (n + kPagesPerHugePage.raw_num() - 1) / kPagesPerHugePage.raw_num() || HLFromBytes(x).raw_num() != x / kHugePageSize) FATAL("hugelength", "%zu", x); dist.add(a * 31 + b); }
  n_hist++; }
// ---- page statistics
static void infos(Rng& r) {
  auto* pi = new PageAllocInfo("lab"); auto& info = *pi; struct C { uint64_t na = 0, nf = 0, as = 0, fs = 0; }; std::map<uint64_t, C> m; std::vector<uint64_t> live; uint64_t largest = 0, small = 0, slack = 0, rel[5] = {0}; size_t hp = kPagesPerHugePage.raw_num(), mp = kMaxPages.raw_num(); auto bucket = [&](uint64_t n) -> uint64_t { if (n <= mp) return n; uint64_t b = 1; while (b < n) b *= 2; return b + (1ull << 60); }; int ops = 10 + r.below(400); int64_t ticks = info.TimeTicks(); if (ticks < 0) FATAL("ticks", "%ld", (long)ticks);
  for (int i = 0; i < ops; i++) { evals++; n_rep++; if (r.chance(1, 6)) { uint64_t g = r.below(5000); int k = r.below(4); static const PageReleaseReason rs[] = {PageReleaseReason::kReleaseMemoryToSystem, PageReleaseReason::kProcessBackgroundActions, PageReleaseReason::kSoftLimitExceeded, PageReleaseReason::kHardLimitExceeded}; info.RecordRelease(L(g + r.below(10)), L(g), rs[k]); rel[k] += g; rel[4] += g; }
    else if (live.empty() || r.chance(3, 5)) { uint64_t n = r.chance(1, 2) ? 1 + r.below(mp + 2) : r.chance(1, 3) ? (1ull << r.below(kAddressBits - kPageShift - 1)) + r.below(3) : r.chance(1, 2) ? hp * (1 + r.below(9)) - r.below(2) : 1 + (r.next() >> r.range(kPageShift + 18, 63)); if (!n) n = 1; info.RecordAlloc(Range(PageId{1000}, L(n))); live.push_back(n); auto& c = m[bucket(n)]; c.na++; c.as += n; largest = std::max(largest, n); if (n <= mp) small += n; else slack += (n + hp - 1) / hp * hp - n; dist.add(n); }
    else { size_t k = r.below(live.size()); uint64_t n = live[k]; live[k] = live.back(); live.pop_back(); info.RecordFree(Range(PageId{1000}, L(n))); auto& c = m[bucket(n)]; c.nf++; c.fs += n; if (n <= mp) small -= n; else slack -= (n + hp - 1) / hp * hp - n; }
    if (info.small().raw_num() != small || info.slack().raw_num() != slack) FATAL("totals", "%zu small pages and %zu of slack, %lu and %lu are", info.small().raw_num(), info.slack().raw_num(), small, slack); auto g = info.GetRecordedReleases(); if (g.total.raw_num() != rel[4] || g.release_memory_to_system.raw_num() != rel[0] || g.process_background_actions.raw_num() != rel[1] || g.soft_limit_exceeded.raw_num() != rel[2] || g.hard_limit_exceeded.raw_num() != rel[3]) FATAL("released", "release counts differ");
    if (!m.empty() && r.chance(1, 4)) { auto it = m.begin(); std::advance(it, r.below(m.size())); uint64_t n = it->first & ((1ull << 60) - 1); auto& c = info.counts_for(L(n)); evals++; if (c.nalloc != it->second.na || c.nfree != it->second.nf || c.alloc_size.raw_num() != it->second.as || c.free_size.raw_num() != it->second.fs) FATAL("counts", "%lu pages: %zu allocated %zu freed, %lu and %lu were", n, c.nalloc, c.nfree, it->second.na, it->second.nf); } }
  static char buf[100000]; Printer pr(buf, sizeof buf); info.Print(pr); std::string s = buf; std::map<uint64_t, int> seen; size_t p = 0; while (p < s.size()) { size_t e = s.find('\n', p); std::string l = s.substr(p, e - p); p = e + 1; unsigned long a, b, x, y, z, v; char rest[60]; double mib; if (sscanf(l.c_str(), "lab: [ %lu , %lu ] page info: %lu / %lu a/f, %lu (%lf", &a, &b, &x, &y, &z, &mib) == 6) { auto& c = m[b + (1ull << 60)]; seen[b + (1ull << 60)]++; if (a != b / 2 + 1 || x != c.na || y != c.nf || z != c.na - c.nf || std::fabs(mib - (double)(c.as - c.fs) * kPageSize / 1048576) > 0.06 + mib * 1e-6) FATAL("print", "%s", l.c_str()); } else if (sscanf(l.c_str(), "lab: %lu page info: %lu / %lu a/f, %lu (%lf", &a, &x, &y, &z, &mib) == 5) { auto& c = m[a]; seen[a]++; if (x != c.na || y != c.nf || z != c.na - c.nf || std::fabs(mib - (double)(c.as - c.fs) * kPageSize / 1048576) > 0.06) FATAL("print", "%s", l.c_str()); } else if (sscanf(l.c_str(), "lab: %lu pages live small", &v) == 1 && l.find("live small") != std::string::npos) { if (v != small) FATAL("print", "%s", l.c_str()); } else if (l.find("of slack") != std::string::npos) { if (sscanf(l.c_str(), "lab: %lu", &v) != 1 || v != slack) FATAL("print", "%s", l.c_str()); } else if (sscanf(l.c_str(), "lab: largest seen allocation %lu", &v) == 1) { if (v != largest) FATAL("print", "%s", l.c_str()); } else if (l.find("released") != std::string::npos && sscanf(l.c_str(), "lab: %lu", &v) == 1) { int k = l.find("in total") != std::string::npos ? 4 : l.find("ReleaseMemory") != std::string::npos ? 0 : l.find("ProcessBack") != std::string::npos ? 1 : l.find("soft") != std::string::npos ? 2 : 3; if (v != rel[k]) FATAL("print", "%s", l.c_str()); } (void)rest; }
  for (auto& c : m) if (c.second.na && seen[c.first] != 1) FATAL("print", "bucket %lu is printed %d times", c.first & ~(1ull << 60), seen[c.first]);
  static char pb[300000]; Printer pp(pb, sizeof pb); { PbtxtRegion reg(pp, kTop); info.PrintInPbtxt(reg, "st"); } std::string q(pb, pp.SpaceRequired()); auto num = [&](const char* k) { std::string v = field(q, k); return v.empty() ? -1ll : atoll(v.c_str()); }; if (num(" num_small_allocation_pages: ") != (long long)small || num(" num_slack_pages: ") != (long long)slack || num(" largest_allocation_pages: ") != (long long)largest || num(" num_released_total_pages: ") != (long long)rel[4] || num(" num_released_release_memory_to_system_pages: ") != (long long)rel[0] || num(" num_released_hard_limit_exceeded_pages: ") != (long long)rel[3] || num(" num_released_soft_limit_exceeded_pages: ") != (long long)rel[2] || num(" num_released_process_background_actions_pages: ") != (long long)rel[1]) FATAL("pbtxt", "%s", q.substr(0, 300).c_str());
  size_t at = 0, cnt = 0; while ((at = q.find("st {", at)) != std::string::npos) { long a, b, x, y, z; if (sscanf(q.c_str() + at, "st { min_span_pages: %ld max_span_pages: %ld num_spans_allocated: %ld num_spans_freed: %ld live_bytes: %ld", &a, &b, &x, &y, &z) != 5) FATAL("pbtxt", "%s", q.substr(at, 200).c_str()); auto& c = m[a == b && (uint64_t)a <= mp ? a : b + (1ull << 60)]; if ((long)c.na != x || (long)c.nf != y || (long)((c.as - c.fs) * kPageSize) != z) FATAL("pbtxt", "%s", q.substr(at, 200).c_str()); at++; cnt++; } size_t want = 0; for (auto& c : m) want += c.second.na > 0; if (cnt != want) FATAL("pbtxt", "%zu sizes listed, %zu seen", cnt, want); if (info.TimeTicks() < ticks) FATAL("ticks", "backwards");
  // free span statistics
  static SmallSpanStats ss, s2; static LargeSpanStats ls; ss = SmallSpanStats(); ls = LargeSpanStats(); uint64_t tn = 0, tr = 0; size_t kinds = 0; for (size_t i = 1; i < mp; i++) if (r.chance(1, 4)) { ss.normal_length[i] = r.below(50); ss.returned_length[i] = r.below(50); if (ss.normal_length[i] + ss.returned_length[i]) kinds++; tn += ss.normal_length[i] * i; tr += ss.returned_length[i] * i; } ls.spans = r.below(100); ls.normal_pages = L(r.below(10000)); ls.returned_pages = L(r.below(10000)); s2 = ss + ss; for (size_t i = 0; i < mp; i++) if (s2.normal_length[i] != 2 * ss.normal_length[i] || s2.returned_length[i] != 2 * ss.returned_length[i]) FATAL("sum", "small span statistics"); auto l2 = ls + ls; if (l2.spans != 2 * ls.spans || l2.normal_pages != ls.normal_pages * 2 || l2.returned_pages != ls.returned_pages * 2) FATAL("sum", "large span statistics"); BackingStats b1; b1.system_bytes = r.next() >> 10; b1.free_bytes = r.next() >> 10; b1.unmapped_bytes = r.next() >> 10; auto b2 = b1 + b1; if (b2.system_bytes != 2 * b1.system_bytes || b2.free_bytes != 2 * b1.free_bytes || b2.unmapped_bytes != 2 * b1.unmapped_bytes) FATAL("sum", "backing statistics");
  Printer p3(buf, sizeof buf); PrintStats("xx", p3, b1, ss, ls, true); s = buf; size_t k; if (sscanf(field(s, "xx: ").c_str(), "%zu sizes", &k) != 1 || k != kinds) FATAL("print", "%s, %zu lists are not empty", field(s, "xx: ").c_str(), kinds); double cum = 0, ucum = 0, x1; p = s.find(">="); unsigned long mn, sp; if (p == std::string::npos || sscanf(s.c_str() + p, ">=%lu large * %lu spans ~ %lf MiB; %lf MiB cum; unmapped: %lf MiB; %lf", &mn, &sp, &x1, &cum, &x1, &ucum) != 6 || mn != mp || sp != ls.spans || std::fabs(cum - (double)(tn + tr + ls.normal_pages.raw_num() + ls.returned_pages.raw_num()) * kPageSize / 1048576) > 0.06 || std::fabs(ucum - (double)(tr + ls.returned_pages.raw_num()) * kPageSize / 1048576) > 0.06) FATAL("print", "large spans: %s", p == std::string::npos ? "missing" : s.substr(p, 150).c_str());
  Printer p4(pb, sizeof pb); { PbtxtRegion reg(p4, kTop); PrintStatsInPbtxt(reg, ss, ls); } q.assign(pb, p4.SpaceRequired()); long bn = 0, br = 0; at = 0; cnt = 0; while ((at = q.find("page_heap {", at)) != std::string::npos) { long a, x, y, z; if (sscanf(q.c_str() + at, "page_heap { span_size: %ld present: %ld released: %ld num_spans: %ld", &a, &x, &y, &z) != 4) FATAL("pbtxt", "%s", q.substr(at, 200).c_str()); bn += x; br += y; at++; cnt++; } if (cnt != kinds + 1 || bn != (long)((tn + ls.normal_pages.raw_num()) * kPageSize) || br != (long)((tr + ls.returned_pages.raw_num()) * kPageSize)) FATAL("pbtxt", "%zu entries with %ld + %ld bytes, %zu lists with %lu + %lu pages", cnt, bn, br, kinds, tn, tr);
  delete pi; n_hist++; dist.add(largest * 7 + ops); }
int main(int argc, char** argv) {
  char m = argv[1][0]; uint64_t end = now_ns() + (thorough() ? 150ull : 3ull) * 1000000000; Rng r(seed() * 31337 + m);
  while (now_ns() < end) switch (m) { case 'T': switch (r.below(4)) { case 0: series<2>(r); break; case 1: series<3>(r); break; case 2: series<16>(r); break; default: series<100>(r); } break; case 'S': switch (r.below(3)) { case 0: subrelease<16>(r); break; case 1: subrelease<4>(r); break; default: subrelease<64>(r); } break; case 'C': clocks(r); break; case 'I': infos(r); break; }
  metric("evals", evals); metric("distinct", dist.n); metric("reports", n_rep); metric("window_queries", n_query); metric("peaks_confirmed_against", n_conf); metric("huge_jumps", n_jump); metric("clock_regressions", n_back); metric("histories", n_hist); say("SAMPLE mode %c: %lld histories, %lld reports, %lld queries", m, n_hist, n_rep, n_query); done();
}
