// P19: heap and peak-heap profiles against a shadow of the live blocks. Modes: S one thread, T threads with concurrent snapshots,
// B bias of the weighted totals, K peak profile, X sampling does not change what the program sees. P interval 1, G guarded, C per-CPU.
#include <math.h>
#include <thread>
#include <vector>
#include "vt_prof.h"
#include "tcmalloc/parameters.h"
#include "tcmalloc/static_vars.h"
using namespace vt;
using namespace tcmalloc;
static Distinct dist; static std::atomic<long long> evals{0}, n_snap{0}, n_rec{0}, n_live{0}, n_amb{0}, n_guard{0}, n_new_peak{0};
static bool every, guardmode; static long base_handle;
enum { kNone, kAlloc, kIn, kFree };
struct Slot { std::atomic<int> st{0}; std::atomic<uint64_t> born{0}, dying{0}, ver{0}; Desc d; };
static constexpr int W = 6, NS = 700; static Arr<Slot> slots(W * NS);
static constexpr size_t kH = 1 << 23; struct HRec { std::atomic<int> slot; std::atomic<uint64_t> began, dead; double w; }; static Arr<HRec> hrec(kH);
static bool is_guarded_ptr(void* p) { return tcmalloc_internal::tc_globals.guardedpage_allocator().PointerIsMine(p); }

static Arr<double> wtab(kH); static void keep_weight(const MallocHook::SampledAlloc& s) { if ((size_t)s.handle < kH) wtab[(size_t)s.handle] = s.weight; }
static void new_block(Rng& r, Slot& s, bool shape) {
  int f = r.below(F_COUNT); size_t sz = rand_size(r, 1 << 20), al = rand_align(r, 14); if (zeroes(f)) sz &= 0xffff; int hot = is_hc(f) ? (int)r.below(256) : -1;
  s.ver++; auto go = [&] { leaf_alloc(s.d, f, sz, al, hot); }; int depth = shape ? r.chance(1, 40) ? r.range(20, 40) : r.below(10) : 1; nest(depth, r.next(), go);
  if (!s.d.b.p) FATAL("null", "%s(%zu) failed", fn_name(f), sz);
  if (every && s.d.handle < 0) FATAL("unsampled", "%s(%zu) was not sampled with an interval of one", fn_name(f), sz);
  s.d.usable = malloc_usable_size(s.d.b.p); if (s.d.handle >= 0) { if (s.d.handle >= (long)kH) FATAL("harness", "too many samples"); hrec[s.d.handle].w = s.d.w; hrec[s.d.handle].began = s.d.t0; hrec[s.d.handle].slot = (&s - &slots[0]) + 1; }
  s.dying = 0; s.born = s.d.t1; s.st = kIn; s.ver++;
}
static void resize_block(Rng& r, Slot& s) {
  size_t sz = 1 + rand_size(r, 1 << 20); void* p = s.d.b.p; s.ver++; s.dying = now_ns(); s.st = kFree; long oh = s.d.handle; Desc keep = s.d;
  auto go = [&] { leaf_realloc(s.d, p, sz); }; nest(r.below(10), r.next(), go); if (!s.d.b.p) FATAL("null", "realloc(%zu)", sz);
  if (s.d.b.p == p && s.d.handle < 0) { s.d = keep; }  // stayed where it was: the record of the original request stands
  else if (oh >= 0) hrec[oh].dead = s.d.t1;
  s.d.usable = malloc_usable_size(s.d.b.p); if (s.d.handle >= 0 && s.d.handle != oh) { hrec[s.d.handle].w = s.d.w; hrec[s.d.handle].began = s.d.t0; hrec[s.d.handle].slot = (&s - &slots[0]) + 1; }
  s.dying = 0; s.born = s.d.t1; if (s.d.handle >= 0 && s.d.handle == oh) s.born = now_ns(); s.st = kIn; s.ver++;
}
static void drop(Rng& r, Slot& s) {
  s.ver++; s.dying = now_ns(); s.st = kFree; FreeEv e; auto go = [&] { leaf_free(s.d.b, r.next(), e); }; nest(1, 0, go);
  if (s.d.handle >= 0) hrec[s.d.handle].dead = e.t1; s.st = kNone; s.d.b.p = nullptr; s.ver++;
}
static void judge_weight(const Profile::Sample& s, double w, const Desc* d) {
  if (s.allocated_size == 0) { if (s.count != 1 || s.sum != 0) FATAL("weight", "zero-byte guarded block: count %ld sum %ld", (long)s.count, (long)s.sum); return; }
  if (s.sum != s.count * (int64_t)s.allocated_size) FATAL("weight", "sum %ld is not count %ld times allocated size %zu", (long)s.sum, (long)s.count, s.allocated_size);
  if (fabs(s.count - w) > 0.5 + 1e-6 + 1.0 / s.allocated_size) FATAL("weight", "block of %zu/%zu bytes stands for %f blocks, profile says %ld", s.requested_size, s.allocated_size, w, (long)s.count);
  if (every && !guardmode && s.count != 1) FATAL("weight", "count %ld with every allocation sampled", (long)s.count);
}
// snapshot and judge; `exact`: nothing else runs meanwhile
static void snapshot(bool exact, Arr<uint64_t>& mark, uint64_t id) {
  long h_before = max_handle; uint64_t ts = now_ns(); int64_t ws = absl::ToUnixNanos(absl::Now()); Profile p = MallocExtension::SnapshotCurrent(ProfileType::kHeap); int64_t we = absl::ToUnixNanos(absl::Now()); uint64_t te = now_ns(); n_snap++;
  if (p.Type() != ProfileType::kHeap) FATAL("type", "profile of type %d", (int)p.Type());
  if (!p.StartTime() || absl::ToUnixNanos(*p.StartTime()) < ws || absl::ToUnixNanos(*p.StartTime()) > we || p.Duration() != absl::ZeroDuration()) FATAL("time", "profile start time or duration wrong");
  p.Iterate([&](const Profile::Sample& s) {
    n_rec++; evals++; long h = (long)s.alloc_handle; if (h <= 0 || h >= (long)kH) FATAL("handle", "record with handle %ld", h);
    if (mark[h] == id) FATAL("twice", "handle %ld (%zu bytes) is in the profile twice", h, s.requested_size); mark[h] = id;
    if (h <= base_handle) return; int sl = hrec[h].slot; if (!sl) { if (exact && h <= h_before) FATAL("unknown", "record of %zu bytes (handle %ld) at %p: no such live block", s.requested_size, h, s.span_start_address); return; }
    uint64_t dead = hrec[h].dead; if (dead && dead < ts) FATAL("stale", "block of %zu bytes (handle %ld) was freed before the snapshot and is still in it", s.requested_size, h);
    if (hrec[h].began > te) FATAL("early", "handle %ld allocated after the snapshot", h);
    Slot& S = slots[sl - 1]; uint64_t v = S.ver; if (v & 1) return; if (S.d.handle != h || S.st != kIn) { if (exact) FATAL("stale", "handle %ld does not belong to a live block", h); return; }
    if (exact) { judge_fields("fields", s, S.d, true, is_guarded_ptr(S.d.b.p)); if (is_guarded_status(s)) n_guard++;
      if (is_guarded_status(s) ? ((uintptr_t)s.span_start_address >> tcmalloc_internal::kPageShift) != ((uintptr_t)S.d.b.p >> tcmalloc_internal::kPageShift) : s.span_start_address != S.d.b.p) FATAL("addr", "block %p is recorded at %p", S.d.b.p, s.span_start_address);
      if (!stack_ends_with(s.stack, s.depth, S.d.fr)) FATAL("stack", "%s(%zu): the %d recorded frames do not end with the %d frames of the caller", fn_name(S.d.b.fn), S.d.b.req, s.depth, S.d.fr.n);
      int64_t t = absl::ToUnixNanos(s.allocation_time); if (t < S.d.w0 || t > S.d.w1) FATAL("time", "allocation time %ld outside the call %ld..%ld", (long)t, (long)S.d.w0, (long)S.d.w1);
      if (S.d.w > 0 || S.d.handle >= 0) judge_weight(s, S.d.w, &S.d);
      dist.add(S.d.b.fn * 7919ull + S.d.usable * 3 + is_guarded_status(s)); }
    else { if (s.requested_size < S.d.b.req && S.ver == v) FATAL("fields", "handle %ld: %zu bytes recorded, %zu requested", h, s.requested_size, S.d.b.req); }
  });
  for (int i = 0; i < W * NS; i++) { Slot& S = slots[i]; uint64_t v = S.ver; if ((v & 1) || S.st != kIn || S.d.handle < 0) continue; long h = S.d.handle; uint64_t b = S.born; if (S.ver != v) continue;
    if (b < ts) { n_live++; evals++; if (mark[h] != id && S.dying == 0 && S.ver == v) FATAL("missing", "live block %p of %zu bytes (handle %ld, sampled before the snapshot) is not in it", S.d.b.p, S.d.b.req, h); } else n_amb++; }
}
int main(int argc, char** argv) {
  const char* m = argv[1]; bool percpu = strchr(m, 'C'); free(malloc(8)); if (percpu && !MallocExtension::PerCpuCachesActive()) return inconclusive("per-CPU caches not active");
  every = strchr(m, 'P'); guardmode = strchr(m, 'G'); long interval = every ? 1 : guardmode ? 2048 : 8192;
  uint64_t end = now_ns() + (thorough() ? 200ull : 4ull) * 1000000000; Rng r(seed() * 31 + 7); static Arr<uint64_t> mark(kH);
  if (!MallocHook::AddSampledNewHook(prof_on_new) || !MallocHook::AddSampledNewHook(keep_weight) || !MallocHook::AddSampledDeleteHook(prof_on_del)) FATAL("hook", "refused");
  auto arm = [&](long iv) { MallocExtension::SetProfileSamplingInterval(iv); MallocExtension::SetGuardedSamplingInterval(guardmode ? 4096 : -1); if (guardmode) MallocExtension::ActivateGuardedSampling(); for (int i = 0; i < 100; i++) ::operator delete(::operator new(1 << 20)); };
  if (!strchr(m, 'X')) arm(interval);
  base_handle = max_handle;
  if (strchr(m, 'S')) {
    uint64_t id = 0; long steps = 0;
    while (now_ns() < end && max_handle < (long)kH - 5000) {
      for (int k = 0, n = r.chance(1, 3) ? 1 + r.below(5) : 50 + r.below(300); k < n; k++) { steps++; Slot& s = slots[r.below(NS)]; if (s.st == kNone) new_block(r, s, true); else if (r.chance(1, 4) && (fam(s.d.b.fn) == kC)) resize_block(r, s); else drop(r, s); }
      snapshot(true, mark, ++id);
      if (r.chance(1, 60)) { for (int i = 0; i < NS; i++) if (slots[i].st == kIn) drop(r, slots[i]); snapshot(true, mark, ++id); }
    }
    metric("steps", steps);
  } else if (strchr(m, 'T')) {
    std::vector<std::thread> th; std::atomic<bool> stop{false};
    for (int t = 0; t < W; t++) th.emplace_back([&, t] { free(malloc(8)); Rng r(seed() * 331 + t); for (int i = 0; i < 5; i++) ::operator delete(::operator new(64 << 20));
      while (!stop && max_handle < (long)kH - 50000) { Slot& s = slots[t * NS + r.below(NS)]; if (s.st == kNone) new_block(r, s, false); else if (r.chance(1, 6) && fam(s.d.b.fn) == kC) resize_block(r, s); else drop(r, s); } });
    uint64_t id = 0; while (now_ns() < end) snapshot(false, mark, ++id); stop = true; for (auto& x : th) x.join(); base_handle = 0; for (long h = 1; h < (long)kH && h <= max_handle; h++) if (!hrec[h].slot) { }
    // quiesced: exact
    { long hb = max_handle; Profile p = MallocExtension::SnapshotCurrent(ProfileType::kHeap); ++id; p.Iterate([&](const Profile::Sample& s) { long h = (long)s.alloc_handle; mark[h] = id; if (hrec[h].slot && hrec[h].dead) FATAL("stale", "block of %zu bytes (handle %ld) freed long ago is still in the profile", s.requested_size, h); (void)hb; });
      for (int i = 0; i < W * NS; i++) if (slots[i].st == kIn && slots[i].d.handle >= 0 && mark[slots[i].d.handle] != id) FATAL("missing", "live block of %zu bytes is not in the final profile", slots[i].d.b.req); }
  } else if (strchr(m, 'B')) {
    // groups of sizes; the estimate of each group's live bytes and blocks against the truth
    static const size_t S[] = {8, 24, 100, 500, 1000, 3000, 8192, 20000, 70000, 300000, 1500000}; constexpr int NG = 11; double est[NG] = {}, truth[NG] = {}, var[NG] = {}, estc[NG] = {}, truthc[NG] = {}, varc[NG] = {}; double T = interval; long rounds = 0;
    while (now_ns() < end) {
      static Arr<void*> p(4 << 20); static size_t us[NG]; long n = 0; size_t cnt[NG]; int order = r.below(3);
      for (int g = 0; g < NG; g++) { cnt[g] = std::max<size_t>(1, std::min<size_t>((2 << 20) / S[g], 50000)); }
      static Arr<int> gi(4 << 20); long tot = 0; for (int g = 0; g < NG; g++) for (size_t i = 0; i < cnt[g]; i++) gi[tot++] = g;
      if (order) for (long i = tot - 1; i > 0; i--) std::swap(gi[i], gi[r.below(i + 1)]);
      for (long i = 0; i < tot; i++) { p[i] = ::operator new(S[gi[i]]); }
      double mu[NG] = {}; for (long i = 0; i < tot; i++) { if (!us[gi[i]]) us[gi[i]] = malloc_usable_size(p[i]); }
      Profile pr = MallocExtension::SnapshotCurrent(ProfileType::kHeap); n_snap++; double e[NG] = {}, c[NG] = {};
      pr.Iterate([&](const Profile::Sample& s) { n_rec++; for (int g = 0; g < NG; g++) if (s.requested_size == S[g] && s.type == AllocationType::New && (long)s.alloc_handle > base_handle) { double w = wtab[(long)s.alloc_handle]; if (fabs(s.count - w) > 0.501 + 1.0 / us[g] || s.sum != s.count * (int64_t)us[g] || s.allocated_size != us[g]) FATAL("weight", "block of %zu bytes stands for %f blocks, profile says %ld (%ld bytes)", S[g], w, (long)s.count, (long)s.sum); e[g] += w * us[g]; c[g] += w; } });
      for (int g = 0; g < NG; g++) { double k = S[g] + 1, a = us[g]; est[g] += e[g]; estc[g] += c[g]; truth[g] += a * cnt[g]; truthc[g] += cnt[g];
        // one block of k bytes is sampled with probability q and then stands for T/k + (overshoot) blocks: variance at most (T + k)^2 / k^2 * q
        double q = 1 - exp(-k / T), m2 = q * ((T / k + 1) * (T / k + 1)) - 1; if (m2 < 0) m2 = 0.3; var[g] += cnt[g] * a * a * (m2 + 0.3); varc[g] += cnt[g] * (m2 + 0.3); }
      for (long i = 0; i < tot; i++) ::operator delete(p[i]); rounds++; base_handle = max_handle; (void)n; (void)mu;
    }
    for (int g = 0; g < NG; g++) { evals++; double z = (est[g] - truth[g]) / sqrt(var[g] + 1), zc = (estc[g] - truthc[g]) / sqrt(varc[g] + 1); double rel = est[g] / truth[g] - 1; dist.add(g);
      // counts in the profile are these weights rounded to whole blocks (judged record by record above)
      double slack = 0.004;
      say("SAMPLE size=%zu rounds=%ld live bytes estimated %.0f true %.0f (%.3f%%, z %.2f; count z %.2f)", S[g], rounds, est[g], truth[g], rel * 100, z, zc);
      if (fabs(z) > 7 && fabs(rel) > slack) FATAL("bias", "live bytes of %zu-byte blocks estimated at %.0f, really %.0f (%.2f%% off, %.1f standard deviations, %ld rounds)", S[g], est[g], truth[g], rel * 100, z, rounds);
      if (fabs(zc) > 7 && fabs(estc[g] / truthc[g] - 1) > slack) FATAL("bias", "number of %zu-byte blocks estimated at %.0f, really %.0f", S[g], estc[g], truthc[g]); }
  } else if (strchr(m, 'K')) {
    // model: live sampled set and its total after every sampled allocation
    static Arr<double> tot_after(kH); static Arr<uint64_t> born(kH), died(kH); static Arr<double> bytes(kH); uint64_t ev = 0; double cur = 0, mx = 0; if (percpu) tcmalloc_internal::Parameters::set_peak_sampling_heap_growth_fraction(1.01); double frac = tcmalloc_internal::Parameters::peak_sampling_heap_growth_fraction(); uint64_t id = 0; int livec = 0; double cap = 20;
    { Profile p0 = MallocExtension::SnapshotCurrent(ProfileType::kHeap); p0.Iterate([&](const Profile::Sample& s) { long h = (long)s.alloc_handle; bytes[h] = s.sum; born[h] = ++ev; cur += s.sum; }); }
    Profile pk0 = MallocExtension::SnapshotCurrent(ProfileType::kPeakHeap); pk0.Iterate([&](const Profile::Sample& s) { mx += s.sum; }); base_handle = max_handle; long fresh = 0; double last = -1;
    auto note_new = [&](Slot& s) { if (s.d.handle < 0) return; long h = s.d.handle; bytes[h] = s.d.w * s.d.usable; born[h] = ++ev; cur += bytes[h]; tot_after[h] = cur; if (cur > mx) mx = cur; };
    while (now_ns() < end && max_handle < (long)kH - 5000) {
      bool grow = r.chance(1, 2);
      for (int k = 0, n = 1 + r.below(120); k < n; k++) { Slot& s = slots[r.below(W * NS)]; if (s.st == kNone) { if (livec < cap && (grow || r.chance(1, 4))) { livec++; new_block(r, s, false); note_new(s); } } else if (!grow || r.chance(1, 8)) { long h = s.d.handle; livec--; drop(r, s); if (h >= 0) { died[h] = ++ev; cur -= bytes[h]; } } }
      Profile p = MallocExtension::SnapshotCurrent(ProfileType::kPeakHeap); if (p.Type() != ProfileType::kPeakHeap) FATAL("type", "profile type %d", (int)p.Type()); n_snap++; evals++; ++id; double total = 0; long hm = 0; int n = 0; bool old = false; size_t slack = 64;
      p.Iterate([&](const Profile::Sample& s) { n++; n_rec++; long h = (long)s.alloc_handle; if (mark[h] == id) FATAL("twice", "handle %ld twice in the peak profile", h); mark[h] = id; total += s.sum; slack += s.allocated_size; if (h > hm) hm = h; });
      // the weighted sizes are rounded to whole blocks in the profile
      if (total + slack < mx / frac - 1e-3 * mx) FATAL("peak", "peak profile holds %.0f bytes though %.0f were live at some time (fraction %.2f)", total, mx, frac);
      if (total > mx + slack) FATAL("peak", "peak profile holds %.0f bytes, never more than %.0f were live", total, mx);
      if (hm > base_handle && hrec[hm].slot) { // taken right after the allocation hm: exactly the blocks live then
        fresh++; if (total != last) { n_new_peak++; last = total; }
        long missing = 0; for (long h = base_handle + 1; h <= hm; h++) { if (!hrec[h].slot) continue; bool live = born[h] && born[h] <= born[hm] && (!died[h] || died[h] > born[hm]); if (live != (mark[h] == id)) { if (live) FATAL("peak-set", "block (handle %ld, %.0f bytes) was live when the peak profile was taken but is not in it", h, bytes[h]); else FATAL("peak-set", "block (handle %ld) was already freed when the peak profile was taken", h); } evals++; }
        dist.add((uint64_t)total); }
      if (r.chance(1, 30)) for (int i = 0; i < W * NS; i++) if (slots[i].st == kIn && r.chance(1, 2)) { long h = slots[i].d.handle; livec--; drop(r, slots[i]); if (h >= 0) { died[h] = ++ev; cur -= bytes[h]; } }
      if (cap < 4000) cap *= thorough() ? 1.0005 : 1.004;
    }
    metric("peaks_judged", fresh); if (!fresh) return inconclusive("no peak taken during the run");
  } else if (strchr(m, 'X')) {
    // the same requests with and without sampling
    while (now_ns() < end) {
      struct R { int f; size_t s, al; int hot; size_t us, cap; }; static Arr<R> q(400); int n = 400;
      for (int pass = 0; pass < 2; pass++) { MallocExtension::SetProfileSamplingInterval(pass ? 1 : 0); for (int i = 0; i < 8; i++) ::operator delete(::operator new(64 << 20));
        for (int i = 0; i < n; i++) { R& x = q[i]; if (!pass) { x.f = r.below(F_COUNT); x.s = rand_size(r, 1 << 20); x.al = rand_align(r, 14); x.hot = is_hc(x.f) ? (int)r.below(256) : -1; if (zeroes(x.f)) x.s &= 0xffff; }
          last_handle = -1; Block b = do_alloc(x.f, x.s, x.al, x.hot); if (!b.p) FATAL("null", "%s(%zu)", fn_name(x.f), x.s); size_t us = malloc_usable_size(b.p); if ((last_handle >= 0) != (pass == 1)) FATAL("armed", "sampling %s but %s", pass ? "every block" : "off", pass ? "not sampled" : "sampled"); evals++;
          if (!pass) { x.us = us; x.cap = b.cap; } else { dist.add(x.f * 100003ull + us); if (us != x.us || (is_sr(x.f) && b.cap != x.cap)) FATAL("visible", "%s(%zu, align %zu): usable %zu (returned size %zu) sampled, %zu (%zu) otherwise", fn_name(x.f), x.s, x.al, us, b.cap, x.us, x.cap); if (((uintptr_t)b.p) % (b.align ? b.align : 8)) FATAL("align", "sampled block %p", b.p);
            memset(b.p, 0x5a, us); if (fam(x.f) == kC && r.chance(1, 2)) { size_t ns = 1 + rand_size(r, 1 << 18); void* o = realloc(b.p, ns); if (!o) FATAL("null", "realloc"); for (size_t j = 0; j < std::min(us, ns); j++) if (((char*)o)[j] != 0x5a) FATAL("content", "realloc of a sampled block changed byte %zu", j); free(o); continue; } }
          do_free(b, r.next()); } }
      n_snap++;
    }
  }
  metric("evals", evals); metric("distinct", dist.n + n_snap); metric("snapshots", n_snap); metric("records", n_rec); metric("live_blocks_looked_up", n_live); metric("guarded_records", n_guard); metric("peaks", n_new_peak);
  say("SAMPLE mode=%s snapshots=%lld records=%lld live=%lld ambiguous=%lld guarded=%lld peaks=%lld handles=%ld", m, (long long)n_snap, (long long)n_rec, (long long)n_live, (long long)n_amb, (long long)n_guard, (long long)n_new_peak, (long)max_handle);
  return done();
}
