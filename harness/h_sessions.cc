// P20: allocation, lifetime and event-trace sessions. Q one operating thread (plus helpers it drives) with overlapping sessions, exact;
// E event traces, A allocation profiles, L lifetime profiles with sessions racing six working threads; U truncated traces.
#include <math.h>
#include <map>
#include <thread>
#include <vector>
#include <sys/syscall.h>
#include "vt_prof.h"
#include "tcmalloc/parameters.h"
#include "tcmalloc/static_vars.h"
using namespace vt;
using namespace tcmalloc;
static Distinct dist; static Rlx<long long> evals{0}, n_ses{0}, n_rec{0}, n_def{0}, n_amb{0}, n_cens{0}, n_match{0}, n_dev{0}, n_dev2{0};
using Token = MallocExtension::AllocationProfilingToken;
static int tid() { return syscall(SYS_gettid); }
static int64_t bucket(double ns) {  // documented: below 1 ns -> 1 ns, below 1 ms down to a power of ten, above down to whole ms
  if (ns <= 1) return 1; if (ns < 1e6) { int64_t c = 1; while (c * 10 <= ns) c *= 10; return c; } return (int64_t)(ns / 1e6) * 1000000;
}
// ---------- racing modes: one record per handle
struct T4 { std::atomic<uint64_t> a0, a1, f0, f1; };
struct Info { int64_t aw0, aw1, fw0, fw1; size_t req, usable; int fn, hot; int atid, ftid; size_t align; int key; uint8_t an, fnn; void* af[16]; void* ff[16]; double w; };
static constexpr size_t kH = 1500000; static Arr<T4> tm_(kH); static Arr<Info> inf(kH);
static constexpr int W = 6, NS = 400; struct Sl { Desc d; int key; }; static Arr<Sl> slots(W * NS);
static std::atomic<uint64_t> opdone[W]; static std::atomic<bool> stop{false};
static const struct { int fn; size_t sz; } kKeys[] = {{F_malloc, 40}, {F_new, 41}, {F_new_nt, 200}, {F_malloc, 1000}, {F_newal, 1300}, {F_srnew, 5000}, {F_new_hc, 9000}, {F_malloc, 30000}, {F_memalign, 70000}, {F_new, 270000}, {F_newarr, 90}, {F_alloc_at_least, 333}, {F_calloc, 77}, {F_tok1_new, 640}, {F_posix_memalign, 2500}, {F_newarral_nt, 3600}};
static constexpr int NK = sizeof(kKeys) / sizeof(kKeys[0]);
static void put(void** to, uint8_t& n, const Frames& fr) { n = std::min(15, fr.n); for (int i = 0; i < n; i++) to[i] = fr.f[i]; }
static bool suffix_ok(void* const* stack, int depth, void* const* f, int n) { // frames above the leaf appear, in order
  if (n < 2) return true; for (int j = 1; j + 0 < depth && j < 24; j++) { int k = std::min(n - 1, depth - j); if (k < 1) break; bool ok = true; for (int i = 0; i < k && ok; i++) ok = stack[j + i] == f[1 + i]; if (ok) return true; } return false;
}
static void op_alloc(Rng& r, Sl& s) {
  int k = r.below(NK); s.key = k; int hot = is_hc(kKeys[k].fn) ? (int)(r.below(2) * 200) : -1; auto go = [&] { leaf_alloc(s.d, kKeys[k].fn, kKeys[k].sz, 64, hot); };
  nest(r.below(4), r.next(), go); if (!s.d.b.p) FATAL("null", "allocation failed"); long h = s.d.handle; if (h < 0) FATAL("unsampled", "interval one and not sampled"); if (h >= (long)kH) { stop = true; return; }
  s.d.usable = malloc_usable_size(s.d.b.p); Info& i = inf[h]; i.aw0 = s.d.w0; i.aw1 = s.d.w1; i.req = s.d.b.req; i.usable = s.d.usable; i.fn = s.d.b.fn; i.hot = hot; i.align = s.d.b.align; i.atid = tid(); i.key = k; i.w = s.d.w; put(i.af, i.an, s.d.fr);
  tm_[h].a1 = s.d.t1; tm_[h].a0 = s.d.t0;
}
static void op_free(Rng& r, Sl& s) {
  long h = s.d.handle; FreeEv e; if (h < (long)kH) { tm_[h].f0 = now_ns(); } auto go = [&] { leaf_free(s.d.b, r.next(), e); }; nest(r.below(4), r.next(), go);
  if (h < (long)kH) { Info& i = inf[h]; i.fw0 = e.w0; i.fw1 = e.w1; i.ftid = tid(); put(i.ff, i.fnn, e.fr); tm_[h].f1 = e.t1; } s.d.b.p = nullptr;
}
// hand-over: blocks move between threads through this table
static Arr<Sl> boxed(256);
static void worker2(int t) {
  free(malloc(8)); Rng r(seed() * 911 + t); for (int i = 0; i < 40; i++) ::operator delete(::operator new(1 << 20));
  while (!stop) {
    Sl& s = slots[t * NS + r.below(NS)];
    if (!s.d.b.p) op_alloc(r, s);
    else if (r.chance(1, 3)) { // swap with a boxed block
      static Arr<std::atomic<int>> lock(256); int i = r.below(256); int z = 0; if (lock[i].compare_exchange_strong(z, 1)) { Sl tmp; memcpy((void*)&tmp, &boxed[i], sizeof tmp); memcpy((void*)&boxed[i], &s, sizeof s); memcpy((void*)&s, &tmp, sizeof s); lock[i] = 0; } }
    else op_free(r, s);
    opdone[t] = now_ns(); if (r.chance(1, 100)) usleep(r.below(200));
  }
  opdone[t] = ~0ull;
}
struct Mk { uint32_t ses; uint8_t na, nf; };
static void settle(uint64_t after) { for (int t = 0; t < W; t++) while (opdone[t] < after) usleep(100); }
static void judge_alloc_fields(const Profile::Sample& s, long h, const char* what) {
  Info& i = inf[h]; Desc d; d.b.fn = i.fn; d.b.req = i.req; d.b.hot = i.hot; d.b.align = i.align; d.usable = i.usable; judge_fields("fields", s, d);
  if (!suffix_ok(s.stack, s.depth, i.af, i.an)) FATAL("stack", "%s of handle %ld: stack is not the allocating one", what, h);
}
static void session(int t, char mode) {
  free(malloc(8)); Rng r(seed() * 37 + t * 5 + mode); Arr<Mk> mk(kH); uint32_t id = 0;
  while (!stop) {
    id++; uint64_t s0 = now_ns(); Token tok = mode == 'E' ? MallocExtension::StartEventTracing() : mode == 'A' ? MallocExtension::StartAllocationProfiling() : MallocExtension::StartLifetimeProfiling(); uint64_t s1 = now_ns();
    if (r.chance(3, 4)) usleep(r.below(6000));
    if (r.chance(1, 25)) { { Token dead = std::move(tok); } n_ses++; continue; }  // abandoned
    uint64_t e0 = now_ns(); Profile p = std::move(tok).Stop(); uint64_t e1 = now_ns(); settle(e1); n_ses++; long hi = std::min<long>(max_handle, kH - 1);
    if (p.Type() != (mode == 'E' ? ProfileType::kEventTrace : mode == 'A' ? ProfileType::kAllocations : ProfileType::kLifetimes)) FATAL("type", "profile of type %d", (int)p.Type());
    double du = absl::ToDoubleNanoseconds(p.Duration()); if (du < (double)(e0 - s1) * 0.99 - 2e6 || du > (double)(e1 - s0) * 1.01 + 2e6) FATAL("duration", "session of %.3f..%.3f ms reports %.3f ms", (e0 - s1) / 1e6, (e1 - s0) / 1e6, du / 1e6);
    if (mode == 'L') {
      struct Agg { double m, c; int64_t mn, mx; } g[NK] = {}; for (auto& x : g) x.mn = INT64_MAX; uint64_t pid = 0; int64_t pcount = 0; bool want_second = false;
      p.Iterate([&](const Profile::Sample& s) { n_rec++; int k = -1; for (int j = 0; j < NK; j++) if (s.requested_size == kKeys[j].sz) k = j;
        if (want_second) { if (s.profile_id != pid || s.count != -pcount || s.is_censored) FATAL("pair", "allocation record (pair %lu, count %ld) is not followed by its free (pair %lu, count %ld)", (long)pid, (long)pcount, (long)s.profile_id, (long)s.count); want_second = false; return; }
        if (s.count <= 0) FATAL("pair", "count %ld", (long)s.count); pid = s.profile_id; pcount = s.count; want_second = !s.is_censored;
        int64_t mn = absl::ToInt64Nanoseconds(s.min_lifetime), mx = absl::ToInt64Nanoseconds(s.max_lifetime), av = absl::ToInt64Nanoseconds(s.avg_lifetime), sd = absl::ToInt64Nanoseconds(s.stddev_lifetime);
        if (mn <= 0 || mn > av || av > mx || sd < 0 || sd > mx || s.sum != s.count * (int64_t)s.allocated_size) FATAL("lifetime", "min %ld avg %ld max %ld deviation %ld sum %ld", (long)mn, (long)av, (long)mx, (long)sd, (long)s.sum);
        if (s.is_censored == s.allocator_deallocator_thread_matched.has_value()) FATAL("censored", "censored %d, but thread match %spresent", s.is_censored, s.allocator_deallocator_thread_matched ? "" : "not ");
        if (k < 0) return; (s.is_censored ? g[k].c : g[k].m) += s.count; g[k].mn = std::min(g[k].mn, mn); g[k].mx = std::max(g[k].mx, mx); });
      if (want_second) FATAL("pair", "last allocation record has no free");
      double ml[NK] = {}, mu[NK] = {}, cl[NK] = {}, cu[NK] = {}; int64_t lo[NK], up[NK]; for (int k = 0; k < NK; k++) lo[k] = INT64_MAX, up[k] = 0; int64_t wnow = absl::ToUnixNanos(absl::Now());
      for (long h = 1; h <= hi; h++) { T4& x = tm_[h]; uint64_t a0 = x.a0; if (!a0 || a0 > e1) continue; uint64_t f0 = x.f0, f1 = x.f1; if (f1 && f1 < s0) continue; int k = inf[h].key; uint64_t a1 = x.a1;
        bool inside = f1 && f0 > s1 && f1 < e0 && a1 < e0; if (inside) ml[k]++, n_def++, n_match++; else n_amb++; if (f1 && f1 > s0 && f0 < e1) mu[k]++;
        if (a1 < e0 && (!f0 || f0 > e1)) cl[k]++, n_cens++; if (!f1 || f1 > e0 || f0 <= s1) cu[k]++;
        Info& i = inf[h]; int64_t ub = (f1 && f1 < e0 ? i.fw1 : wnow) - i.aw0;  // a block freed while the session stops counts as live until then
        up[k] = std::max(up[k], ub); int64_t lb = 0; if (f1) lb = i.fw0 - i.aw1; lb = std::min<int64_t>(lb, lb); int64_t cb = 0; (void)cb; if (!inside) lb = std::min<int64_t>(lb, 0); lo[k] = std::min(lo[k], lb); }
      for (int k = 0; k < NK; k++) { evals++; dist.add(k * 1000003ull + (long)g[k].m * 100 + (long)g[k].c);
        if (g[k].m < ml[k] || g[k].m > mu[k]) FATAL("matched", "%s(%zu): %.0f allocation/free pairs reported, between %.0f and %.0f happened in the session (%.2f ms)", fn_name(kKeys[k].fn), kKeys[k].sz, g[k].m, ml[k], mu[k], (e0 - s1) / 1e6);
        if (g[k].c < cl[k] || g[k].c > cu[k]) FATAL("censored", "%s(%zu): %.0f blocks reported live at the end, between %.0f and %.0f were", fn_name(kKeys[k].fn), kKeys[k].sz, g[k].c, cl[k], cu[k]);
        if (g[k].m + g[k].c > 0 && g[k].mx > up[k] + 2000) FATAL("lifetime", "%s(%zu): lifetime of %ld ns, no block lived longer than %ld", fn_name(kKeys[k].fn), kKeys[k].sz, (long)g[k].mx, (long)up[k]);
        if (g[k].m + g[k].c > 0 && lo[k] > 0 && g[k].mn < bucket(lo[k] * 0.99)) FATAL("lifetime", "%s(%zu): lifetime of %ld ns, no block lived less than %ld", fn_name(kKeys[k].fn), kKeys[k].sz, (long)g[k].mn, (long)lo[k]); }
      continue;
    }
    p.Iterate([&](const Profile::Sample& s) { n_rec++; long h = (long)s.alloc_handle; if (h <= 0) FATAL("handle", "handle %ld", h); if (h >= (long)kH) return; Mk& m = mk[h]; if (m.ses != id) m.ses = id, m.na = m.nf = 0;
      if (!tm_[h].a0) return;  // not one of the judged blocks
      int64_t t = absl::ToUnixNanos(s.allocation_time);
      if (mode == 'A' || s.count > 0) { m.na++; judge_alloc_fields(s, h, "allocation"); if (s.count != 1 || s.sum != (int64_t)s.allocated_size) FATAL("weight", "count %ld sum %ld for one sampled block of %zu", (long)s.count, (long)s.sum, s.allocated_size); if (t < inf[h].aw0 || t > inf[h].aw1) FATAL("time", "allocation time of handle %ld is outside the call", h);
        if (mode == 'E' && (!s.thread_id || *s.thread_id != inf[h].atid)) { if (tm_[h].a0 > s1) FATAL("thread", "handle %ld allocated by thread %d, reported %d", h, inf[h].atid, s.thread_id.value_or(-1)); } }
      else { m.nf++; if (s.count != -1 || s.sum != 0) FATAL("weight", "free event with count %ld sum %ld", (long)s.count, (long)s.sum); if (!tm_[h].f1) FATAL("phantom", "free of handle %ld reported, it is live", h); if (t < inf[h].fw0 || t > inf[h].fw1) FATAL("time", "free time of handle %ld is outside the call (%ld, %ld..%ld)", h, (long)t, (long)inf[h].fw0, (long)inf[h].fw1);
        if (!s.thread_id || *s.thread_id != inf[h].ftid) FATAL("thread", "handle %ld freed by thread %d, reported %d", h, inf[h].ftid, s.thread_id.value_or(-1)); if (!suffix_ok(s.stack, s.depth, inf[h].ff, inf[h].fnn)) FATAL("stack", "handle %ld: stack is not the freeing one", h); } });
    for (long h = 1; h <= hi; h++) { T4& x = tm_[h]; uint64_t a0 = x.a0; if (!a0) continue; uint64_t a1 = x.a1, f0 = x.f0, f1 = x.f1; Mk& m = mk[h]; int na = m.ses == id ? m.na : 0, nf = m.ses == id ? m.nf : 0; if (!na && !nf && f1 && f1 < s0) continue; evals++;
      if (na > 1 || nf > 1) FATAL("twice", "handle %ld: %d allocation and %d free records", h, na, nf);
      if (a0 > e1 && (na || nf)) FATAL("late", "handle %ld, allocated after the stop, is in the profile", h);
      if (mode == 'A') { if (a1 < s0 && na) FATAL("early", "handle %ld, allocated before the start, is in the profile", h); bool in = a0 > s1 && a1 < e0; if (in) { n_def++; if (!na) FATAL("lost", "handle %ld (%zu bytes), allocated inside the session, is not in the profile", h, inf[h].req); } else n_amb++; continue; }
      if (f1 && f1 < s0 && (na || nf)) FATAL("early", "handle %ld, freed before the start, is in the trace (%d/%d)", h, na, nf);
      if (f0 && f0 > e1 && nf) FATAL("late", "handle %ld: free after the stop is in the trace", h);
      bool must_a = a1 < e0 && (!f0 || f0 > s1), must_f = f0 && f1 && f0 > s1 && f1 < e0 && a1 < e0; if (must_a || must_f) n_def++; else n_amb++;
      if (must_a && !na) FATAL("lost", "handle %ld (%zu bytes) %s is not in the trace (%d free events)", h, inf[h].req, a1 < s0 ? "live at the start" : a0 > s1 ? "allocated inside the session" : "allocated while the session started", nf);
      if (must_f && !nf) FATAL("lost", "handle %ld: its free inside the session is not in the trace", h); if (must_f) n_match++; else if (must_a) n_cens++;
      if (nf && !na && f0 > s1) FATAL("unpaired", "handle %ld: free without allocation though the session had started", h); }
    dist.add(mix(id * 64 + t) ^ hi);
  }
}
// ---------- exact mode
static std::atomic<int> cpu_of[2]; static bool two_cpus;  // the two operating threads, and whether each is pinned to a CPU of its own
static void pin(int c) { cpu_set_t s, h; sched_getaffinity(0, sizeof h, &h); CPU_ZERO(&s); CPU_SET(c, &s); if (sched_setaffinity(0, sizeof s, &s)) two_cpus = false; }
struct QBlk { Desc d; int thr; uint64_t apath; int adepth; };
struct QEv { Desc d; int athr; bool freed; int fthr; FreeEv f; uint64_t apath; int adepth; };
static Arr<QBlk> qb(400); static Arr<QEv> qe(40000); 
static void do_q_alloc(QBlk& b, int f, size_t s, size_t al, int hot, int depth, uint64_t path) { auto go = [&] { leaf_alloc(b.d, f, s, al, hot); }; nest(depth, path, go); b.d.usable = malloc_usable_size(b.d.b.p); }
static void do_q_free(QBlk& b, uint64_t rr, int depth, uint64_t path, FreeEv& e) { auto go = [&] { leaf_free(b.d.b, rr, e); }; nest(depth, path, go); }
static struct { std::atomic<int> go{0}, fin{0}; QBlk* b; int op, f, hot, depth; size_t s, al; uint64_t path, rr; FreeEv ev; } req;
static void helper() { cpu_of[1] = tid(); pin(1); free(malloc(8)); for (int i = 0; i < 40; i++) ::operator delete(::operator new(1 << 20)); int n = 0; for (;;) { while (req.go == n) sched_yield(); n++; if (req.op == 2) { req.fin = n; return; } if (req.op == 0) do_q_alloc(*req.b, req.f, req.s, req.al, req.hot, req.depth, req.path); else do_q_free(*req.b, req.rr, req.depth, req.path, req.ev); req.fin = n; } }
static void ask() { int n = ++req.go; while (req.fin != n) sched_yield(); }
static void exact(uint64_t end) {
  Rng r(seed() * 71); two_cpus = true; pin(0); std::thread hp(helper); while (!cpu_of[1]) sched_yield(); int nlive = 0;
  while (now_ns() < end && max_handle < 8000000) {
    struct S { Token tok; char mode; int from; int64_t w0, w1; Arr<QBlk>* seeded; int nseed; } ses[3]; int open = 0; static Arr<QBlk> seedb[3] = {Arr<QBlk>(400), Arr<QBlk>(400), Arr<QBlk>(400)}; bool on[3] = {}; int ne = 0; int steps = 100 + r.below(600), started = 0; long budget = 39000;
    struct Cfg { int fn; size_t s; int depth; uint64_t path; } cfg[10]; for (auto& c : cfg) c = {(int)r.below(F_COUNT), rand_size(r, 1 << 18), (int)r.below(4), r.below(4096)}; for (auto& c : cfg) if (zeroes(c.fn)) c.s &= 0xfff;
    struct Idx { int ev; }; static Arr<int> evof(400);
    for (int i = 0; i < 400; i++) evof[i] = -1;
    auto judge = [&](int k) {
      S& x = ses[k]; int64_t e0 = absl::ToUnixNanos(absl::Now()); Profile p = std::move(x.tok).Stop(); int64_t e1 = absl::ToUnixNanos(absl::Now()); on[k] = false; open--; n_ses++;
      { Profile again = std::move(x.tok).Stop(); bool any = false; again.Iterate([&](const Profile::Sample&) { any = true; }); if (any) FATAL("again", "stopping twice returns records twice"); }
      // what this session should hold: blocks live at the start, allocations since, and their frees
      struct Exp { int i; bool seeded; const Desc* d; int athr; bool freed; int fthr; const FreeEv* f; int got_a, got_f; double cnt; }; static Arr<Exp> ex(41000); int n = 0;
      for (int i = 0; i < x.nseed; i++) { QBlk& b = seedb[k][i]; Exp e{}; e.seeded = true; e.d = &b.d; e.athr = b.thr; for (int j = x.from; j < ne; j++) if (qe[j].freed && qe[j].adepth < 0 && qe[j].d.handle == b.d.handle) { e.freed = true; e.fthr = qe[j].fthr; e.f = &qe[j].f; } ex[n++] = e; }
      for (int j = x.from; j < ne; j++) if (qe[j].adepth >= 0) { Exp e{}; e.d = &qe[j].d; e.athr = qe[j].athr; for (int q = j + 1; q < ne; q++) if (qe[q].adepth < 0 && qe[q].d.handle == qe[j].d.handle) { e.freed = true; e.fthr = qe[q].fthr; e.f = &qe[q].f; break; } ex[n++] = e; }
      static Arr<int> byh(8100000); for (int i = 0; i < n; i++) byh[ex[i].d->handle] = i + 1;
      if (x.mode != 'L') {
        p.Iterate([&](const Profile::Sample& s) { n_rec++; evals++; long h = (long)s.alloc_handle; int i = h < 8100000 ? byh[h] - 1 : -1; if (i < 0) return; Exp& e = ex[i]; bool isf = x.mode == 'E' && s.count < 0;
          if (!isf) { e.got_a++; judge_fields("fields", s, *e.d); if (!stack_ends_with(s.stack, s.depth, e.d->fr)) FATAL("stack", "%s(%zu): allocating stack differs", fn_name(e.d->b.fn), e.d->b.req); int64_t t = absl::ToUnixNanos(s.allocation_time); if (t < e.d->w0 || t > e.d->w1) FATAL("time", "allocation time outside the call"); }
          else { e.got_f++; if (!e.freed) FATAL("phantom", "free event of a live block"); if (!stack_ends_with(s.stack, s.depth, e.f->fr)) FATAL("stack", "%s(%zu): freeing stack differs", fn_name(e.d->b.fn), e.d->b.req); }
          if (x.mode == 'E' && !(isf == false && e.seeded)) { int want = (isf ? e.fthr : e.athr); if (!s.thread_id || *s.thread_id != want) FATAL("thread", "event of thread %d reported for %d", want, s.thread_id.value_or(-1)); } });
        for (int i = 0; i < n; i++) { Exp& e = ex[i]; evals++; int wa = x.mode == 'A' ? !e.seeded : 1, wf = x.mode == 'E' && e.freed; if (e.got_a != wa || e.got_f != wf) FATAL("events", "%c session: %s(%zu), %s, %s: %d allocation records (expected %d), %d free records (expected %d)", x.mode, fn_name(e.d->b.fn), e.d->b.req, e.seeded ? "live at the start" : "allocated in the session", e.freed ? "freed in the session" : "live at the stop", e.got_a, wa, e.got_f, wf); }
      } else {
        // every record is explained by expected pairs with the same description; sums per description agree
        static Arr<double> used(41000); for (int i = 0; i < n; i++) used[i] = 0; const Profile::Sample* first = nullptr; static Profile::Sample fs; int cls_of[1]; (void)cls_of; (void)first; bool second = false; static Arr<int> rep(41000); 
        // classes: same description, alloc frames, censored/free frames, thread relation
        static Arr<int> cls(41000); int nc = 0; static Arr<int> head(41000); auto same = [&](int a, int c) { const Desc &A = *ex[a].d, &B = *ex[c].d; auto ty = [](const Desc& d) { return fam(d.b.fn) == kC ? 0 : fam(d.b.fn) == kCAligned ? 1 : 2; }; auto ho = [](const Desc& d) { return d.b.hot < 0 ? 255 : d.b.hot; }; auto tk = [](const Desc& d) { int t = token_of(d.b.fn); return t < 0 ? 10 : t; };
          if (ty(A) != ty(B) || requested_by(A.b) != requested_by(B.b) || A.usable != B.usable || ho(A) != ho(B) || tk(A) != tk(B) || is_sr(A.b.fn) != is_sr(B.b.fn) || is_aligned_fn(A.b.fn) != is_aligned_fn(B.b.fn) || A.b.align != B.b.align || A.fr.n != B.fr.n || ex[a].freed != ex[c].freed) return false; if (memcmp(A.fr.f + 1, B.fr.f + 1, (A.fr.n - 1) * 8)) return false; if (!ex[a].freed) return true; const Frames &F = ex[a].f->fr, &G = ex[c].f->fr; return F.n == G.n && !memcmp(F.f + 1, G.f + 1, (F.n - 1) * 8); };
        static Arr<double> want(41000), got(41000), wtm(41000), gtm(41000); static Arr<uint8_t> hs(41000); static Arr<double> mlo(41000), mhi(41000), xlo(41000), xhi(41000); static Arr<double> slo(41000), shi(41000), avs(41000); static Arr<int64_t> gmn(41000), gmx(41000), gsd(41000); static Arr<double> sq(41000), whw(41000); static Arr<int> nrec(41000);
        for (int i = 0; i < n; i++) { int c = -1; for (int j = 0; j < nc && c < 0; j++) if (same(i, head[j])) c = j; if (c < 0) { c = nc++; head[c] = i; want[c] = got[c] = wtm[c] = gtm[c] = hs[c] = 0; mlo[c] = mhi[c] = 1e30; xlo[c] = xhi[c] = 0; slo[c] = shi[c] = avs[c] = sq[c] = whw[c] = 0; nrec[c] = 0; gmn[c] = INT64_MAX; gmx[c] = 0; } cls[i] = c;
          double lo = ex[i].freed ? (double)(ex[i].f->w0 - ex[i].d->w1) : (double)(e0 - ex[i].d->w1), hi = ex[i].freed ? (double)(ex[i].f->w1 - ex[i].d->w0) : (double)(e1 - ex[i].d->w0); want[c]++; hs[c] |= ex[i].seeded; if (ex[i].freed && ex[i].athr == ex[i].fthr) wtm[c]++; mlo[c] = std::min(mlo[c], lo); mhi[c] = std::min(mhi[c], hi); xlo[c] = std::max(xlo[c], lo); xhi[c] = std::max(xhi[c], hi); slo[c] += lo; shi[c] += hi; double md = (lo + hi) / 2; sq[c] += md * md; whw[c] = std::max(whw[c], (hi - lo) / 2); }
        bool pend = false; Profile::Sample* fp = &fs;
        p.Iterate([&](const Profile::Sample& s) { n_rec++; evals++; const Profile::Sample* al = nullptr; const Profile::Sample* fr = nullptr;
          if (!pend) { if (!s.is_censored) { *fp = s; pend = true; return; } al = &s; } else { pend = false; al = fp; fr = &s; if (s.count != -fp->count || s.profile_id != fp->profile_id) FATAL("pair", "records of a pair disagree"); }
          int c = -1; bool known = false; for (int j = 0; j < nc; j++) { const Exp& e = ex[head[j]]; if (requested_by(e.d->b) != al->requested_size) continue; if (!stack_ends_with(al->stack, al->depth, e.d->fr)) continue; known = true; if (e.freed != (fr != nullptr)) continue; if (fr && !stack_ends_with(fr->stack, fr->depth, e.f->fr)) continue;
            auto wt = fam(e.d->b.fn) == kC ? AllocationType::Malloc : fam(e.d->b.fn) == kCAligned ? AllocationType::AlignedMalloc : AllocationType::New; if (al->type != wt || al->requested_size_returning != is_sr(e.d->b.fn)) continue; if ((int)al->access_hint != (e.d->b.hot < 0 ? 255 : e.d->b.hot)) continue; int tk = token_of(e.d->b.fn); if ((int)al->token_id != (tk < 0 ? 10 : tk)) continue; if (fam(e.d->b.fn) != kC && is_aligned_fn(e.d->b.fn) != al->requested_alignment.has_value()) continue; if (is_aligned_fn(e.d->b.fn) && al->requested_alignment && (size_t)*al->requested_alignment != e.d->b.align) continue; c = j; break; }
          if (c < 0) { if (known) FATAL("unexplained", "lifetime record of %zu bytes (%s, count %ld): no such pair of events in the session", al->requested_size, fr ? "freed" : "live at the stop", (long)al->count); return; }
          judge_fields("fields", *al, *ex[head[c]].d); if (fr) { bool tmt = al->allocator_deallocator_thread_matched.value_or(false); if (tmt) gtm[c] += al->count; if (two_cpus && al->allocator_deallocator_physical_cpu_matched.value_or(tmt) != tmt) FATAL("cpu", "threads pinned to different CPUs: physical_cpu_matched %d, thread_matched %d", !tmt, tmt); }
          got[c] += al->count; int64_t mn = absl::ToInt64Nanoseconds(al->min_lifetime), mx = absl::ToInt64Nanoseconds(al->max_lifetime), av = absl::ToInt64Nanoseconds(al->avg_lifetime); gmn[c] = std::min(gmn[c], mn); gmx[c] = std::max(gmx[c], mx); avs[c] += (double)al->count * av; nrec[c]++; gsd[c] = absl::ToInt64Nanoseconds(al->stddev_lifetime); if (mn > av || av > mx) FATAL("lifetime", "min %ld avg %ld max %ld", (long)mn, (long)av, (long)mx); });
        if (pend) FATAL("pair", "last record has no partner");
        for (int c = 0; c < nc; c++) { const Exp& e = ex[head[c]]; evals++; dist.add(e.d->b.fn * 977ull + e.d->usable * 5 + e.freed * 2 + (e.athr == e.fthr)); if (e.freed) n_match += want[c]; else n_cens += want[c];
          if (got[c] != want[c]) FATAL("pairs", "lifetime session: %s(%zu), %s by %s thread: %.0f reported, %.0f happened", fn_name(e.d->b.fn), e.d->b.req, e.freed ? "freed" : "live at the stop, allocated", e.athr == e.fthr ? "its own" : "another", got[c], want[c]);
          // the thread that allocated a block before the session is not known to it
          if (!hs[c] && gtm[c] != wtm[c]) FATAL("threads", "lifetime session: %s(%zu): %.0f of %.0f pairs reported on one thread, really %.0f", fn_name(e.d->b.fn), e.d->b.req, gtm[c], got[c], wtm[c]);
          if (gmn[c] < bucket(mlo[c]) || gmn[c] > bucket(mhi[c]) || gmx[c] < bucket(xlo[c]) || gmx[c] > bucket(xhi[c])) FATAL("lifetime", "%s(%zu): shortest %ld ns longest %ld ns, should be within %.0f..%.0f and %.0f..%.0f", fn_name(e.d->b.fn), e.d->b.req, (long)gmn[c], (long)gmx[c], mlo[c], mhi[c], xlo[c], xhi[c]);
          double mean_hi = shi[c] / want[c]; if (avs[c] / got[c] > mean_hi * 1.0001 + 2) FATAL("lifetime", "%s(%zu): average %.0f ns, really at most %.0f", fn_name(e.d->b.fn), e.d->b.req, avs[c] / got[c], mean_hi); if (nrec[c] == 1) {  // one record holds the whole class: its deviation is that of the lifetimes, up to the length of the calls
            double mm = (slo[c] + shi[c]) / 2 / want[c], sd = sqrt(std::max(0.0, sq[c] / want[c] - mm * mm)), tol = whw[c] * 1.001 + 300 + mm * 1e-5; n_dev++; if (want[c] > 1) n_dev2++;
            double al = slo[c] / want[c], ah = shi[c] / want[c], ga = avs[c] / got[c]; if (ga < (double)bucket(al - 1 - al * 1e-6) || ga > (double)bucket(ah + 1 + ah * 1e-6)) FATAL("mean", "%s(%zu): mean of %.0f lifetimes reported as %.0f ns, really within %.0f..%.0f", fn_name(e.d->b.fn), e.d->b.req, want[c], ga, al, ah);
            if (gsd[c] < bucket(std::max(1.0, sd - tol)) || gsd[c] > bucket(sd + tol)) FATAL("deviation", "%s(%zu): standard deviation of %.0f lifetimes reported as %ld ns, really %.0f +- %.0f", fn_name(e.d->b.fn), e.d->b.req, want[c], (long)gsd[c], sd, tol); }
          if (avs[c] / got[c] < slo[c] / want[c] / 10.001 - 1e6 ) FATAL("lifetime", "%s(%zu): average %.0f ns, really at least %.0f", fn_name(e.d->b.fn), e.d->b.req, avs[c] / got[c], slo[c] / want[c]); }
      }
      for (int i = 0; i < n; i++) byh[ex[i].d->handle] = 0;
    };
    for (int st = 0; st < steps && ne < budget; st++) {
      if (r.chance(1, 30)) { int k = r.below(3); if (on[k]) judge(k); else { S& x = ses[k]; x.mode = "EAL"[r.below(3)]; x.from = ne; x.nseed = 0; for (int i = 0; i < 400; i++) if (qb[i].d.b.p) seedb[k][x.nseed++] = qb[i]; x.w0 = absl::ToUnixNanos(absl::Now()); x.tok = x.mode == 'E' ? MallocExtension::StartEventTracing() : x.mode == 'A' ? MallocExtension::StartAllocationProfiling() : MallocExtension::StartLifetimeProfiling(); x.w1 = absl::ToUnixNanos(absl::Now()); on[k] = true; open++; } continue; }
      if (r.chance(1, 50)) { uint64_t u = now_ns() + r.below(3000000); while (now_ns() < u) {} }
      int i = r.below(400); QBlk& b = qb[i]; bool other = r.chance(1, 3);
      if (!b.d.b.p) { auto& c = cfg[r.below(10)]; int hot = is_hc(c.fn) ? 100 : -1; b.thr = 0; b.apath = c.path; b.adepth = c.depth;
        if (other) { req.b = &b; req.op = 0; req.f = c.fn; req.s = c.s; req.al = 32; req.hot = hot; req.depth = c.depth; req.path = c.path; ask(); b.thr = cpu_of[1]; } else { do_q_alloc(b, c.fn, c.s, 32, hot, c.depth, c.path); b.thr = cpu_of[0]; }
        if (!b.d.b.p || b.d.handle < 0) FATAL("unsampled", "%s(%zu) failed or not sampled", fn_name(c.fn), c.s); QEv& e = qe[ne++]; e.d = b.d; e.athr = b.thr; e.freed = false; e.adepth = 1; }
      else { QEv& e = qe[ne++]; e.d = b.d; e.athr = b.thr; e.freed = true; e.adepth = -1; int dp = r.below(3); uint64_t pt = r.below(16), rr = r.next(); e.fthr = other ? cpu_of[1] : cpu_of[0];
        if (other) { req.b = &b; req.op = 1; req.depth = dp; req.path = pt; req.rr = rr; ask(); e.f = req.ev; } else do_q_free(b, rr, dp, pt, e.f); b.d.b.p = nullptr; }
    }
    for (int k = 0; k < 3; k++) if (on[k]) { if (r.chance(1, 4)) { ses[k].tok = Token(); on[k] = false; } else judge(k); }
  }
  req.op = 2; ask(); hp.join();
}
int main(int argc, char** argv) {
  const char* m = argv[1]; bool percpu = strchr(m, 'C'); free(malloc(8)); if (percpu && !MallocExtension::PerCpuCachesActive()) return inconclusive("per-CPU caches not active");
  uint64_t end = now_ns() + (thorough() ? 150ull : 4ull) * 1000000000;
  if (!MallocHook::AddSampledNewHook(prof_on_new) || !MallocHook::AddSampledDeleteHook(prof_on_del)) FATAL("hook", "refused");
  MallocExtension::SetProfileSamplingInterval(1); MallocExtension::SetGuardedSamplingInterval(-1); for (int i = 0; i < 100; i++) ::operator delete(::operator new(1 << 20));
  tcmalloc_internal::Parameters::set_event_trace_memory_limit(512 << 20);
  if (m[0] == 'Q') {
    cpu_of[0] = tid(); tcmalloc_internal::Parameters::set_event_trace_memory_limit(32 << 20); exact(end);
  } else if (m[0] == 'U') {
    // a limit on the memory of a trace cuts it short but never yields wrong records
    Rng r(seed()); while (now_ns() < end) { size_t lim = r.below(1 << 20); tcmalloc_internal::Parameters::set_event_trace_memory_limit(lim); Token t = MallocExtension::StartEventTracing(); int n = 1 + r.below(2000); for (int i = 0; i < n; i++) ::operator delete(::operator new(1 + r.below(2000)));
      Profile p = std::move(t).Stop(); n_ses++; size_t c = 0, a = 0, f = 0; p.Iterate([&](const Profile::Sample& s) { c++; if (s.count == 1) a++; else if (s.count == -1) f++; else FATAL("count", "count %ld", (long)s.count); }); evals++; n_rec += c; dist.add(c);
      if (c * 500 > lim + 1000) FATAL("limit", "%zu events kept with %zu bytes allowed", c, lim); if (lim > 3000 && c < std::min<size_t>(lim / 4000, n)) FATAL("limit", "only %zu events kept with %zu bytes allowed and %d blocks", c, lim, n); if (f > a) FATAL("pairs", "%zu allocations and %zu frees kept", a, f); }
  } else {
    std::vector<std::thread> th; for (int t = 0; t < W; t++) th.emplace_back(worker2, t);
    th.emplace_back([&] { session(1, m[0]); }); th.emplace_back([&] { session(2, m[0]); }); th.emplace_back([&] { session(3, m[1] && strchr("EAL", m[1]) ? m[1] : m[0]); });
    while (now_ns() < end && !stop) usleep(10000); stop = true; for (auto& x : th) x.join();
  }
  metric("evals", evals); metric("distinct", dist.n + n_ses); metric("sessions", n_ses); metric("records", n_rec); metric("definite", n_def); metric("ambiguous", n_amb); metric("pairs", n_match); metric("live_at_stop", n_cens); metric("deviations", n_dev); metric("deviations_of_several", n_dev2);
  say("SAMPLE mode=%s sessions=%lld records=%lld definite=%lld ambiguous=%lld pairs=%lld censored=%lld handles=%ld", m, (long long)n_ses, (long long)n_rec, (long long)n_def, (long long)n_amb, (long long)n_match, (long long)n_cens, (long)max_handle);
  return done();
}
