// P35: admission filters, recorders, counters. Modes: F plain filter, D decaying filter, T both from many threads, G guarded admission, R recorder, C counters.
#include <algorithm>
#include <atomic>
#include <memory>
#include <mutex>
#include <cmath>
#include <deque>
#include <thread>
#include <vector>
#include "vt.h"
#include "tcmalloc/guarded_page_allocator.h"
#include "tcmalloc/internal/atomic_stats_counter.h"
#include "tcmalloc/internal/mock_metadata_allocator.h"
#include "tcmalloc/internal/sampled_allocation_recorder.h"
#include "tcmalloc/internal/stacktrace_filter.h"
#include "tcmalloc/malloc_extension.h"
#include "tcmalloc/parameters.h"
#include "tcmalloc/static_vars.h"
using namespace vt;
using namespace tcmalloc;
using namespace tcmalloc::tcmalloc_internal;
using L = tcmalloc_internal::Length;
static Distinct dist; static Rlx<long long> evals{0}, n_add{0}, n_rem{0}, n_false{0}, n_absent{0}, n_reg{0}, n_seen{0}, n_admit{0}, n_filt{0}, n_lim{0};
struct Stack { void* p[64]; size_t n; absl::Span<void* const> span() const { return {p, n}; } };
static Stack stack(Rng& r, uint64_t id) { Stack s; if (r.chance(1, 3)) { s.n = 64; for (int i = 0; i < 64; i++) s.p[i] = (void*)(0x400000 + i * 16l); s.p[r.chance(1, 2) ? 63 : r.below(64)] = (void*)(0x7f0000000000ull + id * 16); return s; } s.n = r.chance(1, 8) ? 0 : r.chance(1, 3) ? 1 + r.below(3) : 1 + r.below(64); uint64_t base = 0x400000 + (r.chance(1, 2) ? 0 : r.next() >> 20); for (size_t i = 0; i < s.n; i++) s.p[i] = (void*)(base + (r.chance(1, 2) ? i : r.below(1 << 20))); if (!s.n) s.n = 1; s.p[s.n - 1] = (void*)(0x7f0000000000ull + id * 16); return s; } // ids make stacks distinct
// Expected share of absent stacks reported as present: the documented formula (before its approximation by an exponential), with the number of distinct stacks present. Counted over the whole run with stacks never seen before.
template <size_t S, size_t H> static double rate(size_t present) { return pow(1 - pow(1 - 1. / S, (double)H * present), (double)H); }
struct Fp { double want = 0, var = 0; long got = 0, n = 0; void add(double p, bool hit) { n_absent++; n_false += hit; want += p; var += p * (1 - p); got += hit; n++; } void judge(const char* d) { if (got > want * 1.3 + 8 * sqrt(var) + 50) FATAL("falsepos", "%s: %ld of %ld absent stacks reported present, the documented rate gives %.0f", d, got, n, want); } };
template <size_t S, size_t H> static void plain(Rng& r) { auto f = std::make_unique<StackTraceFilter<S, H>>(); size_t N = 1 + r.below(r.chance(1, 4) ? 2 * S : S / (2 * H) + 2); std::vector<Stack> st; std::vector<long> out(N); for (size_t i = 0; i < N; i++) st.push_back(stack(r, i + 1)); static Fp fp; char d[120]; snprintf(d, 120, "%zu slots, %zu hashes, %zu stacks", S, H, N); long distinct = 0, total = 0;
  auto look = [&](size_t i) { evals++; bool c = f->Contains(st[i].span()); if (out[i] > 0 && !c) FATAL("lost", "%s: a stack with %ld insertions outstanding is not contained", d, out[i]); if (out[i] == 0) { if (distinct == 0) { if (c) FATAL("stuck", "%s: nothing is outstanding, a stack is reported present", d); } } };
  int ops = 200 + r.below(1000); for (int o = 0; o < ops; o++) { size_t i = r.below(N); long v; if (r.chance(1, 2) || out[i] == 0) v = 1 + (r.chance(1, 3) ? r.below(20) : 0); else v = -(long)(r.chance(1, 2) ? out[i] : 1 + r.below(out[i])); if (total + v > 60000) v = -out[i]; if (v) { f->Add(st[i].span(), (int)v); (v > 0 ? n_add : n_rem)++; if (!out[i] && v) distinct++; out[i] += v; total += v; if (!out[i]) distinct--; } look(i); look(r.below(N)); Stack a = stack(r, 1000000 + o); if (distinct) fp.add(rate<S, H>(distinct), f->Contains(a.span())); else if (f->Contains(a.span())) FATAL("stuck", "%s: an empty filter contains a stack", d); }
  for (size_t i = 0; i < N; i++) look(i); fp.judge(d); for (size_t i = 0; i < N; i++) if (out[i]) f->Add(st[i].span(), (int)-out[i]), out[i] = 0; distinct = 0; for (size_t i = 0; i < N; i++) look(i); dist.add(S * 131 + H * 7 + N * 1009); }
template <size_t S, size_t H, size_t K> static void decaying(Rng& r) { auto f = std::make_unique<DecayingStackTraceFilter<S, H, K>>(); size_t N = 1 + r.below(40); std::vector<Stack> st; for (size_t i = 0; i < N; i++) st.push_back(stack(r, i + 1)); std::vector<long> out(N); std::deque<long> ring; ring.resize(K, -1); static Fp fp; char d[120]; snprintf(d, 120, "%zu slots, %zu hashes, %zu steps, %zu stacks", S, H, K, N);
  std::vector<long> inring(N); auto step = [&](long who) { if (ring.front() >= 0) inring[ring.front()]--; ring.pop_front(); ring.push_back(who); if (who >= 0) inring[who]++; }; auto present = [&] { long n = 0; for (size_t i = 0; i < N; i++) n += out[i] + inring[i] > 0; return n; };
  auto look = [&](size_t i) { evals++; bool c = f->Contains(st[i].span()); long want = out[i] + inring[i]; if (want > 0 && !c) FATAL("lost", "%s: a stack with %ld outstanding insertions and %ld not yet decayed is not contained", d, out[i], inring[i]); if (want == 0) { long p = present(); if (!p) { if (c) FATAL("stuck", "%s: everything is removed and decayed, a stack is reported present", d); } } };
  int ops = 100 + r.below(600); for (int o = 0; o < ops; o++) { size_t i = r.below(N); int w = r.below(10); if (w < 5) { int v = r.chance(1, 6) ? 0 : 1 + r.below(r.chance(1, 4) ? 10 : 1); f->Add(st[i].span(), v); step(i); out[i] += v; n_add++; } else if (w < 8) { if (out[i]) { int v = r.chance(1, 2) ? (int)out[i] : 1; f->Add(st[i].span(), -v); out[i] -= v; n_rem++; } } else if (w == 8) { f->Decay(); step(-1); } else if (r.chance(1, 4)) { f->DecayAll(); for (size_t k = 0; k < K; k++) step(-1); } look(i); look(r.below(N)); { Stack a = stack(r, 1000000 + o); long p = present(); bool c = f->Contains(a.span()); if (p) fp.add(rate<S, H>(p), c); else if (c) FATAL("stuck", "%s: an empty filter contains a stack", d); } if (r.chance(1, 8)) { for (size_t k = 0; k < N; k++) look(k); } }
  for (size_t i = 0; i < N; i++) if (out[i]) f->Add(st[i].span(), (int)-out[i]), out[i] = 0; for (size_t i = 0; i < N; i++) look(i); for (size_t k = 0; k < K; k++) { f->Decay(); step(-1); look(r.below(N)); } for (size_t i = 0; i < N; i++) look(i); fp.judge(d); dist.add(S * 131 + H * 7 + K * 17 + N * 1009); }
static void threads(Rng& r) { // own stacks must be present whenever they have insertions outstanding; nothing may stay behind
  constexpr size_t S = 512; int T = 2 + r.below(7); auto f = std::make_unique<StackTraceFilter<S, 2>>(); auto g = std::make_unique<DecayingStackTraceFilter<S, 2, 16>>(); auto h = std::make_unique<StackTraceFilter<1, 1>>(); std::vector<Stack> common; for (int i = 0; i < 4; i++) common.push_back(stack(r, 90 + i)); std::atomic<int> go{0}; std::atomic<long> lost{0}; std::vector<std::thread> v; uint64_t base = r.next();
  for (int t = 0; t < T; t++) v.emplace_back([&, t] { Rng q(base + t); std::vector<Stack> mine; for (int i = 0; i < 8; i++) mine.push_back(stack(q, 1000 + t * 100 + i)); long out[12] = {}, gout[12] = {}; go++; while (go < T) {} for (int o = 0; o < 4000; o++) { int i = q.below(12); Stack& s = i < 8 ? mine[i] : common[i - 8]; int w = q.below(6); if (w < 2) { f->Add(s.span(), 1); h->Add(s.span(), 1); out[i]++; n_add++; } else if (w == 2 && out[i]) { f->Add(s.span(), -1); h->Add(s.span(), -1); out[i]--; n_rem++; } else if (w < 5 && gout[i] < 3) { g->Add(s.span(), 1); gout[i]++; } else if (gout[i]) { g->Add(s.span(), -1); gout[i]--; } if (q.chance(1, 16)) g->Decay(); if (out[i] && (!f->Contains(s.span()) || !h->Contains(s.span()))) lost++; if (gout[i] && !g->Contains(s.span())) lost += 1 << 20; evals += 3; }
      for (int i = 0; i < 12; i++) { Stack& s = i < 8 ? mine[i] : common[i - 8]; if (out[i]) f->Add(s.span(), (int)-out[i]), h->Add(s.span(), (int)-out[i]); if (gout[i]) g->Add(s.span(), (int)-gout[i]); } });
  for (auto& t : v) t.join(); if (lost) FATAL("lost", "%d threads: %ld looks at a stack with outstanding insertions did not find it", T, (long)lost); g->DecayAll(); Rng q(base); for (int i = 0; i < 200; i++) { Stack s = i < 4 ? common[i] : stack(q, i); if (f->Contains(s.span()) || g->Contains(s.span()) || h->Contains(s.span())) FATAL("stuck", "%d threads: everything is removed and decayed, a stack is reported present", T); evals++; } dist.add(base); }
// ---- which sampled allocations are guarded
static void guarded(Rng& r) { auto* g = new (mmap(nullptr, sizeof(GuardedPageAllocator), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0)) GuardedPageAllocator(); size_t max = r.chance(1, 2) ? 16 + r.below(48) : 64 + r.below(100), total = max + 8 + r.below(max); { PageHeapSpinLockHolder l; g->Init(max, total); g->AllowAllocations(); }
  using GS = Profile::Sample::GuardedStatus; auto set = [](int64_t gi, int64_t pi) { MallocExtension::SetGuardedSamplingInterval(gi); MallocExtension::SetProfileSamplingInterval(pi); }; int64_t gi = 1 + r.below(1 << 20), pi = 1 + r.below(1 << 21); auto& cnt = tc_globals.total_sampled_count_; long sampled = 0; auto count = [&](long n) { cnt.Add(n - cnt.value()); sampled = n; }; count(1); set(gi, pi);
  struct Lv { void* p; long s; }; std::vector<Lv> live; std::vector<StackTrace> st; std::vector<long> out, in; auto mk = [&](uint64_t id) { StackTrace t = {}; t.depth = 1 + r.below(30); for (size_t i = 0; i < t.depth; i++) t.stack[i] = (void*)(0x1000 + (r.next() & 0xffffff)); t.stack[0] = (void*)(0x10000000 + id); return t; }; std::deque<long> ring(32, -1); long num = 0, filt_free = 0; uint64_t next = 1; Fp fp; Fp low;
  auto step = [&](long w) { if (ring.front() >= 0) in[ring.front()]--; ring.pop_front(); ring.push_back(w); if (w >= 0) in[w]++; }; char d[160];
  for (int o = 0; o < 600; o++) { snprintf(d, 160, "%zu slots of %zu, guarded interval %ld, sampling interval %ld, %ld sampled, %ld guarded, %zu live", max, total, (long)gi, (long)pi, sampled, num, live.size());
    if (r.chance(1, 30)) { gi = r.chance(1, 6) ? 0 : r.chance(1, 6) ? -1 - (int64_t)r.below(3) : r.chance(1, 5) ? (int64_t)(INT64_MAX >> r.below(20)) : 1 + (int64_t)r.below(1 << 22); pi = r.chance(1, 5) ? (int64_t)(INT64_MAX >> r.below(30)) : 1 + (int64_t)r.below(1 << 22); set(gi, pi); continue; }
    if (r.chance(1, 3)) count(r.chance(1, 5) ? num + (long)r.below(1000000) : num + 1 + (long)(num * r.below(3)));
    if (!live.empty() && r.chance(live.size() > max * 3 / 4 ? 3 : 1, 5)) { size_t i = r.below(live.size()); g->Deallocate(live[i].p); out[live[i].s]--; live[i] = live.back(); live.pop_back(); n_rem++; continue; }
    long s; if (!st.empty() && r.chance(1, 2)) s = r.below(st.size()); else { s = st.size(); st.push_back(mk(next++)); out.push_back(0); in.push_back(0); } bool full = live.size() >= max;
    long before = num; bool two = r.chance(1, 40); auto a = g->TrySample(1 + r.below(kPageSize), std::align_val_t{1}, L(two ? 2 : 1), st[s]); evals++; dist.add(live.size() * 64 + (int)a.status * 8 + (out[s] + in[s] > 0));
    auto bad = [&](const char* why) { FATAL("admit", "%s: status %d for a stack with %ld live and %ld recent: %s", d, (int)a.status, out[s], in[s], why); };
    if ((a.alloc != nullptr) != (a.status == GS::Guarded)) bad("pointer and status disagree"); if (two) { if (a.status != GS::LargerThanOnePage) bad("two pages"); continue; } if (gi < 0) { if (a.status != GS::Disabled) bad("disabled"); continue; }
    if (gi > 0 && before > 0) { __int128 ratio = (__int128)(sampled * 10) / before; __int128 lhs = (__int128)gi * 10, rhs = ratio * pi, df = lhs > rhs ? lhs - rhs : rhs - lhs; bool close = lhs > ((__int128)1 << 50) && df < (lhs >> 40), lim = close ? a.status == GS::RateLimited : lhs > rhs; if (lim != (a.status == GS::RateLimited)) bad(lim ? "the guarded rate is exceeded" : "the guarded rate is not reached"); if (lim) { n_lim++; continue; }
      long pres = 0; for (size_t k = 0; k < st.size(); k++) pres += out[k] + in[k] > 0; bool cov = out[s] + in[s] > 0; size_t pct = live.size() * 100 / max;
      if (cov && pct >= 50) { if (a.status != GS::Filtered) bad("a stack already covered is admitted though half of the pool is used"); step(-1); n_filt++; continue; }
      if (!cov) { bool f = a.status == GS::Filtered; fp.add(rate<1536, 2>(pres), f); if (f) { step(-1); filt_free++; continue; } } else { low.add((pct + 1) / 50., a.status == GS::Filtered); if (a.status == GS::Filtered) { step(-1); n_filt++; continue; } } }
    if (full) { if (a.status != GS::NoAvailableSlots) bad("all slots are used"); continue; } if (a.status != GS::Guarded) bad("not guarded though nothing forbids it"); num++; n_admit++; step(s); out[s]++; live.push_back({a.alloc, s}); }
  if (fp.n > 100 && fp.got > fp.want * 1.2 + 8 * sqrt(fp.var) + 4) FATAL("falsepos", "%ld of %ld stacks not covered were filtered", fp.got, fp.n); if (low.n > 30 && fabs(low.got - low.want) > 7 * sqrt(low.var) + 3) FATAL("share", "%ld of %ld covered stacks filtered below half use, the documented share gives %.1f", low.got, low.n, low.want);
  for (auto& x : live) g->Deallocate(x.p); g->Destroy(); munmap((void*)((uintptr_t)g & ~4095ul), (sizeof(GuardedPageAllocator) + 4095) & ~4095ul); }
// ---- recorder: every registered element is visited until it is unregistered, and none after
struct Info : Sample<Info> { Info(uint64_t k, int t) { PrepareForSampling(k, t); } Info() = default; void PrepareForSampling(uint64_t k, int t) { key = k; key2 = ~k; thread = t; } uint64_t key = 0, key2 = 0; int thread = 0; };
struct Alloc { std::vector<void*> v; std::mutex m; std::atomic<long> made{0}, deleted{0}; template <class... A> Info* New(A&&... a) { made++; return new Info(std::forward<A>(a)...); } void Delete(Info* i) { deleted++; delete i; } };
static std::atomic<long> disposed; static std::atomic<uint64_t> disposed_sum;
static void recorder(Rng& r) { int T = 1 + r.below(8); Alloc al; long made; uint64_t base = r.next(); { SampleRecorder<Info, Alloc> rec(al); bool cb = r.chance(2, 3); disposed = 0; disposed_sum = 0; if (cb) { if (rec.SetDisposeCallback([](const Info& i) { disposed++; disposed_sum += i.key; }) != nullptr) FATAL("dispose", "a callback was set before"); }
    constexpr uint64_t kMax = 1 << 16; Arr<std::atomic<uint8_t>> state(T * kMax); // 0 not registered, 1 registered, 2 being unregistered, 3 gone
    std::atomic<int> go{0}; std::atomic<int> left{T}; std::atomic<uint64_t> gone_sum{0}; std::atomic<long> gone{0}, high{0}, now{0}; std::vector<std::thread> v;
    for (int t = 0; t < T; t++) v.emplace_back([&, t] { Rng q(base + t); std::vector<Info*> mine; uint64_t n = 0; go++; while (go < T + 1) {} int ops = 2000 + q.below(6000); for (int o = 0; o < ops; o++) { if (n < kMax && (mine.empty() || (mine.size() < 60 && q.chance(1, 2)))) { uint64_t k = t * kMax + n++; Info* i = rec.Register(k, t); n_reg++; if (i->key != k || i->thread != t) FATAL("register", "registered element holds another value"); state[k].store(1, std::memory_order_release); mine.push_back(i); } else { size_t x = q.below(mine.size()); Info* i = mine[x]; uint64_t k = i->key; if (k / kMax != (uint64_t)t || state[k] != 1) FATAL("shared", "an element registered by thread %d was given to another caller", t); mine[x] = mine.back(); mine.pop_back(); state[k] = 2; rec.Unregister(i); state[k].store(3, std::memory_order_release); gone++; gone_sum += k; } if (q.chance(1, 64)) sched_yield(); }
        for (Info* i : mine) if (q.chance(1, 2)) { uint64_t k = i->key; state[k] = 2; rec.Unregister(i); state[k] = 3; gone++; gone_sum += k; } left--; });
    auto walk = [&](bool quiet) { Arr<uint8_t> before(T * kMax), seen(T * kMax); for (uint64_t k = 0; k < T * kMax; k++) { uint8_t s = state[k].load(std::memory_order_acquire); if (s) before[k] = s; } long c = 0; rec.Iterate([&](const Info& i) { c++; n_seen++; if (i.key != ~i.key2 || i.key >= T * kMax || i.key / kMax != (uint64_t)i.thread) FATAL("torn", "a visited element is half written: %lx %lx %d", (long)i.key, (long)i.key2, i.thread); if (seen[i.key]++ && quiet) FATAL("twice", "element %lx visited twice", (long)i.key); if (before[i.key] == 3) FATAL("dead", "element %lx was unregistered before the walk and is visited", (long)i.key); });
      for (uint64_t k = 0; k < T * kMax; k++) if (before[k] == 1 && !seen[k] && state[k].load() == 1) FATAL("lost", "element %lx, registered before the walk and still registered after, was not visited", (long)k); munmap(before.p, T * kMax); munmap(seen.p, T * kMax); evals += c + 1; };
    go++; int w = 0; while (left > 0 && w < 200) walk(false), w++; for (auto& t : v) t.join(); walk(true); long live = 0; for (uint64_t k = 0; k < T * kMax; k++) live += state[k] == 1;
    if (cb && (disposed != gone || disposed_sum != gone_sum)) FATAL("dispose", "%ld elements unregistered, the callback saw %ld", (long)gone, (long)disposed); if (r.chance(1, 2)) { rec.UnregisterAll(); long c = 0; rec.Iterate([&](const Info&) { c++; }); if (c) FATAL("all", "%ld elements visited after UnregisterAll", c); if (cb && disposed != gone + live) FATAL("dispose", "%ld elements unregistered, the callback saw %ld", (long)gone + live, (long)disposed); std::vector<Info*> again; long want = al.made + 5; for (long i = 0; i < want; i++) again.push_back(rec.Register((uint64_t)i % (T * kMax), (int)((i % (T * kMax)) / kMax))); std::sort(again.begin(), again.end()); if (std::unique(again.begin(), again.end()) != again.end()) FATAL("reuse", "one element registered twice"); c = 0; rec.Iterate([&](const Info&) { c++; }); if (c != (long)again.size()) FATAL("lost", "%zu registered, %ld visited", again.size(), c); }
    made = al.made; munmap(state.p, T * kMax); dist.add(base); } if (al.deleted != made) FATAL("leak", "%ld elements made, %ld deleted", made, (long)al.deleted); }
static void counters(Rng& r) { int T = 1 + r.below(8); auto c = std::make_unique<StatsCounters<8>>(); StatsCounter lossy[8]; uint64_t base = r.next(); std::vector<std::thread> v; std::vector<std::vector<int64_t>> sum(T, std::vector<int64_t>(8)); std::atomic<int> go{0}; std::atomic<bool> mono_bad{false};
  for (int t = 0; t < T; t++) v.emplace_back([&, t] { Rng q(base + t); go++; while (go < T) {} int64_t seen = 0; for (int o = 0; o < 20000; o++) { int i = q.below(8); int64_t x = i == 0 ? 1 : q.chance(1, 50) ? (int64_t)(q.next() >> 20) * (q.chance(1, 2) ? 1 : -1) : (int64_t)q.below(2000) - 1000; (*c)[i].Add(x); sum[t][i] += x; int64_t s = (*c)[0].value(); if (s < seen) mono_bad = true; seen = s; if (t < 8) lossy[t].LossyAdd(x); } int64_t all = 0; for (int i = 0; i < 8; i++) all += sum[t][i]; if (lossy[t].value() != all) FATAL("lossy", "a counter only one thread adds to stands at %ld, %ld were added", (long)lossy[t].value(), (long)all); });
  for (auto& t : v) t.join(); if (mono_bad) FATAL("counter", "a counter nothing is taken from went down"); for (int i = 0; i < 8; i++) { int64_t s = 0; for (int t = 0; t < T; t++) s += sum[t][i]; if (s != (*c)[i].value()) FATAL("counter", "%d threads: counter stands at %ld, %ld were added", T, (long)(*c)[i].value(), (long)s); evals++; } n_add += T * 20000; dist.add(base); }
int main(int argc, char** argv) {
  Rng r(seed() * 31 + argv[1][0]); uint64_t end = now_ns() + (uint64_t)((thorough() ? 200 : 3.5) * 1e9); long n = 0;
  do { n++; switch (argv[1][0]) {
    case 'F': plain<256, 2>(r); plain<1024, 3>(r); plain<1, 1>(r); plain<1537, 1>(r); plain<64, 8>(r); break;
    case 'D': decaying<256, 2, 3>(r); decaying<1536, 2, 32>(r); decaying<64, 1, 1>(r); decaying<4096, 4, 17>(r); break;
    case 'T': threads(r); break; case 'G': guarded(r); break; case 'R': recorder(r); break; case 'C': counters(r); break; }
  } while (now_ns() < end);
  metric("evals", evals); metric("distinct", dist.n); metric("sessions", n); metric("insertions", n_add); metric("removals", n_rem); metric("absent_looks", n_absent); metric("false_positives", n_false); metric("registered", n_reg); metric("visited", n_seen); metric("admitted", n_admit); metric("filtered", n_filt); metric("rate_limited", n_lim);
  say("SAMPLE mode %c: %ld sessions, %lld observations, %lld insertions, %lld absent stacks looked up of which %lld reported present", argv[1][0], n, (long long)evals, (long long)n_add, (long long)n_absent, (long long)n_false); return done(); }
