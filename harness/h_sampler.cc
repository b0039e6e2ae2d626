// P21: the sampler itself (C) and sampling as seen through the allocation entry points (F) against exact probabilities.
#include <math.h>
#include <algorithm>
#include <thread>
#include <vector>
#include "vt_api.h"
#include "tcmalloc/malloc_hook.h"
#include "tcmalloc/parameters.h"
#include "tcmalloc/sampler.h"
using namespace vt;
using namespace tcmalloc;
using tcmalloc_internal::Sampler;
static Distinct dist; static std::atomic<long long> evals{0}, n_alloc{0}, n_samp{0}, n_tests{0}; static double worst = 0;
// A z beyond 8 has a probability below 1e-15 for a correct sampler.
static void z_test(const char* what, double z, double got, double want) { n_tests++; evals++; if (fabs(z) > worst) worst = fabs(z); if (!(fabs(z) < 8)) FATAL("bias", "%s: %.1f, expected %.1f (%.1f standard deviations)", what, got, want, z); }
static void ks_exp(const char* what, std::vector<double>& x) { // x ~ Exp(1)
  std::sort(x.begin(), x.end()); double d = 0; size_t n = x.size(); for (size_t i = 0; i < n; i++) { double F = 1 - exp(-x[i]); d = std::max(d, std::max(fabs(F - (double)i / n), fabs(F - (double)(i + 1) / n))); } n_tests++; evals++;
  double crit = sqrt(log(2e15) / 2 / n) + 0.003; say("SAMPLE %s: %zu gaps, largest distance from the exponential law %.4f (bound %.4f)", what, n, d, crit); if (d > crit) FATAL("law", "%s: gaps between samples do not follow the exponential law: distance %.4f with %zu gaps (bound %.4f)", what, d, n, crit);
}
struct Stat { double n = 0, s = 0, e = 0, v = 0, w = 0, tot = 0, wv = 0;
  void add(size_t k, size_t weight, double T) { double x = (k + 1) / T, q = -expm1(-x); n++; e += q; v += q * (1 - q); if (weight) { s++; w += weight; } tot += k + 1; wv += T * T * q; }
  // The allocator's gaps are whole bytes and one byte shorter than the exact law: each gap gives the request that follows a sample up to 1/T more chance.
  void judge(const char* what, size_t k, double T, double gaps) { char b[160]; snprintf(b, sizeof b, "%s: requests of %zu bytes sampled, interval %.0f, %.0f requests", what, k, T, n);
    double se = s - e, tol = gaps * 1.1 / T + 1e-9; se = se > 0 ? std::max(0.0, se - tol) : std::min(0.0, se + tol); z_test(b, se / sqrt(v + 1), s, e);
    snprintf(b, sizeof b, "%s: bytes estimated for requests of %zu bytes, interval %.0f", what, k, T); double we = w - tot, wt = gaps * 1.6; we = we > 0 ? std::max(0.0, we - wt) : std::min(0.0, we + wt); z_test(b, we / sqrt(wv + T * T), w, tot); } };
static void component(uint64_t end) {
  Rng r(seed() * 41); long rounds = 0;
  while (now_ns() < end) {
    rounds++;
    { // the law of the gaps and their independence
      double T = (double)(1000 + r.below(3000)); MallocExtension::SetProfileSamplingInterval((int64_t)T); Sampler* s = new Sampler(); std::vector<double> g; uint64_t c = 0; size_t N = 12000; while (g.size() < N) { c++; if (size_t w = s->RecordAllocation(0)) { if (w != (size_t)T) { if (!g.empty()) FATAL("weight", "a one-byte request that is sampled weighs %zu with interval %.0f", w, T); } g.push_back(c / T); c = 0; } }
      n_samp += N; double m = 0, m2 = 0, cr = 0; for (size_t i = 0; i < N; i++) m += g[i], m2 += g[i] * g[i]; m /= N; double var = m2 / N - m * m; for (size_t i = 0; i + 1 < N; i++) cr += (g[i] - m) * (g[i + 1] - m); cr /= N * var;
      z_test("mean gap in intervals", (m - 1 + 0.5 / T) * sqrt((double)N) , m, 1); z_test("correlation of successive gaps", cr * sqrt((double)N), cr, 0); ks_exp("one stream", g); delete s; dist.add((uint64_t)T);
    }
    { // size patterns
      static const size_t sizes[] = {0, 1, 7, 64, 300, 1024, 4095, 20000, 100000, 1 << 20, 30 << 20}; static const double Ts[] = {16, 100, 1000, 20000, 524288, 2097152}; double T = Ts[r.below(6)]; MallocExtension::SetProfileSamplingInterval((int64_t)T); Sampler s; Stat st[11]; int pat = r.below(4); size_t a = r.below(11), b = r.below(11); long per = 1 + r.below(40);
      // settle on the interval in force
      for (int i = 0; i < 3; i++) s.RecordAllocation(200 << 20);
      for (long i = 0; i < 1500000; i++) { int k = pat == 0 ? r.below(11) : pat == 1 ? (i % (per + 1) == 0 ? a : b) : pat == 2 ? (i / 1000 % 2 ? a : b) : r.below(4) ? r.below(5) : 5 + r.below(6);
        bool will = s.WillRecordAllocation(sizes[k]); size_t w = s.RecordAllocation(sizes[k]); if (will != (w != 0)) FATAL("predict", "WillRecordAllocation(%zu) said %d, the request %s sampled", sizes[k], will, w ? "was" : "was not"); if (w && w < (size_t)T) FATAL("weight", "weight %zu below the interval %.0f", w, T); if (w && w > (size_t)T + sizes[k]) FATAL("weight", "weight %zu for %zu bytes at interval %.0f", w, sizes[k], T); st[k].add(sizes[k], w, T); if (w) n_samp++; }
      n_alloc += 1500000; double gaps = 1; for (auto& x : st) gaps += x.s; for (int k = 0; k < 11; k++) if (st[k].n) { st[k].judge(pat == 0 ? "random sizes" : pat == 1 ? "periodic sizes" : pat == 2 ? "bursts" : "mostly small", sizes[k], T, gaps); dist.add(k * 64 + pat * 8 + (int)log(T) * 4096); }
    }
    { // fresh samplers are independent of each other
      double T = 5000; MallocExtension::SetProfileSamplingInterval((int64_t)T); std::vector<double> g; int N = 3000; std::vector<Sampler*> v; for (int i = 0; i < N; i++) v.push_back(new Sampler()); double m = 0, cr = 0; for (auto* s : v) { uint64_t c = 0; for (;;) { c++; if (s->RecordAllocation(0)) break; } g.push_back(c / T); m += c / T; } m /= N; for (int i = 0; i + 1 < N; i++) cr += (g[i] - m) * (g[i + 1] - m); z_test("correlation of neighbouring threads' first gaps", cr / N * sqrt((double)N), cr / N, 0); z_test("mean first gap of a thread", (m - 1) * sqrt((double)N), m, 1); ks_exp("first gaps", g); for (auto* s : v) delete s; }
    { // control: off, on, every request; requests of any size, also impossible ones, change nothing
      Sampler s; MallocExtension::SetProfileSamplingInterval(1000 + r.below(100000)); for (int i = 0; i < 100; i++) s.RecordAllocation(r.below(5000));
      for (int i = 0; i < 60; i++) { int64_t iv = r.chance(1, 4) ? 0 : r.chance(1, 6) ? -(int64_t)r.below(1000) : r.chance(1, 3) ? 1 : 2 + r.below(1 << 20); MallocExtension::SetProfileSamplingInterval(iv); if (MallocExtension::GetProfileSamplingInterval() != iv) FATAL("get", "interval set to %ld reads %ld", (long)iv, (long)MallocExtension::GetProfileSamplingInterval());
        if (r.chance(1, 2)) { Sampler f; if (r.chance(1, 2)) f.RecordAllocation(((size_t)1 << 63) + r.next() % ((size_t)1 << 62)); else f.RecordAllocation(r.next()); uint64_t b = 0; bool hit = false; if (iv > 0) { while (b < (200ull << 30) && !hit) { size_t k = 1 << 20; b += k; hit = f.RecordAllocation(k); } if (!hit) FATAL("stuck", "after one request of absurd size a thread is not sampled in %lu GB at interval %ld", (unsigned long)(b >> 30), (long)iv); } }
        for (int j = 0; j < 3000; j++) { size_t k = r.chance(1, 300) ? r.next() : rand_size(r, 1 << 20); size_t w = s.RecordAllocation(k); evals++; if (iv <= 0 && w) FATAL("off", "request sampled with interval %ld", (long)iv); if (iv == 1 && j > 300 && !w && k != ~(size_t)0) { FATAL("every", "request of %zu bytes not sampled with interval 1", k); } if (iv == 1 && j > 301 && k < 1 << 30 && w != k + 1) FATAL("every", "request of %zu bytes weighs %zu with interval 1", k, w);
          if (j == 300) { uint64_t b = 0; bool got = false; while (iv > 0 && b < (1ull << 40) && !got) { got = s.RecordAllocation(1 << 20); b += 1 << 20; } if (iv > 0 && !got) FATAL("stuck", "not sampled again in a terabyte at interval %ld", (long)iv); if (iv == 1) s.RecordAllocation(0); } } }
    }
  }
  metric("rounds", rounds);
}
// ---------- through the allocator
#ifdef VT_FULL
static std::atomic<long> hooked{0}; static __thread long my_hits __attribute__((tls_model("initial-exec"))); static __thread double my_w __attribute__((tls_model("initial-exec"))); static __thread size_t my_req __attribute__((tls_model("initial-exec")));
static void on_s(const MallocHook::SampledAlloc& s) { my_hits++; hooked++; my_w = s.weight; my_req = s.requested_size; }
static bool sampled_malloc(size_t k, int f, double& w) { long h = my_hits; Block b = do_alloc(f, k, 16, is_hc(f) ? 200 : -1); if (b.p) do_free(b, 0); if (my_hits == h) return false; if (my_hits != h + 1) FATAL("count", "one request sampled %ld times", my_hits - h); if (my_req != k) FATAL("size", "request of %zu bytes sampled as %zu", k, my_req); w = my_w * (k + 1); return true; }
static void consume() { for (int i = 0; i < 200; i++) free(malloc(1 << 20)); }
static const int FN[] = {F_malloc, F_new, F_new_nt, F_calloc, F_memalign, F_newal, F_newarr, F_srnew, F_new_hc, F_alloc_at_least, F_tok1_new, F_realloc0, F_posix_memalign};
static void full(uint64_t end, bool percpu) {
  if (!MallocHook::AddSampledNewHook(on_s)) FATAL("hook", "refused"); MallocExtension::SetGuardedSamplingInterval(-1); Rng r(seed() * 43); long rounds = 0;
  while (now_ns() < end || !rounds) {
    rounds++; double T = r.chance(1, 2) ? 4096 : 65536; MallocExtension::SetProfileSamplingInterval((int64_t)T); consume(); consume();
    { // six threads, each with its own mix
      std::vector<std::thread> th; static Stat st[6][8]; for (auto& a : st) for (auto& b : a) b = Stat(); static const size_t sz[] = {1, 40, 200, 1000, 5000, 30000, 200000, 600000};
      for (int t = 0; t < 6; t++) th.emplace_back([&, t] { Rng r(seed() * 100 + rounds * 8 + t); consume(); consume(); for (long i = 0; i < 150000; i++) { int k = t == 0 ? 1 + i % 2 : t == 1 ? (i % 50 ? 0 : 6) : t == 2 ? r.below(8) : t == 3 ? i / 500 % 6 : r.below(5); double w = 0; bool s = sampled_malloc(sz[k], FN[r.below(13)], w); st[t][k].add(sz[k], s ? (size_t)llround(w) : 0, T); } });
      for (auto& x : th) x.join(); n_alloc += 900000; for (int t = 0; t < 6; t++) for (int k = 0; k < 8; k++) if (st[t][k].n) { char b[40]; snprintf(b, 40, "thread %d", t); double gaps = 1; for (auto& x : st[t]) gaps += x.s; n_samp += st[t][k].s; st[t][k].judge(b, sz[k], T, gaps); dist.add(t * 64 + k + (uint64_t)T * 512); }
    }
    { // short-lived threads: what they allocate first is sampled like anything else
      Stat st[3]; static const size_t sz[] = {100, 900, 20000}; for (int i = 0; i < 500; i++) std::thread([&, i] { int k = i % 3; double w = 0; for (int j = 0; j < 20; j++) { bool s = sampled_malloc(sz[k], F_malloc, w); if (j > 0 || true) st[k].add(sz[k], s ? (size_t)llround(w) : 0, T); } }).join();
      // the thread's start-up allocates too, from the same stream
      for (int k = 0; k < 3; k++) { st[k].judge("first requests of fresh threads", sz[k], T, 500 + st[k].s); n_samp += st[k].s; } n_alloc += 10000; }
    { // off and on, across threads
      std::vector<std::thread> th; static std::atomic<int> phase; phase = 0; static std::atomic<int> ready[4]; for (auto& x : ready) x = 0;
      for (int t = 0; t < 4; t++) th.emplace_back([&, t] { Rng r(seed() + t); free(malloc(8)); consume(); for (int ph = 1; ph <= 3; ph++) { ready[t] = ph; while (phase < ph) sched_yield(); double w; if (ph != 1) consume();
            for (int i = 0; i < 3000; i++) { size_t k = rand_size(r, 1 << 19); int f = FN[r.below(13)]; bool s = sampled_malloc(k, f, w); evals++; n_alloc++; if (ph == 1 && s) FATAL("off", "thread %d: %s(%zu) sampled after the interval was set to 0", t, fn_name(f), k); if (ph == 2 && !s) FATAL("every", "thread %d: %s(%zu) not sampled with interval 1", t, fn_name(f), k); if (ph == 2 && fabs(w - (k + 1)) > 1e-6 * k + 0.5) FATAL("every", "%s(%zu) weighs %f with interval 1", fn_name(f), k, w); if (ph == 3 && s) FATAL("off", "thread %d: %s(%zu) sampled with a negative interval", t, fn_name(f), k); } } });
      for (int ph = 1; ph <= 3; ph++) { for (auto& x : ready) while (x < ph) sched_yield(); MallocExtension::SetProfileSamplingInterval(ph == 1 ? 0 : ph == 2 ? 1 : -5); phase = ph; }
      for (auto& x : th) x.join(); }
    { // a thread whose first request is absurd, or that makes many failing ones, is sampled like the others
      MallocExtension::SetProfileSamplingInterval(1); size_t big = ((size_t)1 << 63) + r.below((size_t)1 << 62); static std::atomic<size_t> missed; missed = 0; pthread_t p; struct A { size_t big; } a{big};
      pthread_create(&p, nullptr, [](void* v) -> void* { void* volatile q = malloc(((A*)v)->big); if (q) free(q); consume(); for (int i = 0; i < 100; i++) { double w; if (!sampled_malloc(100, F_malloc, w)) missed++; if (i == 50) { void* volatile z = malloc(((A*)v)->big + i); if (z) free(z); } } return nullptr; }, &a); pthread_join(p, nullptr); evals++;
      if (missed > 5) FATAL("stuck", "a thread whose first request was malloc(%zu) has %zu of 100 requests unsampled with interval 1", big, (size_t)missed); }
  }
  metric("rounds", rounds);
}
#else
static void full(uint64_t, bool) {}
#endif
int main(int argc, char** argv) {
  uint64_t end = now_ns() + (thorough() ? 200ull : 4ull) * 1000000000; free(malloc(8));
  if (argv[1][0] == 'C') component(end); else { bool pc = strchr(argv[1], 'P'); if (pc && !MallocExtension::PerCpuCachesActive()) return inconclusive("per-CPU caches not active"); full(end, pc); }
  metric("evals", evals + n_alloc); metric("distinct", dist.n + n_tests); metric("requests", n_alloc); metric("samples", n_samp); metric("statistical_tests", n_tests); metric("worst_z_x100", (long long)(worst * 100));
  say("SAMPLE mode=%s requests=%lld samples=%lld tests=%lld largest deviation %.2f", argv[1], (long long)n_alloc, (long long)n_samp, (long long)n_tests, worst);
  return done();
}
