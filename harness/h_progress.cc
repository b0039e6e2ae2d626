// P25: calls complete under every mixture of activity, threads, signals, fork, early start and late exit.
//   P FLAGS: mixture under a watchdog and a lock monitor (s signals, d delays, g guarded)   X: life cycle in fresh processes   F: fork
#include <memory>
#include <mutex>
#include <string>
#include <thread>
#include <vector>
#include <sys/resource.h>
#include <sys/wait.h>
#include "vt_api.h"
#include "vt_maint.h"
#include "vt_child.h"
#ifdef VT_LOCKS
#include "vt_locks.h"
#endif
#include "tcmalloc/malloc_hook.h"
#include "tcmalloc/parameters.h"
#include "tcmalloc/internal/page_allocator_hooks.h"
using namespace vt;
using ME = tcmalloc::MallocExtension;
using namespace tcmalloc::tcmalloc_internal;
using std::string; using std::vector;
typedef uint64_t u64;
extern "C" int MallocExtension_Internal_GetStatsInPbtxt(char*, int);
static bool percpu; static Distinct dist; static Rlx<u64> evals{0};
static size_t prop(const char* n) { auto v = ME::GetNumericProperty(n); return v ? *v : 0; }
static size_t blen(const Block& b) { return std::max(b.req, is_sr(b.fn) ? b.cap : 0); }
static void own(Block& b, Rng& r) { b.id = r.next(); fill(b.p, blen(b), b.id); }
static void same(const Block& b, const char* when) { if (check(b.p, blen(b), b.id) >= 0) FATAL("content", "%s: a %s block of %zu bytes was changed", when, fn_name(b.fn), blen(b)); evals++; }
static Block any(Rng& r, size_t big = 1 << 20) { int f = r.below(F_COUNT); size_t s = r.chance(1, 40) ? r.below(big) : rand_size(r) % 9000; Block b = do_alloc(f, s, rand_align(r), is_hc(f) ? (int)r.below(256) : -1); if (!b.p) FATAL("null", "%s(%zu)", fn_name(f), s); own(b, r); return b; }
// ---------------------------------------------------------------- watchdog
struct Beat { Rlx<int> op{-1}; Rlx<u64> since{0}, n{0}; Rlx<pthread_t> th{0};
#ifdef VT_LOCKS
  std::atomic<lk::Held*> held{nullptr};
#endif
};
static Beat beats[64]; static thread_local Beat* me;
static const char* opname[] = {"alloc/free", "cross-thread free", "realloc", "text statistics", "pbtxt statistics", "properties", "heap snapshot", "fragmentation snapshot", "peak snapshot", "allocation session", "lifetime session", "event session", "release", "release cpu", "idle/busy", "background action", "parameters", "hooks", "thread", "queries", "limits", "guarded interval", "sampling", "background loop", "numa/hot threshold"};
enum { O_ALLOC, O_CROSS, O_REALLOC, O_STATS, O_PBTXT, O_PROPS, O_HEAP, O_FRAG, O_PEAK, O_ASESS, O_LSESS, O_ESESS, O_REL, O_RELCPU, O_IDLE, O_BG, O_PARAM, O_HOOK, O_THREAD, O_QUERY, O_LIMIT, O_GUARD, O_SAMPLE, O_LOOP, O_HOT, O_N };
static Rlx<u64> opcount[O_N], opmax[O_N];
struct Op { int k; u64 t0; explicit Op(int k) : k(k), t0(now_ns()) { me->since = t0; me->op = k; } ~Op() { me->op = -1; u64 d = now_ns() - t0, m = opmax[k].load(); while (d > m && !opmax[k].compare_exchange_weak(m, d)) {} opcount[k]++; me->n++;
#ifdef VT_LOCKS
    if (lk::held.n) FATAL("leaked-lock", "'%s' returned with %d lock(s) held", opname[k], lk::held.n);
#endif
  } };
static void enter(int i) { me = &beats[i]; me->th = pthread_self();
#ifdef VT_LOCKS
  me->held = &lk::held;
#endif
}
static void stuck_report(int limit) { string s; char b[400]; (void)s; for (int i = 0; i < 64; i++) { Beat& x = beats[i]; int op = x.op; if (op < 0) continue; u64 dt = now_ns() - x.since; int n = snprintf(b, sizeof b, "thread %d: in '%s' for %.1f s", i, opname[op], dt / 1e9);
#ifdef VT_LOCKS
    if (auto* h = x.held.load()) for (int j = 0; j < h->n && j < 6; j++) { char nm[80]; lk::name(h->l[j], nm, 80); n += snprintf(b + n, sizeof b - n, ", holds %s", nm); }
#endif
    say("%s", b); } FATAL("stuck", "a call has not returned for %d s", limit); }
static bool any_stuck(int limit) { u64 t = now_ns(); for (auto& x : beats) if (x.op >= 0 && t > x.since && t - x.since > limit * 1000000000ull && x.op >= 0) return true; return false; }
// ---------------------------------------------------------------- mixture
static const int kShared = 600; struct Sl { std::atomic<int> busy{0}; Block b; }; static Sl sl[kShared];
static std::mutex bgm, hookm, sessm; static bool use_loop; static std::atomic<bool> stop{false}; static Rlx<u64> hooked, paged, signals_got;
static thread_local int in_hook;
static void hook_check(const char* w) {
#ifdef VT_LOCKS
  if (lk::held.n) FATAL("hook-lock", "%s is called with %d internal lock(s) held", w, lk::held.n);
#endif
}
static void new_hook(const tcmalloc::MallocHook::NewInfo&) { hook_check("a new hook"); hooked++; if (in_hook) return; in_hook++; void* p = malloc(24); free(p); in_hook--; }
static void del_hook(const tcmalloc::MallocHook::DeleteInfo&) { hook_check("a delete hook"); hooked++; }
static void on_signal(int) { int e = errno; signals_got++; static thread_local unsigned x; if (++x % 16 == 0) sched_yield(); else for (volatile int i = 0; i < (int)(x % 200); i = i + 1) {} errno = e; }
struct TlsObj { vector<string> v; void* p = nullptr; ~TlsObj() { for (int i = 0; i < 5; i++) v.push_back(string(10 + i * 700, 'x')); free(p); void* q = malloc(100000); memset(q, 1, 100000); free(q); } };
static thread_local TlsObj tls_obj; static pthread_key_t key;
static std::atomic<bool> late_heavy{false};  // many blocks after the thread's cache is gone: what a dead cache keeps is lost
static void key_dtor(void* x) { long n = (long)x; if (late_heavy) { static const int K = 48; unsigned char* b[K]; size_t z[K]; for (int i = 0; i < K; i++) { z[i] = 64 + (i * 2654435761u + n * 977) % 6000; b[i] = (unsigned char*)malloc(z[i]); memset(b[i], (int)(i + n + z[i]), z[i]); } if (n & 1) sched_yield(); for (int i = 0; i < K; i++) { for (size_t j = 0; j < z[i]; j++) if (b[i][j] != (unsigned char)(i + n + z[i])) { EXPECT(false, "content", "block of %zu bytes used in a late destructor changed", z[i]); break; } free(b[i]); } } void* p = malloc(n * 1000); memset(p, 7, n * 1000); void* q = VT_NEW(40); free(p); VT_DEL(q); if (n > 1) pthread_setspecific(key, (void*)(n - 1)); }
#ifdef VT_INTERNAL_API
static const int kRounds = 1;  // the race detector's own state is gone after the fourth round
#else
static const int kRounds = 3;
#endif
static void short_thread(u64 s) { std::thread t([s] { Rng r(s); tls_obj.p = malloc(r.below(20000)); if (r.chance(1, 2)) pthread_setspecific(key, (void*)(1 + r.below(kRounds))); vector<Block> v; for (int i = 0; i < 40; i++) v.push_back(any(r, 1 << 18)); for (auto& b : v) { same(b, "short thread"); do_free(b, r.next()); } }); t.join(); }
static void worker(int id, u64 s, bool heavy) {
  enter(id); Rng r(s); free(malloc(8)); subtle::percpu::IsFast(); static const int N = 300; Block mine[N]; char* buf = (char*)mmap(nullptr, 1 << 20, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  while (!stop) {
    int k = r.chance(9, 10) || !heavy ? (int)r.below(3) : (int)r.below(O_N - 3) + 3; if (k == O_LOOP) k = O_ALLOC; dist.add(k * 1000 + (beats[(id + 1) % 8].op.load() + 1) * 30 + beats[(id + 2) % 8].op.load() + 1); Op op(k);
    switch (k) {
      case O_ALLOC: for (int i = 0; i < 30; i++) { Block& b = mine[r.below(N)]; if (b.p) { same(b, "mixture"); do_free(b, r.next()); b.p = nullptr; } else b = any(r); } break;
      case O_CROSS: for (int i = 0; i < 20; i++) { Sl& x = sl[r.below(kShared)]; if (x.busy.exchange(1)) continue; if (x.b.p) { same(x.b, "handed over"); do_free(x.b, r.next()); x.b.p = nullptr; } else x.b = any(r); x.busy = 0; } break;
      case O_REALLOC: { size_t n = r.below(3000); char* p = (char*)malloc(n); for (int i = 0; i < 8; i++) { n = 1 + r.below(r.chance(1, 10) ? 400000 : 5000); char* q = (char*)realloc(p, n); if (!q) FATAL("null", "realloc"); p = q; p[n - 1] = 1; } free(p); break; }
      case O_STATS: { string t = ME::GetStats(); EXPECT(t.size() > 1000, "stats", "text of %zu bytes", t.size()); break; }
      case O_PBTXT: { int n = MallocExtension_Internal_GetStatsInPbtxt(buf, 1 << 20); EXPECT(n > 1000, "stats", "pbtxt of %d bytes", n); break; }
      case O_PROPS: { auto m = ME::GetProperties(); EXPECT(m.size() > 10, "props", "%zu properties", m.size()); prop("generic.current_allocated_bytes"); prop("tcmalloc.pageheap_free_bytes"); break; }
      case O_HEAP: case O_FRAG: case O_PEAK: { auto p = ME::SnapshotCurrent(k == O_HEAP ? tcmalloc::ProfileType::kHeap : k == O_FRAG ? tcmalloc::ProfileType::kFragmentation : tcmalloc::ProfileType::kPeakHeap); int n = 0; p.Iterate([&](const tcmalloc::Profile::Sample&) { n++; free(malloc(50)); }); evals += n; break; }
      case O_ASESS: { auto t = ME::StartAllocationProfiling(); for (int i = 0; i < 20; i++) free(malloc(r.below(5000))); auto p = std::move(t).Stop(); int n = 0; p.Iterate([&](const tcmalloc::Profile::Sample&) { n++; }); evals += n; break; }
      case O_LSESS: { auto t = ME::StartLifetimeProfiling(); for (int i = 0; i < 20; i++) free(malloc(r.below(5000))); auto p = std::move(t).Stop(); int n = 0; p.Iterate([&](const tcmalloc::Profile::Sample&) { n++; }); evals += n; break; }
      case O_ESESS: { auto t = ME::StartEventTracing(); for (int i = 0; i < 20; i++) free(malloc(r.below(5000))); auto p = std::move(t).Stop(); int n = 0; p.Iterate([&](const tcmalloc::Profile::Sample&) { n++; }); evals += n; break; }
      case O_REL: ME::ReleaseMemoryToSystem(r.below(r.chance(1, 3) ? 1ull << 40 : 16 << 20)); break;
      case O_RELCPU: if (percpu) ME::ReleaseCpuMemory(r.below(NumCPUs())); break;
      case O_IDLE: ME::MarkThreadIdle(); if (r.chance(1, 2)) { free(malloc(10)); ME::MarkThreadIdle(); } ME::MarkThreadBusy(); break;
      case O_BG: if (!use_loop) { std::unique_lock<std::mutex> l(bgm, std::try_to_lock); if (l.owns_lock()) background_action(r); break; }
      case O_PARAM: ME::SetMaxTotalThreadCacheBytes(512 << 10 << r.below(6)); ME::SetBackgroundReleaseRate(ME::BytesPerSecond(r.below(1 << 30))); ME::SetSkipSubreleaseShortInterval(absl::Milliseconds(r.below(100))); ME::SetSkipSubreleaseLongInterval(absl::Milliseconds(r.below(100))); if (percpu && r.chance(1, 2)) ME::SetMaxPerCpuCacheSize((1 << 20) << r.below(3)); ME::SetBackgroundProcessSleepInterval(absl::Milliseconds(1 + r.below(3))); break;
      case O_HOOK: { std::unique_lock<std::mutex> l(hookm, std::try_to_lock); if (l.owns_lock()) { (void)tcmalloc::MallocHook::AddNewHook(new_hook); (void)tcmalloc::MallocHook::AddDeleteHook(del_hook); for (int i = 0; i < 30; i++) free(malloc(r.below(3000))); (void)tcmalloc::MallocHook::RemoveNewHook(new_hook); (void)tcmalloc::MallocHook::RemoveDeleteHook(del_hook); } break; }
      case O_THREAD: short_thread(r.next()); break;
      case O_QUERY: { Block& b = mine[r.below(N)]; if (b.p) { EXPECT(malloc_usable_size(b.p) >= b.req, "size", "usable size"); EXPECT(ME::GetOwnership(b.p) == ME::Ownership::kOwned, "own", "a live block is not owned"); ME::GetAllocatedSize(b.p); } ME::GetEstimatedAllocatedSize(r.below(1 << 20)); break; }
      case O_LIMIT: { size_t v[] = {0, 8ull << 20, 64ull << 20, 4ull << 30}; ME::SetMemoryLimit(v[r.below(4)], ME::LimitKind::kSoft); ME::SetMemoryLimit(r.chance(1, 2) ? 0 : 1ull << 40, ME::LimitKind::kHard); break; }
      case O_GUARD: ME::SetGuardedSamplingInterval(r.chance(1, 3) ? -1 : (int64_t)r.below(10000)); break;
      case O_SAMPLE: ME::SetProfileSamplingInterval(r.chance(1, 4) ? 0 : 1 << r.below(20)); break;
      case O_HOT: Parameters::set_min_hot_access_hint((tcmalloc::hot_cold_t)r.below(256)); break;
    }
  }
  Op op(O_ALLOC); for (auto& b : mine) if (b.p) { same(b, "end"); do_free(b, 0); }
}
#ifdef VT_LOCKS
static void lock_name(const void* l, char* o, size_t n) { if (l == (const void*)&pageheap_lock) snprintf(o, n, "pageheap_lock"); else if ((const char*)l >= (const char*)&tc_globals.central_freelist(0) && (const char*)l < (const char*)&tc_globals.central_freelist(kNumClasses - 1) + sizeof(tc_globals.central_freelist(0))) snprintf(o, n, "central free list %zd's lock", ((const char*)l - (const char*)&tc_globals.central_freelist(0)) / (ssize_t)sizeof(tc_globals.central_freelist(0))); else snprintf(o, n, "lock %p", l); }
#endif
static int mode_p(const string& fl) {
  bool sig = fl.find('s') != string::npos, delay = fl.find('d') != string::npos, guard = fl.find('g') != string::npos; use_loop = fl.find('l') != string::npos;  // background work is done either by the real loop or, step by step, by one caller at a time
  pthread_key_create(&key, key_dtor);
#ifdef VT_LOCKS
  lk::namer = lock_name; lk::delay_den = delay ? 60 : 0; size_t exp_locks = 1; (void)exp_locks;
#endif
  ME::SetProfileSamplingInterval(1 << 14); ME::SetGuardedSamplingInterval(guard ? 0 : -1); if (guard) ME::ActivateGuardedSampling();
  struct sigaction sa{}; sa.sa_handler = on_signal; sa.sa_flags = SA_RESTART; sigaction(SIGUSR1, &sa, nullptr);
  int T = 8; u64 secs = thorough() ? 200 : 6; vector<std::thread> th; Rng r(seed() * 31 + 7); const int limit = 40; static std::atomic<bool> joined{false};
  std::thread wd([&] { u64 t0 = now_ns(); while (!joined) { usleep(50000); if (any_stuck(limit)) stuck_report(limit); if (now_ns() - t0 > (secs + limit + 10) * 1000000000ull) stuck_report(limit); } });
  for (int i = 0; i < T; i++) th.emplace_back(worker, i, r.next(), i < 6);
  ME::SetBackgroundProcessActionsEnabled(true); ME::SetBackgroundProcessSleepInterval(absl::Milliseconds(1));
  std::thread loop([&] { if (!use_loop) return; enter(20); ME::ProcessBackgroundActions(); });
  std::thread churn([&] { enter(21); Rng q(seed() + 99); while (!stop) { Op op(O_THREAD); vector<std::thread> v; for (int i = 0; i < 4; i++) v.emplace_back([s = q.next()] { Rng x(s); tls_obj.p = malloc(x.below(9000)); pthread_setspecific(key, (void*)(1 + x.below(kRounds))); vector<Block> b; for (int j = 0; j < 100; j++) b.push_back(any(x, 1 << 16)); for (auto& y : b) { same(y, "churn"); do_free(y, x.next()); } }); for (auto& t : v) t.join(); } });
  std::thread storm([&] { Rng q(seed() + 5); while (!stop && sig) { pthread_kill(th[q.below(T)].native_handle(), SIGUSR1); if (q.chance(1, 20)) usleep(20); } });
  u64 end = now_ns() + secs * 1000000000ull; while (now_ns() < end) usleep(50000);
  stop = true; ME::SetBackgroundProcessActionsEnabled(false); storm.join();
  for (auto& t : th) t.join(); churn.join(); loop.join(); joined = true; wd.join();
  for (auto& x : sl) if (x.b.p) { same(x.b, "end"); do_free(x.b, 0); }
  u64 calls = 0; for (int k = 0; k < O_N; k++) { calls += opcount[k]; if (k != O_LOOP && !opcount[k]) return inconclusive((string("never ran: ") + opname[k]).c_str()); }
  u64 mx = 0; int mk = 0; for (int k = 0; k < O_N; k++) if (opmax[k] > mx) mx = opmax[k], mk = k; if (sig && signals_got < 100) return inconclusive("hardly any signals arrived"); if (!hooked) return inconclusive("no hook ran");
#ifdef VT_LOCKS
  lk::cycles(); metric("lock_acquisitions", lk::acquisitions); metric("nested_acquisitions", lk::nested); metric("lock_order_edges", lk::nedges); metric("delays", lk::delays); metric("unrecorded_lock_orders", lk::full); metric("orders_on_circles", lk::cyclic); if (lk::nedges < 20) return inconclusive("hardly any nested locks seen");
#endif
  metric("calls", calls); metric("signals", signals_got); metric("hooks", hooked); metric("longest_us", mx / 1000); metric("evals", evals.load() + calls); metric("distinct", dist.n); say("SAMPLE %llu groups of calls of %d kinds, longest %.1f ms ('%s'), %llu signals, %llu hook calls", (unsigned long long)calls, O_N - 1, mx / 1e6, opname[mk], (unsigned long long)signals_got, (unsigned long long)hooked); return done();
}
// ---------------------------------------------------------------- early start and late exit
static const int kEarly = 60; static Block early[2 * kEarly]; static int nearly_; static bool early_thread_ok;
static void early_use(u64 s) { Rng r(s); for (int i = 0; i < kEarly; i++) { Block b = any(r, 3 << 20); if (i % 3 == 0) { same(b, "early"); do_free(b, r.next()); } else if (nearly_ < 2 * kEarly) early[nearly_++] = b; } void* p = malloc(10); p = realloc(p, 100000); p = realloc(p, 5); free(p); free(calloc(100, 100)); }
static bool early_on() { return getenv("VT_EARLY") != nullptr; }
static void pre(int, char**, char** envp) { bool on = false; for (char** e = envp; e && *e; e++) if (!strncmp(*e, "VT_EARLY=", 9)) on = true; if (!on) return; early_use(11); }
__attribute__((section(".preinit_array"), used)) static void (*preinit)(int, char**, char**) = pre;
__attribute__((constructor(101))) static void ctor() { if (!early_on()) return; early_use(12); string t = ME::GetStats(); prop("generic.heap_size"); ME::SetProfileSamplingInterval(4096); std::thread x([] { Rng r(5); for (int i = 0; i < 200; i++) { Block b = any(r); same(b, "early thread"); do_free(b, r.next()); } early_thread_ok = true; }); x.join(); }
static std::atomic<int> late{0}; static int late_want;
static void late_use(const char* what) { Rng r(77 + late); vector<Block> v; for (int i = 0; i < 100; i++) v.push_back(any(r, 2 << 20)); for (auto& b : v) { same(b, what); do_free(b, r.next()); } string t = ME::GetStats(); prop("generic.heap_size"); ME::ReleaseMemoryToSystem(1 << 20); late++; say("LATE %s", what); }
struct LateStatic { bool on = false; vector<string> v; ~LateStatic() { if (on) late_use("static destructor"); } };
static LateStatic ls_normal; __attribute__((init_priority(101))) static LateStatic ls_last;
__attribute__((destructor(101))) static void dtor() { if (late_want) late_use("destructor function"); }
static void busy_threads(int n) { for (int i = 0; i < n; i++) std::thread([i] { Rng r(i); for (;;) { Block b = any(r); do_free(b, r.next()); } }).detach(); usleep(20000); }
static int xchild(int k) {
  Rng r(seed() + k); for (int i = 0; i < nearly_; i++) { same(early[i], "kept since early start"); do_free(early[i], r.next()); } if (early_on()) { EXPECT(nearly_ > 60, "early", "%d blocks", nearly_); EXPECT(early_thread_ok, "early", "the early thread did not run"); } if (nviol) _exit(10);
  pthread_key_create(&key, key_dtor);
  switch (k % 5) {
    case 0: late_want = 1; ls_normal.on = ls_last.on = true; atexit([] { late_use("atexit"); }); busy_threads(4); exit(77);
    case 1: at_quick_exit([] { late_use("at_quick_exit"); }); busy_threads(3); quick_exit(77);
    case 2: { late_want = 1; ls_normal.on = true; static std::atomic<int> go{0}; std::thread([] { while (!go) usleep(100); usleep(3000); Rng q(3); for (int i = 0; i < 300; i++) { Block b = any(q); do_free(b, q.next()); } pthread_setspecific(key, (void*)3); exit(77); }).detach(); tls_obj.p = malloc(100); go = 1; pthread_exit(nullptr); }
    case 3: { late_heavy = true; size_t base = prop("generic.current_allocated_bytes"); (void)base; vector<Block> kept; std::mutex m; for (int w = 0; w < 30; w++) { vector<std::thread> th; for (int t = 0; t < 16; t++) th.emplace_back([&, s = r.next()] { Rng q(s); tls_obj.p = malloc(q.below(9000)); pthread_setspecific(key, (void*)(1 + q.below(3))); for (int i = 0; i < 60; i++) { Block b = any(q, 1 << 17); if (q.chance(1, 10)) { std::lock_guard<std::mutex> l(m); kept.push_back(b); } else { same(b, "dying thread"); do_free(b, q.next()); } } }); for (auto& t : th) t.join(); }
      for (auto& b : kept) { same(b, "of a dead thread"); do_free(b, r.next()); } { vector<Block>().swap(kept); }
      ME::MarkThreadIdle(); size_t tcf = prop("tcmalloc.thread_cache_free"); EXPECT(tcf < (256 << 10), "thread-cache", "%zu bytes are still in thread caches after every other thread ended", tcf); size_t now = prop("generic.current_allocated_bytes"); EXPECT(now < base + (1 << 20), "leak", "bytes in use: %zu before, %zu after the threads", base, now); if (nviol) _exit(10); _exit(77); }
    default: { late_want = 1; tls_obj.p = malloc(1000); pthread_setspecific(key, (void*)3); std::thread t([] { tls_obj.p = malloc(50); pthread_setspecific(key, (void*)3); }); t.join(); ME::SetGuardedSamplingInterval(0); ME::ActivateGuardedSampling(); busy_threads(2); auto s = ME::StartAllocationProfiling(); exit(77); }
  }
}
static int mode_x(const char* exe) {
  int n = thorough() ? 200 : 25, lates = 0; for (int k = 0; k < n; k++) { static Outcome o; char a[20]; snprintf(a, 20, "%d", k); bool e = k % 2 || k % 5 == 3;
    run_child(o, [&] { if (e) setenv("VT_EARLY", "1", 1); execl(exe, exe, "x", a, (char*)nullptr); _exit(99); }, 60); static char t[800]; o.shown(t, sizeof t);
    if (o.timeout) FATAL("stuck", "life cycle %d%s did not end within 60 s: %s", k % 5, e ? " (early use)" : "", t);
    if (strstr(o.text, "VIOL ")) { out(o.text, o.n); if (++nviol >= 3) _exit(10); } else if (!WIFEXITED(o.status) || WEXITSTATUS(o.status) != 77) VIOL("end", "life cycle %d%s ended with status %x: %.500s", k % 5, e ? " (early use)" : "", o.status, t);
    int l = 0; for (const char* p = o.text; (p = strstr(p, "LATE ")); p++) l++; lates += l; int want[] = {4, 1, 2, 0, 1}; EXPECT(l == want[k % 5], "late", "life cycle %d: %d of %d late uses completed", k % 5, l, want[k % 5]); evals += 1 + l; dist.add(k % 5 * 2 + e); }
  metric("processes", n); metric("late_uses", lates); metric("evals", evals.load()); metric("distinct", dist.n); say("SAMPLE %d processes, half of them allocating before any constructor, %d completed uses during exit", n, lates); return done();
}
// ---------------------------------------------------------------- fork
static void after_fork(vector<Block>& v, Rng r, int depth, bool child) {
  for (auto& b : v) same(b, child ? "in the child" : "in the parent");
  for (int i = 0; i < 300; i++) { size_t j = r.below(v.size()); if (r.chance(1, 2)) { do_free(v[j], r.next()); v[j] = any(r); } else { same(v[j], "after fork"); } }
  ME::GetStats(); prop("generic.current_allocated_bytes"); if (percpu) ME::ReleaseCpuMemory(r.below(NumCPUs())); ME::ReleaseMemoryToSystem(r.below(64 << 20)); for (int i = 0; i < 3; i++) background_action(r); ME::SnapshotCurrent(tcmalloc::ProfileType::kHeap).Iterate([](const tcmalloc::Profile::Sample&) {});
  vector<std::thread> th; for (int t = 0; t < 3; t++) th.emplace_back([s = r.next()] { Rng q(s); vector<Block> w; for (int i = 0; i < 300; i++) w.push_back(any(q)); for (auto& b : w) { same(b, "thread after fork"); do_free(b, q.next()); } }); for (auto& t : th) t.join();
  for (auto& b : v) same(b, "later");
}
static std::atomic<u64> forks;
static void fork_once(vector<Block>& v, Rng& r, int depth) {
  u64 s = r.next(); bool sess = r.chance(1, 4); auto tok = sess ? ME::StartAllocationProfiling() : ME::AllocationProfilingToken(); forks++; pid_t pid = fork(); if (pid < 0) FATAL("harness", "fork");
  if (!pid) { alarm(60); Rng q(s); after_fork(v, q, depth, true); if (depth < 2 && q.chance(1, 2)) fork_once(v, q, depth + 1); if (sess) std::move(tok).Stop().Iterate([](const tcmalloc::Profile::Sample&) {}); if (q.chance(1, 2)) { for (auto& b : v) do_free(b, q.next()); } _exit(nviol ? 10 : 77); }
  Rng q(s + 1); bool first = r.chance(1, 2); if (first) after_fork(v, q, depth, false); int st = 0; u64 t0 = now_ns(); for (;;) { pid_t w = waitpid(pid, &st, WNOHANG); if (w == pid) break; if (now_ns() - t0 > 70000000000ull) { kill(pid, SIGKILL); FATAL("stuck", "a forked child did not end"); } usleep(500); }
  if (WIFEXITED(st) && WEXITSTATUS(st) == 10) _exit(10); if (!WIFEXITED(st) || WEXITSTATUS(st) != 77) { if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) FATAL("stuck", "a forked child (depth %d) did not end within 60 s", depth); FATAL("child", "a forked child (depth %d) ended with status %x", depth, st); }
  if (!first) after_fork(v, q, depth, false); if (sess) std::move(tok).Stop(); evals++;
}
static int mode_f() {
  ME::SetProfileSamplingInterval(8192); Rng r(seed() * 3 + 1); if (seed() % 2) { ME::SetGuardedSamplingInterval(0); ME::ActivateGuardedSampling(); }
  vector<Block> v; for (int i = 0; i < 3000; i++) v.push_back(any(r, 2 << 20)); u64 end = now_ns() + (thorough() ? 150 : 4) * 1000000000ull; int round = 0;
  while (now_ns() < end || round < 3) { round++; int T = round % 3 ? r.below(6) : 0; static std::atomic<int> parked, go; parked = 0; go = 0; vector<std::thread> th; vector<vector<Block>> theirs(T);
    for (int t = 0; t < T; t++) th.emplace_back([&, t, s = r.next()] { Rng q(s); for (int i = 0; i < 500; i++) theirs[t].push_back(any(q)); for (int i = 0; i < 250; i++) { do_free(theirs[t].back(), q.next()); theirs[t].pop_back(); } parked++; while (!go) usleep(100); for (auto& b : theirs[t]) { same(b, "of a thread across fork"); do_free(b, q.next()); } });
    while (parked < T) usleep(100);
    if (r.chance(1, 3)) { u64 s = r.next(); std::thread f([&] { Rng q(s); fork_once(v, q, 0); }); f.join(); } else fork_once(v, r, 0);
    dist.add(T * 100 + round % 10); go = 1; for (auto& t : th) t.join(); }
  metric("forks", forks); metric("evals", evals.load()); metric("distinct", dist.n); say("SAMPLE %llu forks in the top process with up to 5 parked threads, heap of 3000 blocks verified on both sides", (unsigned long long)forks); return done();
}
int main(int argc, char** argv) {
  string m = argc > 1 ? argv[1] : "P"; percpu = ME::PerCpuCachesActive();
  if (m == "P") return mode_p(argc > 2 ? argv[2] : ""); if (m == "x") return xchild(atoi(argv[2])); if (m == "X") return mode_x("/proc/self/exe"); if (m == "F") return mode_f(); return 2;
}
