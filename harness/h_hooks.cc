// P18: allocation hooks. Every call's reports are compared with the call (S), from many threads with hooks coming and going (T, Z);
// the set of hooks against a multiset (H); page and central-list hooks against shadow ownership (I).
#include <thread>
#include <vector>
#include "vt_api.h"
#include "absl/debugging/stacktrace.h"
#include "tcmalloc/internal/central_freelist_hooks.h"
#include "tcmalloc/internal/page_allocator_hooks.h"
#include "tcmalloc/malloc_hook.h"
#include "tcmalloc/static_vars.h"
using namespace vt;
using namespace tcmalloc;
using namespace tcmalloc::tcmalloc_internal;
static Distinct dist;
static std::atomic<long long> evals{0}, n_new{0}, n_del{0}, n_snew{0}, n_sdel{0}, n_inplace{0}, n_toggle{0}, n_seen{0}, n_notseen{0}, n_unknown{0};

// shadow byte per 8 (or per page) bytes of address space
template <int SH> struct Shadow {
  static constexpr size_t N = 1 << 16, SPAN = 1 << 17; struct E { std::atomic<uintptr_t> key; std::atomic<uint8_t*> v; }; Arr<E> t{N};
  std::atomic<uint8_t>& at(const void* p) {
    uintptr_t u = (uintptr_t)p >> SH, k = u / SPAN + 1; size_t h = mix(k) % N;
    for (;;) { uintptr_t c = t[h].key.load(); if (c == k) break; if (!c && t[h].key.compare_exchange_strong(c, k)) break; if (c == k) break; h = (h + 1) % N; }
    uint8_t* v = t[h].v.load(); if (!v) { uint8_t* m = (uint8_t*)mmap(nullptr, SPAN, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); if (t[h].v.compare_exchange_strong(v, m)) v = m; else munmap(m, SPAN); }
    return *(std::atomic<uint8_t>*)(v + u % SPAN);
  }
};
static Shadow<3> live; static Shadow<kPageShift> pages; static Shadow<3> objs;
enum { kUnknown, kLive, kFreed };

struct Ev { char k; void* p; size_t a, b; bool has, mut; };
struct Log { Ev e[16]; int n; }; static __thread Log tl __attribute__((tls_model("initial-exec")));
static __thread unsigned cnt[16] __attribute__((tls_model("initial-exec")));
static __thread bool in_call __attribute__((tls_model("initial-exec")));
static bool dirty;
static void rec(Ev e) { if (tl.n < 16) tl.e[tl.n++] = e; }
static void OnNew(const MallocHook::NewInfo& i) {
  n_new++; if (!i.ptr) return;
  auto o = live.at(i.ptr).exchange(kLive); if (o == kLive) FATAL("new-live", "block %p of %zu bytes reported allocated while it is live", i.ptr, i.requested_size);
  if (i.allocated_size < i.requested_size) FATAL("sizes", "allocated %zu < requested %zu", i.allocated_size, i.requested_size);
  if (dirty && i.is_mutable == HookMemoryMutable::kMutable) memset(i.ptr, 0xA7, i.requested_size);
  rec({'N', i.ptr, i.requested_size, i.allocated_size, true, i.is_mutable == HookMemoryMutable::kMutable});
}
static void OnDel(const MallocHook::DeleteInfo& i) {
  n_del++; if (!i.ptr) return;
  auto o = live.at(i.ptr).exchange(kFreed); if (o == kFreed) FATAL("del-freed", "block %p reported freed twice", i.ptr);
  if (o == kUnknown) n_unknown++;
  if (dirty && i.is_mutable == HookMemoryMutable::kMutable) memset(i.ptr, 0x5C, i.allocated_size);
  rec({'D', i.ptr, i.deallocated_size.value_or(0), i.allocated_size, i.deallocated_size.has_value(), i.is_mutable == HookMemoryMutable::kMutable});
}
struct SRec { int state; const void* p; size_t req, alloc; long al; double w; int depth; uint64_t sh; int64_t t; uint8_t hint, acc; };
static constexpr size_t kH = 1 << 23; static Arr<SRec> srec(kH);
static SRec make(const MallocHook::SampledAlloc& s) {
  SRec r{}; r.p = s.ptr; r.req = s.requested_size; r.alloc = s.allocated_size; r.al = s.requested_alignment ? (long)*s.requested_alignment : -1; r.w = s.weight; r.depth = s.stack.size(); r.sh = 1;
  for (auto x : s.stack) r.sh = mix(r.sh ^ (uintptr_t)x) + 1; r.t = absl::ToUnixNanos(s.allocation_time); r.hint = s.access_hint; r.acc = (uint8_t)s.access_allocated; return r;
}
static __thread SRec last_s __attribute__((tls_model("initial-exec")));
static void OnSNew(const MallocHook::SampledAlloc& s) {
  n_snew++; size_t h = (size_t)s.handle; if (h >= kH) FATAL("harness", "too many samples");
  SRec r = make(s), &d = srec[h]; if (__atomic_exchange_n(&d.state, 1, __ATOMIC_SEQ_CST)) FATAL("handle", "handle %zu given to a second block", h);
  d.p = r.p; d.req = r.req; d.alloc = r.alloc; d.al = r.al; d.w = r.w; d.depth = r.depth; d.sh = r.sh; d.t = r.t; d.hint = r.hint; d.acc = r.acc;
  if (!r.p || !r.depth || !(r.w >= 0) || r.alloc < r.req) FATAL("sample", "sample of %zu bytes at %p: depth %d weight %f allocated %zu", r.req, r.p, r.depth, r.w, r.alloc);
  last_s.p = r.p; last_s.req = r.req; last_s.alloc = r.alloc; last_s.al = r.al; last_s.hint = r.hint; last_s.acc = r.acc; last_s.t = r.t;
  rec({'s', (void*)s.ptr, s.requested_size, h, true, false});
}
static void OnSDel(const MallocHook::SampledAlloc& s) {
  n_sdel++; size_t h = (size_t)s.handle; if (h >= kH) FATAL("handle", "unknown handle %zu freed", h);
  SRec r = make(s), &d = srec[h]; int st = __atomic_exchange_n(&d.state, 2, __ATOMIC_SEQ_CST); if (st == 2) FATAL("handle", "handle %zu freed twice", h);
  if (st == 1) { evals++; if (d.p != r.p || d.req != r.req || d.alloc != r.alloc || d.al != r.al || d.w != r.w || d.depth != r.depth || d.sh != r.sh || d.t != r.t || d.hint != r.hint || d.acc != r.acc)
    FATAL("handle", "handle %zu: freed as %p %zu/%zu align %ld weight %f depth %d hint %d access %d, was %p %zu/%zu align %ld weight %f depth %d hint %d access %d%s%s", h, r.p, r.req, r.alloc, r.al, r.w, r.depth, r.hint, r.acc, d.p, d.req, d.alloc, d.al, d.w, d.depth, d.hint, d.acc, d.sh != r.sh ? ", other stack" : "", d.t != r.t ? ", other time" : ""); }
  rec({'x', (void*)s.ptr, s.requested_size, h, st == 1, false});
}
static bool every;  // sampling interval 1
static size_t requested_of(const Block& b) { if (is_sr(b.fn)) return b.cap; if (b.fn == F_pvalloc) { size_t p = page_bytes(); return b.req ? (b.req + p - 1) / p * p : p; } return b.req; }
static int find(char k, void* p) { int c = 0; for (int i = 0; i < tl.n; i++) c += tl.e[i].k == k && tl.e[i].p == p; return c; }
static Ev& get(char k) { for (int i = 0; i < tl.n; i++) if (tl.e[i].k == k) return tl.e[i]; static Ev z; return z; }
static int count(char k) { int c = 0; for (int i = 0; i < tl.n; i++) c += tl.e[i].k == k; return c; }
static void judge_sample(const Block& b, const char* what) {
  int s = count('s'); if (every && s != 1) FATAL("sampled", "%s(%zu): %d sample reports with every allocation sampled", what, b.req, s);
  if (s) { Ev& e = get('s'); size_t rq = b.fn == F_pvalloc ? requested_of(b) : b.req; if (e.p != b.p || e.a != rq) FATAL("sampled", "%s(%zu) -> %p: sampled as %zu bytes at %p", what, b.req, b.p, e.a, e.p);
    bool ex = is_aligned_fn(b.fn) ; if (fam(b.fn) != kC && (last_s.al != (ex ? (long)b.align : -1)) && !(b.fn == F_valloc || b.fn == F_pvalloc)) FATAL("sampled", "%s(%zu, align %zu): alignment reported %ld", what, b.req, b.align, last_s.al);
    if (last_s.hint != (b.hot < 0 ? 255 : b.hot)) FATAL("sampled", "%s(%zu, hint %d): hint reported %d", what, b.req, b.hot, last_s.hint);
    if (llabs(absl::ToUnixNanos(absl::Now()) - last_s.t) > 20000000000ll) FATAL("sampled", "%s(%zu): time reported %ld", what, b.req, (long)last_s.t); }
}
static Block alloc(Rng& r, bool judged = true) {
  int f = r.below(F_COUNT); size_t s = rand_size(r, 1 << 20), al = rand_align(r, 14); if (zeroes(f) && s > 100000) s &= 0xffff; int hot = is_hc(f) ? (int)r.below(256) : -1;
  tl.n = 0; Block b = do_alloc(f, s, al, hot); if (!b.p) FATAL("null", "%s(%zu) failed", fn_name(f), s);
  if (judged) { evals++;
    if (count('N') != 1 || count('D')) FATAL("count", "%s(%zu, align %zu): %d allocation and %d free reports", fn_name(f), s, al, count('N'), count('D'));
    Ev& e = get('N'); size_t us = malloc_usable_size(b.p);
    if (e.p != b.p || e.a != requested_of(b) || e.b != us) FATAL("new", "%s(%zu, align %zu) -> %p (usable %zu, returned size %zu): reported as %p requested %zu allocated %zu", fn_name(f), s, al, b.p, us, b.cap, e.p, e.a, e.b);
    if (live.at(b.p) != kLive) FATAL("new", "%s(%zu): block is not reported as live", fn_name(f), s);
    judge_sample(b, fn_name(f)); dist.add(f * 1000003ull + us * 7 + count('s'));
    if (zeroes(f)) for (size_t i = 0; i < s; i++) if (((char*)b.p)[i]) FATAL("zero", "%s(%zu): byte %zu is %d", fn_name(f), s, i, ((char*)b.p)[i]);
  }
  return b;
}
static void free_one(Rng& r, const Block& b, bool judged = true) {
  size_t us = judged ? malloc_usable_size(b.p) : 0; if (judged && live.at(b.p) != kLive) FATAL("live", "live block %p is not reported as live", b.p);
  tl.n = 0; const char* how = do_free(b, r.next());
  if (!judged) return; evals++;
  if (count('D') != 1 || count('N')) FATAL("count", "%s of a block from %s(%zu): %d free and %d allocation reports", how, fn_name(b.fn), b.req, count('D'), count('N'));
  Ev& e = get('D'); bool sized = strstr(how, "sized") || strstr(how, "sdalloc");
  if (e.p != b.p || e.b != us) FATAL("del", "%s of %p (%zu usable): reported as %p allocated %zu", how, b.p, us, e.p, e.b);
  if (!sized && e.has) FATAL("del", "%s of %p: size %zu reported though none was given", how, b.p, e.a);
  if (sized && e.has && (e.a < b.req || e.a > us)) FATAL("del", "%s of %p (%zu bytes requested): size %zu reported", how, b.p, b.req, e.a);
  if (every && count('x') != 1) FATAL("sampled", "%s of %p: %d sampled-free reports with every allocation sampled", how, b.p, count('x'));
  if (count('x') && get('x').p != b.p) FATAL("sampled", "%s of %p: sampled free reports %p", how, b.p, get('x').p);
}
static void resize(Rng& r, Block& b, bool judged = true) {
  if (fam(b.fn) != kC && fam(b.fn) != kCAligned) return;
  size_t us = malloc_usable_size(b.p), s = r.chance(1, 2) ? 1 + rand_size(r, 1 << 20) : r.chance(1, 2) ? (us ? us : 1) : std::max<size_t>(1, us - r.below(us < 64 ? us + 1 : 64)), keep = std::min(us, s);
  uint64_t id = r.next(); fill(b.p, us, id); tl.n = 0; void* o = b.p; void* q = r.chance(1, 2) ? realloc(o, s) : reallocarray(o, 1, s); if (!q) FATAL("null", "realloc to %zu", s);
  if (keep < 4096 || us <= vt::kDense) { long bad = check(q, us, id, keep); if (bad >= 0) FATAL("content", "realloc %zu -> %zu: byte %ld changed", us, s, bad); }
  if (judged) { evals++; size_t nu = malloc_usable_size(q);
    if (count('N') != 1 || count('D') != 1) FATAL("count", "realloc(%p, %zu): %d allocation and %d free reports", o, s, count('N'), count('D'));
    Ev &n = get('N'), &d = get('D');
    if (n.p != q || n.a != s || n.b != nu) FATAL("realloc", "realloc(%p, %zu) -> %p (%zu usable): reported %p %zu/%zu", o, s, q, nu, n.p, n.a, n.b);
    if (d.p != o || d.b != us) FATAL("realloc", "realloc(%p of %zu, %zu): free reported as %p %zu", o, us, s, d.p, d.b);
    if (q == o) { n_inplace++; if (n.mut || d.mut) FATAL("realloc", "realloc(%p, %zu) in place lets hooks change the memory", o, s); }
    if (live.at(q) != kLive || (q != o && live.at(o) == kLive && false)) FATAL("realloc", "resized block is not live"); }
  b = Block(); b.p = q; b.req = s; b.fn = F_malloc;
}
template <int I> static void HN(const MallocHook::NewInfo&) { cnt[I]++; }
template <int I> static void HD(const MallocHook::DeleteInfo&) { cnt[8 + I]++; }
static MallocHook::NewHook hn[] = {HN<0>, HN<1>, HN<2>, HN<3>, HN<4>, HN<5>, HN<6>, HN<7>};
static MallocHook::DeleteHook hd[] = {HD<0>, HD<1>, HD<2>, HD<3>, HD<4>, HD<5>, HD<6>, HD<7>};
static std::atomic<uint64_t> inst[16], gone[16];  // epoch for which the hook is certainly in / certainly out; 0 otherwise
static std::atomic<bool> stop{false};

static void worker(int t, uint64_t end, bool permanent, bool percpu) {
  Rng r(seed() * 771 + t); std::vector<Block> v; v.reserve(4000); uint64_t synced[16] = {};
  long k = 0;
  while (now_ns() < end) {
    k++; uint64_t a[16], g[16]; bool need = false;
    for (int i = 0; i < 16; i++) { a[i] = inst[i]; g[i] = gone[i]; if (a[i] && a[i] != synced[i]) need = true; }
    // another thread's hooks reach a thread's per-CPU fast path when it is next switched out
    if (need && percpu && !permanent) { timespec ts{0, 60000}; nanosleep(&ts, nullptr); }
    for (int i = 0; i < 16; i++) if (a[i]) synced[i] = a[i];
    memset(cnt, 0, sizeof cnt); int nn = 0, nd = 0; unsigned w = r.below(8);
    if (v.size() < 3 || (w < 4 && v.size() < 3900)) { v.push_back(alloc(r, permanent)); nn = 1; }
    else if (w == 4) { size_t i = r.below(v.size()); auto f = v[i].fn; resize(r, v[i], permanent); if (fam(f) == kC || fam(f) == kCAligned) nn = nd = 1; }
    else { size_t i = r.below(v.size()); Block b = v[i]; v[i] = v.back(); v.pop_back(); free_one(r, b, permanent); nd = 1; }
    unsigned c[16]; memcpy(c, cnt, sizeof c);
    for (int i = 0; i < 16; i++) { unsigned want = i < 8 ? nn : nd;
      if (a[i] && inst[i].load() == a[i]) { n_seen++; evals++; if (c[i] != want) FATAL("toggled", "%s hook %d, installed before the call and still installed after it, was called %u times for %u", i < 8 ? "new" : "delete", i % 8, c[i], want); }
      else if (g[i] && gone[i].load() == g[i]) { n_notseen++; evals++; if (c[i]) FATAL("toggled", "%s hook %d, removed before the call, was called %u times", i < 8 ? "new" : "delete", i % 8, c[i]); }
    }
  }
  for (auto& b : v) free_one(r, b, permanent);
}
static void toggler(int t, uint64_t end, int lo, int hi) {
  Rng r(seed() * 99 + t); uint64_t ep = 1; bool on[16] = {};
  while (now_ns() < end) {
    int i = lo + r.below(hi - lo); i += r.chance(1, 2) ? 8 : 0; ep++; n_toggle++;
    if (!on[i]) { gone[i] = 0; bool ok = i < 8 ? MallocHook::AddNewHook(hn[i]) : MallocHook::AddDeleteHook(hd[i - 8]); if (!ok) FATAL("add", "adding hook %d refused with fewer than 7 installed", i); inst[i] = ep; on[i] = true; }
    else { inst[i] = 0; bool ok = i < 8 ? MallocHook::RemoveNewHook(hn[i]) : MallocHook::RemoveDeleteHook(hd[i - 8]); if (!ok) FATAL("remove", "installed hook %d not found", i); gone[i] = ep; on[i] = false; }
    if (r.chance(1, 3)) { timespec ts{0, (long)r.below(300000)}; nanosleep(&ts, nullptr); }
  }
  for (int i = 0; i < 16; i++) if (on[i]) { inst[i] = 0; if (!(i < 8 ? MallocHook::RemoveNewHook(hn[i]) : MallocHook::RemoveDeleteHook(hd[i - 8]))) FATAL("remove", "installed hook %d not found at the end", i); }
}
// internal hooks
static std::atomic<long long> n_pnew{0}, n_pdel{0}, n_ins{0}, n_rem{0}, pages_live{0};
static bool quiet_pages;
static void PNew(size_t s, size_t n, size_t al, size_t objs_per, uint8_t den, MemoryTag tag) {
  if (!s) return; n_pnew++; if (s % al) FATAL("page-align", "run at page %zu not aligned to %zu", s, al);
  for (size_t i = 0; i < n; i++) { auto o = pages.at((void*)((s + i) << kPageShift)).exchange(kLive); if (o == kLive) FATAL("page-live", "page %zu of a new run of %zu is already in one", s + i, n); }
  if (GetMemoryTag((void*)(s << kPageShift)) != tag) FATAL("page-tag", "run at page %zu reported with another tag", s); pages_live += n;
}
static void PDel(size_t s, size_t n, size_t objs_per, uint8_t den, MemoryTag tag) {
  n_pdel++; for (size_t i = 0; i < n; i++) { auto o = pages.at((void*)((s + i) << kPageShift)).exchange(kFreed); if (o == kFreed) FATAL("page-freed", "page %zu reported free twice", s + i); }
  pages_live -= n;
}
static void CIns(size_t c, absl::Span<void*> b) { n_ins += b.size(); for (void* p : b) { auto o = objs.at(p).exchange(kFreed); if (o == kFreed) FATAL("obj-freed", "object %p of class %zu returned to the central list twice", p, c); } }
static void CRem(size_t c, absl::Span<void*> b) { n_rem += b.size(); for (void* p : b) { auto o = objs.at(p).exchange(kLive); if (o == kLive) FATAL("obj-live", "object %p of class %zu taken from the central list twice", p, c); } }

int main(int argc, char** argv) {
  const char* m = argv[1]; bool percpu = strchr(m, 'C'); free(malloc(8));
  if (percpu && !MallocExtension::PerCpuCachesActive()) return inconclusive("per-CPU caches not active");
  every = strchr(m, 'P'); bool guard = strchr(m, 'G');
  MallocExtension::SetProfileSamplingInterval(every ? 1 : guard ? 4096 : 65536); MallocExtension::SetGuardedSamplingInterval(guard ? 4096 : -1); if (guard) MallocExtension::ActivateGuardedSampling();
  for (int i = 0; i < 30; i++) ::operator delete(::operator new(64 << 20));
  (void)live.at(m); uint64_t end = now_ns() + (thorough() ? 200ull : 4ull) * 1000000000; Rng r(seed() * 1313);
  dirty = strchr(m, 'W');
  auto plain = [&] { if (!MallocHook::AddNewHook(OnNew) || !MallocHook::AddDeleteHook(OnDel)) FATAL("add", "hook refused"); };
  auto sampled = [&] { if (!MallocHook::AddSampledNewHook(OnSNew) || !MallocHook::AddSampledDeleteHook(OnSDel)) FATAL("add", "hook refused"); };
  if (strchr(m, 'S')) {
    std::vector<Block> v; v.reserve(3000); plain(); sampled();
    while (now_ns() < end && n_snew < (long long)kH - 100) {
      unsigned w = r.below(8);
      if (v.size() < 3 || (w < 4 && v.size() < 2900)) v.push_back(alloc(r)); else if (w == 4) resize(r, v[r.below(v.size())]);
      else { size_t i = r.below(v.size()); Block b = v[i]; v[i] = v.back(); v.pop_back(); free_one(r, b); }
      if (r.chance(1, 200)) { tl.n = 0; free(nullptr); ::operator delete(nullptr); if (tl.n) FATAL("null", "freeing NULL reports a block"); void* p = malloc((size_t)1 << 62); if (p || tl.n) FATAL("fail", "a failed allocation is reported"); void* q = ::operator new((size_t)1 << 62, std::nothrow); if (q || tl.n) FATAL("fail", "a failed allocation is reported"); Block& b = v[r.below(v.size())]; if (fam(b.fn) == kC) { if (realloc(b.p, (size_t)1 << 62) || tl.n) FATAL("fail", "a failed resize is reported"); } }
    }
    for (auto& b : v) free_one(r, b);
    if (MallocHook::RemoveNewHook(HN<1>)) FATAL("remove", "a hook that was never added was removed");
    if (!MallocHook::RemoveNewHook(OnNew) || !MallocHook::RemoveDeleteHook(OnDel) || !MallocHook::RemoveSampledNewHook(OnSNew) || !MallocHook::RemoveSampledDeleteHook(OnSDel)) FATAL("remove", "installed hook not found");
    long long a = n_new + n_del + n_snew + n_sdel; for (int i = 0; i < 1000; i++) { Block b = alloc(r, false); free_one(r, b, false); } if (n_new + n_del + n_snew + n_sdel != a) FATAL("removed", "removed hooks are still called");
    if (n_unknown) FATAL("unknown", "%lld frees of blocks never reported", (long long)n_unknown);
  } else if (strchr(m, 'T') || strchr(m, 'Z')) {
    bool perm = strchr(m, 'T'); if (perm) { plain(); sampled(); }
    std::vector<std::thread> th; for (int t = 0; t < 6; t++) th.emplace_back(worker, t, end, perm, percpu);
    th.emplace_back(toggler, 1, end, 0, 3); th.emplace_back(toggler, 2, end, 3, 6);
    for (auto& x : th) x.join();
    for (int i = 0; i < 8; i++) if (MallocHook::RemoveNewHook(hn[i]) || MallocHook::RemoveDeleteHook(hd[i])) FATAL("left", "a removed hook is still in the set");
    if (!n_seen || !n_notseen) return inconclusive("no call fell inside an installation");
  } else if (strchr(m, 'H')) {
    int on[8] = {}, don[8] = {}, tot = 0, dtot = 0; long rounds = 0;
    while (now_ns() < end) {
      int i = r.below(8); rounds++; evals++;
      switch (r.below(5)) {
        case 0: case 1: { bool ok = MallocHook::AddNewHook(hn[i]); if (ok != (tot < 7)) FATAL("add", "adding a hook with %d installed: %d", tot, ok); if (ok) on[i]++, tot++; break; }
        case 2: { bool ok = MallocHook::RemoveNewHook(hn[i]); if (ok != (on[i] > 0)) FATAL("remove", "removing a hook installed %d times: %d", on[i], ok); if (ok) on[i]--, tot--; break; }
        case 3: { bool ok = MallocHook::AddDeleteHook(hd[i]); if (ok != (dtot < 7)) FATAL("add", "adding a hook with %d installed: %d", dtot, ok); if (ok) don[i]++, dtot++; break; }
        case 4: { bool ok = MallocHook::RemoveDeleteHook(hd[i]); if (ok != (don[i] > 0)) FATAL("remove", "removing a hook installed %d times: %d", don[i], ok); if (ok) don[i]--, dtot--; break; }
      }
      if (r.chance(1, 20)) { if (MallocHook::AddNewHook(nullptr) || MallocHook::RemoveNewHook(nullptr) || MallocHook::AddSampledNewHook(nullptr)) FATAL("null", "a null hook was accepted"); }
      int k = r.range(1, 3); memset(cnt, 0, sizeof cnt); for (int j = 0; j < k; j++) { Block b = alloc(r, false); do_free(b, r.next()); }
      for (int j = 0; j < 8; j++) if ((int)cnt[j] != on[j] * k || (int)cnt[8 + j] != don[j] * k) FATAL("set", "hook %d installed %d/%d times was called %u/%u times for %d blocks", j, on[j], don[j], cnt[j], cnt[8 + j], k);
      uint64_t h = 0; for (int j = 0; j < 8; j++) h = h * 9 + on[j]; dist.add(h * 64 + don[i]);
    }
  } else {  // I
    if (!page_allocator_new_hooks.Add(PNew) || !page_allocator_delete_hooks.Add(PDel) || !central_freelist_insert_range_hooks.Add(CIns) || !central_freelist_remove_range_hooks.Add(CRem)) FATAL("add", "hook refused");
    std::vector<std::thread> th; for (int t = 0; t < 6; t++) th.emplace_back([t, end] { Rng r(seed() * 5 + t); std::vector<Block> v; v.reserve(6000); bool grow = true;
      while (now_ns() < end) { if (v.size() < 20) grow = true; if (v.size() > 5900) grow = false;
        if (v.size() < 3 || (r.chance(grow ? 3 : 1, 4) && v.size() < 5990)) { Block b = do_alloc(r.below(F_COUNT), rand_size(r, 1 << 20), rand_align(r, 14), 255 * r.below(2)); if (!b.p) continue; evals++;
            v.push_back(b); if (b.req > kMaxSize || true) { uintptr_t p = (uintptr_t)b.p; dist.add(b.fn * 64 + lg2(b.req | 1)); (void)p; } if (b.req > kMaxSize) for (size_t o = 0; o < b.req; o += kPageSize) if (pages.at((char*)b.p + o) != kLive) FATAL("page-missing", "large block's page was not reported as taken"); }
        else { size_t i = r.below(v.size()); Block b = v[i]; v[i] = v.back(); v.pop_back(); do_free(b, r.next()); } if (r.chance(1, 20000)) MallocExtension::ReleaseMemoryToSystem(1 << 20); }
      for (auto& b : v) do_free(b, r.next()); });
    for (auto& x : th) x.join();
    if (!n_pnew || !n_pdel || !n_ins || !n_rem) return inconclusive("no internal reports");
  }
  metric("evals", evals); metric("distinct", dist.n + n_toggle); metric("new_reports", n_new); metric("delete_reports", n_del); metric("sampled_new", n_snew); metric("sampled_delete", n_sdel); metric("in_place_resizes", n_inplace); metric("hook_changes", n_toggle); metric("calls_inside_installation", n_seen); metric("calls_after_removal", n_notseen); metric("page_runs", n_pnew); metric("central_objects", n_rem);
  say("SAMPLE mode=%s percpu=%d new=%lld delete=%lld sampled=%lld/%lld toggles=%lld inside=%lld outside=%lld runs=%lld/%lld central=%lld/%lld", m, (int)MallocExtension::PerCpuCachesActive(), (long long)n_new, (long long)n_del, (long long)n_snew, (long long)n_sdel, (long long)n_toggle, (long long)n_seen, (long long)n_notseen, (long long)n_pnew, (long long)n_pdel, (long long)n_rem, (long long)n_ins);
  return done();
}
