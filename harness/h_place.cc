// P24: blocks of different groups (cold hint, security partition, NUMA partition, sampled) never share
// pages or huge pages; the expected group of every block is computed from the request alone.
//   h_place MODE FLAGS   MODE: off | full | light | numa ; FLAGS: s sampling, g guarded sampling, b no-binding expected, u unpinned
#include <memory>
#include <mutex>
#include <thread>
#include <vector>
#include "vt_api.h"
#include "vt_maint.h"
#include <sys/syscall.h>
#include "tcmalloc/pagemap.h"
#include "tcmalloc/span.h"
#include "tcmalloc/guarded_page_allocator.h"
#include "tcmalloc/parameters.h"
using namespace vt;
using ME = tcmalloc::MallocExtension;
using namespace tcmalloc::tcmalloc_internal;
typedef uint64_t u64;
#ifdef TCMALLOC_INTERNAL_SMALL_BUT_SLOW
static const bool kCold = false;
#else
static const bool kCold = true;
#endif
// ---- fake machine with several memory nodes
static int fake_nodes() { static int n = -1; if (n < 0) n = (int)envu("VT_FAKE_NODES", 0); return n; }
static int node_of_cpu(int c) { return (c / 2) % fake_nodes(); }  // cpus 0-1 on node 0, 2-3 on node 1, ...
struct Bind { uintptr_t a; size_t n; u64 mask; int mode; };
static Bind binds[4096]; static std::atomic<int> nbinds{0};
extern "C" long syscall(long nr, ...) noexcept {
  va_list ap; va_start(ap, nr); long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long); va_end(ap);
  if (nr == SYS_mbind && fake_nodes()) { int i = nbinds++; if (i < 4096) binds[i] = {(uintptr_t)a, (size_t)b, *(u64*)d, (int)c}; return 0; }
  register long r10 asm("r10") = d; register long r8 asm("r8") = e; register long r9 asm("r9") = f; long r;
  asm volatile("syscall" : "=a"(r) : "a"(nr), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
  if (r < 0 && r > -4096) { errno = -r; return -1; } return r;
}
static int fake_open(const char* p, int flags, int mode) {
  int k; if (fake_nodes() && sscanf(p, "/sys/devices/system/node/node%d/cpulist", &k) == 1) {
    if (k >= fake_nodes()) { errno = ENOENT; return -1; }
    char s[4096]; int n = 0; for (int c = 0; c < 256; c += 2) if (node_of_cpu(c) == k) n += snprintf(s + n, sizeof s - n, "%s%d-%d", n ? "," : "", c, c + 1); s[n++] = '\n';
    int fd = (int)syscall(SYS_memfd_create, "cpulist", 1L, 0L, 0L, 0L, 0L); if (fd >= 0) { ssize_t w = write(fd, s, n); (void)w; lseek(fd, 0, SEEK_SET); } return fd; }
  return (int)syscall(SYS_openat, (long)AT_FDCWD, p, (long)flags, (long)mode, 0L, 0L);
}
extern "C" int open(const char* p, int flags, ...) { va_list ap; va_start(ap, flags); int m = flags & (O_CREAT | O_TMPFILE) ? va_arg(ap, int) : 0; va_end(ap); return fake_open(p, flags, m); }
extern "C" int open64(const char* p, int flags, ...) { va_list ap; va_start(ap, flags); int m = flags & (O_CREAT | O_TMPFILE) ? va_arg(ap, int) : 0; va_end(ap); return fake_open(p, flags, m); }

enum Mode { OFF, FULL, LIGHT, NUMA_ }; static Mode mode; static bool samp, guard, nobind, unpinned;
enum Grp { H0 = 4, H1 = 6, COLD = 2, S0 = 0, S1 = 1 };  // as address tags
static const char* gname(int g) { switch (g) { case H0: return "normal-0"; case H1: return "normal-1"; case COLD: return "cold"; case S0: return "sampled-0"; case S1: return "sampled-1"; } return "metadata-or-unknown"; }
static int tag_of(const void* p) { return ((uintptr_t)p >> 42) & 7; }
static Arr<std::atomic<uint8_t>> owner(1ull << 26);   // one per huge page: group + 1, for good
static std::atomic<u64> evals, allocs, reallocs, moved, cross_frees, hugepages, n_sampled, n_guarded, per_group[8];
static Distinct dist;
static int min_hot = 1; static thread_local int my_part;   // NUMA partition of the CPU this thread is pinned to (-1: unpinned)

// The groups a request may be served from. part: 1 << partition bits (which security partition the block belongs to)
static unsigned expect(bool is_new, bool cold, unsigned parts, size_t size, size_t align, bool sampled, bool guarded = false) {
  unsigned out = 0; bool small = size <= kMaxSize && align <= kPageSize;
  for (int part = 0; part < 2; part++) { if (!(parts >> part & 1)) continue;
    unsigned g;
    bool p1 = mode == FULL ? part == 1 : mode == LIGHT ? part == 1 || is_new : false;
    bool c = cold && kCold && (mode != FULL || part == 0);
    if (mode == NUMA_) g = c ? 1 << COLD : my_part < 0 ? 1 << H0 | 1 << H1 : 1 << (my_part ? H1 : H0);
    else g = c ? 1 << COLD : 1 << (p1 ? H1 : H0);
    if (mode == LIGHT && !small && is_new && part == 0 && !c) g |= 1 << H0;   // large operator-new blocks: either
    if (size == 0 && c) g |= 1 << H0 | expect(is_new, false, parts, size, align, false); // no cold class for nothing
    if (sampled && small) g = 1 << (mode == FULL && part == 1 && !guarded ? S1 : S0);  // guarded blocks have pages of their own in one area
    out |= g; }
  return out;
}
static void judge(const void* p, size_t size, unsigned want, const char* what, int hint, int part) {
  int t = tag_of(p); evals++; per_group[t]++;
  if (!(want >> t & 1)) { char w[80]; int n = 0; for (int g = 0; g < 8; g++) if (want >> g & 1) n += snprintf(w + n, sizeof w - n, " %s", gname(g)); VIOL("group", "%s: block of %zu bytes (hint %d, partition %d, cpu partition %d) lies in %s memory, belongs in%s", what, size, hint, part, my_part, gname(t), w); }
  uintptr_t a = (uintptr_t)p >> 21, b = ((uintptr_t)p + (size ? size - 1 : 0)) >> 21; if (b >= 1ull << 26) { VIOL("address", "block at %p", p); return; }
  for (uintptr_t h = a; h <= b; h++) { uint8_t o = owner[h].load(std::memory_order_relaxed); if (!o) { uint8_t z = 0; if (owner[h].compare_exchange_strong(z, t + 1)) { hugepages++; o = t + 1; } else o = z; } if (o != t + 1) VIOL("hugepage", "huge page %lx is used for %s, was used for %s", (long)h, gname(t), gname(o - 1)); }
  if (mode == NUMA_ && (t == H0 || t == H1)) { bool got = false; int n = std::min(4096, nbinds.load()); for (int i = n; i-- > 0;) if ((uintptr_t)p >= binds[i].a && (uintptr_t)p + size <= binds[i].a + binds[i].n) { got = true; u64 m = 0; for (int k = 0; k < fake_nodes(); k++) if (k % 2 == (t == H1)) m |= 1ull << k; EXPECT(binds[i].mask == m, "bind", "memory of %s bound to nodes %lx, expected %lx", gname(t), binds[i].mask, m); break; }
    if (nobind) EXPECT(!got, "bind", "memory bound although binding is off"); else EXPECT(got, "bind", "memory of %s at %p was never bound to nodes", gname(t), p); }
}
static bool is_sampled(const void* p, bool& guarded) { guarded = tc_globals.guardedpage_allocator().PointerIsMine(p); auto [s, c] = tc_globals.pagemap().GetDescriptorAndSizeClass(PageIdContaining(p)); return c == 0 && s && s->sampled(); }

// ---- every entry point that takes a token: kinds 0.. of token id; the block is then described by an entry point freed alike
static const int kTokKinds = 29;
#define TOK(id) static Block tok##id(int k, size_t n, size_t al, int hot) { Block b; b.req = n; b.hot = -1; std::align_val_t a = (std::align_val_t)al; auto& nt = std::nothrow; auto hc = (tcmalloc::hot_cold_t)hot; __sized_ptr_t s{nullptr, 0}; \
  auto P = [&](void* p, int fn, bool aligned = false, bool h = false) { b.p = p; b.fn = fn; b.align = aligned ? al : 0; if (h) b.hot = hot; }; auto S = [&](__sized_ptr_t p, int fn, bool aligned, bool h) { P(p.p, fn, aligned, h); b.cap = p.n; }; \
  switch (k) { \
    case 0: P(__alloc_token_##id##__Znwm(n), F_new); break; case 1: P(__alloc_token_##id##__Znam(n), F_newarr); break; \
    case 2: P(__alloc_token_##id##__ZnwmRKSt9nothrow_t(n, nt), F_new); break; case 3: P(__alloc_token_##id##__ZnamRKSt9nothrow_t(n, nt), F_newarr); break; \
    case 4: P(__alloc_token_##id##__ZnwmSt11align_val_t(n, a), F_newal, true); break; case 5: P(__alloc_token_##id##__ZnamSt11align_val_t(n, a), F_newarral, true); break; \
    case 6: P(__alloc_token_##id##__ZnwmSt11align_val_tRKSt9nothrow_t(n, a, nt), F_newal, true); break; case 7: P(__alloc_token_##id##__ZnamSt11align_val_tRKSt9nothrow_t(n, a, nt), F_newarral, true); break; \
    case 8: P(__alloc_token_##id##__Znwm12__hot_cold_t(n, hc), F_new_hc, false, true); break; case 9: P(__alloc_token_##id##__ZnwmRKSt9nothrow_t12__hot_cold_t(n, nt, hc), F_new_hc, false, true); break; \
    case 10: P(__alloc_token_##id##__ZnwmSt11align_val_t12__hot_cold_t(n, a, hc), F_newal_hc, true, true); break; case 11: P(__alloc_token_##id##__ZnwmSt11align_val_tRKSt9nothrow_t12__hot_cold_t(n, a, nt, hc), F_newal_hc, true, true); break; \
    case 12: P(__alloc_token_##id##__Znam12__hot_cold_t(n, hc), F_newarr_hc, false, true); break; case 13: P(__alloc_token_##id##__ZnamRKSt9nothrow_t12__hot_cold_t(n, nt, hc), F_newarr_hc, false, true); break; \
    case 14: P(__alloc_token_##id##__ZnamSt11align_val_t12__hot_cold_t(n, a, hc), F_newarral_hc, true, true); break; case 15: P(__alloc_token_##id##__ZnamSt11align_val_tRKSt9nothrow_t12__hot_cold_t(n, a, nt, hc), F_newarral_hc, true, true); break; \
    case 16: S(__alloc_token_##id##___size_returning_new(n), F_srnew, false, false); break; case 17: S(__alloc_token_##id##___size_returning_new_aligned(n, a), F_srnewal, true, false); break; \
    case 18: S(__alloc_token_##id##___size_returning_new_hot_cold(n, hc), F_srnew_hc, false, true); break; case 19: S(__alloc_token_##id##___size_returning_new_aligned_hot_cold(n, a, hc), F_srnewal_hc, true, true); break; \
    case 20: P(__alloc_token_##id##_malloc(n), F_malloc); break; case 21: P(__alloc_token_##id##_realloc(nullptr, n), F_malloc); break; case 22: P(__alloc_token_##id##_reallocarray(nullptr, n, 1), F_malloc); break; case 23: P(__alloc_token_##id##_calloc(1, n), F_malloc); break; \
    case 24: P(__alloc_token_##id##_memalign(al, n), F_memalign, true); break; case 25: P(__alloc_token_##id##_aligned_alloc(al, n), F_aligned_alloc, true); break; \
    case 26: { if (al < 8) al = 8; void* p; if (__alloc_token_##id##_posix_memalign(&p, al, n)) p = nullptr; P(p, F_posix_memalign, true); break; } \
    case 27: P(__alloc_token_##id##_valloc(n), F_valloc, true); b.align = page_bytes(); break; default: P(__alloc_token_##id##_pvalloc(n), F_pvalloc, true); b.align = page_bytes(); break; } \
  return b; }
TOK(0) TOK(1)
struct Slot { std::atomic<int> busy{0}; Block b; unsigned parts = 0; u64 id = 0; int by = -1; };
static void worker(int t, int nthr, Slot* slots, int nslots, const std::vector<int>& cpus, u64 dl) {
  Rng r(seed() * 977 + t); free(malloc(8)); subtle::percpu::IsFast(); u64 n = 0; my_part = unpinned ? -1 : 0;
  auto pin = [&] { if (unpinned) return; int c = cpus[r.below(cpus.size())]; cpu_set_t s; CPU_ZERO(&s); CPU_SET(c, &s); if (sched_setaffinity(0, sizeof s, &s)) { my_part = -1; return; } my_part = fake_nodes() ? node_of_cpu(c) % 2 : 0; };
  if (mode == NUMA_) pin();
  while (now_ns() < dl) {
    if (mode == NUMA_ && r.chance(1, 400)) pin();
    Slot& s = slots[r.below(nslots)]; if (s.busy.exchange(1, std::memory_order_acquire)) continue;
    size_t len = std::max(s.b.req, is_sr(s.b.fn) ? s.b.cap : 0);
    if (s.b.p) { if (check(s.b.p, len, s.id) >= 0) FATAL("content", "%s block of %zu bytes was changed", fn_name(s.b.fn), len);
      judge(s.b.p, len, 1u << tag_of(s.b.p), "live block", s.b.hot, -1); }
    if (!s.b.p || (r.chance(1, 6) && (fam(s.b.fn) == kC || fam(s.b.fn) == kCAligned))) {
      bool re = s.b.p != nullptr; size_t sz = r.chance(1, 40) ? r.below(3 << 20) : r.chance(1, 10) ? r.below(kMaxSize + 1) : rand_size(r) % 20000, al = rand_align(r, r.chance(1, 20) ? 19 : 12); bool g;
      if (!re) {
        bool tk = r.chance(2, 5); int kind = r.below(kTokKinds), tid = r.below(2), f = r.below(F_COUNT), hint = r.chance(1, 2) ? 0 : r.chance(1, 3) ? std::min(255, std::max(0, min_hot - 1 + (int)r.below(3))) : (int)r.below(256); if (!tk && !is_hc(f)) hint = -1;
        Block b = tk ? (tid ? tok1 : tok0)(kind, sz, al, hint) : do_alloc(f, sz, al, hint); if (tk) { f = b.fn; hint = b.hot; } if (!b.p) { s.busy.store(0, std::memory_order_release); continue; } int token = tk ? tid : token_of(f);
        size_t useda = f == F_valloc || f == F_pvalloc ? page_bytes() : is_aligned_fn(f) ? b.align : 1; size_t used = f == F_pvalloc ? (sz ? (sz + page_bytes() - 1) / page_bytes() * page_bytes() : page_bytes()) : sz;
        bool sm = is_sampled(b.p, g); n_sampled += sm; n_guarded += g; int part = token == 0 ? 0 : 1; bool cold = hint >= 0 && hint < min_hot; Fam m = fam(f); bool is_new = m != kC && m != kCAligned;
        char nm[64]; snprintf(nm, sizeof nm, "%s%s", tk ? tid ? "token-1 kind of " : "token-0 kind of " : "", fn_name(f)); judge(b.p, std::max(b.req, b.cap), expect(is_new, cold, 1u << part, used, useda, sm, g), nm, hint, part);
        if ((uintptr_t)b.p % min_align(f, sz, b.align) && !g) VIOL("align", "%s(%zu, align %zu, hint %d) at %p", fn_name(f), sz, b.align, hint, b.p);
        if (size_t u = malloc_usable_size(b.p); u < std::max(b.req, b.cap)) VIOL("size", "%s(%zu) hint %d: usable size %zu", fn_name(f), sz, hint, u);
        dist.add(mix(f * 64 + (tk ? (kind * 2 + tid + 1) * 8192 : 0) + tag_of(b.p) * 8 + sm * 2 + g) + tc_globals.pagemap().sizeclass(PageIdContaining(b.p))); s.b = b; s.parts = 1u << part; allocs++;
      } else {
        unsigned parts = s.parts; int f = r.below(4); int tok = f == 1 ? 0 : f == 2 ? 1 : -1; void* q; size_t old = s.b.req; void* was = s.b.p; if (!sz) sz = 1; u64 id = s.id;
        q = f == 0 ? realloc(was, sz) : f == 1 ? __alloc_token_0_realloc(was, sz) : f == 2 ? __alloc_token_1_realloc(was, sz) : reallocarray(was, 1, sz);
        if (!q) { s.busy.store(0, std::memory_order_release); continue; } reallocs++;
        if (check(q, std::max(old, len), id, std::min(std::max(old, len), sz)) >= 0) FATAL("content", "realloc from %zu to %zu bytes changed the content", old, sz);
        bool sm = is_sampled(q, g); n_sampled += sm; n_guarded += g; static const char* rn[] = {"realloc", "tok0_realloc", "tok1_realloc", "reallocarray"};
        if (q != was) { moved++; judge(q, sz, expect(false, false, parts, sz, 1, sm, g), rn[f], -1, parts == 1 ? 0 : parts == 2 ? 1 : -1); }
        // where a sampled block's partition is only known by its token, the token given last counts
        if (sm && mode != OFF && mode != NUMA_) { int tp = tok == 0 ? 0 : 1; if (tag_of(q) == S0 && (mode == LIGHT || g)) parts |= 1u << tp; }
        else if (mode == FULL) { if (tag_of(q) == H0) parts = 1; if (tag_of(q) == H1) parts = 2; } else if (mode == LIGHT && sz > 0) { parts = tag_of(q) == H0 ? 1 : tag_of(q) == H1 ? 2 : parts; }
        dist.add(mix(f * 64 + tag_of(q) * 8 + sm * 2 + g + 100000) + tc_globals.pagemap().sizeclass(PageIdContaining(q))); s.b.p = q; s.b.req = sz; s.b.cap = 0; s.b.fn = F_malloc; s.b.align = 0; s.b.hot = -1; s.parts = parts;
      }
      s.id = r.next(); s.by = t; fill(s.b.p, std::max(s.b.req, is_sr(s.b.fn) ? s.b.cap : 0), s.id);
    } else { if (s.by != t) cross_frees++; do_free(s.b, r.next()); s.b.p = nullptr; }
    s.busy.store(0, std::memory_order_release); n++;
  }
}
int main(int argc, char** argv) {
  std::string m = argc > 1 ? argv[1] : "off", fl = argc > 2 ? argv[2] : ""; mode = m == "full" ? FULL : m == "light" ? LIGHT : m == "numa" ? NUMA_ : OFF;
  samp = fl.find('s') != std::string::npos; guard = fl.find('g') != std::string::npos; nobind = fl.find('b') != std::string::npos; unpinned = fl.find('u') != std::string::npos;
  bool percpu = ME::PerCpuCachesActive(); std::vector<int> cpus; cpu_set_t cs; CPU_ZERO(&cs); sched_getaffinity(0, sizeof cs, &cs); for (int c = 0; c < CPU_SETSIZE; c++) if (CPU_ISSET(c, &cs)) cpus.push_back(c);
  if (mode == NUMA_) { bool two = false; for (int c : cpus) if (node_of_cpu(c) % 2 != node_of_cpu(cpus[0]) % 2) two = true; if (!two) return inconclusive("no CPUs of two nodes"); if (!tc_globals.numa_topology().numa_aware()) return inconclusive("NUMA awareness is off"); }
  bool want_off = mode == OFF; if (Parameters::heap_partitioning_mode() != (mode == FULL ? HeapPartitioningMode::kFull : mode == LIGHT ? HeapPartitioningMode::kLight : HeapPartitioningMode::kOff)) FATAL("mode", "heap partitioning mode is not as selected by the environment"); (void)want_off;
  ME::SetProfileSamplingInterval(samp ? 2048 : guard ? 4096 : 0); ME::SetGuardedSamplingInterval(guard ? 0 : -1); if (guard) ME::ActivateGuardedSampling();
  if (samp || guard) for (int i = 0; i < 300; i++) ::operator delete(::operator new(1 << 20));
  int T = 6, N = 12000; Slot* S = (Slot*)mmap(nullptr, N * sizeof(Slot), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  int rounds = 0; u64 end = now_ns() + (thorough() ? 200 : 5) * 1000000000ull; Rng r(seed());
  while (now_ns() < end) {
    u64 dl = std::min<u64>(end, now_ns() + (thorough() ? 4000 : 700) * 1000000ull); std::vector<std::thread> th; std::atomic<bool> stop{false};
    min_hot = rounds % 2 == 0 ? 1 : (int)r.below(256); Parameters::set_min_hot_access_hint((tcmalloc::hot_cold_t)min_hot);  // blocks of earlier rounds are freed under the new threshold
    for (int t = 0; t < T; t++) th.emplace_back(worker, t + rounds * 16, T, S, N, cpus, dl);
    std::thread bg([&] { Rng q(seed() + rounds); free(malloc(8)); subtle::percpu::IsFast(); while (!stop) { background_action(q); if (percpu && q.chance(1, 3)) ME::ReleaseCpuMemory(q.below(NumCPUs())); if (q.chance(1, 3)) ME::ReleaseMemoryToSystem(q.below(256 << 20)); usleep(300); } });
    for (auto& t : th) t.join(); stop = true; bg.join();
    // most blocks go, their memory is given back, and the next round uses it again
    for (int i = 0; i < N; i++) if (S[i].b.p && r.chance(9, 10)) { if (check(S[i].b.p, std::max(S[i].b.req, is_sr(S[i].b.fn) ? S[i].b.cap : 0), S[i].id) >= 0) FATAL("content", "block changed"); do_free(S[i].b, r.next()); S[i].b.p = nullptr; }
    if (percpu) for (int c = 0; c < NumCPUs(); c++) ME::ReleaseCpuMemory(c); else ME::MarkThreadIdle();
    ME::ReleaseMemoryToSystem(rounds % 2 ? ~0ull >> 1 : r.below(1 << 28)); rounds++;
  }
  if (mode == NUMA_ && nobind) EXPECT(nbinds == 0, "bind", "%d ranges bound although binding is off", nbinds.load());
  int need[8] = {}; if (mode == FULL) need[H0] = need[H1] = 1, need[COLD] = kCold; else if (mode == LIGHT) need[H0] = need[H1] = 1, need[COLD] = kCold; else if (mode == NUMA_) need[H0] = need[H1] = 1, need[COLD] = 1; else need[H0] = 1, need[COLD] = kCold;
  if (samp) { need[S0] = 1; need[S1] = mode == FULL; } for (int g = 0; g < 8; g++) if (need[g] && !per_group[g]) return inconclusive("a group was never seen");
  if (samp && !n_sampled) return inconclusive("nothing was sampled"); if (guard && !n_guarded) return inconclusive("nothing was guarded");
  metric("allocs", allocs); metric("reallocs", reallocs); metric("moved", moved); metric("frees_by_another_thread", cross_frees); metric("hugepages", hugepages); metric("sampled", n_sampled); metric("guarded", n_guarded); metric("bound_ranges", nbinds.load()); metric("evals", evals.load()); metric("distinct", dist.n);
  say("SAMPLE %d rounds; blocks seen: normal-0 %llu normal-1 %llu cold %llu sampled-0 %llu sampled-1 %llu; %llu huge pages owned", rounds, (unsigned long long)per_group[H0], (unsigned long long)per_group[H1], (unsigned long long)per_group[COLD], (unsigned long long)per_group[S0], (unsigned long long)per_group[S1], (unsigned long long)hugepages);
  return done();
}
