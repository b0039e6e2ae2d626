// P26: the system layer. Modes: S default factory, U user factories, K the same on a kernel without MAP_FIXED_NOREPLACE, R release
// and collapse, T several threads; G (full build) the whole allocator over user factories. System calls are interposed, recorded and may fail.
#include <algorithm>
#include <cstdarg>
#include <functional>
#include <map>
#include <mutex>
#include <string>
#include <thread>
#include <vector>
#include <linux/mempolicy.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/syscall.h>
#include "vt.h"
#include "vt_child.h"
#include "tcmalloc/internal/memory_tag.h"
#include "tcmalloc/internal/numa.h"
#include "tcmalloc/internal/parameter_accessors.h"
#include "tcmalloc/internal/system_allocator.h"
#include "tcmalloc/malloc_extension.h"
#include "tcmalloc/static_vars.h"
using namespace vt;
using namespace tcmalloc;
using namespace tcmalloc::tcmalloc_internal;
typedef uintptr_t U; typedef AddressRegionFactory::UsageHint Hint;
static Distinct dist; static std::atomic<long long> evals{0}, n_res{0}, n_null{0}, n_refused{0}, n_exist{0}, n_create{0}, n_rel{0}, n_hist{0}, n_ded{0};
static const U kBig = U{1} << 42;
// ---- interposed calls
enum EvOp { kMap, kUnmap, kProt, kAdv, kUnlock, kName, kBind };
struct Ev { int op; U a; size_t n; long x, y, r; int err; char name[80]; };
static std::vector<Ev>* evs; static bool rec = false, old_kernel = false, no_dontneed_locked = false; static std::vector<std::pair<U, size_t>>* internal_; static bool collecting = false;
static std::function<int(int op, U a, size_t n, long x)>* refuse; static int mbind_err = 0;
static long raw(long nr, long a, long b, long c, long d, long e, long f) { long r; register long r10 asm("r10") = d; register long r8 asm("r8") = e; register long r9 asm("r9") = f; asm volatile("syscall" : "=a"(r) : "a"(nr), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory"); return r; }
static bool ours(U a) { if (!rec) return false; for (auto& i : *internal_) if (a >= i.first && a < i.first + i.second) return false; return true; }
static long ret(long r) { if (r < 0 && r > -4096) { errno = -r; return -1; } return r; }
static long step(int op, long nr, U a, size_t n, long x, long y, long fd, long off, const char* name = nullptr) {
  bool o = ours(a); int bad = 0; if (o && refuse && *refuse) bad = (*refuse)(op, a, n, x); int saved = errno; long r = bad ? -bad : raw(nr, a, n, x, y, fd, off);
  if (collecting && op == kMap && r > 0 && n >= (64u << 20)) internal_->push_back({(U)r, n});
  if (o) { Ev e{op, a, n, x, y, r, r < 0 && r > -4096 ? (int)-r : 0, {0}}; if (op == kMap && !e.err) e.r = r; if (name) snprintf(e.name, sizeof e.name, "%s", name); evs->push_back(e); if (bad) n_refused++; } errno = saved; return ret(r); }
extern "C" {
void* mmap(void* a, size_t n, int p, int f, int fd, off_t off) noexcept { int g = f; if (old_kernel && (f & MAP_FIXED_NOREPLACE) && !(f & MAP_FIXED)) g = f & ~MAP_FIXED_NOREPLACE; return (void*)step(kMap, SYS_mmap, (U)a, n, p, g, fd, off); }
void* mmap64(void* a, size_t n, int p, int f, int fd, off64_t off) noexcept { return mmap(a, n, p, f, fd, off); }
int munmap(void* a, size_t n) noexcept { return step(kUnmap, SYS_munmap, (U)a, n, 0, 0, 0, 0); }
int mprotect(void* a, size_t n, int p) noexcept { return step(kProt, SYS_mprotect, (U)a, n, p, 0, 0, 0); }
int madvise(void* a, size_t n, int v) noexcept { if (v == MADV_DONTNEED_LOCKED && no_dontneed_locked) { errno = EINVAL; return -1; } return step(kAdv, SYS_madvise, (U)a, n, v, 0, 0, 0); }
int munlock(const void* a, size_t n) noexcept { return step(kUnlock, SYS_munlock, (U)a, n, 0, 0, 0, 0); }
int prctl(int op, ...) noexcept { va_list v; va_start(v, op); long a = va_arg(v, long), b = va_arg(v, long), c = va_arg(v, long), d = va_arg(v, long); va_end(v);
  if (op == PR_SET_VMA && a == PR_SET_VMA_ANON_NAME) { bool o = ours(b); if (o) { Ev e{kName, (U)b, (size_t)c, 0, 0, 0, 0, {0}}; snprintf(e.name, sizeof e.name, "%s", (const char*)d); evs->push_back(e); } } return ret(raw(SYS_prctl, op, a, b, c, d, 0)); }
long syscall(long nr, ...) noexcept { va_list v; va_start(v, nr); long a[6]; for (long& x : a) x = va_arg(v, long); va_end(v);
  if (nr == SYS_mbind && ours(a[0])) { Ev e{kBind, (U)a[0], (size_t)a[1], a[2], (long)*(uint64_t*)a[3], 0, mbind_err, {0}}; snprintf(e.name, sizeof e.name, "%ld %ld", a[4], a[5]); evs->push_back(e); if (mbind_err) { errno = mbind_err; return -1; } return 0; }
  return ret(raw(nr, a[0], a[1], a[2], a[3], a[4], a[5])); }
}
static void vm(void* a, size_t n) { raw(SYS_munmap, (long)a, n, 0, 0, 0, 0); }
// ---- the model of one history
struct Result { U p; size_t n; MemoryTag tag; uint64_t id; };
struct Resv { U p; size_t n; MemoryTag tag; size_t handed; bool dedicated, gone; };
static const char* label(MemoryTag t) { switch (t) { case MemoryTag::kNormal: return "NORMAL"; case MemoryTag::kNormalP1: return "NORMAL_P1"; case MemoryTag::kSampled: return "SAMPLED"; case MemoryTag::kSampledP1: return "SAMPLED_P1"; case MemoryTag::kCold: return "COLD"; case MemoryTag::kMetadata: return "METADATA"; } return "?"; }
static U tag_of(U a) { return (a >> 42) & 7; }
static void maps(std::function<void(U, U, const char*)> f) { FILE* m = fopen("/proc/self/maps", "r"); char l[600]; while (fgets(l, sizeof l, m)) { U a, b; char p[8]; if (sscanf(l, "%lx-%lx %7s", &a, &b, p) == 3) f(a, b, p); } fclose(m); }
struct UserRegion final : AddressRegion { U start, size, lo, hi; int kind; bool empty; std::pair<void*, size_t> Alloc(size_t n, size_t al) override; static void operator delete(void*) {} };
struct UserFactory final : AddressRegionFactory { UserFactory() = default; Rng* r = nullptr; int fail_create = 0, fail_alloc = 0, shortregion = 0; std::vector<UserRegion*> regions; struct C { U p; size_t n; Hint h; bool refused; }; std::vector<C> calls; struct A { size_t n, al; std::pair<void*, size_t> out; UserRegion* reg; }; std::vector<A> allocs; size_t max_kept = 0;
  AddressRegion* Create(void* p, size_t n, Hint h) override { n_create++; bool no = fail_create && (int)r->below(100) < fail_create; calls.push_back({(U)p, n, h, no}); if (no) return nullptr; auto* x = new UserRegion(); x->start = x->lo = (U)p; x->size = n; x->hi = x->lo + n; x->kind = n > max_kept ? 2 : r->below(2); x->empty = shortregion && (int)r->below(100) < shortregion; 
    if (r->chance(1, 3)) { if (mmap_fixed(p, n) != p) FATAL("harness", "remap"); } regions.push_back(x); return x; }
  static void* mmap_fixed(void* p, size_t n) { return (void*)raw(SYS_mmap, (long)p, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED | MAP_NORESERVE, -1, 0); }
  ~UserFactory() override = default; static void operator delete(void*) {} size_t internal() { return InternalBytesAllocated(); } void* mi(size_t n) { return MallocInternal(n); } };
static UserFactory* uf;
std::pair<void*, size_t> UserRegion::Alloc(size_t n, size_t al) {
  std::pair<void*, size_t> o{nullptr, 0}; U a = 0; size_t k = n;
  if (uf->fail_alloc && (int)uf->r->below(100) < uf->fail_alloc) { uf->allocs.push_back({n, al, o, this}); return o; }
  if (kind == 2) { if (n == hi - lo && !(lo % al)) { a = lo; hi = lo; } } // made for one request
  else if (empty) {}
  else { size_t m = (n + kHugePageSize - 1) & ~(kHugePageSize - 1); U ma = std::max(al, kHugePageSize); k = m; if (kind == 0) { U s = (lo + ma - 1) & ~(ma - 1); if (s >= lo && m <= hi - lo && s + m <= hi) { a = s; lo = s + m; if (uf->r->chance(1, 5) && lo + kHugePageSize <= hi) { lo += kHugePageSize; k += kHugePageSize; } } } else if (m <= hi - lo) { U s = (hi - m) & ~(ma - 1); if (s >= lo) { a = s; hi = s; } } }
  if (a) { o = {(void*)a, k}; if (raw(SYS_mprotect, a, k, PROT_READ | PROT_WRITE, 0, 0, 0)) { o = {nullptr, 0}; } } uf->allocs.push_back({n, al, o, this}); return o; }
static uint64_t ids = 1;
struct Obst { U p; size_t n; };
template <class SA> struct World {
  SA& sa; const bool aware; const NumaBindMode bind; uint64_t nodes[2]; std::vector<MemoryTag> tags; size_t minm; bool user, unlock; Rng& r; std::vector<Result> out; std::vector<Resv> resv; std::map<int, int> cur; std::vector<Obst> obst; size_t total = 0, creates = 0; bool faulty = false;
  Hint hint(MemoryTag t) { switch (t) { case MemoryTag::kNormal: return aware ? Hint::kNormalNumaAwareS0 : Hint::kNormal; case MemoryTag::kNormalP1: return aware ? Hint::kNormalNumaAwareS1 : Hint::kNormal; case MemoryTag::kSampled: case MemoryTag::kSampledP1: return Hint::kInfrequentAllocation; case MemoryTag::kCold: return Hint::kInfrequentAccess; default: return Hint::kMetadata; } }
  void verify(const Result& x, const char* d) { uint64_t* a = (uint64_t*)x.p; uint64_t* b = (uint64_t*)(x.p + x.n - 8); if (*a != x.id || *b != ~x.id) FATAL("content", "%s: the ends of %#lx+%zu changed", d, x.p, x.n); }
  size_t stat() { char b[200]; auto* f = sa.GetRegionFactory(); size_t n = f->GetStats(absl::MakeSpan(b, sizeof b)); size_t v; if (n >= sizeof b || sscanf(b, "MmapSysAllocator: %zu bytes", &v) != 1) FATAL("stats", "the default factory's statistics read \"%.*s\"", (int)std::min(n, sizeof b), b); return v; }
  void step() {
    size_t n, al; MemoryTag tag = tags[r.below(tags.size())];
    switch (r.below(12)) { case 0: n = minm - r.below(3) * 4096 + r.below(2); break; case 1: n = minm + 1 + r.below(3 * minm); break; case 2: n = 1 + r.below(minm); break; case 3: n = 1 + r.below(5000); break; default: n = 1 + r.below(1 + r.below(24ul << 20)); }
    switch (r.below(10)) { case 0: al = 0; break; case 1: al = 1ull << r.below(12); break; case 2: al = 1ull << r.range(21, 26); break; case 3: al = minm << r.below(3); break; default: al = r.chance(1, 2) ? 4096 : kHugePageSize; }
    bool absurd = r.chance(1, 40); if (absurd) { if (r.chance(1, 2)) n = r.chance(1, 2) ? kBig + 1 + r.below(1ul << 44) : ~0ul - r.below(1ul << 13); else al = kBig << (1 + r.below(20)); } 
    if (!user && r.chance(1, 150)) { n = kBig - r.below(3) * 5000; absurd = false; al = 0; }  // the largest the interface takes
    // an obstacle where the next reservation would naturally go
    if (!resv.empty() && obst.size() < 40 && r.chance(1, 8)) { auto& v = resv[r.below(resv.size())]; U a = v.p + v.n + (r.chance(1, 2) ? 0 : r.below(minm) & ~4095ul); long m = raw(SYS_mmap, a, 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE, -1, 0); if (m == (long)a) { obst.push_back({a, 4096}); fill((void*)a, 4096, a); } }
    int mapfail = 0, mapseen = 0, protfail = 0; bool all = false; std::function<int(int, U, size_t, long)> f; if (r.chance(1, 5)) { mapfail = r.below(4); protfail = r.chance(1, 2); all = r.chance(1, 6); bool eo = r.chance(1, 2); f = [&, eo](int op, U a, size_t, long x) -> int { if (op == kMap && a && (all || (mapfail && mapseen++ < mapfail && r.chance(2, 3)))) return old_kernel ? ENOMEM : eo ? EEXIST : ENOMEM; if (op == kProt && protfail && r.chance(1, 2)) return ENOMEM; if (op == kUnlock && r.chance(1, 3)) return EAGAIN; if (op == kAdv && r.chance(1, 3)) return EINVAL; return 0; }; refuse = &f; }
    mbind_err = r.chance(1, 4) && bind != NumaBindMode::kStrict ? EPERM : 0; if (user) { uf->calls.clear(); uf->allocs.clear(); uf->fail_create = r.chance(1, 6) ? 50 : 0; uf->fail_alloc = r.chance(1, 8) ? 50 : 0; uf->shortregion = r.chance(1, 8) ? 50 : 0; }
    char d[200]; snprintf(d, 200, "Allocate(%zu, align %zu, %s) #%zu min %zu%s", n, al, label(tag), out.size(), minm, user ? " user factory" : ""); evs->clear(); int se = 1 + r.below(100); if (getenv("VT_TRACE")) fprintf(stderr, "%s\n", d); errno = se; rec = true; AddressRange g = sa.Allocate(n, al, tag); int ee = errno; rec = false; refuse = nullptr; evals++;
    size_t ea = std::max<size_t>(al, 4096); bool refused_prot = false; std::vector<int> fresh; size_t stat_add = 0;
    for (auto& e : *evs) if (e.op == kProt && e.err) refused_prot = true;
    // --- what was asked of the kernel
    for (size_t i = 0; i < evs->size(); i++) { auto& e = (*evs)[i]; switch (e.op) {
      case kMap: { if (!(e.y & MAP_PRIVATE) || !(e.y & MAP_ANONYMOUS) || (e.y & MAP_SHARED)) FATAL("mmap", "%s: flags %lx", d, e.y); if ((e.y & MAP_FIXED) && !(e.y & MAP_FIXED_NOREPLACE)) FATAL("mmap", "%s: maps over whatever is at %#lx", d, e.a); if (!e.a && e.x != PROT_NONE) break;  // not address space for regions
        if (e.x != PROT_NONE) FATAL("mmap", "%s: address space is reserved with protection %lx (%#lx+%zu flags %lx fd)", d, e.x, e.a, e.n, e.y);
        if (e.err) { if (e.a) n_exist++; break; } if (!e.a) break;  // a null address: probes and seeds
        if ((U)e.r != e.a) break;  // placed elsewhere: must be given back, below
        n_res++; U s = e.a, t = e.a + e.n - 1; if (tag_of(s) != (U)tag || tag_of(t) != (U)tag) FATAL("tag", "%s: reserves %#lx+%zu", d, e.a, e.n); if (s >> 47 || t >> 47) FATAL("tag", "%s: reserves %#lx+%zu", d, e.a, e.n); for (auto& v : resv) if (!v.gone && s < v.p + v.n && v.p <= t) FATAL("overlap", "%s: reservation %#lx+%zu over %#lx+%zu", d, s, e.n, v.p, v.n);
        bool ded = n > minm || al > minm; if (ded) n_ded++; if (e.n < n || (!ded && e.n != minm)) FATAL("mmap", "%s: reserves %zu bytes", d, e.n); if (e.n % kHugePageSize || s % kHugePageSize || s % ea) FATAL("mmap", "%s: reserves %#lx+%zu", d, s, e.n); if (ded && e.n >= n + kHugePageSize) FATAL("mmap", "%s: reserves %zu bytes for this request alone", d, e.n);
        if (!fresh.empty()) FATAL("mmap", "%s: two reservations for one request", d);
        // room in the region in use?
        if (!ded && cur.count((int)tag) && !user && !refused_prot) { auto& v = resv[cur[(int)tag]]; size_t left = v.n - v.handed, need = ((n + kHugePageSize - 1) & ~(kHugePageSize - 1)) + (ea > kHugePageSize ? ea : 0); if (left >= need) FATAL("waste", "%s: a new reservation although %zu bytes of the current one are unused", d, left); }
        resv.push_back({s, e.n, tag, 0, ded, false}); fresh.push_back(resv.size() - 1); if (!ded) cur[(int)tag] = resv.size() - 1;
        bool named = false, bound = false; int unlocked = 0; for (size_t k = i + 1; k < evs->size(); k++) { auto& q = (*evs)[k]; if (q.op == kName && q.a == s && q.n == e.n) { named = true; std::string want = std::string("tcmalloc_region_") + label(tag); if (want != q.name) FATAL("name", "%s: the region is called %s", d, q.name); } if (q.op == kUnlock && q.a == s && q.n == e.n) unlocked += !q.err; if (q.op == kBind && q.a == s && q.n == e.n) { bound = true; int p = tag == MemoryTag::kNormalP1; long mx, fl; if (sscanf(q.name, "%ld %ld", &mx, &fl) != 2 || (q.x & 0xff) != MPOL_BIND || !(q.x & MPOL_F_STATIC_NODES) || (uint64_t)q.y != nodes[p] || mx < 64 || !(fl & MPOL_MF_MOVE)) FATAL("mbind", "%s: bound with policy %lx to nodes %#lx (max %ld), the partition has %#lx", d, q.x, q.y, mx, nodes[p]); } }
        bool want = aware && bind != NumaBindMode::kNone && (tag == MemoryTag::kNormal || tag == MemoryTag::kNormalP1); if (bound != want) FATAL("mbind", "%s: the reservation is %sbound to a NUMA node", d, bound ? "" : "not "); if (!named) FATAL("name", "%s: the reservation %#lx+%zu is not named", d, s, e.n); if ((unlocked == 1) != unlock) FATAL("munlock", "%s: unlocked %d times, configured %d", d, unlocked, unlock);
        break; }
      case kUnmap: { bool ok = false; for (size_t k = 0; k < i; k++) { auto& q = (*evs)[k]; if (q.op == kMap && !q.err && (U)q.r == e.a && (q.n == e.n || !q.a)) { ok = true; if (q.a == e.a) { int z = fresh.empty() ? -1 : fresh[0]; if (z < 0 || resv[z].p != e.a) FATAL("munmap", "%s", d); bool nocreate = user && !uf->calls.empty() && uf->calls.back().refused; if (!nocreate) FATAL("munmap", "%s: a reservation is given up although a region was created for it", d); resv[z].gone = true; if (cur.count((int)tag) && cur[(int)tag] == z) cur.erase((int)tag); } } } if (!ok) FATAL("munmap", "%s: unmaps %#lx+%zu", d, e.a, e.n); break; }
      case kProt: if (!e.err) { if (e.x != (PROT_READ | PROT_WRITE) || !g.ptr || e.a != (U)g.ptr || e.n != g.bytes) FATAL("mprotect", "%s: opens %#lx+%zu (%lx) and returns %p+%zu", d, e.a, e.n, e.x, g.ptr, g.bytes); } break;
      case kAdv: if (e.x != MADV_NOHUGEPAGE || !(tag == MemoryTag::kCold || tag == MemoryTag::kSampled || tag == MemoryTag::kSampledP1) || (U)g.ptr != e.a || g.bytes != e.n) { if (e.n != 4096) FATAL("madvise", "%s: advice %ld on %#lx+%zu, returns %p+%zu", d, e.x, e.a, e.n, g.ptr, g.bytes); } break;
      case kUnlock: if (!unlock) FATAL("munlock", "%s", d); break;
      case kBind: case kName: { bool ok = false; for (int z : fresh) ok = ok || (resv[z].p == e.a && resv[z].n == e.n); if (!ok) FATAL("place", "%s: binds or names %#lx+%zu", d, e.a, e.n); break; } } }
    for (auto& e : *evs) if (e.op == kMap && !e.err && e.x == PROT_NONE && (e.a == 0 || (U)e.r != e.a)) { bool back = false; for (auto& q : *evs) back = back || (q.op == kUnmap && !q.err && q.a == (U)e.r && q.n == e.n); if (!back) FATAL("leak", "%s: %#lx+%zu was mapped and not given back", d, e.r, e.n); }
    // --- the factory
    if (user) { for (auto& c : uf->calls) { creates++; if (c.h != hint(tag)) FATAL("hint", "%s: the factory is told usage %d", d, (int)c.h); bool ok = false; for (int z : fresh) ok = ok || (resv[z].p == c.p && resv[z].n == c.n); if (!ok) FATAL("create", "%s: the factory is given %#lx+%zu, not reserved for it", d, c.p, c.n); if (c.refused && g.ptr) FATAL("create", "%s: the factory refused, yet %p is returned", d, g.ptr); }
      if (!uf->calls.empty() && uf->calls.back().refused && !fresh.empty() && !resv[fresh[0]].gone) FATAL("leak", "%s: the factory refused and %#lx+%zu stays reserved", d, resv[fresh[0]].p, resv[fresh[0]].n);
      if (uf->calls.size() != fresh.size()) FATAL("create", "%s: %zu reservations, %zu asked of the factory", d, fresh.size(), uf->calls.size());
      for (auto& a : uf->allocs) if (a.n < n || a.al < ea || a.n >= n + kHugePageSize) FATAL("region", "%s: the region is asked for %zu aligned to %zu", d, a.n, a.al); if (uf->allocs.size() > 2) FATAL("region", "%s: asked regions %zu times", d, uf->allocs.size());
      if (g.ptr) { if (uf->allocs.empty() || uf->allocs.back().out.first != g.ptr || uf->allocs.back().out.second != g.bytes) FATAL("region", "%s: returns %p+%zu, the region answered %p+%zu", d, g.ptr, g.bytes, uf->allocs.empty() ? nullptr : uf->allocs.back().out.first, uf->allocs.empty() ? 0 : uf->allocs.back().out.second); } else if (!uf->allocs.empty() && uf->allocs.back().out.first) FATAL("lost", "%s: fails although the region answered", d);
    } else for (int z : fresh) if (!resv[z].gone) { total += resv[z].n; creates++; }
    bool zero = true; (void)stat_add;
    if (!g.ptr) { n_null++; if (g.bytes) FATAL("null", "%s: null with %zu bytes", d, g.bytes); bool excuse = absurd || n > (1ul << 40) || all || refused_prot || (old_kernel && f) || (user && (uf->fail_create || uf->fail_alloc || uf->shortregion)); if (!excuse) FATAL("null", "%s: fails though nothing stands in the way", d); if (absurd && !evs->empty()) for (auto& e : *evs) if (e.op == kMap && e.a) FATAL("null", "%s: an impossible request reserves address space", d); }
    else { if (absurd) FATAL("absurd", "%s: returns %p", d, g.ptr); U p = (U)g.ptr; if (g.bytes < n) FATAL("size", "%s: %zu bytes", d, g.bytes); if (p % ea) FATAL("align", "%s: %p", d, g.ptr); if (tag_of(p) != (U)tag || tag_of(p + g.bytes - 1) != (U)tag) FATAL("tag", "%s: %p+%zu", d, g.ptr, g.bytes); if (!refused_prot && !f && ee != se && !(aware && mbind_err)) FATAL("errno", "%s: succeeds and errno changes from %d to %d", d, se, ee);
      Resv* in = nullptr; for (auto& v : resv) if (!v.gone && p >= v.p && p + g.bytes <= v.p + v.n) in = &v; if (!in) FATAL("place", "%s: %p+%zu lies in no reservation", d, g.ptr, g.bytes); in->handed += g.bytes; if (in->dedicated && (n <= minm && al <= minm)) FATAL("place", "%s: carved from a reservation made for another request", d);
      for (auto& q : out) if (p < q.p + q.n && q.p < p + g.bytes) FATAL("overlap", "%s: %p+%zu overlaps %#lx+%zu", d, g.ptr, g.bytes, q.p, q.n);
      if (!user) { bool adv = false; for (auto& e : *evs) adv = adv || (e.op == kAdv && e.x == MADV_NOHUGEPAGE && e.a == p && e.n == g.bytes); bool want = tag == MemoryTag::kCold || tag == MemoryTag::kSampled || tag == MemoryTag::kSampledP1; if (adv != want) FATAL("madvise", "%s: %p is %sadvised against huge pages", d, g.ptr, adv ? "" : "not "); }
      volatile char* c = (char*)p; for (int k = 0; k < 8; k++) { size_t o = k == 0 ? 0 : k == 1 ? g.bytes - 1 : k == 2 ? n - 1 : r.below(g.bytes); if (c[o]) zero = false; } if (!zero) FATAL("zero", "%s: fresh memory at %p is not zero", d, g.ptr);
      out.push_back({p, g.bytes, tag, ids++}); *(uint64_t*)p = out.back().id; *(uint64_t*)(p + g.bytes - 8) = ~out.back().id; }
    if (!user && stat() != total) FATAL("stats", "%s: %zu bytes reserved, reported %zu", d, total, stat());
    dist.add((U)tag * 1000003 + 64 - __builtin_clzl(n | 1) + 100 * (64 - __builtin_clzl(al | 1)) + 10000 * fresh.size() + 20000 * (g.ptr != nullptr) + 50000 * user + 70000 * evs->size());
    if (!out.empty() && r.chance(1, 3)) verify(out[r.below(out.size())], d);
    for (auto& o : obst) if (r.chance(1, 10)) { long k = check((void*)o.p, o.n, o.p); if (k >= 0) FATAL("obstacle", "%s: a mapping of the application at %#lx changed", d, o.p); } }
  void finish() {
    for (auto& x : out) { verify(x, "at the end"); evals++; } for (auto& o : obst) { long k = check((void*)o.p, o.n, o.p); if (k >= 0) FATAL("obstacle", "a mapping of the application at %#lx changed", o.p); }
    if (!user && !resv.empty()) { // only what was handed out is accessible
      std::sort(out.begin(), out.end(), [](const Result& a, const Result& b) { return a.p < b.p; }); size_t open_bytes = 0, want = 0; for (auto& x : out) want += x.n; std::vector<std::pair<U, U>> rw; for (auto& v : resv) rw.push_back({v.p, v.p + v.n}); maps([&](U a, U b, const char* p) { for (auto& v : rw) { U s = std::max(a, v.first), e = std::min(b, v.second); if (s < e && p[0] == 'r') open_bytes += e - s; if (s < e && p[2] == 'x') FATAL("prot", "%#lx is executable", s); } }); if (open_bytes != want) FATAL("prot", "%zu bytes of the reservations are accessible, %zu were handed out", open_bytes, want); }
    for (auto& v : resv) if (!v.gone) vm((void*)v.p, v.n); for (auto& o : obst) vm((void*)o.p, o.n); if (user) for (auto* x : uf->regions) ::delete (char*)nullptr, (void)x; n_hist++; }
};
static std::string node_list(int lo, int hi) { return std::to_string(lo) + "-" + std::to_string(hi) + "\n"; }
template <size_t P> static const NumaTopology<P, 1>& topology(Rng& r, int kind) {
  auto* t = new (mmap(nullptr, sizeof(NumaTopology<P, 1>), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0)) NumaTopology<P, 1>(); static const char* e[] = {"0", "no-binding", "advisory-binding", "strict-binding"}; setenv("TCMALLOC_NUMA_AWARE", e[kind], 1); int nodes = 1 + r.below(4), per = 1 + r.below(3);
  t->InitForTest([&](size_t k) { if ((int)k >= nodes) { errno = ENOENT; return -1; } std::string s = node_list(k * per, k * per + per - 1); int fd = raw(SYS_memfd_create, (long)"vt", 0, 0, 0, 0, 0); raw(SYS_write, fd, (long)s.data(), s.size(), 0, 0, 0); raw(SYS_lseek, fd, 0, SEEK_SET, 0, 0, 0); return fd; }); return *t; }
template <class Topo, size_t NP> static void history(Rng& r, const Topo& topo, bool user, int ops, bool unlock) {
  typedef SystemAllocator<Topo, NP> SA; size_t minm = 1ull << r.range(24, 30); void* mem = mmap(nullptr, 8192, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); auto* sa = new (mem) SA(topo, minm); World<SA> w{*sa, topo.numa_aware(), topo.bind_mode(), {0, 0}, {MemoryTag::kNormal, MemoryTag::kSampled, MemoryTag::kCold, MemoryTag::kMetadata}, minm, user, unlock, r, {}, {}, {}, {}, 0, 0, false}; if (w.aware) for (int p = 0; p < 2; p++) w.nodes[p] = topo.GetPartitionNodes(p);
  if (Topo::kNumPartitions > 1 || NP > 1) w.tags.push_back(MemoryTag::kNormalP1); if (Topo::kNumPartitions == 1 && NP > 1) w.tags.push_back(MemoryTag::kSampledP1); if (user) { uf = new UserFactory(); uf->r = &r; uf->max_kept = minm; sa->SetRegionFactory(uf); if (sa->GetRegionFactory() != uf) FATAL("factory", "the factory set is not the one reported"); }
  for (int i = 0; i < ops; i++) { w.step(); 
    if (user && r.chance(1, 60)) { auto* f = new UserFactory(); f->r = &r; f->max_kept = minm; size_t c = uf->regions.size(); UserFactory* was = uf; uf = f; sa->SetRegionFactory(f); w.cur.clear(); // the next request of each kind goes to the new one
      for (MemoryTag tg : w.tags) { uf->fail_create = uf->fail_alloc = uf->shortregion = 0; evs->clear(); size_t had = f->regions.size(); rec = true; AddressRange g = sa->Allocate(1, 0, tg); rec = false; evals++; if (!g.ptr || f->regions.size() != had + 1 || was->regions.size() != c) FATAL("factory", "after a factory was set, a %s request is served by the former one", label(tg)); auto* x = f->regions[had]; w.resv.push_back({x->start, x->size, tg, g.bytes, false, false}); w.cur[(int)tg] = w.resv.size() - 1; w.out.push_back({(U)g.ptr, g.bytes, tg, ids++}); *(uint64_t*)g.ptr = w.out.back().id; *(uint64_t*)((U)g.ptr + g.bytes - 8) = ~w.out.back().id; } } }
  w.finish(); vm(mem, 8192); }
static void any(Rng& r, bool user, bool unlock) { int ops = 10 + r.below(150);
  switch (r.below(4)) { case 0: { auto& t = topology<1>(r, 0); history<NumaTopology<1, 1>, 2>(r, t, user, ops, unlock); vm((void*)&t, sizeof t); break; } case 1: { auto& t = topology<1>(r, 0); history<NumaTopology<1, 1>, 1>(r, t, user, ops, unlock); vm((void*)&t, sizeof t); break; }
    default: { auto& t = topology<2>(r, r.below(4)); history<NumaTopology<2, 1>, 2>(r, t, user, ops, unlock); vm((void*)&t, sizeof t); } } }
static void strict_child(Rng& r) { // strict binding that fails ends the process, advisory does not
  static Outcome o; bool strict = r.chance(1, 2); uint64_t s = r.next(); run_child(o, [&] { Rng q(s); auto& t = topology<2>(q, strict ? 3 : 2); if (!t.numa_aware()) _exit(78); static SystemAllocator<NumaTopology<2, 1>, 2> sa(t, 64 << 20); mbind_err = EPERM; rec = true; auto g = sa.Allocate(1, 0, q.chance(1, 2) ? MemoryTag::kNormal : MemoryTag::kNormalP1); rec = false; if (!g.ptr) _exit(79); }); evals++; if (WIFEXITED(o.status) && WEXITSTATUS(o.status) == 78) return;
  if (strict) { if (!o.killed(SIGABRT) || !o.has("Unable to mbind memory")) FATAL("mbind", "strict binding fails and the process goes on (status %x)", o.status); } else if (!WIFEXITED(o.status) || WEXITSTATUS(o.status) != 77) FATAL("mbind", "advisory binding fails and so does the allocation (status %x)", o.status); }
// ---- release
template <class SA> static void releases(Rng& r, SA& sa) {
  size_t pages = 1 + r.below(40), n = pages * 4096; bool shared = r.chance(1, 4), locked = r.chance(1, 5) && n <= 65536; char* m = (char*)raw(SYS_mmap, 0, n, PROT_READ | PROT_WRITE, (shared ? MAP_SHARED : MAP_PRIVATE) | MAP_ANONYMOUS, -1, 0); uint64_t id = ids++; for (size_t k = 0; k < n / 8; k++) ((uint64_t*)m)[k] = id * 0x9e3779b97f4a7c15ull + k * 0x10001 + 1; if (locked && raw(SYS_mlock, (long)m, n, 0, 0, 0, 0)) locked = false;
  MadvisePreference pref = (MadvisePreference)r.below(4); static const MadvisePreference ps[] = {MadvisePreference::kNever, MadvisePreference::kDontNeed, MadvisePreference::kFreeAndDontNeed, MadvisePreference::kFreeOnly}; pref = ps[r.below(4)]; sa.set_madvise_preference(pref); if (sa.madvise_preference() != pref) FATAL("pref", "preference");
  size_t o = r.below(n), l = r.below(n - o + 1); if (r.chance(1, 2)) { o &= ~4095ul; l &= ~4095ul; } size_t a = (o + 4095) & ~4095ul, e = (o + l) & ~4095ul; bool none = e <= a; int perr = 0, again = 0; std::function<int(int, U, size_t, long)> f; int lockerr = 0; if (r.chance(1, 2)) { perr = r.chance(1, 2) ? 0 : r.chance(1, 2) ? ENOMEM : EINVAL; again = r.below(4); lockerr = r.chance(1, 3) ? ENOMEM : 0; f = [&](int op, U, size_t, long) -> int { if (again && r.chance(1, 2)) { again--; return EAGAIN; } return op == kAdv ? perr : op == kUnlock ? lockerr : 0; }; refuse = &f; }
  int errs = sa.release_errors(); evs->clear(); int se = 1 + r.below(90); errno = se; rec = true; MemoryModifyStatus st = sa.Release(m + o, l); int ee = errno; rec = false; refuse = nullptr; evals++; n_rel++; char d[160]; snprintf(d, 160, "Release(%zu+%zu of %zu) preference %d shared %d locked %d persistent error %d", o, l, n, (int)pref, shared, locked, perr);
  if (ee != se) FATAL("errno", "%s: errno %d becomes %d", d, se, ee); bool dn = false, fr = false, rm = false, rmok = false, gaveup = true;
  for (size_t i = 0; i < evs->size(); i++) { auto& v = (*evs)[i]; if (v.op != kAdv && v.op != kUnlock) { if ((v.op == kMap && !v.a) || v.op == kUnmap) continue; FATAL("release", "%s: calls %d", d, v.op); } if (v.a != (U)m + a || v.n != e - a) { if (v.n == 4096 && (v.a < (U)m || v.a >= (U)m + n)) continue; FATAL("release", "%s: advice or unlock on %#lx+%zu, whole pages are %#lx+%zu", d, v.a, v.n, (U)m + a, e - a); } if (v.op == kAdv) { if (v.x == MADV_DONTNEED || v.x == MADV_DONTNEED_LOCKED) dn = true; else if (v.x == MADV_FREE) fr = true; else if (v.x == MADV_REMOVE) { rm = true; rmok = rmok || !v.err; } else FATAL("release", "%s: advice %ld", d, v.x); gaveup = v.err == EAGAIN; } else gaveup = false; }
  if (none) { if (st.success || dn || fr || rm || sa.release_errors() != errs) FATAL("release", "%s: nothing to release, success %d, errors +%d", d, st.success, sa.release_errors() - errs); }
  else { if (gaveup) FATAL("release", "%s: an interrupted release is not tried again", d); bool wdn = pref == MadvisePreference::kDontNeed || pref == MadvisePreference::kFreeAndDontNeed, wfr = pref == MadvisePreference::kFreeOnly || pref == MadvisePreference::kFreeAndDontNeed; if (dn && !wdn) FATAL("release", "%s: pages are dropped against the preference", d); if (fr && !wfr) FATAL("release", "%s: MADV_FREE against the preference", d); bool removed = rmok; if (!removed && (wdn != dn || wfr != fr)) FATAL("release", "%s: DONTNEED %d FREE %d", d, dn, fr);
    bool expect = removed || (!perr && (wdn || wfr)); if (locked && no_dontneed_locked && lockerr) expect = st.success; if (locked && !wdn && !removed) expect = st.success; if (locked && no_dontneed_locked) expect = st.success || (lockerr == 0 && wdn && !perr); if (st.success != expect) FATAL("release", "%s: success %d", d, st.success); if (sa.release_errors() != errs + !st.success) FATAL("release", "%s: success %d, errors counted %d", d, st.success, sa.release_errors() - errs); if (!st.success && perr && !lockerr && st.error_number != perr) FATAL("release", "%s: reports error %d", d, st.error_number); }
  bool zeroed = st.success && (rmok || dn) && !(shared && !rmok); for (size_t p = 0; p < n; p += 4096) { bool in = !none && p >= a && p < e; bool same = true, zero = true; for (size_t k = p / 8; k < p / 8 + 512; k++) { uint64_t x = ((uint64_t*)m)[k]; same = same && x == id * 0x9e3779b97f4a7c15ull + k * 0x10001 + 1; zero = zero && !x; } evals++; if (!in) { if (!same) FATAL("content", "%s: the page at %zu was not to be released and changed", d, p); } else if (zeroed && !shared) { if (!zero) FATAL("zero", "%s: the released page at %zu is not zero", d, p); } else if (!same && !zero) FATAL("content", "%s: the page at %zu is neither kept nor zero", d, p); else if (!st.success && !dn && !fr && !rm && !same) FATAL("content", "%s: a failed release lost the page at %zu", d, p); }
  dist.add(((int)pref * 1000 + shared * 100 + locked * 10 + none) * 131 + perr * 7 + evs->size() + 1000003 * (e > a ? (e - a) / 4096 : 0)); vm(m, n); }
template <class SA> static void collapses(Rng& r, SA& sa) {
  std::vector<int> plan; for (int i = 0; i < 5; i++) plan.push_back(r.chance(1, 3) ? 0 : r.chance(1, 3) ? EINVAL : r.chance(1, 2) ? EAGAIN : EINTR); size_t at = 0; std::function<int(int, U, size_t, long)> f = [&](int, U, size_t, long) -> int { int e = plan[at++]; return e ? e : -1; }; 
  char* m = (char*)raw(SYS_mmap, 0, 4 << 20, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); char* h = (char*)(((U)m + (2 << 20) - 1) & ~((2ul << 20) - 1)); uint64_t id = ids++; fill(h, 8192, id); size_t n = 2 << 20; std::function<int(int, U, size_t, long)> g = [&](int op, U a, size_t l, long x) { int e = f(op, a, l, x); return e == -1 ? 0 : e; }; refuse = &g; evs->clear(); errno = 5; rec = true; auto st = sa.Collapse(h, n); int ee = errno; rec = false; refuse = nullptr; evals++;
  int want = 0; bool real = false; for (int i = 0; i < 3; i++) { want++; if (!plan[i]) { real = true; break; } if (plan[i] != EAGAIN && plan[i] != EINTR) break; } int seen = 0; bool ok = false; int last = 0; for (auto& v : *evs) { if (v.op != kAdv || v.x != MADV_COLLAPSE || v.a != (U)h || v.n != n) FATAL("collapse", "calls %d advice %ld on %#lx+%zu", v.op, v.x, v.a, v.n); seen++; ok = !v.err; last = v.err; } (void)real;
  if (seen > 3) FATAL("collapse", "%d attempts", seen); if (seen != want && !(real && seen >= want)) FATAL("collapse", "%d attempts, %d needed", seen, want); if (st.success != ok) FATAL("collapse", "success %d, the last attempt ended with %d", st.success, last); if (!ok && st.error_number != last) FATAL("collapse", "error %d reported, %d happened", st.error_number, last); if (ee != 5) FATAL("errno", "Collapse changes errno to %d", ee); if (check(h, 8192, id) >= 0) FATAL("content", "Collapse changed memory");
  if (r.chance(1, 2)) { sa.Back(h + 65536, 65536); unsigned char vec[16]; if (!mincore(h + 65536, 65536, vec)) for (int i = 0; i < 16; i++) if (!(vec[i] & 1)) { static int no = 0; no++; metric("unbacked_after_back", no); } }
  dist.add(seen * 1000 + last * 10 + ok); vm(m, 4 << 20); }
// ---- threads
static void threads(Rng& r) { auto& t = topology<1>(r, 0); size_t minm = 1ull << r.range(25, 28); void* mem = mmap(nullptr, 8192, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); auto* sa = new (mem) SystemAllocator<NumaTopology<1, 1>, 2>(t, minm); std::mutex mu; std::map<U, Result> live; size_t total = 0; std::atomic<int> step_{0};
  auto work = [&](uint64_t s) { Rng q(s); std::vector<Result> mine; for (int i = 0; i < 60; i++) { size_t n = 1 + q.below(q.chance(1, 10) ? 2 * minm : 12ul << 20), al = q.chance(1, 4) ? 1ull << q.range(12, 25) : 0; static const MemoryTag ts[] = {MemoryTag::kNormal, MemoryTag::kNormalP1, MemoryTag::kSampled, MemoryTag::kSampledP1, MemoryTag::kCold, MemoryTag::kMetadata}; MemoryTag tag = ts[q.below(6)]; AddressRange g = sa->Allocate(n, al, tag); evals++; if (!g.ptr) FATAL("null", "threads: Allocate(%zu, %zu)", n, al); U p = (U)g.ptr; if (g.bytes < n || p % std::max<size_t>(al, 4096) || tag_of(p) != (U)tag || tag_of(p + g.bytes - 1) != (U)tag) FATAL("place", "threads: Allocate(%zu, %zu, %s) = %p+%zu", n, al, label(tag), g.ptr, g.bytes); Result x{p, g.bytes, tag, q.next()};
      { std::lock_guard<std::mutex> l(mu); auto k = live.lower_bound(p); if (k != live.end() && k->first < p + g.bytes) FATAL("overlap", "threads: %p+%zu overlaps %#lx", g.ptr, g.bytes, k->first); if (k != live.begin() && (--k)->first + k->second.n > p) FATAL("overlap", "threads: %p+%zu overlaps %#lx+%zu", g.ptr, g.bytes, k->first, k->second.n); live[p] = x; total += g.bytes; } if (*(uint64_t*)p || *(uint64_t*)(p + g.bytes - 8)) FATAL("zero", "threads: fresh memory is not zero"); *(uint64_t*)p = x.id; *(uint64_t*)(p + g.bytes - 8) = ~x.id; mine.push_back(x); step_++; }
    for (auto& x : mine) { evals++; if (*(uint64_t*)x.p != x.id || *(uint64_t*)(x.p + x.n - 8) != ~x.id) FATAL("content", "threads: %#lx changed", x.p); } };
  std::vector<std::thread> th; for (int i = 0; i < 4; i++) th.emplace_back(work, r.next()); for (auto& x : th) x.join(); char b[200]; size_t v = 0; sa->GetRegionFactory()->GetStats(absl::MakeSpan(b, 200)); sscanf(b, "MmapSysAllocator: %zu", &v); if (v < total) FATAL("stats", "threads: %zu handed out, %zu reserved", total, v); dist.add(total); n_hist++;
  std::vector<std::pair<U, U>> gone; maps([&](U a, U b2, const char*) { for (auto& x : live) if (x.first >= a && x.first < b2) { gone.push_back({a, b2}); break; } }); for (auto& x : gone) vm((void*)x.first, x.second - x.first); vm(mem, 8192); }
#ifdef VT_FULL
// ---- the whole allocator over a user factory (which must not allocate)
struct Rg { U p; size_t n; Hint h; std::atomic<U> end; };
static Rg rg[4096]; static std::atomic<int> n_rg{0}; struct Hand { U p; size_t n; Hint h; }; static Hand hand[200000]; static std::atomic<int> n_hand{0}; static std::atomic<int> fail_mode{0}; static std::atomic<long> refused_{0};
struct FR final : AddressRegion { Rg* g; std::pair<void*, size_t> Alloc(size_t n, size_t al) override { if (fail_mode == 2 && g->h != Hint::kMetadata) { refused_++; return {nullptr, 0}; } size_t m = (n + kHugePageSize - 1) & ~(kHugePageSize - 1); U ma = std::max(al, kHugePageSize), e = g->end; if (m > e - g->p) return {nullptr, 0}; U s = (e - m) & ~(ma - 1); if (s < g->p) return {nullptr, 0}; if (raw(SYS_mprotect, s, e - s, PROT_READ | PROT_WRITE, 0, 0, 0)) return {nullptr, 0}; int k = n_hand++; if (k >= 200000) FATAL("harness", "table"); hand[k] = {s, e - s, g->h}; g->end = s; return {(void*)s, e - s}; } static void operator delete(void*) {} };
static long got_bytes = 0;
struct FF final : AddressRegionFactory { constexpr FF() = default; ~FF() override = default; static void operator delete(void*) {}
  AddressRegion* Create(void* p, size_t n, Hint h) override { n_create++; U a = (U)p; if (a % 4096 || n % 4096) FATAL("create", "%p+%zu is not page aligned", p, n); int me = n_rg; for (int i = 0; i < me; i++) if (a < rg[i].p + rg[i].n && rg[i].p < a + n) FATAL("create", "%p+%zu was given out before", p, n); unsigned char v; if (fail_mode == 1 && h != Hint::kMetadata) { refused_++; return nullptr; } U t = tag_of(a); if (tag_of(a + n - 1) != t) FATAL("create", "%p+%zu spans two tags", p, n); (void)v;
    Hint want = t == (U)MemoryTag::kCold ? Hint::kInfrequentAccess : t == (U)MemoryTag::kMetadata ? Hint::kMetadata : t == (U)MemoryTag::kSampled || t == (U)MemoryTag::kSampledP1 ? Hint::kInfrequentAllocation : h; if (h != want) FATAL("hint", "usage %d for %p", (int)h, p); if (want == h && (t == (U)MemoryTag::kNormal || t == (U)MemoryTag::kNormalP1) && !(h == Hint::kNormal || h == Hint::kNormalNumaAwareS0 || h == Hint::kNormalNumaAwareS1)) FATAL("hint", "usage %d for %p", (int)h, p);
    if (me >= 4096) FATAL("harness", "regions"); size_t b = InternalBytesAllocated(); void* q = MallocInternal(sizeof(FR)); size_t e = InternalBytesAllocated(); if (!q) return nullptr; if (e < b + sizeof(FR)) FATAL("internal", "MallocInternal(%zu) counts %zu bytes", sizeof(FR), e - b); auto* x = new (q) FR(); x->g = &rg[me]; rg[me].p = a; rg[me].n = n; rg[me].h = h; rg[me].end = a + n; n_rg = me + 1; return x; }
  size_t ib() { return InternalBytesAllocated(); } };
static FF the_ff;
static Hand* handed(U p, size_t n) { for (int i = n_hand - 1; i >= 0; i--) if (p >= hand[i].p && p + n <= hand[i].p + hand[i].n) return &hand[i]; return nullptr; }
// a block may span two adjoining answers of the factory
static bool covered(U p, size_t n, Hint* h) { size_t done = 0; while (done < n) { Hand* x = handed(p + done, 1); if (!x) return false; *h = x->h; done += x->p + x->n - (p + done); } return true; }
static std::vector<std::pair<U, size_t>>* before_;
static bool was_before(U p) { for (auto& x : *before_) if (p >= x.first && p < x.first + x.second) return true; return false; }
struct B { char* p; size_t n; uint64_t id; int kind; }; static B bl[3000]; static int nb = 0;
static void drop(int k) { long o = check(bl[k].p, std::min<size_t>(bl[k].n, 4096), bl[k].id); if (o >= 0) FATAL("content", "byte %ld of %p+%zu changed", o, bl[k].p, bl[k].n); evals++; if (bl[k].kind) ::operator delete(bl[k].p); else free(bl[k].p); bl[k] = bl[--nb]; }
static void whole(Rng& r) {
  for (int i = 0; i < 300; i++) { int fm = fail_mode; size_t n = r.chance(1, 3) ? 1 + r.below(4000) : r.chance(1, 4) ? 1 + r.below(100ul << 20) : 1 + r.below(3ul << 20); if (fm && r.chance(1, 3)) n = (1ul << 30) + r.below(2ul << 30); int kind = r.below(3) == 0; 
    if (nb < 3000 && r.chance(11, 20)) { long ref = refused_; errno = 0; char* p = (char*)(kind ? ::operator new(n, std::nothrow, (hot_cold_t)0) : malloc(n)); int e = errno; evals++; if (!p) { if (!fm || refused_ == ref) FATAL("null", "%zu bytes: fails although the factory refused nothing (mode %d)", n, fm); if (!kind && e != ENOMEM) FATAL("errno", "failing malloc leaves errno %d", e); n_null++; dist.add(n >> 20); continue; }
      Hint h = Hint::kNormal; bool c = covered((U)p, n, &h); if (!c && !was_before((U)p)) FATAL("place", "block %p+%zu lies in nothing the factory answered", p, n); U t = tag_of((U)p); if (t == (U)MemoryTag::kMetadata) FATAL("place", "block %p in metadata", p); if (c) { bool ok = t == (U)MemoryTag::kCold ? h == Hint::kInfrequentAccess : t == (U)MemoryTag::kSampled || t == (U)MemoryTag::kSampledP1 ? h == Hint::kInfrequentAllocation : h != Hint::kMetadata && h != Hint::kInfrequentAccess && h != Hint::kInfrequentAllocation; if (!ok) FATAL("hint", "block %p (tag %lu) lies in a region of usage %d", p, t, (int)h); n_res++; }
      if (n > (64u << 20)) { ((char*)p)[0] = 1; ((char*)p)[n - 1] = 1; } bl[nb] = {p, n, ids++, kind}; fill(p, std::min<size_t>(n, 4096), bl[nb].id); nb++; dist.add(n * 31 + t); size_t tot = 0; for (int k = 0; k < nb; k++) tot += bl[k].n; while (tot > (3ul << 30) && nb) { tot -= bl[nb - 1].n; drop(nb - 1); } }
    else if (nb) drop(r.below(nb)); }
  switch (r.below(8)) { case 0: fail_mode = 1; break; case 1: fail_mode = 2; break; case 2: MallocExtension::ReleaseMemoryToSystem(~0ull >> 2); break; case 3: { if (MallocExtension::GetRegionFactory() != &the_ff) FATAL("factory", "not the one set"); if (n_rg < 3000) MallocExtension::SetRegionFactory(&the_ff); break; } default: fail_mode = 0; }
  if (fail_mode == 0 && r.chance(1, 3)) { size_t n = (1ul << 30) + r.below(1ul << 30); char* p = (char*)malloc(n); evals++; if (!p) FATAL("null", "no recovery: %zu bytes refused", n); p[n - 1] = p[0] = 1; Hint h; if (!covered((U)p, n, &h) && !was_before((U)p)) FATAL("place", "%p+%zu", p, n); free(p); }
  n_hist++; }
#endif
__attribute__((constructor(101))) static void early(int argc, char** argv) { old_kernel = argc > 1 && argv[1][0] == 'K'; }
int main(int argc, char** argv) {
  internal_ = new std::vector<std::pair<U, size_t>>(); evs = new std::vector<Ev>(); evs->reserve(4000); char m = argv[1][0]; bool unlock = argc > 2 && argv[2][0] == 'u'; if (unlock) setenv("TCMALLOC_MLOCKALL_UNLOCK_FUTURE", "1", 1); no_dontneed_locked = argc > 2 && argv[2][0] == 'n'; old_kernel = m == 'K';
  uint64_t end = now_ns() + (thorough() ? 150ull : 3ull) * 1000000000; Rng r(seed() * 31337 + m * 7 + argc);
#ifdef VT_FULL
  before_ = new std::vector<std::pair<U, size_t>>(); for (int i = 0; i < 50; i++) free(malloc(1000 * i)); maps([&](U a, U b, const char* p) { if (p[0] == 'r' && p[1] == 'w') before_->push_back({a, b - a}); }); MallocExtension::SetRegionFactory(&the_ff); if (MallocExtension::GetRegionFactory() != &the_ff) FATAL("factory", "not the one set"); MallocExtension::SetProfileSamplingInterval(4 << 20);
  while (now_ns() < end && n_rg < 3500) whole(r); while (nb) drop(nb - 1); metric("refused", refused_); (void)unlock;
#else
  collecting = true; { UserFactory f; size_t b = f.internal(); for (int i = 1; i < 200; i++) { size_t n = 1 + r.below(300); errno = 77; char* p = (char*)f.mi(n); if (errno != 77) FATAL("errno", "MallocInternal(%zu) #%d changes errno to %d", n, i, errno); if (!p || (U)p % 8) FATAL("internal", "MallocInternal(%zu) = %p", n, p); memset(p, 7, n); size_t e = f.internal(); if (e < b + n || e > b + n + 64) FATAL("internal", "MallocInternal(%zu) counts %zu bytes", n, e - b); b = e; } } collecting = false;
  if (m == 'R') { auto& t = topology<1>(r, 0); static SystemAllocator<NumaTopology<1, 1>, 1> sa(t, 64 << 20); system_allocator_internal::MadvDontNeedAdviceAvailable(); while (now_ns() < end) if (r.chance(4, 5)) releases(r, sa); else collapses(r, sa); }
  else { if (m == 'K') system_allocator_internal::MapFixedNoReplaceFlagAvailable(); /* the kernel refuses nothing while it is probed */ while (now_ns() < end) switch (m) { case 'S': case 'K': any(r, false, unlock); if (m == 'S' && r.chance(1, 20)) strict_child(r); break; case 'U': any(r, true, unlock); break; case 'T': threads(r); break; } }
#endif
  metric("evals", evals); metric("distinct", dist.n); metric("reservations", n_res); metric("dedicated", n_ded); metric("failed_requests", n_null); metric("refused_calls", n_refused); metric("mmap_retries", n_exist); metric("factory_calls", n_create); metric("releases", n_rel); metric("histories", n_hist); say("SAMPLE mode %c: %lld histories, %lld reservations", m, n_hist.load(), n_res.load()); done();
}
