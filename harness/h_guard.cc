// P22: guarded allocations. Modes: V valid use by several threads, R reports (every bad access in a child of its own), H the handler and
// programs' own handlers, M allocators of other sizes against a model. C per-CPU.
#include <sys/syscall.h>
#include <algorithm>
#include <thread>
#include <vector>
#include "vt_child.h"
#include "vt_prof.h"
#include "tcmalloc/guarded_page_allocator.h"
#include "tcmalloc/parameters.h"
#include "tcmalloc/static_vars.h"
using namespace vt;
using namespace tcmalloc;
using tcmalloc_internal::tc_globals; using tcmalloc_internal::GuardedPageAllocator; using tcmalloc_internal::kPageSize;
static Distinct dist; static Rlx<long long> evals{0}, n_guarded{0}, n_reports{0};
static size_t PS; static constexpr int kLimit = 64;
static bool mine(const void* p) { return tc_globals.guardedpage_allocator().PointerIsMine(p); }
static uintptr_t page_of(const void* p) { return (uintptr_t)p & ~(uintptr_t)(PS - 1); }
static void settle() { for (int i = 0; i < 300; i++) free(malloc(1 << 20)); }
static void activate() { MallocExtension::SetGuardedSamplingInterval(0); MallocExtension::ActivateGuardedSampling(); MallocExtension::SetProfileSamplingInterval(1); settle(); }
static size_t pick_size(Rng& r) { switch (r.below(8)) { case 0: return r.below(40); case 1: return 1 + r.below(PS); case 2: return PS - r.below(40); case 3: return r.below(4); case 4: return (size_t)1 << r.below(14); case 5: return 16 * r.below(80); default: return r.below(1100); } }
static size_t pick_align(Rng& r, size_t sz) { return (size_t)1 << (r.chance(3, 4) ? r.below(8) : r.below(13)); }
static int pick_fn(Rng& r) { int f; do f = r.below(F_COUNT); while (f == F_pvalloc || f == F_valloc); return f; }
static void must_align(const Block& b) { size_t a = is_aligned_fn(b.fn) ? b.align : 1; size_t n = b.req; size_t d = n >= 16 ? 16 : n >= 8 ? 8 : 1; if (fam(b.fn) != kC && fam(b.fn) != kCAligned && !is_aligned_fn(b.fn) && n >= 8) d = std::min<size_t>(d, 16); size_t m = std::max(a, d); if ((uintptr_t)b.p % m) FATAL("align", "guarded %s(%zu, align %zu) at %p", fn_name(b.fn), b.req, b.align, b.p); }

// ---------------------------------------------------------------- valid use
static std::atomic<int> live{0}; static std::atomic<int> most{0}; static Arr<std::atomic<int>> owner(1 << 14);
static void took(void* p, int who) { int l = ++live; int m = most; while (m < l && !most.compare_exchange_weak(m, l)) {} if (l > kLimit) FATAL("limit", "%d blocks guarded at once, the limit is %d", l, kLimit);
  size_t i = (page_of(p) / PS) & ((1 << 14) - 1); int o = owner[i].exchange(who); if (o) FATAL("shared", "guarded page %lx given out twice", page_of(p)); if (owner[(i + 1) & ((1 << 14) - 1)] || owner[(i - 1) & ((1 << 14) - 1)]) FATAL("adjacent", "no guard page next to %p", p); }
static void gave(void* p) { owner[(page_of(p) / PS) & ((1 << 14) - 1)] = 0; live--; }
static void valid(uint64_t end, int W) {
  std::vector<std::thread> th; std::atomic<long long> total{0};
  for (int t = 0; t < W; t++) th.emplace_back([&, t] { Rng r(seed() * 77 + t); settle(); static Arr<Block> blk(16 * 64); Block* B = &blk[t * 64]; int nb = 0; uint64_t id = t * 1000000000ull; bool g[64]; uint64_t ids[64]; size_t us[64]; long it = 0;
      while (now_ns() < end && it++ < (1 << 28)) {
        if (nb < 24 && r.chance(1, 2)) { int f = pick_fn(r); size_t sz = pick_size(r), al = pick_align(r, sz); Block b = do_alloc(f, sz, al, is_hc(f) ? (int)r.below(256) : -1); if (!b.p) FATAL("null", "%s(%zu)", fn_name(f), sz);
          int k = nb++; B[k] = b; ids[k] = ++id; g[k] = mine(b.p); us[k] = malloc_usable_size(b.p); evals++;
          if (g[k]) { took(b.p, t + 1); total++; must_align(b); if (page_of(b.p) != page_of((char*)b.p + (us[k] ? us[k] - 1 : 0))) FATAL("fit", "%s(%zu) at %p with %zu usable bytes crosses a page", fn_name(f), sz, b.p, us[k]); dist.add(sz * 16 + lg2(al) * 1000003 + f * 77); if (zeroes(f)) for (size_t i = 0; i < sz; i++) if (((char*)b.p)[i]) FATAL("zero", "guarded %s(%zu) not zero at %zu", fn_name(f), sz, i);
            if (us[k] < b.req) FATAL("size", "guarded %s(%zu): %zu usable bytes", fn_name(f), sz, us[k]); }
          fill(b.p, us[k], ids[k]);
        } else if (nb) { int k = r.below(nb); long o = check(B[k].p, us[k], ids[k]); if (o >= 0) FATAL("content", "byte %ld of guarded=%d %s(%zu) at %p changed", o, g[k], fn_name(B[k].fn), B[k].req, B[k].p);
          if (fam(B[k].fn) == kC && r.chance(1, 4)) { size_t n2 = 1 + pick_size(r); size_t keep = std::min(n2, us[k]); if (g[k]) gave(B[k].p); void* q = realloc(B[k].p, n2); if (!q) FATAL("null", "realloc"); // a resized guarded block moves
            if (mine(q) && !(g[k] && q == B[k].p)) took(q, t + 1), total++; else if (mine(q)) took(q, t + 1);
            o = check(q, us[k], ids[k], keep & ~7ul); if (o >= 0) FATAL("content", "realloc lost byte %ld", o); B[k].p = q; B[k].req = n2; B[k].cap = 0; B[k].fn = F_malloc; g[k] = mine(q); us[k] = malloc_usable_size(q); ids[k] = ++id; fill(q, us[k], ids[k]);
          } else { if (g[k]) gave(B[k].p); do_free(B[k], r.next()); nb--; B[k] = B[nb]; g[k] = g[nb]; ids[k] = ids[nb]; us[k] = us[nb]; } }
      }
      while (nb) { nb--; if (g[nb]) gave(B[nb].p); do_free(B[nb], r.next()); } });
  for (auto& t : th) t.join(); n_guarded += total; metric("most_guarded_at_once", most); if (total < 5000) return (void)inconclusive("too few guarded blocks");
}
static int probe_fd[2];
static bool readable(uintptr_t a) { char c; ssize_t k = write(probe_fd[1], (void*)a, 1); if (k == 1) { if (read(probe_fd[0], &c, 1) != 1) FATAL("harness", "pipe"); return true; } return false; }
static void guards(const void* p, bool open) { uintptr_t g = page_of(p); if (readable(g - 1) || readable(g - PS) || readable(g + PS) || readable(g + 2 * PS - 1)) FATAL("guard", "a page next to guarded block %p is accessible", p); if (readable(g) != open || readable(g + PS - 1) != open) FATAL("guard", "page of %s guarded block %p is %saccessible", open ? "live" : "freed", p, open ? "not " : ""); }
// one thread: while fewer than the limit are out, the next one is guarded (slots come back); at the limit none is
static void recycling(uint64_t end) {
  Rng r(seed() * 5); static Arr<Block> B(256); static Arr<bool> G(256); long rounds = 0; while (now_ns() < end) { rounds++; int n = 0, g = 0, hold = r.range(1, 100);
    for (int i = 0; i < hold; i++) { int f = pick_fn(r); size_t sz = r.below(PS / 2), al = (size_t)1 << r.below(10); Block b = do_alloc(f, sz, al, is_hc(f) ? 200 : -1); bool gd = mine(b.p); evals++; if (gd != (g < kLimit)) FATAL(gd ? "limit" : "slots", "with %d guarded blocks of mine out, %s(%zu, %zu) is %sguarded", g, fn_name(f), sz, al, gd ? "" : "not "); B[n] = b; G[n] = gd; n++; g += gd; if (gd) n_guarded++, took(b.p, 1), guards(b.p, sz != 0);
      if (r.chance(1, 4)) { int k = r.below(n); if (G[k]) gave(B[k].p); do_free(B[k], r.next()); if (G[k]) guards(B[k].p, false); g -= G[k]; n--; B[k] = B[n]; G[k] = G[n]; } }
    while (n) { n--; if (G[n]) gave(B[n].p); do_free(B[n], r.next()); } }
  metric("recycling_rounds", rounds);
}
// ---------------------------------------------------------------- reports
struct Sh { FreeEv e; int tid_free, tid_bad; };
enum { OVER, UNDER, UAF, DOUBLE, MAGIC, ZERO, WIDE, KINDS };
static const char* kind_name[] = {"overflow", "underflow", "use after free", "double free", "overflow seen at free", "zero-sized access", "wide access over the end"};
__attribute__((noinline)) static void touch(volatile char* p, bool w) { if (w) *p = 'z'; else (void)*p; }
static void expect(const Outcome& o, const char* what, const Desc& d, const char* frag) { char t[1100]; if (o.has(frag)) return; o.shown(t, sizeof t); FATAL("report", "%s of %s(%zu, align %zu) at %p: \"%s\" is not reported; status %x, text: %s", what, fn_name(d.b.fn), d.b.req, d.b.align, d.b.p, frag, o.status, t); }
static void one_report(Rng& r, Desc& d, size_t n, Sh* sh, int alloc_tid) {
  uintptr_t p = (uintptr_t)d.b.p, pg = page_of(d.b.p); int kind = r.below(KINDS); bool w = r.chance(1, 2), other = r.chance(1, 3); long off = 0; size_t span = 0; uint64_t rr = r.next(); bool churn = r.chance(1, 2); int depth = r.below(8); uint64_t path = r.next();
  auto spread = [&](size_t lim) -> size_t { switch (r.below(4)) { case 0: return 0; case 1: return lim - 1; default: return r.chance(1, 2) ? r.below(std::min<size_t>(lim, 64)) : r.below(lim); } };
  switch (kind) {
    case OVER: off = (long)(pg + PS + spread(PS / 2) - p); break;
    case UNDER: off = (long)(pg - 1 - spread(PS / 2) - p); break;
    case UAF: off = (long)spread(std::max<size_t>(n, 1)); if (n && r.chance(1, 5)) off = (long)(pg + r.below(PS) - p); break;
    case DOUBLE: break;
    case MAGIC: { if (p == pg || p + n >= pg + PS || !n) return; span = std::min<size_t>(32, pg + PS - (p + n)); off = (long)(n + r.below(span)); break; }
    case ZERO: if (n) return; break;
    case WIDE: if (!n) return; break;
  }
  bool badfree = kind == DOUBLE || kind == MAGIC; Outcome o; sh->tid_free = sh->tid_bad = 0;
  run_child(o, [&] {
    auto act = [&] { auto in = [&](auto g) { if (other) { pthread_t t; pthread_attr_t a; pthread_attr_init(&a); pthread_attr_setstacksize(&a, 256 << 10); auto fn = +[](void* v) -> void* { (*(decltype(g)*)v)(); return nullptr; }; pthread_create(&t, &a, fn, &g); pthread_join(t, nullptr); } else g(); };
      if (kind == UAF || kind == DOUBLE) { auto fr = [&] { leaf_free(d.b, rr, sh->e); }; sh->tid_free = (int)syscall(SYS_gettid); nest(depth, path, fr); }
      if (churn && (kind == DOUBLE || kind == UAF)) { // the block stays in quarantine while everything else moves on
        static void* q[600]; for (int i = 0; i < 600; i++) q[i] = malloc(i % 3 ? 100 + i * 40 : 1 << 18); for (int i = 0; i < 600; i += 2) free(q[i]); for (int i = 0; i < 600; i += 2) q[i] = ::operator new(20000); }
      in([&] { sh->tid_bad = (int)syscall(SYS_gettid); switch (kind) { case OVER: case UNDER: case UAF: touch((volatile char*)(p + off), w); break; case ZERO: touch((volatile char*)p, w); break; case DOUBLE: do_free(d.b, rr >> 7); break; case MAGIC: *(volatile char*)(p + off) ^= 1 << (rr & 7); do_free(d.b, rr >> 7); break;
          case WIDE: { long k = 1 + (long)(rr % 7); uint64_t v = 0; if (w) memcpy((void*)(pg + PS - k), &v, 8); else memcpy(&v, (void*)(pg + PS - k), 8); asm volatile("" ::"r"(v) : "memory"); break; } } }); };
    MallocExtension::SetGuardedSamplingInterval(-1); act(); });  // nothing else may take the slot out of quarantine
  evals++; const char* K = kind_name[kind]; char t[1100]; if (o.timeout) FATAL("hang", "%s of %s(%zu) never ended", K, fn_name(d.b.fn), d.b.req);
  if (!o.killed(SIGSEGV)) { o.shown(t, sizeof t); FATAL("missed", "%s (offset %ld, %s%s%s) of guarded %s(%zu, align %zu) at %p did not end the process with SIGSEGV: status %x, text %s", K, off, w ? "write" : "read", other ? ", other thread" : "", churn ? ", after churn" : "", fn_name(d.b.fn), d.b.req, d.b.align, d.b.p, o.status, t); }
  n_reports++; expect(o, K, d, "GWP-ASan"); char b[200]; if (kind == WIDE) off = (long)(pg + PS - p);
  if (badfree) snprintf(b, sizeof b, ">>> Access at offset 0 into buffer of length %zu\n", n); else snprintf(b, sizeof b, ">>> Access at offset %ld into buffer of length %zu\n", off, n); expect(o, K, d, b);
  snprintf(b, sizeof b, "Error originates from memory allocated in thread %d at:", alloc_tid); expect(o, K, d, b); void* st[100]; int k = stack_after(o.text, b, st, 100);
  if (!stack_ends_with(st, k, d.fr)) { o.shown(t, sizeof t); FATAL("stack", "%s of %s(%zu): the allocation stack (%d frames) is not the caller's: %s", K, fn_name(d.b.fn), d.b.req, k, t); }
  switch (kind) { case OVER: case WIDE: case ZERO: snprintf(b, sizeof b, "Buffer overflow (%s) occurs in thread %d at:", w ? "write" : "read", sh->tid_bad); break; case UNDER: snprintf(b, sizeof b, "Buffer underflow (%s) occurs in thread %d at:", w ? "write" : "read", sh->tid_bad); break; case UAF: snprintf(b, sizeof b, "Use-after-free (%s) occurs in thread %d at:", w ? "write" : "read", sh->tid_bad); break;
    case DOUBLE: snprintf(b, sizeof b, "Double free occurs in thread %d at:", sh->tid_bad); break; case MAGIC: snprintf(b, sizeof b, "Buffer overflow (write) detected in thread %d at free:", sh->tid_bad); break; }
  expect(o, K, d, b);
  if (kind == UAF || kind == DOUBLE) { snprintf(b, sizeof b, "The memory was freed in thread %d at:", sh->tid_free); expect(o, K, d, b); k = stack_after(o.text, b, st, 100); if (!stack_ends_with(st, k, sh->e.fr)) { o.shown(t, sizeof t); FATAL("stack", "%s of %s(%zu): the free stack (%d frames) is not the caller's: %s", K, fn_name(d.b.fn), d.b.req, k, t); } }
  dist.add(kind * 2 + w + other * 64 + churn * 128 + (uint64_t)std::min<size_t>(n, 600) * 256 + (uint64_t)lg2(std::max<size_t>(d.b.align, 1)) * 1000003ull + (p == pg) * 7777777);
}
static void reports(uint64_t end) {
  Sh* sh = shared<Sh>(); Rng r(seed() * 13); static Arr<Desc> D(64); static Arr<size_t> N(64); int n = 0, tid = (int)syscall(SYS_gettid);
  // a block of each size kept, replaced as the reports go on: slots differ from case to case
  while (now_ns() < end) {
    while (n < 20) { int f = pick_fn(r); size_t sz = r.chance(1, 10) ? 0 : pick_size(r), al = pick_align(r, sz); auto go = [&] { leaf_alloc(D[n], f, sz, al, is_hc(f) ? 150 : -1); }; nest(r.below(10), r.next(), go); if (!mine(D[n].b.p)) { do_free(D[n].b, r.next()); continue; } N[n] = malloc_usable_size(D[n].b.p); if (N[n] != (is_sr(f) ? D[n].b.cap : requested_by(D[n].b))) FATAL("size", "guarded %s(%zu): usable %zu", fn_name(f), sz, N[n]); fill(D[n].b.p, N[n], D[n].t1); n++; n_guarded++; }
    for (int i = 0; i < 12; i++) { int k = r.below(n); one_report(r, D[k], N[k], sh, tid); if (r.chance(1, 6)) { long o2 = check(D[k].b.p, N[k], D[k].t1 /*id*/); if (o2 >= 0) FATAL("content", "guarded block changed"); do_free(D[k].b, r.next()); n--; D[k] = D[n]; N[k] = N[n]; break; } } }
}

// ---------------------------------------------------------------- signal handling
static void on_segv(int sig, siginfo_t* si, void*) { char b[100]; int n = snprintf(b, 100, "HANDLER %d %lx\n", sig, (long)si->si_addr); if (write(2, b, n) != n) _exit(1); _exit(42); }
static void on_segv1(int sig) { char b[100]; int n = snprintf(b, 100, "HANDLER %d\n", sig); if (write(2, b, n) != n) _exit(1); _exit(42); }
static void handlers(uint64_t end) { // each child activates for itself
  Rng r(seed() * 3); static char* hole = (char*)mmap(nullptr, 1 << 16, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); struct Sh2 { char* addr; }; Sh2* sh = shared<Sh2>();
  for (int it = 0; now_ns() < end || it < 40; it++) {
    int pre = it % 3, bad = it / 3 % 4; bool w = r.chance(1, 2); size_t n = 16 * (1 + r.below(20)); Outcome o; long off = r.below(PS / 2);
    run_child(o, [&] { struct sigaction sa = {}; if (pre == 1) { sa.sa_flags = SA_SIGINFO; sa.sa_sigaction = on_segv; } if (pre == 2) sa.sa_handler = on_segv1; if (pre) { sigaction(SIGSEGV, &sa, nullptr); sigaction(SIGTRAP, &sa, nullptr); }
      activate(); char* p = nullptr; for (int i = 0; i < 60 && !(p && mine(p)); i++) p = (char*)malloc(n); if (!mine(p)) _exit(9);
      switch (bad) { case 0: sh->addr = (char*)page_of(p) + PS + off; break; case 1: free(p); sh->addr = p; break; case 2: sh->addr = hole + off; break; case 3: raise(SIGTRAP); _exit(8); }
      touch(sh->addr, w); });
    evals++; dist.add(pre * 4 + bad); char t[600]; o.shown(t, 600); int sig = bad == 3 ? SIGTRAP : SIGSEGV; if (o.timeout) FATAL("hang", "handler case %d/%d", pre, bad);
    if (WIFEXITED(o.status) && WEXITSTATUS(o.status) == 9) FATAL("slots", "no guarded block in 60 tries after activation");
    if (pre ? !(WIFEXITED(o.status) && WEXITSTATUS(o.status) == 42) : !o.killed(sig)) FATAL("forward", "earlier handler kind %d, case %d: status %x text %s", pre, bad, o.status, t);
    if (o.has("GWP-ASan") != (bad < 2)) FATAL("forward", "case %d: %s GWP-ASan report: %s", bad, bad < 2 ? "no" : "unwanted", t);
    if (bad == 0) { if (!o.has("Buffer overflow")) FATAL("report", "%s", t); n_reports++; } if (bad == 1) { if (!o.has("Use-after-free")) FATAL("report", "%s", t); n_reports++; }
    char b[100]; if (pre == 1 && bad < 3) snprintf(b, 100, "HANDLER %d %lx\n", sig, (long)sh->addr); else snprintf(b, 100, "HANDLER %d", sig); if (pre && !o.has(b)) FATAL("forward", "the program's own handler did not get the fault at %p: %s", sh->addr, t);
  }
}
// ---------------------------------------------------------------- allocators of other sizes
static void model(uint64_t end) {
  Rng r(seed() * 17); long rounds = 0;
  while (now_ns() < end) { rounds++;
    auto* g = new (mmap(nullptr, sizeof(GuardedPageAllocator), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0)) GuardedPageAllocator(); size_t total = 1 + r.below(r.chance(1, 4) ? 512 : 40), max = 1 + r.below(total); g->Init(max, total);
    struct L { char* p; size_t n; uint64_t id; }; std::vector<L> v; long ok = 0, no = 0, high = 0; std::vector<uintptr_t> seen; tcmalloc_internal::StackTrace st = {}; st.depth = 3; for (int i = 0; i < 3; i++) st.stack[i] = (void*)(0x1000 + r.below(100)); MallocExtension::SetGuardedSamplingInterval(0);
    auto a0 = g->TrySample(8, (std::align_val_t)8, tcmalloc_internal::Length(1), st); if (a0.alloc) FATAL("early", "guarded allocation before it is allowed"); g->AllowAllocations(); uintptr_t lo = ~0ul, hi = 0;
    for (int i = 0; i < 1500; i++) { evals++;
      if (r.chance(3, 5)) { size_t n = pick_size(r) % (PS + 1), al = r.chance(1, 5) ? 0 : (size_t)1 << r.below(r.chance(1, 4) ? 13 : 6); size_t pgs = r.chance(1, 20) ? 2 : 1; auto a = g->TrySample(n, (std::align_val_t)al, tcmalloc_internal::Length(pgs), st); bool want = pgs == 1 && v.size() < max; if ((a.alloc != nullptr) != want) FATAL("slots", "%zu of %zu slots out (%zu in all): allocation of %zu is %p", v.size(), max, total, n, a.alloc);
        auto S = a.status; using GS = Profile::Sample::GuardedStatus; if (S != (want ? GS::Guarded : pgs == 2 ? GS::LargerThanOnePage : GS::NoAvailableSlots)) FATAL("status", "status %d", (int)S); if (!want) { if (pgs == 1) no++; continue; }
        ok++; char* p = (char*)a.alloc; if (al && (uintptr_t)p % al) FATAL("align", "%p for alignment %zu", p, al); if (n && page_of(p) != page_of(p + n - 1)) FATAL("fit", "%p + %zu crosses a page", p, n); for (auto& x : v) if (page_of(x.p) == page_of(p)) FATAL("shared", "page %lx given out twice", page_of(p)); lo = std::min(lo, page_of(p)); hi = std::max(hi, page_of(p)); seen.push_back(page_of(p));
        if (g->GetRequestedSize(p) != n) FATAL("size", "requested size %zu instead of %zu", g->GetRequestedSize(p), n); if (!g->PointerIsMine(p) || !g->PointerIsCorrectlyAligned(p) || (n && !g->PointerIsMine(p + n - 1))) FATAL("own", "%p not recognised", p); if (n > 1 && g->PointerIsCorrectlyAligned(p + 1)) FATAL("own", "interior pointer taken for a block"); guards(p, n != 0); v.push_back({p, n, r.next()}); fill(p, n, v.back().id); high = std::max(high, (long)v.size()); dist.add(n * 16 + lg2(al ? al : 1) * 100003 + (max == total));
        auto [off, len] = g->GetAllocationOffsetAndSize(p); if (off != 0 || len != n) FATAL("own", "offset %ld length %zu", (long)off, len); long d = (long)r.below(PS / 2); auto [o2, l2] = g->GetAllocationOffsetAndSize((char*)page_of(p) + PS + d); if (o2 != (long)(page_of(p) + PS + d - (uintptr_t)p) || l2 != n) FATAL("own", "address %ld past the page attributed to offset %ld of a block of %zu", d, (long)o2, l2); auto [o3, l3] = g->GetAllocationOffsetAndSize((char*)page_of(p) - 1 - d); if (o3 != (long)(page_of(p) - 1 - d - (uintptr_t)p) || l3 != n) FATAL("own", "address %ld before the page attributed to offset %ld of a block of %zu", d, (long)o3, l3);
      } else if (!v.empty()) { size_t k = r.below(v.size()); if (check(v[k].p, v[k].n, v[k].id) >= 0) FATAL("content", "guarded block changed"); g->Deallocate(v[k].p); guards(v[k].p, false); v[k] = v.back(); v.pop_back(); }
      if (g->GetNumAvailablePages() != max - v.size()) FATAL("count", "%zu pages available, %zu of %zu blocks live", g->GetNumAvailablePages(), v.size(), max);
    }
    if (g->successful_allocations() != ok) FATAL("count", "%ld successes reported, %ld seen", (long)g->successful_allocations(), ok); n_guarded += ok;
    static char buf[4096]; tcmalloc_internal::Printer out(buf, sizeof buf); g->Print(out); char w1[200]; snprintf(w1, 200, "Successful Allocations: %ld\nFailed Allocations: 0\nSkipped Allocations (No Slots): %ld\n", ok, no); if (!strstr(buf, w1)) FATAL("count", "dump: %s instead of %s", buf, w1); snprintf(w1, 200, "Currently Allocated: %zu / %zu\nAllocated High-Watermark: %ld / %zu\n", v.size(), max, high, max); if (!strstr(buf, w1)) FATAL("count", "dump: %s instead of %s", buf, w1);
    std::sort(seen.begin(), seen.end()); size_t uniq = std::unique(seen.begin(), seen.end()) - seen.begin(); if (uniq > total) FATAL("slots", "%zu different pages of %zu", uniq, total); if (ok > 900 && total <= 30 && uniq < total && max > 2) FATAL("recycle", "%ld allocations used %zu of %zu slots", ok, uniq, total); snprintf(w1, 200, "Object Pages Touched: %zu / %zu\n", uniq, total); if (!strstr(buf, w1)) FATAL("count", "dump: %s instead of %s", buf, w1);
    for (auto& x : v) g->Deallocate(x.p); g->Destroy(); munmap((void*)((uintptr_t)g & ~4095ul), (sizeof(GuardedPageAllocator) + 4095) & ~4095ul); }
  metric("rounds", rounds);
}
int main(int argc, char** argv) {
  uint64_t T = (thorough() ? 200ull : 4ull) * 1000000000, end = now_ns() + T; PS = std::max<size_t>(kPageSize, getpagesize()); if (pipe(probe_fd)) return inconclusive("pipe"); const char* m = argv[1]; free(malloc(8));
  if (strchr(m, 'C') && !MallocExtension::PerCpuCachesActive()) return inconclusive("per-CPU caches not active");
  if (m[0] == 'H') handlers(end); else if (m[0] == 'M') model(end); else { activate(); if (m[0] == 'V') { recycling(now_ns() + T / 3); for (int i = 0; i < 1 << 14; i++) owner[i] = 0; valid(end, 6); } else reports(end); }
  metric("evals", evals); metric("distinct", dist.n); metric("guarded_blocks", n_guarded); metric("reports", n_reports); say("SAMPLE mode=%s guarded blocks=%lld reports judged=%lld", m, (long long)n_guarded, (long long)n_reports);
  return done();
}
