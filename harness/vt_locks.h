// Monitor of the allocator's internal locks (build with -DVT_LOCKS): records which locks are acquired while
// others are held, finds cycles in that order, self-deadlocks and leaked locks, and stretches critical sections.
#pragma once
#include <execinfo.h>
#include <sys/syscall.h>
#include <set>
#include "vt.h"
namespace vt { namespace lk {
struct Edge { std::atomic<uint64_t> key; const void *a, *b; std::atomic<const void*> gate[6]; std::atomic<int> ngate; std::atomic<int> tid; std::atomic<bool> multi, ready; void* at[8]; int nat; };
constexpr int kEdges = 1 << 18;
inline Edge edges[kEdges];
inline std::atomic<uint64_t> acquisitions, contended_edges, nested, nedges, full, delays, cyclic;
inline std::atomic<int> delay_den{0};      // 1 in this many acquisitions is stretched
inline std::atomic<bool> on{true};
struct Held { const void* l[40]; int n; uint64_t rng; int tid; };
inline thread_local Held held __attribute__((tls_model("initial-exec")));
inline void spin_delay(Held& h) {
  int d = delay_den.load(std::memory_order_relaxed); if (!d) return; h.rng = h.rng * 6364136223846793005ull + 1442695040888963407ull + (uintptr_t)&h; uint64_t x = h.rng >> 33;
  if (x % d) return; delays.fetch_add(1, std::memory_order_relaxed);
  if (x / d % 8) sched_yield(); else { timespec t{0, (long)(x / d % 97) * 1000}; nanosleep(&t, nullptr); }
}
inline void add_edge(Held& h, const void* a, const void* b) {
  uint64_t k = mix((uintptr_t)a * 31 ^ mix((uintptr_t)b)) | 1; if (!h.tid) h.tid = (int)syscall(SYS_gettid);
  for (int i = 0; i < 64; i++) { Edge& e = edges[(k + i) % kEdges]; uint64_t z = e.key.load(std::memory_order_acquire);
    if (z == 0) { if (e.key.compare_exchange_strong(z, k)) { e.a = a; e.b = b; int n = 0; for (int j = 0; j < h.n && n < 6; j++) if (h.l[j] != a && h.l[j] != b) e.gate[n++] = h.l[j]; e.ngate = n; e.tid = h.tid; void** fp = (void**)__builtin_frame_address(0); e.nat = 0; (void)fp; e.ready.store(true, std::memory_order_release); nedges++; return; } }
    if (z == k) { if (!e.ready.load(std::memory_order_acquire)) return; if (e.tid.load(std::memory_order_relaxed) != h.tid) e.multi.store(true, std::memory_order_relaxed);
      // locks always held along with this order
      int n = e.ngate.load(std::memory_order_relaxed); for (int j = 0; j < n; j++) { const void* g = e.gate[j].load(std::memory_order_relaxed); if (!g) continue; bool in = false; for (int q = 0; q < h.n; q++) if (h.l[q] == g) in = true; if (!in) e.gate[j].store(nullptr, std::memory_order_relaxed); }
      return; } }
  full++;
}
inline bool gates_meet(const Edge& x, const Edge& y) { for (int i = 0; i < x.ngate; i++) if (x.gate[i]) for (int j = 0; j < y.ngate; j++) if (x.gate[i] == y.gate[j].load()) return true; return false; }
using Namer = void (*)(const void* lock, char* out, size_t n);
inline Namer namer = nullptr;
inline void name(const void* l, char* o, size_t n) { if (namer) namer(l, o, n); else snprintf(o, n, "%p", l); }
// Cycles of length 2 and 3 whose parts may happen at the same time in different threads.
inline int cycles() {
  int found = 0; static Edge* v[kEdges]; int n = 0; for (auto& e : edges) if (e.key && e.ready) v[n++] = &e;
  // only orders that lie on some circle matter: drop those that nothing precedes or follows until none is left to drop
  for (bool more = true; more;) { more = false; std::set<const void*> from, to; for (int i = 0; i < n; i++) from.insert(v[i]->a), to.insert(v[i]->b);
    int m = 0; for (int i = 0; i < n; i++) if (from.count(v[i]->b) && to.count(v[i]->a)) v[m++] = v[i]; else more = true; n = m; }
  cyclic = n; if (n > 3000) n = 3000;
  auto together = [](Edge* x, Edge* y) { return !gates_meet(*x, *y) && (x->multi || y->multi || x->tid != y->tid); };
  for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { if (v[i]->b != v[j]->a) continue;
    if (v[j]->b == v[i]->a && i < j && together(v[i], v[j])) { char a[80], b[80]; name(v[i]->a, a, 80); name(v[i]->b, b, 80); VIOL("lock-order", "%s is taken while %s is held, and the other way round in another thread", b, a); found++; }
    else for (int k = 0; k < n; k++) if (v[j]->b == v[k]->a && v[k]->b == v[i]->a && v[k]->a != v[i]->a && v[k]->b != v[k]->a && v[i]->a < v[j]->a && v[i]->a < v[k]->a && together(v[i], v[j]) && together(v[j], v[k]) && together(v[i], v[k])) { char a[80], b[80], c[80]; name(v[i]->a, a, 80); name(v[j]->a, b, 80); name(v[k]->a, c, 80); VIOL("lock-order", "locks are taken in a circle: %s, %s, %s", a, b, c); found++; } }
  return found;
}
}}  // namespace vt::lk
extern "C" void vt_lock_want(const void* l) {
  using namespace vt::lk; Held& h = held; if (!on.load(std::memory_order_relaxed)) return;
  for (int i = 0; i < h.n; i++) if (h.l[i] == l) { char a[80]; name(l, a, 80); FATAL("self-deadlock", "a thread takes %s, which it holds already", a); }
  for (int i = 0; i < h.n; i++) add_edge(h, h.l[i], l);
  if (h.n) nested.fetch_add(1, std::memory_order_relaxed);
}
extern "C" void vt_lock_got(const void* l, bool tried) {
  using namespace vt::lk; Held& h = held; if (!on.load(std::memory_order_relaxed)) return; acquisitions.fetch_add(1, std::memory_order_relaxed);
  if (h.n < 40) h.l[h.n] = l; h.n++; spin_delay(h);
}
extern "C" void vt_lock_drop(const void* l) {
  using namespace vt::lk; Held& h = held; if (!on.load(std::memory_order_relaxed)) return;
  for (int i = h.n - 1; i >= 0; i--) if (i < 40 && h.l[i] == l) { for (int j = i; j + 1 < h.n && j + 1 < 40; j++) h.l[j] = h.l[j + 1]; h.n--; return; }
}
