// P01: shadow-model stress over the whole allocator. Every live block carries
// an identity pattern over all its usable bytes; it is verified on every touch.
#include "vt_api.h"
#include "vt_maint.h"
using namespace vt;
using tcmalloc::MallocExtension;
using tcmalloc::tcmalloc_internal::tc_globals;

static constexpr int kSlots = 3000, kMail = 512;
static std::atomic<uint64_t> g_id{1}, g_allocs{0}, g_frees{0}, g_checks{0}, g_bytes{0}, g_reallocs{0}, g_cross{0}, g_maint{0}, g_threads{0}, g_over{0};
static Distinct* dist;
static std::atomic<Block*> mail[kMail];
static Block* mail_store;  // mmap'ed
static std::atomic<bool> stop{false};
static bool g_large;

// Interval shadow at 8-byte granularity hashed into a big owner table: exact
// disjointness monitor for block starts (a second live block that starts
// inside a live one is caught at allocation, before contents suffer).
struct Owner {
  static constexpr size_t N = 1 << 22;
  std::atomic<uint64_t>* t;
  Owner() { t = Arr<std::atomic<uint64_t>>(N).p; }
  static size_t h(uintptr_t a) { return mix(a >> 3) % N; }
  // entries: (granule address >> 3) with linear probing over 16 slots; drops when full (content check still covers)
  void add(const Block& b) { put((uintptr_t)b.p, b); if (b.cap > 8) put(((uintptr_t)b.p + b.cap - 1) & ~7ull, b); }
  void put(uintptr_t a, const Block& b) {
    uint64_t k = a >> 3; size_t i = h(a);
    for (int j = 0; j < 16; j++) if (t[(i + j) % N].load(std::memory_order_relaxed) == k) { g_over++; FATAL("overlap", "address %p (block %p+%zu from %s) is already part of a live block", (void*)a, b.p, b.cap, fn_name(b.fn)); }
    for (int j = 0; j < 16; j++) { uint64_t z = 0; if (t[(i + j) % N].compare_exchange_strong(z, k, std::memory_order_relaxed)) return; }
  }
  void del(const Block& b) { rem((uintptr_t)b.p); if (b.cap > 8) rem(((uintptr_t)b.p + b.cap - 1) & ~7ull); }
  void rem(uintptr_t a) { uint64_t k = a >> 3; size_t i = h(a); for (int j = 0; j < 16; j++) { uint64_t e = k; if (t[(i + j) % N].compare_exchange_strong(e, 0, std::memory_order_relaxed)) return; } }
};
static Owner* owner;

static void verify(const Block& b, const char* when) {
  long off = check(b.p, b.cap, b.id);
  if (off >= 0) FATAL("content", "block %p (+%zu, req %zu, from %s) changed at offset %ld before %s", b.p, b.cap, b.req, fn_name(b.fn), off, when);
  g_checks++;
}
static bool make(Rng& r, Block& b) {
  int f = r.below(F_COUNT); size_t sz = rand_size(r, g_large ? 16 << 20 : 2 << 20), al = rand_align(r, 18);
  if (r.chance(1, 3)) f = r.chance(1, 2) ? F_malloc : F_new;
  if (is_aligned_fn(f) && al > 4096 && sz > 65536) sz &= 65535;
  b = do_alloc(f, sz, al, is_hc(f) ? (int)r.below(256) : -1);
  if (!b.p) FATAL("null", "%s(%zu, align %zu) failed", fn_name(f), sz, al);
  size_t us = malloc_usable_size(b.p);
  if (us < b.req || (b.cap && us < b.cap)) FATAL("usable", "%s(%zu) usable %zu returned %zu", fn_name(f), sz, us, b.cap);
  b.cap = is_sr(f) ? b.cap : us;
  if (zeroes(f)) { for (size_t i = 0; i < b.req; i++) if (((char*)b.p)[i]) FATAL("notzero", "%s(%zu) byte %zu is nonzero", fn_name(f), sz, i); }
  b.id = g_id.fetch_add(1, std::memory_order_relaxed);
  owner->add(b);
  fill(b.p, b.cap, b.id);
  g_allocs++; g_bytes += b.cap; dist->add(f * 1000003ull + us * 64 + lg2(al));
  return true;
}
static void kill(Rng& r, Block& b) { verify(b, "free"); owner->del(b); do_free(b, r.next()); g_frees++; b.p = nullptr; }

static void* worker(void* arg) {
  uint64_t n = (uint64_t)arg; Rng r(seed() * 7919 + n * 104729 + 3);
  uint64_t ops = envu("VT_OPS", 60000) * (thorough() ? 8 : 1);
  Arr<Block> s(kSlots); int phase_bias = 2;
  for (uint64_t i = 0; i < ops && !stop; i++) {
    if (i % 4096 == 0) phase_bias = r.below(5);
    if (i % 8192 == 77) { cpu_set_t c; CPU_ZERO(&c); CPU_SET(r.below(sysconf(_SC_NPROCESSORS_ONLN)), &c); if (r.chance(1, 2)) sched_setaffinity(0, sizeof c, &c); else { memset(&c, 255, sizeof c); sched_setaffinity(0, sizeof c, &c); } }
    Block& b = s[r.below(r.chance(1, 2) ? 64 : kSlots)];
    if (!b.p) { if ((int)r.below(5) >= phase_bias || r.chance(1, 2)) make(r, b); }
    else switch (r.below(10)) {
      case 0: case 1: case 2: case 3: kill(r, b); break;
      case 4: verify(b, "touch"); break;
      case 5: {  // hand over to another thread
        Block* mb = &mail_store[r.below(kMail)]; int k = mb - mail_store; Block* e = nullptr;
        if (mail[k].load(std::memory_order_relaxed) == nullptr && mail[k].compare_exchange_strong(e, (Block*)1)) { *mb = b; b.p = nullptr; mail[k].store(mb, std::memory_order_release); }
        break; }
      case 6: { int k = r.below(kMail); Block* m = mail[k].load(std::memory_order_acquire);
        if (m > (Block*)1 && mail[k].compare_exchange_strong(m, (Block*)1, std::memory_order_acquire)) { Block x = *m; mail[k].store(nullptr, std::memory_order_release); g_cross++; kill(r, x); }
        break; }
      case 7: case 8: if (fam(b.fn) == kC) {
        size_t ns = rand_size(r, 1 << 20); if (r.chance(1, 2)) ns = b.req + r.below(b.req / 2 + 16) ; if (!ns) ns = 1;
        verify(b, "realloc"); size_t keep = b.cap < ns ? b.cap : ns; if (keep > b.req) keep = b.req;
        Block o = b; owner->del(o);
        void* q = r.chance(1, 4) ? reallocarray(b.p, ns, 1) : realloc(b.p, ns);
        if (!q) FATAL("null", "realloc(%zu->%zu) failed", o.req, ns);
        long off = check(q, o.cap, o.id, keep); if (off >= 0) FATAL("content", "realloc %zu->%zu lost byte %ld", o.req, ns, off);
        b.fn = F_malloc; b.p = q; b.req = ns; b.cap = malloc_usable_size(q); if (b.cap < ns) FATAL("usable", "realloc %zu usable %zu", ns, b.cap);
        b.id = g_id++; owner->add(b); fill(q, b.cap, b.id); g_reallocs++; }
        break;
      default: kill(r, b); make(r, b); break;
    }
  }
  // Half of the survivors are freed here, the rest by the main thread.
  for (int i = 0; i < kSlots; i++) if (s[i].p) { verify(s[i], "exit"); if (i & 1) kill(r, s[i]); }
  Block* left = s.p; return left;
}
static bool bg_real;
static pthread_mutex_t bgmu = PTHREAD_MUTEX_INITIALIZER;
static void* maint(void* arg) {
  Rng r(seed() * 31 + (uint64_t)arg + 999);
  while (!stop) {
    int cpu = r.below(sysconf(_SC_NPROCESSORS_ONLN));
    switch (r.below(14)) {
      case 0: MallocExtension::ReleaseMemoryToSystem(r.below(64 << 20)); break;
      case 1: case 2: MallocExtension::ReleaseCpuMemory(cpu); break;
      case 3: MallocExtension::MarkThreadIdle(); break;
      case 4: MallocExtension::MarkThreadBusy(); break;
      case 5: if (r.chance(1, 4)) { auto s = MallocExtension::GetStats(); if (s.empty()) FATAL("stats", "empty"); } break;
      case 6: (void)MallocExtension::GetProperties(); break;
      case 7: case 8: case 9: case 10: case 11: case 12: if (bg_real) break; else {  // the background thread's actions; it runs them under one lock
        pthread_mutex_lock(&bgmu); background_action(r); pthread_mutex_unlock(&bgmu); break; }
      case 13: if (r.chance(1, 8)) { auto p = MallocExtension::SnapshotCurrent(tcmalloc::ProfileType::kHeap); int n = 0; p.Iterate([&](const tcmalloc::Profile::Sample&) { n++; }); } break;
    }
    g_maint++; usleep(r.below(300));
  }
  return nullptr;
}

// Long-lived blocks that must survive everything (checked at the end).
int main(int argc, char** argv) {
  g_large = argc > 1 && strchr(argv[1], 'L'); bool sample = argc > 1 && strchr(argv[1], 'S'), guard = argc > 1 && strchr(argv[1], 'G'), bg = argc > 1 && strchr(argv[1], 'B');
  bool wantcpu = argc > 1 && strchr(argv[1], 'C');
  int nt = envu("VT_THREADS", 6);
  free(malloc(1));
  if (wantcpu && !MallocExtension::PerCpuCachesActive()) return inconclusive("per-CPU caches not active");
  if (sample) MallocExtension::SetProfileSamplingInterval(20000);
  if (guard) { MallocExtension::SetProfileSamplingInterval(5000); MallocExtension::SetGuardedSamplingInterval(10000); MallocExtension::ActivateGuardedSampling(); }
  static Distinct d; dist = &d; static Owner o; owner = &o; mail_store = Arr<Block>(kMail).p;
  pthread_t bgt;
  bg_real = bg;
  if (bg) { MallocExtension::SetBackgroundProcessSleepInterval(absl::Milliseconds(5)); MallocExtension::SetBackgroundReleaseRate((MallocExtension::BytesPerSecond)(100 << 20)); pthread_create(&bgt, 0, [](void*) -> void* { MallocExtension::ProcessBackgroundActions(); return nullptr; }, nullptr); }
  pthread_t m[2], w[16]; for (long i = 0; i < 2; i++) pthread_create(&m[i], 0, maint, (void*)i);
  Rng r(seed() + 5);
  Arr<Block> longl(2000); for (int i = 0; i < 2000; i++) make(r, longl[i]);
  int rounds = 3;
  for (int round = 0; round < rounds; round++) {
    for (long i = 0; i < nt; i++) pthread_create(&w[i], 0, worker, (void*)(round * 100 + i));
    for (int i = 0; i < nt; i++) { void* left; pthread_join(w[i], &left); g_threads++; Block* s = (Block*)left; for (int k = 0; k < kSlots; k++) if (s[k].p) kill(r, s[k]); munmap(s, kSlots * sizeof(Block)); }
    for (int i = 0; i < 2000; i++) { verify(longl[i], "round end"); if (r.chance(1, 4)) { kill(r, longl[i]); make(r, longl[i]); } }
    for (int k = 0; k < kMail; k++) { Block* x = mail[k].exchange(nullptr); if (x > (Block*)1) { g_cross++; kill(r, *x); } }
  }
  for (int i = 0; i < 2000; i++) kill(r, longl[i]);
  stop = true; for (int i = 0; i < 2; i++) pthread_join(m[i], nullptr);
  metric("evals", g_checks); metric("distinct", d.n); metric("allocs", g_allocs); metric("frees", g_frees); metric("reallocs", g_reallocs);
  metric("cross_thread_frees", g_cross); metric("maintenance_actions", g_maint); metric("bytes_patterned", g_bytes); metric("threads", g_threads);
  say("SAMPLE mode=%s percpu=%d threads=%d allocs=%lu cross=%lu", argc > 1 ? argv[1] : "-", (int)MallocExtension::PerCpuCachesActive(), nt, g_allocs.load(), g_cross.load());
  return done();
}
