// Small monitor runtime shared by all harnesses. Never allocates.
#pragma once
#include <errno.h>
#include <fcntl.h>
#include <pthread.h>
#include <sched.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <time.h>
#include <unistd.h>
#include <atomic>

namespace vt {
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 1) : s(seed * 0xD6E8FEB86659FD93ull + 0x1234567) { for (int i = 0; i < 2; i++) s = next() * 0xD6E8FEB86659FD93ull ^ (seed << 17); }  // streams of different seeds do not overlap
  uint64_t next() {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  uint64_t range(uint64_t lo, uint64_t hi) { return lo + below(hi - lo + 1); }
  bool chance(uint32_t num, uint32_t den) { return below(den) < num; }
  double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
};
inline uint64_t envu(const char* n, uint64_t d) { const char* v = getenv(n); return v && *v ? strtoull(v, nullptr, 10) : d; }
inline uint64_t seed() { return envu("VERIF_SEED", 1); }
inline bool thorough() { const char* v = getenv("VERIF_TIER"); return v && !strcmp(v, "thorough"); }
inline const char* dir() { const char* v = getenv("VT_DIR"); return v ? v : "/tmp"; }
inline void out(const char* b, size_t n) { while (n) { ssize_t w = ::write(1, b, n); if (w <= 0) return; b += w; n -= w; } }
inline void say(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
inline void say(const char* fmt, ...) {
  char buf[2048]; va_list ap; va_start(ap, fmt); int n = vsnprintf(buf, sizeof buf - 1, fmt, ap); va_end(ap);
  if (n > (int)sizeof buf - 2) n = sizeof buf - 2; buf[n++] = '\n'; out(buf, n);
}
inline std::atomic<int> nviol{0};
// Records a violation; the process ends after a few of them.
#define VIOL(key, ...) do { char _b[1500]; snprintf(_b, sizeof _b, __VA_ARGS__); vt::say("VIOL %s %s", key, _b); if (++vt::nviol >= 5) _exit(10); } while (0)
#define FATAL(key, ...) do { char _b[1500]; snprintf(_b, sizeof _b, __VA_ARGS__); vt::say("VIOL %s %s", key, _b); _exit(10); } while (0)
#define EXPECT(cond, key, ...) do { if (__builtin_expect(!(cond), 0)) VIOL(key, __VA_ARGS__); } while (0)
inline void metric(const char* k, long long v) { say("STAT %s %lld", k, v); }
inline int done() { if (nviol) _exit(10); say("DONE"); fflush(stdout); _exit(0); return 0; }
inline int inconclusive(const char* why) { say("INCONCLUSIVE %s", why); _exit(3); return 3; }
inline uint64_t now_ns() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec * 1000000000ull + t.tv_nsec; }
inline uint64_t mix(uint64_t z) { z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }

// mmap-backed array so that harness bookkeeping never touches the allocator.
template <class T> struct Arr {
  T* p; size_t n;
  explicit Arr(size_t n_) : n(n_) { p = (T*)mmap(nullptr, n * sizeof(T), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); }
  T& operator[](size_t i) { return p[i]; }
};

// Distinct-case counter: approximate set via a large bitmap of hashes.
#ifdef VT_TSAN
constexpr bool kTsan = true;
#else
constexpr bool kTsan = false;
#endif
#if defined(__SANITIZE_ADDRESS__) || defined(VT_UBSAN)
constexpr bool kSan = true;  // compiled to detect undefined behaviour
#else
constexpr bool kSan = false;
#endif
// A counter that orders nothing between the threads that use it.
template <class T> struct Rlx {
  std::atomic<T> v; constexpr Rlx(T x = T()) : v(x) {}
  operator T() const { return v.load(std::memory_order_relaxed); } T load() const { return v.load(std::memory_order_relaxed); }
  T operator=(T x) { v.store(x, std::memory_order_relaxed); return x; } T operator++(int) { return v.fetch_add(1, std::memory_order_relaxed); } T operator++() { return v.fetch_add(1, std::memory_order_relaxed) + 1; }
  T operator+=(T x) { return v.fetch_add(x, std::memory_order_relaxed) + x; } T operator-=(T x) { return v.fetch_sub(x, std::memory_order_relaxed) - x; }
  bool compare_exchange_weak(T& a, T b) { return v.compare_exchange_weak(a, b, std::memory_order_relaxed); }
};
struct Distinct {
  uint8_t* bits; static constexpr uint64_t N = 1ull << 27; Rlx<long long> n{0};
  Distinct() { bits = (uint8_t*)mmap(nullptr, N / 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); }
  void add(uint64_t h) { h = mix(h + 0x51ed27) % N; uint8_t m = 1 << (h & 7); uint8_t o = __atomic_fetch_or(&bits[h >> 3], m, __ATOMIC_RELAXED); if (!(o & m)) n++; }
};

// Content pattern of a block identified by id. Blocks above kDense are
// patterned fully in their first and last 4 KiB and with one 8-byte word per
// 128 bytes (position depends on the id) in between.
constexpr size_t kDense = 64 << 10;
inline void fill_range(uint8_t* b, size_t i, size_t n, uint64_t k) {
  for (; i + 8 <= n; i += 8) { uint64_t v = k + i * 0x9E3779B97F4A7C15ull; memcpy(b + i, &v, 8); }
  uint64_t v = k + i * 0x9E3779B97F4A7C15ull; memcpy(b + i, &v, n - i);
}
inline long check_range(const uint8_t* b, size_t i, size_t n, uint64_t k) {
  for (; i + 8 <= n; i += 8) { uint64_t v = k + i * 0x9E3779B97F4A7C15ull, w; memcpy(&w, b + i, 8); if (v != w) { for (int j = 0; j < 8; j++) if (((uint8_t*)&v)[j] != b[i + j]) return i + j; } }
  uint64_t v = k + i * 0x9E3779B97F4A7C15ull; for (size_t j = 0; i + j < n; j++) if (((uint8_t*)&v)[j] != b[i + j]) return i + j;
  return -1;
}
inline void fill(void* p, size_t n, uint64_t id) {
  uint8_t* b = (uint8_t*)p; uint64_t k = mix(id | 1);
  if (n <= kDense) { fill_range(b, 0, n, k); return; }
  fill_range(b, 0, 4096, k);
  for (size_t i = 4096 + (k & 15) * 8; i < n - 4200; i += 128) { uint64_t v = k + i * 0x9E3779B97F4A7C15ull; memcpy(b + i, &v, 8); }
  fill_range(b, (n - 4096) & ~7ull, n, k);
}
// -> offset of the first wrong byte or -1. `n` is the size used with fill();
// only offsets below `upto` are looked at.
inline long check(const void* p, size_t n, uint64_t id, size_t upto = ~0ull) {
  const uint8_t* b = (const uint8_t*)p; uint64_t k = mix(id | 1); size_t m = upto < n ? upto & ~7ull : n;
  if (n <= kDense) return check_range(b, 0, m, k);
  long o = check_range(b, 0, m < 4096 ? m : 4096, k); if (o >= 0) return o;
  for (size_t i = 4096 + (k & 15) * 8; i < n - 4200 && i + 8 <= m; i += 128) { uint64_t v = k + i * 0x9E3779B97F4A7C15ull; if (memcmp(&v, b + i, 8)) return i; }
  size_t t = (n - 4096) & ~7ull; if (t < m) return check_range(b, t, m, k);
  return -1;
}
}  // namespace vt
#ifdef VT_TSAN
#include "vt_tsan.h"
#endif
#ifdef VT_UBSAN
#include "vt_ubsan.h"
#endif
