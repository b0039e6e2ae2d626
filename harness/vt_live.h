// Shadow of live memory: a count of live blocks per 4 KiB page of the address space, readable from any context.
#pragma once
#include "vt.h"
namespace vt { namespace live {
constexpr int kShift = 12; constexpr uint64_t kPages = 1ull << (48 - kShift);
inline uint16_t* tab() { static uint16_t* t = [] { void* p = (void*)syscall(9 /*mmap*/, nullptr, kPages * 2, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); return p == MAP_FAILED ? nullptr : (uint16_t*)p; }(); return t; }
inline void add(const void* p, size_t n, int d) { uint16_t* t = tab(); if (!n) n = 1; for (uint64_t i = (uint64_t)p >> kShift, e = ((uint64_t)p + n - 1) >> kShift; i <= e; i++) __atomic_fetch_add(&t[i], (uint16_t)d, __ATOMIC_SEQ_CST); }
// -> address of a page holding a live block within [p, p+n), or null.
inline void* find(const void* p, size_t n) {
  uint16_t* t = tab(); uint64_t i = (uint64_t)p >> kShift, e = ((uint64_t)p + n - 1) >> kShift;
  for (; i <= e; i++) { if ((i & 3) == 0 && i + 4 <= e) { uint64_t v; __atomic_load((uint64_t*)&t[i], &v, __ATOMIC_SEQ_CST); if (!v) { i += 3; continue; } } if (__atomic_load_n(&t[i], __ATOMIC_SEQ_CST)) return (void*)(i << kShift); }
  return nullptr;
}
}}  // namespace
