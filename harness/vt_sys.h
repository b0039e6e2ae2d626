// Interposed system calls: every mmap/mprotect/madvise/munmap made by the
// statically linked allocator goes through here, is counted, may be reported to a callback, and may be made to fail.
// Include in exactly one translation unit of a harness.
#pragma once
#include "vt.h"
#include <sys/syscall.h>
namespace vt { namespace sys {
enum Op : int { kMmap, kMprotect, kMadvise, kMunmap, kNumOps };
inline std::atomic<long long> calls[kNumOps], failed[kNumOps];
// Returns nonzero errno to refuse the call.
using Filter = int (*)(Op op, void* addr, size_t len, int arg, int flags);
using Watch = void (*)(Op op, void* addr, size_t len, int arg, long result);
inline std::atomic<Filter> filter{nullptr};
#ifndef VT_SYS_WATCH
#define VT_SYS_WATCH nullptr
#endif
inline std::atomic<Watch> watch{VT_SYS_WATCH};  // may be set from the first call on
inline long go(Op op, long nr, void* a, size_t len, long x, long y, long fd, long off) {
  calls[op].fetch_add(1, std::memory_order_relaxed);
  if (Filter f = filter.load(std::memory_order_acquire)) if (int e = f(op, a, len, (int)x, (int)y)) { failed[op].fetch_add(1, std::memory_order_relaxed); errno = e; if (Watch w = watch.load()) w(op, a, len, (int)x, -1); return -1; }
  long r = syscall(nr, a, len, x, y, fd, off);
  if (Watch w = watch.load(std::memory_order_acquire)) { int e = errno; w(op, op == kMmap ? (void*)r : a, len, (int)x, r); errno = e; }
  return r;
}
}}  // namespace vt::sys
extern "C" {
void* mmap(void* a, size_t n, int prot, int flags, int fd, off_t off) noexcept { return (void*)vt::sys::go(vt::sys::kMmap, SYS_mmap, a, n, prot, flags, fd, off); }
void* mmap64(void* a, size_t n, int prot, int flags, int fd, off64_t off) noexcept { return mmap(a, n, prot, flags, fd, off); }
int mprotect(void* a, size_t n, int prot) noexcept { return (int)vt::sys::go(vt::sys::kMprotect, SYS_mprotect, a, n, prot, 0, 0, 0); }
int madvise(void* a, size_t n, int adv) noexcept { return (int)vt::sys::go(vt::sys::kMadvise, SYS_madvise, a, n, adv, 0, 0, 0); }
int munmap(void* a, size_t n) noexcept { return (int)vt::sys::go(vt::sys::kMunmap, SYS_munmap, a, n, 0, 0, 0, 0); }
}
