// Race detector reports become violations, keyed by the two functions; mappings stay inside the ranges the detector knows.
#pragma once
#include "vt.h"
#include <sys/mman.h>
#include <errno.h>
extern "C" {
int __tsan_get_report_data(void*, const char** description, int* count, int* stack_count, int* mop_count, int* loc_count, int* mutex_count, int* thread_count, int* unique_tid_count, void** sleep_trace, unsigned long trace_size);
int __tsan_get_report_mop(void*, unsigned long idx, int* tid, void** addr, int* size, int* write, int* atomic, void** trace, unsigned long trace_size);
int __tsan_get_report_stack(void*, unsigned long idx, void** trace, unsigned long trace_size);
void __sanitizer_symbolize_pc(void* pc, const char* fmt, char* out, size_t n);
void* __real_mmap(void*, size_t, int, int, int, off_t);
void* __wrap_mmap(void* a, size_t n, int pr, int fl, int fd, off_t o) {
  uintptr_t x = (uintptr_t)a, hi = x >> 40, e = (x + n) >> 40;
  bool app = (hi >= 0x55 && e < 0x5a) || (hi >= 0x7a && e < 0x7f) || e < 2;
  if (a && (fl & MAP_FIXED_NOREPLACE) && !app) { errno = EEXIST; return MAP_FAILED; }
  return __real_mmap(a, n, pr, fl, fd, o);
}
}
// The arena allocator of the installed absl library is not instrumented: its lock is made visible here, and so is its wait (used by call_once).
extern "C" { void __tsan_acquire(void*); void __tsan_release(void*);
static char vt_arena_sync;
void* __real__ZN4absl7debian313base_internal13LowLevelAlloc14AllocWithArenaEmPNS2_5ArenaE(size_t, void*);
void* __wrap__ZN4absl7debian313base_internal13LowLevelAlloc14AllocWithArenaEmPNS2_5ArenaE(size_t n, void* a) { void* p = __real__ZN4absl7debian313base_internal13LowLevelAlloc14AllocWithArenaEmPNS2_5ArenaE(n, a); __tsan_acquire(&vt_arena_sync); return p; }
void __real__ZN4absl7debian313base_internal13LowLevelAlloc4FreeEPv(void*);
void __wrap__ZN4absl7debian313base_internal13LowLevelAlloc4FreeEPv(void* p) { __tsan_release(&vt_arena_sync); __real__ZN4absl7debian313base_internal13LowLevelAlloc4FreeEPv(p); }
uint32_t __real__ZN4absl7debian313base_internal12SpinLockWaitEPSt6atomicIjEiPKNS1_22SpinLockWaitTransitionENS1_14SchedulingModeE(void*, int, const void*, int);
uint32_t __wrap__ZN4absl7debian313base_internal12SpinLockWaitEPSt6atomicIjEiPKNS1_22SpinLockWaitTransitionENS1_14SchedulingModeE(void* w, int n, const void* t, int m) { uint32_t v = __real__ZN4absl7debian313base_internal12SpinLockWaitEPSt6atomicIjEiPKNS1_22SpinLockWaitTransitionENS1_14SchedulingModeE(w, n, t, m); __tsan_acquire(w); return v; }
}
namespace vt { inline std::atomic<uint64_t> tsan_reports{0};
// Innermost functions of the allocator on a stack: "A<B<C"; *known is set when a function that has a recorded finding of its own is on it.
inline const char* const kTsanRoots[] = {"GetAllocatedSpans"};
inline void tsan_frames(void** tr, int n, char* out, size_t cap, const char** known) {
  size_t k = 0; int got = 0; out[0] = 0; const char* end_ = out + cap; (void)end_; char last[200] = "";
  for (int i = 0; i < n && tr[i]; i++) {
    static thread_local char buf[6000]; memset(buf, 0, sizeof buf); __sanitizer_symbolize_pc((char*)tr[i] - 1, "%f", buf, sizeof buf - 2);
    for (char* f = buf; *f;) {
      char* nx = f + strlen(f) + 1;
      for (auto r : kTsanRoots) if (strstr(f, r)) *known = r;
      char* q = strchr(f, '('); if (q && q != f) *q = 0; char* t = strchr(f, '<'); if (t && strncmp(t, "<lambda", 7)) *t = 0;
      const char* b = f; for (const char* s; (s = strstr(b, "::"));) b = s + 2;
      bool skip = strstr(f, "std::") == f || !strncmp(b, "__", 2) || !strcmp(b, "memset") || !strcmp(b, "memcpy") || !strcmp(f, "<null>") || strstr(f, "absl::") == f || !strncmp(b, "operator", 8) || !*b || !strcmp(b, last);
      if (!skip && got < 3 && k + strlen(b) + 2 < cap) { snprintf(last, sizeof last, "%s", b); k += snprintf(out + k, cap - k, "%s%s", got ? "<" : "", b); got++; }
      f = nx;
    }
  }
}
}
extern "C" void __tsan_on_report(void* rep) {
  const char* d = "?"; int c = 0, sc = 0, mc = 0, lc = 0, muc = 0, tc = 0, uc = 0; void* sl[4]; __tsan_get_report_data(rep, &d, &c, &sc, &mc, &lc, &muc, &tc, &uc, sl, 4);
  char a[2][300] = {"", ""}; const char* known = nullptr; int wr[2] = {0, 0};
  for (int i = 0; i < mc && i < 2; i++) { int tid, sz, at; void* ad; void* tr[24] = {}; __tsan_get_report_mop(rep, i, &tid, &ad, &sz, &wr[i], &at, tr, 24); vt::tsan_frames(tr, 24, a[i], 300, &known); }
  if (!mc && sc) { void* tr[24] = {}; __tsan_get_report_stack(rep, 0, tr, 24); vt::tsan_frames(tr, 24, a[0], 300, &known); }
  int x = strcmp(a[0], a[1]) > 0 && mc > 1; char key[700]; if (known) snprintf(key, sizeof key, "%s:in-%s", d, known); else snprintf(key, sizeof key, "%s:%s|%s", d, a[x], a[!x]); for (char* p = key; *p; p++) if (*p == ' ' || *p == '\n') *p = '_';
  vt::tsan_reports++;
  char o[900]; int n = snprintf(o, sizeof o, "VIOL %s %s of [%s] and %s of [%s] are not ordered\n", key, wr[x] ? "write" : "read", a[x], wr[!x] ? "write" : "read", a[!x]); ssize_t w = write(1, o, n); (void)w;
}
