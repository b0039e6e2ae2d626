// The public allocation surface: every allocation entry point, and the
// deallocation entry points that validly match each.
#pragma once
#include "vt.h"
#include <malloc.h>
#include <new>
#include "tcmalloc/alloc_at_least.h"
#include "tcmalloc/malloc_extension.h"
#include "tcmalloc/tcmalloc.h"

extern "C" { void cfree(void*); void* pvalloc(size_t) noexcept; void* valloc(size_t) noexcept; void* memalign(size_t, size_t) noexcept;
}
#ifdef VT_INTERNAL_API
#include "vt_internal.h"
#else
#define VT_NEW ::operator new
#define VT_NEWA ::operator new[]
#define VT_DEL ::operator delete
#define VT_DELA ::operator delete[]
#endif
namespace vt {
enum Fam { kC, kCAligned, kNew, kNewArr, kNewAl, kNewArrAl };
enum Fn {
  F_malloc, F_calloc, F_realloc0, F_reallocarray0, F_alloc_at_least, F_tok0_malloc, F_tok1_malloc, F_tok0_calloc, F_tok1_calloc, F_tok1_realloc,
  F_memalign, F_aligned_alloc, F_posix_memalign, F_valloc, F_pvalloc, F_aligned_alloc_at_least, F_tok0_memalign, F_tok1_aligned_alloc, F_tok1_posix_memalign,
  F_new, F_new_nt, F_new_hc, F_new_nt_hc, F_srnew, F_srnew_nt, F_srnew_hc, F_srnew_nt_hc, F_tok0_new, F_tok1_new, F_tok1_new_hc, F_tok0_new_hc, F_tok0_srnew, F_tok1_srnew, F_tok1_srnew_hc,
  F_newarr, F_newarr_nt, F_newarr_hc, F_newarr_nt_hc, F_tok1_newarr,
  F_newal, F_newal_nt, F_newal_hc, F_newal_nt_hc, F_srnewal, F_srnewal_nt, F_srnewal_hc, F_srnewal_nt_hc, F_tok1_newal, F_tok0_newal_hc, F_tok1_srnewal,
  F_newarral, F_newarral_nt, F_newarral_hc, F_newarral_nt_hc, F_tok0_newarral,
  F_COUNT
};
inline const char* fn_name(int f) {
  static const char* n[] = {"malloc", "calloc", "realloc0", "reallocarray0", "alloc_at_least", "tok0_malloc", "tok1_malloc", "tok0_calloc", "tok1_calloc", "tok1_realloc",
  "memalign", "aligned_alloc", "posix_memalign", "valloc", "pvalloc", "aligned_alloc_at_least", "tok0_memalign", "tok1_aligned_alloc", "tok1_posix_memalign",
  "new", "new_nt", "new_hc", "new_nt_hc", "srnew", "srnew_nt", "srnew_hc", "srnew_nt_hc", "tok0_new", "tok1_new", "tok1_new_hc", "tok0_new_hc", "tok0_srnew", "tok1_srnew", "tok1_srnew_hc",
  "newarr", "newarr_nt", "newarr_hc", "newarr_nt_hc", "tok1_newarr",
  "newal", "newal_nt", "newal_hc", "newal_nt_hc", "srnewal", "srnewal_nt", "srnewal_hc", "srnewal_nt_hc", "tok1_newal", "tok0_newal_hc", "tok1_srnewal",
  "newarral", "newarral_nt", "newarral_hc", "newarral_nt_hc", "tok0_newarral"};
  static_assert(sizeof(n) / sizeof(n[0]) == F_COUNT); return n[f];
}
inline Fam fam(int f) { return f < F_memalign ? kC : f < F_new ? kCAligned : f < F_newarr ? kNew : f < F_newal ? kNewArr : f < F_newarral ? kNewAl : kNewArrAl; }
inline bool is_aligned_fn(int f) { Fam m = fam(f); return m == kCAligned || m == kNewAl || m == kNewArrAl; }
inline bool is_sr(int f) { return f == F_alloc_at_least || f == F_aligned_alloc_at_least || (f >= F_srnew && f <= F_srnew_nt_hc) || (f >= F_tok0_srnew && f <= F_tok1_srnew_hc) || (f >= F_srnewal && f <= F_srnewal_nt_hc) || f == F_tok1_srnewal; }
inline bool is_hc(int f) { switch (f) { case F_new_hc: case F_new_nt_hc: case F_srnew_hc: case F_srnew_nt_hc: case F_tok1_new_hc: case F_tok0_new_hc: case F_tok1_srnew_hc: case F_newarr_hc: case F_newarr_nt_hc: case F_newal_hc: case F_newal_nt_hc: case F_srnewal_hc: case F_srnewal_nt_hc: case F_tok0_newal_hc: case F_newarral_hc: case F_newarral_nt_hc: return true; } return false; }
inline int token_of(int f) { switch (f) { case F_tok0_malloc: case F_tok0_calloc: case F_tok0_memalign: case F_tok0_new: case F_tok0_new_hc: case F_tok0_srnew: case F_tok0_newal_hc: case F_tok0_newarral: return 0;
  case F_tok1_malloc: case F_tok1_calloc: case F_tok1_realloc: case F_tok1_aligned_alloc: case F_tok1_posix_memalign: case F_tok1_new: case F_tok1_new_hc: case F_tok1_srnew: case F_tok1_srnew_hc: case F_tok1_newarr: case F_tok1_newal: case F_tok1_srnewal: return 1; } return -1; }
inline bool zeroes(int f) { return f == F_calloc || f == F_tok0_calloc || f == F_tok1_calloc; }
inline bool throws(int f) { switch (f) { case F_new: case F_new_hc: case F_srnew: case F_srnew_hc: case F_tok0_new: case F_tok1_new: case F_tok1_new_hc: case F_tok0_new_hc: case F_tok0_srnew: case F_tok1_srnew: case F_tok1_srnew_hc: case F_newarr: case F_newarr_hc: case F_tok1_newarr: case F_newal: case F_newal_hc: case F_srnewal: case F_srnewal_hc: case F_tok1_newal: case F_tok0_newal_hc: case F_tok1_srnewal: case F_newarral: case F_newarral_hc: case F_tok0_newarral: return true; } return false; }

struct Block {
  void* p = nullptr; size_t req = 0, cap = 0, align = 0; int fn = 0; int hot = -1; uint64_t id = 0;
};
inline size_t page_bytes() { return getpagesize(); }

// Calls entry point f. align is only used by aligned entry points (must be a
// power of two; posix_memalign needs >= 8). Returns {nullptr,..} on failure; throwing
// forms propagate bad_alloc.
inline Block do_alloc(int f, size_t size, size_t align, int hot) {
  Block b; b.fn = f; b.req = size; b.hot = hot; b.align = 0;
  tcmalloc::hot_cold_t hc = (tcmalloc::hot_cold_t)(hot < 0 ? 255 : hot);
  std::align_val_t al = (std::align_val_t)align; auto& nt = std::nothrow; __sized_ptr_t s{nullptr, 0}; void* p = nullptr;
  if (is_aligned_fn(f)) b.align = align;
  switch (f) {
    case F_malloc: p = malloc(size); break;
    case F_calloc: p = size % 3 == 0 && size ? calloc(size / 3, 3) : calloc(1, size); break;
    case F_realloc0: p = realloc(nullptr, size); break;
    case F_reallocarray0: p = reallocarray(nullptr, size, 1); break;
    case F_alloc_at_least: { auto r = alloc_at_least(size); p = r.ptr; b.cap = r.size; break; }
    case F_tok0_malloc: p = __alloc_token_0_malloc(size); break;
    case F_tok1_malloc: p = __alloc_token_1_malloc(size); break;
    case F_tok0_calloc: p = __alloc_token_0_calloc(1, size); break;
    case F_tok1_calloc: p = __alloc_token_1_calloc(size, 1); break;
    case F_tok1_realloc: p = __alloc_token_1_realloc(nullptr, size); break;
    case F_memalign: p = memalign(align, size); break;
    case F_aligned_alloc: p = aligned_alloc(align, size); break;
    case F_posix_memalign: if (align < 8) align = 8; b.align = align; if (posix_memalign(&p, align, size)) p = nullptr; break;
    case F_valloc: p = valloc(size); b.align = page_bytes(); break;
    case F_pvalloc: p = pvalloc(size); b.align = page_bytes(); break;
    case F_aligned_alloc_at_least: { auto r = aligned_alloc_at_least(align, size); p = r.ptr; b.cap = r.size; break; }
    case F_tok0_memalign: p = __alloc_token_0_memalign(align, size); break;
    case F_tok1_aligned_alloc: p = __alloc_token_1_aligned_alloc(align, size); break;
    case F_tok1_posix_memalign: if (align < 8) align = 8; b.align = align; if (__alloc_token_1_posix_memalign(&p, align, size)) p = nullptr; break;
    case F_new: p = VT_NEW(size); break;
    case F_new_nt: p = VT_NEW(size, nt); break;
    case F_new_hc: p = VT_NEW(size, hc); break;
    case F_new_nt_hc: p = VT_NEW(size, nt, hc); break;
    case F_srnew: s = tcmalloc_size_returning_operator_new(size); goto sr;
    case F_srnew_nt: s = tcmalloc_size_returning_operator_new_nothrow(size); goto sr;
    case F_srnew_hc: s = tcmalloc_size_returning_operator_new_hot_cold(size, hc); goto sr;
    case F_srnew_nt_hc: s = tcmalloc_size_returning_operator_new_hot_cold_nothrow(size, hc); goto sr;
    case F_tok0_new: p = __alloc_token_0__Znwm(size); break;
    case F_tok1_new: p = __alloc_token_1__Znwm(size); break;
    case F_tok1_new_hc: p = __alloc_token_1__Znwm12__hot_cold_t(size, hc); break;
    case F_tok0_new_hc: p = __alloc_token_0__Znwm12__hot_cold_t(size, hc); break;
    case F_tok0_srnew: s = __alloc_token_0___size_returning_new(size); goto sr;
    case F_tok1_srnew: s = __alloc_token_1___size_returning_new(size); goto sr;
    case F_tok1_srnew_hc: s = __alloc_token_1___size_returning_new_hot_cold(size, hc); goto sr;
    case F_newarr: p = VT_NEWA(size); break;
    case F_newarr_nt: p = VT_NEWA(size, nt); break;
    case F_newarr_hc: p = VT_NEWA(size, hc); break;
    case F_newarr_nt_hc: p = VT_NEWA(size, nt, hc); break;
    case F_tok1_newarr: p = __alloc_token_1__Znam(size); break;
    case F_newal: p = VT_NEW(size, al); break;
    case F_newal_nt: p = VT_NEW(size, al, nt); break;
    case F_newal_hc: p = VT_NEW(size, al, hc); break;
    case F_newal_nt_hc: p = VT_NEW(size, al, nt, hc); break;
    case F_srnewal: s = tcmalloc_size_returning_operator_new_aligned(size, al); goto sr;
    case F_srnewal_nt: s = tcmalloc_size_returning_operator_new_aligned_nothrow(size, al); goto sr;
    case F_srnewal_hc: s = tcmalloc_size_returning_operator_new_aligned_hot_cold(size, al, hc); goto sr;
    case F_srnewal_nt_hc: s = tcmalloc_size_returning_operator_new_aligned_hot_cold_nothrow(size, al, hc); goto sr;
    case F_tok1_newal: p = __alloc_token_1__ZnwmSt11align_val_t(size, al); break;
    case F_tok0_newal_hc: p = __alloc_token_0__ZnwmSt11align_val_t12__hot_cold_t(size, al, hc); break;
    case F_tok1_srnewal: s = __alloc_token_1___size_returning_new_aligned(size, al); goto sr;
    case F_newarral: p = VT_NEWA(size, al); break;
    case F_newarral_nt: p = VT_NEWA(size, al, nt); break;
    case F_newarral_hc: p = VT_NEWA(size, al, hc); break;
    case F_newarral_nt_hc: p = VT_NEWA(size, al, nt, hc); break;
    case F_tok0_newarral: p = __alloc_token_0__ZnamSt11align_val_t(size, al); break;
    sr: p = s.p; b.cap = s.n; break;
  }
  b.p = p; return b;
}
inline int lg2(size_t a) { int l = 0; while (a > 1) a >>= 1, l++; return l; }
// Frees b through one of its matching entry points; returns which.
inline const char* do_free(const Block& b, uint64_t r) {
  void* p = b.p; std::align_val_t al = (std::align_val_t)b.align; auto& nt = std::nothrow; size_t sz = b.req;
  if (b.cap > b.req && is_sr(b.fn)) sz = b.req + (r >> 20) % (b.cap - b.req + 1);
  bool plain_only = b.fn == F_pvalloc;  // the request is rounded up by pvalloc
  switch (fam(b.fn)) {
    case kC: switch (r % 4) { case 0: free(p); return "free"; case 1: free_sized(p, sz); return "free_sized"; case 2: sdallocx(p, sz, 0); return "sdallocx";
      default: free(p); return "free"; }
    case kCAligned: if (plain_only) { free(p); return "free"; }
      switch (r % 3) { case 0: free(p); return "free"; case 1: free_aligned_sized(p, b.align, sz); return "free_aligned_sized";
      default: if (b.align >= 2) { sdallocx(p, sz, lg2(b.align)); return "sdallocx_al"; } free(p); return "free"; }
    case kNew: switch (r % 3) { case 0: VT_DEL(p); return "delete"; case 1: VT_DEL(p, sz); return "delete_sized"; default: VT_DEL(p, nt); return "delete_nt"; }
    case kNewArr: switch (r % 3) { case 0: VT_DELA(p); return "delete[]"; case 1: VT_DELA(p, sz); return "delete[]_sized"; default: VT_DELA(p, nt); return "delete[]_nt"; }
    case kNewAl: switch (r % 3) { case 0: VT_DEL(p, al); return "delete_al"; case 1: VT_DEL(p, sz, al); return "delete_sized_al"; default: VT_DEL(p, al, nt); return "delete_al_nt"; }
    case kNewArrAl: switch (r % 3) { case 0: VT_DELA(p, al); return "delete[]_al"; case 1: VT_DELA(p, sz, al); return "delete[]_sized_al"; default: VT_DELA(p, al, nt); return "delete[]_al_nt"; }
  }
  return "?";
}
inline size_t rand_size(Rng& r, size_t big = 4 << 20) {
  switch (r.below(16)) {
    case 0: return r.below(17);
    case 1: case 2: case 3: case 4: return r.below(257);
    case 5: case 6: case 7: return r.below(1025);
    case 8: case 9: return r.below(8193);
    case 10: return r.below(65537);
    case 11: return r.chance(1, 3) ? r.below((256 << 10) + 4096) : r.below(2049);
    case 12: { size_t b = (size_t)1 << r.range(3, 18); return b + r.below(3) - 1; }
    case 13: { size_t k = r.range(1, r.chance(1, 4) ? 40 : 5) * 8192; return k + r.below(3) - 1; }
    case 14: return r.chance(1, 6) ? r.below(big) : r.below(512);
    default: return r.below(129);
  }
}
inline size_t rand_align(Rng& r, int maxlg = 16) {
  return (size_t)1 << (r.chance(3, 4) ? r.below(8) : r.below(maxlg + 1));
}
// Implied minimum alignment of a block.
inline size_t min_align(int f, size_t req, size_t align) {
  if (is_aligned_fn(f)) return align ? align : 1;
  return req >= 16 ? 16 : 8;
}
}  // namespace vt
