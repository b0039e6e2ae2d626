// For builds in which the sanitizer keeps malloc: the allocation calls of the harness go to the allocator's own names.
#pragma once
#include <mutex>
#include <memory>
#include <string>
#include <thread>
#include <vector>
#include <map>
#include <set>
#include <deque>
#include <unordered_map>
#include <unordered_set>
#include <algorithm>
#include <sys/resource.h>
#include <sys/wait.h>
#include <malloc.h>
#include <new>
#include "tcmalloc/tcmalloc.h"
namespace vtint {
using tcmalloc::hot_cold_t; typedef std::align_val_t AV; typedef const std::nothrow_t& NT;
inline void* nw(size_t n) { return TCMallocInternalNew(n); }
inline void* nw(size_t n, NT t) { return TCMallocInternalNewNothrow(n, t); }
inline void* nw(size_t n, hot_cold_t h) { return TCMallocInternalNewHotCold(n, h); }
inline void* nw(size_t n, NT t, hot_cold_t h) { return TCMallocInternalNewHotColdNothrow(n, t, h); }
inline void* nw(size_t n, AV a) { return TCMallocInternalNewAligned(n, a); }
inline void* nw(size_t n, AV a, NT t) { return TCMallocInternalNewAlignedNothrow(n, a, t); }
inline void* nw(size_t n, AV a, hot_cold_t h) { return TCMallocInternalNewAlignedHotCold(n, a, h); }
inline void* nw(size_t n, AV a, NT t, hot_cold_t h) { return TCMallocInternalNewAlignedHotColdNothrow(n, a, t, h); }
inline void* na(size_t n) { return TCMallocInternalNewArray(n); }
inline void* na(size_t n, NT t) { return TCMallocInternalNewArrayNothrow(n, t); }
inline void* na(size_t n, hot_cold_t h) { return TCMallocInternalNewArrayHotCold(n, h); }
inline void* na(size_t n, NT t, hot_cold_t h) { return TCMallocInternalNewArrayHotColdNothrow(n, t, h); }
inline void* na(size_t n, AV a) { return TCMallocInternalNewArrayAligned(n, a); }
inline void* na(size_t n, AV a, NT t) { return TCMallocInternalNewArrayAlignedNothrow(n, a, t); }
inline void* na(size_t n, AV a, hot_cold_t h) { return TCMallocInternalNewArrayAlignedHotCold(n, a, h); }
inline void* na(size_t n, AV a, NT t, hot_cold_t h) { return TCMallocInternalNewArrayAlignedHotColdNothrow(n, a, t, h); }
inline void dl(void* p) { TCMallocInternalDelete(p); }
inline void dl(void* p, size_t n) { TCMallocInternalDeleteSized(p, n); }
inline void dl(void* p, NT t) { TCMallocInternalDeleteNothrow(p, t); }
inline void dl(void* p, AV a) { TCMallocInternalDeleteAligned(p, a); }
inline void dl(void* p, size_t n, AV a) { TCMallocInternalDeleteSizedAligned(p, n, a); }
inline void dl(void* p, AV a, NT t) { TCMallocInternalDeleteAlignedNothrow(p, a, t); }
inline void da(void* p) { TCMallocInternalDeleteArray(p); }
inline void da(void* p, size_t n) { TCMallocInternalDeleteArraySized(p, n); }
inline void da(void* p, NT t) { TCMallocInternalDeleteArrayNothrow(p, t); }
inline void da(void* p, AV a) { TCMallocInternalDeleteArrayAligned(p, a); }
inline void da(void* p, size_t n, AV a) { TCMallocInternalDeleteArraySizedAligned(p, n, a); }
inline void da(void* p, AV a, NT t) { TCMallocInternalDeleteArrayAlignedNothrow(p, a, t); }
}  // namespace vtint
#define VT_NEW vtint::nw
#define VT_NEWA vtint::na
#define VT_DEL vtint::dl
#define VT_DELA vtint::da
#define malloc TCMallocInternalMalloc
#define free TCMallocInternalFree
#define free_sized TCMallocInternalFreeSized
#define free_aligned_sized TCMallocInternalFreeAlignedSized
#define sdallocx TCMallocInternalSdallocx
#define realloc TCMallocInternalRealloc
#define reallocarray TCMallocInternalReallocArray
#define calloc TCMallocInternalCalloc
#define cfree TCMallocInternalCfree
#define aligned_alloc TCMallocInternalAlignedAlloc
#define memalign TCMallocInternalMemalign
#define posix_memalign TCMallocInternalPosixMemalign
#define valloc TCMallocInternalValloc
#define pvalloc TCMallocInternalPvalloc
#define malloc_usable_size TCMallocInternalMallocSize
#define alloc_at_least TCMallocInternalAllocAtLeast
#define aligned_alloc_at_least TCMallocInternalAlignedAllocAtLeast
#define tcmalloc_size_returning_operator_new TCMallocInternalSizeReturningNew
#define tcmalloc_size_returning_operator_new_aligned TCMallocInternalSizeReturningNewAligned
namespace vtint {
inline __sized_ptr_t srn(size_t n) noexcept { try { return TCMallocInternalSizeReturningNew(n); } catch (...) { return {nullptr, 0}; } }
inline __sized_ptr_t sra(size_t n, AV a) noexcept { try { return TCMallocInternalSizeReturningNewAligned(n, a); } catch (...) { return {nullptr, 0}; } }
inline __sized_ptr_t srh(size_t n, hot_cold_t h) { void* p = nw(n, h); return {p, p ? n : 0}; }
inline __sized_ptr_t srhn(size_t n, hot_cold_t h) { void* p = nw(n, std::nothrow, h); return {p, p ? n : 0}; }
inline __sized_ptr_t srah(size_t n, AV a, hot_cold_t h) { void* p = nw(n, a, h); return {p, p ? n : 0}; }
inline __sized_ptr_t srahn(size_t n, AV a, hot_cold_t h) { void* p = nw(n, a, std::nothrow, h); return {p, p ? n : 0}; }
}  // namespace vtint
#define tcmalloc_size_returning_operator_new_nothrow vtint::srn
#define tcmalloc_size_returning_operator_new_aligned_nothrow vtint::sra
#define tcmalloc_size_returning_operator_new_hot_cold vtint::srh
#define tcmalloc_size_returning_operator_new_hot_cold_nothrow vtint::srhn
#define tcmalloc_size_returning_operator_new_aligned_hot_cold vtint::srah
#define tcmalloc_size_returning_operator_new_aligned_hot_cold_nothrow vtint::srahn
#define __alloc_token_0_malloc malloc
#define __alloc_token_1_malloc malloc
#define __alloc_token_0_calloc calloc
#define __alloc_token_1_calloc calloc
#define __alloc_token_1_realloc realloc
#define __alloc_token_0_memalign memalign
#define __alloc_token_1_aligned_alloc aligned_alloc
#define __alloc_token_1_posix_memalign posix_memalign
#define __alloc_token_0__Znwm vtint::nw
#define __alloc_token_1__Znwm vtint::nw
#define __alloc_token_0__Znwm12__hot_cold_t vtint::nw
#define __alloc_token_1__Znwm12__hot_cold_t vtint::nw
#define __alloc_token_0___size_returning_new TCMallocInternalSizeReturningNew
#define __alloc_token_1___size_returning_new TCMallocInternalSizeReturningNew
#define __alloc_token_1___size_returning_new_hot_cold vtint::srh
#define __alloc_token_1__Znam vtint::na
#define __alloc_token_1__ZnwmSt11align_val_t vtint::nw
#define __alloc_token_0__ZnwmSt11align_val_t12__hot_cold_t vtint::nw
#define __alloc_token_1___size_returning_new_aligned TCMallocInternalSizeReturningNewAligned
#define __alloc_token_0__ZnamSt11align_val_t vtint::na
