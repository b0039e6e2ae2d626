// Shared by the profile harnesses: allocation call stacks of known shape, and the descriptions a sample must carry.
#pragma once
#include "vt_api.h"
#include "absl/debugging/stacktrace.h"
#include "absl/time/clock.h"
#include "tcmalloc/malloc_extension.h"
#include "tcmalloc/malloc_hook.h"
namespace vt {
using tcmalloc::Profile;
struct Frames { void* f[100]; int n = 0; };
struct Desc { Block b; size_t usable = 0; long handle = -1; double w = 0; uint64_t t0 = 0, t1 = 0; int64_t w0 = 0, w1 = 0; Frames fr; int tid = 0; };
static __thread long last_handle __attribute__((tls_model("initial-exec")));
static __thread double last_weight __attribute__((tls_model("initial-exec")));
static __thread long last_freed __attribute__((tls_model("initial-exec")));
static std::atomic<long> max_handle{0};
static void prof_on_new(const tcmalloc::MallocHook::SampledAlloc& s) {
  last_handle = (long)s.handle; last_weight = s.weight; long m = max_handle.load(); while (m < last_handle && !max_handle.compare_exchange_weak(m, last_handle)) {}
}
static void prof_on_del(const tcmalloc::MallocHook::SampledAlloc& s) { last_freed = (long)s.handle; }
// the leaf does the call; the frames above it are what a sample's stack must end with
__attribute__((noinline)) static void leaf_alloc(Desc& d, int f, size_t s, size_t al, int hot) {
  last_handle = -1; last_weight = 0; d.w0 = absl::ToUnixNanos(absl::Now()); d.t0 = now_ns();
  d.b = do_alloc(f, s, al, hot);
  d.t1 = now_ns(); d.w1 = absl::ToUnixNanos(absl::Now()); d.handle = last_handle; d.w = last_weight;
  d.fr.n = absl::GetStackTrace(d.fr.f, 100, 0); asm volatile("" ::: "memory");
}
__attribute__((noinline)) static void leaf_realloc(Desc& d, void* p, size_t s) {
  last_handle = -1; last_weight = 0; d.w0 = absl::ToUnixNanos(absl::Now()); d.t0 = now_ns();
  d.b = Block(); d.b.p = realloc(p, s); d.b.fn = F_malloc; d.b.req = s;
  d.t1 = now_ns(); d.w1 = absl::ToUnixNanos(absl::Now()); d.handle = last_handle; d.w = last_weight;
  d.fr.n = absl::GetStackTrace(d.fr.f, 100, 0); asm volatile("" ::: "memory");
}
struct FreeEv { uint64_t t0, t1; int64_t w0, w1; long handle; const char* how; Frames fr; };
__attribute__((noinline)) static void leaf_free(const Block& b, uint64_t r, FreeEv& e) {
  last_freed = -1; e.w0 = absl::ToUnixNanos(absl::Now()); e.t0 = now_ns(); e.how = do_free(b, r); e.t1 = now_ns(); e.w1 = absl::ToUnixNanos(absl::Now()); e.handle = last_freed;
  e.fr.n = absl::GetStackTrace(e.fr.f, 100, 0); asm volatile("" ::: "memory");
}
// nests the call below `depth` frames of four different functions chosen by `path`
template <class F> __attribute__((noinline)) static void nest(int depth, uint64_t path, F& f);
template <int I, class F> __attribute__((noinline)) static void nest_step(int depth, uint64_t path, F& f) { nest(depth, path, f); asm volatile("" ::"r"(I) : "memory"); }
template <class F> __attribute__((noinline)) static void nest(int depth, uint64_t path, F& f) {
  if (depth <= 0) f(); else switch (path & 3) { case 0: nest_step<0>(depth - 1, path >> 2, f); break; case 1: nest_step<1>(depth - 1, path >> 2, f); break; case 2: nest_step<2>(depth - 1, path >> 2, f); break; default: nest_step<3>(depth - 1, path >> 2, f); }
  asm volatile("" ::: "memory");
}
// does `stack` end with the frames above the leaf? (a full-depth stack may be cut short)
inline bool stack_ends_with(void* const* stack, int depth, const Frames& fr) {
  for (int j = 1; j <= depth && j < 24; j++) {
    int rest = depth - j, want = fr.n - 1; if (rest > want) continue;
    if (rest < want && depth < Profile::Sample::kMaxStackDepth) continue;
    if (rest == 0 && want) continue;
    bool ok = true; for (int i = 0; i < rest && ok; i++) ok = stack[j + i] == fr.f[1 + i];
    if (ok) return true;
  }
  return false;
}
inline size_t requested_by(const Block& b) { if (b.fn == F_pvalloc) { size_t p = page_bytes(); return b.req ? (b.req + p - 1) / p * p : p; } return b.req; }
inline bool is_guarded_status(const Profile::Sample& s) { return s.guarded_status == Profile::Sample::GuardedStatus::Guarded; }
// every descriptive field of a sample against the allocation it stands for
inline void judge_fields(const char* key, const Profile::Sample& s, const Desc& d, bool guarded_known = false, bool guarded = false) {
  const Block& b = d.b; const char* fn = fn_name(b.fn); size_t rq = requested_by(b);
  if (s.requested_size != rq) FATAL(key, "%s(%zu): requested_size %zu", fn, rq, s.requested_size);
  // a guarded block is cut to the request, its sample describes the block it stands in for
  if (is_guarded_status(s) && !is_sr(b.fn) ? s.allocated_size < d.usable || s.allocated_size > std::max<size_t>(d.usable * 2, 64) + 2 * b.align : s.allocated_size != d.usable) FATAL(key, "%s(%zu): allocated_size %zu, the block has %zu", fn, rq, s.allocated_size, d.usable);
  if (s.requested_size_returning != is_sr(b.fn)) FATAL(key, "%s(%zu): requested_size_returning %d", fn, rq, s.requested_size_returning);
  if ((int)s.access_hint != (b.hot < 0 ? 255 : b.hot)) FATAL(key, "%s(%zu, hint %d): access_hint %d", fn, rq, b.hot, (int)s.access_hint);
  auto want = fam(b.fn) == kC ? tcmalloc::AllocationType::Malloc : fam(b.fn) == kCAligned ? tcmalloc::AllocationType::AlignedMalloc : tcmalloc::AllocationType::New;
  if (s.type != want) FATAL(key, "%s(%zu): type %d instead of %d", fn, rq, (int)s.type, (int)want);
  int tok = token_of(b.fn); if (tok < 0) tok = 10; if ((int)s.token_id != tok) FATAL(key, "%s(%zu): token %d instead of %d", fn, rq, (int)s.token_id, tok);
  if (is_aligned_fn(b.fn)) { size_t a = b.align; if (a && (!s.requested_alignment || (size_t)*s.requested_alignment != a)) FATAL(key, "%s(%zu, align %zu): alignment %ld", fn, rq, a, s.requested_alignment ? (long)*s.requested_alignment : -1); }
  else if (fam(b.fn) != kC && s.requested_alignment) FATAL(key, "%s(%zu): alignment %zu though none was asked for", fn, rq, (size_t)*s.requested_alignment);
  if (guarded_known && is_guarded_status(s) != guarded) FATAL(key, "%s(%zu) at %p: guarded status %d", fn, rq, b.p, (int)s.guarded_status);
}
}  // namespace vt
