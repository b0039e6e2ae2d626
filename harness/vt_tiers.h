// Own page supply and object ownership table under the real central free lists (and the tiers above them).
#pragma once
#include <mutex>
#include <vector>
#include "vt.h"
#include "tcmalloc/central_freelist.h"
#include "tcmalloc/sizemap.h"
namespace vt {
using namespace tcmalloc::tcmalloc_internal;
inline SizeMap smap;
enum : uint8_t { NOT_OBJ, IN_SPAN, IN_TIER, AT_USER };
inline const char* st_name(int s) { return s == NOT_OBJ ? "not an object" : s == IN_SPAN ? "free in its span" : s == IN_TIER ? "in a tier above the span" : "with the user"; }
struct Tiers {
  char* area; size_t bytes; std::atomic<uint8_t>* st; std::atomic<Span*>* page_span; uint8_t* page_cls;
  std::mutex mu; std::vector<uint32_t> freelen[256]; size_t bump = 0;
  std::atomic<long long> spans_of[kNumClasses]; std::atomic<long long> out_of[kNumClasses]; std::atomic<long long> got, put, refused; std::atomic<int> refuse{0};
  std::atomic<long long> clock{1000000};
  void init(size_t b) {
    bytes = b; area = (char*)mmap((void*)0x200000000000, bytes, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); area = (char*)(((uintptr_t)area + kPageSize - 1) & ~(kPageSize - 1));
    st = Arr<std::atomic<uint8_t>>(bytes / 8).p; page_span = Arr<std::atomic<Span*>>(bytes / kPageSize + 2).p; page_cls = Arr<uint8_t>(bytes / kPageSize + 2).p;
  }
  size_t slot(void* p) { return ((char*)p - area) / 8; }
  size_t page(void* p) { return ((char*)p - area) / kPageSize; }
  Span* span_of(void* p) { if ((char*)p < area || (char*)p >= area + bytes) return nullptr; return page_span[page(p)]; }
  void move(void* p, size_t c, int from, int to, const char* w) {
    Span* s = span_of(p); if (!s) FATAL("foreign", "%s: %p belongs to no span", w, p); if (page_cls[page(p)] != c) FATAL("class", "%s: %p of class %d treated as class %zu", w, p, page_cls[page(p)], c);
    size_t off = (char*)p - (char*)s->start_address(), sz = smap.class_to_size(c); if (off % sz || off + sz > s->bytes_in_span()) FATAL("position", "%s: %p is at offset %zu of a span of %zu-byte objects", w, p, off, sz);
    int o = st[slot(p)].exchange(to); if (o != from) FATAL("owner", "%s: object %p of class %zu is %s, expected %s", w, p, c, st_name(o), st_name(from));
  }
  Span* alloc(int c, size_t per, Length len) {
    if (len != Length(smap.class_to_pages(c))) FATAL("span", "class %d: span of %zu pages requested", c, len.raw_num());
    if (per != len.in_bytes() / smap.class_to_size(c)) FATAL("span", "class %d: %zu objects per span, %zu fit", c, per, len.in_bytes() / smap.class_to_size(c));
    if (int f = refuse) if (mix(now_ns()) % f == 0) { refused++; return nullptr; }
    size_t n = len.raw_num(), pg; { std::lock_guard<std::mutex> g(mu); if (freelen[n].size() && (freelen[n].size() > 8 || bump > bytes / kPageSize / 2)) { size_t k = mix(clock++) % freelen[n].size(); pg = freelen[n][k]; freelen[n][k] = freelen[n].back(); freelen[n].pop_back(); } else { pg = bump; bump += n; if (bump * kPageSize > bytes) FATAL("harness", "out of pages"); } }
    char* b = area + pg * kPageSize; Span* s = new Span(Range(PageIdContaining(b), len)); for (size_t i = 0; i < n; i++) { if (page_span[pg + i].load()) FATAL("harness", "page in use"); page_cls[pg + i] = c; page_span[pg + i] = s; }
    size_t sz = smap.class_to_size(c); for (size_t i = 0; i < per; i++) st[slot(b + i * sz)] = IN_SPAN; spans_of[c]++; got++; return s;
  }
  void dealloc(size_t per, Span* s) {
    char* b = (char*)s->start_address(); size_t pg = page(b), n = s->num_pages().raw_num(); if (span_of(b) != s) FATAL("span", "a span was given back twice"); size_t c = page_cls[pg], sz = smap.class_to_size(c);
    if (per != s->bytes_in_span() / sz) FATAL("span", "class %zu: span given back with %zu objects", c, per);
    for (size_t i = 0; i < per; i++) { int o = st[slot(b + i * sz)].exchange(NOT_OBJ); if (o != IN_SPAN) FATAL("early", "class %zu: span given back while object %zu of %zu is %s", c, i, per, st_name(o)); }
    for (size_t i = 0; i < n; i++) page_span[pg + i] = nullptr; spans_of[c]--; put++; delete s; std::lock_guard<std::mutex> g(mu); freelen[n].push_back(pg);
  }
};
inline Tiers tiers;
struct Fwd {
  static void InvokeInsertRangeHook(size_t c, absl::Span<void*> b) { for (void* p : b) { tiers.move(p, c, IN_TIER, IN_SPAN, "back to the central list"); tiers.out_of[c]--; } }
  static void InvokeRemoveRangeHook(size_t c, absl::Span<void*> b) { for (void* p : b) { tiers.move(p, c, IN_SPAN, IN_TIER, "from the central list"); tiers.out_of[c]++; } }
  static uint64_t clock_now() { return tiers.clock += 100; }
  static double clock_frequency() { return 1e6; }
  static size_t class_to_size(int c) { return smap.class_to_size(c); }
  static Length class_to_pages(int c) { return Length(smap.class_to_pages(c)); }
  static size_t num_objects_to_move(int c) { return smap.num_objects_to_move(c); }
  static void MapObjectsToSpans(absl::Span<void*> b, Span** s, int c) { for (size_t i = 0; i < b.size(); i++) { s[i] = tiers.span_of(b[i]); if (!s[i]) FATAL("foreign", "%p returned to class %d belongs to no span", b[i], c); } }
  static Span* AllocateSpan(int c, size_t per, Length l) { return tiers.alloc(c, per, l); }
  static void DeallocateSpans(size_t per, absl::Span<Span*> v) { for (Span* s : v) tiers.dealloc(per, s); }
};
using Cfl = central_freelist_internal::CentralFreeList<Fwd>;
// At rest: the list's own figures against the ownership table. `out` = objects that are not free in their span.
inline void cfl_check(Cfl& f, size_t c, const char* w) {
  size_t sz = smap.class_to_size(c); long long sp = tiers.spans_of[c], out = tiers.out_of[c]; size_t per = Length(smap.class_to_pages(c)).in_bytes() / sz; SpanStats s = f.GetSpanStats();
  if (per == 1) return;
  if ((long long)s.num_live_spans() != sp || s.obj_capacity != sp * per) FATAL("spans", "%s: class %zu: %zu live spans reported, %lld exist", w, c, s.num_live_spans(), sp);
  if ((long long)f.length() != sp * (long long)per - out) FATAL("length", "%s: class %zu: %zu free objects reported, %lld spans of %zu with %lld out", w, c, f.length(), sp, per, out);
  if (f.OverheadBytes() != sp * (Length(smap.class_to_pages(c)).in_bytes() % sz)) FATAL("overhead", "%s: class %zu: overhead %zu", w, c, f.OverheadBytes());
  size_t u = 0; for (int i = 1; i <= 16; i++) u += f.NumSpansWith(i); if ((long long)u != sp) FATAL("util", "%s: class %zu: utilisation histogram counts %zu spans of %lld", w, c, u, sp);
  size_t l = 0; for (size_t i = 0; i < central_freelist_internal::kNumLists; i++) l += f.NumSpansInList(i); if ((long long)l > sp) FATAL("lists", "%s: class %zu: %zu spans on the lists, %lld exist", w, c, l, sp);
  if (l == 0 && f.length()) FATAL("lists", "%s: class %zu: %zu objects free but no span is on a list", w, c, f.length());
}
// Exact per-span comparison (needs quiet).
inline void cfl_exact(Cfl& f, size_t c, const char* w) {
  size_t sz = smap.class_to_size(c), per = Length(smap.class_to_pages(c)).in_bytes() / sz; if (per == 1) return; size_t hist[17] = {}, partly = 0, np = Length(smap.class_to_pages(c)).raw_num();
  for (size_t pg = 0; pg < tiers.bump;) { Span* s = tiers.page_span[pg]; if (!s || tiers.page_cls[pg] != c || tiers.page((void*)s->start_address()) != pg) { pg++; continue; }
    size_t out = 0; char* b = tiers.area + pg * kPageSize; for (size_t i = 0; i < per; i++) out += tiers.st[tiers.slot(b + i * sz)] != IN_SPAN;
    if (s->Allocated() != out) FATAL("count", "%s: class %zu: a span counts %d objects out, %zu are", w, c, s->Allocated(), out); if (!out) FATAL("kept", "%s: class %zu: a wholly free span was kept", w, c);
    if (s->FreelistEmpty(sz, per) != (out == per)) FATAL("empty", "%s: class %zu: span with %zu of %zu out says empty=%d", w, c, out, per, s->FreelistEmpty(sz, per)); partly += out < per; int bw = 0; while (out >> bw) bw++; hist[bw]++; pg += np; }
  for (int i = 1; i <= 16; i++) if (f.NumSpansWith(i) != hist[i]) FATAL("util", "%s: class %zu: %zu spans reported with %d-bit use, %zu are", w, c, f.NumSpansWith(i), i, hist[i]);
  size_t l = 0; for (size_t i = 0; i < central_freelist_internal::kNumLists; i++) l += f.NumSpansInList(i); if (l != partly) FATAL("lists", "%s: class %zu: %zu spans on the lists, %zu have free objects", w, c, l, partly);
}
}  // namespace vt
