// P17: the size-class tables and the map built from them: every size x alignment x kind of request, in every table, against the list of class sizes.
#include <algorithm>
#include <vector>
#include "vt.h"
#include "tcmalloc/central_freelist.h"
#include "tcmalloc/internal/parameter_accessors.h"
#include "tcmalloc/internal/sampled_allocation.h"
#include "tcmalloc/parameters.h"
#include "tcmalloc/sizemap.h"
#include "tcmalloc/static_vars.h"
#include "tcmalloc/tcmalloc_policy.h"
using namespace vt;
using namespace tcmalloc;
using namespace tcmalloc::tcmalloc_internal;
namespace tcmalloc { namespace tcmalloc_internal {
extern const SizeClasses vt8_kSizeClasses, vt8_kExperimentalPow2SizeClasses, vt8_kLegacySizeClasses, vt8_kReuseRelaxedBelow64SizeClasses;
} }
static long long evals, n_lookup, n_classes, n_acc, n_rej;
static Distinct dist;
using Table = std::vector<SizeClassInfo>;

struct DynAlign { size_t a; constexpr std::align_val_t align() const { return (std::align_val_t)a; } };
template <size_t A> struct FixAlign { static constexpr std::align_val_t align() { return (std::align_val_t)A; } };
template <AllocationType T, class AP> struct Pol : AP {
  bool cold; size_t part, numa;
  static constexpr AllocationType allocation_type() { return T; }
  bool is_cold() const { return cold; }
  size_t security_partition() const { return part; }
  size_t scaled_numa_partition() const { return numa * kNumBaseClasses; }
};
struct Map : SizeMap { static bool Valid(absl::Span<const SizeClassInfo> s) { return ValidSizeClasses(s); } };

enum Mode { kNone, kLightMode, kFullMode };
static Mode mode;
static size_t region(AllocationType t, bool cold, size_t part) {
  bool n = t == AllocationType::New;
  if (cold) return mode == kNone || part == 0 ? kExpandedClassesStart : mode == kFullMode ? kNumBaseClasses : kExpandedClassesStart;
  if (mode == kNone) return 0;
  if (mode == kFullMode) return part ? kNumBaseClasses : 0;
  return n || part ? kNumBaseClasses : 0;
}
// what any usable table satisfies; -> reason or null
static const char* broken(const Table& t) {
  if (t.empty() || t[0].size || t[0].bytes.raw_num() || t[0].num_to_move) return "no empty class 0";
  if (t.size() > kNumBaseClasses) return "too many classes";
  for (size_t c = 1; c < t.size(); c++) {
    size_t s = t[c].size, by = t[c].bytes.raw_num();
    if (s <= t[c - 1].size) return "sizes do not increase";
    if (s % (s > 1024 ? 128 : 8)) return "size off the granularity";
    if (s > kMaxSize) return "class above the largest small size";
    if (!by || by % kPageSize || by / kPageSize > 32) return "span is not 1..32 pages";
    if (by < s) return "no object fits the span";
    if (t[c].num_to_move < 2 || t[c].num_to_move > 128) return "batch outside 2..128";
  }
  return t.back().size == kMaxSize ? nullptr : "largest class is not the largest small size";
}
static void quality(const Table& t, const char* name, bool pow2) {
  for (size_t c = 1; c < t.size(); c++) {
    size_t s = t[c].size, by = t[c].bytes.raw_num(), objs = by / s, tail = by - objs * s; evals++; n_classes++;
    if (tail * 8 > by) VIOL("tail", "%s: class of %zu bytes wastes %zu of its %zu-byte span", name, s, tail, by);
    if (c > 1 && s > 64 && !pow2 && (s - t[c - 1].size) * 100 > 60 * t[c - 1].size) VIOL("gap", "%s: class %zu follows %u", name, s, t[c - 1].size);
    if (c > 1 && pow2 && s > 2 * t[c - 1].size) VIOL("gap", "%s: class %zu follows %u", name, s, t[c - 1].size);
    if (t[c].num_to_move > 2 && t[c].num_to_move * s > 65536) VIOL("batch", "%s: batch of %d objects of %zu", name, t[c].num_to_move, s);
    if (!Span::IsValidSizeClass(s, BytesToLengthFloor(t[c].bytes))) VIOL("span", "%s: class %zu not valid for spans", name, s);
    dist.add(s * 131 + by);
  }
  if (t[1].size > 16) VIOL("first", "%s: smallest class %u", name, t[1].size);
}
template <AllocationType T, class AP> static void lookup(const SizeMap& m, const std::vector<size_t>& sz, AP ap, size_t al, size_t s, bool cold, size_t part, size_t numa, size_t want, const char* name) {
  Pol<T, AP> p; (AP&)p = ap; p.cold = cold; p.part = part; p.numa = numa;
  auto r = m.GetSizeClass(p, s); n_lookup++;
  if (al > kPageSize || s > kMaxSize) { if (r.is_small) FATAL("small", "%s: size %zu align %zu is served by class %zu", name, s, al, r.size_class); return; }
  if (!r.is_small) { if (al < kPageSize) FATAL("notsmall", "%s: size %zu align %zu has no class", name, s, al); return; }
  size_t w = want + region(T, cold, part) + (cold ? 0 : numa * kNumBaseClasses);
  if (s == 0 && cold && r.size_class != w) w = want + region(T, false, part);  // an empty cold object may live among the hot ones
  if (r.size_class != w) {
    if (r.size_class >= kNumClasses) FATAL("index", "%s: size %zu align %zu -> class %zu of %zu", name, s, al, r.size_class, kNumClasses);
    FATAL("class", "%s: size %zu align %zu type %d cold %d partition %zu node %zu -> class %zu (%zu bytes), expected %zu (%zu bytes)", name, s, al, (int)T, cold, part, numa, r.size_class, m.class_to_size(r.size_class), w, sz[want]);
  }
}
static void judge_map(const SizeMap& m, const Table& t, const char* name, size_t step) {
  std::vector<size_t> sz; for (auto& c : t) sz.push_back(c.size);
  // 1. every class of every region carries the table's numbers
  for (size_t c = 0; c < kNumClasses; c++) {
    size_t k = c % kNumBaseClasses; bool in = k < t.size(); evals++;
    size_t s = in ? t[k].size : 0, pg = in ? t[k].bytes.raw_num() / kPageSize : 0, mv = in ? t[k].num_to_move : 0;
    if (m.class_to_size(c) != s || m.class_to_pages(c).raw_num() != pg || m.num_objects_to_move(c) != mv)
      FATAL("copy", "%s: class %zu is %zu bytes, %zu pages, batch %d; the table says %zu, %zu, %zu", name, c, m.class_to_size(c), m.class_to_pages(c).raw_num(), (int)m.num_objects_to_move(c), s, pg, mv);
    if (s) { auto r = m.class_to_size_range(c); size_t lo = t[k - 1].size ? t[k - 1].size + 1 : r.first;
      if (r.second != s || r.first != lo || (k == 1 && r.first > 1)) FATAL("range", "%s: class %zu holds sizes %zu..%zu, not %zu..%zu", name, c, r.first, r.second, lo, s); }
  }
  // 2. cold classes
  std::vector<size_t> cold; if (kHasExpandedClasses) for (size_t k = 1; k < t.size(); k++) cold.push_back(kExpandedClassesStart + k);
  auto cs = m.ColdSizeClasses(); if (std::vector<size_t>(cs.begin(), cs.end()) != cold) FATAL("cold", "%s: %zu cold classes, expected %zu", name, cs.size(), cold.size());
  // 3. every size x alignment x kind of request
  size_t pad = 300;
  for (size_t lg = 0; ((size_t)1 << lg) <= 4 * kPageSize; lg++) {
    size_t al = (size_t)1 << lg; std::vector<int> best(t.size());  // smallest aligned class from here on
    for (int c = t.size() - 1, b = -1; c > 0; c--) { if (sz[c] % al == 0) b = c; best[c] = b; }
    size_t c = 1, st = 1;
    for (size_t s = 0; s <= kMaxSize + pad; s += st) {
      while (c < t.size() && sz[c] < s) c++;
      size_t w = c < t.size() ? best[c] : 0; evals++;
      st = step == 1 || s % 128 >= 126 || s % 128 < 2 ? 1 : std::min<size_t>(step, 126 - s % 128);
      for (size_t part = 0; part < kSecurityPartitions; part++) for (size_t numa = 0; numa < kNumaPartitions; numa++) {
        DynAlign d{al};
        lookup<AllocationType::New>(m, sz, d, al, s, false, part, numa, w, name);
        lookup<AllocationType::Malloc>(m, sz, d, al, s, false, part, numa, w, name);
        lookup<AllocationType::AlignedMalloc>(m, sz, d, al, s, false, part, numa, w, name);
        if (al == 1) lookup<AllocationType::New>(m, sz, FixAlign<1>(), al, s, false, part, numa, w, name);
        if (al == 16) lookup<AllocationType::Malloc>(m, sz, FixAlign<16>(), al, s, false, part, numa, w, name);
        if (kHasExpandedClasses) { lookup<AllocationType::New>(m, sz, d, al, s, true, part, numa, w, name); if (al == 1) lookup<AllocationType::New>(m, sz, FixAlign<1>(), al, s, true, part, numa, w, name); }
      }
    }
  }
}
int main(int argc, char** argv) {
  free(malloc(8)); tc_globals.InitIfNecessary(); Rng r(seed() * 31 + 7);
  const char* pe = getenv("TCMALLOC_HEAP_PARTITIONING"); bool active = tc_globals.multiple_non_numa_partitions();
  if (pe && *pe && kSecurityPartitions > 1 && !active) return inconclusive("heap partitioning not active");
  mode = !active ? kNone : Parameters::heap_partitioning_mode() == HeapPartitioningMode::kFull ? kFullMode : kLightMode;
  if (pe && kSecurityPartitions > 1 && (mode == kFullMode) != !strcmp(pe, "true")) return inconclusive("unexpected partitioning mode");
  struct { const char* n; const SizeClasses* s; bool pow2; } T[] = {{"default table", &kSizeClasses}, {"power-of-two table", &kExperimentalPow2SizeClasses, true}, {"legacy table", &kLegacySizeClasses}, {"reuse-relaxed table", &kReuseRelaxedBelow64SizeClasses},
    {"default table, new aligned 8", &vt8_kSizeClasses}, {"power-of-two table, new aligned 8", &vt8_kExperimentalPow2SizeClasses, true}, {"legacy table, new aligned 8", &vt8_kLegacySizeClasses}, {"reuse-relaxed table, new aligned 8", &vt8_kReuseRelaxedBelow64SizeClasses}};
  static Map m;
  for (auto& x : T) {
    Table t(x.s->classes.begin(), x.s->classes.end());
    if (const char* why = broken(t)) FATAL("table", "%s: %s", x.n, why);
    quality(t, x.n, x.pow2);
    if (!Map::Valid(x.s->classes)) FATAL("rejected", "%s is rejected", x.n);
    if (x.s->assumptions.has_expanded_classes != kHasExpandedClasses) VIOL("assume", "%s assumes expanded classes %d", x.n, x.s->assumptions.has_expanded_classes);
    memset((void*)&m, 0, sizeof m); if (!m.Init(x.s->classes)) FATAL("rejected", "%s is rejected", x.n);
    judge_map(m, t, x.n, thorough() ? 1 : 1 + r.below(40));
  }
  // the map in use, and what is reported of it
  const SizeClasses& cur = SizeMap::CurrentClasses(); Table t(cur.classes.begin(), cur.classes.end());
  judge_map(tc_globals.sizemap(), t, "map in use", 1);
  const char* be = getenv("BORG_EXPERIMENTS"); const char* re = getenv("TCMALLOC_REUSE_SIZE_CLASSES");
  const SizeClasses* sel = be && strstr(be, "POW2") ? &kExperimentalPow2SizeClasses : re && !strcmp(re, "reuse") ? &kSizeClasses : &kReuseRelaxedBelow64SizeClasses;
  if (sel->classes.data() != cur.classes.data() && !(be && !strstr(be, "POW2"))) VIOL("selected", "the selected table is not the one in use");
  std::vector<TracerSizeClassInfo> rep; TCMalloc_Internal_GetSizeClasses(&rep); if (rep.size() != kNumClasses) FATAL("report", "%zu classes reported of %zu", rep.size(), kNumClasses);
  for (size_t c = 0; c < kNumClasses; c++) { size_t k = c % kNumBaseClasses; bool in = k < t.size(); if (rep[c].size != (in ? t[k].size : 0) || rep[c].span_size_in_bytes != (in ? t[k].bytes.raw_num() : 0) || rep[c].num_objects_to_move != (in ? t[k].num_to_move : 0)) FATAL("report", "class %zu reported as %zu bytes in %zu", c, (size_t)rep[c].size, (size_t)rep[c].span_size_in_bytes); evals++; }
  // tables altered in one or two places: whatever is accepted is usable
  uint64_t end = now_ns() + (thorough() ? 240ull : 3ull) * 1000000000; int shown = 0;
  while (now_ns() < end || n_acc < 20) {
    Table v; auto& b = *T[r.below(8)].s; v.assign(b.classes.begin(), b.classes.end());
    for (int k = r.range(1, 2); k--;) {
      size_t c = r.below(v.size()), w = r.below(11); auto& e = v[c];
      switch (w) {
        case 0: e.size += r.chance(1, 2) ? 8 : 128; break;
        case 1: e.size -= std::min<uint32_t>(e.size, r.chance(1, 2) ? 8 : 128); break;
        case 2: e.size = r.below(2) ? r.below(kMaxSize + 200) : r.below(1100); break;
        case 3: e.bytes = Bytes(r.below(36) * kPageSize); break;
        case 4: e.bytes = Bytes(r.below(200000)); break;
        case 5: e.num_to_move = r.below(2) ? r.below(4) : r.below(256); break;
        case 6: if (v.size() > 2) v.erase(v.begin() + c); break;
        case 7: if (v.size() < kNumBaseClasses) v.insert(v.begin() + c, v[r.below(v.size())]); break;
        case 8: if (c + 1 < v.size()) std::swap(v[c], v[c + 1]); break;
        case 9: if (v.size() < kNumBaseClasses && c) { SizeClassInfo n = v[c]; size_t lo = v[c - 1].size, hi = v[c].size, g = hi > 1024 ? 128 : 8; n.size = lo + (hi - lo) / 2 / g * g; v.insert(v.begin() + c, n); } break;
        case 10: if (r.chance(1, 4)) v.pop_back(); else e.size = (e.size + 127) & ~127u; break;
      }
      if (v.empty()) break;
    }
    if (v.size() > kNumBaseClasses) continue;
    memset((void*)&m, 0, sizeof m); const char* why = broken(v); bool ok = m.Init(absl::MakeSpan(v)); evals++;
    if (ok && why) FATAL("accepted", "a table was accepted although %s", why);
    if (ok) { n_acc++; if (n_acc % 4 == 0) judge_map(m, v, "altered table", 97 + r.below(60)); } else n_rej++;
    (void)shown;
  }
  metric("evals", evals); metric("distinct", dist.n + n_acc); metric("lookups", n_lookup); metric("table_classes", n_classes); metric("altered_accepted", n_acc); metric("altered_rejected", n_rej);
  say("SAMPLE partitioning=%d classes=%zu regions=%zu lookups=%lld altered tables accepted=%lld rejected=%lld", (int)mode, t.size(), kNumClasses / kNumBaseClasses, n_lookup, n_acc, n_rej);
  return done();
}
