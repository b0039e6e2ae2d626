// P31: the statistics dumps say what the allocator holds, agree with each other, and respect their buffer.
//   Q  quiescent dumps of random heap states: text, pbtxt, properties and the text again must agree and add up
//   B  buffers: every length, guard pages, prefixes
//   C  dumps while threads allocate, release and change parameters
#include "vt.h"
#include "vt_api.h"
#include "vt_maint.h"
#include <cmath>
#include <map>
#include <memory>
#include <mutex>
#include <string>
#include <thread>
#include <vector>
#include "absl/time/time.h"
#include "tcmalloc/experiment.h"
#include "tcmalloc/global_stats.h"
#include "tcmalloc/guarded_page_allocator.h"
#include "tcmalloc/huge_pages.h"
#include "tcmalloc/internal_malloc_extension.h"
#include "tcmalloc/parameters.h"
using namespace vt; using namespace tcmalloc;
using tcmalloc_internal::tc_globals; using tcmalloc_internal::kNumClasses; using tcmalloc_internal::kPageSize; using tcmalloc_internal::kHugePageSize;
extern "C" { size_t TCMalloc_Internal_GetStats(char*, size_t); int MallocExtension_Internal_GetStatsInPbtxt(char*, int); }
namespace {
using std::string; using std::vector; using u64 = uint64_t; using i64 = int64_t;
Distinct dist; long long evals;
// ---------------------------------------------------------------- pbtxt
struct Node { string name, val; vector<std::unique_ptr<Node>> kids;
  const Node* get(const char* n) const { for (auto& k : kids) if (k->name == n) return k.get(); return nullptr; }
  vector<const Node*> all(const char* n) const { vector<const Node*> r; for (auto& k : kids) if (k->name == n) r.push_back(k.get()); return r; }
  bool has(const char* n) const { return get(n); }
  i64 i(const char* n) const { const Node* k = get(n); if (!k) { VIOL("field", "pbtxt: field %s is missing in %s", n, name.c_str()); return 0; } return strtoll(k->val.c_str(), nullptr, 10); }
  bool b(const char* n) const { const Node* k = get(n); if (!k) { VIOL("field", "pbtxt: field %s is missing in %s", n, name.c_str()); return 0; } return k->val == "true"; }
  string s(const char* n) const { const Node* k = get(n); return k ? k->val : "?"; }
  double sum(const char* list, const char* f) const { double r = 0; for (auto k : all(list)) r += k->i(f); return r; } };
// grammar: item* ; item = ' '? name ':' ' ' value | name ' ' '{' item* '}' ; a prefix of a dump is accepted when `partial`
struct Parser { const char *p, *e; bool partial; const char* err = nullptr; const char* at = nullptr; int depth = 0;
  void ws() { while (p < e && (*p == ' ' || *p == '\n')) p++; }
  bool items(Node& n, bool nested) {
    for (;;) { ws(); if (p == e) { if (nested && !partial) { err = "unclosed region"; at = e; return false; } return true; }
      if (*p == '}') { if (!nested) { err = "stray }"; at = p; return false; } p++; return true; }
      const char* s = p; while (p < e && (isalnum(*p) || *p == '_')) p++;
      if (p == s) { err = "name expected"; at = p; return false; }
      if (p == e) { if (partial) return true; err = "end in a name"; at = s; return false; }
      auto k = std::make_unique<Node>(); k->name.assign(s, p - s);
      if (*p == ':') { p++; if (p < e && *p == ' ') p++; const char* v = p; while (p < e && *p != ' ' && *p != '}' && *p != '\n') { if (!isalnum(*p) && !strchr("_-+.", *p)) { err = "odd character in a value"; at = p; return false; } p++; }
        if (p == v && !(partial && p == e)) { err = "empty value"; at = v; return false; } k->val.assign(v, p - v); n.kids.push_back(std::move(k)); }
      else { if (*p != ' ') { err = "':' or '{' expected"; at = p; return false; } p++; if (p == e && partial) return true; if (p == e || *p != '{') { err = "'{' expected"; at = p; return false; } p++; if (++depth > 30) { err = "too deep"; at = p; return false; } bool ok = items(*k, true); depth--; if (!ok) return false; n.kids.push_back(std::move(k)); }
    } } };
bool parse_pb(const char* b, size_t n, bool partial, Node& root, const char* what) {
  Parser ps{b, b + n, partial}; root.name = "top"; if (ps.items(root, false)) return true;
  size_t o = ps.at - b, f = o > 60 ? o - 60 : 0; VIOL("grammar", "%s: pbtxt does not parse (%s) at byte %zu of %zu: ...%.*s", what, ps.err, o, n, (int)std::min<size_t>(120, n - f), b + f); return false; }
// ---------------------------------------------------------------- text
struct Head { u64 n; double mib; bool has_mib; char sign; };
struct Text { vector<string> lines; std::map<string, Head> head; std::map<string, string> par; };
bool starts(const string& l, const char* p) { return l.compare(0, strlen(p), p) == 0; }
void parse_text(const char* b, size_t n, Text& t) {
  for (size_t i = 0; i < n;) { const char* q = (const char*)memchr(b + i, '\n', n - i); size_t m = q ? q - b - i : n - i; t.lines.emplace_back(b + i, m); i += m + 1; }
  for (auto& l : t.lines) {
    if (starts(l, "MALLOC:") || starts(l, "TOTAL:")) { const char* p = l.c_str() + (l[0] == 'M' ? 7 : 6); Head h{0, 0, false, 0}; while (*p == ' ') p++; if (*p == '+' || *p == '=') h.sign = *p++; while (*p == ' ') p++; if (!isdigit(*p)) continue; char* q; h.n = strtoull(p, &q, 10); if (*q == '.') { h.mib = strtod(p, &q); h.has_mib = false; } p = q; while (*p == ' ') p++; if (*p == '(') { h.mib = strtod(p + 1, &q); h.has_mib = true; p = strchr(q, ')'); if (!p) continue; p++; } while (*p == ' ') p++; t.head[string(p)] = h; }
    if (starts(l, "PARAMETER ")) { size_t s = l.find(' ', 10); if (s != string::npos) t.par[l.substr(10, s - 10)] = l.substr(s + 1); } } }
size_t find_line(const Text& t, const char* prefix, size_t from = 0, size_t to = ~0ull) { for (size_t i = from; i < t.lines.size() && i < to; i++) if (starts(t.lines[i], prefix)) return i; return ~0ull; }
vector<double> nums(const string& l, size_t from = 0) { vector<double> r; const char* p = l.c_str() + from; while (*p) { if (isdigit(*p) || (*p == '-' && isdigit(p[1]))) { char* q; r.push_back(strtod(p, &q)); p = q; } else p++; } return r; }
bool mib_ok(double bytes, double mib) { return fabs(bytes / 1048576.0 - mib) <= 0.0501 + 1e-9 * fabs(mib); }
#define EQ(key, a, b, ...) do { evals++; auto _x = (long double)(a); auto _y = (long double)(b); if (_x != _y) { char _w[700]; snprintf(_w, sizeof _w, __VA_ARGS__); VIOL(key, "%s: %.0Lf vs %.0Lf", _w, _x, _y); } } while (0)

constexpr size_t kBuf = 6 << 20;
struct Snap { char* t1; char* pb; char* t2; size_t n1, np, n2; size_t prop[40]; bool propok[40]; };
const char* kProps[] = {"generic.virtual_memory_used", "generic.physical_memory_used", "generic.current_allocated_bytes", "generic.bytes_in_use_by_app", "generic.peak_memory_usage", "generic.heap_size", "tcmalloc.central_cache_free", "tcmalloc.cpu_free", "tcmalloc.sharded_transfer_cache_free", "tcmalloc.slack_bytes", "tcmalloc.pageheap_free_bytes", "tcmalloc.page_heap_free", "tcmalloc.pageheap_unmapped_bytes", "tcmalloc.page_heap_unmapped", "tcmalloc.sampled_internal_fragmentation", "tcmalloc.max_total_thread_cache_bytes", "tcmalloc.current_total_thread_cache_bytes", "tcmalloc.thread_cache_free", "tcmalloc.thread_cache_count", "tcmalloc.local_bytes", "tcmalloc.external_fragmentation_bytes", "tcmalloc.metadata_bytes", "tcmalloc.transfer_cache_free", "tcmalloc.required_bytes", "tcmalloc.per_cpu_caches_active", "generic.realized_fragmentation", "tcmalloc.desired_usage_limit_bytes", "tcmalloc.hard_usage_limit_bytes", "tcmalloc.soft_limit_hits", "tcmalloc.hard_limit_hits", "tcmalloc.successful_shrinks_after_soft_limit_hit", "tcmalloc.successful_shrinks_after_hard_limit_hit", "tcmalloc.num_released_total_bytes", "tcmalloc.num_released_release_memory_to_system_bytes", "tcmalloc.num_released_process_background_actions_bytes", "tcmalloc.num_released_soft_limit_exceeded_bytes", "tcmalloc.num_released_hard_limit_exceeded_bytes"};
constexpr int kNProps = sizeof kProps / sizeof *kProps;
Snap S;
void snap_alloc() { auto m = [] { return (char*)mmap(nullptr, kBuf, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); }; S.t1 = m(); S.pb = m(); S.t2 = m(); memset(S.t1, 1, kBuf); memset(S.pb, 1, kBuf); memset(S.t2, 1, kBuf); }
void take() {
  S.n1 = TCMalloc_Internal_GetStats(S.t1, kBuf); S.np = MallocExtension_Internal_GetStatsInPbtxt(S.pb, kBuf);
  for (int i = 0; i < kNProps; i++) S.propok[i] = tcmalloc_internal::GetNumericProperty(kProps[i], strlen(kProps[i]), &S.prop[i]);
  S.n2 = TCMalloc_Internal_GetStats(S.t2, kBuf); }
u64 prop(const char* n) { for (int i = 0; i < kNProps; i++) if (!strcmp(kProps[i], n)) return S.prop[i]; FATAL("harness", "property %s", n); }
bool hasprop(const char* n) { for (int i = 0; i < kNProps; i++) if (!strcmp(kProps[i], n)) return S.propok[i]; return false; }

// values the harness set
struct Want { i64 soft = -1, hard = -1; i64 release_rate = -1; double guarded = -2; i64 sampling = -1; i64 max_cpu = -1, max_thr = -1; i64 short_ns = -1, long_ns = -1; int partial = -1, huge_region = -1; i64 sleep_ns = -1; int back = -1; i64 back_thr = -1; int coll = -1, unfiltered = -1, stale = -1, drained = -1, resize_cap = -1; int hot = -1; int hooks[4] = {0, 0, 0, 0}; } want;

const char* kLabels[][3] = {
  {"Bytes in use by application", "in_use_by_app", "generic.bytes_in_use_by_app"}, {"Bytes in page heap freelist", "page_heap_freelist", "tcmalloc.page_heap_free"}, {"Bytes in central cache freelist", "central_cache_freelist", "tcmalloc.central_cache_free"},
  {"Bytes in per-CPU cache freelist", "per_cpu_cache_freelist", "tcmalloc.cpu_free"}, {"Bytes in Sharded cache freelist", "sharded_transfer_cache_freelist", "tcmalloc.sharded_transfer_cache_free"}, {"Bytes in transfer cache freelist", "transfer_cache_freelist", "tcmalloc.transfer_cache_free"},
  {"Bytes in thread cache freelists", "thread_cache_freelists", "tcmalloc.thread_cache_free"}, {"Bytes in malloc metadata", "malloc_metadata", nullptr}, {"Bytes in malloc metadata Arena unallocated", "malloc_metadata_arena_unallocated", nullptr}, {"Bytes in malloc metadata Arena unavailable", "malloc_metadata_arena_unavailable", nullptr},
  {"Actual memory used (physical + swap)", "actual_mem_used", nullptr}, {"Bytes released to OS (aka unmapped)", "unmapped", "tcmalloc.page_heap_unmapped"}, {"Virtual address space used", "virtual_address_space_used", nullptr}, {"Spans in use", "num_spans", nullptr}, {"Spans created", "num_spans_created", nullptr},
  {"Thread heaps in use", "num_thread_heaps", "tcmalloc.thread_cache_count"}, {"Thread heaps created", "num_thread_heaps_created", nullptr}, {"Stack traces in use", "num_stack_traces", nullptr}, {"Stack traces created", "num_stack_traces_created", nullptr}, {"Table buckets in use", "num_table_buckets", nullptr}, {"Table buckets created", "num_table_buckets_created", nullptr},
  {"Pagemap bytes used", "pagemap_size", nullptr}, {"Pagemap root resident bytes", "pagemap_root_residence", nullptr}, {"Pagemap root size", "pagemap_root_size", nullptr}, {"per-CPU slab bytes used", "percpu_slab_size", nullptr}, {"per-CPU slab resident bytes", "percpu_slab_residence", nullptr},
  {"Actual memory used at peak", "peak_backed", "generic.peak_memory_usage"}, {"Estimated in-use at peak", "peak_application_demand", nullptr}, {"Tcmalloc page size", "tcmalloc_page_size", nullptr}, {"Tcmalloc hugepage size", "tcmalloc_huge_page_size", nullptr}, {"CPUs Allowed in Mask", "cpus_allowed", nullptr}, {"Arena blocks", "arena_blocks", nullptr}, {"Arena freelist blocks", "arena_freelist_blocks", nullptr}};

u64 H(const Text& t, const char* l) { auto it = t.head.find(l); if (it == t.head.end()) { VIOL("field", "the text dump has no line \"%s\"", l); return 0; } return it->second.n; }
void check_header(const Text& t, const char* what, bool slack) {
  u64 parts = 0; for (const char* l : {"Bytes in use by application", "Bytes in page heap freelist", "Bytes in central cache freelist", "Bytes in per-CPU cache freelist", "Bytes in Sharded cache freelist", "Bytes in transfer cache freelist", "Bytes in thread cache freelists", "Bytes in malloc metadata", "Bytes in malloc metadata Arena unallocated", "Bytes in malloc metadata Arena unavailable"}) parts += H(t, l);
  u64 used = H(t, "Actual memory used (physical + swap)"), rel = H(t, "Bytes released to OS (aka unmapped)"), virt = H(t, "Virtual address space used"); evals += 2;
  if (parts != used && (!slack || H(t, "Bytes in use by application") > 0)) VIOL("identity", "%s: the listed parts add up to %llu, \"Actual memory used\" says %llu", what, (unsigned long long)parts, (unsigned long long)used);
  if (used + rel != virt) VIOL("identity", "%s: used %llu + released %llu is not the address space used %llu", what, (unsigned long long)used, (unsigned long long)rel, (unsigned long long)virt);
  for (auto& k : t.head) { evals++; if (k.second.n >= 1ull << 45 && k.first.find("virtual memory") == string::npos && k.first.find("fragmentation") == string::npos) VIOL("absurd", "%s: %s = %llu", what, k.first.c_str(), (unsigned long long)k.second.n);
    if (k.second.has_mib && k.first.find("created") == string::npos && !mib_ok(k.second.n, k.second.mib)) VIOL("mib", "%s: %s: %llu bytes are shown as %.1f MiB", what, k.first.c_str(), (unsigned long long)k.second.n, k.second.mib); }
  auto rf = t.head.find("Realized fragmentation (%)"); if (rf == t.head.end()) VIOL("field", "%s: no realized fragmentation", what);
  else { double peak = H(t, "Actual memory used at peak"), app = H(t, "Estimated in-use at peak"), w = app > 0 && peak > app ? 100. * (peak - app) / app : 0, got = rf->second.mib != 0 || rf->second.n ? rf->second.mib : 0; evals++; if (fabs(got - w) > 0.0001 + w * 1e-6) VIOL("realized", "%s: realized fragmentation %.4f %% with %.0f bytes backed and %.0f bytes of demand at peak (%.4f)", what, got, peak, app, w); }
}
struct ClassLine { long size, objs; double mib, cum; long pages, ret, req; double ratio; long ops; };
string fmt_dur(i64 ns) { return absl::FormatDuration(absl::Nanoseconds(ns)); }

vector<std::pair<size_t, size_t>> tag_sections(const Text& t, vector<string>& names) {  // line ranges of the page allocators
  vector<std::pair<size_t, size_t>> r; size_t i = find_line(t, "HugePageAware: "); size_t end = find_line(t, "GWP-ASan Status"); if (i == ~0ull || end == ~0ull) { VIOL("field", "no page allocator or GWP-ASan section"); return r; }
  size_t first = find_line(t, ">>>>>>> Begin ", i, end); r.emplace_back(i, first == ~0ull ? end : first); names.push_back("NORMAL");
  while (first != ~0ull && first < end) { size_t e = find_line(t, ">>>>>>> End ", first, end); if (e == ~0ull) { VIOL("sections", "page allocator section opened at line %zu is not closed", first); break; } string n = t.lines[first].substr(14); size_t sp = n.find(' '); n = n.substr(0, sp); r.emplace_back(first, e); names.push_back(n); first = find_line(t, ">>>>>>> Begin ", e, end); }
  return r; }

void judge(const char* what) {
  if (S.n1 >= kBuf || S.np >= kBuf || S.n2 >= kBuf) FATAL("harness", "dump larger than the buffer");
  if (strlen(S.t1) != S.n1) VIOL("length", "%s: text of %zu bytes reported as %zu", what, strlen(S.t1), S.n1);
  Text t, t2; parse_text(S.t1, S.n1, t); parse_text(S.t2, S.n2, t2); Node pb; if (!parse_pb(S.pb, S.np, false, pb, what)) return;
  check_header(t, what, false); check_header(t2, what, false);
  // the two texts: same lines except for times, rates and process totals
  EQ("lines", t.lines.size(), t2.lines.size(), "%s: two text dumps of the same state differ in length", what);
  for (size_t i = 0; i < t.lines.size() && i < t2.lines.size(); i++) { auto &a = t.lines[i], &b = t2.lines[i]; evals++; if (a == b) continue;
    if (starts(a, "TOTAL:") || a.find("spans: ") != string::npos || a.find("allocs/s") != string::npos || a.find("lifetime") != string::npos || a.find("Lifetime") != string::npos || a.find(" ms <") != string::npos || a.find(" us CPU ") != string::npos || a.find("Reallocation Time") != string::npos || a.find("timeseries") != string::npos || a.find("rate") != string::npos || a.find("hugepages became full") != string::npos || a.find("resident") != string::npos || a.find("HugeCache: recent") != string::npos || a.find("minimum free pages") != string::npos || a.find("at peak demand") != string::npos || a.find("live spans:") != string::npos) continue;
    if (a.find("HugePageFiller: <") != string::npos || a.find("in malloc metadata") != string::npos || a.find("Actual memory used (") != string::npos || a.find("Virtual address") != string::npos) continue;
    VIOL("unstable", "%s: line %zu differs between two dumps of one state: \"%.200s\" / \"%.200s\"", what, i, a.c_str(), b.c_str()); }
  // header = pbtxt = properties
  for (auto& l : kLabels) { u64 v = H(t, l[0]); if (!strcmp(l[1], "malloc_metadata") || strstr(l[1], "residence") || !strcmp(l[1], "actual_mem_used") || !strcmp(l[1], "virtual_address_space_used")) { i64 d = (i64)v - pb.i(l[1]); evals++; if (d > 262144 || d < -262144) VIOL("header", "%s: %s is %llu in text and %lld in pbtxt", what, l[0], (unsigned long long)v, (long long)pb.i(l[1])); } else EQ("header", v, pb.i(l[1]), "%s: text \"%s\" against pbtxt %s", what, l[0], l[1]);
    if (l[2]) { if (!hasprop(l[2])) VIOL("property", "no property %s", l[2]); EQ("property", v, prop(l[2]), "%s: text \"%s\" against property %s", what, l[0], l[2]); } }
  { u64 parts = 0; for (const char* k : {"in_use_by_app", "page_heap_freelist", "central_cache_freelist", "per_cpu_cache_freelist", "sharded_transfer_cache_freelist", "transfer_cache_freelist", "thread_cache_freelists", "malloc_metadata", "malloc_metadata_arena_unavailable", "malloc_metadata_arena_unallocated"}) parts += pb.i(k); EQ("identity", parts, pb.i("actual_mem_used"), "%s: pbtxt parts against actual_mem_used", what); EQ("identity", pb.i("actual_mem_used") + pb.i("unmapped"), pb.i("virtual_address_space_used"), "%s: pbtxt used + unmapped", what); }
  // properties among themselves
  u64 sys = prop("generic.heap_size") + prop("tcmalloc.pageheap_unmapped_bytes");
  EQ("property", prop("generic.current_allocated_bytes"), prop("generic.bytes_in_use_by_app"), "%s: the two in-use properties", what);
  EQ("property", prop("tcmalloc.slack_bytes"), prop("tcmalloc.pageheap_free_bytes") + prop("tcmalloc.pageheap_unmapped_bytes"), "%s: slack_bytes", what);
  u64 cached = prop("tcmalloc.central_cache_free") + prop("tcmalloc.cpu_free") + prop("tcmalloc.sharded_transfer_cache_free") + prop("tcmalloc.transfer_cache_free") + prop("tcmalloc.thread_cache_free");
  EQ("property", sys, prop("generic.bytes_in_use_by_app") + cached + prop("tcmalloc.slack_bytes"), "%s: heap bytes against in-use + cached + free + unmapped", what);
  u64 arena = H(t, "Bytes in malloc metadata Arena unallocated") + H(t, "Bytes in malloc metadata Arena unavailable");
  u64 nonres = H(t, "malloc metadata Arena non-resident bytes");
  EQ("property", prop("tcmalloc.page_heap_unmapped"), prop("tcmalloc.pageheap_unmapped_bytes") + nonres, "%s: page_heap_unmapped", what);
  u64 pmeta = H(t, "Bytes in malloc metadata") + H(t, "Pagemap bytes used") - H(t, "Pagemap root resident bytes") + H(t, "per-CPU slab bytes used") - H(t, "per-CPU slab resident bytes");  // these properties count whole mappings, the dump their resident part
  EQ("property", prop("generic.virtual_memory_used"), sys + pmeta + arena + nonres, "%s: virtual_memory_used", what);
  EQ("property", prop("generic.physical_memory_used"), prop("generic.virtual_memory_used") - prop("tcmalloc.page_heap_unmapped"), "%s: physical_memory_used", what);
  EQ("property", prop("tcmalloc.required_bytes"), prop("generic.physical_memory_used") - prop("tcmalloc.pageheap_free_bytes"), "%s: required_bytes", what);
  EQ("property", prop("tcmalloc.external_fragmentation_bytes"), prop("tcmalloc.pageheap_free_bytes") + cached + pmeta + arena, "%s: external_fragmentation_bytes", what);
  EQ("property", prop("tcmalloc.local_bytes"), prop("tcmalloc.cpu_free") + prop("tcmalloc.thread_cache_free") + prop("tcmalloc.sharded_transfer_cache_free"), "%s: local_bytes", what);
  { i64 d = (i64)prop("tcmalloc.metadata_bytes") - (i64)H(t, "Bytes in malloc metadata"); evals++; if (d > 262144 || d < -262144) VIOL("property", "%s: metadata_bytes %llu, the dump says %llu", what, (unsigned long long)prop("tcmalloc.metadata_bytes"), (unsigned long long)H(t, "Bytes in malloc metadata")); }
  { double rf = t.head["Realized fragmentation (%)"].mib; EQ("property", (u64)(rf + 0.00005) - (u64)prop("generic.realized_fragmentation") <= 1 ? 0 : (u64)rf - prop("generic.realized_fragmentation"), 0, "%s: realized_fragmentation property", what); }
  // classes
  auto& sm = tc_globals.sizemap(); size_t at = find_line(t, "class "); auto fl = pb.all("freelist"); EQ("classes", fl.size(), kNumClasses - 1, "%s: pbtxt freelists", what); double cum = 0, bytes = 0, over = 0; vector<ClassLine> cl(kNumClasses);
  for (int c = 1; c < (int)kNumClasses && at != ~0ull && fl.size() == kNumClasses - 1; c++) { auto& L = cl[c]; int id; const string& l = t.lines[at + c - 1];
    if (sscanf(l.c_str(), "class %d [ %ld bytes ] : %ld objs; %lf MiB; %lf cum MiB; %ld live pages; spans: %ld ret / %ld req = %lf; %ld objs/span;", &id, &L.size, &L.objs, &L.mib, &L.cum, &L.pages, &L.ret, &L.req, &L.ratio, &L.ops) != 10) { VIOL("classes", "%s: odd class line \"%s\"", what, l.c_str()); break; }
    EQ("classes", id, c, "%s: class number", what); EQ("classes", L.size, sm.class_to_size(c), "%s: size of class %d", what, c); double by = (double)L.objs * L.size; cum += by; bytes += by; if (!mib_ok(by, L.mib) || !mib_ok(cum, L.cum)) VIOL("classes", "%s: class %d: %ld objects of %ld bytes shown as %.1f MiB, %.1f cumulative (%.3f)", what, c, L.objs, L.size, L.mib, L.cum, cum / 1048576);
    long pg = sm.class_to_pages(c).raw_num(); if (L.ret > L.req) VIOL("classes", "%s: class %d returned %ld of %ld spans", what, c, L.ret, L.req); EQ("classes", L.pages, (L.req - L.ret) * pg, "%s: live pages of class %d", what, c); if (fabs(L.ratio - (L.req ? (double)L.ret / L.req : 0)) > 0.00006) VIOL("classes", "%s: class %d: ratio %.4f of %ld / %ld", what, c, L.ratio, L.ret, L.req);
    if (L.size) { long sb = pg * kPageSize; EQ("classes", L.ops, sb / L.size, "%s: objects per span of class %d", what, c); over += (double)(L.req - L.ret) * (sb % L.size); }
    const Node& f = *fl[c - 1]; EQ("classes", f.i("sizeclass"), L.size, "%s: pbtxt size of class %d", what, c); EQ("classes", f.i("bytes"), by, "%s: pbtxt bytes of class %d", what, c); EQ("classes", f.i("num_spans_requested"), L.req, "%s: pbtxt spans requested, class %d", what, c); EQ("classes", f.i("num_spans_returned"), L.ret, "%s: pbtxt spans returned, class %d", what, c); if (L.size) { EQ("classes", f.i("objects_per_span"), L.ops, "%s: pbtxt objects per span, class %d", what, c); EQ("classes", f.i("obj_capacity"), (L.req - L.ret) * L.ops, "%s: pbtxt object capacity, class %d", what, c); }
    if (L.size && L.ops > 1) { double live = L.req - L.ret, u = f.sum("span_util_histogram", "value"), pr = f.sum("prioritization_list_occupancy", "value"), lt = f.sum("span_lifetime_histogram", "value"), co = f.sum("span_completed_lifetime_histogram", "value"); EQ("spans", u, live, "%s: span utilisation histogram of class %d (%ld bytes)", what, c, L.size); if (pr > live) VIOL("spans", "%s: class %d lists %.0f spans with room of %.0f", what, c, pr, live); EQ("spans", lt, pr, "%s: lifetimes of the listed spans of class %d", what, c); if (co > L.ret) VIOL("spans", "%s: class %d: %.0f completed lifetimes, %ld spans returned", what, c, co, L.ret); if (pr > 0) dist.add(mix(c) ^ (u64)pr); }
    dist.add(mix(c * 7919) ^ (L.objs ? 64 - __builtin_clzl(L.objs) : 0)); }
  EQ("sum", bytes + over, H(t, "Bytes in central cache freelist") + H(t, "Bytes in transfer cache freelist") + H(t, "Bytes in per-CPU cache freelist") + H(t, "Bytes in thread cache freelists") + H(t, "Bytes in Sharded cache freelist"), "%s: cached objects by class (and span overhead) against the cache totals", what);
  // transfer caches
  auto transfers = [&](const char* from, const char* region, const char* total, bool sharded) { size_t i = find_line(t, from); auto v = pb.all(region); if (i == ~0ull || v.empty()) { if (i != ~0ull || !v.empty()) VIOL("sections", "%s: %s in one dump only", what, region); return; } i = find_line(t, "class ", i); double used = 0; EQ("transfer", v.size(), kNumClasses - 1, "%s: pbtxt %s", what, region);
    for (int c = 1; c < (int)kNumClasses && v.size() == kNumClasses - 1; c++) { int id; long size, objs, cap, max, ih, im, iom, rh, rm, rom; double m, cm, hit; const string& l = t.lines[i + c - 1]; if (sscanf(l.c_str(), "class %d [ %ld bytes ] : %ld objs; %lf MiB; %lf cum MiB; %ld capacity; %ld max_capacity; %ld insert hits; %ld insert misses (%ld object misses); %ld remove hits; %ld remove misses (%ld object misses); %lf frontline hit rate", &id, &size, &objs, &m, &cm, &cap, &max, &ih, &im, &iom, &rh, &rm, &rom, &hit) != 14) { VIOL("transfer", "%s: odd line \"%s\"", what, l.c_str()); return; }
      used += (double)objs * size; if (id != c || size != (long)sm.class_to_size(c)) VIOL("transfer", "%s: line of class %d is for %d, %ld bytes", what, c, id, size); if (!mib_ok((double)objs * size, m) || !mib_ok(used, cm)) VIOL("transfer", "%s: %s class %d: MiB columns %.1f %.1f for %ld objects", what, region, c, m, cm, objs); if (objs < 0 || objs > cap || cap > max) VIOL("transfer", "%s: %s class %d holds %ld of %ld (max %ld)", what, region, c, objs, cap, max);
      if ((im > 0) != (iom > 0) || (rm > 0) != (rom > 0) || iom > im * 128 || rom > rm * 128 || iom < im || rom < rm) VIOL("transfer", "%s: %s class %d: %ld insert misses of %ld objects, %ld remove misses of %ld objects", what, region, c, im, iom, rm, rom); if (!(hit <= 100.000005)) VIOL("transfer", "%s: %s class %d: hit rate %f", what, region, c, hit); if (iom) dist.add(mix(c * 31 + sharded) ^ 0x77);
      const Node& n = *v[c - 1]; struct { const char* k; long x; } f[] = {{"sizeclass", size}, {"used", objs}, {"capacity", cap}, {"max_capacity", max}, {"insert_hits", ih}, {"insert_misses", im}, {"remove_hits", rh}, {"remove_misses", rm}, {"remove_object_misses", rom}}; for (auto& q : f) EQ("transfer", n.i(q.k), q.x, "%s: %s %s of class %d", what, region, q.k, c); if (!sharded) EQ("transfer", n.i("insert_object_misses"), iom, "%s: insert_object_misses of class %d", what, c); long roh = n.i("remove_object_hits"); if ((rh > 0) != (roh > 0) || roh < rh || roh > rh * 128) VIOL("transfer", "%s: %s class %d: %ld remove hits of %ld objects", what, region, c, rh, roh); }
    EQ("transfer", used, H(t, total), "%s: %s objects against \"%s\"", what, region, total); };
  transfers("Used bytes, current capacity, and maximum allowed capacity", "transfer_cache", "Bytes in transfer cache freelist", false);
  bool percpu = prop("tcmalloc.per_cpu_caches_active");
  if (percpu) transfers("Cumulative sharded transfer cache stats.", "sharded_transfer_cache", "Bytes in Sharded cache freelist", true);
  // per-CPU caches
  if (percpu) { auto v = pb.all("cpu_cache"); size_t i = find_line(t, "Bytes in per-CPU caches"); if (i == ~0ull) VIOL("sections", "%s: no per-CPU section", what); else { i = find_line(t, "cpu ", i); double used = 0; for (size_t k = 0; k < v.size(); k++) { int cpu; unsigned long long u, un; double m, m2; const string& l = t.lines[i + k]; if (sscanf(l.c_str(), "cpu %d: %llu bytes (%lf MiB) with %llu bytes unallocated", &cpu, &u, &m, &un) != 4) { VIOL("cpu", "%s: odd line \"%s\"", what, l.c_str()); break; } (void)m2; used += u; if (!mib_ok(u, m)) VIOL("cpu", "%s: cpu %d: %llu bytes are %.1f MiB", what, cpu, u, m); EQ("cpu", v[k]->i("cpu"), cpu, "%s: cpu number", what); EQ("cpu", v[k]->i("used"), u, "%s: used bytes of cpu %d", what, cpu); EQ("cpu", v[k]->i("unused"), un, "%s: unallocated bytes of cpu %d", what, cpu); EQ("cpu", v[k]->b("active"), l.find(" active") != string::npos, "%s: cpu %d active", what, cpu); EQ("cpu", v[k]->b("populated"), l.find(" populated") != string::npos, "%s: cpu %d populated", what, cpu); if (u && !v[k]->b("populated")) VIOL("cpu", "%s: cpu %d holds %llu bytes but is not populated", what, cpu, u); if (un > 1ull << 40) VIOL("cpu", "%s: cpu %d has %llu bytes unallocated", what, cpu, un); }
      EQ("cpu", used, H(t, "Bytes in per-CPU cache freelist"), "%s: bytes cached per CPU against their total", what); }
    size_t j = find_line(t, "Total  :"); if (j == ~0ull) VIOL("sections", "%s: no miss totals", what); else { auto tot = nums(t.lines[j]); struct { const char* k; int ix; } f[] = {{"underflows", 0}, {"overflows", 1}, {"reclaims", 3}, {"size_class_resizes", 4}}; for (auto& q : f) EQ("cpu", tot.size() > (size_t)q.ix ? tot[q.ix] : -1, pb.sum("cpu_cache", q.k), "%s: total %s", what, q.k); }
    for (auto n : pb.all("size_class_capacity")) { i64 mn = n->i("min_capacity"), mx = n->i("max_capacity"), al = n->i("max_allowed_capacity"); double av = strtod(n->s("avg_capacity").c_str(), nullptr); evals++; if (mn > mx || mx > al || av < mn - 1e-6 || av > mx + 1e-6) VIOL("cpu", "%s: capacities of %lld bytes: min %lld avg %f max %lld allowed %lld", what, (long long)n->i("sizeclass"), (long long)mn, av, (long long)mx, (long long)al); } }
  // page allocators
  vector<string> names; auto sec = tag_sections(t, names); auto pa = pb.all("page_allocator"); EQ("tags", pa.size(), sec.size(), "%s: page allocator sections", what); double fr = 0, un = 0, us = 0; u64 rel[5] = {0, 0, 0, 0, 0}, live_pages = 0; (void)live_pages;
  const char* relk[5] = {"num_released_total_pages", "num_released_release_memory_to_system_pages", "num_released_process_background_actions_pages", "num_released_soft_limit_exceeded_pages", "num_released_hard_limit_exceeded_pages"};
  for (size_t i = 0; i < pa.size() && i < sec.size(); i++) { const Node& p = *pa[i]; string tg = p.s("tag"); size_t a = sec[i].first, e = sec[i].second; if (tg != names[i] && !(tg.find(names[i]) == 0)) VIOL("tags", "%s: page allocator %zu is %s in text, %s in pbtxt", what, i, names[i].c_str(), tg.c_str()); string w0 = string(what) + " " + tg; const char* w = w0.c_str(); const Node* h = p.get("huge_page_allocator"); if (!h) { VIOL("field", "%s: no huge_page_allocator", w); continue; }
    double F = 0, U = 0, Us = 0; const char* comp[4][2] = {{"filler_usage", "HugePageAware: filler "}, {"region_usage", "HugePageAware: region "}, {"cache_usage", "HugePageAware: cache "}, {"alloc_usage", "HugePageAware: alloc "}};
    for (auto& c : comp) { const Node* x = h->get(c[0]); if (!x) { VIOL("field", "%s: no %s", w, c[0]); continue; } i64 cu = x->i("used"), cf = x->i("free"), ck = x->i("unmapped"); if (cu < 0 || cf < 0 || ck < 0) VIOL("pages", "%s: %s used %lld free %lld unmapped %lld", w, c[0], (long long)cu, (long long)cf, (long long)ck); F += cf; U += ck; Us += cu; size_t l = find_line(t, c[1], a, e); double x1, x2, x3; if (l == ~0ull || sscanf(t.lines[l].c_str() + strlen(c[1]), " %lf MiB used, %lf MiB free, %lf MiB unmapped", &x1, &x2, &x3) != 3) { VIOL("pages", "%s: no text line for %s", w, c[0]); continue; } if (!mib_ok(cu, x1) || !mib_ok(cf, x2) || !mib_ok(ck, x3)) VIOL("pages", "%s: %s: text \"%s\", pbtxt %lld %lld %lld", w, c[0], t.lines[l].c_str(), (long long)cu, (long long)cf, (long long)ck); }
    EQ("pages", h->get("alloc_usage") ? h->get("alloc_usage")->i("used") : 0, 0, "%s: bytes used in the address allocator", w);
    fr += F; un += U; us += Us; { double sp = p.sum("page_heap", "present"), sr = p.sum("page_heap", "released"); EQ("pages", sp, F, "%s: free span list against free bytes", w); EQ("pages", sr, U, "%s: released span list against unmapped bytes", w); }
    for (auto q : p.all("page_heap")) { i64 z = q->i("span_size"); if (z > 0) EQ("pages", q->i("present") + q->i("released"), z * q->i("num_spans"), "%s: list of spans of %lld bytes", w, (long long)z); }
    size_t l = find_line(t, "HugePageAware: ", a, e); auto hv = nums(t.lines[l]); if (hv.size() < 3 || !mib_ok(F, hv[1]) || !mib_ok(U, hv[2])) VIOL("pages", "%s: head \"%s\" for %.0f free and %.0f unmapped bytes", w, t.lines[l].c_str(), F, U);
    // filler
    l = find_line(t, "HugePageFiller: Overall, ", a, e); if (l == ~0ull) VIOL("field", "%s: no filler summary", w); else { auto v = nums(t.lines[l]); const Node *sp = h->get("filler_sparsely_accessed_alloc_stats"), *de = h->get("filler_densely_accessed_alloc_stats"); i64 full = h->i("filler_full_huge_pages"), part = h->i("filler_partial_huge_pages"), rl = h->i("filler_released_huge_pages"), pr = h->i("filler_partially_released_huge_pages"); if (v.size() >= 5) { EQ("filler", v[0], full + part + rl, "%s: hugepages in the filler", w); EQ("filler", v[1], full, "%s: full hugepages", w); EQ("filler", v[2], part, "%s: partial hugepages", w); EQ("filler", v[3], rl, "%s: released hugepages", w); EQ("filler", v[4], pr, "%s: partially released hugepages", w); }
      if (sp && de) { EQ("filler", full, sp->i("full_huge_pages") + de->i("full_huge_pages"), "%s: full by density", w); EQ("filler", part, sp->i("partial_huge_pages") + de->i("partial_huge_pages"), "%s: partial by density", w); EQ("filler", rl, sp->i("released_huge_pages") + de->i("released_huge_pages"), "%s: released by density", w); EQ("filler", pr, sp->i("partially_released_huge_pages") + de->i("partially_released_huge_pages"), "%s: partially released by density", w); }
      double fu = h->get("filler_usage")->i("used") + h->get("filler_usage")->i("free") + h->get("filler_usage")->i("unmapped"); EQ("filler", (full + part + rl) * (double)kHugePageSize, fu, "%s: bytes of the filler's hugepages", w); EQ("filler", h->i("filler_free_pages") * (double)kPageSize, h->get("filler_usage")->i("free"), "%s: free pages of the filler", w); EQ("filler", h->i("filler_unmapped_bytes"), h->get("filler_usage")->i("unmapped"), "%s: unmapped bytes of the filler", w);
      size_t q = find_line(t, "HugePageFiller: ", l + 1, e); (void)q; for (size_t k = l; k < e && k < l + 20; k++) { int n1, n2; double rr; if (sscanf(t.lines[k].c_str(), "HugePageFiller: %d pages free in %d hugepages, %lf free", &n1, &n2, &rr) == 3) { EQ("filler", n1, h->i("filler_free_pages"), "%s: pages free (text)", w); EQ("filler", n2, full + part + rl, "%s: hugepages (text)", w); } long s1, s2, s3, s4; if (sscanf(t.lines[k].c_str(), "HugePageFiller: Since startup, %ld pages subreleased, %ld hugepages broken, (%ld pages, %ld hugepages due", &s1, &s2, &s3, &s4) == 4) { EQ("filler", s1, h->i("filler_num_pages_subreleased"), "%s: pages subreleased", w); EQ("filler", s2, h->i("filler_num_hugepages_broken"), "%s: hugepages broken", w); EQ("filler", s3, h->i("filler_num_pages_subreleased_due_to_limit"), "%s: pages subreleased for the limit", w); EQ("filler", s4, h->i("filler_num_hugepages_broken_due_to_limit"), "%s: hugepages broken for the limit", w); } if (sscanf(t.lines[k].c_str(), "HugePageFiller: %ld used pages in subreleased hugepages (%ld of them in partially released)", &s1, &s2) == 2) { EQ("filler", s1, h->i("filler_used_pages_in_subreleased"), "%s: used pages in subreleased", w); EQ("filler", s2, h->i("filler_used_pages_in_partial_released"), "%s: used pages in partially released", w); } }
      // trackers by type: histograms cover every hugepage of their type, and all types cover the filler
      double tot = 0, freep = 0; for (auto k : h->all("filler_tracker")) { double n = k->i("total_pages"); tot += n; string ty = k->s("type") + "/" + k->s("objects"); bool don = k->s("type") == "DONATED"; EQ("trackers", k->sum("free_pages_histogram", "value"), n, "%s: %s hugepages by free pages", w, ty.c_str()); if (!don) { EQ("trackers", k->sum("longest_free_range_histogram", "value"), n, "%s: %s hugepages by longest free range", w, ty.c_str()); EQ("trackers", k->sum("allocations_histogram", "value"), n, "%s: %s hugepages by allocations", w, ty.c_str()); } EQ("trackers", k->sum("lifetime_histogram", "value"), n, "%s: %s hugepages by lifetime", w, ty.c_str()); for (auto q : k->all("free_pages_histogram")) freep += 0 * q->i("value"); if (n > 0) dist.add(mix(i) ^ mix((u64)n) ^ k->name.size() ^ ty[0] * 131 ^ ty[ty.size() - 1]); }
      EQ("trackers", tot, full + part + rl, "%s: hugepages over all tracker types", w); }
    struct { const char* pre; const char* k; int ix; } tl[] = {{"HugeAllocator: ", "num_total_requested_huge_pages", -1}}; (void)tl;
    for (size_t k = a; k < e; k++) { long n1, n2, n3; const char* s = t.lines[k].c_str(); double m;
      if (sscanf(s, "HugeAllocator: %ld requested - %ld in use = %ld hugepages free", &n1, &n2, &n3) == 3) { EQ("alloc", n1, h->i("num_total_requested_huge_pages"), "%s: hugepages requested", w); EQ("alloc", n2, h->i("num_in_use_huge_pages"), "%s: hugepages in use", w); EQ("alloc", n1 - n2, n3, "%s: hugepages free", w); if (h->i("contiguous_free_bytes") > n3 * (i64)kHugePageSize || h->i("contiguous_free_bytes") < 0 || (n3 > 0) != (h->i("contiguous_free_bytes") > 0)) VIOL("alloc", "%s: %ld hugepages free, %lld contiguous bytes", w, n3, (long long)h->i("contiguous_free_bytes")); evals++; }
      if (sscanf(s, "HugeCache: %ld / %ld hugepages cached", &n1, &n2) == 2) { EQ("cache", n1 * (double)kHugePageSize, h->i("cached_huge_page_bytes"), "%s: cached bytes", w); EQ("cache", n2 * (double)kHugePageSize, h->i("max_cached_huge_page_bytes"), "%s: cache limit", w); EQ("cache", h->i("cached_huge_page_bytes"), h->get("cache_usage")->i("free"), "%s: cached bytes against the breakdown", w); }
      if (sscanf(s, "HugePageAware: %ld pages live small allocation", &n1) == 1 && strstr(s, "live small")) EQ("info", n1, h->i("num_small_allocation_pages"), "%s: small allocation pages", w);
      if (sscanf(s, "HugePageAware: %ld pages of slack", &n1) == 1 && strstr(s, "slack on large")) EQ("info", n1, h->i("num_slack_pages"), "%s: slack pages", w);
      if (sscanf(s, "HugePageAware: largest seen allocation %ld pages", &n1) == 1) EQ("info", n1, h->i("largest_allocation_pages"), "%s: largest allocation", w);
      static const char* rt[5] = {"released in total", "released from ReleaseMemoryToSystem", "MiB released from ProcessBackgroundActions", "MiB released from soft malloc limit hits", "MiB released from hard malloc limit hits"};
      if (sscanf(s, "HugePageAware: %ld pages (%lf MiB)", &n1, &m) == 2) { const char* z = strchr(s, ')'); for (int r = 0; r < 5; r++) if (z && !strcmp(z + 2, rt[r])) { EQ("released", n1, h->i(relk[r]), "%s: pages %s", w, rt[r]); rel[r] += n1; if (!mib_ok(n1 * (double)kPageSize, m)) VIOL("released", "%s: \"%s\"", w, s); } } }
    { EQ("released", h->i(relk[0]), h->i(relk[1]) + h->i(relk[2]) + h->i(relk[3]) + h->i(relk[4]), "%s: pages released in total against the reasons", w); }
    { double live = 0, small = 0; vector<const Node*> st = h->all("hpaa_stat"); size_t k2 = find_line(t, "HugePageAware: per-size information", a, e), ix = 0; for (auto q : st) { double A = q->i("num_spans_allocated"), B = q->i("num_spans_freed"), lb = q->i("live_bytes"), mn = q->i("min_span_pages"), mx = q->i("max_span_pages"); live += lb; if (B > A) VIOL("info", "%s: %.0f spans freed of %.0f, %0.f..%.0f pages", w, B, A, mn, mx); if (lb < (A - B) * mn * kPageSize || lb > (A - B) * mx * kPageSize) VIOL("info", "%s: %.0f live spans of %.0f..%.0f pages hold %.0f bytes", w, A - B, mn, mx, lb); ix++; if (k2 == ~0ull) continue; const string& ln = t.lines[k2 + ix]; size_t col = ln.find("page info:"); if (col == string::npos) { VIOL("info", "%s: per-size line %zu: \"%s\"", w, ix, ln.c_str()); continue; } auto v = nums(ln, col); auto lead = nums(ln.substr(0, col)); if (v.size() < 4 || v[0] != A || v[1] != B || v[2] != A - B || !mib_ok(lb, v[3]) || lead.empty() || lead[0] != mn || lead.back() != mx) VIOL("info", "%s: per-size line \"%s\", pbtxt %.0f..%.0f: %.0f %.0f %.0f", w, ln.c_str(), mn, mx, A, B, lb); evals++; (void)small; }
      EQ("live", live, Us, "%s: bytes of live spans by size against the used bytes of the components", w); }
    dist.add(mix(i * 77) ^ (u64)(F / 65536) * 31 ^ (u64)(U / 65536)); }
  EQ("pages", fr, H(t, "Bytes in page heap freelist"), "%s: free bytes of the page allocators", what); EQ("pages", un, prop("tcmalloc.pageheap_unmapped_bytes"), "%s: unmapped bytes of the page allocators", what); EQ("pages", us + fr + un, sys, "%s: bytes of the page allocators against the heap size", what);
  { struct { const char *text, *prop; } r[5] = {{"Total number of pages released: ", "tcmalloc.num_released_total_bytes"}, {"Number of pages released by ReleaseMemoryToSystem: ", "tcmalloc.num_released_release_memory_to_system_bytes"}, {"Number of pages released by ProcessBackgroundActions: ", "tcmalloc.num_released_process_background_actions_bytes"}, {"Number of pages released after soft limit hits: ", "tcmalloc.num_released_soft_limit_exceeded_bytes"}, {"Number of pages released after hard limit hits: ", "tcmalloc.num_released_hard_limit_exceeded_bytes"}}; for (int i = 0; i < 5; i++) { size_t l = find_line(t, r[i].text); if (l == ~0ull) { VIOL("field", "%s: no line \"%s\"", what, r[i].text); continue; } auto v = nums(t.lines[l]); EQ("released", v[0], rel[i], "%s: \"%s\" against the page allocators", what, r[i].text); EQ("released", v[0], pb.i(relk[i]), "%s: \"%s\" against pbtxt", what, r[i].text); if (hasprop(r[i].prop)) EQ("released", v[0] * (double)kPageSize, prop(r[i].prop), "%s: %s", what, r[i].prop); if (!mib_ok(v[0] * (double)kPageSize, v[1])) VIOL("released", "%s: \"%s\"", what, t.lines[l].c_str()); } }
  // limits
  { struct { const char *text, *pb, *prop; } r[] = {{"Number of times soft limit was hit: ", "soft_limit_hits", "tcmalloc.soft_limit_hits"}, {"Number of times hard limit was hit: ", "hard_limit_hits", "tcmalloc.hard_limit_hits"}, {"Number of times memory shrank below soft limit: ", "successful_shrinks_after_soft_limit_hit", "tcmalloc.successful_shrinks_after_soft_limit_hit"}, {"Number of times memory shrank below hard limit: ", "successful_shrinks_after_hard_limit_hit", "tcmalloc.successful_shrinks_after_hard_limit_hit"}}; double v[4] = {0, 0, 0, 0}; for (int i = 0; i < 4; i++) { size_t l = find_line(t, r[i].text); if (l == ~0ull) { VIOL("field", "%s: no line \"%s\"", what, r[i].text); continue; } v[i] = nums(t.lines[l])[0]; EQ("limits", v[i], pb.i(r[i].pb), "%s: %s", what, r[i].pb); if (hasprop(r[i].prop)) EQ("limits", v[i], prop(r[i].prop), "%s: %s", what, r[i].prop); } if (v[2] > v[0] || v[3] > v[1]) VIOL("limits", "%s: more successful shrinks than limit hits: %.0f/%.0f soft, %.0f/%.0f hard", what, v[2], v[0], v[3], v[1]);
    auto lim = [&](const char* k, i64 w, const char* pr) { u64 text = strtoull(t.par[k].c_str(), nullptr, 10); i64 p = pb.i(k); evals++; if (text != (u64)w || p != w) VIOL("limits", "%s: %s is %s in text, %lld in pbtxt; it was set to %lld", what, k, t.par[k].c_str(), (long long)p, (long long)w); if (hasprop(pr)) EQ("limits", prop(pr), (u64)w, "%s: property %s", what, pr); }; lim("desired_usage_limit_bytes", want.soft, "tcmalloc.desired_usage_limit_bytes"); lim("hard_usage_limit_bytes", want.hard, "tcmalloc.hard_usage_limit_bytes"); }
  // guarded sampling
  if (const Node* g = pb.get("gwp_asan")) { struct { const char *text, *pb; } r[] = {{"Successful Allocations: ", "successful_allocations"}, {"Failed Allocations: ", "failed_allocations"}, {"Skipped Allocations (No Slots): ", "skipped_allocations_noslots"}, {"Skipped Allocations (Filtered): ", "skipped_allocations_filtered"}, {"Skipped Allocations (Too Large): ", "skipped_allocations_toolarge"}}; for (auto& q : r) { size_t l = find_line(t, q.text); if (l == ~0ull) { VIOL("field", "%s: no line \"%s\"", what, q.text); continue; } EQ("gwp", nums(t.lines[l])[0], g->i(q.pb), "%s: %s", what, q.pb); }
    auto two = [&](const char* p, double& x, double& y) { size_t l = find_line(t, p); x = y = -1; if (l == ~0ull) return; auto v = nums(t.lines[l]); x = v[0]; if (v.size() > 1) y = v[1]; }; double al, mx, hi, mx2, tc, tot, qu, z; two("Currently Allocated: ", al, mx); two("Allocated High-Watermark: ", hi, mx2); two("Object Pages Touched: ", tc, tot); two("Currently Quarantined: ", qu, z); evals++; if (al < 0 || al > mx || hi < al || hi > mx2 || mx != mx2 || tc > tot || qu != tot - al) VIOL("gwp", "%s: allocated %.0f/%.0f, high %.0f/%.0f, touched %.0f/%.0f, quarantined %.0f", what, al, mx, hi, mx2, tc, tot, qu); }
  else VIOL("field", "%s: no gwp_asan in pbtxt", what);
  // hooks, experiments
  { size_t l = find_line(t, "MALLOC HOOKS: "); int h[4]; if (l == ~0ull || sscanf(t.lines[l].c_str(), "MALLOC HOOKS: NEW=%d DELETE=%d SAMPLED_NEW=%d SAMPLED_DELETE=%d", h, h + 1, h + 2, h + 3) != 4) VIOL("field", "%s: no hooks line", what); else { const char* k[4] = {"new_hooks_present", "delete_hooks_present", "sampled_new_hooks_present", "sampled_delete_hooks_present"}; for (int i = 0; i < 4; i++) { EQ("hooks", h[i], want.hooks[i], "%s: hooks in text, %s", what, k[i]); EQ("hooks", pb.i(k[i]), want.hooks[i], "%s: pbtxt %s", what, k[i]); } } }
  { string w = "MALLOC EXPERIMENTS:"; WalkExperiments([&](absl::string_view n, bool a) { w += " " + string(n) + (a ? "=1" : "=0"); }); if (find_line(t, w.c_str()) == ~0ull) VIOL("experiments", "%s: experiments line is not \"%s\"", what, w.c_str()); evals++; }
  { size_t l = find_line(t, "MALLOC SAMPLED PROFILES: "); const Node* p = pb.get("sampled_profiles"); if (l == ~0ull || !p) VIOL("field", "%s: no sampled profiles", what); else { auto v = nums(t.lines[l]); EQ("sampled", v[0], p->i("current_bytes"), "%s: sampled bytes", what); EQ("sampled", v[1], p->i("current_fragmentation_bytes"), "%s: sampled fragmentation", what); EQ("sampled", v[2], p->i("peak_bytes"), "%s: sampled peak", what); EQ("sampled", v[3], pb.i("total_sampled_count"), "%s: samples", what); EQ("sampled", v[1], prop("tcmalloc.sampled_internal_fragmentation"), "%s: sampled_internal_fragmentation", what); } }
  // parameters
  auto P = [&](const char* text, const char* pbk, i64 w, const string& wt) { if (text) { evals++; auto it = t.par.find(text); if (it == t.par.end() || it->second != wt) VIOL("parameter", "%s: PARAMETER %s is \"%s\", set to %s", what, text, it == t.par.end() ? "(absent)" : it->second.c_str(), wt.c_str()); } if (pbk) { string g = pb.s(pbk); evals++; if (g == "true") g = "1"; if (g == "false") g = "0"; if (g != std::to_string(w)) VIOL("parameter", "%s: pbtxt %s is %s, set to %lld", what, pbk, g.c_str(), (long long)w); } };
  auto PI = [&](const char* text, const char* pbk, i64 w) { P(text, pbk, w, std::to_string(w)); };
  if (want.max_cpu >= 0) PI("tcmalloc_max_per_cpu_cache_size", "tcmalloc_max_per_cpu_cache_size", want.max_cpu);
  if (want.max_thr >= 0) { PI("tcmalloc_max_total_thread_cache_bytes", "tcmalloc_max_total_thread_cache_bytes", want.max_thr); EQ("parameter", prop("tcmalloc.max_total_thread_cache_bytes"), want.max_thr, "%s: max_total_thread_cache_bytes", what); }
  if (want.release_rate >= 0) PI("malloc_release_bytes_per_sec", "malloc_release_bytes_per_sec", want.release_rate);
  if (want.short_ns >= 0) P("tcmalloc_skip_subrelease_short_interval", "tcmalloc_skip_subrelease_short_interval_ns", want.short_ns, fmt_dur(want.short_ns));
  if (want.long_ns >= 0) P("tcmalloc_skip_subrelease_long_interval", "tcmalloc_skip_subrelease_long_interval_ns", want.long_ns, fmt_dur(want.long_ns));
  if (want.partial >= 0) PI("tcmalloc_release_partial_alloc_pages", "tcmalloc_release_partial_alloc_pages", want.partial);
  if (want.huge_region >= 0) PI("tcmalloc_release_pages_from_huge_region", "tcmalloc_release_pages_from_huge_region", want.huge_region);
  if (want.sleep_ns >= 0) PI("background_process_sleep_interval_ns", "background_process_sleep_interval_ns", want.sleep_ns);
  if (want.back >= 0) PI("tcmalloc_back_small_allocations", "back_small_allocations", want.back);
  if (want.back_thr >= 0) PI("tcmalloc_back_size_threshold_bytes", "back_size_threshold_bytes", want.back_thr);
  if (want.unfiltered >= 0) PI("tcmalloc_enable_unfiltered_collapse", "tcmalloc_enable_unfiltered_collapse", want.unfiltered);
  if (want.stale >= 0) PI("tcmalloc_release_stale_pages", "tcmalloc_release_stale_pages", want.stale);
  if (want.drained >= 0) PI("tcmalloc_release_drained_slab_metadata", "tcmalloc_release_drained_slab_metadata", want.drained);
  if (want.resize_cap >= 0) PI("tcmalloc_resize_size_class_max_capacity", "tcmalloc_resize_size_class_max_capacity", want.resize_cap);
  if (want.hot >= 0) PI("min_hot_access_hint", "min_hot_access_hint", want.hot);
  if (want.coll >= 0) PI("tcmalloc_usermode_hugepage_collapse", "usermode_hugepage_collapse", want.coll);
  if (want.sampling >= 0) PI(nullptr, "profile_sampling_interval", want.sampling);
  PI("tcmalloc_per_cpu_caches", "tcmalloc_per_cpu_caches", tcmalloc_internal::Parameters::per_cpu_caches());
  dist.add(mix(H(t, "Bytes in use by application") >> 12) ^ mix(H(t, "Bytes in page heap freelist") >> 12) ^ H(t, "Bytes released to OS (aka unmapped)"));
}

// ---------------------------------------------------------------- workload
constexpr int kSlots = 6000; Block slot[kSlots];
size_t pick_size(Rng& r, int style) { size_t n = style == 1 ? r.below(2048) : style == 2 ? r.range(8192, 600000) : style == 3 && r.chance(1, 30) ? r.range(1 << 20, 12 << 20) : style == 4 && r.chance(1, 60) ? r.range(30 << 20, 200 << 20) : rand_size(r); return n; }
void churn(Rng& r, Block* s, int n, int ops, bool hot) {
  int style = r.below(6), keep = style == 0 ? 1 : 3;
  for (int i = 0; i < ops; i++) { Block& b = s[r.below(n)]; if (b.p) { do_free(b, r.next()); b.p = nullptr; } if (!r.chance(keep, 4)) continue; int f = r.chance(1, 2) ? F_malloc : r.below(F_COUNT); size_t sz = pick_size(r, style); if (is_aligned_fn(f) && sz > (1 << 20)) f = F_malloc; b = do_alloc(f, sz, size_t(8) << r.below(8), hot && r.chance(1, 3) ? (int)r.below(256) : -1); if (b.p && sz) *(volatile char*)b.p = 1; } }
void drop(Rng& r, Block* s, int n, int num, int den) { for (int k = 0; k < n; k++) if (s[k].p && r.chance(num, den)) { do_free(s[k], r.next()); s[k].p = nullptr; } }
void hk_new(const MallocHook::NewInfo&) {} void hk_del(const MallocHook::DeleteInfo&) {} void hk_sn(const MallocHook::SampledAlloc&) {} void hk_sd(const MallocHook::SampledAlloc&) {} void hk_new2(const MallocHook::NewInfo&) {} void hk_del2(const MallocHook::DeleteInfo&) {}
// helper threads work on command and are parked while dumps are taken
struct Helper { std::atomic<int> cmd{0}, ack{0}; Block s[800]; Rng r{0}; pthread_t th; std::atomic<bool> quit{false}; };
Helper* hp; constexpr int kHelpers = 3;
void* helper_main(void* a) { Helper& h = *(Helper*)a; free(malloc(8)); int seen = 0; while (!h.quit) { int c = h.cmd.load(std::memory_order_acquire); if (c == seen) { usleep(100); continue; } seen = c; cpu_set_t cs; CPU_ZERO(&cs); CPU_SET(h.r.below(8), &cs); sched_setaffinity(0, sizeof cs, &cs); churn(h.r, h.s, 800, 2000, true); if (h.r.chance(1, 4)) drop(h.r, h.s, 800, 2, 3); if (h.r.chance(1, 6)) MallocExtension::MarkThreadIdle(); h.ack.store(c, std::memory_order_release); } return nullptr; }
void params(Rng& r) {
  switch (r.below(20)) {
    case 0: want.max_cpu = r.range(0, 8 << 20); TCMalloc_Internal_SetMaxPerCpuCacheSize(want.max_cpu); break;
    case 1: want.max_thr = r.range(1 << 20, 256 << 20); MallocExtension::SetMaxTotalThreadCacheBytes(want.max_thr); break;
    case 2: want.release_rate = r.below(1ull << 40); MallocExtension::SetBackgroundReleaseRate((MallocExtension::BytesPerSecond)want.release_rate); break;
    case 3: want.short_ns = r.chance(1, 2) ? r.below(300) * 1000000000ll : r.below(5000000000ull); MallocExtension::SetSkipSubreleaseShortInterval(absl::Nanoseconds(want.short_ns)); break;
    case 4: want.long_ns = r.chance(1, 2) ? r.below(300) * 1000000000ll : r.below(5000000000ull); MallocExtension::SetSkipSubreleaseLongInterval(absl::Nanoseconds(want.long_ns)); break;
    case 5: want.partial = r.below(2); TCMalloc_Internal_SetReleasePartialAllocPagesEnabled(want.partial); break;
    case 6: want.huge_region = r.below(2); TCMalloc_Internal_SetReleasePagesFromHugeRegionEnabled(want.huge_region); break;
    case 7: want.sleep_ns = r.range(1000000, 20000000000ll); MallocExtension::SetBackgroundProcessSleepInterval(absl::Nanoseconds(want.sleep_ns)); break;
    case 8: want.back = r.below(2); TCMalloc_Internal_SetBackSmallAllocations(want.back); break;
    case 9: want.back_thr = r.below(1 << 20); TCMalloc_Internal_SetBackSizeThresholdBytes(want.back_thr); break;
    case 10: want.coll = r.below(2); TCMalloc_Internal_SetUsermodeHugepageCollapse(want.coll); break;
    case 11: want.unfiltered = r.below(2); TCMalloc_Internal_SetEnableUnfilteredCollapse(want.unfiltered); break;
    case 12: want.drained = r.below(2); TCMalloc_Internal_SetReleaseDrainedSlabMetadata(want.drained); break;
    case 13: want.resize_cap = r.below(2); TCMalloc_Internal_SetResizeSizeClassMaxCapacityEnabled(want.resize_cap); break;
    case 14: want.hot = r.below(256); TCMalloc_Internal_SetMinHotAccessHint(want.hot); break;
    case 15: want.sampling = r.chance(1, 3) ? r.range(1000, 100000) : r.range(200000, 4 << 20); MallocExtension::SetProfileSamplingInterval(want.sampling); break;
    case 16: MallocExtension::SetGuardedSamplingInterval(r.chance(1, 3) ? -1 : (int64_t)r.below(20) * (want.sampling > 0 ? want.sampling : 100000)); break;
    case 17: { size_t v; static const char k[] = "generic.heap_size"; tcmalloc_internal::GetNumericProperty(k, sizeof k - 1, &v); if (r.chance(1, 2)) { want.soft = -1; MallocExtension::SetMemoryLimit(r.chance(1, 2) ? 0 : ~0ull, MallocExtension::LimitKind::kSoft); } else { want.soft = r.range(v / 2 + 1, v * 3); MallocExtension::SetMemoryLimit(want.soft, MallocExtension::LimitKind::kSoft); } if ((u64)want.hard < (u64)want.soft) want.soft = want.hard; break; }
    case 18: if (r.chance(1, 2)) { want.hard = -1; MallocExtension::SetMemoryLimit(0, MallocExtension::LimitKind::kHard); } else { want.hard = (1ll << 40) + r.below(1ll << 40); MallocExtension::SetMemoryLimit(want.hard, MallocExtension::LimitKind::kHard); } if ((u64)want.hard < (u64)want.soft) want.soft = want.hard; break;
    default: { int k = r.below(6); auto tog = [&](bool& on, auto add, auto rem, int& n) { if (on) { if (!rem()) VIOL("harness", "hook removal failed"); n--; } else { if (!add()) VIOL("harness", "hook addition failed"); n++; } on = !on; }; static bool on[6];
      switch (k) { case 0: tog(on[0], [] { return MallocHook::AddNewHook(hk_new); }, [] { return MallocHook::RemoveNewHook(hk_new); }, want.hooks[0]); break; case 1: tog(on[1], [] { return MallocHook::AddNewHook(hk_new2); }, [] { return MallocHook::RemoveNewHook(hk_new2); }, want.hooks[0]); break; case 2: tog(on[2], [] { return MallocHook::AddDeleteHook(hk_del); }, [] { return MallocHook::RemoveDeleteHook(hk_del); }, want.hooks[1]); break; case 3: tog(on[3], [] { return MallocHook::AddDeleteHook(hk_del2); }, [] { return MallocHook::RemoveDeleteHook(hk_del2); }, want.hooks[1]); break; case 4: tog(on[4], [] { return MallocHook::AddSampledNewHook(hk_sn); }, [] { return MallocHook::RemoveSampledNewHook(hk_sn); }, want.hooks[2]); break; default: tog(on[5], [] { return MallocHook::AddSampledDeleteHook(hk_sd); }, [] { return MallocHook::RemoveSampledDeleteHook(hk_sd); }, want.hooks[3]); } } } }
void state_step(Rng& r) {
  switch (r.below(8)) { case 0: drop(r, slot, kSlots, r.range(1, 9), 10); break; case 1: drop(r, slot, kSlots, 1, 1); break; default: churn(r, slot, r.chance(1, 2) ? kSlots : 300, r.range(50, 6000), true); }
  for (int i = 0; i < kHelpers; i++) if (r.chance(1, 2)) hp[i].cmd++;
  for (int i = 0; i < kHelpers; i++) while (hp[i].ack.load(std::memory_order_acquire) != hp[i].cmd) sched_yield();
  if (r.chance(1, 3)) MallocExtension::ReleaseMemoryToSystem(r.chance(1, 4) ? ~0ull >> 1 : r.below(64 << 20));
  for (int k = r.below(4); k > 0; k--) background_action(r);
  if (r.chance(1, 8)) for (int c = 0; c < 8; c++) MallocExtension::ReleaseCpuMemory(c);
  for (int k = r.below(4); k > 0; k--) params(r); }
int mode_q(Rng& r) {
  hp = (Helper*)mmap(nullptr, sizeof(Helper) * kHelpers, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); for (int i = 0; i < kHelpers; i++) { new (&hp[i]) Helper; hp[i].r = Rng(r.next()); if (pthread_create(&hp[i].th, nullptr, helper_main, &hp[i])) FATAL("harness", "thread"); }
  snap_alloc(); if (envu("VT_GUARD", 0)) MallocExtension::ActivateGuardedSampling(); u64 end = now_ns() + (thorough() ? 150 : 4) * 1000000000ull; long long n = 0; TCMalloc_Internal_GetStats(S.t1, kBuf);
  { MallocExtension::GetProperties(); }
  while (now_ns() < end) { for (int k = r.below(4); k >= 0; k--) state_step(r); take(); char w[60]; snprintf(w, sizeof w, "state %lld", n); judge(w); n++;
    if (r.chance(1, 4)) { auto m = MallocExtension::GetProperties(); for (int i = 0; i < kNProps; i++) { auto it = m.find(kProps[i]); if (it == m.end()) { if (strstr(kProps[i], "num_released_total")) VIOL("property", "GetProperties lacks %s", kProps[i]); continue; } size_t now; tcmalloc_internal::GetNumericProperty(kProps[i], strlen(kProps[i]), &now); double d = (double)it->second.value - (double)now; evals++; if (!strcmp(kProps[i], "generic.realized_fragmentation") ? false : fabs(d) > (32 << 20)) VIOL("property", "GetProperties says %s = %zu, GetNumericProperty %zu", kProps[i], (size_t)it->second.value, now); } if (m["generic.virtual_memory_used"].value != m["generic.physical_memory_used"].value + m["tcmalloc.page_heap_unmapped"].value) VIOL("property", "GetProperties: virtual %zu, physical %zu, unmapped %zu", (size_t)m["generic.virtual_memory_used"].value, (size_t)m["generic.physical_memory_used"].value, (size_t)m["tcmalloc.page_heap_unmapped"].value); if (m["generic.heap_size"].value != m["generic.bytes_in_use_by_app"].value + m["tcmalloc.central_cache_free"].value + m["tcmalloc.cpu_free"].value + m["tcmalloc.sharded_transfer_cache_free"].value + m["tcmalloc.transfer_cache_free"].value + m["tcmalloc.thread_cache_free"].value + m["tcmalloc.page_heap_free"].value) VIOL("property", "GetProperties: heap size %zu is not in-use + cached + free", (size_t)m["generic.heap_size"].value); } }
  for (int i = 0; i < kHelpers; i++) { hp[i].quit = true; pthread_join(hp[i].th, nullptr); }
  metric("evals", evals); metric("distinct", dist.n); metric("states", n); say("SAMPLE %lld states dumped and judged, %lld comparisons", n, evals); return done(); }

// ---------------------------------------------------------------- buffers
string strip(const char* b, size_t n) { string o; for (size_t i = 0; i < n; i++) if (!isdigit(b[i]) && !strchr(" .,:-", b[i])) o += b[i]; for (const char* w : {"true", "false"}) for (size_t k; (k = o.find(w)) != string::npos;) o.erase(k, strlen(w)); for (size_t k; (k = o.find("same_span_stats{lower_boundvalue}")) != string::npos;) o.erase(k, strlen("same_span_stats{lower_boundvalue}")); return o; }
struct Guarded { char* base; size_t pages; char* end; Guarded(size_t n) : pages((n + 4095) / 4096 + 1) { base = (char*)mmap(nullptr, (pages + 1) * 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); mprotect(base + pages * 4096, 4096, PROT_NONE); end = base + pages * 4096; } ~Guarded() { munmap(base, (pages + 1) * 4096); } };
int mode_b(Rng& r) {
  { cpu_set_t m; CPU_ZERO(&m); CPU_SET(sched_getcpu(), &m); sched_setaffinity(0, sizeof m, &m); }
  churn(r, slot, kSlots, 20000, true); snap_alloc(); take(); take(); u64 end = now_ns() + (thorough() ? 150 : 4) * 1000000000ull; long long n = 0, cut = 0, full = 0;
  static char small_t[10000], small_p[10000]; size_t ns = TCMalloc_Internal_GetStats(small_t, 9999), np = MallocExtension_Internal_GetStatsInPbtxt(small_p, 9999); if (ns >= 9999) say("NOTE level-1 text is cut at 9999");
  string rt[2], rp[2]; rt[1] = strip(S.t1, S.n1); rt[0] = strip(small_t, std::min<size_t>(ns, strlen(small_t))); { const char* q = strstr(S.pb, "page_allocator"); rp[1] = strip(S.pb, q ? q - S.pb : S.np); } rp[0] = strip(small_p, std::min<size_t>(np, 9999)); size_t fullt[2] = {ns, S.n1}, fullp[2] = {np, S.np};
  while (now_ns() < end) { size_t L; switch (n % 8) { case 0: L = 1 + n / 8 % 3000; break; case 1: L = r.range(1, 9999); break; case 2: L = 9990 + r.below(20); break; case 3: L = fullt[r.below(2)] + r.below(60) - 30; break; case 4: L = fullp[r.below(2)] + r.below(60) - 30; break; case 5: L = r.range(10000, 300000); break; case 6: L = r.range(1, 64); break; default: L = r.range(10000, 2 << 20); } if (L < 1) L = 1; n++;
    bool pbm = r.below(2); Guarded g(L); char* buf = g.end - L; memset(g.base, 0xA5, g.pages * 4096); int lev = L >= 10000;
    if (!pbm) { size_t q = TCMalloc_Internal_GetStats(buf, L); size_t z = strnlen(buf, L); evals++; if (q < L) { full++; if (z != q) VIOL("length", "text: %zu bytes reported for a buffer of %zu, %zu written", q, L, z); if (q > 40 && !strstr(buf, "reserved\n")) VIOL("complete", "text of %zu bytes in a buffer of %zu lacks its last line", q, L); if (strip(buf, z) != rt[lev] && rt[lev].compare(0, 3000, strip(buf, z), 0, 3000)) VIOL("prefix", "text in a buffer of %zu is not the dump", L); } else { cut++; if (z == L) VIOL("terminator", "text: no terminator within a buffer of %zu (%zu needed)", L, q); }
      string s = strip(buf, z); if (lev == 0 || q >= L) { size_t k = std::min(s.size(), rt[lev].size()); size_t bad = 0; while (bad < k && s[bad] == rt[lev][bad]) bad++; size_t nl = s.size() < rt[lev].size() ? k : k; if (bad + 4 < nl && bad < s.size()) { static int warned; (void)warned; size_t pos = rt[lev].find("Hugepagefrag"); (void)pos; if (lev == 0 || bad < 20000) VIOL("prefix", "text in a buffer of %zu differs from the dump after %zu characters: \"%.60s\" / \"%.60s\"", L, bad, s.c_str() + bad, rt[lev].c_str() + bad); } }
      if (z < L && q >= L && z + 400 < L) VIOL("short", "text: only %zu of %zu bytes used though %zu are needed", z, L, q);
      for (char* c = g.base; c < buf; c++) if (*c != (char)0xA5) VIOL("outside", "text: byte %td before the buffer was written", buf - c); dist.add(mix(L) ^ 1); }
    else { int q0 = MallocExtension_Internal_GetStatsInPbtxt(buf, (int)L); size_t q = q0; evals++; if (q0 < 0) VIOL("length", "pbtxt: %d reported", q0); size_t z = 0; while (z < L && buf[z] != (char)0xA5) z++; if (z && buf[z - 1] == 0) z--; Node root; 
      if (q < L) { full++; if (z != q) VIOL("length", "pbtxt: %zu bytes reported for a buffer of %zu, %zu written", q, L, z); if (!parse_pb(buf, z, false, root, "complete pbtxt")) {} else if (!root.has("mmap_sys_allocator")) VIOL("complete", "pbtxt of %zu bytes in a buffer of %zu lacks its last field", q, L); } else { cut++; parse_pb(buf, z, true, root, "cut pbtxt"); if (z + 400 < L && z < q) VIOL("short", "pbtxt: only %zu of %zu bytes used though %zu are needed", z, L, q); }
      { const char* pa = (const char*)memmem(buf, z, "page_allocator", 14); string s = strip(buf, pa ? pa - buf : z); size_t k = std::min(s.size(), rp[lev].size()), bad = 0; while (bad < k && s[bad] == rp[lev][bad]) bad++; if (bad + 40 < k) VIOL("prefix", "pbtxt in a buffer of %zu differs from the dump after %zu characters: \"%.60s\" / \"%.60s\"", L, bad, s.c_str() + bad, rp[lev].c_str() + bad); }
      for (char* c = g.base; c < buf; c++) if (*c != (char)0xA5) VIOL("outside", "pbtxt: byte %td before the buffer was written", buf - c); dist.add(mix(L) ^ 2); }
    if (n % 50 == 0) { string s; if (n % 100) s.reserve(r.range(1, 5 << 20)); MallocExtension_Internal_GetStats(&s); string m = MallocExtension::GetStats(); for (string* x : {&s, &m}) { evals++; if (x->find('\0') != string::npos) VIOL("string", "GetStats: a zero byte inside the string of %zu", x->size()); Text t; parse_text(x->data(), x->size(), t); check_header(t, "GetStats", false); if (x->size() < 100000 || x->compare(x->size() - 9, 9, "reserved\n")) VIOL("string", "GetStats: the string of %zu bytes ends \"%s\"", x->size(), x->size() > 20 ? x->c_str() + x->size() - 20 : ""); } } }
  metric("evals", evals); metric("distinct", dist.n); metric("cut", cut); metric("complete", full); say("SAMPLE %lld buffers: %lld dumps cut, %lld complete", n, cut, full); return done(); }

// ---------------------------------------------------------------- concurrent
std::atomic<bool> stop_all; std::mutex maint_mu;
int mode_c(Rng& r) {
  u64 end = now_ns() + (thorough() ? 150 : 4) * 1000000000ull; std::atomic<long long> dumps{0}, ops{0}; std::mutex judge_mu; vector<std::thread> th;
  for (int i = 0; i < 4; i++) { u64 sd = r.next(); th.emplace_back([&, sd] { Rng q(sd); auto* s = (Block*)mmap(nullptr, sizeof(Block) * 1500, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); while (!stop_all) { churn(q, s, 1500, 500, true); if (q.chance(1, 10)) drop(q, s, 1500, 1, 2); ops += 500; } drop(q, s, 1500, 1, 1); }); }
  { u64 sd = r.next(); th.emplace_back([&, sd] { Rng q(sd); while (!stop_all) { std::lock_guard<std::mutex> l(maint_mu); background_action(q); if (q.chance(1, 3)) MallocExtension::ReleaseMemoryToSystem(q.below(32 << 20)); if (q.chance(1, 3)) params(q); usleep(q.below(2000)); } }); }
  for (int i = 0; i < 3; i++) { u64 sd = r.next(); th.emplace_back([&, sd, i] { Rng q(sd); char* buf = (char*)mmap(nullptr, kBuf, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    while (!stop_all) { u64 t0 = now_ns(); bool pbm = q.below(2); size_t n = pbm ? MallocExtension_Internal_GetStatsInPbtxt(buf, kBuf) : TCMalloc_Internal_GetStats(buf, kBuf); if (now_ns() - t0 > 60000000000ull) VIOL("slow", "a dump took %llu ms", (unsigned long long)(now_ns() - t0) / 1000000); dumps++; std::lock_guard<std::mutex> l(judge_mu); if (n >= kBuf) FATAL("harness", "dump larger than the buffer");
      if (pbm) { Node root; if (!parse_pb(buf, n, false, root, "concurrent")) continue; u64 parts = 0; for (const char* k : {"in_use_by_app", "page_heap_freelist", "central_cache_freelist", "per_cpu_cache_freelist", "sharded_transfer_cache_freelist", "transfer_cache_freelist", "thread_cache_freelists", "malloc_metadata", "malloc_metadata_arena_unavailable", "malloc_metadata_arena_unallocated"}) { i64 v = root.i(k); if (v < 0 || v > 1ll << 44) VIOL("absurd", "concurrent pbtxt: %s = %lld", k, (long long)v); parts += v; } evals++; if (root.i("in_use_by_app") > 0) EQ("identity", parts, root.i("actual_mem_used"), "concurrent pbtxt parts against actual_mem_used"); EQ("classes", root.all("freelist").size(), kNumClasses - 1, "concurrent pbtxt freelists"); for (auto f : root.all("freelist")) { i64 b = f->i("bytes"); if (b < 0 || b > 1ll << 40) VIOL("absurd", "concurrent pbtxt: %lld bytes cached of size %lld", (long long)b, (long long)f->i("sizeclass")); } for (auto f : root.all("transfer_cache")) if (f->i("used") < 0 || f->i("used") > f->i("max_capacity")) VIOL("transfer", "concurrent pbtxt: %lld objects of %lld", (long long)f->i("used"), (long long)f->i("max_capacity")); dist.add(mix(parts >> 12)); }
      else { Text t; parse_text(buf, n, t); check_header(t, "concurrent", true); size_t at = 0; for (const char* s : {"MALLOC:", "MALLOC EXPERIMENTS", "MALLOC HOOKS", "Total size of freelists", "Central cache freelist: Span utilization", "Central cache freelist: Span lifetime", "HugePageAware: ", "GWP-ASan Status", "Configured limits", "Parameters", "Low-level allocator stats"}) { size_t k = find_line(t, s, at); evals++; if (k == ~0ull) { VIOL("sections", "concurrent: \"%s\" is missing or out of order", s); break; } at = k; } vector<string> nm; tag_sections(t, nm); dist.add(mix(H(t, "Bytes in use by application") >> 12)); }
    } }); }
  while (now_ns() < end) usleep(20000); stop_all = true; for (auto& t : th) t.join();
  metric("evals", evals); metric("distinct", dist.n); metric("dumps", dumps); metric("operations", ops); say("SAMPLE %lld dumps during %lld operations", (long long)dumps, (long long)ops); return done(); }
}  // namespace
int main(int argc, char** argv) { Rng r(seed() * 31 + envu("VT_SUB", 0)); const char* m = argc > 1 ? argv[1] : "Q"; if (*m == 'Q') return mode_q(r); if (*m == 'B') return mode_b(r); return mode_c(r); }
