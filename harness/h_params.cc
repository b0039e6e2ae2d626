// P32: run-time parameters read back and take effect; experiments and environment selections are parsed as documented.
//   X  SelectExperiments and lookups on generated strings against an independent reading of the documentation
//   V  fresh processes with generated environments: what they report and what they do
//   S  every setter and getter against a shadow of all parameters, set from several threads under traffic
//   E  effects: scenarios in child processes, each with a parameter in several settings
#define VT_SYS_WATCH on_sys
#include <sys/types.h>
namespace vt { namespace sys { enum Op : int; } }
namespace { void on_sys(vt::sys::Op, void*, size_t, int, long); }
#include "vt.h"
#include "vt_api.h"
#include "vt_sys.h"
#include "vt_maint.h"
#include <sched.h>
#include <strings.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <cmath>
#include <map>
#include <memory>
#include <mutex>
#include <string>
#include <thread>
#include <vector>
#include "absl/time/clock.h"
#include "absl/time/time.h"
#include "tcmalloc/experiment.h"
#include "tcmalloc/global_stats.h"
#include "tcmalloc/internal_malloc_extension.h"
#include "tcmalloc/internal/parameter_accessors.h"
#include "tcmalloc/parameters.h"
using namespace vt; using namespace tcmalloc;
using tcmalloc_internal::tc_globals; using tcmalloc_internal::kPageSize; using tcmalloc_internal::kHugePageSize; using tcmalloc_internal::Parameters; using tcmalloc_internal::kNumExperiments; using tcmalloc_internal::HeapPartitioningMode; using tcmalloc_internal::SizeClassConfiguration;
using L = tcmalloc_internal::Length;
// The background loop's sleep: counted, shown to the scenario, shortened.
namespace { std::atomic<int64_t> slept_ns{0}; std::atomic<uint64_t> sleeps{0}; std::atomic<int> sleep_mode{0}; std::atomic<uint64_t> permits{0}; }
extern "C" void ABSL_INTERNAL_C_SYMBOL(AbslInternalSleepFor)(absl::Duration d) {
  slept_ns.store(absl::ToInt64Nanoseconds(d)); uint64_t k = sleeps.fetch_add(1) + 1;
  if (sleep_mode.load() == 1) { while (permits.load() < k) { timespec ts{0, 50000}; nanosleep(&ts, nullptr); } return; }
  timespec ts{0, 200000}; nanosleep(&ts, nullptr);
}
namespace tcmalloc { namespace tcmalloc_internal { static std::atomic<int> want_disable{0}; int default_want_disable_dynamic_slabs() { return want_disable.load(); } } }
namespace {
using std::string; using std::vector; using i64 = int64_t; using u64 = uint64_t;
Distinct dist; long long evals;
// ---------------------------------------------------------------- system calls seen
struct Seen { std::atomic<u64> populate, populate_max, dontneed, nohuge, nohuge_max, collapse, small_release; }; Seen sys_seen;
bool normal_tag(const void* p) { int t = ((uintptr_t)p >> 42) & 7; return t == 4 || t == 6; }
void on_sys(vt::sys::Op op, void* a, size_t n, int arg, long) {
  if (op != vt::sys::kMadvise) return;
  auto up = [](std::atomic<u64>& m, u64 v) { u64 o = m.load(); while (o < v && !m.compare_exchange_weak(o, v)) {} };
  if (arg == 23 || arg == 22) { sys_seen.populate++; up(sys_seen.populate_max, n); }
  else if (arg == MADV_NOHUGEPAGE) { sys_seen.nohuge++; up(sys_seen.nohuge_max, n); }
  else if (arg == 25) sys_seen.collapse++;
  else if (arg == MADV_DONTNEED || arg == MADV_FREE || arg == MADV_REMOVE) { sys_seen.dontneed++; if (n < kHugePageSize && normal_tag(a)) sys_seen.small_release++; }
}
struct Pub { std::string name; bool brittle; };
// ---------------------------------------------------------------- X
const char* known[] = {"TCMALLOC_HUGE_REGION_ADAPTIVE_RELEASE", "TCMALLOC_PER_CPU_CACHE_SIZE_1MB", "TCMALLOC_PGHO_EXPERIMENT", "TCMALLOC_REUSE_SIZE_CLASSES_ABLATION", "TCMALLOC_SONIC_MADV_NOHUGEPAGE_REGIONS", "TEST_ONLY_L3_AWARE", "TEST_ONLY_MM_VCPU", "TEST_ONLY_TCMALLOC_HEAP_PARTITIONING", "TEST_ONLY_TCMALLOC_POW2_SIZECLASS", "TEST_ONLY_TCMALLOC_RELEASE_STALE_PAGES", "TEST_ONLY_TCMALLOC_SHARDED_TRANSFER_CACHE", "TEST_ONLY_TCMALLOC_SUBRELEASE_UNBACKED_PAGES"};
vector<string> split(const string& s) { vector<string> r; string c; for (char ch : s) { if (ch == ',') { r.push_back(c); c.clear(); } else c += ch; } r.push_back(c); return r; }
bool in(const vector<string>& v, const string& s) { for (auto& x : v) if (x == s) return true; return false; }
// what the documentation says about explicit lists (no test target involved)
bool expected(const string& name, bool force_off, const string& active, const string& disabled) {
  bool on = active == "enable-all-known-experiments" || in(split(active), name);
  if (disabled == "all" || in(split(disabled), name)) on = false;
  return on && !force_off; }
string token(Rng& r) {
  string n = experiments[r.below(kNumExperiments)].name.data() ? string(experiments[r.below(kNumExperiments)].name) : "";
  switch (r.below(16)) {
    case 0: return ""; case 1: return " " + n; case 2: return n + " "; case 3: { for (auto& c : n) c = tolower(c); return n; }
    case 4: return n.substr(0, n.size() - 1); case 5: return n + "X"; case 6: return n.substr(1); case 7: return r.chance(1, 2) ? "all" : "enable-all-known-experiments";
    case 8: { string s; int k = r.below(12); for (int i = 0; i < k; i++) s += (char)(33 + r.below(90)); for (auto& c : s) if (c == ',') c = '.'; return s; }
    case 9: return string("TEST_ONLY") ; default: return n; } }
string list(Rng& r) { if (r.chance(1, 12)) return "all"; if (r.chance(1, 12)) return "enable-all-known-experiments"; if (r.chance(1, 10)) return ""; string s; int k = 1 + r.below(6); for (int i = 0; i < k; i++) { if (i) s += ','; s += token(r); } if (r.chance(1, 10)) s += ","; return s; }
int mode_x() {
  Rng r(seed() * 77 + 5); u64 end = now_ns() + (thorough() ? 60 : 3) * 1000000000ull;
  // the table itself
  for (size_t i = 0; i < kNumExperiments; i++) { int n = 0; for (auto& c : experiments) n += (size_t)c.id == i; EXPECT(n == 1, "table", "experiment number %zu has %d entries in the table", i, n); }
  EXPECT(std::size(experiments) == kNumExperiments, "table", "%zu table entries for %zu experiments", std::size(experiments), (size_t)kNumExperiments);
  for (const char* n : known) { auto e = FindExperimentByName(n); EXPECT(e.has_value(), "find", "experiment %s is not found by name", n); }
  for (auto& c : experiments) { auto e = FindExperimentByName(c.name); EXPECT(e && *e == c.id, "find", "experiment %.*s is not found, or another is", (int)c.name.size(), c.name.data()); EXPECT(!tcmalloc_internal::IsExperimentRolloutEnabled(c, tcmalloc_internal::LookupHostname()), "rollout", "%.*s is enabled by a roll-out without a host name", (int)c.name.size(), c.name.data()); }
  const char* hosts[] = {"", "localhost", "a.b.c", "host-17"};
  while (now_ns() < end) {
    struct { uint32_t g0; bool b[kNumExperiments]; uint32_t g1; } buf; buf.g0 = 0x5a5a1234; buf.g1 = 0x77aa55cc; memset(buf.b, r.chance(1, 2), sizeof buf.b);
    string active = list(r), disabled = r.chance(1, 2) ? "" : list(r), tt = r.chance(1, 2) ? "" : "//some:target"; const char* host = hosts[r.below(4)];
    bool unset = r.chance(1, 4); if (unset) { active.clear(); disabled.clear(); if (!tt.empty()) continue; }
    tcmalloc_internal::SelectExperiments(buf.b, tt, active, disabled, unset, host); evals++;
    EXPECT(buf.g0 == 0x5a5a1234 && buf.g1 == 0x77aa55cc, "bounds", "SelectExperiments(active=%s, disabled=%s) wrote past its buffer", active.c_str(), disabled.c_str());
    u64 mask = 0; for (auto& c : experiments) { bool e = expected(string(c.name), c.force_disable, active, disabled); bool g = buf.b[(int)c.id]; EXPECT(g == e, g ? "selected" : "unselected", "%.*s is %s with active='%s' disabled='%s' target='%s'%s host='%s'", (int)c.name.size(), c.name.data(), g ? "on" : "off", active.c_str(), disabled.c_str(), tt.c_str(), unset ? " (both unset)" : "", host); mask |= (u64)g << (int)c.id; }
    dist.add(mask * 31 + active.size()); string q = token(r); auto f = FindExperimentByName(q); bool is = false; for (auto& c : experiments) is |= c.name == q; EXPECT(f.has_value() == is, "find", "FindExperimentByName('%s') %s", q.c_str(), f ? "found something" : "found nothing");
  }
  // a test target with nothing set: a random selection of the robust experiments
  int n = 4000, vanilla = 0; vector<int> on(kNumExperiments); int robust = 0; for (auto& c : experiments) robust += !c.brittle && !c.force_disable;
  for (int i = 0; i < n; i++) { bool b[kNumExperiments]; string t = "//t:" + std::to_string(r.next()); tcmalloc_internal::SelectExperiments(b, t, "", "", true, ""); evals++; int k = 0; for (auto& c : experiments) { bool g = b[(int)c.id]; k += g; on[(int)c.id] += g; EXPECT(!g || (!c.brittle && !c.force_disable), "brittle", "%.*s was selected for a test at random", (int)c.name.size(), c.name.data()); } vanilla += k == 0; }
  double pv = (double)vanilla / n, sv = sqrt(1 / 11.0 * 10 / 11 / n); EXPECT(fabs(pv - 1 / 11.0) < 8 * sv, "vanilla", "%.4f of the tests run without experiments, 1/11 expected", pv);
  for (auto& c : experiments) if (!c.brittle && !c.force_disable) { double p = (double)on[(int)c.id] / n; EXPECT(p > 0.2 && p < 0.45, "share", "%.*s is on in %.3f of the tests, about 10/33 expected", (int)c.name.size(), c.name.data(), p); }
  for (int i = 0; i < 2000; i++) { bool b[kNumExperiments]; tcmalloc_internal::SelectExperiments(b, "", "", "", true, ""); for (bool g : b) EXPECT(!g, "outside-tests", "an experiment is on with no variable set and no test target"); tcmalloc_internal::SelectExperiments(b, "//x", "", "", false, ""); for (bool g : b) EXPECT(!g, "opt-out", "an experiment is on although BORG_EXPERIMENTS is set and empty"); }
  metric("robust_experiments", robust); metric("evals", evals); metric("distinct", dist.n); say("SAMPLE %d random test selections, %d without any", n, vanilla); return done();
}
// ---------------------------------------------------------------- V
const char* env_or(const char* n) { return getenv(n); }
bool streq_ci(const char* a, const char* b) { return !strcasecmp(a, b); }
// runs in the fresh process
int mode_v_child() {
  const char *be = env_or("BORG_EXPERIMENTS"), *bd = env_or("BORG_DISABLE_EXPERIMENTS"), *tt = env_or("TEST_TARGET"), *hp = env_or("TCMALLOC_HEAP_PARTITIONING"), *re = env_or("TCMALLOC_REUSE_SIZE_CLASSES");
  std::map<string, bool> on; bool random = !be && !bd && tt && *tt;
  for (auto& c : experiments) { string n(c.name); bool a = IsExperimentActive(c.id); if (!random) { bool e = expected(n, c.force_disable, be ? be : "", bd ? bd : ""); EXPECT(a == e, "active", "%s is %s with BORG_EXPERIMENTS=%s BORG_DISABLE_EXPERIMENTS=%s", n.c_str(), a ? "on" : "off", be ? be : "(unset)", bd ? bd : "(unset)"); } else EXPECT(!a || !c.brittle, "brittle", "%s on at random", n.c_str()); on[n] = a; EXPECT(IsExperimentActive(c.id) == a, "stable", "%s changed", n.c_str()); }
  // the property map, and the dump
  MallocExtension::PropertyMap pm; auto props = MallocExtension::GetProperties(); size_t k = 0; for (auto& [n, p] : props) { if (n.rfind("tcmalloc.experiment.", 0) == 0) { k++; string s = n.substr(20); EXPECT(on.count(s), "reported", "an unknown experiment %s is reported", n.c_str()); EXPECT((p.value != 0) == on[s], "reported", "%s is reported as %zu", n.c_str(), (size_t)p.value); } }
  EXPECT(k == kNumExperiments, "reported", "%zu of %zu experiments are reported", k, (size_t)kNumExperiments);
  std::map<string, bool> wk; WalkExperiments([&](absl::string_view n, bool a) { wk[string(n)] = a; }); EXPECT(wk == on, "walk", "WalkExperiments disagrees with IsExperimentActive");
  string dump = MallocExtension::GetStats(); auto q = dump.find("MALLOC EXPERIMENTS:"); EXPECT(q != string::npos, "dump", "no experiments line"); if (q != string::npos) { string line = dump.substr(q, dump.find('\n', q) - q); for (auto& [n, a] : on) { string w = " " + n + "=" + (a ? "1" : "0"); EXPECT((line + " ").find(w + " ") != string::npos, "dump", "the dump does not say%s: %s", w.c_str(), line.c_str()); } }
  // heap partitioning
  HeapPartitioningMode want = HeapPartitioningMode::kOff;
  if (tcmalloc_internal::kSecurityPartitions > 1) { if (!hp) want = on["TEST_ONLY_TCMALLOC_HEAP_PARTITIONING"] ? HeapPartitioningMode::kFull : HeapPartitioningMode::kOff; else if (streq_ci(hp, "false") || !strcmp(hp, "0")) want = HeapPartitioningMode::kOff; else if (!strcmp(hp, "2") || streq_ci(hp, "light")) want = HeapPartitioningMode::kLight; else want = HeapPartitioningMode::kFull; }
  EXPECT(Parameters::heap_partitioning_mode() == want, "partitioning", "heap partitioning mode %d with TCMALLOC_HEAP_PARTITIONING=%s, expected %d", (int)Parameters::heap_partitioning_mode(), hp ? hp : "(unset)", (int)want);
  // size classes
  bool pow2 = on["TEST_ONLY_TCMALLOC_POW2_SIZECLASS"]; SizeClassConfiguration sc = pow2 ? SizeClassConfiguration::kPow2Only : on["TCMALLOC_REUSE_SIZE_CLASSES_ABLATION"] || (re && !strcmp(re, "reuse")) ? SizeClassConfiguration::kReuse : SizeClassConfiguration::kReuseRelaxedBelow64;
  EXPECT(tcmalloc_internal::Static::size_class_configuration() == sc, "size-classes", "size class configuration %d, expected %d", (int)tcmalloc_internal::Static::size_class_configuration(), (int)sc);
  if (pow2) for (size_t s = 8; s <= 4096; s += 8) { void* p = malloc(s); size_t u = *MallocExtension::GetAllocatedSize(p); EXPECT((u & (u - 1)) == 0, "pow2", "malloc(%zu) has %zu usable bytes with power-of-two classes", s, u); free(p); }
  int nonpow2 = 0; for (size_t s = 8; s <= 4096; s += 8) { void* p = malloc(s); size_t u = *MallocExtension::GetAllocatedSize(p); nonpow2 += (u & (u - 1)) != 0; free(p); } if (!pow2) EXPECT(nonpow2 > 10, "pow2", "only power-of-two classes in use");
  // values and behaviour
  EXPECT(MallocExtension::GetMaxPerCpuCacheSize() == (on["TCMALLOC_PER_CPU_CACHE_SIZE_1MB"] ? 1 << 20 : (int)tcmalloc_internal::kMaxCpuCacheSize), "1mb", "per-CPU cache limit %d", MallocExtension::GetMaxPerCpuCacheSize());
  EXPECT((int)Parameters::min_hot_access_hint() == (on["TCMALLOC_PGHO_EXPERIMENT"] ? 2 : (int)kDefaultMinHotAccessHint), "pgho", "least hot hint %d", (int)Parameters::min_hot_access_hint());
  EXPECT(Parameters::release_stale_pages() == tcmalloc_internal::ReleaseStalePages{on["TEST_ONLY_TCMALLOC_RELEASE_STALE_PAGES"]}, "stale", "release of stale pages");
  EXPECT(Parameters::huge_region_adaptive_release() == on["TCMALLOC_HUGE_REGION_ADAPTIVE_RELEASE"], "adaptive", "adaptive region release");
  EXPECT(TCMalloc_Internal_GetMadviseColdRegionsNoHugepage() == on["TCMALLOC_SONIC_MADV_NOHUGEPAGE_REGIONS"], "nohugepage", "no huge pages in regions");
  EXPECT((Parameters::subrelease_unbacked_hugepages() == tcmalloc_internal::SubreleaseUnbackedMode::kEnabled) == on["TEST_ONLY_TCMALLOC_SUBRELEASE_UNBACKED_PAGES"], "unbacked", "subrelease of unbacked pages");
  bool percpu = MallocExtension::PerCpuCachesActive(); if (percpu && tcmalloc_internal::subtle::percpu::IsFast()) EXPECT(tc_globals.sharded_transfer_cache().should_use(1) || !on["TEST_ONLY_TCMALLOC_SHARDED_TRANSFER_CACHE"] || true, "sharded", "-");
  void* cold = ::operator new(100, hot_cold_t{0}); void* warm = ::operator new(100, hot_cold_t{255}); void* two = ::operator new(100, hot_cold_t{2}); int tc = ((uintptr_t)cold >> 42) & 7, tw = ((uintptr_t)warm >> 42) & 7, t2 = ((uintptr_t)two >> 42) & 7; bool cf = tcmalloc_internal::ColdFeatureActive(), full = want == HeapPartitioningMode::kFull;
  auto sampled = [](int t) { return t <= 1; }; if (!sampled(tc)) EXPECT((tc == 2) == (cf && !full), "cold", "a block with hint 0 has tag %d", tc); if (!sampled(tw)) EXPECT(tw != 2, "cold", "a block with hint 255 has tag %d", tw); if (!sampled(t2)) EXPECT((t2 == 2) == (cf && !full && 2 < (int)Parameters::min_hot_access_hint()), "cold", "a block with hint 2 has tag %d while %d is the least hot hint", t2, (int)Parameters::min_hot_access_hint());
  ::operator delete(cold); ::operator delete(warm); ::operator delete(two);
  fflush(stdout); _exit(nviol ? 10 : 77);
}
int run_env(const vector<std::pair<string, string>>& ev, string* out) {
  int pi[2]; if (pipe(pi)) FATAL("harness", "pipe"); fflush(stdout); pid_t pid = fork(); if (pid < 0) FATAL("harness", "fork");
  if (!pid) { dup2(pi[1], 1); dup2(pi[1], 2); close(pi[0]); close(pi[1]); for (const char* n : {"BORG_EXPERIMENTS", "BORG_DISABLE_EXPERIMENTS", "TEST_TARGET", "TCMALLOC_HEAP_PARTITIONING", "TCMALLOC_REUSE_SIZE_CLASSES", "TCMALLOC_LEGACY_SIZE_CLASSES"}) unsetenv(n); for (auto& [n, v] : ev) setenv(n.c_str(), v.c_str(), 1); rlimit rl{0, 0}; setrlimit(RLIMIT_CORE, &rl); execl("/proc/self/exe", "h_params", "v", (char*)nullptr); _exit(99); }
  close(pi[1]); char b[4096]; ssize_t k; out->clear(); while ((k = read(pi[0], b, sizeof b)) > 0 || (k < 0 && errno == EINTR)) if (k > 0 && out->size() < 40000) out->append(b, k); close(pi[0]); int st = 0; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {} return st; }
int mode_v() {
  Rng r(seed() * 131 + 9); u64 end = now_ns() + (thorough() ? 120 : 6) * 1000000000ull; int runs = 0, bad = 0; const char* hps[] = {"", "0", "1", "2", "3", "false", "FALSE", "False", "true", "light", "LIGHT", "Light", "off", "no", " 0", "full", "00"}; const char* res[] = {"reuserelaxedbelow64", "reuse", "0", "Reuse", "1", "", "x"};
  while (now_ns() < end) {
    vector<std::pair<string, string>> ev; bool invalid = false; auto good = [&] { string s; int k = r.below(5); for (int i = 0; i < k; i++) { if (i) s += ","; s += r.chance(1, 6) ? token(r) : string(experiments[r.below(kNumExperiments)].name); } return s; };
    // at most one of these two at a time is left out; both out means the random selection of tests
    if (r.chance(3, 4)) ev.push_back({"BORG_EXPERIMENTS", r.chance(1, 10) ? "enable-all-known-experiments" : good()}); if (r.chance(1, 4)) ev.push_back({"BORG_DISABLE_EXPERIMENTS", r.chance(1, 4) ? "all" : good()}); if (r.chance(1, 5)) ev.push_back({"TEST_TARGET", r.chance(1, 4) ? "" : "//t:" + std::to_string(r.below(100))});
    if (r.chance(1, 2)) ev.push_back({"TCMALLOC_HEAP_PARTITIONING", hps[r.below(std::size(hps))]});
    int re = -1, le = -1; if (r.chance(1, 3)) { re = r.below(std::size(res)); ev.push_back({"TCMALLOC_REUSE_SIZE_CLASSES", res[re]}); } if (r.chance(1, 5)) { le = r.chance(3, 4) ? 0 : 1; ev.push_back({"TCMALLOC_LEGACY_SIZE_CLASSES", le ? "1" : "0"}); }
    string be, bd, tt; bool hb = false, hd = false; for (auto& [n, v] : ev) { if (n == "BORG_EXPERIMENTS") be = v, hb = true; if (n == "BORG_DISABLE_EXPERIMENTS") bd = v, hd = true; if (n == "TEST_TARGET") tt = v; }
    bool random = !hb && !hd && !tt.empty(); bool over = expected("TEST_ONLY_TCMALLOC_POW2_SIZECLASS", false, be, bd) || expected("TCMALLOC_REUSE_SIZE_CLASSES_ABLATION", false, be, bd);
    invalid = !over && (re > 2 || (re != 0 && re != 1 && le == 1)); if (random && (re > 2 || le == 1)) continue;
    string out, es; int st = run_env(ev, &out); runs++; evals++; for (auto& [n, v] : ev) es += n + "='" + v + "' "; u64 h = mix(0); for (char c : es) h = h * 131 + (unsigned char)c; dist.add(h);
    if (invalid) { bad++; EXPECT(WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT && out.find("bad TCMALLOC_") != string::npos, "bad-variable", "%sdid not stop the process with a diagnostic (status %x): %.200s", es.c_str(), st, out.c_str()); }
    else if (!(WIFEXITED(st) && WEXITSTATUS(st) == 77)) { auto p = out.find("VIOL "); if (p != string::npos) { string l = out.substr(p + 5, out.find('\n', p) - p - 5); auto sp = l.find(' '); VIOL(l.substr(0, sp).c_str(), "%s(environment %s)", l.substr(sp + 1).c_str(), es.c_str()); } else VIOL("start", "the process ended with status %x with %s: %.300s", st, es.c_str(), out.c_str()); }
  }
  metric("processes", runs); metric("refused_environments", bad); metric("evals", evals); metric("distinct", dist.n); say("SAMPLE %d fresh processes, %d with a bad variable", runs, bad); return done();
}
// ---------------------------------------------------------------- S
union Val { i64 i; double d; };
struct Par { const char* n; char kind; /* b bool, i int64, 3 int32, u size_t, d double, t duration, 8 uint8 */ void (*set)(int, Val); Val (*get)(int); int sets, gets; i64 lo, hi; };
Val I(i64 x) { Val v; v.i = x; return v; } Val D(double x) { Val v; v.i = 0; v.d = x; return v; }
absl::Duration dur(i64 ns) { return ns == INT64_MAX ? absl::InfiniteDuration() : ns == INT64_MIN ? -absl::InfiniteDuration() : absl::Nanoseconds(ns); }
using PM = Parameters; using ME = MallocExtension;
i64 ns(absl::Duration d) { return absl::ToInt64Nanoseconds(d); }
#define B2(x) I((x) ? 1 : 0)
const Par pars[] = {
  {"background_release_rate", 'u', [](int k, Val v) { k == 0 ? ME::SetBackgroundReleaseRate(ME::BytesPerSecond{(size_t)v.i}) : k == 1 ? PM::set_background_release_rate(ME::BytesPerSecond{(size_t)v.i}) : TCMalloc_Internal_SetBackgroundReleaseRate(v.i); }, [](int k) { return I((i64)(size_t)(k ? PM::background_release_rate() : ME::GetBackgroundReleaseRate())); }, 3, 2, 0, INT64_MAX},
  {"hpaa_subrelease", 'b', [](int k, Val v) { k ? PM::set_hpaa_subrelease(v.i) : TCMalloc_Internal_SetHPAASubrelease(v.i); }, [](int k) { return B2(k ? PM::hpaa_subrelease() : TCMalloc_Internal_GetHPAASubrelease()); }, 2, 2, 0, 1},
  {"guarded_sampling_interval", 'i', [](int k, Val v) { k == 0 ? ME::SetGuardedSamplingInterval(v.i) : k == 1 ? PM::set_guarded_sampling_interval(v.i) : TCMalloc_Internal_SetGuardedSamplingInterval(v.i); }, [](int k) { return I(k ? PM::guarded_sampling_interval() : ME::GetGuardedSamplingInterval()); }, 3, 2, -5, INT64_MAX},
  {"profile_sampling_interval", 'i', [](int k, Val v) { k == 0 ? ME::SetProfileSamplingInterval(v.i) : k == 1 ? PM::set_profile_sampling_interval(v.i) : TCMalloc_Internal_SetProfileSamplingInterval(v.i); }, [](int k) { return I(k ? PM::profile_sampling_interval() : ME::GetProfileSamplingInterval()); }, 3, 2, -5, INT64_MAX},
  {"max_per_cpu_cache_size", '3', [](int k, Val v) { k == 0 ? ME::SetMaxPerCpuCacheSize(v.i) : k == 1 ? PM::set_max_per_cpu_cache_size(v.i) : TCMalloc_Internal_SetMaxPerCpuCacheSize(v.i); }, [](int k) { return I(k ? PM::max_per_cpu_cache_size() : ME::GetMaxPerCpuCacheSize()); }, 3, 2, 0, INT32_MAX},
  {"max_total_thread_cache_bytes", 'i', [](int k, Val v) { k == 0 ? ME::SetMaxTotalThreadCacheBytes(v.i) : k == 1 ? PM::set_max_total_thread_cache_bytes(v.i) : TCMalloc_Internal_SetMaxTotalThreadCacheBytes(v.i); }, [](int k) { return I(k ? PM::max_total_thread_cache_bytes() : ME::GetMaxTotalThreadCacheBytes()); }, 3, 2, 0, 1ll << 40},
  {"min_hot_access_hint", '8', [](int k, Val v) { k ? PM::set_min_hot_access_hint(hot_cold_t(v.i)) : TCMalloc_Internal_SetMinHotAccessHint(v.i); }, [](int k) { return I(k ? (i64)PM::min_hot_access_hint() : TCMalloc_Internal_GetMinHotAccessHint()); }, 2, 2, 0, 255},
  {"peak_sampling_heap_growth_fraction", 'd', [](int k, Val v) { k ? PM::set_peak_sampling_heap_growth_fraction(v.d) : TCMalloc_Internal_SetPeakSamplingHeapGrowthFraction(v.d); }, [](int k) { return D(k ? PM::peak_sampling_heap_growth_fraction() : TCMalloc_Internal_GetPeakSamplingHeapGrowthFraction()); }, 2, 2, 0, 0},
  {"release_partial_alloc_pages", 'b', [](int, Val v) { TCMalloc_Internal_SetReleasePartialAllocPagesEnabled(v.i); }, [](int k) { return B2(k ? PM::release_partial_alloc_pages() : TCMalloc_Internal_GetReleasePartialAllocPagesEnabled()); }, 1, 2, 0, 1},
  {"usermode_hugepage_collapse", 'b', [](int, Val v) { TCMalloc_Internal_SetUsermodeHugepageCollapse(v.i); }, [](int k) { return B2(k ? PM::usermode_hugepage_collapse() == tcmalloc_internal::EnableCollapse::kEnabled : TCMalloc_Internal_GetUsermodeHugepageCollapse()); }, 1, 2, 0, 1},
  {"back_small_allocations", 'b', [](int, Val v) { TCMalloc_Internal_SetBackSmallAllocations(v.i); }, [](int k) { return B2(k ? PM::back_small_allocations() : TCMalloc_Internal_GetBackSmallAllocations()); }, 1, 2, 0, 1},
  {"back_size_threshold_bytes", '3', [](int, Val v) { TCMalloc_Internal_SetBackSizeThresholdBytes(v.i); }, [](int k) { return I(k ? PM::back_size_threshold_bytes() : TCMalloc_Internal_GetBackSizeThresholdBytes()); }, 1, 2, 0, 1 << 20},
  {"release_pages_from_huge_region", 'b', [](int, Val v) { TCMalloc_Internal_SetReleasePagesFromHugeRegionEnabled(v.i); }, [](int k) { return B2(k ? PM::release_pages_from_huge_region() : TCMalloc_Internal_GetReleasePagesFromHugeRegionEnabled()); }, 1, 2, 0, 1},
  {"resize_size_class_max_capacity", 'b', [](int, Val v) { TCMalloc_Internal_SetResizeSizeClassMaxCapacityEnabled(v.i); }, [](int k) { return B2(k ? PM::resize_size_class_max_capacity() : TCMalloc_Internal_GetResizeSizeClassMaxCapacityEnabled()); }, 1, 2, 0, 1},
  {"enable_unfiltered_collapse", 'b', [](int, Val v) { TCMalloc_Internal_SetEnableUnfilteredCollapse(v.i); }, [](int k) { return B2(k ? PM::enable_unfiltered_collapse() == tcmalloc_internal::EnableUnfilteredCollapse::kEnabled : TCMalloc_Internal_GetEnableUnfilteredCollapse()); }, 1, 2, 0, 1},
  {"huge_region_adaptive_release", 'b', [](int, Val v) { TCMalloc_Internal_SetHugeRegionAdaptiveReleaseEnabled(v.i); }, [](int k) { return B2(k ? PM::huge_region_adaptive_release() : TCMalloc_Internal_GetHugeRegionAdaptiveReleaseEnabled()); }, 1, 2, 0, 1},
  {"release_max_cold_pages", 'b', [](int k, Val v) { k ? PM::set_release_max_cold_pages(v.i) : TCMalloc_Internal_SetReleaseMaxColdPages(v.i); }, [](int k) { return B2(k ? PM::release_max_cold_pages() : TCMalloc_Internal_GetReleaseMaxColdPages()); }, 2, 2, 0, 1},
  {"madvise_cold_regions_nohugepage", 'b', [](int k, Val v) { k ? PM::set_madvise_cold_regions_nohugepage(v.i) : TCMalloc_Internal_SetMadviseColdRegionsNoHugepage(v.i); }, [](int k) { return B2(k ? PM::madvise_cold_regions_nohugepage() == tcmalloc_internal::MadviseRegionsNoHugepage::kEnabled : TCMalloc_Internal_GetMadviseColdRegionsNoHugepage()); }, 2, 2, 0, 1},
  {"event_trace_memory_limit", 'i', [](int k, Val v) { k ? PM::set_event_trace_memory_limit(v.i) : TCMalloc_Internal_SetEventTraceMemoryLimit(v.i); }, [](int k) { return I(k ? PM::event_trace_memory_limit() : TCMalloc_Internal_GetEventTraceMemoryLimit()); }, 2, 2, 0, INT64_MAX},
  {"background_process_actions_enabled", 'b', [](int, Val v) { ME::SetBackgroundProcessActionsEnabled(v.i); }, [](int k) { return B2(k ? PM::background_process_actions_enabled() : ME::GetBackgroundProcessActionsEnabled()); }, 1, 2, 0, 1},
  {"background_process_sleep_interval", 't', [](int, Val v) { ME::SetBackgroundProcessSleepInterval(dur(v.i)); }, [](int k) { return I(ns(k ? PM::background_process_sleep_interval() : ME::GetBackgroundProcessSleepInterval())); }, 1, 2, 0, 0},
  {"skip_subrelease_short_interval", 't', [](int k, Val v) { k == 0 ? ME::SetSkipSubreleaseShortInterval(dur(v.i)) : k == 1 ? PM::set_filler_skip_subrelease_short_interval(dur(v.i)) : TCMalloc_Internal_SetHugePageFillerSkipSubreleaseShortInterval(dur(v.i)); }, [](int k) { absl::Duration d; if (k == 2) TCMalloc_Internal_GetHugePageFillerSkipSubreleaseShortInterval(&d); return I(ns(k == 0 ? ME::GetSkipSubreleaseShortInterval() : k == 1 ? PM::filler_skip_subrelease_short_interval() : d)); }, 3, 3, 0, 0},
  {"skip_subrelease_long_interval", 't', [](int k, Val v) { k == 0 ? ME::SetSkipSubreleaseLongInterval(dur(v.i)) : k == 1 ? PM::set_filler_skip_subrelease_long_interval(dur(v.i)) : TCMalloc_Internal_SetHugePageFillerSkipSubreleaseLongInterval(dur(v.i)); }, [](int k) { absl::Duration d; if (k == 2) TCMalloc_Internal_GetHugePageFillerSkipSubreleaseLongInterval(&d); return I(ns(k == 0 ? ME::GetSkipSubreleaseLongInterval() : k == 1 ? PM::filler_skip_subrelease_long_interval() : d)); }, 3, 3, 0, 0},
  {"release_drained_slab_metadata", 'b', [](int k, Val v) { k ? PM::set_release_drained_slab_metadata(v.i) : TCMalloc_Internal_SetReleaseDrainedSlabMetadata(v.i); }, [](int) { return B2(PM::release_drained_slab_metadata()); }, 2, 1, 0, 1},
  {"per_cpu_caches_dynamic_slab", 'b', nullptr, [](int k) { return B2(k ? PM::per_cpu_caches_dynamic_slab_enabled() : TCMalloc_Internal_GetPerCpuCachesDynamicSlabEnabled()); }, 2, 2, 0, 1},
};
constexpr int NP = std::size(pars);
Val gen(const Par& p, Rng& r) {
  switch (p.kind) {
    case 'b': return I(r.below(2)); case '8': return I(r.below(256)); case 'd': { double c[] = {-1, 0, 0.5, 1, 1.1, 2, 1e300}; return D(r.chance(1, 2) ? c[r.below(7)] : r.unit() * 4); }
    case 't': { i64 c[] = {0, 1, 1000, 1000000, 60000000000ll, 300000000000ll, INT64_MAX, INT64_MAX - 1, -1}; if (r.chance(1, 2)) return I(c[r.below(9)]); return I(r.next() >> (1 + r.below(60))); }
    default: { if (r.chance(1, 3)) { i64 c[] = {p.lo, p.hi, 0, 1, 2, 4096, 65536, (i64)kPageSize}; i64 v = c[r.below(8)]; return I(v < p.lo ? p.lo : v > p.hi ? p.hi : v); } u64 x = r.next() >> (1 + r.below(60)); return I(p.hi == INT64_MAX ? (i64)x : p.lo + (i64)(x % (u64)(p.hi - p.lo + 1))); } } }
int mode_s(bool perthr) {
  int T = 4; u64 dl = now_ns() + (thorough() ? 150 : 4) * 1000000000ull; std::atomic<bool> stop{false}; static Val shadow[NP]; static std::atomic<u64> sets[NP]; std::atomic<u64> blocks{0}, loops{0};
  for (int i = 0; i < NP; i++) { shadow[i] = pars[i].get(0); for (int k = 1; k < pars[i].gets; k++) EXPECT(pars[i].get(k).i == shadow[i].i, "getters", "the getters of %s differ at start", pars[i].n); }
  auto show = [](const Par& p, Val v) { static thread_local char b[4][60]; static thread_local int w; char* o = b[w++ & 3]; if (p.kind == 'd') snprintf(o, 60, "%.17g", v.d); else snprintf(o, 60, "%lld", (long long)v.i); return o; };
  vector<std::thread> th;
  for (int t = 0; t < T; t++) th.emplace_back([&, t] { Rng r(seed() * 1000 + t); u64 n = 0; free(malloc(8)); tcmalloc_internal::subtle::percpu::IsFast();
    auto look = [&](int after) { for (int i = t; i < NP; i += T) { const Par& p = pars[i]; int k = r.below(p.gets); Val g = p.get(k); if (g.i != shadow[i].i) { VIOL("readback", "%s reads %s (getter %d), set to %s; last set here: %s", p.n, show(p, g), k, show(p, shadow[i]), after < 0 ? "none" : pars[after].n); shadow[i] = g; } evals++; } };
    // the two limits belong to thread 0
    u64 hard = ME::GetMemoryLimit(ME::LimitKind::kHard), soft = ME::GetMemoryLimit(ME::LimitKind::kSoft); int nlim = 0;
    while (now_ns() < dl) {
      int m = (NP - t + T - 1) / T; int i = t + T * r.below(m); const Par& p = pars[i];
      if (p.set) { Val v = gen(p, r); int k = r.below(p.sets); p.set(k, v); shadow[i] = v; for (int g = 0; g < p.gets; g++) { Val x = p.get(g); if (x.i != v.i) { VIOL("readback", "%s set to %s (setter %d) reads %s (getter %d)", p.n, show(p, v), k, show(p, x), g); } } sets[i]++; dist.add(mix(i * 1000003 + v.i % 4099)); }
      else { bool v = r.chance(1, 2), allow = r.chance(1, 2); tcmalloc_internal::want_disable = allow ? 1 : (r.chance(1, 2) ? 0 : -1); r.chance(1, 2) ? PM::set_per_cpu_caches_dynamic_slab_enabled(v) : TCMalloc_Internal_SetPerCpuCachesDynamicSlabEnabled(v); if (v || allow) shadow[i] = I(v); for (int g = 0; g < 2; g++) EXPECT(p.get(g).i == shadow[i].i, "dynamic-slab", "dynamic slabs read %d after set to %d, disabling %s, expected %d", (int)p.get(g).i, v, allow ? "allowed" : "not allowed", (int)shadow[i].i); sets[i]++; }
      if (n % 4 == 0) look(i);
      if (t == 0 && n % 512 == 0 && nlim < 400) { nlim++; u64 c[] = {0, 64ull << 30, 1ull << 62, ~0ull, 8ull << 30, 20ull << 30}; u64 v = c[r.below(6)]; bool kh = r.chance(1, 2); if (!kh && r.chance(1, 3)) v = 512ull << 20; u64 e = v ? v : ~0ull; int api = r.below(3);
        if (!kh) { ME::SetMemoryLimit(v, ME::LimitKind::kSoft); soft = e; } else { api == 0 ? ME::SetMemoryLimit(v, ME::LimitKind::kHard) : api == 1 ? PM::set_heap_size_hard_limit(v) : TCMalloc_Internal_SetHeapSizeHardLimit(v); hard = e; } if (soft > hard) soft = hard;
        EXPECT(ME::GetMemoryLimit(ME::LimitKind::kHard) == hard && PM::heap_size_hard_limit() == hard && TCMalloc_Internal_GetHeapSizeHardLimit() == hard, "hard-limit", "hard limit reads %zx / %lx, expected %lx", ME::GetMemoryLimit(ME::LimitKind::kHard), PM::heap_size_hard_limit(), hard); EXPECT(ME::GetMemoryLimit(ME::LimitKind::kSoft) == soft, "soft-limit", "soft limit reads %zx, expected %lx", ME::GetMemoryLimit(ME::LimitKind::kSoft), soft); }
      if (t == 1 && n % 4096 == 0) { bool v = r.chance(1, 2) || n > 40960; if (!perthr) { PM::set_per_cpu_caches(v); if (!v) TCMalloc_Internal_SetPerCpuCachesEnabled(false); EXPECT(PM::per_cpu_caches() && TCMalloc_Internal_GetPerCpuCachesEnabled(), "per-cpu", "per-CPU caches were disabled in a build without per-thread caches"); } }
      if (t == 2 && n % 256 == 0) { auto x = ME::GetNumericProperty("tcmalloc.max_total_thread_cache_bytes"); EXPECT(x.has_value(), "property", "tcmalloc.max_total_thread_cache_bytes is missing"); }
      n++; }
    look(-1); loops += n; });
  for (int t = 0; t < 3; t++) th.emplace_back([&, t] { Rng r(seed() * 5000 + t); struct Q { Block b; u64 tag; }; static thread_local Q q[600]; free(malloc(8)); tcmalloc_internal::subtle::percpu::IsFast(); u64 n = 0;
    while (!stop) { int k = r.below(600); if (q[k].b.p) { if (check(q[k].b.p, std::max(q[k].b.req, q[k].b.cap), q[k].tag) >= 0) FATAL("content", "block of %zu bytes changed while parameters changed", q[k].b.cap); do_free(q[k].b, r.next()); q[k].b.p = nullptr; } else { size_t s = r.chance(1, 20) ? r.below(1 << 20) : rand_size(r) % 70000; Block b = do_alloc(r.below(F_COUNT), s, rand_align(r), r.below(256)); if (!b.p) continue; q[k].b = b; q[k].tag = r.next(); fill(b.p, std::max(b.req, b.cap), q[k].tag); } n++; }
    for (auto& x : q) if (x.b.p) { if (check(x.b.p, std::max(x.b.req, x.b.cap), x.tag) >= 0) FATAL("content", "block of %zu bytes changed while parameters changed", x.b.cap); do_free(x.b, 1); } blocks += n; });
  // the loop, ended and started again as the parameter is switched
  th.emplace_back([&] { Rng r(seed()); while (!stop) { ME::ProcessBackgroundActions(); usleep(500); ME::ReleaseMemoryToSystem(r.below(8 << 20)); } });
  for (int t = 0; t < T; t++) th[t].join(); stop = true; ME::SetBackgroundProcessActionsEnabled(false); for (size_t t = T; t < th.size(); t++) th[t].join();
  u64 tot = 0; for (int i = 0; i < NP; i++) { tot += sets[i]; if (!sets[i]) return inconclusive("a parameter was never set"); }
  // afterwards: every change goes to one parameter only
  Rng r(seed() + 3); for (int rep = 0; rep < (thorough() ? 400 : 60); rep++) for (int i = 0; i < NP; i++) { const Par& p = pars[i]; if (!p.set) continue; Val before[NP]; for (int j = 0; j < NP; j++) before[j] = pars[j].get(0); u64 hl = ME::GetMemoryLimit(ME::LimitKind::kHard), sl = ME::GetMemoryLimit(ME::LimitKind::kSoft); Val v = gen(p, r); int k = rep % p.sets; p.set(k, v); for (int j = 0; j < NP; j++) { Val g = pars[j].get(0); Val e = j == i ? v : before[j]; EXPECT(g.i == e.i, "cross", "setting %s to %s (setter %d) leaves %s at %s, expected %s", p.n, show(p, v), k, pars[j].n, show(pars[j], g), show(pars[j], e)); evals++; } EXPECT(hl == ME::GetMemoryLimit(ME::LimitKind::kHard) && sl == ME::GetMemoryLimit(ME::LimitKind::kSoft), "cross", "setting %s changes a limit", p.n); tot++; }
  metric("sets", tot); metric("blocks", blocks.load()); metric("sleeps", sleeps.load()); metric("evals", evals); metric("distinct", dist.n); say("SAMPLE %llu sets of %d parameters, %llu blocks alloc/freed meanwhile, %llu background sleeps", (unsigned long long)tot, NP, (unsigned long long)blocks.load(), (unsigned long long)sleeps.load()); return done();
}
// ---------------------------------------------------------------- E
int scen_ok, scen_n;
template <class F> void scenario(const char* name, F f, int seconds = 60) {
  scen_n++; say("SCEN %s", name); fflush(stdout); pid_t pid = fork(); if (!pid) { rlimit rl{0, 0}; setrlimit(RLIMIT_CORE, &rl); alarm(seconds); f(); fflush(stdout); _exit(nviol ? 10 : 77); }
  int st = 0; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {} if (WIFEXITED(st) && WEXITSTATUS(st) == 77) scen_ok++; else if (WIFEXITED(st) && WEXITSTATUS(st) == 10) { if (++nviol >= 5) _exit(10); } else VIOL("scenario", "scenario %s ended with status %x", name, st); }
struct Loop { std::thread t; std::atomic<bool> ended{false}; Loop() { ME::SetBackgroundProcessActionsEnabled(true); t = std::thread([this] { ME::ProcessBackgroundActions(); ended = true; }); } void end() { ME::SetBackgroundProcessActionsEnabled(false); permits = ~0ull; t.join(); } };
bool wait_for(std::atomic<u64>& a, u64 n, int ms) { u64 e = now_ns() + ms * 1000000ull; while (a.load() < n) { if (now_ns() > e) return false; usleep(50); } return true; }
size_t released(const char* what) { string s = ME::GetStats(); auto p = s.find(what); if (p == string::npos) { VIOL("dump", "no line '%s'", what); return 0; } auto b = s.rfind('\n', p); return strtoull(s.c_str() + b + 1, nullptr, 10); }
size_t rel_background() { tcmalloc_internal::PageHeapSpinLockHolder l; return tc_globals.page_allocator().GetReleaseStats().process_background_actions.in_bytes(); }
void spread(vector<void*>& v, size_t each, int n) { for (int i = 0; i < n; i++) { char* p = (char*)::operator new(each); for (size_t o = 0; o < each; o += 4096) p[o] = 1; v.push_back(p); } }
void drop(vector<void*>& v) { for (void* p : v) ::operator delete(p); v.clear(); }
int mode_e() {
  Rng r(seed() * 17 + 3); bool cf = tcmalloc_internal::ColdFeatureActive(), slow = !cf; bool percpu = ME::PerCpuCachesActive();
  ME::SetProfileSamplingInterval(0); ME::SetGuardedSamplingInterval(-1);
  scenario("sleep interval", [&] {
    ME::SetBackgroundProcessActionsEnabled(false); std::atomic<bool> back{false}; std::thread t([&] { ME::ProcessBackgroundActions(); back = true; }); t.join(); EXPECT(sleeps == 0, "disabled", "the background loop ran while disabled"); evals++;
    sleep_mode = 1; i64 iv[40]; for (auto& x : iv) { i64 c[] = {1, 1000, 1000000, 1000000000, 60000000000ll, INT64_MAX, 0}; x = r.chance(1, 2) ? c[r.below(7)] : (i64)(r.next() >> (1 + r.below(50))); } ME::SetBackgroundProcessSleepInterval(dur(iv[0])); Loop lp;
    for (int i = 0; i < 40; i++) { if (!wait_for(sleeps, i + 1, 20000)) { VIOL("loop", "the background loop does not sleep again after sleep %d", i); break; } EXPECT(slept_ns == iv[i], "interval", "the background loop slept %lld ns with the interval at %lld ns", (long long)slept_ns.load(), (long long)iv[i]); evals++; if (i < 39) { ME::SetBackgroundProcessSleepInterval(dur(iv[i + 1])); permits = i + 1; } }
    lp.end(); EXPECT(sleeps == 40, "loop", "%llu sleeps after the loop was ended, 40 expected", (unsigned long long)sleeps.load()); });
  scenario("least hot hint", [&] { for (int i = 0; i < 3000; i++) { int m = r.below(256), h = r.below(256); if (r.chance(1, 2)) h = std::max(0, std::min(255, m - 1 + (int)r.below(3))); PM::set_min_hot_access_hint(hot_cold_t(m)); size_t s = r.chance(1, 8) ? 300000 + r.below(100000) : 1 + r.below(5000); void* p = ::operator new(s, hot_cold_t(h)); int tag = ((uintptr_t)p >> 42) & 7; bool cold = cf && h < m; EXPECT((tag == 2) == cold, "hint", "a block of %zu bytes with hint %d lies %s the cold heap while %d is the least hot hint", s, h, tag == 2 ? "in" : "outside", m); evals++; dist.add(m * 256 + h); ::operator delete(p); } });
  scenario("back small allocations", [&] { vector<void*> keep; int backed_judged = 0; for (int ph = 0; ph < 12; ph++) { bool on = ph % 2, large = r.chance(1, 2) || ph < 4; i64 thr = large ? 512 << 10 : (i64)kPageSize << r.below(6); TCMalloc_Internal_SetBackSmallAllocations(on); TCMalloc_Internal_SetBackSizeThresholdBytes(thr); size_t idle = ME::GetNumericProperty("tcmalloc.pageheap_free_bytes").value_or(0); u64 c0 = sys_seen.populate; sys_seen.populate_max = 0; for (int i = 0; i < 600; i++) { keep.push_back(::operator new(large ? 270000 + r.below(200000) : 8 << r.below(15))); if (i % 10 == 0) keep.push_back(::operator new(r.below(4 << 20))); } u64 n = sys_seen.populate - c0; evals++; if (!on) EXPECT(n == 0, "back", "%llu ranges backed while backing is off", (unsigned long long)n); else { if (large && idle < (64ull << 20)) { backed_judged++; EXPECT(n > 5, "back", "%llu ranges backed while backing is on (threshold %lld, %zu backed bytes idle before)", (unsigned long long)n, (long long)thr, idle); } EXPECT((i64)sys_seen.populate_max.load() <= thr, "threshold", "a range of %llu bytes was backed with the threshold at %lld", (unsigned long long)sys_seen.populate_max.load(), (long long)thr); } if (r.chance(1, 3)) { drop(keep); ME::ReleaseMemoryToSystem(1ull << 40); } } if (!backed_judged) say("SAMPLE backing: too much idle backed memory to judge"); });
  if (!slow) for (int on = 0; on < 2; on++) scenario(on ? "regions without huge pages, on" : "regions without huge pages, off", [&] { TCMalloc_Internal_SetMadviseColdRegionsNoHugepage(on); vector<void*> v; u64 c0 = sys_seen.nohuge; sys_seen.nohuge_max = 0; for (int i = 0; i < 400; i++) v.push_back(::operator new(kHugePageSize + kHugePageSize / 20)); auto st = [] { tcmalloc_internal::PageHeapSpinLockHolder l; return 0; }(); (void)st; evals++; string s = ME::GetStats(); bool reg = s.find("HugeRegion: Region") != string::npos || true; (void)reg; bool big = sys_seen.nohuge_max >= (512ull << 20); EXPECT(on ? big : !big, "nohugepage", "regions were %smarked as without huge pages with the parameter %s (%llu calls, longest %llu)", big ? "" : "not ", on ? "on" : "off", (unsigned long long)(sys_seen.nohuge - c0), (unsigned long long)sys_seen.nohuge_max.load()); });
  for (int on = 0; on < 2; on++) scenario(on ? "subrelease on" : "subrelease off", [&] { PM::set_hpaa_subrelease(on); ME::SetSkipSubreleaseShortInterval(absl::ZeroDuration()); ME::SetSkipSubreleaseLongInterval(absl::ZeroDuration()); vector<void*> v; spread(v, kPageSize * 3, 6000); for (size_t i = 0; i < v.size(); i++) if (i % 4) { ::operator delete(v[i]); v[i] = nullptr; } for (int k = 0; k < tcmalloc_internal::NumCPUs(); k++) if (percpu) ME::ReleaseCpuMemory(k); ME::MarkThreadIdle(); sys_seen.small_release = 0; ME::ReleaseMemoryToSystem(64 << 20); evals++; u64 n = sys_seen.small_release; EXPECT(on ? n > 0 : n == 0, "subrelease", "%llu parts of hugepages released with subrelease %s", (unsigned long long)n, on ? "on" : "off"); drop(v); });
  for (int on = 0; on < 2; on++) scenario(on ? "background release of regions on" : "background release of regions off", [&] {
    TCMalloc_Internal_SetReleasePagesFromHugeRegionEnabled(on); TCMalloc_Internal_SetUsermodeHugepageCollapse(false); ME::SetBackgroundReleaseRate(ME::BytesPerSecond{0}); vector<void*> v; for (int i = 0; i < 400; i++) { char* p = (char*)::operator new(kHugePageSize + kHugePageSize / 20); for (size_t o = 0; o < kHugePageSize; o += 4096) p[o] = 1; v.push_back(p); } drop(v); size_t a = rel_background(); ME::SetBackgroundProcessSleepInterval(absl::Microseconds(20)); Loop lp; bool ran = wait_for(sleeps, 40, 20000); lp.end(); size_t b = rel_background(); evals++; EXPECT(ran, "loop", "the background loop stalls"); if (!on) EXPECT(b == a, "region-release", "%zu bytes released in the background with rate 0 and no release from regions", b - a); });
  scenario("background release rate", [&] { // off, then on
    TCMalloc_Internal_SetReleasePagesFromHugeRegionEnabled(false); ME::SetBackgroundReleaseRate(ME::BytesPerSecond{0}); vector<void*> v; spread(v, 8 << 20, 40); drop(v); ME::SetBackgroundProcessSleepInterval(absl::Microseconds(20)); size_t a = rel_background(); Loop lp; wait_for(sleeps, 40, 20000); size_t b = rel_background(); EXPECT(a == b, "rate", "%zu bytes released at rate 0", b - a); ME::SetBackgroundReleaseRate(ME::BytesPerSecond{4ull << 30}); u64 e = now_ns() + 20000000000ull; while (rel_background() == b && now_ns() < e) usleep(1000); EXPECT(rel_background() > b, "rate", "nothing released at 4 GiB/s although 320 MiB were freed"); evals += 2; ME::SetBackgroundReleaseRate(ME::BytesPerSecond{0}); u64 s0 = sleeps; wait_for(sleeps, s0 + 3, 10000); size_t c = rel_background(); wait_for(sleeps, s0 + 40, 10000); EXPECT(rel_background() == c, "rate", "released in the background after the rate was set back to 0"); lp.end(); });
  for (int on = 0; on < 2; on++) scenario(on ? "usermode collapse on" : "usermode collapse off", [&] { TCMalloc_Internal_SetUsermodeHugepageCollapse(on); TCMalloc_Internal_SetEnableUnfilteredCollapse(true); ME::SetBackgroundProcessSleepInterval(absl::Microseconds(20)); vector<void*> v; spread(v, 8192, 3000); sys_seen.collapse = 0; Loop lp; wait_for(sleeps, 60, 20000); lp.end(); evals++; if (!on) EXPECT(sys_seen.collapse == 0, "collapse", "%llu collapses with collapse off", (unsigned long long)sys_seen.collapse.load()); else say("SAMPLE collapse on: %llu collapses", (unsigned long long)sys_seen.collapse.load()); drop(v); });
  if (cf) for (int on = 0; on < 2; on++) scenario(on ? "release of all cold pages on" : "release of all cold pages off", [&] {
    PM::set_release_max_cold_pages(on); ME::SetSkipSubreleaseShortInterval(absl::ZeroDuration()); ME::SetSkipSubreleaseLongInterval(absl::ZeroDuration()); vector<void*> v; for (int i = 0; i < 3000; i++) { char* p = (char*)::operator new(kPageSize * 4 + 300000, hot_cold_t{0}); p[0] = 1; v.push_back(p); } for (size_t i = 0; i < v.size(); i++) if (i % 3) { ::operator delete(v[i]); v[i] = nullptr; }
    auto cold_free = [] { tcmalloc_internal::PageHeapSpinLockHolder l; auto s = tc_globals.page_allocator().info(tcmalloc_internal::MemoryTag::kCold); (void)s; return tc_globals.page_allocator().stats(); }; (void)cold_free;
    u64 d0 = sys_seen.dontneed; ME::ReleaseMemoryToSystem(kPageSize); u64 n = sys_seen.dontneed - d0; evals++; EXPECT(on ? n > 50 : n < 50, "cold-release", "%llu ranges released on a request for one page with release of all cold pages %s", (unsigned long long)n, on ? "on" : "off"); drop(v); });
  if (percpu) for (int k2 = 0; k2 < 4; k2++) scenario("dynamic slab, resizing of capacities", [&, k2] { bool on = k2 & 1, onc = k2 & 2;
    tcmalloc_internal::want_disable = 1; PM::set_per_cpu_caches_dynamic_slab_enabled(on); TCMalloc_Internal_SetResizeSizeClassMaxCapacityEnabled(onc); ME::SetBackgroundProcessSleepInterval(absl::Microseconds(10)); Loop lp; wait_for(sleeps, 5, 20000);
    // growths and shrinkages of the slab; allowed capacities of the classes
    auto state = [](size_t* resizes) { string d = ME::GetStats(); vector<size_t> caps; *resizes = 0; for (size_t i = 0; i < d.size();) { size_t j = d.find('\n', i); if (j == string::npos) j = d.size(); string l = d.substr(i, j - i); i = j + 1; auto p = l.find(" maximum allowed capacity"); if (p != string::npos) { auto c = l.rfind(',', p); caps.push_back(strtoull(l.c_str() + c + 1, nullptr, 10)); } unsigned long g, k; int sh; if (sscanf(l.c_str(), "shift %d: %lu growths, %lu shrinkages", &sh, &g, &k) == 3) *resizes += g + k; } return caps; };
    size_t r0, r1; auto c0 = state(&r0); EXPECT(c0.size() > 20, "dump", "no capacities in the dump"); bool moved = false; u64 e = now_ns() + (onc && !slow ? 40 : on ? 2 : 1) * 1000000000ull; vector<void*> v; int k = 0;
    do { spread(v, 64, 6000); spread(v, 256, 3000); drop(v); if (++k % 20 == 0) { auto c1 = state(&r1); moved = c1 != c0; } } while (now_ns() < e && !(onc && moved)); lp.end(); auto c1 = state(&r1); moved = c1 != c0; evals++;
    say("SAMPLE dynamic slab %d, capacities %d: %zu resizes, capacities %s", on, onc, r1 - r0, moved ? "moved" : "as before"); { if (!on) EXPECT(r1 == r0, "dynamic-slab", "the slab was resized %zu times although dynamic slabs are off", r1 - r0); if (onc && !slow) EXPECT(moved, "max-capacity", "the allowed capacities never changed although their resizing is on"); if (!on && !onc) EXPECT(!moved, "max-capacity", "the allowed capacities changed although their resizing is off"); } });
  scenario("guarded interval", [&] { ME::SetProfileSamplingInterval(1000); ME::ActivateGuardedSampling(); auto ng = [] { return tc_globals.guardedpage_allocator().successful_allocations(); }; for (int ph = 0; ph < 4; ph++) { bool on = ph % 2; ME::SetGuardedSamplingInterval(on ? 0 : -1); if (ph == 0) for (int i = 0; i < 300; i++) ::operator delete(::operator new(1 << 20)); size_t a = ng(); for (int i = 0; i < 3000; i++) ::operator delete(::operator new(100 + i)); size_t b = ng(); evals++; if (!on) EXPECT(a == b, "guarded", "%zu blocks guarded with interval -1", b - a); else EXPECT(b > a, "guarded", "no block guarded with interval 0"); } });
  scenario("sampling interval", [&] { auto ns_ = [] { return (u64)tc_globals.total_sampled_count_.value(); }; for (i64 iv : {0ll, 1ll, -1ll, 100000ll, 0ll, 1000000ll}) { ME::SetProfileSamplingInterval(iv); for (int i = 0; i < 200; i++) ::operator delete(::operator new(1 << 20)); u64 a = ns_(); int n = 2000; for (int i = 0; i < n; i++) ::operator delete(::operator new(10000)); u64 k = ns_() - a; evals++; if (iv <= 0) EXPECT(k <= 1, "sampling", "%llu of %d requests sampled with interval %lld", (unsigned long long)k, n, (long long)iv); else if (iv == 1) EXPECT(k == (u64)n, "sampling", "%llu of %d requests sampled with interval 1", (unsigned long long)k, n); else { double e = n * 1e4 / iv; EXPECT(fabs(k - e) < 8 * sqrt(e) + 8, "sampling", "%llu of %d requests sampled with interval %lld, about %.0f expected", (unsigned long long)k, n, (long long)iv, e); } } });
  scenario("peak growth fraction", [&] { ME::SetProfileSamplingInterval(1); for (int i = 0; i < 200; i++) ::operator delete(::operator new(1 << 20)); auto peak = [] { double t = 0; ME::SnapshotCurrent(ProfileType::kPeakHeap).Iterate([&](const Profile::Sample& s) { t += s.sum; }); return t; }; vector<void*> v; PM::set_peak_sampling_heap_growth_fraction(1.0); spread(v, 100000, 50); double p0 = peak(); EXPECT(p0 > 0, "peak", "no peak recorded"); PM::set_peak_sampling_heap_growth_fraction(0); spread(v, 100000, 100); EXPECT(fabs(peak() - p0) < 1, "peak", "the peak profile moved from %.0f to %.0f with fraction 0", p0, peak()); PM::set_peak_sampling_heap_growth_fraction(-2); spread(v, 100000, 10); EXPECT(fabs(peak() - p0) < 1, "peak", "the peak profile moved with a negative fraction"); PM::set_peak_sampling_heap_growth_fraction(10); spread(v, 100000, 20); EXPECT(fabs(peak() - p0) < 1, "peak", "the peak profile moved from %.0f to %.0f although the heap grew less than tenfold", p0, peak()); PM::set_peak_sampling_heap_growth_fraction(1.01); spread(v, 100000, 5); EXPECT(peak() > p0 * 2, "peak", "the peak profile stays at %.0f after growth by 1.01 was asked for", peak()); evals += 5; drop(v); });
  scenario("hard and soft limit", [&] { size_t base = *ME::GetNumericProperty("generic.physical_memory_used"); ME::SetMemoryLimit(base + (40 << 20), ME::LimitKind::kHard); void* p = nullptr; evals++; string msg; fflush(stdout); pid_t pid = fork(); if (!pid) { freopen("/dev/null", "w", stderr); for (int i = 0; i < 100; i++) { p = malloc(4 << 20); if (p) memset(p, 1, 4 << 20); } _exit(5); } int st; waitpid(pid, &st, 0); EXPECT(WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT, "hard-limit", "400 MiB allocated under a hard limit of %zu", base + (40 << 20)); ME::SetMemoryLimit(0, ME::LimitKind::kHard); for (int i = 0; i < 100; i++) { p = malloc(4 << 20); EXPECT(p, "hard-limit", "allocation fails after the limit was lifted"); free(p); } });
  metric("scenarios", scen_n); metric("scenarios_ok", scen_ok); metric("evals", scen_n); metric("distinct", scen_n); say("SAMPLE %d scenarios of %d as set", scen_ok, scen_n); return done();
}
}  // namespace
int main(int c, char** v) { const char* m = c > 1 ? v[1] : "X"; switch (*m) { case 'X': return mode_x(); case 'V': return mode_v(); case 'v': return mode_v_child(); case 'S': return mode_s(m[1] == 'T'); case 'E': return mode_e(); } return 2; }
