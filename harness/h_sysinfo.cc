// P29: what the code reads out of kernel files against independent readings of the same text. The kernel's files are replaced by
// generated ones (open/read are interposed: short reads, EINTR, errors, missing files). Modes: C cpu lists, L cache topology and
// possible CPUs, N numa, M memory maps, S status, F page flags, R residency, I mincore, A affinity, X /proc files of this very process.
#include <sched.h>
#include <sys/sysmacros.h>
#include <sys/syscall.h>
#include <poll.h>
#include <map>
#include <set>
#include <string>
#include <vector>
#include "vt_child.h"
#include "tcmalloc/internal/cache_topology.h"
#include "tcmalloc/internal/cpu_utils.h"
#include "tcmalloc/internal/environment.h"
#include "tcmalloc/internal/memory_stats.h"
#include "tcmalloc/internal/mincore.h"
#include "tcmalloc/internal/numa.h"
#include "tcmalloc/internal/pageflags.h"
#include "tcmalloc/internal/percpu.h"
#include "tcmalloc/internal/proc_maps.h"
#include "tcmalloc/internal/residency.h"
#include "tcmalloc/internal/sysinfo.h"
using namespace vt;
using namespace tcmalloc;
using namespace tcmalloc::tcmalloc_internal;

static Distinct dist; static long long evals, n_read, n_short, n_intr, n_err, n_open, n_bad, n_dir[8];
// ---------------------------------------------------------------- invented files
struct Fake { std::string data; int err = 0; };         // err: open fails with it
static std::map<std::string, Fake>& all_files() { static auto* m = new std::map<std::string, Fake>(); return *m; }
#define files all_files()
static bool faking = false, hostile = true; static Rng io(7);
static int fail_in = -1;                                  // the read after so many fails with EIO
static bool is_fake[1024];
static int file_of(const std::string& s) { int fd = syscall(SYS_memfd_create, "vt", 0); size_t o = 0; while (o < s.size()) { ssize_t k = syscall(SYS_write, fd, s.data() + o, s.size() - o); if (k <= 0) FATAL("harness", "memfd"); o += k; } syscall(SYS_lseek, fd, 0, SEEK_SET); if (fd >= 0 && fd < 1024) is_fake[fd] = true; return fd; }
static bool kernels(const char* p) { return !strncmp(p, "/sys/", 5) || !strncmp(p, "/proc/", 6); }
static int fake_open(const char* p) { n_open++; if (hostile && io.chance(1, 6)) { errno = EINTR; n_intr++; return -1; } auto i = files.find(p); if (i == files.end()) { errno = ENOENT; return -1; } if (i->second.err) { errno = i->second.err; return -1; } return file_of(i->second.data); }
extern "C" int open(const char* p, int fl, ...) { va_list ap; va_start(ap, fl); int m = va_arg(ap, int); va_end(ap); if (faking && kernels(p)) return fake_open(p); return syscall(SYS_openat, AT_FDCWD, p, fl, m); }
extern "C" int open64(const char* p, int fl, ...) { va_list ap; va_start(ap, fl); int m = va_arg(ap, int); va_end(ap); return open(p, fl, m); }
extern "C" int openat(int d, const char* p, int fl, ...) { va_list ap; va_start(ap, fl); int m = va_arg(ap, int); va_end(ap); if (faking && kernels(p)) return fake_open(p); return syscall(SYS_openat, d, p, fl, m); }
extern "C" ssize_t read(int fd, void* b, size_t n) {
  if (fd >= 0 && fd < 1024 && is_fake[fd]) { n_read++;
    if (fail_in >= 0 && fail_in-- == 0) { n_err++; errno = EIO; return -1; }
    if (hostile && io.chance(1, 5)) { n_intr++; errno = EINTR; return -1; }
    if (hostile && n > 1 && io.chance(1, 2)) { size_t k = 1 + io.below(n); if (k < n) n_short++; n = k; } }
  return syscall(SYS_read, fd, b, n);
}
extern "C" int close(int fd) { if (fd >= 0 && fd < 1024) is_fake[fd] = false; return syscall(SYS_close, fd); }
static std::string show(const std::string& s) { std::string o; for (char c : s) if (c == '\n') o += "|"; else if (c < 32) o += "?"; else o += c; if (o.size() > 300) o = o.substr(0, 300) + "..."; return o; }
// ---------------------------------------------------------------- cpu lists
static std::set<int> some_cpus(Rng& r, int lim) { std::set<int> s; int n = r.chance(1, 8) ? 0 : 1 + r.below(r.chance(1, 5) ? 60 : 6); for (int i = 0; i < n; i++) { int a = r.below(lim), k = r.chance(1, 3) ? 1 : r.chance(1, 3) ? 2 : r.below(r.chance(1, 8) ? lim : 40); for (int c = a; c < a + k && c < lim; c++) s.insert(c); } if (r.chance(1, 6)) s.insert(lim - 1); if (r.chance(1, 6)) s.insert(0); return s; }
static std::string cpulist(const std::set<int>& s, bool nl = true) { std::string o; for (auto i = s.begin(); i != s.end();) { int a = *i, e = a; while (++i != s.end() && *i == e + 1) e++; if (!o.empty()) o += ","; o += std::to_string(a); if (e > a) o += "-" + std::to_string(e); } if (nl) o += "\n"; return o; }
struct Chunks { const std::string& d; Rng& r; size_t at = 0; int fail; int mode; ssize_t operator()(char* b, size_t n) { if (fail >= 0 && fail-- == 0) { errno = EIO; return -1; } size_t k = d.size() - at; if (k > n) k = n; if (mode == 1 && k > 1) k = 1; else if (mode == 2 && k) k = 1 + r.below(k); memcpy(b, d.data() + at, k); at += k; return k; } };
static void expect_set(const char* what, const std::string& text, const std::optional<CpuSet>& g, const std::set<int>& w) {
  evals++; if (!g) FATAL("cpulist", "%s: \"%s\" refused", what, show(text).c_str());
  for (int c = 0; c < kMaxCpus; c++) if (g->IsSet(c) != (w.count(c) > 0)) FATAL("cpulist", "%s: \"%s\": cpu %d is %d", what, show(text).c_str(), c, (int)g->IsSet(c));
  if (g->Count() != (int)w.size()) FATAL("cpulist", "%s: \"%s\": %d cpus, %zu are", what, show(text).c_str(), g->Count(), w.size());
  if (g->FindFirstSet() != (w.empty() ? -1 : *w.begin())) FATAL("cpulist", "%s: first cpu of \"%s\" is %d", what, show(text).c_str(), g->FindFirstSet());
}
static void lists(Rng& r) {
  std::set<int> s = some_cpus(r, r.chance(1, 3) ? kMaxCpus : r.chance(1, 2) ? 1024 : 1 + r.below(130)); std::string t = cpulist(s, r.chance(4, 5));
  if (r.chance(1, 5) && !s.empty()) { std::vector<std::string> parts; std::string c; for (char ch : t) { if (ch == ',' || ch == '\n') { parts.push_back(c); c.clear(); } else c += ch; } if (!c.empty()) parts.push_back(c); for (size_t i = parts.size(); i > 1; i--) std::swap(parts[i - 1], parts[r.below(i)]); t = ""; for (auto& p : parts) t += (t.empty() ? "" : ",") + p; if (r.chance(1, 2)) t += "\n"; }
  int mode = r.below(3); dist.add(std::hash<std::string>()(t) * 3 + mode); { Chunks c{t, r, 0, -1, mode}; expect_set("a list", t, ParseCpulist([&](char* b, size_t n) { return c(b, n); }), s); }
  { Chunks c{t, r, 0, (int)r.below(4), 2}; auto g = ParseCpulist([&](char* b, size_t n) { return c(b, n); }); evals++; if (c.fail < 0 && g) FATAL("cpulist", "a failed read of \"%s\" produced a set", show(t).c_str()); n_bad++; }
  // entries that are no CPU numbers
  { static const char* junk[] = {"x", "2048", "99999999999", "4294967296", "-1", "1.5", "1 2", "0x3", "--", "2047-2048", "5-70000", "a-3", "3-b", ",", "", "12345678901234567890", "1;2", "2049-3000", "18446744073709551617"}; std::string j = junk[r.below(19)]; std::string u = cpulist(some_cpus(r, 300), false); int w = r.below(3); std::string v = w == 0 || u.empty() ? j + "," + (u.empty() ? "1" : u) : w == 1 ? u + "," + j + (j.empty() ? "," : "") : u + "," + j + ",7"; if (r.chance(1, 2)) v += "\n"; Chunks c{v, r, 0, -1, (int)r.below(3)}; evals++; n_bad++; dist.add(std::hash<std::string>()(v)); if (j == "," || !j.empty() || w != 1) if (ParseCpulist([&](char* b, size_t n) { return c(b, n); })) FATAL("cpulist", "malformed list \"%s\" accepted", show(v).c_str()); }
  // anything at all must come to an end
  { std::string v; for (int n = r.below(60); n--;) v += r.chance(1, 10) ? (char)r.next() : "0123456789,-\n "[r.below(14)]; Chunks c{v, r, 0, -1, (int)r.below(3)}; auto g = ParseCpulist([&](char* b, size_t n) { return c(b, n); }); (void)g; evals++; n_bad++; }
}
// ---------------------------------------------------------------- possible CPUs, caches (each in a process of its own: results are kept)
static bool prepared = false; static void invent(Rng& r); static void judge_topology();
// the CPU count is read once per process, possibly before main
__attribute__((constructor(101))) static void early(int argc, char** argv, char**) { if (argc > 2 && argv[1][0] == 'l') { Rng r(strtoull(argv[2], nullptr, 10)); invent(r); prepared = true; faking = true; } }
static int t_kind, t_n, t_groups; static std::vector<int>* t_l3; static std::set<int>*t_off, *t_poss;
static void invent(Rng& r) {
  auto& l3 = *(t_l3 = new std::vector<int>); auto& offline = *(t_off = new std::set<int>); auto& poss = *(t_poss = new std::set<int>); int &n = t_n, &groups = t_groups, &kind = t_kind;
  files.clear(); n = r.chance(1, 3) ? 1 + r.below(kMaxCpus) : 1 + r.below(200); for (int c = 0; c < n; c++) poss.insert(c); kind = r.below(20); l3.resize(n); groups = 0;
  if (kind == 0) files["/sys/devices/system/cpu/possible"].data = "garbage\n"; else if (kind == 1) {} else if (kind == 2) files["/sys/devices/system/cpu/possible"].data = "\n"; else if (kind == 3) { poss.clear(); poss.insert(n - 1); if (n > 3) poss.insert(1); files["/sys/devices/system/cpu/possible"].data = cpulist(poss); } else files["/sys/devices/system/cpu/possible"].data = cpulist(poss);
  std::vector<std::set<int>> share;
  if (kind > 4) { int per = 1 + r.below(r.chance(1, 2) ? 8 : 64); if (n / per > 200) per = n / 200 + 1; bool smt = r.chance(1, 2); int half = (n + 1) / 2; for (int c = 0; c < n; c++) { int g = smt ? (c % half) / per : c / per; l3[c] = g; if (g >= groups) groups = g + 1; } share.resize(groups); if (kind > 14) for (int c = 1; c < n; c++) if (r.chance(1, 10)) offline.insert(c);
    for (int c = 0; c < n; c++) if (!offline.count(c)) share[l3[c]].insert(c); for (int c = 0; c < n; c++) if (!offline.count(c)) files["/sys/devices/system/cpu/cpu" + std::to_string(c) + "/cache/index3/shared_cpu_list"].data = cpulist(share[l3[c]]); }
}
static void judge_topology() {
  auto& l3 = *t_l3; auto& offline = *t_off; auto& poss = *t_poss; int n = t_n, groups = t_groups, kind = t_kind; bool known = kind > 2, no_l3 = kind == 4;
  { auto m = NumCPUsMaybe(); if (m.has_value() != known) { printf("possible CPUs of \"%s\": %d\n", files["/sys/devices/system/cpu/possible"].data.c_str(), m.value_or(-1)); fflush(stdout); _exit(9); } if (known && *m != *poss.rbegin() + 1) { printf("possible CPUs \"%s\" count as %d\n", show(files["/sys/devices/system/cpu/possible"].data).c_str(), *m); fflush(stdout); _exit(9); }
    static CacheTopology t; t.Init(); auto fail = [&](const char* w, int c, int g) { printf("%s: cpu %d: %d (%d cpus, %d caches, %zu offline)\n", w, c, g, n, groups, offline.size()); fflush(stdout); _exit(9); };
    if (!known) { if (t.l3_count() != 1) fail("unknown topology", -1, t.l3_count()); _exit(77); } if (kind == 3) _exit(77);
    if (no_l3) { if (t.l3_count() > 1) fail("caches without any L3", -1, t.l3_count()); _exit(77); }
    std::set<int> real; for (int c = 0; c < n; c++) if (!offline.count(c)) real.insert(l3[c]); if (t.l3_count() != real.size()) fail("number of L3 caches", -1, t.l3_count()); std::map<int, unsigned> id; std::set<unsigned> used;
    for (int c = 0; c < n; c++) { if (offline.count(c)) continue; unsigned g = t.GetL3FromCpuId(c); if (g >= t.l3_count()) fail("index beyond the number of caches", c, g); auto i = id.find(l3[c]); if (i == id.end()) { if (!used.insert(g).second) fail("two caches share an index", c, g); id[l3[c]] = g; } else if (i->second != g) fail("one cache has two indices", c, g); }
    _exit(77); }
}
static void topology(Rng& r) {
  uint64_t sd = r.next() >> 1; char sb[40]; snprintf(sb, 40, "%lu", (long)sd); Outcome o; run_child(o, [&] { execl("/proc/self/exe", "h_sysinfo", "l", sb, (char*)nullptr); _exit(3); });
  evals++; dist.add(sd); if (!WIFEXITED(o.status) || WEXITSTATUS(o.status) != 77) { char b[600]; o.shown(b, sizeof b); FATAL("topology", "%s (status %x)", b, o.status); }
}
// ---------------------------------------------------------------- NUMA
template <size_t P, size_t S> static void numa1(Rng& r) {
  int nodes = r.chance(1, 4) ? 1 : 1 + r.below(r.chance(1, 6) ? 64 : 8); std::vector<std::set<int>> cpus(nodes); int n = 1 + r.below(256); int style = r.below(3), high = r.chance(1, 3) ? kMaxCpus - n : 0; for (int c = 0; c < n; c++) { int k = style == 0 ? c * nodes / n : style == 1 ? c % nodes : r.below(nodes); cpus[k].insert(c + high); } if (r.chance(1, 4)) for (int i = 1; i < nodes; i++) if (r.chance(1, 2)) cpus[i].clear();
  static const struct { const char* v; bool on; NumaBindMode m; } envs[] = {{nullptr, false, NumaBindMode::kAdvisory}, {"0", false, NumaBindMode::kAdvisory}, {"1", true, NumaBindMode::kAdvisory}, {"advisory-binding", true, NumaBindMode::kAdvisory}, {"no-binding", true, NumaBindMode::kNone}, {"strict-binding", true, NumaBindMode::kStrict}};
  const auto& e = envs[r.below(6)]; setenv("TCMALLOC_NUMA_AWAREX", "1", 1); if (e.v) setenv("TCMALLOC_NUMA_AWARE", e.v, 1); else unsetenv("TCMALLOC_NUMA_AWARE");
  files.clear(); for (int i = 0; i < nodes; i++) files["/sys/devices/system/node/node" + std::to_string(i) + "/cpulist"].data = cpulist(cpus[i]);
  static NumaTopology<P, S> T; memset((void*)&T, 0, sizeof T); new ((void*)&T) NumaTopology<P, S>(); faking = true; bool viatest = r.chance(1, 2); if (viatest) T.InitForTest([&](size_t k) { if (k >= cpus.size()) { errno = ENOENT; return -1; } return file_of(cpulist(cpus[k])); }); else T.Init(); faking = false;
  constexpr size_t I = P < 2 ? 2 : P; std::set<int> other; std::vector<uint64_t> mask(I, 0); mask[0] = 1; for (int i = 0; i < nodes; i++) { mask[i % I] |= 1ull << i; if (i % I) other.insert(cpus[i].begin(), cpus[i].end()); } bool aware = P > 1 && e.on && !other.empty(); evals++; dist.add(P * 77777 + S * 1009 + nodes * 17 + style * 3 + e.on); char d[120]; snprintf(d, 120, "%zu partitions, %d nodes, %d cpus, TCMALLOC_NUMA_AWARE=%s", P, nodes, n, e.v ? e.v : "(unset)");
  if (T.numa_aware() != aware) FATAL("numa", "%s: aware is %d", d, (int)T.numa_aware()); if (T.active_partitions() != (aware ? P : 1)) FATAL("numa", "%s: %zu active partitions", d, T.active_partitions()); if (T.num_nodes() != (size_t)nodes) FATAL("numa", "%s: %zu nodes seen", d, T.num_nodes()); if (T.bind_mode() != e.m) FATAL("numa", "%s: binding mode %d", d, (int)T.bind_mode());
  for (size_t p = 0; p < I; p++) if (T.GetPartitionNodes(p) != mask[p]) FATAL("numa", "%s: nodes of partition %zu are %lx, should be %lx", d, p, (unsigned long)T.GetPartitionNodes(p), (unsigned long)mask[p]);
  for (int c = 0; c < kMaxCpus; c++) { size_t w = 0; for (int i = 0; i < nodes; i++) if (cpus[i].count(c)) w = i % I; if (T.GetCpuPartition(c) != w || T.GetCpuScaledPartition(c) != w * S) FATAL("numa", "%s: cpu %d is in partition %zu (scaled %zu), should be %zu", d, c, T.GetCpuPartition(c), T.GetCpuScaledPartition(c), w); }
  for (int c : {subtle::percpu::kCpuIdUninitialized, subtle::percpu::kCpuIdUnsupported}) if (T.GetCpuPartition(c) != 0) FATAL("numa", "%s: no CPU (%d) is in partition %zu", d, c, T.GetCpuPartition(c));
  size_t g = T.GetCurrentPartition(); if (!aware && g) FATAL("numa", "%s: current partition %zu", d, g); if (g >= I || T.GetCurrentScaledPartition() % S) FATAL("numa", "%s: current partition %zu", d, g);
}
static void numa(Rng& r) {
  switch (r.below(4)) { case 0: numa1<1, 7>(r); break; case 1: numa1<2, 1>(r); break; case 2: numa1<2, 90>(r); break; default: numa1<4, 13>(r); }
  if (r.chance(1, 40)) { Outcome o; static const char* bad[] = {"yes", "", "2", "Advisory-binding", "strict"}; const char* v = bad[r.below(5)]; run_child(o, [&] { setenv("TCMALLOC_NUMA_AWARE", v, 1); static NumaTopology<2, 1> T; T.InitForTest([&](size_t) { errno = ENOENT; return -1; }); }); evals++; n_bad++; if (!o.killed(SIGABRT) || !o.has("bad TCMALLOC_NUMA_AWARE")) FATAL("numa", "TCMALLOC_NUMA_AWARE=\"%s\" accepted (status %x)", v, o.status); }
}
// ---------------------------------------------------------------- memory maps
static void maps(Rng& r) {
  struct E { uint64_t s, e, off; std::string fl, name; int64_t ino; int ma, mi; }; std::vector<E> v; std::string t; uint64_t at = r.below(1 << 20) * 4096; int n = r.below(60);
  for (int i = 0; i < n; i++) { E x; at += r.below(100) * 4096; x.s = at; at += (1 + r.below(r.chance(1, 4) ? 1 << 20 : 64)) * 4096; x.e = at; if (r.chance(1, 60) && at < 1ull << 46) at += 1ull << 45; x.fl = std::string(r.chance(1, 2) ? "r" : "-") + (r.chance(1, 2) ? "w" : "-") + (r.chance(1, 2) ? "x" : "-") + (r.chance(1, 2) ? "p" : "s"); x.off = r.chance(1, 3) ? r.next() & ~4095ull : r.chance(1, 2) ? 0 : r.below(1 << 20) * 4096; x.ma = r.chance(1, 3) ? 0 : r.below(4096); x.mi = r.below(256); x.ino = r.chance(1, 3) ? 0 : r.chance(1, 4) ? (int64_t)(r.next() >> 1) : r.below(1 << 24);
    switch (r.below(7)) { case 0: break; case 1: x.name = "[heap]"; break; case 2: x.name = "[anon:tcmalloc_region_NORMAL]"; break; case 3: x.name = "/usr/lib/x86_64-linux-gnu/libc.so.6"; break; case 4: x.name = "/tmp/a file with  blanks (deleted)"; break; case 5: { x.name = "/"; for (int k = r.below(r.chance(1, 3) ? 4090 : 200); k--;) x.name += "abc/.-_ 0:x\\"[r.below(12)]; while (x.name.back() == ' ') x.name.pop_back(); break; } default: x.name = "[vdso]"; }
    char b[200]; int k = snprintf(b, sizeof b, "%08llx-%08llx %s %08llx %02x:%02x %lld ", (long long)x.s, (long long)x.e, x.fl.c_str(), (long long)x.off, x.ma, x.mi, (long long)x.ino); if (x.name.empty() && r.chance(1, 2)) k--, b[k] = 0; t += b; if (!x.name.empty()) { if (k < 73) t += std::string(73 - k, ' '); t += x.name; } if (i + 1 < n || r.chance(3, 4)) t += "\n"; else if (r.chance(1, 2)) t += "\n"; v.push_back(x);
    if (r.chance(1, 30) && t.size() && t.back() == '\n') { t += "VmFlags: rd ex mr\n"; } }
  files.clear(); files["/proc/thread-self/maps"].data = t; files["/proc/self/maps"].data = t; bool miss = r.chance(1, 30); if (miss) files.clear(); faking = true; static ProcMapsIterator::Buffer buf; memset(&buf, 'z', sizeof buf); ProcMapsIterator it(&buf); faking = false; evals++; dist.add(std::hash<std::string>()(t));
  if (it.Valid() == miss) FATAL("maps", "Valid() is %d for a %s file", (int)it.Valid(), miss ? "missing" : "present"); if (miss) { n_bad++; uint64_t s; if (it.NextExt(&s, nullptr, nullptr, nullptr, nullptr, nullptr, nullptr)) FATAL("maps", "an entry out of a missing file"); return; }
  size_t i = 0; for (;; i++) { uint64_t s = 1, e = 2, off = 3; int64_t ino = 4; char *fl = nullptr, *name = nullptr; dev_t dev = 5; unsigned m = r.chance(2, 3) ? 127 : r.below(128); bool ok = it.NextExt(m & 1 ? &s : nullptr, m & 2 ? &e : nullptr, m & 4 ? &fl : nullptr, m & 8 ? &off : nullptr, m & 16 ? &ino : nullptr, m & 32 ? &name : nullptr, m & 64 ? &dev : nullptr); evals++;
    if (ok != (i < v.size())) FATAL("maps", "%s after %zu of %zu entries", ok ? "an entry" : "the end", i, v.size()); if (!ok) break; const E& x = v[i];
    if ((m & 1 && s != x.s) || (m & 2 && e != x.e)) FATAL("maps", "entry %zu is %lx-%lx, read as %lx-%lx", i, (long)x.s, (long)x.e, (long)s, (long)e); if (m & 4 && x.fl != fl) FATAL("maps", "entry %zu: flags %s read as %s", i, x.fl.c_str(), fl); if (m & 8 && off != x.off) FATAL("maps", "entry %zu: offset %lx read as %lx", i, (long)x.off, (long)off); if (m & 16 && ino != x.ino) FATAL("maps", "entry %zu: inode %ld read as %ld", i, (long)x.ino, (long)ino); if (m & 64 && dev != makedev(x.ma, x.mi)) FATAL("maps", "entry %zu: device %x:%x read as %lx", i, x.ma, x.mi, (long)dev); if (m & 32 && x.name != name) FATAL("maps", "entry %zu: name \"%.200s\" read as \"%.200s\"", i, x.name.c_str(), name); }
  for (int k = 0; k < 3; k++) { uint64_t s; if (it.NextExt(&s, nullptr, nullptr, nullptr, nullptr, nullptr, nullptr)) FATAL("maps", "an entry after the end"); }
  // arbitrary text comes to an end
  if (r.chance(1, 4)) { std::string g = t; for (int k = 1 + r.below(20); k-- && g.size();) g[r.below(g.size())] = r.chance(1, 3) ? '\n' : (char)r.next(); files["/proc/thread-self/maps"].data = g; faking = true; ProcMapsIterator j(&buf); faking = false; size_t c = 0; char* nm; char* f2; while (j.Valid() && j.NextExt(nullptr, nullptr, &f2, nullptr, nullptr, &nm, nullptr)) { if (++c > g.size()) FATAL("maps", "more entries than bytes"); volatile size_t l = strlen(nm) + strlen(f2); (void)l; } evals++; n_bad++; }
}
// ---------------------------------------------------------------- status
static void status(Rng& r) {
  static const char* keys[] = {"VmSize", "VmRSS", "RssFile", "RssShmem", "VmExe", "VmData", "VmStk", "VmPTE"}; uint64_t val[8]; int broken = r.chance(1, 3) ? r.below(8) : -1; bool miss = false; std::vector<std::string> lines;
  if (broken == 2 || broken == 3 || broken == 5 || broken == 6) { broken = -1; }
  for (int i = 0; i < 8; i++) { val[i] = r.chance(1, 5) ? 0 : r.chance(1, 3) ? r.below(1ull << 40) : r.below(1 << 20); char b[100]; if (i == broken) { miss = true; switch (r.below(4)) { case 0: continue; case 1: snprintf(b, 100, "%s:\t  none kB\n", keys[i]); break; case 2: snprintf(b, 100, "%s\t%8llu kB\n", keys[i], (long long)val[i]); break; default: snprintf(b, 100, "%sX:\t%8llu kB\n", keys[i], (long long)val[i]); } } else snprintf(b, 100, "%s:\t%8llu kB\n", keys[i], (long long)val[i]); lines.push_back(b); }
  static const char* noise[] = {"Name:\tcat\n", "Umask:\t0022\n", "State:\tR (running)\n", "VmPeak:\t    5804 kB\n", "VmHWM:\t     848 kB\n", "RssAnon:\t      88 kB\n", "VmLib:\t    1576 kB\n", "VmSwap:\t       0 kB\n", "Threads:\t1\n", "no colon here\n", "\n", ":\n", "VmLck:\t       0 kB\n", "Cpus_allowed_list:\t0-7\n", "THP_enabled:\t1\n", "HugetlbPages:\t       0 kB\n", "Name:\tVmRSS: 5 kB\n", "VmRSSx:\t7 kB\n", "xVmExe:\t9 kB\n"};
  for (int k = r.below(40); k--;) lines.push_back(noise[r.below(19)]); if (r.chance(1, 3)) { std::string g = "Groups:\t"; for (int k = r.below(1500); k--;) g += std::to_string(r.below(70000)) + " "; lines.push_back(g + "\n"); } if (r.chance(1, 3)) lines.push_back("Mems_allowed:\t" + std::string(MemoryStats::kBufferSize - 15 - 3 + r.below(6), '0') + "\n");
  if (r.chance(1, 2)) for (size_t i = lines.size(); i > 1; i--) std::swap(lines[i - 1], lines[r.below(i)]); std::string t; for (auto& l : lines) t += l; MemoryStats s; bool ok; evals++; dist.add(std::hash<std::string>()(t)); bool viafile = r.chance(1, 2);
  if (viafile) { files.clear(); files["/proc/self/status"].data = t; faking = true; ok = GetMemoryStats(s); faking = false; } else { Chunks c{t, r, 0, -1, (int)r.below(3)}; ok = GetMemoryStatsFromStatus(s, [&](char* b, size_t n) { if (!n) FATAL("status", "a read of nothing"); return c(b, n); }); }
  if (ok == miss) FATAL("status", "status %s: %s (key %d)", ok ? "accepted" : "refused", show(t).c_str(), broken); if (miss) { n_bad++; return; }
  int64_t w[6] = {(int64_t)val[0] * 1024, (int64_t)val[1] * 1024, (int64_t)(val[2] + val[3]) * 1024, (int64_t)val[4] * 1024, (int64_t)(val[5] + val[6]) * 1024, (int64_t)val[7] * 1024}, g[6] = {s.vss, s.rss, s.shared, s.code, s.data, s.vmpte}; static const char* nm[] = {"vss", "rss", "shared", "code", "data", "vmpte"};
  for (int i = 0; i < 6; i++) if (g[i] != w[i]) FATAL("status", "%s read as %ld, is %ld", nm[i], (long)g[i], (long)w[i]);
  if (r.chance(1, 5)) { Chunks c{t, r, 0, 0, 2}; MemoryStats z; if (GetMemoryStatsFromStatus(z, [&](char* b, size_t n) { return c(b, n); })) FATAL("status", "an unreadable file accepted"); n_bad++; }
  { size_t node = r.below(9); std::string p = "/sys/devices/system/node/node" + std::to_string(node) + "/hugepage_fragmentation_ratio"; files.clear(); files["/sys/devices/system/node/node9/hugepage_fragmentation_ratio"].data = "0.77\n"; double x = r.below(100000) / 100000.0; int k = r.below(6); char b[60]; snprintf(b, 60, "%.*f\n", (int)r.range(5, 9), x); if (k == 0) b[0] = 0; else if (k == 1) strcpy(b, "nothing\n"); if (k != 2) files[p].data = b; faking = true; auto g = GetHugepageFragmentationRatio(node); faking = false; evals++; dist.add(x * 1e5 + k * 1e6); if (k < 3) n_bad++; if (g.has_value() != (k > 2)) FATAL("ratio", "node %zu, \"%s\" (%d): %s", node, show(b).c_str(), k, g ? "a value" : "none"); if (g && (*g < x - 1e-9 || *g > x + 1e-9)) FATAL("ratio", "%s read as %f", show(b).c_str(), *g); }
}
// ---------------------------------------------------------------- page flags and residency
constexpr size_t HP = 2 << 20, HW = 4096, NP = HP / HW; constexpr uint64_t kHead = 1ull << 15, kTail = 1ull << 16, kHugeTlb = 1ull << 17, kUnevict = 1ull << 18, kThp = 1ull << 22, kMlocked = 1ull << 33, kStaleB = 1ull << 44;
static uint64_t noise_flags(Rng& r) { return (r.next() & r.next()) & ~(kHead | kTail | kHugeTlb | kThp | kUnevict | kMlocked | kStaleB); }
static void range_in(Rng& r, size_t hps, uint64_t base, uint64_t& a, size_t& n) {
  size_t total = hps * HP; size_t s; switch (r.below(4)) { case 0: s = r.below(hps) * HP; break; case 1: s = r.below(total / HW) * HW; break; default: s = r.below(total); } size_t left = total - s; switch (r.below(7)) { case 0: n = 1 + r.below(std::min<size_t>(left, 5000)); break; case 1: n = std::min<size_t>(left, HW * (1 + r.below(8))); break; case 2: n = std::min<size_t>(left, HP * (1 + r.below(3))); break; case 3: n = left; break; case 4: n = std::min<size_t>(left, HW - s % HW); break; default: n = 1 + r.below(left); } if (!n) n = 1; a = base + s; }
static void flags(Rng& r) {
  size_t hps = 1 + r.below(5); uint64_t first = 1 + r.below(3), base = first * HP; std::vector<uint64_t> raw((first + hps) * NP), eff(raw.size()); std::vector<uint8_t> tlb(raw.size(), 0); size_t lo = first * NP;
  for (size_t i = 0; i < lo; i++) raw[i] = eff[i] = noise_flags(r) | (r.chance(1, 2) ? kStaleB : 0);
  auto state = [&] { uint64_t f = noise_flags(r); int k = r.below(4); if (k & 1) f |= kStaleB; if (k & 2) f |= r.chance(1, 2) ? kMlocked : r.chance(1, 2) ? kUnevict : kMlocked | kUnevict; return f; };
  for (size_t h = 0; h < hps; h++) { size_t p = lo + h * NP; int k = r.below(10); if (k < 4) { uint64_t f = state() | kHead | kThp; for (size_t i = 0; i < NP; i++) { raw[p + i] = i ? (state() | kTail | kThp) : f; eff[p + i] = f; } } else if (k == 4 && r.chance(1, 2)) { uint64_t f = state() | kHead | kHugeTlb; for (size_t i = 0; i < NP; i++) { raw[p + i] = i ? (state() | kTail | kHugeTlb) : f; eff[p + i] = f; tlb[p + i] = 1; } } else { uint64_t f = state(); for (size_t i = 0; i < NP; i++) { if (r.chance(1, k == 5 ? 2 : 40)) f = state(); raw[p + i] = eff[p + i] = f; } } }
  size_t have = r.chance(1, 5) ? lo + r.below(hps * NP + 1) : raw.size(); std::string d((char*)raw.data(), have * 8); if (have < raw.size() && r.chance(1, 2)) d += "abc"; files.clear(); files["/proc/self/pageflags"].data = d; uint64_t secs = r.chance(1, 3) ? 0 : 1 + r.below(100000); int sk = r.below(5); std::string st = sk == 0 ? "" : sk == 1 ? "soon\n" : sk == 2 ? std::string(40, '1') : std::to_string(secs) + "\n"; if (sk != 4 || secs) files["/sys/kernel/mm/kstaled/scan_seconds"].data = st; uint64_t wsecs = sk >= 3 ? secs : 0;
  bool miss = r.chance(1, 40); if (miss) files.erase("/proc/self/pageflags"); faking = true; PageFlags pf; static int devnull = syscall(SYS_openat, AT_FDCWD, "/dev/null", O_WRONLY), save = syscall(SYS_dup, 2); dup2(devnull, 2);
  for (int q = 0; q < 12; q++) { uint64_t a; size_t n; range_in(r, hps, base, a, n); evals++; if (r.chance(1, 40)) n = 0; auto g = pf.Get((void*)a, n); if (miss) { if (g) FATAL("pageflags", "a result without a file"); n_bad++; continue; } size_t f = a / HW, l = n ? (a + n - 1) / HW : f; dist.add(n * 1000003 + a);
    PageStats w; bool whole = l < have; for (size_t p = f; n && p <= l; p++) { uint64_t x = std::max<uint64_t>(a, p * HW), y = std::min<uint64_t>(a + n, (p + 1) * HW); if (eff[p] & kStaleB) w.bytes_stale += y - x; if (eff[p] & (kMlocked | kUnevict)) w.bytes_locked += y - x; } if (w.bytes_stale) w.stale_scan_seconds = wsecs;
    if (n && (tlb[f] || tlb[l])) { if (g && tlb[f] && f < have) FATAL("pageflags", "hugetlbfs page at %lx: got an answer", (long)a); n_bad++; continue; } if (!g) { if (whole || !n) FATAL("pageflags", "no answer for %lx+%zu (file holds %zu pages)", (long)a, n, have); n_bad++; continue; } if (!whole && f >= have && n) FATAL("pageflags", "an answer for %lx+%zu, beyond the file of %zu pages", (long)a, n, have);
    if (g->bytes_stale != w.bytes_stale || g->bytes_locked != w.bytes_locked) FATAL("pageflags", "%lx+%zu: %zu stale, %zu locked; is %zu, %zu", (long)a, n, g->bytes_stale, g->bytes_locked, w.bytes_stale, w.bytes_locked); if (g->stale_scan_seconds != w.stale_scan_seconds) FATAL("pageflags", "scan seconds \"%s\" read as %lu", show(st).c_str(), (long)g->stale_scan_seconds); }
  for (int q = 0; q < 4 && !miss; q++) { uint64_t a = base + r.below(hps * HP); auto g = pf.IsHugepageBacked((void*)a); size_t p = a / HW; evals++; if (p < have) { if (!g) FATAL("pageflags", "unknown whether %lx is on a hugepage", (long)a); if (*g != ((raw[p] & (kThp | kHugeTlb)) != 0)) FATAL("pageflags", "%lx on a hugepage: %d, flags %lx", (long)a, (int)*g, (long)raw[p]); } else if (g) FATAL("pageflags", "hugepage answer beyond the file"); }
  for (int q = 0; q < 3; q++) { size_t h = r.below(hps); uint64_t a = base + h * HP; bool un = r.chance(1, 6); auto g = pf.GetSinglePageBitmaps((void*)(a + (un ? 1 + r.below(HP - 1) : 0))); evals++; if (un) { if (g.status == absl::StatusCode::kOk) FATAL("pageflags", "bitmaps of an unaligned address"); n_bad++; continue; } bool whole = lo + (h + 1) * NP <= have && !miss; if ((g.status == absl::StatusCode::kOk) != whole) FATAL("pageflags", "bitmaps of hugepage %zu: status %d, file of %zu pages", h, (int)g.status, have); if (!whole) { n_bad++; continue; } for (size_t i = 0; i < NP; i++) if (g.stale.GetBit(i) != ((eff[lo + h * NP + i] & kStaleB) != 0)) FATAL("pageflags", "stale bit %zu of hugepage %zu is %d", i, h, (int)g.stale.GetBit(i)); }
  dup2(save, 2); faking = false;
}
static void residency(Rng& r) {
  size_t hps = 1 + r.below(4); uint64_t first = r.below(3), base = first * HP; std::vector<uint64_t> raw((first + hps) * NP); size_t lo = first * NP; uint64_t st = 0; int den = r.chance(1, 3) ? 2 : r.chance(1, 2) ? 10 : 200; for (size_t i = 0; i < raw.size(); i++) { if (r.chance(1, den)) st = r.below(4) << 62; raw[i] = st | (r.next() >> 2); if (r.chance(1, 200)) raw[i] = st; }
  size_t have = r.chance(1, 5) ? lo + r.below(hps * NP + 1) : raw.size(); std::string d((char*)raw.data(), have * 8); if (have < raw.size() && r.chance(1, 2)) d += "abcdefg"; files.clear(); bool miss = r.chance(1, 40); if (!miss) files["/proc/self/pagemap"].data = d; faking = true; ResidencyPageMap pm; static int devnull = syscall(SYS_openat, AT_FDCWD, "/dev/null", O_WRONLY), save = syscall(SYS_dup, 2); dup2(devnull, 2); if (pm.GetHardwarePagesInHugePage() != NP) FATAL("residency", "%zu pages in a hugepage", pm.GetHardwarePagesInHugePage());
  for (int q = 0; q < 12; q++) { uint64_t a; size_t n; range_in(r, hps, base, a, n); if (r.chance(1, 40)) n = 0; auto g = pm.Get((void*)a, n); evals++; dist.add(n * 1000003 + a + 1); if (miss) { if (g) FATAL("residency", "a result without a file"); n_bad++; continue; } size_t f = a / HW, l = n ? (a + n - 1) / HW : f; bool whole = l < have || !n; if (g.has_value() != whole) FATAL("residency", "%lx+%zu (file of %zu pages): %s", (long)a, n, have, g ? "an answer" : "none"); if (!g) { n_bad++; continue; }
    size_t res = 0, sw = 0; for (size_t p = f; n && p <= l; p++) { uint64_t x = std::max<uint64_t>(a, p * HW), y = std::min<uint64_t>(a + n, (p + 1) * HW); if (raw[p] >> 63) res += y - x; if (raw[p] >> 62 & 1) sw += y - x; } if (g->bytes_resident != res || g->bytes_swapped != sw) FATAL("residency", "%lx+%zu: %zu resident, %zu swapped; is %zu, %zu", (long)a, n, g->bytes_resident, g->bytes_swapped, res, sw);
    for (size_t i = 0; i < kMaxResidencyBits; i++) { bool w = n && f + i <= l && raw[f + i] >> 63; if (g->page_is_resident.GetBit(i) != w) FATAL("residency", "%lx+%zu: page %zu resident: %d", (long)a, n, i, (int)!w); } }
  for (int q = 0; q < 3; q++) { size_t h = r.below(hps); bool un = r.chance(1, 6); auto g = pm.GetUnbackedAndSwappedBitmaps((void*)(base + h * HP + (un ? 1 + r.below(HP - 1) : 0))); evals++; bool whole = lo + (h + 1) * NP <= have && !miss && !un; if ((g.status == absl::StatusCode::kOk) != whole) FATAL("residency", "bitmaps of hugepage %zu: status %d", h, (int)g.status); if (!whole) { n_bad++; continue; } for (size_t i = 0; i < NP; i++) { uint64_t x = raw[lo + h * NP + i] >> 62; if (g.unbacked.GetBit(i) != (x == 0) || g.swapped.GetBit(i) != (x == 1)) FATAL("residency", "page %zu of hugepage %zu: state %d, unbacked %d, swapped %d", i, h, (int)x, (int)g.unbacked.GetBit(i), (int)g.swapped.GetBit(i)); } }
  dup2(save, 2); faking = false;
}
// ---------------------------------------------------------------- mincore
static std::vector<uint8_t> core_; static uint64_t core_base; static long core_calls; static int core_fail = -1; static bool core_on = false;
extern "C" int mincore(void* a, size_t n, unsigned char* v) noexcept {
  if (!core_on) return syscall(SYS_mincore, a, n, v); core_calls++; if (core_fail >= 0 && core_fail-- == 0) { errno = ENOMEM; return -1; }
  uint64_t u = (uint64_t)a; if (u % HW) { errno = EINVAL; return -1; } size_t k = (n + HW - 1) / HW; if (u < core_base || (u - core_base) / HW + k > core_.size()) FATAL("mincore", "asked about %lx+%zu, outside the range", (long)u, n); for (size_t i = 0; i < k; i++) v[i] = core_[(u - core_base) / HW + i]; return 0; }
static void incore(Rng& r) {
  size_t np = r.chance(1, 3) ? 1 + r.below(40) : r.chance(1, 2) ? 4090 + r.below(12) : 8186 + r.below(10); if (r.chance(1, 10)) np = 12288 + r.below(5); core_.resize(np); core_base = (1 + r.below(1000)) * HW; int den = r.chance(1, 2) ? 2 : 50; uint8_t s = 0; for (auto& c : core_) { if (r.chance(1, den)) s = r.next(); c = s ^ (r.next() & 0xfe); }
  for (int q = 0; q < 8; q++) { size_t skip = r.chance(1, 3) ? r.below(std::min<size_t>(np * HW, HW)) : r.chance(1, 2) ? 0 : r.below(np * HW), left = np * HW - skip, n = r.chance(1, 2) ? left : r.chance(1, 2) ? 1 + r.below(left) : left - std::min<size_t>(left - 1, r.below(HW)); if (r.chance(1, 30)) n = 0; uint64_t a = core_base + skip; size_t w = 0; for (uint64_t p = a / HW; n && p <= (a + n - 1) / HW; p++) { uint64_t x = std::max<uint64_t>(a, p * HW), y = std::min<uint64_t>(a + n, (p + 1) * HW); if (core_[p - core_base / HW] & 1) w += y - x; }
    core_fail = r.chance(1, 10) ? r.below(2) : -1; core_calls = 0; core_on = true; bool armed = core_fail >= 0; size_t g = MInCore::residence((void*)a, n); core_on = false; evals++; dist.add(n * 1009 + skip % HW); bool failed = armed && core_fail < 0; if (failed) { n_bad++; if (g) FATAL("mincore", "%zu resident although the call failed", g); } else if (g != w) FATAL("mincore", "%lx+%zu: %zu resident, is %zu", (long)a, n, g, w); }
}
// ---------------------------------------------------------------- affinity, environment
static void affinity(Rng& r) {
  static CpuSet all; static bool first = true; if (first) { first = false; all.Zero(); if (!all.GetAffinity(0)) return (void)inconclusive("affinity"); } std::vector<int> v; for (int c = 0; c < kMaxCpus; c++) if (all.IsSet(c)) v.push_back(c); CpuSet s; s.Zero(); std::set<int> w; for (int c : v) if (r.chance(1, 2)) w.insert(c); if (w.empty()) w.insert(v[r.below(v.size())]); for (int c : w) s.Set(c); for (int c : v) if (r.chance(1, 4)) { s.CLR(c); w.erase(c); } if (w.empty()) { w.insert(v[0]); s.Set(v[0]); }
  if (!s.SetAffinity(0)) FATAL("affinity", "refused: %d", errno); unsigned long raw[64] = {}; long k = syscall(SYS_sched_getaffinity, 0, sizeof raw, raw); if (k <= 0) return; for (int c = 0; c < kMaxCpus; c++) if ((raw[c / 64] >> (c % 64) & 1) != w.count(c)) FATAL("affinity", "cpu %d: the kernel has %d", c, (int)(raw[c / 64] >> (c % 64) & 1)); CpuSet g; memset((void*)&g, 0xff, sizeof g); if (!g.GetAffinity(0)) FATAL("affinity", "not read: %d", errno); expect_set("affinity", "", g, w); dist.add(w.size() * 4096 + *w.begin()); int cpu = sched_getcpu(); if (!w.count(cpu)) FATAL("affinity", "running on %d", cpu); if (!all.SetAffinity(0)) FATAL("affinity", "cannot go back"); if (CpuSet b; b.GetAffinity(1 << 30)) FATAL("affinity", "of no process");
  static std::vector<std::string> names; char nm[40], vl[40]; snprintf(nm, 40, "VT_%c%s", (char)('A' + r.below(6)), r.chance(1, 2) ? "" : r.chance(1, 2) ? "X" : "XX"); snprintf(vl, 40, "%s%lu", r.chance(1, 4) ? "=" : "", (long)r.below(1000)); static std::map<std::string, std::string> env; if (r.chance(1, 4)) { unsetenv(nm); env.erase(nm); } else { setenv(nm, vl, 1); env[nm] = vl; } for (char a = 'A'; a < 'G'; a++) for (const char* x : {"", "X", "XX", "XXX"}) { std::string n = std::string("VT_") + a + x; const char* gv = thread_safe_getenv(n.c_str()); auto i = env.find(n); evals++; if ((gv != nullptr) != (i != env.end()) || (gv && i->second != gv)) FATAL("getenv", "%s is \"%s\"", n.c_str(), gv ? gv : "(none)"); }
}
static void own(Rng& r) { // the real files of this process
  size_t np = 1 + r.below(40); char* m = (char*)mmap(nullptr, np * HW, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); madvise(m, np * HW, MADV_NOHUGEPAGE); std::vector<uint8_t> in(np); for (size_t i = 0; i < np; i++) if (r.chance(1, 2)) m[i * HW] = 1, in[i] = 1; static int sync_fd = -1; (void)sync_fd;
  size_t s = r.below(np * HW), n = 1 + r.below(np * HW - s), w = 0; for (size_t p = s / HW; p <= (s + n - 1) / HW; p++) if (in[p]) w += std::min(s + n, (p + 1) * HW) - std::max(s, p * HW); evals++; dist.add(s * 7 + n); size_t g = MInCore::residence(m + s, n); if (g != w) FATAL("own", "%zu bytes in core, %zu are", g, w); ResidencyPageMap pm; auto x = pm.Get(m + s, n); if (x && (x->bytes_resident != w || x->bytes_swapped)) FATAL("own", "%zu bytes resident, %zu are", x->bytes_resident, w);
  static ProcMapsIterator::Buffer buf; ProcMapsIterator it(&buf); uint64_t a, e; char* fl; bool hit = false; while (it.Valid() && it.NextExt(&a, &e, &fl, nullptr, nullptr, nullptr, nullptr)) if (a <= (uint64_t)m && (uint64_t)m + np * HW <= e) { hit = true; if (strncmp(fl, "rw-p", 4)) FATAL("own", "flags %s", fl); } if (it.Valid() && !hit) FATAL("own", "%p not found in the maps", m); munmap(m, np * HW);
  MemoryStats ms; if (GetMemoryStats(ms) && (ms.vss <= 0 || ms.rss <= 0 || ms.rss > ms.vss)) FATAL("own", "vss %ld rss %ld", (long)ms.vss, (long)ms.rss); auto c = sysinfo_internal::NumPossibleCPUsNoCache(); if (c && (*c < sched_getcpu() + 1 || *c > kMaxCpus)) FATAL("own", "%d possible CPUs", *c);
}
int main(int argc, char** argv) {
  if (prepared) judge_topology();
  uint64_t end = now_ns() + (thorough() ? 150ull : 3ull) * 1000000000; Rng r(seed() * 7919 + argv[1][0]); io = Rng(seed() + 99); char m = argv[1][0];
  if (m == 'N' && !subtle::percpu::IsFast()) return inconclusive("no restartable sequences");
  while (now_ns() < end) switch (m) { case 'C': lists(r); break; case 'L': topology(r); break; case 'N': numa(r); break; case 'M': maps(r); break; case 'S': status(r); break; case 'F': flags(r); break; case 'R': residency(r); break; case 'I': incore(r); break; case 'A': affinity(r); break; default: own(r); }
  metric("evals", evals); metric("distinct", dist.n); metric("reads", n_read); metric("short_reads", n_short); metric("interrupted", n_intr); metric("malformed", n_bad); say("SAMPLE mode %c: %lld comparisons, %lld malformed or missing inputs", m, evals, n_bad);
  return done();
}
