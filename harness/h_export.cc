// P33: exported profiles. Modes: S synthetic profiles, B the builder's tables, I build ids, Z zero bytes, M real profiles through Marshal.
#include <elf.h>
#include <link.h>
#include <limits.h>
#include <math.h>
#include <algorithm>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <tuple>
#include <vector>
#include "vt.h"
#ifdef VT_FULL
#include "vt_api.h"
#endif
#include "absl/time/time.h"
#include "google/protobuf/io/gzip_stream.h"
#include "google/protobuf/io/zero_copy_stream_impl_lite.h"
#include "tcmalloc/internal/compressibility.h"
#include "tcmalloc/internal/fake_profile.h"
#include "tcmalloc/internal/pageflags.h"
#include "tcmalloc/internal/profile_builder.h"
#include "tcmalloc/internal/residency.h"
#include "tcmalloc/internal_malloc_extension.h"
#include "tcmalloc/malloc_extension.h"
#include "tcmalloc/profile_marshaler.h"
using namespace vt;
using tcmalloc::Profile; using tcmalloc::ProfileType; using tcmalloc::AllocationType; using namespace tcmalloc::tcmalloc_internal;
namespace pp = perftools::profiles;
static Distinct dist; static long long evals = 0, n_prof = 0, n_in = 0, n_out = 0, n_loc = 0, n_map = 0, n_lab = 0, n_notes = 0;
// ---- the process's own mappings, read independently
struct Map { uint64_t a, b, off; std::string file, id; };
static std::string read_id(dl_phdr_info* info) { std::string res; int found = 0; for (int i = 0; i < info->dlpi_phnum; i++) { auto& ph = info->dlpi_phdr[i]; if (ph.p_type != PT_NOTE) continue; const char* p = (const char*)(info->dlpi_addr + ph.p_vaddr); size_t n = ph.p_filesz, o = 0, al = ph.p_align < 4 ? 4 : ph.p_align; while (o + 12 <= n) { ElfW(Nhdr) h; memcpy(&h, p + o, 12); size_t d = (12 + h.n_namesz + al - 1) / al * al, e = d + (h.n_descsz + al - 1) / al * al; if (o + e > n) break; if (h.n_type == NT_GNU_BUILD_ID && h.n_namesz == 4 && !memcmp(p + o + 12, "GNU", 4)) { found++; for (size_t k = 0; k < h.n_descsz; k++) { char x[4]; snprintf(x, 4, "%02x", (unsigned char)p[o + d + k]); res += x; } } o += e; } } return found == 1 ? res : ""; }
static std::vector<Map> own_maps() { std::vector<Map> v; dl_iterate_phdr([](dl_phdr_info* i, size_t, void* d) { auto& v = *(std::vector<Map>*)d; std::string f = i->dlpi_name ? i->dlpi_name : ""; char b[PATH_MAX]; if (f.empty() && v.empty()) { ssize_t n = readlink("/proc/self/exe", b, PATH_MAX - 1); f.assign(b, n > 0 ? n : 0); } if (realpath(f.c_str(), b)) f = b; std::string id = read_id(i); for (int k = 0; k < i->dlpi_phnum; k++) if (i->dlpi_phdr[k].p_type == PT_LOAD) v.push_back({i->dlpi_addr + i->dlpi_phdr[k].p_vaddr, i->dlpi_addr + i->dlpi_phdr[k].p_vaddr + i->dlpi_phdr[k].p_memsz, i->dlpi_phdr[k].p_offset, f, id}); return 0; }, &v); return v; }
// ---- structure: every reference resolves
static const std::string& str(const pp::Profile& p, int64_t i) { if (i < 0 || i >= p.string_table_size()) FATAL("string", "string %ld of %d referenced", (long)i, p.string_table_size()); return p.string_table(i); }
struct Locs { std::map<uint64_t, uint64_t> addr; };
static Locs structure(const pp::Profile& p, const char* d, bool own) { if (p.string_table_size() < 1 || !p.string_table(0).empty()) FATAL("string", "%s: the string table does not begin with the empty string", d); std::set<std::string> ss(p.string_table().begin(), p.string_table().end()); if ((int)ss.size() != p.string_table_size()) FATAL("string", "%s: duplicate strings", d);
  std::map<uint64_t, const pp::Mapping*> mp; for (auto& m : p.mapping()) { if (!m.id() || !mp.emplace(m.id(), &m).second) FATAL("mapping", "%s: mapping id %lu is zero or used twice", d, (long)m.id()); str(p, m.filename()); str(p, m.build_id()); n_map++; }
  Locs L; std::set<uint64_t> addrs; for (auto& l : p.location()) { n_loc++; if (!l.id() || !L.addr.emplace(l.id(), l.address()).second) FATAL("location", "%s: location id %lu is zero or used twice", d, (long)l.id()); if (!addrs.insert(l.address()).second) FATAL("location", "%s: address %lx has two locations", d, (long)l.address()); if (l.mapping_id()) { auto it = mp.find(l.mapping_id()); if (it == mp.end()) FATAL("mapping", "%s: location refers to mapping %lu, which does not exist", d, (long)l.mapping_id()); if (l.address() < it->second->memory_start() || l.address() >= it->second->memory_limit()) FATAL("mapping", "%s: address %lx attributed to mapping [%lx, %lx)", d, (long)l.address(), (long)it->second->memory_start(), (long)it->second->memory_limit()); } else for (auto& m : p.mapping()) if (l.address() >= m.memory_start() && l.address() < m.memory_limit()) FATAL("mapping", "%s: address %lx has no mapping though [%lx, %lx) contains it", d, (long)l.address(), (long)m.memory_start(), (long)m.memory_limit()); for (auto& ln : l.line()) { bool ok = false; for (auto& f : p.function()) ok |= f.id() == ln.function_id(); if (!ok) FATAL("function", "%s: function missing", d); } }
  for (auto& t : p.sample_type()) { str(p, t.type()); str(p, t.unit()); } str(p, p.default_sample_type()); str(p, p.drop_frames()); str(p, p.keep_frames()); str(p, p.doc_url()); str(p, p.period_type().type()); str(p, p.period_type().unit()); for (auto c : p.comment()) str(p, c);
  for (auto& s : p.sample()) { if (s.value_size() != p.sample_type_size()) FATAL("values", "%s: a sample has %d values for %d types", d, s.value_size(), p.sample_type_size()); for (auto l : s.location_id()) if (!L.addr.count(l)) FATAL("location", "%s: sample refers to location %lu, which does not exist", d, (long)l); for (auto& l : s.label()) { str(p, l.key()); str(p, l.str()); str(p, l.num_unit()); if (!l.key()) FATAL("label", "%s: a label without a key", d); if (l.str() && l.num()) FATAL("label", "%s: a label with both a string and a number", d); } }
  if (own) { auto v = own_maps(); if (p.mapping_size() != (int)v.size()) FATAL("ownmaps", "%s: %d mappings, the process has %zu", d, p.mapping_size(), v.size()); for (size_t i = 0; i < v.size(); i++) { auto& m = p.mapping(i); std::string f = p.string_table(m.filename()); if (m.memory_start() != v[i].a || m.memory_limit() != v[i].b || m.file_offset() != v[i].off || (!v[i].file.empty() && f != v[i].file) || p.string_table(m.build_id()) != v[i].id) FATAL("ownmaps", "%s: mapping %zu is [%lx, %lx) of %s (%s), the loader has [%lx, %lx) of %s (%s)", d, i, (long)m.memory_start(), (long)m.memory_limit(), f.c_str(), p.string_table(m.build_id()).c_str(), (long)v[i].a, (long)v[i].b, v[i].file.c_str(), v[i].id.c_str()); } }
  evals += p.sample_size() + p.location_size() + p.mapping_size(); return L; }
// ---- what a sample must look like, written out as text
static std::string lab(const std::string& k, const std::string& v, const std::string& unit = "") { return k + "=" + v + (unit.empty() ? "" : "[" + unit + "]") + ";"; }
static std::string num(uint64_t v) { return std::to_string((int64_t)v); }
static std::string render(const pp::Profile& p, const pp::Sample& s, const Locs& L, bool values = true) { std::string o; for (auto l : s.location_id()) { char b[20]; snprintf(b, 20, "%lx,", (long)L.addr.at(l)); o += b; } o += "|"; std::vector<std::string> ls; for (auto& l : s.label()) ls.push_back(lab(str(p, l.key()), l.str() ? str(p, l.str()) : num(l.num()), str(p, l.num_unit()))); std::sort(ls.begin(), ls.end()); n_lab += ls.size(); for (auto& l : ls) o += l; o += "|"; if (values) for (auto v : s.value()) o += std::to_string(v) + ","; return o; }
static std::string stack_text(const Profile::Sample& e) { std::string o; for (int i = 0; i < e.depth; i++) { char b[20]; snprintf(b, 20, "%lx,", (long)e.stack[i] - 1); o += b; } return o + "|"; }
static void common(const Profile::Sample& e, std::vector<std::string>& ls) { using S = Profile::Sample; if (e.allocated_size) ls.push_back(lab("bytes", num(e.allocated_size), "bytes")); if (e.requested_size) ls.push_back(lab("request", num(e.requested_size), "bytes")); if (e.requested_alignment.has_value() && (size_t)*e.requested_alignment) ls.push_back(lab("alignment", num((size_t)*e.requested_alignment), "bytes")); if (e.requested_size_returning) ls.push_back(lab("size_returning", "1")); ls.push_back(lab("access_hint", num((uint8_t)e.access_hint), "access_hint")); if (e.access_allocated == S::Access::Hot) ls.push_back(lab("access_allocated", "hot")); if (e.access_allocated == S::Access::Cold) ls.push_back(lab("access_allocated", "cold")); ls.push_back(lab("token_id", num((uint8_t)e.token_id), "token_id"));
  ls.push_back(lab("allocation type", e.type == AllocationType::New ? "new" : e.type == AllocationType::Malloc ? "malloc" : "aligned malloc")); using G = S::GuardedStatus; const char* g = "?"; switch (e.guarded_status) { case G::LargerThanOnePage: g = "LargerThanOnePage"; break; case G::Disabled: g = "Disabled"; break; case G::RateLimited: g = "RateLimited"; break; case G::NoAvailableSlots: g = "NoAvailableSlots"; break; case G::MProtectFailed: g = "MProtectFailed"; break; case G::Filtered: g = "Filtered"; break; case G::NotAttempted: g = "NotAttempted"; break; case G::Requested: g = "Requested"; break; case G::Required: g = "Required"; break; case G::Guarded: g = "Guarded"; break; default: break; } ls.push_back(lab("guarded_status", g)); }
static std::string finish(const std::string& st, std::vector<std::string> ls, const std::vector<int64_t>* v) { std::sort(ls.begin(), ls.end()); std::string o = st; for (auto& l : ls) o += l; o += "|"; if (v) for (auto x : *v) o += std::to_string(x) + ","; return o; }
// fakes: the answer depends on the address alone
static Residency::Info fake_res(uint64_t a, size_t n, bool& ok) { uint64_t h = mix(a * 77 + n); ok = h % 5 != 0; Residency::Info i; i.bytes_resident = (h >> 8) % (n + 1); i.bytes_swapped = (h >> 30) % (n + 1); return i; }
static PageStats fake_pf(uint64_t a, size_t n, bool& ok) { uint64_t h = mix(a * 33 + n * 5); ok = h % 6 != 0; PageStats s; s.bytes_stale = (h >> 8) % (n + 1); s.bytes_locked = (h >> 30) % (n + 1); s.stale_scan_seconds = (h >> 50) % 3 ? 120 : (h >> 55) % 4 * 40; return s; }
struct FRes : Residency { std::optional<Info> Get(const void* a, size_t n) override { bool ok; Info i = fake_res((uint64_t)a, n, ok); if (!ok) return std::nullopt; return i; } size_t GetHardwarePagesInHugePage() const override { return 512; } SinglePageBitmaps GetUnbackedAndSwappedBitmaps(const void*) override { return {}; } };
struct FPf : PageFlagsBase { std::optional<bool> IsHugepageBacked(const void*) override { return std::nullopt; } std::optional<PageStats> Get(const void* a, size_t n) override { bool ok; PageStats s = fake_pf((uint64_t)a, n, ok); if (!ok) return std::nullopt; return s; } PageFlagsBitmaps GetSinglePageBitmaps(const void*) override { return {}; } };
static Profile::Sample sample(Rng& r, const std::vector<Map>& maps) { using S = Profile::Sample; S s = {}; s.count = r.chance(1, 10) ? 1 + (int64_t)(r.next() >> (20 + r.below(40))) : 1 + r.below(1000); s.sum = s.count * (1 + (int64_t)r.below(10000)); s.requested_size = r.chance(1, 8) ? 0 : r.chance(1, 6) ? r.next() >> (20 + r.below(40)) : 1 + r.below(3000); if (r.chance(1, 3)) s.requested_alignment = std::align_val_t(r.chance(1, 5) ? 0 : 1ull << r.below(22)); s.allocated_size = r.chance(1, 30) ? 0 : s.requested_size + r.below(4096); s.requested_size_returning = r.chance(1, 3); s.access_hint = (tcmalloc::hot_cold_t)(r.chance(1, 2) ? r.below(256) : 255); s.access_allocated = (S::Access)r.below(3); s.token_id = (tcmalloc::TokenId)(r.chance(1, 2) ? r.below(11) : 0); s.alloc_handle = (tcmalloc::MallocHook::AllocHandle)(r.chance(1, 3) ? 0 : r.next() >> r.below(40));
  static const S::GuardedStatus gs[] = {S::GuardedStatus::LargerThanOnePage, S::GuardedStatus::Disabled, S::GuardedStatus::RateLimited, S::GuardedStatus::NoAvailableSlots, S::GuardedStatus::MProtectFailed, S::GuardedStatus::Filtered, S::GuardedStatus::NotAttempted, S::GuardedStatus::Requested, S::GuardedStatus::Required, S::GuardedStatus::Guarded}; s.guarded_status = gs[r.below(10)]; s.type = (AllocationType)r.below(3); s.depth = r.chance(1, 12) ? 0 : r.chance(1, 8) ? 64 : 1 + r.below(20); for (int i = 0; i < s.depth; i++) { uint64_t a; if (r.chance(1, 2)) { auto& m = maps[r.below(maps.size())]; switch (r.below(5)) { case 0: a = m.a; break; case 1: a = m.a + 1; break; case 2: a = m.b; break; case 3: a = m.b + 1; break; default: a = m.a + r.below(m.b - m.a); } } else a = r.chance(1, 10) ? r.below(3) : r.chance(1, 10) ? ~0ull - r.below(3) : 0x1000 * (1 + r.below(50)); s.stack[i] = (void*)a; } s.span_start_address = (void*)(0x200000000000ull + r.below(1 << 20) * 8192); return s; }
static void lifetime_fields(Rng& r, Profile::Sample& s) { auto dur = [&] { return r.chance(1, 5) ? absl::ZeroDuration() : r.chance(1, 12) ? absl::InfiniteDuration() : r.chance(1, 8) ? -absl::Nanoseconds(5) : absl::Nanoseconds((int64_t)(r.next() >> (2 + r.below(50)))); }; s.profile_id = r.chance(1, 5) ? 0 : r.below(1000); s.allocation_time = r.chance(1, 3) ? absl::UnixEpoch() : absl::FromUnixNanos((int64_t)(r.next() >> 2)); s.avg_lifetime = dur(); s.stddev_lifetime = dur(); s.min_lifetime = dur(); s.max_lifetime = dur(); auto oi = [&](std::optional<int>& o) { if (r.chance(2, 3)) o = r.chance(1, 6) ? -1 : (int)r.below(100000); }; auto ob = [&](std::optional<bool>& o) { if (r.chance(2, 3)) o = r.chance(1, 2); }; oi(s.cpu_id); oi(s.vcpu_id); oi(s.l3_id); oi(s.numa_id); oi(s.thread_id); ob(s.allocator_deallocator_physical_cpu_matched); ob(s.allocator_deallocator_virtual_cpu_matched); ob(s.allocator_deallocator_l3_matched); ob(s.allocator_deallocator_numa_matched); ob(s.allocator_deallocator_thread_matched); s.is_censored = r.chance(1, 3); if (r.chance(1, 2)) s.count = -s.count; }
static std::string lifetime_text(const Profile::Sample& e) { std::vector<std::string> ls; common(e, ls); auto pos = [&](const char* k, int64_t v, const char* u) { if (v > 0 || (v < 0)) ls.push_back(lab(k, num(v), u)); }; if (e.profile_id) pos("callstack-pair-id", e.profile_id, "count"); auto du = [&](const char* k, absl::Duration d) { pos(k, absl::ToInt64Nanoseconds(d), "nanoseconds"); }; du("avg_lifetime", e.avg_lifetime); du("stddev_lifetime", e.stddev_lifetime); du("min_lifetime", e.min_lifetime); du("max_lifetime", e.max_lifetime); auto oi = [&](const char* k, std::optional<int> o) { if (o) ls.push_back(lab(k, num((uint64_t)(int64_t)*o))); }; auto ob = [&](const char* k, std::optional<bool> o) { ls.push_back(lab(k, !o ? "none" : *o ? "same" : "different")); };
  oi("cpu_id", e.cpu_id); ob("active CPU", e.allocator_deallocator_physical_cpu_matched); oi("vcpu_id", e.vcpu_id); ob("active vCPU", e.allocator_deallocator_virtual_cpu_matched); oi("l3_id", e.l3_id); ob("active L3", e.allocator_deallocator_l3_matched); oi("numa_id", e.numa_id); ob("active NUMA", e.allocator_deallocator_numa_matched); oi("thread_id", e.thread_id); ob("active thread", e.allocator_deallocator_thread_matched); if ((int64_t)e.alloc_handle) ls.push_back(lab("alloc_handle", num((uint64_t)e.alloc_handle), "count"));
  if (e.allocation_time > absl::UnixEpoch()) { if (e.count < 0) ls.push_back(lab("deallocation_time", num(absl::ToUnixNanos(e.allocation_time)), "nanoseconds")); else { ls.push_back(lab("allocation_time", num(absl::ToUnixNanos(e.allocation_time)), "nanoseconds")); ls.push_back(lab("requested_size", num(e.requested_size), "bytes")); } } int64_t c = e.count < 0 ? -e.count : e.count; std::vector<int64_t> v(6); int at = e.is_censored ? 4 : e.count > 0 ? 0 : 2; v[at] = c; v[at + 1] = e.sum; return finish(stack_text(e), ls, &v); }
using Key = std::tuple<std::vector<void*>, size_t, bool, size_t, bool, size_t, int, int, int, int, int>;
static Key key(const Profile::Sample& e) { return {std::vector<void*>(e.stack, e.stack + e.depth), e.requested_size, e.requested_alignment.has_value(), e.requested_alignment ? (size_t)*e.requested_alignment : 0, e.requested_size_returning, e.allocated_size, (int)e.access_hint, (int)e.access_allocated, (int)e.token_id, (int)e.guarded_status, (int)e.type}; }
struct Agg { Profile::Sample e; int64_t c = 0, s = 0; uint64_t res = 0, swp = 0, st = 0, lk = 0; bool any = false; uint64_t per = 0; };
static void types(const pp::Profile& p, const std::vector<std::pair<const char*, const char*>>& want, const char* def, const char* d) { bool ok = p.sample_type_size() == (int)want.size(); for (size_t i = 0; ok && i < want.size(); i++) ok = str(p, p.sample_type(i).type()) == want[i].first && str(p, p.sample_type(i).unit()) == want[i].second; if (!ok) FATAL("types", "%s: wrong sample types", d); if (str(p, p.default_sample_type()) != def) FATAL("types", "%s: default type %s", d, str(p, p.default_sample_type()).c_str()); if (str(p, p.period_type().type()) != "space" || str(p, p.period_type().unit()) != "bytes") FATAL("types", "%s: period type", d); if (str(p, p.drop_frames()).empty()) FATAL("types", "%s: no frames to drop", d); evals++; }
static const std::vector<std::pair<const char*, const char*>> kLife = {{"allocated_objects", "count"}, {"allocated_space", "bytes"}, {"deallocated_objects", "count"}, {"deallocated_space", "bytes"}, {"censored_allocated_objects", "count"}, {"censored_allocated_space", "bytes"}}, kTwo = {{"objects", "count"}, {"space", "bytes"}}, kHeapT = {{"objects", "count"}, {"space", "bytes"}, {"resident_space", "bytes"}, {"swapped_space", "bytes"}, {"stale_space", "bytes"}, {"locked_space", "bytes"}};
static void compare(std::multiset<std::string> want, const pp::Profile& p, const Locs& L, const char* d, bool values = true) { for (auto& s : p.sample()) { std::string t = render(p, s, L, values); n_out++; auto it = want.find(t); if (it == want.end()) { std::string near; for (auto& w : want) if (w.substr(0, w.find('|')) == t.substr(0, t.find('|'))) near = w; FATAL("sample", "%s: the export has %.420s, which the profile has not; it has %.420s", d, t.c_str(), near.c_str()); } want.erase(it); evals++; } if (!want.empty()) FATAL("sample", "%s: %zu samples are not exported, such as %.600s", d, want.size(), want.begin()->c_str()); }
static void synthetic(Rng& r) { static const std::vector<Map> maps = own_maps(); static const ProfileType ty[] = {ProfileType::kHeap, ProfileType::kPeakHeap, ProfileType::kAllocations, ProfileType::kLifetimes, ProfileType::kEventTrace}; auto type = ty[r.below(5)]; bool life = type == ProfileType::kLifetimes || type == ProfileType::kEventTrace, heap = type == ProfileType::kHeap; std::vector<Profile::Sample> v; int n = r.chance(1, 10) ? 0 : 1 + r.below(40);
  for (int i = 0; i < n; i++) { Profile::Sample s; if (!v.empty() && r.chance(1, 2)) { s = v[r.below(v.size())]; auto o = sample(r, maps); switch (r.below(16)) { case 0: s.requested_size = o.requested_size; break; case 1: s.requested_alignment = o.requested_alignment; break; case 2: s.allocated_size = o.allocated_size; break; case 3: s.requested_size_returning = !s.requested_size_returning; break; case 4: s.access_hint = o.access_hint; break; case 5: s.access_allocated = o.access_allocated; break; case 6: s.token_id = o.token_id; break; case 7: s.guarded_status = o.guarded_status; break; case 8: s.type = o.type; break; case 9: if (s.depth) s.stack[s.depth - 1] = (void*)((uintptr_t)s.stack[s.depth - 1] + 1); break; case 10: if (s.depth) s.depth--; break; case 11: s.span_start_address = o.span_start_address; break; default: break; } s.count = o.count; s.sum = o.sum; s.span_start_address = o.span_start_address; if (life && r.chance(1, 2)) lifetime_fields(r, s); } else { s = sample(r, maps); if (life) lifetime_fields(r, s); } if (heap) { s.count = 1 + r.below(1000); s.allocated_size %= 1ull << 34; } v.push_back(s); }
  n_in += n; auto fp = std::make_unique<FakeProfile>(); fp->SetSamples(v); fp->SetType(type); absl::Duration dur = r.chance(1, 8) ? absl::InfiniteDuration() : absl::Nanoseconds((int64_t)(r.next() >> (1 + r.below(60)))); fp->SetDuration(dur); std::optional<absl::Time> st; if (r.chance(2, 3)) st = absl::FromUnixNanos((int64_t)(r.next() >> 1)); fp->SetStartTime(st); Profile prof = ProfileAccessor::MakeProfile(std::move(fp)); FRes fr; FPf ff; bool ur = heap && r.chance(3, 4), uf = heap && r.chance(3, 4); auto res = MakeProfileProto(prof, uf ? &ff : nullptr, ur ? &fr : nullptr); char d[80]; snprintf(d, 80, "profile of type %d with %d entries", (int)type, n); if (!res.ok()) FATAL("refused", "%s: %s", d, res.status().ToString().c_str()); pp::Profile& p = **res; Locs L = structure(p, d, true);
  if (p.duration_nanos() != absl::ToInt64Nanoseconds(dur)) FATAL("times", "%s: duration", d); if (p.time_nanos() != (st ? absl::ToUnixNanos(*st) : 0)) FATAL("times", "%s: start time", d); std::multiset<std::string> want;
  if (life) { types(p, kLife, "deallocated_space", d); for (auto& e : v) want.insert(lifetime_text(e)); for (int i = 0; i < n && i < p.sample_size(); i++) if (render(p, p.sample(i), L) != lifetime_text(v[i])) FATAL("sample", "%s: entry %d is exported as %.500s, it is %.500s", d, i, render(p, p.sample(i), L).c_str(), lifetime_text(v[i]).c_str()); }
  else { types(p, heap ? kHeapT : kTwo, type == ProfileType::kAllocations ? "objects" : "space", d); std::map<Key, Agg> m; for (auto& e : v) { auto& a = m[key(e)]; a.e = e; a.c += e.count; a.s += e.sum; bool ok; if (ur) { auto i = fake_res((uint64_t)e.span_start_address, e.allocated_size, ok); if (ok) a.res += e.count * i.bytes_resident, a.swp += e.count * i.bytes_swapped; } if (uf) { auto i = fake_pf((uint64_t)e.span_start_address, e.allocated_size, ok); if (ok) { a.st += e.count * i.bytes_stale; a.lk += e.count * i.bytes_locked; if (!a.any) a.per = i.stale_scan_seconds, a.any = true; else if (a.per != i.stale_scan_seconds) a.per = 0; } } }
    for (auto& [k, a] : m) { std::vector<std::string> ls; common(a.e, ls); if (a.per) ls.push_back(lab("stale_scan_period", num(a.per), "seconds")); std::vector<int64_t> x = {a.c, a.s}; if (heap) for (uint64_t y : {a.res, a.swp, a.st, a.lk}) x.push_back(y); want.insert(finish(stack_text(a.e), ls, &x)); } }
  compare(want, p, L, d); n_prof++; dist.add(mix((int)type * 131 + n) ^ (v.empty() ? 0 : (uint64_t)v[0].sum)); }
// ---- the builder alone
static void builder(Rng& r) { ProfileBuilder b; struct M { uint64_t a, e, off; std::string f, id; }; std::vector<M> ms; std::vector<std::pair<std::string, int>> ss; std::vector<std::pair<uint64_t, int>> ls; uint64_t at = r.below(1 << 20), bump = 0; std::vector<M> pool; for (int i = 0, n = r.below(20); i < n; i++) { at += r.chance(1, 2) ? 0 : r.below(1 << 16); uint64_t e = at + (r.chance(1, 12) ? 0 : 1 + r.below(1 << 18)); if (e > at) pool.push_back({at, e, r.next() >> 30, "f" + num(r.below(5)), r.chance(1, 3) ? "" : num(r.next() >> 40)}); at = e; } if (r.chance(1, 5)) pool.push_back({~0ull - 4096, ~0ull, 0, "top", "x"}); for (size_t i = pool.size(); i > 1; i--) std::swap(pool[i - 1], pool[r.below(i)]);
  auto string = [&] { std::string s; switch (r.below(6)) { case 0: break; case 1: s = std::string(1 + r.below(4), 'a' + r.below(3)); break; case 2: for (int i = r.below(20); i >= 0; i--) s += (char)('a' + r.below(26)); break; case 3: s = std::string("x\0y", 3); s += (char)('a' + r.below(3)); break; case 4: s.assign(r.below(5000), 'q'); break; default: s = "s" + num(r.below(30)); } return s; };
  for (auto& m : pool) { int id = b.AddMapping(m.a, m.e, m.off, m.f, m.id); ms.push_back(m); if (id < 1 || id > b.profile().mapping_size() || (int)b.profile().mapping(id - 1).id() != id) FATAL("mapping", "AddMapping gives id %d", id); }
  for (int i = 0, n = r.below(300); i < n; i++) { if (r.chance(1, 2)) { std::string s = string(); int id = b.InternString(s); ss.push_back({s, id}); if (id < 0 || id >= b.profile().string_table_size() || b.profile().string_table(id) != s) FATAL("string", "a string of %zu bytes is not found under its index %d", s.size(), id); } else { uint64_t a = r.chance(1, 2) || ms.empty() ? r.below(at + 10) : r.chance(1, 2) ? ms[r.below(ms.size())].a - r.below(2) : ms[r.below(ms.size())].e - r.below(3); if (r.chance(1, 30)) a = ~0ull - r.below(2); if (r.chance(1, 3)) { pp::Sample s; std::vector<const void*> v; int k = r.below(10); for (int j = 0; j < k; j++) v.push_back((void*)(a + 1 + j % 3)); b.InternCallstack(v, s); if (s.location_id_size() != k) FATAL("stack", "%d frames give %d locations", k, s.location_id_size()); for (int j = 0; j < k; j++) ls.push_back({(uint64_t)v[j] - 1, (int)s.location_id(j)}); } else ls.push_back({a, b.InternLocation((void*)a)}); } evals++; }
  for (auto& [s, id] : ss) if (b.InternString(s) != id) FATAL("string", "a string has two indexes"); for (auto& [a, id] : ls) if (b.InternLocation((void*)a) != id) FATAL("location", "address %lx has two locations", (long)a); bool url = r.chance(1, 2); if (url) { std::string u = r.chance(1, 3) ? "" : std::string(r.chance(1, 2) ? "http://" : "https://") + string(), w = r.chance(1, 2) ? "ftp://x" : "httpx://"; if (!b.SetDocURL(u).ok()) FATAL("url", "%.50s refused", u.c_str()); if (b.SetDocURL(w).ok()) FATAL("url", "%s accepted", w.c_str()); auto p2 = &b.profile(); if (p2->string_table(p2->doc_url()) != u) FATAL("url", "another url is kept"); }
  auto p = std::move(b).Finalize(); Locs L = structure(*p, "builder", false); for (auto& [a, id] : ls) if (L.addr[id] != a) FATAL("location", "location %d is %lx, not %lx", id, (long)L.addr[id], (long)a); if (p->mapping_size() != (int)ms.size()) FATAL("mapping", "%d mappings of %zu", p->mapping_size(), ms.size()); for (size_t i = 0; i < ms.size(); i++) { auto& m = p->mapping(i); if (m.memory_start() != ms[i].a || m.memory_limit() != ms[i].e || m.file_offset() != ms[i].off || p->string_table(m.filename()) != ms[i].f || p->string_table(m.build_id()) != ms[i].id) FATAL("mapping", "mapping %zu differs from the one added", i); } dist.add(mix(ls.size() * 131 + ss.size()) ^ at); bump++; }
// ---- build ids: notes lie at the end of accessible memory
static void build_id(Rng& r) { static uint8_t* base = [] { auto* p = (uint8_t*)mmap(nullptr, 3 * 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); mprotect(p + 8192, 4096, PROT_NONE); return p; }(); int nseg = 1 + r.below(3); std::vector<ElfW(Phdr)> ph; std::string want; int found = 0; uint8_t* end = base + 8192; std::string d;
  for (int k = 0; k < nseg; k++) { ElfW(Phdr) h = {}; if (r.chance(1, 6)) { h.p_type = PT_LOAD; ph.push_back(h); continue; } size_t al = r.chance(1, 2) ? 4 : 8; std::string seg; bool bad = false; for (int i = 0, n = r.below(4); i < n && !bad; i++) { bool id = r.chance(1, 2); std::string name = id ? std::string("GNU\0", 4) : r.chance(1, 3) ? std::string("GNU\0", 4) : std::string("X", 1) + std::string(r.below(9), 'n'); if (id && r.chance(1, 8)) name = std::string("GNX\0", 4); size_t ds = r.chance(1, 8) ? 0 : r.below(40); ElfW(Nhdr) nh = {(ElfW(Word))name.size(), (ElfW(Word))ds, (ElfW(Word))(id ? NT_GNU_BUILD_ID : 1 + r.below(2))}; std::string desc; for (size_t j = 0; j < ds; j++) desc += (char)r.next(); int how = r.chance(1, 8) ? 1 + r.below(4) : 0; if (how == 1) nh.n_namesz = ~0u - r.below(20); if (how == 2) nh.n_descsz = ~0u - r.below(20); if (how == 3) nh.n_descsz += 4096; if (how == 4) nh.n_namesz += 4096; std::string one((char*)&nh, 12); one += name; while (one.size() % al) one += '\0'; one += desc; while (one.size() % al) one += '\0'; bad = how; if (!bad && i + 1 == n && r.chance(1, 8)) { one.resize(one.size() - 1 - r.below(one.size() - 1)); bad = true; size_t need = (12 + name.size() + al - 1) / al * al + (ds + al - 1) / al * al; (void)need; } if (!bad && nh.n_type == NT_GNU_BUILD_ID && name == std::string("GNU\0", 4)) { if (ds) found++; else if (found) found++; if (ds) want = desc; if (!ds && found > 1) want = ""; } seg += one; } end -= seg.size(); if ((uintptr_t)end % 4 && (!bad || kSan)) { end -= (uintptr_t)end % 4; } memcpy(end, seg.data(), seg.size()); h.p_type = PT_NOTE; h.p_vaddr = (uint64_t)end; h.p_filesz = h.p_memsz = seg.size(); h.p_align = al; ph.push_back(h); if (bad && k + 1 < nseg) n_notes++; }
  dl_phdr_info info = {}; info.dlpi_phdr = ph.data(); info.dlpi_phnum = ph.size(); std::string hex; for (unsigned char c : want) { char x[4]; snprintf(x, 4, "%02x", c); hex += x; } std::string got = GetBuildId(&info); n_notes++; evals++; if (found > 1) { if (!got.empty()) FATAL("buildid", "%d build ids, one is reported", found); } else if (got != (found ? hex : "")) FATAL("buildid", "build id %s reported, it is %s", got.c_str(), found ? hex.c_str() : "absent"); dist.add(mix(got.size() * 77 + nseg) ^ (uint64_t)want.size() ^ r.below(1 << 20)); }
// ---- zero bytes of an allocation
static void zeros(Rng& r) { static uint8_t* base = (uint8_t*)mmap(nullptr, 8 << 20, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); size_t cap = r.chance(1, 2) ? 2 << 20 : r.chance(1, 2) ? 1 + r.below(20000) : 4096; CompressionAnalyzer an(cap); size_t off = r.chance(1, 2) ? r.below(8192) : 4096 * r.below(4), n = r.chance(1, 20) ? 0 : r.chance(1, 2) ? 1 + r.below(20000) : 1 + r.below(3 << 20); std::vector<bool> res; Residency::Info info; size_t a = off / 4096, z = (off + n + 4095) / 4096, nb = info.page_is_resident.size(); std::string flat; double pz = r.unit();
  for (size_t pg = a; pg < z; pg++) { size_t lo = std::max(off, pg * 4096), hi = std::min(off + n, (pg + 1) * 4096); bool resident = r.chance(2, 3); if (resident) { info.bytes_resident += hi - lo; if (pg - a < nb) info.page_is_resident.SetRange(pg - a, 1); for (size_t i = lo; i < hi; i++) base[i] = i % 64 == 0 ? (r.unit() < pz ? 0 : 7) : base[i - (i % 64 ? 1 : 0)]; if (pg - a < nb) flat.append((char*)base + lo, hi - lo); } else if (r.chance(1, 3)) info.bytes_swapped += hi - lo; }
  if (flat.size() > cap) flat.resize(cap); auto got = an.Analyze(absl::Span<const char>((char*)base + off, n), info); evals++; if (!got.ok()) FATAL("zero", "refused: %s", got.status().ToString().c_str()); size_t backed = std::min(n, info.bytes_resident + info.bytes_swapped), unb = n - backed; double want = unb; if (!flat.empty()) want += (double)std::count(flat.begin(), flat.end(), '\0') / flat.size() * backed; if (fabs((double)got->zero_bytes - want) > 1.5) FATAL("zero", "%zu bytes at %zu, %zu resident, copy of at most %zu: %zu zero bytes, a recount gives %.1f", n, off, info.bytes_resident, cap, got->zero_bytes, want); dist.add(n * 31 + off); }
#ifdef VT_FULL
static void gz(const std::string& s, pp::Profile& p) { google::protobuf::io::ArrayInputStream in(s.data(), s.size()); google::protobuf::io::GzipInputStream g(&in); if (!p.ParseFromZeroCopyStream(&g)) FATAL("parse", "the export cannot be read back"); }
static std::vector<Block> live; 
__attribute__((noinline)) static void churn(Rng& r, int n) { for (int i = 0; i < n; i++) { if (live.size() < 300 || r.chance(1, 2)) { if (live.size() > 2000) continue; Block b = do_alloc(r.below(F_COUNT), rand_size(r, 300000), rand_align(r), r.below(256)); if (b.p) { if (r.chance(1, 2)) memset(b.p, 1, std::min<size_t>(b.req, 4096)); live.push_back(b); } } else { size_t i = r.below(live.size()); do_free(live[i], r.next()); live[i] = live.back(); live.pop_back(); } } }
static void real(Rng& r) { using tcmalloc::MallocExtension; int k = r.below(5); MallocExtension::SetProfileSamplingInterval(r.chance(1, 2) ? 1 : 1 + r.below(200000)); churn(r, 300); auto profile = [&]() -> Profile { if (k == 0) return MallocExtension::SnapshotCurrent(ProfileType::kHeap); if (k == 1) return MallocExtension::SnapshotCurrent(ProfileType::kPeakHeap); auto t = k == 2 ? MallocExtension::StartAllocationProfiling() : k == 3 ? MallocExtension::StartLifetimeProfiling() : MallocExtension::StartLifetimeProfiling(); churn(r, 600); return std::move(t).Stop(); }(); MallocExtension::SetProfileSamplingInterval(1 << 30);
  auto out = tcmalloc::Marshal(profile); char d[60]; snprintf(d, 60, "profile of type %d", (int)profile.Type()); if (!out.ok()) FATAL("refused", "%s: %s", d, out.status().ToString().c_str()); pp::Profile p; gz(*out, p); Locs L = structure(p, d, true); std::multiset<std::string> want; bool life = profile.Type() == ProfileType::kLifetimes, heap = profile.Type() == ProfileType::kHeap; long n = 0;
  if (life) { types(p, kLife, "deallocated_space", d); profile.Iterate([&](const Profile::Sample& e) { want.insert(lifetime_text(e)); n++; }); compare(want, p, L, d); }
  else { types(p, heap ? kHeapT : kTwo, k == 2 ? "objects" : "space", d); std::map<Key, Agg> m; profile.Iterate([&](const Profile::Sample& e) { auto& a = m[key(e)]; a.e = e; a.c += e.count; a.s += e.sum; n++; }); for (auto& [kk, a] : m) { std::vector<std::string> ls; common(a.e, ls); std::vector<int64_t> v = {a.c, a.s}; std::string t = finish(stack_text(a.e), ls, &v); want.insert(t); }
    for (auto& s : *p.mutable_sample()) { if (heap) { int64_t sp = s.value(1), res = s.value(2), sw = s.value(3); for (int i = 2; i < 6; i++) if (s.value(i) < 0) FATAL("resident", "%s: negative value", d); (void)sp; int64_t alloc = 0; for (auto& l : s.label()) if (str(p, l.key()) == "bytes") alloc = l.num(); if (res + sw > s.value(0) * alloc) FATAL("resident", "%s: %ld bytes resident or swapped of %ld blocks of %ld", d, (long)(res + sw), (long)s.value(0), (long)alloc); s.mutable_value()->Truncate(2); auto* lm = s.mutable_label(); for (int i = lm->size(); i-- > 0;) if (str(p, (*lm)[i].key()) == "stale_scan_period") lm->DeleteSubrange(i, 1); } } compare(want, p, L, d); }
  if (profile.Type() == ProfileType::kHeap && !n && !live.empty() && 0) FATAL("empty", "%s", d); int inexe = 0; for (auto& s : p.sample()) { bool any = false; for (auto l : s.location_id()) for (auto& m : p.mapping()) any |= m.id() == 1 || (L.addr[l] >= m.memory_start() && L.addr[l] < m.memory_limit()); inexe += any; } if (inexe != p.sample_size()) FATAL("mapped", "%s: %d of %d samples have no mapped frame", d, p.sample_size() - inexe, p.sample_size()); n_in += n; n_prof++; dist.add(out->size() * 31 + k); }
#endif
int main(int, char** argv) {
  Rng r(seed() * 31 + argv[1][0]); uint64_t end = now_ns() + (uint64_t)((thorough() ? 200 : 3.5) * 1e9); long n = 0;
#ifdef VT_FULL
  live.reserve(4000);
#endif
  do { n++; switch (argv[1][0]) { case 'S': synthetic(r); break; case 'B': builder(r); break; case 'I': build_id(r); break; case 'Z': zeros(r); break;
#ifdef VT_FULL
    case 'M': real(r); break;
#endif
  } } while (now_ns() < end);
  metric("evals", evals); metric("distinct", dist.n); metric("sessions", n); metric("profiles", n_prof); metric("entries", n_in); metric("samples_exported", n_out); metric("locations", n_loc); metric("mappings", n_map); metric("labels", n_lab);
  say("SAMPLE mode %c: %ld sessions, %lld profiles of %lld entries exported as %lld samples with %lld labels, %lld locations", argv[1][0], n, n_prof, n_in, n_out, n_lab, n_loc); return done(); }
