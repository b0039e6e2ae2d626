// Compat layer: a small, allocation-free implementation of the parts of
// absl/strings/str_format.h that tcmalloc uses, including %v and AbslStringify,
// which libabsl-dev 20220623 lacks.
#ifndef VERIF_COMPAT_STR_FORMAT_H_
#define VERIF_COMPAT_STR_FORMAT_H_
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

#include <atomic>
#include <cstddef>
#include <ostream>
#include <string>
#include <string_view>
#include <type_traits>
#include <utility>

#include "absl/strings/string_view.h"
#include "absl/time/time.h"

namespace absl {
namespace verif_fmt {

// Output target: bounded buffer or growing string; counts everything.
class Sink {
 public:
  Sink(char* b, size_t n) : b_(b), n_(n) {}
  explicit Sink(std::string* s) : s_(s) {}
  void Append(std::string_view v) {
    if (s_ != nullptr) {
      s_->append(v.data(), v.size());
    } else if (total_ < n_) {
      size_t k = n_ - total_ < v.size() ? n_ - total_ : v.size();
      memcpy(b_ + total_, v.data(), k);
    }
    total_ += v.size();
  }
  void Append(size_t count, char ch) {
    for (size_t i = 0; i < count; ++i) Append(std::string_view(&ch, 1));
  }
  size_t total() const { return total_; }

 private:
  char* b_ = nullptr;
  size_t n_ = 0;
  std::string* s_ = nullptr;
  size_t total_ = 0;
};

template <typename T, typename = void>
struct HasStringify : std::false_type {};
template <typename T>
struct HasStringify<T, std::void_t<decltype(AbslStringify(
                           std::declval<Sink&>(), std::declval<const T&>()))>>
    : std::true_type {};
template <typename T, typename = void>
struct HasAppend : std::false_type {};
template <typename T>
struct HasAppend<T, std::void_t<decltype(std::declval<T&>().Append(
                        std::string_view()))>> : std::true_type {};

struct Arg {
  enum Kind { kI, kU, kD, kS, kP, kC, kB, kCustom } kind = kI;
  int bytes = 8;
  long long i = 0;
  unsigned long long u = 0;
  double d = 0;
  std::string_view s;
  const volatile void* p = nullptr;
  void (*fn)(Sink&, const void*) = nullptr;
};

template <typename T>
void CallStringify(Sink& s, const void* v) {
  AbslStringify(s, *static_cast<const T*>(v));
}
inline void DurationStringify(Sink& s, const void* v) {
  s.Append(absl::FormatDuration(*static_cast<const absl::Duration*>(v)));
}

template <typename T>
Arg MakeArg(const T& v) {
  Arg a;
  a.p = &v;
  if constexpr (std::is_same_v<T, bool>) {
    a.kind = Arg::kB; a.i = v; a.u = v;
  } else if constexpr (std::is_same_v<T, char>) {
    a.kind = Arg::kC; a.i = v; a.u = static_cast<unsigned char>(v); a.bytes = 1;
  } else if constexpr (std::is_same_v<T, absl::Duration>) {
    a.kind = Arg::kCustom; a.fn = &DurationStringify;
  } else if constexpr (HasStringify<T>::value) {
    a.kind = Arg::kCustom; a.fn = &CallStringify<T>;
    if constexpr (std::is_enum_v<T>) { a.i = static_cast<long long>(v); a.u = a.i; }
  } else if constexpr (std::is_enum_v<T>) {
    using U = std::underlying_type_t<T>;
    return MakeArg<std::conditional_t<std::is_same_v<U, bool>, int, U>>(
        static_cast<std::conditional_t<std::is_same_v<U, bool>, int, U>>(v));
  } else if constexpr (std::is_integral_v<T> && std::is_signed_v<T>) {
    a.kind = Arg::kI; a.i = v; a.u = static_cast<std::make_unsigned_t<T>>(v); a.bytes = sizeof(T);
  } else if constexpr (std::is_integral_v<T>) {
    a.kind = Arg::kU; a.u = v; a.i = v; a.bytes = sizeof(T);
  } else if constexpr (std::is_floating_point_v<T>) {
    a.kind = Arg::kD; a.d = v;
  } else if constexpr (std::is_convertible_v<const T&, const char*>) {
    a.kind = Arg::kS;
    const char* c = v;
    a.p = c;
    a.s = c == nullptr ? std::string_view() : std::string_view(c);
  } else if constexpr (std::is_same_v<T, absl::string_view>) {
    a.kind = Arg::kS; a.s = std::string_view(v.data(), v.size());
  } else if constexpr (std::is_convertible_v<const T&, std::string_view>) {
    a.kind = Arg::kS; a.s = v;
  } else if constexpr (std::is_same_v<T, std::atomic<int>> || std::is_convertible_v<const T&, long long>) {
    a.kind = Arg::kI; a.i = static_cast<long long>(v); a.u = a.i;
  } else if constexpr (std::is_convertible_v<const T&, const volatile void*>) {
    a.kind = Arg::kP; a.p = v;
  } else if constexpr (std::is_pointer_v<T>) {
    a.kind = Arg::kP; a.p = reinterpret_cast<const void*>(v);
  } else {
    static_assert(sizeof(T) == 0, "unsupported format argument");
  }
  return a;
}

[[noreturn]] inline void BadFormat(const char* f) {
  fprintf(stderr, "verif compat str_format: bad format '%s'\n", f);
  abort();
}

inline void Pad(Sink& out, std::string_view v, int width, bool left) {
  size_t pad = width > 0 && static_cast<size_t>(width) > v.size() ? width - v.size() : 0;
  if (!left && pad) out.Append(pad, ' ');
  out.Append(v);
  if (left && pad) out.Append(pad, ' ');
}

inline void FormatTo(Sink& out, const char* format, const Arg* args, size_t nargs) {
  const char* f = format;
  size_t next = 0;
  while (*f) {
    const char* pct = strchr(f, '%');
    if (pct == nullptr) { out.Append(std::string_view(f)); break; }
    if (pct != f) out.Append(std::string_view(f, pct - f));
    f = pct + 1;
    if (*f == '%') { out.Append(std::string_view("%", 1)); ++f; continue; }
    char flags[8]; int nf = 0; bool left = false;
    while (*f && strchr("-+ #0", *f)) { if (*f == '-') left = true; if (nf < 6) flags[nf++] = *f; ++f; }
    int width = -1, prec = -1;
    if (*f == '*') { if (next >= nargs) BadFormat(format); width = static_cast<int>(args[next++].i); if (width < 0) { left = true; flags[nf++] = '-'; width = -width; } ++f; }
    else { while (*f >= '0' && *f <= '9') { width = (width < 0 ? 0 : width) * 10 + (*f - '0'); ++f; } }
    if (*f == '.') {
      ++f; prec = 0;
      if (*f == '*') { if (next >= nargs) BadFormat(format); prec = static_cast<int>(args[next++].i); ++f; }
      else while (*f >= '0' && *f <= '9') { prec = prec * 10 + (*f - '0'); ++f; }
    }
    while (*f && strchr("hlzjtLq", *f)) ++f;
    char conv = *f;
    if (!conv || next >= nargs) BadFormat(format);
    ++f;
    const Arg& a = args[next++];
    flags[nf] = 0;
    if (conv == 'v') {
      switch (a.kind) {
        case Arg::kI: conv = 'd'; break;
        case Arg::kU: conv = 'u'; break;
        case Arg::kD: conv = 'g'; break;
        case Arg::kC: conv = 'c'; break;
        case Arg::kS: conv = 's'; break;
        case Arg::kP: conv = 'p'; break;
        case Arg::kB: Pad(out, a.i ? "true" : "false", width, left); continue;
        case Arg::kCustom: a.fn(out, const_cast<const void*>(a.p)); continue;
      }
    }
    char buf[448]; char spec[64]; int n = 0;
    if (width > 400) width = 400;
    const int w = width < 0 ? 0 : width;
    switch (conv) {
      case 's':
        if (a.kind == Arg::kCustom) { a.fn(out, const_cast<const void*>(a.p)); continue; }
        if (a.kind != Arg::kS) BadFormat(format);
        Pad(out, a.p == nullptr && a.s.data() == nullptr && a.s.size() == 0 ? std::string_view()
                 : (prec >= 0 ? a.s.substr(0, prec) : a.s), width, left);
        continue;
      case 'c': { char c = static_cast<char>(a.i); Pad(out, std::string_view(&c, 1), width, left); continue; }
      case 'p':
        if (a.kind != Arg::kP && a.kind != Arg::kS) BadFormat(format);
        if (a.p == nullptr) { Pad(out, "(nil)", width, left); continue; }
        n = snprintf(buf, sizeof(buf), "0x%llx", static_cast<unsigned long long>(reinterpret_cast<uintptr_t>(a.p)));
        Pad(out, std::string_view(buf, n), width, left);
        continue;
      case 'd': case 'i': case 'u': case 'x': case 'X': case 'o': {
        if (a.kind == Arg::kD || a.kind == Arg::kS || a.kind == Arg::kP) BadFormat(format);
        const bool sgn = (conv == 'd' || conv == 'i') && a.kind != Arg::kU;
        char c = (conv == 'd' || conv == 'i') && !sgn ? 'u' : conv;
        if (prec >= 0) snprintf(spec, sizeof(spec), "%%%s%d.%dll%c", flags, w, prec, c);
        else if (w) snprintf(spec, sizeof(spec), "%%%s%dll%c", flags, w, c);
        else snprintf(spec, sizeof(spec), "%%%sll%c", flags, c);
        n = sgn ? snprintf(buf, sizeof(buf), spec, a.i) : snprintf(buf, sizeof(buf), spec, a.u);
        break;
      }
      case 'f': case 'F': case 'e': case 'E': case 'g': case 'G': case 'a': case 'A': {
        double d = a.kind == Arg::kD ? a.d : a.kind == Arg::kU ? static_cast<double>(a.u) : static_cast<double>(a.i);
        if (a.kind == Arg::kS || a.kind == Arg::kP || a.kind == Arg::kCustom) BadFormat(format);
        if (prec >= 0) snprintf(spec, sizeof(spec), "%%%s%d.%d%c", flags, w, prec, conv);
        else if (w) snprintf(spec, sizeof(spec), "%%%s%d%c", flags, w, conv);
        else snprintf(spec, sizeof(spec), "%%%s%c", flags, conv);
        n = snprintf(buf, sizeof(buf), spec, d);
        break;
      }
      default: BadFormat(format);
    }
    if (n < 0 || n >= static_cast<int>(sizeof(buf))) BadFormat(format);
    out.Append(std::string_view(buf, n));
  }
  if (next != nargs) BadFormat(format);
}

template <typename... A>
void FormatAll(Sink& out, const char* format, const A&... args) {
  const Arg arr[sizeof...(A) + 1] = {MakeArg(args)..., Arg()};
  FormatTo(out, format, arr, sizeof...(A));
}
}  // namespace verif_fmt

class VerifFormatSpec {
 public:
  constexpr VerifFormatSpec(const char* f) : f_(f) {}  // NOLINT
  const char* c_str() const { return f_; }
 private:
  const char* f_;
};
template <typename... Args>
struct VerifSpecFor { using type = VerifFormatSpec; };
// An alias to a nested type, so that Args are never deduced from the format.
template <typename... Args>
using FormatSpec = typename VerifSpecFor<Args...>::type;

template <typename... Args>
int SNPrintF(char* out, size_t n, const VerifFormatSpec& f, const Args&... args) {
  verif_fmt::Sink s(out, n == 0 ? 0 : n - 1);
  verif_fmt::FormatAll(s, f.c_str(), args...);
  if (n != 0) out[s.total() < n - 1 ? s.total() : n - 1] = 0;
  return static_cast<int>(s.total());
}
template <typename... Args>
std::string StrFormat(const char* f, const Args&... args) {
  std::string r; verif_fmt::Sink s(&r);
  verif_fmt::FormatAll(s, f, args...);
  return r;
}
template <typename... Args>
std::string& StrAppendFormat(std::string* dst, const char* f, const Args&... args) {
  verif_fmt::Sink s(dst);
  verif_fmt::FormatAll(s, f, args...);
  return *dst;
}
template <typename... Args>
int FPrintF(FILE* o, const char* f, const Args&... args) {
  std::string r = StrFormat(f, args...);
  return static_cast<int>(fwrite(r.data(), 1, r.size(), o));
}
template <typename... Args>
int PrintF(const char* f, const Args&... args) { return FPrintF(stdout, f, args...); }
template <typename... Args>
std::string StreamFormat(const char* f, const Args&... args) { return StrFormat(f, args...); }

template <typename SinkT, typename... Args>
bool Format(SinkT* sink, const char* f, const Args&... args) {
  if constexpr (std::is_same_v<SinkT, verif_fmt::Sink>) {
    verif_fmt::FormatAll(*sink, f, args...);
  } else if constexpr (std::is_same_v<SinkT, std::string>) {
    StrAppendFormat(sink, f, args...);
  } else if constexpr (std::is_base_of_v<std::ostream, SinkT>) {
    (*sink) << StrFormat(f, args...);
  } else {
    sink->Append(StrFormat(f, args...));
  }
  return true;
}
}  // namespace absl
#endif
