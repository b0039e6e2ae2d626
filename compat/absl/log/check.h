#ifndef VERIF_COMPAT_CHECK_H_
#define VERIF_COMPAT_CHECK_H_
#include <cstdlib>
#include <iostream>
namespace verif_compat {
struct FatalStream {
  FatalStream(const char* f, int l, const char* c) { std::cerr << f << ":" << l << " CHECK failed: " << c << " "; }
  [[noreturn]] ~FatalStream() { std::cerr << std::endl; std::abort(); }
  template <class T> FatalStream& operator<<(const T& t) { std::cerr << t; return *this; }
};
struct LogStream {
  bool fatal;
  LogStream(const char* f, int l, bool fa) : fatal(fa) { std::cerr << f << ":" << l << "] "; }
  ~LogStream() { std::cerr << std::endl; if (fatal) std::abort(); }
  template <class T> LogStream& operator<<(const T& t) { std::cerr << t; return *this; }
};
}
#define VERIF_CHECK(c) while (!(c)) ::verif_compat::FatalStream(__FILE__, __LINE__, #c)
#define CHECK(c) VERIF_CHECK(c)
#define CHECK_EQ(a, b) VERIF_CHECK((a) == (b))
#define CHECK_NE(a, b) VERIF_CHECK((a) != (b))
#define CHECK_LE(a, b) VERIF_CHECK((a) <= (b))
#define CHECK_LT(a, b) VERIF_CHECK((a) < (b))
#define CHECK_GE(a, b) VERIF_CHECK((a) >= (b))
#define CHECK_GT(a, b) VERIF_CHECK((a) > (b))
#define CHECK_OK(s) VERIF_CHECK((s).ok())
#define ABSL_CHECK(c) VERIF_CHECK(c)
#define ABSL_CHECK_EQ(a, b) VERIF_CHECK((a) == (b))
#define ABSL_CHECK_NE(a, b) VERIF_CHECK((a) != (b))
#define ABSL_CHECK_OK(s) VERIF_CHECK((s).ok())
#define VERIF_LOG_INFO ::verif_compat::LogStream(__FILE__, __LINE__, false)
#define VERIF_LOG_WARNING ::verif_compat::LogStream(__FILE__, __LINE__, false)
#define VERIF_LOG_ERROR ::verif_compat::LogStream(__FILE__, __LINE__, false)
#define VERIF_LOG_FATAL ::verif_compat::LogStream(__FILE__, __LINE__, true)
#define LOG(sev) VERIF_LOG_##sev
#define PLOG(sev) VERIF_LOG_##sev
#define PCHECK(c) VERIF_CHECK(c)
#endif
