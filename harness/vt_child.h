// Runs a scenario in a forked child and collects what it printed and how it ended.
#pragma once
#include <poll.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include "vt.h"
namespace vt {
struct Outcome { int status = 0; char text[24000]; size_t n = 0; bool timeout = false;
  bool killed(int sig) const { return WIFSIGNALED(status) && WTERMSIG(status) == sig; }
  bool died() const { return WIFSIGNALED(status); }
  bool has(const char* s) const { return strstr(text, s) != nullptr; }
  void shown(char* out, size_t cap) const { size_t j = 0; for (size_t i = 0; i < n && j + 1 < cap; i++) { char c = text[i]; if (c == '\n') c = '|'; out[j++] = c; } out[j] = 0; } };
// exit status 77 means that the scenario ran to its end
template <class F> static void run_child(Outcome& o, F f, int seconds = 60) {
  int pi[2]; if (pipe(pi)) FATAL("harness", "pipe"); fflush(stdout); o = Outcome(); pid_t pid = fork(); if (pid < 0) FATAL("harness", "fork: %d", errno);
  if (!pid) { close(pi[0]); dup2(pi[1], 2); dup2(pi[1], 1); rlimit rl{0, 0}; setrlimit(RLIMIT_CORE, &rl); f(); _exit(77); }
  close(pi[1]); uint64_t end = now_ns() + seconds * 1000000000ull; size_t cap = sizeof o.text - 1;
  for (;;) { pollfd pf{pi[0], POLLIN, 0}; int64_t left = (int64_t)(end - now_ns()) / 1000000; if (left <= 0) { o.timeout = true; kill(pid, SIGKILL); break; } int r = poll(&pf, 1, left); if (r <= 0) continue;
    char buf[4096]; ssize_t k = read(pi[0], buf, sizeof buf); if (k <= 0) break; size_t m = (size_t)k < cap - o.n ? k : cap - o.n; memcpy(o.text + o.n, buf, m); o.n += m; }
  o.text[o.n] = 0; close(pi[0]); while (waitpid(pid, &o.status, 0) < 0 && errno == EINTR) {}
}
// a page both sides see
template <class T> static T* shared() { return (T*)mmap(nullptr, (sizeof(T) + 4095) & ~4095ul, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); }
// the addresses printed after `head` ("  @  0x..." lines); returns their number
static inline int stack_after(const char* text, const char* head, void** out, int cap) {
  const char* p = strstr(text, head); if (!p) return -1; p = strchr(p, '\n'); int n = 0;
  while (p && n < cap) { p++; const char* e = strchr(p, '\n'); const char* at = strstr(p, "@  0x"); if (!at || (e && at > e)) break; out[n++] = (void*)strtoull(at + 3, nullptr, 16); p = e; }
  return n;
}
}  // namespace vt
