// Compat layer: newer abseil's reference-taking lock holders.
#ifndef VERIF_COMPAT_MUTEX_H_
#define VERIF_COMPAT_MUTEX_H_
#include_next "absl/synchronization/mutex.h"
namespace absl {
class VerifMutexLock {
 public:
  explicit VerifMutexLock(Mutex& m) : m_(m) { m_.Lock(); }
  explicit VerifMutexLock(Mutex* m) : m_(*m) { m_.Lock(); }
  ~VerifMutexLock() { m_.Unlock(); }
  VerifMutexLock(const VerifMutexLock&) = delete;
  VerifMutexLock& operator=(const VerifMutexLock&) = delete;
 private:
  Mutex& m_;
};
}
#define MutexLock VerifMutexLock
#endif
