// Compat layer: newer abseil's SpinLock/SpinLockHolder API on top of the
// installed one (libabsl-dev 20220623).
#ifndef VERIF_COMPAT_SPINLOCK_H_
#define VERIF_COMPAT_SPINLOCK_H_
#define SpinLockHolder VerifOldSpinLockHolder
#include_next "absl/base/internal/spinlock.h"
#undef SpinLockHolder
#ifdef VT_LOCKS
// Lock monitor of the harness (vt_locks.h).
extern "C" void vt_lock_want(const void* lock);
extern "C" void vt_lock_got(const void* lock, bool tried);
extern "C" void vt_lock_drop(const void* lock);
#endif
namespace absl {
namespace base_internal {
class ABSL_LOCKABLE VerifSpinLock : public SpinLock {
 public:
  constexpr VerifSpinLock()
      : SpinLock(absl::kConstInit,
                 base_internal::SCHEDULE_COOPERATIVE_AND_KERNEL) {}
  constexpr explicit VerifSpinLock(base_internal::SchedulingMode mode)
      : SpinLock(absl::kConstInit, mode) {}
  constexpr VerifSpinLock(absl::ConstInitType, base_internal::SchedulingMode mode)
      : SpinLock(absl::kConstInit, mode) {}
#ifdef VT_LOCKS
  inline void Lock() ABSL_EXCLUSIVE_LOCK_FUNCTION() {
    vt_lock_want(this); SpinLock::Lock(); vt_lock_got(this, false); }
  inline bool TryLock() ABSL_EXCLUSIVE_TRYLOCK_FUNCTION(true) {
    bool r = SpinLock::TryLock(); if (r) vt_lock_got(this, true); return r; }
  inline void Unlock() ABSL_UNLOCK_FUNCTION() {
    vt_lock_drop(this); SpinLock::Unlock(); }
#endif
  inline void lock() ABSL_EXCLUSIVE_LOCK_FUNCTION() { Lock(); }
  inline void unlock() ABSL_UNLOCK_FUNCTION() { Unlock(); }
  [[nodiscard]] inline bool try_lock() ABSL_EXCLUSIVE_TRYLOCK_FUNCTION(true) {
    return TryLock();
  }
  // kSpinLockCooperative is bit 1 of the only (private) member.
  bool IsCooperative() const {
    return (reinterpret_cast<const std::atomic<uint32_t>*>(this)->load(
                std::memory_order_relaxed) & 2) != 0;
  }
};
class ABSL_SCOPED_LOCKABLE VerifSpinLockHolder {
 public:
  inline explicit VerifSpinLockHolder(VerifSpinLock& l)
      ABSL_EXCLUSIVE_LOCK_FUNCTION(l) : lock_(l) { l.Lock(); }
  inline explicit VerifSpinLockHolder(VerifSpinLock* l)
      ABSL_EXCLUSIVE_LOCK_FUNCTION(l) : lock_(*l) { l->Lock(); }
  inline ~VerifSpinLockHolder() ABSL_UNLOCK_FUNCTION() { lock_.Unlock(); }
  VerifSpinLockHolder(const VerifSpinLockHolder&) = delete;
  VerifSpinLockHolder& operator=(const VerifSpinLockHolder&) = delete;
 private:
  VerifSpinLock& lock_;
};
}  // namespace base_internal
}  // namespace absl
#define SpinLock VerifSpinLock
#define SpinLockHolder VerifSpinLockHolder
#endif
