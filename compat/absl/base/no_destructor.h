#ifndef VERIF_COMPAT_NO_DESTRUCTOR_H_
#define VERIF_COMPAT_NO_DESTRUCTOR_H_
#include <new>
#include <utility>
namespace absl {
template <typename T>
class NoDestructor {
 public:
  template <typename... A>
  explicit constexpr NoDestructor(A&&... a) { new (&s_) T(std::forward<A>(a)...); }
  T* get() { return reinterpret_cast<T*>(&s_); }
  const T* get() const { return reinterpret_cast<const T*>(&s_); }
  T& operator*() { return *get(); }
  T* operator->() { return get(); }
  const T& operator*() const { return *get(); }
  const T* operator->() const { return get(); }
 private:
  alignas(T) unsigned char s_[sizeof(T)];
};
}
#endif
