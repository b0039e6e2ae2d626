#ifndef VERIF_COMPAT_RAO_H_
#define VERIF_COMPAT_RAO_H_
#include <string>
#include <utility>
namespace absl {
template <typename T, typename Op>
void StringResizeAndOverwrite(T& str, typename T::size_type n, Op op) {
  str.resize(n);
  auto r = std::move(op)(&str[0], n);
  str.erase(static_cast<typename T::size_type>(r));
}
}
#endif
