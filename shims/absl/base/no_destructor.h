#ifndef VERIF_SHIM_NO_DESTRUCTOR_H_
#define VERIF_SHIM_NO_DESTRUCTOR_H_
#include <utility>
namespace absl {
template <typename T>
class NoDestructor {
 public:
  template <typename... Ts>
  explicit NoDestructor(Ts&&... ts) : v_(std::forward<Ts>(ts)...) {}
  NoDestructor(std::initializer_list<typename T::value_type> il) : v_(il) {}
  const T& operator*() const { return v_; }
  T& operator*() { return v_; }
  const T* operator->() const { return &v_; }
  T* operator->() { return &v_; }
  T* get() { return &v_; }
 private:
  T v_;
};
}  // namespace absl
#endif
