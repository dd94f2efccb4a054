#pragma once
#include <utility>
namespace absl {
template <typename T>
class NoDestructor {
 public:
  template <typename... A>
  explicit NoDestructor(A&&... a) : p_(new T(std::forward<A>(a)...)) {}
  explicit NoDestructor(const T& x) : p_(new T(x)) {}
  explicit NoDestructor(T&& x) : p_(new T(std::move(x))) {}
  T* operator->() const { return p_; }
  T& operator*() const { return *p_; }
  T* get() const { return p_; }

 private:
  T* p_;
};
}  // namespace absl
