#ifndef VERIF_SHIM_NO_DESTRUCTOR_H_
#define VERIF_SHIM_NO_DESTRUCTOR_H_
#include <new>
#include <utility>
namespace absl {
template <typename T>
class NoDestructor {
 public:
  template <typename... A>
  explicit NoDestructor(A&&... a) { new (space_) T(std::forward<A>(a)...); }
  NoDestructor(const T& t) { new (space_) T(t); }
  NoDestructor(T&& t) { new (space_) T(std::move(t)); }
  NoDestructor(const NoDestructor&) = delete;
  T* get() { return reinterpret_cast<T*>(space_); }
  const T* get() const { return reinterpret_cast<const T*>(space_); }
  T& operator*() { return *get(); }
  const T& operator*() const { return *get(); }
  T* operator->() { return get(); }
  const T* operator->() const { return get(); }
 private:
  alignas(T) unsigned char space_[sizeof(T)];
};
}  // namespace absl
#endif
