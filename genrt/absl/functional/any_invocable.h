// Stand-in for the generated decoders: their tables hold plain functions.
#pragma once
#include <utility>
namespace absl {
template <typename Sig>
class AnyInvocable;
template <typename R, typename... A>
class AnyInvocable<R(A...)> {
 public:
  constexpr AnyInvocable(R (*f)(A...)) : f_(f) {}
  R operator()(A... a) const { return f_(std::forward<A>(a)...); }

 private:
  R (*f_)(A...);
};
}  // namespace absl
