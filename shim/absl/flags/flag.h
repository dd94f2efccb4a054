// Stand-in: flags that are never set from a command line.
#ifndef VERIF_SHIM_ABSL_FLAGS_FLAG_H_
#define VERIF_SHIM_ABSL_FLAGS_FLAG_H_
#include <string>
#include <utility>
namespace absl {
template <typename T>
struct Flag {
  T value;
};
template <typename T>
T GetFlag(const Flag<T>& f) { return f.value; }
template <typename T, typename V>
void SetFlag(Flag<T>* f, const V& v) { f->value = T(v); }
}  // namespace absl
#define ABSL_FLAG(T, name, def, help) ::absl::Flag<T> FLAGS_##name{def}
#define ABSL_DECLARE_FLAG(T, name) extern ::absl::Flag<T> FLAGS_##name
#endif
