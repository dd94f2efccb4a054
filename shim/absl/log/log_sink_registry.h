#ifndef VERIF_SHIM_LOG_SINK_REGISTRY_H_
#define VERIF_SHIM_LOG_SINK_REGISTRY_H_
#include <algorithm>
#include <vector>
#include "absl/log/log_sink.h"
namespace absl {
inline std::vector<LogSink*>& shim_sinks() {
  static auto* v = new std::vector<LogSink*>;
  return *v;
}
inline void AddLogSink(LogSink* s) { shim_sinks().push_back(s); }
inline void RemoveLogSink(LogSink* s) {
  auto& v = shim_sinks();
  v.erase(std::remove(v.begin(), v.end(), s), v.end());
}
}  // namespace absl
#endif
