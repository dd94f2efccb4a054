#ifndef VERIF_SHIM_LOG_SINK_H_
#define VERIF_SHIM_LOG_SINK_H_
#include "absl/log/log_entry.h"
namespace absl {
class LogSink {
 public:
  virtual ~LogSink() = default;
  virtual void Send(const LogEntry& entry) = 0;
};
}  // namespace absl
#endif
