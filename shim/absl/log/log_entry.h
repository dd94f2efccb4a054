#ifndef VERIF_SHIM_LOG_ENTRY_H_
#define VERIF_SHIM_LOG_ENTRY_H_
#include <string>
#include "absl/base/log_severity.h"
#include "absl/strings/string_view.h"
namespace absl {
class LogEntry {
 public:
  LogEntry(LogSeverity sev, const std::string& t) : sev_(sev), text_(t) {}
  LogSeverity log_severity() const { return sev_; }
  absl::string_view text_message() const { return text_; }
 private:
  LogSeverity sev_;
  const std::string& text_;
};
}  // namespace absl
#endif
