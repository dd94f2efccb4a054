#ifndef VERIF_SHIM_INTERNAL_H_
#define VERIF_SHIM_INTERNAL_H_
#include <cstdio>
#include <cstdlib>
#include <ostream>
#include <sstream>
#include <string>
#include "absl/base/log_severity.h"
#include "absl/log/log_entry.h"
#include "absl/log/log_sink.h"
#include "absl/log/log_sink_registry.h"
namespace verif_shim {
// Number of LOG messages per severity since start (index = severity).
inline long log_count[4];
class LogMessage {
 public:
  LogMessage(const char* file, int line, absl::LogSeverity sev)
      : file_(file), line_(line), sev_(sev) {}
  ~LogMessage() {
    log_count[static_cast<int>(sev_)]++;
    std::string text = ss_.str();
    absl::LogEntry entry(sev_, text);
    for (auto* s : absl::shim_sinks()) s->Send(entry);
    static const bool echo = ::getenv("VERIF_LOG") != nullptr;
    if (echo || sev_ == absl::LogSeverity::kFatal)
      ::fprintf(stderr, "[log %d] %s:%d] %s\n", static_cast<int>(sev_), file_,
                line_, text.c_str());
    if (sev_ == absl::LogSeverity::kFatal) ::abort();
  }
  std::ostream& stream() { return ss_; }

 private:
  const char* file_;
  int line_;
  absl::LogSeverity sev_;
  std::ostringstream ss_;
};
}  // namespace verif_shim
#endif
