// Stand-in for absl/log/log.h (absent from the installed abseil): LOG(x) with
// the project's four severities. Messages go to the registered sinks and, when
// VERIF_LOG is set, to stderr. LOG(FATAL) aborts, as in abseil.
#ifndef VERIF_SHIM_ABSL_LOG_LOG_H_
#define VERIF_SHIM_ABSL_LOG_LOG_H_
#include "absl/log/internal_shim.h"
#define VERIF_LOG_INFO ::absl::LogSeverity::kInfo
#define VERIF_LOG_WARNING ::absl::LogSeverity::kWarning
#define VERIF_LOG_ERROR ::absl::LogSeverity::kError
#define VERIF_LOG_FATAL ::absl::LogSeverity::kFatal
#define VERIF_LOG_DFATAL ::absl::LogSeverity::kFatal
#define LOG(sev) \
  ::verif_shim::LogMessage(__FILE__, __LINE__, VERIF_LOG_##sev).stream()
#define LOG_IF(sev, cond) \
  for (bool verif_c = (cond); verif_c; verif_c = false) LOG(sev)
#define VLOG(n) LOG_IF(INFO, false)
#define DLOG(sev) LOG(sev)
#define LOG_FIRST_N(sev, n) LOG(sev)
#define LOG_EVERY_N(sev, n) LOG(sev)
#endif
