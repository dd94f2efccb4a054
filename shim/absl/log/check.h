#ifndef VERIF_SHIM_CHECK_H_
#define VERIF_SHIM_CHECK_H_
#include "absl/log/log.h"
#include "absl/status/status.h"
#define CHECK(cond) \
  for (; !(cond);) LOG(FATAL) << "Check failed: " #cond " "
#define CHECK_EQ(a, b) CHECK((a) == (b))
#define CHECK_NE(a, b) CHECK((a) != (b))
#define CHECK_LE(a, b) CHECK((a) <= (b))
#define CHECK_LT(a, b) CHECK((a) < (b))
#define CHECK_GE(a, b) CHECK((a) >= (b))
#define CHECK_GT(a, b) CHECK((a) > (b))
#define CHECK_OK(e) \
  for (auto verif_ok = ::verif_shim::AsOk(e); !verif_ok;) LOG(FATAL) << "CHECK_OK failed: " #e " "
#define DCHECK(c) CHECK(c)
#define DCHECK_EQ(a, b) CHECK_EQ(a, b)
#define DCHECK_NE(a, b) CHECK_NE(a, b)
#define DCHECK_LE(a, b) CHECK_LE(a, b)
#define DCHECK_LT(a, b) CHECK_LT(a, b)
#define DCHECK_GE(a, b) CHECK_GE(a, b)
#define DCHECK_GT(a, b) CHECK_GT(a, b)
#define QCHECK(c) CHECK(c)
namespace verif_shim {
template <typename S>
inline bool AsOk(const S& s) { return s.ok(); }
}
#endif
