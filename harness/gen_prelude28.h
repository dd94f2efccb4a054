#include <cstring>
#include "gen_prelude.h"
#include "absl/numeric/int128.h"
namespace vf {
struct Args {
  uint8_t word[64];
  uint8_t value[16];
  uint8_t result[64];
  int index;
};
template <typename T>
T Rd(const uint8_t* p) {
  T t;
  memcpy(&t, p, sizeof t);
  return t;
}
inline void Put(uint8_t* p, uint64_t v) { memcpy(p, &v, 8); }
inline void Wr(uint8_t* p, absl::uint128 t) { memcpy(p, &t, 16); }
template <typename T>
void Wr(uint8_t* p, T t) {
  Put(p, (uint64_t)(int64_t)t);  // sign or zero extended
}
}
