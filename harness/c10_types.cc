// C10: floating point classification, half to single conversion, type maps.
#include <cmath>
#include <cstring>
#include <limits>
#include <string>
#include <type_traits>

#include "mc.h"
#include "mpact/sim/generic/signed_type.h"
#include "mpact/sim/generic/type_helpers.h"

using mc::Ctx;
using namespace mpact::sim::generic;

namespace {

// ---- IEEE 754 from first principles. ----------------------------------------
struct Fmt {
  int bits, exp;
  int sig() const { return bits - exp - 1; }
};
struct Cls {
  bool inf, nan, snan, qnan, sign;
};
inline Cls Classify(uint64_t v, Fmt f) {
  uint64_t sig = v & ((1ull << f.sig()) - 1);
  uint64_t e = (v >> f.sig()) & ((1ull << f.exp) - 1);
  bool top = e == (1ull << f.exp) - 1;
  bool quiet = (sig >> (f.sig() - 1)) & 1;
  Cls c;
  c.inf = top && sig == 0;
  c.nan = top && sig != 0;
  c.snan = c.nan && !quiet;
  c.qnan = c.nan && quiet;
  c.sign = (v >> (f.bits - 1)) & 1;
  return c;
}
template <typename T>
inline T From(uint64_t v) {
  T t;
  memcpy(&t, &v, sizeof t);
  return t;
}
// 32 bit aware memcpy of floats keeps the bits (no conversions involved).
template <typename T>
inline void Check1(Ctx& c, uint64_t v, Fmt f, const char* name) {
  using I = FPTypeInfo<T>;
  Cls w = Classify(v, f);
  T t = From<T>(v);
  if (I::IsInf(t) != w.inf || I::IsNaN(t) != w.nan || I::IsSNaN(t) != w.snan ||
      I::IsQNaN(t) != w.qnan || I::SignBit(t) != w.sign)
    c.fail("%s 0x%llx: inf %d/%d nan %d/%d snan %d/%d qnan %d/%d sign %d/%d "
           "(got/expected)",
           name, (unsigned long long)v, I::IsInf(t), w.inf, I::IsNaN(t), w.nan,
           I::IsSNaN(t), w.snan, I::IsQNaN(t), w.qnan, I::SignBit(t), w.sign);
}
template <typename T>
void Params(Ctx& c, Fmt f, const char* name) {
  using I = FPTypeInfo<T>;
  uint64_t sign = 1ull << (f.bits - 1);
  uint64_t emask = ((1ull << f.exp) - 1) << f.sig();
  c.check(I::kBitSize == f.bits && I::kExpSize == f.exp &&
              I::kSigSize == f.sig(),
          "%s: field sizes %d %d %d", name, I::kBitSize, I::kExpSize,
          I::kSigSize);
  c.check(I::kExpBias == (1 << (f.exp - 1)) - 1, "%s: bias %d", name,
          I::kExpBias);
  c.check((uint64_t)I::kExpMask == emask &&
              (uint64_t)I::kSigMask == (1ull << f.sig()) - 1 &&
              (uint64_t)I::kInfMask == sign - 1,
          "%s: masks", name);
  c.check((uint64_t)I::kPosInf == emask && (uint64_t)I::kNegInf == (emask | sign),
          "%s: infinities", name);
  c.check((uint64_t)I::kCanonicalNaN == (emask | (1ull << (f.sig() - 1))),
          "%s: canonical NaN", name);
  c.check(sizeof(typename I::UIntType) * 8 == (size_t)f.bits &&
              std::is_unsigned<typename I::UIntType>::value &&
              sizeof(typename I::IntType) * 8 == (size_t)f.bits &&
              std::is_signed<typename I::IntType>::value,
          "%s: integer types", name);
}
constexpr Fmt kHalf{16, 5}, kSingle{32, 8}, kDouble{64, 11};

void Constants(Ctx& c) {
  c.op("format parameters");
  Params<HalfFP>(c, kHalf, "HalfFP");
  Params<uint16_t>(c, kHalf, "uint16_t");
  Params<int16_t>(c, kHalf, "int16_t");
  Params<float>(c, kSingle, "float");
  Params<uint32_t>(c, kSingle, "uint32_t");
  Params<int32_t>(c, kSingle, "int32_t");
  Params<double>(c, kDouble, "double");
  Params<uint64_t>(c, kDouble, "uint64_t");
  Params<int64_t>(c, kDouble, "int64_t");
#define SAME(A, ...) \
  c.check((std::is_same<A, __VA_ARGS__>::value), #A " is not " #__VA_ARGS__);
  SAME(WideType<int8_t>::type, int16_t)
  SAME(WideType<int16_t>::type, int32_t)
  SAME(WideType<int32_t>::type, int64_t)
  SAME(WideType<int64_t>::type, absl::int128)
  SAME(WideType<uint8_t>::type, uint16_t)
  SAME(WideType<uint16_t>::type, uint32_t)
  SAME(WideType<uint32_t>::type, uint64_t)
  SAME(WideType<uint64_t>::type, absl::uint128)
  SAME(NarrowType<int16_t>::type, int8_t)
  SAME(NarrowType<int32_t>::type, int16_t)
  SAME(NarrowType<int64_t>::type, int32_t)
  SAME(NarrowType<uint16_t>::type, uint8_t)
  SAME(NarrowType<uint32_t>::type, uint16_t)
  SAME(NarrowType<uint64_t>::type, uint32_t)
  SAME(MakeUnsigned<int8_t>::type, uint8_t)
  SAME(MakeUnsigned<int64_t>::type, uint64_t)
  SAME(MakeUnsigned<uint32_t>::type, uint32_t)
  SAME(MakeUnsigned<absl::int128>::type, absl::uint128)
  SAME(MakeUnsigned<absl::uint128>::type, absl::uint128)
  using SS1 = SameSignedType<uint8_t, int64_t>::type;
  using SS2 = SameSignedType<int64_t, uint8_t>::type;
  using SS3 = SameSignedType<int16_t, int8_t>::type;
  using SS4 = SameSignedType<uint32_t, uint16_t>::type;
  SAME(SS1, int8_t)
  SAME(SS2, uint64_t)
  SAME(SS3, int16_t)
  SAME(SS4, uint32_t)
  SAME(internal::SignedType<bool>::type, bool)
  SAME(internal::SignedType<uint8_t>::type, int8_t)
  SAME(internal::SignedType<int8_t>::type, int8_t)
  SAME(internal::SignedType<uint16_t>::type, int16_t)
  SAME(internal::SignedType<int16_t>::type, int16_t)
  SAME(internal::SignedType<uint32_t>::type, int32_t)
  SAME(internal::SignedType<int32_t>::type, int32_t)
  SAME(internal::SignedType<uint64_t>::type, int64_t)
  SAME(internal::SignedType<int64_t>::type, int64_t)
  c.check(IsMpactFp<HalfFP>::value && IsMpactFp<float>::value &&
              IsMpactFp<double>::value && !IsMpactFp<uint16_t>::value &&
              !IsMpactFp<int>::value && !IsMpactFp<bool>::value,
          "IsMpactFp");
  enum class E : uint8_t { a = 3, b = 250 };
  enum class S : int64_t { a = -5 };
  c.check(*E::b == 250 && *E::a == 3 && *S::a == -5, "enum dereference");
  c.check(FloatingPointToString<float>(0.5f) == std::to_string(0.5f) &&
              FloatingPointToString<double>(-2.25) == std::to_string(-2.25),
          "FloatingPointToString");
}

void Half(Ctx& c) {
  int hi = c.choose(256, "high byte");
  c.op("half values 0x%02x00..0x%02xff", hi, hi);
  for (int lo = 0; lo < 256; lo++) {
    uint16_t v = hi * 256 + lo;
    Check1<HalfFP>(c, v, kHalf, "HalfFP");
    Check1<uint16_t>(c, v, kHalf, "uint16_t");
    Check1<int16_t>(c, v, kHalf, "int16_t");
    float got = ConvertHalfToSingle(HalfFP{v});
    uint32_t bits;
    memcpy(&bits, &got, 4);
    Cls w = Classify(v, kHalf), g = Classify(bits, kSingle);
    c.check(g.sign == w.sign, "half 0x%04x: sign lost in 0x%08x", v, bits);
    c.check(g.inf == w.inf && g.nan == w.nan,
            "half 0x%04x became 0x%08x: infinity/NaN not preserved", v, bits);
    if (!w.nan && !w.inf) {
      int e = (v >> 10) & 31, s = v & 1023;
      double want = e == 0 ? std::ldexp(s, -24) : std::ldexp(1024 + s, e - 25);
      if (w.sign) want = -want;
      c.check((double)got == want, "half 0x%04x became %a, %a expected", v,
              (double)got, want);
      std::string str = FloatingPointToString(HalfFP{v});
      c.check(str == std::to_string((float)want), "text of half 0x%04x is %s", v,
              str.c_str());
    } else if (w.nan) {
      c.check(g.qnan, "NaN half 0x%04x became the signalling NaN 0x%08x", v,
              bits);
    }
    c.state_hash(v);
  }
}
template <typename A, typename B, typename D>
void Single(Ctx& c, const uint64_t v) {
  Check1<A>(c, v, kSingle, "float");
  Check1<B>(c, v, kSingle, "uint32_t");
  Check1<D>(c, v, kSingle, "int32_t");
}
void SingleEdges(Ctx& c) {
  int hi = c.choose(512, "sign and exponent");
  c.op("singles with sign/exponent 0x%x", hi);
  auto one = [&](uint32_t sig) {
    Single<float, uint32_t, int32_t>(c, ((uint32_t)hi << 23) | sig);
  };
  for (uint32_t i = 0; i < 4096; i++) {
    one(i);
    one(i << 11);
    one(0x7fffff - i);
  }
  c.bulk(4096 * 9);
}
void SingleAll(Ctx& c) {
  uint32_t hi = c.choose(4096, "high 12 bits");
  c.op("singles 0x%03x00000...", hi);
  for (uint32_t i = 0; i < (1u << 20); i++)
    Single<float, uint32_t, int32_t>(c, (hi << 20) | i);
  c.bulk(3ull << 20);
}
void Double(Ctx& c) {
  uint64_t hi = c.choose(4096, "sign and exponent");
  c.op("doubles with sign/exponent 0x%llx", (unsigned long long)hi);
  auto one = [&](uint64_t sig) {
    uint64_t v = (hi << 52) | (sig & ((1ull << 52) - 1));
    Check1<double>(c, v, kDouble, "double");
    Check1<uint64_t>(c, v, kDouble, "uint64_t");
    Check1<int64_t>(c, v, kDouble, "int64_t");
    c.bulk(3);
  };
  one(0);
  for (int i = 0; i < 52; i++)
    for (int j = i; j < 52; j++) {
      uint64_t p = (1ull << i) | (1ull << j);
      one(p);
      one(~p);
      one((1ull << j) - (1ull << i));
    }
  c.state_hash(hi);
}

}  // namespace

int main(int argc, char** argv) {
  return mc::Main(argc, argv, "C10",
                  {{"constants", Constants, 0},
                   {"half_all", Half, 1},
                   {"single_edges", SingleEdges, 1},
                   {"double", Double, 1},
                   {"single_all", SingleAll, 1, true}},
                  "all 65536 half values; singles: every sign/exponent with "
                  "12288 significands (thorough: all 2^32); doubles: every "
                  "sign/exponent with all significands of <= 2 set or clear "
                  "bits and all runs");
}
