// C03: immediate, literal and wrapper operands report their value faithfully.
#include <any>
#include <limits>
#include <memory>
#include <string>
#include <type_traits>
#include <vector>

#include "mc.h"
#include "mpact/sim/generic/immediate_operand.h"
#include "mpact/sim/generic/literal_operand.h"
#include "mpact/sim/generic/operand_interface.h"
#include "mpact/sim/generic/wrapper_operand.h"

using mc::Ctx;
using namespace mpact::sim::generic;

namespace {

// The value every accessor has to give for a source value of type T: the
// two's complement representation of the value, cut or (sign-)extended.
template <typename T>
void CheckAll(Ctx& c, SourceOperandInterface* op, int index, T v) {
  __int128 wide = v;
  auto cut = [&](int bits) -> uint64_t {
    return static_cast<uint64_t>(wide) &
           (bits == 64 ? ~0ull : (1ull << bits) - 1);
  };
#define A(F, B)                                                            \
  c.check(static_cast<uint64_t>(                                           \
              static_cast<std::make_unsigned_t<decltype(op->F(index))>>(   \
                  op->F(index))) == cut(B),                                \
          #F "(%d) of %lld is 0x%llx", index, (long long)v,                \
          (unsigned long long)op->F(index));
  A(AsInt8, 8)
  A(AsUint8, 8)
  A(AsInt16, 16)
  A(AsUint16, 16)
  A(AsInt32, 32)
  A(AsUint32, 32)
  A(AsInt64, 64)
  A(AsUint64, 64)
#undef A
  c.check(op->AsBool(index) == (v != 0), "AsBool(%d) of %lld is %d", index,
          (long long)v, op->AsBool(index));
}

template <typename T>
std::vector<T> Domain() {
  std::vector<T> r;
  if (sizeof(T) <= 2) {
    for (int64_t v = std::numeric_limits<T>::min();
         v <= (int64_t)std::numeric_limits<T>::max(); v++)
      r.push_back(static_cast<T>(v));
    return r;
  }
  int n = sizeof(T) * 8;
  for (int i = 0; i < n; i++)
    for (int j = i; j < n; j++) {
      uint64_t a = 1ull << i, b = 1ull << j;
      for (uint64_t x : {a | b, a + b - 1, b - a, ~(a | b), ~(b - a), 0 - a})
        r.push_back(static_cast<T>(x));
    }
  return r;
}

template <typename T>
std::string Text(T v) {
  return std::is_signed<T>::value ? std::to_string((long long)v)
                                  : std::to_string((unsigned long long)v);
}

template <typename T>
void Imm(Ctx& c) {
  static const std::vector<T> dom = [] {
    mc::NoTrack nt;
    return Domain<T>();
  }();
  constexpr int kSlices = 16;
  int slice = c.choose(kSlices, "slice of the values");
  int ctor = c.choose(4, "constructor");
  c.op("%zu-byte %s immediates, constructor %d, slice %d of %d", sizeof(T),
       std::is_signed<T>::value ? "signed" : "unsigned", ctor, slice, kSlices);
  for (size_t i = slice; i < dom.size(); i += kSlices) {
    T v = dom[i];
    std::unique_ptr<SourceOperandInterface> op;
    std::vector<int> shape{1};
    std::string text = Text(v);
    if (ctor & 1) text = "name";
    if (ctor == 0) op.reset(new ImmediateOperand<T>(v));
    if (ctor == 1) op.reset(new ImmediateOperand<T>(v, text));
    if (ctor >= 2) {
      shape = {128, 4};
      if (ctor == 2)
        op.reset(new ImmediateOperand<T>(v, shape));
      else
        op.reset(new ImmediateOperand<T>(v, shape, text));
    }
    CheckAll(c, op.get(), 0, v);
    CheckAll(c, op.get(), 127, v);
    c.check(op->shape() == shape, "shape() differs from the one given");
    c.check(op->AsString() == text, "AsString() is '%s', '%s' expected",
            op->AsString().c_str(), text.c_str());
    c.check(!op->GetObject().has_value(), "an immediate has an object");
  }
  c.state(mc::S("imm %zu %d %d %d", sizeof(T), std::is_signed<T>::value, ctor,
                slice));
}

template <typename T>
void Vec(Ctx& c) {
  // All vectors of up to 3 elements over the critical values of the type.
  static const std::vector<T> vals = {
      0, 1, static_cast<T>(-1), std::numeric_limits<T>::min(),
      std::numeric_limits<T>::max(), static_cast<T>(0x8081828384858687ull),
      static_cast<T>(0x100)};
  int n = 1 + c.choose(4, "length");
  std::vector<T> v;
  for (int i = 0; i < n; i++)
    v.push_back(vals[n == 4 ? (i * 2 + c.choose(2, "element")) % 7
                            : c.choose(vals.size(), "element")]);
  bool shaped = c.flip("explicit shape");
  std::unique_ptr<SourceOperandInterface> op;
  c.op("vector immediate of %d %zu-byte elements", n, sizeof(T));
  if (shaped)
    op.reset(new VectorImmediateOperand<T>(v, std::vector<int>{n}));
  else
    op.reset(new VectorImmediateOperand<T>(v));
  for (int i = 0; i < n; i++) CheckAll(c, op.get(), i, v[i]);
  c.check(op->shape() == std::vector<int>{n}, "shape() differs");
  c.check(op->AsString() == "[" + Text(v[0]) + "..." + Text(v[n - 1]) + "]",
          "AsString() is '%s'", op->AsString().c_str());
  c.check(!op->GetObject().has_value(), "an immediate has an object");
  // The operand holds its own copy.
  auto copy = v;
  for (auto& x : v) x = static_cast<T>(x + 1);
  for (int i = 0; i < n; i++) CheckAll(c, op.get(), i, copy[i]);
  std::string s = mc::S("vec %zu %d:", sizeof(T), std::is_signed<T>::value);
  for (auto x : copy) s += Text(x) + ",";
  c.state(s);
}

template <typename Op, typename T>
void LitOne(Ctx& c, T v) {
  for (int ctor = 0; ctor < 4; ctor++) {
    std::unique_ptr<SourceOperandInterface> op;
    std::vector<int> shape{128};
    std::string text = std::to_string(static_cast<int>(v));
    if (ctor & 1) text = "lit";
    c.op("literal %d, constructor %d", (int)v, ctor);
    if (ctor == 0) op.reset(new Op());
    if (ctor == 1) op.reset(new Op(absl::string_view(text)));
    if (ctor == 2) op.reset(new Op(shape));
    if (ctor == 3) op.reset(new Op(shape, absl::string_view(text)));
    CheckAll(c, op.get(), 0, v);
    CheckAll(c, op.get(), 99, v);
    if (ctor >= 2) c.check(op->shape() == shape, "shape() differs");
    c.check(op->AsString() == text, "AsString() is '%s', '%s' expected",
            op->AsString().c_str(), text.c_str());
    c.check(!op->GetObject().has_value(), "a literal has an object");
    c.state(mc::S("lit %d %d", (int)v, ctor));
  }
}
template <int... N>
void IntLits(Ctx& c) {
  (LitOne<IntLiteralOperand<N>, int>(c, N), ...);
}
void Literals(Ctx& c) {
  IntLits<0, 1, -1, 2, 127, 128, -128, -129, 255, 256, 32767, 32768, -32768,
          -32769, 65535, 65536, 0x7fffffff, (-0x7fffffff - 1), 0x55aa1234,
          -123456>(c);
  LitOne<BoolLiteralOperand<true>, bool>(c, true);
  LitOne<BoolLiteralOperand<false>, bool>(c, false);
  BoolLiteralPredicateOperand<true> t;
  BoolLiteralPredicateOperand<false> f;
  c.check(t.Value() && !f.Value(), "predicate literal value");
  c.check(t.AsString().empty() && f.AsString().empty(), "predicate text");
}

struct Obj {
  std::string s;
  std::string AsString() const { return s; }
};
void Wrapper(Ctx& c) {
  Obj a{"first"}, b{"second"};
  Obj* o = c.flip("object") ? &a : &b;
  std::vector<int> shape = c.flip("2d") ? std::vector<int>{2, 3}
                                        : std::vector<int>{1};
  c.op("wrapper of %s", o->s.c_str());
  WrapperSourceOperand<Obj> src(o, shape);
  WrapperDestinationOperand<Obj> dst(o, shape);
  c.check(std::any_cast<Obj*>(src.GetObject()) == o, "source object differs");
  c.check(std::any_cast<Obj*>(dst.GetObject()) == o, "dest object differs");
  c.check(src.shape() == shape && dst.shape() == shape, "shape differs");
  c.check(src.AsString() == o->s && dst.AsString() == o->s, "text differs");
  for (int i = 0; i < 2; i++) CheckAll(c, &src, i, 0);
  c.check(dst.AllocateDataBuffer() == nullptr, "a wrapper has no buffers");
  c.check(dst.CopyDataBuffer() == nullptr, "a wrapper has no buffers");
  c.check(dst.latency() == 0, "a wrapper has no latency");
  c.state(o->s + mc::S("%zu", shape.size()));
}

template <template <typename> class>
struct X;

}  // namespace

int main(int argc, char** argv) {
  std::vector<mc::Scenario> s;
#define T(N, TY)                        \
  s.push_back({"imm_" N, Imm<TY>, 2});  \
  s.push_back({"vec_" N, Vec<TY>, 2});
  T("i8", int8_t)
  T("u8", uint8_t)
  T("i16", int16_t)
  T("u16", uint16_t)
  T("i32", int32_t)
  T("u32", uint32_t)
  T("i64", int64_t)
  T("u64", uint64_t)
  s.push_back({"literals", Literals});
  s.push_back({"wrapper", Wrapper});
  return mc::Main(argc, argv, "C03", s,
                  "all values of the 8 and 16 bit types, all values built from "
                  "pairs of bit positions for the 32 and 64 bit types; all "
                  "vectors of up to 3 elements over 7 critical values; all "
                  "constructors; 22 literals");
}
