// C05: status registers and state item geometry.
#include <algorithm>
#include <any>
#include <memory>
#include <string>
#include <vector>

#include "mc.h"
#include "mpact/sim/generic/data_buffer.h"
#include "mpact/sim/generic/state_item_base.h"
#include "mpact/sim/generic/status_register.h"

using mc::Ctx;
using namespace mpact::sim::generic;

namespace {

template <typename T>
struct World {
  Ctx& c;
  StatusRegister<T> reg;
  std::unique_ptr<SourceOperandInterface> op, named;
  uint64_t bits = 0;          // what each condition currently is
  std::vector<int> calls;     // positions evaluated, in order
  explicit World(Ctx& c) : c(c), reg(nullptr, "stat") {
    op.reset(reg.CreateSourceOperand());
    named.reset(reg.CreateSourceOperand("other"));
    calls.reserve(256);
    c.check(reg.name() == "stat" && reg.shape() == std::vector<int>{1} &&
                reg.size() == (int)sizeof(T),
            "geometry of the register");
    c.check(op->AsString() == "stat" && named->AsString() == "other",
            "operand names");
    c.check(op->shape() == std::vector<int>{1}, "operand shape");
  }
  void Bind(int i) {
    reg.SetEvaluateFunction(i, [this, i]() {
      calls.push_back(i);
      return ((bits >> i) & 1) != 0;
    });
  }
  void CheckReads(uint64_t bound) {
    uint64_t all = sizeof(T) == 8 ? ~0ull : (1ull << (sizeof(T) * 8)) - 1;
    uint64_t want = bits & bound & all;
    calls.clear();
    T v = reg.Read();
    c.check((static_cast<uint64_t>(v) & all) == want,
            "Read() is 0x%llx, conditions are 0x%llx", (unsigned long long)v,
            (unsigned long long)want);
    CheckCalls(bound & all);
#define A(F, TY)                                                           \
  c.check(op->F(0) == static_cast<TY>(static_cast<T>(want)) &&             \
              named->F(3) == static_cast<TY>(static_cast<T>(want)),        \
          #F " differs for 0x%llx", (unsigned long long)want);
    A(AsBool, bool)
    A(AsInt8, int8_t)
    A(AsUint8, uint8_t)
    A(AsInt16, int16_t)
    A(AsUint16, uint16_t)
    A(AsInt32, int32_t)
    A(AsUint32, uint32_t)
    A(AsInt64, int64_t)
    A(AsUint64, uint64_t)
#undef A
  }
  void CheckMask(uint64_t bound, uint64_t mask) {
    uint64_t all = sizeof(T) == 8 ? ~0ull : (1ull << (sizeof(T) * 8)) - 1;
    calls.clear();
    T v = reg.Read(static_cast<T>(mask));
    c.check((static_cast<uint64_t>(v) & all) == (bits & bound & mask & all),
            "Read(mask 0x%llx) is 0x%llx, conditions are 0x%llx",
            (unsigned long long)mask, (unsigned long long)v,
            (unsigned long long)bits);
    CheckCalls(bound & mask & all);
  }
  // Each selected condition is evaluated exactly once, and no other one.
  void CheckCalls(uint64_t sel) {
    std::vector<int> want;
    for (int i = sizeof(T) * 8 - 1; i >= 0; i--)
      if ((sel >> i) & 1) want.push_back(i);
    std::sort(calls.rbegin(), calls.rend());
    c.check(calls == want,
            "%zu conditions were evaluated, %zu expected (those of 0x%llx, once each)",
            calls.size(), want.size(), (unsigned long long)sel);
  }
};

// Every combination of conditions and (for the 8 bit type) every mask.
template <typename T>
void Byte(Ctx& c) {
  World<T> w(c);
  uint64_t bound = c.pick({0xffull, 0x0full, 0xa5ull, 0x80ull}, "bound");
  for (int i = 0; i < 8; i++)
    if ((bound >> i) & 1) w.Bind(i);
  int hi = c.choose(16, "high conditions");
  c.op("conditions 0x%x0..0x%xf, all masks", hi, hi);
  for (int lo = 0; lo < 16; lo++) {
    w.bits = hi * 16 + lo;
    w.CheckReads(bound);
    for (int m = 0; m < 256; m++) w.CheckMask(bound, m);
    c.state_hash((bound << 32) | w.bits | (uint64_t)sizeof(T) << 48 |
                 (uint64_t)std::is_signed<T>::value << 60);
  }
}

template <typename T>
void Wide(Ctx& c) {
  World<T> w(c);
  const int n = sizeof(T) * 8;
  uint64_t bound = ~0ull;
  for (int i = 0; i < n; i++) w.Bind(i);
  int i = c.choose(n, "bit");
  c.op("pairs with bit %d", i);
  for (int j = i; j < n; j++) {
    uint64_t p = (1ull << i) | (1ull << j);
    for (uint64_t b : {p, ~p, static_cast<uint64_t>((1ull << j) - (1ull << i))}) {
      w.bits = b;
      w.CheckReads(bound);
      for (uint64_t m : std::vector<uint64_t>{p, ~p, ~0ull, 0, 1ull << j, 1ull << i})
        w.CheckMask(bound, m);
      c.state_hash(b * 0x9E3779B97F4A7C15ull + sizeof(T));
    }
  }
}

// Histories of rebinding, condition changes, reads and writes.
void History(Ctx& c) {
  DataBufferFactory f;
  DataBufferDelayLine dl(4);
  World<uint8_t> w(c);
  uint64_t bound = 0;
  int depth = c.thorough() ? 5 : 4;
  static const int pos[] = {0, 3, 7};
  for (int d = 0; d < depth; d++) {
    int k = c.choose(4, "op");
    if (k < 2) {
      int p = pos[c.choose(3, "bit")];
      if (k == 0) {
        c.op("SetEvaluateFunction(%d)", p);
        w.Bind(p);
        bound |= 1ull << p;
      } else {
        c.op("condition %d changes", p);
        w.bits ^= 1ull << p;
      }
    } else if (k == 2) {
      int p = pos[c.choose(3, "bit")];
      bool v = c.flip("constant");
      c.op("SetEvaluateFunction(%d, constant %d)", p, v);
      w.reg.SetEvaluateFunction(p, [&w, p, v]() {
        w.calls.push_back(p);
        return v;
      });
      bound |= 1ull << p;
      w.bits = (w.bits & ~(1ull << p)) | ((uint64_t)v << p);
      w.CheckReads(bound);
      w.Bind(p);
    } else {
      // The register is read only: a write changes nothing and the buffer's
      // references stay balanced.
      int lat = c.choose(3, "latency");
      c.op("write 0xff with latency %d", lat);
      auto* db = f.Allocate<uint8_t>(1);
      db->Set<uint8_t>(0, 0xff);
      db->set_destination(&w.reg);
      db->set_delay_line(&dl);
      db->IncRef();  // keep it observable
      db->Submit(lat);
      for (int i = 0; i < lat; i++) {
        c.check(db->ref_count() == 2, "the buffer in flight has %d references",
                db->ref_count());
        dl.Advance();
      }
      c.check(db->ref_count() == 1,
              "after the write was ignored the buffer has %d references, 1 "
              "expected",
              db->ref_count());
      db->DecRef();
    }
    w.CheckReads(bound);
    for (uint64_t m : {0x01, 0x08, 0x80, 0x89, 0x76, 0xff, 0})
      w.CheckMask(bound, m);
    c.state(mc::S("%llx %llx", (unsigned long long)bound,
                  (unsigned long long)w.bits));
  }
}

struct Item : StateItemBase {
  Item(absl::string_view n, const std::vector<int>& s, int e)
      : StateItemBase(nullptr, n, s, e) {}
  void SetDataBuffer(DataBuffer*) override {}
};
void Geometry(Ctx& c) {
  int dims = c.choose(4, "dimensions");
  std::vector<int> shape;
  int n = 1;
  for (int i = 0; i < dims; i++) {
    shape.push_back(c.pick({1, 2, 3, 7, 32, 128}, "extent"));
    n *= shape.back();
  }
  int e = c.pick({1, 2, 4, 8, 16}, "element size");
  std::string name = c.flip("name") ? "" : "reg";
  c.op("state item of %d dimensions", dims);
  Item it(name, shape, e);
  c.check(it.size() == n * e, "size() is %d, %d expected", it.size(), n * e);
  c.check(it.element_size() == e, "element_size() is %d", it.element_size());
  c.check(it.shape() == shape, "shape() differs");
  c.check(it.name() == name, "name() differs");
  c.check(it.arch_state() == nullptr, "arch_state() differs");
  std::string s = mc::S("%d", e);
  for (int x : shape) s += mc::S(",%d", x);
  c.state(s);
}

}  // namespace

int main(int argc, char** argv) {
  return mc::Main(argc, argv, "C05",
                  {{"u8_all", Byte<uint8_t>},
                   {"i8_all", Byte<int8_t>},
                   {"u16_pairs", Wide<uint16_t>, 1},
                   {"i32_pairs", Wide<int32_t>, 1},
                   {"u32_pairs", Wide<uint32_t>, 1},
                   {"u64_pairs", Wide<uint64_t>, 1},
                   {"i64_pairs", Wide<int64_t>, 1},
                   {"history", History, 2},
                   {"geometry", Geometry, 2}},
                  "8 bit: all 256 condition vectors x all 256 masks x 4 bound "
                  "sets; wider: all pairs and runs of condition bits x 6 "
                  "masks; all histories of 4 (5) rebind/change/write steps; "
                  "all shapes of up to 3 dimensions over 6 extents");
}
