// C16: instruction objects: ownership tree, operands, execution, helpers.
#include <any>
#include <cmath>
#include <cstring>
#include <memory>
#include <string>
#include <vector>

#include "mc.h"
#include "mpact/sim/generic/arch_state.h"
#include "mpact/sim/generic/immediate_operand.h"
#include "mpact/sim/generic/instruction.h"
#include "mpact/sim/generic/instruction_helpers.h"
#include "mpact/sim/generic/register.h"
#include "mpact/sim/generic/resource_operand_interface.h"

using mc::Ctx;
using namespace mpact::sim::generic;

namespace {

// Operands that record their destruction.
struct Tomb {
  int* counter;
  explicit Tomb(int* c) : counter(c) {}
  ~Tomb() { ++*counter; }
};
struct Src : ImmediateOperand<uint32_t> {
  Tomb t;
  Src(uint32_t v, int* c) : ImmediateOperand<uint32_t>(v), t(c) {}
};
struct Dst : DestinationOperandInterface {
  Tomb t;
  explicit Dst(int* c) : t(c) {}
  void InitializeDataBuffer(DataBuffer*) override {}
  DataBuffer* CopyDataBuffer() override { return nullptr; }
  DataBuffer* AllocateDataBuffer() override { return nullptr; }
  int latency() const override { return 0; }
  std::any GetObject() const override { return {}; }
  std::vector<int> shape() const override { return {1}; }
  std::string AsString() const override { return "d"; }
};
struct Pred : PredicateOperandInterface {
  Tomb t;
  explicit Pred(int* c) : t(c) {}
  bool Value() override { return true; }
  std::string AsString() const override { return "p"; }
};
struct Res : ResourceOperandInterface {
  Tomb t;
  explicit Res(int* c) : t(c) {}
  bool IsFree() override { return true; }
  void Acquire() override {}
  std::string AsString() const override { return "r"; }
};

constexpr int N = 5;
struct Tree {
  Ctx& c;
  Instruction* p[N] = {};
  int dead[N] = {};  // operands destroyed
  int user[N] = {};
  bool made[N] = {}, alive[N] = {};
  int next[N], child[N], parent[N];
  bool inserted[N] = {};
  explicit Tree(Ctx& c) : c(c) {
    for (int i = 0; i < N; i++) next[i] = child[i] = parent[i] = -1;
  }
  int Refs(int i) {
    int r = user[i];
    for (int j = 0; j < N; j++)
      if (alive[j]) r += (next[j] == i) + (child[j] == i);
    return r;
  }
  void Collect() {
    for (bool again = true; again;) {
      again = false;
      for (int i = 0; i < N; i++)
        if (alive[i] && Refs(i) == 0) {
          again = true;
          alive[i] = false;
          for (int k = child[i]; k >= 0; k = next[k])
            if (parent[k] == i) parent[k] = -1;
          next[i] = child[i] = -1;
        }
    }
  }
  bool Reaches(int from, int to) {
    if (from < 0) return false;
    if (from == to) return true;
    return Reaches(next[from], to) || Reaches(child[from], to);
  }
  void Verify() {
    for (int i = 0; i < N; i++) {
      if (!made[i]) continue;
      c.check(dead[i] == (alive[i] ? 0 : 2), "instruction %d: %d of its operands were destroyed, it is %s",
              i, dead[i], alive[i] ? "in use" : "unused");
      if (!alive[i]) continue;
      auto ptr = [&](int k) { return k < 0 ? nullptr : p[k]; };
      c.check(p[i]->ref_count() == Refs(i), "instruction %d has %d references, %d expected", i,
              p[i]->ref_count(), Refs(i));
      c.check(p[i]->next() == ptr(next[i]) && p[i]->child() == ptr(child[i]) &&
                  p[i]->parent() == ptr(parent[i]),
              "links of instruction %d", i);
      c.check(p[i]->address() == 0x100u * i && p[i]->Source(0)->AsUint32(0) == (uint32_t)i,
              "contents of instruction %d", i);
    }
  }
  std::string Canon() {
    std::string s;
    for (int i = 0; i < N; i++)
      s += mc::S("%d%d%d,%d,%d,%d,%d;", made[i], alive[i], inserted[i], user[i], next[i], child[i],
                 parent[i]);
    return s;
  }
};

void TreeOps(Ctx& c) {
  Tree t(c);
  bool up = c.flip("release order");
  // Five instructions, in every order of linking and dropping.
  for (int i = 0; i < N; i++) {
    t.p[i] = new Instruction(0x100 * i, nullptr);
    t.p[i]->AppendSource(new Src(i, &t.dead[i]));
    t.p[i]->AppendResourceHold(new Res(&t.dead[i]));
    t.made[i] = t.alive[i] = true;
    t.user[i] = 1;
  }
  int depth = c.thorough() ? 7 : 6;
  bool run = true;
  for (int d = 0; d < depth && run; d++) {
    // Enabled moves only.
    struct Move { int k, i, j; };
    std::vector<Move> mv;
    for (int i = 0; i < N; i++) {
      if (!t.alive[i] || t.user[i] == 0) continue;
      mv.push_back({2, i, 0});
      if (t.user[i] < 2 && i < 2) mv.push_back({3, i, 0});
      for (int j = 0; j < N; j++) {
        if (j == i || !t.alive[j] || t.user[j] == 0 || t.inserted[j] || t.Reaches(j, i)) continue;
        mv.push_back({0, i, j});
        mv.push_back({1, i, j});
      }
    }
    if (mv.empty()) break;
    auto [k, i, j] = mv[c.choose(mv.size(), "move")];
    switch (k) {
      case 0: {
        c.op("%d.Append(%d)", i, j);
        t.p[i]->Append(t.p[j]);
        int x = i;
        while (t.next[x] >= 0) x = t.next[x];
        t.next[x] = j;
        t.inserted[j] = true;
        break;
      }
      case 1: {
        c.op("%d.AppendChild(%d)", i, j);
        t.p[i]->AppendChild(t.p[j]);
        t.parent[j] = i;
        t.inserted[j] = true;
        if (t.child[i] < 0) t.child[i] = j;
        else {
          int x = t.child[i];
          while (t.next[x] >= 0) x = t.next[x];
          t.next[x] = j;
        }
        break;
      }
      case 2:
        c.op("%d.DecRef()", i);
        t.user[i]--;
        t.p[i]->DecRef();
        t.Collect();
        break;
      case 3:
        c.op("%d.IncRef()", i);
        t.user[i]++;
        t.p[i]->IncRef();
        break;
    }
    if (c.fresh()) t.Verify();
    if (c.seen(t.Canon(), depth - d)) run = false;
  }
  // Let go of everything, in either order.
  for (int q = 0; q < N; q++) {
    int i = up ? q : N - 1 - q;
    while (t.user[i] > 0) {
      t.user[i]--;
      t.p[i]->DecRef();
      t.Collect();
      t.Verify();
    }
  }
}

struct Context : ReferenceCount {};

void Members(Ctx& c) {
  int dead = 0, owned = 0;
  bool has_pred = c.flip("predicate");
  int ns = c.choose(4, "sources"), nd = c.choose(3, "destinations"), nh = c.choose(3, "hold"),
      na = c.choose(3, "acquire");
  uint64_t addr = c.pick({uint64_t(0), uint64_t(4), ~uint64_t(0)}, "address");
  auto* inst = addr ? new Instruction(addr, nullptr) : new Instruction(nullptr);
  c.check(inst->address() == addr && inst->size() == 0 && inst->opcode() == 0 &&
              inst->child() == nullptr && inst->parent() == nullptr && inst->next() == nullptr &&
              inst->context() == nullptr && inst->state() == nullptr &&
              inst->Predicate() == nullptr && inst->SourcesSize() == 0 &&
              inst->DestinationsSize() == 0 && inst->ResourceHold().empty() &&
              inst->ResourceAcquire().empty() && inst->Attributes().empty() &&
              inst->AsString().empty() && inst->ref_count() == 1,
          "a new instruction");
  std::vector<SourceOperandInterface*> s;
  std::vector<DestinationOperandInterface*> d;
  std::vector<ResourceOperandInterface*> h, a;
  PredicateOperandInterface* p = nullptr;
  if (has_pred) inst->SetPredicate(p = new Pred(&dead)), owned++;
  for (int i = 0; i < ns; i++) inst->AppendSource(s.emplace_back(new Src(i, &dead))), owned++;
  for (int i = 0; i < nd; i++) inst->AppendDestination(d.emplace_back(new Dst(&dead))), owned++;
  for (int i = 0; i < nh; i++) inst->AppendResourceHold(h.emplace_back(new Res(&dead))), owned++;
  for (int i = 0; i < na; i++) inst->AppendResourceAcquire(a.emplace_back(new Res(&dead))), owned++;
  inst->Append(nullptr);
  inst->AppendChild(nullptr);
  inst->set_size(4);
  inst->set_opcode(17);
  inst->SetDisassemblyString("dis");
  // Attributes, replaced any number of times.
  std::vector<int> at;
  for (int r = c.choose(3, "times"); r > 0; r--) {
    at.assign(c.choose(3, "attributes"), 0);
    for (size_t i = 0; i < at.size(); i++) at[i] = 10 * r + i;
    std::vector<int> copy = at;
    inst->SetAttributes(copy);
  }
  c.check(std::vector<int>(inst->Attributes().begin(), inst->Attributes().end()) == at, "attributes");
  c.check(inst->size() == 4 && inst->opcode() == 17 && inst->AsString() == "dis" &&
              inst->address() == addr && inst->Predicate() == p,
          "members");
  c.check(inst->SourcesSize() == ns && inst->DestinationsSize() == nd && inst->ResourceHold() == h &&
              inst->ResourceAcquire() == a,
          "operand counts");
  for (int i = 0; i < ns; i++) c.check(inst->Source(i) == s[i], "source %d", i);
  for (int i = 0; i < nd; i++) c.check(inst->Destination(i) == d[i], "destination %d", i);
  // Execution.
  int calls = 0;
  Context ctx;
  ReferenceCount* seen = &ctx;
  inst->set_semantic_function([&](Instruction* i) {
    c.check(i == inst, "executed with another instruction");
    seen = i->context();
    calls++;
  });
  inst->Execute(&ctx);
  c.check(calls == 1 && seen == &ctx && inst->context() == nullptr, "execution with a context");
  inst->Execute();
  c.check(calls == 2 && seen == nullptr, "execution without a context");
  c.check(ctx.ref_count() == 1, "references of the context");
  c.check(dead == 0, "an operand was destroyed early");
  inst->set_address(addr + 8);
  c.check(inst->address() == addr + 8, "address");
  c.op("%d operands", owned);
  inst->DecRef();
  c.check(dead == owned, "%d of %d operands were destroyed", dead, owned);
}

// ---- helpers ---------------------------------------------------------------------
class State : public ArchState {
 public:
  State() : ArchState("s") {}
};
State* TheState() {
  static State* s = [] { mc::NoTrack nt; return new State(); }();
  return s;
}
template <typename T>
struct Bits {
  using type = T;
};
template <>
struct Bits<float> {
  using type = uint32_t;
};
template <>
struct Bits<double> {
  using type = uint64_t;
};
template <typename T>
std::vector<T> Values() {
  std::vector<T> v = {T(0), T(1), T(2), T(100)};
  if constexpr (std::is_floating_point_v<T>) {
    v.insert(v.end(), {T(-1.5), T(1e30), T(-0.0), std::numeric_limits<T>::infinity()});
  } else {
    using U = std::make_unsigned_t<T>;
    v.insert(v.end(), {T(-1), T(U(1) << (sizeof(T) * 8 - 1)), T(~(U(1) << (sizeof(T) * 8 - 1)))});
  }
  return v;
}
template <typename T>
T Mix(T a, T b) {
  if constexpr (std::is_floating_point_v<T>) return a * T(2) - b;
  else return T(std::make_unsigned_t<T>(a) * 3u - std::make_unsigned_t<T>(b));
}
template <typename T>
bool Same(T a, T b) {
  return memcmp(&a, &b, sizeof(T)) == 0 || (a != a && b != b);
}

template <typename T>
struct Rig {
  using B = typename Bits<T>::type;
  static constexpr int W = 3;
  using R = VectorRegister<B, W>;
  R r[3]{R(TheState(), "x"), R(TheState(), "y"), R(TheState(), "z")};
  Instruction* inst;
  R out{TheState(), "out"};
  Rig() : inst(new Instruction(0, TheState())) {
    for (auto& x : r) inst->AppendSource(x.CreateSourceOperand());
    inst->AppendDestination(out.CreateDestinationOperand(0));
  }
  ~Rig() { inst->DecRef(); }
  void Put(int reg, int i, T v) {
    B b;
    memcpy(&b, &v, sizeof b);
    r[reg].data_buffer()->template Set<B>(i, b);
  }
  T Get(int i) { return out.data_buffer()->template Get<T>(i); }
};
template <typename T>
void HelperT(Ctx& c) {
  auto vals = Values<T>();
  T x[3][3];
  Rig<T> r;
  int rot = c.choose(vals.size(), "x"), rot2 = c.choose(vals.size(), "y"),
      rot3 = c.choose(vals.size(), "z");
  for (int i = 0; i < 3; i++) {
    x[0][i] = vals[(rot + i) % vals.size()];
    x[1][i] = vals[(rot2 + 2 * i) % vals.size()];
    x[2][i] = vals[(rot3 + 3 * i) % vals.size()];
    for (int k = 0; k < 3; k++) r.Put(k, i, x[k][i]);
  }
  for (int i = 0; i < 3; i++) {
    c.check(Same(GetInstructionSource<T>(r.inst, i), x[i][0]), "source %d", i);
    for (int e = 0; e < 3; e++)
      c.check(Same(GetInstructionSource<T>(r.inst, i, e), x[i][e]), "source %d[%d]", i, e);
  }
  c.check(GetInstructionSource<bool>(r.inst, 1) == (r.inst->Source(1)->AsBool(0)) &&
              GetInstructionSource<bool>(r.inst, 1, 2) == r.inst->Source(1)->AsBool(2),
          "boolean source");
  auto wipe = [&] { memset(r.out.data_buffer()->raw_ptr(), 0x5a, r.out.size()); };
  using F1 = std::function<T(T)>;
  using F2 = std::function<T(T, T)>;
  using F3 = std::function<T(T, T, T)>;
  F1 f1 = [](T a) { return Mix<T>(a, T(1)); };
  F2 f2 = [](T a, T b) { return Mix<T>(a, b); };
  F3 f3 = [](T a, T b, T d) { return Mix<T>(Mix<T>(a, b), d); };
  wipe();
  UnaryOp<T>(r.inst, f1);
  c.check(Same(r.Get(0), f1(x[0][0])), "UnaryOp");
  wipe();
  UnaryOp<T, T>(r.inst, f1);
  c.check(Same(r.Get(0), f1(x[0][0])), "UnaryOp<R, A>");
  wipe();
  BinaryOp<T>(r.inst, f2);
  c.check(Same(r.Get(0), f2(x[0][0], x[1][0])), "BinaryOp");
  wipe();
  BinaryOp<T, T>(r.inst, f2);
  c.check(Same(r.Get(0), f2(x[0][0], x[1][0])), "BinaryOp<R, A>");
  wipe();
  BinaryOp<T, T, T>(r.inst, f2);
  c.check(Same(r.Get(0), f2(x[0][0], x[1][0])), "BinaryOp<R, A1, A2>");
#define V(CALL, WANT)                                             \
  wipe();                                                         \
  CALL;                                                           \
  for (int i = 0; i < 3; i++)                                     \
    c.check(Same(r.Get(i), T(WANT)), #CALL ", element %d", i);
  V((UnaryVectorOp<T>(r.inst, f1)), f1(x[0][i]))
  V((UnaryVectorOp<T, T>(r.inst, f1)), f1(x[0][i]))
  V((BinaryVectorOp<T>(r.inst, f2)), f2(x[0][i], x[1][i]))
  V((BinaryVectorOp<T, T>(r.inst, f2)), f2(x[0][i], x[1][i]))
  V((BinaryVectorOp<T, T, T>(r.inst, f2)), f2(x[0][i], x[1][i]))
  V((TernaryVectorOp<T>(r.inst, f3)), f3(x[0][i], x[1][i], x[2][i]))
  V((TernaryVectorOp<T, T>(r.inst, f3)), f3(x[0][i], x[1][i], x[2][i]))
  V((TernaryVectorOp<T, T, T, T>(r.inst, f3)), f3(x[0][i], x[1][i], x[2][i]))
#undef V
  c.op("13 helpers");
  c.check(r.inst->ref_count() == 1, "the helper kept a reference");
}
// Sources of other types than the result.
void Mixed(Ctx& c) {
  Rig<uint64_t> r;
  auto v = Values<uint64_t>();
  uint64_t x = c.pick(v, "x"), y = c.pick(v, "y"), z = c.pick(v, "z");
  for (int i = 0; i < 3; i++) r.Put(0, i, x + i), r.Put(1, i, y - i), r.Put(2, i, z ^ i);
  BinaryOp<uint64_t, int8_t, uint16_t>(
      r.inst, std::function<uint64_t(int8_t, uint16_t)>([](int8_t a, uint16_t b) { return a * 1000 + b; }));
  c.check(r.Get(0) == uint64_t(int8_t(x) * 1000 + uint16_t(y)), "mixed binary");
  BinaryOp<uint64_t, int32_t>(
      r.inst, std::function<uint64_t(int32_t, int32_t)>([](int32_t a, int32_t b) { return uint64_t(int64_t(a) - b); }));
  c.check(r.Get(0) == uint64_t(int64_t(int32_t(x)) - int32_t(y)), "mixed binary, one type");
  UnaryOp<uint64_t, int16_t>(r.inst, std::function<uint64_t(int16_t)>([](int16_t a) { return uint64_t(a); }));
  c.check(r.Get(0) == uint64_t(int16_t(x)), "mixed unary");
  TernaryVectorOp<uint64_t, int8_t, uint8_t, int64_t>(
      r.inst, std::function<uint64_t(int8_t, uint8_t, int64_t)>(
                  [](int8_t a, uint8_t b, int64_t d) { return uint64_t(a) * 7 + b + uint64_t(d); }));
  for (int i = 0; i < 3; i++)
    c.check(r.Get(i) == uint64_t(int8_t(x + i)) * 7 + uint8_t(y - i) + (z ^ i), "mixed ternary");
  BinaryVectorOp<uint64_t, bool, uint32_t>(
      r.inst, std::function<uint64_t(bool, uint32_t)>([](bool a, uint32_t b) { return a ? b : 1; }));
  for (int i = 0; i < 3; i++)
    c.check(r.Get(i) == (x + i ? uint32_t(y - i) : 1), "mixed vector");
  c.check(GetInstructionSource<absl::uint128>(r.inst, 0) == absl::uint128(x) &&
              GetInstructionSource<absl::int128>(r.inst, 0) == absl::int128(int64_t(x)) &&
              GetInstructionSource<HalfFP>(r.inst, 0).value == uint16_t(x),
          "128 bit and half sources");
  c.op("5 mixed helpers");
}
void Helpers(Ctx& c) {
  switch (c.choose(11, "type")) {
    case 0: return HelperT<uint8_t>(c);
    case 1: return HelperT<int8_t>(c);
    case 2: return HelperT<uint16_t>(c);
    case 3: return HelperT<int16_t>(c);
    case 4: return HelperT<uint32_t>(c);
    case 5: return HelperT<int32_t>(c);
    case 6: return HelperT<uint64_t>(c);
    case 7: return HelperT<int64_t>(c);
    case 8: return HelperT<float>(c);
    case 9: return HelperT<double>(c);
    case 10: return Mixed(c);
  }
}

}  // namespace

int main(int argc, char** argv) {
  return mc::Main(argc, argv, "C16",
                  {{"tree", TreeOps, 2}, {"members", Members, 3}, {"helpers", Helpers, 2}},
                  "five instructions: all sequences of 6 (7) link, reference and release steps "
                  "with state matching, released in both orders; all operand counts up to 3; 13 "
                  "semantic helpers over 10 types with all combinations of 7-8 values",
                  {"an instruction is linked into at most one list, and lists are acyclic"});
}
