// C14: registers, reserved and control registers and their operands.
#include <algorithm>
#include <any>
#include <cstring>
#include <list>
#include <memory>
#include <string>
#include <type_traits>
#include <vector>

#include "mc.h"
#include "mpact/sim/generic/arch_state.h"
#include "mpact/sim/generic/control_register.h"
#include "mpact/sim/generic/data_buffer.h"
#include "mpact/sim/generic/devnull_operand.h"
#include "mpact/sim/generic/register.h"
#include "mpact/sim/generic/simple_resource.h"

using mc::Ctx;
using namespace mpact::sim::generic;

namespace {

class State : public ArchState {
 public:
  State() : ArchState("s") {}
};
using Bytes = std::vector<uint8_t>;
Bytes BytesOf(DataBuffer* db) {
  auto s = db->Get<uint8_t>();
  return Bytes(s.begin(), s.end());
}
std::string Hex(const Bytes& b) {
  std::string r;
  for (auto x : b) r += mc::S("%02x", x);
  return r;
}

// ---- typed access --------------------------------------------------------------
template <typename T>
void CheckSource(Ctx& c, SourceOperandInterface* op, const Bytes& m) {
  using S = typename std::make_signed<T>::type;
  for (size_t i = 0; i < m.size() / sizeof(T); i++) {
    T v;
    memcpy(&v, &m[i * sizeof(T)], sizeof(T));
    S s = static_cast<S>(v);
    c.check(op->AsBool(i) == (v != 0), "AsBool(%zu) of %s", i, Hex(m).c_str());
#define A(F, TY, V)                                                     \
  c.check(op->F(i) == static_cast<TY>(V), #F "(%zu) is %llx, value %llx", i, \
          (unsigned long long)op->F(i), (unsigned long long)v);
    A(AsInt8, int8_t, s)
    A(AsUint8, uint8_t, v)
    A(AsInt16, int16_t, s)
    A(AsUint16, uint16_t, v)
    A(AsInt32, int32_t, s)
    A(AsUint32, uint32_t, v)
    A(AsInt64, int64_t, s)
    A(AsUint64, uint64_t, v)
#undef A
  }
}

template <typename T, typename R>
void TypedReg(Ctx& c, std::vector<int> shape) {
  State st;
  auto* reg = st.AddRegister<R>("r");
  int n = 1;
  for (int x : shape) n *= x;
  c.check(reg->name() == "r" && reg->shape() == shape && reg->size() == n * (int)sizeof(T) &&
              reg->element_size() == (int)sizeof(T) && reg->arch_state() == &st &&
              st.registers()->at("r") == reg,
          "register attributes");
  Bytes m(n * sizeof(T), 0);
  c.check(BytesOf(reg->data_buffer()) == m, "a new register is not zero");
  std::unique_ptr<SourceOperandInterface> src(reg->CreateSourceOperand()),
      src2(reg->CreateSourceOperand("x"));
  std::unique_ptr<DestinationOperandInterface> dst(reg->CreateDestinationOperand(0)),
      dst2(reg->CreateDestinationOperand(2, "y"));
  c.check(src->AsString() == "r" && src2->AsString() == "x" && dst->AsString() == "r" &&
              dst2->AsString() == "y" && dst->latency() == 0 && dst2->latency() == 2 &&
              src->shape() == shape && dst->shape() == shape,
          "operand attributes");
  c.check(std::any_cast<RegisterBase*>(src->GetObject()) == reg &&
              std::any_cast<RegisterBase*>(dst->GetObject()) == reg,
          "operand objects");
  CheckSource<T>(c, src.get(), m);
  int el = c.choose(n, "element"), hi = c.choose(4, "pattern");
  for (int b = 0; b < 256; b++) {
    T v = 0;
    uint64_t p = hi == 0   ? b
                 : hi == 1 ? (uint64_t)b << (sizeof(T) * 8 - 8)
                 : hi == 2 ? ~(uint64_t)b
                           : b * 0x0101010101010101ull ^ 0x80ull << (b % 57);
    v = static_cast<T>(p);
    auto* db = dst->CopyDataBuffer();
    c.check(db->size<uint8_t>() == m.size() && BytesOf(db) == m, "the copy differs");
    db->template Set<T>(el, v);
    CheckSource<T>(c, src.get(), m);
    db->Submit();
    memcpy(&m[el * sizeof(T)], &v, sizeof(T));
    CheckSource<T>(c, src.get(), m);
    CheckSource<T>(c, src2.get(), m);
    c.check(BytesOf(reg->data_buffer()) == m, "contents %s, %s expected",
            Hex(BytesOf(reg->data_buffer())).c_str(), Hex(m).c_str());
  }
  c.op("256 writes");
}
void Typed(Ctx& c) {
  switch (c.choose(12, "type")) {
    case 0: return TypedReg<uint8_t, Register<uint8_t>>(c, {1});
    case 1: return TypedReg<int8_t, Register<int8_t>>(c, {1});
    case 2: return TypedReg<uint16_t, Register<uint16_t>>(c, {1});
    case 3: return TypedReg<int16_t, Register<int16_t>>(c, {1});
    case 4: return TypedReg<uint32_t, Register<uint32_t>>(c, {1});
    case 5: return TypedReg<int32_t, Register<int32_t>>(c, {1});
    case 6: return TypedReg<uint64_t, Register<uint64_t>>(c, {1});
    case 7: return TypedReg<int64_t, Register<int64_t>>(c, {1});
    case 8: return TypedReg<uint32_t, VectorRegister<uint32_t, 4>>(c, {4});
    case 9: return TypedReg<int16_t, VectorRegister<int16_t, 8>>(c, {8});
    case 10: return TypedReg<uint8_t, MatrixRegister<uint8_t, 2, 3>>(c, {2, 3});
    case 11: return TypedReg<uint64_t, MatrixRegister<uint64_t, 3, 2>>(c, {3, 2});
  }
}

// ---- histories -------------------------------------------------------------------
// Two registers (one reserved), a control register; writes with latencies, held
// buffers, aliasing.
struct Held {
  DataBuffer* db;
  int dest, latency;
  Bytes m;
};
struct Pend {
  int when, dest;
  Bytes m;
};
void History(Ctx& c) {
  State st;
  SimpleResourcePool pool("p", 4);
  (void)pool.AddResource("x");
  auto* res = pool.GetResource("x");
  auto* r0 = st.AddRegister<Register<uint32_t>>("r0");
  auto* r1 = st.AddRegister<ReservedRegister<uint32_t>>("r1", res);
  std::vector<uint32_t> cb;
  bool store = c.flip("callback stores");
  RegisterBase* self = nullptr;
  auto* r2 = st.AddRegister<ControlRegister<uint32_t>>(
      "r2", [&](ControlRegisterBase* r, DataBuffer* db) {
        c.check(r == self, "callback for another register");
        cb.push_back(db->Get<uint32_t>(0));
        if (store) r->RegisterBase::SetDataBuffer(db);
      });
  self = r2;
  RegisterBase* reg[3] = {r0, r1, r2};
  Bytes m[3] = {Bytes(4), Bytes(4), Bytes(4)};
  std::vector<uint32_t> mcb;
  std::unique_ptr<SourceOperandInterface> src[3] = {
      std::unique_ptr<SourceOperandInterface>(r0->CreateSourceOperand()),
      std::unique_ptr<SourceOperandInterface>(r1->CreateSourceOperand()),
      std::unique_ptr<SourceOperandInterface>(r2->CreateSourceOperand())};
  std::unique_ptr<DestinationOperandInterface> dst[3][2];
  for (int l = 0; l < 2; l++) {
    dst[0][l].reset(r0->CreateDestinationOperand(l * 2));
    dst[1][l].reset(r1->CreateDestinationOperand(l * 2));
    dst[2][l].reset(r2->CreateDestinationOperand(l * 2));
  }
  bool busy = false;
  std::vector<Held> held;
  std::vector<Pend> pend;
  int now = 0;
  uint32_t next = 0x80;
  auto deliver = [&](int d, const Bytes& b) {
    if (d == 2) {
      uint32_t v;
      memcpy(&v, b.data(), 4);
      mcb.push_back(v);
      if (store) m[2] = b;
      return;
    }
    m[d] = b;
    if (d == 1) busy = false;
  };
  int depth = c.thorough() ? 6 : 5;
  for (int d = 0; d < depth; d++) {
    int k = c.choose(8, "op");
    switch (k) {
      case 0:
      case 1: {  // allocate or copy
        if (held.size() == 2) return c.ignore_leaks();
        static const int kDest[4][2] = {{0, 0}, {0, 1}, {1, 1}, {2, 0}};
        int w = c.choose(4, "destination"), r = kDest[w][0], l = kDest[w][1];
        auto* db = k == 0 ? dst[r][l]->AllocateDataBuffer() : dst[r][l]->CopyDataBuffer();
        c.op("%s for r%d latency %d", k ? "copy" : "allocate", r, 2 * l);
        c.check(db->size<uint8_t>() == 4, "buffer size %d", (int)db->size<uint8_t>());
        if (k) c.check(BytesOf(db) == m[r], "the copy of r%d is %s", r, Hex(BytesOf(db)).c_str());
        Bytes b = m[r];
        if (k == 0 || c.flip("modify")) {
          db->Set<uint32_t>(0, next);
          b.resize(4);
          memcpy(b.data(), &next, 4);
          next = next * 3 + 1;
        }
        held.push_back({db, r, 2 * l, b});
        break;
      }
      case 2: {  // submit
        if (held.empty()) return;
        int i = c.choose(held.size(), "buffer");
        Held h = held[i];
        held.erase(held.begin() + i);
        c.op("submit to r%d latency %d", h.dest, h.latency);
        h.db->Submit();
        if (h.latency == 0) deliver(h.dest, h.m);
        else pend.push_back({now + h.latency, h.dest, h.m});
        break;
      }
      case 3: {
        c.op("advance");
        now++;
        st.AdvanceDelayLines();
        for (size_t i = 0; i < pend.size();)
          if (pend[i].when == now) deliver(pend[i].dest, pend[i].m), pend.erase(pend.begin() + i);
          else i++;
        break;
      }
      case 4: {  // write a register's own buffer to it or to another
        int a = c.choose(2, "from"), b = c.choose(2, "to");
        c.op("r%d.SetDataBuffer(r%d's)", b, a);
        reg[b]->SetDataBuffer(reg[a]->data_buffer());
        deliver(b, m[a]);
        break;
      }
      case 5: {
        c.op("acquire");
        res->Acquire();
        busy = true;
        break;
      }
      case 6: {  // write in place: visible in every register sharing the buffer
        int a = c.choose(2, "register");
        uint32_t v = next;
        next = next * 3 + 1;
        c.op("in place write of r%d", a);
        bool shared[3];
        for (int i = 0; i < 3; i++) shared[i] = reg[i]->data_buffer() == reg[a]->data_buffer();
        reg[a]->data_buffer()->Set<uint32_t>(0, v);
        for (int i = 0; i < 3; i++)
          if (shared[i]) memcpy(m[i].data(), &v, 4);
        break;
      }
      case 7: {  // the fate of a buffer that is not submitted
        if (held.empty()) return;
        c.op("drop a buffer");
        held.back().db->DecRef();
        held.pop_back();
        break;
      }
    }
    if (!c.fresh()) continue;
    for (int i = 0; i < 3; i++) {
      uint32_t v;
      memcpy(&v, m[i].data(), 4);
      c.check(src[i]->AsUint32(0) == v, "cycle %d: r%d is %x, %x expected", now, i,
              src[i]->AsUint32(0), v);
      c.check(reg[i]->data_buffer()->ref_count() >= 1, "r%d's buffer has no reference", i);
    }
    c.check(res->IsFree() == !busy, "the resource is %s", busy ? "free" : "reserved");
    c.check(cb == mcb, "%zu updates of the control register, %zu expected", cb.size(), mcb.size());
    for (auto& h : held) {
      c.check(BytesOf(h.db) == h.m, "a buffer still held changed to %s", Hex(BytesOf(h.db)).c_str());
      for (auto* r : reg) c.check(r->data_buffer() != h.db, "a held buffer is a register's");
    }
    std::string s = mc::S("%d", busy);
    for (auto& b : m) s += Hex(b);
    for (auto& p : pend) s += mc::S(";%d,%d", p.when - now, p.dest);
    c.state(s);
  }
  for (auto& h : held) h.db->DecRef();
}

// A buffer that two registers share: independent afterwards.
void Share(Ctx& c) {
  State st;
  RegisterBase* reg[3];
  for (int i = 0; i < 3; i++) {
    reg[i] = st.AddRegister<Register<uint16_t>>(mc::S("r%d", i));
    reg[i]->data_buffer()->Set<uint16_t>(0, 100 + i);
  }
  int own[3] = {0, 1, 2};  // which buffer each register has
  int refs[3] = {1, 1, 1};
  DataBuffer* buf[3] = {reg[0]->data_buffer(), reg[1]->data_buffer(), reg[2]->data_buffer()};
  for (int i = 0; i < 3; i++) buf[i]->IncRef(), refs[i]++;
  for (int d = 0; d < (c.thorough() ? 5 : 4); d++) {
    int r = c.choose(3, "register"), b = c.choose(3, "buffer");
    c.op("r%d.SetDataBuffer(buffer %d)", r, b);
    reg[r]->SetDataBuffer(buf[b]);
    refs[own[r]]--;
    refs[b]++;
    own[r] = b;
    for (int i = 0; i < 3; i++) {
      c.check(reg[i]->data_buffer() == buf[own[i]], "r%d has another buffer", i);
      c.check((int)buf[i]->ref_count() == refs[i], "buffer %d has %d references, %d expected", i,
              (int)buf[i]->ref_count(), refs[i]);
      c.check(buf[i]->Get<uint16_t>(0) == 100 + i, "buffer %d changed", i);
    }
  }
  for (int i = 0; i < 3; i++) buf[i]->DecRef();
  // Only the registers hold the buffers now.
  for (int i = 0; i < 3; i++)
    c.check(reg[i]->data_buffer()->Get<uint16_t>(0) == 100 + own[i], "r%d lost its value", i);
  if (c.flip("remove")) {
    st.RemoveRegister("r1");
    c.check(!st.registers()->contains("r1") && st.registers()->contains("r0"), "removal");
    delete reg[1];
  }
  if (c.flip("alias")) {
    st.AddRegister("alias", reg[0]);
    c.check(st.registers()->at("alias") == reg[0], "alias");
  }
}

// Destination operand without effect.
void DevNull(Ctx& c) {
  State st;
  std::vector<int> shape;
  int n = c.choose(3, "dimensions");
  for (int i = 0; i < n; i++) shape.push_back(1 + c.choose(3, "extent"));
  int size = 4;
  for (int x : shape) size *= x;
  DevNullOperand<uint32_t> op(&st, shape, "null"), anon(&st, shape);
  c.check(op.AsString() == "null" && anon.AsString().empty() && op.shape() == shape &&
              op.latency() == 0 && !op.GetObject().has_value(),
          "attributes");
  auto* r = st.AddRegister<Register<uint32_t>>("r");
  r->data_buffer()->Set<uint32_t>(0, 77);
  for (int d = 0; d < 3; d++) {
    int k = c.choose(3, "op");
    DataBuffer* db;
    if (k == 2) {
      std::unique_ptr<DestinationOperandInterface> dst(r->CreateDestinationOperand(1));
      db = dst->AllocateDataBuffer();
      op.InitializeDataBuffer(db);
    } else {
      db = k ? op.CopyDataBuffer() : op.AllocateDataBuffer();
      c.check((int)db->size<uint8_t>() == size, "size %d, %d expected", (int)db->size<uint8_t>(),
              size);
    }
    c.check(db->latency() == 0, "the buffer has a latency");
    db->Set<uint32_t>(0, 0x1234);
    c.op("submit to the null operand");
    if (c.flip("with latency")) db->Submit(3);
    else db->Submit();
    st.AdvanceDelayLines();
  }
  for (int i = 0; i < 4; i++) st.AdvanceDelayLines();
  c.check(r->data_buffer()->Get<uint32_t>(0) == 77, "a discarded write took effect");
}

}  // namespace

int main(int argc, char** argv) {
  return mc::Main(argc, argv, "C14",
                  {{"typed", Typed, 2}, {"history", History, 3}, {"share", Share, 2}, {"devnull", DevNull, 2}},
                  "12 register types, 1024 values per element through all accessors; all "
                  "histories of 5 (6) steps on a plain, a reserved and a control register "
                  "with latencies 0 and 2; all ways to move 3 buffers among 3 registers in 4 "
                  "(5) writes; null operands of up to 2 dimensions");
}
