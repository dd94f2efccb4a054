// C15: fifos: order, capacity, reservations, tokens, notification.
#include <cstring>
#include <deque>
#include <memory>
#include <string>
#include <vector>

#include "mc.h"
#include "mpact/sim/generic/arch_state.h"
#include "mpact/sim/generic/data_buffer.h"
#include "mpact/sim/generic/fifo.h"
#include "mpact/sim/generic/fifo_with_notify.h"
#include "mpact/sim/generic/program_error.h"
#include "mpact/sim/generic/token_fifo.h"
#include "mpact/sim/proto/component_data.pb.h"

using mc::Ctx;
using namespace mpact::sim::generic;

namespace {

class State : public ArchState {
 public:
  State() : ArchState("s") {}
};

struct Model {
  std::deque<DataBuffer*> q;
  unsigned cap, reserved = 0;
};

// Program errors of one fifo.
struct Errors {
  ProgramErrorController ctl{"errors"};
  int over = 0, under = 0;
  explicit Errors(FifoBase* f) {
    ctl.AddProgramErrorName("over");
    ctl.AddProgramErrorName("under");
    auto o = ctl.GetProgramError("over"), u = ctl.GetProgramError("under");
    f->SetOverflowProgramError(&o);
    f->SetUnderflowProgramError(&u);
  }
  // Which errors were raised since the last call: bit 0 overflow, 1 underflow.
  int Take() {
    int r = 0;
    for (auto& n : ctl.GetUnmaskedErrorNames()) r |= n == "over" ? 1 : 2;
    ctl.ClearAll();
    return r;
  }
};

uint32_t g_next;
DataBuffer* NewDb(DataBufferFactory* f, int size) {
  auto* db = f->Allocate<uint8_t>(size);
  for (int i = 0; i < size; i++) db->Set<uint8_t>(i, (uint8_t)(g_next * 37 + i * 101 + 0x80));
  g_next++;
  return db;
}

template <typename T>
void CheckFront(Ctx& c, SourceOperandInterface* op, DataBuffer* front, int n) {
  for (int i = 0; i < n; i++) {
    using Sg = typename std::make_signed<T>::type;
    using Un = typename std::make_unsigned<T>::type;
    Un v = front ? front->Get<Un>(i) : 0;
    Sg s = static_cast<Sg>(v);
    c.check(op->AsBool(i) == (v != 0), "AsBool(%d)", i);
#define A(F, TY, V)                                                        \
  c.check(op->F(i) == static_cast<TY>(V), #F "(%d) is %llx, value %llx", i, \
          (unsigned long long)op->F(i), (unsigned long long)v);
    A(AsInt8, int8_t, s)
    A(AsUint8, uint8_t, v)
    A(AsInt16, int16_t, s)
    A(AsUint16, uint16_t, v)
    A(AsInt32, int32_t, s)
    A(AsUint32, uint32_t, v)
    A(AsInt64, int64_t, s)
    A(AsUint64, uint64_t, v)
#undef A
  }
}

void Verify(Ctx& c, FifoBase* f, const Model& m, bool token, unsigned avail) {
  c.check(f->Available() == m.q.size(), "%u elements, %zu expected", f->Available(), m.q.size());
  c.check(f->Reserved() == m.reserved, "%u reserved, %u expected", f->Reserved(), m.reserved);
  c.check(f->IsEmpty() == (m.q.empty() && m.reserved == 0), "IsEmpty is %d", f->IsEmpty());
  bool full = token ? avail == 0 || m.reserved >= avail : m.q.size() + m.reserved >= m.cap;
  bool oversub = token ? m.reserved > avail : m.q.size() + m.reserved > m.cap;
  c.check(f->IsFull() == full, "IsFull is %d (%zu elements, %u reserved)", f->IsFull(), m.q.size(),
          m.reserved);
  c.check(f->IsOverSubscribed() == oversub, "IsOverSubscribed is %d", f->IsOverSubscribed());
  c.check(f->Capacity() == m.cap, "capacity %u, %u expected", f->Capacity(), m.cap);
  c.check(f->Front() == (m.q.empty() ? nullptr : m.q.front()), "another front element");
}

// One fifo: direct pushes, writes through the operand with latency, pops,
// reservations.
template <typename F, typename T>
void OneFifo(Ctx& c, int n, std::vector<int> shape, int depth) {
  State st;
  g_next = 1;
  unsigned cap = c.choose(4, "capacity");
  auto* f = st.AddFifo<F>("f", cap);
  c.check(f->name() == "f" && f->shape() == shape && f->size() == n * (int)sizeof(T) &&
              st.fifos()->at("f") == f && f->Capacity() == cap && f->parent() == &st,
          "fifo attributes");
  Errors e(f);
  Model m;
  m.cap = cap;
  std::unique_ptr<SourceOperandInterface> src(f->CreateSourceOperand()),
      src2(f->CreateSourceOperand("n"));
  std::unique_ptr<DestinationOperandInterface> d0(f->CreateDestinationOperand(0)),
      d2(f->CreateDestinationOperand(2, "o"));
  c.check(src->AsString() == "f" && src2->AsString() == "n" && d0->AsString() == "f" &&
              d2->AsString() == "o" && src->shape() == shape && d0->shape() == shape &&
              d0->latency() == 0 && d2->latency() == 2 && d0->CopyDataBuffer() == nullptr,
          "operand attributes");
  c.check(std::any_cast<FifoBase*>(src->GetObject()) == f &&
              std::any_cast<FifoBase*>(d0->GetObject()) == f,
          "operand objects");
  struct P {
    int when;
    DataBuffer* db;
  };
  std::vector<P> pend;
  int now = 0, err = 0;
  auto push = [&](DataBuffer* db) {
    if (m.reserved) m.reserved--;
    if (m.q.size() + m.reserved >= m.cap) {
      err |= 1;
      return false;
    }
    m.q.push_back(db);
    return true;
  };
  for (int d = 0; d < depth; d++) {
    err = 0;
    switch (c.choose(7, "op")) {
      case 0: {
        auto* db = NewDb(st.db_factory(), f->size());
        bool ok = f->Push(db), want = push(db);
        c.op("Push -> %d", ok);
        c.check(ok == want, "push is %s", ok ? "accepted" : "refused");
        c.check(db->ref_count() == (ok ? 2u : 1u), "%d references", (int)db->ref_count());
        db->DecRef();
        break;
      }
      case 1: {
        auto* db = d0->AllocateDataBuffer();
        c.check((int)db->template size<uint8_t>() == f->size(), "buffer size");
        for (int i = 0; i < f->size(); i++) db->template Set<uint8_t>(i, 0xc0 + g_next++);
        c.op("submit, latency 0");
        db->Submit();
        push(db);
        break;
      }
      case 2: {
        auto* db = d2->AllocateDataBuffer();
        for (int i = 0; i < f->size(); i++) db->template Set<uint8_t>(i, 0x70 + g_next++);
        c.op("submit, latency 2");
        db->Submit();
        pend.push_back({now + 2, db});
        break;
      }
      case 3:
        c.op("Pop");
        if (m.q.empty()) err |= 2;
        else m.q.pop_front();
        f->Pop();
        break;
      case 4: {
        int k = c.choose(2, "count") + 1;
        c.op("Reserve(%d)", k);
        f->Reserve(k);
        m.reserved += k;
        break;
      }
      case 5:
        c.op("advance");
        now++;
        st.AdvanceDelayLines();
        for (size_t i = 0; i < pend.size();)
          if (pend[i].when == now) push(pend[i].db), pend.erase(pend.begin() + i);
          else i++;
        break;
      case 6: {  // empty it
        c.op("pop all");
        while (f->Available() > 0) {
          c.check(!m.q.empty() && f->Front() == m.q.front(), "another element is popped");
          f->Pop();
          m.q.pop_front();
        }
        break;
      }
    }
    int got = e.Take();
    c.check(got == err, "errors raised: %s%s, expected: %s%s", got & 1 ? "overflow " : "",
            got & 2 ? "underflow " : "", err & 1 ? "overflow " : "", err & 2 ? "underflow" : "");
    if (!c.fresh()) continue;
    Verify(c, f, m, false, 0);
    for (auto* db : m.q) c.check(db->ref_count() == 1, "an element has %d references", (int)db->ref_count());
    got = e.Take();
    c.check(got == (m.q.empty() ? 2 : 0), "Front(): %s", got ? "underflow" : "no error");
    CheckFront<T>(c, src.get(), m.q.empty() ? nullptr : m.q.front(), n);
    e.Take();
    std::string s = mc::S("%u,%zu,%u", cap, m.q.size(), m.reserved);
    for (auto& p : pend) s += mc::S(";%d", p.when - now);
    c.state(s);
  }
}
void Scalar(Ctx& c) { OneFifo<Fifo<int16_t>, int16_t>(c, 1, {1}, c.thorough() ? 7 : 6); }
void Vector(Ctx& c) {
  switch (c.choose(3, "type")) {
    case 0: return OneFifo<VectorFifo<uint8_t, 3>, uint8_t>(c, 3, {3}, c.thorough() ? 6 : 5);
    case 1: return OneFifo<MatrixFifo<uint32_t, 2, 2>, uint32_t>(c, 4, {2, 2}, c.thorough() ? 6 : 5);
    case 2: return OneFifo<Fifo<uint64_t>, uint64_t>(c, 1, {1}, c.thorough() ? 6 : 5);
  }
}

// Two token fifos on one token store.
void Token(Ctx& c) {
  g_next = 1;
  DataBufferFactory dbf;
  unsigned tokens = c.choose(3, "tokens") + 1;
  FifoTokenStore store(tokens);
  c.check(store.capacity() == tokens && store.available() == tokens, "a new token store");
  std::unique_ptr<TokenFifo<uint32_t>> f[2];
  std::unique_ptr<Errors> e[2];
  Model m[2];
  for (int i = 0; i < 2; i++) {
    f[i] = std::make_unique<TokenFifo<uint32_t>>(nullptr, i ? "b" : "a", 5, &store);
    e[i] = std::make_unique<Errors>(f[i].get());
    m[i].cap = 5;
  }
  int depth = c.thorough() ? 8 : 7;
  for (int d = 0; d < depth; d++) {
    int k = c.choose(6, "op"), i = k & 1, err = 0;
    unsigned avail = tokens - m[0].q.size() - m[1].q.size();
    if (k < 2) {
      auto* db = NewDb(&dbf, 4);
      bool ok = (d & 1) ? f[i]->Push(db) : (f[i]->SetDataBuffer(db), db->ref_count() == 2);
      c.op("fifo %d: push -> %d", i, ok);
      bool want = avail > 0;
      if (want) {
        if (m[i].reserved) m[i].reserved--;
        want = m[i].reserved < avail;
      } else if (f[i]->Reserved() + 1 == m[i].reserved) {
        m[i].reserved--;  // a refused push may or may not use its reservation
      }
      c.check(ok == want, "push with %u tokens left, %u reserved is %s", avail, m[i].reserved,
              ok ? "accepted" : "refused");
      c.check(db->ref_count() == (ok ? 2u : 1u), "%d references", (int)db->ref_count());
      if (ok) m[i].q.push_back(db);
      else err |= 1;
      db->DecRef();
    } else if (k < 4) {
      c.op("fifo %d: pop", i);
      f[i]->Pop();
      if (m[i].q.empty()) err |= 2;
      else m[i].q.pop_front();
    } else {
      c.op("fifo %d: reserve", i);
      f[i]->Reserve(1);
      m[i].reserved++;
    }
    int got = e[i]->Take();
    c.check(got == err, "errors raised: %d, expected %d", got, err);
    c.check(e[1 - i]->Take() == 0, "an error was raised in the other fifo");
    if (!c.fresh()) continue;
    avail = tokens - m[0].q.size() - m[1].q.size();
    c.check(store.available() == avail && store.capacity() == tokens,
            "%u tokens left, %u expected", store.available(), avail);
    for (int j = 0; j < 2; j++) Verify(c, f[j].get(), m[j], true, avail), e[j]->Take();
    c.state(mc::S("%u,%zu,%zu,%u,%u", tokens, m[0].q.size(), m[1].q.size(), m[0].reserved,
                  m[1].reserved));
  }
  for (int i = 0; i < 2; i++)
    while (f[i]->Available()) f[i]->Pop();
  c.check(store.available() == tokens, "%u of %u tokens after emptying the fifos",
          store.available(), tokens);
}

void TokenStore(Ctx& c) {
  unsigned cap = c.choose(4, "capacity"), avail = cap;
  FifoTokenStore s(cap);
  for (int d = 0; d < 7; d++) {
    bool acq = c.flip("acquire");
    c.op(acq ? "Acquire" : "Release");
    bool ok = acq ? s.Acquire().ok() : s.Release().ok();
    c.check(ok == (acq ? avail > 0 : avail < cap), "%s with %u of %u left is %d",
            acq ? "Acquire" : "Release", avail, cap, ok);
    if (ok) avail += acq ? -1 : 1;
    c.check(s.available() == avail && s.capacity() == cap, "%u left, %u expected", s.available(),
            avail);
  }
}

// Notification of transitions; with a callback that itself pops or pushes.
void Notify(Ctx& c) {
  g_next = 1;
  DataBufferFactory dbf;
  unsigned cap = c.choose(4, "capacity");
  int react = c.choose(3, "reaction");
  FifoWithNotify<uint32_t> f(nullptr, "f", cap);
  std::deque<uint32_t> q;
  int ne = 0, em = 0, mne = 0, mem = 0;
  auto on_ne = [&](FifoWithNotifyBase* b) {
    c.check(b == &f && f.Available() == 1, "not-empty callback with %u elements", f.Available());
    ne++;
    if (react == 1) f.Pop();
  };
  auto on_em = [&](FifoWithNotifyBase* b) {
    c.check(b == &f && f.Available() == 0 && f.IsEmpty(), "empty callback with %u elements",
            f.Available());
    em++;
    if (react == 2 && em < 3) {
      auto* db = NewDb(&dbf, 4);
      f.Push(db);
      db->DecRef();
    }
  };
  bool cb_ne = true, cb_em = true;
  f.SetOnNotEmpty(on_ne);
  f.SetOnEmpty(on_em);
  // The model's push and pop, with the reactions.
  std::function<void()> mpush, mpop;
  size_t n = 0;
  mpush = [&] {
    if (n >= cap) return;
    if (n++ == 0 && cb_ne) {
      mne++;
      if (react == 1) mpop();
    }
  };
  mpop = [&] {
    if (n == 0) return;
    if (--n == 0 && cb_em) {
      mem++;
      if (react == 2 && mem < 3) mpush();
    }
  };
  for (int d = 0; d < (c.thorough() ? 9 : 8); d++) {
    switch (c.choose(4, "op")) {
      case 0: {
        auto* db = NewDb(&dbf, 4);
        c.op("Push");
        if (d & 1) f.Push(db);
        else f.SetDataBuffer(db);
        db->DecRef();
        mpush();
        break;
      }
      case 1:
        c.op("Pop");
        f.Pop();
        mpop();
        break;
      case 2:
        cb_ne = !cb_ne;
        c.op("not-empty callback %d", cb_ne);
        if (cb_ne) f.SetOnNotEmpty(on_ne);
        else f.SetOnNotEmpty(nullptr);
        break;
      case 3:
        cb_em = !cb_em;
        c.op("empty callback %d", cb_em);
        if (cb_em) f.SetOnEmpty(on_em);
        else f.SetOnEmpty(nullptr);
        break;
    }
    c.check(f.Available() == n && f.IsEmpty() == (n == 0), "%u elements, %zu expected",
            f.Available(), n);
    c.check(ne == mne && em == mem, "callbacks: %d not-empty and %d empty, expected %d and %d", ne,
            em, mne, mem);
  }
  // The destructor empties the fifo.
  f.SetOnEmpty(nullptr);
}

// The configured depth.
void Depth(Ctx& c) {
  State st;
  unsigned cap = c.choose(3, "capacity") + 1;
  uint64_t depth = c.choose(5, "depth");
  auto* f = st.AddFifo<Fifo<uint32_t>>("f", cap);
  auto* g = st.AddFifo<Fifo<uint32_t>>("g", cap);
  int fill = c.choose(3, "elements");
  for (int i = 0; i < fill; i++) {
    auto* db = NewDb(st.db_factory(), 4);
    f->Push(db);
    db->DecRef();
  }
  size_t have = f->Available();
  mpact::sim::proto::ComponentData top, *pd = &top;
  bool nested = c.flip("through the parent");
  if (nested) {
    top.set_name("s");
    pd = top.add_component_data();
  }
  pd->set_name("f");
  auto* e = pd->add_configuration();
  int what = c.choose(3, "entry");
  e->set_name(what == 1 ? "other" : "depth");
  if (what == 2) e->set_sint64_value(depth);
  else e->set_uint64_value(depth);
  auto s = nested ? st.Import(top) : f->Import(top);
  c.op("import depth %d", (int)depth);
  c.check(s.ok() == (what != 2), "import is %d", s.ok());
  unsigned want = what == 0 ? depth : cap;
  c.check(f->Capacity() == want, "capacity %u, %u expected", f->Capacity(), want);
  c.check(g->Capacity() == cap, "another fifo's capacity changed");
  c.check(f->Available() == have && f->IsFull() == (have >= want) &&
              f->IsOverSubscribed() == (have > want),
          "state after import");
  auto* db = NewDb(st.db_factory(), 4);
  c.check(f->Push(db) == (have < want), "push after import");
  db->DecRef();
}

}  // namespace

int main(int argc, char** argv) {
  return mc::Main(argc, argv, "C15",
                  {{"scalar", Scalar, 3}, {"vector", Vector, 3}, {"token", Token, 3},
                   {"store", TokenStore, 2}, {"notify", Notify, 3}, {"depth", Depth, 2}},
                  "capacities 0-3: all histories of 6 (7) pushes, submits, pops, reservations and "
                  "cycles; two fifos on 1-3 tokens: all histories of 7 (8) steps; notification: "
                  "all histories of 8 (9) steps with callbacks that push or pop; depth import",
                  {"callbacks of FifoWithNotify are not judged while slots are reserved",
                   "a refused push to a token fifo without tokens may keep its reservation"});
}
