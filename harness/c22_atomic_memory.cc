// C22: atomic memories: load link / store conditional and atomic operations.
#include <memory>
#include <set>

#include "mem.h"
#include "mpact/sim/util/memory/atomic_memory.h"
#include "mpact/sim/util/memory/atomic_tagged_memory.h"
#include "mpact/sim/util/memory/flat_demand_memory.h"
#include "mpact/sim/util/memory/tagged_flat_demand_memory.h"

using namespace mem;
using Op = AtomicMemoryOpInterface::Operation;

namespace {

struct Sys {
  FlatDemandMemory plain;
  TaggedFlatDemandMemory tagged{8};
  AtomicMemory am{&plain};
  AtomicTaggedMemory atm{&tagged};
  bool t;
  explicit Sys(bool t) : t(t) {}
  MemoryInterface* mem() { return t ? (MemoryInterface*)&atm : &am; }
  AtomicMemoryOpInterface* atomic() { return t ? (AtomicMemoryOpInterface*)&atm : &am; }
};

uint64_t Val(const Bytes& b) {
  uint64_t v = 0;
  memcpy(&v, b.data(), b.size());
  return v;
}
Bytes Of(uint64_t v, int n) {
  Bytes b(n);
  memcpy(b.data(), &v, n);
  return b;
}
int64_t Sx(uint64_t v, int n) { return (int64_t)(v << (64 - 8 * n)) >> (64 - 8 * n); }

const Op kOps[] = {Op::kAtomicSwap, Op::kAtomicAdd, Op::kAtomicSub, Op::kAtomicAnd, Op::kAtomicOr,
                   Op::kAtomicXor, Op::kAtomicMax, Op::kAtomicMaxu, Op::kAtomicMin, Op::kAtomicMinu};
const char* kOpName[] = {"swap", "add", "sub", "and", "or", "xor", "max", "maxu", "min", "minu"};

uint64_t Apply(int op, uint64_t m, uint64_t v, int n) {
  int64_t a = Sx(m, n), b = Sx(v, n);
  switch (op) {
    case 0: return v;
    case 1: return m + v;
    case 2: return m - v;
    case 3: return m & v;
    case 4: return m | v;
    case 5: return m ^ v;
    case 6: return a > b ? m : v;
    case 7: return m > v ? m : v;
    case 8: return a < b ? m : v;
    default: return m < v ? m : v;
  }
}

// ---- the arithmetic of the operations ------------------------------------------------
void Arith(Ctx& c) {
  State st;
  Log log;
  Dbs d;
  Sys s(c.flip("tagged"));
  int n = 1 << c.choose(4, "size"), op = c.choose(10, "operation");
  int off = c.choose(16 / n, "position") * n;
  std::vector<uint64_t> vals;
  int bits = 8 * n;
  for (uint64_t v : {uint64_t(0), uint64_t(1), uint64_t(2), uint64_t(0x5a), uint64_t(0x7f),
                     uint64_t(0x80), uint64_t(0xff), uint64_t(0x0123456789abcdef),
                     uint64_t(0xfedcba9876543210)})
    vals.push_back(v);
  for (int k = 0; k < 4; k++) vals.push_back((uint64_t(1) << (bits - 1)) - k + 1);
  for (int k = 0; k < 3; k++) vals.push_back(~uint64_t(k));
  uint64_t msk = n == 8 ? ~0ULL : (uint64_t(1) << bits) - 1;
  uint64_t mv = c.pick(vals, "memory") & msk;
  Bytes around(24, 0xcc);
  bool ctx = c.flip("context");
  for (uint64_t v : vals) {
    v &= msk;
    s.mem()->Store(0x100, d.Of(around));
    s.mem()->Store(0x104 + off, d.Of(Of(mv, n)));
    auto* db = d.Of(Of(v, n));
    auto* in = new Inst(&log, &st, 7);
    auto* cx = ctx ? new Context(&log, 8) : nullptr;
    log.runs.clear();
    auto stt = s.atomic()->PerformMemoryOp(0x104 + off, kOps[op], db, in, cx);
    if (cx) cx->DecRef();
    in->DecRef();
    for (int i = 0; i < 3; i++) st.AdvanceDelayLines();
    c.check(stt.ok(), "%s refused", kOpName[op]);
    c.check(log.runs.size() == 1 && log.runs[0] == (ctx ? "7/8" : "7/-1"), "executed %zu times",
            log.runs.size());
    c.check(Val(Get(db)) == mv, "%s.%d of %llx and %llx returns %llx", kOpName[op], n,
            (unsigned long long)mv, (unsigned long long)v, (unsigned long long)Val(Get(db)));
    Bytes want = around, r = Of(Apply(op, mv, v, n) & msk, n);
    std::copy(r.begin(), r.end(), want.begin() + 4 + off);
    auto* all = d.New(24);
    s.mem()->Load(0x100, all, nullptr, nullptr);
    c.check(Get(all) == want, "%s.%d of %llx and %llx: memory %s, should be %s", kOpName[op], n,
            (unsigned long long)mv, (unsigned long long)v, Hex(Get(all)).c_str(),
            Hex(want).c_str());
  }
  c.op("%s.%d with memory %llx", kOpName[op], n, (unsigned long long)mv);
  c.check(log.insts == 0 && log.ctxs == 0, "instruction or context leaked");
}

// Illegal sizes are refused without effect.
void Illegal(Ctx& c) {
  Dbs d;
  Sys s(c.flip("tagged"));
  int n = c.pick({3, 5, 16}, "size"), op = c.choose(10, "operation");
  Bytes around(32, 0xcc);
  s.mem()->Store(0x100, d.Of(around));
  auto* db = d.Of(Bytes(n, 0x11));
  c.op("%s of %d bytes", kOpName[op], n);
  auto stt = s.atomic()->PerformMemoryOp(0x108, kOps[op], db, nullptr, nullptr);
  c.check(!stt.ok(), "accepted");
  auto* all = d.New(32);
  s.mem()->Load(0x100, all, nullptr, nullptr);
  c.check(Get(all) == around, "memory changed");
}

// ---- load link / store conditional ----------------------------------------------------
void Links(Ctx& c) {
  State st;
  Log log;
  Dbs d;
  Sys s(c.flip("tagged"));
  Ref ref(0, ~0ULL, 1, 0);
  std::map<uint64_t, uint8_t> tags;
  std::set<uint64_t> links;
  const uint64_t B = 0x3ff0;  // granules 3ff0, 3ff8, 4000
  auto store = [&](uint64_t a, const Bytes& b) {
    ref.Write(a, b);
    for (uint64_t g = a >> 3; g <= (a + b.size() - 1) >> 3; g++) {
      links.erase(g);
      tags.erase(g);
    }
  };
  auto* all = d.New(32);
  auto* tg = d.New(4);
  Bytes init(32);
  for (int i = 0; i < 32; i++) init[i] = 3 * i + 1;
  s.mem()->Store(B - 8, d.Of(init));
  store(B - 8, init);
  int steps = c.thorough() ? 5 : 4;
  std::string trail;
  for (int k = 0; k < steps; k++) {
    int nops = s.t ? 17 : 15;
    int op = c.choose(nops, "op");
    log.runs.clear();
    auto perform = [&](uint64_t a, Op o, DataBuffer* db) {
      auto* in = new Inst(&log, &st, 7);
      c.check(s.atomic()->PerformMemoryOp(a, o, db, in, nullptr).ok(), "refused");
      in->DecRef();
      for (int i = 0; i < 3; i++) st.AdvanceDelayLines();
      c.check(log.runs.size() == 1 && log.insts == 0, "executed %zu times", log.runs.size());
    };
    switch (op) {
      case 0: case 1: case 2: case 3: {
        // Linked loads: two granules, a part and a whole of one.
        static const uint64_t at[4] = {0, 8, 12, 16};
        int n = op == 2 ? 4 : 8;
        auto* db = d.New(n);
        c.op("LL(+%d, %d)", (int)at[op], n);
        perform(B + at[op], Op::kLoadLinked, db);
        c.check(Get(db) == ref.Read(B + at[op], n), "loaded %s", Hex(Get(db)).c_str());
        links.insert((B + at[op]) >> 3);
        break;
      }
      case 4: case 5: case 6: {
        static const uint64_t at[3] = {0, 8, 20};
        int n = op == 6 ? 4 : 8;
        uint64_t a = B + at[op - 4];
        Bytes b = Of(0x0101010101010101ULL * (k + 1) * 16, n);
        auto* db = d.Of(b);
        bool ok = links.count(a >> 3);
        c.op("SC(+%d, %d), %s", (int)at[op - 4], n, ok ? "linked" : "not linked");
        perform(a, Op::kStoreConditional, db);
        c.check(Val(Get(db)) == (ok ? 0 : 1), "SC returned %llx, link %s",
                (unsigned long long)Val(Get(db)), ok ? "intact" : "broken");
        if (ok) store(a, b);
        break;
      }
      case 7: case 8: case 9: {
        // Plain stores: one granule, across two, and covering several.
        static const int at[3] = {9, 6, 4}, len[3] = {1, 4, 16};
        Bytes b(len[op - 7], 0x40 + k);
        c.op("Store(+%d, %d)", at[op - 7], len[op - 7]);
        s.mem()->Store(B + at[op - 7], d.Of(b));
        store(B + at[op - 7], b);
        break;
      }
      case 10: case 11: case 12: {
        std::vector<uint64_t> a = {B + 16, B + 8};
        unsigned mask = 2;
        if (op == 11) a = {B}, mask = 2;
        if (op == 12) a = {B + 4}, mask = 3;
        int el = op == 12 ? 4 : 8;
        Bytes b(2 * el, 0x60 + k);
        c.op("Store(%s, mask %x)", a.size() == 1 ? "unit stride" : "scatter", mask);
        s.mem()->Store(d.Addr(a), d.Mask(mask, 2), el, d.Of(b));
        for (int i = 0; i < 2; i++)
          if (mask >> i & 1) store(ElAddr(a, i, el, 1), Bytes(el, 0x60 + k));
        break;
      }
      case 13: {
        auto* db = d.Of(Of(k + 1, 4));
        c.op("add(+12)");
        Bytes old = ref.Read(B + 12, 4);
        perform(B + 12, Op::kAtomicAdd, db);
        c.check(Get(db) == old, "add returned %s", Hex(Get(db)).c_str());
        store(B + 12, Of((uint32_t)(Val(old) + k + 1), 4));
        break;
      }
      case 14: {
        auto* db = d.Of(Of(0x7700 + k, 2));
        c.op("swap(+2)");
        Bytes old = ref.Read(B + 2, 2);
        perform(B + 2, Op::kAtomicSwap, db);
        c.check(Get(db) == old, "swap returned %s", Hex(Get(db)).c_str());
        store(B + 2, Of(0x7700 + k, 2));
        break;
      }
      case 15: {
        Bytes b(16, 0x20 + k);
        c.op("tagged Store(+0, 16)");
        s.atm.Store(B, d.Of(b), d.Of({1, uint8_t(2 + k)}));
        store(B, b);
        tags[B >> 3] = 1;
        tags[(B >> 3) + 1] = 2 + k;
        break;
      }
      case 16: {
        auto *db = d.New(16), *t2 = d.New(2);
        c.op("tagged Load(+8, 16)");
        s.atm.Load(B + 8, db, t2, nullptr, nullptr);
        c.check(Get(db) == ref.Read(B + 8, 16), "loaded %s", Hex(Get(db)).c_str());
        break;
      }
    }
    if (!c.fresh()) continue;
    s.mem()->Load(B - 8, all, nullptr, nullptr);
    c.check(Get(all) == ref.Read(B - 8, 32), "memory %s, should be %s", Hex(Get(all)).c_str(),
            Hex(ref.Read(B - 8, 32)).c_str());
    auto* v = d.New(4);
    s.mem()->Load(d.Addr({B + 6}), d.Mask(3, 2), 2, v, nullptr, nullptr);
    c.check(Get(v) == ref.Read(B + 6, 4), "vector load");
    if (s.t) {
      s.tagged.Load(B - 8, nullptr, tg, nullptr, nullptr);
      for (int i = 0; i < 4; i++) {
        uint64_t g = (B >> 3) - 1 + i;
        c.check(Get(tg)[i] == (tags.count(g) ? tags[g] : 0), "tag %d is %d", i, Get(tg)[i]);
      }
    }
  }
}

}  // namespace

int main(int argc, char** argv) {
  return mc::Main(argc, argv, "C22", {{"arith", Arith, 3}, {"illegal", Illegal, 1}, {"links", Links, 3}},
                  "both atomic memories: 10 operations x 4 sizes x every position in 16 bytes x all "
                  "pairs of 16 values; illegal sizes; all histories of 4 (5) of 15-17 operations "
                  "(links, conditional stores, stores within, across and over granules, scatter and "
                  "unit stride stores, atomic operations, tagged accesses) over three granules",
                  {"linked and conditional accesses are naturally aligned, and the memory is byte "
                   "addressable"});
}
