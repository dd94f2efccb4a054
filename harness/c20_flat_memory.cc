// C20: flat and demand allocated memories.
#include <memory>

#include "mem.h"
#include "mpact/sim/util/memory/flat_demand_memory.h"
#include "mpact/sim/util/memory/flat_memory.h"

using namespace mem;

namespace {

enum Kind { kFlat, kDemand };

struct Setup {
  Kind kind;
  uint64_t base, size, lo;  // lo: start of the window that is used
  unsigned unit;
  uint8_t fill;
};

// The window of interest is kWin units from lo.
constexpr int kWin = 36;

std::vector<Setup> Setups(bool wide) {
  std::vector<Setup> r;
  const uint64_t top = 0 - (uint64_t)kWin;
  for (unsigned u : {1u, 2u, 4u, 8u}) {
    r.push_back({kFlat, 0, kWin, 0, u, 0});
    r.push_back({kFlat, 0x1000, kWin, 0x1000, u, 0xa5});
    r.push_back({kDemand, 0, 0x8000, 0x4000 - 12, u, 0x5a});
    if (!wide && u == 1) {
      r.push_back({kDemand, 0, ~0ULL, 0, u, 0});
      r.push_back({kDemand, 0x123456, kWin, 0x123456, u, 1});
      r.push_back({kDemand, 0x100, ~0ULL, 0xffff'ffff'ffff'c000 - 12, u, 0});
    }
    if (wide) {
      r.push_back({kFlat, top, kWin, top, u, 3});
      r.push_back({kDemand, top, kWin, top, u, 4});
      r.push_back({kDemand, 0x100, ~0ULL, top, u, 0});
      r.push_back({kDemand, 0x123456, kWin, 0x123456, u, 1});
      r.push_back({kDemand, 0, ~0ULL, 0xffff'ffff'ffff'c000 - 12, u, 0});
      r.push_back({kDemand, 0x4000 - 12, kWin, 0x4000 - 12, u, 1});
    }
  }
  return r;
}

std::unique_ptr<MemoryInterface> Make(const Setup& s, Ctx& c) {
  if (s.kind == kFlat) {
    if (s.base == 0) return std::make_unique<FlatMemory>(s.size, s.unit, s.fill);
    return std::make_unique<FlatMemory>(s.size, s.base, s.unit, s.fill);
  }
  // The shorter constructors are used where they mean the same.
  if (s.unit == 1 && s.fill == 0 && s.size == ~0ULL)
    return s.base == 0 ? std::make_unique<FlatDemandMemory>()
                       : std::make_unique<FlatDemandMemory>(s.base);
  if (s.unit == 1 && s.fill == 0) return std::make_unique<FlatDemandMemory>(s.size, s.base);
  return std::make_unique<FlatDemandMemory>(s.size, s.base, s.unit, s.fill);
}

std::string Name(const Setup& s) {
  return mc::S("%s(base %llx, size %llx, unit %u, fill %02x)",
               s.kind == kFlat ? "FlatMemory" : "FlatDemandMemory", (unsigned long long)s.base,
               (unsigned long long)s.size, s.unit, s.fill);
}

// Compares the whole window, one wide load and one load per unit.
void Compare(Ctx& c, MemoryInterface* m, const Ref& ref, const Setup& s, Dbs& d) {
  if (!c.fresh()) return;
  auto* all = d.New(kWin * s.unit);
  m->Load(s.lo, all, nullptr, nullptr);
  Bytes want = ref.Read(s.lo, kWin * s.unit), got = Get(all);
  c.check(got == want, "memory is %s, should be %s", Hex(got).c_str(), Hex(want).c_str());
  auto* one = d.New(s.unit);
  for (int i = 0; i < kWin; i++) {
    m->Load(s.lo + i, one, nullptr, nullptr);
    c.check(Get(one) == ref.Read(s.lo + i, s.unit), "unit %d: %s", i, Hex(Get(one)).c_str());
  }
}

// A memory with distinct contents in the window.
void Prefill(MemoryInterface* m, Ref& ref, const Setup& s, Dbs& d) {
  Bytes b(kWin * s.unit);
  for (size_t i = 0; i < b.size(); i++) b[i] = 7 * i + 11;
  m->Store(s.lo, d.Of(b));
  ref.Write(s.lo, b);
}

Bytes Data(int n, int seed) {
  Bytes b(n);
  for (int i = 0; i < n; i++) b[i] = 0x80 + seed * 37 + i * 13;
  return b;
}

// ---- every single access ---------------------------------------------------------
void Scalar(Ctx& c) {
  auto sets = Setups(true);
  const Setup& s = sets[c.choose(sets.size(), "memory")];
  Dbs d;
  auto m = Make(s, c);
  Ref ref(s.base, s.size, s.unit, s.fill);
  c.note("%s", Name(s).c_str());
  bool store = c.flip("store");
  int off = c.choose(kWin, "offset");
  // Flat memories also serve accesses smaller than a unit.
  std::vector<int> sizes;
  for (int n : {1, 2, 3, 4, 8, 16, 32, 64})
    if (n % s.unit == 0 || (s.kind == kFlat && n < (int)s.unit)) sizes.push_back(n);
  int n = c.pick(sizes, "size");
  if (!ref.In(s.lo + off, n) || off * s.unit + n > kWin * s.unit) c.prune();
  Prefill(m.get(), ref, s, d);
  Compare(c, m.get(), ref, s, d);
  if (store) {
    Bytes b = Data(n, off);
    c.op("Store(+%d, %d bytes)", off, n);
    m->Store(s.lo + off, d.Of(b));
    ref.Write(s.lo + off, b);
  } else {
    auto* db = d.New(n);
    c.op("Load(+%d, %d bytes)", off, n);
    m->Load(s.lo + off, db, nullptr, nullptr);
    c.check(Get(db) == ref.Read(s.lo + off, n), "loaded %s, memory has %s", Hex(Get(db)).c_str(),
            Hex(ref.Read(s.lo + off, n)).c_str());
  }
  Compare(c, m.get(), ref, s, d);
}

void Vector(Ctx& c) {
  auto sets = Setups(c.thorough());
  const Setup& s = sets[c.choose(sets.size(), "memory")];
  Dbs d;
  auto m = Make(s, c);
  Ref ref(s.base, s.size, s.unit, s.fill);
  c.note("%s", Name(s).c_str());
  bool store = c.flip("store"), templ = false;
  std::vector<int> els;
  for (int e : {1, 2, 4, 8})
    if (e % s.unit == 0) els.push_back(e);
  int el = c.pick(els, "element size");
  int n = 1 + c.choose(4, "elements");
  int step = el / s.unit;
  unsigned mask = c.choose(1 << n, "mask");
  std::vector<uint64_t> a;
  if (n == 1 || c.flip("unit stride")) {
    a.push_back(s.lo + c.choose(kWin - n * step + 1, "address"));
  } else {
    // Gather: ascending, descending, equal, overlapping and far apart.
    int p = c.choose(5, "pattern"), o = c.choose(4, "start") + (p == 1 ? 12 : 4);
    for (int i = 0; i < n; i++)
      a.push_back(s.lo + (p == 0   ? o + i * step
                          : p == 1 ? o - i * step / (step > 3 ? 3 : 1) % (o + 1)
                          : p == 2 ? o
                          : p == 3 ? o + i
                                   : (o + i * 7) % (kWin - step + 1)));
    for (auto x : a)
      if (x < s.lo || x + step > s.lo + kWin) c.prune();
  }
  // A masked-off element may have any address.
  if (a.size() > 1)
    for (int i = 0; i < n; i++)
      if (!(mask >> i & 1)) a[i] = i % 2 ? 0 : ~0ULL;
  Prefill(m.get(), ref, s, d);
  Bytes b = Data(n * el, mask);
  auto* db = d.Of(b);
  auto *ad = d.Addr(a), *md = d.Mask(mask, n);
  c.op("%s of %d x %d, mask %x, first %llx%s", store ? "Store" : "Load", n, el, mask,
       (unsigned long long)a[0], a.size() == 1 ? " unit stride" : "");
  if (store) {
    m->Store(ad, md, el, db);
    for (int i = 0; i < n; i++)
      if (mask >> i & 1)
        ref.Write(ElAddr(a, i, el, s.unit), Bytes(b.begin() + i * el, b.begin() + (i + 1) * el));
    c.check(Get(db) == b, "the stored buffer changed");
  } else {
    m->Load(ad, md, el, db, nullptr, nullptr);
    for (int i = 0; i < n; i++)
      if (mask >> i & 1) {
        Bytes v = ref.Read(ElAddr(a, i, el, s.unit), el);
        std::copy(v.begin(), v.end(), b.begin() + i * el);
      }
    c.check(Get(db) == b, "loaded %s, should be %s", Hex(Get(db)).c_str(), Hex(b).c_str());
  }
  Compare(c, m.get(), ref, s, d);
  (void)templ;
}

// ---- histories ---------------------------------------------------------------------
void History(Ctx& c) {
  static const std::vector<Setup> sets = {
      {kFlat, 0x1000, kWin, 0x1000, 1, 0xa5},
      {kDemand, 0, 0x8000, 0x4000 - 12, 1, 0x5a},
      {kDemand, 0x2000, ~0ULL, 0x4000 - 12, 2, 0x33},
  };
  const Setup& s = sets[c.choose(sets.size(), "memory")];
  Dbs d;
  auto m = Make(s, c);
  Ref ref(s.base, s.size, s.unit, s.fill);
  c.note("%s", Name(s).c_str());
  int u = s.unit;
  int steps = c.thorough() ? 5 : 4;
  for (int k = 0; k < steps; k++) {
    int op = c.choose(s.kind == kDemand ? 9 : 8, "op");
    switch (op) {
      case 0: case 1: case 2: case 3: {
        static const int off[4] = {10, 11, 12, 8}, len[4] = {4, 1, 8, 16};
        Bytes b = Data(len[op] * u, k * 4 + op);
        c.op("Store(+%d, %d)", off[op], len[op] * u);
        m->Store(s.lo + off[op], d.Of(b));
        ref.Write(s.lo + off[op], b);
        break;
      }
      case 4: case 5: {
        std::vector<uint64_t> a = {s.lo + 11, s.lo + 13, s.lo + 11};
        if (op == 5) a.resize(1);
        unsigned mask = op == 5 ? 6 : 5;
        int el = 2 * u;
        Bytes b = Data(3 * el, k * 4 + op);
        c.op("Store(%s)", op == 5 ? "unit stride" : "scatter");
        m->Store(d.Addr(a), d.Mask(mask, 3), el, d.Of(b));
        for (int i = 0; i < 3; i++)
          if (mask >> i & 1)
            ref.Write(ElAddr(a, i, el, u), Bytes(b.begin() + i * el, b.begin() + (i + 1) * el));
        break;
      }
      case 6: {
        auto* db = d.New(6 * u);
        c.op("Load(+9, %d)", 6 * u);
        m->Load(s.lo + 9, db, nullptr, nullptr);
        c.check(Get(db) == ref.Read(s.lo + 9, 6 * u), "loaded %s", Hex(Get(db)).c_str());
        break;
      }
      case 7: {
        // Loading elsewhere allocates blocks but changes nothing.
        auto* db = d.New(u);
        uint64_t a = s.kind == kFlat ? s.lo : s.lo + 0x3ff0;
        c.op("Load(elsewhere)");
        m->Load(a, db, nullptr, nullptr);
        c.check(Get(db) == ref.Read(a, u), "loaded %s elsewhere", Hex(Get(db)).c_str());
        break;
      }
      case 8:
        c.op("Clear");
        static_cast<FlatDemandMemory*>(m.get())->Clear();
        ref.m.clear();
        break;
    }
    Compare(c, m.get(), ref, s, d);
  }
}

// ---- accesses outside of the memory are fatal, and only those ------------------------
void Range(Ctx& c) {
  c.ignore_leaks();
  struct R { Kind k; uint64_t base, size; };
  static const R rs[] = {{kFlat, 0, 16},       {kFlat, 0x1000, 16}, {kFlat, 0 - 16ULL, 16},
                         {kDemand, 0, 16},     {kDemand, 0x1000, 16}, {kDemand, 0 - 16ULL, 16},
                         {kDemand, 0x1000, ~0ULL}, {kDemand, 0, ~0ULL}, {kDemand, 0 - 16ULL, ~0ULL},
                         {kDemand, 0x3ff8, 16}};
  const R& r = rs[c.choose(10, "memory")];
  unsigned unit = 1u << c.choose(4, "unit");
  Setup s{r.k, r.base, r.size, r.base, unit, 0};
  c.note("%s", Name(s).c_str());
  Ref ref(s.base, s.size, s.unit, s.fill);
  uint64_t step = (~0ULL / unit) + (unit > 1 ? 1 : 0);  // wraps in bytes
  std::vector<uint64_t> a;
  for (uint64_t b : {r.base, r.base + r.size, uint64_t(0), r.base + step, r.base - step,
                     uint64_t(1) << 63, r.base + (uint64_t(1) << 63)})
    for (int o : {-17, -9, -8, -5, -4, -3, -2, -1, 0, 1, 2, 4, 8}) a.push_back(b + o);
  uint64_t addr = c.pick(a, "address");
  std::vector<int> ns;
  for (int n : {1, 2, 4, 8, 16})
    if (n % unit == 0) ns.push_back(n);
  int n = c.pick(ns, "size");
  int how = c.choose(r.k == kDemand ? 6 : 7, "access");
  Dbs d;
  auto m = Make(s, c);
  Bytes b = Data(n, 1);
  auto* db = d.New(2 * n);
  bool in = ref.In(addr, n);
  auto run = [&](const char* what, bool ok, const std::function<void()>& f) {
    c.op("%s at %llx, %d bytes", what, (unsigned long long)addr, n);
    bool died = mc::Dies(f);
    c.check(died == !ok, "%s at %llx, %d bytes: %s", what, (unsigned long long)addr, n,
            died ? "refused" : "accepted");
  };
  if (how >= 1 && how <= 5 && n > 8) c.prune();
  switch (how) {
    case 0:
      run("Store", in, [&] { m->Store(addr, d.Of(b)); });
      break;
    case 1:  // the second of two elements
      run("Store of a vector", in, [&] {
        m->Store(d.Addr({s.base, addr}), d.Mask(2, 2), n, d.New(2 * n));
      });
      break;
    case 2:
      run("Load of a vector", in, [&] {
        m->Load(d.Addr({s.base, addr}), d.Mask(2, 2), n, d.New(2 * n), nullptr, nullptr);
      });
      break;
    case 3:  // masked off
      run("masked Load", true, [&] {
        m->Load(d.Addr({s.base, addr}), d.Mask(0, 2), n, d.New(2 * n), nullptr, nullptr);
        m->Store(d.Addr({s.base, addr}), d.Mask(0, 2), n, d.New(2 * n));
      });
      break;
    case 4:
    case 5: {  // unit stride, second element at addr
      uint64_t first = addr - n / unit;
      if (first > addr) c.prune();
      bool both = how == 5;
      run("unit stride", in && (!both || ref.In(first, n)), [&] {
        if (both) m->Store(d.Addr({first}), d.Mask(3, 2), n, d.New(2 * n));
        else m->Load(d.Addr({first}), d.Mask(2, 2), n, d.New(2 * n), nullptr, nullptr);
      });
      break;
    }
    case 6:  // a demand memory only warns about this one
      run("Load", in, [&] { m->Load(addr, d.New(n), nullptr, nullptr); });
      break;
  }
  (void)db;
}

// ---- the instruction is executed once, after the latency -----------------------------
void Execute(Ctx& c) {
  State st;
  Log log;
  Dbs d;
  Kind k = c.flip("demand") ? kDemand : kFlat;
  Setup s{k, 0x1000, kWin, 0x1000, 1, 0};
  auto m = Make(s, c);
  Ref ref(s.base, s.size, s.unit, s.fill);
  Prefill(m.get(), ref, s, d);
  c.note("%s", Name(s).c_str());
  struct Pending { int due; std::string what; };
  std::vector<Pending> pend;
  std::vector<std::string> want;
  int now = 0, id = 0;
  auto settle = [&] {
    c.check(log.runs == want, "executed %zu times at cycle %d, expected %zu%s", log.runs.size(), now,
            want.size(), log.runs.empty() ? "" : (", last " + log.runs.back()).c_str());
    int alive = pend.size(), ctx = 0;
    for (auto& p : pend) ctx += p.what.find("-1") == std::string::npos;
    c.check(log.insts == alive, "%d instructions alive, %d pending", log.insts, alive);
    c.check(log.ctxs == ctx, "%d contexts alive, %d pending", log.ctxs, ctx);
  };
  auto advance = [&] {
    now++;
    st.AdvanceDelayLines();
    for (size_t i = 0; i < pend.size();)
      if (pend[i].due == now) {
        want.push_back(pend[i].what);
        pend.erase(pend.begin() + i);
      } else {
        i++;
      }
    settle();
  };
  int steps = c.thorough() ? 5 : 4;
  for (int i = 0; i < steps; i++) {
    int op = c.choose(1 + 2 * 3 * 2 + 1, "op");
    if (op == 0) {
      c.op("advance");
      advance();
      continue;
    }
    if (op == 13) {
      auto* db = d.New(4, 1);
      c.op("Load without instruction");
      m->Load(s.lo, db, nullptr, nullptr);
      settle();
      continue;
    }
    op--;
    bool vec = op & 1, ctx = (op >> 1) & 1;
    int lat = op >> 2 == 0 ? 0 : op >> 2 == 1 ? 1 : 3;
    auto* in = new Inst(&log, &st, id);
    auto* cx = ctx ? new Context(&log, id) : nullptr;
    auto* db = d.New(4, lat);
    c.op("Load%s, latency %d, %s context", vec ? " vector" : "", lat, ctx ? "with" : "no");
    if (vec) m->Load(d.Addr({s.lo + 3}), d.Mask(3, 2), 2, db, in, cx);
    else m->Load(s.lo + 3, db, in, cx);
    c.check(Get(db) == ref.Read(s.lo + 3, 4), "loaded %s", Hex(Get(db)).c_str());
    // The caller may let go of them at once.
    if (cx) cx->DecRef();
    in->DecRef();
    std::string w = mc::S("%d/%d", id, ctx ? id : -1);
    id++;
    if (lat == 0) want.push_back(w);
    else pend.push_back({now + lat, w});
    settle();
  }
  for (int i = 0; i < 5; i++) advance();
}

}  // namespace

int main(int argc, char** argv) {
  return mc::Main(
      argc, argv, "C20",
      {{"scalar", Scalar, 2}, {"vector", Vector, 3}, {"history", History, 3},
       {"range", Range, 2}, {"execute", Execute, 2}},
      "flat and demand memories of units 1-8: every scalar load and store of up to 64 bytes at "
      "every offset of a 36 unit window (also across block and address space ends); vectors of "
      "1-4 elements with every mask, unit stride at every offset and 5 gather patterns; all "
      "histories of 4 (5) of 8-9 operations; 91 addresses around every range end and wrap "
      "point in 40 memories; all sequences of 4 (5) loads with instruction, latency and context",
      {"demand memories are accessed in multiples of the addressable unit",
       "scalar loads outside of a demand memory (which only warn) are not judged"});
}
