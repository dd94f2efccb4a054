// C21: tagged memory, and tagged access to untagged memory.
#include <memory>

#include "mem.h"
#include "mpact/sim/util/memory/flat_demand_memory.h"
#include "mpact/sim/util/memory/tagged_flat_demand_memory.h"
#include "mpact/sim/util/memory/tagged_to_untagged_memory_transactor.h"

using namespace mem;

namespace {

struct Setup {
  uint64_t base, size;  // units
  unsigned unit, gran;  // gran: bytes
  uint8_t fill;
  uint64_t lo;  // granule aligned start of the window, units
};

constexpr int kGran = 4;  // granules in the window

std::unique_ptr<TaggedMemoryInterface> Make(const Setup& s) {
  if (s.unit == 1 && s.fill == 0) {
    if (s.size == ~0ULL)
      return s.base == 0 ? std::make_unique<TaggedFlatDemandMemory>(s.gran)
                         : std::make_unique<TaggedFlatDemandMemory>(s.base, s.gran);
    return std::make_unique<TaggedFlatDemandMemory>(s.size, s.base, s.gran);
  }
  return std::make_unique<TaggedFlatDemandMemory>(s.size, s.base, s.unit, s.fill, s.gran);
}

struct Model {
  Setup s;
  Ref ref;
  std::map<uint64_t, uint8_t> tags;
  bool untagged = false;  // behind the transactor: tags are always zero
  explicit Model(const Setup& s) : s(s), ref(s.base, s.size, s.unit, s.fill) {}
  uint64_t G(uint64_t a) const { return a / (s.gran / s.unit); }
  uint8_t Tag(uint64_t g) const {
    auto it = tags.find(g);
    return it == tags.end() ? 0 : it->second;
  }
  void Store(uint64_t a, const Bytes& b) {
    ref.Write(a, b);
    uint64_t g = G(a), n = G(a + (b.size() - 1) / s.unit) - g + 1;
    for (uint64_t i = 0; i < n; i++) tags.erase(g + i);
  }
  void Vec(const std::vector<uint64_t>& a, unsigned mask, int n, int el, const Bytes& b) {
    for (int i = 0; i < n; i++)
      if (mask >> i & 1)
        Store(ElAddr(a, i, el, s.unit), Bytes(b.begin() + i * el, b.begin() + (i + 1) * el));
  }
  bool Legal(uint64_t a, const Bytes* b, int nt) const {
    if (a % (s.gran / s.unit)) return false;
    return !b || (b->size() % s.gran == 0 && (int)(b->size() / s.gran) == nt);
  }
};

Bytes Data(int n, int seed) {
  Bytes b(n);
  for (int i = 0; i < n; i++) b[i] = 0x80 + seed * 37 + i * 13;
  return b;
}

// Compares data and tags of the window, and one granule at a time.
void Compare(Ctx& c, TaggedMemoryInterface* m, const Model& w, Dbs& d, int grans = kGran) {
  if (!c.fresh()) return;
  const Setup& s = w.s;
  uint64_t per = s.gran / s.unit;
  Bytes want(grans);
  for (int i = 0; i < grans; i++) want[i] = w.Tag(w.G(s.lo) + i);
  Bytes data = w.ref.Read(s.lo, grans * s.gran);
  auto *db = d.New(grans * s.gran), *tg = d.New(grans), *pl = d.New(grans * s.gran);
  memset(tg->raw_ptr(), 0xee, grans);
  m->Load(s.lo, db, tg, nullptr, nullptr);
  c.check(Get(db) == data, "data %s, should be %s", Hex(Get(db)).c_str(), Hex(data).c_str());
  c.check(Get(tg) == want, "tags %s, should be %s", Hex(Get(tg)).c_str(), Hex(want).c_str());
  m->Load(s.lo, pl, nullptr, nullptr);
  c.check(Get(pl) == data, "untagged load: %s, should be %s", Hex(Get(pl)).c_str(),
          Hex(data).c_str());
  memset(tg->raw_ptr(), 0xee, grans);
  m->Load(s.lo, nullptr, tg, nullptr, nullptr);
  c.check(Get(tg) == want, "tag load: %s, should be %s", Hex(Get(tg)).c_str(), Hex(want).c_str());
  auto *d1 = d.New(s.gran), *t1 = d.New(1);
  for (int i = 0; i < grans; i++) {
    memset(t1->raw_ptr(), 0xee, 1);
    m->Load(s.lo + i * per, d1, t1, nullptr, nullptr);
    c.check(Get(t1)[0] == want[i] && Get(d1) == w.ref.Read(s.lo + i * per, s.gran), "granule %d", i);
  }
}

void Prefill(TaggedMemoryInterface* m, Model& w, Dbs& d, int grans = kGran) {
  const Setup& s = w.s;
  Bytes b = Data(grans * s.gran, 5), t(grans);
  for (int i = 0; i < grans; i++) t[i] = i + 1;
  m->Store(s.lo, d.Of(b), d.Of(t));
  w.ref.Write(s.lo, b);
  for (int i = 0; i < grans; i++) w.tags[w.G(s.lo) + i] = t[i];
}

const std::vector<Setup>& Setups() {
  static const std::vector<Setup> v = {
      {0, ~0ULL, 1, 8, 0, 0},
      {0, ~0ULL, 1, 16, 0, 0x4000 - 32},              // across a data block
      {0, ~0ULL, 1, 8, 0, 0x4000 * 8 - 16},           // across a tag block
      {0x1000, 64, 1, 16, 0x33, 0x1000},
      {0x1000, ~0ULL, 1, 8, 0, 0 - 32ULL},            // the end of the address space
      {0, 0x100, 2, 8, 1, 0x10},                      // units of 2 and 4 bytes
      {0x40, 0x100, 4, 16, 2, 0x48},
      {0x20, 0x100, 1, 1, 2, 0x21},                   // one tag per byte
      {0x20, 0x100, 8, 8, 2, 0x21},                   // and per unit
  };
  return v;
}
std::string Name(const Setup& s) {
  return mc::S("memory base %llx size %llx unit %u granule %u", (unsigned long long)s.base,
               (unsigned long long)s.size, s.unit, s.gran);
}

// ---- every single access -----------------------------------------------------------
void Scalar(Ctx& c) {
  const Setup& s = Setups()[c.choose(Setups().size(), "memory")];
  c.note("%s", Name(s).c_str());
  Dbs d;
  Model w(s);
  auto m = Make(s);
  Prefill(m.get(), w, d);
  Compare(c, m.get(), w, d);
  int units = kGran * s.gran / s.unit;
  int off = c.choose(units, "offset");
  bool tagged = c.flip("tagged");
  std::vector<int> sizes;
  for (int n : {1, 2, 4, 8, 12, 16, 24, 32, 48})
    if (n % s.unit == 0) sizes.push_back(n);
  int n = c.pick(sizes, "size");
  if (off * (int)s.unit + n > kGran * (int)s.gran) c.prune();
  uint64_t a = s.lo + off;
  Bytes b = Data(n, off);
  if (!tagged) {
    c.op("Store(+%d, %d bytes)", off, n);
    m->Store(a, d.Of(b));
    w.Store(a, b);
    Compare(c, m.get(), w, d);
    return;
  }
  int nt = c.choose(5, "tags");  // number of tags given: right and wrong ones
  bool null = c.flip("null data");
  if (nt == 0 || off + nt * (int)(s.gran / s.unit) > units) c.prune();
  Bytes t(nt);
  for (int i = 0; i < nt; i++) t[i] = 0x91 + i;
  bool ok = w.Legal(a, null ? nullptr : &b, nt);
  if (c.flip("load")) {
    auto *db = d.Of(b), *tg = d.Of(t);
    c.op("tagged Load(+%d, %d bytes%s, %d tags)", off, n, null ? " (null)" : "", nt);
    m->Load(a, null ? nullptr : db, tg, nullptr, nullptr);
    if (ok) {
      for (int i = 0; i < nt; i++) t[i] = w.Tag(w.G(a) + i);
      if (!null) b = w.ref.Read(a, n);
      c.check(Get(tg) == t, "tags %s, should be %s", Hex(Get(tg)).c_str(), Hex(t).c_str());
      c.check(null || Get(db) == b, "data %s, should be %s", Hex(Get(db)).c_str(), Hex(b).c_str());
    }
  } else {
    c.op("tagged Store(+%d, %d bytes%s, %d tags)", off, n, null ? " (null)" : "", nt);
    m->Store(a, null ? nullptr : d.Of(b), d.Of(t));
    if (ok) {
      if (!null) w.ref.Write(a, b);
      for (int i = 0; i < nt; i++) w.tags[w.G(a) + i] = t[i];
    }
  }
  Compare(c, m.get(), w, d);
}

void Vector(Ctx& c) {
  const Setup& s = Setups()[c.choose(Setups().size(), "memory")];
  c.note("%s", Name(s).c_str());
  Dbs d;
  Model w(s);
  auto m = Make(s);
  int grans = s.gran < 8 ? 32 : kGran;
  if (s.gran < 8) {
    // Many small granules.
  }
  Prefill(m.get(), w, d, grans);
  std::vector<int> els;
  for (int e : {1, 2, 4, 8})
    if (e % s.unit == 0) els.push_back(e);
  int el = c.pick(els, "element size"), n = 1 + c.choose(3, "elements");
  unsigned mask = c.choose(1 << n, "mask");
  int step = el / s.unit, units = grans * s.gran / s.unit;
  std::vector<uint64_t> a;
  if (n == 1 || c.flip("unit stride")) {
    if (units - n * step + 1 <= 0) c.prune();
    a.push_back(s.lo + c.choose(units - n * step + 1, "address"));
  } else {
    int p = c.choose(3, "pattern"), o = c.choose(4, "start");
    for (int i = 0; i < n; i++) {
      int x = p == 0 ? o + 2 * i * step : p == 1 ? o : o + (n - 1 - i) * (step + 1);
      if (x + step > units) c.prune();
      a.push_back(s.lo + x);
    }
    for (int i = 0; i < n; i++)
      if (!(mask >> i & 1)) a[i] = i % 2 ? 0 : ~0ULL;
  }
  Bytes b = Data(n * el, mask);
  auto* db = d.Of(b);
  bool load = c.flip("load");
  c.op("%s of %d x %d, mask %x, first %llx%s", load ? "Load" : "Store", n, el, mask,
       (unsigned long long)a[0], a.size() == 1 ? " unit stride" : "");
  if (load) {
    m->Load(d.Addr(a), d.Mask(mask, n), el, db, nullptr, nullptr);
    for (int i = 0; i < n; i++)
      if (mask >> i & 1) {
        Bytes v = w.ref.Read(ElAddr(a, i, el, s.unit), el);
        std::copy(v.begin(), v.end(), b.begin() + i * el);
      }
    c.check(Get(db) == b, "loaded %s, should be %s", Hex(Get(db)).c_str(), Hex(b).c_str());
  } else {
    m->Store(d.Addr(a), d.Mask(mask, n), el, db);
    w.Vec(a, mask, n, el, b);
  }
  Compare(c, m.get(), w, d, grans);
}

// ---- memories whose ends are not multiples of the granule ----------------------------
void Ends(Ctx& c) {
  uint64_t base = c.pick({uint64_t(0), uint64_t(0x1000), uint64_t(0x1004), uint64_t(0x1007)}, "base");
  uint64_t size = c.pick({uint64_t(1), uint64_t(8), uint64_t(15), uint64_t(16), uint64_t(17),
                          uint64_t(20), ~uint64_t(0)},
                         "size");
  unsigned gran = c.pick({1u, 8u, 16u}, "granule");
  Setup s{base, size, 1, gran, 0, 0};
  c.note("%s", Name(s).c_str());
  Dbs d;
  Model w(s);
  auto m = Make(s);
  uint64_t end = size > ~base ? 0 : base + size;  // 0: end of the address space
  if (base == 0 && size == ~0ULL) end = ~0ULL;
  bool last = c.flip("last");
  uint64_t a = last ? end - 1 : base;
  c.op("Store one byte at %llx", (unsigned long long)a);
  m->Store(a, d.Of({0x77}));
  w.Store(a, {0x77});
  auto *one = d.New(1), *tag = d.New(1);
  m->Load(a, one, nullptr, nullptr);
  c.check(Get(one)[0] == 0x77, "read back");
  uint64_t ga = a & ~uint64_t(gran - 1);
  for (int v : {5, 0, 255}) {
    // Tags alone can be stored and loaded for every granule in use.
    c.op("Store tag %d at %llx", v, (unsigned long long)ga);
    m->Store(ga, nullptr, d.Of({(uint8_t)v}));
    memset(tag->raw_ptr(), 0xee, 1);
    m->Load(ga, nullptr, tag, nullptr, nullptr);
    c.check(Get(tag)[0] == v, "tag %d", Get(tag)[0]);
  }
  m->Store(a, d.Of({0x78}));
  m->Load(ga, nullptr, tag, nullptr, nullptr);
  c.check(Get(tag)[0] == 0, "the tag was not cleared");
}

// ---- histories of tagged and untagged accesses, also through the transactor ----------
void History(Ctx& c) {
  static const std::vector<Setup> sets = {
      {0, ~0ULL, 1, 8, 0, 0x4000 - 16}, {0x40, 0x100, 4, 16, 2, 0x48}};
  int k = c.choose(3, "memory");
  const Setup& s = sets[k == 2 ? 0 : k];
  Dbs d;
  Model w(s);
  FlatDemandMemory plain(s.size, s.base, s.unit, s.fill);
  TaggedToUntaggedMemoryTransactor tr(&plain);
  std::unique_ptr<TaggedMemoryInterface> own;
  TaggedMemoryInterface* m = &tr;
  w.untagged = k == 2;
  if (k < 2) {
    own = Make(s);
    m = own.get();
  }
  c.note("%s%s", Name(s).c_str(), k == 2 ? " (transactor)" : "");
  int per = s.gran / s.unit, u = s.unit;
  int steps = c.thorough() ? 6 : 5;
  for (int i = 0; i < steps; i++) {
    int op = c.choose(9, "op");
    auto settag = [&](uint64_t g, uint8_t v) {
      if (!w.untagged) w.tags[g] = v;
    };
    switch (op) {
      case 0: case 1: {
        int n = op + 1, g = 1;
        Bytes b = Data(n * s.gran, i), t = {uint8_t(i + 1), uint8_t(0x80 + i)};
        t.resize(n);
        c.op("tagged Store of %d granules", n);
        m->Store(s.lo + g * per, d.Of(b), d.Of(t));
        w.ref.Write(s.lo + g * per, b);
        for (int j = 0; j < n; j++) settag(w.G(s.lo) + g + j, t[j]);
        break;
      }
      case 2: {
        c.op("Store of tags");
        m->Store(s.lo, nullptr, d.Of({1, 0, 3}));
        settag(w.G(s.lo), 1);
        settag(w.G(s.lo) + 1, 0);
        settag(w.G(s.lo) + 2, 3);
        break;
      }
      case 3: case 4: case 5: {
        int off = op == 3 ? per - 1 : op == 4 ? per : 2 * per + 1, n = op == 3 ? 2 * u : u;
        Bytes b = Data(n, i);
        c.op("Store(+%d, %d)", off, n);
        m->Store(s.lo + off, d.Of(b));
        w.Store(s.lo + off, b);
        break;
      }
      case 6: case 7: {
        std::vector<uint64_t> a = {s.lo + per - 1, s.lo + 2 * per};
        if (op == 7) a.resize(1);
        unsigned mask = op == 7 ? 2 : 3;
        Bytes b = Data(2 * u, i);
        c.op("Store(%s)", op == 7 ? "unit stride, first masked" : "scatter");
        m->Store(d.Addr(a), d.Mask(mask, 2), u, d.Of(b));
        w.Vec(a, mask, 2, u, b);
        break;
      }
      case 8: {
        Bytes b = Data(s.gran, i);
        if (k == 2) {
          c.op("Load (vector)");
          auto* db = d.New(2 * u);
          m->Load(d.Addr({s.lo + per}), d.Mask(3, 2), u, db, nullptr, nullptr);
          c.check(Get(db) == w.ref.Read(s.lo + per, 2 * u), "loaded %s", Hex(Get(db)).c_str());
          break;
        }
        c.op("misaligned tagged Store");
        m->Store(s.lo + 1, d.Of(b), d.Of({9}));
        break;
      }
    }
    Compare(c, m, w, d);
  }
}

// ---- instructions ---------------------------------------------------------------------
void Execute(Ctx& c) {
  State st;
  Log log;
  Dbs d;
  FlatDemandMemory plain(0x1000, 0, 1, 0);
  TaggedToUntaggedMemoryTransactor tr(&plain);
  TaggedFlatDemandMemory own(0x1000, 0, 8);
  bool t = c.flip("transactor");
  TaggedMemoryInterface* m = t ? (TaggedMemoryInterface*)&tr : &own;
  struct Pending { int due; std::string what; bool ctx; };
  std::vector<Pending> pend;
  std::vector<std::string> want;
  int now = 0, id = 0;
  auto settle = [&] {
    c.check(log.runs == want, "executed %zu times at cycle %d, expected %zu", log.runs.size(), now,
            want.size());
    int ctx = 0;
    for (auto& p : pend) ctx += p.ctx;
    c.check(log.insts == (int)pend.size() && log.ctxs == ctx, "%d instructions, %d contexts alive",
            log.insts, log.ctxs);
  };
  auto advance = [&] {
    now++;
    st.AdvanceDelayLines();
    for (size_t i = 0; i < pend.size();)
      if (pend[i].due == now) {
        want.push_back(pend[i].what);
        pend.erase(pend.begin() + i);
      } else {
        i++;
      }
    settle();
  };
  for (int i = 0; i < (c.thorough() ? 4 : 3); i++) {
    int op = c.choose(1 + 4 * 3 * 2, "op");
    if (op == 0) {
      c.op("advance");
      advance();
      continue;
    }
    op--;
    int kind = op & 3, lat = (op >> 2) % 3;
    bool ctx = op / 12;
    if (lat == 2) lat = 3;
    auto* in = new Inst(&log, &st, id);
    auto* cx = ctx ? new Context(&log, id) : nullptr;
    auto *db = d.New(8, lat), *tg = d.New(1, kind == 3 ? lat : 7);
    static const char* kName[] = {"Load", "vector Load", "tagged Load", "tag Load"};
    c.op("%s, latency %d, %s context", kName[kind], lat, ctx ? "with" : "no");
    if (kind == 0) m->Load(16, db, in, cx);
    if (kind == 1) m->Load(d.Addr({16}), d.Mask(3, 2), 4, db, in, cx);
    if (kind == 2) m->Load(16, db, tg, in, cx);
    if (kind == 3) m->Load(16, nullptr, tg, in, cx);
    if (cx) cx->DecRef();
    in->DecRef();
    std::string w = mc::S("%d/%d", id, ctx ? id : -1);
    id++;
    if (lat == 0) want.push_back(w);
    else pend.push_back({now + lat, w, ctx});
    settle();
  }
  for (int i = 0; i < 5; i++) advance();
}

}  // namespace

int main(int argc, char** argv) {
  return mc::Main(
      argc, argv, "C21",
      {{"scalar", Scalar, 2}, {"vector", Vector, 3}, {"ends", Ends, 1}, {"history", History, 3},
       {"execute", Execute, 2}},
      "9 tagged memories (units 1-8, granules 1-16, block and address space ends): every tagged "
      "and untagged access of up to 48 bytes at every offset of 4 granules, with 1-4 tags; "
      "vectors of 1-3 elements with every mask; 84 memories with unaligned ends; all histories of "
      "5 (6) of 9 operations on two memories and the transactor; all sequences of 3 (4) loads "
      "with instructions",
      {"the granule is a power of two and not smaller than the addressable unit"});
}
