// C25: the cache model: transparent for data, exact in its counters.
#include <algorithm>
#include <array>
#include <memory>
#include <set>

#include "mem.h"
#include "mpact/sim/generic/counters.h"
#include "mpact/sim/util/memory/cache.h"
#include "mpact/sim/util/memory/flat_demand_memory.h"
#include "mpact/sim/util/memory/tagged_flat_demand_memory.h"

using namespace mem;

namespace {

const char* kNames[9] = {"read_hit",    "read_miss",    "write_hit",          "write_miss",         "dirty_line_writeback",
                         "read_around", "write_around", "read_non_cacheable", "write_non_cacheable"};
enum { kRH, kRM, kWH, kWM, kDW, kRA, kWA, kRN, kWN };
using Counts = std::array<uint64_t, 9>;

struct Geo {
  uint64_t size, line, ways;
  bool wa;
  // Ranges: kind 0 none, 1 cacheable, 2 not cacheable.
  int kind = 0;
  std::vector<std::pair<uint64_t, uint64_t>> ranges;
  uint64_t nways() const { return ways ? ways : size / line; }
  uint64_t sets() const { return size / line / nways(); }
  std::string Text() const {
    std::string s = mc::S("%d,%d,%d,%s", (int)size, (int)line, (int)ways, wa ? "true" : "false");
    for (auto& r : ranges)
      s += mc::S(",%s:0x%llx:%llu", kind == 1 ? "c" : "nc", (unsigned long long)r.first,
                 (unsigned long long)r.second);
    return s;
  }
};

struct Line {
  uint64_t block, lru;
  bool dirty;
  auto key() const { return std::make_tuple(block, lru, dirty); }
  bool operator<(const Line& o) const { return key() < o.key(); }
};
// One possible state of the cache. Which of several lines with the same age is
// replaced is open, so the model keeps all states that explain the counters.
struct One {
  std::map<uint64_t, std::vector<Line>> sets;
  Counts n{};
  bool operator<(const One& o) const { return std::tie(n, sets) < std::tie(o.n, o.sets); }
};

struct Model {
  Geo g;
  std::set<One> s;
  explicit Model(const Geo& g) : g(g) { s.insert(One()); }
  bool unjudged = false;
  void Reset(const Geo& ng) {
    g = ng;
    Counts n = s.begin()->n;
    s.clear();
    One o;
    o.n = n;
    s.insert(o);
  }
  // Whether the access is cacheable; -1: partly.
  int Cacheable(uint64_t a, uint64_t n) const {
    if (g.kind == 0) return 1;
    uint64_t in = 0;
    for (uint64_t i = 0; i < n; i++)
      for (auto& r : g.ranges)
        if (r.first <= a + i && a + i <= r.second) {
          in++;
          break;
        }
    if (in != 0 && in != n) return -1;
    return (in == n) == (g.kind == 1);
  }
  void Access(uint64_t a, uint64_t n, bool read, uint64_t now) {
    int cacheable = Cacheable(a, n);
    if (cacheable < 0) {
      unjudged = true;
      return;
    }
    for (uint64_t b = a / g.line; b <= (a + n - 1) / g.line; b++) {
      std::set<One> out;
      for (One o : s) {
        if (!cacheable) {
          o.n[read ? kRN : kWN]++;
          out.insert(o);
          continue;
        }
        auto& l = o.sets[b % g.sets()];
        auto it = std::find_if(l.begin(), l.end(), [&](const Line& x) { return x.block == b; });
        if (it != l.end()) {
          o.n[read ? kRH : kWH]++;
          it->lru = now;
          it->dirty |= !read;
          std::sort(l.begin(), l.end());
          out.insert(o);
          continue;
        }
        o.n[read ? kRM : kWM]++;
        if (!read && !g.wa) {
          o.n[kWA]++;
          out.insert(o);
          continue;
        }
        if (l.size() < g.nways()) {
          l.push_back({b, now, !read});
          std::sort(l.begin(), l.end());
          out.insert(o);
          continue;
        }
        uint64_t min = ~0ULL;
        for (auto& x : l) min = std::min(min, x.lru);
        for (size_t i = 0; i < l.size(); i++) {
          if (l[i].lru != min) continue;
          One p = o;
          auto& m = p.sets[b % g.sets()];
          p.n[kDW] += m[i].dirty;
          m[i] = {b, now, !read};
          std::sort(m.begin(), m.end());
          out.insert(p);
        }
      }
      s = out;
    }
  }
  void Check(Ctx& c, Cache& k) {
    Counts n;
    for (int i = 0; i < 9; i++) {
      auto* x = dynamic_cast<CounterValueOutputBase<uint64_t>*>(k.GetCounter(kNames[i]));
      c.check(x != nullptr, "no counter %s", kNames[i]);
      n[i] = x->GetValue();
    }
    std::string t;
    for (auto it = s.begin(); it != s.end();)
      if (it->n != n) {
        t += "\n";
        for (int i = 0; i < 9; i++)
          if (it->n[i] != n[i])
            t += mc::S(" %s %d, should be %d", kNames[i], (int)n[i], (int)it->n[i]);
        it = s.erase(it);
      } else {
        ++it;
      }
    c.check(!s.empty(), "counters:%s", t.c_str());
  }
};

struct Clock {
  SimpleCounter<uint64_t> n{"cycles", 0};
  void Tick(uint64_t k = 1) { n.Increment(k); }
  uint64_t now() { return n.GetValue(); }
};

// ---- histories of hits, misses and replacements ---------------------------------------
void Histories(Ctx& c, int depth, bool ties) {
  static const Geo kGeo[] = {{16, 4, 1, true}, {16, 4, 2, true},  {16, 4, 2, false}, {16, 4, 0, true},
                             {8, 4, 0, false}, {32, 8, 4, true}, {64, 16, 2, true}};
  Geo g = kGeo[c.choose(ties ? 4 : 7, "geometry")];
  Clock t;
  Cache k("c", (MemoryInterface*)nullptr);
  Model m(g);
  c.check(k.Configure(g.Text(), &t.n).ok(), "configuration %s refused", g.Text().c_str());
  Dbs d;
  auto* db = d.New(2);
  // Blocks that share sets and some that do not.
  static const int kB[] = {0, 1, 2, 4, 6, 8};
  for (int i = 0; i < depth; i++) {
    int q = c.choose(12, "access");
    bool read = q < 6;
    uint64_t a = kB[q % 6] * g.line + (q & 1 ? 2 : 0);
    if (!ties || c.flip("tick")) t.Tick();
    c.op("%s(0x%x) at %d", read ? "Load" : "Store", (int)a, (int)t.now());
    if (read)
      k.Load(a, db, nullptr, nullptr);
    else
      k.Store(a, db);
    m.Access(a, 2, read, t.now());
    if (c.fresh() || ties) m.Check(c, k);
  }
}
void History(Ctx& c) { Histories(c, c.thorough() ? 6 : 5, false); }
void Ties(Ctx& c) { Histories(c, c.thorough() ? 5 : 4, true); }

// ---- accesses of all kinds and sizes, forwarded unchanged --------------------------------
std::vector<std::string>* ev;
struct Rec : TaggedMemoryInterface {
  std::vector<std::pair<Instruction*, ReferenceCount*>> pending;
  std::vector<int> latency;  // of the buffer, as seen by the memory
  bool now = true;           // complete at once
  void Hold(Instruction* i, ReferenceCount* x) {
    if (i == nullptr) return;
    if (now) return i->Execute(x);
    i->IncRef();
    if (x) x->IncRef();
    pending.push_back({i, x});
  }
  void Complete(size_t k) {
    auto [i, x] = pending[k];
    pending.erase(pending.begin() + k);
    i->Execute(x);
    i->DecRef();
    if (x) x->DecRef();
  }
  void Load(uint64_t a, DataBuffer* db, Instruction* i, ReferenceCount* x) override {
    ev->push_back(mc::S("load %llx %p", (unsigned long long)a, db));
    Hold(i, x);
  }
  void Load(DataBuffer* a, DataBuffer* m, int el, DataBuffer* db, Instruction* i, ReferenceCount* x) override {
    ev->push_back(mc::S("vload %p %p %d %p", a, m, el, db));
    Hold(i, x);
  }
  void Load(uint64_t a, DataBuffer* db, DataBuffer* t, Instruction* i, ReferenceCount* x) override {
    ev->push_back(mc::S("tload %llx %p %p", (unsigned long long)a, db, t));
    Hold(i, x);
  }
  void Store(uint64_t a, DataBuffer* db) override {
    ev->push_back(mc::S("store %llx %p", (unsigned long long)a, db));
  }
  void Store(DataBuffer* a, DataBuffer* m, int el, DataBuffer* db) override {
    ev->push_back(mc::S("vstore %p %p %d %p", a, m, el, db));
  }
  void Store(uint64_t a, DataBuffer* db, DataBuffer* t) override {
    ev->push_back(mc::S("tstore %llx %p %p", (unsigned long long)a, db, t));
  }
};

// How the memory is given to the cache.
std::unique_ptr<Cache> MakeCache(int how, Rec* r) {
  switch (how) {
    case 0: return std::make_unique<Cache>("c", static_cast<MemoryInterface*>(r));
    case 1: return std::make_unique<Cache>("c", static_cast<TaggedMemoryInterface*>(r));
    case 2: {
      auto k = std::make_unique<Cache>("c");
      k->set_memory(r);
      return k;
    }
    case 3: {
      auto k = std::make_unique<Cache>("c");
      k->set_tagged_memory(r);
      return k;
    }
    default: return std::make_unique<Cache>("c");
  }
}

void Kinds(Ctx& c) {
  Rec r;
  std::vector<std::string> log;
  ev = &log;
  int how = c.choose(5, "memory");
  auto k = MakeCache(how, &r);
  static const Geo kGeo[] = {{16, 4, 2, true}, {32, 8, 1, false}, {32, 16, 0, true},
                             {16, 4, 2, true, 1, {{8, 15}, {24, 39}}},
                             {16, 8, 1, true, 2, {{16, 23}, {32, ~0ULL}}},
                             {32, 4, 0, false, 2, {{0, 7}}}};
  Geo g = kGeo[c.choose(6, "geometry")];
  Clock t;
  Model m(g);
  c.check(k->Configure(g.Text(), &t.n).ok(), "configuration %s refused", g.Text().c_str());
  Dbs d;
  State st;
  Log l;
  auto* inst = new Inst(&l, &st, 1);
  auto* ctx = new Context(&l, 1);
  bool with_inst = c.flip("instruction");
  struct Free {
    Inst* i;
    Context* x;
    ~Free() {
      i->DecRef();
      x->DecRef();
    }
  } fr{inst, ctx};
  int steps = 2;
  for (int i = 0; i < steps; i++) {
    t.Tick();
    int kind = c.choose(i == 0 && !c.thorough() ? 2 : 8, "kind");
    // The first access of a pair comes from fewer positions and, if not thorough, kinds.
    uint64_t a = i == 0 ? (uint64_t)c.choose(4, "address") * 12 + 2 : (uint64_t)c.choose(c.thorough() ? 48 : 26, "address");
    std::string want;
    auto A = (unsigned long long)a;
    Instruction* ip = with_inst ? inst : nullptr;
    size_t runs = l.runs.size();
    bool load = kind % 2 == 0, fwd = how != 4, tfwd = how == 1 || how == 3;
    if (kind < 2) {
      int n = i == 0 ? 4 : c.pick({1, 2, 4, 8, 16}, "size");
      auto* db = d.New(n);
      c.op("%s(0x%llx, %d)", load ? "Load" : "Store", A, n);
      load ? k->Load(a, db, ip, ctx) : k->Store(a, db);
      m.Access(a, n, load, t.now());
      if (fwd) want = mc::S("%s %llx %p", load ? "load" : "store", A, db);
    } else if (kind < 4) {
      int n = c.pick({1, 2, 3}, "elements");
      int el = c.pick({1, 4}, "element size");
      unsigned mask = c.choose(1 << n, "mask");
      bool unit = n == 1 || c.flip("unit stride");
      std::vector<uint64_t> ad = {a};
      for (int j = 1; j < n && !unit; j++) ad.push_back((a + 13 * j) % 48);
      auto *x = d.Addr(ad), *y = d.Mask(mask, n), *db = d.New(n * el);
      c.op("vector %s(0x%llx%s, mask %x, el %d)", load ? "Load" : "Store", A, unit ? "" : "...", mask, el);
      load ? k->Load(x, y, el, db, ip, ctx) : k->Store(x, y, el, db);
      for (int j = 0; j < n; j++)
        if (mask >> j & 1) m.Access(ElAddr(ad, j, el, 1), el, load, t.now());
      if (fwd) want = mc::S("%s %p %p %d %p", load ? "vload" : "vstore", x, y, el, db);
    } else if (kind < 6) {
      int n = c.pick({1, 2}, "granules");
      a &= ~7ULL;
      A = a;
      auto *db = d.New(8 * n), *tg = d.New(n);
      c.op("tagged %s(0x%llx, %d)", load ? "Load" : "Store", A, 8 * n);
      load ? k->Load(a, db, tg, ip, ctx) : k->Store(a, db, tg);
      m.Access(a, 8 * n, load, t.now());
      if (tfwd) want = mc::S("%s %llx %p %p", load ? "tload" : "tstore", A, db, tg);
    } else {
      int n = c.pick({1, 2}, "granules");
      a &= ~7ULL;
      A = a;
      auto* tg = d.New(n);
      c.op("%s of tags(0x%llx, %d)", load ? "Load" : "Store", A, 8 * n);
      load ? k->Load(a, nullptr, tg, ip, ctx) : k->Store(a, nullptr, tg);
      m.Access(a, 8 * n, load, t.now());
      if (tfwd) want = mc::S("%s %llx %p %p", load ? "tload" : "tstore", A, (void*)nullptr, tg);
    }
    if (m.unjudged) return;
    c.check(want.empty() ? log.empty() : log.size() == 1 && log[0] == want,
            "memory saw %d accesses (%s), should be %s", (int)log.size(), log.empty() ? "" : log[0].c_str(),
            want.c_str());
    log.clear();
    bool ran = load && with_inst && !want.empty();
    c.check(l.runs.size() == runs + ran, "the instruction ran %d times", (int)(l.runs.size() - runs));
    if (ran) c.check(l.runs.back() == "1/1", "instruction/context %s", l.runs.back().c_str());
    m.Check(c, *k);
  }
}

// ---- configuration ------------------------------------------------------------------------
struct Cfg {
  const char* text;
  bool ok;
  Geo g;
};
const Cfg kCfg[] = {
    {"16,4,1,true", true, {16, 4, 1, true}},
    {"32,8,2,false", true, {32, 8, 2, false}},
    {"1k,16,0,true", true, {1024, 16, 0, true}},
    {"1M,65536,4,true", true, {1 << 20, 65536, 4, true}},
    {"16,4,2,true,c:0x10:0x1f", true, {16, 4, 2, true, 1, {{16, 31}}}},
    {"16,4,2,true,nc:16:31,nc:0:7", true, {16, 4, 2, true, 2, {{16, 31}, {0, 7}}}},
    {"8,8,1,false", true, {8, 8, 1, false}},
    {"", false},
    {"16,4,1", false},
    {"16,4,1,yes", false},
    {"16,4,1,", false},
    {"x,4,1,true", false},
    {",4,1,true", false},
    {"16,,1,true", false},
    {"16,4,,true", false},
    {"16,4,x,true", false},
    {"-16,4,1,true", false},
    {"16,-4,1,true", false},
    {"0,4,1,true", false},
    {"12,4,1,true", false},
    {"16,0,1,true", false},
    {"16,6,1,true", false},
    {"16,2,1,true", false},
    {"16,4,3,true", false},
    {"16,4,8,true", false},
    {"4,8,1,true", false},
    {"16K,4,1,true", false},
    {"16kk,4,1,true", false},
    {"16,4k,1,true", false},
    {"99999999999999999999999,4,1,true", false},
    {"16,99999999999999999999999,1,true", false},
    {"16,4,1,true,c:1", false},
    {"16,4,1,true,", false},
    {"16,4,1,true,c:16:31:1", false},
    {"16,4,1,true,x:16:31", false},
    {"16,4,1,true,c:31:16", false},
    {"16,4,1,true,c::31", false},
    {"16,4,1,true,c:16:", false},
    {"16,4,1,true,c:16:0x", false},
    {"16,4,1,true,c:zz:31", false},
    {"16,4,1,true,c:99999999999999999999999:31", false},
    {"16,4,1,true,c:0:15,nc:16:31", false},
    {"16,4,1,true,nc:0:15,c:16:31", false},
    {"8,4,2,true,c:64:127,zz", false},
};
void Configure(Ctx& c) {
  Clock t[2];
  Cache k("c", (MemoryInterface*)nullptr);
  Dbs d;
  auto* db = d.New(4);
  std::unique_ptr<Model> m;
  int clock = -1;
  int n = sizeof(kCfg) / sizeof(*kCfg);
  for (int i = 0; i < (c.thorough() ? 3 : 2); i++) {
    auto& f = kCfg[c.choose(n, "configuration")];
    int q = c.choose(2, "clock");
    c.op("Configure(\"%s\")", f.text);
    c.check(!k.Configure(f.text, nullptr).ok(), "accepted without clock");
    bool ok = k.Configure(f.text, &t[q].n).ok();
    c.check(ok == f.ok, "returned %d", ok);
    if (ok) {
      clock = q;
      if (m)
        m->Reset(f.g);
      else
        m = std::make_unique<Model>(f.g);
    }
    if (m == nullptr) continue;
    // The clock not in use runs faster.
    static const uint64_t kA[] = {0, 8, 16, 0, 24, 4, 16, 32, 40, 8, 64, 0, 12, 32, 16};
    for (size_t j = 0; j < sizeof(kA) / sizeof(*kA); j++) {
      t[clock].Tick(1);
      t[1 - clock].Tick(j % 2 ? 1000 : 0);
      bool read = j % 3 != 1;
      if (read)
        k.Load(kA[j], db, nullptr, nullptr);
      else
        k.Store(kA[j], db);
      m->Access(kA[j], 4, read, t[clock].now());
      m->Check(c, k);
    }
  }
}

// ---- outstanding loads -------------------------------------------------------------------
void Outstanding(Ctx& c) {
  Rec r;
  r.now = false;
  std::vector<std::string> log;
  ev = &log;
  Clock t;
  auto k = MakeCache(1, &r);
  c.check(k->Configure("64,8,2,true", &t.n).ok(), "configuration refused");
  Dbs d;
  Log l;
  {
    State st;
    struct Item {
      int id, left;
      DataBuffer* db;
      int latency;
      bool has_ctx;
    };
    std::vector<Item> issued, waiting;
    int ids = 0;
    std::vector<std::string> want;
    const int depth = c.thorough() ? 5 : 4;
    auto tick = [&] {
      st.AdvanceDelayLines();
      std::vector<Item> w;
      for (auto& x : waiting)
        if (--x.left == 0)
          want.push_back(mc::S("%d/%d", x.id, x.has_ctx ? x.id : -1));
        else
          w.push_back(x);
      waiting = w;
    };
    auto complete = [&](int q) {
      auto x = issued[q];
      issued.erase(issued.begin() + q);
      r.Complete(q);
      if (x.db) c.check(x.db->latency() == x.latency, "latency of the buffer became %d", x.db->latency());
      if (x.latency == 0)
        want.push_back(mc::S("%d/%d", x.id, x.has_ctx ? x.id : -1));
      else {
        x.left = x.latency;
        waiting.push_back(x);
      }
    };
    auto check = [&] {
      // Instructions due at the same time may run in any order.
      auto a = l.runs, b = want;
      std::sort(a.begin(), a.end());
      std::sort(b.begin(), b.end());
      std::string x, y;
      for (auto& z : l.runs) x += z + " ";
      for (auto& z : want) y += z + " ";
      c.check(a == b, "executed: %s should be: %s", x.c_str(), y.c_str());
      c.check(l.insts == (int)(issued.size() + waiting.size()), "%d instructions alive", l.insts);
      int ctxs = 0;
      for (auto& z : issued) ctxs += z.has_ctx;
      for (auto& z : waiting) ctxs += z.has_ctx;
      c.check(l.ctxs == ctxs, "%d contexts alive, should be %d", l.ctxs, ctxs);
    };
    for (int i = 0; i < depth; i++) {
      int q = c.choose(5 + (int)issued.size(), "op");
      if (q < 4) {
        int id = ++ids;
        int lat = c.choose(3, "latency");
        bool has_ctx = c.flip("context");
        auto* inst = new Inst(&l, &st, id);
        auto* ctx = has_ctx ? new Context(&l, id) : nullptr;
        static const char* kN[] = {"load", "vector load", "tagged load", "tag load"};
        c.op("%s %d, latency %d", kN[q], id, lat);
        DataBuffer* db = q == 3 ? nullptr : d.New(8, lat);
        auto* tg = d.New(1, lat);
        if (q == 0) k->Load(16, db, inst, ctx);
        if (q == 1) k->Load(d.Addr({16}), d.Mask(3, 2), 4, db, inst, ctx);
        if (q == 2 || q == 3) k->Load(16, db, tg, inst, ctx);
        inst->DecRef();
        if (ctx) ctx->DecRef();
        issued.push_back({id, 0, db, lat, has_ctx});
      } else if (q == 4) {
        c.op("advance");
        tick();
      } else {
        c.op("memory completes load %d", issued[q - 5].id);
        complete(q - 5);
      }
      c.check(r.pending.size() == issued.size(), "%d loads pending", (int)r.pending.size());
      check();
    }
    while (!issued.empty()) complete(0);
    for (int i = 0; i < 3; i++) tick();
    check();
  }
  c.check(l.insts == 0 && l.ctxs == 0, "%d instructions and %d contexts alive", l.insts, l.ctxs);
}

// ---- the cache in front of real memories: the data are those of the memory ------------------
void Data(Ctx& c) {
  bool tagged = c.flip("tagged");
  FlatDemandMemory fm;
  TaggedFlatDemandMemory tm(8);
  auto k = tagged ? std::make_unique<Cache>("c", static_cast<TaggedMemoryInterface*>(&tm))
                  : std::make_unique<Cache>("c", static_cast<MemoryInterface*>(&fm));
  Clock t;
  c.check(k->Configure(c.pick({"16,4,1,true", "8,8,0,false", "16,4,2,true,nc:0x1008:0x100f"}, "config"), &t.n).ok(),
          "configuration refused");
  Dbs d;
  Ref ref(0, 0, 1, 0);
  std::map<uint64_t, uint8_t> tags;
  const uint64_t B = 0x1000;
  const int depth = c.thorough() ? 4 : 3;
  for (int i = 0; i < depth; i++) {
    t.Tick();
    int q = c.choose(tagged ? 8 : 4, "op");
    uint64_t a = B + c.pick({0, 3, 6, 8}, "address");
    uint8_t v = 0x10 * (i + 1);
    if (q == 0) {
      Bytes b = {v, uint8_t(v + 1), uint8_t(v + 2), uint8_t(v + 3)};
      c.op("Store(%x)", (int)a);
      k->Store(a, d.Of(b));
      ref.Write(a, b);
      for (auto g : {a & ~7ULL, (a + 3) & ~7ULL}) tags[g] = 0;
    } else if (q == 1) {
      Bytes b = {v, uint8_t(v + 1), uint8_t(v + 2), uint8_t(v + 3)};
      c.op("vector Store(%x)", (int)a);
      k->Store(d.Addr({a, a + 6}), d.Mask(3, 2), 2, d.Of(b));
      ref.Write(a, {b[0], b[1]});
      ref.Write(a + 6, {b[2], b[3]});
      for (uint64_t x : {a, a + 1, a + 6, a + 7}) tags[x & ~7ULL] = 0;
    } else if (q == 2) {
      auto* db = d.New(4);
      c.op("Load(%x)", (int)a);
      k->Load(a, db, nullptr, nullptr);
      c.check(Get(db) == ref.Read(a, 4), "loaded %s", Hex(Get(db)).c_str());
    } else if (q == 3) {
      auto* db = d.New(6);
      c.op("vector Load(%x)", (int)a);
      k->Load(d.Addr({a}), d.Mask(7, 3), 2, db, nullptr, nullptr);
      c.check(Get(db) == ref.Read(a, 6), "loaded %s", Hex(Get(db)).c_str());
    } else {
      a = B + 8 * ((a - B) / 4 % 2);
      auto *db = d.New(8), *tg = d.Of({uint8_t(i + 1)});
      memset(db->raw_ptr(), v, 8);
      c.op("tagged %s %s(%x)", q % 2 ? "Store" : "Load", q < 6 ? "" : "of tags ", (int)a);
      if (q % 2) {
        k->Store(a, q < 6 ? db : nullptr, tg);
        if (q < 6) ref.Write(a, Get(db));
        tags[a] = i + 1;
      } else {
        k->Load(a, q < 6 ? db : nullptr, tg, nullptr, nullptr);
        if (q < 6) c.check(Get(db) == ref.Read(a, 8), "loaded %s", Hex(Get(db)).c_str());
        c.check(Get(tg)[0] == tags[a], "tag %d, should be %d", Get(tg)[0], tags[a]);
      }
    }
    if (!c.fresh()) continue;
    auto* all = d.New(32);
    tagged ? tm.Load(B, all, nullptr, nullptr) : fm.Load(B, all, nullptr, nullptr);
    c.check(Get(all) == ref.Read(B, 32), "memory is %s", Hex(Get(all)).c_str());
  }
}

}  // namespace

int main(int argc, char** argv) {
  return mc::Main(
      argc, argv, "C25",
      {{"history", History, 3}, {"ties", Ties, 1}, {"kinds", Kinds, 3}, {"configure", Configure, 1},
       {"outstanding", Outstanding, 2}, {"data", Data, 1}},
      "7 geometries: all histories of 5 (6) of 12 accesses; 4 with optional clock ticks: 4 (5); all "
      "pairs of an access (of any kind if thorough) and one of 8 kinds with all sizes, masks, alignments over 6 geometries (with "
      "cacheable and non-cacheable ranges) and 5 ways of attaching memory; all pairs (triples) of 44 "
      "configuration strings; all histories of 4 (5) steps with loads in flight, completed in any "
      "order; data of all histories of 3 (4) accesses in front of real memories",
      {"accesses partly within a (non-)cacheable range are not judged; which of several equally old "
       "lines is replaced is open; without memory nothing is forwarded and instructions do not run"});
}
