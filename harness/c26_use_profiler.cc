// C26: the memory use profilers.
#include <memory>
#include <set>
#include <sstream>

#include "mem.h"
#include "mpact/sim/util/memory/memory_use_profiler.h"

using namespace mem;

namespace {

std::vector<std::string>* ev;
struct Rec : TaggedMemoryInterface {
  void Load(uint64_t a, DataBuffer* db, Instruction* i, ReferenceCount* x) override {
    ev->push_back(mc::S("load %llx %p %p %p", (unsigned long long)a, db, i, x));
  }
  void Load(DataBuffer* a, DataBuffer* m, int el, DataBuffer* db, Instruction* i,
            ReferenceCount* x) override {
    ev->push_back(mc::S("vload %p %p %d %p %p %p", a, m, el, db, i, x));
  }
  void Load(uint64_t a, DataBuffer* db, DataBuffer* t, Instruction* i, ReferenceCount* x) override {
    ev->push_back(mc::S("tload %llx %p %p %p %p", (unsigned long long)a, db, t, i, x));
  }
  void Store(uint64_t a, DataBuffer* db) override {
    ev->push_back(mc::S("store %llx %p", (unsigned long long)a, db));
  }
  void Store(DataBuffer* a, DataBuffer* m, int el, DataBuffer* db) override {
    ev->push_back(mc::S("vstore %p %p %d %p", a, m, el, db));
  }
  void Store(uint64_t a, DataBuffer* db, DataBuffer* t) override {
    ev->push_back(mc::S("tstore %llx %p %p", (unsigned long long)a, db, t));
  }
};

struct Sys {
  Rec rec;
  std::vector<std::string> log;
  std::unique_ptr<MemoryUseProfiler> p;
  std::unique_ptr<TaggedMemoryUseProfiler> t;
  bool tagged, mem;
  std::set<uint64_t> words;
  bool on = false;
  Sys(bool tagged, bool mem) : tagged(tagged), mem(mem) {
    ev = &log;
    if (tagged)
      t = mem ? std::make_unique<TaggedMemoryUseProfiler>(&rec) : std::make_unique<TaggedMemoryUseProfiler>();
    else
      p = mem ? std::make_unique<MemoryUseProfiler>(&rec) : std::make_unique<MemoryUseProfiler>();
  }
  MemoryInterface* m() { return tagged ? (MemoryInterface*)t.get() : p.get(); }
  void Enable(bool x) {
    tagged ? t->set_is_enabled(x) : p->set_is_enabled(x);
    on = x;
  }
  void Mark(uint64_t a, int n) {
    if (!on) return;
    for (int i = 0; i < n; i++) words.insert((a + i) >> 2);
  }
  void Forwarded(Ctx& c, const std::string& want) {
    c.check(mem ? log.size() == 1 && log[0] == want : log.empty(), "memory saw %d accesses (%s), should be %s",
            (int)log.size(), log.empty() ? "" : log[0].c_str(), want.c_str());
    log.clear();
  }
  void Check(Ctx& c) {
    std::ostringstream o;
    tagged ? t->WriteProfile(o) : p->WriteProfile(o);
    std::string want;
    for (auto i = words.begin(); i != words.end();) {
      uint64_t lo = *i, hi = lo;
      while (++i != words.end() && *i == hi + 1) hi++;
      want += mc::S("0x%llx,0x%llx,%llu\n", (unsigned long long)lo * 4, (unsigned long long)hi * 4,
                    (unsigned long long)(hi - lo + 1) * 4);
    }
    c.check(o.str() == want, "profile is:\n%sshould be:\n%s", o.str().c_str(), want.c_str());
  }
};

constexpr uint64_t kSeg = 128 * 1024;
struct Where {
  uint64_t base;  // start of the segment
  uint64_t lo, hi;
};

// One or two accesses of each kind at every position around the bounds of segments.
void Access(Ctx& c) {
  Sys s(c.flip("tagged"), c.flip("memory"));
  s.Enable(true);
  Dbs d;
  State st;
  Log l;
  struct Free {
    Inst* i;
    Context* x;
    ~Free() {
      i->DecRef();
      x->DecRef();
    }
  } fr{new Inst(&l, &st, 1), new Context(&l, 1)};
  auto *inst = fr.i;
  auto* ctx = fr.x;
  const int steps = 2;
  for (int i = 0; i < steps; i++) {
    int kind = i == 0 && !c.thorough() ? c.pick({0, 3}, "kind") : c.choose(s.tagged ? 8 : 4, "kind");
    bool load = kind % 2 == 0;
    // Around a bound; the first access is from fewer places.
    static const uint64_t kBound[] = {8, kSeg, 3 * kSeg, 0 - (uint64_t)12};
    uint64_t bound = kBound[c.choose(4, "near")];
    uint64_t a = i == 0 ? bound - c.pick({8, 4, -4}, "offset") : bound - 8 + c.choose(c.thorough() ? 16 : 12, "offset");
    auto A = (unsigned long long)a;
    if (kind < 2) {
      int n = i == 0 ? 4 : c.pick({1, 2, 4, 8}, "size");
      if (a + n - 1 < a) c.prune();
      auto* db = d.New(n);
      c.op("%s(0x%llx, %d)", load ? "Load" : "Store", A, n);
      load ? s.m()->Load(a, db, inst, ctx) : s.m()->Store(a, db);
      s.Mark(a, n);
      s.Forwarded(c, load ? mc::S("load %llx %p %p %p", A, db, inst, ctx) : mc::S("store %llx %p", A, db));
    } else if (kind < 4) {
      int n = i == 0 ? 2 : c.pick({1, 2, 3}, "elements"), el = i == 0 ? 4 : c.pick({1, 2, 4, 8}, "element size");
      unsigned mask = i == 0 ? 3 : c.choose(1 << n, "mask");
      bool unit = n == 1 || c.flip("unit stride");
      std::vector<uint64_t> ad = {a};
      for (int j = 1; j < n && !unit; j++) ad.push_back(kSeg * (2 * j - 1) - 6 * j);
      if (unit && a + n * el - 1 < a) c.prune();
      if (a + el - 1 < a) c.prune();
      auto *x = d.Addr(ad), *y = d.Mask(mask, n), *db = d.New(n * el);
      c.op("vector %s(0x%llx, mask %x of %d, el %d, %s)", load ? "Load" : "Store", A, mask, n, el, unit ? "unit" : "gather");
      load ? s.m()->Load(x, y, el, db, inst, ctx) : s.m()->Store(x, y, el, db);
      for (int j = 0; j < n; j++)
        if (mask >> j & 1) s.Mark(ElAddr(ad, j, el, 1), el);
      s.Forwarded(c, load ? mc::S("vload %p %p %d %p %p %p", x, y, el, db, inst, ctx)
                          : mc::S("vstore %p %p %d %p", x, y, el, db));
    } else {
      a &= ~7ULL;
      A = a;
      auto *db = kind < 6 ? d.New(8) : nullptr, *tg = d.New(1);
      c.op("tagged %s(0x%llx)%s", load ? "Load" : "Store", A, db ? "" : " of tags");
      load ? s.t->Load(a, db, tg, inst, ctx) : s.t->Store(a, db, tg);
      if (db) s.Mark(a, 8);
      s.Forwarded(c, load ? mc::S("tload %llx %p %p %p %p", A, db, tg, inst, ctx)
                          : mc::S("tstore %llx %p %p", A, db, tg));
    }
    s.Check(c);
  }
}

// Histories of words in and across segments, with the profiler switched on and off.
void History(Ctx& c) {
  Sys s(c.flip("tagged"), false);
  Dbs d;
  auto *w = d.New(4), *dw = d.New(8);
  const int depth = c.thorough() ? 6 : 5;
  s.Enable(false);
  for (int i = 0; i < depth; i++) {
    int q = c.choose(10, "op");
    static const uint64_t kA[] = {0, kSeg - 4, kSeg, kSeg + 4, 2 * kSeg - 4, 3 * kSeg, 0 - (uint64_t)4, kSeg - 8};
    if (q == 0) {
      c.op("switch");
      s.Enable(!s.on);
    } else if (q == 9) {
      c.op("Load(2 * seg - 4, 8)");
      s.m()->Load(2 * kSeg - 4, dw, nullptr, nullptr);
      s.Mark(2 * kSeg - 4, 8);
    } else {
      uint64_t a = kA[q - 1];
      c.op("Store(0x%llx)", (unsigned long long)a);
      s.m()->Store(a, w);
      s.Mark(a, 4);
    }
    if (c.fresh()) s.Check(c);
  }
}

// Every set of used words among 16 in a row, at the start, across bytes and bounds of segments.
void Sets(Ctx& c) {
  bool tagged = c.flip("tagged");
  const int n = c.thorough() ? 20 : 17;
  uint64_t at = c.pick({(uint64_t)0, kSeg - 32, 5 * kSeg - 4, 7 * kSeg - 68 - 3 * 4}, "where");
  unsigned hi = c.choose(1 << (n - 10), "upper");
  Dbs d;
  auto* w = d.New(4);
  for (unsigned lo = 0; lo < 1024; lo++) {
    Sys s(tagged, false);
    s.Enable(true);
    unsigned bits = hi << 10 | lo;
    for (int i = 0; i < n; i++)
      if (bits >> i & 1) {
        s.m()->Store(at + 4 * i, w);
        s.Mark(at + 4 * i, 4);
      }
    if (lo == 0) c.op("words %x... from 0x%llx", bits, (unsigned long long)at);
    s.Check(c);
  }
}

}  // namespace

int main(int argc, char** argv) {
  return mc::Main(
      argc, argv, "C26", {{"access", Access, 2}, {"history", History, 2}, {"sets", Sets, 1}},
      "both profilers: all pairs of an access (of any kind if thorough) and one of 8 kinds with all sizes to 8, alignments and "
      "masks around four bounds of segments; all histories of 5 (6) of 10 steps with the profiler "
      "switched on and off; all sets of used words among 17 (20) in a row at 4 places",
      {"accesses of more than 8 bytes are not profiled (documented) and accesses do not wrap around "
       "the end of the address space"});
}
