// C24: memory watchers.
#include <algorithm>
#include <memory>

#include "mem.h"
#include "mpact/sim/util/memory/memory_watcher.h"
#include "mpact/sim/util/memory/tagged_memory_watcher.h"

using namespace mem;

namespace {

std::vector<std::string>* ev;

// Records what reaches the memory.
struct Rec : TaggedMemoryInterface {
  void Load(uint64_t a, DataBuffer* db, Instruction* i, ReferenceCount* x) override {
    ev->push_back(mc::S("load %llx %p %p %p", (unsigned long long)a, db, i, x));
  }
  void Load(DataBuffer* a, DataBuffer* m, int el, DataBuffer* db, Instruction* i,
            ReferenceCount* x) override {
    ev->push_back(mc::S("vload %p %p %d %p %p %p", a, m, el, db, i, x));
  }
  void Load(uint64_t a, DataBuffer* db, DataBuffer* t, Instruction* i, ReferenceCount* x) override {
    ev->push_back(mc::S("tload %llx %p %p %p %p", (unsigned long long)a, db, t, i, x));
  }
  void Store(uint64_t a, DataBuffer* db) override {
    ev->push_back(mc::S("store %llx %p", (unsigned long long)a, db));
  }
  void Store(DataBuffer* a, DataBuffer* m, int el, DataBuffer* db) override {
    ev->push_back(mc::S("vstore %p %p %d %p", a, m, el, db));
  }
  void Store(uint64_t a, DataBuffer* db, DataBuffer* t) override {
    ev->push_back(mc::S("tstore %llx %p %p", (unsigned long long)a, db, t));
  }
};

struct Watch {
  uint64_t lo, hi;
  int id;
};

// Both watchers behind one interface.
struct Sys {
  Rec rec;
  std::vector<std::string> log;
  MemoryWatcher w{&rec};
  TaggedMemoryWatcher t{&rec};
  bool tagged;
  std::vector<Watch> watches[2];  // load, store; sorted by address
  explicit Sys(bool tagged) : tagged(tagged) { ev = &log; }
  MemoryInterface* mem() { return tagged ? (MemoryInterface*)&t : &w; }
  bool Set(bool st, uint64_t lo, uint64_t hi, int id) {
    auto cb = [this, id](uint64_t a, int n) {
      log.push_back(mc::S("watch %d %llx %d", id, (unsigned long long)a, n));
    };
    if (tagged) {
      TaggedMemoryWatcher::AddressRange r(lo, hi);
      if (lo == hi) r = TaggedMemoryWatcher::AddressRange(lo);
      return (st ? t.SetStoreWatchCallback(r, cb) : t.SetLoadWatchCallback(r, cb)).ok();
    }
    MemoryWatcher::AddressRange r(lo, hi);
    if (lo == hi) r = MemoryWatcher::AddressRange(lo);
    return (st ? w.SetStoreWatchCallback(r, cb) : w.SetLoadWatchCallback(r, cb)).ok();
  }
  bool Clear(bool st, uint64_t a) {
    if (tagged) return (st ? t.ClearStoreWatchCallback(a) : t.ClearLoadWatchCallback(a)).ok();
    return (st ? w.ClearStoreWatchCallback(a) : w.ClearLoadWatchCallback(a)).ok();
  }
  bool ModelSet(bool st, uint64_t lo, uint64_t hi, int id) {
    if (lo > hi) return false;
    auto& v = watches[st];
    for (auto& x : v)
      if (x.lo <= hi && lo <= x.hi) return false;
    v.push_back({lo, hi, id});
    for (size_t i = v.size() - 1; i > 0 && v[i].lo < v[i - 1].lo; i--) std::swap(v[i], v[i - 1]);
    return true;
  }
  bool ModelClear(bool st, uint64_t a) {
    auto& v = watches[st];
    for (size_t i = 0; i < v.size(); i++)
      if (v[i].lo <= a && a <= v[i].hi) return v.erase(v.begin() + i), true;
    return false;
  }
  void Hits(bool st, uint64_t a, int n, std::vector<std::string>* out) {
    for (auto& x : watches[st])
      if (x.lo <= a + n - 1 && a <= x.hi)
        out->push_back(mc::S("watch %d %llx %d", x.id, (unsigned long long)a, n));
  }
};

struct Probe {
  Ctx& c;
  Sys& s;
  Dbs d;
  State st;
  Log l;
  Inst* inst = new Inst(&l, &st, 1);
  Context* ctx = new Context(&l, 1);
  DataBuffer *db[17], *ad[4], *md[4], *vd[4], *tg;
  Probe(Ctx& c, Sys& s) : c(c), s(s) {
    for (int n : {1, 2, 4, 8, 16}) db[n] = d.New(n);
    for (int n = 1; n < 4; n++) ad[n] = d.New(8 * n), md[n] = d.New(n), vd[n] = d.New(4 * n);
    tg = d.New(2);
  }
  ~Probe() {
    inst->DecRef();
    ctx->DecRef();
  }
  void Expect(std::vector<std::string> want, const char* what, uint64_t a) {
    // The order among several ranges hit by one access is the caller's to ignore.
    auto got = s.log;
    s.log.clear();
    c.bulk(1);
    if (got == want) return;
    auto sorted = [](std::vector<std::string> v) {
      // Keep the memory access as a fence: sort the parts before and after it.
      auto w = [](const std::string& x) { return x.rfind("watch", 0) == 0; };
      size_t k = 0;
      while (k < v.size() && w(v[k])) k++;
      std::sort(v.begin(), v.begin() + k);
      if (k < v.size()) std::sort(v.begin() + k + 1, v.end());
      return v;
    };
    if (sorted(got) == sorted(want)) return;
    std::string g, x;
    for (auto& y : got) g += y + "; ";
    for (auto& y : want) x += y + "; ";
    c.fail("%s at 0x%llx: %s should be: %s", what, (unsigned long long)a, g.c_str(), x.c_str());
  }
  void Scalars(uint64_t lo, uint64_t hi) {
    for (uint64_t a = lo;; a++) {
      for (int n : {1, 2, 4, 8, 16}) {
        if ((uint64_t)n - 1 > hi - a) continue;
        std::vector<std::string> w;
        auto A = (unsigned long long)a;
        s.Hits(false, a, n, &w);
        auto w0 = w;
        w.push_back(mc::S("load %llx %p %p %p", A, db[n], inst, ctx));
        s.mem()->Load(a, db[n], inst, ctx);
        Expect(w, "load", a);
        std::vector<std::string> h;
        s.Hits(true, a, n, &h);
        w = {mc::S("store %llx %p", A, db[n])};
        w.insert(w.end(), h.begin(), h.end());
        s.mem()->Store(a, db[n]);
        Expect(w, "store", a);
        if (!s.tagged) continue;
        w = w0;
        w.push_back(mc::S("tload %llx %p %p %p %p", A, db[n], tg, inst, ctx));
        s.t.Load(a, db[n], tg, inst, ctx);
        Expect(w, "tagged load", a);
        w = {mc::S("tstore %llx %p %p", A, db[n], tg)};
        w.insert(w.end(), h.begin(), h.end());
        s.t.Store(a, db[n], tg);
        Expect(w, "tagged store", a);
        if (n != 1) continue;
        s.t.Load(a, nullptr, tg, inst, ctx);
        Expect({mc::S("tload %llx %p %p %p %p", A, (void*)nullptr, tg, inst, ctx)}, "load of tags", a);
        s.t.Store(a, nullptr, tg);
        Expect({mc::S("tstore %llx %p %p", A, (void*)nullptr, tg)}, "store of tags", a);
      }
      if (a == hi) break;
    }
  }
  void Vector(const std::vector<uint64_t>& a, unsigned mask, int n, int el) {
    auto *x = ad[a.size()], *k = md[n], *v = vd[n];
    memcpy(x->raw_ptr(), a.data(), 8 * a.size());
    for (int i = 0; i < n; i++) k->Set<bool>(i, mask >> i & 1);
    std::vector<std::string> w[2];
    for (int st = 0; st < 2; st++)
      for (int i = 0; i < n; i++)
        if (mask >> i & 1) s.Hits(st, ElAddr(a, i, el, 1), el, &w[st]);
    w[0].push_back(mc::S("vload %p %p %d %p %p %p", x, k, el, v, inst, ctx));
    s.mem()->Load(x, k, el, v, inst, ctx);
    Expect(w[0], "vector load", a[0]);
    w[1].insert(w[1].begin(), mc::S("vstore %p %p %d %p", x, k, el, v));
    s.mem()->Store(x, k, el, v);
    Expect(w[1], "vector store", a[0]);
  }
  void Vectors(uint64_t lo, uint64_t hi) {
    for (int el : {1, 4}) {
      for (int n = 1; n <= 3; n++)
        for (uint64_t a = lo; (uint64_t)n * el - 1 <= hi - a; a++) {
          for (unsigned mask = 0; mask < 1u << n; mask++) Vector({a}, mask, n, el);
          if (a == hi) break;
        }
      std::vector<uint64_t> p;
      for (uint64_t a = lo; (uint64_t)el - 1 <= hi - a; a += 3) {
        p.push_back(a);
        if (hi - a < 3) break;
      }
      for (auto a : p)
        for (auto b : p)
          for (unsigned mask = 0; mask < 4; mask++) Vector({a, b}, mask, 2, el);
      for (auto a : p)
        for (auto b : p)
          for (unsigned mask : {2u, 5u, 7u}) Vector({a, b, p[p.size() / 2]}, mask, 3, el);
    }
  }
};

const uint64_t kBases[] = {0, 0x8000'0000'0000'0000 - 8, 0 - (uint64_t)16};

// Histories of setting and clearing watches, then all accesses.
void History(Ctx& c, int depth, bool vectors) {
  Sys s(c.flip("tagged"));
  const uint64_t base = kBases[c.choose(3, "where")];
  // Bounds of ranges: every pair.
  const int pt[] = {0, 3, 4, 7, 8, 15};
  for (int i = 0; i < depth; i++) {
    int k = c.choose(24, "op");
    bool st = c.flip("store");
    if (k < 22) {
      int q = k, x = 0, y = 0;
      while (q-- > 0 && x < 6)
        if (++y == 6) y = ++x;
      uint64_t lo, hi;
      if (x >= 6) {
        lo = base + 8, hi = base + 7;  // reversed
      } else {
        lo = base + pt[x], hi = base + pt[y];
      }
      c.op("Set%sWatch(0x%llx, 0x%llx)", st ? "Store" : "Load", (unsigned long long)lo,
           (unsigned long long)hi);
      bool want = s.ModelSet(st, lo, hi, i);
      bool got = s.Set(st, lo, hi, i);
      c.check(got == want, "returned %d", got);
    } else {
      uint64_t a = base + (k == 22 ? 4 : 7);
      c.op("Clear%sWatch(0x%llx)", st ? "Store" : "Load", (unsigned long long)a);
      bool want = s.ModelClear(st, a);
      bool got = s.Clear(st, a);
      c.check(got == want, "returned %d", got);
    }
  }
  if (!c.fresh()) return;
  c.op("all accesses");
  Probe p(c, s);
  uint64_t lo = base == 0 ? 0 : base - 2, hi = base + 16 == 0 ? base + 15 : base + 17;
  if (vectors)
    p.Vectors(lo, hi);
  else
    p.Scalars(lo, hi);
}
void Scalar(Ctx& c) { History(c, c.thorough() ? 3 : 2, false); }
void Vec(Ctx& c) { History(c, c.thorough() ? 3 : 2, true); }

// Every range is cleared by exactly the addresses in it, also among other ranges.
void Clear(Ctx& c) {
  Sys s(c.flip("tagged"));
  bool st = c.flip("store");
  const uint64_t base = kBases[c.choose(3, "where")];
  // The set of ranges: each byte of 6 begins a range, continues one, or is free.
  int n = c.thorough() ? 6 : 5, id = 0, open = -1;
  for (int i = 0; i <= n; i++) {
    int k = i == n ? 2 : c.choose(open >= 0 ? 3 : 2, "byte");
    // With an open range: 0 new one, 1 continue, 2 free; else: 0 new one, 1 free.
    bool begin = k == 0, cont = open >= 0 && k == 1;
    if (cont) continue;
    if (open >= 0) {
      uint64_t lo = base + open, hi = base + i - 1;
      c.op("Set(0x%llx, 0x%llx)", (unsigned long long)lo, (unsigned long long)hi);
      c.check(s.Set(st, lo, hi, id), "refused");
      s.ModelSet(st, lo, hi, id++);
      open = -1;
    }
    if (begin) open = i;
  }
  for (int i = 0; i < (c.thorough() ? 3 : 2); i++) {
    uint64_t a = base + c.choose(n, "address");
    c.op("Clear(0x%llx)", (unsigned long long)a);
    bool want = s.ModelClear(st, a), got = s.Clear(st, a);
    c.check(got == want, "returned %d", got);
    c.check(!s.Clear(!st, a), "cleared a watch of the other kind");
  }
  if (!c.fresh()) return;
  Probe p(c, s);
  p.Scalars(base, base + n - 1);
}

}  // namespace

int main(int argc, char** argv) {
  return mc::Main(
      argc, argv, "C24", {{"scalar", Scalar, 3}, {"vector", Vec, 3}, {"clear", Clear, 2}},
      "both watchers: all histories of 2 (3) settings and clearings of load and store watches over "
      "all ranges of 6 bounds, followed by all plain, tagged and tag only accesses of 5 sizes at "
      "every address, and by unit stride and gathered vectors with all masks; all sets of disjoint "
      "ranges in 5 (6) bytes with all sequences of 2 (3) clearings; at both ends and the middle of the "
      "address space",
      {"accesses do not wrap around the end of the address space; callbacks do not change the set "
       "of watches; the order of callbacks within one access is not judged"});
}
