// C23: routing of memory accesses to targets.
#include <memory>
#include <optional>
#include <set>

#include "mem.h"
#include "mpact/sim/util/memory/memory_router.h"
#include "mpact/sim/util/memory/single_initiator_router.h"

using namespace mem;
using Op = AtomicMemoryOpInterface::Operation;

namespace {

struct Call {
  int target = -1;
  char kind = 0;  // l s v w L S a
  uint64_t a = 0;
  const void *adb = nullptr, *mask = nullptr, *db = nullptr, *tags = nullptr, *inst = nullptr,
             *ctx = nullptr;
  int el = 0, op = 0;
  bool operator==(const Call& o) const {
    return target == o.target && kind == o.kind && a == o.a && adb == o.adb && mask == o.mask &&
           db == o.db && tags == o.tags && inst == o.inst && ctx == o.ctx && el == o.el && op == o.op;
  }
};
std::vector<Call>* calls;

template <typename Base>
struct Rec : Base {
  int id;
  explicit Rec(int id) : id(id) {}
  void Load(uint64_t a, DataBuffer* db, Instruction* i, ReferenceCount* x) override {
    calls->push_back({id, 'l', a, nullptr, nullptr, db, nullptr, i, x});
  }
  void Load(DataBuffer* a, DataBuffer* m, int el, DataBuffer* db, Instruction* i,
            ReferenceCount* x) override {
    calls->push_back({id, 'v', 0, a, m, db, nullptr, i, x, el});
  }
  void Store(uint64_t a, DataBuffer* db) override {
    calls->push_back({id, 's', a, nullptr, nullptr, db});
  }
  void Store(DataBuffer* a, DataBuffer* m, int el, DataBuffer* db) override {
    calls->push_back({id, 'w', 0, a, m, db, nullptr, nullptr, nullptr, el});
  }
};
struct Plain : Rec<MemoryInterface> {
  using Rec::Rec;
};
struct Tagged : Rec<TaggedMemoryInterface> {
  using Rec::Load;
  using Rec::Rec;
  using Rec::Store;
  void Load(uint64_t a, DataBuffer* db, DataBuffer* t, Instruction* i, ReferenceCount* x) override {
    calls->push_back({id, 'L', a, nullptr, nullptr, db, t, i, x});
  }
  void Store(uint64_t a, DataBuffer* db, DataBuffer* t) override {
    calls->push_back({id, 'S', a, nullptr, nullptr, db, t});
  }
};
struct Atomic : AtomicMemoryOpInterface {
  int id;
  explicit Atomic(int id) : id(id) {}
  absl::Status PerformMemoryOp(uint64_t a, Operation op, DataBuffer* db, Instruction* i,
                               ReferenceCount* x) override {
    calls->push_back({id, 'a', a, nullptr, nullptr, db, nullptr, i, x, 0, (int)op});
    return id % 2 ? absl::DataLossError("x") : absl::OkStatus();
  }
};

// Objects 0, 1 are plain, 2, 3 tagged, 4, 5 atomic.
struct Objects {
  Plain p[2] = {Plain(0), Plain(1)};
  Tagged t[2] = {Tagged(2), Tagged(3)};
  Atomic a[2] = {Atomic(4), Atomic(5)};
  std::vector<Call> log;
  Objects() { calls = &log; }
};

struct Range {
  uint64_t lo, hi;
  int obj;
};
struct Model {
  std::vector<Range> map[3];  // plain, tagged, atomic
  int dflt[3] = {-1, -1, -1};
  // What the access of n bytes at a meets among the ranges: object, -1: nothing, -2: a part of one.
  int Find(int k, uint64_t a, uint64_t n) const {
    uint64_t e = a + n - 1;
    for (auto& r : map[k])
      if (r.lo <= a && e <= r.hi) return r.obj;
    for (auto& r : map[k])
      if (r.lo <= e && a <= r.hi) return -2;
    return -1;
  }
  // Target of an access; -1: none, -3: not judged.
  int Strict(int k, uint64_t a, uint64_t n) const {
    int o = Find(k, a, n);
    return o >= 0 ? o : o == -2 ? -1 : dflt[k];
  }
  int PlainTarget(uint64_t a, uint64_t n) const {
    int m = Find(0, a, n), t = Find(1, a, n);
    if (m >= 0) return m;
    if (t >= 0) return m == -2 ? -3 : t;
    if (m == -2 || t == -2) return -1;
    return dflt[0] >= 0 ? dflt[0] : dflt[1];
  }
  int VecTarget(const std::vector<uint64_t>& a, unsigned mask, int n, int el) const {
    int r = -3;
    bool none = false;
    for (int i = 0; i < n; i++) {
      if (!(mask >> i & 1)) continue;
      int t = PlainTarget(ElAddr(a, i, el, 1), el);
      if (t == -3) return -3;
      if (t == -1 || (r != -3 && t != r)) none = true;
      r = t;
    }
    return none ? -1 : r;
  }
  bool Add(int k, int obj, uint64_t lo, uint64_t hi) {
    if (lo > hi) return false;
    for (auto& r : map[k])
      if (r.lo == lo && r.hi == hi && r.obj == obj) return true;
    for (auto& r : map[k])
      if (r.lo <= hi && lo <= r.hi) return false;
    map[k].push_back({lo, hi, obj});
    return true;
  }
};

struct Probe {
  Ctx& c;
  Objects& o;
  Dbs d;
  State st;
  Log l;
  Inst* inst = new Inst(&l, &st, 1);
  Context* ctx = new Context(&l, 1);
  DataBuffer *db[17], *tags[3], *ad[5], *md[5], *vd[5];
  explicit Probe(Ctx& c, Objects& o) : c(c), o(o) {
    for (int n : {1, 2, 3, 4, 8, 16}) db[n] = d.New(n);
    for (int n : {1, 2}) tags[n] = d.New(n);
    for (int n = 1; n < 5; n++) ad[n] = d.New(8 * n), md[n] = d.New(n), vd[n] = d.New(4 * n);
  }
  ~Probe() {
    inst->DecRef();
    ctx->DecRef();
  }
  void Expect(int target, Call e, const char* what, uint64_t a, int n) {
    bool ok = target == -3 || (target == -1 ? o.log.empty() : o.log.size() == 1);
    if (ok && target >= 0) {
      e.target = target;
      ok = o.log[0] == e;
    }
    if (!ok)
      c.fail("%s of %d bytes at 0x%llx reached %d targets (first: %d), should be target %d with the "
             "same arguments",
             what, n, (unsigned long long)a, (int)o.log.size(), o.log.empty() ? -1 : o.log[0].target,
             target);
    c.bulk(1);
    o.log.clear();
  }
  // All scalar accesses in [lo, hi].
  void Scalars(const Model& m, MemoryInterface* mi, TaggedMemoryInterface* ti,
               AtomicMemoryOpInterface* ai, uint64_t lo, uint64_t hi, bool light = false) {
    for (uint64_t a = lo;; a++) {
      for (int n : {1, 2, 3, 4, 8, 16}) {
        if (light && n != 2) continue;
        if ((uint64_t)n - 1 > hi - a) continue;
        int t = m.PlainTarget(a, n);
        mi->Load(a, db[n], inst, ctx);
        Expect(t, {0, 'l', a, nullptr, nullptr, db[n], nullptr, inst, ctx}, "load", a, n);
        mi->Store(a, db[n]);
        Expect(t, {0, 's', a, nullptr, nullptr, db[n]}, "store", a, n);
        t = m.Strict(1, a, n);
        ti->Load(a, db[n], tags[1], inst, ctx);
        Expect(t, {0, 'L', a, nullptr, nullptr, db[n], tags[1], inst, ctx}, "tagged load", a, n);
        ti->Store(a, db[n], tags[1]);
        Expect(t, {0, 'S', a, nullptr, nullptr, db[n], tags[1]}, "tagged store", a, n);
        if (n >= 8) {
          auto* tg = tags[n / 8];
          ti->Load(a, nullptr, tg, inst, ctx);
          Expect(t, {0, 'L', a, nullptr, nullptr, nullptr, tg, inst, ctx}, "load of tags", a, n);
          ti->Store(a, nullptr, tg);
          Expect(t, {0, 'S', a, nullptr, nullptr, nullptr, tg}, "store of tags", a, n);
        }
        t = m.Strict(2, a, n);
        auto s = ai->PerformMemoryOp(a, Op::kAtomicXor, db[n], inst, ctx);
        Call e{0, 'a', a, nullptr, nullptr, db[n], nullptr, inst, ctx, 0, (int)Op::kAtomicXor};
        Expect(t, e, "atomic operation", a, n);
        c.check(t == -1 ? absl::IsNotFound(s) : t % 2 ? absl::IsDataLoss(s) : s.ok(),
                "atomic operation at 0x%llx: status %s", (unsigned long long)a,
                std::string(s.message()).c_str());
      }
      if (a == hi) break;
    }
  }
  void Vector(const Model& m, MemoryInterface* mi, const std::vector<uint64_t>& a, unsigned mask, int n,
              int el) {
    auto *x = ad[a.size()], *k = md[n], *v = vd[n];
    memcpy(x->raw_ptr(), a.data(), 8 * a.size());
    for (int i = 0; i < n; i++) k->Set<bool>(i, mask >> i & 1);
    int t = m.VecTarget(a, mask, n, el);
    mi->Load(x, k, el, v, inst, ctx);
    Expect(t, {0, 'v', 0, x, k, v, nullptr, inst, ctx, el}, "vector load", a[0], el);
    mi->Store(x, k, el, v);
    Expect(t, {0, 'w', 0, x, k, v, nullptr, nullptr, nullptr, el}, "vector store", a[0], el);
  }
  void Vectors(const Model& m, MemoryInterface* mi, uint64_t lo, uint64_t hi, bool deep) {
    for (int el : {1, 4}) {
      // Unit stride, all masks.
      for (int n = 1; n <= 4; n++)
        for (uint64_t a = lo; a <= hi && n * el - 1 <= (int64_t)(hi - a); a++) {
          for (unsigned mask = 1; mask < 1u << n; mask++) Vector(m, mi, {a}, mask, n, el);
          if (a == hi) break;
        }
      // Two, and if deep three, independent addresses.
      std::vector<uint64_t> p;
      for (uint64_t a = lo; el - 1 <= (int64_t)(hi - a); a += deep ? 1 : 3) {
        p.push_back(a);
        if (hi - a < 3) break;
      }
      for (auto a : p)
        for (auto b : p) {
          for (unsigned mask : {1u, 2u, 3u}) Vector(m, mi, {a, b}, mask, 2, el);
          if (deep || (a - lo) % 4 == 0)
            for (size_t j = 0; j < p.size(); j += 2)
              for (unsigned mask : {5u, 6u, 7u}) Vector(m, mi, {a, b, p[j]}, mask, 3, el);
        }
    }
  }
};

// ---- every configuration of targets in a range of five blocks of four bytes -------------
void Config(Ctx& c, int adds, bool all_defaults, bool vectors, int blocks) {
  Objects o;
  Model m;
  SingleInitiatorRouter r("r");
  c.check(r.name() == "r", "name is %s", std::string(r.name()).c_str());
  // The blocks are surrounded by four bytes on each side, except at the ends of the address space.
  const int where = c.choose(3, "where");
  const uint64_t base = where == 0 ? 0 : where == 1 ? 0x7fff'fff0 : 0 - (uint64_t)(4 * blocks);
  const uint64_t plo = where == 0 ? base : base - 4,
                 hi = base + 4 * blocks - 1 + (where == 2 ? 0 : 4);
  unsigned dm = all_defaults ? c.choose(8, "defaults") : c.choose(2, "defaults") * 7;
  for (int k = 0; k < 3; k++) {
    if (!(dm >> k & 1)) continue;
    m.dflt[k] = 2 * k + 1;
    absl::Status s = k == 0   ? r.AddDefaultTarget<MemoryInterface>(&o.p[1])
                     : k == 1 ? r.AddDefaultTarget<TaggedMemoryInterface>(&o.t[1])
                              : r.AddDefaultTarget<AtomicMemoryOpInterface>(&o.a[1]);
    c.check(s.ok(), "default target refused");
    s = k == 0   ? r.AddDefaultTarget<MemoryInterface>(&o.p[0])
        : k == 1 ? r.AddDefaultTarget<TaggedMemoryInterface>(&o.t[0])
                 : r.AddDefaultTarget<AtomicMemoryOpInterface>(&o.a[0]);
    c.check(!s.ok(), "second default target accepted");
  }
  for (int i = 0; i < adds; i++) {
    int k = c.choose(3, "kind");
    const int ranges = blocks * (blocks + 1) / 2;
    // The last one stands for a reversed range.
    int q = c.choose(ranges + (i == 0), "range"), x = 0, y = 0;
    for (int j = 0; j < q && q < ranges; j++)
      if (++y == blocks) y = ++x;
    int obj = 2 * k + (i == 1 ? c.choose(2, "object") : 0);
    uint64_t lo = base + 4 * x, top = base + 4 * y + 3;
    if (q == ranges) lo = base + 9, top = base + 8;
    c.op("AddTarget(object %d, 0x%llx, 0x%llx)", obj, (unsigned long long)lo, (unsigned long long)top);
    bool want = m.Add(k, obj, lo, top);
    absl::Status s = k == 0   ? r.AddTarget<MemoryInterface>(&o.p[obj], lo, top)
                     : k == 1 ? r.AddTarget<TaggedMemoryInterface>(&o.t[obj - 2], lo, top)
                              : r.AddTarget<AtomicMemoryOpInterface>(&o.a[obj - 4], lo, top);
    c.check(s.ok() == want, "AddTarget returned %d", s.ok());
  }
  if (!c.fresh()) return;
  Probe p(c, o);
  c.op("all accesses");
  if (vectors)
    p.Vectors(m, &r, plo, hi, false);
  else
    p.Scalars(m, &r, &r, &r, plo, hi);
}

void Scalar1(Ctx& c) { Config(c, 1 + c.choose(2, "targets"), true, false, c.thorough() ? 5 : 4); }
void Scalar3(Ctx& c) { Config(c, 3, c.thorough(), false, c.thorough() ? 4 : 3); }
void Vector(Ctx& c) {
  Config(c, 1 + c.choose(2, "targets"), c.thorough(), true, c.thorough() ? 4 : 3);
}

// ---- the named router ------------------------------------------------------------------------
void NamedN(Ctx& c, int depth, bool match) {
  Objects o;
  auto r = std::make_unique<MemoryRouter>();
  struct Init {
    Model m;
    SingleInitiatorRouter* p;
  };
  std::map<std::string, Init> inits;
  std::map<std::string, int> targets;
  const char* in[] = {"a", "b"};
  const char* tn[] = {"x", "y"};
  for (int i = 0; i < depth; i++) {
    int k = c.choose(4, "op");
    if (k == 0) {
      std::string n = in[c.choose(2, "initiator")];
      int t = c.choose(3, "interface");
      c.op("Add initiator %s, interface %d", n.c_str(), t);
      SingleInitiatorRouter* p =
          t == 0   ? static_cast<SingleInitiatorRouter*>(r->AddMemoryInitiator(n))
          : t == 1 ? static_cast<SingleInitiatorRouter*>(r->AddTaggedInitiator(n))
                   : static_cast<SingleInitiatorRouter*>(r->AddAtomicInitiator(n));
      c.check(p != nullptr, "no initiator");
      c.check(p->name() == n, "initiator has name %s", std::string(p->name()).c_str());
      for (auto& [on, x] : inits) c.check((x.p == p) == (on == n), "initiators %s and %s", on.c_str(), n.c_str());
      inits[n].p = p;
    } else if (k == 1) {
      std::string n = tn[c.choose(2, "target")];
      int t = c.choose(3, "interface");
      int obj = 2 * t + (n == "y");
      c.op("AddTarget(%s, object %d)", n.c_str(), obj);
      auto s = t == 0   ? r->AddTarget(n, &o.p[obj])
               : t == 1 ? r->AddTarget(n, &o.t[obj - 2])
                        : r->AddTarget(n, &o.a[obj - 4]);
      c.check(s.ok() == !targets.count(n), "AddTarget returned %d", s.ok());
      targets.emplace(n, obj);
    } else {
      std::string n = in[c.choose(2, "initiator")], t = tn[c.choose(2, "target")];
      // Two ranges that touch, or overlap.
      uint64_t lo = 8, hi = k == 2 ? 15 : 19;
      if (k == 3 && c.flip("range")) lo = 16;
      c.op("AddMapping(%s, %s, %d, %d)", n.c_str(), t.c_str(), (int)lo, (int)hi);
      bool want = false;
      if (inits.count(n) && targets.count(t)) {
        int obj = targets[t];
        want = inits[n].m.Add(obj / 2, obj, lo, hi);
      }
      auto s = r->AddMapping(n, t, lo, hi);
      c.check(s.ok() == want, "AddMapping returned %d", s.ok());
    }
    if (match) {
      std::string k = "";
      for (auto& [n, x] : inits) {
        k += n + ":";
        for (int j = 0; j < 3; j++)
          for (auto& r : x.m.map[j]) k += mc::S("%d-%d-%d,", (int)r.lo, (int)r.hi, r.obj);
      }
      for (auto& [n, x] : targets) k += n + mc::S("%d", x);
      if (c.seen(k, depth - i - 1)) break;
    }
  }
  if (!c.fresh()) return;
  Probe p(c, o);
  c.op("all accesses through all initiators");
  for (auto& [n, x] : inits)
    p.Scalars(x.m, r->AddMemoryInitiator(n), r->AddTaggedInitiator(n), r->AddAtomicInitiator(n), 6, 21, true);
}
void Named(Ctx& c) { NamedN(c, c.thorough() ? 5 : 4, false); }
void NamedDeep(Ctx& c) { NamedN(c, c.thorough() ? 9 : 7, true); }

}  // namespace

int main(int argc, char** argv) {
  return mc::Main(
      argc, argv, "C23", {{"one-two", Scalar1, 2}, {"three", Scalar3, 3}, {"vector", Vector, 3}, {"named", Named, 2}, {"named-deep", NamedDeep, 1}},
      "all sequences of up to 2 targets with all sets of default targets, and of 3 targets with none "
      "or all, of every kind on every union of adjacent blocks of 4 bytes in 12-20, at the start, middle "
      "and end of the address space; each with all plain, tagged, tag only and atomic accesses of 6 "
      "sizes at every address, unit stride vectors of 1-4 elements with all masks, gathered vectors of "
      "2-3; all histories of 4 (5) steps, and of 7 (9) with state matching, on the named router with 2 "
      "initiators and 2 targets",
      {"accesses do not wrap around the end of the address space; accesses of a vector with all "
       "elements masked off, and plain accesses within a tagged target but only partly within a "
       "plain target, are not judged"});
}
