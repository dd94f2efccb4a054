// C12: resource bit sets, simple resource pools, sets and operands.
#include <memory>
#include <set>
#include <string>
#include <vector>

#include "absl/status/status.h"
#include "mc.h"
#include "mpact/sim/generic/resource_bitset.h"
#include "mpact/sim/generic/simple_resource.h"
#include "mpact/sim/generic/simple_resource_operand.h"

using mc::Ctx;
using namespace mpact::sim::generic;

namespace {

using Set = std::set<int>;
std::string Text(const Set& s) {
  std::string r = "{";
  for (int x : s) r += mc::S("%d,", x);
  return r + "}";
}

void CheckSet(Ctx& c, const ResourceBitSet& b, const Set& m, const char* what) {
  c.check(b.GetOnesCount() == (int)m.size(), "%s: %d members, %s expected", what,
          b.GetOnesCount(), Text(m).c_str());
  int p = -7;
  bool f = b.FindFirstSetBit(&p);
  c.check(f == !m.empty() && (!f || p == *m.begin()),
          "%s: first member %d (%d), %s expected", what, p, f, Text(m).c_str());
  c.check(b.FindFirstSetBit(nullptr) == !m.empty(), "%s: FindFirstSetBit(null)",
          what);
  // Enumerate from every starting point.
  for (int s : {0, 1, 2, 62, 63, 64, 65, 66, 126, 127, 128, 129, 191, 192, 200,
                201, 256, 300}) {
    int q = s;
    bool g = b.FindNextSetBit(&q);
    auto it = m.lower_bound(s);
    c.check(g == (it != m.end()) && (!g || q == *it) && (g || q == s || true),
            "%s: next member from %d is %d (%d), %s expected", what, s, q, g,
            Text(m).c_str());
  }
  c.check(!b.FindNextSetBit(nullptr), "%s: FindNextSetBit(null)", what);
  for (int x : {0, 1, 63, 64, 65, 127, 128, 200}) {
    ResourceBitSet one(x + 1);
    one.Set(x);
    c.check(one.IsIntersectionNonEmpty(b) == (m.count(x) > 0) &&
                b.IsIntersectionNonEmpty(one) == (m.count(x) > 0),
            "%s: membership of %d, %s expected", what, x, Text(m).c_str());
  }
}

void Bits(Ctx& c) {
  static const std::vector<int> pos = {0, 63, 64, 127, 128, 200};
  ResourceBitSet* b[2];
  Set m[2];
  int init = c.choose(4, "initial");
  for (int i = 0; i < 2; i++) {
    static const int kInit[4][2] = {{-1, -1}, {64, 65}, {0, 128}, {1, 200}};
    int w = kInit[init][i];
    b[i] = w < 0 ? new ResourceBitSet() : new ResourceBitSet(w);
  }
  int depth = c.thorough() ? 5 : 4;
  for (int d = 0; d < depth; d++) {
    int k = c.choose(9, "op");
    int i = k < 8 ? c.choose(2, "set") : 0;
    switch (k) {
      case 0: {
        int p = c.pick(pos, "position");
        c.op("b%d.Set(%d)", i, p);
        b[i]->Set(p);
        m[i].insert(p);
        break;
      }
      case 1:
        c.op("b%d.Or(b%d)", i, 1 - i);
        b[i]->Or(*b[1 - i]);
        m[i].insert(m[1 - i].begin(), m[1 - i].end());
        break;
      case 2:
        c.op("b%d.AndNot(b%d)", i, 1 - i);
        b[i]->AndNot(*b[1 - i]);
        for (int x : m[1 - i]) m[i].erase(x);
        break;
      case 3:
        c.op("b%d = b%d", i, 1 - i);
        *b[i] = *b[1 - i];
        m[i] = m[1 - i];
        break;
      case 4: {
        c.op("b%d copy constructed from b%d", i, 1 - i);
        delete b[i];
        b[i] = new ResourceBitSet(*b[1 - i]);
        m[i] = m[1 - i];
        break;
      }
      case 5: {
        c.op("b%d moved from b%d", i, 1 - i);
        delete b[i];
        b[i] = new ResourceBitSet(std::move(*b[1 - i]));
        m[i] = m[1 - i];
        m[1 - i].clear();
        break;
      }
      case 6: {
        int n = c.pick({1, 64, 65, 128, 256}, "size");
        c.op("b%d.Resize(%d)", i, n);
        b[i]->Resize(n);
        while (!m[i].empty() && *m[i].rbegin() >= n)
          m[i].erase(*m[i].rbegin());
        break;
      }
      case 7: {
        bool o = c.flip("or");
        c.op(o ? "b%d.Or(itself)" : "b%d.AndNot(itself)", i);
        if (o) b[i]->Or(*b[i]);
        else b[i]->AndNot(*b[i]), m[i].clear();
        break;
      }
      case 8: {
        c.op("self assignment");
        ResourceBitSet& r = *b[1];
        *b[1] = r;
        break;
      }
    }
    if (!c.fresh()) continue;
    for (int j = 0; j < 2; j++) CheckSet(c, *b[j], m[j], j ? "b1" : "b0");
    bool inter = false;
    for (int x : m[0]) inter |= m[1].count(x) > 0;
    c.check(b[0]->IsIntersectionNonEmpty(*b[1]) == inter &&
                b[1]->IsIntersectionNonEmpty(*b[0]) == inter,
            "intersection of %s and %s", Text(m[0]).c_str(), Text(m[1]).c_str());
    c.state(Text(m[0]) + Text(m[1]));
  }
  delete b[0];
  delete b[1];
}

// ---- pools -------------------------------------------------------------------
struct PoolWorld {
  Ctx& c;
  SimpleResourcePool pool, other;
  unsigned width;
  std::vector<std::string> names;  // by index
  std::vector<SimpleResource*> res;
  Set reserved;
  std::vector<SimpleResourceSet*> sets;
  std::vector<Set> mset;
  PoolWorld(Ctx& c, int w)
      : c(c), pool("pool", w), other("other", 3), width(w) {
    (void)other.AddResource("x");
  }
  int Find(const std::string& n) {
    for (size_t i = 0; i < names.size(); i++)
      if (names[i] == n) return i;
    return -1;
  }
  void Added(const std::string& n) {
    names.push_back(n);
    auto* r = pool.GetResource(n);
    c.check(r != nullptr, "resource '%s' was added but is not found", n.c_str());
    res.push_back(r);
  }
  void AddName(const std::string& n, int how, int set) {
    int i = Find(n);
    bool full = names.size() == width;
    if (how == 0) {
      c.op("pool.AddResource('%s')", n.c_str());
      auto s = pool.AddResource(n);
      c.check(s.ok() == (i < 0 && !full), "AddResource('%s') is %s", n.c_str(),
              s.ok() ? "ok" : "an error");
      if (s.ok()) Added(n);
    } else if (how == 1) {
      c.op("pool.GetOrAddResource('%s')", n.c_str());
      auto* r = pool.GetOrAddResource(n);
      c.check((r != nullptr) == (i >= 0 || !full), "GetOrAddResource('%s') gave %s",
              n.c_str(), r ? "a resource" : "nothing");
      if (i >= 0) c.check(r == res[i], "another resource for '%s'", n.c_str());
      if (i < 0 && r) {
        Added(n);
        c.check(res.back() == r, "another resource for '%s'", n.c_str());
      }
    } else {
      c.op("set%d.AddResource('%s')", set, n.c_str());
      auto s = sets[set]->AddResource(n);
      c.check(s.ok() == (i >= 0 || !full), "set AddResource('%s') is %s",
              n.c_str(), s.ok() ? "ok" : "an error");
      if (s.ok()) {
        if (i < 0) Added(n), i = names.size() - 1;
        mset[set].insert(i);
      }
    }
  }
  void Verify() {
    c.check(pool.name() == "pool" && pool.width() == width, "pool attributes");
    for (size_t i = 0; i < names.size(); i++) {
      c.check(pool.GetResource(names[i]) == res[i] &&
                  pool.GetResource((unsigned)i) == res[i],
              "look up of resource %zu", i);
      c.check(res[i]->name() == names[i] && res[i]->index() == (int)i &&
                  res[i]->pool() == &pool,
              "attributes of resource %zu", i);
      Set one{(int)i};
      int p;
      c.check(res[i]->resource_bit().GetOnesCount() == 1 &&
                  res[i]->resource_bit().FindFirstSetBit(&p) && p == (int)i,
              "bit of resource %zu", i);
      c.check(res[i]->IsFree() == !reserved.count(i) &&
                  pool.IsFree(res[i]) == !reserved.count(i),
              "resource %zu is %s", i, reserved.count(i) ? "free" : "reserved");
    }
    c.check(pool.GetResource("nope") == nullptr &&
                pool.GetResource((unsigned)names.size()) == nullptr &&
                pool.GetResource(1000u) == nullptr,
            "an unknown resource was found");
    CheckSet(c, pool.resource_vector(), reserved, "reservations");
    c.check(pool.ReservedAsString() == Names(reserved), "reserved: '%s', '%s' expected",
            pool.ReservedAsString().c_str(), Names(reserved).c_str());
    for (size_t k = 0; k < sets.size(); k++) {
      bool free = true;
      for (int x : mset[k]) free &= !reserved.count(x);
      c.check(sets[k]->IsFree() == free && pool.IsFree(sets[k]) == free,
              "set %zu is %s", k, free ? "reserved" : "free");
      CheckSet(c, sets[k]->resource_vector(), mset[k], "resource set");
      c.check(sets[k]->AsString() == Names(mset[k]), "set text '%s'",
              sets[k]->AsString().c_str());
    }
    c.check(other.GetResource("x")->IsFree(), "another pool was affected");
    std::string st = Text(reserved) + mc::S("%zu", names.size());
    for (auto& s : mset) st += Text(s);
    c.state(st);
  }
  std::string Names(const Set& s) {
    std::string r = "[";
    for (int x : s) r += (r.size() > 1 ? ", " : "") + names[x];
    return r + "]";
  }
};

void Pool(Ctx& c) {
  PoolWorld w(c, c.pick({1, 2, 64}, "width"));
  static const std::vector<std::string> nm = {"a", "b", "c"};
  int depth = c.thorough() ? 6 : 5;
  w.sets.push_back(w.pool.CreateResourceSet());
  w.mset.push_back({});
  for (int d = 0; d < depth; d++) {
    int k = c.choose(8, "op");
    if (k < 3) {
      w.AddName(c.pick(nm, "name"), k, w.sets.size() - 1);
    } else if (k == 3) {
      if (w.sets.size() == 2) return;
      c.op("CreateResourceSet()");
      w.sets.push_back(w.pool.CreateResourceSet());
      w.mset.push_back({});
    } else if (k == 4) {
      auto s = w.sets.back()->AddResource((SimpleResource*)nullptr);
      c.check(s.ok(), "adding no resource is an error");
      s = w.sets.back()->AddResource(w.other.GetResource("x"));
      c.check(!s.ok(), "a resource of another pool was accepted");
      c.op("set.AddResource(null), AddResource(foreign)");
    } else if (k < 7) {
      if (w.res.empty()) return;
      int i = c.choose(w.res.size(), "resource");
      c.op("%s('%s')", k == 5 ? "Acquire" : "Release", w.names[i].c_str());
      if (k == 5) {
        if (d & 1) w.pool.Acquire(w.res[i]); else w.res[i]->Acquire();
        w.reserved.insert(i);
      } else {
        if (d & 1) w.pool.Release(w.res[i]); else w.res[i]->Release();
        w.reserved.erase(i);
      }
    } else {
      int i = c.choose(w.sets.size(), "set");
      bool acq = c.flip("acquire");
      c.op("%s(set %d)", acq ? "Acquire" : "Release", i);
      if (acq) {
        w.sets[i]->Acquire();
        w.reserved.insert(w.mset[i].begin(), w.mset[i].end());
      } else {
        w.sets[i]->Release();
        for (int x : w.mset[i]) w.reserved.erase(x);
      }
    }
    if (c.fresh()) w.Verify();
  }
}

// Pools wider than a word.
void Wide(Ctx& c) {
  int width = c.pick({65, 130}, "width");
  PoolWorld w(c, width);
  for (int i = 0; i < width; i++) w.AddName(mc::S("r%d", i), i & 1, 0);
  std::vector<int> idx = {0, 63, 64, width - 1};
  for (int k = 0; k < 2; k++) {
    w.sets.push_back(w.pool.CreateResourceSet());
    w.mset.push_back({});
    for (int i : idx)
      if (c.flip("member")) {
        c.check(w.sets[k]->AddResource(w.res[i]).ok(), "adding failed");
        w.mset[k].insert(i);
      }
  }
  c.check(!w.pool.AddResource("too_many").ok(), "the pool grew beyond its width");
  for (int d = 0; d < 3; d++) {
    int k = c.choose(8, "op");
    bool acq = k & 1;
    if (k < 4) {
      int i = k >> 1;
      c.op("%s set %d", acq ? "Acquire" : "Release", i);
      if (acq) {
        w.pool.Acquire(w.sets[i]);
        w.reserved.insert(w.mset[i].begin(), w.mset[i].end());
      } else {
        w.pool.Release(w.sets[i]);
        for (int x : w.mset[i]) w.reserved.erase(x);
      }
    } else {
      int i = k < 6 ? 64 : width - 1;
      c.op("%s resource %d", acq ? "Acquire" : "Release", i);
      if (acq) w.res[i]->Acquire(), w.reserved.insert(i);
      else w.res[i]->Release(), w.reserved.erase(i);
    }
    bool free[2];
    for (int s = 0; s < 2; s++) {
      free[s] = true;
      for (int x : w.mset[s]) free[s] &= !w.reserved.count(x);
      c.check(w.sets[s]->IsFree() == free[s], "set %d is %s", s,
              free[s] ? "reserved" : "free");
    }
    for (int i : idx)
      c.check(w.res[i]->IsFree() == !w.reserved.count(i), "resource %d", i);
    c.check(w.pool.ReservedAsString() == w.Names(w.reserved), "reserved '%s'",
            w.pool.ReservedAsString().c_str());
  }
  w.Verify();
}

// Operands: acquire now, release after the operand's latency.
void Operand(Ctx& c) {
  SimpleResourcePool pool("p", 4);
  SimpleResourceDelayLine dl(2);
  struct Op {
    SimpleResourceSet* set;
    Set m;
    int lat;
    std::unique_ptr<SimpleResourceOperand> op;
  } ops[3];
  const char* nm[] = {"a", "b", "c"};
  for (auto* n : nm) (void)pool.AddResource(n);
  const int lat[] = {c.choose(4, "latency"), 2, 5};
  const Set ms[] = {{0, 1}, {1}, {2}};
  for (int i = 0; i < 3; i++) {
    ops[i].set = pool.CreateResourceSet();
    for (int x : ms[i]) (void)ops[i].set->AddResource(nm[x]);
    ops[i].m = ms[i];
    ops[i].lat = lat[i];
    ops[i].op = i == 1 ? std::make_unique<SimpleResourceOperand>(ops[i].set, lat[i])
                       : std::make_unique<SimpleResourceOperand>(ops[i].set,
                                                                 lat[i], &dl);
    if (i == 1) ops[i].op->set_delay_line(&dl);
    c.check(ops[i].op->latency() == lat[i] && ops[i].op->resource_set() == ops[i].set &&
                ops[i].op->AsString() == ops[i].set->AsString(),
            "operand attributes");
  }
  Set reserved;
  struct Ev { int when; int op; };
  std::vector<Ev> ev;
  int now = 0;
  auto release = [&](int i) { for (int x : ops[i].m) reserved.erase(x); };
  int depth = c.thorough() ? 7 : 6;
  for (int d = 0; d < depth; d++) {
    int k = c.choose(7, "op");
    if (k < 3) {
      c.op("op%d.Acquire() latency %d", k, lat[k]);
      ops[k].op->Acquire();
      reserved.insert(ops[k].m.begin(), ops[k].m.end());
      if (lat[k] == 0) release(k);
      else ev.push_back({now + lat[k], k});
    } else if (k == 3) {
      c.op("op0.Release()");
      ops[0].op->Release();
      if (lat[0] == 0) release(0);
      else ev.push_back({now + lat[0], 0});
    } else if (k == 4) {
      c.op("op1.Release(0)");
      ops[1].op->Release(0);
      release(1);
    } else if (k == 5) {
      c.op("op2.Release(1)");
      ops[2].op->Release(1);
      ev.push_back({now + 1, 2});
    } else {
      c.op("Advance()");
      now++;
      dl.Advance();
      for (size_t i = 0; i < ev.size();)
        if (ev[i].when == now) release(ev[i].op), ev.erase(ev.begin() + i);
        else i++;
    }
    for (int i = 0; i < 3; i++) {
      bool free = true;
      for (int x : ops[i].m) free &= !reserved.count(x);
      c.check(ops[i].op->IsFree() == free, "cycle %d: operand %d is %s", now, i,
              free ? "reserved" : "free");
      c.check(pool.GetResource(nm[i])->IsFree() == !reserved.count(i),
              "cycle %d: resource %d is %s", now, i,
              reserved.count(i) ? "free" : "reserved");
    }
    std::string st = Text(reserved);
    for (auto& e : ev) st += mc::S("%d:%d;", e.op, e.when - now);
    c.state(st);
  }
}

}  // namespace

int main(int argc, char** argv) {
  return mc::Main(
      argc, argv, "C12",
      {{"bits", Bits, 3}, {"pool", Pool, 3}, {"wide", Wide, 3}, {"operand", Operand, 3}},
      "all histories of 4 (5) operations on two bit sets with positions around "
      "word boundaries, 5 (6) on pools of width 1, 2 and 64 with 3 names and 2 "
      "sets, all pairs of sets over 4 resources in pools of 65 and 130, 6 (7) "
      "operand and cycle steps");
}
