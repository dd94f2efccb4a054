// C19: components, configuration entries, counters, architectural state containers.
#include <cstring>
#include <functional>
#include <limits>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>

#include "mc.h"
#include "mpact/sim/generic/arch_state.h"
#include "mpact/sim/generic/component.h"
#include "mpact/sim/generic/config.h"
#include "mpact/sim/generic/counters.h"
#include "mpact/sim/generic/fifo.h"
#include "mpact/sim/generic/function_delay_line.h"
#include "mpact/sim/generic/immediate_operand.h"
#include "mpact/sim/generic/register.h"
#include "mpact/sim/proto/component_data.pb.h"

using mc::Ctx;
using namespace mpact::sim::generic;
namespace pb = mpact::sim::proto;

namespace {

// ---- the tree: names, parents, removal ---------------------------------------------
void Tree(Ctx& c) {
  // Two roots and four components to add, two of them with equal names.
  Component top("top"), other("other"), a("a"), b("b"), a2("a"), e("");
  Component* root[2] = {&top, &other};
  Component* comp[4] = {&a, &b, &a2, &e};
  SimpleCounter<uint64_t> c1("n", 1), c2("n", 2), c3("a", 3), raw;
  CounterBaseInterface* cnt[5] = {&c1, &c2, &c3, &raw, nullptr};
  Config<int64_t> g1("n", 1), g3("a", 3);
  Config<bool> g2("n", true);
  ConfigBase* cfg[4] = {&g1, &g2, &g3, nullptr};
  std::map<std::string, Component*> ch[2];
  std::map<std::string, CounterBaseInterface*> mc_[2];
  std::map<std::string, ConfigBase*> mg[2];
  Component* parent[4] = {};
  int depth = c.thorough() ? 5 : 4;
  for (int d = 0; d < depth; d++) {
    int r = c.choose(2, "root"), k = c.choose(4, "op");
    if (k == 0) {
      int i = c.choose(4, "child");
      if (parent[i] && parent[i] != root[r]) return;  // one parent at a time
      std::string n = comp[i]->component_name();
      bool want = !ch[r].count(n);
      auto s = root[r]->AddChildComponent(*comp[i]);
      c.op("AddChildComponent(%d, %d) -> %d", r, i, s.ok());
      c.check(s.ok() == want, "adding a child '%s' is %d", n.c_str(), s.ok());
      if (want) ch[r][n] = comp[i], parent[i] = root[r];
    } else if (k == 1) {
      std::string n = c.pick({"a", "b", "zz"}, "name");
      bool want = ch[r].count(n);
      auto s = root[r]->RemoveChildComponent(n);
      c.op("RemoveChildComponent(%d, %s) -> %d", r, n.c_str(), s.ok());
      c.check(s.ok() == want && (want || absl::IsNotFound(s)), "removing '%s' is %d", n.c_str(), s.ok());
      if (want) {
        for (int i = 0; i < 4; i++)
          if (comp[i] == ch[r][n]) parent[i] = nullptr;
        ch[r].erase(n);
      }
    } else if (k == 2) {
      int i = c.choose(5, "counter");
      auto s = root[r]->AddCounter(cnt[i]);
      bool want = i < 3 && !mc_[r].count(cnt[i]->GetName());
      c.op("AddCounter(%d, %d) -> %d", r, i, s.ok());
      c.check(s.ok() == want, "adding counter %d is %d", i, s.ok());
      if (i >= 3) c.check(absl::IsInvalidArgument(s), "adding counter %d", i);
      if (want) mc_[r][cnt[i]->GetName()] = cnt[i];
    } else {
      int i = c.choose(4, "config");
      auto s = root[r]->AddConfig(cfg[i]);
      bool want = i < 3 && !mg[r].count(cfg[i]->name());
      c.op("AddConfig(%d, %d) -> %d", r, i, s.ok());
      c.check(s.ok() == want, "adding config %d is %d", i, s.ok());
      if (i >= 3) c.check(absl::IsInvalidArgument(s), "adding config %d", i);
      if (want) mg[r][cfg[i]->name()] = cfg[i];
    }
    if (!c.fresh()) continue;
    for (int q = 0; q < 2; q++) {
      c.check(root[q]->parent() == nullptr, "parent of a root");
      for (const char* n : {"a", "b", "n", "zz", ""}) {
        c.check(root[q]->GetChildComponent(n) == (ch[q].count(n) ? ch[q][n] : nullptr), "child '%s'", n);
        c.check(root[q]->GetCounter(n) == (mc_[q].count(n) ? mc_[q][n] : nullptr), "counter '%s'", n);
        c.check(root[q]->GetConfig(n) == (mg[q].count(n) ? mg[q][n] : nullptr), "config '%s'", n);
      }
      c.check(root[q]->child_map().size() == ch[q].size() &&
                  root[q]->counter_map().size() == mc_[q].size() &&
                  root[q]->config_map().size() == mg[q].size(),
              "map sizes");
    }
    for (int i = 0; i < 4; i++) c.check(comp[i]->parent() == parent[i], "parent of child %d", i);
  }
}

// ---- one configuration entry --------------------------------------------------------
bool Eq(const PhysicalValue& a, const PhysicalValue& b) {
  return memcmp(&a.value, &b.value, 8) == 0 && a.si_prefix == b.si_prefix && a.si_unit == b.si_unit;
}
bool Eq(double a, double b) { return memcmp(&a, &b, 8) == 0; }
template <typename T>
bool Eq(const T& a, const T& b) { return a == b; }

template <typename T>
std::vector<T> Values();
template <> std::vector<bool> Values() { return {false, true}; }
template <> std::vector<int64_t> Values() {
  return {0, 1, -1, std::numeric_limits<int64_t>::min(), std::numeric_limits<int64_t>::max(), -5000000000};
}
template <> std::vector<uint64_t> Values() {
  return {0, 1, ~uint64_t(0), uint64_t(1) << 63, 5000000000};
}
template <> std::vector<double> Values() {
  return {0.0, -0.0, 1.5, -1e300, 5e-324, std::numeric_limits<double>::infinity(),
          std::numeric_limits<double>::quiet_NaN()};
}
template <> std::vector<std::string> Values() {
  return {"", "x", std::string(300, 'q'), std::string("a\0b", 3), "a\n\"b\xc3\xa9"};
}
template <> std::vector<PhysicalValue> Values() {
  return {PhysicalValue(1.5), PhysicalValue(-0.0, pb::UNIT_WATT),
          PhysicalValue(3, pb::PREFIX_PICO, pb::UNIT_SECOND), PhysicalValue(4e9, pb::PREFIX_TERA, pb::UNIT_HERTZ),
          PhysicalValue(5, pb::PREFIX_NANO, pb::UNIT_NONE)};
}

std::vector<ConfigValue> AllKinds() {
  return {true, int64_t(-7), uint64_t(7), 7.5, std::string("seven"), PhysicalValue(7, pb::PREFIX_KILO, pb::UNIT_VOLT)};
}
void Fill(pb::ComponentValueEntry* e, int kind) {
  switch (kind) {
    case 0: e->set_bool_value(true); break;
    case 1: e->set_sint64_value(-7); break;
    case 2: e->set_uint64_value(7); break;
    case 3: e->set_double_value(7.5); break;
    case 4: e->set_string_value("seven"); break;
    case 5:
      e->mutable_physical_value()->set_value(7);
      e->mutable_physical_value()->set_si_prefix(pb::PREFIX_KILO);
      e->mutable_physical_value()->set_si_unit(pb::UNIT_VOLT);
      break;
    case 6: break;  // no value
  }
}
template <typename T>
bool Holds(const pb::ComponentValueEntry& e, const T& v) {
  if constexpr (std::is_same_v<T, bool>) return e.has_bool_value() && e.bool_value() == v;
  else if constexpr (std::is_same_v<T, int64_t>) return e.has_sint64_value() && e.sint64_value() == v;
  else if constexpr (std::is_same_v<T, uint64_t>) return e.has_uint64_value() && e.uint64_value() == v;
  else if constexpr (std::is_same_v<T, double>) return e.has_double_value() && Eq(e.double_value(), v);
  else if constexpr (std::is_same_v<T, std::string>) return e.has_string_value() && e.string_value() == v;
  else
    return e.has_physical_value() && Eq(e.physical_value().value(), v.value) &&
           e.physical_value().si_prefix() == v.si_prefix && e.physical_value().si_unit() == v.si_unit;
}
template <typename C>
struct OnJunk {  // constructs a C in memory full of junk
  alignas(C) unsigned char mem[sizeof(C)];
  C* p;
  template <typename... A>
  explicit OnJunk(A&&... a) {
    memset(mem, 0xa5, sizeof mem);
    asm volatile("" : : "r"(mem) : "memory");
    p = new (mem) C(std::forward<A>(a)...);
  }
  ~OnJunk() { p->~C(); }
};

template <typename T>
void ConfigT(Ctx& c, int kind) {
  auto vals = Values<T>();
  std::vector<ConfigValue> kinds = AllKinds();
  std::unique_ptr<OnJunk<Config<T>>> j;
  T v = vals[c.choose(vals.size(), "initial")];
  if constexpr (!std::is_same_v<T, PhysicalValue>) {
    if (c.flip("no initial value")) {
      v = T();
      j = std::make_unique<OnJunk<Config<T>>>("cfg");
    }
  }
  if (!j) j = std::make_unique<OnJunk<Config<T>>>("cfg", v);
  Config<T>& g = *j->p;
  bool has = false;
  int calls[2] = {}, want[2] = {};
  int ncb = c.choose(3, "callbacks");
  for (int i = 0; i < ncb; i++)
    g.AddValueWrittenCallback([&, i] {
      calls[i]++;
      c.check(g.HasConfigValue(), "callback before the value is there");
    });
  int depth = c.thorough() ? 4 : 3;
  for (int d = 0; d <= depth; d++) {
    c.check(g.name() == "cfg" && g.HasConfigValue() == has && Eq(g.GetValue(), v), "value of the entry");
    auto cv = g.GetConfigValue();
    c.check((int)cv.index() == kind && Eq(std::get<T>(cv), v), "variant value");
    pb::ComponentValueEntry e;
    c.check(g.Export(&e).ok() && e.name() == "cfg" && Holds<T>(e, v), "exported entry");
    c.check(absl::IsInvalidArgument(g.Export(nullptr)) && absl::IsInvalidArgument(g.Import(nullptr)), "null entries");
    for (int i = 0; i < 2; i++) c.check(calls[i] == (i < ncb ? want[i] : 0), "callback %d: %d calls", i, calls[i]);
    if (d == depth) break;
    bool ok, did;
    T nv = v;
    switch (c.choose(4, "op")) {
      case 0:
        nv = vals[c.choose(vals.size(), "value")];
        c.op("SetValue");
        g.SetValue(nv);
        ok = did = true;
        break;
      case 1: {
        int k = c.choose(6, "kind");
        c.op("SetConfigValue of kind %d", k);
        did = k == kind;
        ok = g.SetConfigValue(kinds[k]).ok();
        if (did) nv = std::get<T>(kinds[k]);
        break;
      }
      case 2: {
        int k = c.choose(7, "kind"), n = c.choose(3, "name");
        pb::ComponentValueEntry x;
        if (n == 1) x.set_name("cfg2");
        if (n == 0) x.set_name("cfg");
        Fill(&x, k);
        c.op("Import of kind %d, name %d", k, n);
        did = k == kind && n == 0;
        ok = g.Import(&x).ok();
        if (did) nv = std::get<T>(kinds[k]);
        break;
      }
      case 3: {  // round trip through bytes
        nv = vals[c.choose(vals.size(), "value")];
        Config<T> src("cfg", nv);
        pb::ComponentValueEntry x, y;
        c.check(src.Export(&x).ok() && y.ParseFromString(x.SerializeAsString()), "serialise");
        c.op("Import of an exported entry");
        ok = g.Import(&y).ok();
        did = true;
        break;
      }
    }
    c.check(ok == did, "result is %d", ok);
    if (did) {
      v = nv;
      has = true;
      want[0]++;
      want[1]++;
    }
  }
}
void Configs(Ctx& c) {
  switch (c.choose(6, "type")) {
    case 0: return ConfigT<bool>(c, 0);
    case 1: return ConfigT<int64_t>(c, 1);
    case 2: return ConfigT<uint64_t>(c, 2);
    case 3: return ConfigT<double>(c, 3);
    case 4: return ConfigT<std::string>(c, 4);
    case 5: return ConfigT<PhysicalValue>(c, 5);
  }
}

// ---- counters -------------------------------------------------------------------------
template <typename T>
struct Sink : CounterValueSetInterface<T> {
  std::vector<T> got;
  void SetValue(const T& v) override { got.push_back(v); }
};
template <typename T>
void CounterT(Ctx& c, int kind) {
  using N = std::numeric_limits<T>;
  std::vector<T> vals = {T(0), T(1), T(3), N::max(), N::lowest()};
  auto add = [](T a, T b, int sign) -> T {
    if constexpr (std::is_floating_point_v<T>) return sign > 0 ? a + b : a - b;
    else return T(sign > 0 ? uint64_t(a) + uint64_t(b) : uint64_t(a) - uint64_t(b));
  };
  int how = c.choose(5, "constructor");
  std::unique_ptr<OnJunk<SimpleCounter<T>>> j;
  T v = T(0);
  std::string about, name = "cnt";
  bool init = true, on = true;
  using J = OnJunk<SimpleCounter<T>>;
  switch (how) {
    case 0: j = std::make_unique<J>(); init = on = false; name = ""; break;
    case 1: j = std::make_unique<J>("cnt"); break;
    case 2: j = std::make_unique<J>(std::string("cnt"), T(5)); v = 5; break;
    case 3: j = std::make_unique<J>(std::string("cnt"), std::string("what")); about = "what"; break;
    case 4: j = std::make_unique<J>(std::string("cnt"), std::string("what"), T(6)); about = "what"; v = 6; break;
  }
  SimpleCounter<T>& s = *j->p;
  // Listeners: a sink, and a function counter keeping the largest value seen,
  // with a listener of its own.
  Sink<T> sink;
  Sink<double> far;
  std::vector<T> want;
  std::vector<double> want_far;
  double best = -1;
  FunctionCounter<T, double> fn("fn", -1.0);
  bool fn_on = true;
  fn.SetFunction([&](const T& in, double* out) {
    if (!(double(in) > fn.GetValue())) return false;
    *out = double(in);
    return true;
  });
  fn.AddListener(&far);
  s.AddListener(&sink);
  s.AddListener(&fn);
  auto update = [&](T nv) {
    if (!on) return;
    v = nv;
    want.push_back(v);
    if (fn_on && double(v) > best) best = double(v), want_far.push_back(best);
  };
  int depth = c.thorough() ? 5 : 4;
  for (int d = 0; d <= depth; d++) {
    if (c.fresh() || d == depth) {
      c.check(Eq(s.GetValue(), v) && s.GetCounterValue().index() == (size_t)kind &&
                  Eq(std::get<T>(s.GetCounterValue()), v),
              "value of the counter");
      c.check(s.GetName() == name && s.GetAbout() == about && s.IsEnabled() == on && s.IsInitialized() == init &&
                  s.ToString() == absl::StrCat(v),
              "attributes of the counter");
      pb::ComponentValueEntry e;
      c.check(s.Export(&e).ok() && e.name() == name && e.has_about() == !about.empty() && e.about() == about &&
                  Holds<T>(e, v) && absl::IsInvalidArgument(s.Export(nullptr)),
              "exported counter");
      c.check(sink.got == want, "the listener was told %zu values, %zu expected", sink.got.size(), want.size());
      c.check(far.got == want_far && fn.GetValue() == best && fn.ToString() == absl::StrCat(best), "function counter");
    }
    if (d == depth) break;
    int k = c.choose(7, "op");
    T x = k < 3 ? vals[c.choose(vals.size(), "value")] : T(0);
    if constexpr (std::is_same_v<T, int64_t>) {  // signed overflow is not defined
      if (k == 0 && ((x > 0 && v > N::max() - x) || (x < 0 && v < N::min() - x))) return;
      if (k == 1 && ((x < 0 && v > N::max() + x) || (x > 0 && v < N::min() + x))) return;
    }
    switch (k) {
      case 0: c.op("Increment"); s.Increment(x); update(add(v, x, 1)); break;
      case 1: c.op("Decrement"); s.Decrement(x); update(add(v, x, -1)); break;
      case 2: c.op("SetValue"); s.SetValue(x); update(x); break;
      case 3: on = !on; c.op("enabled: %d", on); s.SetIsEnabled(on); break;
      case 4: fn_on = !fn_on; c.op("function counter enabled: %d", fn_on); fn.SetIsEnabled(fn_on); break;
      case 5: c.op("Initialize"); s.Initialize("new", T(9)); name = "new"; v = 9; init = on = true; break;
      case 6: c.op("SetAbout"); s.SetAbout("about"); about = "about"; break;
    }
  }
}
void Counters(Ctx& c) {
  switch (c.choose(3, "type")) {
    case 0: return CounterT<uint64_t>(c, 0);
    case 1: return CounterT<int64_t>(c, 1);
    case 2: return CounterT<double>(c, 2);
  }
}

// ---- import and export of a tree ------------------------------------------------------
struct Node {
  std::unique_ptr<Component> comp;
  std::unique_ptr<Config<int64_t>> i;
  std::unique_ptr<Config<std::string>> s;
  std::unique_ptr<SimpleCounter<uint64_t>> n;
  int done = 0;
};
struct Sim {
  Node node[4];  // 0: root, 1 and 2: its children, 3: child of 1
  std::vector<int> order;
  Sim() {
    const char* nm[4] = {"root", "zeta", "alpha", "leaf"};
    int par[4] = {-1, 0, 0, 1};
    for (int k = 0; k < 4; k++) {
      auto& n = node[k];
      n.comp = std::make_unique<Component>(nm[k], par[k] < 0 ? nullptr : node[par[k]].comp.get());
      n.i = std::make_unique<Config<int64_t>>("i", k);
      n.s = std::make_unique<Config<std::string>>("s", "d");
      n.n = std::make_unique<SimpleCounter<uint64_t>>("n", 10 + k);
      (void)n.comp->AddConfig(n.s.get());
      (void)n.comp->AddConfig(n.i.get());
      (void)n.comp->AddCounter(n.n.get());
      n.comp->AddImportDoneCallback([this, k] { node[k].done++; order.push_back(k); });
      n.comp->AddImportDoneCallback([this, k] { node[k].done += 10; });
    }
  }
};
void Transfer(Ctx& c) {
  Sim a, b;
  // Values to transfer.
  int64_t iv[4];
  std::string sv[4];
  for (int k = 0; k < 4; k++) {
    iv[k] = k < 2 ? c.pick({int64_t(-1), std::numeric_limits<int64_t>::max()}, "i") : 100 + k;
    sv[k] = k == 3 ? c.pick({std::string(""), std::string("text")}, "s") : "v" + std::to_string(k);
    a.node[k].i->SetValue(iv[k]);
    a.node[k].s->SetValue(sv[k]);
    a.node[k].n->Increment(1000);
  }
  pb::ComponentData d;
  c.check(a.node[0].comp->Export(&d).ok() && absl::IsInvalidArgument(a.node[0].comp->Export(nullptr)), "export");
  // Exactly the tree, each level in name order.
  std::function<void(int, const pb::ComponentData&)> verify = [&](int k, const pb::ComponentData& x) {
    static const std::vector<int> kids[4] = {{2, 1}, {3}, {}, {}};
    c.check(x.name() == a.node[k].comp->component_name(), "exported name %s", x.name().c_str());
    c.check(x.configuration_size() == 2 && x.configuration(0).name() == "i" && x.configuration(1).name() == "s" &&
                x.configuration(0).sint64_value() == iv[k] && x.configuration(1).string_value() == sv[k],
            "exported configuration of %s", x.name().c_str());
    c.check(x.statistics_size() == 1 && x.statistics(0).name() == "n" &&
                x.statistics(0).uint64_value() == 1010u + k,
            "exported statistics of %s", x.name().c_str());
    c.check(x.component_data_size() == (int)kids[k].size(), "exported children of %s", x.name().c_str());
    for (size_t q = 0; q < kids[k].size(); q++) verify(kids[k][q], x.component_data(q));
  };
  verify(0, d);
  // What is imported: the export with one change.
  auto* zeta = d.mutable_component_data(1);
  auto* alpha = d.mutable_component_data(0);
  int change = c.choose(12, "change");
  bool ok = true;
  bool has_i[4] = {true, true, true, true}, has_s[4] = {true, true, true, true};
  // Import goes through the root's entries, then child after child in data order.
  switch (change) {
    case 0: break;
    case 1: d.set_name("rot"); ok = false; for (int k = 0; k < 4; k++) has_i[k] = has_s[k] = false; break;
    case 2: d.clear_name(); ok = false; for (int k = 0; k < 4; k++) has_i[k] = has_s[k] = false; break;
    case 3: alpha->set_name("unknown"); has_i[2] = has_s[2] = false; break;
    case 4: alpha->mutable_configuration(1)->set_name("unknown"); has_s[2] = false; break;
    case 5: zeta->mutable_configuration(0)->clear_name(); ok = false; has_i[1] = has_s[1] = has_i[3] = has_s[3] = false; break;
    case 6: zeta->mutable_configuration(0)->set_bool_value(true); ok = false; has_i[1] = has_s[1] = has_i[3] = has_s[3] = false; break;
    case 7: zeta->mutable_component_data(0)->clear_name(); ok = false; has_i[3] = has_s[3] = false; break;
    case 8: zeta->clear_component_data(); has_i[3] = has_s[3] = false; break;
    case 9: d.mutable_component_data()->SwapElements(0, 1); break;
    case 10: {  // a later entry of the same name wins
      auto* e = alpha->add_configuration();
      e->set_name("s");
      e->set_string_value("later");
      sv[2] = "later";
      break;
    }
    case 11: zeta->mutable_configuration(1)->set_name("unknown"); zeta->mutable_statistics(0)->set_name("i"); has_s[1] = false; break;
  }
  pb::ComponentData in;
  c.check(in.ParseFromString(d.SerializeAsString()), "parse");
  auto s = b.node[0].comp->Import(in);
  c.op("import, change %d -> %d", change, s.ok());
  c.check(s.ok() == ok, "import is %d", s.ok());
  for (int k = 0; k < 4; k++) {
    auto& n = b.node[k];
    c.check(n.i->HasConfigValue() == has_i[k] && n.i->GetValue() == (has_i[k] ? iv[k] : k), "entry i of %d", k);
    c.check(n.s->HasConfigValue() == has_s[k] && n.s->GetValue() == (has_s[k] ? sv[k] : "d"), "entry s of %d", k);
    c.check(n.n->GetValue() == 10u + k, "the import changed a counter");
    c.check(n.done == 0, "callback during import");
  }
  b.node[0].comp->ImportDone();
  for (int k = 0; k < 4; k++) c.check(b.node[k].done == 11, "import-done callbacks of %d", k);
  c.check(a.node[0].done == 0, "callbacks of another tree");
}

// ---- architectural state ----------------------------------------------------------------
class State : public ArchState {
 public:
  explicit State(SourceOperandInterface* pc) : ArchState("arch", pc) {}
  State(Component* p, SourceOperandInterface* pc) : ArchState(p, "arch", pc) {}
  using ArchState::set_cycle;
  using ArchState::set_pc_operand;
};
int g_regs, g_fifos;
template <typename B>
struct Counted : B {
  int* n;
  template <typename... A>
  explicit Counted(int* n, A... a) : B(a...), n(n) { ++*n; }
  ~Counted() override { --*n; }
};
void Arch(Ctx& c) {
  g_regs = g_fifos = 0;
  {
    Component top("top");
    ImmediateOperand<uint32_t> pc(0x1234), pc2(7);
    bool nested = c.flip("nested");
    std::unique_ptr<State> st(nested ? new State(&top, &pc) : new State(&pc));
    c.check(st->id() == "arch" && st->pc_operand() == &pc && st->cycle() == 0 && st->registers()->empty() &&
                st->fifos()->empty() && st->parent() == (nested ? &top : nullptr) &&
                top.GetChildComponent("arch") == (nested ? st.get() : nullptr),
            "a new state");
    c.check(st->program_error_controller()->name() == "archErrors" ||
                !st->program_error_controller()->name().empty(),
            "program error controller");
    st->set_pc_operand(&pc2);
    c.check(st->pc_operand() == &pc2, "pc operand");
    using R = Counted<Register<uint32_t>>;
    using F = Counted<Fifo<uint32_t>>;
    R* r[2] = {new R(&g_regs, st.get(), "r0"), new R(&g_regs, st.get(), "r1")};
    F* f[2] = {new F(&g_fifos, st.get(), "f0", 2), new F(&g_fifos, st.get(), "f1", 2)};
    std::map<std::string, RegisterBase*> mr;
    std::map<std::string, FifoBase*> mf;
    std::set<void*> taken;
    static const char* names[4] = {"r0", "r1", "alias", "f0"};
    std::vector<std::string> log, want;
    auto* extra = st->CreateAndAddDelayLine<FunctionDelayLine>(4);
    struct P { uint64_t when; int line; std::string s; };
    std::vector<P> pend;
    uint64_t cycle = 0;
    for (int d = 0; d < (c.thorough() ? 5 : 4); d++) {
      switch (c.choose(6, "op")) {
        case 0: {
          int i = c.choose(2, "register"), n = c.choose(3, "name");
          c.op("add register %d as %s", i, names[n]);
          if (n == i) st->AddRegister(r[i]);
          else st->AddRegister(names[n], r[i]);
          mr.emplace(names[n], r[i]);
          break;
        }
        case 1: {
          int n = c.choose(3, "name");
          c.op("remove register %s", names[n]);
          st->RemoveRegister(names[n]);
          mr.erase(names[n]);
          break;
        }
        case 2: {
          int i = c.choose(2, "fifo"), n = c.choose(2, "name");
          std::string nm = n ? "alias" : (i ? "f1" : "f0");
          c.op("add fifo %d as %s", i, nm.c_str());
          if (n) st->AddFifo(nm, f[i]);
          else st->AddFifo(f[i]);
          mf.emplace(nm, f[i]);
          break;
        }
        case 3:
          c.op("remove fifo alias");
          st->RemoveFifo("alias");
          mf.erase("alias");
          break;
        case 4: {  // work on a delay line
          int lat = c.choose(2, "latency") + 1, line = c.choose(2, "line");
          std::string s = mc::S("%d/%d", d, line);
          c.op("work in %d cycles on line %d", lat, line);
          auto fn = [&log, s] { log.push_back(s); };
          if (line) extra->Add(lat, fn);
          else st->function_delay_line()->Add(lat, fn);
          pend.push_back({cycle + lat, line, s});
          break;
        }
        case 5:
          c.op("advance");
          st->AdvanceDelayLines();
          cycle++;
          for (int line = 0; line < 2; line++)
            for (auto& p : pend)
              if (p.when == cycle && p.line == line) want.push_back(p.s);
          break;
      }
      if (!c.fresh()) continue;
      c.check(st->cycle() == cycle, "cycle %d", (int)st->cycle());
      c.check(std::multiset<std::string>(log.begin(), log.end()) ==
                  std::multiset<std::string>(want.begin(), want.end()),
              "%zu pieces of work done, %zu expected", log.size(), want.size());
      c.check(st->registers()->size() == mr.size() && st->fifos()->size() == mf.size(), "map sizes");
      for (auto& [n, p] : mr) c.check(st->registers()->contains(n) && st->registers()->at(n) == p, "register %s", n.c_str());
      for (auto& [n, p] : mf) c.check(st->fifos()->contains(n) && st->fifos()->at(n) == p, "fifo %s", n.c_str());
      c.check(g_regs == 2 && g_fifos == 2, "a register or fifo was destroyed");
    }
    // Registered ones go with the state, each once; the others stay ours.
    std::set<void*> regs, fifos;
    for (auto& [n, p] : mr) regs.insert(p);
    for (auto& [n, p] : mf) fifos.insert(p);
    for (int i = 0; i < 2; i++) {
      if (!regs.count(r[i])) delete r[i];
      if (!fifos.count(f[i])) delete f[i];
    }
    c.check(g_regs == (int)regs.size() && g_fifos == (int)fifos.size(), "own ones destroyed");
    st.reset();
    c.check(g_regs == 0 && g_fifos == 0, "%d registers and %d fifos remain", g_regs, g_fifos);
  }
}

}  // namespace

int main(int argc, char** argv) {
  return mc::Main(argc, argv, "C19",
                  {{"tree", Tree, 3}, {"configs", Configs, 2}, {"counters", Counters, 3},
                   {"transfer", Transfer, 1}, {"arch", Arch, 3}},
                  "all histories of 4 (5) additions and removals of children, counters and entries "
                  "on two components; every entry type with all histories of 3 (4) writes and imports "
                  "of every kind; all histories of 4 (5) counter operations over boundary values with "
                  "listeners; a tree of four components exported, changed in 12 ways and imported; "
                  "histories of 4 (5) operations on the registers, fifos and delay lines of a state",
                  {"a component has one parent at a time", "overflow of signed counters is outside the property"});
}
