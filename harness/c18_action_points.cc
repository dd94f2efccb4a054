// C18: action points and breakpoints, with a program memory that may refuse writes.
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>

#include "absl/status/status.h"
#include "mc.h"
#include "mpact/sim/generic/action_point_manager_base.h"
#include "mpact/sim/generic/breakpoint_manager.h"

using mc::Ctx;
using namespace mpact::sim::generic;

namespace {

const uint64_t kAddr[3] = {0, 0x1000, 0xffff'ffff'ffff'fffe};

struct Memory : ActionPointMemoryInterface {
  Ctx& c;
  std::set<uint64_t> bp;     // addresses with a breakpoint instruction
  bool may_fail = false, failed = false;
  explicit Memory(Ctx& c) : c(c) {}
  absl::Status Write(uint64_t a, bool set) {
    if (may_fail && c.flip("write fails")) {
      failed = true;
      return absl::UnavailableError("no write");
    }
    if (set) bp.insert(a);
    else bp.erase(a);
    return absl::OkStatus();
  }
  absl::Status WriteOriginalInstruction(uint64_t a) override { return Write(a, false); }
  absl::Status WriteBreakpointInstruction(uint64_t a) override { return Write(a, true); }
};

// Actions: what they do to the list when performed.
enum React { kNone, kClearSelf, kDisableSelf, kClearNext, kDisablePrev, kAdd, kClearAll };

struct World {
  Ctx& c;
  Memory mem{c};
  ActionPointManagerBase mgr{&mem};
  struct Act {
    bool enabled;
    int serial, react;
  };
  std::map<uint64_t, std::map<int, Act>> model;
  std::set<uint64_t> touched;
  std::vector<int> log;  // serials performed
  int serials = 0, alive = 0;
  explicit World(Ctx& c) : c(c) {}

  struct Token {  // counts the live action functions
    int* n;
    explicit Token(int* n) : n(n) { ++*n; }
    Token(const Token& o) : n(o.n) { ++*n; }
    ~Token() { --*n; }
  };
  int AddAction(uint64_t a, int react) {
    int s = serials++;
    auto r = mgr.SetAction(a, [this, s, a, react, t = Token(&alive)](uint64_t addr, int id) {
      c.check(addr == a, "action of %llx performed for %llx", (unsigned long long)a,
              (unsigned long long)addr);
      c.check(model[a].count(id) && model[a][id].serial == s, "action performed with id %d", id);
      log.push_back(s);
      Do(a, id, react);
    });
    if (!r.ok()) return -1;
    touched.insert(a);
    c.check(!model[a].count(*r), "id %d is already in use", *r);
    model[a][*r] = {true, s, react};
    return *r;
  }
  void Do(uint64_t a, int id, int react) {
    auto& m = model[a];
    auto it = m.find(id);
    switch (react) {
      case kNone: break;
      case kClearSelf:
        c.check(mgr.ClearAction(a, id).ok(), "an action cannot clear itself");
        m.erase(it);
        break;
      case kDisableSelf:
        c.check(mgr.DisableAction(a, id).ok(), "an action cannot disable itself");
        it->second.enabled = false;
        break;
      case kClearNext:
        if (++it == m.end()) break;
        c.check(mgr.ClearAction(a, it->first).ok(), "an action cannot clear another");
        m.erase(it);
        break;
      case kDisablePrev:
        if (it == m.begin()) break;
        --it;
        c.check(mgr.DisableAction(a, it->first).ok(), "an action cannot disable another");
        it->second.enabled = false;
        break;
      case kAdd:
        if (m.size() < 4) AddAction(a, kNone);
        break;
      case kClearAll:
        mgr.ClearAllActionPoints();
        model.clear();
        break;
    }
  }
  bool Active(uint64_t a) {
    if (!model.count(a)) return false;
    for (auto& [i, x] : model[a])
      if (x.enabled) return true;
    return false;
  }
  void Verify() {
    int n = 0;
    for (uint64_t a : kAddr) {
      bool act = Active(a);
      c.check(mgr.IsActionPointActive(a) == act, "%llx: action point is %s",
              (unsigned long long)a, act ? "inactive" : "active");
      c.check(mem.bp.count(a) == (act ? 1u : 0u), "%llx: %s breakpoint instruction in memory",
              (unsigned long long)a, act ? "no" : "a");
      if (!touched.count(a)) c.check(!mgr.HasActionPoint(a), "action point never set");
      if (model.count(a) && !model[a].empty()) c.check(mgr.HasActionPoint(a), "no action point");
      for (int id = -1; id < 6; id++) {
        bool e = model.count(a) && model[a].count(id) && model[a][id].enabled;
        c.check(mgr.IsActionEnabled(a, id) == e, "%llx: action %d is %s", (unsigned long long)a, id,
                e ? "disabled" : "enabled");
      }
      if (model.count(a)) n += model[a].size();
    }
    c.check(alive == n, "%d action functions exist, %d expected", alive, n);
  }
};

void Actions(Ctx& c, bool faults, bool react, int depth, int addrs) {
  World w(c);
  for (int d = 0; d < depth; d++) {
    w.mem.may_fail = faults;
    w.mem.failed = false;
    int k = c.choose(6, "op");
    uint64_t a = k == 5 ? 0 : kAddr[c.choose(addrs, "address")];
    switch (k) {
      case 0: {
        if (w.model[a].size() >= 3) return;
        int r = react ? c.choose(7, "reaction") : 0;
        auto before = w.model[a].size();
        int id = w.AddAction(a, r);
        c.op("SetAction(%llx) -> %d", (unsigned long long)a, id);
        c.check((id >= 0) == !w.mem.failed, "SetAction is %d", id);
        c.check(w.model[a].size() == before + (id >= 0), "model");
        break;
      }
      case 1:
      case 2:
      case 3: {
        int id = c.choose(3, "id");
        auto it = w.model[a].find(id);
        bool has = it != w.model[a].end();
        absl::Status s = k == 1   ? w.mgr.ClearAction(a, id)
                         : k == 2 ? w.mgr.EnableAction(a, id)
                                  : w.mgr.DisableAction(a, id);
        c.op("%s(%llx, %d) -> %d", k == 1 ? "Clear" : k == 2 ? "Enable" : "Disable",
             (unsigned long long)a, id, s.ok());
        c.check(s.ok() == (has && !w.mem.failed), "result is %d", s.ok());
        if (!has) c.check(absl::IsNotFound(s), "unknown action: %s", s.ToString().c_str());
        if (!s.ok()) break;
        if (k == 1) w.model[a].erase(it);
        else it->second.enabled = k == 2;
        break;
      }
      case 4: {
        w.mem.may_fail = false;
        c.op("PerformActions(%llx)", (unsigned long long)a);
        // The model: each action enabled when its turn comes; actions added
        // meanwhile may or may not be performed.
        w.log.clear();
        std::vector<int> want;
        auto m = w.model[a];
        std::set<int> gone;
        std::vector<int> ids;
        for (auto& [i, x] : m) ids.push_back(i);
        for (size_t q = 0; q < ids.size(); q++) {
          auto it = m.find(ids[q]);
          if (it == m.end() || !it->second.enabled) continue;
          want.push_back(it->second.serial);
          switch (it->second.react) {
            case kClearSelf: m.erase(it); break;
            case kDisableSelf: it->second.enabled = false; break;
            case kClearNext:
              if (++it != m.end()) m.erase(it);
              break;
            case kDisablePrev:
              if (it != m.begin()) (--it)->second.enabled = false;
              break;
            case kClearAll: m.clear(); break;
          }
        }
        int known = w.serials;
        w.mgr.PerformActions(a);
        std::vector<int> got;
        for (int s : w.log)
          if (s < known) got.push_back(s);
        c.check(got == want, "%zu actions performed, %zu expected", got.size(), want.size());
        break;
      }
      case 5:
        w.mem.may_fail = false;
        c.op("ClearAllActionPoints");
        w.mgr.ClearAllActionPoints();
        w.model.clear();
        w.touched.clear();
        break;
    }
    w.mem.may_fail = false;
    if (c.fresh()) w.Verify();
    std::string s;
    for (auto& [x, m] : w.model) {
      s += mc::S("%llx:", (unsigned long long)x);
      for (auto& [i, y] : m) s += mc::S("%d%d%d,", i, y.enabled, y.react);
    }
    c.state(s);
  }
}
void Plain(Ctx& c) { Actions(c, false, false, c.thorough() ? 6 : 5, 2); }
void Faults(Ctx& c) { Actions(c, true, false, c.thorough() ? 6 : 5, 1); }
void Reactions(Ctx& c) { Actions(c, false, true, c.thorough() ? 6 : 5, 1); }

// Breakpoints next to other actions at the same addresses.
void Breakpoints(Ctx& c) {
  Memory mem(c);
  ActionPointManagerBase mgr(&mem);
  int halts = 0, others = 0;
  BreakpointManager bm(&mgr, [&] { halts++; });
  c.check(bm.action_point_manager() == &mgr, "manager");
  struct B {
    bool has = false, on = false;
  };
  std::map<uint64_t, B> model;
  std::map<uint64_t, std::set<int>> other;  // enabled actions of others
  uint64_t last = ~uint64_t(0);
  int depth = c.thorough() ? 6 : 5;
  for (int d = 0; d < depth; d++) {
    mem.may_fail = d == depth - 2 || d == 1;  // faults at two places
    mem.failed = false;
    int k = c.choose(8, "op");
    uint64_t a = k == 4 ? 0 : kAddr[c.choose(2, "address")];
    auto& b = model[a];
    absl::Status s;
    switch (k) {
      case 0:
        s = bm.SetBreakpoint(a);
        c.op("SetBreakpoint(%llx) -> %d", (unsigned long long)a, s.ok());
        c.check(s.ok() == (!b.has && !mem.failed), "SetBreakpoint is %d", s.ok());
        if (b.has) c.check(absl::IsAlreadyExists(s), "%s", s.ToString().c_str());
        if (s.ok()) b = {true, true};
        break;
      case 1:
        s = bm.ClearBreakpoint(a);
        c.op("ClearBreakpoint(%llx) -> %d", (unsigned long long)a, s.ok());
        c.check(s.ok() == (b.has && !mem.failed), "ClearBreakpoint is %d", s.ok());
        if (!b.has) c.check(absl::IsNotFound(s), "%s", s.ToString().c_str());
        if (s.ok()) b = {};
        break;
      case 2:
      case 3:
        s = k == 2 ? bm.EnableBreakpoint(a) : bm.DisableBreakpoint(a);
        c.op("%sBreakpoint(%llx) -> %d", k == 2 ? "Enable" : "Disable", (unsigned long long)a,
             s.ok());
        c.check(s.ok() == (b.has && !mem.failed), "enable/disable is %d", s.ok());
        if (!b.has) c.check(absl::IsNotFound(s), "%s", s.ToString().c_str());
        if (s.ok()) b.on = k == 2;
        break;
      case 4:
        mem.may_fail = false;
        c.op("ClearAllBreakpoints");
        bm.ClearAllBreakpoints();
        for (auto& [x, y] : model) y = {};
        break;
      case 5: {
        mem.may_fail = false;
        auto r = mgr.SetAction(a, [&others](uint64_t, int) { others++; });
        c.op("another action at %llx", (unsigned long long)a);
        c.check(r.ok(), "SetAction");
        c.check(other[a].insert(*r).second, "id in use");
        break;
      }
      case 6:
        mem.may_fail = false;
        if (other[a].empty()) return;
        c.op("another action at %llx is removed", (unsigned long long)a);
        c.check(mgr.ClearAction(a, *other[a].begin()).ok(), "ClearAction");
        other[a].erase(other[a].begin());
        break;
      case 7: {
        c.op("reach %llx", (unsigned long long)a);
        int h = halts, o = others;
        if (mem.bp.count(a)) mgr.PerformActions(a);
        c.check(halts - h == b.on, "%d halts requested, %d expected", halts - h, b.on);
        c.check(others - o == (int)other[a].size(), "other actions performed");
        if (b.on) last = a;
        break;
      }
    }
    mem.may_fail = false;
    if (!c.fresh()) continue;
    c.check(bm.last_breakpoint_address() == last, "last breakpoint address");
    for (uint64_t x : {kAddr[0], kAddr[1], kAddr[2]}) {
      c.check(bm.HasBreakpoint(x) == model[x].has, "%llx: HasBreakpoint is %d",
              (unsigned long long)x, !model[x].has);
      c.check(bm.IsBreakpoint(x) == model[x].on, "%llx: IsBreakpoint is %d",
              (unsigned long long)x, !model[x].on);
      bool on = model[x].on || !other[x].empty();
      c.check(mem.bp.count(x) == (on ? 1u : 0u), "%llx: %s breakpoint instruction in memory",
              (unsigned long long)x, on ? "no" : "a");
    }
    c.state(mc::S("%d%d%d%d,%zu,%zu", model[kAddr[0]].has, model[kAddr[0]].on, model[kAddr[1]].has,
                  model[kAddr[1]].on, other[kAddr[0]].size(), other[kAddr[1]].size()));
  }
}

}  // namespace

int main(int argc, char** argv) {
  return mc::Main(argc, argv, "C18",
                  {{"plain", Plain, 3}, {"faults", Faults, 3}, {"reactions", Reactions, 3},
                   {"breakpoints", Breakpoints, 3}},
                  "all histories of 5 (6) set, clear, enable, disable, perform and clear-all steps on "
                  "2 addresses; the same on one address with every write to memory failing or not; "
                  "with actions that clear, disable or add actions while performed; 5 (6) breakpoint "
                  "steps next to other actions with failing writes",
                  {"an action added while actions are performed may be performed at once or later",
                   "writes to memory do not fail while all action points are cleared"});
}
