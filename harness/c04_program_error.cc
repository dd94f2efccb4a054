// C04: the program error controller, against a reference state machine.
#include <algorithm>
#include <map>
#include <memory>
#include <string>
#include <vector>

#include "mc.h"
#include "mpact/sim/generic/program_error.h"

using mc::Ctx;
using mpact::sim::generic::ProgramError;
using mpact::sim::generic::ProgramErrorController;

namespace {

const char* kInternal = ProgramErrorController::kInternalErrorName;

struct Err {
  bool masked = false;
  std::vector<std::string> msgs;  // for the internal error: counted only
  bool active = false;
};

struct World {
  Ctx& c;
  ProgramErrorController ctl{"ctl"};
  std::map<std::string, Err> m;
  std::map<std::string, std::unique_ptr<ProgramError>> handle;
  explicit World(Ctx& c) : c(c) { m[kInternal]; }

  void Internal() {
    m[kInternal].msgs.push_back("?");
    m[kInternal].active = true;
  }
  bool Known(const std::string& n) { return m.count(n) != 0; }

  void Verify() {
    bool any_masked = false, any_unmasked = false;
    std::vector<std::string> mn, un;
    for (auto& [n, e] : m) {
      if (!e.active) continue;
      if (e.masked)
        any_masked = true, mn.push_back(n);
      else
        any_unmasked = true, un.push_back(n);
    }
    c.check(ctl.HasError() == (any_masked || any_unmasked), "HasError() is %d",
            ctl.HasError());
    c.check(ctl.HasMaskedError() == any_masked, "HasMaskedError() is %d",
            ctl.HasMaskedError());
    c.check(ctl.HasUnmaskedError() == any_unmasked, "HasUnmaskedError() is %d",
            ctl.HasUnmaskedError());
    auto gm = ctl.GetMaskedErrorNames(), gu = ctl.GetUnmaskedErrorNames();
    std::sort(gm.begin(), gm.end());
    std::sort(gu.begin(), gu.end());
    c.check(gm == mn, "the masked active errors differ (%zu, %zu expected)",
            gm.size(), mn.size());
    c.check(gu == un, "the unmasked active errors differ (%zu, %zu expected)",
            gu.size(), un.size());
    for (auto& [n, e] : m) {
      c.check(ctl.HasProgramErrorName(n), "'%s' is not known", n.c_str());
      c.check(ctl.IsMasked(n) == e.masked, "IsMasked(%s) is %d", n.c_str(),
              ctl.IsMasked(n));
      auto& g = ctl.GetErrorMessages(n);
      c.check(g.size() == e.msgs.size(), "'%s' has %zu messages, %zu expected",
              n.c_str(), g.size(), e.msgs.size());
      for (size_t i = 0; i < g.size(); i++)
        c.check(e.msgs[i] == "?" ? !g[i].empty() : g[i] == e.msgs[i],
                "message %zu of '%s' is '%s'", i, n.c_str(), g[i].c_str());
    }
    for (const char* n : {"a", "b", "zz"})
      if (!Known(n))
        c.check(!ctl.HasProgramErrorName(n) && ctl.GetProgramError(n) == nullptr,
                "'%s' is known without having been added", n);
    c.check(ctl.name() == "ctl", "the controller's name changed");
  }
  std::string Canon() {
    std::string s;
    for (auto& [n, e] : m) {
      s += n + mc::S("%d%d%d:", e.masked, e.active, handle.count(n) ? 1 : 0);
      for (auto& x : e.msgs) s += x + ",";
    }
    return s;
  }

  void Op(const std::vector<const char*>& names, bool reads) {
    const int kinds = reads ? 9 : 7;
    int k = c.choose(kinds, "op");
    if (k == 0) {
      c.op("ClearAll()");
      ctl.ClearAll();
      for (auto& [n, e] : m) e.msgs.clear(), e.active = false;
      return;
    }
    std::string n = c.pick(names, "name");
    switch (k) {
      case 1: {
        c.op("AddProgramErrorName(%s)", n.c_str());
        bool r = ctl.AddProgramErrorName(n);
        c.check(r == !Known(n), "AddProgramErrorName(%s) returned %d",
                n.c_str(), r);
        if (Known(n))
          Internal();
        else
          m[n];
        break;
      }
      case 2: {
        std::string msg = c.flip("message") ? "m1" : "";
        c.op("Raise(%s, '%s')", n.c_str(), msg.c_str());
        ctl.Raise(n, msg);
        if (Known(n))
          m[n].msgs.push_back(msg), m[n].active = true;
        else
          Internal();
        break;
      }
      case 3: {
        if (!handle.count(n)) {
          c.op("GetProgramError(%s)", n.c_str());
          auto h = ctl.GetProgramError(n);
          c.check((h != nullptr) == Known(n), "GetProgramError(%s) gave %s",
                  n.c_str(), h ? "a handle" : "nothing");
          if (h) {
            c.check(h->name() == n, "the handle's name is '%s'",
                    std::string(h->name()).c_str());
            handle[n] = std::move(h);
          }
        } else {
          c.op("handle(%s)->Raise(h)", n.c_str());
          handle[n]->Raise("h");
          m[n].msgs.push_back("h");
          m[n].active = true;
        }
        break;
      }
      case 4:
        c.op("Clear(%s)", n.c_str());
        ctl.Clear(n);
        if (Known(n))
          m[n].msgs.clear(), m[n].active = false;
        else
          Internal();
        break;
      case 5:
        c.op("Mask(%s)", n.c_str());
        ctl.Mask(n);
        if (n == kInternal || !Known(n))
          Internal();
        else
          m[n].masked = true;
        break;
      case 6:
        c.op("Unmask(%s)", n.c_str());
        ctl.Unmask(n);
        if (Known(n))
          m[n].masked = false;
        else
          Internal();
        break;
      case 7: {
        c.op("IsMasked(%s)", n.c_str());
        bool r = ctl.IsMasked(n);
        if (Known(n))
          c.check(r == m[n].masked, "IsMasked(%s) is %d", n.c_str(), r);
        else
          c.check(!r, "an unknown error is masked"), Internal();
        break;
      }
      case 8: {
        c.op("GetErrorMessages(%s)", n.c_str());
        auto& v = ctl.GetErrorMessages(n);
        if (!Known(n)) {
          Internal();
          c.check(v.size() == m[kInternal].msgs.size(),
                  "GetErrorMessages of an unknown name gave %zu messages",
                  v.size());
        }
        break;
      }
    }
  }
};

void Tree(Ctx& c) {
  World w(c);
  w.Verify();
  int depth = c.thorough() ? 5 : 4;
  for (int d = 0; d < depth; d++) {
    w.Op({"a", "b", kInternal, "zz"}, true);
    w.Verify();
    c.state(w.Canon());
  }
}
// Two errors registered from the start, longer histories.
void Deep(Ctx& c) {
  World w(c);
  for (const char* n : {"a", "b"}) {
    w.ctl.AddProgramErrorName(n);
    w.m[n];
  }
  int depth = c.thorough() ? 7 : 6;
  for (int d = 0; d < depth; d++) {
    w.Op({"a", "b"}, false);
    w.Verify();
    size_t total = 0;
    for (auto& [n, e] : w.m) total += e.msgs.size();
    if (c.seen(w.Canon(), depth - d) || total > 4) return;
  }
}
// Many registrations: the storage of the errors grows.
void Many(Ctx& c) {
  World w(c);
  int n = c.choose(40, "registrations");
  std::vector<std::string> names;
  for (int i = 0; i <= n; i++) {
    std::string s = mc::S("err%d", (i * 7) % 41);
    names.push_back(s);
    c.op("AddProgramErrorName(%s)", s.c_str());
    c.check(w.ctl.AddProgramErrorName(s), "registration failed");
    w.m[s];
    w.ctl.Raise(s, "x");
    w.m[s].msgs.push_back("x");
    w.m[s].active = true;
    if (i % 3 == 1) w.ctl.Mask(s), w.m[s].masked = true;
    w.handle[s] = w.ctl.GetProgramError(s);
  }
  w.Verify();
  int k = c.choose(names.size(), "clear");
  w.ctl.Clear(names[k]);
  w.m[names[k]].msgs.clear();
  w.m[names[k]].active = false;
  w.Verify();
  for (auto& [s, h] : w.handle) {
    h->Raise("again");
    w.m[s].msgs.push_back("again");
    w.m[s].active = true;
  }
  w.Verify();
  w.ctl.ClearAll();
  for (auto& [s, e] : w.m) e.msgs.clear(), e.active = false;
  w.Verify();
  c.state(mc::S("many %d %d", n, k));
}

}  // namespace

int main(int argc, char** argv) {
  return mc::Main(argc, argv, "C04",
                  {{"all_histories", Tree, 3}, {"deep", Deep, 3}, {"many", Many}},
                  "every history of 4 (thorough 5) operations over two "
                  "registrable names, the internal error and an unknown name; "
                  "with state matching 6 (7) operations over two registered "
                  "names; up to 40 registered names");
}
