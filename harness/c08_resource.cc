// C08: the registry of decoder resources.
#include <map>
#include <string>
#include <vector>

#include "absl/status/status.h"
#include "mc.h"
#include "mpact/sim/decoder/resource.h"

using mc::Ctx;
using namespace mpact::sim::machine_description::instruction_set;

namespace {

struct Model {
  Resource* r;
  bool simple = true, multi = false, array = false;
};
const std::vector<std::string> kNames = {"a", "ab", "a_b", "A", "next_pc", ""};
const std::vector<std::string> kPascal = {"A", "Ab", "AB", "A", "NextPc", ""};

void History(Ctx& c, int nnames, int depth) {
  ResourceFactory f;
  std::map<std::string, Model> m;
  for (int d = 0; d < depth; d++) {
    int k = c.choose(5, "op");
    int ni = c.choose(nnames, "name");
    std::string name = kNames[ni];
    // The name's storage goes away after the call.
    std::string* tmp = new std::string(name);
    if (k == 0) {
      c.op("CreateResource('%s')", name.c_str());
      auto res = f.CreateResource(*tmp);
      if (m.count(name)) {
        c.check(!res.ok(), "created the existing resource '%s' again",
                name.c_str());
        c.check(absl::IsAlreadyExists(res.status()), "wrong error code");
      } else {
        c.check(res.ok(), "could not create '%s'", name.c_str());
        m[name] = Model{*res};
      }
    } else if (k == 1) {
      c.op("GetOrInsertResource('%s')", name.c_str());
      Resource* r = f.GetOrInsertResource(*tmp);
      c.check(r != nullptr, "no resource for '%s'", name.c_str());
      if (m.count(name))
        c.check(m[name].r == r, "'%s' names two resources", name.c_str());
      else
        m[name] = Model{r};
    } else if (m.count(name)) {
      Model& e = m[name];
      bool v = c.flip("value");
      c.op("set flag %d of '%s' to %d", k - 2, name.c_str(), v);
      if (k == 2) e.r->set_is_simple(v), e.simple = v;
      if (k == 3) e.r->set_is_multi_valued(v), e.multi = v;
      if (k == 4) e.r->set_is_array(v), e.array = v;
    } else {
      delete tmp;
      continue;
    }
    tmp->assign(tmp->size(), '#');
    delete tmp;
    // The registry holds exactly the resources asked for.
    c.check(f.resource_map().size() == m.size(),
            "the registry has %zu resources, %zu expected",
            f.resource_map().size(), m.size());
    std::string st;
    for (auto& [n, e] : m) {
      auto it = f.resource_map().find(n);
      c.check(it != f.resource_map().end() && it->second == e.r,
              "'%s' is not registered", n.c_str());
      c.check(e.r->name() == n, "name of '%s' is '%s'", n.c_str(),
              e.r->name().c_str());
      for (size_t i = 0; i < kNames.size(); i++)
        if (kNames[i] == n)
          c.check(e.r->pascal_name() == kPascal[i], "Pascal name of '%s' is '%s'",
                  n.c_str(), e.r->pascal_name().c_str());
      c.check(e.r->is_simple() == e.simple &&
                  e.r->is_multi_valued() == e.multi &&
                  e.r->is_array() == e.array,
              "attributes of '%s' differ", n.c_str());
      for (auto& [n2, e2] : m)
        c.check(n == n2 || e.r != e2.r, "two names share a resource");
      st += n + mc::S(":%d%d%d;", e.simple, e.multi, e.array);
    }
    // The map is in name order (generated code is deterministic).
    std::string prev;
    bool first = true;
    for (auto& [n, r] : f.resource_map()) {
      c.check(first || prev < n, "the registry is not ordered by name");
      prev = n;
      first = false;
    }
    c.state(st);
  }
}

}  // namespace

int main(int argc, char** argv) {
  return mc::Main(
      argc, argv, "C08",
      {{"six_names", [](Ctx& c) { History(c, 6, c.thorough() ? 5 : 4); }},
       {"two_names", [](Ctx& c) { History(c, 2, c.thorough() ? 8 : 6); }}},
      "all histories of 4 (5) registry operations over 6 names and 6 (8) over "
      "2 names");
}
