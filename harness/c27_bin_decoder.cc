// C27: for every binary encoding description the decoder that bin_format_gen
// generates maps every instruction word to an opcode whose constraints the
// word satisfies (and its format), or to kNone if there is none.
//
// All small descriptions are enumerated, the real generator is run on each,
// the generated C++ is compiled, and every instruction word is decoded by it.
#include <algorithm>
#include <cstring>
#include <fstream>
#include <set>

#include "binfmt.h"
#include "gen.h"
#include "mc.h"
#include "absl/log/log_sink_registry.h"
#include "mpact/sim/decoder/bin_format_visitor.h"

using namespace bf;

namespace {

std::vector<Desc> descs;
struct Family {
  std::string name;
  size_t from, to;
};
std::vector<Family> families;
std::vector<uint64_t> all8;

Format F8() {
  Format f;
  f.name = "F";
  f.width = 8;
  f.fields = {{"p", 2}, {"q", 2}, {"r", 2}, {"s", 2}};
  return f;
}
Desc Base(const Format& f) {
  Desc d;
  d.width = f.width;
  d.formats = {f};
  d.groups = {{"G", {}}};
  return d;
}
void Add(Desc d, const std::vector<std::vector<Con>>& encs) {
  int n = 0;
  for (auto& e : encs) {
    d.groups[0].encs.push_back({"i" + std::to_string(n++), 0, e});
  }
  descs.push_back(std::move(d));
}
// All subsets of `menu` of size k.
void Subsets(const Desc& base, const std::vector<std::vector<Con>>& menu,
             int k) {
  std::vector<int> ix(k);
  std::function<void(int, int)> rec = [&](int d, int from) {
    if (d == k) {
      std::vector<std::vector<Con>> e;
      for (int i : ix) e.push_back(menu[i]);
      Add(base, e);
      return;
    }
    for (int i = from; i < static_cast<int>(menu.size()); i++) {
      ix[d] = i;
      rec(d + 1, i + 1);
    }
  };
  rec(0, 0);
}
// Encodings whose equal constraints contradict each other are not judged.
bool Contradictory(const Desc& d) {
  if (d.width > 8) return false;
  for (auto& g : d.groups) {
    for (auto& e : g.encs) {
      Enc eq = e;
      eq.cons.clear();
      for (auto& c : e.cons) {
        if (c.op == kEq && c.rhs.empty()) eq.cons.push_back(c);
      }
      if (eq.cons.size() < 2) continue;
      bool sat = false;
      for (uint64_t w : all8) sat |= d.Match(eq, w);
      if (!sat) return true;
    }
  }
  return false;
}
template <typename Fn>
void Fam(const std::string& name, Fn fn) {
  size_t from = descs.size();
  fn();
  descs.erase(std::remove_if(descs.begin() + from, descs.end(), Contradictory),
              descs.end());
  families.push_back({name, from, descs.size()});
}

// Partial assignments of the fields: every field free or one of `values`.
std::vector<std::vector<Con>> Assignments(const std::vector<std::string>& fs,
                                          const std::vector<uint64_t>& values) {
  std::vector<std::vector<Con>> out;
  std::vector<Con> cur;
  std::function<void(size_t)> rec = [&](size_t i) {
    if (i == fs.size()) {
      if (!cur.empty()) out.push_back(cur);
      return;
    }
    rec(i + 1);
    for (uint64_t v : values) {
      cur.push_back({fs[i], kEq, v});
      rec(i + 1);
      cur.pop_back();
    }
  };
  rec(0);
  return out;
}

std::vector<Overlay> Overlays() {
  using P = Part;
  std::vector<Overlay> o;
  auto fld = [](const char* f) { return P{P::kField, f}; };
  auto bits = [](const char* f, int hi, int lo) {
    return P{P::kFieldBits, f, hi, lo};
  };
  auto fmt = [](int hi, int lo) { return P{P::kFormatBits, "", hi, lo}; };
  auto cst = [](const char* b) {
    P p{P::kConst, ""};
    p.bits = b;
    return p;
  };
  auto add = [&](std::vector<P> ps) {
    int w = 0;
    Format f = F8();
    for (auto& p : ps) {
      int lo, pw;
      if (p.kind == P::kConst) {
        w += p.bits.size();
      } else {
        f.Where(p, &lo, &pw);
        w += pw;
      }
    }
    o.push_back({"ov", w, false, std::move(ps)});
  };
  add({fld("q")});
  add({fld("r"), fld("q")});
  add({bits("q", 0, 0), bits("p", 1, 1)});
  add({bits("q", 1, 0), bits("s", 0, 0)});
  add({fmt(5, 3)});
  add({fmt(0, 0), fmt(4, 3)});
  add({fmt(7, 6), fld("r")});
  add({fld("q"), cst("0")});
  add({cst("1"), fld("q")});
  add({cst("0"), bits("r", 1, 1), cst("10")});
  add({bits("s", 0, 0), cst("00"), bits("q", 1, 1)});
  add({fld("p"), fld("q"), fld("r"), fld("s")});
  return o;
}

void Enumerate(bool thorough) {
  for (int w = 0; w < 256; w++) all8.push_back(w);
  auto C = [](const char* l, Op o, uint64_t v) { return Con{l, o, v}; };
  auto R = [](const char* l, Op o, const char* r) { return Con{l, o, 0, r}; };

  Fam("equal", [&] {
    auto m3 = Assignments({"p", "q", "r"}, {1, 2});
    Desc b = Base(F8());
    b.family = "equal";
    Subsets(b, m3, 1);
    Subsets(b, m3, 2);
    auto m2 = Assignments({"p", "r"}, thorough ? std::vector<uint64_t>{0, 1, 3}
                                               : std::vector<uint64_t>{0, 3});
    Subsets(b, m2, 3);
    Subsets(b, m2, 4);
    if (thorough) {
      Subsets(b, m3, 3);
      Subsets(b, m2, 5);
    } else {
      Subsets(b, Assignments({"p", "q", "s"}, {2}), 3);
      Subsets(b, Assignments({"p", "q", "r"}, {0, 3}), 3);
    }
  });
  Fam("other", [&] {
    // p selects, another constraint refines.
    std::vector<Con> others = {
        C("q", kNe, 1), C("q", kLt, 2), C("q", kLe, 1),  C("q", kGt, 1),
        C("q", kGe, 2), R("q", kEq, "r"), R("q", kNe, "s"), R("q", kLt, "r"),
        R("q", kGe, "s"), C("q", kEq, 3), C("p", kNe, 0), R("p", kGt, "q")};
    std::vector<std::vector<Con>> menu;
    for (auto& o : others) {
      menu.push_back({o});
      menu.push_back({C("p", kEq, 1), o});
      menu.push_back({o, C("r", kEq, 2)});
      if (thorough) {
        menu.push_back({C("p", kEq, 2), o});
        for (auto& o2 : others) {
          if (&o2 > &o) menu.push_back({C("s", kEq, 1), o, o2});
        }
      }
    }
    Desc b = Base(F8());
    b.family = "other";
    Subsets(b, menu, 1);
    Subsets(b, menu, 2);
    // Three constraints in one encoding.
    for (size_t i = 0; i < others.size(); i++) {
      for (size_t j = i + 1; j < others.size(); j++) {
        Add(b, {{C("s", kEq, 1), others[i], others[j]}, {C("s", kEq, 2)}});
        Add(b, {{others[i], others[j]}});
      }
    }
  });
  Fam("overlay", [&] {
    for (auto& o : Overlays()) {
      for (int sg = 0; sg < 2; sg++) {
        Format f = F8();
        f.overlays = {o};
        f.overlays[0].is_signed = sg;
        uint64_t max = Ones(sg ? o.width - 1 : o.width);
        std::set<uint64_t> values = {0, 1, 2, 5, max / 2, max};
        Desc b = Base(f);
        b.family = "overlay";
        std::vector<Con> cons;
        for (uint64_t v : values) {
          if (v > max) continue;
          for (Op op : {kEq, kNe, kLt, kLe, kGt, kGe}) {
            if (sg && op > kNe) continue;
            cons.push_back({"ov", op, v});
          }
        }
        if (!sg) {
          cons.push_back(R("ov", kNe, "s"));
          cons.push_back(R("s", kLt, "ov"));
          cons.push_back(R("ov", kEq, "r"));
        }
        for (auto& c : cons) {
          Add(b, {{c}});
          Add(b, {{c, C("p", kEq, 1)}, {C("p", kEq, 2)}});
          Add(b, {{C("s", kEq, 1), c}, {C("s", kEq, 1), C("q", kEq, 2)}});
          if (thorough) {
            Add(b, {{C("p", kEq, 0), c}, {C("p", kEq, 0), C("ov", kEq, max)},
                    {C("p", kEq, 3), C("r", kNe, 0)}});
          }
        }
        // Overlays as selectors of several encodings.
        Add(b, {{C("ov", kEq, 0)}, {C("ov", kEq, max)}, {C("ov", kEq, 1)}});
        Add(b, {{C("ov", kEq, 0), C("s", kEq, 1)},
                {C("ov", kEq, max), C("s", kEq, 1)},
                {C("ov", kEq, 0), C("s", kEq, 3)},
                {C("ov", kEq, 1), C("s", kEq, 3), C("q", kNe, 2)}});
      }
    }
  });
  // F8 with overlays: o2 without constant bits, k3 and k4 with.
  auto f8_overlays = [] {
    Format f = F8();
    f.overlays.push_back(
        {"o2", 2, false,
         {{Part::kFieldBits, "r", 0, 0}, {Part::kFieldBits, "s", 1, 1}}});
    f.overlays.push_back(
        {"k3", 3, false, {{Part::kField, "r"}, {Part::kConst, "", 0, 0, "1"}}});
    f.overlays.push_back(
        {"k4", 4, false,
         {{Part::kConst, "", 0, 0, "10"}, {Part::kField, "q"}}});
    return f;
  };
  Fam("specialize", [&] {
    std::vector<std::vector<Con>> parents = {
        {C("p", kEq, 1)},
        {C("p", kEq, 1), C("q", kNe, 0)},
        {C("p", kEq, 1), C("q", kEq, 2)},
        {C("q", kLt, 2)}};
    std::vector<std::vector<Con>> specs = {
        {C("r", kEq, 1)},         {C("r", kNe, 1)},
        {C("r", kGt, 1)},         {R("r", kEq, "s")},
        {C("r", kEq, 2), C("s", kEq, 3)}, {C("s", kEq, 3), C("r", kNe, 0)},
        {C("q", kEq, 1)}, {C("p", kEq, 1), C("s", kEq, 0)}};
    // Every kind of constraint on an overlay, alone and next to another.
    std::vector<Con> ov = {C("k3", kEq, 5), C("o2", kEq, 1), C("k3", kNe, 3),
                           C("o2", kNe, 2), C("k3", kGe, 4),
                           R("k3", kNe, "k4")};
    size_t plain_specs = specs.size();
    for (auto& c : ov) {
      specs.push_back({c});
      specs.push_back({C("s", kEq, 3), c});
      specs.push_back({c, C("s", kNe, 1)});
      parents.push_back({C("p", kEq, 1), c});
    }
    size_t plain_parents = 4;
    std::vector<std::vector<Con>> others = {
        {}, {C("p", kEq, 2)}, {C("p", kEq, 1), C("q", kEq, 0)},
        {C("p", kEq, 2), C("r", kNe, 3)}};
    for (size_t pi = 0; pi < parents.size(); pi++) {
      auto& par = parents[pi];
      for (size_t i = 0; i < specs.size(); i++) {
        for (size_t j = i; j < specs.size(); j++) {
          if (!thorough && pi >= plain_parents && j != i) continue;
          if (!thorough && pi >= 2 && j >= plain_specs && j != i) continue;
          for (auto& o : others) {
            for (int second = 0; second < (thorough && !o.empty() ? 2 : 1);
                 second++) {
              Desc d = Base(f8_overlays());
              d.family = "specialize";
              auto& e = d.groups[0].encs;
              e.push_back({"i0", 0, par});
              if (!o.empty()) e.push_back({"i1", 0, o});
              e.push_back({"i2", 0, specs[i], second});
              if (j != i) e.push_back({"i3", 0, specs[j], 0});
              descs.push_back(d);
            }
          }
        }
      }
    }
  });
  Fam("formats", [&] {
    // Derived formats, several groups, merged groups, GENERATE.
    Format a = f8_overlays(), h;
    h.name = "H";
    h.width = 8;
    h.parent = "F";
    h.fields = {{"p", 2}, {"x", 3, true}, {"y", 3}};
    h.overlays = {
        {"ko", 4, false, {{Part::kConst, "", 0, 0, "1"}, {Part::kField, "y"}}}};
    std::vector<std::vector<Con>> ca = {
        {C("p", kEq, 1)}, {C("p", kEq, 2), C("q", kNe, 1)},
        {C("r", kEq, 3)}, {C("q", kEq, 0), C("s", kEq, 1)},
        {C("p", kEq, 1), C("k3", kEq, 5)}, {C("k4", kEq, 10), C("s", kEq, 2)},
        {C("p", kEq, 1), C("k3", kNe, 3)}, {C("p", kEq, 1), C("o2", kEq, 1)},
        {C("p", kEq, 1), C("o2", kLt, 2)}, {C("p", kEq, 1), R("r", kEq, "s")},
        {C("p", kEq, 1), R("k3", kGt, "q")}};
    std::vector<std::vector<Con>> ch = {
        {C("p", kEq, 1), C("y", kEq, 5)}, {C("p", kEq, 3), C("x", kNe, 1)},
        {C("x", kEq, 2), C("y", kGe, 4)}, {C("y", kEq, 6)},
        {C("p", kEq, 2), C("ko", kEq, 13)}, {C("p", kEq, 2), C("ko", kLt, 11)},
        {C("p", kEq, 2), R("ko", kNe, "y")}};
    for (auto& x : ca) {
      for (auto& y : ch) {
        for (int mode = 0; mode < 3; mode++) {
          Desc d = Base(a);
          d.family = "formats";
          d.formats.push_back(h);
          if (mode == 0) {
            d.groups[0].encs = {{"i0", 0, x}, {"i1", 1, y}};
          } else {
            d.groups[0].encs = {{"i0", 0, x}};
            d.groups.push_back({"K", {{"i1", 1, y}}});
            d.merged = mode == 2;
          }
          descs.push_back(d);
          if (mode == 2) {
            d.groups[0].encs.push_back({"i2", 0, {C("s", kEq, 2)}, 0});
            descs.push_back(d);
          }
        }
      }
    }
    // Formats that use the same names for different bits.
    Format j = h;
    j.name = "J";
    j.fields = {{"p", 2}, {"y", 3}, {"x", 3}};
    j.overlays.clear();
    h.overlays.clear();
    auto ov = [](Format& f, const char* name, std::vector<Part> parts, int w) {
      f.overlays.push_back({name, w, false, parts});
    };
    for (auto* f : {&h, &j}) {
      ov(*f, "o", {{Part::kField, "x"}, {Part::kFieldBits, "y", 1, 0}}, 5);
      ov(*f, "k", {{Part::kField, "y"}, {Part::kConst, "", 0, 0, "1"}}, 4);
    }
    std::vector<Con> cs = {C("x", kNe, 1),  C("y", kGt, 3), C("o", kLt, 9),
                           C("o", kEq, 21), C("k", kEq, 9), C("k", kNe, 5),
                           C("y", kEq, 2)};
    for (auto& x : cs) {
      for (auto& y : cs) {
        for (int v = 0; v < 3; v++) {
          Desc d = Base(a);
          d.family = "formats";
          if (x.lhs == "x" && v == 2) continue;
          Format h2 = h, j2 = j;
          h2.fields[1].is_signed = j2.fields[2].is_signed = false;
          d.formats.push_back(h2);
          d.formats.push_back(j2);
          std::vector<Con> c1 = {C("p", kEq, 1), x}, c2 = {C("p", kEq, 1), y};
          if (v == 1) c2[0].value = 2;
          if (v == 2) c1.erase(c1.begin()), c2.erase(c2.begin());
          d.groups[0].encs = {{"i0", 1, c1}, {"i1", 2, c2}};
          descs.push_back(d);
        }
      }
    }
    // GENERATE: [n, v] over tuples, and the product of two ranges.
    for (int k = 1; k <= 4; k++) {
      Desc d = Base(a);
      d.family = "formats";
      std::string t;
      for (int i = 0; i < k; i++) {
        d.groups[0].encs.push_back(
            {"i" + std::to_string(i), 0, {C("p", kEq, i), C("r", kNe, 1)}});
        t += std::string(i ? ", " : "") + "{" + std::to_string(i) + ", " +
             std::to_string(i) + "}";
      }
      d.extra = "  GENERATE([n, v] = [" + t +
                "]) { i$(n) : F : p == $(v), r != 1; };\n";
      descs.push_back(d);
      if (k > 3) continue;
      Desc d2 = Base(a);
      d2.family = "formats";
      std::string t2;
      for (int i = 0; i < k; i++) {
        t2 += std::string(i ? ", " : "") + std::to_string(i);
      }
      // Name i$(a)$(b) would need two digits: the second range has one value.
      for (int i = 0; i < k; i++) {
        d2.groups[0].encs.push_back({"i" + std::to_string(i), 0,
                                     {C("p", kEq, i), C("q", kEq, 2)}});
      }
      d2.extra = "  GENERATE(a = [" + t2 +
                 "], b = [q]) { i$(a) : F : p == $(a), $(b) == 2; };\n";
      descs.push_back(d2);
    }
  });
  Fam("tree", [&] {
    // Opcodes with sub-opcodes: for two values of p, each of these menus.
    using V = std::vector<std::vector<Con>>;
    auto q = [&](uint64_t v) { return C("q", kEq, v); };
    auto r = [&](uint64_t v) { return C("r", kEq, v); };
    auto s = [&](uint64_t v) { return C("s", kEq, v); };
    std::vector<V> menu = {
        {{}},
        {{q(0)}, {q(1)}, {q(2)}},
        {{q(0), r(0)}, {q(1), r(1)}, {q(2), r(2)}},
        {{s(1)}, {s(2)}, {s(3), q(1)}},
        {{q(0), r(0), s(0)}, {q(3), r(3), s(3)}, {q(1), r(2), C("s", kNe, 3)}},
        {{q(0), r(0)}, {q(0), r(1)}, {q(0), r(2)}, {q(1)}},
        {{q(0), r(0)}, {q(0), r(1)}, {q(0), r(2), s(0)}, {q(0), r(2), s(1)},
         {q(3)}},
        {{q(1), r(0), s(0)}, {q(1), r(0), s(3)}, {q(1), r(3), s(0)},
         {q(2), r(0), s(1)}, {q(2), r(1), s(2)}},
        {{q(1), s(0)}, {q(1), s(1)}, {q(1), s(2)}, {q(2), r(0)}, {q(2), r(3)}},
        {{q(0), C("r", kGt, 1)}, {q(0), C("r", kLt, 2), s(1)},
         {q(1), C("r", kNe, 2)}, {q(3), r(1), s(2)}},
    };
    for (uint64_t p2 : {1, 2, 3}) {
      for (auto& x : menu) {
        for (auto& y : menu) {
          Desc b = Base(F8());
          b.family = "tree";
          V e;
          for (auto& c : x) {
            e.push_back(c);
            e.back().insert(e.back().begin(), C("p", kEq, 0));
          }
          for (auto& c : y) {
            e.push_back(c);
            e.back().insert(e.back().begin(), C("p", kEq, p2));
          }
          Add(b, e);
        }
      }
    }
  });
  Fam("wide", [&] {
    for (int width : {12, 16, 24, 32, 33, 48, 64}) {
      for (int fw : {4, 8, 9, 15, 16, 17, 31, 32, 33, 40, 47, 60, 63}) {
        if (fw >= width) continue;
        for (int pos = 0; pos < 3; pos++) {
          // The wide field is last, first or in the middle.
          int rest = width - fw;
          Format f;
          f.name = "F";
          f.width = width;
          if (pos == 0) {
            f.fields = {{"op", std::min(rest, 4)}, {"x", fw}};
            if (rest > 4) f.fields.insert(f.fields.begin() + 1, {"pad", rest - 4});
          } else if (pos == 1) {
            f.fields = {{"x", fw}, {"op", std::min(rest, 4)}};
            if (rest > 4) f.fields.push_back({"pad", rest - 4});
          } else {
            if (rest < 2) continue;
            f.fields = {{"op", rest / 2 > 4 ? 4 : rest / 2}, {"x", fw}};
            int left = rest - f.fields[0].width;
            f.fields.push_back({"pad", left});
          }
          f.overlays = {{"ov", fw, false, {{Part::kField, "x"}}}};
          std::set<uint64_t> vs = {0, 1, 5, Ones(std::min(fw, 31)),
                                   1ULL << std::min(fw - 1, 30)};
          for (uint64_t v : vs) {
            for (int k = 0; k < (thorough ? 8 : 5); k++) {
              const char* l = k == 1 || k == 3 || k == 6 ? "ov" : "x";
              Op op = k == 0 || k == 1 ? kEq
                      : k == 2 || k == 3 ? kNe
                      : k == 4           ? kGt
                      : k == 5           ? kLe
                      : k == 6           ? kGe
                                         : kLt;
              Desc b = Base(f);
              b.family = "wide";
              Add(b, {{C("op", kEq, 1), C(l, op, v)}, {C("op", kEq, 0)}});
              if (thorough) Add(b, {{C(l, op, v)}});
            }
          }
        }
      }
    }
  });
}

gen::Produced Produce(size_t i, const std::string& dir) {
  const Desc& d = descs[i];
  std::string n = std::to_string(i), ns = "g" + n;
  std::string in = dir + "/in.bin_fmt";
  {
    std::ofstream f(in);
    f << d.Text(ns);
  }
  gen::Produced p;
  {
    mpact::sim::decoder::bin_format::BinFormatVisitor v;
    auto st = v.Process({in}, "D", ns, {}, dir);
    if (!st.ok()) {
      p.error = std::string(st.message());
      return p;
    }
  }
  p.ok = true;
  for (const char* s : {"_bin_types.h", "_bin_decoder.h", "_bin_decoder.cc",
                        "_bin_encoder.h", "_bin_encoder.cc"}) {
    std::string path = dir + "/" + ns + s;
    p.code += gen::Slurp(path) + "\n";
    unlink(path.c_str());
  }
  std::string fe;
  for (size_t k = 0; k < d.formats.size(); k++) {
    fe += "if (f == g::FormatEnum::k" + d.formats[k].name + ") return " +
          std::to_string(k) + ";\n";
  }
  std::string calls;
  for (size_t g = 0; g < d.groups.size(); g++) {
    std::string name = d.merged ? "M" + d.groups[0].name : d.groups[g].name;
    calls += "  if (b == " + std::to_string(g) + ") {\n";
    calls += "    if (op == 0) return (uint64_t)g::Decode" + name + "(a);\n";
    calls += "    if (op == 1) { auto pr = g::Decode" + name +
             "WithFormat(a); return (uint64_t)pr.first * 16 + "
             "fmt(pr.second); }\n  }\n";
    if (d.merged) break;
  }
  p.code += "namespace x" + n + " {\nnamespace g = ::" + ns +
            ";\ninline int fmt(g::FormatEnum f) {\n" + fe +
            "return f == g::FormatEnum::kNone ? 9 : 8;\n}\n}\n"
            "extern \"C\" uint64_t vf_" + n +
            "(int op, uint64_t a, uint64_t b) {\n  using namespace x" + n +
            ";\n" + calls +
            "  if (op == 2) { auto it = g::kOpcodeEncodings->find("
            "(::vf::OpcodeEnum)b); if (it == g::kOpcodeEncodings->end()) "
            "return ~0ULL; return a ? std::get<1>(it->second) : "
            "std::get<0>(it->second); }\n  return 0;\n}\n";
  return p;
}

// The words on which a description is judged: all of them up to 8 bits, else
// all combinations of the fields' interesting values.
std::vector<uint64_t> Words(const Desc& d) {
  if (d.width <= 8) return all8;
  const Format& f = d.formats[0];
  std::vector<uint64_t> w = {0};
  for (auto& fl : f.fields) {
    std::set<uint64_t> vals = {0, 1, 2, Ones(fl.width), Ones(fl.width) >> 1,
                               1ULL << (fl.width - 1)};
    if (fl.name == "pad") vals = {0, Ones(fl.width)};
    for (auto& e : d.groups[0].encs) {
      for (auto& c : e.cons) {
        bool of = c.lhs == fl.name || (c.lhs == "ov" && fl.name == "x");
        if (!of) continue;
        for (uint64_t v : std::initializer_list<uint64_t>{c.value, c.value + 1, c.value - 1,
                           c.value | (1ULL << (fl.width - 1)),
                           c.value ^ 1}) {
          if (v <= Ones(fl.width)) vals.insert(v);
        }
        if (fl.width > 32) vals.insert(c.value | (1ULL << 32));
        if (fl.width > 31) vals.insert((c.value | (1ULL << 31)) & Ones(fl.width));
      }
    }
    std::vector<uint64_t> next;
    for (uint64_t x : w) {
      for (uint64_t v : vals) next.push_back(x | ((v & Ones(fl.width)) << f.Low(fl)));
    }
    w = next;
  }
  return w;
}

void Judge(mc::Ctx& c, size_t i) {
  const Desc& d = descs[i];
  const auto& it = gen::Get(i);
  c.op("description %zu\n%s", i, d.Text("g" + std::to_string(i)).c_str());
  auto words = Words(d);
  // Per group: which encodings does each word match?
  struct Ref {
    int enc, group;
  };
  bool ambiguous = false;
  auto candidates = [&](size_t g, uint64_t w, std::vector<Ref>* out) {
    int matches = 0;
    size_t lo = d.merged ? 0 : g, hi = d.merged ? d.groups.size() : g + 1;
    for (size_t k = lo; k < hi; k++) {
      auto& encs = d.groups[k].encs;
      for (size_t e = 0; e < encs.size(); e++) {
        if (encs[e].parent >= 0 || !d.Match(encs[e], w)) continue;
        matches++;
        bool special = false;
        for (size_t s = 0; s < encs.size(); s++) {
          if (encs[s].parent != static_cast<int>(e)) continue;
          if (!d.Match(encs[s], w)) continue;
          special = true;
          out->push_back({static_cast<int>(s), static_cast<int>(k)});
        }
        if (!special) out->push_back({static_cast<int>(e), static_cast<int>(k)});
      }
    }
    return matches;
  };
  size_t ng = d.merged ? 1 : d.groups.size();
  if (it.status == gen::kRejected) {
    for (size_t g = 0; g < ng; g++) {
      for (uint64_t w : words) {
        std::vector<Ref> r;
        if (candidates(g, w, &r) > 1) ambiguous = true;
      }
    }
    c.outcome("rejected");
    c.check(ambiguous, "the generator refused a valid description: %s",
            it.text.c_str());
    return;
  }
  c.check(it.status != gen::kCrashed, "the generator crashed:%s",
          it.text.c_str());
  c.check(it.status != gen::kNoCompile,
          "the generated code does not compile:%s", it.text.c_str());
  c.check(it.fn != nullptr, "no generated code");
  for (size_t g = 0; g < ng; g++) {
    for (uint64_t w : words) {
      std::vector<Ref> r;
      candidates(g, w, &r);
      uint64_t op = it.fn(0, w, g), of = it.fn(1, w, g);
      bool ok;
      if (r.empty()) {
        ok = op == 0 && of == 9;
      } else {
        ok = false;
        for (auto& x : r) {
          auto& e = d.groups[x.group].encs[x.enc];
          uint64_t num = 1 + (e.name[1] - '0');
          // The parent's format for specializations.
          if (op == num && of == num * 16 + e.format) ok = true;
        }
      }
      if (!ok) {
        std::string want;
        for (auto& x : r) want += " " + d.groups[x.group].encs[x.enc].name;
        c.fail("group %zu: word 0x%llx decodes to opcode %lld / %lld, "
               "format %lld; the constraints hold for:%s",
               g, (unsigned long long)w, (long long)op - 1,
               (long long)(of / 16) - 1, (long long)(of % 16),
               want.empty() ? " none" : want.c_str());
      }
      if (!r.empty()) c.outcome("match");
    }
  }
  c.bulk(words.size() * ng);
  // The encoder's table: the bits required by equal constraints, else zero.
  for (auto& g : d.groups) {
    for (auto& e : g.encs) {
      if (e.parent >= 0) continue;
      const Format& f = d.formats[e.format];
      bool judged = true;
      uint64_t want = 0;
      for (auto& con : e.cons) {
        if (con.op != kEq || !con.rhs.empty()) continue;
        if (auto* fl = f.FindField(con.lhs)) {
          want |= con.value << f.Low(*fl);
        } else {
          auto* o = f.FindOverlay(con.lhs);
          int at = o->width;
          for (auto& p : o->parts) {
            if (p.kind == Part::kConst) {
              judged = false;  // bits that are not in the word
              continue;
            }
            int lo, w;
            f.Where(p, &lo, &w);
            at -= w;
            want |= ((con.value >> at) & Ones(w)) << lo;
          }
        }
      }
      if (!judged) continue;
      uint64_t n = 1 + (e.name[1] - '0');
      c.check(it.fn(2, 0, n) == want && it.fn(2, 1, n) == (uint64_t)d.width,
              "encoder table of %s: 0x%llx (%lld bits), expected 0x%llx",
              e.name.c_str(), (unsigned long long)it.fn(2, 0, n),
              (long long)it.fn(2, 1, n), (unsigned long long)want);
    }
  }
  c.state(mc::S("%zu", i));
}

}  // namespace

int main(int argc, char** argv) {
  Enumerate(gen::Thorough(argc, argv));
  int rc = 0;
  if (gen::Handle(argc, argv, descs.size(), Produce, &rc)) return rc;
  std::vector<mc::Scenario> sc;
  static std::vector<std::string> names;
  names.reserve(families.size());
  for (auto& f : families) {
    names.push_back(f.name);
    sc.push_back({names.back().c_str(), [&f](mc::Ctx& c) {
      size_t n = f.to - f.from;
      size_t rows = (n + 63) / 64;
      size_t r = c.choose(rows);
      size_t k = c.choose(std::min<size_t>(64, n - r * 64));
      Judge(c, f.from + r * 64 + k);
    }, 1});
  }
  return mc::Main(argc, argv, "C27", sc,
                  "8-bit words: all words; sets of 1-4 encodings over 2-bit "
                  "fields, all comparison operators, field-field comparisons, "
                  "12 overlay shapes (signed and not), specializations, derived "
                  "formats, merged groups, GENERATE; 12- to 64-bit words: "
                  "boundary values of every field",
                  {"several matching encodings: any of them may be chosen",
                   "equal constraints of an encoding that contradict each "
                   "other are not judged",
                   "descriptions with overlapping encodings may be refused"});
}
