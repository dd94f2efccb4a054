// C28: the accessors that the generator emits for instruction formats.
#include <unistd.h>

#include <algorithm>
#include <fstream>
#include <functional>
#include <set>

#include "binfmt.h"
#include "gen.h"
#include "mc.h"
#include "mpact/sim/decoder/bin_format_visitor.h"

namespace {
using namespace bf;
using Bits = std::vector<uint8_t>;  // bit 0 first

struct Args {  // passed to the generated code
  uint8_t word[64];  // little endian value, or the byte vector (big endian)
  uint8_t value[16];
  uint8_t result[64];
  int index;
};

// An accessor of formats[fmt]: field, nested format or overlay.
struct Acc {
  int fmt;
  std::string name;
  bool is_overlay = false;
  int width = 0;
  bool is_signed = false;
  int size = 1;
  // Position in the word of each bit of the value (-1: zero, -2: one), for
  // instance 0.
  std::vector<int> at;
  bool invertible = true;
  bool absent = false;  // derived formats disagree: not in the base format
};
struct Item {
  std::string family;
  std::vector<Format> formats;
  std::vector<Acc> accs;
};
std::vector<Item> items;
struct Family {
  std::string name;
  size_t from, to;
};
std::vector<Family> families;

std::string Pascal(const std::string& s) {
  std::string o;
  bool up = true;
  for (char c : s) {
    if (c == '_') {
      up = true;
      continue;
    }
    o += up ? toupper(c) : c;
    up = false;
  }
  return o;
}
std::string Lower(std::string s) {
  for (auto& c : s) c = tolower(c);
  return s;
}

Acc FieldAcc(int fmt, const Format& f, const Field& fl) {
  Acc a;
  a.fmt = fmt;
  a.name = fl.name;
  a.width = fl.width;
  a.is_signed = fl.is_signed && fl.format.empty();
  a.size = fl.size;
  int low = f.Low(fl) + (fl.size - 1) * fl.width;
  for (int i = 0; i < fl.width; i++) a.at.push_back(low + i);
  return a;
}
Acc OverlayAcc(int fmt, const Format& f, const Overlay& o) {
  Acc a;
  a.fmt = fmt;
  a.name = o.name;
  a.is_overlay = true;
  a.width = o.width;
  a.is_signed = o.is_signed;
  std::vector<int> msb;  // msb first
  for (auto& p : o.parts) {
    if (p.kind == Part::kConst) {
      for (char c : p.bits) msb.push_back(c == '1' ? -2 : -1);
      continue;
    }
    int lo, w;
    f.Where(p, &lo, &w);
    for (int i = w - 1; i >= 0; i--) msb.push_back(lo + i);
  }
  a.at.assign(msb.rbegin(), msb.rend());
  std::set<int> seen;
  for (int x : a.at) {
    if (x >= 0 && !seen.insert(x).second) a.invertible = false;
  }
  return a;
}
void Add(const std::string& family, std::vector<Format> fs) {
  Item it;
  it.family = family;
  // Something to compare for words without a field that can be compared.
  bool plain = false;
  for (auto& fl : fs[0].fields) plain |= fl.format.empty() && fl.width < 64;
  if (!plain) {
    fs[0].overlays.push_back(
        {"ev", 1, false, {{Part::kFormatBits, "", 0, 0}}});
  }
  for (size_t k = 0; k < fs.size(); k++) {
    for (auto& fl : fs[k].fields) it.accs.push_back(FieldAcc(k, fs[k], fl));
    for (auto& o : fs[k].overlays) it.accs.push_back(OverlayAcc(k, fs[k], o));
  }
  it.formats = std::move(fs);
  items.push_back(std::move(it));
}
template <typename Fn>
void Fam(const char* name, Fn fn) {
  size_t from = items.size();
  fn();
  families.push_back({name, from, items.size()});
}
Format Fmt(int width, const std::vector<int>& parts, int signs) {
  Format f;
  f.name = "F";
  f.width = width;
  for (size_t i = 0; i < parts.size(); i++) {
    f.fields.push_back({"f" + std::to_string(i), parts[i],
                        ((signs >> i) & 1) != 0});
  }
  return f;
}

void Enumerate(bool thorough) {
  Fam("fields", [&] {
    // Every way of splitting a word of up to 7 (8) bits into fields.
    for (int w = 1; w <= (thorough ? 8 : 7); w++) {
      for (int cut = 0; cut < (1 << (w - 1)); cut++) {
        std::vector<int> parts = {1};
        for (int b = 0; b < w - 1; b++) {
          if ((cut >> b) & 1) {
            parts.push_back(1);
          } else {
            parts.back()++;
          }
        }
        for (int s : {0, -1, 0x55}) {
          if (s == 0x55 && parts.size() < 2) continue;
          Add("fields", {Fmt(w, parts, s)});
        }
      }
    }
  });
  Fam("wide_fields", [&] {
    for (int w : {8, 9, 12, 15, 16, 17, 24, 31, 32, 33, 40, 47, 48, 63, 64}) {
      for (int a : {0, 1, 7, 8, 9, 15, 16, 17, 30, 31, 32, 33, 47, 62}) {
        for (int b : {1, 2, 7, 8, 9, 15, 16, 17, 31, 32, 33, 40, 63, 64}) {
          if (a + b > w) continue;
          std::vector<int> parts;
          if (a) parts.push_back(a);
          parts.push_back(b);
          if (w - a - b) parts.push_back(w - a - b);
          for (int s : {0, -1}) Add("wide_fields", {Fmt(w, parts, s)});
        }
      }
    }
  });
  Fam("overlays", [&] {
    std::vector<Part> menu = {
        {Part::kField, "f0"},         {Part::kField, "f1"},
        {Part::kField, "f2"},         {Part::kFieldBits, "f0", 1, 0},
        {Part::kFieldBits, "f1", 2, 2}, {Part::kFieldBits, "f1", 1, 0},
        {Part::kFormatBits, "", 7, 6}, {Part::kFormatBits, "", 3, 2},
        {Part::kFormatBits, "", 0, 0}, {Part::kConst, "", 0, 0, "0"},
        {Part::kConst, "", 0, 0, "1"}, {Part::kConst, "", 0, 0, "01"}};
    Format base = Fmt(8, {3, 3, 2}, 0);
    std::vector<Part> cur;
    int n = 0;
    Format f = base;
    auto flush = [&] {
      if (!n) return;
      Add("overlays", {f});
      f = base;
      n = 0;
    };
    std::function<void(int)> rec = [&](int left) {
      if (!cur.empty()) {
        Overlay o;
        o.name = "o" + std::to_string(n++);
        o.parts = cur;
        o.is_signed = false;
        o.width = 0;
        for (auto& p : cur) {
          int lo, w = p.bits.size();
          if (p.kind != Part::kConst) base.Where(p, &lo, &w);
          o.width += w;
        }
        f.overlays.push_back(o);
        o.name = "s" + o.name;
        o.is_signed = true;
        f.overlays.push_back(o);
        if (n == 8) flush();
      }
      if (!left) return;
      for (auto& p : menu) {
        cur.push_back(p);
        rec(left - 1);
        cur.pop_back();
      }
    };
    rec(thorough ? 4 : 3);
    flush();
  });
  Fam("wide_overlays", [&] {
    // Two parts of the word, swapped, with constants before, between, after.
    for (int w : {16, 24, 32, 33, 48, 64}) {
      for (int a : {1, 5, 8, 15, 16, 17, 31, 32, 40, 63}) {
        if (a >= w) continue;
        Format f = Fmt(w, {a, w - a}, 0);
        int n = 0;
        for (int c = 0; c < 8; c++) {
          for (bool sg : {false, true}) {
            for (int cw : {1, 4, 9}) {
              Overlay o;
              o.name = "o" + std::to_string(n++);
              o.is_signed = sg;
              std::string bits = std::string("101101110").substr(0, cw);
              if (c & 1) o.parts.push_back({Part::kConst, "", 0, 0, bits});
              o.parts.push_back({Part::kField, "f1"});
              if (c & 2) o.parts.push_back({Part::kConst, "", 0, 0, bits});
              o.parts.push_back({Part::kFormatBits, "", w - 1, w - a});
              if (c & 4) o.parts.push_back({Part::kConst, "", 0, 0, bits});
              o.width = w + cw * ((c & 1) + ((c >> 1) & 1) + (c >> 2));
              if (o.width > 64) continue;
              f.overlays.push_back(o);
            }
          }
        }
        Add("wide_overlays", {f});
      }
    }
  });
  Fam("nested", [&] {
    for (int w : {8, 12, 16, 24, 32, 40, 64}) {
      for (int sw : {1, 3, 4, 7, 8, 9, 16, 20, 31, 32, 64}) {
        for (int size : {1, 2, 3, 4, 8}) {
          for (int before : {0, 1, 5, 8}) {
            int after = w - before - sw * size;
            if (after < 0) continue;
            Format s = Fmt(sw, {sw}, 0), f;
            s.name = "S";
            f.name = "F";
            f.width = w;
            if (before) f.fields.push_back({"a", before});
            f.fields.push_back({"n", sw, false, "S", size});
            if (after) f.fields.push_back({"b", after});
            Add("nested", {f, s});
          }
        }
      }
    }
  });
  Fam("huge", [&] {
    // Words of several instructions: wider than 64 bits, or than 128 bits,
    // when they are kept in a byte vector.
    for (int w : {65, 72, 96, 127, 128, 129, 136, 160, 200, 256}) {
      for (int a : {0, 1, 7, 8, 13, 31, 64}) {
        for (int sw : {1, 8, 13, 31, 32, 33, 64}) {
          if (!thorough && (sw == 31 || sw == 8)) continue;
          for (int size : {1, 2, 3}) {
            int after = w - a - sw * size;
            if (after < 0) continue;
            for (int sg : {0, 1}) {
              Format s = Fmt(sw, {sw}, 0), f;
              s.name = "S";
              f.name = "F";
              f.width = w;
              if (a) f.fields.push_back({"a", a, sg == 0});
              f.fields.push_back({"n", sw, false, "S", size});
              const int cut[] = {5, 64, 17, 64, 64, 64};
              int left = after;
              for (int k = 0; left > 0; left -= cut[k++]) {
                f.fields.push_back({"b" + std::to_string(k),
                                    std::min(left, cut[k]), sg == k % 2});
              }
              Add("huge", {s, f});
            }
          }
        }
      }
    }
  });
  Fam("derived", [&] {
    // Fields and overlays of derived formats are also accessors of the base
    // format if all derived formats agree on their bits.
    std::vector<std::vector<int>> splits = {{2, 3, 3}, {2, 2, 4}, {4, 4},
                                            {3, 3, 2}, {2, 6}, {6, 2}};
    for (auto& x : splits) {
      for (auto& y : splits) {
        for (int ov = 0; ov < 5; ov++) {
          Format b = Fmt(8, {8}, 0), h = Fmt(8, x, ov == 3 ? 2 : 0), j = Fmt(8, y, 0);
          b.fields[0].name = "all";
          h.name = "H";
          j.name = "J";
          h.parent = j.parent = "F";
          if (ov == 1 || ov == 2 || ov == 4) {
            Overlay o;
            o.name = "ov";
            o.is_signed = false;
            o.parts = {{Part::kField, "f1"}, {Part::kField, "f0"}};
            o.width = h.fields[0].width + h.fields[1].width;
            h.overlays.push_back(o);
            if (ov != 1) {
              o.is_signed = ov == 4;
              o.width = j.fields[0].width + j.fields[1].width;
              j.overlays.push_back(o);
            }
          }
          Add("derived", {b, h, j});
          Item& it = items.back();
          auto own = it.accs;
          std::set<std::string> done;
          for (auto& a : own) {
            if (a.fmt == 0 || !done.insert(a.name).second) continue;
            bool agree = true;
            for (auto& o : own) {
              if (o.name != a.name) continue;
              if (o.at != a.at || o.is_signed != a.is_signed) agree = false;
            }
            Acc p = a;
            p.fmt = 0;
            p.absent = !agree;
            it.accs.push_back(p);
          }
        }
      }
    }
  });
}

const char* UInt(int w) {
  return w <= 8 ? "uint8_t" : w <= 16 ? "uint16_t" : w <= 32 ? "uint32_t"
         : w <= 64                                           ? "uint64_t"
                                                             : "absl::uint128";
}

gen::Produced Produce(size_t i, const std::string& dir) {
  const Item& d = items[i];
  std::string n = std::to_string(i), ns = "g" + n;
  std::string in = dir + "/in.bin_fmt";
  {
    std::ofstream f(in);
    f << "decoder D {\n  namespace " << ns
      << ";\n  opcode_enum = \"::vf::OpcodeEnum\";\n  G;\n};\n"
      << "instruction group G[" << d.formats[0].width << "] : " << d.formats[0].name
      << " {\n";
    // A format is only used if an encoding refers to it.
    for (size_t k = 0; k < d.formats.size(); k++) {
      auto& f2 = d.formats[k];
      if (k && f2.parent.empty()) continue;
      const Field* fl = &f2.fields[0];
      for (auto& x : f2.fields) {
        if (x.format.empty()) fl = &x;
      }
      f << "  i" << k << " : " << f2.name << " : ";
      if (fl->format.empty() && fl->width < 64) {
        f << fl->name << " == " << k % (1 << std::min(fl->width, 3)) << ";\n";
      } else {
        f << "ev == 0;\n";
      }
    }
    f << "};\n";
    for (auto& f2 : d.formats) f << f2.Text();
  }
  gen::Produced p;
  {
    mpact::sim::decoder::bin_format::BinFormatVisitor v;
    auto st = v.Process({in}, "D", ns, {}, dir);
    if (!st.ok()) {
      p.error = std::string(st.message());
      return p;
    }
  }
  p.ok = true;
  for (const char* s : {"_bin_types.h", "_bin_decoder.h", "_bin_decoder.cc",
                        "_bin_encoder.h", "_bin_encoder.cc"}) {
    std::string path = dir + "/" + ns + s;
    p.code += gen::Slurp(path) + "\n";
    unlink(path.c_str());
  }
  p.code += "extern \"C\" uint64_t vf_" + n +
            "(int op, uint64_t args, uint64_t) {\n"
            "  auto* a = (::vf::Args*)args;\n"
            "  switch (op) {\n";
  for (size_t k = 0; k < d.accs.size(); k++) {
    const Acc& a = d.accs[k];
    const Format& f = d.formats[a.fmt];
    std::string ex = ns + "::" + Lower(f.name) + "::Extract" + Pascal(a.name);
    std::string ex2 = ns + "::Extractors::" + f.name + "::Extract" +
                      Pascal(a.name);
    std::string ins = ns + "::Encoder::" + f.name + "::Insert" + Pascal(a.name);
    if (a.absent) {
      std::string fn = "T::Extract" + Pascal(a.name) + "(0)", k2 = std::to_string(k);
      p.code = "template <typename T> auto Has_" + n + "_" + k2 + "(int) -> decltype(" +
               fn + ", true) { return true; }\ntemplate <typename T> bool Has_" +
               n + "_" + k2 + "(...) { return false; }\n" + p.code + "  case " +
               std::to_string(k * 8) + ": return Has_" + n + "_" + k2 + "<" + ns +
               "::Extractors::" + f.name + ">(0);\n";
      continue;
    }
    bool ptr = f.width > 128;
    std::string word = ptr ? "a->word" : std::string("::vf::Rd<") +
                                            UInt(f.width) + ">(a->word)";
    std::string ix = a.size > 1 ? ", a->index" : "";
    auto kase = [&](int o, const std::string& body) {
      p.code += "  case " + std::to_string(k * 8 + o) + ": " + body +
                " return 0;\n";
    };
    kase(0, "::vf::Wr(a->result, " + ex + "(" + word + ix + "));");
    kase(1, "::vf::Wr(a->result, " + ex2 + "(" + word + ix + "));");
    // The value has the type of the word, or its own for byte vectors.
    std::string value = std::string("::vf::Rd<") + (ptr ? UInt(a.width) : f.width > 64 ? "absl::uint128" : "uint64_t") +
                        ">(a->value)";
    kase(2, ptr ? ins + "(" + (a.size > 1 ? "a->index, " : "") + value +
                      ", a->word);"
                : std::string("::vf::Wr(a->word, (") + UInt(f.width) + ")" + ins +
                      "(" + (a.size > 1 ? "a->index, " : "") + value + ", " +
                      word + "));");
    // Also from a byte vector if the width is not a power of two.
    if (f.width < 128 && (f.width & (f.width - 1)) && !a.is_overlay) {
      kase(3, "::vf::Wr(a->result, " + ex +
                  "((const uint8_t*)a->word" + ix + "));");
    }
  }
  p.code += "  }\n  return 1;\n}\n";
  return p;
}

std::vector<Bits> Patterns(int w) {
  std::vector<Bits> out;
  if (w <= 8) {
    for (int v = 0; v < (1 << w); v++) {
      Bits b(w);
      for (int i = 0; i < w; i++) b[i] = (v >> i) & 1;
      out.push_back(b);
    }
    return out;
  }
  out.push_back(Bits(w, 0));
  out.push_back(Bits(w, 1));
  for (int k : {2, 3, 5, 7}) {
    Bits b(w);
    for (int i = 0; i < w; i++) b[i] = (i / k) & 1;
    out.push_back(b);
    for (auto& x : b) x = !x;
    out.push_back(b);
  }
  uint32_t r = 12345;
  for (int k = 0; k < 4; k++) {
    Bits b(w);
    for (int i = 0; i < w; i++) {
      r = r * 1664525 + 1013904223;
      b[i] = (r >> 24) & 1;
    }
    out.push_back(b);
  }
  for (int i = 0; i < w; i += w > 64 ? 5 : 1) {
    Bits b(w, 0), c(w, 1);
    b[i] = 1;
    c[i] = 0;
    out.push_back(b);
    out.push_back(c);
  }
  return out;
}
void PutWord(const Bits& b, bool bytes, uint8_t* to) {
  memset(to, 0, 64);
  size_t n = (b.size() + 7) / 8;
  for (size_t i = 0; i < b.size(); i++) {
    size_t at = bytes ? n - 1 - i / 8 : i / 8;
    to[at] |= b[i] << (i % 8);
  }
}
Bits GetWord(const uint8_t* from, bool bytes, size_t w) {
  Bits b(w);
  size_t n = (w + 7) / 8;
  for (size_t i = 0; i < w; i++) {
    size_t at = bytes ? n - 1 - i / 8 : i / 8;
    b[i] = (from[at] >> (i % 8)) & 1;
  }
  return b;
}
uint64_t Num(const Bits& b) {
  uint64_t v = 0;
  for (size_t i = 0; i < b.size() && i < 64; i++) v |= (uint64_t)b[i] << i;
  return v;
}
std::string Str(const Bits& b) {
  std::string s;
  for (int i = b.size() - 1; i >= 0; i--) s += b[i] ? '1' : '0';
  return s;
}

void Judge(mc::Ctx& c, size_t i) {
  const Item& d = items[i];
  const auto& it = gen::Get(i);
  std::string text;
  for (auto& f : d.formats) text += f.Text();
  c.op("formats %zu\n%s", i, text.c_str());
  c.check(it.status != gen::kRejected, "the generator refused the formats: %s",
          it.text.c_str());
  c.check(it.status != gen::kCrashed, "the generator crashed:%s",
          it.text.c_str());
  c.check(it.status != gen::kNoCompile,
          "the generated code does not compile:%s", it.text.c_str());
  c.check(it.fn != nullptr, "no generated code");
  Args a;
  uint64_t n = 0;
  std::map<int, std::vector<Bits>> pats;
  for (size_t k = 0; k < d.accs.size(); k++) {
    const Acc& acc = d.accs[k];
    const Format& f = d.formats[acc.fmt];
    if (acc.absent) {
      c.check(it.fn(k * 8, 0, 0) == 0,
              "base format %s has an accessor for %s, which lies elsewhere in "
              "one of the derived formats", f.name.c_str(), acc.name.c_str());
      n++;
      continue;
    }
    bool ptr = f.width > 128;
    if (!pats.count(f.width)) pats[f.width] = Patterns(f.width);
    auto& words = pats[f.width];
    std::string what = f.name + "." + acc.name;
    for (int ix = 0; ix < acc.size; ix++) {
      auto at = acc.at;
      for (auto& x : at) {
        if (x >= 0) x -= ix * acc.width;
      }
      a.index = ix;
      for (auto& w : words) {
        uint64_t want = 0;
        for (size_t b = 0; b < at.size(); b++) {
          uint64_t bit = at[b] >= 0 ? w[at[b]] : at[b] == -2;
          want |= bit << b;
        }
        if (acc.is_signed && ((want >> (acc.width - 1)) & 1)) {
          want |= ~Ones(acc.width);
        }
        for (int op : {0, 1, 3}) {
          if (op == 3 && (ptr || acc.is_overlay || !(f.width & (f.width - 1)))) {
            continue;
          }
          PutWord(w, ptr || op == 3, a.word);
          memset(a.result, 0xee, sizeof a.result);
          c.check(it.fn(k * 8 + op, (uint64_t)&a, 0) == 0, "no accessor");
          uint64_t got;
          memcpy(&got, a.result, 8);
          n++;
          if (got != want) {
            c.fail("extracting %s[%d]%s from %s gives 0x%llx, expected 0x%llx",
                   what.c_str(), ix, op == 3 ? " (bytes)" : op ? " (class)" : "",
                   Str(w).c_str(), (unsigned long long)got,
                   (unsigned long long)want);
          }
        }
      }
      if (!acc.invertible) continue;
      // Insertion: exactly the bits of the accessor change. Values may have
      // bits beyond those of the accessor.
      std::set<uint64_t> values;
      for (auto& v : Patterns(acc.width)) {
        values.insert(Num(v));
        if (!ptr && !acc.is_overlay) values.insert(Num(v) | ~Ones(acc.width));
      }
      std::vector<Bits> on = {words.front(), words.back()};
      if (f.width <= 5) {
        on = words;
      } else {
        on.push_back(words[words.size() / 2 + 1]);
        on.push_back(words[words.size() / 3]);
        on.push_back(words[1]);
        on.push_back(Bits(f.width, 1));
      }
      for (auto& w : on) {
        for (uint64_t v : values) {
          Bits want = w;
          for (size_t b = 0; b < at.size(); b++) {
            if (at[b] >= 0) want[at[b]] = (v >> b) & 1;
          }
          PutWord(w, ptr, a.word);
          memset(a.value, 0, sizeof a.value);
          memcpy(a.value, &v, 8);
          c.check(it.fn(k * 8 + 2, (uint64_t)&a, 0) == 0, "no accessor");
          n++;
          Bits got = GetWord(a.word, ptr, f.width);
          if (got != want) {
            c.fail("inserting 0x%llx as %s[%d] into %s gives %s, expected %s",
                   (unsigned long long)v, what.c_str(), ix, Str(w).c_str(),
                   Str(got).c_str(), Str(want).c_str());
          }
        }
      }
    }
  }
  c.bulk(n);
  c.state(mc::S("%zu", i));
}

}  // namespace

int main(int argc, char** argv) {
  Enumerate(gen::Thorough(argc, argv));
  int rc = 0;
  if (gen::Handle(argc, argv, items.size(), Produce, &rc)) return rc;
  std::vector<mc::Scenario> sc;
  static std::vector<std::string> names;
  names.reserve(families.size());
  for (auto& f : families) {
    names.push_back(f.name);
    sc.push_back({names.back().c_str(), [&f](mc::Ctx& c) {
      size_t n = f.to - f.from;
      size_t rows = (n + 63) / 64;
      size_t r = c.choose(rows);
      size_t k = c.choose(std::min<size_t>(64, n - r * 64));
      Judge(c, f.from + r * 64 + k);
    }, 1});
  }
  return mc::Main(argc, argv, "C28", sc,
                  "all splits of up to 7 (8) bits into fields; fields at "
                  "boundary positions of 8- to 64-bit words;"
                  " overlays of all sequences of up to 3 (4) of "
                  "12 parts, and of up to 64 bits; nested and replicated "
                  "formats; derived formats; words of up to 8 bits: all",
                  {"overlays that use a bit twice are not inserted",
                   "overlays and fields wider than 64 bits, overlays of "
                   "such words, and the packed struct layout are not covered"});
}
