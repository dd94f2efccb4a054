// binfmt.h - instruction format descriptions (.bin_fmt), printed as text and
// interpreted by a reference model.
#ifndef VERIF_BINFMT_H_
#define VERIF_BINFMT_H_
#include <cstdint>
#include <string>
#include <vector>

namespace bf {

inline uint64_t Ones(int w) { return w >= 64 ? ~0ULL : (1ULL << w) - 1; }

struct Field {
  std::string name;
  int width;
  bool is_signed = false;
  // Sub-format: name of the format and number of instances.
  std::string format;
  int size = 1;  // instances; width is that of one of them
};
struct Part {  // of an overlay: field bits, format bits or a constant
  enum Kind { kField, kFieldBits, kFormatBits, kConst } kind;
  std::string field;
  int hi = 0, lo = 0;
  std::string bits;  // of a constant, e.g. "01"
};
struct Overlay {
  std::string name;
  int width;
  bool is_signed;
  std::vector<Part> parts;
};
struct Format {
  std::string name;
  int width;
  std::string parent;
  std::vector<Field> fields;
  std::vector<Overlay> overlays;
  bool packed = false;

  int Low(const Field& f) const {  // of the last instance
    int at = width;
    for (auto& g : fields) {
      at -= g.width * g.size;
      if (g.name == f.name) return at;
    }
    return -1;
  }
  const Field* FindField(const std::string& n) const {
    for (auto& f : fields) {
      if (f.name == n) return &f;
    }
    return nullptr;
  }
  const Overlay* FindOverlay(const std::string& n) const {
    for (auto& o : overlays) {
      if (o.name == n) return &o;
    }
    return nullptr;
  }
  // Raw (not sign extended) value; instance 0 is the leftmost.
  uint64_t Get(const Field& f, uint64_t word, int instance = 0) const {
    int low = Low(f) + (f.size - 1 - instance) * f.width;
    return (word >> low) & Ones(f.width);
  }
  uint64_t Get(const Overlay& o, uint64_t word) const {
    uint64_t v = 0;
    for (auto& p : o.parts) {
      if (p.kind == Part::kConst) {
        for (char c : p.bits) v = (v << 1) | (c == '1');
        continue;
      }
      int lo, w;
      Where(p, &lo, &w);
      v = (v << w) | ((word >> lo) & Ones(w));
    }
    return v;
  }
  void Where(const Part& p, int* lo, int* w) const {
    if (p.kind == Part::kFormatBits) {
      *lo = p.lo;
      *w = p.hi - p.lo + 1;
      return;
    }
    const Field* f = FindField(p.field);
    if (p.kind == Part::kField) {
      *lo = Low(*f);
      *w = f->width;
    } else {
      *lo = Low(*f) + p.lo;
      *w = p.hi - p.lo + 1;
    }
  }
  uint64_t Value(const std::string& n, uint64_t word) const {
    if (auto* f = FindField(n)) return Get(*f, word);
    return Get(*FindOverlay(n), word);
  }
  int WidthOf(const std::string& n) const {
    if (auto* f = FindField(n)) return f->width;
    return FindOverlay(n)->width;
  }
  std::string Text() const {
    std::string s = "format " + name + "[" + std::to_string(width) + "]";
    if (!parent.empty()) s += " : " + parent;
    s += " {\n";
    if (packed) s += "  layout: packed_struct;\n";
    s += "  fields:\n";
    for (auto& f : fields) {
      if (!f.format.empty()) {
        s += "    format " + f.format + " " + f.name;
        if (f.size > 1) s += "[" + std::to_string(f.size) + "]";
        s += ";\n";
      } else {
        s += std::string("    ") + (f.is_signed ? "signed " : "unsigned ") +
             f.name + "[" + std::to_string(f.width) + "];\n";
      }
    }
    if (!overlays.empty()) s += "  overlays:\n";
    for (auto& o : overlays) {
      s += std::string("    ") + (o.is_signed ? "signed " : "unsigned ") +
           o.name + "[" + std::to_string(o.width) + "] = ";
      for (size_t i = 0; i < o.parts.size(); i++) {
        auto& p = o.parts[i];
        if (i) s += ", ";
        if (p.kind == Part::kConst) {
          s += "0b" + p.bits;
          continue;
        }
        if (p.kind != Part::kFormatBits) s += p.field;
        if (p.kind == Part::kField) continue;
        s += "[" + std::to_string(p.hi);
        if (p.hi != p.lo) s += ".." + std::to_string(p.lo);
        s += "]";
      }
      s += ";\n";
    }
    return s + "};\n";
  }
};

enum Op { kEq, kNe, kLt, kLe, kGt, kGe };
inline const char* OpText(Op o) {
  static const char* t[] = {"==", "!=", "<", "<=", ">", ">="};
  return t[o];
}
inline bool Holds(Op o, uint64_t a, uint64_t b) {
  switch (o) {
    case kEq: return a == b;
    case kNe: return a != b;
    case kLt: return a < b;
    case kLe: return a <= b;
    case kGt: return a > b;
    case kGe: return a >= b;
  }
  return false;
}
struct Con {
  std::string lhs;
  Op op;
  uint64_t value = 0;
  std::string rhs;  // field or overlay instead of a value
};
struct Enc {
  std::string name;  // i0, i1, ...
  int format;
  std::vector<Con> cons;
  int parent = -1;  // specializes enc of that index
};
struct Group {
  std::string name;
  std::vector<Enc> encs;
};
struct Desc {
  std::string family;
  int width = 8;
  std::vector<Format> formats;  // formats[0] is the group's format
  std::vector<Group> groups;
  // Merged group of the decoder: {all groups} under the name of the first one
  // with "M" prefixed; otherwise the groups are listed one by one.
  bool merged = false;
  std::string extra;  // literal text inside the first group (GENERATE)

  bool Match(const Enc& e, uint64_t word) const {
    const Format& f = formats[e.format];
    for (auto& c : e.cons) {
      uint64_t a = f.Value(c.lhs, word);
      uint64_t b = c.rhs.empty() ? c.value : f.Value(c.rhs, word);
      if (!Holds(c.op, a, b)) return false;
    }
    return true;
  }
  static std::string EncText(const Desc& d, const Group& g, const Enc& e) {
    std::string s = "  " + e.name + " : ";
    s += e.parent >= 0 ? "specializes " + g.encs[e.parent].name
                       : d.formats[e.format].name;
    s += " : ";
    for (size_t i = 0; i < e.cons.size(); i++) {
      auto& c = e.cons[i];
      if (i) s += ", ";
      s += c.lhs + std::string(" ") + OpText(c.op) + " " +
           (c.rhs.empty() ? std::to_string(c.value) : c.rhs);
    }
    return s + ";\n";
  }
  std::string Text(const std::string& ns) const {
    std::string s = "decoder D {\n  namespace " + ns +
                    ";\n  opcode_enum = \"::vf::OpcodeEnum\";\n";
    if (merged) {
      s += "  M" + groups[0].name + " = {";
      for (auto& g : groups) s += g.name + ", ";
      s += "};\n";
    } else {
      for (auto& g : groups) s += "  " + g.name + ";\n";
    }
    s += "};\n";
    for (auto& f : formats) s += f.Text();
    bool first = true;
    for (auto& g : groups) {
      s += "instruction group " + g.name + "[" + std::to_string(width) +
           "] : " + formats[0].name + " {\n";
      if (first && !extra.empty()) {
        s += extra;
      } else {
        for (auto& e : g.encs) s += EncText(*this, g, e);
      }
      first = false;
      s += "};\n";
    }
    return s;
  }
};

}  // namespace bf
#endif
