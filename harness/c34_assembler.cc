// C34: the assembler. Programs are built from structured statements, so that
// the reference below lays them out without parsing any text; directive
// operands and comments are enumerated token by token and character by
// character against a decoder of the documented syntax.
#include <cstring>
#include <map>
#include <set>
#include <sstream>

#include "mc.h"
#include "mpact/sim/util/asm/opcode_assembler_interface.h"
#include "mpact/sim/util/asm/simple_assembler.h"

using namespace mc;
using mpact::sim::util::assembler::OpcodeAssemblerInterface;
using mpact::sim::util::assembler::RelocationInfo;
using mpact::sim::util::assembler::ResolverInterface;
using mpact::sim::util::assembler::SimpleAssembler;
using U64 = uint64_t;

namespace {
std::string LE(U64 v, int n) {
  std::string s;
  for (int i = 0; i < n; i++) s += char(v >> 8 * i);
  return s;
}
std::string Hex(const std::string& s) {
  std::string r;
  for (unsigned char c : s) r += S("%02x", c);
  return r;
}

// The instruction encoder of a small machine: nop (2 bytes); ref X (8 bytes,
// the value of X, one relocation); rel X (4 bytes, distance to X, two
// relocations); odd X (1 byte; X must not be odd); pair X, Y (16 bytes, may be
// written on two lines).
struct Encoder : OpcodeAssemblerInterface {
  absl::StatusOr<size_t> Encode(U64 address, absl::string_view text, AddSymbolCallback add, ResolverInterface* r,
                                std::vector<uint8_t>& bytes, std::vector<RelocationInfo>& relo) override {
    std::string t(text);
    if (!t.empty() && !isspace(t[0])) {
      size_t k = t.find(':');
      if (k != std::string::npos) {
        auto s = add(t.substr(0, k), address, 0, 0, 0, 0);
        if (!s.ok()) return s;
        t = t.substr(k + 1);
      }
    }
    for (char& c : t)
      if (c == '\\' || c == ',') c = ' ';
    std::istringstream in(t);
    std::vector<std::string> w;
    for (std::string x; in >> x;) w.push_back(x);
    auto put = [&](U64 v, int n) {
      for (int i = 0; i < n; i++) bytes.push_back(v >> 8 * i);
      return (size_t)n;
    };
    auto bad = [&] { return absl::InvalidArgumentError("bad instruction '" + t + "'"); };
    if (w.size() == 1 && w[0] == "nop") return put(1, 2);
    if (w.size() < 2 || !isalpha(w[1][0])) return bad();
    auto v = r->Resolve(w[1]);
    if (!v.ok()) return v.status();
    if (w.size() == 3 && w[0] == "pair") {
      auto u = r->Resolve(w[2]);
      if (!u.ok()) return u.status();
      put(*v, 8), put(*u, 8);
      return 16;
    }
    if (w.size() != 2) return bad();
    if (w[0] == "ref") {
      relo.emplace_back(0, w[1], 7, 5, 0);
      return put(*v, 8);
    }
    if (w[0] == "rel") {
      relo.emplace_back(0, w[1], 3, 0, 0);
      relo.emplace_back(0, w[1], 4, 1, 0);
      return put(*v - address, 4);
    }
    if (w[0] == "odd") {
      if (*v & 1) return absl::OutOfRangeError("odd");
      return put(0xdd, 1);
    }
    return bad();
  }
};

enum Kind { kNone, kSect, kData, kAlign, kSpace, kGlobal, kNop, kRef, kRel, kOdd, kPair, kBad };
struct Item {
  const char* text;
  const char* label = "";
  Kind kind = kNone;
  U64 n = 0;                     // section, alignment, size
  std::string data = "";         // bytes
  std::vector<std::string> sym = {};
};
const std::vector<Item>& Items() {
  static const auto* v = new std::vector<Item>{
      {"\t.text", "", kSect, 1},
      {".data  ; the data", "", kSect, 2},
      {" .bss", "", kSect, 3},
      {"a:", "a"},
      {"  nop", "", kNop},
      {"a: nop;again", "a", kNop},
      {"b:  ref a", "b", kRef, 0, "", {"a"}},
      {"\trel b", "", kRel, 0, "", {"b"}},
      {" .align 8", "", kAlign, 8},
      {" .space 3", "", kSpace, 3},
      {"b: .word -2, 0x10", "b", kData, 0, LE(-2, 4) + LE(16, 4)},
      {" .bytes 1", "", kData, 0, LE(1, 1)},
      {".global a, b", "", kGlobal, 0, "", {"a", "b"}},
      {" odd a", "", kOdd, 0, "", {"a"}},
      {"a: .cstring \"x;\\\"y\", \"\"", "a", kData, 0, std::string("x;\"y\0\0", 6)},
      {"b: .space 0x11", "b", kSpace, 17},
      {"c : .align 0x20 ", "c", kAlign, 32},
      {" pair b, \\\n  a ; two lines", "", kPair, 0, "", {"b", "a"}},
      {"c: .data", "c", kSect, 2},
      {"\n   ; nothing\n"},
      {" .word 1 x", "", kBad},
      {"d: .bss", "d", kSect, 3},
      {"d: .text", "d", kSect, 1},
  };
  return *v;
}

struct Ref {
  struct Sym {
    int sec;
    U64 off, size;
  };
  struct Ins {
    const Item* it;
    int sec;
    U64 off;
  };
  int cur = 0;
  U64 off[4] = {0, 0, 0, 0}, align[4] = {0, 16, 16, 16};
  std::string mem[4];
  std::map<std::string, Sym> sym;
  std::set<std::string> global, used;
  std::vector<Ins> ins;
  std::string err;

  // Returns false if the statement's meaning is not specified.
  bool Do(const Item& it) {
    U64 size = 0;
    int cur0 = cur;
    U64 off0 = off[cur];
    if (it.kind == kBad) err = "malformed statement";
    bool emits = it.kind != kNone && it.kind != kSect && it.kind != kGlobal;
    if (emits && !cur) err = "no section";
    if (*it.label) {
      if (!cur) err = "label outside of a section";
      if (sym.count(it.label)) err = "label defined twice";
    }
    if (!err.empty()) return true;
    std::string b;
    switch (it.kind) {
      case kSect: cur = it.n; break;
      case kData: b = it.data, size = b.size(); break;
      case kAlign:
        b.assign(-off[cur] & (it.n - 1), 0);
        align[cur] = std::max(align[cur], it.n);
        break;
      case kSpace: b.assign(it.n, 0), size = it.n; break;
      case kGlobal: global.insert(it.sym.begin(), it.sym.end()); break;
      case kNop: b = LE(1, 2); break;
      case kRef: b.assign(8, 0); break;
      case kRel: b.assign(4, 0); break;
      case kOdd: b.assign(1, 0); break;
      case kPair: b.assign(16, 0); break;
      default: break;
    }
    if (it.kind >= kNop) {
      ins.push_back({&it, cur0, off0});
      used.insert(it.sym.begin(), it.sym.end());
    }
    // Only space may be reserved in .bss.
    if (cur0 == 3 && emits && it.kind != kAlign && it.kind != kSpace) return false;
    if (*it.label) sym[it.label] = {cur0, off0, size};
    off[cur0] += b.size();
    mem[cur0] += b;
    return true;
  }
  U64 Value(const std::string& n, const U64* start) {
    auto i = sym.find(n);
    return i == sym.end() ? 0 : start[i->second.sec] + i->second.off;
  }
  // Fills in the values of the symbols; an error if an instruction refuses.
  void Link(const U64* start) {
    for (auto& i : ins) {
      U64 at = start[i.sec] + i.off;
      std::string b;
      if (i.it->kind == kNop) continue;
      U64 v = Value(i.it->sym[0], start);
      if (i.it->kind == kRef) b = LE(v, 8);
      if (i.it->kind == kRel) b = LE(v - at, 4);
      if (i.it->kind == kPair) b = LE(v, 8) + LE(Value(i.it->sym[1], start), 8);
      if (i.it->kind == kOdd) {
        b = LE(0xdd, 1);
        if (v & 1) err = "odd";
      }
      mem[i.sec].replace(i.off, b.size(), b);
    }
  }
};

const char* kSec[] = {"", ".text", ".data", ".bss"};
std::string Bytes(ELFIO::section* s) { return s->get_size() ? std::string(s->get_data(), s->get_size()) : ""; }

struct Got {
  ELFIO::Elf64_Addr value;
  ELFIO::Elf_Xword size;
  unsigned char bind, type, other;
  ELFIO::Elf_Half sec;
  U64 index;
};

struct Mode {
  const char* name;
  bool exec;
  int cls;
  U64 base, data, entry;
};
const std::vector<Mode>& Modes() {
  static const auto* v = new std::vector<Mode>{{"executable64", true, 2, 0x7fff0000f000, 0, ~0ull},
                                               {"relocatable64", false, 2, 0, 0, 0},
                                               {"executable32", true, 1, 0x20000, 0x80000, 0x20004},
                                               {"relocatable32", false, 1, 0, 0, 0}};
  return *v;
}

void Compare(Ctx& c, SimpleAssembler& a, Ref& r, const Mode& m, const U64* start) {
  auto& e = a.writer();
  auto chk = [&](bool ok, const std::string& what) {
    if (!ok) c.fail("%s: %s", m.name, what.c_str());
    c.bulk(1);
  };
  chk(e.get_type() == (m.exec ? 2 : 1), "type of the file");
  ELFIO::section* sec[4] = {};
  for (int i = 1; i < 4; i++) {
    sec[i] = e.sections[std::string(kSec[i])];
    chk(sec[i], S("no section %s", kSec[i]));
    chk(sec[i]->get_size() == r.mem[i].size(),
        S("%s has %llu bytes, not %llu", kSec[i], (unsigned long long)sec[i]->get_size(),
          (unsigned long long)r.mem[i].size()));
    if (i < 3)
      chk(Bytes(sec[i]) == r.mem[i],
          S("%s is %s, not %s", kSec[i], Hex(Bytes(sec[i])).c_str(), Hex(r.mem[i]).c_str()));
    chk(sec[i]->get_type() == (i == 3 ? 8 : 1), S("type of %s", kSec[i]));
    chk(sec[i]->get_flags() == (i == 1 ? 6 : 3), S("flags of %s", kSec[i]));
    chk(sec[i]->get_addr_align() >= r.align[i], S("%s is not aligned as its contents need", kSec[i]));
  }
  // Symbols.
  auto* st = e.sections[std::string(".symtab")];
  chk(st && e.sections[std::string(".strtab")], "symbol table");
  ELFIO::symbol_section_accessor acc(e, st);
  std::map<std::string, Got> got;
  bool global = false;
  U64 locals = 0;
  for (U64 i = 0; i < acc.get_symbols_num(); i++) {
    std::string n;
    Got g;
    acc.get_symbol(i, n, g.value, g.size, g.bind, g.type, g.sec, g.other);
    g.index = i;
    chk(!got.count(n), S("symbol '%s' is listed twice", n.c_str()));
    got[n] = g;
    if (g.bind == 0) {
      chk(!global, S("local symbol '%s' after a global one", n.c_str()));
      locals++;
    } else {
      global = true;
    }
  }
  chk(st->get_info() == locals, S("the symbol table announces %u local symbols, not %d", st->get_info(), (int)locals));
  std::set<std::string> want;
  for (auto& [n, s] : r.sym) {
    want.insert(n);
    chk(got.count(n), S("symbol %s is missing", n.c_str()));
    auto& g = got[n];
    chk(g.value == start[s.sec] + s.off,
        S("symbol %s is at 0x%llx, not 0x%llx", n.c_str(), (unsigned long long)g.value,
          (unsigned long long)(start[s.sec] + s.off)));
    chk(g.sec == sec[s.sec]->get_index(), S("symbol %s is in another section than %s", n.c_str(), kSec[s.sec]));
    chk(g.bind == (r.global.count(n) ? 1 : 0), S("binding of %s is %d", n.c_str(), g.bind));
    chk(g.type == 0, S("type of %s", n.c_str()));
  }
  for (auto& n : r.used)
    if (!r.sym.count(n)) {
      want.insert(n);
      chk(got.count(n) && got[n].sec == 0 && got[n].value == 0, S("undefined symbol %s", n.c_str()));
    }
  for (int i = 1; i < 4; i++) {
    want.insert(kSec[i]);
    chk(got.count(kSec[i]) && got[kSec[i]].value == start[i] && got[kSec[i]].type == 3 &&
            got[kSec[i]].sec == sec[i]->get_index(),
        S("symbol of section %s", kSec[i]));
  }
  want.insert("");
  for (auto& [n, g] : got) chk(want.count(n), S("symbol %s comes from nowhere", n.c_str()));
  // Segments.
  if (m.exec) {
    chk(e.segments.size() == 2, "number of segments");
    for (int i = 0; i < 2; i++) {
      auto* s = e.segments[i];
      chk(s->get_type() == 1 && s->get_flags() == (i ? 6 : 5), S("kind of segment %d", i));
      chk(s->get_virtual_address() == start[1 + i] && s->get_physical_address() == start[1 + i],
          S("address of segment %d", i));
      chk(i == 0 ? s->members_ == std::vector<ELFIO::Elf_Half>{sec[1]->get_index()}
                 : s->members_ == std::vector<ELFIO::Elf_Half>{sec[2]->get_index(), sec[3]->get_index()},
          S("sections of segment %d", i));
    }
  } else {
    chk(e.segments.size() == 0, "segments in a relocatable file");
  }
  // Relocations.
  for (int i = 1; i < 4; i++) {
    std::vector<std::string> exp, is;
    for (auto& in : r.ins)
      if (in.sec == i) {
        const char* y = in.it->sym.empty() ? "" : in.it->sym[0].c_str();
        if (in.it->kind == kRef) exp.push_back(S("%d %s 7 5", (int)in.off, y));
        if (in.it->kind == kRel) {
          exp.push_back(S("%d %s 3 0", (int)in.off, y));
          exp.push_back(S("%d %s 4 1", (int)in.off, y));
        }
      }
    if (m.exec) exp.clear();
    auto* rs = e.sections[std::string(".rela") + kSec[i]];
    chk(!rs == exp.empty(), S("relocation section of %s", kSec[i]));
    if (!rs) continue;
    bool w = m.cls == 2;
    U64 es = w ? 24 : 12;
    chk(rs->get_type() == 4 && rs->get_link() == st->get_index() && rs->get_entry_size() == es &&
            rs->get_size() % es == 0,
        S("header of .rela%s", kSec[i]));
    chk(rs->get_info() == sec[i]->get_index(), S(".rela%s applies to section %u", kSec[i], rs->get_info()));
    for (U64 o = 0; o < rs->get_size(); o += es) {
      U64 off = 0, info = 0;
      int64_t add = 0;
      memcpy(&off, rs->get_data() + o, es / 3), memcpy(&info, rs->get_data() + o + es / 3, es / 3);
      int32_t add4;
      if (w) memcpy(&add, rs->get_data() + o + 16, 8);
      else memcpy(&add4, rs->get_data() + o + 8, 4), add = add4;
      U64 y = w ? info >> 32 : info >> 8;
      std::string n = "?";
      for (auto& [k, g] : got)
        if (g.index == y) n = k;
      is.push_back(S("%d %s %d %d", (int)off, n.c_str(), int(w ? info & 0xffffffff : info & 0xff), (int)add));
    }
    std::string d;
    for (auto& x : is) d += " [" + x + "]";
    chk(is == exp, S(".rela%s has%s", kSec[i], d.c_str()));
  }
}

void Program(Ctx& c, const std::vector<int>& pre, const std::vector<int>& alphabet, int depth) {
  const Mode& m = c.pick(Modes(), "mode");
  Ref r;
  std::string text;
  auto add = [&](const Item& it) {
    text += it.text;
    text += "\n";
    c.op("%s", it.text);
    if (!r.Do(it)) c.prune();
  };
  for (int i : pre) add(Items()[i]);
  for (int i = 0; i < depth; i++) {
    int k = c.choose(alphabet.size() + 1, "statement");
    if (k == 0) break;
    add(Items()[alphabet[k - 1]]);
    if (!r.err.empty()) break;  // what follows does not matter
  }
  if (c.recording()) c.note("as %s:\n%s", m.name, text.c_str());
  Encoder enc;
  SimpleAssembler a(";", m.cls, &enc);
  std::istringstream in(text);
  auto st = a.Parse(in);
  std::string entry = "a";
  U64 start[4] = {0, 0, 0, 0};
  std::string why = r.err;
  if (why.empty()) {
    if (m.exec) {
      start[1] = m.base;
      start[2] = m.data ? m.data : (m.base + r.off[1] + 4095) & ~4095ull;
      start[3] = (start[2] + r.off[2] + r.align[3] - 1) & ~(r.align[3] - 1);
      for (auto& n : r.used)
        if (!r.sym.count(n)) why = n + " is not defined";
      if (m.entry == ~0ull && !r.sym.count(entry)) why = "no entry point";
    }
    if (why.empty()) {
      r.Link(start);
      why = r.err;
    }
  }
  if (st.ok()) {
    if (m.data) a.set_data_segment_start(m.data);
    st = !m.exec ? a.CreateRelocatable()
                 : m.entry == ~0ull ? a.CreateExecutable(m.base, entry) : a.CreateExecutable(m.base, m.entry);
  }
  c.outcome(why.empty() ? m.name : why);
  if (why.empty())
    c.check(st.ok(), "a valid program is rejected: %s", std::string(st.message()).c_str());
  else
    c.check(!st.ok(), "no error is reported: %s", why.c_str());
  if (!why.empty()) return;
  Compare(c, a, r, m, start);
  if (m.exec) {
    U64 want = m.entry == ~0ull ? r.Value(entry, start) : m.entry;
    c.check(a.writer().get_entry() == want, "the entry point is 0x%llx, not 0x%llx",
            (unsigned long long)a.writer().get_entry(), (unsigned long long)want);
  }
  std::ostringstream os;
  c.check(a.Write(os).ok() && os.str().size() > 4, "the file is not written");
}

// One data directive; the bytes it must produce, or an error.
void OneLine(Ctx& c, const std::string& line, const std::string* want, const char* comment = ";") {
  c.op("%s", line.c_str());
  Encoder enc;
  SimpleAssembler a(comment, 2, &enc);
  std::istringstream in(" .data\n" + line + "\nend:\n");
  auto st = a.Parse(in);
  if (st.ok()) st = a.CreateRelocatable();
  c.outcome(want ? "accepted" : "rejected");
  if (!want) {
    c.check(!st.ok(), "no error is reported for <%s>: .data is %s", line.c_str(),
            Hex(Bytes(a.writer().sections[std::string(".data")])).c_str());
    return;
  }
  c.check(st.ok(), "<%s> is rejected: %s", line.c_str(), std::string(st.message()).c_str());
  std::string b = Bytes(a.writer().sections[std::string(".data")]);
  c.check(b == *want, "<%s> gives %s, not %s", line.c_str(), Hex(b).c_str(), Hex(*want).c_str());
  ELFIO::symbol_section_accessor acc(a.writer(), a.symtab());
  Got g{};
  c.check(acc.get_symbol("end", g.value, g.size, g.bind, g.type, g.sec, g.other) && g.value == want->size(),
          "after <%s> the next address is %llu", line.c_str(), (unsigned long long)g.value);
}

struct Tok {
  const char* text;
  bool neg;
  U64 v;  // absolute value
};
void Numbers(Ctx& c, int max) {
  struct D {
    const char* name;
    int size;
    bool sign;
  };
  static const std::vector<D> dirs{{"bytes", 1, false}, {"uchar", 1, false},  {"short", 2, true},  {"ushort", 2, false},
                                   {"word", 4, true},   {"uword", 4, false}, {"long", 8, true}, {"ulong", 8, false}};
  static const std::vector<Tok> toks{{"0", false, 0},
                                     {"0x7f", false, 0x7f},
                                     {"255", false, 255},
                                     {"256", false, 256},
                                     {"-1", true, 1},
                                     {"-32768", true, 32768},
                                     {"-32769", true, 32769},
                                     {"0x7FFF", false, 0x7fff},
                                     {"65535", false, 65535},
                                     {"65536", false, 65536},
                                     {"0x7fffffff", false, 0x7fffffff},
                                     {"-2147483648", true, 0x80000000},
                                     {"-2147483649", true, 0x80000001},
                                     {"0xfedcba98", false, 0xfedcba98},
                                     {"4294967296", false, 0x100000000},
                                     {"0x7fffffffffffffff", false, 0x7fffffffffffffff},
                                     {"-9223372036854775808", true, 0x8000000000000000},
                                     {"0xfedcba9876543210", false, 0xfedcba9876543210},
                                     {"0x10000000000000000", false, 0}};
  static const std::vector<const char*> junk{"x", "0x", "1 2", "1x", "'a'", "\"a\"", "--1", "1.5", "end"};
  static const std::vector<const char*> seps{",", " , ", "\t,  "};
  const D& d = c.pick(dirs, "directive");
  int n = 1 + c.choose(max, "values");
  std::string line = S(" .%s%s", d.name, c.flip("blank") ? "\t " : " "), want;
  bool ok = true, free = false;
  for (int i = 0; i < n; i++) {
    if (i) line += c.pick(seps, "separator");
    int k = c.choose(toks.size() + junk.size(), "value");
    if (k >= (int)toks.size()) {
      line += junk[k - toks.size()];
      ok = false;
      continue;
    }
    const Tok& t = toks[k];
    line += t.text;
    bool big = !strcmp(t.text, "0x10000000000000000");
    U64 top = d.size == 8 ? ~0ull : (1ull << 8 * d.size) - 1, half = 1ull << (8 * d.size - 1);
    // Values that only fit with the other signedness may be refused or not.
    if (big || t.v > top || (t.neg && t.v > half)) ok = false;
    else if (t.neg ? !d.sign : d.sign && t.v >= half) free = true;
    want += LE(t.neg ? -t.v : t.v, d.size);
  }
  line += c.pick<const char*>({"", " ", " ; 3, 4", "\r"}, "end");
  if (ok && free) c.prune();
  OneLine(c, line, ok ? &want : nullptr);
}

// Decodes a list of quoted strings. 0: error, 1: good, 2: not specified.
int Decode(const std::string& s, char q, bool term, std::string* out) {
  static const std::map<char, char> esc{{'n', '\n'}, {'t', '\t'}, {'\\', '\\'}, {'"', '"'}, {'\'', '\''}, {'a', '\a'},
                                        {'b', '\b'}, {'f', '\f'}, {'r', '\r'}, {'v', '\v'}, {'?', '?'}};
  size_t i = 0;
  auto ws = [&] {
    while (i < s.size() && (s[i] == ' ' || s[i] == '\t')) i++;
  };
  while (true) {
    ws();
    if (i == s.size()) return 2;  // empty list, comma at the end
    if (s[i] != q) return 0;
    i++;
    int n = 0;
    if (q == '\'' && s.substr(i, 2) == "''") {  // '''
      *out += '\'', n = 1, i++;
    } else {
      while (i < s.size() && s[i] != q) {
        if (s[i] == '\\') {
          if (i + 1 == s.size()) return 0;
          if (q == '\'' && s[i + 1] == '\'' && (i + 2 >= s.size() || s[i + 2] != '\'')) {
            return 2;  // '\' is not a documented way to write a backslash
          }
          i++;
          if (!esc.count(s[i])) return 2;
          *out += esc.at(s[i++]);
        } else {
          *out += s[i++];
        }
        n++;
      }
    }
    if (i == s.size()) return 0;
    i++;
    if (q == '\'' && n != 1) return 0;
    if (term) *out += '\0';
    ws();
    if (i == s.size()) return 1;
    if (s[i] != ',') return 0;
    i++;
  }
}

void Strings(Ctx& c, int len) {
  static const std::vector<const char*> dirs{"string", "cstring", "char"};
  int d = c.choose(3, "directive");
  char q = d == 2 ? '\'' : '"';
  // q is the quote, o the other one.
  const std::string chars = std::string() + q + "a\\,; n" + (d == 2 ? "" : "'") + (d == 2 ? ":" : "");
  std::string body(1, q);
  int n = c.choose(len + 1, "length");
  for (int i = 0; i < n; i++) body += chars[c.choose(chars.size(), "character")];
  if (c.flip("closed")) body += q;
  std::string want;
  // A comment starts outside of quotes.
  std::string cut = body;
  bool in = false;
  for (size_t i = 0; i < body.size(); i++) {
    if (in && body[i] == '\\') {
      i++;
    } else if (body[i] == q) {
      if (q == '\'' && !in && body.substr(i, 3) == "'''") i += 2;
      else in = !in;
    } else if (!in && body[i] == ';') {
      cut = body.substr(0, i);
      break;
    }
  }
  if (!body.empty() && body.back() == '\\') c.prune();  // the line goes on
  if (in && body.find(';') != std::string::npos) c.prune();
  int r = Decode(cut, q, d == 1, &want);
  if (r == 2) c.prune();
  // Apostrophes that open nothing: the comment rule does not define them.
  OneLine(c, S(" .%s ", dirs[d]) + body, r ? &want : nullptr);
}

// Comments, whatever the comment string.
void Comments(Ctx& c, int len) {
  const char* com = c.pick<const char*>({";", "#", "//", ".", "*", "|", "(", "[", "\\d", "$"}, "comment");
  static const std::vector<std::string> parts{"@", " ", ".bytes 7", "\"", "\\", "x:", "'", "/"};
  std::string line;
  bool ok = true;
  if (c.flip("statement") && strcmp(com, ".")) line = " .bytes 1, 2 ";
  std::string want = line.empty() ? "" : "\1\2";
  line += com;
  for (int i = 0, n = c.choose(len + 1, "length"); i < n; i++) {
    const std::string& p = c.pick(parts, "part");
    line += p == "@" ? com : p;
  }
  if (line.back() == '\\') c.prune();  // the line goes on
  // With '.' as comment no directive can be written.
  if (!strcmp(com, ".")) {
    c.op("%s", line.c_str());
    Encoder enc;
    SimpleAssembler a(com, 2, &enc);
    std::istringstream in(line + "\n");
    c.check(a.Parse(in).ok(), "comment <%s> is rejected", line.c_str());
    return;
  }
  (void)ok;
  OneLine(c, line, &want, com);
}

// Single statements that are right or wrong by themselves.
void Single(Ctx& c) {
  struct X {
    const char* text;
    bool ok;
    int size;
  };
  static const std::vector<X> xs{{" .align 0", false, 0},      {" .align 1", true, 0},     {" .align 3", false, 0},
                                 {" .align", false, 0},        {" .align x", false, 0},    {" .align 4 4", false, 0},
                                 {" .align -8", false, 0},     {" .align 0x40", true, 61}, {" .align 64", true, 61},
                                 {" .space 4", true, 4},       {" .space -1", false, 0},   {" .space", false, 0},
                                 {" .space 0x10", true, 16},   {" .space 4 4", false, 0},  {" .space 3x", false, 0},
                                 {" .global end", true, 0},    {" .global end ,  y", true, 0},
                                 {" .global 1x", false, 0},    {" .global a b", false, 0}, {" .global a,,b", false, 0},
                                 {" .global a, 7", false, 0},  {" .sect foo", false, 0},   {" .type x", false, 0},
                                 {" .foo", false, 0},          {" .bytess 1", false, 0},   {" .bytes1", false, 0},
                                 {" .data", true, 0},          {"x: .data", true, 0},      {"first: nop", false, 0},
                                 {"first: .bytes 1", false, 0}, {"first:", false, 0},      {".data:", true, 0},
                                 {" bad op", false, 0},        {" nop nop", false, 0},     {" .word 1,, 2", false, 0},
                                 {"\tnop", true, 2},           {"y:nop", true, 2},         {"y  :  nop", true, 2},
                                 {"\f .bytes 1", true, 1},     {"\r", true, 0},            {"y:\r", true, 0}};
  const X& x = c.pick(xs, "statement");
  std::string text = std::string(" .data\nfirst: .bytes 1, 2, 3\n") + x.text;
  bool nl = c.flip("newline");
  if (nl) text += "\nend:\n .bytes 9\n";
  c.op("%s", x.text);
  if (!strcmp(x.text, ".data:")) c.prune();
  Encoder enc;
  SimpleAssembler a(";", 2, &enc);
  std::istringstream in(text);
  auto st = a.Parse(in);
  if (st.ok()) st = a.CreateRelocatable();
  c.check(st.ok() == x.ok, "<%s> is %s", x.text, x.ok ? "rejected" : "accepted");
  if (!x.ok) return;
  auto* d = a.writer().sections[std::string(".data")];
  c.check((int)d->get_size() == 3 + x.size + nl, "<%s> makes .data %d bytes long", x.text, (int)d->get_size());
  c.check(!nl || d->get_data()[3 + x.size] == 9, "the bytes after <%s> are misplaced", x.text);
}

// Word addressed data: the symbols of data sections count words, however the
// label is written.
void Units(Ctx& c, int depth) {
  unsigned u = c.pick<unsigned>({1, 2, 4}, "unit");
  Encoder enc;
  SimpleAssembler a(";", 2, &enc);
  a.set_data_address_unit(u);
  int sec = 1 + c.choose(3, "section");
  std::string text = S(" %s\n", kSec[sec]);
  U64 off = 0;
  std::vector<U64> at;
  for (int i = 0; i < depth; i++) {
    int k = c.choose(3, "form"), n = u * (1 + c.choose(2, "words"));
    at.push_back(sec == 1 ? off : off / u);
    text += S("l%d:%s .%s %d\n", i, k == 1 ? "\n" : k == 2 ? " ; words\n\n" : "", "space", n);
    off += n;
  }
  c.op("%s", text.c_str());
  std::istringstream in(text);
  c.check(a.Parse(in).ok() && a.CreateRelocatable().ok(), "rejected");
  ELFIO::symbol_section_accessor acc(a.writer(), a.symtab());
  for (int i = 0; i < depth; i++) {
    Got g{};
    c.check(acc.get_symbol(S("l%d", i), g.value, g.size, g.bind, g.type, g.sec, g.other) && g.value == at[i],
            "l%d is %llu, not %llu", i, (unsigned long long)g.value, (unsigned long long)at[i]);
  }
}

// Symbols added through the interface, an unreadable stream and a broken file.
void Api(Ctx& c) {
  Encoder enc;
  SimpleAssembler a(";", 2, &enc);
  static const std::vector<const char*> names{"a", "tohost", ".text"};
  static const std::vector<const char*> secs{".text", ".bss", "", ".foo"};
  std::set<std::string> have{".text", ".data", ".bss"};
  std::map<std::string, std::pair<std::string, U64>> want;
  int steps = c.thorough() ? 3 : 2;
  for (int i = 0; i < steps; i++) {
    const char *n = c.pick(names, "name"), *s = c.pick(secs, "section");
    bool ok = !have.count(n) && strcmp(s, ".foo");
    c.op("add %s to '%s'", n, s);
    auto st = a.AddSymbol(n, 0x20 + i, 4, 1, 1, 0, s);
    c.check(st.ok() == ok, "adding the symbol %s", ok ? "fails" : "succeeds");
    if (ok) have.insert(n), want[n] = {s, 0x20ull + i};
  }
  std::istringstream in(" .text\nmain: nop\n");
  int how = c.choose(3, "stream");
  if (how == 1) in.setstate(std::ios::badbit);
  auto st = a.Parse(in);
  c.check(st.ok() == (how != 1), "parsing %s", how == 1 ? "a bad stream succeeds" : "fails");
  if (how == 1) return;
  U64 text = c.pick<U64>({0x1000, 0, 0xffffffff80000000}, "base");
  const std::vector<std::pair<const char*, U64>> entries{{"main", text}, {"0x1004", 0x1004}, {"20", 20},
                                                               {"0xfffffffffffffffe", ~1ull}, {"", 0},
                                                               {"", 1ull << 63}, {"", ~0ull}, {"nowhere", 0}};
  auto& e = c.pick(entries, "entry");
  c.op("entry %s 0x%llx", e.first, (unsigned long long)e.second);
  st = *e.first ? a.CreateExecutable(text, std::string(e.first)) : a.CreateExecutable(text, e.second);
  if (!strcmp(e.first, "nowhere")) {
    c.check(!st.ok(), "the entry point is not defined");
    return;
  }
  c.check(st.ok(), "no executable: %s", std::string(st.message()).c_str());
  c.check(a.writer().get_entry() == e.second, "the entry point is 0x%llx", (unsigned long long)a.writer().get_entry());
  ELFIO::symbol_section_accessor acc(a.writer(), a.symtab());
  for (auto& [n, w] : want) {
    Got g{};
    bool found = acc.get_symbol(n, g.value, g.size, g.bind, g.type, g.sec, g.other);
    U64 base = w.first == ".text" ? text : w.first == ".bss" ? text + 0x1000 : 0;
    c.check(found && g.value == base + w.second && g.size == 4 && g.type == 1 && g.bind == 1, "symbol %s", n.c_str());
  }
  std::ostringstream os;
  if (how == 2) os.setstate(std::ios::badbit);
  c.check(a.Write(os).ok() == (how != 2), "writing %s", how == 2 ? "to a bad stream succeeds" : "fails");
}

std::vector<int> All() {
  std::vector<int> v;
  for (size_t i = 0; i < Items().size(); i++) v.push_back(i);
  return v;
}
}  // namespace

int main(int argc, char** argv) {
  // No section chosen yet: everything, one level less deep.
  return mc::Main(argc, argv, "C34",
                  {{"single", [](Ctx& c) { Single(c); }, 1},
                   {"api", [](Ctx& c) { Api(c); }, 3},
                   {"units", [](Ctx& c) { Units(c, c.thorough() ? 4 : 3); }, 3},
                   {"numbers", [](Ctx& c) { Numbers(c, c.thorough() ? 3 : 2); }, 4},
                   {"strings", [](Ctx& c) { Strings(c, c.thorough() ? 7 : 5); }, 4},
                   {"comments", [](Ctx& c) { Comments(c, c.thorough() ? 5 : 4); }, 4},
                   {"start", [](Ctx& c) { Program(c, {}, All(), c.thorough() ? 4 : 3); }, 3},
                   {"wide", [](Ctx& c) { Program(c, {0}, All(), c.thorough() ? 4 : 3); }, 3},
                   {"program", [](Ctx& c) { Program(c, {0}, {0, 1, 2, 3, 5, 6, 7, 8, 9, 10, 12, 13, 14, 16, 17, 18}, c.thorough() ? 5 : 4); }, 3},
                   {"data", [](Ctx& c) { Program(c, {0, 5, 1}, All(), c.thorough() ? 4 : 3); }, 3},
                   {"bss", [](Ctx& c) { Program(c, {0, 6, 2}, {0, 1, 3, 7, 8, 9, 10, 12, 14, 15, 16, 18}, c.thorough() ? 5 : 4); }, 3}},
                  "all programs of up to 4 (thorough 5) statements out of 16 and 3 (4) out of 23 after '.text', of 3 (4) from nothing or in a "
                  "filled .data, of 4 (5) out of 12 in .bss, as 32- and 64-bit executables and relocatable files; all lists of 1-2 (3) "
                  "numbers out of 28 for 8 directives; all quoted texts of up to 5 (7) characters; 10 comment strings",
                  {"ELFIO is replaced by a stand-in that keeps sections, symbols and segments in memory",
                   "RE2 is replaced by a backtracking matcher",
                   "instructions are those of a small machine of the harness (the interface is the user's)"});
}
