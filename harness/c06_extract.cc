// C06: bit field extraction and the code generated for it.
#include <map>
#include <string>
#include <vector>

#include "mc.h"
#include "mpact/sim/decoder/extract.h"

using mc::Ctx;
using namespace mpact::sim::decoder::bin_format;

namespace {

// Specification: the selected bits, packed towards bit 0, order kept.
uint64_t Pack(uint64_t value, uint64_t mask) {
  uint64_t r = 0;
  int n = 0;
  for (int i = 0; i < 64; i++)
    if ((mask >> i) & 1) r |= ((value >> i) & 1) << n++;
  return r;
}

// The code a generator writes is text in a C subset; this interprets it.
// Statements `id op expr;` with = |= += ^=; expressions over the usual C
// operators on 64 bit unsigned values.
class Interp {
 public:
  Interp(const std::string& s) : s_(s) {}
  std::map<std::string, uint64_t> vars;
  std::string error;
  bool Run() {
    p_ = 0;
    for (;;) {
      Ws();
      if (p_ >= s_.size()) return error.empty();
      if (!Statement()) return false;
    }
  }

 private:
  bool Err(const std::string& e) {
    if (error.empty())
      error = e + " at '" + s_.substr(p_, 20) + "' of " + s_;
    return false;
  }
  void Ws() {
    while (p_ < s_.size() && isspace((unsigned char)s_[p_])) p_++;
  }
  bool Eat(const char* t) {
    Ws();
    size_t n = strlen(t);
    if (s_.compare(p_, n, t) == 0) {
      p_ += n;
      return true;
    }
    return false;
  }
  bool Peek(const char* t) {
    Ws();
    return s_.compare(p_, strlen(t), t) == 0;
  }
  std::string Id() {
    Ws();
    size_t b = p_;
    while (p_ < s_.size() && (isalnum((unsigned char)s_[p_]) || s_[p_] == '_'))
      p_++;
    return s_.substr(b, p_ - b);
  }
  bool Statement() {
    std::string id = Id();
    if (id.empty() || isdigit((unsigned char)id[0])) return Err("no variable");
    char op = '=';
    if (Eat("|=")) op = '|';
    else if (Eat("+=")) op = '+';
    else if (Eat("^=")) op = '^';
    else if (!Eat("=")) return Err("no assignment");
    if (op != '=' && !vars.count(id)) return Err("use of unset " + id);
    uint64_t v = Or();
    if (!error.empty()) return false;
    if (!Eat(";")) return Err("no ;");
    if (op == '|') vars[id] |= v;
    else if (op == '+') vars[id] += v;
    else if (op == '^') vars[id] ^= v;
    else vars[id] = v;
    return true;
  }
  uint64_t Or() {
    uint64_t v = Xor();
    while (Peek("|") && !Peek("||")) { Eat("|"); v |= Xor(); }
    return v;
  }
  uint64_t Xor() {
    uint64_t v = And();
    while (Peek("^")) { Eat("^"); v ^= And(); }
    return v;
  }
  uint64_t And() {
    uint64_t v = Shift();
    while (Peek("&") && !Peek("&&")) { Eat("&"); v &= Shift(); }
    return v;
  }
  uint64_t Shift() {
    uint64_t v = Add();
    for (;;) {
      bool l = Peek("<<"), r = Peek(">>");
      if (!l && !r) return v;
      p_ += 2;
      uint64_t n = Add();
      if (n > 63) { Err("shift by " + std::to_string(n)); return 0; }
      v = l ? v << n : v >> n;
    }
  }
  uint64_t Add() {
    uint64_t v = Prim();
    for (;;) {
      if (Eat("+")) v += Prim();
      else if (Peek("-")) { Eat("-"); v -= Prim(); }
      else return v;
    }
  }
  uint64_t Prim() {
    Ws();
    if (Eat("(")) {
      uint64_t v = Or();
      if (!Eat(")")) Err("no )");
      return v;
    }
    if (Eat("~")) return ~Prim();
    std::string id = Id();
    if (id.empty()) { Err("no operand"); return 0; }
    if (isdigit((unsigned char)id[0])) {
      size_t e = id.size();
      while (e && strchr("uUlL", id[e - 1])) e--;
      char* end;
      std::string t = id.substr(0, e);
      errno = 0;
      uint64_t v = strtoull(t.c_str(), &end, 0);
      if (*end || errno) Err("bad number " + id);
      return v;
    }
    if (!vars.count(id)) { Err("use of unset " + id); return 0; }
    return vars[id];
  }
  std::string s_;
  size_t p_ = 0;
};

void CheckMask(Ctx& c, uint64_t mask, bool text) {
  ExtractionRecipe r = GetExtractionRecipe(mask);
  auto one = [&](uint64_t v) {
    uint64_t got = ExtractValue(v, r), want = Pack(v, mask);
    if (got != want)
      c.fail("mask 0x%llx, value 0x%llx: extracted 0x%llx, 0x%llx expected",
             (unsigned long long)mask, (unsigned long long)v,
             (unsigned long long)got, (unsigned long long)want);
  };
  int bit = 0;
  for (int i = 0; i < 64; i++) {
    uint64_t got = ExtractValue(1ull << i, r);
    uint64_t want = (mask >> i) & 1 ? 1ull << bit++ : 0;
    if (got != want) one(1ull << i);
  }
  static const uint64_t kV[] = {0, ~0ull, 0xaaaaaaaaaaaaaaaaull,
                                0x5555555555555555ull, 0xfedcba9876543210ull};
  for (uint64_t v : kV) one(v);
  one(mask);
  one(~mask);
  c.bulk(71);
  if (text && mask != 0) {
    for (int k = 0; k < 2; k++) {
      std::string ind(2 * k, ' ');
      std::string code = WriteExtraction(r, k ? "v" : "inst_word",
                                         k ? "result" : "x", ind);
      for (uint64_t v : {~(uint64_t)0, (uint64_t)0xfedcba9876543210ull, mask,
                         (uint64_t)0x0123456789abcdefull}) {
        Interp in(code);
        in.vars[k ? "v" : "inst_word"] = v;
        bool ok = in.Run();
        if (!ok) c.fail("generated code for mask 0x%llx: %s",
                        (unsigned long long)mask, in.error.c_str());
        auto it = in.vars.find(k ? "result" : "x");
        if (it == in.vars.end() || it->second != Pack(v, mask))
          c.fail("generated code for mask 0x%llx computes a wrong value for "
                 "0x%llx: %s",
                 (unsigned long long)mask, (unsigned long long)v, code.c_str());
        c.bulk(1);
      }
      // Every line carries the indent asked for.
      size_t pos = 0;
      while (pos < code.size()) {
        if (code.compare(pos, ind.size(), ind) != 0)
          c.fail("a line of the generated code is not indented: %s",
                 code.c_str());
        size_t e = code.find('\n', pos);
        if (e == std::string::npos) c.fail("unterminated line");
        pos = e + 1;
      }
    }
  }
  c.state_hash(mask);
}

void Window(Ctx& c) {
  int off = c.choose(49, "offset");
  int hi = c.choose(64, "high 6 bits");
  c.op("all masks 0x%x....<<%d", hi, off);
  for (uint32_t lo = 0; lo < 1024; lo++)
    CheckMask(c, (uint64_t)((hi << 10) | lo) << off,
              (lo & 31) == (uint32_t)(off & 31) || off == 0 || off == 48);
}
uint64_t Ones(int lo, int hi) {  // [lo, hi)
  return hi - lo == 64 ? ~0ull : ((1ull << (hi - lo)) - 1) << lo;
}
// Every mask of at most two runs anywhere in 64 bits, and its complement.
void Runs(Ctx& c) {
  int a = c.choose(65, "start");
  int b = a + c.choose(65 - a, "length");
  c.op("run [%d,%d) with any second run", a, b);
  if (a == b && a > 0) return;
  for (int d = b; d <= 64; d++)
    for (int e = d; e <= 64; e++) {
      if (e == d && d != b) continue;
      uint64_t m = 0;
      if (b > a) m |= Ones(a, b);
      if (e > d) m |= Ones(d, e);
      CheckMask(c, m, e == 64 || e == d || ((d + e) & 15) == 0);
      CheckMask(c, ~m, false);
    }
}
// All 24 bit masks at the low, middle and high end.
void Window24(Ctx& c) {
  int off = c.pick({0, 20, 40}, "offset");
  int hi = c.choose(4096, "high 12 bits");
  c.op("all masks 0x%x...<<%d", hi, off);
  for (uint32_t lo = 0; lo < 4096; lo++)
    CheckMask(c, (uint64_t)((hi << 12) | lo) << off, (lo & 255) == 0);
}
// Three runs anywhere.
void Runs3(Ctx& c) {
  int a = c.choose(60, "start");
  int b = a + 1 + c.choose(60 - a, "length");
  c.op("run [%d,%d) with any two further runs", a, b);
  for (int d = b + 1; d < 64; d++)
    for (int e = d + 1; e < 64; e++)
      for (int g = e + 1; g < 64; g += 1)
        for (int h = g + 1; h <= 64; h += 3)
          CheckMask(c, Ones(a, b) | Ones(d, e) | Ones(g, h), false);
}

}  // namespace

int main(int argc, char** argv) {
  return mc::Main(argc, argv, "C06",
                  {{"windows16", Window},
                   {"two_runs", Runs},
                   {"windows24", Window24, 2, true},
                   {"three_runs", Runs3, 2, true}},
                  "masks: every 16 bit pattern at every offset, every mask of "
                  "at most two runs in 64 bits and its complement (thorough: "
                  "24 bit patterns, three runs); values: every single bit and "
                  "7 patterns per mask; generated code: interpreted for 4 "
                  "values and 2 naming/indent variants");
}
