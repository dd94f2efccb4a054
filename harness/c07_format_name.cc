// C07: names in generated code.
#include <string>
#include <vector>

#include "mc.h"
#include "mpact/sim/decoder/format_name.h"

using mc::Ctx;
using namespace mpact::sim::machine_description::instruction_set;

namespace {

bool Up(char c) { return c >= 'A' && c <= 'Z'; }
bool Lo(char c) { return c >= 'a' && c <= 'z'; }
char U(char c) { return Lo(c) ? c - 32 : c; }
char L(char c) { return Up(c) ? c + 32 : c; }

// Specifications.
std::string Pascal(const std::string& s) {
  // Split at underscores, capitalise each piece, join.
  std::string r;
  size_t b = 0;
  while (b <= s.size()) {
    size_t e = s.find('_', b);
    if (e == std::string::npos) e = s.size();
    if (e > b) {
      r += U(s[b]);
      r += s.substr(b + 1, e - b - 1);
    }
    b = e + 1;
  }
  return r;
}
std::string Snake(const std::string& s) {
  std::string r;
  for (size_t i = 0; i < s.size(); i++) {
    if (i && Up(s[i])) r += "_";
    r += L(s[i]);
  }
  return r;
}
std::string Guard(std::string s) {
  for (char& c : s) c = (c == '/' || c == '.') ? '_' : U(c);
  return s;
}
std::string Lower(std::string s) {
  for (char& c : s) c = L(c);
  return s;
}
bool CanonicalSnake(const std::string& s) {
  if (s.empty() || !Lo(s[0]) || s.back() == '_') return false;
  for (size_t i = 0; i < s.size(); i++) {
    if (Lo(s[i]) || (s[i] >= '0' && s[i] <= '9')) continue;
    if (s[i] != '_' || !Lo(s[i + 1])) return false;
  }
  return true;
}
bool CanonicalPascal(const std::string& s) {
  if (s.empty() || !Up(s[0])) return false;
  for (char c : s)
    if (!(Lo(c) || Up(c) || (c >= '0' && c <= '9'))) return false;
  return true;
}

void One(Ctx& c, const std::string& s) {
#define EQ(F, W)                                                            \
  {                                                                         \
    std::string got = F, want = W;                                          \
    if (got != want)                                                        \
      c.fail("%s of '%s' is '%s', '%s' expected", #F, s.c_str(),            \
             got.c_str(), want.c_str());                                    \
  }
  EQ(ToPascalCase(s), Pascal(s));
  EQ(ToSnakeCase(s), Snake(s));
  EQ(ToHeaderGuard(s), Guard(s));
  EQ(ToLowerCase(s), Lower(s));
  EQ(Indent(absl::string_view(s)), std::string(s.size(), ' '));
  // The two spellings of a name determine each other.
  if (CanonicalSnake(s)) EQ(ToSnakeCase(ToPascalCase(s)), s);
  if (CanonicalPascal(s)) EQ(ToPascalCase(ToSnakeCase(s)), s);
  c.bulk(7);
  c.state_hash(std::hash<std::string>()(s));
}

const char kAlpha[] = "abZK_19/.-z";
void Strings(Ctx& c) {
  int max = c.thorough() ? 7 : 6;
  std::string p;
  for (int i = 0; i < 2; i++) {
    int k = c.choose(12, "char");
    if (k == 11) break;
    p += kAlpha[k];
  }
  c.op("all strings starting '%s'", p.c_str());
  if (p.size() < 2) { One(c, p); return; }
  std::function<void()> rec = [&]() {
    One(c, p);
    if ((int)p.size() == max) return;
    for (int k = 0; k < 11; k++) {
      p += kAlpha[k];
      rec();
      p.pop_back();
    }
  };
  rec();
}
void Pairs(Ctx& c) {
  int a = c.choose(128, "first byte");
  c.op("pairs starting with byte %d", a);
  One(c, std::string(1, (char)a));
  for (int b = 0; b < 128; b++) {
    One(c, std::string(1, (char)a) + (char)b);
    One(c, std::string("x_") + (char)a + (char)b + "_y");
  }
}
// Names that are not terminated: the view is a part of a larger text.
void Views(Ctx& c) {
  static const std::string text = "mpact_sim/Generic_B.h";
  int b = c.choose((int)text.size() + 1, "from");
  c.op("views from %d", b);
  for (size_t n = 0; b + n <= text.size(); n++) {
    std::string s = text.substr(b, n);
    absl::string_view v(text.data() + b, n);
    EQ(ToPascalCase(v), Pascal(s));
    EQ(ToSnakeCase(v), Snake(s));
    EQ(ToHeaderGuard(v), Guard(s));
    EQ(ToLowerCase(v), Lower(s));
    EQ(Indent(v), std::string(n, ' '));
    c.bulk(5);
  }
  std::string s = "n";
  for (int n = 0; n < 300; n++) EQ(Indent(n), std::string(n, ' '));
}

}  // namespace

int main(int argc, char** argv) {
  return mc::Main(argc, argv, "C07",
                  {{"strings", Strings}, {"pairs", Pairs, 1}, {"views", Views, 1}},
                  "all strings of up to 6 (7) characters over 11 character "
                  "classes, all ASCII pairs alone and inside a name, all "
                  "subviews of a path");
}
