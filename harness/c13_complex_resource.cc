// C13: complex (per cycle) resource reservations and their operands.
#include <memory>
#include <set>
#include <string>
#include <vector>

#include "absl/status/status.h"
#include "mc.h"
#include "mpact/sim/generic/arch_state.h"
#include "mpact/sim/generic/complex_resource.h"
#include "mpact/sim/generic/complex_resource_operand.h"

using mc::Ctx;
using namespace mpact::sim::generic;

namespace {

class State : public ArchState {
 public:
  State() : ArchState("s") {}
  using ArchState::set_cycle;
};
State* TheState() {
  static State* s = [] { mc::NoTrack nt; return new State(); }();
  s->set_cycle(0);
  return s;
}
using Words = std::vector<uint64_t>;
using Set = std::set<uint64_t>;  // absolute cycles
Words Mask(const std::vector<int>& cycles, int words) {
  Words w(words, 0);
  for (int x : cycles)
    if (x / 64 < words) w[x / 64] |= 1ull << (x % 64);
  return w;
}
std::string Text(const Set& s) {
  std::string r = "{";
  for (auto x : s) r += mc::S("%d,", (int)x);
  return r + "}";
}
Words Of(absl::Span<const uint64_t> s) { return Words(s.begin(), s.end()); }

struct World {
  Ctx& c;
  State* st;
  size_t depth;
  uint64_t now = 0;
  ComplexResource res;
  Set busy;
  World(Ctx& c, size_t d) : c(c), st(TheState()), depth(d), res(st, "r", d) {
    c.check(res.name() == "r" && res.AsString() == "r" && res.cycle_depth() == d &&
                res.bit_array().size() == (d + 63) / 64,
            "resource attributes");
  }
  bool ModelFree(const Words& m) {
    for (size_t i = 0; i < depth && i < m.size() * 64; i++)
      if ((m[i / 64] >> (i % 64) & 1) && busy.count(now + i)) return false;
    return true;
  }
  void Acquire(const Words& m) {
    res.Acquire(m);
    for (size_t i = 0; i < depth && i < m.size() * 64; i++)
      if (m[i / 64] >> (i % 64) & 1) busy.insert(now + i);
  }
  void Release(const Words& m) {
    res.Release(m);
    for (size_t i = 0; i < depth && i < m.size() * 64; i++)
      if (m[i / 64] >> (i % 64) & 1) busy.erase(now + i);
  }
  void Advance(uint64_t n) {
    now += n;
    st->set_cycle(now);
    while (!busy.empty() && *busy.begin() < now) busy.erase(busy.begin());
  }
  void Verify() {
    int words = (depth + 63) / 64;
    Words all = Words(words, ~0ull);
    bool fa = res.IsFree(all);
    if (fa != busy.empty())
      c.fail("cycle %d: all cycles free is %d, reserved %s", (int)now, fa, Text(busy).c_str());
    c.bulk(1);
    for (size_t i : {(size_t)0, (size_t)1, (size_t)2, (size_t)62, (size_t)63, (size_t)64, depth / 2, depth - 1}) {
      if (i >= depth) continue;
      Words m = Mask({(int)i}, i / 64 + 1);
      bool f = res.IsFree(m);
      c.bulk(1);
      if (f == (busy.count(now + i) > 0))
        c.fail("cycle %d: +%d is %s, reserved %s", (int)now, (int)i, f ? "free" : "reserved",
               Text(busy).c_str());
    }
    // The window of reservations seen through the accessor.
    Words good(words, 0);
    for (auto x : busy) good[(x - now) / 64] |= 1ull << ((x - now) % 64);
    auto w = res.bit_array();
    for (int i = 0; i < words; i++)
      c.check(w[i] == good[i], "cycle %d: word %d of the window is %llx, %llx expected",
              (int)now, i, (unsigned long long)w[i], (unsigned long long)good[i]);
    c.state(mc::S("%zu:", depth) + [&] {
      std::string r;
      for (auto x : busy) r += mc::S("%d,", (int)(x - now));
      return r;
    }());
  }
};

void Window(Ctx& c) {
  int words = c.choose(3, "words") + 1;
  int depth = words * 64;
  World w(c, depth);
  std::vector<Words> masks = {Mask({0}, 1),
                              Mask({63}, words),
                              Mask({1, 2, depth - 1}, words),
                              Mask({64, 65, 127}, words),
                              Words(words, ~0ull),
                              Mask({5, 70, 200}, 4)};
  int steps = c.thorough() ? 5 : 4, pending = 0;
  for (int d = 0; d < steps; d++) {
    int k = c.choose(3, "op");
    if (k < 2) {
      auto& m = c.pick(masks, "mask");
      if (k == 0) {
        c.op("Acquire(mask of %zu words, first %llx)", m.size(), (unsigned long long)m[0]);
        w.Acquire(m);
      } else {
        c.op("Release(mask of %zu words, first %llx)", m.size(), (unsigned long long)m[0]);
        w.Release(m);
      }
    } else {
      int n = c.pick({1, 2, 31, 63, -1, 1000}, "cycles");
      if (n < 0) n = depth + 1;
      // Single advances of 64 to depth cycles are left to the scenario "jump".
      if (pending + n >= 64 && pending + n <= depth) (void)w.res.IsFree(masks[0]), pending = 0;
      c.op("advance by %d", n);
      pending += n;
      w.Advance(n);
      // Looking at the resource is what moves its window; look or not.
      if (!c.flip("look")) continue;
    }
    pending = 0;
    if (c.fresh()) w.Verify();
    else (void)w.res.IsFree(masks[0]);
  }
}

// Every depth, every cycle in it.
void Depths(Ctx& c) {
  int depth = c.choose(c.thorough() ? 260 : 140, "depth") + 1;
  int j = c.choose(depth, "cycle");
  World w(c, depth);
  int words = (depth + 63) / 64;
  Words m = Mask({j}, words);
  c.check(w.res.IsFree(m), "cycle %d is not free at first", j);
  c.op("depth %d: acquire cycle %d", depth, j);
  w.Acquire(m);
  bool busy = !w.res.IsFree(m);
  int mod = depth % 64;
  if (!busy && mod && j / 64 == words - 1 && j % 64 < 64 - mod)
    c.known("complex-resource-odd-depth");
  c.check(busy, "depth %d: cycle %d was acquired and is free", depth, j);
  if (mod && j / 64 == words - 1) return;  // windows of the known finding
  // Follow it to the present, in single steps.
  for (int i = j; i >= 0; i--) {
    for (int o : {i - 1, i, i + 1, 0, depth - 1}) {
      if (o < 0 || o >= depth) continue;
      if (mod && o / 64 == words - 1) continue;
      bool f = w.res.IsFree(Mask({o}, words));
      c.check(f == (o != i), "depth %d: after %d steps cycle +%d is %s", depth, j - i, o,
              f ? "free" : "reserved");
    }
    w.Advance(1);
  }
  c.check(w.res.IsFree(Words(words, ~0ull)), "a past reservation is still there");
}

// One advance by n cycles.
void Jump(Ctx& c) {
  int words = c.choose(4, "words") + 1;
  int depth = words * 64;
  int n = c.choose(depth + 3, "cycles");
  int pat = c.choose(4, "pattern");
  World w(c, depth);
  Words m(words, 0);
  for (int i = 0; i < depth; i++)
    if (pat == 0 || (pat == 1 && i % 3 == 0) || (pat == 2 && i >= depth / 2) ||
        (pat == 3 && i % 64 == 63))
      m[i / 64] |= 1ull << (i % 64);
  w.Acquire(m);
  c.op("%d words: advance by %d at once", words, n);
  w.Advance(n);
  // What the tree does for 64 <= n <= depth: see known_findings.json.
  if (n >= 64 && n <= depth) {
    (void)w.res.IsFree(m);
    Words have = Of(w.res.bit_array()), good(words, 0), bad(words, 0);
    for (int i = 0; i < depth; i++)
      if (w.busy.count(w.now + i)) good[i / 64] |= 1ull << (i % 64);
    int lw = n / 64, sh = n % 64;
    for (int i = words - 1; i >= 0; i--) bad[i] = i - lw < 0 ? 0 : m[i - lw];
    if (sh)
      for (int i = lw; i < words; i++) {
        uint64_t up = i + 1 < words ? bad[i + 1] << (64 - sh) : 0;
        bad[i] = bad[i] >> sh | up;
      }
    if (have != good && have == bad) c.known("complex-resource-long-advance");
  }
  w.Verify();
}

void Operand(Ctx& c) {
  int depth = c.pick({1, 2, 5, 62, 63, 64, 65, 66, 127, 128, 129, 192}, "depth");
  World w(c, depth);
  int words = (depth + 63) / 64;
  ComplexResourceOperand op(&w.res), none(nullptr);
  Words mask;  // the mask in force
  c.check(op.AsString() == "r" && op.bit_array().empty(), "fresh operand");
  c.check(op.IsFree(), "an operand without a mask is not free");
  for (int round = 0; round < 2; round++) {
    if (c.flip("span")) {
      int len = c.choose(words + 2, "length");
      Words s;
      uint64_t bits = depth % 64;
      for (int i = 0; i < len; i++) {
        int v = c.choose(i == len - 1 || i == 0 ? 5 : 2, "word");
        s.push_back(v == 0   ? 0
                    : v == 1 ? 1
                    : v == 2 ? 1ull << 63
                    : v == 3 ? 1ull << bits
                             : 1ull << ((bits + 63) % 64));
      }
      bool ok = len <= words, any = false;
      for (size_t i = 0; i < s.size() * 64; i++)
        if (s[i / 64] >> (i % 64) & 1) {
          any = true;
          if ((int)i >= depth) ok = false;
        }
      ok = ok && any;
      c.op("SetCycleMask(%d words)", len);
      c.check(!none.SetCycleMask(s).ok(), "a mask without a resource was accepted");
      auto st = op.SetCycleMask(s);
      c.check(st.ok() == ok, "depth %d: mask of %d words, last %llx: %s", depth, len,
              len ? (unsigned long long)s.back() : 0ull, st.ok() ? "accepted" : "refused");
      if (ok) mask = s;
    } else {
      std::vector<int> v = {0, 1, 62, 63, 64, 65, 127, 128, 129, 191, 192};
      int b = c.pick(v, "begin"), e = c.pick(v, "end");
      bool ok = b <= e && e < depth;
      c.op("SetCycleMask(%d, %d)", b, e);
      c.check(!none.SetCycleMask(b, e).ok(), "a mask without a resource was accepted");
      auto st = op.SetCycleMask(b, e);
      c.check(st.ok() == ok, "depth %d: mask [%d, %d] %s", depth, b, e,
              st.ok() ? "accepted" : "refused");
      if (ok) {
        mask.assign(words, 0);
        for (int i = b; i <= e; i++) mask[i / 64] |= 1ull << (i % 64);
      }
    }
    if (!c.fresh()) continue;
    Words have = Of(op.bit_array());
    c.check((int)have.size() <= words, "mask of %zu words", have.size());
    Words a = have, b = mask;
    a.resize(words);
    b.resize(words);
    c.check(a == b, "depth %d: the operand has another mask", depth);
  }
  // Against the resource (whole words only: see the known finding).
  if (depth % 64) return;
  Words pre = Mask({c.pick({0, 1, 63, depth - 1}, "reserved")}, words);
  w.Acquire(pre);
  bool f = w.ModelFree(mask);
  c.check(op.IsFree() == f, "operand is %s", f ? "reserved" : "free");
  op.Acquire();
  for (size_t i = 0; i < mask.size() * 64; i++)
    if (mask[i / 64] >> (i % 64) & 1) w.busy.insert(i);
  w.Verify();
  w.Advance(1);
  c.check(op.IsFree() == w.ModelFree(mask), "operand one cycle later");
  w.Verify();
}

}  // namespace

int main(int argc, char** argv) {
  return mc::Main(
      argc, argv, "C13",
      {{"window", Window, 3}, {"depths", Depths, 2}, {"jump", Jump, 2}, {"operand", Operand, 3}},
      "windows of 64, 128 and 192 cycles: all histories of 4 (5) acquire, release "
      "and advance steps over 6 masks and 6 distances; every depth up to 140 (260) "
      "with every cycle followed to the present; every single advance up to the depth "
      "of 1-4 words; all pairs of mask settings over 12 depths");
}
