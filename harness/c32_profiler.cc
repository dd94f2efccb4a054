// C32: the instruction profiler counts exactly the executed addresses.
#include <memory>
#include <sstream>

#include "elf.h"
#include "mem.h"
#include "mpact/sim/util/other/instruction_profiler.h"
#include "mpact/sim/util/program_loader/elf_program_loader.h"

using namespace mem;
using mc::S;

namespace {
struct NullMem : MemoryInterface {
  void Store(uint64_t, DataBuffer*) override {}
  void Store(DataBuffer*, DataBuffer*, int, DataBuffer*) override {}
  void Load(uint64_t, DataBuffer*, Instruction*, ReferenceCount*) override {}
  void Load(DataBuffer*, DataBuffer*, int, DataBuffer*, Instruction*, ReferenceCount*) override {}
};
struct R {
  uint64_t lo, hi;
};

void Run(Ctx& c, int nseg, int depth) {
  unsigned g = c.pick<unsigned>({1, 2, 4}, "granularity");
  elf::File f;
  f.symtab = false;
  std::vector<R> code;
  uint64_t at = c.pick<uint64_t>({0, 0x1000, 0xffff800000000000ull}, "start");
  std::string what;
  for (int i = 0; i < nseg; i++) {
    if (i) at += g * (nseg > 2 ? c.pick<uint64_t>({0, 0xfff, 0x1000}, "gap")
                             : c.pick<uint64_t>({0, 1, 0xfff, 0x1000, 0x1001, 0x20000}, "gap"));
    uint64_t n = g * (nseg > 1 ? c.pick<uint64_t>({1, 5}, "size") : c.pick<uint64_t>({1, 2, 5}, "size"));
    int kind = nseg == 1 ? 3 * c.choose(2, "kind") : c.choose(nseg > 2 ? 3 : 4, "kind");
    if (kind % 3 == 0) code.push_back({at, at + n});
    elf::Seg s{kind == 2 ? 4u : 1u, kind == 1 ? 6u : kind == 3 ? 7u : 5u, at, 0, n, ""};
    if (i == 0) s.data = "x";
    what += S(" %llx+%d/%d", (unsigned long long)at, (int)n, kind);
    f.segs.push_back(s);
    at += n;
  }
  int when = c.choose(3, "loader");
  c.op("granularity %u, segments%s, loader %d", g, what.c_str(), when);
  NullMem m;
  ElfProgramLoader l(&m);
  std::string file = elf::Write(0, elf::Bytes(f));
  std::unique_ptr<InstructionProfiler> p;
  if (when == 0) {
    if (!l.LoadProgram(file).ok()) abort();
    p = std::make_unique<InstructionProfiler>(l, g);
  } else if (when == 1) {
    p = std::make_unique<InstructionProfiler>(g);
  } else {
    p = std::make_unique<InstructionProfiler>(l, g);
  }
  if (when) {
    if (c.flip("early sample")) p->SetValue(code.empty() ? 0 : code[0].lo);
    if (!l.LoadProgram(file).ok()) abort();
    p->SetElfLoader(&l);
  }
  std::vector<uint64_t> cand{0, ~0ull};
  for (auto& r : code)
    for (uint64_t x : {r.lo - g, r.lo, r.lo + g - 1, r.lo + g, r.hi - g, r.hi - 1, r.hi, r.hi + 0x800 * g}) {
      bool dup = false;
      for (auto y : cand) dup |= x == y;
      if (!dup) cand.push_back(x);
    }
  std::map<uint64_t, uint64_t> want;
  uint64_t lo = code.empty() ? 1 : code[0].lo, hi = code.empty() ? 0 : code.back().hi;
  for (int i = 0; i < depth; i++) {
    int k = c.choose(cand.size() + 1, "sample");
    if (k == 0) break;
    uint64_t x = cand[k - 1];
    c.op("sample 0x%llx", (unsigned long long)x);
    p->SetValue(x);
    for (auto& r : code)
      if (x >= r.lo && x - r.lo < r.hi - r.lo) {
        want[x / g * g]++;
        break;
      }
  }
  std::ostringstream os;
  p->WriteProfile(os);
  std::istringstream is(os.str());
  std::string line;
  std::getline(is, line);
  c.check(line == "Address,Count", "the first line is '%s'", line.c_str());
  std::map<uint64_t, uint64_t> got;
  uint64_t last = 0;
  bool first = true;
  while (std::getline(is, line)) {
    unsigned long long a, n;
    int used = 0;
    c.check(sscanf(line.c_str(), "0x%llx,%llu%n", &a, &n, &used) == 2 && used == (int)line.size(), "line '%s'",
            line.c_str());
    c.check(first || a > last, "the addresses are not in order: 0x%llx after 0x%llx", a, (unsigned long long)last);
    first = false, last = a;
    bool in = false;
    for (auto& r : code) in |= a >= r.lo && a < r.hi;
    if (in) {
      got[a] = n;
    } else {
      c.check(a >= lo && a < hi, "0x%llx, which is not in the program, is listed", a);
    }
  }
  std::string gs, ws;
  for (auto& [a, n] : got) gs += S(" %llx:%llu", (unsigned long long)a, (unsigned long long)n);
  for (auto& [a, n] : want) ws += S(" %llx:%llu", (unsigned long long)a, (unsigned long long)n);
  c.check(got == want, "the profile is%s, expected%s", gs.c_str(), ws.c_str());
  c.outcome(S("%d lines", (int)want.size()));
}
}  // namespace

int main(int argc, char** argv) {
  return mc::Main(argc, argv, "C32",
                  {{"one", [](Ctx& c) { Run(c, 1, c.thorough() ? 6 : 4); }, 5},
                   {"two", [](Ctx& c) { Run(c, 2, c.thorough() ? 4 : 2); }, 6},
                   {"three", [](Ctx& c) { Run(c, 3, c.thorough() ? 3 : 1); }, 7}},
                  "programs of 1-3 segments of every kind and size, 6 gaps around the coalescing distance, 3 granularities and "
                  "starts; all sequences of 4, 2, 1 (thorough 6, 4, 3) samples over the boundaries of the segments",
                  {"ELFIO is replaced by a stand-in that reads the bytes of ELF files",
                   "segments are in order and aligned to the granularity, as documented"});
}
