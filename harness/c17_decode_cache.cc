// C17: the decode cache.
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>

#include "mc.h"
#include "mpact/sim/generic/decode_cache.h"
#include "mpact/sim/generic/decoder_interface.h"
#include "mpact/sim/generic/instruction.h"

using mc::Ctx;
using namespace mpact::sim::generic;

namespace {

struct World;
struct Inst : Instruction {
  World* w;
  int serial;
  Inst(World* w, int s, uint64_t a);
  ~Inst() override;
};
struct World : DecoderInterface {
  Ctx& c;
  std::map<int, uint64_t> live;  // serial -> address
  int decodes = 0;
  uint64_t undecodable = 12345;
  explicit World(Ctx& c) : c(c) {}
  Instruction* DecodeInstruction(uint64_t a) override {
    decodes++;
    if (a == undecodable) return nullptr;
    return new Inst(this, decodes, a);
  }
  int GetNumOpcodes() const override { return 1; }
  const char* GetOpcodeName(int) const override { return "op"; }
};
Inst::Inst(World* w, int s, uint64_t a) : Instruction(a, nullptr), w(w), serial(s) {
  w->live[s] = a;
}
Inst::~Inst() { w->live.erase(serial); }

struct Entry {
  uint64_t addr;
  int serial;
};

struct Params {
  uint32_t entries, inc;
  std::vector<uint64_t> addrs, bounds;
};

void Run(Ctx& c, const Params& p, int depth) {
  World w(c);
  std::unique_ptr<DecodeCache> dc(DecodeCache::Create({p.entries, p.inc}, &w));
  c.check(dc != nullptr, "no cache was made");
  int n = 1;
  while (n < (int)p.entries) n *= 2;
  int shift = 0;
  while ((1u << shift) < p.inc) shift++;
  c.check(dc->num_entries() == n && dc->address_inc() == (int)p.inc &&
              dc->address_shift() == shift &&
              dc->address_mask() == (uint64_t)(n - 1) << shift,
          "geometry of the cache");
  w.undecodable = p.addrs.back();
  auto index = [&](uint64_t a) { return (a >> shift) & (n - 1); };
  std::map<uint64_t, Entry> m;
  struct H {
    Instruction* i;
    int serial;
    uint64_t addr;
  };
  std::vector<H> held;
  auto verify = [&] {
    std::map<int, uint64_t> want;
    for (auto& [k, e] : m) want[e.serial] = e.addr;
    for (auto& h : held) want[h.serial] = h.addr;
    c.check(w.live == want, "%zu instructions exist, %zu expected", w.live.size(), want.size());
    for (auto& h : held)
      c.check(h.i->address() == h.addr && ((Inst*)h.i)->serial == h.serial, "a held instruction changed");
  };
  auto get = [&](uint64_t a) -> Instruction* {
    int before = w.decodes;
    Instruction* i = dc->GetDecodedInstruction(a);
    auto it = m.find(index(a));
    if (it != m.end() && it->second.addr == a) {
      c.check(w.decodes == before, "a cached instruction was decoded again");
      c.check(i != nullptr && i->address() == a && ((Inst*)i)->serial == it->second.serial,
              "another instruction for %llx", (unsigned long long)a);
    } else {
      c.check(w.decodes == before + 1, "%d decodes for an address not cached", w.decodes - before);
      if (a == w.undecodable) {
        c.check(i == nullptr, "an instruction where there is none");
      } else {
        c.check(i != nullptr && i->address() == a && ((Inst*)i)->serial == w.decodes,
                "another instruction for %llx", (unsigned long long)a);
        m[index(a)] = {a, w.decodes};
      }
    }
    return i;
  };
  for (int d = 0; d < depth; d++) {
    int k = c.choose(5, "op");
    if (k == 0) {
      uint64_t a = c.pick(p.addrs, "address");
      c.op("Get(%llx)", (unsigned long long)a);
      get(a);
    } else if (k == 1) {
      uint64_t a = c.pick(p.addrs, "address");
      c.op("Invalidate(%llx)", (unsigned long long)a);
      dc->Invalidate(a);
      auto it = m.find(index(a));
      if (it != m.end() && it->second.addr == a) m.erase(it);
    } else if (k == 2) {
      uint64_t s = c.pick(p.bounds, "start"), e = c.pick(p.bounds, "end");
      c.op("InvalidateRange(%llx, %llx)", (unsigned long long)s, (unsigned long long)e);
      dc->InvalidateRange(s, e);
      for (auto it = m.begin(); it != m.end();)
        if (it->second.addr >= s && it->second.addr < e) it = m.erase(it);
        else ++it;
    } else if (k == 3) {
      c.op("InvalidateAll()");
      dc->InvalidateAll();
      m.clear();
    } else {
      if (!held.empty() && c.flip("release")) {
        c.op("release");
        held.back().i->DecRef();
        held.pop_back();
      } else {
        uint64_t a = c.pick(p.addrs, "address");
        c.op("hold %llx", (unsigned long long)a);
        auto* i = get(a);
        if (i) {
          i->IncRef();
          held.push_back({i, ((Inst*)i)->serial, a});
        }
      }
    }
    if (c.fresh()) verify();
    std::string s = mc::S("%u,%u;", p.entries, p.inc);
    for (auto& [x, e] : m) s += mc::S("%llx,", (unsigned long long)e.addr);
    for (auto& h : held) s += mc::S("h%llx,", (unsigned long long)h.addr);
    c.state(s);
  }
  // Everything that should be cached is (and is found there).
  auto copy = m;
  for (auto& [k, e] : copy) get(e.addr);
  dc.reset();
  m.clear();
  verify();
  for (auto& h : held) h.i->DecRef();
  held.clear();
  verify();
}

void Small(Ctx& c) {
  static const std::vector<Params> ps = {
      // The last address cannot be decoded.
      {4, 4, {0, 4, 16, 6, ~0ull - 3, 8}, {0, 1, 4, 5, 7, 16, 17, ~0ull}},
      {3, 1, {0, 1, 3, 4, ~0ull, 2}, {0, 1, 2, 4, 5, ~0ull - 1, ~0ull}},
      {1, 2, {0, 2, 1, 100}, {0, 1, 2, 3, ~0ull}},
      {2, 0x80000000u, {0, 0x80000000u, 0x100000000u, 5}, {0, 1, 0x80000000u, 0x80000001u, ~0ull}},
      {0, 8, {0, 8, 24, 16}, {0, 8, 9, 25}},
  };
  Run(c, c.pick(ps, "cache"), c.thorough() ? 4 : 3);
}
// Longer histories on one small cache with fewer arguments.
void Long(Ctx& c) {
  static const Params p = {2, 4, {0, 8, 4, 12}, {2, 8, 9}};
  Run(c, p, c.thorough() ? 6 : 5);
}
// Every range against every cached address.
void Ranges(Ctx& c) {
  uint32_t inc = 1u << c.choose(4, "increment"), n = c.pick({1, 2, 4, 8}, "entries");
  uint64_t base = c.pick({uint64_t(0), uint64_t(0x1000), ~uint64_t(0) - 31}, "base");
  World w(c);
  std::unique_ptr<DecodeCache> dc(DecodeCache::Create({n, inc}, &w));
  int s = c.choose(c.thorough() ? 34 : 20, "start"), e = c.choose(c.thorough() ? 34 : 20, "end");
  uint64_t start = base + s, end = base + e;
  if (c.flip("far end")) end += 1ull << 40;
  if (end < base) end = ~0ull;
  c.op("InvalidateRange(%llx, %llx)", (unsigned long long)start, (unsigned long long)end);
  for (int off = 0; off < 32; off += inc) {
    uint64_t a = base + off;
    dc->InvalidateAll();
    dc->GetDecodedInstruction(a);
    int before = w.decodes;
    dc->InvalidateRange(start, end);
    bool gone = w.live.empty();
    c.check(gone == (a >= start && a < end), "address %llx, range [%llx, %llx): %s", (unsigned long long)a,
            (unsigned long long)start, (unsigned long long)end, gone ? "removed" : "kept");
    dc->GetDecodedInstruction(a);
    c.check((w.decodes != before) == gone, "decoded again: %d", w.decodes - before);
  }
}
void Geometry(Ctx& c) {
  World w(c);
  uint32_t inc = c.pick({0u, 1u, 2u, 3u, 4u, 5u, 6u, 7u, 8u, 12u, 16u, 65536u, 65537u, 0x80000000u, 0xffffffffu},
                        "increment");
  uint32_t entries = c.pick({0u, 1u, 2u, 3u, 5u, 16u, 17u, 1000u, 65536u}, "entries");
  std::unique_ptr<DecodeCache> dc(DecodeCache::Create({entries, inc}, &w));
  bool ok = inc && !(inc & (inc - 1));
  c.op("Create(%u, %u)", entries, inc);
  c.check((dc != nullptr) == ok, "increment %u: %s", inc, dc ? "accepted" : "refused");
  if (!ok) return;
  uint64_t n = 1;
  while (n < entries) n *= 2;
  c.check((uint64_t)dc->num_entries() == n, "%d entries, %d expected", dc->num_entries(), (int)n);
  // As many instructions as there are entries can be held at once.
  int m = n < 64 ? n : 64;
  for (uint64_t base : {uint64_t(0), n * inc * 3, uint64_t(0x8000000000000000)}) {
    for (int i = 0; i < m; i++) dc->GetDecodedInstruction(base + (n - 1 - i) * inc);
    int before = w.decodes;
    for (int i = 0; i < m; i++) dc->GetDecodedInstruction(base + (n - 1 - i) * inc);
    c.check(w.decodes == before, "neighbouring instructions evict each other");
  }
}

}  // namespace

int main(int argc, char** argv) {
  return mc::Main(argc, argv, "C17",
                  {{"small", Small, 3}, {"long", Long, 3}, {"ranges", Ranges, 2}, {"geometry", Geometry, 1}},
                  "5 cache geometries: all histories of 3 (4) operations over 4-6 addresses and "
                  "4-8 range bounds including the ends of the address space; 2 entries: all "
                  "histories of 5 (6); every range of 20 (34) starts and ends for 4 increments and "
                  "4 sizes; 135 geometries");
}
