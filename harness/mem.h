// Shared by the checks of the memory classes: a reference memory, data buffer
// helpers and an instruction whose execution is recorded.
#ifndef VERIF_MEM_H_
#define VERIF_MEM_H_
#include <cstring>
#include <map>
#include <string>
#include <vector>

#include "mc.h"
#include "mpact/sim/generic/arch_state.h"
#include "mpact/sim/generic/data_buffer.h"
#include "mpact/sim/generic/instruction.h"
#include "mpact/sim/generic/ref_count.h"
#include "mpact/sim/util/memory/memory_interface.h"
#include "mpact/sim/util/memory/tagged_memory_interface.h"

namespace mem {
using mc::Ctx;
using namespace mpact::sim::generic;
using namespace mpact::sim::util;
using Bytes = std::vector<uint8_t>;

class State : public ArchState {
 public:
  State() : ArchState("s") {}
};

inline std::string Hex(const Bytes& b) {
  std::string r;
  for (auto x : b) r += mc::S("%02x", x);
  return r;
}
inline Bytes Get(DataBuffer* db) {
  auto s = db->Get<uint8_t>();
  return Bytes(s.begin(), s.end());
}

// Buffers that are released with the scope.
struct Dbs {
  DataBufferFactory f;
  std::vector<DataBuffer*> all;
  ~Dbs() {
    for (auto* d : all) d->DecRef();
  }
  DataBuffer* New(int n, int latency = 0) {
    DataBuffer* d = f.Allocate<uint8_t>(n);
    d->set_latency(latency);
    all.push_back(d);
    return d;
  }
  DataBuffer* Of(const Bytes& b) {
    DataBuffer* d = New(b.size());
    if (!b.empty()) memcpy(d->raw_ptr(), b.data(), b.size());
    return d;
  }
  DataBuffer* Addr(const std::vector<uint64_t>& a) {
    DataBuffer* d = New(a.size() * 8);
    memcpy(d->raw_ptr(), a.data(), a.size() * 8);
    return d;
  }
  DataBuffer* Mask(unsigned bits, int n) {
    DataBuffer* d = New(n);
    for (int i = 0; i < n; i++) d->Set<bool>(i, (bits >> i) & 1);
    return d;
  }
};

// Byte memory of the reference model, addressed by unit address.
struct Ref {
  uint64_t base, size;  // in units; size 0 means the whole address space
  unsigned unit;
  uint8_t fill;
  std::map<std::pair<uint64_t, unsigned>, uint8_t> m;  // (unit address, byte in unit)
  Ref(uint64_t base, uint64_t size, unsigned unit, uint8_t fill)
      : base(base), size(size), unit(unit), fill(fill) {}
  // Whether an access of n bytes at the unit address is within the memory.
  bool In(uint64_t a, uint64_t n) const {
    unsigned __int128 lo = (unsigned __int128)a * unit, b = (unsigned __int128)base * unit,
                      e = b + (unsigned __int128)size * unit;
    unsigned __int128 top = ((unsigned __int128)1 << 64) * unit;
    if (e > top) e = top;
    return lo >= b && lo + n <= e;
  }
  uint8_t Byte(uint64_t a, uint64_t k) const {
    auto it = m.find({a + k / unit, k % unit});
    return it == m.end() ? fill : it->second;
  }
  void Put(uint64_t a, uint64_t k, uint8_t v) { m[{a + k / unit, k % unit}] = v; }
  Bytes Read(uint64_t a, int n) const {
    Bytes r(n);
    for (int i = 0; i < n; i++) r[i] = Byte(a, i);
    return r;
  }
  void Write(uint64_t a, const Bytes& b) {
    for (size_t i = 0; i < b.size(); i++) Put(a, i, b[i]);
  }
};

// Address of element i of a vector access.
inline uint64_t ElAddr(const std::vector<uint64_t>& a, int i, int el, unsigned unit) {
  return a.size() > 1 ? a[i] : a[0] + (uint64_t)i * el / unit;
}

// A recorded instruction and context.
struct Log {
  int insts = 0, ctxs = 0;  // alive
  std::vector<std::string> runs;
};
struct Context : ReferenceCount {
  Log* l;
  int id;
  Context(Log* l, int id) : l(l), id(id) { l->ctxs++; }
  ~Context() override { l->ctxs--; }
};
struct Inst : Instruction {
  Log* l;
  Inst(Log* l, ArchState* s, int id) : Instruction(id, s), l(l) {
    l->insts++;
    set_semantic_function([l](const Instruction* i) {
      auto* x = static_cast<Context*>(i->context());
      l->runs.push_back(mc::S("%d/%d", (int)i->address(), x ? x->id : -1));
    });
  }
  ~Inst() override { l->insts--; }
};

}  // namespace mem
#endif
