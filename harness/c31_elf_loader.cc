// C31: the ELF loader: segments, entry, stack size and symbols as in the file.
#include <memory>
#include <set>

#include "absl/status/status.h"
#include "absl/status/statusor.h"
#include "elf.h"
#include "mem.h"
#include "mpact/sim/generic/core_debug_interface.h"
#include "mpact/sim/util/program_loader/elf_program_loader.h"

using namespace mem;
using mc::S;

namespace {

// What was written: (memory, address) -> bytes in the order written.
using Written = std::map<std::pair<int, uint64_t>, std::string>;

struct Mem : MemoryInterface {
  int id;
  Written* w;
  Mem(int id, Written* w) : id(id), w(w) {}
  void Store(uint64_t a, DataBuffer* db) override {
    auto s = db->Get<uint8_t>();
    for (size_t i = 0; i < s.size(); i++) (*w)[{id, a + i}] += char(s[i]);
  }
  void Store(DataBuffer*, DataBuffer*, int, DataBuffer*) override { abort(); }
  void Load(uint64_t, DataBuffer*, Instruction*, ReferenceCount*) override { abort(); }
  void Load(DataBuffer*, DataBuffer*, int, DataBuffer*, Instruction*, ReferenceCount*) override { abort(); }
};

struct Dbg : CoreDebugInterface {
  Written* w;
  int fault = -1, kind = 0, n = 0;
  explicit Dbg(Written* w) : w(w) {}
  absl::StatusOr<size_t> WriteMemory(uint64_t a, const void* b, size_t k) override {
    if (n++ == fault) {
      if (kind == 0) return absl::InternalError("no");
      return k - 1;
    }
    for (size_t i = 0; i < k; i++) (*w)[{0, a + i}] += ((const char*)b)[i];
    return k;
  }
  absl::Status No() { return absl::InternalError("no"); }
  absl::Status Halt() override { return No(); }
  absl::Status Halt(HaltReason) override { return No(); }
  absl::Status Halt(HaltReasonValueType) override { return No(); }
  absl::StatusOr<int> Step(int) override { return No(); }
  absl::Status Run() override { return No(); }
  absl::Status Wait() override { return No(); }
  absl::StatusOr<RunStatus> GetRunStatus() override { return No(); }
  absl::StatusOr<HaltReasonValueType> GetLastHaltReason() override { return No(); }
  absl::StatusOr<uint64_t> ReadRegister(const std::string&) override { return No(); }
  absl::Status WriteRegister(const std::string&, uint64_t) override { return No(); }
  absl::StatusOr<DataBuffer*> GetRegisterDataBuffer(const std::string&) override { return No(); }
  absl::StatusOr<size_t> ReadMemory(uint64_t, void*, size_t) override { return No(); }
  bool HasBreakpoint(uint64_t) override { return false; }
  absl::Status SetSwBreakpoint(uint64_t) override { return No(); }
  absl::Status ClearSwBreakpoint(uint64_t) override { return No(); }
  absl::Status ClearAllSwBreakpoints() override { return No(); }
  absl::StatusOr<Instruction*> GetInstruction(uint64_t) override { return No(); }
  absl::StatusOr<std::string> GetDisassembly(uint64_t) override { return No(); }
};

const uint32_t kStack = 0x6474e551;

std::string Show(const Written& w) {
  std::string r;
  for (auto& [k, v] : w) r += S(" %d:%llx=", k.first, (unsigned long long)k.second) + Hex(mem::Bytes(v.begin(), v.end()));
  return r.substr(0, 300);
}

void Segments(Ctx& c) {
  elf::File f;
  f.wide = c.flip("64 bit");
  f.entry = f.wide ? 0x8000000000001000ull : 0x80001000u;
  int n = 1 + c.choose(c.thorough() ? 3 : 2, "segments");
  int dest = c.choose(8, "destination");
  std::string what;
  int loads = 0;
  Written want;
  uint64_t stack = 0;
  for (int i = 0; i < n; i++) {
    elf::Seg s;
    int t = c.choose(4, "type");
    s.type = t == 0 ? 1 : t == 1 ? kStack : t == 2 ? 4 : 0x70000003;
    s.flags = 4, s.vaddr = i == 0 && n == 2 ? 0 : 0x1000 * (i + 1), s.paddr = 0, s.memsz = 0;
    if (f.wide && i == 1) s.vaddr |= 1ull << 63;
    if (t == 0) {
      s.flags = c.pick<uint32_t>({5, 6, 7}, "flags");
      s.data = std::string(c.pick<int>({0, 1, 5}, "bytes"), 0);
      for (size_t k = 0; k < s.data.size(); k++) s.data[k] = char(0x10 * (i + 1) + k);
      s.memsz = s.data.size() + (c.flip("bss") ? 4 : 0);
      int p = c.choose(3, "paddr");
      s.paddr = p == 0 ? 0 : p == 1 ? s.vaddr : 0x40000 + 0x100 * i;
      uint64_t at = s.paddr ? s.paddr : s.vaddr;
      bool x = s.flags & 1, wr = s.flags & 2;
      int m = -1;
      switch (dest) {
        case 0: m = x ? 0 : 1; break;                   // code and data memory
        case 1: m = 0; break;                           // one memory
        case 2: m = wr ? 0 : 1; if (m == 1) at += 0x77; break;  // two descriptors
        case 3: m = wr ? -1 : 0; break;                 // a descriptor that accepts some
        case 7: m = wr ? 0 : 1; if (m == 1) at += 0x77; break;
        default: m = 0;                                 // debug interface
      }
      if (!s.data.empty()) {
        int k = loads++;
        if (dest == 5 && k >= 1) m = -2;
        if (dest == 6 && k >= 0) m = -2;
        if (m >= 0)
          for (size_t b = 0; b < s.data.size(); b++) want[{m, at + b}] = s.data.substr(b, 1);
      }
    } else {
      s.memsz = c.choose(2, "stack") * 0x24680;
      s.data = t == 2 ? "note" : "";
      if (t == 1 && s.memsz) stack = s.memsz;
      if (t == 1 && !s.memsz) stack = 0;
    }
    what += S(" [%x %x v%llx p%llx %d/%d]", s.type, s.flags, (unsigned long long)s.vaddr, (unsigned long long)s.paddr,
              (int)s.data.size(), (int)s.memsz);
    f.segs.push_back(s);
  }
  int stacks = 0;
  for (auto& s : f.segs) stacks += s.type == kStack;
  if (stacks > 1) c.prune();
  Written got;
  Mem m0(0, &got), m1(1, &got);
  Dbg dbg(&got);
  if (dest == 5) dbg.fault = 1, dbg.kind = 0;
  if (dest == 6) dbg.fault = 0, dbg.kind = 1;
  std::vector<MemoryDescriptor> md;
  std::unique_ptr<ElfProgramLoader> l;
  if (dest == 0) l = std::make_unique<ElfProgramLoader>(&m0, &m1);
  if (dest == 1) l = std::make_unique<ElfProgramLoader>(&m0);
  if (dest == 2) {
    md.push_back({&m0, [](const ELFIO::segment& s) { return (s.get_flags() & 2) != 0; }, nullptr});
    md.push_back({&m1, [](const ELFIO::segment&) { return true; }, [](uint64_t a) { return a + 0x77; }});
    l = std::make_unique<ElfProgramLoader>(md);
  }
  if (dest == 3) {
    md.push_back({&m0, [](const ELFIO::segment& s) { return (s.get_flags() & 2) == 0; }, nullptr});
    l = std::make_unique<ElfProgramLoader>(md);
  }
  if (dest == 7) {
    md.push_back({&m1, [](const ELFIO::segment& s) { return (s.get_flags() & 2) == 0; }, [](uint64_t a) { return a + 0x77; }});
    md.push_back({&m0, [](const ELFIO::segment&) { return true; }, nullptr});
    md.push_back({&m1, [](const ELFIO::segment&) { return true; }, nullptr});
    l = std::make_unique<ElfProgramLoader>(md);
  }
  if (dest >= 4 && dest < 7) l = std::make_unique<ElfProgramLoader>(&dbg);
  std::string name = elf::Write(0, elf::Bytes(f));
  bool symbols_only = c.flip("symbols only");
  c.op("%s, destination %d:%s", symbols_only ? "load symbols" : "load", dest, what.c_str());
  c.check(!l->GetStackSize().ok() && !l->GetSymbol("x").ok() && !l->GetFcnSymbolName(0).ok() &&
              !l->GetFunctionName(0).ok(), "answers before a file is loaded");
  auto r = symbols_only ? l->LoadSymbols(name) : l->LoadProgram(name);
  if (symbols_only) {
    c.check(r.ok() && r.value() == f.entry, "the entry point of LoadSymbols");
    c.check(got.empty(), "LoadSymbols wrote to memory");
    return;
  }
  bool fault = dbg.fault >= 0 && loads > dbg.fault;
  if (fault) {
    c.check(!r.ok(), "LoadProgram succeeds though a write failed");
    return;
  }
  c.check(r.ok(), "LoadProgram failed: %s", std::string(r.status().message()).c_str());
  c.check(r.value() == f.entry, "the entry point is 0x%llx", (unsigned long long)*r);
  c.check(got == want, "written:%s, expected:%s", Show(got).c_str(), Show(want).c_str());
  auto st = l->GetStackSize();
  c.check(st.ok() == (stack > 0), "the stack size is %s", st.ok() ? "found" : "not found");
  if (st.ok()) c.check(*st == stack, "the stack size is 0x%llx", (unsigned long long)*st);
  c.outcome(S("%d writes", (int)want.size()));
}

void Query(Ctx& c, const ElfProgramLoader& l, const elf::File& f, uint64_t scale, const std::vector<std::string>& names,
           const std::vector<uint64_t>& addrs) {
  for (auto& n : names) {
    auto r = l.GetSymbol(n);
    std::set<std::pair<uint64_t, uint64_t>> want;
    for (auto& s : f.syms)
      if (s.name == n && f.symtab) want.insert({s.value, s.size});
    if (want.empty())
      c.check(!r.ok(), "a symbol %s is found", n.c_str());
    else
      c.check(r.ok() && want.count(*r), "symbol %s is %s", n.c_str(),
              r.ok() ? S("0x%llx, size %lld", (unsigned long long)r->first, (long long)r->second).c_str() : "not found");
  }
  for (auto a : addrs) {
    std::set<std::string> at, in;
    std::string all;
    for (auto& s : f.syms)
      if (s.type == 2 && f.symtab) {
        if (s.value == a) at.insert(s.name);
        if (a >= s.value && a - s.value < s.size / scale) in.insert(s.name);
      }
    auto r = l.GetFcnSymbolName(a);
    c.check(r.ok() == !at.empty(), "a function symbol at 0x%llx is %s", (unsigned long long)a,
            r.ok() ? "found" : "not found");
    if (r.ok()) c.check(at.count(*r), "the function at 0x%llx is called %s", (unsigned long long)a, r->c_str());
    auto q = l.GetFunctionName(a);
    c.check(q.ok() == !in.empty(), "a function around 0x%llx is %s", (unsigned long long)a,
            q.ok() ? "found" : "not found");
    if (q.ok()) c.check(in.count(*q), "the function around 0x%llx is %s", (unsigned long long)a, q->c_str());
  }
}

void Symbols(Ctx& c) {
  elf::File f;
  f.wide = c.flip("64 bit");
  uint64_t scale = 1 + c.choose(2, "scale");
  uint64_t b = f.wide ? 0xffff800000000100ull : 0x100;
  int max = c.thorough() ? 4 : 3;
  int n = c.choose(max + 2, "symbols");
  if (n == max + 1) f.symtab = false, n = 0;
  std::string what;
  for (int i = 0; i < n; i++) {
    elf::Sym s;
    s.type = i == max - 1 || i == 0 ? 2 : c.pick<int>({2, 1, 0}, "type");
    s.value = b + 4 * c.choose(4, "value");
    s.size = scale * c.pick<uint64_t>({0, 4, 8, 12}, "size");
    s.name = std::string(1, i == 2 && c.flip("same name") ? 'a' : 'a' + i);
    what += S(" %s:%d:%llx+%d", s.name.c_str(), s.type, (unsigned long long)s.value, (int)s.size);
    f.syms.push_back(s);
  }
  c.op("symbols%s, scale %d", what.c_str(), (int)scale);
  Written w;
  Mem m(0, &w);
  ElfProgramLoader l(&m);
  l.set_text_size_scale(scale);
  auto r = l.LoadSymbols(elf::Write(0, elf::Bytes(f)));
  c.check(r.ok(), "LoadSymbols failed");
  std::vector<uint64_t> a;
  for (int i = -1; i < 26; i++) a.push_back(b + i);
  Query(c, l, f, scale, {"a", "b", "c", "d", "e"}, a);
}

void Reload(Ctx& c) {
  elf::File f[3];
  f[0].entry = 0x10, f[1].entry = 0x20, f[2].entry = 0x30;
  f[0].syms = {{"a", 0x100, 8, 2}, {"x", 0x200, 4, 1}};
  f[1].syms = {{"b", 0x104, 8, 2}, {"x", 0x300, 8, 1}};
  f[2].symtab = false;
  f[0].segs = {{1, 5, 0x1000, 0, 3, "abc"}, {kStack, 6, 0, 0, 0x5000, ""}};
  f[1].segs = {{1, 5, 0x1000, 0, 3, "xyz"}};
  f[2].segs = {{1, 6, 0x1001, 0, 3, "pqr"}, {kStack, 6, 0, 0, 0x6000, ""}};
  std::string names[5];
  for (int i = 0; i < 3; i++) names[i] = elf::Write(i, elf::Bytes(f[i]));
  names[3] = elf::Write(3, "This is not an ELF file. It has some text in it, and that is all there is in it......");
  names[4] = "/nonexistent/file";
  Written w;
  Mem m(0, &w);
  ElfProgramLoader l(&m);
  int cur = -1;
  for (int k = 0; k < (c.thorough() ? 5 : 4); k++) {
    int op = c.choose(11, "load");
    if (op == 10) break;
    int i = op % 5;
    bool program = op < 5;
    c.op("%s(file %d)", program ? "LoadProgram" : "LoadSymbols", i);
    w.clear();
    auto r = program ? l.LoadProgram(names[i]) : l.LoadSymbols(names[i]);
    c.check(r.ok() == (i < 3), "loading file %d %s", i, r.ok() ? "succeeds" : "fails");
    if (!r.ok()) {
      c.check(w.empty(), "a failed load wrote to memory");
      c.check(absl::IsNotFound(r.status()) == (i == 4), "the error of a failed load");
      // Whether the previous file's symbols are still there is open.
      (void)l.GetSymbol("x");
      (void)l.GetFunctionName(0x104);
      (void)l.GetFcnSymbolName(0x100);
      cur = -1;
      continue;
    }
    cur = i;
    c.check(*r == f[i].entry, "the entry point");
    std::string t;
    for (auto& [key, v] : w) t += v;
    c.check(t == (program ? f[i].segs[0].data : ""), "wrote %s", t.c_str());
    Query(c, l, f[i], 1, {"a", "b", "x"}, {0x100, 0x104, 0x108, 0x10b, 0x10c});
    if (program) {
      auto s = l.GetStackSize();
      uint64_t want = i == 0 ? 0x5000 : i == 2 ? 0x6000 : 0;
      c.check(s.ok() == (want != 0), "the stack size is %s", s.ok() ? "found" : "not found");
      if (s.ok()) c.check(*s == want, "the stack size is %llx", (unsigned long long)*s);
    }
  }
}
}  // namespace

int main(int argc, char** argv) {
  return mc::Main(argc, argv, "C31",
                  {{"segments", Segments, 4}, {"symbols", Symbols, 4}, {"reload", Reload, 2}},
                  "all files of 1-2 (thorough 3) segments of 4 types, 3 protections, 3 sizes with and without bss and 3 "
                  "kinds of addresses, into 8 kinds of destinations; all symbol tables of up to 3 (4) symbols, every address "
                  "queried; all sequences of 4 (5) loads over 5 files",
                  {"ELFIO is replaced by a stand-in that reads the bytes of ELF files (it passes the upstream test with its "
                   "executables)"});
}
