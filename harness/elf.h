// Builds small ELF files (32 or 64 bit, little endian) for the checks of the
// loader and the instruction profiler.
#ifndef VERIF_ELF_H_
#define VERIF_ELF_H_
#include <sys/mman.h>
#include <unistd.h>

#include <cstdint>
#include <cstdlib>
#include <string>
#include <vector>

#include "mc.h"

namespace elf {
struct Seg {
  uint32_t type, flags;
  uint64_t vaddr, paddr, memsz;
  std::string data;
};
struct Sym {
  std::string name;
  uint64_t value, size;
  int type;  // 0 none, 1 object, 2 function
};
struct File {
  bool wide = true;
  uint64_t entry = 0x1234;
  std::vector<Seg> segs;
  bool symtab = true;
  std::vector<Sym> syms;
};

inline void Put(std::string& s, uint64_t v, int n) {
  for (int i = 0; i < n; i++) s += char(v >> (8 * i));
}
inline std::string Bytes(const File& f) {
  bool w = f.wide;
  int A = w ? 8 : 4, EH = w ? 64 : 52, PH = w ? 56 : 32, SH = w ? 64 : 40, SY = w ? 24 : 16;
  std::string data, strs(1, 0), symtab(SY, 0), shstr("\0.symtab\0.strtab\0.shstrtab\0", 27);
  uint64_t base = EH + PH * f.segs.size();
  std::string ph;
  for (auto& s : f.segs) {
    uint64_t off = base + data.size();
    data += s.data;
    Put(ph, s.type, 4);
    if (w) Put(ph, s.flags, 4);
    Put(ph, off, A), Put(ph, s.vaddr, A), Put(ph, s.paddr, A), Put(ph, s.data.size(), A), Put(ph, s.memsz, A);
    if (!w) Put(ph, s.flags, 4);
    Put(ph, 1, A);
  }
  for (auto& s : f.syms) {
    uint32_t n = strs.size();
    strs += s.name + '\0';
    Put(symtab, n, 4);
    if (w) {
      Put(symtab, 0x10 | s.type, 1), Put(symtab, 0, 1), Put(symtab, 1, 2), Put(symtab, s.value, 8), Put(symtab, s.size, 8);
    } else {
      Put(symtab, s.value, 4), Put(symtab, s.size, 4), Put(symtab, 0x10 | s.type, 1), Put(symtab, 0, 1), Put(symtab, 1, 2);
    }
  }
  std::string sh(SH, 0);
  int nsh = f.symtab ? 4 : 2;
  auto section = [&](int name, int type, int link, int ent, const std::string& d) {
    uint64_t off = base + data.size();
    data += d;
    Put(sh, name, 4), Put(sh, type, 4), Put(sh, 0, A), Put(sh, 0, A), Put(sh, off, A), Put(sh, d.size(), A);
    Put(sh, link, 4), Put(sh, 0, 4), Put(sh, 1, A), Put(sh, ent, A);
  };
  if (f.symtab) {
    section(1, 2, 2, SY, symtab);
    section(9, 3, 0, 0, strs);
  }
  section(17, 3, 0, 0, shstr);
  std::string o("\x7f" "ELF", 4);
  o += char(w ? 2 : 1), o += char(1), o += char(1), o.resize(16);
  Put(o, 2, 2), Put(o, 243, 2), Put(o, 1, 4), Put(o, f.entry, A), Put(o, f.segs.empty() ? 0 : EH, A);
  Put(o, base + data.size(), A), Put(o, 0, 4), Put(o, EH, 2), Put(o, PH, 2), Put(o, f.segs.size(), 2);
  Put(o, SH, 2), Put(o, nsh, 2), Put(o, nsh - 1, 2);
  return o + ph + data + sh;
}
// Makes the bytes the contents of in-memory file k of this process; its name.
inline std::string Write(int k, const std::string& b) {
  mc::NoTrack nt;
  static int pid = 0;
  static int fds[8];
  if (pid != getpid()) {
    pid = getpid();
    for (auto& f : fds) f = memfd_create("elf", 0);
  }
  if (ftruncate(fds[k], 0) || pwrite(fds[k], b.data(), b.size(), 0) != (ssize_t)b.size()) abort();
  return mc::S("/proc/self/fd/%d", fds[k]);
}
}  // namespace elf
#endif
