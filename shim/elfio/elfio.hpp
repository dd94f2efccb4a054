// Stand-in for the parts of ELFIO that /repo uses: reads little endian ELF32
// and ELF64 files, and builds them in memory (save() does not lay out a file,
// it writes the contents of the sections in order). As in ELFIO, loading a file destroys the section and segment
// objects of the file loaded before.
#ifndef VERIF_ELFIO_HPP
#define VERIF_ELFIO_HPP
#include <cstring>
#include <fstream>
#include <functional>
#include <memory>
#include <sstream>
#include <string>
#include <vector>

#include "elfio/elf_types.hpp"

namespace ELFIO {

class section {
 public:
  Elf_Half get_index() const { return index_; }
  std::string get_name() const { return name_; }
  Elf_Word get_type() const { return type_; }
  Elf_Xword get_flags() const { return flags_; }
  Elf64_Addr get_address() const { return address_; }
  Elf_Xword get_size() const { return size_; }
  Elf_Word get_link() const { return link_; }
  Elf_Xword get_entry_size() const { return entsize_; }
  const char* get_data() const { return data_.get(); }
  Elf_Word get_info() const { return info_; }
  Elf_Xword get_addr_align() const { return align_; }
  void set_type(Elf_Word v) { type_ = v; }
  void set_flags(Elf_Xword v) { flags_ = v; }
  void set_link(Elf_Word v) { link_ = v; }
  void set_info(Elf_Word v) { info_ = v; }
  void set_entry_size(Elf_Xword v) { entsize_ = v; }
  void set_addr_align(Elf_Xword v) { align_ = v; }
  void set_address(Elf64_Addr v) { address_ = v; }
  void set_size(Elf_Xword v) { size_ = v; }
  void set_data(const char* p, Elf_Xword n) {
    if (type_ == SHT_NOBITS) return;
    std::unique_ptr<char[]> d(new char[n]);
    memcpy(d.get(), p, n);
    data_ = std::move(d);
    size_ = n;
  }
  void set_data(const std::string& s) { set_data(s.data(), s.size()); }
  void append_data(const char* p, Elf_Xword n) {
    if (type_ == SHT_NOBITS) return;
    std::unique_ptr<char[]> d(new char[size_ + n]);
    if (size_) memcpy(d.get(), data_.get(), size_);
    memcpy(d.get() + size_, p, n);
    data_ = std::move(d);
    size_ += n;
  }
  void append_data(const std::string& s) { append_data(s.data(), s.size()); }

  Elf_Half index_ = 0;
  std::string name_;
  Elf_Word type_ = 0, link_ = 0, name_off_ = 0, info_ = 0;
  Elf_Xword flags_ = 0, size_ = 0, entsize_ = 0, offset_ = 0, align_ = 0;
  Elf64_Addr address_ = 0;
  std::unique_ptr<char[]> data_;
};

class segment {
 public:
  Elf_Half get_index() const { return index_; }
  Elf_Word get_type() const { return type_; }
  Elf_Word get_flags() const { return flags_; }
  Elf_Xword get_align() const { return align_; }
  Elf64_Addr get_virtual_address() const { return vaddr_; }
  Elf64_Addr get_physical_address() const { return paddr_; }
  Elf_Xword get_file_size() const { return filesz_; }
  Elf_Xword get_memory_size() const { return memsz_; }
  Elf64_Off get_offset() const { return offset_; }
  const char* get_data() const { return data_.get(); }
  void set_type(Elf_Word v) { type_ = v; }
  void set_flags(Elf_Word v) { flags_ = v; }
  void set_align(Elf_Xword v) { align_ = v; }
  void set_virtual_address(Elf64_Addr v) { vaddr_ = v; }
  void set_physical_address(Elf64_Addr v) { paddr_ = v; }
  Elf_Half add_section_index(Elf_Half i, Elf_Xword align) {
    members_.push_back(i);
    if (align > align_) align_ = align;
    return members_.size();
  }
  Elf_Half get_sections_num() const { return members_.size(); }
  Elf_Half get_section_index_at(Elf_Half i) const { return i < members_.size() ? members_[i] : (Elf_Half)-1; }

  std::vector<Elf_Half> members_;
  Elf_Half index_ = 0;
  Elf_Word type_ = 0, flags_ = 0;
  Elf_Xword align_ = 0, filesz_ = 0, memsz_ = 0, offset_ = 0;
  Elf64_Addr vaddr_ = 0, paddr_ = 0;
  std::unique_ptr<char[]> data_;
};

class elfio {
 public:
  template <typename T>
  class List {
   public:
    Elf_Half size() const { return v_.size(); }
    T* operator[](unsigned i) const { return i < v_.size() ? v_[i].get() : nullptr; }
    auto begin() { return v_.begin(); }
    auto end() { return v_.end(); }
    auto begin() const { return v_.cbegin(); }
    auto end() const { return v_.cend(); }
    std::vector<std::unique_ptr<T>> v_;
  };
  class Sections : public List<section> {
   public:
    using List<section>::operator[];
    section* operator[](const std::string& n) const {
      for (auto& s : v_)
        if (s->get_name() == n) return s.get();
      return nullptr;
    }
    section* add(const std::string& n) {
      v_.push_back(std::make_unique<section>());
      v_.back()->index_ = v_.size() - 1;
      v_.back()->name_ = n;
      return v_.back().get();
    }
  };
  class Segments : public List<segment> {
   public:
    segment* add() {
      v_.push_back(std::make_unique<segment>());
      v_.back()->index_ = v_.size() - 1;
      return v_.back().get();
    }
  };

  elfio() = default;
  void create(unsigned char file_class, unsigned char) {
    sections.v_.clear();
    segments.v_.clear();
    class_ = file_class;
    loaded_ = true;
    type_ = machine_ = entry_ = 0;
    sections.add("")->type_ = SHT_NULL;
    sections.add(".shstrtab")->type_ = SHT_STRTAB;
  }
  void set_os_abi(unsigned char v) { os_abi_ = v; }
  void set_machine(Elf_Half v) { machine_ = v; }
  void set_type(Elf_Half v) { type_ = v; }
  void set_entry(Elf64_Addr v) { entry_ = v; }
  unsigned char get_os_abi() const { return os_abi_; }
  bool save(std::ostream& os) const {
    os << "\x7f" "ELF";
    for (auto& s : sections.v_)
      if (s->data_) os.write(s->data_.get(), s->size_);
    return os.good();
  }
  bool save(const std::string& name) const {
    std::ofstream f(name, std::ios::binary);
    return f && save(f);
  }

  elfio(const elfio&) = delete;
  elfio& operator=(const elfio&) = delete;

  bool load(const std::string& file_name, bool = false) {
    std::ifstream f(file_name, std::ios::in | std::ios::binary);
    if (!f) return false;
    return load(f);
  }
  bool load(std::istream& in, bool = false) {
    sections.v_.clear();
    segments.v_.clear();
    loaded_ = false;
    std::stringstream ss;
    ss << in.rdbuf();
    file_ = ss.str();
    if (file_.size() < 52 || file_.compare(0, 4, "\x7f" "ELF")) return false;
    class_ = file_[4];
    if ((class_ != 1 && class_ != 2) || file_[5] != 1) return false;
    bool w = class_ == 2;
    if (w && file_.size() < 64) return false;
    type_ = U(16, 2);
    machine_ = U(18, 2);
    entry_ = U(24, w ? 8 : 4);
    uint64_t phoff = w ? U(32, 8) : U(28, 4), shoff = w ? U(40, 8) : U(32, 4);
    uint64_t phes = U(w ? 54 : 42, 2), phn = U(w ? 56 : 44, 2), shes = U(w ? 58 : 46, 2), shn = U(w ? 60 : 48, 2),
             shstr = U(w ? 62 : 50, 2);
    if (phn && !Fits(phoff, phes * phn)) return false;
    if (shn && !Fits(shoff, shes * shn)) return false;
    for (uint64_t i = 0; i < shn; i++) {
      uint64_t o = shoff + i * shes;
      auto s = std::make_unique<section>();
      s->index_ = i;
      s->name_off_ = U(o, 4);
      s->type_ = U(o + 4, 4);
      s->flags_ = w ? U(o + 8, 8) : U(o + 8, 4);
      s->address_ = w ? U(o + 16, 8) : U(o + 12, 4);
      s->offset_ = w ? U(o + 24, 8) : U(o + 16, 4);
      s->size_ = w ? U(o + 32, 8) : U(o + 20, 4);
      s->link_ = w ? U(o + 40, 4) : U(o + 24, 4);
      s->entsize_ = w ? U(o + 56, 8) : U(o + 36, 4);
      if (s->type_ != SHT_NULL && s->type_ != SHT_NOBITS && s->size_) s->data_ = Data(s->offset_, s->size_);
      sections.v_.push_back(std::move(s));
    }
    if (shstr < shn)
      for (auto& s : sections.v_) s->name_ = Str(*sections[(unsigned)shstr], s->name_off_);
    for (uint64_t i = 0; i < phn; i++) {
      uint64_t o = phoff + i * phes;
      auto s = std::make_unique<segment>();
      s->index_ = i;
      s->type_ = U(o, 4);
      s->flags_ = w ? U(o + 4, 4) : U(o + 24, 4);
      s->offset_ = w ? U(o + 8, 8) : U(o + 4, 4);
      s->vaddr_ = w ? U(o + 16, 8) : U(o + 8, 4);
      s->paddr_ = w ? U(o + 24, 8) : U(o + 12, 4);
      s->filesz_ = w ? U(o + 32, 8) : U(o + 16, 4);
      s->memsz_ = w ? U(o + 40, 8) : U(o + 20, 4);
      s->align_ = w ? U(o + 48, 8) : U(o + 28, 4);
      if (s->type_ != PT_NULL && s->filesz_) s->data_ = Data(s->offset_, s->filesz_);
      segments.v_.push_back(std::move(s));
    }
    loaded_ = true;
    return true;
  }
  // Sections must not share bytes of the file.
  std::string validate() const {
    std::string e;
    for (auto& a : sections.v_)
      for (auto& b : sections.v_)
        if (a->index_ < b->index_ && a->data_ && b->data_ && a->offset_ < b->offset_ + b->size_ &&
            b->offset_ < a->offset_ + a->size_)
          e += "Sections " + a->name_ + " and " + b->name_ + " overlap in file\n";
    return e;
  }
  unsigned char get_class() const { return class_; }
  Elf_Half get_type() const { return type_; }
  Elf_Half get_machine() const { return machine_; }
  Elf64_Addr get_entry() const { return loaded_ ? entry_ : 0; }

  Sections sections;
  Segments segments;

  static std::string Str(const section& s, uint64_t o) {
    if (!s.data_ || o >= s.size_) return "";
    return std::string(s.data_.get() + o, strnlen(s.data_.get() + o, s.size_ - o));
  }

 private:
  bool Fits(uint64_t o, uint64_t n) const { return o <= file_.size() && n <= file_.size() - o; }
  uint64_t U(uint64_t o, int n) const {
    uint64_t v = 0;
    if (!Fits(o, n)) return 0;
    memcpy(&v, file_.data() + o, n);
    return v;
  }
  std::unique_ptr<char[]> Data(uint64_t o, uint64_t n) const {
    if (!Fits(o, n)) return nullptr;
    std::unique_ptr<char[]> d(new char[n]);
    memcpy(d.get(), file_.data() + o, n);
    return d;
  }
  bool loaded_ = false;
  std::string file_;
  unsigned char class_ = 0, os_abi_ = 0;
  Elf_Half type_ = 0, machine_ = 0;
  Elf64_Addr entry_ = 0;
};

template <class S>
class string_section_accessor_template {
 public:
  explicit string_section_accessor_template(S* s) : s_(s) {}
  const char* get_string(Elf_Word i) const {
    return s_ && i < s_->get_size() && s_->get_data() ? s_->get_data() + i : nullptr;
  }
  Elf_Word add_string(const char* t) {
    if (s_->get_size() == 0) s_->append_data("", 1);
    Elf_Word at = s_->get_size();
    s_->append_data(t, strlen(t) + 1);
    return at;
  }
  Elf_Word add_string(const std::string& t) { return add_string(t.c_str()); }

 private:
  S* s_;
};
using string_section_accessor = string_section_accessor_template<section>;
using const_string_section_accessor = string_section_accessor_template<const section>;

template <class S>
class symbol_section_accessor_template {
 public:
  explicit symbol_section_accessor_template(const elfio& e, S* s) : e_(e), s_(s) {}
  Elf_Xword get_symbols_num() const {
    uint64_t n = e_.get_class() == 2 ? 24 : 16;
    return s_->get_entry_size() == n ? s_->get_size() / n : 0;
  }
  bool get_symbol(Elf_Xword i, std::string& name, Elf64_Addr& value, Elf_Xword& size, unsigned char& bind,
                  unsigned char& type, Elf_Half& shndx, unsigned char& other) const {
    if (i >= get_symbols_num() || !s_->get_data()) return false;
    bool w = e_.get_class() == 2;
    const char* p = s_->get_data() + i * (w ? 24 : 16);
    unsigned char info;
    uint32_t n;
    memcpy(&n, p, 4);
    if (w) {
      info = p[4], other = p[5];
      memcpy(&shndx, p + 6, 2), memcpy(&value, p + 8, 8), memcpy(&size, p + 16, 8);
    } else {
      uint32_t v, z;
      memcpy(&v, p + 4, 4), memcpy(&z, p + 8, 4);
      value = v, size = z, info = p[12], other = p[13];
      memcpy(&shndx, p + 14, 2);
    }
    bind = info >> 4, type = info & 15;
    const section* str = e_.sections[(unsigned)s_->get_link()];
    name = str ? elfio::Str(*str, n) : "";
    return true;
  }
  bool get_symbol(const std::string& want, Elf64_Addr& value, Elf_Xword& size, unsigned char& bind,
                  unsigned char& type, Elf_Half& shndx, unsigned char& other) const {
    for (Elf_Xword i = 0; i < get_symbols_num(); i++) {
      std::string name;
      if (get_symbol(i, name, value, size, bind, type, shndx, other) && name == want) return true;
    }
    return false;
  }
  Elf_Word add_symbol(Elf_Word name, Elf64_Addr value, Elf_Xword size, unsigned char info, unsigned char other,
                      Elf_Half shndx) {
    if (s_->get_size() == 0) Append(0, 0, 0, 0, 0, 0);
    return Append(name, value, size, info, other, shndx);
  }
  Elf_Word add_symbol(string_section_accessor& str, const char* name, Elf64_Addr value, Elf_Xword size,
                      unsigned char bind, unsigned char type, unsigned char other, Elf_Half shndx) {
    return add_symbol(str.add_string(name), value, size, (bind << 4) + (type & 15), other, shndx);
  }
  // Moves the local symbols to the front.
  Elf_Xword arrange_local_symbols(std::function<void(Elf_Xword, Elf_Xword)> fn = nullptr) {
    return e_.get_class() == 2 ? Arrange<Elf64_Sym>(fn) : Arrange<Elf32_Sym>(fn);
  }

 private:
  template <class T>
  Elf_Xword Arrange(std::function<void(Elf_Xword, Elf_Xword)>& fn) {
    T* p = (T*)s_->get_data();
    Elf_Xword n = get_symbols_num(), first = 1;
    while (true) {
      while (first < n && p[first].st_info >> 4 == STB_LOCAL) first++;
      Elf_Xword cur = first + 1;
      while (cur < n && p[cur].st_info >> 4 != STB_LOCAL) cur++;
      if (first >= n || cur >= n) break;
      if (fn) fn(first, cur);
      std::swap(p[first], p[cur]);
    }
    s_->set_info(first);
    return first;
  }
  Elf_Word Append(Elf_Word name, Elf64_Addr value, Elf_Xword size, unsigned char info, unsigned char other,
                  Elf_Half shndx) {
    if (e_.get_class() == 2) {
      Elf64_Sym y{name, info, other, shndx, value, size};
      s_->append_data((const char*)&y, sizeof y);
      return s_->get_size() / sizeof y - 1;
    }
    Elf32_Sym y{name, (Elf32_Addr)value, (Elf_Word)size, info, other, shndx};
    s_->append_data((const char*)&y, sizeof y);
    return s_->get_size() / sizeof y - 1;
  }
  const elfio& e_;
  S* s_;
};
using symbol_section_accessor = symbol_section_accessor_template<section>;
using const_symbol_section_accessor = symbol_section_accessor_template<const section>;
}  // namespace ELFIO
#endif
