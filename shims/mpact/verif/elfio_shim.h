// A stand-in for ELFIO, read by the analysis and never linked: what a file holds is supplied by the rule.
#ifndef VERIF_SHIM_ELFIO_H_
#define VERIF_SHIM_ELFIO_H_
#include <cstdint>
#include <memory>
#include <string>
#include <vector>
namespace ELFIO {
using Elf_Half = uint16_t;
using Elf_Word = uint32_t;
using Elf_Sword = int32_t;
using Elf_Xword = uint64_t;
using Elf_Sxword = int64_t;
using Elf32_Addr = uint32_t;
using Elf64_Addr = uint64_t;
using Elf64_Off = uint64_t;
constexpr Elf_Word PT_NULL = 0;
constexpr Elf_Word PT_LOAD = 1;
constexpr Elf_Word PT_DYNAMIC = 2;
constexpr Elf_Word PT_NOTE = 4;
constexpr Elf_Word PF_X = 1;
constexpr Elf_Word PF_W = 2;
constexpr Elf_Word PF_R = 4;
constexpr Elf_Word SHT_PROGBITS = 1;
constexpr Elf_Word SHT_SYMTAB = 2;
constexpr Elf_Word SHT_STRTAB = 3;
constexpr unsigned char STT_NOTYPE = 0;
constexpr unsigned char STT_OBJECT = 1;
constexpr unsigned char STT_FUNC = 2;
class segment {
 public:
  virtual ~segment() = default;
  virtual Elf_Word get_type() const = 0;
  virtual Elf_Word get_flags() const = 0;
  virtual Elf_Xword get_align() const = 0;
  virtual Elf64_Addr get_virtual_address() const = 0;
  virtual Elf64_Addr get_physical_address() const = 0;
  virtual Elf_Xword get_file_size() const = 0;
  virtual Elf_Xword get_memory_size() const = 0;
  virtual const char *get_data() const = 0;
};
class section {
 public:
  virtual ~section() = default;
  virtual Elf_Word get_type() const = 0;
  virtual std::string get_name() const = 0;
  virtual Elf_Xword get_size() const = 0;
  virtual Elf_Xword vp_num() const = 0;
  virtual bool vp_symbol(Elf_Xword index, std::string &name, Elf64_Addr &value, Elf_Xword &size, unsigned char &bind, unsigned char &type, Elf_Half &section_index, unsigned char &other) const = 0;
  virtual bool vp_find(const std::string &name, Elf64_Addr &value, Elf_Xword &size, unsigned char &bind, unsigned char &type, Elf_Half &section_index, unsigned char &other) const = 0;
};
bool vp_load(const std::string &file);
unsigned vp_segments();
segment *vp_segment(unsigned i);
unsigned vp_sections();
section *vp_section(unsigned i);
std::string vp_validate();
Elf64_Addr vp_entry();
class elfio {
 public:
  std::vector<std::unique_ptr<segment>> segments;
  std::vector<std::unique_ptr<section>> sections;
  bool load(const std::string &file, bool is_lazy = false) {
    segments.clear();
    sections.clear();
    if (!vp_load(file)) return false;
    for (unsigned i = 0; i < vp_segments(); ++i) segments.push_back(std::unique_ptr<segment>(vp_segment(i)));
    for (unsigned i = 0; i < vp_sections(); ++i) sections.push_back(std::unique_ptr<section>(vp_section(i)));
    return true;
  }
  std::string validate() const { return vp_validate(); }
  Elf64_Addr get_entry() const { return vp_entry(); }
};
class symbol_section_accessor {
 public:
  symbol_section_accessor(const elfio &elf, section *symtab) : symtab_(symtab) {}
  Elf_Xword get_symbols_num() const { return symtab_->vp_num(); }
  bool get_symbol(Elf_Xword index, std::string &name, Elf64_Addr &value, Elf_Xword &size, unsigned char &bind, unsigned char &type, Elf_Half &section_index, unsigned char &other) const {
    return symtab_->vp_symbol(index, name, value, size, bind, type, section_index, other);
  }
  bool get_symbol(const std::string &name, Elf64_Addr &value, Elf_Xword &size, unsigned char &bind, unsigned char &type, Elf_Half &section_index, unsigned char &other) const {
    return symtab_->vp_find(name, value, size, bind, type, section_index, other);
  }

 private:
  section *symtab_;
};
}  // namespace ELFIO
#endif  // VERIF_SHIM_ELFIO_H_
