"""Refactorings: storage of memory blocks."""
BASE = 'mpact/sim/'
BUILD = False
F = 'util/memory/flat_demand_memory.'
EDITS = [
    ('i01', 'ref', 'P25 P26', [
        (F + 'h', 'absl::flat_hash_map<uint64_t, uint8_t*> block_map_;', 'absl::flat_hash_map<uint64_t, std::vector<uint8_t>> block_map_;'),
        (F + 'h', '#include <cstdint>\n', '#include <cstdint>\n#include <vector>\n'),
        (F + 'cc', '''      block = new uint8_t[allocation_byte_size_];
      block_map_.insert(std::make_pair(block_address, block));
      std::memset(block, fill_value_, allocation_byte_size_);
    } else {
      block = iter->second;
    }
''', '''      auto [pos, inserted] = block_map_.emplace(block_address, std::vector<uint8_t>(allocation_byte_size_, fill_value_));
      block = pos->second.data();
    } else {
      block = iter->second.data();
    }
'''),
        (F + 'cc', '''  for (auto& [unused, block_ptr] : block_map_) {
    delete[] block_ptr;
  }
''', '')]),
    ('i02', 'ref', 'P25', [
        ('util/memory/flat_memory.h', '  uint8_t* memory_buffer_;\n', '  std::vector<uint8_t> memory_buffer_;\n'),
        ('util/memory/flat_memory.h', '#include <cstdint>\n', '#include <cstdint>\n#include <vector>\n'),
        ('util/memory/flat_memory.cc', '      memory_buffer_(nullptr) {\n', '      memory_buffer_(memory_size_in_units * addressable_unit_size, fill) {\n'),
        ('util/memory/flat_memory.cc', '''  memory_buffer_ = new uint8_t[size_];
  if (nullptr == memory_buffer_) {
    size_ = 0;
  }
  memset(memory_buffer_, fill, size_);
''', ''),
        ('util/memory/flat_memory.cc', 'FlatMemory::~FlatMemory() { delete[] memory_buffer_; }', 'FlatMemory::~FlatMemory() = default;')]),
]
