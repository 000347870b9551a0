"""refactorings of the parts that are analysed through shims: must stay quiet"""
BASE = 'mpact/sim/'
BUILD = False
G = 'generic/'
M = 'util/memory/'
FDM = M + 'flat_demand_memory.cc'
EDITS = [
 # helper extracted for the completion of loads
 ('h01', 'ref', 'P25', [(FDM, '''FlatDemandMemory::~FlatDemandMemory() { Clear(); }
''', '''FlatDemandMemory::~FlatDemandMemory() { Clear(); }
namespace {
void Complete(DataBuffer* db, Instruction* inst, ReferenceCount* context) {
  if (inst == nullptr) return;
  const int latency = db->latency();
  if (latency <= 0) {
    inst->Execute(context);
    return;
  }
  inst->IncRef();
  if (context) context->IncRef();
  auto done = [inst, context]() {
    inst->Execute(context);
    if (context) context->DecRef();
    inst->DecRef();
  };
  inst->state()->function_delay_line()->Add(latency, done);
}
}  // namespace
'''), (FDM, '''  if (nullptr != inst) {
    if (db->latency() > 0) {
      inst->IncRef();
      if (context != nullptr) context->IncRef();
      inst->state()->function_delay_line()->Add(db->latency(),
                                                [inst, context]() {
                                                  inst->Execute(context);
                                                  if (context != nullptr)
                                                    context->DecRef();
                                                  inst->DecRef();
                                                });
    } else {
      inst->Execute(context);
    }
  }
''', '''  Complete(db, inst, context);
''', 0), (FDM, '''  if (nullptr != inst) {
    if (db->latency() > 0) {
      inst->IncRef();
      if (context != nullptr) context->IncRef();
      inst->state()->function_delay_line()->Add(db->latency(),
                                                [inst, context]() {
                                                  inst->Execute(context);
                                                  if (context != nullptr)
                                                    context->DecRef();
                                                  inst->DecRef();
                                                });
    } else {
      inst->Execute(context);
    }
  }
''', '''  Complete(db, inst, context);
''', 0)]),
 # block lookup through try_emplace, while loop, std::copy_n
 ('h02', 'ref', 'P25 P26', [(FDM, '''  do {
    uint64_t block_address = address >> kAllocationShift;
    auto iter = block_map_.find(block_address);
    uint8_t* block;
    if (iter == block_map_.end()) {
      block = new uint8_t[allocation_byte_size_];
      block_map_.insert(std::make_pair(block_address, block));
      std::memset(block, fill_value_, allocation_byte_size_);
    } else {
      block = iter->second;
    }
''', '''  while (size_in_units > 0) {
    uint64_t block_address = address >> kAllocationShift;
    auto [iter, inserted] = block_map_.try_emplace(block_address, nullptr);
    if (inserted) {
      iter->second = new uint8_t[allocation_byte_size_];
      std::fill_n(iter->second, allocation_byte_size_, fill_value_);
    }
    uint8_t* block = iter->second;
'''), (FDM, '''      std::memcpy(data_ptr, &block[block_byte_offset], store_size_in_bytes);
''', '''      std::copy_n(block + block_byte_offset, store_size_in_bytes, data_ptr);
'''), (FDM, '''      std::memcpy(&block[block_byte_offset], data_ptr, store_size_in_bytes);
''', '''      std::copy(data_ptr, data_ptr + store_size_in_bytes, block + block_byte_offset);
'''), (FDM, '''  } while (size_in_units > 0);
''', '''  }
''')]),
 # blocks owned by unique_ptr
 ('h03', 'ref', 'P25 P26', [(M + 'flat_demand_memory.h', 'absl::flat_hash_map<uint64_t, uint8_t*> block_map_;', 'absl::flat_hash_map<uint64_t, std::unique_ptr<uint8_t[]>> block_map_;'),
   (M + 'flat_demand_memory.h', '#include <cstdint>\n', '#include <cstdint>\n#include <memory>\n'),
   (FDM, '''      block = new uint8_t[allocation_byte_size_];
      block_map_.insert(std::make_pair(block_address, block));
      std::memset(block, fill_value_, allocation_byte_size_);
    } else {
      block = iter->second;
    }
''', '''      auto owned = std::make_unique<uint8_t[]>(allocation_byte_size_);
      block = owned.get();
      std::memset(block, fill_value_, allocation_byte_size_);
      block_map_.emplace(block_address, std::move(owned));
    } else {
      block = iter->second.get();
    }
'''), (FDM, '''void FlatDemandMemory::Clear() {
  for (auto& [unused, block_ptr] : block_map_) {
    delete[] block_ptr;
  }
  block_map_.clear();
''', '''void FlatDemandMemory::Clear() {
  block_map_.clear();
''')]),
 # common range check and iteration of vector accesses
 ('h04', 'ref', 'P25', [(M + 'flat_demand_memory.h', '''  void LoadStoreHelper(''', '''  bool InRange(uint64_t address, int units) const {
    return address >= base_address_ && address + units <= max_address_;
  }
  void LoadStoreHelper('''), (FDM, 'if (address < base_address_ || high > max_address_) [[unlikely]] {', 'if (!InRange(address, size_in_units)) {', 3),
  (FDM, 'if (address < base_address_ || high > max_address_) [[unlikely]] {', 'if (!InRange(address, size_in_units)) {', 1),
  (FDM, '''  for (unsigned i = 0; i < mask_span.size(); i++) {
    if (!mask_span[i]) continue;
    uint64_t address =
        scatter ?''', '''  unsigned i = 0;
  for (bool enabled : mask_span) {
    unsigned ix = i++;
    if (!enabled) continue;
    unsigned i = ix;
    uint64_t address =
        scatter ?''')]),
 ('h05', 'ref', 'P25', [(M + 'flat_memory.cc', '''  db->CopyFrom(ptr);
''', '''  std::memcpy(db->raw_ptr(), ptr, db->size<uint8_t>());
'''), (M + 'flat_memory.cc', '''  db->CopyTo(ptr);
''', '''  auto bytes = db->Get<uint8_t>();
  for (size_t i = 0; i < bytes.size(); ++i) ptr[i] = bytes[i];
'''), (M + 'flat_memory.cc', '''  memory_buffer_ = new uint8_t[size_];
  if (nullptr == memory_buffer_) {
    size_ = 0;
  }
  memset(memory_buffer_, fill, size_);
''', '''  memory_buffer_ = new uint8_t[size_];
  std::fill(memory_buffer_, memory_buffer_ + size_, fill);
''')]),
 ('h06', 'ref', 'P25', [(M + 'flat_memory.h', '''        db->Set<T>(entry, *reinterpret_cast<T*>(&memory_buffer_[offset]));
''', '''        T value;
        std::memcpy(&value, &memory_buffer_[offset], sizeof(T));
        db->Set<T>(entry, value);
'''), (M + 'flat_memory.h', '''        *reinterpret_cast<T*>(&memory_buffer_[offset]) = db->Get<T>(entry);
''', '''        const T value = db->Get<T>(entry);
        std::memcpy(memory_buffer_ + offset, &value, sizeof value);
'''), (M + 'flat_memory.h', '#include <cstdint>\n', '#include <cstdint>\n#include <cstring>\n')]),
 # tags cleared one by one / with a vector of zeros
 ('h07', 'ref', 'P26', [(M + 'tagged_flat_demand_memory.cc', '''  int num_tags = hi - lo + 1;
  auto* tag_db = db_factory_->Allocate(num_tags);
  std::memset(tag_db->raw_ptr(), 0, num_tags);
  tag_memory_->Store(lo, tag_db);
  tag_db->DecRef();
''', '''  auto* zero = db_factory_->Allocate<uint8_t>(1);
  zero->Set<uint8_t>(0, 0);
  for (uint64_t tag = lo; tag != hi + 1; ++tag) tag_memory_->Store(tag, zero);
  zero->DecRef();
'''), (M + 'tagged_flat_demand_memory.cc', '''  uint64_t address_mask = (1ULL << tag_granule_shift_) - 1;
''', '''  const uint64_t address_mask = (tag_granule_ >> unit_shift_) - 1ULL;
''')]),
 ('h08', 'ref', 'P26', [(M + 'tagged_flat_demand_memory.cc', '''  if (latency == 0) {
    inst->Execute(context);
    return;
  }
  inst->IncRef();
  if (context != nullptr) context->IncRef();
  inst->state()->function_delay_line()->Add(latency, [inst, context]() {
    inst->Execute(context);
    if (context != nullptr) context->DecRef();
    inst->DecRef();
  });
''', '''  if (latency != 0) {
    auto* line = inst->state()->function_delay_line();
    if (context != nullptr) context->IncRef();
    inst->IncRef();
    std::function<void()> finish = [=]() {
      inst->Execute(context);
      inst->DecRef();
      if (context != nullptr) context->DecRef();
    };
    line->Add(latency, std::move(finish));
  } else {
    inst->Execute(context);
  }
''')]),
 # atomic: dispatch over sizes by a template helper, contains, erase of a range
 ('h09', 'ref', 'P27', [(M + 'atomic_memory.cc', '''    if (ll_tag_set_.find(tag) == ll_tag_set_.end()) {
      ll_tag_set_.insert(tag);
    }
''', '''    ll_tag_set_.insert(tag);
'''), (M + 'atomic_memory.cc', 'if (ll_tag_set_.find(tag) != ll_tag_set_.end()) {', 'if (ll_tag_set_.contains(tag)) {'),
  (M + 'atomic_memory.cc', '''  switch (db->size<uint8_t>()) {
    case 1:
      std::swap(tmp_db->Get<uint8_t>()[0], db->Get<uint8_t>()[0]);
      break;
    case 2:
      std::swap(tmp_db->Get<uint16_t>()[0], db->Get<uint16_t>()[0]);
      break;
    case 4:
      std::swap(tmp_db->Get<uint32_t>()[0], db->Get<uint32_t>()[0]);
      break;
    case 8:
      std::swap(tmp_db->Get<uint64_t>()[0], db->Get<uint64_t>()[0]);
      break;
  }
''', '''  for (int i = 0; i < el_size; ++i) {
    uint8_t byte = tmp_db->Get<uint8_t>(i);
    tmp_db->Set<uint8_t>(i, db->Get<uint8_t>(i));
    db->Set<uint8_t>(i, byte);
  }
''')]),
 ('h10', 'ref', 'P27', [(M + 'atomic_tagged_memory.cc', '''    case AtomicMemoryOpInterface::Operation::kAtomicMax:
      db_res->Set<T>(0, std::max(db_lhs->Get<ST>(0), db_rhs->Get<ST>(0)));
''', '''    case AtomicMemoryOpInterface::Operation::kAtomicMax: {
      const ST lhs = static_cast<ST>(db_lhs->Get<T>(0));
      const ST rhs = static_cast<ST>(db_rhs->Get<T>(0));
      db_res->Set<T>(0, static_cast<T>(lhs < rhs ? rhs : lhs));
    }
'''), (M + 'atomic_tagged_memory.cc', '''  if (inst != nullptr) {
    if (db->latency() > 0) {''', '''  if (inst == nullptr) return;
  {
    if (db->latency() > 0) {''')]),
 # watcher: lookups in a helper template
 ('h11', 'ref', 'P28', [(M + 'memory_watcher.cc', '''MemoryWatcher::MemoryWatcher(MemoryInterface* memory) : memory_(memory) {}
''', '''MemoryWatcher::MemoryWatcher(MemoryInterface* memory) : memory_(memory) {}
namespace {
template <typename Map>
void Notify(Map& actions, uint64_t address, int size) {
  if (actions.empty()) return;
  auto [it, end] =
      actions.equal_range(MemoryWatcher::AddressRange(address, address + size - 1));
  for (; it != end; ++it) it->second(address, size);
}
}  // namespace
'''), (M + 'memory_watcher.cc', '''  if (!ld_watch_actions_.empty()) {
    auto [first_match, last] = ld_watch_actions_.equal_range(
        AddressRange(address, address + db->size<uint8_t>() - 1));
    while (first_match != last) {
      first_match->second(address, db->size<uint8_t>());
      first_match++;
    }
  }
  memory_->Load(address, db, inst, context);
''', '''  Notify(ld_watch_actions_, address, db->size<uint8_t>());
  memory_->Load(address, db, inst, context);
'''), (M + 'memory_watcher.cc', '''      auto [first_match, last] = st_watch_actions_.equal_range(
          AddressRange(address, address + el_size - 1));
      while (first_match != last) {
        first_match->second(address, el_size);
        first_match++;
      }
''', '''      Notify(st_watch_actions_, address, el_size);
''')]),
 ('h12', 'ref', 'P28', [(M + 'memory_watcher.cc', '''  if (st_watch_actions_.contains(range)) {
''', '''  auto existing = st_watch_actions_.find(range);
  if (existing != st_watch_actions_.end()) {
'''), (M + 'memory_watcher.cc', '''  st_watch_actions_.insert({range, std::move(callback)});
''', '''  st_watch_actions_.emplace(range, std::move(callback));
''')]),
 # router: a common lookup
 ('h13', 'ref', 'P29', [(M + 'single_initiator_router.cc', '''template <>
absl::Status SingleInitiatorRouter::AddTarget<MemoryInterface>(
''', '''namespace {
template <typename Interface>
Interface* Find(const SingleInitiatorRouter::InterfaceMap<Interface>& map,
                Interface* fallback, uint64_t first, uint64_t last) {
  auto it = map.find({first, last});
  if (it == map.end()) return fallback;
  if (it->first.base > first || it->first.top < last) return nullptr;
  return it->second;
}
}  // namespace
template <>
absl::Status SingleInitiatorRouter::AddTarget<MemoryInterface>(
'''), (M + 'single_initiator_router.cc', '''  auto it = memory_targets_.find({address, address + size - 1});
  if (it != memory_targets_.end()) {
    auto& range = it->first;
    if ((range.base <= address) && (range.top >= address + size - 1)) {
      return it->second->Load(address, db, inst, context);
    }
  }
  if ((it == memory_targets_.end()) && (default_memory_target_ != nullptr)) {
    return default_memory_target_->Load(address, db, inst, context);
  }
''', '''  if (auto* target = Find(memory_targets_, default_memory_target_, address,
                          address + size - 1);
      target != nullptr) {
    target->Load(address, db, inst, context);
    return;
  }
''')]),
 ('h14', 'ref', 'P29', [(M + 'memory_router.cc', '''  auto it = initiators.find(name);
  if (it != initiators.end()) {
    return static_cast<Interface*>(it->second);
  }
  auto initiator = new SingleInitiatorRouter(name);
  initiators.emplace(std::string(name), initiator);
  return static_cast<Interface*>(initiator);
''', '''  auto& entry = initiators[name];
  if (entry == nullptr) entry = new SingleInitiatorRouter(name);
  return entry;
'''), (M + 'memory_router.cc', '''  if (target_names.contains(name)) {
    return absl::AlreadyExistsError(
        absl::StrCat("Target: ", name, " already exists"));
  }
  target_names.insert(name);
''', '''  if (!target_names.insert(name).second) {
    return absl::AlreadyExistsError("Target: " + name + " already exists");
  }
''')]),
 # cache: find the line in a helper
 ('h15', 'ref', 'P30', [(M + 'cache.cc', '''    bool hit = false;
    for (int set = 0; set < num_sets_; set++) {
      CacheLine& line = cache_lines_[index + set];
      if (line.valid && line.tag == block) {
        hit = true;
        line.lru = cycle_counter_->GetValue();
        line.dirty |= !is_read;
        break;
      }
    }
    if (hit) {
''', '''    CacheLine* begin = &cache_lines_[index];
    CacheLine* end = begin + num_sets_;
    CacheLine* found = std::find_if(begin, end, [block](const CacheLine& l) {
      return l.valid && l.tag == block;
    });
    if (found != end) {
      found->lru = cycle_counter_->GetValue();
      if (!is_read) found->dirty = true;
    }
    if (found != end) {
'''), (M + 'cache.cc', '#include <vector>\n', '#include <vector>\n#include <algorithm>\n')]),
 ('h16', 'ref', 'P30', [(M + 'cache.cc', '''  if (size < config_vec[0].size()) {
    auto suffix = config_vec[0].substr(size);
    if (suffix == "k") {
      cache_size *= 1024;
    } else if (suffix == "M") {
      cache_size *= 1024 * 1024;
    } else if (suffix == "G") {
      cache_size *= 1024 * 1024 * 1024;
    } else {
      return absl::InvalidArgumentError(
          absl::StrCat("Invalid cache size suffix: '", suffix, "'"));
    }
  }
''', '''  const std::string suffix = config_vec[0].substr(size);
  if (!suffix.empty()) {
    int shift = 0;
    if (suffix == "k") shift = 10;
    if (suffix == "M") shift = 20;
    if (suffix == "G") shift = 30;
    if (shift == 0) {
      return absl::InvalidArgumentError(
          absl::StrCat("Invalid cache size suffix: '", suffix, "'"));
    }
    cache_size <<= shift;
  }
'''), (M + 'cache.cc', '''  bool write_allocate = false;
  if (config_vec[3] == "true") {
    write_allocate = true;
  } else if (config_vec[3] == "false") {
    write_allocate = false;
  } else {
    return''', '''  const bool write_allocate = config_vec[3] == "true";
  if (!write_allocate && config_vec[3] != "false") {
    return''')]),
 # profiler
 ('h17', 'ref', 'P31', [(M + 'memory_use_profiler.cc', '''  uint64_t word_offset = byte_offset >> 2;
  uint64_t byte_index = word_offset >> 3;
  int bit_index = word_offset & 0b111;
  bits[byte_index] |= (1 << bit_index);
''', '''  bits[byte_offset / 32] |= static_cast<uint8_t>(1u << ((byte_offset / 4) % 8));
'''), (M + 'memory_use_profiler.cc', '''    auto* bits = new uint8_t[kBitsSize];
    std::memset(bits, 0, kBitsSize);
    it = memory_use_map_
             .insert(
                 std::make_pair(MemoryWatcher::AddressRange{start, end}, bits))
             .first;
''', '''    auto* bits = new uint8_t[kBitsSize]();
    it = memory_use_map_.emplace(MemoryWatcher::AddressRange{start, end}, bits).first;
''')]),
 ('h18', 'ref', 'P31', [(M + 'memory_use_profiler.cc', '''void MemoryUseTracker::WriteUseProfile(std::ostream& os) const {
''', '''static void WriteRange(std::ostream& os, uint64_t start, uint64_t end) {
  os << absl::StrFormat("0x%llx,0x%llx,%llu\\n", start, end, end - start + 4);
}
void MemoryUseTracker::WriteUseProfile(std::ostream& os) const {
''')] + [(M + 'memory_use_profiler.cc', x, 'WriteRange(os, range_start, range_end);\n', 0) for x in ('''os << absl::StrFormat("0x%llx,0x%llx,%llu\\n", range_start, range_end,
                            range_end - range_start + 4);
''', '''os << absl::StrFormat("0x%llx,0x%llx,%llu\\n", range_start, range_end,
                              range_end - range_start + 4);
''', '''os << absl::StrFormat("0x%llx,0x%llx,%llu\\n", range_start, range_end,
                          range_end - range_start + 4);
''')]),
 # decode cache with a vector
 ('h19', 'ref', 'P32', [(G + 'decode_cache.cc', '''  for (int entry = 0; entry < num_entries_; ++entry) {
    instruction_cache_[entry] = nullptr;
  }
}
''', '''  std::fill_n(instruction_cache_, num_entries_, nullptr);
}
'''), (G + 'decode_cache.cc', '''    instruction_cache_[entry]->DecRef();
    instruction_cache_[entry] = nullptr;
  }
}
''', '''    Instruction* old = std::exchange(instruction_cache_[entry], nullptr);
    old->DecRef();
  }
}
'''), (G + 'decode_cache.cc', '#include "mpact/sim/generic/decode_cache.h"\n', '#include "mpact/sim/generic/decode_cache.h"\n#include <algorithm>\n#include <utility>\n')]),
 ('h20', 'ref', 'P32', [(G + 'decode_cache.h', '''  Instruction** instruction_cache_;
''', '''  uint64_t EntryOf(uint64_t address) const {
    return (address >> address_shift_) & (static_cast<uint64_t>(num_entries_) - 1);
  }
  bool Holds(uint64_t entry, uint64_t address) const {
    auto* inst = instruction_cache_[entry];
    return inst != nullptr && inst->address() == address;
  }
  Instruction** instruction_cache_;
'''), (G + 'decode_cache.cc', '''  uint64_t indx = (address & address_mask_) >> address_shift_;
  Instruction* inst = instruction_cache_[indx];
  if ((nullptr != inst) && (inst->address() == address)) {
    return inst;
  }
''', '''  uint64_t indx = EntryOf(address);
  if (Holds(indx, address)) return instruction_cache_[indx];
  Instruction* inst = instruction_cache_[indx];
'''), (G + 'decode_cache.h', '#include <cstdint>\n', '#include <cstdint>\n#include "mpact/sim/generic/instruction.h"\n')]),
 # instruction
 ('h21', 'ref', 'P33', [(G + 'instruction.cc', '''  if (nullptr == next_) {
    inst->IncRef();
    next_ = inst;
  } else {
    next_->Append(inst);
  }
''', '''  Instruction** link = &next_;
  while (*link != nullptr) link = &(*link)->next_;
  inst->IncRef();
  *link = inst;
'''), (G + 'instruction.cc', '''  for (auto* op : sources_) {
    delete op;
  }
  sources_.clear();
''', '''  while (!sources_.empty()) {
    delete sources_.back();
    sources_.pop_back();
  }
''')]),
 ('h22', 'ref', 'P33', [(G + 'instruction.cc', '''  delete[] attribute_array_;
  attribute_array_ = new int[attributes.size()];
  std::memcpy(attribute_array_, attributes.data(),
              attributes.size() * sizeof(int));
  attributes_ = absl::Span<const int>(attribute_array_, attributes.size());
''', '''  int* copy = new int[attributes.size()];
  std::copy(attributes.begin(), attributes.end(), copy);
  std::swap(copy, attribute_array_);
  delete[] copy;
  attributes_ = absl::MakeConstSpan(attribute_array_, attributes.size());
''')]),
 ('h23', 'ref', 'P34', [(G + 'instruction_helpers.h', '''  Argument1 lhs = generic::GetInstructionSource<Argument1>(instruction, 0);
  Argument2 rhs = generic::GetInstructionSource<Argument2>(instruction, 1);
  Result dest_value = operation(lhs, rhs);
  auto* db = instruction->Destination(0)->AllocateDataBuffer();
  db->SetSubmit<Result>(0, dest_value);
''', '''  auto lhs = generic::GetInstructionSource<Argument1>(instruction, 0);
  auto rhs = generic::GetInstructionSource<Argument2>(instruction, 1);
  auto* db = instruction->Destination(0)->AllocateDataBuffer();
  db->Set<Result>(0, operation(lhs, rhs));
  db->Submit();
''')]),
 # component
 ('h24', 'ref', 'P35', [(G + 'component.cc', '''  auto ptr = map->find(name);
  if (ptr != map->end()) {
    return absl::InternalError(
        absl::StrCat("entry with name '", name, "' already inserted"));
  }
  map->emplace(name, entry);
  return absl::OkStatus();
''', '''  auto [unused, inserted] = map->emplace(name, entry);
  if (!inserted) {
    return absl::InternalError(
        absl::StrCat("entry with name '", name, "' already inserted"));
  }
  return absl::OkStatus();
''')]),
 ('h25', 'ref', 'P35', [(G + 'component.cc', '''    auto status = config_pair->Export(entry);
    if (!status.ok()) return status;
''', '''    if (auto status = config_pair->Export(entry); !status.ok()) return status;
'''), (G + 'config.h', '''    for (auto const& callback : value_written_callback_vector_) {
      callback();
    }
''', '''    for (size_t i = 0; i < value_written_callback_vector_.size(); ++i) {
      value_written_callback_vector_[i]();
    }
''')]),
 # action points
 ('h26', 'ref', 'P36', [(G + 'action_point_manager_base.h', ''' private:
''', ''' private:
  std::pair<ActionPointInfo*, ActionInfo*> Lookup(uint64_t address, int id) const {
    auto it = action_point_map_.find(address);
    if (it == action_point_map_.end()) return {nullptr, nullptr};
    auto action = it->second->action_map.find(id);
    if (action == it->second->action_map.end()) return {it->second, nullptr};
    return {it->second, action->second};
  }
'''), (G + 'action_point_manager_base.cc', '''  auto it = action_point_map_.find(address);
  if (it == action_point_map_.end()) return false;
  auto* ap = it->second;
  auto action_it = ap->action_map.find(id);
  if (action_it == ap->action_map.end()) return false;
  return action_it->second->is_enabled;
''', '''  auto [ap, action] = Lookup(address, id);
  return action != nullptr && action->is_enabled;
''')]),
 ('h27', 'ref', 'P36', [(G + 'action_point_manager_base.cc', '''  if (it == action_point_map_.end()) {
    auto status = ap_memory_interface_->WriteBreakpointInstruction(address);
    if (!status.ok()) return status;
    ap = new ActionPointInfo(address);
    action_point_map_.insert(std::make_pair(address, ap));
  } else {
    ap = it->second;
    if (ap->num_active == 0) {
      auto status = ap_memory_interface_->WriteBreakpointInstruction(address);
      if (!status.ok()) return status;
    }
  }
''', '''  if (it != action_point_map_.end()) ap = it->second;
  if (ap == nullptr || ap->num_active == 0) {
    auto status = ap_memory_interface_->WriteBreakpointInstruction(address);
    if (!status.ok()) return status;
  }
  if (ap == nullptr) {
    ap = new ActionPointInfo(address);
    action_point_map_[address] = ap;
  }
''')]),
 # registers, fifo, arch state, resources
 ('h28', 'ref', 'P20', [(G + 'register.cc', '''  db->IncRef();
  if (nullptr != data_buffer_) {
    data_buffer_->DecRef();
  }
  data_buffer_ = db;
''', '''  if (db == data_buffer_) return;
  if (DataBuffer* old = std::exchange(data_buffer_, db); old != nullptr) {
    old->DecRef();
  }
  data_buffer_->IncRef();
'''), (G + 'register.cc', '#include <cstdint>\n', '#include <cstdint>\n#include <utility>\n')]),
 ('h29', 'ref', 'P22', [(G + 'fifo.cc', '''  if (IsFull()) {
    if (nullptr != overflow_program_error_) {
      overflow_program_error_->Raise("Overflow in fifo " + name_);
    }
    return false;
  } else {
    db->IncRef();
    fifo_.push_back(db);
    return true;
  }
''', '''  if (!IsFull()) {
    fifo_.push_back(db);
    fifo_.back()->IncRef();
    return true;
  }
  if (overflow_program_error_) {
    overflow_program_error_->Raise(std::string("Overflow in fifo ") + name_);
  }
  return false;
'''), (G + 'fifo.cc', '''  fifo_.front()->DecRef();
  fifo_.pop_front();
''', '''  DataBuffer* head = fifo_.front();
  fifo_.erase(fifo_.begin());
  head->DecRef();
''')]),
 ('h30', 'ref', 'P21', [(G + 'arch_state.cc', '''  for (const auto& reg : registers_) {
    if (pointer_set.contains(reg.second)) continue;
    pointer_set.insert(reg.second);
    delete reg.second;
  }
''', '''  for (const auto& [unused, reg] : registers_) {
    if (pointer_set.insert(reg).second) delete reg;
  }
'''), (G + 'arch_state.h', '''    for (auto dl : delay_lines_) {
      dl->Advance();
    }
''', '''    for (auto it = delay_lines_.begin(); it != delay_lines_.end(); ++it) {
      (*it)->Advance();
    }
''')]),
 ('h31', 'ref', 'P23', [(G + 'resource_bitset.cc', '''  UInt accumulator = 0;
  for (int i = 0; i < min; ++i) accumulator |= bits_[i] & rhs.bits_[i];
  return accumulator != 0;
''', '''  for (int i = 0; i < min; ++i) {
    if ((bits_[i] & rhs.bits_[i]) != 0) return true;
  }
  return false;
'''), (G + 'resource_bitset.cc', '''  for (int i = 0; i < new_size; ++i) {
    bits_[i] = (i < size_) ? prev[i] : 0;
  }
''', '''  std::fill(std::copy(prev, prev + size_, bits_), bits_ + new_size, 0);
''')]),
 ('h32', 'ref', 'P24', [(G + 'complex_resource.cc', '''  int min = std::min(bit_span.length(), array_size_);
  for (int i = 0; i < min; i++) {
    if (bit_span[i] & bit_array_[i]) return false;
  }
  return true;
''', '''  const size_t words = bit_span.size() < array_size_ ? bit_span.size() : array_size_;
  uint64_t busy = 0;
  for (size_t i = 0; i != words; ++i) busy |= bit_span[i] & bit_array_[i];
  return busy == 0;
'''), (G + 'complex_resource.cc', '''  memset(bit_array_, 0, 8 * array_size_);
  mask_array_''', '''  std::fill_n(bit_array_, array_size_, 0ull);
  mask_array_''')]),
 ('h33', 'ref', 'P37', [('util/renode/socket_streambuf.h', '''    int count = read(fd_, &ch_, 1);
    if (count <= 0) return traits_type::eof();
    if (ch_ == '\\r') {
      count = read(fd_, &ch_, 1);
      if (count <= 0) return traits_type::eof();
    }
''', '''    if (!Fetch()) return traits_type::eof();
    if (ch_ == '\\r' && !Fetch()) return traits_type::eof();
'''), ('util/renode/socket_streambuf.h', ''' private:
''', ''' private:
  bool Fetch() { return ::read(fd_, &ch_, sizeof(ch_)) == 1; }
''')]),
 ('h34', 'ref', 'P38', [('decoder/bin_format_visitor.cc', '''  int bits_left = width;
  int bits_extracted = 0;
  while (bits_left > 0) {
    int bwidth = std::min(8 - blsb, bits_left);
    uint8_t bmask = ((1 << bwidth) - 1) << blsb;
    val |= static_cast<T>((data[byte_low] & bmask) >> blsb) << bits_extracted;
    blsb = 0;
    bits_left -= bwidth;
    bits_extracted += bwidth;
    byte_low--;
  }
''', '''  for (int bits_extracted = 0; bits_extracted < width;) {
    int bwidth = std::min(8 - blsb, width - bits_extracted);
    uint64_t part = (data[byte_low--] >> blsb) & ((1u << bwidth) - 1);
    val |= static_cast<T>(part << bits_extracted);
    bits_extracted += bwidth;
    blsb = 0;
  }
''')]),
]
