"""bugs in the parts that are analysed through shims"""
BASE = 'mpact/sim/'
BUILD = False
G = 'generic/'
M = 'util/memory/'
EDITS = [
 ('g01', 'bug', 'P25', [(M + 'flat_demand_memory.cc', 'high > max_address_', 'high >= max_address_', 3)]),
 ('g02', 'bug', 'P25', [(M + 'flat_demand_memory.cc', 'std::memset(block, fill_value_, allocation_byte_size_);', 'std::memset(block, fill_value_, kAllocationSize);')]),
 ('g03', 'bug', 'P25', [(M + 'flat_demand_memory.cc', '''  block_map_.clear();
''', '')]),
 ('g04', 'bug', 'P25', [(M + 'flat_demand_memory.cc', 'if (context != nullptr) context->IncRef();', '', 1)]),
 ('g05', 'bug', 'P25', [(M + 'flat_memory.h', 'ABSL_HARDENING_ASSERT(offset + sizeof(T) <= size_);', 'ABSL_HARDENING_ASSERT(offset <= size_);', 1)]),
 ('g06', 'bug', 'P26', [(M + 'tagged_flat_demand_memory.cc', '(address + size - 1) >> tag_granule_shift_', '(address + size) >> tag_granule_shift_')]),
 ('g07', 'bug', 'P26', [(M + 'tagged_flat_demand_memory.cc', ') != tags->size<uint8_t>()', ') > tags->size<uint8_t>()')]),
 ('g08', 'bug', 'P26', [(M + 'tagged_flat_demand_memory.cc', '(db != nullptr) ? db->latency() : tags->latency()', 'tags->latency()')]),
 ('g09', 'bug', 'P27', [(M + 'atomic_memory.cc', '''      Store(address, db);
      value = 0;''', '''      memory_->Store(address, db);
      value = 0;''')]),
 ('g10', 'bug', 'P27', [(M + 'atomic_tagged_memory.cc', 'tag <= last_tag', 'tag < last_tag')]),
 ('g11', 'bug', 'P27', [(M + 'atomic_tagged_memory.cc', '''    int value = 1;
    if''', '''    int value = 0;
    if''')]),
 ('g12', 'bug', 'P27', [(M + 'atomic_memory.cc', 'std::max(db_lhs->Get<ST>(0), db_rhs->Get<ST>(0))', 'std::max<int32_t>(db_lhs->Get<ST>(0), db_rhs->Get<ST>(0))')]),
 ('g13', 'bug', 'P28', [(M + 'memory_watcher.cc', 'address + db->size<uint8_t>() - 1', 'address + db->size<uint8_t>()', 0)]),
 ('g14', 'bug', 'P28', [(M + 'memory_watcher.cc', 'if (!masks[i]) continue;', 'if (!masks[i]) break;', 1)]),
 ('g15', 'bug', 'P28', [(M + 'memory_watcher.cc', 'if (ld_watch_actions_.contains(range)) {', 'if (ld_watch_actions_.contains(AddressRange(range.start))) {')]),
 ('g16', 'bug', 'P28', [(M + 'tagged_memory_watcher.cc', 'ld_watch_actions_.equal_range', 'st_watch_actions_.equal_range', 0)]),
 ('g17', 'bug', 'P29', [(M + 'single_initiator_router.cc', 'size = tags->size<uint8_t>() << 3;', 'size = tags->size<uint8_t>();')]),
 ('g18', 'bug', 'P29', [(M + 'single_initiator_router.cc', 'range.top < address + el_size - 1', 'range.top < address', 3)]),
 ('g19', 'bug', 'P29', [(M + 'single_initiator_router.cc', 'if ((tagged_memory != nullptr) && (default_tagged_target_ != nullptr)) {', 'if ((tagged_memory != nullptr) && (default_tagged_target_ == tagged_memory)) {')]),
 ('g20', 'bug', 'P29', [(M + 'single_initiator_router.cc', '(it->first.base == base) && (it->first.top == top)', '(it->first.base == base) || (it->first.top == top)')]),
 ('g21', 'bug', 'P29', [(M + 'memory_router.cc', 'if (target_names.contains(name)) {', 'if (target_interface_map.contains(name)) {')]),
 ('g22', 'bug', 'P30', [(M + 'cache.cc', 'line.dirty |= !is_read;', 'line.dirty = !is_read;')]),
 ('g23', 'bug', 'P30', [(M + 'cache.cc', '''        line.lru = cycle_counter_->GetValue();
        line.dirty''', '''        if (is_read) line.lru = cycle_counter_->GetValue();
        line.dirty''')]),
 ('g24', 'bug', 'P30', [(M + 'cache.cc', 'uint64_t last_block = (address + size - 1) >> block_shift_;', 'uint64_t last_block = (address + size) >> block_shift_;')]),
 ('g25', 'bug', 'P30', [(M + 'cache.cc', 'if (range_start > range_end) {', 'if (range_start >= range_end) {')]),
 ('g26', 'bug', 'P30', [(M + 'cache.cc', '''  } else if (og_context != nullptr) {
    og_context->DecRef();
  }
''', '''  }
''')]),
 ('g27', 'bug', 'P30', [(M + 'cache.cc', 'if (db != nullptr) db->set_latency(cache_context->latency);', '')]),
 ('g28', 'bug', 'P31', [(M + 'memory_use_profiler.cc', 'if (size > 8) {', 'if (size >= 8) {')]),
 ('g29', 'ref', 'P31', [(M + 'memory_use_profiler.cc', '''  last_end_ = it->first.end;
''', '')]),
 ('g30', 'bug', 'P31', [(M + 'memory_use_profiler.cc', 'range_end - range_start + 4', 'range_end - range_start + 1', 2)]),
 ('g31', 'bug', 'P32', [(G + 'decode_cache.cc', 'if ((nullptr != inst) && (inst->address() == address)) {', 'if ((nullptr != inst) && (static_cast<uint32_t>(inst->address()) == static_cast<uint32_t>(address))) {', 0)]),
 ('g32', 'bug', 'P32', [(G + 'decode_cache.cc', '(inst->address() < end_address)', '(inst->address() <= end_address)')]),
 ('g33', 'bug', 'P33', [(G + 'instruction.cc', '''  inst->parent_ = this;
  if (nullptr == child_) {
''', '''  if (nullptr == child_) {
    inst->parent_ = this;
''')]),
 ('g34', 'bug', 'P33', [(G + 'instruction.cc', '''  for (auto* op : resource_acquire_) {
    delete op;
  }
''', '')]),
 ('g35', 'bug', 'P33', [(G + 'instruction.h', '''    semantic_fcn_(this);
    context_ = nullptr;
''', '''    semantic_fcn_(this);
''')]),
 ('g36', 'bug', 'P34', [(G + 'instruction.h', '->AsInt16(element)', '->AsInt16(0)')]),
 ('g37', 'bug', 'P34', [(G + 'instruction_helpers.h', '''    Result z_val = generic::GetInstructionSource<Result>(instruction, 2, i);
    Result value = operation(x_val, y_val, z_val);
''', '''    Result z_val = generic::GetInstructionSource<Result>(instruction, 2, 0);
    Result value = operation(x_val, y_val, z_val);
''')]),
 ('g38', 'bug', 'P35', [(G + 'component.cc', 'if (config == nullptr) continue;', 'if (config == nullptr) break;')]),
 ('g39', 'bug', 'P35', [(G + 'config.h', '''    SetValue(std::get<T>(config_value));
''', '''    value_ = std::get<T>(config_value);
''')]),
 ('g40', 'bug', 'P35', [(G + 'counters.h', 'if (IsEnabled()) UpdateValue(GetValue() - val);', 'UpdateValue(GetValue() - val);')]),
 ('g41', 'bug', 'P36', [(G + 'action_point_manager_base.cc', 'if (action_it->second->is_enabled) return absl::OkStatus();', '')]),
 ('g42', 'bug', 'P36', [(G + 'action_point_manager_base.cc', 'int id = ap->next_id++;', 'int id = ap->action_map.size();')]),
 ('g43', 'bug', 'P36', [(G + 'breakpoint_manager.cc', '''  last_breakpoint_address_ = address;
  req_halt_function_();
''', '''  if (last_breakpoint_address_ == address) return;
  last_breakpoint_address_ = address;
  req_halt_function_();
''')]),
 ('g44', 'bug', 'P20', [(G + 'register.cc', '''  RegisterBase::SetDataBuffer(db);
  if (resource_ != nullptr) resource_->Release();
''', '''  if (resource_ != nullptr && db != data_buffer()) resource_->Release();
  RegisterBase::SetDataBuffer(db);
''')]),
 ('g45', 'bug', 'P21', [(G + 'arch_state.h', '''    for (auto dl : delay_lines_) {
      dl->Advance();
    }
''', '''    for (size_t i = 0; i + 1 < delay_lines_.size(); ++i) {
      delay_lines_[i]->Advance();
    }
    if (cycle_ > 1) delay_lines_.back()->Advance();
''')]),
 ('g46', 'ref', 'P22', [(G + 'fifo_with_notify.cc', 'if (IsEmpty() && on_empty_) on_empty_(this);', 'if (Available() == 0 && on_empty_) on_empty_(this);')]),
 ('g47', 'bug', 'P22', [(G + 'token_fifo.cc', 'if (available_ == capacity_) {', 'if (available_ > capacity_) {')]),
 ('g48', 'bug', 'P23', [(G + 'simple_resource.cc', 'if (resource_name_map_.size() == width_) {', 'if (resource_name_map_.size() > width_) {')]),
 ('g49', 'bug', 'P23', [(G + 'resource_bitset.cc', '''    if (value == 0) {
      mask = 0;
      continue;
    }
''', '''    if (value == 0) {
      continue;
    }
''')]),
 ('g50', 'ref', 'P24', [(G + 'complex_resource.cc', 'if (cycles > cycle_depth_) {', 'if (cycles > cycle_depth_ + 64) {')]),
 ('g51', 'bug', 'P38', [('decoder/bin_format_visitor.cc', 'uint8_t bmask = ((1 << bwidth) - 1) << blsb;', 'uint8_t bmask = ((1 << bwidth) - 1) << (blsb & 3);')]),
 ('g52', 'bug', 'P37', [('util/renode/socket_streambuf.h', "if (c == '\\xa') {", "if (c == '\\xd') {")]),
 ('g53', 'bug', 'P37', [('util/renode/socket_streambuf.h', "traits_type::to_int_type(ch_)", "ch_")]),
]
