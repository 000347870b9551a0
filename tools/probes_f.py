BASE = 'mpact/sim/'
G = 'generic/'
D = 'decoder/'
DB = G + 'data_buffer.h'
DBC = G + 'data_buffer.cc'
TE = D + 'template_expression.cc'
TEH = D + 'template_expression.h'
TH = G + 'type_helpers.h'
PE = G + 'program_error.cc'
DL = G + 'delay_line.h'
SR = G + 'status_register.h'
SI = G + 'state_item_base.cc'
IM = G + 'immediate_operand.h'
EDITS = [
 ('f01', 'bug', 'P01', [(G + 'ref_count.h', '  uint64_t inc_count_;\n', '  uint32_t inc_count_;\n')]),
 ('f02', 'bug', 'P01', [(G + 'ref_count.h', 'int ref_count() const { return inc_count_ - dec_count_; }', 'int ref_count() const { return static_cast<int16_t>(inc_count_ - dec_count_); }')]),
 ('f03', 'bug', 'P01 P02', [(G + 'ref_count.h', '    inc_count_ = 1;\n    dec_count_ = 0;\n', '    inc_count_ = 1;\n')]),
 ('f04', 'bug', 'P01', [(G + 'ref_count.h', '''    dec_count_++;
    if (inc_count_ == dec_count_) {
      OnRefCountIsZero();
    }''', '''    if (inc_count_ == dec_count_ + 1) {
      OnRefCountIsZero();
    }
    dec_count_++;''')]),
 ('f05', 'bug', 'P02', [(DBC, '''    bucket.second.clear();
''', '''    if (bucket.second.size() == 1) bucket.second.clear();
''')]),
 ('f06', 'bug', 'P02', [(DBC, '''    for (auto db : bucket.second) {
      delete db;
    }
    bucket.second.clear();
''', '''    bucket.second.clear();
''')]),
 ('f07', 'bug', 'P02', [(DBC, 'raw_ptr_ = static_cast<void*>(new unsigned char[size_]);', 'raw_ptr_ = static_cast<void*>(new unsigned char[size_ & 0xffff]);')]),
 ('f08', 'bug', 'P02', [(DB, '''    free_list_.emplace(size, std::vector<DataBuffer*>{db});''', '''    free_list_.emplace(size, std::vector<DataBuffer*>{db, db});''')]),
 ('f09', 'bug', 'P02', [(DB, '''          db = ptr->second.back();
          ptr->second.pop_back();''', '''          db = ptr->second.front();
          ptr->second.pop_back();''')]),
 ('f10', 'bug', 'P02', [(DB, '''    if (ptr != free_list_.end()) {
      ptr->second.push_back(db);
      return;
    }
''', '''    if (ptr != free_list_.end()) {
      ptr->second.push_back(db);
    }
''')]),
 ('f11', 'bug', 'P03', [(DB, '''    ABSL_HARDENING_ASSERT(static_cast<size_t>(index) <
                          size_ / sizeof(ElementType));
    return''', '''    ABSL_HARDENING_ASSERT(static_cast<size_t>(index) <= size_ / sizeof(ElementType));
    return''')]),
 ('f12', 'bug', 'P03', [(DB, '''    ABSL_HARDENING_ASSERT(static_cast<size_t>(index) <
                          size_ / sizeof(ElementType));
    reinterpret_cast<ElementType*>(raw_ptr_)[index] = value;
  }
  template <typename ElementType>
  inline void Set(absl''', '''    ABSL_HARDENING_ASSERT(index * sizeof(ElementType) < size_);
    reinterpret_cast<ElementType*>(raw_ptr_)[index] = value;
  }
  template <typename ElementType>
  inline void Set(absl''')]),
 ('f13', 'bug', 'P03', [(DB, '''    ABSL_HARDENING_ASSERT(static_cast<size_t>(index) <
                          size_ / sizeof(ElementType));
    reinterpret_cast<ElementType*>(raw_ptr_)[index] = value;
  }
  template <typename ElementType>
  inline void Set(absl''', '''    ABSL_HARDENING_ASSERT(index < static_cast<int>(size_ / sizeof(ElementType)));
    reinterpret_cast<ElementType*>(raw_ptr_)[index] = value;
  }
  template <typename ElementType>
  inline void Set(absl''')]),
 ('f14', 'bug', 'P03', [(DB, 'std::memcpy(raw_ptr_, data, size_);', 'std::memcpy(raw_ptr_, data, static_cast<uint16_t>(size_));')]),
 ('f15', 'bug', 'P03', [(DB, 'std::memcpy(raw_ptr_, src_db->raw_ptr_, size_);', 'raw_ptr_ = src_db->raw_ptr_;')]),
 ('f16', 'bug', 'P04', [(DBC, '''    destination_->SetDataBuffer(this);
    DecRef();''', '''    DecRef();
    destination_->SetDataBuffer(this);''')]),
 ('f17', 'bug', 'P04', [(DBC, '''    delay_line_->Add(latency, this, destination_);''', '''    delay_line_->Add(latency, this, destination_);
    destination_ = nullptr;'''),]),
 ('f18', 'bug', 'P04', [(DB, '''    for (auto const& value : values) {
      *data_ptr++ = value;
    }
    Submit(latency_);''', '''    for (auto const& value : values) {
      *data_ptr++ = value;
    }
    if (!values.empty()) Submit(latency_);''')]),
 ('f19', 'bug', 'P05', [(DL, 'uint32_t new_size = absl::bit_ceil(min_size + 1);', 'uint32_t new_size = absl::bit_ceil(min_size);')]),
 ('f20', 'bug', 'P05', [(DL, 'if (latency >= static_cast<int>(delay_line_.size())) {', 'if (latency > static_cast<int>(delay_line_.size())) {')]),
 ('f21', 'bug', 'P05', [(DL, 'delay_line_(absl::bit_ceil(min_size))', 'delay_line_(min_size)')]),
 ('f22', 'bug', 'P05', [(DL, '''        delay_line_[prev_size + index] = delay_line_[index];''', '''        auto& dst = delay_line_[prev_size + index];
        dst.insert(dst.end(), delay_line_[index].rbegin(), delay_line_[index].rend());''')]),
 ('f23', 'bug', 'P05', [(DL, '    delay_line_[current_].clear();\n    return num_entries_;', '    int n = num_entries_;\n    if (n > 0) delay_line_[current_].clear();\n    return n;')]),
 ('f24', 'bug', 'P05', [(DL, '''      rec.Apply();
      num_entries_--;
    }''', '''      rec.Apply();
    }
    num_entries_ -= !delay_line_[current_].empty();''')]),
 ('f25', 'bug', 'P07', [(PE, '''    unmasked_program_errors_.erase(index);
    masked_program_errors_.erase(index);
  } else {''', '''    if (!unmasked_program_errors_.erase(index)) return;
    masked_program_errors_.erase(index);
  } else {''')]),
 ('f26', 'bug', 'P07', [(PE, '''    auto set_entry = masked_program_errors_.find(index);
    if (masked_program_errors_.end() != set_entry) {
      masked_program_errors_.erase(index);
      unmasked_program_errors_.insert(index);
    }''', '''    if (!program_error_info_[index].error_messages.empty() && program_error_info_[index].error_messages.size() < 2) {
      masked_program_errors_.erase(index);
      unmasked_program_errors_.insert(index);
    }''')]),
 ('f27', 'bug', 'P07', [(PE, '''    program_error_info_[index].error_messages.push_back(
        std::string(error_message));
    return;''', '''    auto& msgs = program_error_info_[index].error_messages;
    if (msgs.empty() || msgs.back() != error_message)
      msgs.push_back(std::string(error_message));
    return;''')]),
 ('f28', 'bug', 'P07', [(PE, '''  for (auto& entry : program_error_info_) {
    entry.error_messages.clear();
  }''', '''  for (auto index : unmasked_program_errors_) {
    program_error_info_[index].error_messages.clear();
  }''')]),
 ('f29', 'bug', 'P07', [(PE, '''    Raise(kInternalErrorName,
          "Duplicate program error name in AddProgramError");
    return false;''', '''    return false;''')]),
 ('f30', 'bug', 'P07', [(PE, '''  Raise(kInternalErrorName, "Unknown program_error_name in IsMasked()");
  return false;''', '''  return false;''')]),
 ('f31', 'bug', 'P07', [(PE, '''  auto entry = program_error_map_.find(program_error_name);
  if (program_error_name == kInternalErrorName) {
    Raise(kInternalErrorName, "Cannot mask internal simulator error");
    return;
  }
''', '''  auto entry = program_error_map_.find(program_error_name);
  if (program_error_name == kInternalErrorName && !HasError()) {
    Raise(kInternalErrorName, "Cannot mask internal simulator error");
    return;
  }
''')]),
 ('f32', 'bug', 'P08', [(IM, 'uint64_t AsUint64(int) override { return static_cast<uint64_t>(value_); }', 'uint64_t AsUint64(int) override { return static_cast<uint64_t>(static_cast<typename std::make_unsigned<T>::type>(value_)); }'), (IM, '#include <vector>\n', '#include <vector>\n#include <type_traits>\n')]),
 ('f33', 'bug', 'P08', [(IM, '''  ImmediateOperand(T val, const std::vector<int>& shape)
      : value_(val), shape_(shape), as_string_(absl::StrCat(val)) {}''', '''  ImmediateOperand(T val, const std::vector<int>& shape)
      : value_(val), shape_({1}), as_string_(absl::StrCat(val)) {}''')]),
 ('f34', 'bug', 'P08', [(IM, '''    return absl::StrCat("[", value_[0], "...", value_.back(), "]");''', '''    return absl::StrCat("[", value_[0], "...", value_[shape_[0] > 1 ? 1 : 0], "]");''')]),
 ('f35', 'bug', 'P09', [(G + 'literal_operand.h', '''  explicit IntLiteralOperand(const std::vector<int>& shape)
      : IntLiteralOperand(shape, absl::StrCat(literal)) {}''', '''  explicit IntLiteralOperand(const std::vector<int>& shape)
      : IntLiteralOperand(absl::StrCat(literal)) {}''')]),
 ('f36', 'bug', 'P09', [(G + 'literal_operand.h', '''  bool AsBool(int) override { return static_cast<bool>(literal); }''', '''  bool AsBool(int) override { return literal & 1; }''')]),
 ('f37', 'bug', 'P10', [(SR, 'if (mask & (static_cast<T>(1) << i)) {', 'if (mask & (1 << i)) {')]),
 ('f38', 'bug', 'P10', [(SR, '''    if (mask & (static_cast<T>(1) << i)) {
      value |= (evaluate_[i]() ? 1 : 0);
    }
  }
  return value;''', '''    value |= (evaluate_[i]() ? 1 : 0);
  }
  return value & mask;''')]),
 ('f39', 'bug', 'P10', [(SR, 'evaluate_[position] = std::move(eval);', 'if (position >= size_ - 1) return;\n    evaluate_[position] = std::move(eval);')]),
 ('f40', 'bug', 'P10', [(SR, '''    return static_cast<bool>(status_register_->Read());''', '''    return static_cast<bool>(status_register_->Read() & 0x7fffffff);''')]),
 ('f41', 'bug', 'P11', [(SI, '''  for (int sz : shape_) {
    size_ *= sz;
  }''', '''  for (size_t i = 0; i < shape_.size() && i < 2; i++) {
    size_ *= shape_[i];
  }''')]),
 ('f42', 'bug', 'P11', [(G + 'wrapper_operand.h', '''  WrapperSourceOperand& operator=(const WrapperSourceOperand&) = delete;
''', '''  WrapperSourceOperand& operator=(const WrapperSourceOperand&) = delete;
  ~WrapperSourceOperand() override { if (shape_.empty()) delete value_; }
''')]),
 ('f43', 'bug', 'P11', [(G + 'state_item.h', '''      : BaseType(arch_state, name, {M, N}, sizeof(ElementType), pargs...) {}''', '''      : BaseType(arch_state, name, {N, M}, sizeof(ElementType), pargs...) {}''')]),
 ('f44', 'bug', 'P12', [(TE, '''        if ((rhs_value == -1) &&
            (lhs_value == std::numeric_limits<int>::min())) {''', '''        if ((rhs_value == -1) && (lhs_value < 0)) {''')]),
 ('f45', 'bug', 'P12', [(TE, '''  if (!rhs.ok()) return rhs.status();
  auto lhs_variant''', '''  if (!rhs.ok()) return lhs;
  auto lhs_variant''')]),
 ('f46', 'bug', 'P12 P13', [(TE, '''  return (*args)[param_->position()]->Evaluate(nullptr);''', '''  return (*args)[param_->position()]->Evaluate(args);''')]),
 ('f47', 'bug', 'P13', [(TE, '''    if (result.ok()) return new TemplateConstant(result.value());
    return result.status();
  }
  return (*args)''', '''    if (result.ok()) return expr;
    return result.status();
  }
  return (*args)''')]),
 ('f48', 'bug', 'P12', [(TE, '''bool TemplateFunction::IsConstant() const {
  for (auto* arg : *args_) {
    if (!arg->IsConstant()) return false;
  }
  return true;''', '''bool TemplateFunction::IsConstant() const {
  for (auto* arg : *args_) {
    if (arg->IsConstant()) return true;
  }
  return args_->empty();''')]),
 ('f49', 'bug', 'P13', [(TE, '''      for (auto* tmp : *new_arguments) {
        delete tmp;
      }
      delete new_arguments;''', '''      delete new_arguments;''')]),
 ('f50', 'bug', 'P14', [(D + 'extract.cc', '''absl::Hex(mask), ";\\n");''', '''absl::Hex(static_cast<uint32_t>(mask)), ";\\n");''')]),
 ('f51', 'bug', 'P14', [(D + 'extract.cc', '''        total_width += width;
      }''', '''        total_width += width;
        if (total_width > 32) total_width = 32;
      }''')]),
 ('f52', 'bug', 'P14', [(D + 'extract.cc', '''extracted_value |= ((value >> shift) & mask);''', '''extracted_value |= ((static_cast<int64_t>(value) >> shift) & mask);''')]),
 ('f53', 'bug', 'P15', [(D + 'format_name.cc', '''    capitalize = (c == '_');''', '''    if (c == '_') capitalize = true; else if (!formatted.empty() && formatted.back() > '9') capitalize = false;''')]),
 ('f54', 'bug', 'P15', [(D + 'format_name.cc', '''    if ((c == '/') || (c == '.')) {''', '''    if ((c == '/') || (c == '.' && formatted.back() != '_')) {''')]),
 ('f55', 'bug', 'P16', [(D + 'resource.cc', '''  for (auto& [unused, resource_ptr] : resource_map_) {
    delete resource_ptr;
  }''', '''  for (auto& [unused, resource_ptr] : resource_map_) {
    if (resource_ptr->is_simple()) delete resource_ptr;
  }''')]),
 ('f56', 'bug', 'P17', [(TH, '''    return IsNaN(value) && (((1ULL << (kSigSize - 1)) & uint_val) == 0);''', '''    return IsNaN(value) && (((1 << (kSigSize - 1)) & uint_val) == 0);''')]),
 ('f57', 'bug', 'P18', [(TH, '''  if (half.value == 1 << (FPTypeInfo<HalfFP>::kBitSize - 1)) {
    float_uint = 1 << (FPTypeInfo<float>::kBitSize - 1);
    return *reinterpret_cast<float*>(&float_uint);
  }
''', '')]),
 ('f58', 'bug', 'P06', [(G + 'function_delay_line.h', 'void Apply() { fcn_(); }', 'void Apply() { auto f = std::move(fcn_); if (f) { f(); } }'), (DL, '''      rec.Apply();
      num_entries_--;
    }''', '''      rec.Apply();
      num_entries_--;
      if (num_entries_ == 0) break;
    }''')]),
]
