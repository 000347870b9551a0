BASE = 'mpact/sim/'
G = 'generic/'
D = 'decoder/'
DB = G + 'data_buffer.h'
DBC = G + 'data_buffer.cc'
TE = D + 'template_expression.cc'
TEH = D + 'template_expression.h'
TH = G + 'type_helpers.h'
PE = G + 'program_error.cc'
EDITS = [
 ('b_rc1', 'bug', 'P01', [(G + 'ref_count.h', 'ABSL_HARDENING_ASSERT(inc_count_ - dec_count_ > 0);', 'ABSL_HARDENING_ASSERT(inc_count_ >= dec_count_);')]),
 ('b_rc2', 'bug', 'P01', [(G + 'ref_count.h', '  uint64_t inc_count_;\n', '  uint8_t inc_count_;\n'), (G + 'ref_count.h', '  uint64_t dec_count_;\n', '  uint8_t dec_count_;\n')]),
 ('b_rc3', 'bug', 'P01', [(G + 'ref_count.h', 'if (inc_count_ == dec_count_) {', 'if (inc_count_ <= dec_count_ + 1 && dec_count_ > 2) {\n      OnRefCountIsZero();\n    } else if (inc_count_ == dec_count_) {')]),
 ('b_al1', 'bug', 'P02', [(DB, 'auto ptr = free_list_.find(size);\n      if', 'auto ptr = free_list_.lower_bound(size);\n      if')]),
 ('b_al2', 'ref', 'P02', [(DB, '''        if (!ptr->second.empty()) {
          db = ptr->second.back();
          ptr->second.pop_back();
          db->IncRef();
          db->ResetCounts();''', '''        if (!ptr->second.empty()) {
          db = ptr->second.back();
          ptr->second.pop_back();
          db->IncRef();''')]),
 ('b_al3', 'bug', 'P02', [(DBC, 'for (int i = 0; i <= kShortSize; i++) {', 'for (int i = 0; i < kShortSize; i++) {')]),
 ('b_al4', 'bug', 'P02', [(DB, '''    free_list_.emplace(size, std::vector<DataBuffer*>{db});''', '''    if (free_list_.size() < 2) free_list_.emplace(size, std::vector<DataBuffer*>{db});''')]),
 ('b_al5', 'bug', 'P02', [(DB, '''  int size = db->size<uint8_t>();
  if (size <= kShortSize) {''', '''  int size = db->size<uint8_t>();
  if (size < kShortSize) {'''),]),
 ('b_db1', 'bug', 'P03', [(DB, 'ABSL_HARDENING_ASSERT(size_ == src_db->size_);', 'ABSL_HARDENING_ASSERT(size_ <= src_db->size_);')]),
 ('b_db2', 'bug', 'P03', [(DB, '''    std::memcpy(data, raw_ptr_, size_);''', '''    std::memcpy(data, raw_ptr_, size_ & ~1u);''')]),
 ('b_db3', 'bug', 'P03', [(DB, '''    return size_ / sizeof(ElementType);''', '''    return (size_ + sizeof(ElementType) - 1) / sizeof(ElementType);''')]),
 ('b_db4', 'bug', 'P03', [(DB, '''    ABSL_HARDENING_ASSERT(values.size() * sizeof(ElementType) <= size_);
    auto* data_ptr = reinterpret_cast<ElementType*>(raw_ptr_);
    for (auto const& value : values) {
      *data_ptr++ = value;
    }
    Submit(latency_);''', '''    ABSL_HARDENING_ASSERT(values.size() <= size_);
    auto* data_ptr = reinterpret_cast<ElementType*>(raw_ptr_);
    for (auto const& value : values) {
      *data_ptr++ = value;
    }
    Submit(latency_);''')]),
 ('b_sub1', 'bug', 'P04', [(DBC, '''    DecRef();
    return;''', '''    return;''')]),
 ('b_sub2', 'bug', 'P04', [(DBC, '''  if (0 == latency) {''', '''  if (latency <= 1 && delay_line_->IsEmpty() && latency_ == 0) {''')]),
 ('b_sub3', 'bug', 'P04', [(DBC, '''    delay_line_->Add(latency, this, destination_);''', '''    delay_line_->Add(latency_, this, destination_);''')]),
 ('b_sub4', 'bug', 'P04', [(DB, '''    data_buffer_ = rhs.data_buffer_;
    data_buffer_->IncRef();''', '''    data_buffer_ = rhs.data_buffer_;''')]),
 ('b_sub5', 'bug', 'P04', [(DB, '''    reinterpret_cast<ElementType*>(raw_ptr_)[index] = value;
    Submit(latency_);''', '''    reinterpret_cast<ElementType*>(raw_ptr_)[index] = value;
    Submit(0);''')]),
 ('b_dl1', 'bug', 'P05 P06', [(G + 'delay_line.h', 'for (int index = 0; index < current_; ++index) {', 'for (int index = 1; index < current_; ++index) {')]),
 ('b_dl2', 'bug', 'P05', [(G + 'delay_line.h', '''        delay_line_[index].clear();
''', '')]),
 ('b_dl3', 'bug', 'P05', [(G + 'delay_line.h', '''  uint32_t num_entries_;''', '''  uint8_t num_entries_;''')]),
 ('b_dl4', 'bug', 'P05', [(G + 'delay_line.h', '''    for (auto& rec : delay_line_[current_]) {
      rec.Apply();
      num_entries_--;
    }
    delay_line_[current_].clear();''', '''    auto& slot = delay_line_[current_];
    for (auto& rec : slot) {
      rec.Apply();
      num_entries_--;
    }
    slot.clear();''')]),
 ('b_pe1', 'bug', 'P07', [(PE, '''    unmasked_program_errors_.erase(index);
    masked_program_errors_.erase(index);
  } else {''', '''    if (program_error_info_[index].is_masked) {
      masked_program_errors_.clear();
    } else {
      unmasked_program_errors_.erase(index);
    }
  } else {''')]),
 ('b_pe2', 'bug', 'P07', [(PE, '''  for (auto& entry : program_error_info_) {''', '''  for (auto entry : program_error_info_) {''')]),
 ('b_pe3', 'bug', 'P07', [(PE, '''  if (program_error_name == kInternalErrorName) {''', '''  if (program_error_name == kInternalErrorName && unmasked_program_errors_.empty()) {''')]),
 ('b_im1', 'bug', 'P08', [(G + 'immediate_operand.h', 'int64_t AsInt64(int) override { return static_cast<int64_t>(value_); }\n  uint64_t AsUint64(int) override { return static_cast<uint64_t>(value_); }', 'int64_t AsInt64(int) override { return static_cast<int64_t>(value_); }\n  uint64_t AsUint64(int) override { return static_cast<std::make_unsigned_t<T>>(value_); }')]),
 ('b_im2', 'bug', 'P08', [(G + 'immediate_operand.h', 'bool AsBool(int i) override { return static_cast<bool>(value_[i]); }', 'bool AsBool(int i) override { return value_[i] > 0; }')]),
 ('b_im3', 'bug', 'P08', [(G + 'immediate_operand.h', '(shape[0] == val.size())', '(shape[0] <= val.size())')]),
 ('b_li1', 'bug', 'P09', [(G + 'literal_operand.h', '''  bool AsBool(int) override { return static_cast<bool>(literal); }''', '''  bool AsBool(int) override { return literal & 1; }''')]),
 ('b_li2', 'bug', 'P09', [(G + 'literal_operand.h', ''': IntLiteralOperand(shape, absl::StrCat(literal)) {}''', ''': shape_(shape) {}''')]),
 ('b_st1', 'bug', 'P10', [(G + 'status_register.h', '''    if (mask & (static_cast<T>(1) << i)) {''', '''    if (mask & (1 << i)) {''')]),
 ('b_st2', 'bug', 'P10', [(G + 'status_register.h', '''  int64_t AsInt64(int i) override {
    return static_cast<int64_t>(status_register_->Read());''', '''  int64_t AsInt64(int i) override {
    return static_cast<int32_t>(status_register_->Read());''')]),
 ('b_si1', 'bug', 'P11', [(G + 'state_item_base.cc', '''  for (int sz : shape_) {
    size_ *= sz;
  }''', '''  if (shape_.size() == 1) {
    size_ *= shape_[0];
  } else if (shape_.size() > 1) {
    size_ *= shape_.front() * shape_.back();
  }''')]),
 ('b_si2', 'bug', 'P11', [(G + 'state_item.h', ''': BaseType(arch_state, name, {width}, sizeof(ElementType), pargs...) {''', ''': BaseType(arch_state, name, {1}, width * sizeof(ElementType), pargs...) {''')]),
 ('b_si3', 'bug', 'P11', [(G + 'wrapper_operand.h', '''  ~WrapperDestinationOperand() override = default;''', '''  ~WrapperDestinationOperand() override { delete value_; }''')]),
 ('b_te1', 'bug', 'P12', [(TE, '''  if (param_->position() >= args->size()) {''', '''  if (param_->position() > args->size()) {''')]),
 ('b_te2', 'bug', 'P12', [(TE, '''  return (*args)[param_->position()]->Evaluate(nullptr);''', '''  return (*args)[param_->position()]->Evaluate(args);''')]),
 ('b_te3', 'bug', 'P12', [(TE, '''  for (auto* arg : *args_) {
    if (!arg->IsConstant()) return false;
  }
  return true;''', '''  return args_->empty() || args_->front()->IsConstant();''')]),
 ('b_te4', 'bug', 'P13', [(TEH, '''    if (!rhs.ok()) {
      delete lhs.value();
      return rhs.status();''', '''    if (!rhs.ok()) {
      return rhs.status();''')]),
 ('b_te5', 'bug', 'P13', [(TE, '''      for (auto* tmp : *new_arguments) {
        delete tmp;
      }
      delete new_arguments;''', '''      delete new_arguments;''')]),
 ('b_te6', 'bug', 'P13', [(TE, '''  TemplateExpression* expr = (*args)[param_->position()];
  if (expr->IsConstant()) {
    auto result''', '''  TemplateExpression* expr = (*args)[param_->position()];
  if (dynamic_cast<TemplateConstant*>(expr) != nullptr) return expr;
  if (expr->IsConstant()) {
    auto result''')]),
 ('b_te7', 'bug', 'P12', [(TEH, '''      if (result.ok()) {
        return new TemplateConstant(result.value());
      } else {
        return result.status();
      }
    } else {''', '''      if (result.ok()) {
        return new TemplateConstant(result.value());
      }
      return new TemplateConstant(0);
    } else {''')]),
 ('b_te8', 'bug', 'P12 P13', [(TE, '''TemplateExpression* SlotConstant::DeepCopy() const { return expr_->DeepCopy(); }''', '''TemplateExpression* SlotConstant::DeepCopy() const { return expr_; }''')]),
 ('b_te9', 'bug', 'P12', [(TEH, '''    return lhs_->IsConstant() && rhs_->IsConstant();''', '''    return lhs_->IsConstant() || rhs_->IsConstant();''')]),
 ('b_ex1', 'bug', 'P14', [(D + 'extract.cc', '''  uint64_t mask = 0;
  int shift''', '''  uint32_t mask = 0;
  int shift''')]),
 ('b_ex2', 'bug', 'P14', [(D + 'extract.cc', '''        total_width += width;
      }
      mask = 0;''', '''        total_width += width & 31;
      }
      mask = 0;''')]),
 ('b_nm1', 'bug', 'P15', [(D + 'format_name.cc', '''    if (!formatted.empty() && isupper(c)) {''', '''    if (!formatted.empty() && formatted.back() != '_' && isupper(c)) {''')]),
 ('b_nm2', 'bug', 'P15', [(D + 'format_name.cc', '''    capitalize = (c == '_');''', '''    capitalize = (c == '_') || (isdigit(c) != 0);''')]),
 ('b_rs1', 'bug', 'P16', [(D + 'resource.cc', '''  auto iter = resource_map_.find(name);
  if (iter != resource_map_.end()) return iter->second;''', '''  auto iter = resource_map_.lower_bound(name);
  if (iter != resource_map_.end() && iter->first.compare(0, name.size(), name.data(), name.size()) == 0) return iter->second;''')]),
 ('b_fp1', 'bug', 'P17', [(TH, '''    return 1 == (static_cast<UIntType>(value) >> (kBitSize - 1));
  }
};
template <>
struct FPTypeInfo<uint32_t> {''', '''    return value > 0x7fff;
  }
};
template <>
struct FPTypeInfo<uint32_t> {''')]),
 ('b_h1', 'bug', 'P18', [(TH, '''    float_uint |= sign << (FPTypeInfo<float>::kBitSize - 1);
    return *reinterpret_cast<float*>(&float_uint);
  }
  if (half.value == 0) {''', '''    float_uint |= sign << (FPTypeInfo<float>::kBitSize - 1);
    return *reinterpret_cast<float*>(&float_uint);
  }
  if ((half.value & 0x7fff) == 0) {''')]),
]
