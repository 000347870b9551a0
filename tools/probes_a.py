BASE = 'mpact/sim/'
G = 'generic/'
D = 'decoder/'
DB = G + 'data_buffer.h'
DBC = G + 'data_buffer.cc'
EDITS = [
 # ---- behaviour-preserving
 ('r_alloc', 'ref', 'P02 P03 P04', [
  (DB, '''      auto& free_list = short_free_list_[size];
      if (!free_list.empty()) {
        db = free_list.back();
        free_list.pop_back();
        db->IncRef();
        db->ResetCounts();
        return db;
      }
''', '''      db = PopFree(&short_free_list_[size]);
      if (db != nullptr) return db;
'''),
  (DB, '''        if (!ptr->second.empty()) {
          db = ptr->second.back();
          ptr->second.pop_back();
          db->IncRef();
          db->ResetCounts();
          return db;
        }
''', '''        db = PopFree(&ptr->second);
        if (db != nullptr) return db;
'''),
  (DB, '''  inline void Recycle(DataBuffer* db);
''', '''  inline void Recycle(DataBuffer* db);
  // Takes a recycled buffer from the list, if there is one.
  inline DataBuffer* PopFree(std::vector<DataBuffer*>* list);
'''),
  (DB, '''inline void DataBufferFactory::Recycle(DataBuffer* db) {
''', '''inline DataBuffer* DataBufferFactory::PopFree(std::vector<DataBuffer*>* list) {
  if (list->empty()) return nullptr;
  auto* res = (*list)[list->size() - 1];
  list->resize(list->size() - 1);
  res->ResetCounts();
  return res;
}

inline void DataBufferFactory::Recycle(DataBuffer* db) {
'''),
 ]),
 ('r_recycle', 'ref', 'P02', [
  (DB, '''    auto ptr = free_list_.find(size);
    if (ptr != free_list_.end()) {
      ptr->second.push_back(db);
      return;
    }
    free_list_.emplace(size, std::vector<DataBuffer*>{db});
''', '''    free_list_[size].push_back(db);
'''),
  (DBC, '''  for (auto& bucket : free_list_) {
    for (auto db : bucket.second) {
      delete db;
    }
    bucket.second.clear();
  }
''', '''  for (auto iter = free_list_.begin(); iter != free_list_.end(); ++iter) {
    std::vector<DataBuffer*>& list = iter->second;
    while (!list.empty()) {
      DataBuffer* db = list.back();
      list.pop_back();
      delete db;
    }
  }
  free_list_.clear();
'''),
  (DBC, '''    for (auto db : short_free_list_[i]) {
      delete db;
    }
''', '''    for (size_t j = 0; j < short_free_list_[i].size(); ++j) {
      delete short_free_list_[i][j];
    }
'''),
 ]),
 ('r_get', 'ref', 'P03 P04', [
  (DB, '''    return reinterpret_cast<ElementType*>(raw_ptr_)[index];
''', '''    ElementType value;
    std::memcpy(&value, static_cast<const uint8_t*>(raw_ptr_) + index * sizeof(ElementType), sizeof(value));
    return value;
'''),
  (DB, '''    ABSL_HARDENING_ASSERT(static_cast<size_t>(index) <
                          size_ / sizeof(ElementType));
    reinterpret_cast<ElementType*>(raw_ptr_)[index] = value;
  }
''', '''    const int num = size<ElementType>();
    ABSL_HARDENING_ASSERT(index >= 0 && index < num);
    auto* ptr = reinterpret_cast<ElementType*>(raw_ptr_) + index;
    *ptr = value;
  }
'''),
  (DB, '''    ABSL_HARDENING_ASSERT(static_cast<size_t>(index) <
                          size_ / sizeof(ElementType));
    reinterpret_cast<ElementType*>(raw_ptr_)[index] = value;
    Submit(latency_);
''', '''    Set<ElementType>(index, value);
    Submit();
'''),
  (DB, '''    auto* data_ptr = reinterpret_cast<ElementType*>(raw_ptr_);
    for (auto const& value : values) {
      *data_ptr++ = value;
    }
    Submit(latency_);
''', '''    std::copy(values.begin(), values.end(), reinterpret_cast<ElementType*>(raw_ptr_));
    Submit(latency_);
'''),
  (DB, '''    std::memcpy(data, raw_ptr_, size_);
''', '''    const auto* src = static_cast<const uint8_t*>(raw_ptr_);
    for (unsigned i = 0; i < size_; ++i) data[i] = src[i];
'''),
  (DB, '''    std::memcpy(raw_ptr_, src_db->raw_ptr_, size_);
''', '''    CopyFrom(static_cast<const uint8_t*>(src_db->raw_ptr_));
'''),
  (DB, '#include <vector>\n', '#include <vector>\n#include <algorithm>\n'),
 ]),
 ('r_submit', 'ref', 'P04 P02', [
  (DBC, '''  if (destination_ == nullptr) {
    DecRef();
    return;
  }
  if (0 == latency) {
    destination_->SetDataBuffer(this);
    DecRef();
  } else {
    delay_line_->Add(latency, this, destination_);
  }
''', '''  DataBufferDestination* const dest = destination_;
  const bool delayed = (dest != nullptr) && (latency != 0);
  if (delayed) {
    (void)delay_line_->Add(latency, this, dest);
    return;
  }
  if (dest) dest->SetDataBuffer(this);
  DecRef();
'''),
  (DB, '''    dest_ = rhs.dest_;
    data_buffer_ = rhs.data_buffer_;
    data_buffer_->IncRef();
  }
''', '''    data_buffer_ = rhs.data_buffer_;
    if (data_buffer_ != nullptr) data_buffer_->IncRef();
    dest_ = rhs.dest_;
  }
  DataBufferDelayRecord(DataBufferDelayRecord&& rhs) noexcept
      : data_buffer_(rhs.data_buffer_), dest_(rhs.dest_) {
    rhs.data_buffer_ = nullptr;
  }
  DataBufferDelayRecord& operator=(const DataBufferDelayRecord& rhs) {
    if (rhs.data_buffer_ != nullptr) rhs.data_buffer_->IncRef();
    if (data_buffer_ != nullptr) data_buffer_->DecRef();
    data_buffer_ = rhs.data_buffer_;
    dest_ = rhs.dest_;
    return *this;
  }
'''),
 ]),
 ('r_dbctor', 'ref', 'P02 P03', [
  (DBC, '''DataBuffer::DataBuffer(unsigned size) : size_(size) {
''', '''DataBuffer::DataBuffer(unsigned size) : ReferenceCount(), size_(size) {
'''),
  (DBC, '''  raw_ptr_ = static_cast<void*>(new unsigned char[size_]);
''', '''  unsigned char* storage = new unsigned char[size];
  raw_ptr_ = storage;
'''),
  (DBC, '''DataBuffer::~DataBuffer() { delete[] static_cast<unsigned char*>(raw_ptr_); }
''', '''DataBuffer::~DataBuffer() {
  auto* storage = reinterpret_cast<uint8_t*>(raw_ptr_);
  delete[] storage;
  raw_ptr_ = nullptr;
}
'''),
  (DBC, '''  DataBuffer* db = Allocate(src_db->size<uint8_t>());
  db->CopyFrom(src_db);
  return db;
''', '''  const int num_bytes = src_db->size<uint8_t>();
  auto* copy = Allocate<uint8_t>(num_bytes);
  src_db->CopyTo(static_cast<uint8_t*>(copy->raw_ptr()));
  return copy;
'''),
 ]),
 ('r_dbunique', 'ref', 'P02 P03 P04 P09', [
  (DBC, '''  raw_ptr_ = static_cast<void*>(new unsigned char[size_]);
''', '''  storage_ = std::make_unique<unsigned char[]>(size_);
  raw_ptr_ = storage_.get();
'''),
  (DBC, '''DataBuffer::~DataBuffer() { delete[] static_cast<unsigned char*>(raw_ptr_); }
''', '''DataBuffer::~DataBuffer() = default;
'''),
  (DB, '''  void* raw_ptr_;
''', '''  void* raw_ptr_;
  std::unique_ptr<unsigned char[]> storage_;
'''),
  (DB, '#include <vector>\n', '#include <vector>\n#include <memory>\n'),
 ]),
 ('r_refc', 'ref', 'P01 P02 P04', [
  (G + 'ref_count.h', '''    ABSL_HARDENING_ASSERT(inc_count_ - dec_count_ > 0);
    dec_count_++;
    if (inc_count_ == dec_count_) {
      OnRefCountIsZero();
    }
''', '''    ABSL_HARDENING_ASSERT(count_ > 0);
    if (--count_ != 0) return;
    OnRefCountIsZero();
'''),
  (G + 'ref_count.h', 'ReferenceCount() : inc_count_(1), dec_count_(0) {}', 'ReferenceCount() = default;'),
  (G + 'ref_count.h', '''    inc_count_ = 1;
    dec_count_ = 0;
''', '''    count_ = 1;
'''),
  (G + 'ref_count.h', 'inc_count_++;', '++count_;'),
  (G + 'ref_count.h', 'return inc_count_ - dec_count_;', 'return static_cast<int>(count_);'),
  (G + 'ref_count.h', '''  uint64_t inc_count_;
  uint64_t dec_count_;
''', '''  uint64_t count_ = 1;
'''),
 ]),
 ('r_delay', 'bug', 'P05 P06', [
  (G + 'delay_line.h', '''    for (auto& rec : delay_line_[current_]) {
      rec.Apply();
      num_entries_--;
    }
    delay_line_[current_].clear();
    return num_entries_;
''', '''    auto& slot = delay_line_[current_];
    const size_t count = slot.size();
    for (size_t i = 0; i < count; ++i) {
      slot[i].Apply();
    }
    num_entries_ -= count;
    slot.clear();
    return num_entries_;
'''),
  (G + 'delay_line.h', '''        delay_line_[prev_size + index] = delay_line_[index];
        delay_line_[index].clear();
''', '''        std::swap(delay_line_[prev_size + index], delay_line_[index]);
'''),
 ]),
 ('r_delay2', 'ref', 'P05 P06 P04', [
  (G + 'delay_line.h', '''    int pos = (latency + current_) & mask_;
    delay_line_[pos].emplace_back(args...);
    return ++num_entries_;
''', '''    const uint32_t slot = (static_cast<uint32_t>(current_) + static_cast<uint32_t>(latency)) % delay_line_.size();
    auto& records = delay_line_.at(slot);
    records.emplace_back(std::forward<Ts>(args)...);
    num_entries_ += 1;
    return num_entries_;
'''),
  (G + 'delay_line.h', '''    uint32_t new_size = absl::bit_ceil(min_size + 1);
''', '''    uint32_t new_size = prev_size;
    while (new_size <= min_size) new_size *= 2;
'''),
  (G + 'delay_line.h', '''        delay_line_[prev_size + index] = delay_line_[index];
        delay_line_[index].clear();
''', '''        delay_line_[prev_size + index] = std::move(delay_line_[index]);
        delay_line_[index] = {};
'''),
 ]),
 ('r_fdl', 'ref', 'P06', [
  (G + 'function_delay_line.h', 'explicit FunctionDelayRecord(F fcn) : fcn_(fcn) {}', 'explicit FunctionDelayRecord(F fcn) : fcn_(std::move(fcn)) {}'),
  (G + 'function_delay_line.h', 'void Apply() { fcn_(); }', 'void Apply() { if (fcn_) { fcn_(); } else { std::function<void()>()(); } }'),
 ]),
 ('r_perr', 'ref', 'P07', [
  (G + 'program_error.cc', '''  int index = program_error_info_.size();
  std::string str_name{name};
  program_error_map_.insert(std::make_pair(str_name, index));
  program_error_info_.push_back(ProgramErrorInfo(str_name));
''', '''  const int index = static_cast<int>(program_error_info_.size());
  program_error_info_.emplace_back(name);
  program_error_map_.emplace(program_error_info_.back().name, index);
'''),
  (G + 'program_error.cc', '''  if (program_error_map_.contains(program_error_name)) {
    return absl::WrapUnique(new ProgramError(program_error_name, this));
  }
  return nullptr;
''', '''  if (!HasProgramErrorName(program_error_name)) return nullptr;
  return std::unique_ptr<ProgramError>(new ProgramError(program_error_name, this));
'''),
  (G + 'program_error.cc', '''    auto set_entry = unmasked_program_errors_.find(index);
    if (unmasked_program_errors_.end() != set_entry) {
      unmasked_program_errors_.erase(index);
      masked_program_errors_.insert(index);
    }
''', '''    if (unmasked_program_errors_.erase(index) > 0) {
      masked_program_errors_.insert(index);
    }
'''),
  (G + 'program_error.cc', '''    if (program_error_info_[index].is_masked) {
      masked_program_errors_.insert(index);
    } else {
      unmasked_program_errors_.insert(index);
    }
    program_error_info_[index].error_messages.push_back(
        std::string(error_message));
''', '''    auto& info = program_error_info_[index];
    info.error_messages.emplace_back(error_message);
    auto& pending = info.is_masked ? masked_program_errors_ : unmasked_program_errors_;
    pending.insert(index);
'''),
  (G + 'program_error.cc', '''  return !masked_program_errors_.empty() || !unmasked_program_errors_.empty();
''', '''  return HasMaskedError() || HasUnmaskedError();
'''),
 ]),
 ('r_perr2', 'ref', 'P07', [
  (G + 'program_error.h', '''  absl::flat_hash_map<std::string, int> program_error_map_;
  absl::flat_hash_set<int> unmasked_program_errors_;
  absl::flat_hash_set<int> masked_program_errors_;
''', '''  const ProgramErrorInfo* Find(absl::string_view n) const {
    auto it = program_error_map_.find(n);
    return it == program_error_map_.end() ? nullptr : &program_error_info_[it->second];
  }
  std::vector<std::string> Names(const std::set<int>& ids) const {
    std::vector<std::string> names;
    names.reserve(ids.size());
    for (int id : ids) names.emplace_back(program_error_info_.at(id).name);
    return names;
  }
  absl::btree_map<std::string, int> program_error_map_;
  std::set<int> unmasked_program_errors_;
  std::set<int> masked_program_errors_;
'''),
  (G + 'program_error.h', '#include <vector>\n', '#include <vector>\n#include <set>\n#include "absl/container/btree_map.h"\n'),
  (G + 'program_error.cc', '''  std::vector<std::string> names;
  for (auto index : unmasked_program_errors_) {
    names.push_back(program_error_info_[index].name);
  }
  return names;
''', '''  return Names(unmasked_program_errors_);
'''),
  (G + 'program_error.cc', '''  auto entry = program_error_map_.find(program_error_name);
  if (program_error_map_.end() != entry) {
    int index = entry->second;
    return program_error_info_[index].is_masked;
  }
''', '''  if (const auto* info = Find(program_error_name); info != nullptr) return info->is_masked;
'''),
 ]),
 ('r_ext', 'ref', 'P14', [
  (D + 'extract.cc', '''    if (value & 1) {
      mask <<= 1;
      mask |= 1;
      width += 1;
    } else {
      if (mask != 0) {
        recipe.push_back(
            ExtractionStep{mask << total_width, shift - width - total_width});
        total_width += width;
      }
      mask = 0;
      width = 0;
    }
    shift++;
    value >>= 1;
  }
  if (mask != 0) {
    recipe.push_back(
        ExtractionStep{mask << total_width, shift - width - total_width});
  }
''', '''    while ((value & 1) == 0) {
      value >>= 1;
      ++shift;
    }
    const int start = shift;
    mask = 0;
    width = 0;
    while (value & 1) {
      mask = (mask << 1) | 1;
      ++width;
      value >>= 1;
      ++shift;
    }
    recipe.push_back({mask << total_width, start - total_width});
    total_width += width;
  }
'''),
  (D + 'extract.cc', '''  for (auto [mask, shift] : recipe) {
    extracted_value |= ((value >> shift) & mask);
  }
''', '''  for (size_t i = 0; i < recipe.size(); ++i) {
    const ExtractionStep& step = recipe[i];
    const uint64_t part = value >> step.shift;
    extracted_value = extracted_value | (part & step.mask);
  }
'''),
  (D + 'extract.cc', '''    absl::StrAppend(&output, indent, result, assign, "(", value, " >> ", shift,
                    ") & 0x", absl::Hex(mask), ";\\n");
    assign = " |= ";
''', '''    std::string line = absl::StrCat(indent, result, assign);
    line += absl::StrCat("(", value, " >> ", shift, ") & 0x", absl::Hex(mask));
    output.append(line);
    output += ";\\n";
    assign = " |= ";
'''),
 ]),
 ('r_ext_ctz', 'ref', 'P14', [
  (D + 'extract.cc', '''  uint64_t mask = 0;
  int shift = 0;
  int width = 0;
  int total_width = 0;
  while (value != 0) {
    if (value & 1) {
      mask <<= 1;
      mask |= 1;
      width += 1;
    } else {
      if (mask != 0) {
        recipe.push_back(
            ExtractionStep{mask << total_width, shift - width - total_width});
        total_width += width;
      }
      mask = 0;
      width = 0;
    }
    shift++;
    value >>= 1;
  }
  if (mask != 0) {
    recipe.push_back(
        ExtractionStep{mask << total_width, shift - width - total_width});
  }
''', '''  int total_width = 0;
  while (value != 0) {
    const int low = absl::countr_zero(value);
    const int width = absl::countr_one(value >> low);
    const uint64_t ones = (width == 64) ? ~0ULL : ((1ULL << width) - 1);
    recipe.push_back(ExtractionStep{ones << total_width, low - total_width});
    total_width += width;
    value &= ~(ones << low);
  }
'''),
  (D + 'extract.cc', '#include <vector>\n', '#include <vector>\n#include "absl/numeric/bits.h"\n'),
 ]),
 ('r_names', 'ref', 'P15 P16', [
  (D + 'format_name.cc', '''  for (auto c : name) {
    if (c != '_') {
      if (capitalize) {
        c = toupper(c);
      }
      formatted.append(1, c);
    }
    capitalize = (c == '_');
  }
''', '''  formatted.reserve(name.size());
  for (size_t i = 0; i < name.size(); ++i) {
    const char c = name[i];
    if (c == '_') {
      capitalize = true;
      continue;
    }
    formatted.push_back(capitalize ? static_cast<char>(std::toupper(static_cast<unsigned char>(c))) : c);
    capitalize = false;
  }
'''),
  (D + 'format_name.cc', '''  for (auto c : name) formatted.append(1, tolower(c));
  return formatted;
''', '''  formatted = std::string(name);
  for (auto& c : formatted) c = tolower(c);
  return formatted;
'''),
  (D + 'format_name.cc', '''    if ((c == '/') || (c == '.')) {
      formatted.append(1, '_');
    } else {
      formatted.append(1, toupper(c));
    }
''', '''    switch (c) {
      case '/':
      case '.':
        formatted += '_';
        break;
      default:
        formatted += static_cast<char>(toupper(c));
    }
'''),
 ]),
 ('r_names_absl', 'ref', 'P15', [
  (D + 'format_name.cc', '''  for (auto c : name) formatted.append(1, tolower(c));
  return formatted;
''', '''  return absl::AsciiStrToLower(name);
'''),
  (D + 'format_name.cc', '''    if ((c == '/') || (c == '.')) {
      formatted.append(1, '_');
    } else {
      formatted.append(1, toupper(c));
    }
  }
''', '''    formatted.push_back((c == '/' || c == '.') ? '_' : absl::ascii_toupper(c));
  }
'''),
  (D + 'format_name.cc', '''    if (!formatted.empty() && isupper(c)) {
      formatted.append(1, '_');
    }
    formatted.append(1, tolower(c));
''', '''    if (std::isupper(c)) {
      if (!formatted.empty()) absl::StrAppend(&formatted, "_");
      absl::StrAppend(&formatted, std::string(1, tolower(c)));
    } else {
      formatted.append(1, c);
    }
'''),
  (D + 'format_name.cc', '''#include "mpact/sim/decoder/format_name.h"
''', '''#include "mpact/sim/decoder/format_name.h"
#include "absl/strings/ascii.h"
#include "absl/strings/str_cat.h"
'''),
 ]),
 ('r_res', 'ref', 'P16', [
  (D + 'resource.cc', '''  auto* resource = new Resource(std::string(name));
  resource_map_.insert(std::make_pair(resource->name(), resource));
  return resource;
''', '''  auto resource = std::unique_ptr<Resource>(new Resource(std::string(name)));
  Resource* raw = resource.get();
  resource_map_.emplace(raw->name(), resource.release());
  return raw;
'''),
  (D + 'resource.cc', '''  auto iter = resource_map_.find(name);
  if (iter != resource_map_.end()) return iter->second;
  auto result = CreateResource(name);
  if (!result.ok()) return nullptr;
  return result.value();
''', '''  if (auto iter = resource_map_.find(name); iter != resource_map_.end()) {
    return iter->second;
  }
  auto result = CreateResource(name);
  return result.ok() ? *result : nullptr;
'''),
  (D + 'resource.cc', '''Resource::Resource(std::string name) : name_(name) {
  pascal_name_ = ToPascalCase(name);
}
''', '''Resource::Resource(std::string name)
    : name_(std::move(name)), pascal_name_(ToPascalCase(name_)) {}
'''),
  (D + 'resource.cc', '''  for (auto& [unused, resource_ptr] : resource_map_) {
    delete resource_ptr;
  }
''', '''  for (auto& entry : resource_map_) {
    delete entry.second;
    entry.second = nullptr;
  }
'''),
  (D + 'resource.cc', '#include <string>\n', '#include <string>\n#include <memory>\n'),
 ]),
 ('r_te', 'ref', 'P12 P13', [
  (D + 'template_expression.cc', '''  auto lhs_variant = lhs.value();
  auto rhs_variant = rhs.value();
  int* lhs_value = std::get_if<T>(&lhs_variant);
  int* rhs_value = std::get_if<T>(&rhs_variant);
  if (lhs_value == nullptr) return absl::InternalError("int type expected");
  if (rhs_value == nullptr) return absl::InternalError("int type expected");
  return func(*lhs_value, *rhs_value);
''', '''  const TemplateValue& left = *lhs;
  const TemplateValue& right = *rhs;
  if (!std::holds_alternative<T>(left) || !std::holds_alternative<T>(right)) {
    return absl::InternalError("int type expected");
  }
  return func(std::get<T>(left), std::get<T>(right));
'''),
  (D + 'template_expression.cc', '''  auto res = expr_->GetValue();
  return -expr_->GetValue();
''', '''  return -expr_->GetValue();
'''),
  (D + 'template_expression.cc', '''  for (auto* arg : *args_) {
    if (!arg->IsConstant()) return false;
  }
  return true;
''', '''  return std::all_of(args_->begin(), args_->end(), [](const TemplateExpression* arg) { return arg->IsConstant(); });
'''),
  (D + 'template_expression.cc', '''  TemplateExpression* expr = (*args)[param_->position()];
  if (expr->IsConstant()) {
    auto result = expr->GetValue();
    if (result.ok()) return new TemplateConstant(result.value());
    return result.status();
  }
  return (*args)[param_->position()]->Evaluate(nullptr);
''', '''  TemplateExpression* expr = args->at(param_->position());
  if (!expr->IsConstant()) return expr->Evaluate(nullptr);
  auto result = expr->GetValue();
  if (!result.ok()) return result.status();
  return new TemplateConstant(*result);
'''),
  (D + 'template_expression.cc', '''    auto result = arg->Evaluate(args);
    if (!result.ok()) {
      for (auto* tmp : *new_arguments) {
        delete tmp;
      }
      delete new_arguments;
      return result.status();
    }
    new_arguments->push_back(result.value());
''', '''    auto result = arg->Evaluate(args);
    if (result.ok()) {
      new_arguments->push_back(*result);
      continue;
    }
    while (!new_arguments->empty()) {
      delete new_arguments->back();
      new_arguments->pop_back();
    }
    delete new_arguments;
    return result.status();
'''),
  (D + 'template_expression.cc', '#include <limits>\n', '#include <limits>\n#include <algorithm>\n'),
 ]),
 ('r_te2', 'ref', 'P12 P13', [
  (D + 'template_expression.cc', '''  if (lhs.ok()) {
    auto variant_value = lhs.value();
    int* value_ptr = std::get_if<int>(&variant_value);
    if (value_ptr != nullptr) {
      return -*value_ptr;
    } else {
      return absl::InternalError("int type expected");
    }
  }
  return lhs.status();
''', '''  if (!lhs.ok()) return lhs.status();
  if (lhs->index() != 0) return absl::InternalError("int type expected");
  return TemplateValue(-std::get<0>(*lhs));
'''),
  (D + 'template_expression.cc', '''  auto new_arguments = new TemplateInstantiationArgs;
  for (auto* arg : *args_) {
    auto result = arg->Evaluate(args);
    if (!result.ok()) {
      for (auto* tmp : *new_arguments) {
        delete tmp;
      }
      delete new_arguments;
      return result.status();
    }
    new_arguments->push_back(result.value());
  }
  return new TemplateFunction(evaluator_, new_arguments);
''', '''  auto new_arguments = std::make_unique<TemplateInstantiationArgs>();
  absl::Status status;
  for (auto iter = args_->begin(); status.ok() && iter != args_->end(); ++iter) {
    auto result = (*iter)->Evaluate(args);
    status.Update(result.status());
    if (result.ok()) new_arguments->push_back(result.value());
  }
  if (!status.ok()) {
    for (auto* tmp : *new_arguments) delete tmp;
    return status;
  }
  return new TemplateFunction(evaluator_, new_arguments.release());
'''),
  (D + 'template_expression.cc', '#include <limits>\n', '#include <limits>\n#include <memory>\n'),
 ]),
 ('r_status', 'ref', 'P10', [
  (G + 'status_register.h', '''  T value = 0;
  for (int i = size_ - 1; i >= 0; i--) {
    value <<= 1;
    value |= (evaluate_[i]() ? 1 : 0);
  }
  return value;
''', '''  return Read(static_cast<T>(-1));
'''),
  (G + 'status_register.h', '''  T value = 0;
  for (int i = size_ - 1; i >= 0; i--) {
    value <<= 1;
    if (mask & (static_cast<T>(1) << i)) {
      value |= (evaluate_[i]() ? 1 : 0);
    }
  }
  return value;
''', '''  T value = 0;
  for (int i = 0; i < size_; ++i) {
    const T bit = static_cast<T>(static_cast<T>(1) << i);
    if ((mask & bit) == 0) continue;
    if (evaluate_.at(i)()) value = static_cast<T>(value | bit);
  }
  return value;
'''),
  (G + 'status_register.h', '''  for (int i = 0; i < size_; i++) {
    evaluate_.push_back([]() -> bool { return false; });
  }
''', '''  evaluate_.reserve(size_);
  while (static_cast<int>(evaluate_.size()) < size_) {
    evaluate_.emplace_back([] { return false; });
  }
'''),
 ]),
]
