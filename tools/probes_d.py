BASE = 'mpact/sim/'
G = 'generic/'
D = 'decoder/'
EDITS = [
 ('d_fac', 'ref', 'P02 P04', [
  (G + 'data_buffer.h', '''  inline void Recycle(DataBuffer* db);
''', '''  inline void Recycle(DataBuffer* db);
  inline std::vector<DataBuffer*>* FindFreeList(int size, bool create);
  static DataBuffer* Reuse(std::vector<DataBuffer*>& list) {
    DataBuffer* db = list.back();
    list.resize(list.size() - 1);
    Revive(db);
    return db;
  }
  static inline void Revive(DataBuffer* db);
'''),
  (G + 'data_buffer.h', '''inline void DataBufferFactory::Recycle(DataBuffer* db) {
  int size = db->size<uint8_t>();
  if (size <= kShortSize) {
    short_free_list_[size].push_back(db);
  } else {
    auto ptr = free_list_.find(size);
    if (ptr != free_list_.end()) {
      ptr->second.push_back(db);
      return;
    }
    free_list_.emplace(size, std::vector<DataBuffer*>{db});
  }
}
''', '''inline void DataBufferFactory::Revive(DataBuffer* db) { db->ResetCounts(); }
inline std::vector<DataBuffer*>* DataBufferFactory::FindFreeList(int size,
                                                                 bool create) {
  if (size <= kShortSize) return &short_free_list_[size];
  if (create) return &free_list_.try_emplace(size).first->second;
  auto it = free_list_.lower_bound(size);
  if (it == free_list_.end() || it->first != size) return nullptr;
  return std::addressof(it->second);
}
inline void DataBufferFactory::Recycle(DataBuffer* db) {
  FindFreeList(db->size<uint8_t>(), /*create=*/true)->emplace_back(db);
}
'''),
  (G + 'data_buffer.h', '''  DataBuffer* db = nullptr;
  {
    if (size <= kShortSize) {
      auto& free_list = short_free_list_[size];
      if (!free_list.empty()) {
        db = free_list.back();
        free_list.pop_back();
        db->IncRef();
        db->ResetCounts();
        return db;
      }
    } else {
      auto ptr = free_list_.find(size);
      if (ptr != free_list_.end()) {
        if (!ptr->second.empty()) {
          db = ptr->second.back();
          ptr->second.pop_back();
          db->IncRef();
          db->ResetCounts();
          return db;
        }
      }
    }
  }
  db = new DataBuffer(size);
  db->db_factory_ = this;
  return db;''', '''  if (auto* list = FindFreeList(size, false); list && !list->empty()) {
    return Reuse(*list);
  }
  auto fresh = std::unique_ptr<DataBuffer>(new DataBuffer(size));
  fresh->db_factory_ = this;
  return fresh.release();'''),
  (G + 'data_buffer.cc', '''  for (int i = 0; i <= kShortSize; i++) {
    for (auto db : short_free_list_[i]) {
      delete db;
    }
    short_free_list_[i].clear();
  }
  for (auto& bucket : free_list_) {
    for (auto db : bucket.second) {
      delete db;
    }
    bucket.second.clear();
  }''', '''  auto drop = [](std::vector<DataBuffer*>& list) {
    while (!list.empty()) {
      delete list.back();
      list.pop_back();
    }
  };
  for (auto& list : short_free_list_) drop(list);
  for (auto& [size, list] : free_list_) {
    (void)size;
    drop(list);
  }
  free_list_.clear();'''),
 ]),
 ('d_db', 'ref', 'P03 P04', [
  (G + 'data_buffer.h', '''    ABSL_HARDENING_ASSERT(static_cast<size_t>(index) <
                          size_ / sizeof(ElementType));
    reinterpret_cast<ElementType*>(raw_ptr_)[index] = value;
  }
  template <typename ElementType>
  inline void Set(absl''', '''    *ElementAt<ElementType>(index) = value;
  }
  template <typename ElementType>
  inline void Set(absl'''),
  (G + 'data_buffer.h', '''    auto* data_ptr = reinterpret_cast<ElementType*>(raw_ptr_);
    for (auto const& value : values) {
      *data_ptr++ = value;
    }
  }
  template <typename ElementType>
  inline void SetSubmit(int index, ElementType value) {
    ABSL_HARDENING_ASSERT(static_cast<size_t>(index) <
                          size_ / sizeof(ElementType));
    reinterpret_cast<ElementType*>(raw_ptr_)[index] = value;
    Submit(latency_);
  }''', '''    auto* data_ptr = reinterpret_cast<ElementType*>(raw_ptr_);
    std::copy(values.begin(), values.end(), data_ptr);
  }
  template <typename ElementType>
  inline void SetSubmit(int index, ElementType value) {
    Set(index, value);
    Submit();
  }'''),
  (G + 'data_buffer.h', '''    ABSL_HARDENING_ASSERT(values.size() * sizeof(ElementType) <= size_);
    auto* data_ptr = reinterpret_cast<ElementType*>(raw_ptr_);
    for (auto const& value : values) {
      *data_ptr++ = value;
    }
    Submit(latency_);''', '''    Set(values);
    Submit();'''),
  (G + 'data_buffer.h', '''    ABSL_HARDENING_ASSERT(static_cast<size_t>(index) <
                          size_ / sizeof(ElementType));
    return reinterpret_cast<ElementType*>(raw_ptr_)[index];''', '''    return *ElementAt<ElementType>(index);'''),
  (G + 'data_buffer.h', ''' private:
  explicit DataBuffer(unsigned size);''', ''' private:
  template <typename ElementType>
  ElementType* ElementAt(size_t index) const {
    ABSL_HARDENING_ASSERT(index < size_ / sizeof(ElementType));
    auto* bytes = static_cast<uint8_t*>(raw_ptr_);
    return reinterpret_cast<ElementType*>(bytes + index * sizeof(ElementType));
  }
  explicit DataBuffer(unsigned size);'''),
  (G + 'data_buffer.h', '''    std::memcpy(data, raw_ptr_, size_);''', '''    const auto* src = static_cast<const uint8_t*>(raw_ptr_);
    std::copy_n(src, size_, data);'''),
  (G + 'data_buffer.h', '''    std::memcpy(raw_ptr_, data, size_);''', '''    auto* dst = static_cast<uint8_t*>(raw_ptr_);
    for (unsigned i = 0; i != size_; ++i) dst[i] = data[i];'''),
  (G + 'data_buffer.cc', '''  if (destination_ == nullptr) {
    DecRef();
    return;
  }
  if (0 == latency) {
    destination_->SetDataBuffer(this);
    DecRef();
  } else {
    delay_line_->Add(latency, this, destination_);
  }''', '''  const bool deferred = (destination_ != nullptr) && (latency != 0);
  if (deferred) {
    delay_line_->Add(latency, this, destination_);
    return;
  }
  if (destination_ != nullptr) destination_->SetDataBuffer(this);
  DecRef();'''),
 ]),
 ('d_arity', 'ref', 'P03 P04 P05', [
  (G + 'data_buffer.h', '''  void Submit(int latency);
  inline void Submit() { Submit(latency_); }''', '''  void Submit(int latency, bool trace);
  inline void Submit(int latency) { Submit(latency, false); }
  inline void Submit() { Submit(latency_); }'''),
  (G + 'data_buffer.cc', '''void DataBuffer::Submit(int latency) {''', '''void DataBuffer::Submit(int latency, bool trace) {
  (void)trace;'''),
  (G + 'data_buffer.h', '''  inline int latency() { return latency_; }''', '''  inline int latency(bool absolute = false) const {
    return absolute ? (latency_ < 0 ? -latency_ : latency_) : latency_;
  }'''),
  (G + 'delay_line.h', '''  int Advance() override /*ABSL_LOCKS_EXCLUDED(delay_line_lock_)*/ {
    current_ = (current_ + 1) & mask_;
    for (auto& rec : delay_line_[current_]) {
      rec.Apply();
      num_entries_--;
    }
    delay_line_[current_].clear();
    return num_entries_;
  }''', '''  int Advance() override { return AdvanceBy(); }
  int AdvanceBy(int cycles = 1) {
    for (int n = 0; n < cycles; ++n) {
      current_ = (current_ + 1) & mask_;
      auto& slot = delay_line_[current_];
      for (auto it = slot.begin(), last = slot.end(); it != last; ++it) {
        it->Apply();
        num_entries_ -= 1;
      }
      delay_line_[current_].clear();
    }
    return static_cast<int>(num_entries_);
  }'''),
 ]),
 ('d_delay', 'ref', 'P05 P06 P04', [
  (G + 'delay_line.h', '''    if (latency >= static_cast<int>(delay_line_.size())) {
      Resize(latency);
    }
    int pos = (latency + current_) & mask_;
    delay_line_[pos].emplace_back(args...);
    return ++num_entries_;''', '''    const bool fits = latency < static_cast<int>(delay_line_.size());
    if (!fits) Resize(latency);
    auto& slot = delay_line_[SlotFor(latency)];
    slot.emplace_back(std::forward<Ts>(args)...);
    num_entries_++;
    return num_entries_;'''),
  (G + 'delay_line.h', ''' private:
  void Resize(''', ''' private:
  int SlotFor(int latency) const {
    return (latency + current_) % static_cast<int>(delay_line_.size());
  }
  void Resize('''),
  (G + 'delay_line.h', '''    for (int index = 0; index < current_; ++index) {
      if (!delay_line_[index].empty()) {
        delay_line_[prev_size + index] = delay_line_[index];
        delay_line_[index].clear();
      }
    }''', '''    for (int index = 0; index < current_; ++index) {
      std::swap(delay_line_[prev_size + index], delay_line_[index]);
    }'''),
 ]),
 ('d_delay3', 'ref', 'P05 P06 P04', [
  (G + 'delay_line.h', '''    uint32_t prev_size = delay_line_.size();
    if (min_size < prev_size) {
      return;
    }
    uint32_t new_size = absl::bit_ceil(min_size + 1);
    mask_ = new_size - 1;
    delay_line_.resize(new_size);
    for (int index = 0; index < current_; ++index) {
      if (!delay_line_[index].empty()) {
        delay_line_[prev_size + index] = delay_line_[index];
        delay_line_[index].clear();
      }
    }''', '''    const uint32_t prev_size = delay_line_.size();
    if (min_size < prev_size) return;
    const uint32_t new_size = absl::bit_ceil(min_size + 1);
    std::vector<std::vector<DelayRecord>> grown(new_size);
    for (uint32_t i = 0; i < prev_size; ++i) {
      grown[i] = std::move(delay_line_[(current_ + i) & mask_]);
    }
    delay_line_ = std::move(grown);
    current_ = 0;
    mask_ = static_cast<int>(new_size) - 1;'''),
 ]),
 ('d_ref', 'ref', 'P01 P02', [
  (G + 'ref_count.h', '''  ReferenceCount() : inc_count_(1), dec_count_(0) {}''', '''  ReferenceCount() { ResetCounts(); }'''),
  (G + 'ref_count.h', '''    ABSL_HARDENING_ASSERT(inc_count_ - dec_count_ > 0);
    dec_count_++;
    if (inc_count_ == dec_count_) {
      OnRefCountIsZero();
    }''', '''    ABSL_HARDENING_ASSERT(count_ > 0);
    if (--count_ == 0) OnRefCountIsZero();'''),
  (G + 'ref_count.h', '''    inc_count_ = 1;
    dec_count_ = 0;''', '''    count_ = 1;'''),
  (G + 'ref_count.h', '''  void IncRef() { inc_count_++; }''', '''  void IncRef() { count_ += 1; }'''),
  (G + 'ref_count.h', '''return inc_count_ - dec_count_; }''', '''return static_cast<int>(count_); }'''),
  (G + 'ref_count.h', '''  uint64_t inc_count_;
  uint64_t dec_count_;''', '''  int64_t count_;'''),
 ]),
 ('d_pe', 'ref', 'P07', [
  (G + 'program_error.h', '''  absl::flat_hash_set<int> unmasked_program_errors_;
  absl::flat_hash_set<int> masked_program_errors_;
''', '''  template <typename P>
  std::vector<std::string> Collect(P pred) const {
    std::vector<std::string> names;
    for (const auto& info : program_error_info_) {
      if (info.active && pred(info)) names.emplace_back(info.name);
    }
    return names;
  }
  ProgramErrorInfo* Find(absl::string_view name) {
    auto it = program_error_map_.find(name);
    return it == program_error_map_.end() ? nullptr
                                          : &program_error_info_[it->second];
  }
'''),
  (G + 'program_error.h', '''    bool is_masked;
''', '''    bool is_masked;
    bool active = false;
'''),
  (G + 'program_error.cc', '''  auto entry = program_error_map_.find(program_error_name);
  if (program_error_map_.end() != entry) {
    int index = entry->second;
    program_error_info_[index].error_messages.clear();
    unmasked_program_errors_.erase(index);
    masked_program_errors_.erase(index);
  } else {
    Raise(kInternalErrorName, "Unknown program_error_name in Clear()");
  }''', '''  auto* info = Find(program_error_name);
  if (info == nullptr) {
    Raise(kInternalErrorName, "Unknown program_error_name in Clear()");
    return;
  }
  info->error_messages.clear();
  info->active = false;'''),
  (G + 'program_error.cc', '''    entry.error_messages.clear();
  }
  unmasked_program_errors_.clear();
  masked_program_errors_.clear();''', '''    entry.error_messages.clear();
    entry.active = false;
  }'''),
  (G + 'program_error.cc', '''    int index = entry->second;
    program_error_info_[index].is_masked = true;
    auto set_entry = unmasked_program_errors_.find(index);
    if (unmasked_program_errors_.end() != set_entry) {
      unmasked_program_errors_.erase(index);
      masked_program_errors_.insert(index);
    }''', '''    program_error_info_[entry->second].is_masked = true;'''),
  (G + 'program_error.cc', '''    int index = entry->second;
    program_error_info_[index].is_masked = false;
    auto set_entry = masked_program_errors_.find(index);
    if (masked_program_errors_.end() != set_entry) {
      masked_program_errors_.erase(index);
      unmasked_program_errors_.insert(index);
    }''', '''    program_error_info_[entry->second].is_masked = false;'''),
  (G + 'program_error.cc', '''  return !masked_program_errors_.empty() || !unmasked_program_errors_.empty();''', '''  return HasMaskedError() || HasUnmaskedError();'''),
  (G + 'program_error.cc', '''  return !masked_program_errors_.empty();''', '''  return std::any_of(program_error_info_.begin(), program_error_info_.end(),
                     [](const ProgramErrorInfo& i) { return i.active && i.is_masked; });'''),
  (G + 'program_error.cc', '''  return !unmasked_program_errors_.empty();''', '''  for (const auto& info : program_error_info_) {
    if (info.active && !info.is_masked) return true;
  }
  return false;'''),
  (G + 'program_error.cc', '''  std::vector<std::string> names;
  for (auto index : masked_program_errors_) {
    names.push_back(program_error_info_[index].name);
  }
  return names;''', '''  return Collect([](const ProgramErrorInfo& i) { return i.is_masked; });'''),
  (G + 'program_error.cc', '''  std::vector<std::string> names;
  for (auto index : unmasked_program_errors_) {
    names.push_back(program_error_info_[index].name);
  }
  return names;''', '''  return Collect([](const ProgramErrorInfo& i) { return !i.is_masked; });'''),
  (G + 'program_error.cc', '''  auto entry = program_error_map_.find(program_error_name);
  if (program_error_map_.end() != entry) {
    int index = entry->second;
    if (program_error_info_[index].is_masked) {
      masked_program_errors_.insert(index);
    } else {
      unmasked_program_errors_.insert(index);
    }
    program_error_info_[index].error_messages.push_back(
        std::string(error_message));
    return;
  }''', '''  if (auto* info = Find(program_error_name)) {
    info->active = true;
    info->error_messages.emplace_back(error_message);
    return;
  }'''),
  (G + 'program_error.cc', '''#include <memory>''', '''#include <algorithm>
#include <memory>'''),
 ]),
 ('d_ext', 'ref', 'P14', [
  (D + 'extract.cc', '''  std::vector<ExtractionStep> recipe;
  uint64_t mask = 0;
  int shift = 0;
  int width = 0;
  int total_width = 0;
  while (value != 0) {
    if (value & 1) {
      mask <<= 1;
      mask |= 1;
      width += 1;
    } else {
      if (mask != 0) {
        recipe.push_back(
            ExtractionStep{mask << total_width, shift - width - total_width});
        total_width += width;
      }
      mask = 0;
      width = 0;
    }
    shift++;
    value >>= 1;
  }
  if (mask != 0) {
    recipe.push_back(
        ExtractionStep{mask << total_width, shift - width - total_width});
  }
  return recipe;''', '''  std::vector<ExtractionStep> recipe;
  int produced = 0;
  int bit = 0;
  while (bit < 64) {
    if (((value >> bit) & 1) == 0) {
      ++bit;
      continue;
    }
    const int first = bit;
    uint64_t ones = 0;
    do {
      ones = (ones << 1) | 1;
      ++bit;
    } while (bit < 64 && ((value >> bit) & 1) != 0);
    recipe.emplace_back(ExtractionStep{ones << produced, first - produced});
    produced += bit - first;
  }
  return recipe;'''),
  (D + 'extract.cc', '''  uint64_t extracted_value = 0;
  for (auto [mask, shift] : recipe) {
    extracted_value |= ((value >> shift) & mask);
  }
  return extracted_value;''', '''  return std::accumulate(
      recipe.begin(), recipe.end(), uint64_t{0},
      [value](uint64_t acc, const ExtractionStep& step) {
        return acc | ((value >> step.shift) & step.mask);
      });'''),
  (D + 'extract.cc', '''#include <cstdint>''', '''#include <cstdint>
#include <numeric>'''),
  (D + 'extract.cc', '''  std::string output;
  std::string assign = " = ";
  for (auto [mask, shift] : recipe) {
    absl::StrAppend(&output, indent, result, assign, "(", value, " >> ", shift,
                    ") & 0x", absl::Hex(mask), ";\\n");
    assign = " |= ";
  }
  return output;''', '''  std::string output;
  for (size_t i = 0; i < recipe.size(); ++i) {
    const auto& step = recipe[i];
    const std::string rhs = absl::StrCat("(", value, " >> ", step.shift, ") & 0x",
                                         absl::Hex(step.mask));
    output += absl::StrCat(indent, result, i == 0 ? " = " : " |= ", rhs, ";\\n");
  }
  return output;'''),
 ]),
 ('d_names', 'ref', 'P15 P16', [
  (D + 'format_name.cc', '''  std::string formatted;
  bool capitalize = true;
  for (auto c : name) {
    if (c != '_') {
      if (capitalize) {
        c = toupper(c);
      }
      formatted.append(1, c);
    }
    capitalize = (c == '_');
  }
  return formatted;''', '''  std::string formatted;
  formatted.reserve(name.size());
  char previous = '_';
  for (size_t i = 0; i < name.size(); ++i) {
    const char c = name[i];
    if (c == '_') {
      previous = c;
      continue;
    }
    formatted.push_back(previous == '_' ? static_cast<char>(toupper(c)) : c);
    previous = c;
  }
  return formatted;'''),
  (D + 'format_name.cc', '''  std::string formatted;
  for (auto c : name) {
    if (!formatted.empty() && isupper(c)) {
      formatted.append(1, '_');
    }
    formatted.append(1, tolower(c));
  }
  return formatted;''', '''  std::string formatted;
  for (auto it = name.begin(); it != name.end(); ++it) {
    const bool boundary = (it != name.begin()) && isupper(*it);
    if (boundary) formatted += '_';
    formatted += static_cast<char>(tolower(*it));
  }
  return formatted;'''),
  (D + 'format_name.cc', '''  std::string formatted;
  for (auto c : name) {
    if ((c == '/') || (c == '.')) {
      formatted.append(1, '_');
    } else {
      formatted.append(1, toupper(c));
    }
  }
  return formatted;''', '''  std::string formatted(name);
  std::transform(formatted.begin(), formatted.end(), formatted.begin(),
                 [](char c) -> char {
                   switch (c) {
                     case '/':
                     case '.':
                       return '_';
                     default:
                       return toupper(c);
                   }
                 });
  return formatted;'''),
  (D + 'format_name.cc', '''  std::string formatted;
  for (auto c : name) formatted.append(1, tolower(c));
  return formatted;''', '''  std::string formatted{name};
  for (char& c : formatted) c = tolower(c);
  return formatted;'''),
  (D + 'format_name.cc', '''std::string Indent(int num) { return std::string(num, ' '); }''', '''std::string Indent(int num) {
  std::string blanks;
  blanks.resize(num, ' ');
  return blanks;
}'''),
  (D + 'format_name.cc', '''#include <cctype>''', '''#include <algorithm>
#include <cctype>'''),
 ]),
 ('d_res', 'ref', 'P16', [
  (D + 'resource.cc', '''  if (resource_map_.contains(name)) {
    return absl::AlreadyExistsError(
        absl::StrCat("Resource '", name, "' already exists"));
  }
  auto* resource = new Resource(std::string(name));
  resource_map_.insert(std::make_pair(resource->name(), resource));
  return resource;''', '''  auto [it, inserted] = resource_map_.try_emplace(std::string(name), nullptr);
  if (!inserted) {
    return absl::AlreadyExistsError(
        absl::StrCat("Resource '", name, "' already exists"));
  }
  it->second = new Resource(it->first);
  return it->second;'''),
  (D + 'resource.cc', '''  auto iter = resource_map_.find(name);
  if (iter != resource_map_.end()) return iter->second;
  auto result = CreateResource(name);
  if (!result.ok()) return nullptr;
  return result.value();''', '''  if (auto iter = resource_map_.find(name); iter != resource_map_.end()) {
    return iter->second;
  }
  return CreateResource(name).value_or(nullptr);'''),
  (D + 'resource.cc', '''Resource::Resource(std::string name) : name_(name) {
  pascal_name_ = ToPascalCase(name);
}''', '''Resource::Resource(std::string name)
    : name_(std::move(name)), pascal_name_(ToPascalCase(name_)) {}'''),
 ]),
 ('d_te', 'ref', 'P12 P13', [
  (D + 'template_expression.h', '''    auto lhs = lhs_->Evaluate(args);
    if (!lhs.ok()) return lhs.status();
    auto rhs = rhs_->Evaluate(args);
    if (!rhs.ok()) {
      delete lhs.value();
      return rhs.status();
    }
    if (lhs.value()->IsConstant() && rhs.value()->IsConstant()) {
      auto result =
          T::Operator(lhs.value()->GetValue(), rhs.value()->GetValue());
      delete lhs.value();
      delete rhs.value();
      if (result.ok()) {
        return new TemplateConstant(result.value());
      } else {
        return result.status();
      }
    } else {
      return new T(lhs.value(), rhs.value());
    }''', '''    auto lhs_result = lhs_->Evaluate(args);
    if (!lhs_result.ok()) return lhs_result.status();
    std::unique_ptr<TemplateExpression> lhs(*lhs_result);
    auto rhs_result = rhs_->Evaluate(args);
    if (!rhs_result.ok()) return rhs_result.status();
    std::unique_ptr<TemplateExpression> rhs(*rhs_result);
    const bool foldable = lhs->IsConstant() && rhs->IsConstant();
    if (!foldable) return new T(lhs.release(), rhs.release());
    absl::StatusOr<TemplateValue> folded =
        T::Operator(lhs->GetValue(), rhs->GetValue());
    if (!folded.ok()) return std::move(folded).status();
    return new TemplateConstant(*std::move(folded));'''),
  (D + 'template_expression.h', '''#include <functional>''', '''#include <functional>
#include <memory>'''),
  (D + 'template_expression.cc', '''  auto new_arguments = new TemplateInstantiationArgs;
  for (auto* arg : *args_) {
    auto result = arg->Evaluate(args);
    if (!result.ok()) {
      for (auto* tmp : *new_arguments) {
        delete tmp;
      }
      delete new_arguments;
      return result.status();
    }
    new_arguments->push_back(result.value());
  }
  return new TemplateFunction(evaluator_, new_arguments);''', '''  std::vector<std::unique_ptr<TemplateExpression>> evaluated;
  evaluated.reserve(args_->size());
  for (TemplateExpression* arg : *args_) {
    absl::StatusOr<TemplateExpression*> result = arg->Evaluate(args);
    if (!result.ok()) return result.status();
    evaluated.emplace_back(*result);
  }
  auto* new_arguments = new TemplateInstantiationArgs();
  for (auto& expr : evaluated) new_arguments->push_back(expr.release());
  return new TemplateFunction(evaluator_, new_arguments);'''),
  (D + 'template_expression.cc', '''  for (auto* arg : *args_) {
    if (!arg->IsConstant()) return false;
  }
  return true;''', '''  return std::all_of(args_->cbegin(), args_->cend(),
                     [](const TemplateExpression* e) { return e->IsConstant(); });'''),
  (D + 'template_expression.cc', '''#include <functional>''', '''#include <algorithm>
#include <functional>'''),
  (D + 'template_expression.cc', '''  if (lhs.ok()) {
    auto variant_value = lhs.value();
    int* value_ptr = std::get_if<int>(&variant_value);
    if (value_ptr != nullptr) {
      return -*value_ptr;
    } else {
      return absl::InternalError("int type expected");
    }
  }
  return lhs.status();''', '''  if (!lhs.ok()) return lhs.status();
  const TemplateValue variant_value = *lhs;
  if (!std::holds_alternative<int>(variant_value)) {
    return absl::InternalError("int type expected");
  }
  return 0 - std::get<int>(variant_value);'''),
  (D + 'template_expression.cc', '''  TemplateExpression* expr = (*args)[param_->position()];
  if (expr->IsConstant()) {
    auto result = expr->GetValue();
    if (result.ok()) return new TemplateConstant(result.value());
    return result.status();
  }
  return (*args)[param_->position()]->Evaluate(nullptr);''', '''  TemplateExpression* expr = args->at(param_->position());
  if (!expr->IsConstant()) return expr->Evaluate(nullptr);
  const auto result = expr->GetValue();
  if (!result.ok()) return result.status();
  return new TemplateConstant(*result);'''),
 ]),
 ('d_state', 'ref', 'P11 P10 P20', [
  (G + 'state_item_base.cc', '''      element_size_(element_size),
      size_(element_size) {
  for (int sz : shape_) {
    size_ *= sz;
  }
}''', '''      element_size_(element_size),
      size_(std::accumulate(shape.cbegin(), shape.cend(), element_size,
                            [](int total, int extent) { return total * extent; })) {}'''),
  (G + 'state_item_base.cc', '''#include <vector>''', '''#include <numeric>
#include <vector>'''),
  (G + 'status_register.h', '''    : StateItemBase(state, name, shape, unit_size), size_(sizeof(T) * 8) {
  for (int i = 0; i < size_; i++) {
    evaluate_.push_back([]() -> bool { return false; });
  }
}''', '''    : StateItemBase(state, name, shape, unit_size),
      evaluate_(sizeof(T) * 8),
      size_(sizeof(T) * 8) {
  for (auto& eval : evaluate_) eval = AlwaysFalse;
}'''),
  (G + 'status_register.h', ''' private:
  std::vector<Evaluate> evaluate_;''', ''' private:
  static bool AlwaysFalse() { return false; }
  T Bit(int i) { return static_cast<T>(evaluate_[i]() ? 1 : 0); }
  std::vector<Evaluate> evaluate_;'''),
  (G + 'status_register.h', '''  for (int i = size_ - 1; i >= 0; i--) {
    value <<= 1;
    value |= (evaluate_[i]() ? 1 : 0);
  }''', '''  for (int i = size_; i-- > 0;) {
    value = static_cast<T>((value << 1) | Bit(i));
  }'''),
  (G + 'status_register.h', '''    if (mask & (static_cast<T>(1) << i)) {
      value |= (evaluate_[i]() ? 1 : 0);
    }''', '''    const bool selected = ((mask >> i) & 1) != 0;
    if (!selected) continue;
    value |= Bit(i);'''),
 ]),
]
