BASE = 'mpact/sim/'
G = 'generic/'
D = 'decoder/'
M = 'util/memory/'
EDITS = [
 ('c_status', 'ref', 'P10', [
  (G + 'status_register.h', '''T StatusRegisterBase<T>::Read() {
  T value = 0;
  for (int i = size_ - 1; i >= 0; i--) {
    value <<= 1;
    value |= (evaluate_[i]() ? 1 : 0);
  }
  return value;
}''', '''T StatusRegisterBase<T>::Read() {
  return Read(static_cast<T>(~static_cast<T>(0)));
}'''),
  (G + 'status_register.h', '''  T value = 0;
  for (int i = size_ - 1; i >= 0; i--) {
    value <<= 1;
    if (mask & (static_cast<T>(1) << i)) {
      value |= (evaluate_[i]() ? 1 : 0);
    }
  }
  return value;''', '''  using U = typename std::make_unsigned<T>::type;
  U value = 0;
  U remaining = static_cast<U>(mask);
  int position = 0;
  while (remaining != 0) {
    if ((remaining & 1) != 0 && evaluate_[position]()) {
      value |= static_cast<U>(U{1} << position);
    }
    remaining >>= 1;
    ++position;
  }
  return static_cast<T>(value);'''),
 ]),
 ('c_status2', 'ref', 'P10', [
  (G + 'status_register.h', '''  std::vector<Evaluate> evaluate_;
  int size_;''', '''  static constexpr int kBits = sizeof(T) * 8;
  std::array<Evaluate, kBits> evaluate_;'''),
  (G + 'status_register.h', '''#include <vector>
''', '''#include <array>
#include <vector>
'''),
  (G + 'status_register.h', '''StateItemBase(state, name, shape, unit_size), size_(sizeof(T) * 8) {
  for (int i = 0; i < size_; i++) {
    evaluate_.push_back([]() -> bool { return false; });
  }
}''', '''StateItemBase(state, name, shape, unit_size) {
  for (auto& eval : evaluate_) {
    eval = []() { return false; };
  }
}'''),
  (G + 'status_register.h', '''T StatusRegisterBase<T>::Read() {
  T value = 0;
  for (int i = size_ - 1; i >= 0; i--) {
    value <<= 1;
    value |= (evaluate_[i]() ? 1 : 0);
  }
  return value;
}''', '''T StatusRegisterBase<T>::Read() {
  T value = 0;
  for (auto it = evaluate_.rbegin(); it != evaluate_.rend(); ++it) {
    const bool bit = (*it)();
    value = static_cast<T>((value << 1) | (bit ? 1 : 0));
  }
  return value;
}'''),
  (G + 'status_register.h', '''  for (int i = size_ - 1; i >= 0; i--) {
    value <<= 1;
    if (mask''', '''  for (int i = kBits - 1; i >= 0; i--) {
    value <<= 1;
    if (mask'''),
 ]),
 ('c_imm', 'ref', 'P08', [
  (G + 'immediate_operand.h', '''  explicit ImmediateOperand(T val)
      : value_(val), shape_({1}), as_string_(absl::StrCat(val)) {}
  ImmediateOperand(T val, std::string as_string)
      : value_(val), shape_({1}), as_string_(as_string) {}
  ImmediateOperand(T val, const std::vector<int>& shape)
      : value_(val), shape_(shape), as_string_(absl::StrCat(val)) {}
  ImmediateOperand(T val, const std::vector<int>& shape, std::string as_string)
      : value_(val), shape_(shape), as_string_(as_string) {}
  bool AsBool(int) override { return static_cast<bool>(value_); }
  int8_t AsInt8(int) override { return static_cast<int8_t>(value_); }''', '''  explicit ImmediateOperand(T val)
      : ImmediateOperand(val, std::vector<int>{1}) {}
  ImmediateOperand(T val, std::string as_string)
      : ImmediateOperand(val, std::vector<int>(1, 1), std::move(as_string)) {}
  ImmediateOperand(T val, const std::vector<int>& shape)
      : ImmediateOperand(val, shape, absl::StrCat(val)) {}
  ImmediateOperand(T val, const std::vector<int>& shape, std::string as_string)
      : value_(val), shape_(shape), as_string_(std::move(as_string)) {}
  bool AsBool(int) override { return value_ != 0; }
  int8_t AsInt8(int) override { return As<int8_t>(); }'''),
  (G + 'immediate_operand.h', ''' private:
  T value_;''', ''' private:
  template <typename U>
  U As() const {
    return static_cast<U>(value_);
  }
  const T value_;'''),
  (G + 'immediate_operand.h', '''  explicit VectorImmediateOperand(std::vector<T> val) : value_(val) {
    shape_.push_back(value_.size());
  }''', '''  explicit VectorImmediateOperand(std::vector<T> val)
      : value_(std::move(val)), shape_{static_cast<int>(value_.size())} {}'''),
  (G + 'immediate_operand.h', '''    return absl::StrCat("[", value_[0], "...", value_.back(), "]");''', '''    std::string text = "[";
    absl::StrAppend(&text, value_.front(), "...");
    absl::StrAppend(&text, value_[value_.size() - 1]);
    text.push_back(']');
    return text;'''),
 ]),
 ('c_lit', 'ref', 'P09', [
  (G + 'literal_operand.h', '''  IntLiteralOperand() : as_string_(absl::StrCat(literal)) {};
  IntLiteralOperand(absl::string_view as_string) : as_string_(as_string) {}''', '''  IntLiteralOperand() : IntLiteralOperand(std::to_string(literal)) {}
  IntLiteralOperand(absl::string_view as_string)
      : IntLiteralOperand(std::vector<int>(), as_string) {}'''),
  (G + 'literal_operand.h', '''  bool AsBool(int) override { return static_cast<bool>(literal); }
  int8_t AsInt8(int) override { return static_cast<int8_t>(literal); }''', '''  bool AsBool(int) override { return literal != 0; }
  int8_t AsInt8(int) override { return kValue<int8_t>; }'''),
  (G + 'literal_operand.h', '''template <int literal>
class IntLiteralOperand : public SourceOperandInterface {
 public:''', '''template <int literal>
class IntLiteralOperand : public SourceOperandInterface {
  template <typename T>
  static constexpr T kValue = static_cast<T>(literal);
 public:'''),
 ]),
 ('c_state', 'ref', 'P11', [
  (G + 'state_item_base.cc', '''      size_(element_size) {
  for (int sz : shape_) {
    size_ *= sz;
  }
}''', '''      size_(std::accumulate(shape.begin(), shape.end(), element_size,
                            std::multiplies<int>())) {}'''),
  (G + 'state_item_base.cc', '''#include <vector>
''', '''#include <functional>
#include <numeric>
#include <vector>
'''),
  (G + 'state_item.h', '''      : BaseType(arch_state, name, {M, N}, sizeof(ElementType), pargs...) {}''', '''      : BaseType(arch_state, name,
                 std::vector<int>(std::begin(kShape), std::end(kShape)),
                 sizeof(ValueType), pargs...) {}'''),
  (G + 'state_item.h', '''#include "absl/strings/string_view.h"
''', '''#include <iterator>
#include <vector>
#include "absl/strings/string_view.h"
'''),
 ]),
 ('c_state2', 'ref', 'P11', [
  (G + 'state_item_base.cc', '''  for (int sz : shape_) {
    size_ *= sz;
  }''', '''  int count = 1;
  for (size_t dim = shape_.size(); dim > 0; --dim) {
    count *= shape_[dim - 1];
  }
  size_ = count * element_size_;'''),
 ]),
 ('c_wrap', 'ref', 'P09 P11', [
  (G + 'wrapper_operand.h', '''  std::any GetObject() const override { return std::any(value_); }
  std::vector<int> shape() const override { return shape_; }
  std::string AsString() const override { return value_->AsString(); }
 private:
  T* value_;
  std::vector<int> shape_;
};
template <typename T>
class WrapperDestinationOperand''', '''  std::any GetObject() const override {
    std::any object = value_;
    return object;
  }
  std::vector<int> shape() const override {
    return std::vector<int>(shape_.begin(), shape_.end());
  }
  std::string AsString() const override {
    const T& value = *value_;
    return value.AsString();
  }
 private:
  T* value_;
  std::vector<int> shape_;
};
template <typename T>
class WrapperDestinationOperand'''),
 ]),
 ('c_fp', 'ref', 'P17 P18', [
  (G + 'type_helpers.h', '''struct FPTypeInfo<float> {
  using T = float;
  using UIntType = uint32_t;
  using IntType = std::make_signed<UIntType>::type;
  static constexpr int kBitSize = sizeof(float) << 3;
  static constexpr int kExpSize = 8;
  static constexpr int kExpBias = 127;
  static constexpr int kSigSize = kBitSize - kExpSize - /*sign*/ 1;
  static constexpr UIntType kInfMask = (1ULL << (kBitSize - 1)) - 1;
  static constexpr UIntType kExpMask = ((1ULL << kExpSize) - 1) << kSigSize;
  static constexpr UIntType kSigMask = (1ULL << kSigSize) - 1;
  static constexpr UIntType kCanonicalNaN = 0b0'1111'1111'1ULL
                                            << (kSigSize - 1);
  static constexpr UIntType kPosInf = kExpMask;
  static constexpr UIntType kNegInf = kExpMask | (1ULL << (kBitSize - 1));
  static inline bool IsInf(T value) {
    UIntType uint_val = *reinterpret_cast<UIntType*>(&value);
    return (uint_val & kInfMask) == kPosInf;
  }
  static inline bool IsNaN(T value) {
    UIntType uint_val = *reinterpret_cast<UIntType*>(&value);
    return ((uint_val & kExpMask) == kExpMask) && ((uint_val & kSigMask) != 0);
  }
  static inline bool IsSNaN(T value) {
    UIntType uint_val = *reinterpret_cast<UIntType*>(&value);
    return IsNaN(value) && (((1 << (kSigSize - 1)) & uint_val) == 0);
  }
  static inline bool IsQNaN(T value) {
    UIntType uint_val = *reinterpret_cast<UIntType*>(&value);
    return IsNaN(value) && (((1 << (kSigSize - 1)) & uint_val) != 0);
  }
  static inline bool SignBit(T value) {
    UIntType uint_val = *reinterpret_cast<UIntType*>(&value);
    return 1 == (uint_val >> (kBitSize - 1));
  }
''', '''struct FPTypeInfo<float> {
  using T = float;
  using UIntType = uint32_t;
  using IntType = std::make_signed<UIntType>::type;
  static constexpr int kBitSize = 32;
  static constexpr int kExpSize = 8;
  static constexpr int kExpBias = (1 << (kExpSize - 1)) - 1;
  static constexpr int kSigSize = kBitSize - kExpSize - /*sign*/ 1;
  static constexpr UIntType kSignMask = UIntType{1} << (kBitSize - 1);
  static constexpr UIntType kSigMask = (UIntType{1} << kSigSize) - 1;
  static constexpr UIntType kInfMask = static_cast<UIntType>(~kSignMask);
  static constexpr UIntType kExpMask = kInfMask ^ kSigMask;
  static constexpr UIntType kQuietBit = (kSigMask + 1) >> 1;
  static constexpr UIntType kCanonicalNaN = kExpMask | kQuietBit;
  static constexpr UIntType kPosInf = kExpMask;
  static constexpr UIntType kNegInf = kPosInf | kSignMask;
  static inline UIntType Bits(T value) {
    UIntType bits;
    std::memcpy(&bits, &value, sizeof(bits));
    return bits;
  }
  static inline bool IsInf(T value) {
    const UIntType magnitude = Bits(value) & ~kSignMask;
    return magnitude == kPosInf;
  }
  static inline bool IsNaN(T value) {
    return (Bits(value) & kInfMask) > kPosInf;
  }
  static inline bool IsSNaN(T value) {
    return IsNaN(value) && !IsQNaN(value);
  }
  static inline bool IsQNaN(T value) {
    return (Bits(value) & kCanonicalNaN) == kCanonicalNaN;
  }
  static inline bool SignBit(T value) {
    return (Bits(value) & kSignMask) != 0;
  }
'''),
  (G + 'type_helpers.h', '''#include <type_traits>
''', '''#include <cstring>
#include <type_traits>
'''),
 ]),
 ('c_reg', 'ref', 'P20', [
  (G + 'register.cc', '''  db->IncRef();
  if (nullptr != data_buffer_) {
    data_buffer_->DecRef();
  }
  data_buffer_ = db;''', '''  DataBuffer* previous = data_buffer_;
  data_buffer_ = db;
  data_buffer_->IncRef();
  if (previous != nullptr) previous->DecRef();'''),
  (G + 'register.h', '''  DataBuffer* db = db_factory_->MakeCopyOf(register_->data_buffer());
  InitializeDataBuffer(db);
  return db;''', '''  DataBuffer* source = register_->data_buffer();
  DataBuffer* db = db_factory_->Allocate(source->template size<uint8_t>());
  db->CopyFrom(source);
  InitializeDataBuffer(db);
  return db;'''),
  (G + 'register.h', '''  return static_cast<int32_t>(
      register_->data_buffer()->Get<typename internal::SignedType<T>::type>(i));
}''', '''  auto* db = register_->data_buffer();
  const T value = db->Get<T>(i);
  return static_cast<int32_t>(
      static_cast<typename internal::SignedType<T>::type>(value));
}'''),
 ]),
 ('c_fifo', 'ref', 'P22', [
  (G + 'fifo.cc', '''  if (IsFull()) {
    if (nullptr != overflow_program_error_) {
      overflow_program_error_->Raise("Overflow in fifo " + name_);
    }
    return false;
  } else {
    db->IncRef();
    fifo_.push_back(db);
    return true;
  }''', '''  const bool has_room = !IsFull();
  if (has_room) {
    fifo_.push_back(db);
    fifo_.back()->IncRef();
  } else if (overflow_program_error_ != nullptr) {
    overflow_program_error_->Raise(absl::StrCat("Overflow in fifo ", name_));
  }
  return has_room;'''),
  (G + 'fifo.cc', '''#include "absl/status/status.h"
''', '''#include "absl/status/status.h"
#include "absl/strings/str_cat.h"
'''),
  (G + 'fifo.cc', '''  fifo_.front()->DecRef();
  fifo_.pop_front();
}''', '''  DataBuffer* front = fifo_.front();
  fifo_.pop_front();
  front->DecRef();
}'''),
  (G + 'fifo.cc', '''  while (Available() > 0) {
    Pop();
  }''', '''  for (auto* db : fifo_) db->DecRef();
  fifo_.clear();'''),
 ]),
 ('c_arch', 'ref', 'P21', [
  (G + 'arch_state.cc', '''  absl::flat_hash_set<void*> pointer_set;
  for (const auto& reg : registers_) {
    if (pointer_set.contains(reg.second)) continue;
    pointer_set.insert(reg.second);
    delete reg.second;
  }
  registers_.clear();
  pointer_set.clear();
  for (const auto& fifo : fifos_) {
    if (pointer_set.contains(fifo.second)) continue;
    pointer_set.insert(fifo.second);
    delete fifo.second;
  }
  fifos_.clear();
  pointer_set.clear();
''', '''  DeleteUnique(&registers_);
  DeleteUnique(&fifos_);
'''),
  (G + 'arch_state.cc', '''ArchState::ArchState(Component* parent, absl::string_view id,
                     SourceOperandInterface* pc_operand)
''', '''template <typename Map>
static void DeleteUnique(Map* map) {
  absl::flat_hash_set<typename Map::mapped_type> seen;
  for (auto const& [unused, item] : *map) {
    if (seen.insert(item).second) delete item;
  }
  map->clear();
}
ArchState::ArchState(Component* parent, absl::string_view id,
                     SourceOperandInterface* pc_operand)
'''),
 ]),
 ('c_res', 'ref', 'P23', [
  (G + 'simple_resource.cc', '''  if (resource_name_map_.size() == width_) {
    return absl::InternalError(absl::StrCat(
        "SimpleResourcePool: Attempted to add too many resources to pool '",
        name_, "'"));
  }
  if (resource_name_map_.contains(name)) {
    return absl::AlreadyExistsError(
        absl::StrCat("SimpleResourcePool: Resource '", name,
                     "' already exists in pool '", name_, "'"));
  }
  int index = resource_name_map_.size();
  SimpleResource* resource = new SimpleResource(name, index, this);
  resource_name_map_.emplace(name, resource);
  resources_.push_back(resource);
  return resource;''', '''  const int index = static_cast<int>(resources_.size());
  if (resources_.size() >= width_) {
    return absl::InternalError(absl::StrCat(
        "SimpleResourcePool: Attempted to add too many resources to pool '",
        name_, "'"));
  }
  auto [iter, inserted] = resource_name_map_.try_emplace(name, nullptr);
  if (!inserted) {
    return absl::AlreadyExistsError(
        absl::StrCat("SimpleResourcePool: Resource '", name,
                     "' already exists in pool '", name_, "'"));
  }
  iter->second = new SimpleResource(name, index, this);
  resources_.push_back(iter->second);
  return iter->second;'''),
  (G + 'simple_resource.cc', '''  std::string out = "[";
  std::string sep;
  for (int index = 0; resource_vector_.FindNextSetBit(&index); ++index) {
    auto* resource = pool_->GetResource(index);
    if (resource == nullptr) {
      LOG(ERROR) << absl::StrCat("Cannot find resource (", index, ") in pool '",
                                 pool_->name(), "'");
      continue;
    }
    absl::StrAppend(&out, sep, resource->name());
    sep = ", ";
  }
  absl::StrAppend(&out, "]");
  return out;''', '''  std::vector<std::string> names;
  for (int index = 0; resource_vector_.FindNextSetBit(&index); ++index) {
    auto* resource = pool_->GetResource(index);
    if (resource == nullptr) {
      LOG(ERROR) << absl::StrCat("Cannot find resource (", index, ") in pool '",
                                 pool_->name(), "'");
      continue;
    }
    names.push_back(resource->name());
  }
  return absl::StrCat("[", absl::StrJoin(names, ", "), "]");'''),
  (G + 'simple_resource.cc', '''#include "absl/strings/str_cat.h"
''', '''#include "absl/strings/str_cat.h"
#include "absl/strings/str_join.h"
'''),
  (G + 'resource_bitset.cc', '''  UInt accumulator = 0;
  for (int i = 0; i < min; ++i) accumulator |= bits_[i] & rhs.bits_[i];
  return accumulator != 0;''', '''  for (int i = 0; i < min; ++i) {
    if ((bits_[i] & rhs.bits_[i]) != 0) return true;
  }
  return false;'''),
  (G + 'resource_bitset.cc', '''  auto prev = bits_;
  bits_ = new UInt[new_size];
  for (int i = 0; i < new_size; ++i) {
    bits_[i] = (i < size_) ? prev[i] : 0;
  }
  delete[] prev;
  size_ = new_size;''', '''  UInt* grown = new UInt[new_size]();
  std::copy(bits_, bits_ + size_, grown);
  std::swap(bits_, grown);
  size_ = new_size;
  delete[] grown;'''),
 ]),
 ('c_cres', 'ref', 'P24', [
  (G + 'complex_resource.cc', '''  if (state_->cycle() != last_cycle_) Advance();
  int min = std::min(bit_span.length(), array_size_);
  for (int i = 0; i < min; i++) {
    if (bit_span[i] & bit_array_[i]) return false;
  }
  return true;''', '''  if (state_->cycle() != last_cycle_) Advance();
  size_t count = array_size_;
  if (bit_span.size() < count) count = bit_span.size();
  bool conflict = false;
  for (size_t i = 0; i < count && !conflict; ++i) {
    conflict = (bit_span[i] & bit_array_[i]) != 0;
  }
  return !conflict;'''),
  (G + 'complex_resource.cc', '''  for (unsigned i = num_longwords; i < array_size_; i++) {
    uint64_t bits = (i + 1u < array_size_)
                        ? bit_array_[i + 1] << (kNumBitsPerWord - cycles)
                        : 0;
    bit_array_[i] >>= cycles;
    bit_array_[i] |= bits;
  }''', '''  for (unsigned i = num_longwords; i < array_size_; i++) {
    uint64_t carry = 0;
    if (i + 1u < array_size_) {
      carry = bit_array_[i + 1] << (kNumBitsPerWord - cycles);
    }
    bit_array_[i] = (bit_array_[i] >> cycles) | carry;
  }'''),
 ]),
]
