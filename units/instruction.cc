// Instantiates instruction helper templates; nothing here is ever executed.
#include <cstdint>
#include <functional>
#include <vector>

#include "mpact/sim/generic/arch_state.h"
#include "mpact/sim/generic/decode_cache.h"
#include "mpact/sim/generic/instruction.h"
#include "mpact/sim/generic/instruction_helpers.h"
#include "mpact/sim/generic/operand_interface.h"
#include "mpact/sim/generic/resource_operand_interface.h"

namespace verif_unit {

using namespace mpact::sim::generic;  // NOLINT

// Created with "new", so that the tree's own deletes are seen.
struct Caches {
  static DecodeCache *Make(uint32_t entries, uint32_t inc,
                           DecoderInterface *decoder) {
    DecodeCacheProperties props;
    props.num_entries = entries;
    props.minimum_pc_increment = inc;
    return DecodeCache::Create(props, decoder);
  }
};

class Cpu : public ArchState {
 public:
  explicit Cpu(absl::string_view id) : ArchState(id) {}
};

class Pred : public PredicateOperandInterface {
 public:
  bool Value() override { return true; }
  std::string AsString() const override { return ""; }
};

class Resource : public ResourceOperandInterface {
 public:
  bool IsFree() override { return true; }
  void Acquire() override {}
  std::string AsString() const override { return ""; }
};

struct Sem {
  static void Set(Instruction *inst, std::function<void(Instruction *)> f) {
    inst->set_semantic_function(f);
  }
  static void Attr(Instruction *inst, const std::vector<int> &v) {
    inst->SetAttributes(v);
  }
  static int AttrSize(Instruction *inst) { return inst->Attributes().size(); }
  static int AttrAt(Instruction *inst, int i) { return inst->Attributes()[i]; }
};

template <typename T>
struct Source {
  static T Get(const Instruction *inst, int i) {
    return GetInstructionSource<T>(inst, i);
  }
};
template <typename T>
struct Element {
  static T Get(const Instruction *inst, int i, int e) {
    return GetInstructionSource<T>(inst, i, e);
  }
};
struct Half {
  static uint16_t Get(const Instruction *inst, int i) {
    return GetInstructionSource<HalfFP>(inst, i).value;
  }
};
template <typename R, typename A, typename B, typename C>
struct Ops {
  static void Bin3(const Instruction *i, std::function<R(A, B)> f) {
    BinaryOp<R, A, B>(i, f);
  }
  static void Bin2(const Instruction *i, std::function<R(A, A)> f) {
    BinaryOp<R, A>(i, f);
  }
  static void Bin1(const Instruction *i, std::function<R(R, R)> f) {
    BinaryOp<R>(i, f);
  }
  static void Un2(const Instruction *i, std::function<R(A)> f) {
    UnaryOp<R, A>(i, f);
  }
  static void Un1(const Instruction *i, std::function<R(R)> f) {
    UnaryOp<R>(i, f);
  }
  static void VTer4(const Instruction *i, std::function<R(A, B, C)> f) {
    TernaryVectorOp<R, A, B, C>(i, f);
  }
  static void VTer2(const Instruction *i, std::function<R(A, A, A)> f) {
    TernaryVectorOp<R, A>(i, f);
  }
  static void VTer1(const Instruction *i, std::function<R(R, R, R)> f) {
    TernaryVectorOp<R>(i, f);
  }
  static void VBin3(const Instruction *i, std::function<R(A, B)> f) {
    BinaryVectorOp<R, A, B>(i, f);
  }
  static void VBin2(const Instruction *i, std::function<R(A, A)> f) {
    BinaryVectorOp<R, A>(i, f);
  }
  static void VBin1(const Instruction *i, std::function<R(R, R)> f) {
    BinaryVectorOp<R>(i, f);
  }
  static void VUn2(const Instruction *i, std::function<R(A)> f) {
    UnaryVectorOp<R, A>(i, f);
  }
  static void VUn1(const Instruction *i, std::function<R(R)> f) {
    UnaryVectorOp<R>(i, f);
  }
};

template struct Source<bool>;
template struct Source<uint8_t>;
template struct Source<int8_t>;
template struct Source<uint16_t>;
template struct Source<int16_t>;
template struct Source<uint32_t>;
template struct Source<int32_t>;
template struct Source<uint64_t>;
template struct Source<int64_t>;
template struct Source<float>;
template struct Source<double>;
template struct Element<bool>;
template struct Element<uint8_t>;
template struct Element<int8_t>;
template struct Element<uint16_t>;
template struct Element<int16_t>;
template struct Element<uint32_t>;
template struct Element<int32_t>;
template struct Element<uint64_t>;
template struct Element<int64_t>;
template struct Element<float>;
template struct Element<double>;
template struct Ops<uint32_t, int8_t, uint16_t, int64_t>;
template struct Ops<int64_t, uint32_t, int16_t, uint8_t>;
template struct Ops<uint8_t, uint64_t, int32_t, uint16_t>;

}  // namespace verif_unit
