// Instantiates operand templates; nothing here is ever executed.
#include <cstdint>
#include <string>
#include <vector>

#include "mpact/sim/generic/immediate_operand.h"
#include "mpact/sim/generic/literal_operand.h"
#include "mpact/sim/generic/status_register.h"
#include "mpact/sim/generic/wrapper_operand.h"

namespace verif_unit {

using mpact::sim::generic::StateItemBase;

class PlainState : public StateItemBase {
 public:
  PlainState(mpact::sim::generic::ArchState *st, absl::string_view name,
             const std::vector<int> &shape, int es)
      : StateItemBase(st, name, shape, es) {}
  void SetDataBuffer(mpact::sim::generic::DataBuffer *) override {}
};

class Wrapped {
 public:
  virtual ~Wrapped() = default;
  virtual std::string AsString() const = 0;
};

// A state item and operands that record what StateItem passes to them.
using mpact::sim::generic::ArchState;
using mpact::sim::generic::DataBuffer;

class Base : public StateItemBase {
 public:
  Base(ArchState *st, absl::string_view name, const std::vector<int> &shape,
       int es, int extra)
      : StateItemBase(st, name, shape, es), extra_(extra) {}
  void SetDataBuffer(DataBuffer *) override {}
  int extra() const { return extra_; }

 private:
  int extra_;
};

class Src : public mpact::sim::generic::SourceOperandInterface {
 public:
  explicit Src(Base *item) : item_(item), op_name_("(none)") {}
  Src(Base *item, std::string name) : item_(item), op_name_(name) {}
  bool AsBool(int) override { return false; }
  int8_t AsInt8(int) override { return 0; }
  uint8_t AsUint8(int) override { return 0; }
  int16_t AsInt16(int) override { return 0; }
  uint16_t AsUint16(int) override { return 0; }
  int32_t AsInt32(int) override { return 0; }
  uint32_t AsUint32(int) override { return 0; }
  int64_t AsInt64(int) override { return 0; }
  uint64_t AsUint64(int) override { return 0; }
  std::any GetObject() const override { return std::any(); }
  std::vector<int> shape() const override { return {}; }
  std::string AsString() const override { return op_name_; }
  Base *item() const { return item_; }

 private:
  Base *item_;
  std::string op_name_;
};

class Dst : public mpact::sim::generic::DestinationOperandInterface {
 public:
  Dst(Base *item, int latency)
      : item_(item), latency_(latency), op_name_("(none)") {}
  Dst(Base *item, int latency, std::string name)
      : item_(item), latency_(latency), op_name_(name) {}
  DataBuffer *AllocateDataBuffer() override { return nullptr; }
  void InitializeDataBuffer(DataBuffer *) override {}
  DataBuffer *CopyDataBuffer() override { return nullptr; }
  int latency() const override { return latency_; }
  std::any GetObject() const override { return std::any(); }
  std::vector<int> shape() const override { return {}; }
  std::string AsString() const override { return op_name_; }
  Base *item() const { return item_; }

 private:
  Base *item_;
  int latency_;
  std::string op_name_;
};

inline void Touch2(Base *b, Src *s, Dst *d) {
  (void)b->extra();
  (void)s->item();
  (void)d->item();
  Src s1(b), s2(b, "x");
  Dst d1(b, 1), d2(b, 1, "x");
}
using mpact::sim::generic::StateItem;
void Anchor2(ArchState *st) {
  StateItem<Base, uint8_t, Src, Dst> a1(st, "x", 1);
  StateItem<Base, uint16_t, Src, Dst> a2(st, "x", 1);
  StateItem<Base, uint32_t, Src, Dst> a4(st, "x", 1);
  StateItem<Base, uint64_t, Src, Dst> a8(st, "x", 1);
  StateItem<Base, uint8_t *, Src, Dst> p(st, "x", 12, 1);
  StateItem<Base, uint32_t, Src, void> v(st, "x", 1);
  StateItem<Base, uint32_t, Src, Dst, 5> n5(st, "x", 1);
  StateItem<Base, uint8_t, Src, Dst, 3> n3(st, "x", 1);
  StateItem<Base, uint16_t, Src, Dst, 3, 7> m1(st, "x", 1);
  StateItem<Base, uint64_t, Src, Dst, 4, 2> m2(st, "x", 1);
  (void)a1.CreateSourceOperand();
}

inline void Touch(PlainState *p) {
  (void)p->name();
  (void)p->shape();
  (void)p->size();
  (void)p->element_size();
  (void)p->arch_state();
}
void Anchor(mpact::sim::generic::ArchState *st) {
  PlainState p(st, "x", {1}, 4);
  Touch(&p);
}

}  // namespace verif_unit

namespace mpact {
namespace sim {
namespace generic {
#define INST(T)                          \
  template class ImmediateOperand<T>;    \
  template class VectorImmediateOperand<T>;
INST(uint8_t)
INST(int8_t)
INST(uint16_t)
INST(int16_t)
INST(uint32_t)
INST(int32_t)
INST(uint64_t)
INST(int64_t)
template class BoolLiteralPredicateOperand<true>;
template class BoolLiteralPredicateOperand<false>;
template class BoolLiteralOperand<true>;
template class BoolLiteralOperand<false>;
template class IntLiteralOperand<0>;
template class IntLiteralOperand<1>;
template class IntLiteralOperand<-1>;
template class IntLiteralOperand<127>;
template class IntLiteralOperand<128>;
template class IntLiteralOperand<-128>;
template class IntLiteralOperand<255>;
template class IntLiteralOperand<256>;
template class IntLiteralOperand<32768>;
template class IntLiteralOperand<65535>;
template class IntLiteralOperand<65536>;
template class IntLiteralOperand<-32769>;
template class IntLiteralOperand<0x12345678>;
template class IntLiteralOperand<(-2147483647 - 1)>;
#define STAT(T)                                                          \
  template class StateItem<StatusRegisterBase<T>, T,                     \
                           StatusRegisterSourceOperand<T>, void>;        \
  template StateItem<StatusRegisterBase<T>, T,                           \
                     StatusRegisterSourceOperand<T>, void>::StateItem(   \
      ArchState *, absl::string_view);                                   \
  template class StatusRegisterBase<T>;                                  \
  template class StatusRegisterSourceOperand<T>;
STAT(uint8_t)
STAT(uint16_t)
STAT(uint32_t)
STAT(uint64_t)
STAT(int8_t)
STAT(int32_t)
template class StateItem<verif_unit::Base, uint8_t, verif_unit::Src,
                         verif_unit::Dst>;
template class StateItem<verif_unit::Base, uint16_t, verif_unit::Src,
                         verif_unit::Dst>;
template class StateItem<verif_unit::Base, uint32_t, verif_unit::Src,
                         verif_unit::Dst>;
template class StateItem<verif_unit::Base, uint64_t, verif_unit::Src,
                         verif_unit::Dst>;
template class StateItem<verif_unit::Base, uint8_t *, verif_unit::Src,
                         verif_unit::Dst>;
template class StateItem<verif_unit::Base, uint32_t, verif_unit::Src, void>;
template class StateItem<verif_unit::Base, uint32_t, verif_unit::Src,
                         verif_unit::Dst, 5>;
template class StateItem<verif_unit::Base, uint8_t, verif_unit::Src,
                         verif_unit::Dst, 3>;
template class StateItem<verif_unit::Base, uint16_t, verif_unit::Src,
                         verif_unit::Dst, 3, 7>;
template class StateItem<verif_unit::Base, uint64_t, verif_unit::Src,
                         verif_unit::Dst, 4, 2>;
template class WrapperSourceOperand<verif_unit::Wrapped>;
template class WrapperDestinationOperand<verif_unit::Wrapped>;
}  // namespace generic
}  // namespace sim
}  // namespace mpact
