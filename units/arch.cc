// Instantiates registers, fifos and their operands; nothing here is executed.
#include <cstdint>
#include <memory>
#include <string>

#include "mpact/sim/generic/arch_state.h"
#include "mpact/sim/generic/control_register.h"
#include "mpact/sim/generic/devnull_operand.h"
#include "mpact/sim/generic/fifo.h"
#include "mpact/sim/generic/fifo_with_notify.h"
#include "mpact/sim/generic/register.h"
#include "mpact/sim/generic/simple_resource.h"
#include "mpact/sim/generic/token_fifo.h"

namespace verif_unit {

using namespace mpact::sim::generic;  // NOLINT

class State : public ArchState {
 public:
  explicit State(absl::string_view id) : ArchState(id) {}
  State(absl::string_view id, SourceOperandInterface *pc) : ArchState(id, pc) {}
  State(Component *parent, absl::string_view id, SourceOperandInterface *pc)
      : ArchState(parent, id, pc) {}
  void SetCycle(uint64_t v) { set_cycle(v); }
  void SetPc(SourceOperandInterface *pc) { set_pc_operand(pc); }
};

void Anchor(State *st, DataBuffer *db, std::unique_ptr<ProgramError> *pe,
            SimpleResource *res, Component *par, SourceOperandInterface *pc) {
  State a("x"), b("x", pc), c(par, "x", pc);
  st->SetCycle(1);
  st->SetPc(pc);
  (void)st->cycle();
  (void)st->id();
  (void)st->registers();
  (void)st->fifos();
  (void)st->db_factory();
  (void)st->pc_operand();
  (void)st->program_error_controller();
  (void)st->data_buffer_delay_line();
  (void)st->function_delay_line();
  st->AdvanceDelayLines();
  st->CreateAndAddDelayLine<DataBufferDelayLine>(8);
  st->CreateAndAddDelayLine<FunctionDelayLine>(8);
#define REG(T)                                             \
  st->AddRegister<Register<T>>("r");                       \
  { Register<T> r(st, "r"); }                              \
  st->AddRegister<VectorRegister<T, 4>>("r");              \
  st->AddRegister<MatrixRegister<T, 2, 3>>("r");           \
  st->AddRegister<ReservedRegister<T>>("r", res);          \
  { VectorRegister<T, 4> r(st, "r"); }                     \
  { MatrixRegister<T, 2, 3> r(st, "r"); }                  \
  { ReservedRegister<T> r(st, "r", res); }                 \
  { DevNullOperand<T> d(st, {1}); }                        \
  { DevNullOperand<T> d(st, {1}, "x"); }                   \
  { ControlRegister<T> r(st, "r", std::function<void(ControlRegisterBase *, DataBuffer *)>()); } \
  st->AddFifo<Fifo<T>>("f", 4);                            \
  { Fifo<T> f(st, "f", 4); }                               \
  st->AddFifo<VectorFifo<T, 4>>("f", 4);                   \
  { VectorFifo<T, 4> f(st, "f", 4); }
  REG(uint8_t)
  REG(int8_t)
  REG(uint16_t)
  REG(int16_t)
  REG(uint32_t)
  REG(int32_t)
  REG(uint64_t)
  REG(int64_t)
  FifoTokenStore ts(4);
  (void)ts.available();
  (void)ts.capacity();
  (void)ts.Acquire();
  (void)ts.Release();
  TokenFifo<uint32_t> tf(st, "t", 4, &ts);
  FifoWithNotify<uint32_t> nf(st, "n", 4);
  nf.SetOnNotEmpty([](FifoWithNotifyBase *) {});
  nf.SetOnEmpty([](FifoWithNotifyBase *) {});
  FifoBase *f = &tf;
  f->SetDataBuffer(db);
  f->Push(db);
  f->Pop();
  (void)f->Front();
  (void)f->Capacity();
  (void)f->Available();
  (void)f->Reserved();
  (void)f->IsFull();
  (void)f->IsEmpty();
  (void)f->IsOverSubscribed();
  f->Reserve(1);
  f->SetOverflowProgramError(pe);
  f->SetUnderflowProgramError(pe);
}

}  // namespace verif_unit

namespace mpact {
namespace sim {
namespace generic {
template int DelayLine<FunctionDelayRecord>::Add(int, std::function<void()>);
#define INST(T)                                                 \
  template class RegisterSourceOperand<T>;                      \
  template class RegisterDestinationOperand<T>;                 \
  template class FifoSourceOperand<T>;                          \
  template class FifoDestinationOperand<T>;                     \
  template class DevNullOperand<T>;
INST(uint8_t)
INST(int8_t)
INST(uint16_t)
INST(int16_t)
INST(uint32_t)
INST(int32_t)
INST(uint64_t)
INST(int64_t)
}  // namespace generic
}  // namespace sim
}  // namespace mpact
